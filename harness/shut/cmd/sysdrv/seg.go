package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"crypto/rand"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/shut/appx"
	"verif/shut/ethsim"
	"verif/shut/fake"
	"verif/shut/tmrpc"
	"verif/shut/tool"
)

const (
	chainID  = "shutter-1"
	patience = 60 * time.Second
	operator = 9 // the key that bootstraps the chain
	headsUp  = 3
)

// config as scheduled on the main chain
type config struct {
	i, start, block, span, timeout int
	kp                             []int
	thr                            int
}

func (c *config) end(b int) int { return c.block + (b-c.start+1)*c.span }

type eon struct{ eon, start, h int }

type seg struct {
	r       *mrand.Rand
	dir     string
	bufMu   sync.Mutex
	buf     bytes.Buffer
	mu      sync.Mutex
	app     *appx.Node
	node    *fake.Node
	sim     *ethsim.Sim
	c       ethsim.Contracts
	L       int
	stagger int
	ks      map[int]*kpr
	core    map[int]bool // never stopped
	liar    int          // the number of its key, or -1
	weak    bool         // the core may be stopped as well
	pool    []*waiting
	seen    int // transactions on the main chain that have been recorded
	cfgs    []*config
	eons    []eon
	ids     map[string]int
	nid     int
	nonce   uint64
	broken  bool
	polys   map[int]*shcrypto.Polynomial
}

func (s *seg) put(m M) {
	b, err := json.Marshal(m)
	must(err)
	s.bufMu.Lock()
	defer s.bufMu.Unlock()
	s.buf.Write(append(b, '\n'))
	if os.Getenv("VERBOSE") != "" {
		println(string(b))
	}
}

func (s *seg) trouble(what string) {
	s.broken = true
	s.put(M{"op": "trouble", "what": what})
}

func newSeg(r *mrand.Rand) *seg {
	s := &seg{
		r: r, L: 9 + r.Intn(4), stagger: r.Intn(3), ks: map[int]*kpr{}, core: map[int]bool{}, liar: -1,
		ids: map[string]int{}, node: &fake.Node{}, polys: map[int]*shcrypto.Polynomial{},
	}
	var err error
	s.dir, err = os.MkdirTemp(base, "sysdrv")
	must(err)
	s.app = appx.NewNode(s.dir, appx.Genesis{KP: []string{fmt.Sprint("k", operator+1)}, Thr: 1, Chain: chainID})
	s.sim = ethsim.New()
	s.sim.Unseal()
	s.c = ethsim.DeployAll(s.sim, ethsim.Addr(0), headsUp, 20)
	for i := 0; i < operator; i++ {
		s.sim.Fund(appx.Addrs[i], new(big.Int).Mul(big.NewInt(1000), big.NewInt(1e18)))
	}
	s.sim.Mine()
	s.cfgs = []*config{{}}
	return s
}

func (s *seg) close() {
	for _, k := range s.ks {
		if k.up() {
			_ = k.cmd.Process.Kill()
			<-k.ended
			k.cleanup()
		}
	}
	_ = os.RemoveAll(s.dir)
}

func nm(n int) string { return fmt.Sprint("k", n+1) }

func nms(l []int) []string {
	r := []string{}
	for _, n := range l {
		r = append(r, nm(n))
	}
	return r
}

// ---- the keyper chain

func (s *seg) height() int { return len(s.node.Blocks) }

// block puts everything that waits, and more, on the keyper chain
func (s *seg) block(more ...[]byte) {
	s.mu.Lock()
	ws := s.pool
	s.pool = nil
	s.mu.Unlock()
	fb := []fake.Tx{}
	h := s.height() + 1
	s.app.Begin()
	deliver := func(tx []byte) abcitypes.ResponseDeliverTx {
		resp, err := s.app.DeliverRaw(tx)
		must(err)
		fb = append(fb, fake.Tx{Code: resp.Code, Events: resp.Events})
		if resp.Code == 0 {
			for _, e := range resp.Events {
				s.event(e, h)
			}
		}
		return resp
	}
	var ans []func()
	for _, w := range ws {
		w := w
		if w.ctx.Err() != nil && s.r.Intn(2) == 0 {
			continue // lost with its sender
		}
		resp := deliver(w.tx)
		ans = append(ans, func() { w.ans <- &ctypes.ResultBroadcastTxCommit{DeliverTx: resp, Height: int64(h)} })
	}
	for _, tx := range more {
		deliver(tx)
	}
	s.app.EndRaw(int64(h))
	s.app.App.Commit()
	s.node.With(func(n *fake.Node) { n.Blocks = append(n.Blocks, fb); n.Head = int64(h) + 1 })
	for _, f := range ans {
		f()
	}
	s.push()
}

func (s *seg) event(e abcitypes.Event, h int) {
	x, err := shutterevents.MakeEvent(e, 7)
	if err != nil {
		return
	}
	if st, ok := x.(*shutterevents.EonStarted); ok {
		s.eons = append(s.eons, eon{int(st.Eon), int(st.BatchIndex), h})
		s.put(M{"op": "eon", "start": st.BatchIndex})
	}
}

// push tells all keypers of the heads of the chains
func (s *seg) push() {
	for _, k := range s.ks {
		if k.up() {
			k.enode.SetHead(s.sim.Head())
			k.tm.NewBlock(int64(s.height()) + 1)
		}
	}
}

// ---- the main chain

var (
	execABI  = ethsim.ExecutorABI
	addTypes = map[string]uint8{"cipher": 0, "plain": 1}
)

func unpack(a *abi.ABI, data []byte) (string, []interface{}) {
	if len(data) < 4 {
		return "", nil
	}
	m, err := a.MethodById(data[:4])
	if err != nil {
		return "", nil
	}
	l, err := m.Inputs.Unpack(data[4:])
	if err != nil {
		return "", nil
	}
	return m.Name, l
}

func (s *seg) idsOf(x interface{}) []int {
	l := []int{}
	for _, t := range x.([][]byte) {
		l = append(l, s.ids[string(t)])
	}
	return l
}

// mine a block and record what keypers did in it
func (s *seg) mine() {
	n := s.sim.Mine()
	s.put(M{"op": "block", "n": n})
	l := s.sim.Sent()
	for _, t := range l[s.seen:] {
		rc := s.sim.Receipt(t.Tx.Hash())
		if rc == nil || t.Tx.To() == nil {
			continue
		}
		switch *t.Tx.To() {
		case s.c.Executor:
			if rc.Status != 1 {
				continue
			}
			name, a := unpack(execABI, t.Tx.Data())
			switch name {
			case "executeCipherBatch":
				s.put(M{"op": "exec", "kind": "cipher", "b": a[0], "ids": s.idsOf(a[2])})
			case "executePlainBatch":
				s.put(M{"op": "exec", "kind": "plain", "b": a[0], "ids": s.idsOf(a[1])})
			case "skipCipherExecution":
				s.put(M{"op": "exec", "kind": "skip", "b": a[0], "ids": []int{}})
			default:
				s.put(M{"op": "trouble", "what": "keypers call " + name})
			}
		case s.c.Slasher:
			name, _ := unpack(ethsim.SlasherABI, t.Tx.Data())
			s.put(M{"op": "trouble", "what": "keypers call " + name})
		}
	}
	s.seen = len(l)
	s.push()
}

func (s *seg) apply(from common.Address, to common.Address, a *abi.ABI, method string, args ...interface{}) bool {
	ok, _ := s.sim.Apply(from, &to, nil, ethsim.Pack(a, method, args...))
	return ok
}

func (s *seg) schedule(c *config) {
	o := ethsim.Addr(0)
	call := func(method string, args ...interface{}) {
		if !s.apply(o, s.c.Config, ethsim.ConfigABI, method, args...) {
			panic(method + " failed")
		}
	}
	set := func(f string, v interface{}) { call("nextConfigSet"+f, v) }
	c.i = len(s.cfgs)
	set("StartBatchIndex", uint64(c.start))
	set("StartBlockNumber", uint64(c.block))
	set("Threshold", uint64(c.thr))
	set("BatchSpan", uint64(c.span))
	set("ExecutionTimeout", uint64(c.timeout))
	set("BatchSizeLimit", uint64(100000))
	set("TransactionSizeLimit", uint64(10000))
	set("TransactionGasLimit", uint64(100000))
	set("TargetAddress", common.Address{7})
	call("nextConfigRemoveKeypers", uint64(100))
	call("nextConfigAddKeypers", appx.AddrsOf(nms(c.kp)))
	call("scheduleNextConfig")
	s.cfgs = append(s.cfgs, c)
	s.put(M{"op": "cfg", "start": c.start, "block": c.block, "span": c.span, "timeout": c.timeout, "thr": c.thr, "kp": nms(c.kp)})
}

func (s *seg) ask(to common.Address, a *abi.ABI, method string, args ...interface{}) interface{} {
	ok, ret := s.sim.Ask(to, ethsim.Pack(a, method, args...))
	if !ok {
		return nil
	}
	l, err := a.Unpack(method, ret)
	must(err)
	return l[0]
}

func (s *seg) halfSteps() int {
	return int(s.ask(s.c.Executor, execABI, "numExecutionHalfSteps").(uint64))
}

func (s *seg) cfgOf(b int) *config {
	for i := len(s.cfgs) - 1; i > 0; i-- {
		if s.cfgs[i].start <= b {
			return s.cfgs[i]
		}
	}
	return nil
}

// openBatch is the batch that takes transactions in the next block, or -1
func (s *seg) openBatch() int {
	n := int(s.sim.Head()) + 1
	for i := len(s.cfgs) - 1; i > 0; i-- {
		if c := s.cfgs[i]; c.block <= n {
			return c.start + (n-c.block)/c.span
		}
	}
	return -1
}

// key is the key announced for a batch, with the first batch of its eon
func (s *seg) key(b int) (*shcrypto.EonPublicKey, int) {
	c := s.cfgOf(b)
	if c == nil {
		return nil, -1
	}
	best := -1
	for _, e := range s.eons {
		if e.start >= c.start && e.start <= b && e.start > best {
			best = e.start
		}
	}
	if best < 0 {
		return nil, -1
	}
	n := s.ask(s.c.Key, ethsim.KeyABI, "getBestKeyNumVotes", uint64(best))
	k := s.ask(s.c.Key, ethsim.KeyABI, "getBestKey", uint64(best))
	if n == nil || k == nil || n.(*big.Int).Cmp(big.NewInt(int64(c.thr))) < 0 {
		return nil, -1
	}
	p := new(shcrypto.EonPublicKey)
	if err := p.Unmarshal(k.([]byte)); err != nil {
		s.trouble("the announced key is not one")
		return nil, -1
	}
	return p, best
}

func epochID(b int) *shcrypto.EpochID {
	var buf [8]byte
	binary.BigEndian.PutUint64(buf[:], uint64(b))
	return shcrypto.ComputeEpochID(buf[:])
}

// submit sends a user's transaction to the batch that is open
func (s *seg) submit(kind string) {
	b := s.openBatch()
	if b < 0 {
		return
	}
	s.nid++
	content := []byte(fmt.Sprintf("transaction %d %s", s.nid, strings.Repeat("x", s.r.Intn(90))))
	tx, good, wild, eon := content, true, false, -1
	if kind != "plain" {
		pk, e := s.key(b)
		eon = e
		if pk == nil {
			if kind == "cipher" {
				return
			}
			_, g, err := bn256.RandomG2(rand.Reader)
			must(err)
			pk, kind = (*shcrypto.EonPublicKey)(g), "garbage"
		}
		eb := b
		if kind == "otherepoch" {
			eb = b + 1
		}
		var sigma shcrypto.Block
		_, err := rand.Read(sigma[:])
		must(err)
		tx = shcrypto.Encrypt(append([]byte{}, content...), pk, epochID(eb), sigma).Marshal()
		switch kind {
		case "garbage":
			tx = []byte("garbage")
		case "truncated":
			tx = tx[:len(tx)-1]
		case "flipped":
			tx[len(tx)-1] ^= 0x40
		}
		good, wild = kind == "cipher", kind == "otherepoch"
		kind = "cipher"
	}
	if !s.apply(ethsim.Addr(1+s.r.Intn(3)), s.c.Batcher, ethsim.BatcherABI, "addTransaction", uint64(b), addTypes[kind], tx) {
		return
	}
	s.ids[string(content)] = s.nid
	s.put(M{"op": "submit", "b": b, "id": s.nid, "kind": kind, "good": good, "wild": wild, "e": eon})
}

// ---- running

// settle lets the keypers work until there is nothing left to do. With victim, that keyper is killed at
// some point on the way.
func (s *seg) settle(victim *kpr) {
	if s.broken {
		return
	}
	deadline, mined := time.Now().Add(patience), 0
	var pushed, quiet, first time.Time
	killAt := time.Now().Add(time.Duration(s.r.Intn(300)) * time.Millisecond)
	s.push()
	for {
		if victim != nil && victim.up() && time.Now().After(killAt) {
			victim.stop(syscall.SIGKILL)
		}
		s.mu.Lock()
		waits := map[int]bool{}
		for _, w := range s.pool {
			if w.k != nil {
				waits[w.k.n] = true
			}
		}
		s.mu.Unlock()
		all, ready := true, true
		for _, k := range s.ks {
			if !k.up() {
				continue
			}
			select {
			case <-k.ended:
				l := strings.TrimSpace(k.log.String())
				if len(l) > 160 {
					l = l[len(l)-160:]
				}
				k.life.gone = true
				k.cleanup()
				s.trouble("a keyper ended by itself: " + l)
				return
			default:
			}
			ok := k.settled()
			all, ready = all && ok, ready && (ok || waits[k.n])
		}
		s.mu.Lock()
		msgs := len(s.pool)
		s.mu.Unlock()
		txs := s.sim.Pending()
		switch {
		case msgs > 0:
			// one that is busy sends a message as well, if it is given the time
			if first.IsZero() {
				first = time.Now()
			}
			if ready || time.Since(first) > time.Second {
				s.block()
				quiet, first = time.Time{}, time.Time{}
				deadline = time.Now().Add(patience)
			}
		case txs > 0:
			if mined++; mined > 8 {
				// blocks close further batches, so that there may always be something left
				s.put(M{"op": "busy", "until": s.sim.Head() + 40})
				return
			}
			s.mine()
			quiet = time.Time{}
			deadline = time.Now().Add(patience)
		case all:
			if victim == nil || !victim.up() {
				return
			}
		default:
			if quiet.IsZero() {
				quiet = time.Now()
			}
			if time.Since(quiet) > 300*time.Millisecond && time.Since(pushed) > 300*time.Millisecond {
				pushed = time.Now()
				s.push()
			}
		}
		if time.Now().After(deadline) {
			if os.Getenv("VERBOSE") != "" {
				for _, k := range s.ks {
					if k.up() {
						l := k.log.String()
						if len(l) > 3000 {
							l = l[len(l)-3000:]
						}
						fmt.Fprintf(os.Stderr, "%s %+v height %d head %d follow %d\n%s\n", k.name(), k.read(), s.height(), s.sim.Head(), k.follow, l)
					}
				}
			}
			s.trouble("keypers do not get on")
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (s *seg) tx(n int, m *shmsg.Message) []byte {
	s.nonce++
	return appx.MakeTx(m, chainID, s.nonce, appx.Keys[n])
}

// lie makes up messages of a keyper that has no process
func (s *seg) lie() [][]byte {
	r, n := s.r, s.liar
	b := s.openBatch()
	if b < 0 {
		b = 0
	}
	var l [][]byte
	point := func() *bn256.G1 { _, g, err := bn256.RandomG1(rand.Reader); must(err); return g }
	if r.Intn(3) == 0 {
		l = append(l, s.tx(n, shmsg.NewCheckIn(seed(100+n), &appx.EncKey[n].PublicKey)))
	}
	if r.Intn(3) == 0 {
		l = append(l, s.tx(n, shmsg.NewEonStartVote(uint64(r.Intn(b+2)))))
	}
	if r.Intn(2) == 0 && b > 0 {
		sig := make([]byte, 65)
		_, _ = rand.Read(sig)
		if r.Intn(2) == 0 {
			var err error
			sig, err = crypto.Sign(crypto.Keccak256([]byte("lie")), appx.Keys[n])
			must(err)
		}
		l = append(l, s.tx(n, shmsg.NewDecryptionSignature(uint64(b-1), sig)))
	}
	if len(s.eons) == 0 {
		return l
	}
	e := s.eons[len(s.eons)-1]
	c := s.cfgOf(e.start)
	if c == nil {
		return l
	}
	for d := 0; d < 2; d++ {
		if r.Intn(2) == 0 && b >= d {
			l = append(l, s.tx(n, shmsg.NewEpochSecretKeyShare(uint64(e.eon), uint64(b-d), (*shcrypto.EpochSecretKeyShare)(point()))))
		}
	}
	p := s.polys[e.eon]
	if p == nil {
		var err error
		p, err = shcrypto.RandomPolynomial(rand.Reader, uint64(c.thr-1))
		must(err)
		s.polys[e.eon] = p
	}
	others := []int{}
	for _, o := range c.kp {
		if o != n && r.Intn(3) > 0 {
			others = append(others, o)
		}
	}
	switch age := s.height() + 1 - e.h; {
	case age < s.L:
		if r.Intn(2) == 0 {
			l = append(l, s.tx(n, shmsg.NewPolyCommitment(uint64(e.eon), p.Gammas())))
		}
		if r.Intn(2) == 0 && len(others) > 0 {
			vs := [][]byte{}
			for _, o := range others {
				v := p.EvalForKeyper(index(c.kp, o))
				if r.Intn(3) == 0 {
					v = new(big.Int).Add(v, big.NewInt(1))
				}
				x, err := ecies.Encrypt(rand.Reader, &appx.EncKey[o].PublicKey, v.Bytes(), nil, nil)
				must(err)
				vs = append(vs, x)
			}
			l = append(l, s.tx(n, shmsg.NewPolyEval(uint64(e.eon), appx.AddrsOf(nms(others)), vs)))
		}
	case age < 2*s.L:
		if r.Intn(2) == 0 && len(others) > 0 {
			l = append(l, s.tx(n, shmsg.NewAccusation(uint64(e.eon), appx.AddrsOf(nms(others)))))
		}
	case age < 3*s.L:
		if r.Intn(2) == 0 && len(others) > 0 {
			vs := []*big.Int{}
			for _, o := range others {
				vs = append(vs, new(big.Int).Add(p.EvalForKeyper(index(c.kp, o)), big.NewInt(int64(r.Intn(2)))))
			}
			l = append(l, s.tx(n, shmsg.NewApology(uint64(e.eon), appx.AddrsOf(nms(others)), vs)))
		}
	}
	return l
}

func index(l []int, x int) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

// keyperBlocks lets the keyper chain go on
func (s *seg) keyperBlocks(n int) {
	for ; n > 0 && !s.broken; n-- {
		if s.liar >= 0 && s.r.Intn(2) == 0 {
			s.block(s.lie()...)
		} else {
			s.block()
		}
		s.settle(nil)
	}
}

func (s *seg) mainBlock() {
	if !s.broken {
		s.mine()
		s.settle(nil)
	}
}

// bootstrap runs the operator's command
func (s *seg) bootstrap() {
	tm := tmrpc.New(&backend{s.node, s, nil})
	enode := s.sim.NewNode()
	web := httptest.NewServer(enode.Server())
	names := []string{"ConfigContract", "KeyBroadcastContract", "FeeBankContract", "BatcherContract", "ExecutorContract", "TokenContract", "DepositContract", "KeyperSlasherContract", "TargetProxyContract", "TargetContract"}
	m := map[string]string{}
	for _, n := range names {
		m[n] = common.Address{}.Hex()
	}
	m["ConfigContract"] = s.c.Config.Hex()
	b, err := json.Marshal(m)
	must(err)
	file := filepath.Join(s.dir, "contracts.json")
	must(os.WriteFile(file, b, 0o600))
	done := make(chan tool.Result, 1)
	go func() {
		done <- tool.Run(s.dir, nil, patience, "bootstrap", "-s", tm.URL, "-e", web.URL, "-c", file, "-k", fmt.Sprintf("%x", crypto.FromECDSA(appx.Keys[operator])))
	}()
	for {
		select {
		case r := <-done:
			if !r.OK {
				s.trouble("bootstrap fails")
			}
			go web.Close()
			go tm.Close()
			return
		case <-time.After(5 * time.Millisecond):
			s.mu.Lock()
			n := len(s.pool)
			s.mu.Unlock()
			if n > 0 {
				s.block()
			}
		}
	}
}

// begin sets an instance up: n keypers, the core of them never stopped
func (s *seg) begin(n, thr int, weak bool) {
	r := s.r
	perm := r.Perm(operator)
	c := &config{kp: perm[:n], thr: thr, span: 5 + r.Intn(4), timeout: 14 + r.Intn(8)}
	nlive := thr + r.Intn(n-thr+1)
	for _, k := range c.kp[:nlive] {
		s.core[k] = true
	}
	if rest := c.kp[nlive:]; len(rest) > 0 && thr > 1 && r.Intn(2) == 0 {
		s.liar = rest[0]
	}
	c.kp = append([]int{}, c.kp...)
	r.Shuffle(n, func(i, j int) { c.kp[i], c.kp[j] = c.kp[j], c.kp[i] })
	s.weak = weak
	s.put(M{"op": "reset", "core": !weak})
	c.block = int(s.sim.Head()) + headsUp + 6 + r.Intn(10)
	s.schedule(c)
	s.sim.Mine()
	s.block()
	s.block()
	s.bootstrap()
	f := uint64(r.Intn(3))
	for _, i := range c.kp {
		s.addKeyper(i, f)
	}
	for _, k := range s.ks {
		if s.core[k.n] || r.Intn(3) > 0 {
			k.start()
		}
	}
	s.settle(nil)
	if r.Intn(4) > 0 {
		s.generate()
	}
}

func (s *seg) addKeyper(i int, follow uint64) {
	if i == s.liar || s.ks[i] != nil {
		return
	}
	k := &kpr{s: s, n: i, dir: filepath.Join(s.dir, nm(i)), follow: follow}
	must(os.MkdirAll(k.dir, 0o755))
	s.ks[i] = k
}

// generate lets the keyper chain go on until a key has been announced for the newest config
func (s *seg) generate() {
	c := s.cfgs[len(s.cfgs)-1]
	for i := 0; i < 5*s.L+10 && !s.broken; i++ {
		if pk, _ := s.key(c.start); pk != nil {
			return
		}
		s.keyperBlocks(1)
		if i%6 == 5 {
			s.mainBlock()
		}
	}
}

// change schedules another config with other keypers
func (s *seg) change() {
	r := s.r
	last := s.cfgs[len(s.cfgs)-1]
	n := int(s.sim.Head()) + 1
	if n < last.block || len(s.cfgs) > 2 {
		return
	}
	m := (n+last.span+headsUp-last.block)/last.span + 2 + r.Intn(2) // batches of the last config
	c := &config{start: last.start + m, block: last.block + m*last.span, span: 5 + r.Intn(4), timeout: 14 + r.Intn(8)}
	for _, k := range last.kp { // those that never stop stay, and perhaps others
		if s.core[k] || r.Intn(2) == 0 {
			c.kp = append(c.kp, k)
		}
	}
	for i := 0; i < operator && len(c.kp) < 5; i++ {
		if index(last.kp, i) < 0 && r.Intn(6) == 0 {
			c.kp = append(c.kp, i)
			s.core[i] = true
		}
	}
	cores := 0
	for _, k := range c.kp {
		if s.core[k] {
			cores++
		}
	}
	c.thr = 1 + r.Intn(cores)
	if s.liar >= 0 && index(c.kp, s.liar) >= 0 && c.thr == 1 {
		if cores < 2 {
			return
		}
		c.thr = 2
	}
	r.Shuffle(len(c.kp), func(i, j int) { c.kp[i], c.kp[j] = c.kp[j], c.kp[i] })
	s.schedule(c)
	var follow uint64
	for _, k := range s.ks {
		follow = k.follow
	}
	for _, i := range c.kp {
		s.addKeyper(i, follow)
		if k := s.ks[i]; k != nil && s.core[i] && !k.up() {
			k.start()
		}
	}
	s.mainBlock()
	if r.Intn(3) > 0 {
		s.generate()
	}
}

func (s *seg) pick(f func(*kpr) bool) *kpr {
	var l []*kpr
	for i := 0; i < operator; i++ {
		if k := s.ks[i]; k != nil && f(k) {
			l = append(l, k)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[s.r.Intn(len(l))]
}

func (s *seg) mayStop(k *kpr) bool { return k.up() && (s.weak || !s.core[k.n]) }

// users submit transactions to the open batch
func (s *seg) users(n int) {
	for ; n > 0; n-- {
		s.submit([]string{"cipher", "cipher", "cipher", "cipher", "plain", "plain", "garbage", "truncated", "otherepoch", "flipped"}[s.r.Intn(10)])
	}
}

func (s *seg) random(ops int) {
	r := s.r
	n := 1 + r.Intn(4)
	s.begin(n, 1+r.Intn(n), r.Intn(4) == 0)
	for i := 0; i < ops && !s.broken; i++ {
		switch x := r.Intn(40); {
		case x < 24:
			s.users(r.Intn(3))
			s.mainBlock()
		case x < 32:
			s.keyperBlocks(1 + r.Intn(2))
		case x < 34:
			s.change()
		case x < 37:
			if k := s.pick(s.mayStop); k != nil {
				s.users(r.Intn(3))
				s.mine()
				s.settle(k)
			}
		case x < 38:
			if k := s.pick(s.mayStop); k != nil {
				k.stop(syscall.SIGTERM)
			}
		default:
			if k := s.pick(func(k *kpr) bool { return !k.up() }); k != nil {
				k.start()
				s.settle(nil)
			}
		}
	}
	s.finish()
}

// finish lets everything that has been closed be executed
func (s *seg) finish() {
	if s.broken {
		return
	}
	if s.weak {
		for i := 0; i < operator; i++ {
			if k := s.ks[i]; k != nil && !k.up() {
				k.start()
			}
		}
		s.settle(nil)
	}
	want := 2 * s.openBatch()
	half, since := s.halfSteps(), 0
	for half < want && since < 40 && !s.broken {
		s.mainBlock()
		s.keyperBlocks(1)
		since++
		if h := s.halfSteps(); h > half {
			half, since = h, 0
		}
	}
	if !s.broken {
		s.put(M{"op": "end", "half": s.halfSteps(), "want": want})
	}
}

// plan performs a script
func (s *seg) plan(l []op) {
	s.begin(3, 2, s.r.Intn(2) == 0)
	for _, o := range l {
		if s.broken {
			break
		}
		switch o.K {
		case "submit":
			s.submit(o.T)
		case "block": // of the specification, where each is a batch
			for i := s.cfgs[1].span; i > 0; i-- {
				s.mainBlock()
			}
		case "eon":
			s.keyperBlocks(3)
		case "stop":
			if k := s.pick(s.mayStop); k != nil {
				k.stop(syscall.SIGKILL)
			}
		case "start":
			if k := s.pick(func(k *kpr) bool { return !k.up() }); k != nil {
				k.start()
				s.settle(nil)
			}
		}
	}
	s.finish()
}
