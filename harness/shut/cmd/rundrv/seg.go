package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/shut/appx"
	"verif/shut/ethsim"
	"verif/shut/fake"
	"verif/shut/tmrpc"
)

const (
	chainID  = "chain"
	me       = "k1"
	patience = 25 * time.Second
)

var valKey = ed25519.NewKeyFromSeed(crypto.Keccak256([]byte(me)))

type cfg struct {
	kp    []string
	thr   int
	start int
	idx   int
}

func (c cfg) m() M { return M{"kp": c.kp, "thr": c.thr, "start": c.start, "idx": c.idx} }

type eonInfo struct {
	eon, start, h int
	cfg           cfg
}

// held is a message waiting for its answer
type held struct {
	tx  []byte
	ans chan *ctypes.ResultBroadcastTxCommit
}

type life struct {
	s      *seg
	dir    string
	tm     *tmrpc.Server
	eth    *httptest.Server
	enode  *ethsim.Node
	cancel context.CancelFunc
	ended  chan error
	dead   bool // under mu: its requests do not reach anyone any more
}

type seg struct {
	mu     sync.Mutex
	r      *mrand.Rand
	dir    string
	buf    bytes.Buffer
	L      int
	app    *appx.Node
	node   *fake.Node
	shown  int // the height shown to the keyper
	sim    *ethsim.Sim
	c      ethsim.Contracts
	main   []cfg
	cfgs   []cfg
	eons   []eonInfo
	ekgs   map[string]int
	polys  map[string]*shcrypto.Polynomial
	nonce  uint64
	lives  int
	cur    *life
	last   string // the disk as last logged
	d      *disk
	held   *held
	pooled []M // labels of transactions not yet mined
	snap   files
	broken bool
	step   int
}

func (s *seg) put(m M) {
	b, err := json.Marshal(m)
	must(err)
	s.buf.Write(append(b, '\n'))
}

func newSeg(r *mrand.Rand, dir string) *seg {
	must(os.MkdirAll(dir, 0o755))
	s := &seg{r: r, dir: dir, L: 2 + r.Intn(2), ekgs: map[string]int{}, polys: map[string]*shcrypto.Polynomial{}}
	s.app = appx.NewNode(dir, appx.Genesis{KP: []string{"k2", "k3"}, Thr: 1, Chain: chainID})
	s.node = &fake.Node{}
	s.sim = ethsim.New()
	s.sim.Unseal()
	s.c = ethsim.DeployAll(s.sim, ethsim.Addr(0), 5, 20)
	a := crypto.PubkeyToAddress(appx.Keys[0].PublicKey)
	s.sim.Fund(a, new(big.Int).Mul(big.NewInt(1000), big.NewInt(1e18)))
	s.sim.Mine()
	s.put(M{"op": "reset", "L": s.L, "me": me})
	s.main = []cfg{{kp: []string{}}}
	s.put(M{"op": "main", "cfg": s.main[0].m()})
	return s
}

// ---- the keyper chain

func (s *seg) height() int { return len(s.node.Blocks) }

func (s *seg) tx(from string, m *shmsg.Message) []byte {
	s.nonce++
	return appx.MakeTx(m, chainID, s.nonce, appx.Keys[appx.KeyIndex(from)])
}

// block puts transactions on the chain; the keyper is not told
func (s *seg) block(txs [][]byte) []abcitypes.ResponseDeliverTx {
	evs := []M{}
	fb := []fake.Tx{}
	var res []abcitypes.ResponseDeliverTx
	h := int64(s.height()) + 1
	s.app.Begin()
	for _, tx := range txs {
		resp, err := s.app.DeliverRaw(tx)
		must(err)
		for _, e := range resp.Events {
			if resp.Code == 0 {
				evs = append(evs, s.describe(e, int(h)))
			}
		}
		fb = append(fb, fake.Tx{Code: resp.Code, Events: resp.Events})
		res = append(res, resp)
	}
	s.app.EndRaw(h)
	s.app.App.Commit()
	s.node.With(func(n *fake.Node) { n.Blocks = append(n.Blocks, fb) })
	s.put(M{"op": "block", "evs": evs})
	return res
}

func (s *seg) eon(n int) *eonInfo {
	for i := range s.eons {
		if s.eons[i].eon == n {
			return &s.eons[i]
		}
	}
	return nil
}

func cname(who string, eon uint64) string { return fmt.Sprintf("%s-%d", who, eon) }

func val(who string, eon uint64, ok bool) M {
	return M{"id": "v" + cname(who, eon), "valid": ok, "dec": ok, "fits": []string{cname(who, eon)}}
}

// describe an event on the chain; everyone is known to deal correctly whenever they deal at all
func (s *seg) describe(ev abcitypes.Event, h int) M {
	x, err := shutterevents.MakeEvent(ev, 7)
	if err != nil {
		return M{"t": "undecodable"}
	}
	switch e := x.(type) {
	case *shutterevents.PolyCommitment:
		snd := appx.AddrName(e.Sender)
		return M{"t": "pc", "eon": e.Eon, "snd": snd, "c": cname(snd, e.Eon), "deg": len(*e.Gammas) - 1}
	case *shutterevents.PolyEval:
		snd, rc, vs := appx.AddrName(e.Sender), appx.AddrNames(e.Receivers), []M{}
		for range rc {
			vs = append(vs, val(snd, e.Eon, true))
		}
		return M{"t": "pe", "eon": e.Eon, "snd": snd, "rc": rc, "v": vs}
	case *shutterevents.Accusation:
		return M{"t": "ac", "eon": e.Eon, "snd": appx.AddrName(e.Sender), "acc": appx.AddrNames(e.Accused)}
	case *shutterevents.Apology:
		snd, acc, vs := appx.AddrName(e.Sender), appx.AddrNames(e.Accusers), []M{}
		for range acc {
			vs = append(vs, val(snd, e.Eon, true))
		}
		return M{"t": "ap", "eon": e.Eon, "snd": snd, "acc": acc, "v": vs}
	case *shutterevents.BatchConfig:
		c := cfg{appx.AddrNames(e.Keypers), int(e.Threshold), int(e.StartBatchIndex), int(e.ConfigIndex)}
		s.cfgs = append(s.cfgs, c)
		m := c.m()
		m["t"] = "bc"
		return m
	case *shutterevents.EonStarted:
		i := eonInfo{eon: int(e.Eon), start: int(e.BatchIndex), h: h}
		for j := len(s.cfgs) - 1; j >= 0; j-- {
			if s.cfgs[j].start <= i.start {
				i.cfg = s.cfgs[j]
				break
			}
		}
		s.eons = append(s.eons, i)
		return M{"t": "eon", "eon": e.Eon, "start": e.BatchIndex}
	case *shutterevents.CheckIn:
		return M{"t": "ci", "snd": appx.AddrName(e.Sender)}
	}
	return M{"t": "other"}
}

// ---- the main chain

func (s *seg) addConfig(c cfg) {
	c.idx = len(s.main)
	o := ethsim.Addr(0)
	call := func(method string, args ...interface{}) {
		if ok, _ := s.sim.Apply(o, &s.c.Config, nil, ethsim.Pack(ethsim.ConfigABI, method, args...)); !ok {
			panic(method + " failed")
		}
	}
	call("nextConfigSetStartBatchIndex", uint64(c.start))
	call("nextConfigSetStartBlockNumber", uint64(1_000_000+10*c.start))
	call("nextConfigSetThreshold", uint64(c.thr))
	call("nextConfigSetBatchSpan", uint64(10))
	call("nextConfigSetExecutionTimeout", uint64(50))
	call("nextConfigAddKeypers", appx.AddrsOf(c.kp))
	call("scheduleNextConfig")
	s.main = append(s.main, c)
	s.put(M{"op": "main", "cfg": c.m()})
	s.mine()
}

// mine a block; the keyper is not told
func (s *seg) mine() {
	s.sim.Mine()
	for _, l := range s.pooled {
		s.put(M{"op": "mined", "a": l})
	}
	s.pooled = nil
}

// ---- what the keyper talks to

var errGone = errors.New("connection refused")

type backend struct {
	*fake.Node
	l *life
}

func (b *backend) BlockchainInfo(ctx context.Context, min, max int64) (*ctypes.ResultBlockchainInfo, error) {
	return &ctypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: chainID}}}}, nil
}

func (b *backend) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	s := b.l.s
	s.mu.Lock()
	if b.l.dead || s.broken {
		s.mu.Unlock()
		return nil, errGone
	}
	s.logDisk(b.l)
	s.put(M{"op": "send", "a": wireLabel(tx)})
	if s.held != nil {
		s.put(M{"op": "trouble", "what": "two messages at a time"})
		s.broken = true
	}
	h := &held{tx: tx, ans: make(chan *ctypes.ResultBroadcastTxCommit, 1)}
	s.held = h
	s.mu.Unlock()
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case r := <-h.ans:
		if r == nil {
			return nil, errGone
		}
		return r, nil
	}
}

func wireLabel(tx []byte) M {
	raw, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return M{"a": "undecodable"}
	}
	mn, err := shmsg.GetMessage(raw)
	if err != nil {
		return M{"a": "undecodable"}
	}
	return msgLabel(mn.Msg)
}

// ---- one life of the keyper

func (s *seg) start() {
	s.lives++
	l := &life{s: s, dir: filepath.Join(s.dir, fmt.Sprint("life", s.lives)), ended: make(chan error, 1)}
	must(os.MkdirAll(l.dir, 0o755))
	s.snap.write(l.dir)
	if s.r.Intn(3) == 0 { // leftovers of a crash while writing
		must(os.WriteFile(filepath.Join(l.dir, []string{"state", "actions"}[s.r.Intn(2)]+".gob.tmp"), []byte("half written"), 0o600))
	}
	l.tm = tmrpc.New(&backend{s.node, l})
	l.enode = s.sim.NewNode()
	l.enode.Follow = false
	l.enode.OnSend = func(tx *types.Transaction, from common.Address) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		if l.dead || s.broken {
			return errGone
		}
		s.logDisk(l)
		s.put(M{"op": "submit", "a": s.txLabel(tx.To(), tx.Data())})
		return nil
	}
	l.enode.OnSent = func(tx *types.Transaction, from common.Address) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.pooled = append(s.pooled, s.txLabel(tx.To(), tx.Data()))
	}
	l.eth = httptest.NewServer(l.enode.Server().WebsocketHandler([]string{"*"}))
	conf := keyper.Config{
		ShuttermintURL: l.tm.URL, EthereumURL: "ws" + strings.TrimPrefix(l.eth.URL, "http"), DBDir: l.dir,
		SigningKey: appx.Keys[0], ValidatorKey: valKey, EncryptionKey: appx.EncKey[0],
		ConfigContractAddress: s.c.Config, BatcherContractAddress: s.c.Batcher, KeyBroadcastContractAddress: s.c.Key,
		ExecutorContractAddress: s.c.Executor, DepositContractAddress: s.c.Deposit, KeyperSlasherAddress: s.c.Slasher,
		ExecutionStaggering: 3, DKGPhaseLength: uint64(s.L), GasPriceMultiplier: 1,
	}
	s.mu.Lock()
	s.cur, s.last, s.held = l, "", nil
	s.put(M{"op": "up"})
	s.mu.Unlock()
	k := keyper.NewKeyper(conf)
	if err := k.LoadState(); err != nil {
		s.died(l, "cannot load the state")
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	go func() {
		err := k.Run(ctx)
		s.mu.Lock()
		if !l.dead {
			s.put(M{"op": "trouble", "what": "the keyper ended by itself"})
			s.broken = true
		}
		s.mu.Unlock()
		l.ended <- err
	}()
	go l.watch()
}

func (s *seg) died(l *life, why string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.put(M{"op": "trouble", "what": why})
	s.broken = true
	l.dead = true
	l.ended <- nil
	l.cancel = func() {}
}

// watch logs every change of the files
func (l *life) watch() {
	var seen [2]sig
	for {
		now := l.sigs()
		if now != seen {
			l.s.mu.Lock()
			if l.dead || l.s.broken {
				l.s.mu.Unlock()
				return
			}
			seen = l.s.logDisk(l)
			l.s.mu.Unlock()
		}
		time.Sleep(150 * time.Microsecond)
	}
}

// logDisk; caller holds mu
func (s *seg) logDisk(l *life) [2]sig {
	f, sg := l.read()
	s.d = s.parse(f)
	s.snap = f
	b, err := json.Marshal(s.d.m())
	must(err)
	if string(b) != s.last {
		s.last = string(b)
		s.put(s.d.m())
	}
	return sg
}

// down ends this life. What is on disk at this moment is what the next one starts from.
func (s *seg) down(g *gate) {
	l := s.cur
	s.mu.Lock()
	if !s.broken {
		s.logDisk(l)
	}
	l.dead = true
	h := s.held
	s.held = nil
	s.mu.Unlock()
	l.cancel()
	g.release()
	if h != nil && s.r.Intn(2) == 0 {
		h.ans <- nil
	}
	ended := false
	select {
	case <-l.ended:
		ended = true
	case <-time.After(patience):
	}
	go l.tm.CloseClientConnections()
	go l.eth.CloseClientConnections()
	s.mu.Lock()
	s.cur = nil
	s.put(M{"op": "down", "ended": ended})
	if !ended {
		s.broken = true
	}
	s.mu.Unlock()
}

// how the nodes answer and when the keyper is stopped
type mode struct {
	at  string // "", "state", "queue", "send", "ack", "idle"
	ans string // "ok", "err", "after"
}

// settle shows the keyper the chains as they are now and lets it work until there is nothing left to
// do, or it has been stopped as mode says. It tells whether the keyper was stopped.
func (s *seg) settle(md mode) bool {
	if s.broken {
		return true
	}
	l := s.cur
	h, mc := s.height(), len(s.main)
	s.node.With(func(n *fake.Node) { n.Head = int64(h) + 1 })
	var g *gate
	switch md.at {
	case "state", "queue":
		g = newGate(filepath.Join(l.dir, map[string]string{"state": "state.gob.tmp", "queue": "actions.gob.tmp"}[md.at]))
	}
	deadline := time.Now().Add(patience)
	var pushed time.Time
	bad := md.ans
	for {
		if g.waiting() {
			s.down(g)
			return true
		}
		s.mu.Lock()
		broken, hd := s.broken, s.held
		d := s.d
		fresh := d != nil && s.last != ""
		pool := len(s.pooled)
		s.mu.Unlock()
		if broken {
			s.down(g)
			return true
		}
		synced := fresh && d.h == h && d.mc == mc
		switch {
		case hd != nil:
			if md.at == "send" && g == nil {
				if s.r.Intn(2) == 0 {
					s.mu.Lock()
					s.block([][]byte{hd.tx}) // it reaches the chain all the same
					s.mu.Unlock()
				}
				s.down(nil)
				return true
			}
			if md.at == "ack" && g == nil {
				g = newGate(filepath.Join(l.dir, "actions.gob.tmp"))
			}
			s.mu.Lock()
			var res *ctypes.ResultBroadcastTxCommit
			what := "err"
			if bad != "err" {
				r := s.block([][]byte{hd.tx})[0]
				res = &ctypes.ResultBroadcastTxCommit{DeliverTx: r}
				what = "ok"
				if r.Code != 0 {
					what = "final"
				}
				if bad == "after" {
					res, what = nil, "err"
				}
			}
			bad = "ok"
			s.put(M{"op": "answer", "res": what})
			s.held = nil
			s.mu.Unlock()
			hd.ans <- res
		case pool > 0:
			s.mu.Lock()
			s.mine()
			l.enode.SetHead(s.sim.Head())
			s.mu.Unlock()
		case synced && len(d.pend) == 0 && d.cur == d.ctr+len(d.acts):
			if md.at != "" {
				s.down(g)
				return true
			}
			s.mu.Lock()
			s.put(M{"op": "quiet", "ok": true})
			s.mu.Unlock()
			return false
		case !synced && time.Since(pushed) > 200*time.Millisecond:
			pushed = time.Now()
			l.enode.SetHead(s.sim.Head())
			l.tm.NewBlock(int64(h) + 1)
		}
		if time.Now().After(deadline) {
			s.mu.Lock()
			s.put(M{"op": "quiet", "ok": false})
			s.broken = true
			s.mu.Unlock()
			s.down(g)
			return true
		}
		time.Sleep(300 * time.Microsecond)
	}
}

// ---- the other keypers

func (s *seg) poly(b string, eon, deg int) *shcrypto.Polynomial {
	key := fmt.Sprintf("%s/%d/%d", b, eon, deg)
	p, ok := s.polys[key]
	if !ok {
		var err error
		p, err = shcrypto.RandomPolynomial(rand.Reader, uint64(deg))
		must(err)
		s.polys[key] = p
	}
	return p
}

func (s *seg) checkIn(b string) *shmsg.Message {
	return shmsg.NewCheckIn(crypto.Keccak256([]byte(b+"v")), &appx.EncKey[appx.KeyIndex(b)].PublicKey)
}

func index(kp []string, x string) int {
	for i, y := range kp {
		if x == y {
			return i
		}
	}
	return -1
}

// others says what the other keypers send now
func (s *seg) others() (txs [][]byte) {
	r := s.r
	for _, b := range []string{"k2", "k3"} {
		if r.Intn(8) == 0 {
			txs = append(txs, s.tx(b, s.checkIn(b)))
		}
		if len(s.cfgs) > 0 {
			c := s.cfgs[len(s.cfgs)-1]
			if i := c.idx + 1; i < len(s.main) && index(c.kp, b) >= 0 && r.Intn(2) == 0 {
				n := s.main[i]
				txs = append(txs, s.tx(b, shmsg.NewBatchConfig(uint64(n.start), appx.AddrsOf(n.kp), uint64(n.thr), s.c.Config, uint64(n.idx), false, false)))
			}
		}
		if len(s.eons) == 0 {
			continue
		}
		e := s.eons[len(s.eons)-1]
		i := index(e.cfg.kp, b)
		if i < 0 {
			continue
		}
		k := index(e.cfg.kp, me)
		switch age := s.height() + 1 - e.h; {
		case age < s.L:
			if r.Intn(2) == 0 {
				txs = append(txs, s.tx(b, shmsg.NewPolyCommitment(uint64(e.eon), s.poly(b, e.eon, e.cfg.thr-1).Gammas())))
			}
			if r.Intn(2) == 0 && k >= 0 {
				v := s.poly(b, e.eon, e.cfg.thr-1).EvalForKeyper(k)
				enc, err := ecies.Encrypt(rand.Reader, &appx.EncKey[0].PublicKey, v.Bytes(), []byte(""), []byte(""))
				must(err)
				txs = append(txs, s.tx(b, shmsg.NewPolyEval(uint64(e.eon), appx.AddrsOf([]string{me}), [][]byte{enc})))
			}
		case age < 2*s.L:
			if r.Intn(3) == 0 && k >= 0 {
				txs = append(txs, s.tx(b, shmsg.NewAccusation(uint64(e.eon), appx.AddrsOf([]string{me}))))
			}
		case age < 3*s.L:
			if r.Intn(3) == 0 && k >= 0 {
				txs = append(txs, s.tx(b, shmsg.NewApology(uint64(e.eon), appx.AddrsOf([]string{me}), []*big.Int{s.poly(b, e.eon, e.cfg.thr-1).EvalForKeyper(k)})))
			}
		default:
			if r.Intn(2) == 0 {
				txs = append(txs, s.tx(b, shmsg.NewEonStartVote(uint64(e.start))))
			}
		}
	}
	return txs
}

func (s *seg) config() cfg {
	prev := s.main[len(s.main)-1]
	c := cfg{kp: []string{me}, start: prev.start}
	if prev.idx > 0 {
		c.start += 1 + s.r.Intn(2)
	}
	for _, b := range []string{"k2", "k3"} {
		if s.r.Intn(2) == 0 {
			c.kp = append(c.kp, b)
		}
	}
	s.r.Shuffle(len(c.kp), func(i, j int) { c.kp[i], c.kp[j] = c.kp[j], c.kp[i] })
	c.thr = 1 + s.r.Intn(len(c.kp))
	return c
}

func (s *seg) bootstrap() [][]byte {
	c := s.main[1]
	return [][]byte{s.tx("k2", shmsg.NewBatchConfig(uint64(c.start), appx.AddrsOf(c.kp), uint64(c.thr), s.c.Config, 1, true, true))}
}

// input changes one of the chains
func (s *seg) input() {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch {
	case len(s.main) < 6 && s.r.Intn(6) == 0:
		s.addConfig(s.config())
	default:
		s.block(s.others())
	}
}

func (s *seg) ready() {
	if s.cur == nil && !s.broken {
		for s.r.Intn(3) == 0 { // time goes on meanwhile
			s.input()
		}
		s.start()
	}
}

func (s *seg) begin() {
	s.addConfig(s.config())
	s.block(nil)
	s.block(s.bootstrap())
}

func (s *seg) finish() {
	s.ready()
	if !s.broken && !s.settle(mode{}) {
		s.down(nil)
	}
}

func (s *seg) random(ops int) {
	s.begin()
	for i := 0; i < ops && !s.broken; i++ {
		s.ready()
		md := mode{}
		if s.r.Intn(4) == 0 {
			md.at = []string{"state", "queue", "send", "ack", "idle"}[s.r.Intn(5)]
		}
		md.ans = []string{"ok", "ok", "ok", "ok", "ok", "ok", "ok", "err", "after"}[s.r.Intn(9)]
		s.settle(md)
		if !s.broken {
			s.input()
		}
	}
	s.finish()
}

func (s *seg) plan(l []M) {
	s.begin()
	for _, m := range l {
		if s.broken {
			break
		}
		s.ready()
		s.settle(mode{at: m["at"].(string), ans: m["ans"].(string)})
		if !s.broken {
			s.input()
		}
	}
	s.finish()
}
