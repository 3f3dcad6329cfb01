package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sort"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/medley/txbatch"
	"verif/shut/ethsim"
)

type seg struct {
	r      *mrand.Rand
	buf    bytes.Buffer
	sim    *ethsim.Sim
	c      ethsim.Contracts
	par    params
	follow int
	node   *ethsim.Node
	cc     *contract.Caller
	dir    *contract.Caller // through a node that never lags
	dirn   *ethsim.Node
	v      *observe.MainChain
	tip    int // last block
	calls  int // in the open block
	ids    map[common.Address]int
	hashes map[common.Hash][]int
	keys   map[common.Hash][]int
	nid    int
	lens   map[int]int
	// what the driver knows, to make up calls that may well succeed
	cfgs  []cfg
	nx    cfg
	txs   map[int]*[2][]int
	half  int
	exec  map[int]bool
	accd  map[int]bool
	hist  []know // after every block
	broke bool
	// the real loop, if it is used
	loop    bool
	dirty   bool // the next config of the open block is not that of the last block
	cancel  context.CancelFunc
	views   chan *observe.MainChain
	loopEnd chan error
}

type know struct {
	cfgs []cfg
	nx   cfg
	txs  map[int]*[2][]int
	half int
	exec map[int]bool
	accd map[int]bool
}

func (k know) clone() know {
	n := know{cfgs: append([]cfg{}, k.cfgs...), nx: k.nx, txs: map[int]*[2][]int{}, half: k.half, exec: map[int]bool{}, accd: map[int]bool{}}
	for i, x := range k.txs {
		n.txs[i] = &[2][]int{append([]int{}, x[0]...), append([]int{}, x[1]...)}
	}
	for i := range k.exec {
		n.exec[i] = true
	}
	for i := range k.accd {
		n.accd[i] = true
	}
	return n
}

func (s *seg) know() know { return know{s.cfgs, s.nx, s.txs, s.half, s.exec, s.accd} }
func (s *seg) learn(k know) {
	k = k.clone()
	s.cfgs, s.nx, s.txs, s.half, s.exec, s.accd = k.cfgs, k.nx, k.txs, k.half, k.exec, k.accd
}

const nacc = 7

func newSeg(r *mrand.Rand, par params, follow int) *seg {
	s := &seg{
		r: r, sim: ethsim.New(), par: par, follow: follow, v: observe.NewMainChain(uint64(follow)),
		ids: map[common.Address]int{{}: -1}, hashes: map[common.Hash][]int{{}: {}}, keys: map[common.Hash][]int{{}: {}}, lens: map[int]int{},
		txs: map[int]*[2][]int{}, exec: map[int]bool{}, accd: map[int]bool{},
	}
	s.sim.Unseal()
	for i := 0; i < nacc; i++ {
		s.ids[ethsim.Addr(i)] = i
	}
	s.c = ethsim.DeployAll(s.sim, ethsim.Addr(0), uint64(par.HeadsUp), uint64(par.Appeal))
	for i := 1; i < nacc; i++ {
		ok, _ := s.sim.Apply(ethsim.Addr(0), &s.c.Token, nil, ethsim.Pack(ethsim.TokenABI, "transfer", ethsim.Addr(i), big.NewInt(10_000)))
		if !ok {
			panic("token transfer")
		}
	}
	s.sim.Auto = true
	s.node = s.sim.NewNode()
	s.node.Follow = false
	s.dirn = s.sim.NewNode()
	s.cc = s.c.Caller(s.node.Client(), ethsim.Key(1))
	s.dir = s.c.Caller(s.dirn.Client(), ethsim.Key(0))
	s.tip = -1
	s.dirty = true
	s.cfgs = []cfg{zcfg()}
	s.nx = zcfg()
	s.logm(M{"op": "reset", "par": par, "follow": follow})
	return s
}

func zcfg() cfg { return cfg{KP: []int{}, FR: -1, TA: -1} }

func (s *seg) logm(m M) {
	b, err := json.Marshal(m)
	must(err)
	s.buf.Write(b)
	s.buf.WriteByte('\n')
}

func (s *seg) id(a common.Address) int {
	if i, ok := s.ids[a]; ok {
		return i
	}
	return -9
}

func addr(i int) common.Address {
	if i < 0 {
		return common.Address{}
	}
	return ethsim.Addr(i)
}

func sel(i int) (r [4]byte) {
	binary.BigEndian.PutUint32(r[:], uint32(i))
	return r
}

// txBytes: a transaction's contents follow from its number
func (s *seg) txBytes(id int) []byte {
	n := s.lens[id]
	b := make([]byte, n)
	copy(b, crypto.Keccak256([]byte(fmt.Sprint("tx", id))))
	if n > 0 && n < 4 { // keep short ones apart
		b[0] = byte(id)
	}
	return b
}

// commit is the hash of a sequence of transactions
func (s *seg) commit(txs []int) common.Hash {
	h := common.Hash{}
	for i, t := range txs {
		h = crypto.Keccak256Hash(append(append([]byte{}, s.txBytes(t)...), h[:]...))
		if _, ok := s.hashes[h]; !ok {
			s.hashes[h] = append([]int{}, txs[:i+1]...)
		}
	}
	return h
}

func (s *seg) txs2(l []int) [][]byte {
	r := [][]byte{}
	for _, t := range l {
		r = append(r, s.txBytes(t))
	}
	return r
}

func (s *seg) unhash(h common.Hash) []int {
	if l, ok := s.hashes[h]; ok {
		return l
	}
	return []int{-9}
}

func (s *seg) txID(b []byte) int {
	for id := range s.lens {
		if bytes.Equal(s.txBytes(id), b) {
			return id
		}
	}
	return -9
}

func keyBytes(k []int) []byte {
	b := []byte{}
	for _, x := range k {
		b = append(b, byte(x))
	}
	return b
}

func (s *seg) real(c cfg) contract.BatchConfig {
	kp := []common.Address{}
	for _, k := range c.KP {
		kp = append(kp, addr(k))
	}
	return contract.BatchConfig{
		StartBatchIndex: uint64(c.SBI), StartBlockNumber: uint64(c.SB), Keypers: kp, Threshold: uint64(c.T), BatchSpan: uint64(c.Span),
		BatchSizeLimit: uint64(c.BSL), TransactionSizeLimit: uint64(c.TSL), TransactionGasLimit: uint64(c.Gas), FeeReceiver: addr(c.FR), TargetAddress: addr(c.TA),
		TargetFunctionSelector: sel(c.Sel), ExecutionTimeout: uint64(c.TO),
	}
}

func (s *seg) unreal(b contract.BatchConfig) cfg {
	kp := []int{}
	for _, k := range b.Keypers {
		kp = append(kp, s.id(k))
	}
	return cfg{
		SBI: small(b.StartBatchIndex), SB: small(b.StartBlockNumber), KP: kp, T: small(b.Threshold), Span: small(b.BatchSpan), BSL: small(b.BatchSizeLimit),
		TSL: small(b.TransactionSizeLimit), Gas: small(b.TransactionGasLimit), FR: s.id(b.FeeReceiver), TA: s.id(b.TargetAddress),
		Sel: int(binary.BigEndian.Uint32(b.TargetFunctionSelector[:])), TO: small(b.ExecutionTimeout),
	}
}

// small keeps numbers within what TLC can read
func small(x uint64) int {
	if x > 1<<30 {
		return -9
	}
	return int(x)
}

func (s *seg) apply(from int, to common.Address, val int, data []byte) bool {
	ok, _ := s.sim.Apply(addr(from), &to, big.NewInt(int64(val)), data)
	return ok
}

// call makes a call and logs it; it returns whether it succeeded.
func (s *seg) call(o op) bool {
	m := M{"op": "call", "k": o.K, "from": o.From}
	ok := false
	c := s.c
	switch o.K {
	case "set":
		m["f"], m["v"] = o.F, o.V
		name := map[string]string{"sbi": "StartBatchIndex", "sb": "StartBlockNumber", "t": "Threshold", "span": "BatchSpan", "bsl": "BatchSizeLimit", "tsl": "TransactionSizeLimit",
			"gas": "TransactionGasLimit", "fr": "FeeReceiver", "ta": "TargetAddress", "sel": "TargetFunctionSelector", "to": "ExecutionTimeout"}[o.F]
		var v interface{} = uint64(o.V)
		if o.F == "fr" || o.F == "ta" {
			v = addr(o.V)
		} else if o.F == "sel" {
			v = sel(o.V)
		}
		ok = s.apply(o.From, c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "nextConfigSet"+name, v))
	case "addkp":
		m["kp"] = o.KP
		kp := []common.Address{}
		for _, k := range o.KP {
			kp = append(kp, addr(k))
		}
		ok = s.apply(o.From, c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "nextConfigAddKeypers", kp))
	case "rmkp":
		m["n"] = o.N
		ok = s.apply(o.From, c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "nextConfigRemoveKeypers", uint64(o.N)))
	case "setcfg":
		m["cfg"] = o.Cfg
		ok = s.setcfg(*o.Cfg)
		if ok {
			s.nx = *o.Cfg
		}
	case "schedule":
		ok = s.apply(o.From, c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "scheduleNextConfig"))
	case "unschedule":
		m["n"] = o.N
		ok = s.apply(o.From, c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "unscheduleConfigs", uint64(o.N)))
	case "minfee":
		m["n"] = o.N
		ok = s.apply(o.From, c.Batcher, 0, ethsim.Pack(ethsim.BatcherABI, "setMinFee", uint64(o.N)))
	case "add":
		m["b"], m["t"], m["id"], m["len"], m["val"] = o.B, o.T, o.ID, o.Len, o.Val
		s.lens[o.ID] = o.Len
		ok = s.apply(o.From, c.Batcher, o.Val, ethsim.Pack(ethsim.BatcherABI, "addTransaction", uint64(o.B), uint8(o.T), s.txBytes(o.ID)))
		if ok {
			b := s.txs[o.B]
			if b == nil {
				b = &[2][]int{}
				s.txs[o.B] = b
			}
			b[o.T] = append(b[o.T], o.ID)
			s.commit(b[o.T])
		}
	case "bankout":
		m["amt"] = o.Amt
		ok = s.apply(o.From, c.FeeBank, 0, ethsim.Pack(ethsim.FeeBankABI, "withdraw0", common.BytesToAddress([]byte{0xbb, byte(s.tip)}), uint64(o.Amt)))
	case "cipher":
		m["b"], m["h"], m["txs"], m["ki"] = o.B, o.Hash, o.Txs, o.KI
		for _, t := range o.Txs {
			if _, ok := s.lens[t]; !ok {
				s.lens[t] = 5
			}
		}
		s.commit(o.Txs)
		ok = s.apply(o.From, c.Executor, 0, ethsim.Pack(ethsim.ExecutorABI, "executeCipherBatch", uint64(o.B), s.commit(o.Hash), s.txs2(o.Txs), uint64(o.KI)))
	case "plain":
		m["b"], m["txs"] = o.B, o.Txs
		ok = s.apply(o.From, c.Executor, 0, ethsim.Pack(ethsim.ExecutorABI, "executePlainBatch", uint64(o.B), s.txs2(o.Txs)))
	case "skip":
		m["b"] = o.B
		ok = s.apply(o.From, c.Executor, 0, ethsim.Pack(ethsim.ExecutorABI, "skipCipherExecution", uint64(o.B)))
	case "skipmany":
		m["n"] = o.N
		ok = s.apply(o.From, c.Executor, 0, ethsim.Pack(ethsim.ExecutorABI, "skipEmptyOrTimedOutBatches", uint64(o.N)))
	case "sethalf":
		m["n"] = o.N
		ok = s.apply(o.From, c.Executor, 0, ethsim.Pack(ethsim.ExecutorABI, "setHalfSteps", uint64(o.N)))
	case "accuse":
		m["h"], m["ki"] = o.H, o.KI
		ok = s.apply(o.From, c.Slasher, 0, ethsim.Pack(ethsim.SlasherABI, "accuse", uint64(o.H), uint64(o.KI)))
		if ok {
			s.accd[o.H] = true
		}
	case "appeal":
		m["h"], m["sigs"] = o.H, o.Sigs
		if o.Sigs == nil {
			m["sigs"] = []sigd{}
		}
		ok = s.apply(o.From, c.Slasher, 0, ethsim.Pack(ethsim.SlasherABI, "appeal", s.authorization(o)))
	case "slash":
		m["h"] = o.H
		ok = s.apply(o.From, c.Slasher, 0, ethsim.Pack(ethsim.SlasherABI, "slash", uint64(o.H)))
	case "deposit":
		m["amt"], m["delay"] = o.Amt, o.Delay
		d := common.BigToHash(big.NewInt(int64(o.Delay)))
		ok = s.apply(o.From, c.Token, 0, ethsim.Pack(ethsim.TokenABI, "send", c.Deposit, big.NewInt(int64(o.Amt)), d[:]))
	case "request":
		ok = s.apply(o.From, c.Deposit, 0, ethsim.Pack(ethsim.DepositABI, "requestWithdrawal"))
	case "withdraw":
		ok = s.apply(o.From, c.Deposit, 0, ethsim.Pack(ethsim.DepositABI, "withdraw", common.BytesToAddress([]byte{0xaa, 1})))
	case "vote":
		m["b"], m["ki"], m["key"] = o.B, o.KI, o.Key
		ok = s.apply(o.From, c.Key, 0, ethsim.Pack(ethsim.KeyABI, "vote", uint64(o.KI), uint64(o.B), keyBytes(o.Key)))
	default:
		panic("unknown call " + o.K)
	}
	for _, f := range []string{"txs", "h", "key", "kp"} {
		if l, ok := m[f].([]int); ok && l == nil {
			m[f] = []int{}
		}
	}
	m["ok"] = ok
	s.logm(m)
	s.calls++
	if ok {
		switch o.K {
		case "set", "addkp", "rmkp", "setcfg", "schedule":
			s.dirty = true
		}
		s.observe(o)
	}
	return ok
}

// observe keeps the driver's own idea of things up to date; it only guides what comes next.
func (s *seg) observe(o op) {
	switch o.K {
	case "set":
		switch o.F {
		case "sbi":
			s.nx.SBI = o.V
		case "sb":
			s.nx.SB = o.V
		case "t":
			s.nx.T = o.V
		case "span":
			s.nx.Span = o.V
		}
	case "addkp":
		s.nx.KP = append(append([]int{}, s.nx.KP...), o.KP...)
	case "rmkp":
		if o.N > len(s.nx.KP) {
			s.nx.KP = nil
		} else {
			s.nx.KP = s.nx.KP[:len(s.nx.KP)-o.N]
		}
	case "schedule":
		s.cfgs = append(s.cfgs, s.nx)
		s.nx = zcfg()
	case "unschedule":
		for len(s.cfgs) > 1 && s.cfgs[len(s.cfgs)-1].SB >= o.N {
			s.cfgs = s.cfgs[:len(s.cfgs)-1]
		}
	case "cipher", "plain", "skip", "skipmany", "sethalf":
		was := s.half
		ok, ret := s.sim.Apply(addr(0), &s.c.Executor, nil, ethsim.Pack(ethsim.ExecutorABI, "numExecutionHalfSteps"))
		if !ok {
			panic("half steps")
		}
		s.half = int(new(big.Int).SetBytes(ret).Int64())
		if o.K == "cipher" {
			s.exec[was] = true
		}
	}
}

func (s *seg) authorization(o op) contract.Authorization {
	au := contract.Authorization{HalfStep: uint64(o.H)}
	var rc []interface{}
	ok, ret := s.sim.Apply(addr(0), &s.c.Executor, nil, ethsim.Pack(ethsim.ExecutorABI, "getReceipt", uint64(o.H)))
	if !ok {
		panic("getReceipt")
	}
	rc, err := ethsim.ExecutorABI.Unpack("getReceipt", ret)
	must(err)
	r := rc[0].(struct {
		Executed        bool           `json:"executed"`
		Executor        common.Address `json:"executor"`
		HalfStep        uint64         `json:"halfStep"`
		CipherBatchHash [32]byte       `json:"cipherBatchHash"`
		BatchHash       [32]byte       `json:"batchHash"`
	})
	au.BatchHash = r.BatchHash
	pre := append([]byte("\x19dectx"), s.c.Batcher[:]...)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], r.HalfStep/2)
	pre = append(append(append(pre, b[:]...), r.CipherBatchHash[:]...), r.BatchHash[:]...)
	h := crypto.Keccak256(pre)
	for _, x := range o.Sigs {
		key, msg := ethsim.Key(x.By), h
		if x.By < 0 { // somebody's signature of something else
			key, msg = ethsim.Key(1), crypto.Keccak256([]byte(fmt.Sprint(x.By)))
		}
		sig, err := crypto.Sign(msg, key)
		must(err)
		au.SignerIndices = append(au.SignerIndices, uint64(x.I))
		au.Signatures = append(au.Signatures, contract.SignatureToContractFormat(sig))
	}
	return au
}

// setcfg sets the next config with the real administration code.
func (s *seg) setcfg(c cfg) bool {
	if s.dirty {
		return s.setDirect(c)
	}
	ctx := context.Background()
	b, err := txbatch.New(ctx, s.dir.Ethclient, ethsim.Key(0))
	must(err)
	return s.dir.ConfigContract.SetNextBatchConfig(ctx, b, s.real(c)) == nil
}

// setDirect sets the next config without the administration code.
func (s *seg) setDirect(c cfg) bool {
	for _, x := range []struct {
		f string
		v interface{}
	}{{"StartBatchIndex", uint64(c.SBI)}, {"StartBlockNumber", uint64(c.SB)}, {"Threshold", uint64(c.T)}, {"BatchSpan", uint64(c.Span)}, {"BatchSizeLimit", uint64(c.BSL)},
		{"TransactionSizeLimit", uint64(c.TSL)}, {"TransactionGasLimit", uint64(c.Gas)}, {"FeeReceiver", addr(c.FR)}, {"TargetAddress", addr(c.TA)}, {"TargetFunctionSelector", sel(c.Sel)},
		{"ExecutionTimeout", uint64(c.TO)}} {
		s.apply(0, s.c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "nextConfigSet"+x.f, x.v))
	}
	kp := []common.Address{}
	for _, k := range c.KP {
		kp = append(kp, addr(k))
	}
	s.apply(0, s.c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "nextConfigRemoveKeypers", uint64(1000)))
	return s.apply(0, s.c.Config, 0, ethsim.Pack(ethsim.ConfigABI, "nextConfigAddKeypers", kp))
}

func (s *seg) mine() {
	s.dirty = false
	s.sim.Mine()
	s.tip++
	s.calls = 0
	s.hist = append(s.hist, s.know().clone())
	s.logm(M{"op": "mine"})
}

func (s *seg) reorg(d int) bool {
	if s.tip-d < 0 || d < 1 || uint64(s.tip-d) < s.v.CurrentBlock || d > s.follow {
		return false
	}
	s.sim.Reorg(d)
	s.tip -= d
	s.hist = s.hist[:s.tip+1]
	s.learn(s.hist[s.tip])
	s.dirty = false
	s.calls = 0
	s.dirn.SetHead(uint64(s.tip))
	s.logm(M{"op": "reorg", "d": d})
	return true
}

// ---- the keyper's view

func (s *seg) view(v *observe.MainChain) M {
	cfgs := []cfg{}
	for i := range v.BatchConfigs {
		cfgs = append(cfgs, s.unreal(v.BatchConfigs[i]))
	}
	bs := []M{}
	for i, b := range v.Batches {
		l := func(t [][]byte) []int {
			r := []int{}
			for _, x := range t {
				r = append(r, s.txID(x))
			}
			return r
		}
		n := small(i)
		if b.BatchIndex != i {
			n = -9
		}
		bs = append(bs, M{"b": n, "c": l(b.EncryptedTransactions), "ch": s.unhash(b.EncryptedBatchHash), "p": l(b.PlainTransactions), "ph": s.unhash(b.PlainBatchHash)})
	}
	rc := []M{}
	for h, r := range v.CipherExecutionReceipts {
		n := small(h)
		if r.HalfStep != h || !r.Executed {
			n = -9
		}
		rc = append(rc, M{"h": n, "ex": s.id(r.Executor), "eh": s.unhash(r.CipherBatchHash), "bh": s.unhash(r.BatchHash)})
	}
	deps := []M{}
	for a, d := range v.Deposits {
		x := s.dep(d)
		x["a"] = s.id(a)
		if d.Account != a {
			x["a"] = -9
		}
		deps = append(deps, x)
	}
	acc := []M{}
	for h, a := range v.Accusations {
		n := small(h)
		if a.HalfStep != h {
			n = -9
		}
		acc = append(acc, M{"h": n, "ex": s.id(a.Executor), "by": s.id(a.Accuser), "ap": a.Appealed, "bn": small(a.BlockNumber)})
	}
	for _, l := range [][]M{bs, rc, deps, acc} {
		l := l
		sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	}
	return M{"cur": small(v.CurrentBlock), "ns": v.IsSynced(), "cfgs": cfgs, "b": bs, "half": small(v.NumExecutionHalfSteps), "rc": rc, "dep": deps, "acc": acc}
}

func (s *seg) dep(d *observe.Deposit) M {
	amt := -9
	if d.Amount == nil {
		amt = 0
	} else if d.Amount.IsInt64() {
		amt = small(uint64(d.Amount.Int64()))
	}
	return M{"amt": amt, "delay": small(d.WithdrawalDelayBlocks), "req": small(d.WithdrawalRequestedBlock), "sl": d.Slashed}
}

// exact tells all there is to a view
func (s *seg) exact(v *observe.MainChain) string {
	b, err := json.Marshal(s.view(v))
	must(err)
	return fmt.Sprint(string(b), v.FollowDistance)
}

func (s *seg) sync(head int, syncing bool, failAt int) {
	if s.broke || head < 0 {
		return
	}
	s.node.SetSyncing(syncing)
	s.node.FailAt(failAt)
	before := s.exact(s.v)
	old := s.v
	m := M{"op": "sync", "h": head, "syncing": syncing}
	var nv *observe.MainChain
	if s.loop {
		nv = s.loopSync(head, m)
	} else {
		s.node.SetHead(uint64(head))
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					m["res"] = "panics: " + fmt.Sprint(r)
				}
			}()
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			v, err := old.SyncToHead(ctx, s.cc)
			if err != nil {
				m["res"] = "err"
				return
			}
			m["res"] = "ok"
			nv = v
		}()
		<-done
	}
	m["fault"] = s.node.Failed() > 0
	m["oldsame"] = nv == old || s.exact(old) == before
	s.node.FailAt(0)
	if nv != nil {
		m["view"] = s.view(nv)
		s.v = nv
	}
	s.logm(m)
}

// ---- the real loop

func (s *seg) startLoop() {
	s.loop = true
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	s.views = make(chan *observe.MainChain)
	s.loopEnd = make(chan error, 1)
	v, views, end := s.v, s.views, s.loopEnd
	n := s.node.Subscribers()
	go func() { end <- observe.SyncMain(ctx, s.cc, v, views) }()
	for i := 0; s.node.Subscribers() == n; i++ {
		if i > 10000 {
			panic("internal error: no subscription")
		}
		time.Sleep(time.Millisecond)
	}
}

func (s *seg) stopLoop() {
	if !s.loop {
		return
	}
	s.cancel()
	for {
		select {
		case <-s.loopEnd:
		case <-s.views:
			continue
		case <-time.After(20 * time.Second):
			s.logm(M{"op": "trouble", "what": "view: the loop does not end"})
			s.broke = true
		}
		break
	}
	for i := 0; s.node.Subscribers() > 0 && i < 5000; i++ {
		time.Sleep(time.Millisecond)
	}
	s.loop = false
}

func (s *seg) loopSync(head int, m M) *observe.MainChain {
	s.node.SetHead(uint64(head))
	for i := 0; i < 20000; i++ {
		select {
		case v := <-s.views:
			m["res"] = "ok"
			return v
		case err := <-s.loopEnd:
			m["res"] = "the loop ends: " + fmt.Sprint(err)
			s.broke = true
			return nil
		case <-time.After(time.Millisecond):
			if s.node.Failed() > 0 {
				m["res"] = "err"
				return nil
			}
		}
	}
	m["res"] = "nothing comes of a new block"
	s.broke = true
	return nil
}

func (s *seg) restart() {
	was := s.loop
	s.stopLoop()
	var b bytes.Buffer
	must(gob.NewEncoder(&b).Encode(s.v))
	v := new(observe.MainChain)
	must(gob.NewDecoder(&b).Decode(v))
	s.v = v
	s.logm(M{"op": "restart", "view": s.view(v)})
	if was {
		s.startLoop()
	}
}

func (s *seg) getDeposit(a int) {
	before := s.exact(s.v)
	d := s.dep(s.v.GetDeposit(addr(a)))
	s.logm(M{"op": "dep", "a": a, "d": d, "oldsame": s.exact(s.v) == before})
}

func (s *seg) peek() {
	get := func(to common.Address, data []byte) []byte {
		ok, ret := s.sim.Apply(addr(0), &to, nil, data)
		if !ok {
			panic("getter")
		}
		return ret
	}
	num := func(b []byte) int { return small(new(big.Int).SetBytes(b).Uint64()) }
	m := M{"op": "peek", "fee": num(get(s.c.Batcher, ethsim.Pack(ethsim.BatcherABI, "minFee")))}
	bank := []int{}
	for i := 0; i < nacc; i++ {
		bank = append(bank, num(get(s.c.FeeBank, ethsim.Pack(ethsim.FeeBankABI, "deposits", addr(i)))))
	}
	m["bank"] = bank
	best := []M{}
	for b := 0; b < 6; b++ {
		n := num(get(s.c.Key, ethsim.Pack(ethsim.KeyABI, "getBestKeyNumVotes", uint64(b))))
		k, err := ethsim.KeyABI.Unpack("getBestKey", get(s.c.Key, ethsim.Pack(ethsim.KeyABI, "getBestKey", uint64(b))))
		must(err)
		key := []int{}
		for _, x := range k[0].([]byte) {
			key = append(key, int(x))
		}
		best = append(best, M{"b": b, "key": key, "n": n})
	}
	m["best"] = best
	m["nx"] = s.pendingNext()
	s.logm(m)
}

// pendingNext reads the next config of the open block straight from the contract.
func (s *seg) pendingNext() cfg {
	ok, ret := s.sim.Apply(addr(0), &s.c.Config, nil, ethsim.Pack(ethsim.ConfigABI, "nextConfig"))
	if !ok {
		panic("nextConfig")
	}
	l, err := ethsim.ConfigABI.Unpack("nextConfig", ret)
	must(err)
	var bc struct{ Arg contract.BatchConfig }
	must(ethsim.ConfigABI.Methods["nextConfig"].Outputs.Copy(&bc.Arg, l))
	return s.unreal(bc.Arg)
}

var bg = &bind.CallOpts{Context: context.Background()}
