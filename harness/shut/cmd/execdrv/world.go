// execdrv runs real keypers (their Deciders) that hold eon keys on scripted main and keyper chains
// and records what they decide.
package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/shut/appx"
	"verif/shut/fake"
)

type M = appx.M

const gasLimit = 77777

// ---- eon keys ------------------------------------------------------------------------------

// dealings of the key generation, by "n/t/i"
var pool = map[string][]puredkg.Result{}

func results(n, t, i int) []puredkg.Result {
	key := fmt.Sprintf("%d/%d/%d", n, t, i)
	if r, ok := pool[key]; ok {
		return r
	}
	var ds []puredkg.PureDKG
	for k := 0; k < n; k++ {
		ds = append(ds, puredkg.NewPureDKG(1, uint64(n), uint64(t), uint64(k)))
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	var cs []puredkg.PolyCommitmentMsg
	var es []puredkg.PolyEvalMsg
	for k := range ds {
		c, evs, err := ds[k].StartPhase1Dealing()
		must(err)
		cs = append(cs, c)
		es = append(es, evs...)
	}
	for j := range ds {
		for _, c := range cs {
			must(ds[j].HandlePolyCommitmentMsg(c))
		}
	}
	for _, e := range es {
		must(ds[e.Receiver].HandlePolyEvalMsg(e))
	}
	var res []puredkg.Result
	for k := range ds {
		ds[k].StartPhase2Accusing()
		ds[k].StartPhase3Apologizing()
		ds[k].Finalize()
		r, err := ds[k].ComputeResult()
		must(err)
		res = append(res, r)
	}
	pool[key] = res
	return res
}

func epochID(b int) *shcrypto.EpochID {
	var buf [8]byte
	binary.BigEndian.PutUint64(buf[:], uint64(b))
	return shcrypto.ComputeEpochID(buf[:])
}

var shareCache = map[string]*shcrypto.EpochSecretKeyShare{}

type eon struct {
	eon, start, thr, pool int
	kp                    []string
	failed                bool
	h                     int64 // height of its event, 0: not yet
	old                   bool  // made for the config before the one in charge of its first batch
	by                    int   // must be seen once this batch is closed (-1: never)
}

func (e *eon) res() []puredkg.Result { return results(len(e.kp), e.thr, e.pool) }

func indexOf(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func (e *eon) share(who string, b int) *shcrypto.EpochSecretKeyShare {
	k := fmt.Sprintf("%d/%d/%d/%d/%d", len(e.kp), e.thr, e.pool, indexOf(e.kp, who), b)
	if shareCache[k] == nil {
		shareCache[k] = shcrypto.ComputeEpochSecretKeyShare(e.res()[indexOf(e.kp, who)].SecretKeyShare, epochID(b))
	}
	return shareCache[k]
}

var keyCache = map[string]*shcrypto.EpochSecretKey{}

func (e *eon) key(b int) *shcrypto.EpochSecretKey {
	ck := fmt.Sprintf("%d/%d/%d/%d", len(e.kp), e.thr, e.pool, b)
	if keyCache[ck] == nil {
		var idx []int
		var sh []*shcrypto.EpochSecretKeyShare
		for i := 0; i < e.thr; i++ {
			idx = append(idx, i)
			sh = append(sh, e.share(e.kp[i], b))
		}
		k, err := shcrypto.ComputeEpochSecretKey(idx, sh, uint64(e.thr))
		if err != nil {
			panic(err)
		}
		keyCache[ck] = k
	}
	return keyCache[ck]
}

// ---- the world -----------------------------------------------------------------------------

type cfg struct {
	idx, sblk, sbat, span, to, thr int
	kp                             []string
}

func (c cfg) m() M {
	return M{"idx": c.idx, "sblk": c.sblk, "sbat": c.sbat, "span": c.span, "to": c.to, "thr": c.thr, "kp": c.kp}
}
func (c cfg) batchAt(blk int) int {
	if c.span == 0 {
		return c.sbat
	}
	return c.sbat + (blk-c.sblk)/c.span
}
func (c cfg) end(b int) int { return c.sblk + (b-c.sbat+1)*c.span }

type mev struct {
	blk int
	ev  M
}

// a keyper under test
type kpr struct {
	name  string
	stag  int
	dir   string
	conf  keyper.Config
	st    *keyper.State
	sh    *observe.Shutter
	h     int
	m     int64
	held  map[int]bool
	filt  observe.ShutterFilter
	saved observe.ShutterFilter
	moved bool // has decided
	full  bool // has decided as a keyper with both nodes synced
	dead  bool
}

// the gob file a keyper keeps
type storedState struct {
	State     *keyper.State
	Shutter   *observe.Shutter
	MainChain *observe.MainChain
}

type world struct {
	tw    *appx.TraceWriter
	r     *mrand.Rand
	dir   string
	node  *fake.Node
	kps   []*kpr
	main  []mev
	head  int
	cfgs  []cfg // main[0] is the guard
	eons  []*eon
	raw   map[string][]byte // ciphertexts and plain transactions by id
	clear map[string][]byte // what a ciphertext decrypts to (absent: nothing)
	dead  bool
}

func keccak(ds ...[]byte) []byte { return crypto.Keccak256(ds...) }

func chainHash(txs [][]byte) []byte {
	h := make([]byte, 32)
	for _, tx := range txs {
		h = keccak(tx, h)
	}
	return h
}

func (w *world) reset(stag map[string]int, order []string) {
	w.main, w.head, w.cfgs, w.eons = nil, 0, []cfg{{}}, nil
	w.raw, w.clear = map[string][]byte{}, map[string][]byte{}
	w.node = &fake.Node{}
	w.kps, w.dead = nil, false
	d, err := os.MkdirTemp(w.dir, "seg")
	if err != nil {
		panic(err)
	}
	for _, n := range order {
		i := appx.KeyIndex(n)
		kd := filepath.Join(d, n)
		if err := os.MkdirAll(kd, 0o755); err != nil {
			panic(err)
		}
		k := &kpr{name: n, stag: stag[n], dir: kd, st: keyper.NewState(), sh: observe.NewShutter(), held: map[int]bool{}}
		k.st.LastEonStarted = math.MaxUint64
		k.conf = keyper.Config{
			SigningKey: appx.Keys[i], EncryptionKey: appx.EncKey[i],
			ValidatorKey: ed25519.NewKeyFromSeed(crypto.Keccak256([]byte(n))),
			DBDir:        kd, DKGPhaseLength: 5, ExecutionStaggering: uint64(stag[n]),
			ConfigContractAddress: appx.Addrs[10], BatcherContractAddress: appx.Addrs[11],
		}
		w.kps = append(w.kps, k)
	}
	w.tw.Put(M{"op": "reset", "kps": stag})
}

func (w *world) eon(n int) *eon {
	for _, e := range w.eons {
		if e.eon == n {
			return e
		}
	}
	return nil
}

// the eon users encrypt for
func (w *world) eonFor(b int) *eon {
	var r *eon
	for _, e := range w.eons {
		if e.start <= b {
			r = e
		}
	}
	return r
}

func (w *world) cfgFor(b int) cfg {
	for i := len(w.cfgs) - 1; i > 0; i-- {
		if w.cfgs[i].sbat <= b {
			return w.cfgs[i]
		}
	}
	return w.cfgs[0]
}

func (w *world) cfgAt(blk int) cfg {
	for i := len(w.cfgs) - 1; i > 0; i-- {
		if w.cfgs[i].sblk <= blk {
			return w.cfgs[i]
		}
	}
	return w.cfgs[0]
}

type encTx struct {
	id   string
	good bool
}

func (w *world) enc(b, head int) []encTx {
	l := []encTx{}
	for _, e := range w.main {
		if e.blk <= head && e.ev["t"] == "enc" && e.ev["b"] == b {
			l = append(l, encTx{e.ev["id"].(string), e.ev["good"].(bool)})
		}
	}
	return l
}

func (w *world) plain(b, head int) [][]byte {
	l := [][]byte{}
	for _, e := range w.main {
		if e.blk <= head && e.ev["t"] == "plain" && e.ev["b"] == b {
			l = append(l, w.raw[e.ev["id"].(string)])
		}
	}
	return l
}

func ids(l []encTx, good bool) []string {
	r := []string{}
	for _, t := range l {
		if !good || t.good {
			r = append(r, t.id)
		}
	}
	return r
}

func (w *world) raws(l []string) [][]byte {
	r := [][]byte{}
	for _, i := range l {
		x, ok := w.raw[i]
		if !ok {
			x = []byte(i)
		}
		r = append(r, x)
	}
	return r
}

// decrypted gives the contents of a batch in execution order
func (w *world) decrypted(b int, good []string) [][]byte {
	r := [][]byte{}
	for _, i := range good {
		x, ok := w.clear[i]
		if !ok {
			x = []byte("?" + i)
		}
		r = append(r, x)
	}
	return shcrypto.Shuffle(r, w.eonFor(b).key(b))
}

func (w *world) sigHash(b int, enc, good []string) []byte {
	var buf [8]byte
	binary.BigEndian.PutUint64(buf[:], uint64(b))
	return keccak([]byte("\x19dectx"), appx.Addrs[11].Bytes(), buf[:], chainHash(w.raws(enc)), chainHash(w.decrypted(b, good)))
}

// ciphertext makes the transaction id of batch b; returns whether it decrypts.
func (w *world) ciphertext(b int, id string, kind string) bool {
	e := w.eonFor(b)
	pay := []byte(id)
	for n := len(id) * 7 % 5; n > 0; n-- {
		pay = append(pay, bytes.Repeat([]byte{byte(n)}, 31)...)
	}
	var sigma shcrypto.Block
	copy(sigma[:], keccak([]byte("sigma"), []byte(id)))
	eb := b
	if kind == "otherepoch" {
		eb = b + 1
	}
	pk := e.res()[0].PublicKey
	if kind == "othereon" {
		pk = results(len(e.kp), e.thr, e.pool+1)[0].PublicKey
	}
	ct := shcrypto.Encrypt(append([]byte{}, pay...), pk, epochID(eb), sigma).Marshal()
	switch kind {
	case "garbage":
		ct = []byte("garbage " + id)
	case "empty":
		ct = []byte{}
	case "truncated":
		ct = ct[:len(ct)-1]
	case "headeronly":
		ct = ct[:len(ct)-32*(len(pay)/32+1)]
	case "flipped":
		ct[len(ct)-1] ^= 0x40
	case "badpoint":
		ct[3] ^= 1
	case "same":
		ct = shcrypto.Encrypt([]byte("always the same"), pk, epochID(eb), shcrypto.Block{1, 2, 3}).Marshal()
	}
	w.raw[id] = ct
	m := shcrypto.EncryptedMessage{}
	if err := m.Unmarshal(ct); err != nil {
		return false
	}
	d, err := m.Decrypt(e.key(b))
	if err != nil {
		return false
	}
	w.clear[id] = d
	return true
}

// mblock puts events on the main chain; their time is block blk.
func (w *world) mblock(blk int, evs []M) {
	w.head = blk
	for _, e := range evs {
		if e["t"] == "cfg" {
			w.cfgs = append(w.cfgs, toCfg(e["c"].(M)))
		}
		w.main = append(w.main, mev{blk, e})
	}
	if len(evs) > 0 {
		w.tw.Put(M{"op": "mblock", "blk": blk, "evs": evs})
	}
}

func toCfg(m M) cfg {
	return cfg{m["idx"].(int), m["sblk"].(int), m["sbat"].(int), m["span"].(int), m["to"].(int), m["thr"].(int), m["kp"].([]string)}
}

func randPoint(r *mrand.Rand) *shcrypto.EpochSecretKeyShare {
	return (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(big.NewInt(1 + r.Int63())))
}

// event makes the keyper chain event
func (w *world) event(h int64, e M) abcitypes.Event {
	switch e["t"] {
	case "bc":
		idx := e["idx"].(int)
		thr := 1
		if idx < len(w.cfgs) {
			thr = w.cfgs[idx].thr
		}
		return shutterevents.BatchConfig{StartBatchIndex: uint64(e["sbat"].(int)), Threshold: uint64(thr), Keypers: appx.AddrsOf(e["kp"].([]string)), ConfigIndex: uint64(idx)}.MakeABCIEvent()
	case "eon":
		return shutterevents.EonStarted{Eon: uint64(e["eon"].(int)), BatchIndex: uint64(e["start"].(int))}.MakeABCIEvent()
	case "share":
		n, b, snd := e["eon"].(int), e["b"].(int), e["snd"].(string)
		x := w.eon(n)
		var s *shcrypto.EpochSecretKeyShare
		kind, _ := e["kind"].(string)
		switch {
		case x == nil || indexOf(x.kp, snd) < 0 || kind == "random":
			s = randPoint(w.r)
		case e["ok"].(bool):
			s = x.share(snd, b)
		case kind == "otherepoch":
			s = x.share(snd, b+1)
		case kind == "othersender":
			s = x.share(x.kp[(indexOf(x.kp, snd)+1)%len(x.kp)], b)
		case kind == "othereon":
			s = shcrypto.ComputeEpochSecretKeyShare(results(len(x.kp), x.thr, x.pool+1)[indexOf(x.kp, snd)].SecretKeyShare, epochID(b))
		case kind == "infinity":
			s = (*shcrypto.EpochSecretKeyShare)(new(bn256.G1).ScalarBaseMult(big.NewInt(0)))
		default:
			s = randPoint(w.r)
		}
		return shutterevents.EpochSecretKeyShare{Eon: uint64(n), Epoch: uint64(b), Sender: appx.Addr(snd), Share: s}.MakeABCIEvent()
	case "sig":
		b, snd := e["b"].(int), e["snd"].(string)
		hash := w.sigHash(b, e["enc"].([]string), e["good"].([]string))
		signer := snd
		kind, _ := e["kind"].(string)
		if !e["ok"].(bool) && kind == "othersigner" {
			signer = appx.AddrName(appx.Addrs[(appx.KeyIndex(snd)+1)%9])
		}
		sig, err := crypto.Sign(hash, appx.Keys[appx.KeyIndex(signer)])
		if err != nil {
			panic(err)
		}
		if !e["ok"].(bool) {
			switch kind {
			case "short":
				sig = sig[:64]
			case "empty":
				sig = nil
			case "long":
				sig = append(sig, 0)
			case "contract":
				sig[64] += 27
			case "othersigner":
			default:
				sig = keccak(sig)
				sig = append(sig, keccak(sig)...)
				sig = append(sig, 1)
			}
		}
		return shutterevents.DecryptionSignature{BatchIndex: uint64(b), Sender: appx.Addr(snd), Signature: sig}.MakeABCIEvent()
	}
	panic("unknown event")
}

// sblock puts a block on the keyper chain
func (w *world) sblock(evs []M) {
	h := int64(len(w.node.Blocks)) + 1
	var txs []fake.Tx
	for _, e := range evs {
		if e["t"] == "eon" {
			w.eon(e["eon"].(int)).h = h
		}
		txs = append(txs, fake.Tx{Events: []abcitypes.Event{w.event(h, e)}})
	}
	w.node.With(func(n *fake.Node) { n.Blocks = append(n.Blocks, txs) })
	if len(evs) > 0 {
		w.tw.Put(M{"op": "sblock", "h": h, "evs": evs})
	}
}

func (w *world) height() int64 { return int64(len(w.node.Blocks)) }

// mainChain is what a keyper knows of the main chain at block head
func (w *world) mainChain(head int, synced bool) *observe.MainChain {
	m := observe.NewMainChain(0)
	m.CurrentBlock = uint64(head)
	if !synced {
		m.NodeSyncProgress = &ethereum.SyncProgress{CurrentBlock: 1, HighestBlock: 5}
	}
	m.BatchConfigs = []contract.BatchConfig{{}}
	nx := 0
	batch := func(b int) *observe.Batch {
		x := m.Batches[uint64(b)]
		if x == nil {
			x = &observe.Batch{BatchIndex: uint64(b)}
			m.Batches[uint64(b)] = x
		}
		return x
	}
	for _, e := range w.main {
		if e.blk > head {
			break
		}
		switch e.ev["t"] {
		case "cfg":
			c := toCfg(e.ev["c"].(M))
			m.BatchConfigs = append(m.BatchConfigs, contract.BatchConfig{
				StartBatchIndex: uint64(c.sbat), StartBlockNumber: uint64(c.sblk), Keypers: appx.AddrsOf(c.kp), Threshold: uint64(c.thr),
				BatchSpan: uint64(c.span), BatchSizeLimit: 100000, TransactionSizeLimit: 10000, TransactionGasLimit: gasLimit + uint64(c.idx),
				ExecutionTimeout: uint64(c.to),
			})
		case "enc":
			x := batch(e.ev["b"].(int))
			tx := w.raw[e.ev["id"].(string)]
			x.EncryptedTransactions = append(x.EncryptedTransactions, tx)
			x.EncryptedBatchHash = common.BytesToHash(keccak(tx, x.EncryptedBatchHash[:]))
		case "plain":
			x := batch(e.ev["b"].(int))
			tx := w.raw[e.ev["id"].(string)]
			x.PlainTransactions = append(x.PlainTransactions, tx)
			x.PlainBatchHash = common.BytesToHash(keccak(tx, x.PlainBatchHash[:]))
		case "exec":
			b := nx / 2
			txs := e.ev["txs"].([]string)
			r := &contract.CipherExecutionReceipt{Executed: true, Executor: appx.Addr(e.ev["by"].(string)), HalfStep: uint64(nx)}
			copy(r.CipherBatchHash[:], chainHash(w.raws(ids(w.enc(b, w.head), false))))
			if same(txs, ids(w.enc(b, w.head), true)) {
				copy(r.BatchHash[:], chainHash(w.decrypted(b, txs)))
			} else if len(txs) > 0 {
				copy(r.BatchHash[:], keccak([]byte(fmt.Sprint("wrong", txs))))
			}
			m.CipherExecutionReceipts[uint64(nx)] = r
			nx++
		case "skip", "pexec":
			nx++
		case "jump":
			nx = e.ev["n"].(int)
		case "acc":
			hs := uint64(e.ev["hs"].(int))
			a := &observe.Accusation{HalfStep: hs, BlockNumber: uint64(e.blk), Accuser: appx.Addrs[9]}
			if r := m.CipherExecutionReceipts[hs]; r != nil {
				a.Executor = r.Executor
			}
			m.Accusations[hs] = a
		case "appealed":
			m.Accusations[uint64(e.ev["hs"].(int))].Appealed = true
		}
	}
	m.NumExecutionHalfSteps = uint64(nx)
	return m
}

func same(a, b []string) bool { return fmt.Sprint(a) == fmt.Sprint(b) && len(a) == len(b) }

// nx and friends, as the contract has them now
func (w *world) nx() int {
	nx := 0
	for _, e := range w.main {
		switch e.ev["t"] {
		case "skip", "pexec", "exec":
			nx++
		case "jump":
			nx = e.ev["n"].(int)
		}
	}
	return nx
}

func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%.120v", r)
			if !appx.ASCII(p) || p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

func (w *world) find(n string) *kpr {
	for _, k := range w.kps {
		if k.name == n {
			return k
		}
	}
	panic("unknown keyper " + n)
}

// gain gives a keyper the key share of an eon, as its key generation does
func (w *world) gain(k *kpr, e *eon) {
	r := e.res()[indexOf(e.kp, k.name)]
	r.Eon = uint64(e.eon)
	k.st.EKGs = append(k.st.EKGs, &keyper.EKG{Eon: uint64(e.eon), Keypers: appx.AddrsOf(e.kp), EpochKG: epochkg.NewEpochKG(&r)})
	k.held[e.eon] = true
	w.tw.Put(M{"op": "gain", "k": k.name, "eon": e.eon})
}

// decide lets a keyper take a step, seeing the main chain at block h and the keyper chain at m.
// Returns the description of what it decided.
func (w *world) decide(k *kpr, h int, m int64, syncedM, syncedS, filter bool) M {
	k.h = h
	w.node.With(func(n *fake.Node) { n.Head, n.Catching = m+1, !syncedS })
	mc := w.mainChain(h, syncedM)
	var acts []fx.IAction
	p := guard(func() {
		sh, err := k.sh.SyncToHead(context.Background(), w.node)
		if err != nil {
			panic(err)
		}
		k.sh = sh
		d := keyper.Decider{Config: k.conf, State: k.st, Shutter: k.sh, MainChain: mc, PhaseLength: keyper.NewConstantPhaseLength(5)}
		d.Decide()
		acts = d.Actions
	})
	k.m = k.sh.CurrentBlock
	e := M{"op": "decide", "k": k.name, "h": h, "m": k.m, "synced": syncedM && k.sh.IsSynced(), "filter": false}
	if p != "" {
		e["out"] = M{"crash": p}
		w.tw.Put(e)
		k.dead = true
		w.dead = true
		return e["out"].(M)
	}
	out := w.actions(k, h, acts)
	e["out"] = out
	k.save(mc)
	k.saved = k.filt
	if filter {
		f := k.st.GetShutterFilter(mc)
		if f.SyncHeight > k.filt.SyncHeight || f.BatchIndex > k.filt.BatchIndex {
			e["filter"] = true
			k.filt = f
		}
		k.sh = k.sh.ApplyFilter(f)
	}
	k.moved = true
	k.full = k.full || e["synced"].(bool) && k.sh.IsKeyper(k.conf.Address())
	w.tw.Put(e)
	return out
}

func (k *kpr) save(mc *observe.MainChain) {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(storedState{k.st, k.sh, mc}); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(k.dir, "state.gob"), b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}

func (w *world) restart(k *kpr) {
	if !k.moved {
		return
	}
	x := keyper.NewKeyper(k.conf)
	ok := true
	if p := guard(func() {
		if e := x.LoadState(); e != nil {
			ok = false
		}
	}); p != "" {
		ok = false
	}
	w.tw.Put(M{"op": "restart", "k": k.name, "out": M{"ok": ok}})
	if !ok {
		w.dead = true
		return
	}
	k.st, k.sh = x.State, x.CurrentWorld().Shutter
	k.filt = k.saved
}

// actions describes what a keyper decided to do.
func (w *world) actions(k *kpr, h int, acts []fx.IAction) M {
	keys, share, sig, exec, appeal, acc := []M{}, []M{}, []M{}, []M{}, []M{}, []M{}
	for _, g := range k.st.EKGs {
		var bs []int
		for b := range g.EpochKG.SecretKeys {
			bs = append(bs, int(b))
		}
		sort.Ints(bs)
		e := w.eon(int(g.Eon))
		for _, b := range bs {
			key := g.EpochKG.SecretKeys[uint64(b)]
			keys = append(keys, M{"eon": g.Eon, "b": b, "ok": key != nil && e != nil && key.Equal(e.key(b))})
		}
	}
	for _, a := range acts {
		switch x := a.(type) {
		case *fx.SendShuttermintMessage:
			switch p := x.Msg.GetPayload().(type) {
			case *shmsg.Message_EpochSecretKeyShare:
				m := p.EpochSecretKeyShare
				e := w.eon(int(m.Eon))
				s := new(shcrypto.EpochSecretKeyShare)
				ok := e != nil && indexOf(e.kp, k.name) >= 0 && s.Unmarshal(m.Share) == nil && s.Equal(e.share(k.name, int(m.Epoch)))
				share = append(share, M{"eon": m.Eon, "b": m.Epoch, "ok": ok})
			case *shmsg.Message_DecryptionSignature:
				m := p.DecryptionSignature
				b := int(m.BatchIndex)
				r := M{"b": b, "enc": []string{"?"}, "good": []string{}, "ok": false}
				all := w.enc(b, math.MaxInt64)
				for n := len(all); n >= 0; n-- {
					enc, good := ids(all[:n], false), ids(all[:n], true)
					pk, err := crypto.SigToPub(w.sigHash(b, enc, good), m.Signature)
					if err == nil && crypto.PubkeyToAddress(*pk) == k.conf.Address() {
						r = M{"b": b, "enc": enc, "good": good, "ok": true}
						break
					}
				}
				sig = append(sig, r)
			case *shmsg.Message_CheckIn, *shmsg.Message_BatchConfig:
			default:
				share = append(share, M{"eon": -1, "b": 0, "ok": false})
			}
		case *fx.ExecuteCipherBatch:
			b := int(x.BatchIndex)
			c := w.cfgFor(b)
			all := w.enc(b, math.MaxInt64)
			r := M{"t": "exec", "b": b, "txs": []string{"?"}, "ok": false}
			for n := len(all); n >= 0; n-- {
				good := ids(all[:n], true)
				if equalBytes(w.decrypted(b, good), x.Transactions) {
					r["txs"] = good
					break
				}
			}
			r["ok"] = bytes.Equal(x.CipherBatchHash[:], chainHash(w.raws(ids(w.enc(b, h), false)))) && indexOf(c.kp, k.name) == int(x.KeyperIndex) && x.TransactionGasLimit == gasLimit+uint64(c.idx)
			exec = append(exec, r)
		case *fx.ExecutePlainBatch:
			b := int(x.BatchIndex)
			l := []string{}
			ok := equalBytes(w.plain(b, h), x.Transactions) && x.TransactionGasLimit == gasLimit+uint64(w.cfgFor(b).idx)
			for _, e := range w.main {
				if e.blk <= h && e.ev["t"] == "plain" && e.ev["b"] == b {
					l = append(l, e.ev["id"].(string))
				}
			}
			exec = append(exec, M{"t": "plain", "b": b, "txs": l, "ok": ok})
		case *fx.SkipCipherBatch:
			exec = append(exec, M{"t": "skip", "b": x.BatchIndex, "ok": true})
		case *fx.Appeal:
			appeal = append(appeal, M{"hs": x.Authorization.HalfStep, "ok": w.goodAppeal(x.Authorization)})
		case *fx.Accuse:
			c := w.cfgFor(int(x.HalfStep / 2))
			i := indexOf(c.kp, k.name)
			acc = append(acc, M{"hs": x.HalfStep, "ok": i < 0 || i == int(x.KeyperIndex)})
		default:
			exec = append(exec, M{"t": "unknown", "b": 0, "txs": []string{}, "ok": false})
		}
	}
	return M{"keys": keys, "share": share, "sig": sig, "exec": exec, "appeal": appeal, "acc": acc}
}

func equalBytes(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// goodAppeal says whether the slasher contract would accept the authorization.
func (w *world) goodAppeal(a contract.Authorization) bool {
	b := int(a.HalfStep / 2)
	c := w.cfgFor(b)
	all := w.enc(b, math.MaxInt64)
	enc, good := ids(all, false), ids(all, true)
	if !bytes.Equal(a.BatchHash[:], chainHash(w.decrypted(b, good))) || len(a.Signatures) != len(a.SignerIndices) || len(a.Signatures) < c.thr {
		return false
	}
	for i, s := range a.Signatures {
		if i > 0 && a.SignerIndices[i] <= a.SignerIndices[i-1] || a.SignerIndices[i] >= uint64(len(c.kp)) || len(s) != 65 || s[64] < 27 || s[64] > 28 {
			return false
		}
		raw := append([]byte{}, s...)
		raw[64] -= 27
		pk, err := crypto.SigToPub(w.sigHash(b, enc, good), raw)
		if err != nil || crypto.PubkeyToAddress(*pk) != appx.Addr(c.kp[a.SignerIndices[i]]) {
			return false
		}
	}
	return true
}
