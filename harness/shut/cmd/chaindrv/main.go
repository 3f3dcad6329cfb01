// chaindrv runs several real keypers (their Deciders and views) on a real keyper chain
// application, together with misbehaving keypers, and records what happens.
package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/shut/appx"
	"verif/shut/fake"
)

type M = appx.M

const chainID = "chain"

type cfg struct {
	kp    []string
	thr   int
	start int
	idx   int
}

func (c cfg) m() M { return M{"kp": c.kp, "thr": c.thr, "start": c.start, "idx": c.idx} }

type eonInfo struct {
	eon, start int
	cfg        cfg
}

// a keyper under test
type kpr struct {
	name  string
	dir   string
	conf  keyper.Config
	st    *keyper.State
	sh    *observe.Shutter
	mc    int // how many main chain configs it knows
	out   []*shmsg.Message
	last  []fx.IAction // decided in the last step, not yet in out
	ekgs  int
	fresh int64 // until then it finds its nodes catching up
}

// the gob file a keyper keeps
type storedState struct {
	State     *keyper.State
	Shutter   *observe.Shutter
	MainChain *observe.MainChain
}

type valRef struct {
	m      M
	v      *big.Int
	idx    int
	eon    int
	dealer string
}

type sim struct {
	tw     *appx.TraceWriter
	r      *mrand.Rand
	dir    string
	app    *appx.Node
	node   *fake.Node
	L      int
	kps    []*kpr
	byz    []string
	main   []cfg // main chain configs, main[0] has index 0
	cfgs   []cfg // configs accepted on the keyper chain
	eons   []eonInfo
	buf    []M
	vals   []valRef
	gammas map[string]*shcrypto.Gammas // by name
	pcs    map[string]string           // "eon/sender" -> commitment on the chain
	sent   map[string]*shcrypto.Gammas // "eon/sender": commitment a keyper under test made
	polys  map[string]*shcrypto.Polynomial
	nonce  uint64
	dead   bool
	init   bool
}

func (s *sim) put(m M) { s.buf = append(s.buf, m) }

// flush works out which commitments every logged evaluation belongs to and writes the segment.
func (s *sim) flush() {
	for _, v := range s.vals {
		fits := []string{}
		if c, ok := s.pcs[fmt.Sprintf("%d/%s", v.eon, v.dealer)]; ok && v.v.Sign() >= 0 && v.v.Cmp(bn256.Order) < 0 {
			if s.matches(v.v, v.idx, s.gammas[c]) {
				fits = append(fits, c)
			}
		}
		v.m["fits"] = fits
	}
	for _, m := range s.buf {
		s.tw.Put(m)
	}
	s.buf, s.vals = nil, nil
}

func (s *sim) matches(v *big.Int, idx int, g *shcrypto.Gammas) bool {
	if len(*g) == 0 {
		return false
	}
	return shcrypto.EqualG2(new(bn256.G2).ScalarBaseMult(v), g.Pi(shcrypto.KeyperX(idx)))
}

func (s *sim) val(v *big.Int, dec bool, eon int, dealer, receiver string) M {
	m := M{"id": "x", "valid": false, "dec": dec, "fits": []string{}}
	if !dec {
		return m
	}
	id := v.String()
	if len(id) > 10 {
		id = id[len(id)-10:]
	}
	m["id"] = "v" + id
	m["valid"] = v.Sign() >= 0 && v.Cmp(bn256.Order) < 0
	if e := s.eon(eon); e != nil {
		for i, k := range e.cfg.kp {
			if k == receiver {
				s.vals = append(s.vals, valRef{m, v, i, eon, dealer})
			}
		}
	}
	return m
}

func (s *sim) eon(n int) *eonInfo {
	for i := range s.eons {
		if s.eons[i].eon == n {
			return &s.eons[i]
		}
	}
	return nil
}

func (s *sim) gammaName(g *shcrypto.Gammas) string {
	var b []byte
	for _, p := range *g {
		b = append(b, p.Marshal()...)
	}
	n := fmt.Sprintf("c%x", crypto.Keccak256(b)[:5])
	s.gammas[n] = g
	return n
}

func decrypt(name string, b []byte) (*big.Int, bool) {
	pt, err := appx.EncKey[appx.KeyIndex(name)].Decrypt(b, []byte(""), []byte(""))
	if err != nil {
		return nil, false
	}
	return new(big.Int).SetBytes(pt), true
}

// describe an event on the chain, as a keyper decodes it
func (s *sim) describe(ev abcitypes.Event) M {
	x, err := shutterevents.MakeEvent(ev, 7)
	if err != nil {
		return M{"t": "undecodable"}
	}
	switch e := x.(type) {
	case *shutterevents.PolyCommitment:
		n := s.gammaName(e.Gammas)
		snd := appx.AddrName(e.Sender)
		s.pcs[fmt.Sprintf("%d/%s", e.Eon, snd)] = n
		return M{"t": "pc", "eon": e.Eon, "snd": snd, "c": n, "deg": len(*e.Gammas) - 1}
	case *shutterevents.PolyEval:
		rc, vs := appx.AddrNames(e.Receivers), []M{}
		for i, k := range rc {
			v, ok := decrypt(k, e.EncryptedEvals[i])
			vs = append(vs, s.val(v, ok, int(e.Eon), appx.AddrName(e.Sender), k))
		}
		return M{"t": "pe", "eon": e.Eon, "snd": appx.AddrName(e.Sender), "rc": rc, "v": vs}
	case *shutterevents.Accusation:
		return M{"t": "ac", "eon": e.Eon, "snd": appx.AddrName(e.Sender), "acc": appx.AddrNames(e.Accused)}
	case *shutterevents.Apology:
		acc, vs := appx.AddrNames(e.Accusers), []M{}
		for i, k := range acc {
			vs = append(vs, s.val(e.PolyEval[i], true, int(e.Eon), appx.AddrName(e.Sender), k))
		}
		return M{"t": "ap", "eon": e.Eon, "snd": appx.AddrName(e.Sender), "acc": acc, "v": vs}
	case *shutterevents.BatchConfig:
		c := cfg{appx.AddrNames(e.Keypers), int(e.Threshold), int(e.StartBatchIndex), int(e.ConfigIndex)}
		s.cfgs = append(s.cfgs, c)
		m := c.m()
		m["t"] = "bc"
		return m
	case *shutterevents.EonStarted:
		i := eonInfo{eon: int(e.Eon), start: int(e.BatchIndex)}
		for j := len(s.cfgs) - 1; j >= 0; j-- {
			if s.cfgs[j].start <= i.start {
				i.cfg = s.cfgs[j]
				break
			}
		}
		s.eons = append(s.eons, i)
		return M{"t": "eon", "eon": e.Eon, "start": e.BatchIndex}
	case *shutterevents.CheckIn:
		return M{"t": "ci", "snd": appx.AddrName(e.Sender)}
	}
	return M{"t": "other"}
}

func (s *sim) reset(L int, honest, byz []string, genesis []string, thr int) {
	s.L, s.byz = L, byz
	s.dead, s.init = false, false
	s.main, s.cfgs, s.eons = []cfg{{}}, nil, nil
	s.gammas, s.pcs, s.sent = map[string]*shcrypto.Gammas{}, map[string]string{}, map[string]*shcrypto.Gammas{}
	s.polys = map[string]*shcrypto.Polynomial{}
	d, err := os.MkdirTemp(s.dir, "seg")
	if err != nil {
		panic(err)
	}
	s.app = appx.NewNode(d, appx.Genesis{KP: genesis, Thr: int64(thr), Chain: chainID})
	s.node = &fake.Node{}
	s.kps = nil
	for _, h := range honest {
		i := appx.KeyIndex(h)
		kd := filepath.Join(d, h)
		if err := os.MkdirAll(kd, 0o755); err != nil {
			panic(err)
		}
		k := &kpr{name: h, dir: kd, st: keyper.NewState(), sh: observe.NewShutter(), mc: 1}
		k.conf = keyper.Config{
			SigningKey: appx.Keys[i], EncryptionKey: appx.EncKey[i],
			ValidatorKey: ed25519.NewKeyFromSeed(crypto.Keccak256([]byte(h))),
			DBDir:        kd, DKGPhaseLength: uint64(L), ExecutionStaggering: 3,
			ConfigContractAddress: appx.Addrs[10], BatcherContractAddress: appx.Addrs[11],
		}
		s.kps = append(s.kps, k)
	}
	s.put(M{"op": "reset", "L": L, "me": honest})
	s.put(M{"op": "main", "cfg": cfg{kp: []string{}}.m()})
}

func (s *sim) addConfig(c cfg) {
	c.idx = len(s.main)
	s.main = append(s.main, c)
	s.put(M{"op": "main", "cfg": c.m()})
}

func (s *sim) tx(from string, m *shmsg.Message) []byte {
	s.nonce++
	return appx.MakeTx(m, chainID, s.nonce, appx.Keys[appx.KeyIndex(from)])
}

// block puts transactions on the chain
func (s *sim) block(txs [][]byte) {
	evs := []M{}
	fb := []fake.Tx{}
	h := int64(len(s.node.Blocks)) + 1
	s.app.Begin()
	for _, tx := range txs {
		resp, err := s.app.DeliverRaw(tx)
		if err != nil {
			s.put(M{"op": "appcrash"})
			s.dead = true
			return
		}
		for _, e := range resp.Events {
			if resp.Code == 0 {
				evs = append(evs, s.describe(e))
			}
		}
		fb = append(fb, fake.Tx{Code: resp.Code, Events: resp.Events})
	}
	s.app.EndRaw(h)
	s.app.Commit(false)
	s.node.With(func(n *fake.Node) { n.Blocks = append(n.Blocks, fb) })
	s.put(M{"op": "block", "evs": evs})
}

func (s *sim) empty(n int) {
	for i := 0; i < n; i++ {
		s.block(nil)
	}
}

func (s *sim) height() int64 { return int64(len(s.node.Blocks)) }

func (s *sim) mainChain(k *kpr) *observe.MainChain {
	m := observe.NewMainChain(0)
	m.CurrentBlock = 100
	for i := 0; i < k.mc && i < len(s.main); i++ {
		c := s.main[i]
		bc := contract.BatchConfig{StartBatchIndex: uint64(c.start), Keypers: appx.AddrsOf(c.kp), Threshold: uint64(c.thr)}
		if i > 0 {
			bc.StartBlockNumber, bc.BatchSpan, bc.ExecutionTimeout = 1000000, 10, 50
		}
		m.BatchConfigs = append(m.BatchConfigs, bc)
	}
	return m
}

func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%.100v", r)
			if !appx.ASCII(p) {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

// hand puts the actions of the last step into the keyper's outgoing queue
func (k *kpr) hand(acts []fx.IAction) {
	for _, a := range acts {
		if m, ok := a.(*fx.SendShuttermintMessage); ok {
			k.out = append(k.out, m.Msg)
		}
	}
}

// decide lets a keyper synchronise up to height h and take a step; its keyper chain node (1) or
// its main chain node (2) may still be catching up
func (s *sim) decide(k *kpr, h int64, syncing int) {
	k.hand(k.last)
	k.last = nil
	s.node.With(func(n *fake.Node) { n.Head, n.Catching = h+1, syncing == 1 })
	var acts []fx.IAction
	mc := s.mainChain(k)
	if syncing == 2 {
		mc.NodeSyncProgress = &ethereum.SyncProgress{CurrentBlock: 1, HighestBlock: 5}
	}
	p := guard(func() {
		sh, err := k.sh.SyncToHead(context.Background(), s.node)
		if err != nil {
			panic(err)
		}
		k.sh = sh
		d := keyper.Decider{Config: k.conf, State: k.st, Shutter: k.sh, MainChain: mc, PhaseLength: keyper.NewConstantPhaseLength(int64(s.L))}
		d.Decide()
		acts = d.Actions
	})
	e := M{"op": "decide", "k": k.name, "h": k.sh.CurrentBlock, "mc": k.mc, "synced": mc.IsSynced() && k.sh.IsSynced()}
	if p != "" {
		e["out"] = M{"panic": p}
		s.put(e)
		s.dead = true
		return
	}
	res := s.results(k)
	l, own := s.actions(k, acts, res)
	e["out"] = M{"acts": l, "own": own, "res": res}
	s.put(e)
	k.last = acts
	k.st.Actions = acts
	k.save(mc)
	k.st.Actions = nil
	k.sh = k.sh.ApplyFilter(k.st.GetShutterFilter(mc))
}

func (k *kpr) save(mc *observe.MainChain) {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(storedState{k.st, k.sh, mc}); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(k.dir, "state.gob"), b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}

// restart loads the keyper's state from its file; whatever was decided last is in there too
func (s *sim) restart(k *kpr) {
	if _, err := os.Stat(filepath.Join(k.dir, "state.gob")); err != nil {
		return
	}
	x := keyper.NewKeyper(k.conf)
	err := ""
	if p := guard(func() {
		if e := x.LoadState(); e != nil {
			err = "cannot load the state"
		}
	}); p != "" {
		err = p
	}
	if err != "" {
		s.put(M{"op": "restart", "k": k.name, "out": M{"panic": err}})
		s.dead = true
		return
	}
	n := len(k.last)
	k.st, k.sh = x.State, x.CurrentWorld().Shutter
	if k.last != nil {
		k.last = k.st.Actions
		n -= len(k.last)
	}
	k.st.Actions = nil
	s.put(M{"op": "restart", "k": k.name, "out": M{"lost": n}})
}

// results describes the eon keys a keyper came to hold in its last step.
func (s *sim) results(k *kpr) []M {
	l := []M{}
	for ; k.ekgs < len(k.st.EKGs); k.ekgs++ {
		x := k.st.EKGs[k.ekgs]
		g := x.EpochKG
		e := s.eon(int(x.Eon))
		var pks []byte
		for _, p := range g.PublicKeyShares {
			pks = append(pks, (*bn256.G2)(p).Marshal()...)
		}
		pk := (*bn256.G2)(g.PublicKey)
		good := e != nil && g.Eon == x.Eon && int(g.NumKeypers) == len(e.cfg.kp) && int(g.Threshold) == e.cfg.thr &&
			len(g.PublicKeyShares) == len(e.cfg.kp) && e.cfg.kp[g.Keyper] == k.name && fmt.Sprint(appx.AddrNames(x.Keypers)) == fmt.Sprint(e.cfg.kp)
		if good {
			id := shcrypto.ComputeEpochID([]byte("12345678"))
			good = shcrypto.VerifyEpochSecretKeyShare(shcrypto.ComputeEpochSecretKeyShare(g.SecretKeyShare, id), g.PublicKeyShares[g.Keyper], id)
		}
		sets := [][]M{}
		if e != nil {
			type dl struct {
				i int
				c string
			}
			var ds []dl
			for i, kn := range e.cfg.kp {
				if c, ok := s.pcs[fmt.Sprintf("%d/%s", e.eon, kn)]; ok && len(*s.gammas[c]) == e.cfg.thr {
					ds = append(ds, dl{i, c})
				}
			}
			for mask := 0; mask < 1<<len(ds); mask++ {
				sum := new(bn256.G2).ScalarBaseMult(big.NewInt(0))
				set := []M{}
				for b, d := range ds {
					if mask&(1<<b) != 0 {
						set = append(set, M{"i": d.i, "c": d.c})
						sum = new(bn256.G2).Add(sum, (*s.gammas[d.c])[0])
					}
				}
				if shcrypto.EqualG2(sum, pk) {
					sets = append(sets, set)
				}
			}
		}
		l = append(l, M{"eon": x.Eon, "pk": fmt.Sprintf("%x", crypto.Keccak256(pk.Marshal())[:6]), "pks": fmt.Sprintf("%x", crypto.Keccak256(pks)[:6]), "good": good, "sets": sets})
	}
	return l
}

// actions describes what a keyper decided to do.
func (s *sim) actions(k *kpr, acts []fx.IAction, res []M) ([]M, []M) {
	l, own := []M{}, []M{}
	add := func(m M) { l = append(l, m) }
	names := func(bs [][]byte) []string {
		r := []string{}
		for _, b := range bs {
			r = append(r, appx.AddrName(common.BytesToAddress(b)))
		}
		return r
	}
	idxOf := func(e *eonInfo, n string) int {
		if e != nil {
			for i, x := range e.cfg.kp {
				if x == n {
					return i
				}
			}
		}
		return -1
	}
	for _, a := range acts {
		switch x := a.(type) {
		case *fx.EonKeyBroadcast:
			m := M{"a": "key", "start": x.StartBatchIndex, "me": x.KeyperIndex, "good": false, "eon": -1}
			for _, g := range k.st.EKGs {
				for _, r := range res {
					if r["eon"] == g.Eon && m["eon"] == -1 && x.EonPublicKey.Equal(g.EpochKG.PublicKey) {
						m["eon"], m["good"] = g.Eon, true
					}
				}
			}
			add(m)
		case *fx.SendShuttermintMessage:
			switch p := x.Msg.GetPayload().(type) {
			case *shmsg.Message_CheckIn:
				good := bytes.Equal(p.CheckIn.ValidatorPublicKey, k.conf.ValidatorKey.Public().(ed25519.PublicKey)) &&
					bytes.Equal(p.CheckIn.EncryptionPublicKey, crypto.CompressPubkey(k.conf.EncryptionKey.PublicKey.ExportECDSA()))
				add(M{"a": "ci", "good": good})
			case *shmsg.Message_BatchConfig:
				c := p.BatchConfig
				good := common.BytesToAddress(c.ConfigContractAddress) == k.conf.ConfigContractAddress && !c.Started && !c.ValidatorsUpdated
				add(M{"a": "bc", "idx": c.ConfigIndex, "start": c.StartBatchIndex, "kp": names(c.Keypers), "thr": c.Threshold, "good": good})
			case *shmsg.Message_EonStartVote:
				add(M{"a": "esv", "start": p.EonStartVote.StartBatchIndex, "good": true})
			case *shmsg.Message_PolyCommitment:
				g, good := shcrypto.Gammas{}, true
				for _, b := range p.PolyCommitment.Gammas {
					pt := new(bn256.G2)
					if _, err := pt.Unmarshal(b); err != nil {
						good = false
						continue
					}
					g = append(g, pt)
				}
				e := s.eon(int(p.PolyCommitment.Eon))
				good = good && e != nil && len(g) == e.cfg.thr
				n := s.gammaName(&g)
				s.sent[fmt.Sprintf("%d/%s", p.PolyCommitment.Eon, k.name)] = &g
				own = append(own, M{"eon": p.PolyCommitment.Eon, "c": n})
				add(M{"a": "pc", "eon": p.PolyCommitment.Eon, "good": good})
			case *shmsg.Message_PolyEval:
				e := s.eon(int(p.PolyEval.Eon))
				rc := names(p.PolyEval.Receivers)
				g := s.sent[fmt.Sprintf("%d/%s", p.PolyEval.Eon, k.name)]
				good := g != nil && len(rc) == len(p.PolyEval.EncryptedEvals)
				for i := range rc {
					if !good {
						break
					}
					v, ok := decrypt(rc[i], p.PolyEval.EncryptedEvals[i])
					good = ok && idxOf(e, rc[i]) >= 0 && s.matches(v, idxOf(e, rc[i]), g)
				}
				add(M{"a": "pe", "eon": p.PolyEval.Eon, "who": rc, "good": good})
			case *shmsg.Message_Accusation:
				add(M{"a": "ac", "eon": p.Accusation.Eon, "who": names(p.Accusation.Accused), "good": true})
			case *shmsg.Message_Apology:
				e := s.eon(int(p.Apology.Eon))
				who := names(p.Apology.Accusers)
				g := s.sent[fmt.Sprintf("%d/%s", p.Apology.Eon, k.name)]
				good := len(who) == len(p.Apology.PolyEvals)
				for i := range who {
					if good && g != nil {
						good = idxOf(e, who[i]) >= 0 && s.matches(new(big.Int).SetBytes(p.Apology.PolyEvals[i]), idxOf(e, who[i]), g)
					}
				}
				add(M{"a": "ap", "eon": p.Apology.Eon, "who": who, "good": good})
			default:
				add(M{"a": "other", "good": false})
			}
		default:
			add(M{"a": "other", "good": false})
		}
	}
	return l, own
}

// ---- misbehaving keypers -----------------------------------------------------------------

func (s *sim) poly(name string, eon, deg, variant int) *shcrypto.Polynomial {
	key := fmt.Sprintf("%s/%d/%d/%d", name, eon, deg, variant)
	if p, ok := s.polys[key]; ok {
		return p
	}
	p, err := shcrypto.RandomPolynomial(rand.Reader, uint64(deg))
	if err != nil {
		panic(err)
	}
	s.polys[key] = p
	return p
}

func (s *sim) encrypt(to string, v *big.Int) []byte {
	pk := &appx.EncKey[appx.KeyIndex(to)].PublicKey
	b, err := ecies.Encrypt(rand.Reader, pk, v.Bytes(), []byte(""), []byte(""))
	if err != nil {
		panic(err)
	}
	return b
}

func (s *sim) byzVal(e *eonInfo, b string, i int, kind string) *big.Int {
	v := s.poly(b, e.eon, e.cfg.thr-1, 0).EvalForKeyper(i)
	switch kind {
	case "right":
	case "wrong":
		v = new(big.Int).Mod(new(big.Int).Add(v, big.NewInt(1)), bn256.Order)
	case "zero":
		v = new(big.Int)
	case "big":
		v = new(big.Int).Add(v, bn256.Order)
	}
	return v
}

func (s *sim) byzKind() string {
	return []string{"right", "right", "wrong", "zero", "big"}[s.r.Intn(5)]
}

// byzMsg is something a misbehaving keyper might send; kind "" picks one
func (s *sim) byzMsg(b string) *shmsg.Message {
	r := s.r
	if len(s.eons) == 0 || r.Intn(12) == 0 {
		switch r.Intn(3) {
		case 0:
			return s.checkIn(b)
		case 1:
			return shmsg.NewEonStartVote(uint64(r.Intn(6)))
		default:
			c := s.main[r.Intn(len(s.main))]
			return shmsg.NewBatchConfig(uint64(c.start), appx.AddrsOf(c.kp), uint64(c.thr), appx.Addrs[10], uint64(c.idx), false, false)
		}
	}
	e := &s.eons[len(s.eons)-1]
	if r.Intn(5) == 0 {
		e = &s.eons[r.Intn(len(s.eons))]
	}
	if e.cfg.thr == 0 {
		return shmsg.NewEonStartVote(uint64(r.Intn(6)))
	}
	others := []string{}
	for _, k := range e.cfg.kp {
		if k != b && r.Intn(3) > 0 {
			others = append(others, k)
		}
	}
	if r.Intn(15) == 0 {
		others = append(others, "k9")
	}
	deg := e.cfg.thr - 1
	switch r.Intn(6) {
	case 0:
		if r.Intn(4) == 0 {
			deg++
		}
		return shmsg.NewPolyCommitment(uint64(e.eon), s.poly(b, e.eon, deg, 0).Gammas())
	case 1, 2:
		evs := [][]byte{}
		for i, k := range e.cfg.kp {
			for _, o := range others {
				if o == k {
					evs = append(evs, s.encrypt(k, s.byzVal(e, b, i, s.byzKind())))
				}
			}
		}
		if len(evs) > 0 && r.Intn(6) == 0 {
			evs[0] = []byte("garbage")
		}
		for len(evs) < len(others) {
			evs = append(evs, []byte{1})
		}
		return shmsg.NewPolyEval(uint64(e.eon), appx.AddrsOf(others), evs)
	case 3, 4:
		return shmsg.NewAccusation(uint64(e.eon), appx.AddrsOf(others))
	}
	vs := []*big.Int{}
	for _, o := range others {
		i := 0
		for j, k := range e.cfg.kp {
			if k == o {
				i = j
			}
		}
		vs = append(vs, s.byzVal(e, b, i, s.byzKind()))
	}
	return shmsg.NewApology(uint64(e.eon), appx.AddrsOf(others), vs)
}

func (s *sim) checkIn(b string) *shmsg.Message {
	return shmsg.NewCheckIn(crypto.Keccak256([]byte(b+"v")), &appx.EncKey[appx.KeyIndex(b)].PublicKey)
}

// bootstrap lets the genesis keypers vote for config 1
func (s *sim) bootstrap(genesis []string) [][]byte {
	c := s.main[1]
	txs := [][]byte{}
	for _, g := range genesis {
		txs = append(txs, s.tx(g, shmsg.NewBatchConfig(uint64(c.start), appx.AddrsOf(c.kp), uint64(c.thr), appx.Addrs[10], 1, true, true)))
	}
	return txs
}

// ---- random runs -------------------------------------------------------------------------

func (s *sim) random(ops int) {
	r := s.r
	n := 2 + r.Intn(4)
	all := []string{}
	for i := 1; i <= n+1; i++ {
		all = append(all, fmt.Sprintf("k%d", i))
	}
	perm := r.Perm(len(all))
	nb := r.Intn(n)
	honest, byz := []string{}, []string{}
	for i, p := range perm {
		if i < nb {
			byz = append(byz, all[p])
		} else {
			honest = append(honest, all[p])
		}
	}
	sort.Strings(honest)
	L := 2 + r.Intn(5)
	first := all[:n]
	s.reset(L, honest, byz, []string{"k1", "k2"}, 1+r.Intn(2))
	thr := 1 + r.Intn(n)
	s.addConfig(cfg{kp: first, thr: thr, start: r.Intn(4)})
	late := r.Intn(3)   // 0: everyone keeps up
	slow := r.Intn(3)   // 0: messages arrive at once
	wild := r.Intn(100) // activity of the misbehaving
	for _, k := range s.kps {
		k.mc = 2
		if r.Intn(4) == 0 {
			k.fresh = int64(r.Intn(4 * L))
		}
	}
	s.empty(r.Intn(3))
	s.block(s.bootstrap([]string{"k1", "k2"}))
	if r.Intn(3) > 0 {
		// everyone checks in early
		txs := [][]byte{}
		for _, b := range byz {
			txs = append(txs, s.tx(b, s.checkIn(b)))
		}
		s.block(txs)
	}
	for ; ops > 0 && !s.dead; ops-- {
		txs := [][]byte{}
		for _, x := range r.Perm(len(s.kps)) {
			k := s.kps[x]
			for len(k.out) > 0 && (slow == 0 || r.Intn(3) > 0) {
				txs = append(txs, s.tx(k.name, k.out[0]))
				k.out = k.out[1:]
			}
		}
		for _, b := range byz {
			for r.Intn(100) < wild {
				txs = append(txs, s.tx(b, s.byzMsg(b)))
			}
		}
		if slow > 0 {
			r.Shuffle(len(txs), func(i, j int) { txs[i], txs[j] = txs[j], txs[i] })
		}
		s.block(txs)
		for _, x := range r.Perm(len(s.kps)) {
			k := s.kps[x]
			if s.dead {
				break
			}
			if r.Intn(10) == 0 {
				s.restart(k)
			}
			if late == 0 || r.Intn(1+2*late) == 0 || s.height()-k.sh.CurrentBlock > int64(2*L) && r.Intn(3) == 0 {
				if k.mc < len(s.main) && r.Intn(2) == 0 {
					k.mc++
				}
				h := s.height()
				if r.Intn(5) == 0 && h > 0 {
					h = k.sh.CurrentBlock + int64(r.Intn(int(h-max(k.sh.CurrentBlock, 0))+1))
				}
				if h < 0 {
					h = 0
				}
				if !s.dead {
					syncing := 0
					if r.Intn(25) == 0 || h < k.fresh {
						syncing = 1 + r.Intn(2)
					}
					s.decide(k, h, syncing)
				}
			}
			if r.Intn(12) == 0 && !s.dead {
				s.restart(k)
			}
			if late == 0 || r.Intn(2) == 0 {
				k.hand(k.last)
				k.last = nil
			}
		}
		if r.Intn(18) == 0 && len(s.main) < 5 {
			prev := s.main[len(s.main)-1]
			c := cfg{start: prev.start + r.Intn(3)}
			if r.Intn(4) == 0 {
				c.kp = prev.kp
			} else {
				for _, i := range r.Perm(len(all))[:1+r.Intn(len(all))] {
					c.kp = append(c.kp, all[i])
				}
			}
			c.thr = 1 + r.Intn(len(c.kp))
			if r.Intn(4) == 0 && prev.thr <= len(c.kp) {
				c.thr = prev.thr
			}
			s.addConfig(c)
		}
	}
	s.flush()
}

func max(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ---- a chain made of given events ----------------------------------------------------------

func (s *sim) synthBlock(names []string) {
	var fb fake.Tx
	add := func(x interface{ MakeABCIEvent() abcitypes.Event }) { fb.Events = append(fb.Events, x.MakeABCIEvent()) }
	start := 0
	if len(s.cfgs) > 0 {
		start = s.cfgs[len(s.cfgs)-1].start
	}
	k := s.kps[0]
	for _, n := range names {
		switch n {
		case "bc":
			c := s.main[len(s.cfgs)+1]
			start = c.start
			add(shutterevents.BatchConfig{Keypers: appx.AddrsOf(c.kp), Threshold: uint64(c.thr), StartBatchIndex: uint64(c.start), ConfigIndex: uint64(c.idx)})
		case "eon":
			add(shutterevents.EonStarted{Eon: uint64(len(s.eons) + 1), BatchIndex: uint64(start)})
		case "ci":
			add(shutterevents.CheckIn{Sender: appx.Addrs[appx.KeyIndex(k.name)], EncryptionPublicKey: &appx.EncKey[appx.KeyIndex(k.name)].PublicKey})
		case "own":
			k.hand(k.last)
			k.last = nil
			for _, m := range k.out {
				if p, ok := m.GetPayload().(*shmsg.Message_PolyCommitment); ok {
					g := s.sent[fmt.Sprintf("%d/%s", p.PolyCommitment.Eon, k.name)]
					add(shutterevents.PolyCommitment{Eon: p.PolyCommitment.Eon, Sender: appx.Addrs[appx.KeyIndex(k.name)], Gammas: g})
				}
			}
			k.out = nil
		}
	}
	evs := []M{}
	for _, e := range fb.Events {
		evs = append(evs, s.describe(e))
	}
	s.node.With(func(n *fake.Node) { n.Blocks = append(n.Blocks, []fake.Tx{fb}) })
	s.put(M{"op": "block", "evs": evs})
}

func (s *sim) synth(ops []M, strs func(interface{}) []string) {
	g := ops[0]
	me := g["me"].(string)
	s.reset(int(g["L"].(float64)), []string{me}, nil, []string{me}, 1)
	all := []cfg{{}}
	for i, x := range g["main"].([]interface{}) {
		c := x.(map[string]interface{})
		all = append(all, cfg{kp: strs(c["kp"]), thr: int(c["thr"].(float64)), start: int(c["start"].(float64)), idx: i + 1})
	}
	k := s.kps[0]
	for _, c := range all[1:] {
		s.addConfig(c)
	}
	for _, o := range ops[1:] {
		if s.dead {
			break
		}
		switch o["op"] {
		case "main":
			k.mc++
		case "decide":
			s.decide(k, s.height(), 0)
		case "restart":
			s.restart(k)
		case "synth":
			s.synthBlock(strs(o["evs"]))
		}
	}
	s.flush()
}

// ---- behaviours of the specification -------------------------------------------------------

func (s *sim) script(ops []M) {
	g := ops[0]
	strs := func(x interface{}) []string {
		l := []string{}
		if x != nil {
			for _, y := range x.([]interface{}) {
				l = append(l, y.(string))
			}
		}
		return l
	}
	if g["main"] != nil {
		s.synth(ops, strs)
		return
	}
	kp := strs(g["kp"])
	s.reset(int(g["L"].(float64)), strs(g["honest"]), strs(g["byz"]), kp[:1], 1)
	s.addConfig(cfg{kp: kp, thr: int(g["t"].(float64)), start: 0})
	var txs [][]byte
	for _, k := range s.kps {
		k.mc = 2
	}
	// the keypers have checked in before the first eon
	for _, k := range kp {
		txs = append(txs, s.tx(k, s.checkIn(k)))
	}
	s.block(append(s.bootstrap(kp[:1]), txs...))
	find := func(n string) *kpr {
		for _, k := range s.kps {
			if k.name == n {
				return k
			}
		}
		panic("unknown keyper " + n)
	}
	for _, o := range ops[1:] {
		if s.dead {
			break
		}
		switch o["op"] {
		case "decide":
			k := find(o["k"].(string))
			s.decide(k, s.height(), 0)
		case "restart":
			s.restart(find(o["k"].(string)))
		case "block":
			txs := [][]byte{}
			for _, n := range strs(o["from"]) {
				k := find(n)
				k.hand(k.last)
				k.last = nil
				for _, m := range k.out {
					txs = append(txs, s.tx(n, m))
				}
				k.out = nil
			}
			if o["byz"] != nil {
				for _, x := range o["byz"].([]interface{}) {
					b := x.(map[string]interface{})
					e := s.eon(1)
					snd := b["snd"].(string)
					if e == nil {
						break
					}
					who := strs(b["who"])
					vals := strs(b["v"])
					idx := func(n string) int {
						for i, k := range e.cfg.kp {
							if k == n {
								return i
							}
						}
						panic("not a keyper")
					}
					var m *shmsg.Message
					switch b["t"] {
					case "pc":
						m = shmsg.NewPolyCommitment(1, s.poly(snd, 1, e.cfg.thr-1, 0).Gammas())
					case "pe":
						evs := [][]byte{}
						for i, w := range who {
							if vals[i] == "garbage" {
								evs = append(evs, []byte("garbage"))
								continue
							}
							evs = append(evs, s.encrypt(w, s.byzVal(e, snd, idx(w), vals[i])))
						}
						m = shmsg.NewPolyEval(1, appx.AddrsOf(who), evs)
					case "ac":
						m = shmsg.NewAccusation(1, appx.AddrsOf(who))
					case "ap":
						vs := []*big.Int{}
						for i, w := range who {
							vs = append(vs, s.byzVal(e, snd, idx(w), vals[i]))
						}
						m = shmsg.NewApology(1, appx.AddrsOf(who), vs)
					}
					txs = append(txs, s.tx(snd, m))
				}
			}
			s.block(txs)
		}
	}
	s.flush()
}

func main() {
	out := flag.String("out", "trace.ndjson", "")
	seed := flag.Int64("seed", 1, "")
	segments := flag.Int("segments", 0, "")
	ops := flag.Int("ops", 60, "")
	scripts := flag.String("scripts", "", "")
	flag.Parse()
	tw := appx.NewTraceWriter(*out)
	defer tw.Close()
	dir, err := os.MkdirTemp("", "chaindrv")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	s := &sim{tw: tw, r: mrand.New(mrand.NewSource(*seed)), dir: dir}
	if *scripts != "" {
		f, err := os.Open(*scripts)
		if err != nil {
			panic(err)
		}
		dec := json.NewDecoder(f)
		for {
			var l []M
			if err := dec.Decode(&l); err != nil {
				break
			}
			s.script(l)
		}
	}
	for i := 0; i < *segments; i++ {
		s.random(*ops)
	}
}
