// dkgdrv runs real puredkg participants and records what they do.
package main

import (
	"bytes"
	"crypto/rand"
	"flag"
	"fmt"
	"math/big"
	mrand "math/rand"

	blst "github.com/supranational/blst/bindings/go"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"

	"verif/shl/lib"
)

type M = lib.M

var order, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

// dealer: a polynomial with a name
type deal struct {
	name   string
	coef   []*big.Int // nil for honest dealings
	gammas *shcrypto.Gammas
	evals  map[int]*big.Int // honest dealings: known evaluations
}

func evalAt(coef []*big.Int, x int64) *big.Int {
	r := new(big.Int)
	for i := len(coef) - 1; i >= 0; i-- {
		r.Mul(r, big.NewInt(x))
		r.Add(r, coef[i])
		r.Mod(r, order)
	}
	return r
}

func (d *deal) eval(rc int) *big.Int {
	if d.coef != nil {
		return evalAt(d.coef, int64(rc+1))
	}
	return d.evals[rc]
}

type sim struct {
	tw    *lib.TraceWriter
	r     *mrand.Rand
	n     int
	t     int
	eon   uint64
	nodes []*puredkg.PureDKG
	deals map[string]*deal
	taken []map[int]string // per node: dealer -> commitment name
	res   []*puredkg.Result
	dead  bool
}

func guard(f func() M) (out M) {
	defer func() {
		if r := recover(); r != nil {
			out = M{"panic": fmt.Sprintf("%.80v", r), "c": "none"}
		}
	}()
	return f()
}

func (s *sim) reset(n, t int) {
	s.n, s.t, s.eon, s.dead = n, t, uint64(1+s.r.Intn(1000)), false
	s.nodes, s.taken, s.res = nil, nil, make([]*puredkg.Result, n)
	s.deals = map[string]*deal{}
	for i := 0; i < n; i++ {
		p := puredkg.NewPureDKG(s.eon, uint64(n), uint64(t), uint64(i))
		s.nodes = append(s.nodes, &p)
		s.taken = append(s.taken, map[int]string{})
	}
	s.tw.Put(M{"op": "reset", "n": n, "t": t, "eon": s.eon})
}

// fits lists the dealings for which v is the right evaluation towards rc, judged by arithmetic on
// the coefficients where they are known.
func (s *sim) fits(v *big.Int, rc int) []string {
	l := []string{}
	if v == nil || v.Sign() < 0 || v.Cmp(order) >= 0 {
		return l
	}
	for name, d := range s.deals {
		if e := d.eval(rc); e != nil && e.Cmp(v) == 0 && d.gammas != nil && len(*d.gammas) == s.t {
			l = append(l, name)
		}
	}
	return l
}

func (s *sim) val(v *big.Int, rc int) M {
	valid := v.Sign() >= 0 && v.Cmp(order) < 0
	id := v.String()
	if len(id) > 12 {
		id = id[len(id)-12:]
	}
	return M{"id": "v" + id, "valid": valid, "fits": s.fits(v, rc)}
}

func (s *sim) put(m M) {
	s.tw.Put(m)
	if _, p := m["out"].(M)["panic"]; p {
		s.dead = true
	}
}

// start1 lets honest node i deal; returns its messages
func (s *sim) start1(i int) (pc puredkg.PolyCommitmentMsg, pe []puredkg.PolyEvalMsg) {
	name := fmt.Sprintf("h%d", i)
	s.put(M{"op": "start1", "i": i, "out": guard(func() M {
		var err error
		pc, pe, err = s.nodes[i].StartPhase1Dealing()
		if err != nil {
			return M{"panic": "error"}
		}
		d := &deal{name: name, gammas: pc.Gammas, evals: map[int]*big.Int{}}
		rc, fit := []int{}, true
		for _, m := range pe {
			rc = append(rc, int(m.Receiver))
			d.evals[int(m.Receiver)] = m.Eval
			fit = fit && shcrypto.VerifyPolyEval(int(m.Receiver), m.Eval, pc.Gammas, uint64(s.t)) && m.Eon == s.eon && m.Sender == uint64(i)
		}
		if v := s.nodes[i].Evals[i]; v != nil {
			d.evals[i] = v
		}
		s.deals[name] = d
		return M{"c": name, "eon": pc.Eon, "snd": pc.Sender, "deg": len(*pc.Gammas) == s.t, "rc": rc, "fit": fit}
	})})
	return
}

func (s *sim) commit(i, snd int, eon uint64, name string) {
	d := s.deals[name]
	s.put(M{"op": "handle", "i": i, "msg": M{"t": "pc", "eon": eon, "snd": snd, "c": name, "deg": len(*d.gammas) == s.t}, "out": guard(func() M {
		err := s.nodes[i].HandlePolyCommitmentMsg(puredkg.PolyCommitmentMsg{Eon: eon, Sender: uint64(snd), Gammas: d.gammas})
		if err == nil {
			s.taken[i][snd] = name
		}
		return M{"ok": err == nil}
	})})
}

func (s *sim) eval(i, snd, rc int, eon uint64, v *big.Int) {
	s.put(M{"op": "handle", "i": i, "msg": M{"t": "pe", "eon": eon, "snd": snd, "rc": rc, "v": s.val(v, rc)}, "out": guard(func() M {
		return M{"ok": s.nodes[i].HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: eon, Sender: uint64(snd), Receiver: uint64(rc), Eval: new(big.Int).Set(v)}) == nil}
	})})
}

func (s *sim) accuse(i, accuser, accused int, eon uint64) {
	s.put(M{"op": "handle", "i": i, "msg": M{"t": "ac", "eon": eon, "accuser": accuser, "accused": accused}, "out": guard(func() M {
		return M{"ok": s.nodes[i].HandleAccusationMsg(puredkg.AccusationMsg{Eon: eon, Accuser: uint64(accuser), Accused: uint64(accused)}) == nil}
	})})
}

func (s *sim) apologize(i, accuser, accused int, eon uint64, v *big.Int) {
	s.put(M{"op": "handle", "i": i, "msg": M{"t": "ap", "eon": eon, "accuser": accuser, "accused": accused, "v": s.val(v, accuser)}, "out": guard(func() M {
		return M{"ok": s.nodes[i].HandleApologyMsg(puredkg.ApologyMsg{Eon: eon, Accuser: uint64(accuser), Accused: uint64(accused), Eval: new(big.Int).Set(v)}) == nil}
	})})
}

func (s *sim) start2(i int) (l []puredkg.AccusationMsg) {
	s.put(M{"op": "start2", "i": i, "out": guard(func() M {
		l = s.nodes[i].StartPhase2Accusing()
		acc, mine := []int{}, true
		for _, m := range l {
			acc = append(acc, int(m.Accused))
			mine = mine && m.Accuser == uint64(i) && m.Eon == s.eon
		}
		return M{"acc": acc, "mine": mine}
	})})
	return
}

func (s *sim) start3(i int) (l []puredkg.ApologyMsg) {
	name := fmt.Sprintf("h%d", i)
	s.put(M{"op": "start3", "i": i, "out": guard(func() M {
		l = s.nodes[i].StartPhase3Apologizing()
		ap, fit := []int{}, true
		for _, m := range l {
			ap = append(ap, int(m.Accuser))
			fit = fit && m.Eon == s.eon && m.Accused == uint64(i) &&
				shcrypto.VerifyPolyEval(int(m.Accuser), m.Eval, s.deals[name].gammas, uint64(s.t))
		}
		return M{"ap": ap, "fit": fit}
	})})
	return
}

func (s *sim) fin(i int) {
	s.put(M{"op": "fin", "i": i, "out": guard(func() M { s.nodes[i].Finalize(); return M{"ok": true} })})
}

func (s *sim) result(i int) {
	s.put(M{"op": "result", "i": i, "out": guard(func() M {
		res, err := s.nodes[i].ComputeResult()
		if err != nil {
			return M{"ok": false}
		}
		s.res[i] = &res
		pk := (*blst.P2Affine)(res.PublicKey)
		// which sets of dealers does the key belong to?
		var dealers []int
		for d := 0; d < s.n; d++ {
			if _, ok := s.taken[i][d]; ok {
				dealers = append(dealers, d)
			}
		}
		sets := [][]int{}
		for mask := 0; mask < 1<<len(dealers); mask++ {
			sum := new(blst.P2)
			set := []int{}
			for b, d := range dealers {
				if mask&(1<<b) != 0 {
					set = append(set, d)
					if p := (*s.deals[s.taken[i][d]].gammas)[0]; !isZero(p) {
						sum.AddAssign(p)
					}
				}
			}
			if bytes.Equal(sum.ToAffine().Compress(), pk.Compress()) {
				sets = append(sets, set)
			}
		}
		good := res.Eon == s.eon && res.NumKeypers == uint64(s.n) && res.Threshold == uint64(s.t) && res.Keyper == uint64(i) && len(res.PublicKeyShares) == s.n
		var pks []byte
		for _, p := range res.PublicKeyShares {
			pks = append(pks, p.Marshal()...)
		}
		if good {
			id := shcrypto.ComputeEpochID([]byte("epoch"))
			good = shcrypto.VerifyEpochSecretKeyShare(shcrypto.ComputeEpochSecretKeyShare(res.SecretKeyShare, id), res.PublicKeyShares[i], id)
		}
		return M{"ok": true, "sets": sets, "pk": lib.Digest(pk.Compress()), "pks": lib.Digest(pks), "good": good}
	})})
}

func isZero(p *blst.P2Affine) bool { return p.Equals(new(blst.P2Affine)) }

// combine lets the given nodes decrypt something together
func (s *sim) combine(is []int) {
	for _, i := range is {
		if s.res[i] == nil {
			return
		}
	}
	s.put(M{"op": "combine", "is": is, "out": guard(func() M {
		epoch := []byte(fmt.Sprintf("epoch%d", s.r.Intn(1000)))
		id := shcrypto.ComputeEpochID(epoch)
		sigma, err := shcrypto.RandomSigma(rand.Reader)
		if err != nil {
			panic(err)
		}
		msg := make([]byte, s.r.Intn(100))
		s.r.Read(msg)
		c := shcrypto.Encrypt(msg, s.res[is[0]].PublicKey, id, sigma)
		var shares []*shcrypto.EpochSecretKeyShare
		for _, i := range is {
			sh := shcrypto.ComputeEpochSecretKeyShare(s.res[i].SecretKeyShare, id)
			if !shcrypto.VerifyEpochSecretKeyShare(sh, s.res[is[0]].PublicKeyShares[i], id) {
				return M{"ok": false, "what": "share does not verify"}
			}
			shares = append(shares, sh)
		}
		key, err := shcrypto.ComputeEpochSecretKey(is, shares, uint64(len(is)))
		if err != nil {
			return M{"ok": false, "what": "no key"}
		}
		m, err := c.Decrypt(key)
		return M{"ok": err == nil && bytes.Equal(m, msg)}
	})})
}

func (s *sim) combineAll(honest []int) {
	if len(honest) < s.t || s.dead {
		return
	}
	for k := 0; k < 3; k++ {
		p := s.r.Perm(len(honest))
		is := []int{}
		for _, x := range p[:s.t] {
			is = append(is, honest[x])
		}
		s.combine(is)
	}
}

// a polynomial of a dishonest dealer; sometimes with special values
func (s *sim) addDeal(name string, deg int) {
	r := s.r
	coef := []*big.Int{}
	for i := 0; i <= deg; i++ {
		c := new(big.Int).Rand(r, order)
		coef = append(coef, c)
	}
	switch r.Intn(8) {
	case 0: // zero towards some receiver
		x := int64(1 + r.Intn(s.n))
		v := evalAt(coef, x)
		coef[0] = new(big.Int).Mod(new(big.Int).Sub(coef[0], v), order)
	case 1: // lower degree
		coef[deg] = new(big.Int)
	case 2:
		for i := range coef {
			coef[i] = new(big.Int)
		}
	case 3:
		coef[0] = new(big.Int).Sub(order, big.NewInt(1))
	}
	p, err := shcrypto.NewPolynomial(coef)
	if err != nil {
		panic(err)
	}
	g := p.Gammas()
	// through the wire format, as on the chain
	var g2 shcrypto.Gammas
	if err := g2.Unmarshal(g.Marshal()); err == nil {
		g = &g2
	}
	s.deals[name] = &deal{name: name, coef: coef, gammas: g}
}

func (s *sim) wrongVal(dealName string, rc int) *big.Int {
	v := s.deals[dealName].eval(rc)
	switch s.r.Intn(6) {
	case 0:
		return new(big.Int).Add(v, order) // congruent, but out of range
	case 1:
		return new(big.Int).Neg(v)
	case 2:
		return new(big.Int).Sub(v, order)
	case 3:
		return new(big.Int)
	case 4:
		return new(big.Int).Mod(new(big.Int).Add(v, big.NewInt(1)), order)
	}
	return new(big.Int).Rand(s.r, order)
}

// protocol: honest nodes in lockstep, dishonest ones do anything; or loosely with losses
func (s *sim) random() {
	r := s.r
	n := 2 + r.Intn(5)
	t := 1 + r.Intn(n)
	s.reset(n, t)
	nb := 0
	if t > 1 {
		nb = r.Intn(t)
	}
	if r.Intn(8) == 0 {
		nb = r.Intn(n)
	}
	perm := r.Perm(n)
	byz, honest := perm[:nb], perm[nb:]
	loose := r.Intn(3) == 0 // messages to individual nodes get lost or duplicated
	drop := func() bool { return loose && r.Intn(8) == 0 }
	eon := func() uint64 {
		if r.Intn(25) == 0 {
			return s.eon + uint64(r.Intn(3))
		}
		return s.eon
	}
	idx := func() int {
		if r.Intn(12) == 0 {
			return n + r.Intn(3)
		}
		return r.Intn(n)
	}
	each := func(f func(i int)) {
		for _, x := range r.Perm(len(honest)) {
			if s.dead {
				return
			}
			if !drop() {
				f(honest[x])
				if loose && r.Intn(8) == 0 && !s.dead {
					f(honest[x])
				}
			}
		}
	}
	names := []string{}
	for b := range byz {
		for k := 0; k < 1+r.Intn(2); k++ {
			name := fmt.Sprintf("b%d-%d", b, k)
			deg := t - 1
			if r.Intn(6) == 0 {
				deg += 1 - 2*r.Intn(2)
				if deg < 0 {
					deg = 1
				}
			}
			s.addDeal(name, deg)
			names = append(names, name)
		}
	}
	stray := func() {
		// anything, to anyone, at any time
		if len(honest) == 0 || s.dead {
			return
		}
		i := honest[r.Intn(len(honest))]
		any := names
		for _, h := range honest {
			if x := fmt.Sprintf("h%d", h); s.deals[x] != nil {
				any = append(any, x)
			}
		}
		if len(any) == 0 {
			return
		}
		name := any[r.Intn(len(any))]
		snd := idx()
		if s.nodes[i].Phase == puredkg.Off && snd == i {
			return // nobody else can speak in its name
		}
		v := func(rc int) *big.Int {
			if e := s.deals[name].eval(rc); e != nil && r.Intn(2) == 0 {
				return e
			}
			if s.deals[name].eval(rc) == nil {
				return new(big.Int).Rand(r, order)
			}
			return s.wrongVal(name, rc)
		}
		switch r.Intn(4) {
		case 0:
			s.commit(i, snd, eon(), name)
		case 1:
			rc := i
			if r.Intn(4) == 0 {
				rc = idx()
			}
			s.eval(i, snd, rc, eon(), v(rc))
		case 2:
			s.accuse(i, idx(), idx(), eon())
		case 3:
			a := idx()
			s.apologize(i, a, idx(), eon(), v(a))
		}
	}
	strays := 0
	if r.Intn(2) == 0 {
		strays = r.Intn(5)
	}
	some := func() {
		for k := 0; k < strays; k++ {
			if r.Intn(3) == 0 {
				stray()
			}
		}
	}
	// dealing
	type pd struct {
		pc puredkg.PolyCommitmentMsg
		pe []puredkg.PolyEvalMsg
	}
	pds := map[int]pd{}
	some()
	for _, i := range honest {
		if s.dead {
			return
		}
		pc, pe := s.start1(i)
		pds[i] = pd{pc, pe}
	}
	some()
	var todo []func()
	for _, i := range honest {
		i := i
		todo = append(todo, func() { each(func(j int) { s.commit(j, i, pds[i].pc.Eon, fmt.Sprintf("h%d", i)) }) })
		for _, m := range pds[i].pe {
			m := m
			isHonest := false
			for _, h := range honest {
				isHonest = isHonest || h == int(m.Receiver)
			}
			if isHonest && !drop() {
				todo = append(todo, func() { s.eval(int(m.Receiver), i, int(m.Receiver), m.Eon, m.Eval) })
			}
		}
	}
	for _, b := range byz {
		b := b
		for k := 0; k < r.Intn(3); k++ {
			name := names[r.Intn(len(names))]
			e := eon()
			todo = append(todo, func() { each(func(j int) { s.commit(j, b, e, name) }) })
		}
		name := names[r.Intn(len(names))]
		for _, h := range honest {
			h := h
			switch x := r.Intn(8); {
			case x < 5:
				todo = append(todo, func() { s.eval(h, b, h, eon(), s.deals[name].eval(h)) })
			case x < 7:
				todo = append(todo, func() { s.eval(h, b, h, eon(), s.wrongVal(name, h)) })
			}
		}
	}
	run := func() {
		for _, x := range r.Perm(len(todo)) {
			if s.dead {
				return
			}
			todo[x]()
			if strays > 0 && r.Intn(10) == 0 {
				stray()
			}
		}
		todo = nil
	}
	run()
	some()
	// accusing
	for _, i := range honest {
		i := i
		if s.dead {
			return
		}
		for _, m := range s.start2(i) {
			m := m
			todo = append(todo, func() { each(func(j int) { s.accuse(j, i, int(m.Accused), m.Eon) }) })
		}
	}
	for _, b := range byz {
		b := b
		for k := 0; k < r.Intn(3); k++ {
			x, e := idx(), eon()
			todo = append(todo, func() { each(func(j int) { s.accuse(j, b, x, e) }) })
		}
	}
	run()
	some()
	// apologizing
	for _, i := range honest {
		i := i
		if s.dead {
			return
		}
		for _, m := range s.start3(i) {
			m := m
			todo = append(todo, func() { each(func(j int) { s.apologize(j, int(m.Accuser), i, m.Eon, m.Eval) }) })
		}
	}
	for _, b := range byz {
		b := b
		for a := 0; a < n; a++ {
			a := a
			if len(honest) == 0 {
				break
			}
			accused := false
			for _, k := range honest {
				_ = k
			}
			accused = r.Intn(2) == 0
			if !accused {
				continue
			}
			name := names[r.Intn(len(names))]
			v := s.deals[name].eval(a)
			if r.Intn(3) == 0 {
				v = s.wrongVal(name, a)
			}
			todo = append(todo, func() { each(func(j int) { s.apologize(j, a, b, s.eon, v) }) })
		}
	}
	run()
	some()
	for _, i := range honest {
		if s.dead {
			return
		}
		if r.Intn(4) == 0 {
			s.result(i)
		}
		if !s.dead {
			s.fin(i)
		}
	}
	some()
	for _, i := range honest {
		if s.dead {
			return
		}
		s.result(i)
	}
	s.combineAll(honest)
}

func main() {
	out := flag.String("out", "", "")
	seed := flag.Int64("seed", 1, "")
	segs := flag.Int("segments", 20, "")
	scripts := flag.String("scripts", "", "")
	flag.Parse()
	s := &sim{tw: lib.NewTraceWriter(*out), r: mrand.New(mrand.NewSource(*seed))}
	if *scripts != "" {
		for _, l := range lib.Scripts(*scripts) {
			s.script(l)
		}
	} else {
		for i := 0; i < *segs; i++ {
			s.random()
		}
	}
	s.tw.Close()
}

// script replays a behaviour of MCPureDKG.tla: participants 0..n-2 are honest and in lockstep.
func (s *sim) script(l []M) {
	n, t := int(l[0]["n"].(float64)), int(l[0]["t"].(float64))
	s.reset(n, t)
	H := n - 1
	b := n - 1
	s.addDeal("b", t-1)
	s.addDeal("b2", t)
	s.addDeal("b3", t-1)
	names := M{}
	_ = names
	all := func(f func(i int)) {
		for i := 0; i < H; i++ {
			if !s.dead {
				f(i)
			}
		}
	}
	pcs := map[int]uint64{}
	var evs []puredkg.PolyEvalMsg
	all(func(i int) {
		pc, pe := s.start1(i)
		pcs[i] = pc.Eon
		evs = append(evs, pe...)
	})
	all(func(i int) { all(func(j int) { s.commit(j, i, pcs[i], fmt.Sprintf("h%d", i)) }) })
	for _, m := range evs {
		if int(m.Receiver) < H && !s.dead {
			s.eval(int(m.Receiver), int(m.Sender), int(m.Receiver), m.Eon, m.Eval)
		}
	}
	val := func(v M, rc int) *big.Int {
		switch v["id"].(string) {
		case "wrong":
			for {
				w := s.wrongVal("b", rc)
				if w.Sign() >= 0 && w.Cmp(order) < 0 && len(s.fits(w, rc)) == 0 {
					return w
				}
			}
		case "invalid":
			return new(big.Int).Add(order, big.NewInt(s.r.Int63n(3)))
		}
		return s.deals["b"].eval(rc)
	}
	round := 0
	num := func(m M, k string) int { return int(m[k].(float64)) }
	for _, o := range l[1:] {
		if s.dead {
			return
		}
		m, _ := o["msg"].(M)
		switch o["op"] {
		case "cast":
			switch m["t"] {
			case "pc":
				all(func(i int) { s.commit(i, num(m, "snd"), s.eon, m["c"].(string)) })
			case "ac":
				all(func(i int) { s.accuse(i, num(m, "accuser"), num(m, "accused"), s.eon) })
			case "ap":
				v := val(m["v"].(M), num(m, "accuser"))
				all(func(i int) { s.apologize(i, num(m, "accuser"), b, s.eon, v) })
			}
		case "send":
			rc := num(m, "rc")
			s.eval(rc, b, rc, s.eon, val(m["v"].(M), rc))
		case "round":
			switch round {
			case 0:
				var acc []puredkg.AccusationMsg
				all(func(i int) { acc = append(acc, s.start2(i)...) })
				for _, a := range acc {
					all(func(i int) { s.accuse(i, int(a.Accuser), int(a.Accused), s.eon) })
				}
			case 1:
				var ap []puredkg.ApologyMsg
				all(func(i int) { ap = append(ap, s.start3(i)...) })
				for _, a := range ap {
					all(func(i int) { s.apologize(i, int(a.Accuser), int(a.Accused), s.eon, a.Eval) })
				}
			case 2:
				all(func(i int) { s.fin(i) })
				all(func(i int) { s.result(i) })
				if !s.dead && H >= t {
					is := []int{}
					for i := 0; i < t; i++ {
						is = append(is, i)
					}
					s.combine(is)
				}
			}
			round++
		}
	}
}
