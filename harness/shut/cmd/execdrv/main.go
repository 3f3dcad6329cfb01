package main

import (
	"encoding/json"
	"flag"
	"fmt"
	mrand "math/rand"
	"os"
	"sort"

	"verif/shut/appx"
)

// mtx is a transaction on its way to the main chain
type mtx struct {
	t, by string
	b, hs int
	txs   []string
	due   int
}

type sev struct {
	ev  M
	due int64
}

// sim makes up histories
type sim struct {
	*world
	plan    []cfg // configs still to be scheduled: appear at block at[i]
	at      []int
	bcs     int // configs already on the keyper chain
	mempool []mtx
	inbox   []sev
	byz     map[string]bool
	stopped map[string]bool
	ntx     int
	keyed   map[string]bool // "k/eon" already gained
	kinds   []string
	sent    map[string]bool
	accd    map[int]bool
	lag     int
	stuck   map[string]int // this keyper's main chain node stands still until then
	pTx     float64
	faulty  float64
	jumpy   bool
}

func (s *sim) chance(p float64) bool  { return s.r.Float64() < p }
func (s *sim) pick(l []string) string { return l[s.r.Intn(len(l))] }

func (s *sim) random(steps int) {
	r := s.r
	names := []string{}
	for i := 0; i < 6; i++ {
		names = append(names, appx.AddrName(appx.Addrs[i]))
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	nt := [][2]int{{3, 2}, {3, 2}, {3, 2}, {4, 3}, {4, 2}, {2, 2}, {2, 1}, {1, 1}, {3, 1}, {3, 3}}[r.Intn(10)]
	n, t := nt[0], nt[1]
	real := 1 + r.Intn(2)
	if real > n {
		real = n
	}
	if s.chance(0.1) {
		real++ // perhaps no member at first
	}
	stag := map[string]int{}
	var order []string
	perm := r.Perm(n)
	pos := append([]string{}, names[:n]...)
	for i := 0; i < real && i < 3; i++ {
		nm := names[n]
		if i < n {
			nm = pos[perm[i]]
		}
		order = append(order, nm)
		stag[nm] = []int{0, 0, 1, 2, 5}[r.Intn(5)]
	}
	s.reset(stag, order)
	s.mempool, s.inbox, s.ntx = nil, nil, 0
	s.byz, s.stopped, s.keyed, s.sent, s.accd = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[int]bool{}
	s.lag, s.stuck = []int{0, 0, 1, 3, 8}[r.Intn(5)], map[string]int{}
	s.pTx = []float64{0.1, 0.4, 0.8}[r.Intn(3)]
	s.faulty = []float64{0, 0.1, 0.3}[r.Intn(3)]
	s.jumpy = s.chance(0.05)
	others := []string{}
	for _, x := range names[:n] {
		if indexOf(order, x) < 0 {
			others = append(others, x)
		}
	}
	for i := 0; i < t-1 && i < len(others); i++ {
		if s.chance(0.6) {
			s.byz[others[i]] = true
		}
	}
	for _, x := range others {
		if !s.byz[x] && s.chance(0.2) {
			s.stopped[x] = true
		}
	}
	// configs
	s.plan, s.at, s.bcs = nil, nil, 0
	mk := func(c cfg, at int) { s.plan, s.at = append(s.plan, c), append(s.at, at) }
	span := 2 + r.Intn(5)
	c := cfg{1, 3 + r.Intn(5), r.Intn(3), span, []int{2, 4, 8, 15, 30}[r.Intn(5)], t, append([]string{}, names[:n]...)}
	mk(c, 1)
	for len(s.plan) < 4 && s.chance(0.5) {
		bs := 2 + r.Intn(5)
		d := c
		d.idx++
		if c.span == 0 {
			d.sblk, d.sbat = c.sblk+1+r.Intn(10), c.sbat
		} else {
			d.sblk, d.sbat = c.sblk+bs*c.span, c.sbat+bs
		}
		switch x := r.Intn(4); {
		case x == 0 && c.span != 0:
			d.span, d.to = 0, 5
		case x == 1:
			d.span = 1 + r.Intn(6)
			d.to = 2 + r.Intn(20)
		default:
			if d.span == 0 {
				d.span = span
			}
			r2 := append([]string{}, names[:5]...)
			r.Shuffle(len(r2), func(i, j int) { r2[i], r2[j] = r2[j], r2[i] })
			nt := [][2]int{{3, 2}, {2, 2}, {4, 3}, {1, 1}}[r.Intn(4)]
			d.kp, d.thr = r2[:nt[0]], nt[1]
		}
		if d.span == 0 && c.span == 0 {
			d.span = span
		}
		at := d.sblk - 1 - r.Intn(4)
		if at <= s.at[len(s.at)-1] {
			at = s.at[len(s.at)-1]
		}
		mk(d, at)
		c = d
	}
	// eons: one for every config that changes the keypers, sometimes another one, sometimes failing
	n0 := 0
	add := func(c cfg, start int, failed bool, by int) {
		n0++
		s.eons = append(s.eons, &eon{eon: n0, start: start, thr: c.thr, pool: n0 % 2, kp: c.kp, failed: failed, by: by})
	}
	for i, c := range s.plan {
		if c.span == 0 {
			continue
		}
		if i > 0 && same(c.kp, s.plan[i-1].kp) && !s.chance(0.3) && s.plan[i-1].span != 0 {
			continue
		}
		if s.chance(0.1) {
			add(c, c.sbat, true, c.sbat)
			add(c, c.sbat, false, -1)
		} else {
			add(c, c.sbat, false, c.sbat)
		}
		// keypers of a config may ask for a new key of a batch that a later config takes over
		if i > 0 && s.plan[i-1].span != 0 && s.chance(0.2) {
			st := c.sbat + r.Intn(3)
			if i+1 == len(s.plan) || st < s.plan[i+1].sbat {
				add(s.plan[i-1], st, false, st)
				s.eons[len(s.eons)-1].old = true
			}
		}
	}
	for i := 0; i < steps && !s.dead; i++ {
		s.tick()
		for _, k := range s.kps {
			if s.chance(0.75) && !s.dead {
				s.step(k)
			}
		}
	}
}

// tick moves both chains on
func (s *sim) tick() {
	r := s.r
	for n := 1 + r.Intn(2); n > 0; n-- {
		s.block(s.head + 1)
	}
	for n := r.Intn(3); n > 0; n-- {
		s.kblock()
	}
}

func (s *sim) block(blk int) {
	s.head = blk
	evs := []M{}
	put := func(m M) {
		evs = append(evs, m)
		s.mblock(blk, []M{m})
	}
	for len(s.plan) > 0 && s.at[0] <= blk {
		put(M{"t": "cfg", "c": s.plan[0].m()})
		s.plan, s.at = s.plan[1:], s.at[1:]
	}
	c := s.cfgAt(blk)
	if c.span > 0 && blk >= c.sblk {
		b := c.batchAt(blk)
		{
			for s.chance(s.pTx * 0.5) {
				s.ntx++
				id := fmt.Sprintf("t%d", s.ntx)
				kind := ""
				if s.chance(0.25) {
					kind = s.pick([]string{"garbage", "empty", "truncated", "otherepoch", "othereon", "headeronly", "flipped", "badpoint", "same"})
				}
				good := s.ciphertext(b, id, kind)
				put(M{"t": "enc", "b": b, "id": id, "good": good})
			}
			for s.chance(s.pTx * 0.2) {
				s.ntx++
				id := fmt.Sprintf("p%d", s.ntx)
				s.raw[id] = []byte("plain " + id)
				put(M{"t": "plain", "b": b, "id": id})
			}
		}
	}
	// others execute
	if len(s.cfgs) > 1 && s.chance(0.25) {
		nx := s.nx()
		b := nx / 2
		bc := s.cfgFor(b)
		if bc.span > 0 && blk >= bc.end(b) {
			x := mtx{by: bc.kp[r0(s, len(bc.kp))], b: b, hs: nx, due: blk}
			if nx%2 == 0 {
				x.t, x.txs = "exec", ids(s.enc(b, blk), true)
				if s.chance(s.faulty) && len(ids(s.enc(b, blk), false)) > 0 {
					switch s.r.Intn(4) {
					case 0:
						x.txs = []string{}
					case 1:
						x.txs = append(append([]string{}, x.txs...), "extra")
					case 2:
						if len(x.txs) > 0 {
							x.txs = x.txs[:len(x.txs)-1]
						}
					case 3:
						x.txs = []string{fmt.Sprintf("other%d", s.r.Intn(3))}
					}
				}
				if blk >= bc.end(b)+bc.to || len(s.enc(b, blk)) == 0 && s.chance(0.3) {
					x.t = "skip"
				}
			} else {
				x.t = "plain"
			}
			if s.chance(0.6) || indexOf(orderOf(s), x.by) < 0 {
				s.mempool = append(s.mempool, x)
			}
		}
	}
	if s.jumpy && s.chance(0.01) && c.span > 0 {
		nx := s.nx() + 2*r0(s, 3) + 2
		if nx/2 < c.batchAt(blk) && blk >= s.cfgFor(nx/2).end(nx/2)+s.cfgFor(nx/2).to {
			put(M{"t": "jump", "n": nx})
		}
	}
	// Byzantine accusations
	if nx := s.nx(); nx > 0 && s.chance(0.04) {
		s.mempool = append(s.mempool, mtx{t: "acc", hs: r0(s, nx) / 2 * 2, due: blk})
	}
	rest := []mtx{}
	for _, x := range s.mempool {
		if x.due > blk {
			rest = append(rest, x)
			continue
		}
		if m := s.accept(x, blk); m != nil {
			put(m)
		}
	}
	s.mempool = rest
}

func r0(s *sim, n int) int { return s.r.Intn(n) }

func orderOf(s *sim) []string {
	l := []string{}
	for _, k := range s.kps {
		l = append(l, k.name)
	}
	return l
}

func (s *sim) rec(hs int) (M, bool) {
	nx := 0
	for _, e := range s.main {
		switch e.ev["t"] {
		case "skip", "pexec", "exec":
			if nx == hs {
				return e.ev, e.ev["t"] == "exec"
			}
			nx++
		case "jump":
			nx = e.ev["n"].(int)
		}
	}
	return nil, false
}

// accept applies the contracts' rules
func (s *sim) accept(x mtx, blk int) M {
	nx := s.nx()
	c := s.cfgFor(x.b)
	switch x.t {
	case "exec", "skip":
		empty := len(s.enc(x.b, blk)) == 0
		if nx != 2*x.b || c.span == 0 || blk < c.end(x.b) {
			return nil
		}
		late := blk >= c.end(x.b)+c.to
		if x.t == "skip" {
			if !late && !empty {
				return nil
			}
			return M{"t": "skip"}
		}
		if late || empty {
			if empty && !late {
				return M{"t": "skip"}
			}
			return nil
		}
		return M{"t": "exec", "txs": x.txs, "by": x.by}
	case "plain":
		if nx != 2*x.b+1 || c.span == 0 || blk < c.end(x.b) {
			return nil
		}
		return M{"t": "pexec"}
	case "acc":
		if _, ok := s.rec(x.hs); !ok || s.accd[x.hs] {
			return nil
		}
		s.accd[x.hs] = true
		return M{"t": "acc", "hs": x.hs}
	case "appeal":
		if !s.accd[x.hs] || s.sent[fmt.Sprint("appealed", x.hs)] {
			return nil
		}
		s.sent[fmt.Sprint("appealed", x.hs)] = true
		return M{"t": "appealed", "hs": x.hs}
	}
	panic("unknown transaction")
}

// kblock makes a keyper chain block
func (s *sim) kblock() {
	h := s.height() + 1
	evs := []M{}
	if s.bcs == 0 {
		s.bcs = 1
		// the first config may be on the keyper chain before it is known on the main chain
	}
	for s.bcs < len(s.cfgs) && s.chance(0.6) {
		c := s.cfgs[s.bcs]
		evs = append(evs, M{"t": "bc", "idx": c.idx, "sbat": c.sbat, "kp": c.kp})
		s.bcs++
	}
	cur := s.cfgAt(s.head).batchAt(s.head)
	for _, e := range s.eons {
		if e.h != 0 {
			continue
		}
		// the config must be there first
		last, prev := cfg{}, cfg{}
		for _, c := range s.cfgs[:s.bcs] {
			if c.sbat <= e.start {
				last, prev = c, last
			}
		}
		if e.old {
			last = prev
		}
		if !same(last.kp, e.kp) || last.thr != e.thr || last.idx == 0 {
			break
		}
		if !s.chance(0.7) && !(e.by >= 0 && cur >= e.by) {
			break
		}
		evs = append(evs, M{"t": "eon", "eon": e.eon, "start": e.start, "kp": e.kp, "thr": e.thr})
		e.h = h
		break
	}
	// the other keypers
	for _, e := range s.eons {
		if e.h == 0 || e.failed {
			continue
		}
		for _, kn := range e.kp {
			if indexOf(orderOf(s), kn) >= 0 || s.stopped[kn] {
				continue
			}
			for b := e.start; b < cur+2 && b < e.start+30; b++ {
				if s.eonFor(b) != e && !s.byz[kn] {
					continue
				}
				id := fmt.Sprintf("share %d %d %s", e.eon, b, kn)
				if b < cur && !s.sent[id] && !s.byz[kn] && s.chance(0.4) {
					s.sent[id] = true
					evs = append(evs, M{"t": "share", "eon": e.eon, "b": b, "snd": kn, "ok": true})
				}
				if s.byz[kn] && s.chance(0.12) {
					m := M{"t": "share", "eon": e.eon, "b": b, "snd": kn, "ok": s.chance(0.4)}
					if !m["ok"].(bool) {
						m["kind"] = s.pick([]string{"random", "otherepoch", "othersender", "othereon", "infinity"})
						if len(e.kp) == 1 && m["kind"] == "othersender" || e.thr == 1 && m["kind"] == "othersender" {
							m["kind"] = "random"
						}
					}
					evs = append(evs, m)
				}
			}
		}
	}
	if s.chance(0.03) {
		evs = append(evs, M{"t": "share", "eon": []int{7, 1, 1}[s.r.Intn(3)], "b": s.r.Intn(cur + 2), "snd": appx.AddrName(appx.Addrs[8]), "ok": false})
	}
	for b := maxi(0, cur-5); b < cur; b++ {
		c := s.cfgFor(b)
		all := s.enc(b, s.head)
		if len(all) == 0 || c.span == 0 || s.eonFor(b) == nil || s.head < c.end(b) {
			continue
		}
		for _, kn := range append(append([]string{}, c.kp...), appx.AddrName(appx.Addrs[8])) {
			if indexOf(orderOf(s), kn) >= 0 || s.stopped[kn] {
				continue
			}
			id := fmt.Sprintf("sig %d %s", b, kn)
			m := M{"t": "sig", "b": b, "snd": kn, "enc": ids(all, false), "good": ids(all, true), "ok": true}
			if !s.byz[kn] && !s.sent[id] && s.chance(0.4) {
				s.sent[id] = true
				evs = append(evs, m)
			} else if s.byz[kn] && s.chance(0.2) {
				switch s.r.Intn(4) {
				case 0:
				case 1:
					part := all[:s.r.Intn(len(all))]
					m["enc"], m["good"] = ids(part, false), ids(part, true)
				default:
					m["ok"] = false
					m["kind"] = s.pick([]string{"othersigner", "short", "empty", "long", "contract", "noise"})
				}
				evs = append(evs, m)
			}
		}
	}
	rest := []sev{}
	for _, x := range s.inbox {
		if x.due <= h {
			evs = append(evs, x.ev)
		} else {
			rest = append(rest, x)
		}
	}
	s.inbox = rest
	s.r.Shuffle(len(evs), func(i, j int) {
		if evs[i]["t"] != "bc" && evs[i]["t"] != "eon" && evs[j]["t"] != "bc" && evs[j]["t"] != "eon" {
			evs[i], evs[j] = evs[j], evs[i]
		}
	})
	s.sblock(evs)
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// step lets a keyper decide
func (s *sim) step(k *kpr) {
	r := s.r
	if s.chance(0.07) {
		s.restart(k)
		if s.dead {
			return
		}
	}
	h := s.head - r.Intn(s.lag+1)
	if s.stuck[k.name] <= s.head && s.chance(0.05) {
		s.stuck[k.name] = s.head + 8 + r.Intn(25)
	}
	if h < k.h || s.stuck[k.name] > s.head {
		h = k.h
	}
	if h < 1 {
		h = 1
	}
	top := s.height()
	if top < 1 {
		return
	}
	m := top - int64(r.Intn(s.lag+1))
	// an eon is known before its first batch is closed, unless it replaces one without keys
	cur := s.cfgAt(h).batchAt(h)
	for _, e := range s.eons {
		if e.by >= 0 && e.by <= cur {
			if e.h == 0 {
				return
			}
			if m < e.h {
				m = e.h
			}
		}
	}
	if m < k.m {
		m = k.m
	}
	if m < 1 {
		m = 1
	}
	for _, e := range s.eons {
		id := fmt.Sprintf("%s/%d", k.name, e.eon)
		if k.full && e.h != 0 && e.h <= m && !e.failed && indexOf(e.kp, k.name) >= 0 && !s.keyed[id] && s.chance(0.5) {
			s.keyed[id] = true
			s.gain(k, e)
		}
	}
	out := s.decide(k, h, m, !s.chance(0.04), !s.chance(0.04), s.chance(0.8))
	if s.dead || out["crash"] != nil {
		return
	}
	delay := func() int64 { return s.height() + 1 + int64(r.Intn(3)) }
	for _, x := range out["share"].([]M) {
		if x["ok"].(bool) {
			s.inbox = append(s.inbox, sev{M{"t": "share", "eon": num(x["eon"]), "b": num(x["b"]), "snd": k.name, "ok": true}, delay()})
		}
	}
	for _, x := range out["sig"].([]M) {
		if x["ok"].(bool) {
			s.inbox = append(s.inbox, sev{M{"t": "sig", "b": num(x["b"]), "snd": k.name, "enc": x["enc"], "good": x["good"], "ok": true}, delay()})
		}
	}
	due := s.head + 1 + r.Intn(4)
	for _, x := range out["exec"].([]M) {
		if x["ok"].(bool) {
			m := mtx{t: x["t"].(string), by: k.name, b: num(x["b"]), due: due}
			if m.t == "exec" {
				m.txs = x["txs"].([]string)
			}
			s.mempool = append(s.mempool, m)
		}
	}
	for _, x := range out["appeal"].([]M) {
		s.mempool = append(s.mempool, mtx{t: "appeal", hs: num(x["hs"]), due: due})
	}
	for _, x := range out["acc"].([]M) {
		s.mempool = append(s.mempool, mtx{t: "acc", hs: num(x["hs"]), due: due})
	}
}

func num(x interface{}) int {
	switch v := x.(type) {
	case int:
		return v
	case uint64:
		return int(v)
	case float64:
		return int(v)
	}
	panic("not a number")
}

// ---- behaviours of the specification -------------------------------------------------------

func strs(x interface{}) []string {
	l := []string{}
	if x != nil {
		for _, y := range x.([]interface{}) {
			l = append(l, y.(string))
		}
	}
	return l
}

// ints turns a decoded event into the driver's form
func ints(m M) M {
	r := M{}
	for k, v := range m {
		switch x := v.(type) {
		case float64:
			r[k] = int(x)
		case []interface{}:
			r[k] = strs(x)
		case map[string]interface{}:
			r[k] = ints(x)
		default:
			r[k] = v
		}
	}
	return r
}

func (w *world) script(ops []M) {
	g := ops[0]
	stag := map[string]int{}
	order := []string{}
	for n, v := range g["kps"].(map[string]interface{}) {
		stag[n] = num(v)
		order = append(order, n)
	}
	sort.Strings(order)
	w.reset(stag, order)
	for _, x := range g["eons"].([]interface{}) {
		e := ints(x.(map[string]interface{}))
		w.eons = append(w.eons, &eon{eon: e["eon"].(int), start: e["start"].(int), thr: e["thr"].(int), kp: e["kp"].([]string), by: -1})
	}
	for _, o := range ops[1:] {
		if w.dead {
			return
		}
		switch o["op"] {
		case "main":
			evs := []M{}
			for _, x := range o["evs"].([]interface{}) {
				e := ints(x.(map[string]interface{}))
				switch e["t"] {
				case "enc":
					kind := ""
					if !e["good"].(bool) {
						kind = "garbage"
					}
					w.ciphertext(e["b"].(int), e["id"].(string), kind)
				case "plain":
					w.raw[e["id"].(string)] = []byte("plain " + e["id"].(string))
				case "exec":
					e["by"] = appx.AddrName(appx.Addrs[7])
				}
				evs = append(evs, e)
			}
			w.mblock(num(o["blk"]), evs)
		case "side":
			evs := []M{}
			for _, x := range o["evs"].([]interface{}) {
				evs = append(evs, ints(x.(map[string]interface{})))
			}
			w.sblock(evs)
		case "gain":
			w.gain(w.find(o["k"].(string)), w.eon(num(o["eon"])))
		case "restart":
			w.restart(w.find(o["k"].(string)))
		case "decide":
			h, m := num(o["h"]), int64(num(o["m"]))
			w.decide(w.find(o["k"].(string)), h, m, true, true, true)
		}
	}
}

func main() {
	out := flag.String("out", "trace.ndjson", "")
	seed := flag.Int64("seed", 1, "")
	segments := flag.Int("segments", 0, "")
	ops := flag.Int("ops", 40, "")
	scripts := flag.String("scripts", "", "")
	flag.Parse()
	tw := appx.NewTraceWriter(*out)
	defer tw.Close()
	dir, err := os.MkdirTemp("", "execdrv")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := &world{tw: tw, r: mrand.New(mrand.NewSource(*seed)), dir: dir}
	if *scripts != "" {
		f, err := os.Open(*scripts)
		if err != nil {
			panic(err)
		}
		dec := json.NewDecoder(f)
		for {
			var l []M
			if err := dec.Decode(&l); err != nil {
				break
			}
			w.script(l)
		}
	}
	s := &sim{world: w}
	for i := 0; i < *segments; i++ {
		s.random(*ops)
	}
}
