package appx

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
)

// Weights of message kinds for the random driver.
type Weights map[string]int

// ParseWeights reads "bc=10,esv=3".
func ParseWeights(t string) Weights {
	w := Weights{}
	for _, kv := range strings.Split(t, ",") {
		var n int
		p := strings.Split(kv, "=")
		fmt.Sscanf(p[1], "%d", &n)
		w[p[0]] = n
	}
	return w
}

type cfgInfo struct {
	kp    []string
	thr   int64
	idx   int64
	start int64
}

// Gen produces transactions that are mostly meaningful given what the chain announced.
type Gen struct {
	R     *rand.Rand
	W     Weights
	G     Genesis
	Wild  int // percent of damaged transactions
	cfgs  []cfgInfo
	eons  []cfgInfo
	props []M
	nonce int64
	sent  [][]byte
	order []string
}

func NewGen(r *rand.Rand, w Weights, g Genesis, wild int) *Gen {
	x := &Gen{R: r, W: w, G: g, Wild: wild, cfgs: []cfgInfo{{kp: g.KP, thr: g.Thr}}}
	for _, k := range []string{"bc", "bcs", "ci", "esv", "ds", "pe", "pc", "ac", "ap", "sh", "none"} {
		for i := 0; i < w[k]; i++ {
			x.order = append(x.order, k)
		}
	}
	return x
}

func RandGenesis(r *rand.Rand) Genesis {
	n := 1 + r.Intn(4)
	kp := Subset(r, 6, n)
	g := Genesis{KP: kp, Thr: int64(1 + r.Intn(n)), Dev: r.Intn(12) == 0, Chain: fmt.Sprintf("chain-%d", r.Intn(3))}
	for i := 0; i < 1+r.Intn(2); i++ {
		g.Vals = append(g.Vals, M{"pk": fmt.Sprintf("v%d", i*3), "pw": int64(5 + 5*r.Intn(3))})
	}
	return g
}

// Subset picks n distinct key names out of the first max, in random order.
func Subset(r *rand.Rand, max, n int) []string {
	p := r.Perm(max)
	res := []string{}
	for i := 0; i < n; i++ {
		res = append(res, fmt.Sprintf("k%d", p[i]+1))
	}
	return res
}

// Observe tells the generator about announced events.
func (g *Gen) Observe(evs []M) {
	for _, e := range evs {
		switch e["t"] {
		case "bc":
			g.cfgs = append(g.cfgs, cfgInfo{kp: e["kp"].([]string), thr: e["thr"].(int64), idx: e["idx"].(int64), start: e["start"].(int64)})
			g.props = nil
		case "eon":
			c := g.cfgs[0]
			for _, d := range g.cfgs {
				if d.start <= e["start"].(int64) {
					c = d
				}
			}
			g.eons = append(g.eons, c)
		}
	}
}

func (g *Gen) last() cfgInfo { return g.cfgs[len(g.cfgs)-1] }

func (g *Gen) pickFrom(kp []string) string {
	if len(kp) == 0 || g.R.Intn(8) == 0 {
		return fmt.Sprintf("k%d", 1+g.R.Intn(7))
	}
	return kp[g.R.Intn(len(kp))]
}

func (g *Gen) num(n int64) int64 {
	if g.R.Intn(12) == 0 {
		return EdgeNums[g.R.Intn(len(EdgeNums))]
	}
	return n
}

func (g *Gen) wf() string {
	if g.R.Intn(25) == 0 {
		return "bad"
	}
	return "ok"
}

func (g *Gen) batch() int64 {
	// around the start of some config
	c := g.cfgs[g.R.Intn(len(g.cfgs))]
	b := c.start + int64(g.R.Intn(4)) - 1
	if b < 0 {
		b = 0
	}
	return g.num(b)
}

func (g *Gen) others(kp []string, snd string) []string {
	n := g.R.Intn(3)
	res := []string{}
	for i := 0; i < n; i++ {
		o := g.pickFrom(kp)
		dup := o == snd
		for _, x := range res {
			dup = dup || x == o
		}
		if dup && g.R.Intn(10) > 0 {
			continue
		}
		res = append(res, o)
	}
	return res
}

// Msg picks a message and its sender.
func (g *Gen) Msg() (snd string, m M) {
	r := g.R
	kind := g.order[r.Intn(len(g.order))]
	last := g.last()
	eon, ek := int64(1), last.kp
	if len(g.eons) > 0 {
		i := r.Intn(len(g.eons))
		if r.Intn(3) > 0 {
			i = len(g.eons) - 1
		}
		eon, ek = int64(i+1), g.eons[i].kp
	}
	if r.Intn(15) == 0 {
		eon = g.num(int64(r.Intn(len(g.eons) + 3)))
	}
	switch kind {
	case "bc":
		snd = g.pickFrom(last.kp)
		if len(g.props) > 0 && r.Intn(6) > 0 {
			m = M{}
			for k, v := range g.props[r.Intn(len(g.props))] {
				m[k] = v
			}
		} else {
			n := 1 + r.Intn(4)
			kp := Subset(r, 6, n)
			if r.Intn(4) == 0 {
				kp = last.kp
				n = len(kp)
			}
			if r.Intn(15) == 0 {
				kp = append(append([]string{}, kp...), kp[r.Intn(n)])
			}
			if r.Intn(25) == 0 {
				kp = []string{}
			}
			thr := int64(1 + r.Intn(n))
			if r.Intn(4) == 0 {
				thr = last.thr
			}
			if r.Intn(8) == 0 {
				thr = []int64{0, int64(n) + 1, 1100000000, 1200000001, 1500000000, 1500000001, 2000000000}[r.Intn(7)]
			}
			idx := last.idx + 1
			if r.Intn(6) == 0 {
				idx = last.idx + int64(r.Intn(4)) - 1
			}
			if idx < 0 {
				idx = 0
			}
			start := last.start + int64(r.Intn(6))
			if r.Intn(8) == 0 && start > 2 {
				start -= 3
			}
			m = M{"t": "bc", "wf": "ok", "start": g.num2(start), "kp": kp, "thr": thr, "addr": []string{"zero", "k9"}[r.Intn(2)], "idx": g.num2(idx), "st": r.Intn(12) == 0, "vu": r.Intn(15) == 0}
			if len(g.props) > 2 {
				g.props = g.props[1:]
			}
			g.props = append(g.props, m)
			m2 := M{}
			for k, v := range m {
				m2[k] = v
			}
			m = m2
			m["wf"] = g.wf()
		}
	case "bcs":
		kp := last.kp
		if len(g.cfgs) > 1 {
			kp = g.cfgs[len(g.cfgs)-2].kp
		}
		snd = g.pickFrom(kp)
		idx := last.idx
		if r.Intn(8) == 0 {
			idx = g.cfgs[r.Intn(len(g.cfgs))].idx
		}
		m = M{"t": "bcs", "idx": g.num3(idx)}
	case "ci":
		snd = g.pickFrom(g.cfgs[r.Intn(len(g.cfgs))].kp)
		m = M{"t": "ci", "wf": g.wf(), "vk": VKeys.Pick(r), "ek": EKeys.Pick(r)}
		if r.Intn(30) == 0 {
			m["vk"] = "none"
		}
	case "esv":
		b := g.batch()
		c := g.cfgs[0]
		for _, d := range g.cfgs {
			if d.start <= b {
				c = d
			}
		}
		snd = g.pickFrom(c.kp)
		m = M{"t": "esv", "start": b}
	case "ds":
		b := g.batch()
		c := g.cfgs[0]
		for _, d := range g.cfgs {
			if d.start <= b {
				c = d
			}
		}
		snd = g.pickFrom(c.kp)
		m = M{"t": "ds", "b": b, "sig": Sigs.Pick(r)}
	case "pe":
		snd = g.pickFrom(ek)
		rc := g.others(ek, snd)
		ev := []string{}
		for range rc {
			ev = append(ev, Evals.Pick(r))
		}
		if r.Intn(20) == 0 {
			ev = append(ev, Evals.Pick(r))
		}
		m = M{"t": "pe", "wf": g.wf(), "eon": eon, "rc": rc, "ev": ev}
	case "pc":
		snd = g.pickFrom(ek)
		gs := []string{}
		for i := 0; i < r.Intn(4); i++ {
			gs = append(gs, Gammas.Pick(r))
		}
		m = M{"t": "pc", "wf": g.wf(), "eon": eon, "g": gs}
	case "ac":
		snd = g.pickFrom(ek)
		m = M{"t": "ac", "wf": g.wf(), "eon": eon, "acc": g.others(ek, snd)}
	case "ap":
		snd = g.pickFrom(ek)
		acc := g.others(ek, snd)
		ev := []string{}
		for range acc {
			ev = append(ev, Ints.Pick(r))
		}
		if r.Intn(20) == 0 {
			ev = append(ev, Ints.Pick(r))
		}
		m = M{"t": "ap", "wf": g.wf(), "eon": eon, "acc": acc, "ev": ev}
	case "sh":
		snd = g.pickFrom(ek)
		m = M{"t": "sh", "wf": g.wf(), "eon": eon, "epoch": g.batch(), "share": Shares.Pick(r)}
	default:
		snd = g.pickFrom(last.kp)
		m = M{"t": "none"}
	}
	return
}

func (g *Gen) num2(n int64) int64 {
	if g.R.Intn(60) == 0 {
		return EdgeNums[g.R.Intn(len(EdgeNums))]
	}
	return n
}

func (g *Gen) num3(n int64) int64 {
	if g.R.Intn(40) == 0 {
		return EdgeNums[g.R.Intn(len(EdgeNums))]
	}
	return n
}

// Tx produces transaction bytes.
func (g *Gen) Tx() []byte {
	r := g.R
	if len(g.sent) > 0 && r.Intn(100) < g.Wild/2 {
		old := g.sent[r.Intn(len(g.sent))]
		switch r.Intn(3) {
		case 0:
			return old
		case 1:
			return Malleate(old)
		default:
			return Damage(r, old)
		}
	}
	snd, m := g.Msg()
	g.nonce++
	nonce := g.nonce
	if r.Intn(100) < g.Wild/3 {
		nonce = int64(r.Intn(int(g.nonce) + 1))
	}
	if r.Intn(100) < g.Wild/8 {
		nonce = EdgeNums[r.Intn(len(EdgeNums))]
	}
	chain := g.G.Chain
	if r.Intn(100) < g.Wild/3 {
		chain = []string{"", "chain-9", g.G.Chain + "x", g.G.Chain[:3]}[r.Intn(4)]
	}
	tx := MakeTx(Build(m), chain, Conc(nonce), Keys[KeyIndex(snd)])
	if r.Intn(100) < g.Wild/6 {
		tx = Damage(r, tx)
	}
	g.sent = append(g.sent, tx)
	if len(g.sent) > 40 {
		g.sent = g.sent[1:]
	}
	return tx
}

// Malleate replaces (r,s,v) by the equivalent (r,n-s,v^1).
func Malleate(tx []byte) []byte {
	b, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil || len(b) < 65 {
		return tx
	}
	s := new(big.Int).SetBytes(b[32:64])
	s.Sub(crypto.S256().Params().N, s)
	sb := s.Bytes()
	if len(sb) > 32 {
		return tx
	}
	copy(b[32:64], make([]byte, 32))
	copy(b[64-len(sb):64], sb)
	b[64] ^= 1
	return Encode(b)
}

// Damage corrupts transaction bytes in a random way.
func Damage(r *rand.Rand, tx []byte) []byte {
	res := append([]byte{}, tx...)
	switch r.Intn(8) {
	case 0:
		if len(res) > 0 {
			res = res[:r.Intn(len(res))]
		}
	case 1:
		res = append(res, byte('A'+r.Intn(20)))
	case 2, 3:
		b, err := base64.RawURLEncoding.DecodeString(string(tx))
		if err == nil && len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			res = Encode(b)
		}
	case 4:
		b, err := base64.RawURLEncoding.DecodeString(string(tx))
		if err == nil && len(b) > 0 {
			res = Encode(b[:r.Intn(len(b))])
		}
	case 5:
		res = make([]byte, r.Intn(200))
		r.Read(res)
	case 6:
		b := make([]byte, 65+r.Intn(100))
		r.Read(b)
		b[64] = byte(r.Intn(4))
		res = Encode(b)
	case 7:
		res = []byte{}
	}
	return res
}
