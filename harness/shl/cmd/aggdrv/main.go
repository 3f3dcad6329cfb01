// aggdrv signs, aggregates and verifies with the tree's shbls and records what came out.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"math/big"
	mrand "math/rand"
	"os"
	"strings"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	bls "github.com/shutter-network/shutter/shlib/shcrypto/shbls"
	. "verif/shl/lib"
)

type world struct {
	r    *mrand.Rand
	t    *TraceWriter
	base int
	keys []*bls.SecretKey
	pks  []*bls.PublicKey
	sigs []*bls.Signature
	from []int // the pk (if any) a signature should verify with, to pick interesting pairs
	msgs [][]byte
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *world) reset() {
	w.base, w.keys, w.pks, w.sigs, w.msgs = 0, nil, nil, nil, nil
	w.t.Put(M{"op": "reset"})
	for i := 0; i < 4; i++ {
		b := make([]byte, []int{0, 1, 32, 33, 200}[w.r.Intn(5)])
		w.r.Read(b)
		w.msgs = append(w.msgs, append(b, bytes.Repeat([]byte{0}, i)...))
	}
	w.msgs[0] = []byte{}
	w.msgs[1] = append(w.msgs[1], 1)
	w.msgs[2] = append(append([]byte{}, w.msgs[1]...), 0) // one more byte than another
	w.msgs[3] = append(w.msgs[3], 7, 7)
}

func (w *world) guard(what string, f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			w.t.Put(M{"op": "trouble", "what": "panic in " + what})
			ok = false
		}
	}()
	f()
	return true
}

// newKey adds a fresh key, or a combination of others
func (w *world) newKey(of [][2]int) {
	v := new(big.Int)
	base := 0
	if of == nil {
		w.base++
		base = w.base
		switch {
		case w.r.Intn(6) == 0 && base == 1:
			v.SetInt64(1)
		case w.r.Intn(3) == 0:
			sk, pk, err := bls.RandomKeyPair(w.r)
			must(err)
			v = (*big.Int)(sk)
			if !pk.Equal(bls.SecretToPublicKey(sk)) {
				w.t.Put(M{"op": "trouble", "what": "key pair does not match"})
			}
		default:
			v.Rand(w.r, bn256.Order)
		}
	} else {
		for _, x := range of {
			v.Add(v, new(big.Int).Mul(big.NewInt(int64(x[1])), (*big.Int)(w.keys[x[0]-1])))
		}
		v.Mod(v, bn256.Order)
	}
	k := (*bls.SecretKey)(v)
	d := new(bls.SecretKey)
	b := k.Marshal()
	again := d.Unmarshal(b) == nil && d.Equal(k) && bytes.Equal(d.Marshal(), b)
	if again && w.r.Intn(2) == 0 {
		k = d
	}
	if of == nil {
		of = [][2]int{}
	}
	w.keys = append(w.keys, k)
	w.t.Put(M{"op": "key", "base": base, "of": of, "val": Digest(b), "again": again})
}

func (w *world) addPk(key int, of []int) {
	var p *bls.PublicKey
	clean := true
	if key > 0 {
		before := w.keys[key-1].Marshal()
		p = bls.SecretToPublicKey(w.keys[key-1])
		clean = bytes.Equal(before, w.keys[key-1].Marshal())
		of = []int{}
	} else {
		var l []*bls.PublicKey
		var before [][]byte
		for _, i := range of {
			l = append(l, w.pks[i-1])
			before = append(before, w.pks[i-1].Marshal())
		}
		p = bls.AggregatePublicKeys(l)
		for j, i := range of {
			clean = clean && bytes.Equal(before[j], w.pks[i-1].Marshal())
		}
	}
	b := p.Marshal()
	d := new(bls.PublicKey)
	again := d.Unmarshal(b) == nil && d.Equal(p) && p.Equal(d) && bytes.Equal(d.Marshal(), b)
	if again && w.r.Intn(2) == 0 {
		p = d
	}
	w.pks = append(w.pks, p)
	w.t.Put(M{"op": "pk", "key": key, "of": of, "val": Digest(b), "again": again, "clean": clean})
}

func (w *world) addSig(key, m int, of []int) {
	var s *bls.Signature
	clean := true
	if key > 0 {
		before, msg := w.keys[key-1].Marshal(), append([]byte{}, w.msgs[m]...)
		s = bls.Sign(w.msgs[m], w.keys[key-1])
		clean = bytes.Equal(before, w.keys[key-1].Marshal()) && bytes.Equal(msg, w.msgs[m])
		of = []int{}
	} else {
		var l []*bls.Signature
		var before [][]byte
		for _, i := range of {
			l = append(l, w.sigs[i-1])
			before = append(before, w.sigs[i-1].Marshal())
		}
		s = bls.AggregateSignatures(l)
		for j, i := range of {
			clean = clean && bytes.Equal(before[j], w.sigs[i-1].Marshal())
		}
	}
	b := s.Marshal()
	d := new(bls.Signature)
	again := d.Unmarshal(b) == nil && d.Equal(s) && s.Equal(d) && bytes.Equal(d.Marshal(), b)
	if again && w.r.Intn(2) == 0 {
		s = d
	}
	w.sigs = append(w.sigs, s)
	w.t.Put(M{"op": "sig", "key": key, "m": m, "of": of, "val": Digest(b), "again": again, "clean": clean})
}

func (w *world) verify(s, p, m int) {
	sb, pb := w.sigs[s-1].Marshal(), w.pks[p-1].Marshal()
	ok := bls.Verify(w.sigs[s-1], w.pks[p-1], w.msgs[m])
	w.t.Put(M{"op": "verify", "sig": s, "pk": p, "m": m, "ok": ok, "clean": bytes.Equal(sb, w.sigs[s-1].Marshal()) && bytes.Equal(pb, w.pks[p-1].Marshal())})
}

func (w *world) list(n, max int) []int {
	l := []int{}
	for i := 0; n > 0 && i < w.r.Intn(max+1); i++ {
		l = append(l, 1+w.r.Intn(n))
	}
	return l
}

func (w *world) random(ops int) {
	w.reset()
	r := w.r
	w.newKey(nil)
	for n := 0; n < ops; n++ {
		if !w.guard("shbls", func() {
			switch x := r.Intn(16); {
			case x == 0 && len(w.keys) < 6:
				w.newKey(nil)
			case x == 1 && len(w.keys) < 8: // a combination: -a, 0, a+b, ...
				of := [][2]int{}
				for i := 0; i < r.Intn(3); i++ {
					of = append(of, [2]int{1 + r.Intn(len(w.keys)), r.Intn(5) - 2})
				}
				w.newKey(of)
			case x < 4:
				w.addPk(1+r.Intn(len(w.keys)), nil)
			case x == 4:
				w.addPk(0, w.list(len(w.pks), 5))
			case x < 7:
				w.addSig(1+r.Intn(len(w.keys)), r.Intn(len(w.msgs)), nil)
			case x == 7:
				w.addSig(0, 0, w.list(len(w.sigs), 5))
			case x < 11: // an aggregate that should verify, or almost so
				m := r.Intn(len(w.msgs))
				var ps, ss []int
				for i := 0; i < r.Intn(5); i++ {
					k := 1 + r.Intn(len(w.keys))
					w.addPk(k, nil)
					w.addSig(k, m, nil)
					ps, ss = append(ps, len(w.pks)), append(ss, len(w.sigs))
				}
				r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
				if len(ss) > 0 && r.Intn(3) == 0 {
					switch r.Intn(4) {
					case 0:
						ss = ss[1:]
					case 1:
						ps = ps[1:]
					case 2:
						ss = append(ss, ss[0])
					case 3:
						w.addSig(1+r.Intn(len(w.keys)), r.Intn(len(w.msgs)), nil)
						ss[0] = len(w.sigs)
					}
				}
				if len(ss) > 2 && r.Intn(2) == 0 { // grouped
					w.addSig(0, 0, append([]int{}, ss[:2]...))
					ss = append(ss[2:], len(w.sigs))
				}
				w.addPk(0, append([]int{}, ps...))
				w.addSig(0, 0, append([]int{}, ss...))
				if r.Intn(6) == 0 {
					m = r.Intn(len(w.msgs))
				}
				w.verify(len(w.sigs), len(w.pks), m)
			case x < 15 && len(w.sigs) > 0 && len(w.pks) > 0:
				w.verify(1+r.Intn(len(w.sigs)), 1+r.Intn(len(w.pks)), r.Intn(len(w.msgs)))
			default:
				switch y := r.Intn(3); {
				case y == 0:
					a, b := 1+r.Intn(len(w.keys)), 1+r.Intn(len(w.keys))
					w.t.Put(M{"op": "equal", "what": "key", "a": a, "b": b, "ok": w.keys[a-1].Equal(w.keys[b-1])})
				case y == 1 && len(w.pks) > 0:
					a, b := 1+r.Intn(len(w.pks)), 1+r.Intn(len(w.pks))
					w.t.Put(M{"op": "equal", "what": "pk", "a": a, "b": b, "ok": w.pks[a-1].Equal(w.pks[b-1])})
				case len(w.sigs) > 0:
					a, b := 1+r.Intn(len(w.sigs)), 1+r.Intn(len(w.sigs))
					w.t.Put(M{"op": "equal", "what": "sig", "a": a, "b": b, "ok": w.sigs[a-1].Equal(w.sigs[b-1])})
				}
			}
		}) {
			return
		}
	}
}

// script replays a behaviour of MCAggregate
func (w *world) script(l []M) {
	w.reset()
	num := func(x interface{}) int { return int(x.(float64)) }
	nums := func(x interface{}) []int {
		r := []int{}
		for _, y := range x.([]interface{}) {
			r = append(r, num(y))
		}
		return r
	}
	w.guard("script", func() {
		w.newKey(nil)
		w.newKey(nil)
		w.newKey([][2]int{{1, 1}, {2, 1}})
		for k := 1; k <= 3; k++ {
			w.addPk(k, nil)
		}
		for _, o := range l {
			switch o["k"] {
			case "sign":
				w.addSig(num(o["key"]), num(o["m"]), nil)
			case "agg":
				w.addSig(0, 0, nums(o["of"]))
			case "verify":
				w.addPk(0, nums(o["pks"]))
				w.verify(len(w.sigs), len(w.pks), num(o["m"]))
			}
		}
	})
}

func main() {
	out := flag.String("out", "", "trace file")
	scripts := flag.String("scripts", "", "scripts")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random segments")
	ops := flag.Int("ops", 30, "steps per random segment")
	flag.Parse()
	w := &world{r: mrand.New(mrand.NewSource(*seed)), t: NewTraceWriter(*out)}
	if *scripts != "" {
		b, err := os.ReadFile(*scripts)
		must(err)
		for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var l []M
			must(json.Unmarshal([]byte(line), &l))
			w.script(l)
		}
	}
	for i := 0; i < *segments; i++ {
		w.random(*ops)
	}
	w.t.Close()
}
