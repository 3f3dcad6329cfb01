// wiredrv gives right and wrong encodings to the tree's decoders and records what they make of them.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"math/big"
	mrand "math/rand"
	"os"
	"strings"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	blst "github.com/supranational/blst/bindings/go"

	sc "github.com/shutter-network/shutter/shlib/shcrypto"
	bls "github.com/shutter-network/shutter/shlib/shcrypto/shbls"
	. "verif/shl/lib"
)

type codec struct {
	dec  func([]byte) error
	enc  func() ([]byte, error)
	hole func() bool // the value holds nil where a point should be: writing it out would end the process
}

func bin(f func() []byte) func() ([]byte, error) {
	return func() ([]byte, error) { return f(), nil }
}

// fresh makes an empty value and its codecs
func fresh(d string) map[string]codec {
	switch d {
	case "message":
		m := new(sc.EncryptedMessage)
		hole := func() bool { return m.C1 == nil }
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), hole}, "text": {m.UnmarshalText, func() ([]byte, error) { return m.MarshalText() }, hole}}
	case "eon secret key share":
		m := new(sc.EonSecretKeyShare)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}, "gob": {m.GobDecode, m.GobEncode, nil}}
	case "eon public key share":
		m := new(sc.EonPublicKeyShare)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}, "gob": {m.GobDecode, m.GobEncode, nil}}
	case "eon public key":
		m := new(sc.EonPublicKey)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}, "gob": {m.GobDecode, m.GobEncode, nil}, "text": {m.UnmarshalText, func() ([]byte, error) { return m.MarshalText() }, nil}}
	case "epoch id":
		m := new(sc.EpochID)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}, "gob": {m.GobDecode, m.GobEncode, nil}}
	case "epoch secret key share":
		m := new(sc.EpochSecretKeyShare)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}, "gob": {m.GobDecode, m.GobEncode, nil}}
	case "epoch secret key":
		m := new(sc.EpochSecretKey)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}, "gob": {m.GobDecode, m.GobEncode, nil}, "text": {m.UnmarshalText, func() ([]byte, error) { return m.MarshalText() }, nil}}
	case "block":
		m := new(sc.Block)
		return map[string]codec{"text": {m.UnmarshalText, func() ([]byte, error) { return m.MarshalText() }, nil}}
	case "gammas":
		m := new(sc.Gammas)
		hole := func() bool {
			for _, p := range *m {
				if p == nil {
					return true
				}
			}
			return false
		}
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), hole}, "gob": {m.GobDecode, m.GobEncode, hole}, "text": {m.UnmarshalText, m.MarshalText, hole}}
	case "bls secret key":
		m := new(bls.SecretKey)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}}
	case "bls public key":
		m := new(bls.PublicKey)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}}
	case "bls signature":
		m := new(bls.Signature)
		return map[string]codec{"bin": {m.Unmarshal, bin(m.Marshal), nil}}
	}
	panic(d)
}

type kind struct{ d, form string }

var kinds []kind

func init() {
	for _, d := range []string{
		"message", "eon secret key share", "eon public key share", "eon public key", "epoch id", "epoch secret key share", "epoch secret key", "block", "gammas",
		"bls secret key", "bls public key", "bls signature",
	} {
		for _, f := range []string{"bin", "gob", "text"} {
			if _, ok := fresh(d)[f]; ok {
				kinds = append(kinds, kind{d, f})
			}
		}
	}
}

func group(d string) (*curve, int) {
	switch d {
	case "eon public key", "eon public key share", "gammas", "message":
		return blsG2, 96
	case "epoch id", "epoch secret key share", "epoch secret key":
		return blsG1, 48
	case "bls public key":
		return bnG1, 64
	case "bls signature":
		return bnG2, 128
	}
	return nil, 0
}

var known = map[string]bool{}

func pointOK(c *curve, b []byte) bool {
	k := string(b)
	if v, ok := known[k]; ok {
		return v
	}
	var v bool
	if c == blsG1 || c == blsG2 {
		v = c.compressedOK(b)
	} else {
		v = c.plainOK(b)
	}
	if len(known) < 200000 {
		known[k] = v
	}
	return v
}

// points says which point-sized pieces are right
func points(d string, b []byte) []bool {
	c, n := group(d)
	res := []bool{}
	if c == nil {
		return res
	}
	off := 0
	if d == "message" {
		off = 1
	}
	for i := off; i+n <= len(b); i += n {
		res = append(res, pointOK(c, b[i:i+n]))
		if d != "gammas" {
			break
		}
	}
	return res
}

type gen struct{ r *mrand.Rand }

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	return b
}

func blsScalar(i *big.Int) *blst.Scalar {
	b := make([]byte, 32)
	i.FillBytes(b)
	s := new(blst.Scalar)
	s.FromBEndian(b)
	return s
}

// right is the encoding of a random group element
func (g *gen) right(c *curve) []byte {
	k := new(big.Int).Rand(g.r, c.r)
	switch c {
	case blsG1:
		return blst.P1Generator().Mult(blsScalar(k)).ToAffine().Compress()
	case blsG2:
		return blst.P2Generator().Mult(blsScalar(k)).ToAffine().Compress()
	case bnG1:
		return new(bn256.G1).ScalarBaseMult(k).Marshal()
	}
	return new(bn256.G2).ScalarBaseMult(k).Marshal()
}

func put(n *big.Int, size int) []byte {
	b := make([]byte, size)
	n.FillBytes(b)
	return b
}

// other is the encoding of some x that is on the curve but outside the group, or not on the curve
func (g *gen) other(c *curve, on bool) []byte {
	for {
		x := fe{new(big.Int).Rand(g.r, c.p), new(big.Int)}
		if c.ext {
			x.b.Rand(g.r, c.p)
		}
		y, ok := c.root(c.rhs(x))
		if on && (!ok || c.inGroup(point{x: x, y: y})) {
			if c == bnG1 {
				on = false // all points are in the group
			}
			continue
		}
		switch c {
		case blsG1, blsG2:
			if ok != on {
				continue
			}
			b := put(x.a, 48)
			if c.ext {
				b = append(put(x.b, 48), b...)
			}
			b[0] |= 0x80 | byte(g.r.Intn(2)<<5)
			return b
		default:
			if !on {
				y = fe{new(big.Int).Rand(g.r, c.p), new(big.Int)}
				if c.ext {
					y.b.Rand(g.r, c.p)
				}
			}
			if c.ext {
				return bytes.Join([][]byte{put(x.b, 32), put(x.a, 32), put(y.b, 32), put(y.a, 32)}, nil)
			}
			return append(put(x.a, 32), put(y.a, 32)...)
		}
	}
}

var pieces = []string{"v3", "v2", "zero", "blk", "cut", "point", "infinity", "off", "sub", "flag", "big", "short", "num", "bignum"}

// piece makes a piece of the kinds MCWire puts together
func (g *gen) piece(d, k string) []byte {
	c, n := group(d)
	order := blsR
	if d == "bls secret key" {
		order = bnR
	}
	switch k {
	case "v3":
		return []byte{3}
	case "v2":
		return []byte{[]byte{2, 2, 4, 0, 0x83}[g.r.Intn(5)]}
	case "zero":
		return []byte{0}
	case "blk":
		return g.bytes(32)
	case "cut":
		return g.bytes([]int{31, 1, 16, 33}[g.r.Intn(4)])
	case "num":
		return put(new(big.Int).Rand(g.r, order), 32)
	case "bignum":
		x := new(big.Int).Set(order)
		switch g.r.Intn(4) {
		case 0:
			x.Add(x, new(big.Int).Rand(g.r, order))
		case 1:
			x.Sub(x, big.NewInt(1)) // not too big
		case 2:
			x.Add(x, big.NewInt(1))
		}
		return put(x, 32)
	}
	if c == nil {
		return nil
	}
	b := g.right(c)
	isBls := c == blsG1 || c == blsG2
	switch k {
	case "infinity":
		b = make([]byte, n)
		if isBls {
			b[0] = 0xc0
		}
	case "off":
		b = g.other(c, false)
	case "sub":
		b = g.other(c, true)
	case "flag":
		if isBls {
			switch g.r.Intn(4) {
			case 0:
				b[0] &= 0x7f
			case 1:
				b[0] |= 0x40
			case 2: // an infinity that isn't
				b = make([]byte, n)
				b[0] = 0xe0
			case 3:
				b = make([]byte, n)
				b[0] = 0xc0
				b[n-1-g.r.Intn(n/2)] = 1
			}
		} else {
			b[g.r.Intn(n)] ^= byte(1 + g.r.Intn(255))
		}
	case "big": // a coordinate that is too large
		size := 48
		if !isBls {
			size = 32
		}
		at := g.r.Intn(n/size) * size
		flags := b[at] & 0xe0
		if !isBls || at > 0 {
			flags = 0
		}
		v := new(big.Int).SetBytes(append([]byte{b[at] &^ flags}, b[at+1:at+size]...))
		v.Add(v, c.p)
		if v.BitLen() > size*8-3*map[bool]int{true: 1, false: 0}[flags != 0] {
			v.Set(c.p)
		}
		copy(b[at:], put(v, size))
		b[at] |= flags
	case "short":
		b = b[:n-1]
		if g.r.Intn(3) == 0 {
			b = b[:g.r.Intn(n)]
		}
	}
	return b
}

func text(b []byte) []byte { return []byte("0x" + hex.EncodeToString(b)) }

// good is an encoding that should be accepted
func (g *gen) good(k kind) []byte {
	var b []byte
	c, _ := group(k.d)
	switch k.d {
	case "message":
		b = append([]byte{3}, g.right(c)...)
		for i := 0; i < 1+g.r.Intn(4); i++ {
			b = append(b, g.bytes(32)...)
		}
	case "eon secret key share":
		n := new(big.Int).Rand(g.r, blsR)
		if g.r.Intn(4) == 0 {
			n.Rsh(n, uint(g.r.Intn(256)))
		}
		b = n.Bytes()
		if k.form == "gob" {
			b = append([]byte{2}, b...)
		}
	case "block":
		b = g.bytes(32)
	case "gammas":
		for i := 0; i < g.r.Intn(4); i++ {
			b = append(b, g.right(c)...)
		}
	case "bls secret key":
		b = put(new(big.Int).Rand(g.r, bnR), 32)
	default:
		b = g.right(c)
	}
	if k.form == "text" {
		b = text(b)
	}
	return b
}

type driver struct {
	gen
	t *TraceWriter
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func marshal(c codec) (b []byte, ok bool) {
	defer func() {
		if recover() != nil {
			b, ok = nil, false
		}
	}()
	if c.hole != nil && c.hole() {
		return nil, false
	}
	b, err := c.enc()
	return append([]byte{}, b...), err == nil
}

// try decodes b, into a value that holds something already or not
func (w *driver) try(k kind, b []byte) {
	v := fresh(k.d)
	c := v[k.form]
	var had []byte
	if w.r.Intn(2) == 0 {
		if h := w.good(k); c.dec(h) == nil {
			had = h
		}
	}
	before, okb := marshal(c)
	if k.d == "message" && had == nil { // an empty message cannot be written
		before, okb = nil, false
	}
	in := append(make([]byte, 0, len(b)+8), b...)
	o := M{"op": "decode", "d": k.d, "form": k.form, "b": ints(b), "pt": []bool{}, "after": "same", "out": []int{}, "kept": true}
	raw := b
	if k.form == "text" {
		raw = nil
		if len(b) >= 2 {
			raw, _ = hex.DecodeString(string(b[2:]))
		}
	}
	o["pt"] = points(k.d, raw)
	err, panicked := func() (err error, p bool) {
		defer func() {
			if recover() != nil {
				p = true
			}
		}()
		return c.dec(in), false
	}()
	switch {
	case panicked:
		o["res"] = "panic"
	case err != nil:
		o["res"] = "err"
		after, oka := marshal(c)
		switch {
		case okb == oka && bytes.Equal(before, after):
		case !oka: // such a value cannot even be written
			o["after"] = "unusable"
		case bytes.Count(after, []byte{0}) == len(after):
			o["after"] = "zero"
		case fresh(k.d)[k.form].dec(after) != nil:
			o["after"] = "invalid"
		default:
			o["after"] = "changed"
		}
	default:
		o["res"] = "ok"
		out, ok := marshal(c)
		o["out"] = ints(out)
		if !ok {
			o["res"] = "panic"
		}
		for i := range in {
			in[i] ^= 0x55
		}
		again, _ := marshal(c)
		o["kept"] = bytes.Equal(out, again) && bytes.Equal(b, xor(in, 0x55))
	}
	w.t.Put(o)
}

func xor(b []byte, x byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[i] ^ x
	}
	return r
}

// mutate damages an encoding
func (w *driver) mutate(k kind, b []byte) []byte {
	b = append([]byte{}, b...)
	switch x := w.r.Intn(9); {
	case x == 0 && len(b) > 0:
		return b[:w.r.Intn(len(b))]
	case x == 1:
		return append(b, w.bytes(1+w.r.Intn(3))...)
	case x == 2 && len(b) > 1:
		return b[1+w.r.Intn(len(b)-1):]
	case x == 3 && k.form == "text" && len(b) > 2:
		b[w.r.Intn(len(b))] = "gGxX 0Z-ff"[w.r.Intn(10)]
		return b
	case x == 4 && k.form == "text":
		return bytes.ToUpper(b)
	case x == 5 && k.form == "text" && len(b) > 2:
		return append([]byte{'0', 'x'}, bytes.ToUpper(b[2:])...)
	case x == 6 && k.form == "gob":
		if len(b) > 0 && k.d == "eon secret key share" {
			b[0] = []byte{0, 1, 3, 2, 4, 255}[w.r.Intn(6)]
		}
		return b
	case x == 7:
		return append([]byte{0}, b...)
	}
	if len(b) > 0 {
		b[w.r.Intn(len(b))] ^= 1 << uint(w.r.Intn(8))
	}
	return b
}

func (w *driver) random() {
	k := kinds[w.r.Intn(len(kinds))]
	var b []byte
	switch w.r.Intn(4) {
	case 0:
		b = w.good(k)
	case 1:
		b = w.mutate(k, w.good(k))
	default:
		if k.d == "message" {
			b = append(b, 3)
		}
		if k.d == "eon secret key share" && k.form == "gob" {
			b = append(b, 2)
		}
		for i := 0; i < 1+w.r.Intn(3); i++ {
			b = append(b, w.piece(k.d, pieces[w.r.Intn(len(pieces))])...)
		}
		if k.form == "text" {
			b = text(b)
		}
		if w.r.Intn(8) == 0 {
			b = w.mutate(k, b)
		}
	}
	w.try(k, b)
}

func main() {
	out := flag.String("out", "", "trace file")
	scripts := flag.String("scripts", "", "scripts")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random inputs, in thousands")
	only := flag.String("only", "", "only decoders whose name starts so")
	flag.Parse()
	var some []kind
	for _, k := range kinds {
		if strings.HasPrefix(k.d, *only) {
			some = append(some, k)
		}
	}
	kinds = some
	w := &driver{gen{mrand.New(mrand.NewSource(*seed))}, NewTraceWriter(*out)}
	w.t.Put(M{"op": "reset"})
	if *scripts != "" {
		f, err := os.ReadFile(*scripts)
		if err != nil {
			panic(err)
		}
		for _, line := range strings.Split(strings.TrimSpace(string(f)), "\n") {
			var l []M
			if err := json.Unmarshal([]byte(line), &l); err != nil {
				panic(err)
			}
			w.t.Put(M{"op": "reset"})
			k := kind{l[0]["d"].(string), l[0]["form"].(string)}
			var b []byte
			for _, o := range append([]M{{}}, l[1:]...) { // every beginning of the string
				if p, ok := o["kind"].(string); ok {
					b = append(b, w.piece(k.d, p)...)
				}
				in := b
				if k.form == "text" {
					in = text(b)
				}
				w.try(k, in)
			}
		}
	}
	for i := 0; i < *segments; i++ {
		w.t.Put(M{"op": "reset"})
		for j := 0; j < 1000; j++ {
			w.random()
		}
	}
	w.t.Close()
}
