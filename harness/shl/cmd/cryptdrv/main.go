// cryptdrv lets the tree's shcrypto make shares, keys and ciphertexts, rightly and wrongly, and records
// what came out.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"math/big"
	mrand "math/rand"
	"os"
	"strings"

	blst "github.com/supranational/blst/bindings/go"

	sc "github.com/shutter-network/shutter/shlib/shcrypto"
	. "verif/shl/lib"
)

var order, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

type eon struct {
	n, t   int
	polys  []*sc.Polynomial
	gammas []*sc.Gammas
	sk     []*sc.EonSecretKeyShare
	pks    []*sc.EonPublicKeyShare
	pk     *sc.EonPublicKey
}

type share struct {
	e, i, m int // e = 0: none of the eons' shares
	s       *sc.EpochSecretKeyShare
}

type key struct {
	e, m int
	k    *sc.EpochSecretKey
}

type ct struct {
	e, m, msg int
	c         *sc.EncryptedMessage
}

type world struct {
	r      *mrand.Rand
	t      *TraceWriter
	eons   []*eon
	epochs [][]byte
	shares []share
	keys   []key
	cts    []ct
	msgs   [][]byte
	sigmas []sc.Block
	masks  map[sc.Block][4]int // what a block was masked with: for which sigma and block (or eon and epoch)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *world) scalar() *big.Int { return new(big.Int).Rand(w.r, order) }

func scalarOf(i *big.Int) *blst.Scalar {
	b := make([]byte, 32)
	new(big.Int).Mod(i, order).FillBytes(b)
	s := new(blst.Scalar)
	s.FromBEndian(b)
	return s
}

func g2(i *big.Int) *blst.P2Affine { return blst.P2Generator().Mult(scalarOf(i)).ToAffine() }

// newEon lets n keypers deal; its keys are checked against what they should be
func (w *world) newEon(n, t int) (*eon, bool) {
	e := &eon{n: n, t: t}
	sums := make([]*big.Int, n+1)
	for i := range sums {
		sums[i] = new(big.Int)
	}
	for d := 0; d < n; d++ {
		var cs []*big.Int
		for k := 0; k < t; k++ {
			cs = append(cs, w.scalar())
		}
		p, err := sc.NewPolynomial(append([]*big.Int{}, cs...))
		must(err)
		for x := 0; x <= n; x++ {
			v, xp := new(big.Int), big.NewInt(1)
			for _, c := range cs {
				v.Add(v, new(big.Int).Mul(c, xp))
				xp.Mul(xp, big.NewInt(int64(x)))
			}
			sums[x].Mod(sums[x].Add(sums[x], v), order)
		}
		e.polys = append(e.polys, p)
		e.gammas = append(e.gammas, p.Gammas())
	}
	ok := true
	for i := 0; i < n; i++ {
		var evals []*big.Int
		for d := 0; d < n; d++ {
			evals = append(evals, e.polys[d].EvalForKeyper(i))
		}
		e.sk = append(e.sk, sc.ComputeEonSecretKeyShare(evals))
		e.pks = append(e.pks, sc.ComputeEonPublicKeyShare(i, e.gammas))
		ok = ok && e.sk[i].Equal((*sc.EonSecretKeyShare)(sums[i+1])) && e.pks[i].Equal((*sc.EonPublicKeyShare)(g2(sums[i+1])))
	}
	e.pk = sc.ComputeEonPublicKey(e.gammas)
	return e, ok && e.pk.Equal((*sc.EonPublicKey)(g2(sums[0])))
}

func (w *world) reset(shape [][2]int) {
	w.shares, w.keys, w.cts, w.eons = nil, nil, nil, nil
	w.masks = map[sc.Block][4]int{}
	var l []M
	oks := []bool{}
	for _, s := range shape {
		e, ok := w.newEon(s[0], s[1])
		w.eons = append(w.eons, e)
		oks = append(oks, ok)
		l = append(l, M{"n": s[0], "t": s[1]})
	}
	w.t.Put(M{"op": "reset", "eons": l})
	for i, ok := range oks {
		w.t.Put(M{"op": "eonkey", "e": i + 1, "ok": ok})
	}
	w.epochs = nil
	for i := 0; i < 3; i++ {
		b := make([]byte, w.r.Intn(40))
		w.r.Read(b)
		w.epochs = append(w.epochs, append(b, byte(i)))
	}
	w.msgs, w.sigmas = nil, nil
	long := w.r.Intn(16)
	for i := 0; i < 8; i++ {
		n := []int{0, 1, 31, 32, 33, 63, 64, 65, 100}[w.r.Intn(9)]
		if w.r.Intn(2) == 0 {
			n = w.r.Intn(300)
		}
		if i == long {
			n = 8100 + w.r.Intn(12000) // more than 255 blocks
		}
		b := make([]byte, n)
		w.r.Read(b)
		if w.r.Intn(3) == 0 { // looks like padding
			for j := len(b) - 1; j >= 0 && j >= len(b)-w.r.Intn(34); j-- {
				b[j] = byte(w.r.Intn(34))
			}
		}
		dup := false
		for _, m := range w.msgs {
			dup = dup || bytes.Equal(m, b)
		}
		if dup {
			b = append(b, byte(100+i))
		}
		w.msgs = append(w.msgs, b)
	}
	for i := 0; i < 3; i++ {
		s, err := sc.RandomSigma(w.r)
		must(err)
		w.sigmas = append(w.sigmas, s)
	}
}

// reused counts the blocks of a new ciphertext that are masked with what masks another block
func (w *world) reused(c *sc.EncryptedMessage, e, m, msg, sg int) (k int) {
	pad := 32 - len(w.msgs[msg])%32
	plain := append(append([]byte{}, w.msgs[msg]...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	note := func(b, p []byte, as [4]int) {
		var x sc.Block
		for j := range x {
			x[j] = b[j] ^ p[j]
		}
		if a, ok := w.masks[x]; ok && a != as {
			k++
		}
		w.masks[x] = as
	}
	for i := 0; i < len(c.C3) && 32*i < len(plain); i++ {
		note(c.C3[i][:], plain[32*i:], [4]int{0, 0, sg, i})
	}
	note(c.C2[:], w.sigmas[sg][:], [4]int{e, 1 + m, sg, msg})
	return k
}

// guard records a panic of the code under test
func (w *world) guard(what string, f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if x == "driver" {
				panic(x)
			}
			w.t.Put(M{"op": "trouble", "what": "panic in " + what})
			ok = false
		}
	}()
	f()
	return true
}

func (w *world) share(e, i, m int) {
	id := sc.ComputeEpochID(w.epochs[m])
	before, sb := id.Marshal(), w.eons[e-1].sk[i].Marshal()
	s := sc.ComputeEpochSecretKeyShare(w.eons[e-1].sk[i], id)
	if w.r.Intn(2) == 0 {
		d := new(sc.EpochSecretKeyShare)
		must(d.Unmarshal(s.Marshal()))
		s = d
	}
	w.shares = append(w.shares, share{e, i, m, s})
	w.t.Put(M{"op": "share", "e": e, "i": i, "m": m, "val": Digest(s.Marshal()), "clean": bytes.Equal(before, id.Marshal()) && bytes.Equal(sb, w.eons[e-1].sk[i].Marshal())})
}

func (w *world) badshare() {
	var p *blst.P1Affine
	id, of, c := len(w.shares)+2, 0, 1
	switch w.r.Intn(3) {
	case 0:
		p = blst.P1Generator().Mult(scalarOf(w.scalar())).ToAffine()
	case 1:
		p, c = new(blst.P1Affine), 0 // infinity
	default:
		p, id = blst.P1Generator().ToAffine(), 1
	}
	if len(w.shares) > 0 && w.r.Intn(2) == 0 { // a multiple of a share
		of, c = 1+w.r.Intn(len(w.shares)), 2+w.r.Intn(3)
		x := new(blst.P1)
		x.FromAffine((*blst.P1Affine)(w.shares[of-1].s))
		p = x.Mult(scalarOf(big.NewInt(int64(c)))).ToAffine()
	}
	s := (*sc.EpochSecretKeyShare)(p)
	w.shares = append(w.shares, share{0, 0, 0, s})
	w.t.Put(M{"op": "badshare", "val": Digest(s.Marshal()), "id": id, "of": of, "c": c})
}

func (w *world) combine(idx []int, sh []int, thr int, direct bool) {
	var l []*sc.EpochSecretKeyShare
	var before []string
	for _, s := range sh {
		l = append(l, w.shares[s-1].s)
		before = append(before, Digest(w.shares[s-1].s.Marshal()))
	}
	var k *sc.EpochSecretKey
	var err error
	if direct {
		thr = len(idx)
		k, err = sc.NewLagrangeCoeffs(idx).ComputeEpochSecretKey(l)
	} else {
		k, err = sc.ComputeEpochSecretKey(idx, l, uint64(thr))
	}
	clean := true
	for i, s := range sh {
		clean = clean && before[i] == Digest(w.shares[s-1].s.Marshal())
	}
	o := M{"op": "combine", "idx": idx, "sh": sh, "thr": thr, "ok": err == nil, "clean": clean}
	if err == nil {
		o["val"] = Digest(k.Marshal())
		kk := key{k: k}
		// which key it should be is the specification's business; remembered here to pick interesting ones
		if len(sh) > 0 {
			kk.e, kk.m = w.shares[sh[0]-1].e, w.shares[sh[0]-1].m
		}
		if w.r.Intn(2) == 0 {
			d := new(sc.EpochSecretKey)
			must(d.Unmarshal(k.Marshal()))
			kk.k = d
		}
		w.keys = append(w.keys, kk)
	}
	w.t.Put(o)
}

func (w *world) vshare(s, e, i, m int) {
	ok := sc.VerifyEpochSecretKeyShare(w.shares[s-1].s, w.eons[e-1].pks[i], sc.ComputeEpochID(w.epochs[m]))
	w.t.Put(M{"op": "vshare", "s": s, "e": e, "i": i, "m": m, "ok": ok})
}

func (w *world) vkey(k, e, m int) {
	var ok bool
	var err error
	if w.r.Intn(2) == 0 {
		ok, err = sc.VerifyEpochSecretKey(w.keys[k-1].k, w.eons[e-1].pk, w.epochs[m])
	} else {
		ok, err = sc.VerifyEpochSecretKeyDeterministic(w.keys[k-1].k, w.eons[e-1].pk, w.epochs[m], w.sigmas[w.r.Intn(3)], w.msgs[w.r.Intn(len(w.msgs))])
	}
	w.t.Put(M{"op": "vkey", "key": k, "e": e, "m": m, "ok": ok && err == nil})
}

func (w *world) poly(e, a, b, i, j, thr int) {
	x := w.eons[e-1]
	ev := x.polys[a].EvalForKeyper(i)
	ok := sc.ValidEval(ev) && sc.VerifyPolyEval(j, ev, x.gammas[b], uint64(thr))
	w.t.Put(M{"op": "poly", "e": e, "a": a, "b": b, "i": i, "j": j, "thr": thr, "ok": ok})
}

func (w *world) enc(e, m, msg, sg int) {
	buf := append(append([]byte{}, w.msgs[msg]...), bytes.Repeat([]byte{0xEE}, 96)...)
	n := len(w.msgs[msg])
	in := buf[:n]
	if w.r.Intn(3) == 0 {
		in = buf[:n:n]
	}
	id := sc.ComputeEpochID(w.epochs[m])
	idb, pkb := id.Marshal(), w.eons[e-1].pk.Marshal()
	c := sc.Encrypt(in, w.eons[e-1].pk, id, w.sigmas[sg])
	clean := bytes.Equal(buf[:n], w.msgs[msg]) && bytes.Equal(buf[n:], bytes.Repeat([]byte{0xEE}, 96)) && bytes.Equal(idb, id.Marshal()) && bytes.Equal(pkb, w.eons[e-1].pk.Marshal())
	b := c.Marshal()
	for i := range buf { // the ciphertext must not share memory with the message
		buf[i] ^= 0xFF
	}
	again := bytes.Equal(b, c.Marshal())
	d, d2 := new(sc.EncryptedMessage), new(sc.EncryptedMessage)
	again = again && d.Unmarshal(b) == nil && bytes.Equal(d.Marshal(), b)
	txt, err := c.MarshalText()
	again = again && err == nil && d2.UnmarshalText(txt) == nil && bytes.Equal(d2.Marshal(), b)
	again = again && sc.IdentifyVersion(b) == sc.VersionIdentifier
	w.cts = append(w.cts, ct{e, m, msg, c})
	w.t.Put(M{"op": "enc", "e": e, "m": m, "msg": msg, "sg": sg, "len": n, "blocks": len(c.C3), "reused": w.reused(c, e, m, msg, sg), "val": Digest(b), "clean": clean, "again": again})
}

var mods = []string{"none", "none", "c1", "c2", "c3", "pad", "drop", "dropall", "add", "swap", "bytes", "mix"}

// tampered changes a copy of a ciphertext; it fails if there is nothing to change
func (w *world) tampered(c *sc.EncryptedMessage, mod string) *sc.EncryptedMessage {
	d := &sc.EncryptedMessage{C1: new(blst.P2Affine), C2: c.C2, C3: append([]sc.Block{}, c.C3...)}
	*d.C1 = *c.C1
	last := len(d.C3) - 1
	switch mod {
	case "c1":
		x := new(blst.P2)
		x.FromAffine(c.C1)
		switch w.r.Intn(4) {
		case 0:
			x = x.Add(c.C1)
		case 1:
			x = new(blst.P2).Sub(c.C1)
		case 2:
			x = new(blst.P2)
		default:
			x = x.Add(blst.P2Generator().ToAffine())
		}
		d.C1 = x.ToAffine()
	case "c2":
		d.C2[w.r.Intn(32)] ^= 1 << uint(w.r.Intn(8))
	case "c3":
		d.C3[w.r.Intn(last+1)][w.r.Intn(32)] ^= 1 << uint(w.r.Intn(8))
	case "pad":
		d.C3[last][31-w.r.Intn(4)] ^= byte(1 + w.r.Intn(63))
	case "drop":
		d.C3 = d.C3[:last]
	case "dropall":
		d.C3 = nil
	case "add":
		b := sc.Block{}
		if w.r.Intn(2) == 0 {
			w.r.Read(b[:])
		}
		d.C3 = append(d.C3, b)
	case "swap":
		i, j := w.r.Intn(last+1), w.r.Intn(last+1)
		d.C3[i], d.C3[j] = d.C3[j], d.C3[i]
	case "bytes":
		b := c.Marshal()
		b[w.r.Intn(len(b))] ^= 1 << uint(w.r.Intn(8))
		if w.r.Intn(8) == 0 {
			b = b[:w.r.Intn(len(b))]
		}
		x := new(sc.EncryptedMessage)
		if x.Unmarshal(b) != nil {
			return nil
		}
		return x
	case "mix":
		o := w.cts[w.r.Intn(len(w.cts))].c
		switch w.r.Intn(3) {
		case 0:
			*d.C1 = *o.C1
		case 1:
			d.C2 = o.C2
		default:
			d.C3 = append([]sc.Block{}, o.C3...)
		}
	}
	return d
}

func (w *world) dec(c, k int, mod string) {
	x := w.tampered(w.cts[c-1].c, mod)
	o := M{"op": "dec", "c": c, "key": k, "msg": -1, "mod": mod}
	if x == nil { // refused when decoded
		o["res"] = "err"
		w.t.Put(o)
		return
	}
	// putting parts of two ciphertexts together may give an untampered one
	for j := range w.cts {
		if bytes.Equal(x.Marshal(), w.cts[j].c.Marshal()) {
			o["c"], o["mod"] = j+1, "none"
		}
	}
	via := w.r.Intn(3)
	if via > 0 {
		y := new(sc.EncryptedMessage)
		var err error
		if via == 1 {
			err = y.Unmarshal(x.Marshal())
		} else {
			t, _ := x.MarshalText()
			err = y.UnmarshalText(t)
		}
		if err != nil {
			o["res"] = "err"
			w.t.Put(o)
			return
		}
		x = y
	}
	before, kb := x.Marshal(), w.keys[k-1].k.Marshal()
	m, err := x.Decrypt(w.keys[k-1].k)
	o["res"] = "err"
	if err == nil {
		o["res"] = "msg"
		for i, b := range w.msgs {
			if bytes.Equal(b, m) {
				o["msg"] = i
			}
		}
	} else if len(m) != 0 {
		o["res"] = "message along with an error"
	}
	for i := range m {
		m[i] ^= 0xFF
	}
	o["clean"] = bytes.Equal(before, x.Marshal()) && bytes.Equal(kb, w.keys[k-1].k.Marshal())
	w.t.Put(o)
}

func (w *world) shuffle(k, n int) {
	var txs, orig [][]byte
	for i := 1; i <= n; i++ {
		txs = append(txs, []byte{byte(i >> 8), byte(i)})
	}
	orig = append(orig, txs...)
	res := sc.Shuffle(txs, w.keys[k-1].k)
	perm := []int{}
	for _, t := range res {
		perm = append(perm, int(t[0])<<8|int(t[1]))
	}
	clean := len(orig) == len(txs)
	for i := range orig {
		clean = clean && bytes.Equal(orig[i], txs[i])
	}
	w.t.Put(M{"op": "shuffle", "key": Digest(w.keys[k-1].k.Marshal()), "n": n, "perm": perm, "clean": clean})
}

// somekey is an epoch key: a random one, or one of a row of related ones
func (w *world) somekey(i int) *sc.EpochSecretKey {
	x := big.NewInt(int64(i))
	if i <= 0 {
		x = w.scalar()
	}
	return (*sc.EpochSecretKey)(blst.P1Generator().Mult(scalarOf(x)).ToAffine())
}

// orders shuffles lists of many lengths and contents with a few keys, and short lists with many keys
func (w *world) orders(ops int) {
	r := w.r
	w.t.Put(M{"op": "reset"})
	keys := []*sc.EpochSecretKey{w.somekey(1), w.somekey(2)}
	for i := 0; i < 4; i++ {
		keys = append(keys, w.somekey(0))
	}
	for o := 0; o < ops; o++ {
		n := []int{0, 1, 2, 3, 4, 5, 8, 12, 40, 300}[r.Intn(10)]
		k := r.Intn(len(keys))
		txs := make([][]byte, n, n+r.Intn(3)*r.Intn(4))
		for i := range txs {
			txs[i] = []byte{byte(i >> 8), byte(i)}
		}
		perm := []int{}
		for _, t := range sc.Shuffle(txs, keys[k]) {
			perm = append(perm, 1+int(binary.BigEndian.Uint16(t)))
		}
		// the same list with other contents
		for i := range txs {
			txs[i] = make([]byte, r.Intn(5)*r.Intn(40))
			r.Read(txs[i])
			if i > 0 && r.Intn(6) == 0 {
				txs[i] = append([]byte{}, txs[r.Intn(i)]...)
			}
		}
		orig := make([][]byte, n)
		for i := range txs {
			orig[i] = append([]byte{}, txs[i]...)
		}
		full := txs[:cap(txs)]
		for i := n; i < len(full); i++ {
			full[i] = []byte("behind")
		}
		kb := keys[k].Marshal()
		kk := new(sc.EpochSecretKey)
		must(kk.Unmarshal(kb))
		res := sc.Shuffle(txs, kk)
		same := len(res) == len(perm) && len(res) == n
		for i := 0; same && i < n; i++ {
			same = perm[i] >= 1 && perm[i] <= n && bytes.Equal(res[i], orig[perm[i]-1])
		}
		clean := bytes.Equal(kb, kk.Marshal()) && len(txs) == n
		for i := range orig {
			clean = clean && bytes.Equal(orig[i], txs[i])
		}
		for i := n; i < len(full); i++ {
			clean = clean && string(full[i]) == "behind"
		}
		if len(res) > 0 { // changing the result must not change the list
			res[0] = []byte("changed")
			for i := range orig {
				clean = clean && bytes.Equal(orig[i], txs[i])
			}
		}
		w.t.Put(M{"op": "order", "key": k, "n": n, "perm": perm, "same": same, "clean": clean})
	}
	related := r.Intn(2) == 0
	for _, n := range []int{2, 3, 4, 12} {
		K := 600
		if n > 4 {
			K = 3000
		}
		first := 0
		if related {
			first = 1 + r.Intn(100000)
		}
		count := make([][]int, n)
		for i := range count {
			count[i] = make([]int, n)
		}
		seen := map[string]int{}
		for x := 0; x < K; x++ {
			at := 0
			if related {
				at = first + x
			}
			txs := make([][]byte, n)
			for i := range txs {
				txs[i] = []byte{byte(i)}
			}
			var id []byte
			for i, t := range sc.Shuffle(txs, w.somekey(at)) {
				if i < n && len(t) == 1 && int(t[0]) < n {
					count[t[0]][i]++
					id = append(id, t[0])
				}
			}
			seen[string(id)]++
		}
		most := 0
		for _, c := range seen {
			if c > most {
				most = c
			}
		}
		w.t.Put(M{"op": "spread", "n": n, "keys": K, "related": related, "count": count, "orders": len(seen), "most": most})
	}
}

// many shuffles with a row of keys and counts the orders
func (w *world) many(keys int) {
	const n = 24
	w.t.Put(M{"op": "reset"})
	txs := make([][]byte, n)
	for i := range txs {
		txs[i] = []byte{byte(i)}
	}
	p := blst.P1Generator().Mult(scalarOf(w.scalar()))
	seen := map[[n]byte]bool{}
	for i := 0; i < keys; i++ {
		p = p.Add(blst.P1Generator().ToAffine())
		var id [n]byte
		for j, t := range sc.Shuffle(txs, (*sc.EpochSecretKey)(p.ToAffine())) {
			id[j%n] = t[0]
		}
		seen[id] = true
	}
	w.t.Put(M{"op": "many", "n": n, "keys": keys, "orders": len(seen)})
}

func (w *world) random(ops int) {
	r := w.r
	var shape [][2]int
	for i := 0; i < 1+r.Intn(2); i++ {
		n := 1 + r.Intn(6)
		shape = append(shape, [2]int{n, 1 + r.Intn(n)})
	}
	w.reset(shape)
	pick := func() (int, int, int) {
		e := 1 + r.Intn(len(w.eons))
		return e, r.Intn(w.eons[e-1].n), r.Intn(2)
	}
	for n := 0; n < ops; n++ {
		var what string
		var f func()
		switch x := r.Intn(20); {
		case x < 5:
			what, f = "share", func() { e, i, m := pick(); w.share(e, i, m) }
		case x == 5:
			what, f = "share", func() { w.badshare() }
		case x < 9 && len(w.shares) > 0: // a key put together rightly, if the shares are there
			what, f = "combine", func() {
				e, _, m := pick()
				var have []int
				seen := map[int]bool{}
				for _, j := range r.Perm(len(w.shares)) {
					s := w.shares[j]
					if s.e == e && s.m == m && !seen[s.i] {
						seen[s.i] = true
						have = append(have, j+1)
					}
				}
				t := w.eons[e-1].t
				if r.Intn(4) == 0 {
					t += r.Intn(3) - 1
				}
				if t < 0 || len(have) < t {
					for i := 0; i < w.eons[e-1].n; i++ {
						if !seen[i] {
							w.share(e, i, m)
							have = append(have, len(w.shares))
						}
					}
				}
				if t >= 0 && t < len(have) {
					have = have[:t]
				}
				idx := []int{}
				for _, j := range have {
					idx = append(idx, w.shares[j-1].i)
				}
				if r.Intn(5) == 0 && len(have) > 0 { // something is wrong with it
					switch r.Intn(4) {
					case 0:
						idx[r.Intn(len(idx))] = r.Intn(7)
					case 1:
						have[r.Intn(len(have))] = 1 + r.Intn(len(w.shares))
					case 2:
						i, j := r.Intn(len(have)), r.Intn(len(have))
						have[i], have[j] = have[j], have[i]
					case 3:
						have = have[:len(have)-1]
					}
				}
				thr := len(idx)
				if r.Intn(8) == 0 {
					thr += r.Intn(3) - 1
				}
				if thr < 0 {
					thr = 0
				}
				w.combine(idx, append([]int{}, have...), thr, r.Intn(3) == 0)
			}
		case x == 9 && len(w.shares) > 0:
			what, f = "share verification", func() {
				s := 1 + r.Intn(len(w.shares))
				y := w.shares[s-1]
				e, i, m := pick()
				if y.e > 0 && r.Intn(4) > 0 {
					e = y.e
					if i >= w.eons[e-1].n {
						i = 0
					}
					if r.Intn(3) > 0 {
						i = y.i
					}
					if r.Intn(3) > 0 {
						m = y.m
					}
				}
				if i >= w.eons[e-1].n {
					i = 0
				}
				w.vshare(s, e, i, m)
			}
		case x == 10:
			what, f = "evaluation verification", func() {
				e, i, _ := pick()
				n := w.eons[e-1].n
				a, b, j, thr := r.Intn(n), r.Intn(n), r.Intn(n), w.eons[e-1].t
				if r.Intn(2) == 0 {
					b, j = a, i
				}
				if r.Intn(4) == 0 {
					thr += r.Intn(3) - 1
				}
				if thr < 0 {
					thr = 0
				}
				w.poly(e, a, b, i, j, thr)
			}
		case x < 14:
			what, f = "encryption", func() { e, _, m := pick(); w.enc(e, m, r.Intn(len(w.msgs)), r.Intn(3)) }
		case x == 14 && len(w.keys) > 0:
			what, f = "key verification", func() {
				k := 1 + r.Intn(len(w.keys))
				e, _, m := pick()
				if w.keys[k-1].e > 0 && r.Intn(2) == 0 {
					e, m = w.keys[k-1].e, w.keys[k-1].m
				}
				w.vkey(k, e, m)
			}
		case x == 15 && len(w.keys) > 0:
			what, f = "shuffle", func() { w.shuffle(1+r.Intn(len(w.keys)), []int{0, 1, 2, 3, 5, 8, 40}[r.Intn(7)]) }
		case len(w.cts) > 0 && len(w.keys) > 0:
			what, f = "decryption", func() {
				c, k := 1+r.Intn(len(w.cts)), 1+r.Intn(len(w.keys))
				if r.Intn(3) > 0 {
					for _, j := range r.Perm(len(w.keys)) {
						if w.keys[j].e == w.cts[c-1].e && w.keys[j].m == w.cts[c-1].m {
							k = j + 1
						}
					}
				}
				w.dec(c, k, mods[r.Intn(len(mods))])
			}
		}
		if f != nil && !w.guard(what, f) {
			return
		}
	}
}

// script replays a behaviour of MCCrypto (eons and keypers from 0)
func (w *world) script(l []M) {
	w.reset([][2]int{{3, 2}, {3, 2}})
	at := map[[3]int]int{}
	num := func(x interface{}) int { return int(x.(float64)) }
	w.guard("script", func() {
		for _, o := range l {
			switch o["k"] {
			case "share":
				e, i, m := num(o["e"]), num(o["i"]), num(o["m"])
				w.share(e+1, i, m)
				at[[3]int{e, i, m}] = len(w.shares)
			case "combine":
				idx, sh := []int{}, []int{}
				for _, x := range o["idx"].([]interface{}) {
					idx = append(idx, num(x))
				}
				for _, x := range o["sh"].([]interface{}) {
					y := x.(map[string]interface{})
					sh = append(sh, at[[3]int{num(y["e"]), num(y["i"]), num(y["m"])}])
				}
				w.combine(idx, sh, num(o["thr"]), false)
			case "enc":
				w.enc(num(o["e"])+1, num(o["m"]), w.r.Intn(len(w.msgs)), w.r.Intn(3))
			case "dec":
				w.dec(1, len(w.keys), o["mod"].(string))
			}
		}
	})
}

func main() {
	out := flag.String("out", "", "trace file")
	scripts := flag.String("scripts", "", "scripts")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random segments")
	ops := flag.Int("ops", 60, "steps per random segment")
	orders := flag.Bool("orders", false, "only shuffle")
	many := flag.Int("many", 0, "shuffle with that many keys")
	flag.Parse()
	w := &world{r: mrand.New(mrand.NewSource(*seed)), t: NewTraceWriter(*out)}
	if *many > 0 {
		w.guard("shuffle", func() { w.many(*many) })
	}
	if *orders {
		for i := 0; i < *segments; i++ {
			w.guard("shuffle", func() { w.orders(*ops) })
		}
		w.t.Close()
		return
	}
	if *scripts != "" {
		b, err := os.ReadFile(*scripts)
		must(err)
		for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var l []M
			must(json.Unmarshal([]byte(line), &l))
			w.script(l)
		}
	}
	for i := 0; i < *segments; i++ {
		w.random(*ops)
	}
	w.t.Close()
}
