package main

import "math/big"

// Plain arithmetic on y^2 = x^3 + b over Fp2 (curves over Fp have no imaginary parts), used to tell
// which encodings are points of the right group.

type fe struct{ a, b *big.Int } // a + b*i

type curve struct {
	p, r *big.Int
	b    fe
	ext  bool // over Fp2
}

func bigHex(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return x
}

func fromInt(a, b int64) fe { return fe{big.NewInt(a), big.NewInt(b)} }

var (
	blsP = bigHex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	blsR = bigHex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	bnP  = bigHex("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47")
	bnR  = bigHex("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001")

	blsG1 = &curve{p: blsP, r: blsR, b: fromInt(4, 0)}
	blsG2 = &curve{p: blsP, r: blsR, b: fromInt(4, 4), ext: true}
	bnG1  = &curve{p: bnP, r: bnR, b: fromInt(3, 0)}
	bnG2  = &curve{p: bnP, r: bnR, ext: true}
)

func init() { // 3 / (9 + i)
	bnG2.b = bnG2.mul(fromInt(3, 0), bnG2.inv(fromInt(9, 1)))
}

func (c *curve) mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, c.p) }
func (c *curve) add(x, y fe) fe {
	return fe{c.mod(new(big.Int).Add(x.a, y.a)), c.mod(new(big.Int).Add(x.b, y.b))}
}

func (c *curve) sub(x, y fe) fe {
	return fe{c.mod(new(big.Int).Sub(x.a, y.a)), c.mod(new(big.Int).Sub(x.b, y.b))}
}

func (c *curve) mul(x, y fe) fe {
	ac, bd := new(big.Int).Mul(x.a, y.a), new(big.Int).Mul(x.b, y.b)
	ad, bc := new(big.Int).Mul(x.a, y.b), new(big.Int).Mul(x.b, y.a)
	return fe{c.mod(ac.Sub(ac, bd)), c.mod(ad.Add(ad, bc))}
}

func (c *curve) inv(x fe) fe {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.ModInverse(c.mod(n), c.p)
	return fe{c.mod(new(big.Int).Mul(x.a, n)), c.mod(new(big.Int).Neg(new(big.Int).Mul(x.b, n)))}
}

func (x fe) zero() bool      { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func (x fe) equal(y fe) bool { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }

// root is a square root of x, if there is one
func (c *curve) root(x fe) (fe, bool) {
	if !c.ext {
		s := new(big.Int).ModSqrt(x.a, c.p)
		return fe{s, new(big.Int)}, s != nil
	}
	if x.b.Sign() == 0 {
		if s := new(big.Int).ModSqrt(x.a, c.p); s != nil {
			return fe{s, new(big.Int)}, true
		}
		s := new(big.Int).ModSqrt(c.mod(new(big.Int).Neg(x.a)), c.p)
		return fe{new(big.Int), s}, s != nil
	}
	n := c.mod(new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b)))
	s := new(big.Int).ModSqrt(n, c.p)
	if s == nil {
		return fe{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), c.p)
	t := c.mod(new(big.Int).Mul(new(big.Int).Add(x.a, s), half))
	u := new(big.Int).ModSqrt(t, c.p)
	if u == nil {
		t = c.mod(new(big.Int).Mul(new(big.Int).Sub(x.a, s), half))
		u = new(big.Int).ModSqrt(t, c.p)
	}
	v := c.mod(new(big.Int).Mul(new(big.Int).Mul(x.b, half), new(big.Int).ModInverse(u, c.p)))
	y := fe{u, v}
	if !c.mul(y, y).equal(x) {
		panic("square root")
	}
	return y, true
}

type point struct {
	x, y fe
	inf  bool
}

func (c *curve) rhs(x fe) fe { return c.add(c.mul(c.mul(x, x), x), c.b) }

func (c *curve) on(p point) bool { return p.inf || c.mul(p.y, p.y).equal(c.rhs(p.x)) }

func (c *curve) plus(p, q point) point {
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l fe
	if p.x.equal(q.x) {
		if !p.y.equal(q.y) || p.y.zero() {
			return point{inf: true}
		}
		l = c.mul(c.mul(fromInt(3, 0), c.mul(p.x, p.x)), c.inv(c.add(p.y, p.y)))
	} else {
		l = c.mul(c.sub(q.y, p.y), c.inv(c.sub(q.x, p.x)))
	}
	x := c.sub(c.sub(c.mul(l, l), p.x), q.x)
	return point{x: x, y: c.sub(c.mul(l, c.sub(p.x, x)), p.y)}
}

func (c *curve) times(p point, k *big.Int) point {
	r := point{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.plus(r, r)
		if k.Bit(i) == 1 {
			r = c.plus(r, p)
		}
	}
	return r
}

func (c *curve) inGroup(p point) bool { return c.on(p) && c.times(p, c.r).inf }

// compressed points of the BLS curves: is b the encoding of a group element?
func (c *curve) compressedOK(b []byte) bool {
	if b[0]&0x80 == 0 {
		return false
	}
	d := append([]byte{}, b...)
	d[0] &= 0x1f
	if b[0]&0x40 != 0 {
		for _, x := range d {
			if x != 0 {
				return false
			}
		}
		return b[0]&0x20 == 0
	}
	x := fe{new(big.Int), new(big.Int)}
	if c.ext {
		x.b.SetBytes(d[:48])
		x.a.SetBytes(d[48:])
	} else {
		x.a.SetBytes(d)
	}
	if x.a.Cmp(c.p) >= 0 || x.b.Cmp(c.p) >= 0 {
		return false
	}
	y, ok := c.root(c.rhs(x))
	return ok && c.inGroup(point{x: x, y: y})
}

// plain points of the BN curves
func (c *curve) plainOK(b []byte) bool {
	var v []*big.Int
	zero := true
	for i := 0; i < len(b); i += 32 {
		n := new(big.Int).SetBytes(b[i : i+32])
		if n.Cmp(c.p) >= 0 {
			return false
		}
		zero = zero && n.Sign() == 0
		v = append(v, n)
	}
	if zero {
		return true
	}
	if c.ext {
		return c.inGroup(point{x: fe{v[1], v[0]}, y: fe{v[3], v[2]}})
	}
	return c.inGroup(point{x: fe{v[0], new(big.Int)}, y: fe{v[1], new(big.Int)}})
}
