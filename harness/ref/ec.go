package ref

import (
	"math/big"
	"math/bits"
)

func hx(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

// sm2p256v1, GB/T 32918.5-2017.
var (
	P   = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	A   = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	B   = hx("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	N   = hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	Gx  = hx("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	Gy  = hx("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")
	one = big.NewInt(1)
)

// Pt is an affine point; Inf marks the point at infinity.
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

var G = Pt{X: Gx, Y: Gy}

func (p Pt) Equal(q Pt) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// OnCurve reports whether 0 <= x,y < P and the curve equation holds.
func OnCurve(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Add(r, A).Mul(r, x).Add(r, B)
	return l.Sub(l, r).Mod(l, P).Sign() == 0
}

// LiftX returns a y with (x, y) on the curve, or nil.
func LiftX(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Add(r, A).Mul(r, x).Add(r, B).Mod(r, P)
	return new(big.Int).ModSqrt(r, P)
}

// fe is a field element in Montgomery form.
type fe [4]uint64

var (
	feP    fe
	feOne  fe // R mod P
	feRR   fe // R^2 mod P
	feA    fe
	feNinv uint64 // -P^-1 mod 2^64
)

func limbs(n *big.Int) (r fe) {
	var b [32]byte
	n.FillBytes(b[:])
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[i] |= uint64(b[31-8*i-j]) << (8 * j)
		}
	}
	return
}

func (a fe) big() *big.Int {
	var b [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			b[31-8*i-j] = byte(a[i] >> (8 * j))
		}
	}
	return new(big.Int).SetBytes(b[:])
}

func init() {
	feP = limbs(P)
	r := new(big.Int).Lsh(one, 256)
	feOne = limbs(new(big.Int).Mod(r, P))
	feRR = limbs(new(big.Int).Mod(new(big.Int).Mul(r, r), P))
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - feP[0]*inv
	}
	feNinv = -inv
	feA = toMont(A)
	initBase()
}

func toMont(n *big.Int) fe { return mul(limbs(n), feRR) }
func (a fe) out() *big.Int { return mul(a, fe{1}).big() }
func (a fe) zero() bool    { return a[0]|a[1]|a[2]|a[3] == 0 }

func condSub(t fe, c uint64) fe {
	var s fe
	var b uint64
	s[0], b = bits.Sub64(t[0], feP[0], 0)
	s[1], b = bits.Sub64(t[1], feP[1], b)
	s[2], b = bits.Sub64(t[2], feP[2], b)
	s[3], b = bits.Sub64(t[3], feP[3], b)
	if c == 0 && b == 1 {
		return t
	}
	return s
}

func add(a, b fe) fe {
	var t fe
	var c uint64
	t[0], c = bits.Add64(a[0], b[0], 0)
	t[1], c = bits.Add64(a[1], b[1], c)
	t[2], c = bits.Add64(a[2], b[2], c)
	t[3], c = bits.Add64(a[3], b[3], c)
	return condSub(t, c)
}

func sub(a, b fe) fe {
	var t fe
	var c uint64
	t[0], c = bits.Sub64(a[0], b[0], 0)
	t[1], c = bits.Sub64(a[1], b[1], c)
	t[2], c = bits.Sub64(a[2], b[2], c)
	t[3], c = bits.Sub64(a[3], b[3], c)
	if c != 0 {
		t[0], c = bits.Add64(t[0], feP[0], 0)
		t[1], c = bits.Add64(t[1], feP[1], c)
		t[2], c = bits.Add64(t[2], feP[2], c)
		t[3], _ = bits.Add64(t[3], feP[3], c)
	}
	return t
}

func mul(a, b fe) fe {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c, hi, lo, cc uint64
		for j := 0; j < 4; j++ {
			hi, lo = bits.Mul64(a[j], b[i])
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j], c = lo, hi
		}
		t[4], cc = bits.Add64(t[4], c, 0)
		t[5] = cc
		m := t[0] * feNinv
		hi, lo = bits.Mul64(m, feP[0])
		_, cc = bits.Add64(lo, t[0], 0)
		c = hi + cc
		for j := 1; j < 4; j++ {
			hi, lo = bits.Mul64(m, feP[j])
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j-1], c = lo, hi
		}
		t[3], cc = bits.Add64(t[4], c, 0)
		t[4] = t[5] + cc
	}
	return condSub(fe{t[0], t[1], t[2], t[3]}, t[4])
}

func feinv(a fe) fe {
	e := new(big.Int).Sub(P, big.NewInt(2))
	r := feOne
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = mul(r, r)
		if e.Bit(i) == 1 {
			r = mul(r, a)
		}
	}
	return r
}

// jac is a Jacobian point; z = 0 is infinity.
type jac struct{ x, y, z fe }

func toJac(p Pt) jac {
	if p.Inf {
		return jac{feOne, feOne, fe{}}
	}
	return jac{toMont(p.X), toMont(p.Y), feOne}
}

func (p jac) affine() Pt {
	if p.z.zero() {
		return Pt{Inf: true}
	}
	zi := feinv(p.z)
	z2 := mul(zi, zi)
	return Pt{X: mul(p.x, z2).out(), Y: mul(p.y, mul(z2, zi)).out()}
}

func (p jac) dbl() jac { // generic a
	if p.z.zero() || p.y.zero() {
		return jac{feOne, feOne, fe{}}
	}
	yy := mul(p.y, p.y)
	s := mul(p.x, yy)
	s = add(s, s)
	s = add(s, s)
	xx := mul(p.x, p.x)
	zz := mul(p.z, p.z)
	m := add(add(xx, xx), add(xx, mul(feA, mul(zz, zz))))
	x := sub(mul(m, m), add(s, s))
	y4 := mul(yy, yy)
	y4 = add(y4, y4)
	y4 = add(y4, y4)
	y4 = add(y4, y4)
	y := sub(mul(m, sub(s, x)), y4)
	z := mul(p.y, p.z)
	return jac{x, y, add(z, z)}
}

func (p jac) add(q jac) jac {
	if p.z.zero() {
		return q
	}
	if q.z.zero() {
		return p
	}
	z1z1 := mul(p.z, p.z)
	z2z2 := mul(q.z, q.z)
	u1 := mul(p.x, z2z2)
	u2 := mul(q.x, z1z1)
	s1 := mul(p.y, mul(q.z, z2z2))
	s2 := mul(q.y, mul(p.z, z1z1))
	h := sub(u2, u1)
	r := sub(s2, s1)
	if h.zero() {
		if r.zero() {
			return p.dbl()
		}
		return jac{feOne, feOne, fe{}}
	}
	hh := mul(h, h)
	hhh := mul(h, hh)
	v := mul(u1, hh)
	x := sub(sub(mul(r, r), hhh), add(v, v))
	y := sub(mul(r, sub(v, x)), mul(s1, hhh))
	return jac{x, y, mul(mul(p.z, q.z), h)}
}

var baseTab [64][16]jac

func initBase() {
	g := toJac(G)
	for i := range baseTab {
		baseTab[i][0] = jac{feOne, feOne, fe{}}
		for j := 1; j < 16; j++ {
			baseTab[i][j] = baseTab[i][j-1].add(g)
		}
		for k := 0; k < 4; k++ {
			g = g.dbl()
		}
	}
}

// MulG returns k*G; k may be any integer.
func MulG(k *big.Int) Pt {
	var b [32]byte
	new(big.Int).Mod(k, N).FillBytes(b[:])
	r := jac{feOne, feOne, fe{}}
	for i := 0; i < 32; i++ {
		r = r.add(baseTab[2*i][b[31-i]&15])
		r = r.add(baseTab[2*i+1][b[31-i]>>4])
	}
	return r.affine()
}

// Mul returns k*p; k may be any integer.
func Mul(p Pt, k *big.Int) Pt {
	var b [32]byte
	new(big.Int).Mod(k, N).FillBytes(b[:])
	var tab [16]jac
	tab[0] = jac{feOne, feOne, fe{}}
	q := toJac(p)
	for i := 1; i < 16; i++ {
		tab[i] = tab[i-1].add(q)
	}
	r := tab[0]
	for _, c := range b {
		r = r.dbl().dbl().dbl().dbl().add(tab[c>>4])
		r = r.dbl().dbl().dbl().dbl().add(tab[c&15])
	}
	return r.affine()
}

// AddPt returns p+q.
func AddPt(p, q Pt) Pt { return toJac(p).add(toJac(q)).affine() }

// Neg returns -p.
func Neg(p Pt) Pt {
	if p.Inf {
		return p
	}
	return Pt{X: p.X, Y: new(big.Int).Mod(new(big.Int).Neg(p.Y), P)}
}
