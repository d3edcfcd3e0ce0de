package main

import (
	"math/big"

	"github.com/ZZMarquis/gm/util"

	"pgregory.net/rapid"
)

type bigCase struct {
	Op   string
	X, Y *big.Int
	N    int
	B    uint
	Same bool // pass the same *big.Int for both
	Dest bool // values share the backing array of another number
}

var bigOps = []string{"add", "sub", "mul", "mod", "modinverse", "lsh", "setbit", "and", "inf", "z"}

func genBig(t *rapid.T) bigCase {
	c := bigCase{Op: rapid.SampledFrom(bigOps).Draw(t, "op"), X: genInt(t, "x", pick(t, "xbits", 520, 520, 520, 1100, 4500)), Y: genInt(t, "y", pick(t, "ybits", 520, 520, 520, 1100, 4500))}
	switch c.Op {
	case "mod":
		if c.Y.Sign() == 0 {
			c.Y = i64(1)
		}
		if coin(t, "mult", 1, 4) {
			c.X = bmul(c.Y, genInt(t, "f", 80))
		}
	case "modinverse":
		if coin(t, "n", 1, 3) {
			c.Y = new(big.Int).Set(pick(t, "m", nM1, nM2, badd(nM1, bigOne)))
		}
		c.Y.Abs(c.Y)
		if c.Y.Cmp(bigOne) <= 0 {
			c.Y = i64(2)
		}
	case "lsh":
		c.N = pick(t, "sh", 0, 1, 31, 32, 63, 64, 65, 128, 1000, intR(t, "any", 0, 600), pick(t, "far", 4095, 4096, 65535, 65536, 65537, 131072, intR(t, "more", 600, 300000)))
	case "setbit":
		c.N = pick(t, "bit", 0, 1, 63, 64, 65, 255, 256, intR(t, "any", 0, 600), intR(t, "more", 600, 5000))
		c.B = uint(intR(t, "b", 0, 1))
	case "inf", "z":
		if coin(t, "x0", 1, 2) {
			c.X = i64(0)
		}
		if coin(t, "y0", 1, 2) {
			c.Y = i64(0)
		}
	}
	if coin(t, "same", 1, 4) && c.Op != "modinverse" && !(c.Op == "mod" && c.X.Sign() == 0) {
		c.Same, c.Y = true, c.X
	}
	return c
}

func bitsTwos(n *big.Int, i int) uint { // bit i of the two's complement form
	if n.Sign() >= 0 {
		return n.Bit(i)
	}
	m := bsub(new(big.Int).Neg(n), bigOne)
	return 1 - m.Bit(i)
}

func fromTwos(bit func(i int) uint, n int) *big.Int {
	v := new(big.Int)
	for i := 0; i < n; i++ {
		if bit(i) == 1 {
			v.Add(v, new(big.Int).Lsh(bigOne, uint(i)))
		}
	}
	if bit(n) == 1 {
		v.Sub(v, new(big.Int).Lsh(bigOne, uint(n)))
	}
	return v
}

func runBig(r *Rec, c bigCase) error {
	x, y := new(big.Int).Set(c.X), new(big.Int).Set(c.Y)
	if c.Same {
		y = x
	}
	var z, want *big.Int
	switch c.Op {
	case "add":
		z, want = util.Add(x, y), bsub(c.X, new(big.Int).Neg(c.Y))
	case "sub":
		z, want = util.Sub(x, y), badd(c.X, new(big.Int).Neg(c.Y))
	case "mul":
		z = util.Mul(x, y)
		want = new(big.Int) // schoolbook over bits of |y|
		ay, ax := new(big.Int).Abs(c.Y), new(big.Int).Abs(c.X)
		for i := ay.BitLen() - 1; i >= 0; i-- {
			want.Lsh(want, 1)
			if ay.Bit(i) == 1 {
				want.Add(want, ax)
			}
		}
		if c.X.Sign()*c.Y.Sign() < 0 {
			want.Neg(want)
		}
	case "mod":
		z = util.Mod(x, y)
		if z.Sign() < 0 || z.CmpAbs(c.Y) >= 0 {
			return fail("Mod(%v, %v) = %v is not in [0, |y|)", c.X, c.Y, z)
		}
		q, rem := new(big.Int).QuoRem(bsub(c.X, z), c.Y, new(big.Int))
		_ = q
		if rem.Sign() != 0 {
			return fail("Mod(%v, %v) = %v is not congruent to x", c.X, c.Y, z)
		}
		want = z
	case "modinverse":
		g := new(big.Int).GCD(nil, nil, bmod(c.X, c.Y), c.Y)
		z = util.ModInverse(x, y)
		if g.Cmp(bigOne) != 0 {
			r.Class("no inverse")
			want = z
			break
		}
		if z == nil || z.Sign() < 0 || z.Cmp(c.Y) >= 0 || bmod(bmul(z, c.X), c.Y).Cmp(bigOne) != 0 {
			return fail("ModInverse(%v, %v) = %v", c.X, c.Y, z)
		}
		want = z
	case "lsh":
		z = util.Lsh(x, uint(c.N))
		want = bmul(c.X, new(big.Int).Exp(bigTwo, i64(int64(c.N)), nil))
	case "setbit":
		z = util.SetBit(x, c.N, c.B)
		n := max(c.X.BitLen(), c.N+1) + 1
		want = fromTwos(func(i int) uint {
			if i == c.N {
				return c.B
			}
			return bitsTwos(c.X, i)
		}, n)
	case "and":
		z = util.And(x, y)
		n := max(c.X.BitLen(), c.Y.BitLen()) + 1
		want = fromTwos(func(i int) uint { return bitsTwos(c.X, i) & bitsTwos(c.Y, i) }, n)
	case "inf":
		if got := util.IsEcPointInfinity(x, y); got != (c.X.BitLen() == 0 && c.Y.BitLen() == 0) {
			return fail("IsEcPointInfinity(%v, %v) = %v", c.X, c.Y, got)
		}
	case "z":
		z, want = util.ZForAffine(x, y), i64(1)
		if c.X.BitLen() == 0 && c.Y.BitLen() == 0 {
			want = i64(0)
		}
	}
	r.Class("%s same=%v", c.Op, c.Same)
	if c.X.Sign() != 0 || c.Y.Sign() != 0 {
		r.NT()
	}
	if want != nil && z == nil || want != nil && z.Cmp(want) != 0 {
		return fail("%s(%v, %v, %d, %d) = %v, must be %v", c.Op, c.X, c.Y, c.N, c.B, z, want)
	}
	if x.Cmp(c.X) != 0 || y.Cmp(c.Y) != 0 {
		return fail("%s changes its arguments", c.Op)
	}
	if z != nil {
		if z == x || z == y {
			return fail("%s returns one of its arguments", c.Op)
		}
		// the result is a number of its own
		keep := new(big.Int).Set(z)
		for i := range x.Bits() {
			x.Bits()[i] ^= 0x55
		}
		x.Add(x, bigOne)
		y.Sub(y, bigTwo)
		if z.Cmp(keep) != 0 {
			return fail("the result of %s changes with its arguments", c.Op)
		}
		x, y := new(big.Int).Set(c.X), new(big.Int).Set(c.Y)
		if err := againInts(c.Op, func() []*big.Int {
			switch c.Op {
			case "add":
				return []*big.Int{util.Add(x, y)}
			case "sub":
				return []*big.Int{util.Sub(x, y)}
			case "mul":
				return []*big.Int{util.Mul(x, y)}
			case "mod":
				return []*big.Int{util.Mod(x, y)}
			case "modinverse":
				return []*big.Int{util.ModInverse(x, y)}
			case "lsh":
				return []*big.Int{util.Lsh(x, uint(c.N))}
			case "setbit":
				return []*big.Int{util.SetBit(x, c.N, c.B)}
			case "and":
				return []*big.Int{util.And(x, y)}
			}
			return []*big.Int{util.ZForAffine(x, y)}
		}); err != nil {
			return err
		}
		if x.Cmp(c.X) != 0 || y.Cmp(c.Y) != 0 {
			return fail("changing the result of %s changes its arguments", c.Op)
		}
	}
	return nil
}

func init() {
	register("P42", NewSub("bigint", "one helper on integers of either sign up to 520 bits, near powers of two, zero, equal or the same object; non-trivial: not both zero",
		800000, 8000000, genBig, runBig))
}
