package main

import (
	"bytes"
	"fmt"
	"math/big"
	"slices"
	"strconv"

	"gmverif/ref"

	"pgregory.net/rapid"
)

func itoa(n int) string { return strconv.Itoa(n) }
func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

var (
	bigOne = big.NewInt(1)
	bigTwo = big.NewInt(2)
	nM1    = new(big.Int).Sub(ref.N, bigOne)
	nM2    = new(big.Int).Sub(ref.N, bigTwo)
)

func i64(n int64) *big.Int                        { return big.NewInt(n) }
func badd(a, b *big.Int) *big.Int                 { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int                 { return new(big.Int).Sub(a, b) }
func bmul(a, b *big.Int) *big.Int                 { return new(big.Int).Mul(a, b) }
func bmod(a, m *big.Int) *big.Int                 { return new(big.Int).Mod(a, m) }
func binv(a, m *big.Int) *big.Int                 { return new(big.Int).ModInverse(a, m) }
func b32(n *big.Int) []byte                       { b := make([]byte, 32); n.FillBytes(b); return b }
func pick[T any](t *rapid.T, l string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, l) }
func coin(t *rapid.T, l string, num, den int) bool {
	return rapid.IntRange(1, den).Draw(t, l) > den-num
}
func intR0(t *rapid.T, l string, a, b int) int { return rapid.IntRange(a, b).Draw(t, l) }

// intR draws a number from a to b.
func intR(t *rapid.T, l string, a, b int) int {
	if n, ok := dictInt(t, l, a, b); ok {
		return n
	}
	return intR0(t, l, a, b)
}

// manyR draws a count from a to b, rarely a large one.
func manyR(t *rapid.T, l string, a, b int) int {
	if n, ok := dictLen(t, l, b, 70); ok {
		return max(a, n)
	}
	if coin(t, l+".many", 1, 30) {
		return pick(t, l+".manyn", 9, 10, 11, 12, 16, 17, 20, 25, 31, 32, 33, 40)
	}
	return intR(t, l, a, b)
}

func u64(t *rapid.T, l string) uint64 { return rapid.Uint64().Draw(t, l) }

// genLen draws a length up to max, biased to small values, to the neighbourhood
// of multiples of the given periods and to max itself.
func genLen(t *rapid.T, l string, max int, periods ...int) int {
	return genLenBeyond(t, l, max, max, periods...)
}

// genLenBeyond draws lengths up to beyond where the dictionary has them.
func genLenBeyond(t *rapid.T, l string, max, beyond int, periods ...int) int {
	if n, ok := dictLen(t, l, max, beyond); ok {
		return n
	}
	k := intR(t, l+".kind", 0, 3)
	n := 0
	switch {
	case k == 0:
		n = intR(t, l+".small", 0, min(max, 20))
	case k <= 2 && len(periods) > 0:
		p := pick(t, l+".period", periods...)
		n = p*intR(t, l+".mult", 0, max/p) + intR(t, l+".off", -10, 10)
	default:
		n = intR(t, l+".any", 0, max)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

// genFill draws n bytes of several textures.
func genFill(t *rapid.T, l string, n int) []byte {
	b := make([]byte, n)
	switch intR(t, l+".fill", 0, 4) {
	case 0:
		c := pick(t, l+".c", byte(0), byte(0xff), byte(0x80), byte(1))
		for i := range b {
			b[i] = c
		}
	case 1:
		for i := range b {
			b[i] = byte(i)
		}
	default:
		prng(u64(t, l+".seed")).Read(b)
	}
	dictFill(t, l, b)
	return b
}

// genRelated draws bytes that share much with a: equal, a prefix or suffix in
// common, one byte or bit different, words exchanged, rotated, complemented.
func genRelated(t *rapid.T, l string, a []byte) []byte {
	b := append([]byte{}, a...)
	n := len(b)
	if n == 0 {
		return b
	}
	switch intR(t, l+".rel", 0, 8) {
	case 0:
	case 1:
		b[intR(t, l+".pos", 0, n-1)] ^= byte(intR(t, l+".xor", 1, 255))
	case 2:
		b[intR(t, l+".pos", 0, n-1)] ^= 1 << intR(t, l+".bit", 0, 7)
	case 3: // common prefix
		randomise(t, l, b[intR(t, l+".pos", 0, n-1):])
	case 4: // common suffix
		randomise(t, l, b[:intR(t, l+".pos", 1, n)])
	case 5: // exchange two words
		w := pick(t, l+".w", 1, 2, 4, 8)
		if n >= 2*w {
			i, j := w*intR(t, l+".i", 0, n/w-1), w*intR(t, l+".j", 0, n/w-1)
			for k := 0; k < w; k++ {
				b[i+k], b[j+k] = b[j+k], b[i+k]
			}
		}
	case 6: // rotate
		k := intR(t, l+".rot", 0, n-1)
		b = append(append([]byte{}, b[k:]...), b[:k]...)
	case 7: // complement
		for i := range b {
			b[i] ^= 0xff
		}
	default: // differences that cancel out in a sum or xor
		i, j, x := intR(t, l+".i", 0, n-1), intR(t, l+".j", 0, n-1), byte(intR(t, l+".xor", 1, 255))
		if coin(t, l+".add", 1, 2) {
			b[i] += x
			b[j] -= x
		} else {
			b[i] ^= x
			b[j] ^= x
		}
	}
	return b
}

// genRelatedWords draws bytes that share whole words with a, at one end or
// anywhere, or are related otherwise.
func genRelatedWords(t *rapid.T, l string, a []byte) []byte {
	b := append([]byte{}, a...)
	w := pick(t, l+".words", 0, 1, 2, 4, 8, 16)
	n := len(b)
	if w == 0 || n <= w {
		return genRelated(t, l, a)
	}
	switch intR(t, l+".end", 0, 3) {
	case 0:
		randomise(t, l, b[w:])
	case 1:
		randomise(t, l, b[:n-w])
	case 2:
		if n > 2*w {
			randomise(t, l, b[w:n-w])
		}
	default:
		i := intR(t, l+".at", 0, n-w)
		randomise(t, l, b[i:i+w])
	}
	return b
}

func randomise(t *rapid.T, l string, b []byte) {
	prng(u64(t, l+".rseed")).Read(b)
}

// relateBlocks rewrites some of the blocks of d so that they resemble earlier ones.
func relateBlocks(t *rapid.T, l string, d []byte, bs int) {
	n := len(d) / bs
	for k, m := 0, intR(t, l+".nrel", 0, 4); k < m && n > 1; k++ {
		i := intR(t, l+".blk", 1, n-1)
		j := i - 1
		if coin(t, l+".far", 1, 3) {
			j = intR(t, l+".src", 0, i-1)
		}
		copy(d[i*bs:(i+1)*bs], genRelated(t, l, d[j*bs:(j+1)*bs]))
	}
}

func genBytes(t *rapid.T, l string, max int, periods ...int) HB {
	return HB(genFill(t, l, genLenBeyond(t, l, max, 8000, periods...)))
}

// smallCoord lists scalars u whose point uG has leading zero bytes in x or y.
var smallCoord = smallCoordTable

// genScalar draws an integer in [1, n-1-top] of many shapes.
func genScalar(t *rapid.T, l string, top int64) *big.Int {
	hi := bsub(nM1, i64(top))
	if v := dictBig(t, l); v != nil {
		return clampScalar(v, hi)
	}
	var d *big.Int
	switch intR(t, l+".kind", 0, 9) {
	case 0:
		d = i64(int64(intR(t, l+".small", 1, 300)))
	case 1:
		d = bsub(hi, i64(int64(intR(t, l+".top", 0, 300))))
	case 2: // leading zero bytes
		b := genFill(t, l, 32-intR(t, l+".zeros", 1, 31))
		d = new(big.Int).SetBytes(b)
	case 3:
		d = pick(t, l+".tab", smallCoord...).U()
	case 4: // one bit, or all ones
		d = new(big.Int).Lsh(bigOne, uint(intR(t, l+".bit", 0, 255)))
		if coin(t, l+".m1", 1, 2) {
			d.Sub(d, bigOne)
		}
	case 5: // top bit set / trailing zeros
		b := genFill(t, l, 32)
		for i := 31; i > 31-intR(t, l+".tz", 1, 16); i-- {
			b[i] = 0
		}
		d = new(big.Int).SetBytes(b)
	default:
		d = new(big.Int).SetBytes(randBytes(u64(t, l+".seed"), 32))
	}
	return clampScalar(d, hi)
}

func clampScalar(d, hi *big.Int) *big.Int {
	if d.Sign() <= 0 {
		return i64(1)
	}
	if d.Cmp(hi) > 0 {
		d = badd(bmod(d, hi), bigOne) // 1..hi
	}
	return d
}

// seedScalar expands a seed to a scalar in [1, n-2].
func seedScalar(seed uint64) *big.Int {
	return clampScalar(new(big.Int).SetBytes(randBytes(seed^0xA5A5A5A5, 32)), nM2)
}

// genID draws a user identity: nil, empty, the default, near-default, any.
func genID(t *rapid.T, l string) HB {
	switch intR(t, l+".kind", 0, 7) {
	case 0:
		return nil
	case 1:
		return HB{}
	case 2:
		return HB(append([]byte{}, ref.DefaultID...))
	case 3:
		b := append([]byte{}, ref.DefaultID...)
		switch intR(t, l+".near", 0, 2) {
		case 0:
			b = b[:intR(t, l+".cut", 0, 15)]
		case 1:
			b = append(b, byte(intR(t, l+".ext", 0, 255)))
		default:
			b[intR(t, l+".pos", 0, 15)] ^= byte(1 << intR(t, l+".bit", 0, 7))
		}
		return HB(b)
	case 4:
		// bit lengths that overflow one byte, or approach 16 bits
		return HB(genFill(t, l, pick(t, l+".len", 31, 32, 33, 255, 256, 257, 1023, 4095, 4096, 8190, 8191)))
	default:
		return genBytes(t, l, 200, 16)
	}
}

// idOf is the identity the signature functions use for a caller's identity.
func idOf(id HB) []byte {
	if id == nil {
		return ref.DefaultID
	}
	return id
}

func genMsg(t *rapid.T, l string, max int) HB {
	if coin(t, l+".empty", 1, 12) {
		if coin(t, l+".nil", 1, 2) {
			return nil
		}
		return HB{}
	}
	return HB(genFill(t, l, genLenBeyond(t, l, max, 70000, 64, 32)))
}

// SmallPoint is a scalar whose point has leading zero bytes in a coordinate.
type SmallPoint struct {
	Hex    string
	ZX, ZY int // number of leading zero bytes
}

func (s SmallPoint) U() *big.Int {
	n, ok := new(big.Int).SetString(s.Hex, 16)
	if !ok {
		bug("bad table")
	}
	return n
}

// ZeroMask is a scalar whose point gives a key stream starting with N zero bytes.
type ZeroMask struct {
	Hex string
	N   int
}

func (m ZeroMask) U() *big.Int { return SmallPoint{Hex: m.Hex}.U() }

// points with at least z leading zero bytes in x (or in y)
func tableWith(zx, zy int) (r []SmallPoint) {
	for _, s := range smallCoord {
		if s.ZX >= zx && s.ZY >= zy {
			r = append(r, s)
		}
	}
	return
}

// guard is a copy of a byte string inside a larger buffer whose surroundings
// are filled with a pattern, to notice writes outside (or inside) it.
type guard struct {
	buf, orig []byte
	off, n    int
}

func newGuard(b []byte, spare int) *guard {
	g := &guard{off: 8, n: len(b)}
	g.buf = make([]byte, 8+len(b)+spare)
	for i := range g.buf {
		g.buf[i] = byte(0xC3 ^ i)
	}
	copy(g.buf[8:], b)
	g.orig = append([]byte{}, g.buf...)
	return g
}

// b is the guarded slice, with the spare capacity behind it.
func (g *guard) b() []byte { return g.buf[g.off : g.off+g.n] }

func (g *guard) check(what string) error {
	for i := range g.buf {
		if g.buf[i] != g.orig[i] {
			if i >= g.off+g.n {
				return fail("%s: byte %d after the caller's slice (length %d) was overwritten", what, i-g.off-g.n, g.n)
			}
			return fail("%s: byte %d of the caller's slice was changed", what, i-g.off)
		}
	}
	return nil
}

// flipBits changes one bit of b at a drawn position.
// alterValue draws a change of a check value: one that a comparison by sum,
// exclusive or, words, order-insensitive or partial would not see.
func alterValue(t *rapid.T, l string, b []byte) []byte {
	o := append([]byte{}, b...)
	n := len(o)
	i := intR(t, l+".i", 0, n-1)
	j := (i + pick(t, l+".dist", 1, 4, 8, 16, n-1, intR(t, l+".any", 1, n-1))) % n
	x := byte(1) << intR(t, l+".bit", 0, 7)
	switch intR(t, l+".how", 0, 9) {
	case 0: // cancels in an exclusive or
		o[i], o[j] = o[i]^x, o[j]^x
	case 1: // cancels in a sum of the bytes
		o[i], o[j] = o[i]+x, o[j]-x
	case 2: // differences whose sum, byte by byte, is 256
		o[i], o[j] = o[i]^0x80, o[j]^0x80
	case 3:
		y := byte(intR(t, l+".mask", 1, 255))
		o[i], o[j] = o[i]^y, o[j]^-y
	case 4:
		o[i], o[j] = o[j], o[i]
	case 5:
		slices.Reverse(o)
	case 6:
		o = append(o[i:], o[:i]...)
	case 7:
		for k := range o {
			o[k] ^= x
		}
	case 8: // everything but one byte, or everything behind one byte
		keep := intR(t, l+".keep", 0, 2)
		for k := range o {
			if keep == 0 && k != i || keep == 1 && k > i || keep == 2 && k < i {
				o[k] ^= byte(intR(t, l+".x", 1, 255))
			}
		}
	default:
		o[i] ^= byte(intR(t, l+".x", 1, 255))
	}
	return o
}

func flipBit(b []byte, bit int) []byte {
	o := append([]byte{}, b...)
	o[bit/8] ^= 0x80 >> (bit % 8)
	return o
}

func hexs(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// again: what the library returned is the caller's. Overwriting it, spare
// capacity included, must not change what the same call gives the next time.
func again(what string, f func() []byte) error {
	a := f()
	keep := append([]byte{}, a...)
	for i := range a[:cap(a)] {
		a[:cap(a)][i] ^= 0xA5
	}
	if b := f(); !bytes.Equal(b, keep) {
		return fail("%s gives %s, and after the caller overwrote that %s", what, hexs(keep), hexs(b))
	}
	return nil
}

func againInts(what string, f func() []*big.Int) error {
	a := f()
	keep := make([]*big.Int, len(a))
	for i, v := range a {
		if v != nil {
			keep[i] = new(big.Int).Set(v)
		}
	}
	for _, v := range a {
		if v != nil {
			for i := range v.Bits() {
				v.Bits()[i] ^= 0x5A
			}
			v.SetInt64(77)
		}
	}
	for i, v := range f() {
		if (v == nil) != (keep[i] == nil) || v != nil && v.Cmp(keep[i]) != 0 {
			return fail("%s gives %x, and after the caller changed that %x", what, keep[i], v)
		}
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}
