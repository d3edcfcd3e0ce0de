package main

import (
	"bytes"
	"io"
	"math/big"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"

	"pgregory.net/rapid"
)

func lay(n int) sm2.Sm2CipherTextType { return sm2.Sm2CipherTextType(n) }

// ---- P15 ----

type encCase struct {
	D      *big.Int // recipient
	K      *big.Int // steered ephemeral scalar, or nil
	M      HB
	Layout int
	E      Entropy
}

// genKU draws a recipient d and an ephemeral scalar k, often so that k*G or
// d*k*G has a coordinate with leading zero bytes, or the key stream starts
// with zero bytes.
func genKU(t *rapid.T) (d, k *big.Int) {
	d = genScalar(t, "d", 0)
	switch intR(t, "ku", 0, 5) {
	case 5: // the key stream starts with zero bytes
		k = bmod(bmul(pick(t, "um", zeroMaskTable...).U(), binv(d, ref.N)), ref.N)
	case 0: // shared point = u*G with u from the table
		u := pick(t, "u", smallCoord...).U()
		k = bmod(bmul(u, binv(d, ref.N)), ref.N)
	case 1:
		k = pick(t, "u", smallCoord...).U()
	case 2: // extreme shared points
		u := pick(t, "ux", i64(1), i64(2), nM1, nM2)
		k = bmod(bmul(u, binv(d, ref.N)), ref.N)
	default:
		k = genScalar(t, "k", 0)
	}
	return
}

func genPlain(t *rapid.T, max int) HB {
	if coin(t, "one", 1, 8) {
		return HB{byte(intR(t, "byte", 0, 255))}
	}
	return genMsg(t, "m", max)
}

// shapePlain sometimes changes a plaintext so that its ciphertext under the
// ephemeral scalar k is the given plaintext, zeros or ones instead, or cuts it
// down to the length of the zero bytes the key stream starts with.
func shapePlain(t *rapid.T, d, k *big.Int, m HB) HB {
	switch intR(t, "shape", 0, 9) {
	case 0, 1, 2:
		if len(m) == 0 {
			break
		}
		c2 := append(HB{}, m...)
		if coin(t, "shape.const", 1, 2) {
			c2 = bytes.Repeat(HB{pick(t, "shape.b", byte(0), 0, 0xff, 4, 0x30)}, len(m))
			if coin(t, "shape.tail", 1, 2) {
				copy(c2[intR(t, "shape.at", 0, len(m)-1):], m)
			}
		}
		for i, b := range ref.Mask(ref.MulG(d), k, len(m)) {
			c2[i] ^= b
		}
		return c2
	case 3, 4:
		n := 0
		for _, b := range ref.Mask(ref.MulG(d), k, 8) {
			if b != 0 {
				break
			}
			n++
		}
		if n += intR(t, "shape.more", 0, 1); n > 0 && n < len(m) {
			return m[:n]
		}
	}
	return m
}

func genEnc(t *rapid.T) encCase {
	c := encCase{M: genPlain(t, 400), Layout: intR(t, "layout", 1, 2)}
	c.D, c.K = genKU(t)
	c.M = shapePlain(t, c.D, c.K, c.M)
	prefix := steer(c.K)
	if _, ok := ref.EncryptK(ref.MulG(c.D), c.M, c.K, c.Layout); !ok && len(c.M) > 0 {
		prefix = b32(c.K) // to be skipped
		c.K = nil
	} else if len(c.M) == 1 && coin(t, "zeromask", 2, 3) {
		// nonces whose one-byte mask is zero must be skipped
		pub := ref.MulG(c.D)
		k := new(big.Int).Set(c.K)
		for i := 0; i < 1500; i++ {
			if ref.Mask(pub, k, 1)[0] == 0 {
				prefix = b32(k)
				c.K = nil
				break
			}
			k = clampScalar(badd(k, bigOne), nM1)
		}
	}
	if coin(t, "nosteer", 1, 4) {
		prefix, c.K = nil, nil
	}
	c.E = genEntropy(t, "e", prefix)
	if prefix != nil {
		c.E.Mode = 0
	}
	return c
}

func runEnc(rec *Rec, c encCase) error {
	if len(c.M) > 0 {
		rec.NT()
	}
	rec.Class("plaintext %s, layout %d", sizeClass(len(c.M)), c.Layout)
	pub := ref.MulG(c.D)
	setEntropy(c.E)
	ct, err := sm2.Encrypt(mkPub(pub), c.M, lay(c.Layout))
	if err != nil {
		return fail("Encrypt: %v", err)
	}
	if len(ct) != 97+len(c.M) {
		return fail("%d ciphertext bytes for %d plaintext bytes", len(ct), len(c.M))
	}
	m, ok := ref.Decrypt(c.D, ct, c.Layout)
	if !ok || !bytes.Equal(m, c.M) {
		return fail("the standard decryption of %s gives %s (valid: %v)", hexs(ct), hexs(m), ok)
	}
	c2 := ct[97:]
	if c.Layout == ref.C1C2C3 {
		c2 = ct[65 : 65+len(c.M)]
	}
	if len(c.M) > 0 && bytes.Equal(c2, c.M) {
		return fail("the plaintext is in clear in the ciphertext %s (mask of zeros)", hexs(ct))
	}
	if c.K != nil {
		if w, ok := ref.EncryptK(pub, c.M, c.K, c.Layout); ok && bytes.Equal(w, ct) {
			rec.Class("steered scalar used")
			u := ref.Mul(pub, c.K)
			rec.Class("shared point leading zeros: x %v y %v", u.X.BitLen() <= 248, u.Y.BitLen() <= 248)
		}
	} else if len(c.E.Prefix) > 0 {
		rec.Class("first scalar has a zero mask")
	}
	m, err = sm2.Decrypt(mkPriv(c.D), ct, lay(c.Layout))
	if err != nil || !bytes.Equal(m, c.M) {
		return fail("Decrypt of the ciphertext: %s, %v", hexs(m), err)
	}
	return nil
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "empty"
	case n == 1:
		return "1 byte"
	case n < 32:
		return "2-31"
	case n%32 == 0:
		return "multiple of 32"
	case n < 256:
		return "33-255"
	case n < 8192:
		return "256-8191"
	}
	return "8192 and more"
}

type layoutCase struct {
	D      *big.Int
	M      HB
	Layout int32
	Seed   uint64
}

func runLayout(rec *Rec, c layoutCase) error {
	rec.NT()
	l := sm2.Sm2CipherTextType(c.Layout)
	seedEntropy(c.Seed)
	pub := ref.MulG(c.D)
	if ct, err := sm2.Encrypt(mkPub(pub), c.M, l); err == nil || len(ct) != 0 {
		return fail("Encrypt with layout %d: %s, %v", c.Layout, hexs(ct), err)
	}
	ct, _ := ref.EncryptK(pub, c.M, clampScalar(c.D, nM2), 1)
	if m, err := sm2.Decrypt(mkPriv(c.D), ct, l); err == nil || len(m) != 0 {
		return fail("Decrypt with layout %d: %s, %v", c.Layout, hexs(m), err)
	}
	return nil
}

// ---- P16 ----

type decCase struct {
	D, K   *big.Int
	M      HB
	Layout int
}

func genDec(max int) func(t *rapid.T) decCase {
	return func(t *rapid.T) decCase {
		c := decCase{M: genPlain(t, max), Layout: intR(t, "layout", 1, 2)}
		c.D, c.K = genKU(t)
		c.M = shapePlain(t, c.D, c.K, c.M)
		return c
	}
}

// refCipher encrypts with the first usable nonce from k on.
func refCipher(pub ref.Pt, m []byte, k *big.Int, layout int) ([]byte, *big.Int) {
	for {
		if ct, ok := ref.EncryptK(pub, m, k, layout); ok {
			return ct, k
		}
		k = clampScalar(badd(k, bigOne), nM1)
	}
}

// relayout moves C3.
func relayout(ct []byte, from int) []byte {
	if from == ref.C1C2C3 {
		return ref.Cat(ct[:65], ct[len(ct)-32:], ct[65:len(ct)-32])
	}
	return ref.Cat(ct[:65], ct[97:], ct[65:97])
}

func runDec(rec *Rec, c decCase) error {
	pub := ref.MulG(c.D)
	ct, k := refCipher(pub, c.M, c.K, c.Layout)
	c1, u := ref.MulG(k), ref.Mul(pub, k)
	z := func(n *big.Int) bool { return n.BitLen() <= 248 }
	rec.Class("leading zeros: C1 %v, shared x %v, shared y %v", z(c1.X) || z(c1.Y), z(u.X), z(u.Y))
	rec.Class("plaintext %s", sizeClass(len(c.M)))
	if len(c.M) > 0 {
		rec.NT()
	}
	for _, v := range []struct {
		ct []byte
		l  int
	}{{ct, c.Layout}, {relayout(ct, c.Layout), 3 - c.Layout}} {
		m, err := sm2.Decrypt(mkPriv(c.D), v.ct, lay(v.l))
		if err != nil || !bytes.Equal(m, c.M) {
			return fail("Decrypt(%s, layout %d) = %s, %v; want %s", hexs(v.ct), v.l, hexs(m), err, hexs(c.M))
		}
		if v.l == 1 && len(c.M)%4 == 0 && len(c.M) < 4096 {
			if err := again("Decrypt", func() []byte { o, _ := sm2.Decrypt(mkPriv(c.D), v.ct, lay(v.l)); return o }); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- P17 ----

type tamperCase struct {
	Kind   string
	D      *big.Int
	CT     HB
	Layout int
}

func fitsPlusP(n *big.Int) bool { return badd(n, ref.P).BitLen() <= 256 }

func genTamper(t *rapid.T) tamperCase {
	d, k := genKU(t)
	m := shapePlain(t, d, k, genPlain(t, 120))
	layout := intR(t, "layout", 1, 2)
	pub := ref.MulG(d)
	ct, k := refCipher(pub, m, k, layout)
	c := tamperCase{D: d, CT: append(HB{}, ct...), Layout: layout}
	c3 := 65
	if layout == ref.C1C2C3 {
		c3 = 65 + len(m)
	}
	setC1 := func(x, y *big.Int) { copy(c.CT[1:], b32(x)); copy(c.CT[33:], b32(y)) }
	p1 := ref.MulG(k)
	switch c.Kind = pick(t, "kind", "C3 bit", "C3 altered", "C3 altered", "C2 bit", "C1 bit", "prefix", "C3 byte", "truncate", "extend", "other key", "layout", "off curve", "zero point", "x+p", "negated C1", "generator", "short", "C2 tail", "random bit", "two bits", "swap halves", "zero C3", "consistent off curve", "consistent x+p"); c.Kind {
	case "C3 bit":
		c.CT = flipBit(ct, 8*c3+intR(t, "bit", 0, 255))
	case "C3 altered":
		copy(c.CT[c3:], alterValue(t, "alter", ct[c3:c3+32]))
	case "C3 byte":
		c.CT[c3+intR(t, "pos", 0, 31)] ^= byte(intR(t, "x", 1, 255))
	case "C2 bit":
		if len(m) == 0 {
			c.CT = append(c.CT, 0)
			break
		}
		o := 65
		if layout == ref.C1C3C2 {
			o = 97
		}
		c.CT = flipBit(ct, 8*o+intR(t, "bit", 0, 8*len(m)-1))
	case "C2 tail": // last byte of C2
		if len(m) > 0 {
			o := 65 + len(m) - 1
			if layout == ref.C1C3C2 {
				o += 32
			}
			c.CT[o] ^= byte(intR(t, "x", 1, 255))
		} else {
			c.CT = c.CT[:96]
		}
	case "C1 bit":
		c.CT = flipBit(ct, 8+intR(t, "bit", 0, 511))
	case "prefix":
		c.CT[0] = pick(t, "p", byte(0), byte(1), byte(2), byte(3), byte(5), byte(6), byte(7), byte(0x84), byte(intR(t, "any", 8, 255)))
	case "truncate":
		c.CT = c.CT[:intR(t, "n", 0, len(ct)-1)]
	case "short":
		c.CT = c.CT[:intR(t, "n", 0, min(len(ct)-1, 100))]
	case "extend":
		c.CT = append(c.CT, genFill(t, "x", intR(t, "n", 1, 40))...)
	case "other key":
		c.D = genScalar(t, "d2", 0)
	case "layout":
		c.Layout = 3 - layout
	case "off curve":
		setC1(p1.X, bmod(badd(p1.Y, i64(int64(intR(t, "dy", 1, 9)))), ref.P))
	case "consistent off curve":
		// An invalid-curve ciphertext: the addition formulas do not use the
		// constant b, so the shared point of an off-curve C1 can be computed
		// and everything else made to fit.
		q := ref.Pt{X: p1.X, Y: bmod(badd(p1.Y, i64(int64(intR(t, "dy", 1, 9)))), ref.P)}
		sh := ref.Mul(q, d)
		if sh.Inf {
			break
		}
		mask := ref.KDF(ref.Cat(b32(sh.X), b32(sh.Y)), len(m))
		c2 := make([]byte, len(m))
		for i := range m {
			c2[i] = m[i] ^ mask[i]
		}
		h := ref.SM3(ref.Cat(b32(sh.X), m, b32(sh.Y)))
		c.CT = ref.Cat([]byte{4}, b32(q.X), b32(q.Y), h[:], c2)
		if layout == ref.C1C2C3 {
			c.CT = relayout(c.CT, ref.C1C3C2)
		}
	case "consistent x+p":
		// a ciphertext over a point with a small coordinate, that coordinate
		// written as the same number modulo p
		q := genXPoint(t, "q").pt()
		if !fitsPlusP(q.X) && !fitsPlusP(q.Y) {
			e := pick(t, "y", tinyY...)
			q.X.SetString(e[0], 16)
			q.Y.SetString(e[1], 16)
		}
		sh := ref.Mul(q, d)
		mask := ref.KDF(ref.Cat(b32(sh.X), b32(sh.Y)), len(m))
		c2 := make([]byte, len(m))
		for i := range m {
			c2[i] = m[i] ^ mask[i]
		}
		h := ref.SM3(ref.Cat(b32(sh.X), m, b32(sh.Y)))
		x, y := q.X, q.Y
		if fitsPlusP(x) && (!fitsPlusP(y) || coin(t, "x", 1, 2)) {
			x = badd(x, ref.P)
		} else {
			y = badd(y, ref.P)
		}
		c.CT = ref.Cat([]byte{4}, b32(x), b32(y), h[:], c2)
		if layout == ref.C1C2C3 {
			c.CT = relayout(c.CT, ref.C1C3C2)
		}
	case "zero point":
		setC1(i64(0), i64(0))
	case "x+p":
		x, y := p1.X, p1.Y
		if v := badd(x, ref.P); v.BitLen() <= 256 && coin(t, "x", 1, 2) {
			x = v
		} else {
			x = badd(ref.P, i64(int64(intR(t, "off", 0, 3))))
		}
		setC1(x, y)
	case "negated C1":
		setC1(p1.X, bsub(ref.P, p1.Y))
	case "generator":
		setC1(ref.Gx, ref.Gy)
	case "random bit":
		c.CT = flipBit(ct, intR(t, "bit", 0, 8*len(ct)-1))
	case "two bits":
		c.CT = flipBit(flipBit(ct, intR(t, "bit", 0, 8*len(ct)-1)), intR(t, "bit2", 0, 8*len(ct)-1))
	case "swap halves":
		copy(c.CT[c3:], ct[c3+16:c3+32])
		copy(c.CT[c3+16:], ct[c3:c3+16])
	case "zero C3":
		copy(c.CT[c3:], make([]byte, 32))
	}
	return c
}

func runTamper(rec *Rec, c tamperCase) error {
	want, ok := ref.Decrypt(c.D, c.CT, c.Layout)
	rec.Class("%s", c.Kind)
	if ok {
		rec.Class("still a valid ciphertext")
	} else {
		rec.NT()
	}
	m, err := sm2.Decrypt(mkPriv(c.D), c.CT, lay(c.Layout))
	if ok {
		if err != nil || !bytes.Equal(m, want) {
			return fail("%s: valid ciphertext %s is not decrypted: %v", c.Kind, hexs(c.CT), err)
		}
		return nil
	}
	if err == nil {
		return fail("%s: ciphertext %s is accepted, plaintext %s", c.Kind, hexs(c.CT), hexs(m))
	}
	if len(m) != 0 {
		return fail("%s: plaintext %s returned together with an error", c.Kind, hexs(m))
	}
	return nil
}

// ---- P18 ----

type envCase struct {
	X, Y   *big.Int // coordinates, 0 <= c < 2^256
	C2     HB
	C3     HB
	Layout int
	DER    HB // to be decoded
	Raw    HB // to be encoded
}

// refEnvelope decodes strictly; ok only for the exact DER form.
func refEnvelope(b []byte, layout int) (x, y *big.Int, raw []byte, ok bool) {
	e, ok := ref.ReadSeq(b)
	if !ok || len(e) != 4 {
		return nil, nil, nil, false
	}
	var n [2]*big.Int
	var o [2][]byte
	for i := range e {
		tag, c, _, _, _ := ref.ReadTLV(e[i])
		if i < 2 {
			if tag != 2 {
				return nil, nil, nil, false
			}
			if n[i], ok = ref.ReadInt(c); !ok || n[i].Sign() < 0 || n[i].BitLen() > 256 {
				return nil, nil, nil, false
			}
		} else {
			if tag != 4 {
				return nil, nil, nil, false
			}
			o[i-2] = c
		}
	}
	c3 := o[1]
	if layout == ref.C1C3C2 {
		c3 = o[0]
	}
	if len(c3) != 32 {
		return nil, nil, nil, false
	}
	return n[0], n[1], ref.Cat([]byte{4}, b32(n[0]), b32(n[1]), o[0], o[1]), true
}

func genEnv(t *rapid.T) envCase {
	p := ref.MulG(genScalar(t, "k", 0))
	if coin(t, "extreme", 1, 3) {
		p = genXPoint(t, "xp").pt()
	}
	c := envCase{X: p.X, Y: p.Y, C2: genMsg(t, "c2", 300), C3: genFill(t, "c3", 32), Layout: intR(t, "layout", 1, 2)}
	if c.C2 == nil {
		c.C2 = HB{}
	}
	der := c.der(c.X, c.Y)
	switch intR(t, "kind", 0, 8) {
	case 0:
		c.DER = der
	case 1:
		c.DER = c.der(new(big.Int).Neg(c.X), c.Y)
	case 2: // oversized
		big1 := new(big.Int).Lsh(bigOne, uint(intR(t, "sh", 256, 300)))
		if coin(t, "x", 1, 2) {
			c.DER = c.der(badd(c.X, big1), c.Y)
		} else {
			c.DER = c.der(c.X, badd(c.Y, big1))
		}
	case 3: // wrong check value size
		d := c
		d.C3 = genFill(t, "badc3", pick(t, "n", 0, 1, 31, 33, 64))
		c.DER = d.der(c.X, c.Y)
	case 4:
		d := c
		d.Layout = 3 - d.Layout
		c.DER = d.der(c.X, c.Y)
	case 5:
		c.DER = c.der(c.X, new(big.Int).Neg(c.Y))
	default:
		c.DER = mutateDER(t, "mut", der)
	}
	raw := c.raw()
	switch intR(t, "rawkind", 0, 2) {
	case 0:
		c.Raw = raw[:intR(t, "n", 0, 96)]
	case 1:
		c.Raw = append(HB{}, raw...)
		c.Raw[0] = pick(t, "p", byte(4), byte(2), byte(3), byte(0), byte(6))
	default:
		c.Raw = raw
	}
	return c
}

func (c envCase) der(x, y *big.Int) []byte {
	if c.Layout == ref.C1C2C3 {
		return ref.Seq(ref.Int(x), ref.Int(y), ref.Octets(c.C2), ref.Octets(c.C3))
	}
	return ref.Seq(ref.Int(x), ref.Int(y), ref.Octets(c.C3), ref.Octets(c.C2))
}

func (c envCase) raw() []byte {
	if c.Layout == ref.C1C2C3 {
		return ref.Cat([]byte{4}, b32(c.X), b32(c.Y), c.C2, c.C3)
	}
	return ref.Cat([]byte{4}, b32(c.X), b32(c.Y), c.C3, c.C2)
}

func runEnv(rec *Rec, c envCase) error {
	raw, der := c.raw(), c.der(c.X, c.Y)
	got, err := sm2.MarshalCipher(raw, lay(c.Layout))
	if err != nil || !bytes.Equal(got, der) {
		return fail("MarshalCipher(%s, %d) = %s, %v; want %s", hexs(raw), c.Layout, hexs(got), err, hexs(der))
	}
	back, err := sm2.UnmarshalCipher(der, lay(c.Layout))
	if err != nil || !bytes.Equal(back, raw) {
		return fail("UnmarshalCipher(%s, %d) = %s, %v; want %s", hexs(der), c.Layout, hexs(back), err, hexs(raw))
	}
	if len(raw) < 4096 {
		if err := first(again("MarshalCipher", func() []byte { o, _ := sm2.MarshalCipher(raw, lay(c.Layout)); return o }),
			again("UnmarshalCipher", func() []byte { o, _ := sm2.UnmarshalCipher(der, lay(c.Layout)); return o })); err != nil {
			return err
		}
	}
	for _, l := range []int{0, 3, -1} {
		if o, err := sm2.MarshalCipher(raw, lay(l)); err == nil || len(o) > 0 {
			return fail("MarshalCipher accepts layout %d", l)
		}
		if o, err := sm2.UnmarshalCipher(der, lay(l)); err == nil || len(o) > 0 {
			return fail("UnmarshalCipher accepts layout %d", l)
		}
	}
	if len(c.Raw) < 97 || c.Raw[0] != 4 {
		o, err := sm2.MarshalCipher(c.Raw, lay(c.Layout))
		if err == nil || len(o) > 0 {
			return fail("MarshalCipher accepts %s", hexs(c.Raw))
		}
		rec.Class("malformed raw input")
	}
	x, y, want, ok := refEnvelope(c.DER, c.Layout)
	rec.Class("decoded input well-formed: %v", ok)
	if !bytes.Equal(c.DER, der) {
		rec.NT()
	}
	back, err = sm2.UnmarshalCipher(c.DER, lay(c.Layout))
	if !ok {
		if err == nil || len(back) > 0 {
			return fail("UnmarshalCipher accepts %s as %s", hexs(c.DER), hexs(back))
		}
		return nil
	}
	if err != nil {
		if x.Cmp(ref.P) >= 0 || y.Cmp(ref.P) >= 0 {
			return nil // not coordinates of anything: may be refused
		}
		if !ref.OnCurve(x, y) {
			return nil // may be refused early
		}
		return fail("UnmarshalCipher(%s): %v", hexs(c.DER), err)
	}
	if !bytes.Equal(back, want) {
		return fail("UnmarshalCipher(%s) = %s, want %s", hexs(c.DER), hexs(back), hexs(want))
	}
	return nil
}

func runEnvFlow(rec *Rec, c encCase) error {
	rec.NT()
	setEntropy(c.E)
	pub := ref.MulG(c.D)
	ct, err := sm2.Encrypt(mkPub(pub), c.M, lay(c.Layout))
	if err != nil {
		return fail("Encrypt: %v", err)
	}
	der, err := sm2.MarshalCipher(ct, lay(c.Layout))
	if err != nil {
		return fail("MarshalCipher: %v", err)
	}
	if _, _, raw, ok := refEnvelope(der, c.Layout); !ok || !bytes.Equal(raw, ct) {
		return fail("MarshalCipher(%s) = %s", hexs(ct), hexs(der))
	}
	back, err := sm2.UnmarshalCipher(der, lay(c.Layout))
	if err != nil || !bytes.Equal(back, ct) {
		return fail("UnmarshalCipher(MarshalCipher(c)) != c: %v", err)
	}
	m, err := sm2.Decrypt(mkPriv(c.D), back, lay(c.Layout))
	if err != nil || !bytes.Equal(m, c.M) {
		return fail("Decrypt after the envelope: %v", err)
	}
	return nil
}

// ---- P19 ----

type encHistory struct {
	Keys   []*big.Int
	M      []HB
	Layout int
	E      Entropy
	N      int
}

func genEncHistory(t *rapid.T) encHistory {
	h := encHistory{Layout: intR(t, "layout", 1, 2), E: genEntropy(t, "e", nil), N: intR(t, "n", 8, 30)}
	for i, n := 0, intR(t, "keys", 1, 3); i < n; i++ {
		h.Keys = append(h.Keys, genScalar(t, "d", 0))
	}
	for i, n := 0, intR(t, "msgs", 1, 3); i < n; i++ {
		h.M = append(h.M, genMsg(t, "m", 60))
	}
	return h
}

// structured holds the x coordinates of j*G and of every scalar that has only
// one non-zero byte.
var structured map[string]string

func structuredPoints() map[string]string {
	if structured == nil {
		structured = map[string]string{}
		p := ref.G
		for j := 1; j <= 2048; j++ {
			structured[string(b32(p.X))] = "a small multiple of G"
			p = ref.AddPt(p, ref.G)
		}
		for sh := uint(0); sh < 256; sh += 8 {
			step := ref.MulG(new(big.Int).Lsh(bigOne, sh))
			p := step
			for b := 1; b < 256; b++ {
				if p.Inf {
					break
				}
				structured[string(b32(p.X))] = "made from a single byte"
				p = ref.AddPt(p, step)
			}
		}
	}
	return structured
}

func runEncHistory(rec *Rec, c encHistory) error {
	rec.NT()
	rec.Class("delivery mode %d, keys %d, messages %d", c.E.Mode, len(c.Keys), len(c.M))
	src := setEntropy(c.E)
	tab := structuredPoints()
	seen := map[string]int{}
	var prev ref.Pt
	for i := 0; i < c.N; i++ {
		d := c.Keys[i%len(c.Keys)]
		m := c.M[(i/len(c.Keys))%len(c.M)]
		pub := ref.MulG(d)
		ct, err := sm2.Encrypt(mkPub(pub), m, lay(c.Layout))
		if err != nil || len(ct) < 97 {
			return fail("Encrypt: %v", err)
		}
		c1 := ref.Pt{X: new(big.Int).SetBytes(ct[1:33]), Y: new(big.Int).SetBytes(ct[33:65])}
		if !ref.OnCurve(c1.X, c1.Y) {
			return fail("encryption %d: C1 is not on the curve", i)
		}
		if j, dup := seen[string(b32(c1.X))]; dup {
			return fail("encryptions %d and %d use the same ephemeral point", j, i)
		}
		seen[string(b32(c1.X))] = i
		if w, bad := tab[string(b32(c1.X))]; bad {
			return fail("the ephemeral point of encryption %d is %s", i, w)
		}
		for _, k := range c.Keys {
			if q := ref.MulG(k); q.X.Cmp(c1.X) == 0 {
				return fail("the ephemeral point of encryption %d is a recipient's key", i)
			}
		}
		if i > 0 {
			for _, q := range []ref.Pt{ref.AddPt(c1, ref.Neg(prev)), ref.AddPt(c1, prev)} {
				if q.Inf {
					return fail("encryptions %d and %d use opposite points", i-1, i)
				}
				if w, bad := tab[string(b32(q.X))]; bad {
					return fail("the ephemeral points of encryptions %d and %d differ by %s", i-1, i, w)
				}
			}
			if dbl := ref.AddPt(prev, prev); dbl.X.Cmp(c1.X) == 0 {
				return fail("the ephemeral point of encryption %d is twice the previous one", i)
			}
		}
		prev = c1
	}
	if src.given < 31*c.N {
		return fail("%d encryptions were made from %d bytes of entropy", c.N, src.given)
	}
	return nil
}

// ---- P20 (sm2 part) ----

type entropyFailCase struct {
	Op     string
	D      *big.Int
	ID, M  HB
	Layout int
	E      Entropy
}

func genFailing(t *rapid.T, l string) Entropy {
	e := Entropy{Seed: u64(t, l+".seed"), Mode: pick(t, l+".mode", 0, 0, 1, 2, 3), Fails: true, EOF: intR(t, l+".eof", 0, 3)}
	e.FailAt = pick(t, l+".at", 0, 1, 8, 16, 31, 32, 33, 63, 64, 65, intR(t, l+".any", 0, 130))
	if coin(t, l+".retry", 1, 3) { // the first value is refused, the failure hits the retry
		e.Prefix = b32(pick(t, l+".bad", i64(0), ref.N, bsub(new(big.Int).Lsh(bigOne, 256), bigOne)))
		e.FailAt = 32 + intR(t, l+".after", 0, 40)
	}
	return e
}

func genEntropyFail(t *rapid.T) entropyFailCase {
	return entropyFailCase{Op: pick(t, "op", "generate", "sign", "signrs", "encrypt"), D: genScalar(t, "d", 1), ID: genID(t, "id"), M: genMsg(t, "m", 80),
		Layout: intR(t, "layout", 1, 2), E: genFailing(t, "e")}
}

func runEntropyFail(rec *Rec, c entropyFailCase) error {
	rec.NT()
	pub := ref.MulG(c.D)
	var src *entropyReader
	var err error
	var none bool // no result at all
	var valid func() error
	switch c.Op {
	case "generate":
		src = newEntropy(c.E)
		priv, p, e := sm2.GenerateKey(src)
		err, none = e, priv == nil && p == nil
		valid = func() error {
			if priv == nil || p == nil || priv.D == nil || priv.D.Sign() <= 0 || priv.D.Cmp(nM2) > 0 {
				return fail("invalid key pair")
			}
			return checkPub(p, ref.MulG(priv.D), "GenerateKey")
		}
	case "sign":
		src = setEntropy(c.E)
		der, e := sm2.Sign(mkPriv(c.D), c.ID, c.M)
		err, none = e, len(der) == 0
		valid = func() error {
			r, s, ok := ref.ReadSig(der)
			if !ok || !ref.Verify(pub.X, pub.Y, idOf(c.ID), c.M, r, s) {
				return fail("invalid signature %x", der)
			}
			return nil
		}
	case "signrs":
		src = setEntropy(c.E)
		r, s, e := sm2.SignToRS(mkPriv(c.D), c.ID, c.M)
		err, none = e, r == nil && s == nil
		valid = func() error {
			if r == nil || s == nil || !ref.Verify(pub.X, pub.Y, idOf(c.ID), c.M, r, s) {
				return fail("invalid signature %x %x", r, s)
			}
			return nil
		}
	case "encrypt":
		src = setEntropy(c.E)
		ct, e := sm2.Encrypt(mkPub(pub), c.M, lay(c.Layout))
		err, none = e, len(ct) == 0
		valid = func() error {
			if m, ok := ref.Decrypt(c.D, ct, c.Layout); !ok || !bytes.Equal(m, c.M) {
				return fail("invalid ciphertext %s", hexs(ct))
			}
			return nil
		}
	}
	rec.Class("%s: error %v", c.Op, err != nil)
	return judgeEntropy(c.Op, src, err, none, valid)
}

// judgeEntropy is the rule of P20: an error and nothing else, or a fully valid
// result for which at least 32 bytes of entropy had been delivered.
func judgeEntropy(op string, src *entropyReader, err error, none bool, valid func() error) error {
	if err != nil {
		if !none {
			return fail("%s returned a result together with the error %v", op, err)
		}
		return nil
	}
	if src.given < 32 {
		return fail("%s succeeded although the entropy source failed after %d bytes", op, src.given)
	}
	return valid()
}

var _ io.Reader = (*entropyReader)(nil)

func init() {
	var bigMsgs []decCase
	for i, n := range []int{8160, 8192, 65535, 65536 * 2, 2097152 + 33} {
		bigMsgs = append(bigMsgs, decCase{seedScalar(uint64(i)), seedScalar(uint64(i + 100)), bytes.Repeat([]byte{0x5a}, n), 1 + i%2})
	}
	var bigEnc []encCase
	for i, n := range []int{8160, 8193, 65536, 2097152 + 65} {
		bigEnc = append(bigEnc, encCase{seedScalar(uint64(i + 7)), nil, bytes.Repeat([]byte{0xa5}, n), 1 + i%2, Entropy{Seed: uint64(i)}})
	}
	register("P15",
		NewSub("encrypt", "generated recipients, plaintexts (0-400 bytes), layouts and entropy (ephemeral scalars steered to points with leading zeros, or to zero masks): standard decryption of the output; non-trivial: non-empty plaintext", 5000, 150000, genEnc, runEnc, bigEnc...),
		NewSub("extreme", "recipients whose public key has an extreme coordinate, or whose shared point has one, with the ephemeral scalar steered: the reference ciphertext; non-trivial: all", 1500, 60000, genXEnc("recipient", "shared"), runXEnc),
		NewSub("layout", "unknown layout values; non-trivial: all", 400, 4000, func(t *rapid.T) layoutCase {
			return layoutCase{genScalar(t, "d", 0), genMsg(t, "m", 40), pick(t, "l", int32(0), 3, -1, 4, 256, 257, 65537, 1<<31-1, -1<<31), u64(t, "seed")}
		}, runLayout))
	register("P16",
		NewSub("decrypt", "ciphertexts made by the reference encryptor (scalars chosen so that transmitted or shared points have leading zeros), in both layouts; non-trivial: non-empty plaintext", 10000, 300000, genDec(400), runDec, bigMsgs...),
		NewSub("extreme", "reference ciphertexts whose transmitted or shared point has an extreme coordinate (0, tiny, just below p, above n, powers of two), in place and altered; non-trivial: all", 4000, 150000, genXEnc("C1", "shared"), runXDec),
		NewSub("large", "as decrypt with plaintexts up to 20 kB", 600, 10000, genDec(20000), runDec))
	register("P17", NewSub("tamper", "valid ciphertexts changed in 21 ways (bits of every part, truncation, extension, other key or layout, replaced points, consistent off-curve points): rejected exactly when the standard decryption rejects; non-trivial: invalid ciphertext", 20000, 600000, genTamper, runTamper))
	register("P18",
		NewSub("envelope", "generated coordinates, texts and layouts; decoded inputs valid, with negative, oversized or wrongly sized parts, structurally mutated: against a strict DER model; non-trivial: decoded input is not the canonical one", 40000, 1200000, genEnv, runEnv),
		NewSub("flow", "encrypt, envelope, back, decrypt; non-trivial: all", 1500, 40000, genEnc, runEnvFlow))
	register("P19", NewSub("history", "histories of 8-30 encryptions to 1-3 keys of 1-3 plaintexts with entropy delivered whole or in pieces: distinct, unrelated, unstructured ephemeral points; non-trivial: all", 400, 12000, genEncHistory, runEncHistory),
		NewSub("together", "2-12 goroutines with 1-3 encryptions (and some signatures and generated keys) each, drawing from one slow source at the same time: ciphertexts valid, ephemeral points distinct; non-trivial: all", 160, 6000, genTogether(7), runTogether))
	register("P20", NewSub("sm2", "key generation, signing and encryption with an entropy source failing after 0-130 bytes in four ways, also during a retry; non-trivial: all", 12000, 400000, genEntropyFail, runEntropyFail))
}
