package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"

	"pgregory.net/rapid"
)

func mkPriv(d *big.Int) *sm2.PrivateKey {
	return &sm2.PrivateKey{D: new(big.Int).Set(d), Curve: sm2.GetSm2P256V1()}
}

func mkPub(p ref.Pt) *sm2.PublicKey { return mkPubXY(p.X, p.Y) }

func mkPubXY(x, y *big.Int) *sm2.PublicKey {
	return &sm2.PublicKey{X: new(big.Int).Set(x), Y: new(big.Int).Set(y), Curve: sm2.GetSm2P256V1()}
}

func checkCurve(c sm2.P256V1Curve) error {
	if c.CurveParams == nil || c.A == nil {
		return fail("curve parameters missing")
	}
	for _, v := range []struct {
		n    string
		a, b *big.Int
	}{{"P", c.P, ref.P}, {"A", c.A, ref.A}, {"B", c.B, ref.B}, {"N", c.N, ref.N}, {"Gx", c.Gx, ref.Gx}, {"Gy", c.Gy, ref.Gy}} {
		if v.a == nil || v.a.Cmp(v.b) != 0 {
			return fail("curve parameter %s is %x, want %x", v.n, v.a, v.b)
		}
	}
	if c.BitSize != 256 {
		return fail("curve bit size %d", c.BitSize)
	}
	return nil
}

func checkPub(pub *sm2.PublicKey, want ref.Pt, what string) error {
	if pub == nil || pub.X == nil || pub.Y == nil {
		return fail("%s: no public key", what)
	}
	if pub.X.Cmp(want.X) != 0 || pub.Y.Cmp(want.Y) != 0 {
		return fail("%s: public key (%x, %x), want (%x, %x)", what, pub.X, pub.Y, want.X, want.Y)
	}
	return checkCurve(pub.Curve)
}

// ---- P08 ----

type keygenCase struct {
	E     Entropy
	Seed2 uint64
	N     int
}

// genEntropy draws a working entropy source; prefix, if not nil, is delivered
// first.
func genEntropy(t *rapid.T, l string, prefix []byte) Entropy {
	return Entropy{Prefix: prefix, Seed: u64(t, l+".seed"), Mode: pick(t, l+".mode", 0, 0, 0, 1, 2, 3)}
}

func genKeygen(t *rapid.T) keygenCase {
	var prefix []byte
	if coin(t, "steer", 2, 3) {
		// The standard library's generator turns 32 bytes b into b with b[1]
		// xored by 0x42, and asks again above n.
		v := pick(t, "d", i64(0), i64(1), i64(2), bsub(ref.N, i64(3)), nM2, nM1, ref.N, badd(ref.N, bigOne), bsub(new(big.Int).Lsh(bigOne, 256), bigOne), genScalar(t, "dany", 0))
		b := b32(v)
		if coin(t, "mask", 3, 4) {
			b[1] ^= 0x42
		}
		prefix = b
		if coin(t, "twice", 1, 3) {
			prefix = ref.Cat(b, b)
		}
	}
	return keygenCase{E: genEntropy(t, "e", prefix), Seed2: u64(t, "seed2"), N: intR(t, "n", 1, 3)}
}

func runKeygen(rec *Rec, c keygenCase) error {
	rec.NT()
	rec.Class("steered: %v, delivery mode %d", len(c.E.Prefix) > 0, c.E.Mode)
	seen := map[string]bool{}
	src := newEntropy(c.E)
	other := newEntropy(Entropy{Seed: c.Seed2 ^ 0x1234567})
	for i := 0; i <= c.N; i++ {
		r := src
		if i == c.N {
			r = other
		}
		priv, pub, err := sm2.GenerateKey(r)
		if err != nil {
			return fail("GenerateKey: %v", err)
		}
		if priv == nil || pub == nil {
			return fail("GenerateKey returned nil keys")
		}
		if priv.D == nil || priv.D.Sign() <= 0 || priv.D.Cmp(nM2) > 0 {
			return fail("private key %x is not in [1, n-2]", priv.D)
		}
		if err := checkPub(pub, ref.MulG(priv.D), "GenerateKey"); err != nil {
			return err
		}
		if err := checkCurve(priv.Curve); err != nil {
			return err
		}
		if seen[string(priv.D.Bytes())] && (len(c.E.Prefix) == 0 || i == c.N) && c.Seed2^0x1234567 != c.E.Seed {
			return fail("the same key %x was generated from different entropy", priv.D)
		}
		seen[string(priv.D.Bytes())] = true
	}
	return nil
}

type scalarCase struct{ D *big.Int }

func runDerive(rec *Rec, c scalarCase) error {
	if c.D.BitLen() > 16 {
		rec.NT()
	}
	p := ref.MulG(c.D)
	rec.Class("leading zero byte in a coordinate: %v", p.X.BitLen() <= 248 || p.Y.BitLen() <= 248)
	priv := mkPriv(c.D)
	pub := sm2.CalculatePubKey(priv)
	if err := checkPub(pub, p, "CalculatePubKey"); err != nil {
		return err
	}
	if c.D.Bit(0) == 0 { // the caller may use the numbers of a key it no longer needs
		pub.X.Add(pub.X, bigOne)
		pub.Y.SetInt64(3)
		if err := checkPub(sm2.CalculatePubKey(priv), p, "CalculatePubKey after its earlier result was changed"); err != nil {
			return err
		}
		return checkCurve(sm2.GetSm2P256V1())
	}
	return nil
}

func edgeScalars(top int64) []scalarCase {
	var out []scalarCase
	hi := bsub(nM1, i64(top))
	for i := int64(0); i < 20; i++ {
		out = append(out, scalarCase{i64(i + 1)}, scalarCase{bsub(hi, i64(i))})
	}
	for i := uint(4); i < 256; i += 7 {
		out = append(out, scalarCase{new(big.Int).Lsh(bigOne, i)})
	}
	for _, s := range smallCoord {
		out = append(out, scalarCase{s.U()})
	}
	return out
}

// ---- P09 ----

type rawCase struct {
	D   *big.Int // private key
	U   *big.Int // public key is U*G
	Bad HB       // input of a wrong length (or anything)
}

func genRaw(t *rapid.T) rawCase {
	c := rawCase{D: genScalar(t, "d", 0), U: genScalar(t, "u", 0)}
	n := pick(t, "badlen", 0, 1, 31, 33, 63, 65, 66, 96, 128, intR(t, "any", 0, 140))
	c.Bad = genFill(t, "bad", n)
	if n > 0 && coin(t, "prefix", 1, 3) {
		c.Bad[0] = pick(t, "pc", byte(4), byte(2), byte(0))
	}
	return c
}

func runRaw(rec *Rec, c rawCase) error {
	p := ref.MulG(c.U)
	if c.D.BitLen() <= 248 || p.X.BitLen() <= 248 || p.Y.BitLen() <= 248 {
		rec.NT()
	}
	rec.Class("leading zeros: d %v, x %v, y %v", c.D.BitLen() <= 248, p.X.BitLen() <= 248, p.Y.BitLen() <= 248)
	priv := mkPriv(c.D)
	rb := priv.GetRawBytes()
	if !bytes.Equal(rb, b32(c.D)) {
		return fail("private key %x encodes to %x", c.D, rb)
	}
	back, err := sm2.RawBytesToPrivateKey(rb)
	if err != nil || back == nil || back.D == nil || back.D.Cmp(c.D) != 0 {
		return fail("private key bytes %x decode to %v, %v", rb, back, err)
	}
	if err := checkCurve(back.Curve); err != nil {
		return err
	}
	if !bytes.Equal(back.GetRawBytes(), rb) {
		return fail("private key does not re-encode")
	}
	if err := first(again("PrivateKey.GetRawBytes", priv.GetRawBytes),
		againInts("RawBytesToPrivateKey", func() []*big.Int { k, _ := sm2.RawBytesToPrivateKey(b32(c.D)); return []*big.Int{k.D} })); err != nil {
		return err
	}
	if priv.D.Cmp(c.D) != 0 {
		return fail("the private key object changed")
	}
	pub := mkPub(p)
	raw, un := pub.GetRawBytes(), pub.GetUnCompressBytes()
	want := ref.Cat(b32(p.X), b32(p.Y))
	if !bytes.Equal(raw, want) || !bytes.Equal(un, ref.Cat([]byte{4}, want)) {
		return fail("public key (%x, %x) encodes to %x and %x", p.X, p.Y, raw, un)
	}
	pb, err := sm2.RawBytesToPublicKey(raw)
	if err != nil {
		return fail("RawBytesToPublicKey: %v", err)
	}
	if err := checkPub(pb, p, "RawBytesToPublicKey"); err != nil {
		return err
	}
	if !bytes.Equal(pb.GetRawBytes(), want) || !bytes.Equal(pb.GetUnCompressBytes(), un) {
		return fail("public key does not re-encode")
	}
	pair := ref.Cat(want)
	if err := first(again("PublicKey.GetRawBytes", pub.GetRawBytes), again("PublicKey.GetUnCompressBytes", pub.GetUnCompressBytes), again("PublicKey.GetRawBytes", pub.GetRawBytes),
		againInts("RawBytesToPublicKey", func() []*big.Int { k, _ := sm2.RawBytesToPublicKey(pair); return []*big.Int{k.X, k.Y} })); err != nil {
		return err
	}
	if pub.X.Cmp(p.X) != 0 || pub.Y.Cmp(p.Y) != 0 || !bytes.Equal(pair, want) {
		return fail("the public key object or its bytes changed")
	}
	if len(c.Bad) != 64 {
		if k, err := sm2.RawBytesToPublicKey(c.Bad); err == nil || k != nil {
			return fail("RawBytesToPublicKey accepted %d bytes", len(c.Bad))
		}
	}
	if len(c.Bad) != 32 {
		if k, err := sm2.RawBytesToPrivateKey(c.Bad); err == nil || k != nil {
			return fail("RawBytesToPrivateKey accepted %d bytes", len(c.Bad))
		}
	}
	return nil
}

// ---- P10 ----

type signCase struct {
	D   *big.Int
	ID  HB
	Msg HB
	K   *big.Int // nonce the entropy steers to, if not nil
	E   Entropy
}

// steer makes an entropy prefix from which a nonce generator that reads 32
// bytes as a big-endian number obtains k.
func steer(k *big.Int) []byte {
	if k == nil {
		return nil
	}
	return b32(k)
}

func genSign(t *rapid.T) signCase {
	c := signCase{D: genScalar(t, "d", 1), ID: genID(t, "id"), Msg: genMsg(t, "msg", 300)}
	switch intR(t, "k", 0, 5) {
	case 0:
		c.K = genScalar(t, "kk", 0)
	case 1: // nonces the generator must skip come first
		c.E = genEntropy(t, "e", ref.Cat(b32(pick(t, "skip", i64(0), ref.N, badd(ref.N, bigOne))), b32(genScalar(t, "kk", 0))))
		return c
	case 2: // r or s with a leading zero byte: search the message
		c.K = genScalar(t, "kk", 0)
		pub := ref.MulG(c.D)
		z := ref.Z(idOf(c.ID), pub)
		x := ref.MulG(c.K).X
		inv := binv(badd(c.D, bigOne), ref.N)
		base := append([]byte{}, c.Msg...)
		wantS := coin(t, "s", 1, 2)
		for i := 0; i < 2000; i++ {
			m := ref.Cat(base, []byte(fmt.Sprint(i)))
			h := ref.SM3(append(append([]byte{}, z...), m...))
			r := bmod(badd(new(big.Int).SetBytes(h[:]), x), ref.N)
			v := r
			if wantS {
				v = bmod(bmul(bsub(c.K, bmul(r, c.D)), inv), ref.N)
			}
			if v.BitLen() <= 248 {
				c.Msg = m
				break
			}
		}
	}
	c.E = genEntropy(t, "e", steer(c.K))
	if c.K != nil {
		c.E.Mode = 0
	}
	return c
}

func runSign(rec *Rec, c signCase) error {
	rec.NT()
	rec.Class("id nil %v empty %v; message empty %v", c.ID == nil, len(c.ID) == 0, len(c.Msg) == 0)
	pub := ref.MulG(c.D)
	priv, lpub := mkPriv(c.D), mkPub(pub)
	setEntropy(c.E)
	der, err := sm2.Sign(priv, c.ID, c.Msg)
	if err != nil {
		return fail("Sign: %v", err)
	}
	r, s, ok := ref.ReadSig(der)
	if !ok {
		return fail("Sign returned %x, which is not a DER signature", der)
	}
	if c.K != nil && ref.Nonce(c.D, r, s).Cmp(c.K) == 0 {
		rec.Class("steered nonce used")
	}
	rec.Class("leading zero byte: r %v s %v", r.BitLen() <= 248, s.BitLen() <= 248)
	if !ref.Verify(pub.X, pub.Y, idOf(c.ID), c.Msg, r, s) {
		return fail("Sign returned (%x, %x), which the standard verification rejects", r, s)
	}
	if !sm2.Verify(lpub, c.ID, c.Msg, der) {
		return fail("Verify rejects the signature %x", der)
	}
	setEntropy(c.E)
	r, s, err = sm2.SignToRS(priv, c.ID, c.Msg)
	if err != nil || r == nil || s == nil {
		return fail("SignToRS: %v", err)
	}
	if !ref.Verify(pub.X, pub.Y, idOf(c.ID), c.Msg, r, s) {
		return fail("SignToRS returned (%x, %x), which the standard verification rejects", r, s)
	}
	if !sm2.VerifyByRS(lpub, c.ID, c.Msg, r, s) {
		return fail("VerifyByRS rejects (%x, %x)", r, s)
	}
	return nil
}

type extremeCase struct {
	ID, Msg HB
	Seed    uint64
}

func runExtreme(rec *Rec, c extremeCase) error {
	rec.NT()
	seedEntropy(c.Seed)
	if sig, err := sm2.Sign(mkPriv(nM1), c.ID, c.Msg); err == nil || len(sig) != 0 {
		return fail("Sign with d = n-1 returned %x, %v", sig, err)
	}
	if r, s, err := sm2.SignToRS(mkPriv(nM1), c.ID, c.Msg); err == nil || r != nil && s != nil {
		return fail("SignToRS with d = n-1 returned %v, %v, %v", r, s, err)
	}
	return nil
}

// ---- P11 ----

type verifyCase struct {
	Kind string
	X, Y *big.Int
	ID   HB
	Msg  HB
	R, S *big.Int
}

func genVerify(t *rapid.T) verifyCase {
	d := genScalar(t, "d", 1)
	pub := ref.MulG(d)
	id, msg := genID(t, "id"), genMsg(t, "msg", 200)
	k := genScalar(t, "k", 0)
	r, s, ok := ref.SignK(d, idOf(id), msg, k)
	for i := int64(1); !ok; i++ {
		k = clampScalar(badd(k, i64(i)), nM1)
		r, s, ok = ref.SignK(d, idOf(id), msg, k)
	}
	c := verifyCase{X: pub.X, Y: pub.Y, ID: id, Msg: msg, R: r, S: s}
	flip := func(l string, n *big.Int) *big.Int {
		i := intR(t, l, 0, 256)
		return new(big.Int).SetBit(n, i, n.Bit(i)^1)
	}
	switch c.Kind = pick(t, "kind", "valid", "valid", "valid", "r bit", "s bit", "s+n", "r+n", "s-n", "r-n", "both+n", "zero r", "zero s", "r=n", "s=n", "swap", "n-s", "n-r", "-s", "-r",
		"message", "id", "other key", "negated key", "off curve", "zero key", "x+p", "y+p", "negative y", "y above p", "infinity", "t zero", "s=r", "random", "small", "big", "default id"); c.Kind {
	case "r bit":
		c.R = flip("bit", r)
	case "s bit":
		c.S = flip("bit", s)
	case "s+n":
		c.S = badd(s, ref.N)
	case "r+n":
		c.R = badd(r, ref.N)
	case "both+n":
		c.R, c.S = badd(r, ref.N), badd(s, ref.N)
	case "s-n":
		c.S = bsub(s, ref.N)
	case "r-n":
		c.R = bsub(r, ref.N)
	case "zero r":
		c.R = i64(0)
	case "zero s":
		c.S = i64(0)
	case "r=n":
		c.R = ref.N
	case "s=n":
		c.S = ref.N
	case "swap":
		c.R, c.S = s, r
	case "n-s":
		c.S = bsub(ref.N, s)
	case "n-r":
		c.R = bsub(ref.N, r)
	case "-s":
		c.S = new(big.Int).Neg(s)
	case "-r":
		c.R = new(big.Int).Neg(r)
	case "message":
		c.Msg = HB(mutateBytes(t, "m", msg))
	case "id":
		c.ID = HB(mutateBytes(t, "i", idOf(id)))
	case "other key":
		p := ref.MulG(genScalar(t, "d2", 1))
		c.X, c.Y = p.X, p.Y
	case "negated key":
		c.Y = bsub(ref.P, pub.Y)
	case "off curve":
		if coin(t, "c", 1, 2) {
			c.Y = bmod(badd(pub.Y, i64(int64(intR(t, "dy", 1, 5)))), ref.P)
		} else {
			c.X = bmod(badd(pub.X, i64(int64(intR(t, "dx", 1, 5)))), ref.P)
		}
	case "zero key":
		c.X, c.Y = i64(0), i64(0)
		// a signature that a verifier treating (0,0) as infinity accepts
		c.S = genScalar(t, "zs", 0)
		e := ref.E(idOf(id), ref.Pt{X: c.X, Y: c.Y}, msg)
		c.R = bmod(badd(e, ref.MulG(c.S).X), ref.N)
	case "x+p":
		c.X = badd(pub.X, ref.P)
	case "y+p":
		c.Y = badd(pub.Y, ref.P)
	case "negative y":
		c.Y = bsub(pub.Y, ref.P)
	case "y above p":
		c.Y = bsub(badd(ref.P, ref.P), pub.Y)
	case "infinity": // sG + tP = O and r = e
		e := ref.E(idOf(id), pub, msg)
		c.R = bmod(e, ref.N)
		c.S = bmod(bmul(bmul(new(big.Int).Neg(c.R), d), binv(badd(d, bigOne), ref.N)), ref.N)
	case "t zero":
		c.S = bsub(ref.N, r)
	case "s=r":
		c.S = r
	case "random":
		c.R, c.S = genScalar(t, "rr", 0), genScalar(t, "rs", 0)
	case "small":
		c.R, c.S = i64(int64(intR(t, "sr", -2, 3))), i64(int64(intR(t, "ss", -2, 3)))
	case "big":
		v := new(big.Int).Lsh(ref.N, uint(intR(t, "sh", 1, 300)))
		if coin(t, "wr", 1, 2) {
			c.R = badd(r, v)
		} else {
			c.S = badd(s, v)
		}
	case "default id":
		if string(idOf(id)) == string(ref.DefaultID) {
			if id == nil {
				c.ID = HB(append([]byte{}, ref.DefaultID...))
			} else {
				c.ID = nil
			}
		} else {
			c.ID = nil
		}
	}
	return c
}

func runVerify(rec *Rec, c verifyCase) error {
	rec.Class("%s", c.Kind)
	rec.NT()
	want := ref.Verify(c.X, c.Y, idOf(c.ID), c.Msg, c.R, c.S)
	if want {
		rec.Class("accepted by the standard")
	}
	pub := mkPubXY(c.X, c.Y)
	if got := sm2.VerifyByRS(pub, c.ID, c.Msg, c.R, c.S); got != want {
		return fail("%s: VerifyByRS says %v, the standard %v", c.Kind, got, want)
	}
	der := ref.Seq(ref.Int(c.R), ref.Int(c.S))
	if got := sm2.Verify(pub, c.ID, c.Msg, der); got != want {
		return fail("%s: Verify says %v, the standard %v", c.Kind, got, want)
	}
	return nil
}

// ---- P12 ----

type sigDER struct {
	R, S *big.Int
	DER  HB // to be decoded
	// a genuine signature's context when Live
	Live    bool
	D       *big.Int
	ID, Msg HB
}

func genNonNeg(t *rapid.T, l string) *big.Int {
	switch intR(t, l+".kind", 0, 4) {
	case 0:
		return i64(int64(pick(t, l+".small", 0, 1, 2, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536)))
	case 1:
		n := new(big.Int).Lsh(bigOne, uint(intR(t, l+".bit", 0, 320)))
		if coin(t, l+".m1", 1, 2) {
			n.Sub(n, bigOne)
		}
		return n
	case 2:
		return new(big.Int).SetBytes(genFill(t, l+".b", intR(t, l+".n", 0, 130)))
	}
	return genScalar(t, l+".s", 0)
}

func genSigDER(t *rapid.T) sigDER {
	c := sigDER{R: genNonNeg(t, "r"), S: genNonNeg(t, "s")}
	der := ref.Seq(ref.Int(c.R), ref.Int(c.S))
	switch intR(t, "kind", 0, 5) {
	case 0:
		c.DER = der
	case 1:
		r, s := c.R, c.S
		if coin(t, "nr", 1, 2) {
			r = new(big.Int).Neg(r)
		} else {
			s = new(big.Int).Neg(s)
		}
		c.DER = ref.Seq(ref.Int(r), ref.Int(s))
	case 2:
		c.DER = genFill(t, "rnd", intR(t, "rndlen", 0, 20))
	default:
		c.DER = mutateDER(t, "mut", der)
		if coin(t, "again", 1, 4) {
			c.DER = mutateDER(t, "mut2", c.DER)
		}
	}
	return c
}

func runSigDER(rec *Rec, c sigDER) error {
	want := ref.Seq(ref.Int(c.R), ref.Int(c.S))
	got, err := sm2.MarshalSign(c.R, c.S)
	if err != nil || !bytes.Equal(got, want) {
		return fail("MarshalSign(%x, %x) = %x, %v; want %x", c.R, c.S, got, err, want)
	}
	r, s, err := sm2.UnmarshalSign(want)
	if err != nil || r == nil || s == nil || r.Cmp(c.R) != 0 || s.Cmp(c.S) != 0 {
		return fail("UnmarshalSign(%x) = %x, %x, %v", want, r, s, err)
	}
	if err := first(again("MarshalSign", func() []byte { o, _ := sm2.MarshalSign(c.R, c.S); return o }),
		againInts("UnmarshalSign", func() []*big.Int { r, s, _ := sm2.UnmarshalSign(want); return []*big.Int{r, s} })); err != nil {
		return err
	}
	wr, ws, ok := ref.ReadSig(c.DER)
	rec.Class("decoded input is canonical: %v", ok)
	if !bytes.Equal(c.DER, want) {
		rec.NT()
	}
	r, s, err = sm2.UnmarshalSign(c.DER)
	if ok != (err == nil) {
		return fail("UnmarshalSign(%x): error %v, but strict DER: %v", []byte(c.DER), err, ok)
	}
	if ok && (r.Cmp(wr) != 0 || s.Cmp(ws) != 0) {
		return fail("UnmarshalSign(%x) = %x, %x; want %x, %x", []byte(c.DER), r, s, wr, ws)
	}
	if !ok && (r != nil || s != nil) {
		return fail("UnmarshalSign(%x) returned numbers with an error", []byte(c.DER))
	}
	if c.Live {
		pub := ref.MulG(c.D)
		want := ok && ref.Verify(pub.X, pub.Y, idOf(c.ID), c.Msg, wr, ws)
		if got := sm2.Verify(mkPub(pub), c.ID, c.Msg, c.DER); got != want {
			return fail("Verify of signature bytes %x: %v, want %v", []byte(c.DER), got, want)
		}
	}
	return nil
}

func genLiveDER(t *rapid.T) sigDER {
	c := sigDER{Live: true, D: genScalar(t, "d", 1), ID: genID(t, "id"), Msg: genMsg(t, "msg", 60)}
	k := genScalar(t, "k", 0)
	r, s, ok := ref.SignK(c.D, idOf(c.ID), c.Msg, k)
	for i := int64(1); !ok; i++ {
		k = clampScalar(badd(k, i64(i)), nM1)
		r, s, ok = ref.SignK(c.D, idOf(c.ID), c.Msg, k)
	}
	c.R, c.S = r, s
	c.DER = ref.Seq(ref.Int(r), ref.Int(s))
	if coin(t, "mutate", 7, 8) {
		c.DER = mutateDER(t, "mut", c.DER)
	}
	return c
}

// ---- P13 ----

type nonceStep struct {
	Key int
	Msg HB
	RS  bool // SignToRS
	ID  HB   `json:",omitempty"`
	Enc int  `json:",omitempty"` // encrypt the message in this layout instead; 3 generates a key
}

type nonceHistory struct {
	Keys  []*big.Int
	Steps []nonceStep
	E     Entropy
	N     int // additional signatures
	LMsg  HB  // of this message
	LID   HB
	LMode int // 0 Sign, 1 SignToRS, 2 both; +3: the message changes
}

func genNonces(lo, hi, long int) func(t *rapid.T) nonceHistory {
	return func(t *rapid.T) nonceHistory {
		h := nonceHistory{E: genEntropy(t, "e", nil), N: long}
		for i, n := 0, intR(t, "keys", 1, 3); i < n; i++ {
			h.Keys = append(h.Keys, genScalar(t, "d", 1))
		}
		msgs := []HB{genMsg(t, "m0", 40), genMsg(t, "m1", 40)}
		if coin(t, "longer", 1, 3) {
			msgs = append(msgs, genMsg(t, "m2", 3000))
		}
		ids := []HB{nil, genID(t, "id")}
		for i, n := 0, intR(t, "n", lo, hi); i < n; i++ {
			st := nonceStep{Key: intR(t, "key", 0, len(h.Keys)-1), Msg: pick(t, "msg", msgs...), RS: coin(t, "rs", 1, 2), ID: pick(t, "withid", ids...)}
			if coin(t, "enc", 1, 4) {
				st.Enc = intR(t, "layout", 1, 3)
				if len(st.Msg) == 0 {
					st.Msg = HB{1}
				}
			}
			h.Steps = append(h.Steps, st)
		}
		if long > 0 {
			h.LMsg = pick(t, "lmsg", HB("same message"), genMsg(t, "lm", 100), genMsg(t, "lm2", 5000), genMsg(t, "lm3", 40))
			h.LID, h.LMode = pick(t, "lid", ids...), intR(t, "lmode", 0, 5)
		}
		return h
	}
}

func runNonces(rec *Rec, c nonceHistory) error {
	src := setEntropy(c.E)
	rec.NT()
	rec.Class("delivery mode %d", c.E.Mode)
	rec.Class("keys: %d", len(c.Keys))
	steps := c.Steps
	for i := 0; i < c.N; i++ {
		st := nonceStep{Key: i % len(c.Keys), Msg: c.LMsg, ID: c.LID, RS: c.LMode%3 == 1 || c.LMode%3 == 2 && i%2 == 0}
		if c.LMode >= 3 {
			st.Msg = append(append(HB{}, c.LMsg...), byte(i), byte(i>>8))
		}
		steps = append(steps, st)
	}
	if c.N > 0 {
		rec.Class("long messages: %v", len(c.LMsg) > 256)
	}
	var ks []*big.Int
	var hidden []*big.Int // abscissas of points made from secret scalars that are not nonces
	for i, st := range steps {
		d := c.Keys[st.Key]
		if st.Enc == 3 {
			priv, pub, err := sm2.GenerateKey(src)
			if err != nil {
				return fail("GenerateKey: %v", err)
			}
			rec.Class("with other operations")
			hidden = append(hidden, new(big.Int).Set(pub.X), ref.MulG(priv.D).X)
			continue
		}
		if st.Enc > 0 {
			ct, err := sm2.Encrypt(mkPub(ref.MulG(d)), st.Msg, lay(st.Enc))
			if err != nil {
				return fail("Encrypt: %v", err)
			}
			if len(ct) != 97+len(st.Msg) {
				return fail("ciphertext of %d bytes for %d bytes", len(ct), len(st.Msg))
			}
			hidden = append(hidden, new(big.Int).SetBytes(ct[1:33]))
			continue
		}
		var r, s *big.Int
		if st.RS {
			var err error
			if r, s, err = sm2.SignToRS(mkPriv(d), st.ID, st.Msg); err != nil {
				return fail("SignToRS: %v", err)
			}
		} else {
			der, err := sm2.Sign(mkPriv(d), st.ID, st.Msg)
			if err != nil {
				return fail("Sign: %v", err)
			}
			var ok bool
			if r, s, ok = ref.ReadSig(der); !ok {
				return fail("signature %x", der)
			}
		}
		pub := ref.MulG(d)
		if !ref.Verify(pub.X, pub.Y, idOf(st.ID), st.Msg, r, s) {
			return fail("signature %d is invalid", i)
		}
		k := ref.Nonce(d, r, s)
		if k.Sign() == 0 {
			return fail("nonce 0")
		}
		if k.Cmp(d) == 0 {
			return fail("signature %d uses the private key as its nonce", i)
		}
		ks = append(ks, k)
	}
	if src.given < 31*len(steps) {
		return fail("%d operations were made from %d bytes of entropy", len(steps), src.given)
	}
	seen := map[string]bool{}
	for _, x := range hidden {
		seen[string(b32(x))] = true
	}
	if len(hidden) > 0 {
		for i, k := range ks {
			if seen[string(b32(ref.MulG(k).X))] {
				return fail("nonce %d is also the secret of an encryption or a key of the same history: %x", i, k)
			}
		}
	}
	return checkUniform(ks)
}

// checkUniform rejects repeated, related or structurally short scalars. Every
// bound holds for uniform scalars except with probability below 2^-50.
func checkUniform(ks []*big.Int) error {
	all := make([]*big.Int, 0, 2*len(ks))
	for i, k := range ks {
		if k.BitLen() < 190 {
			return fail("nonce %d has only %d bits: %x", i, k.BitLen(), k)
		}
		if z := k.TrailingZeroBits(); z > 66 {
			return fail("nonce %d has %d trailing zero bits: %x", i, z, k)
		}
		ones := 0
		for b := 0; b < 256; b++ {
			ones += int(k.Bit(b))
		}
		if ones < 52 || ones > 204 {
			return fail("nonce %d has %d bits set: %x", i, ones, k)
		}
		// equal halves or words
		b := b32(k)
		if bytes.Equal(b[:16], b[16:]) || bytes.Equal(b[:8], b[8:16]) && bytes.Equal(b[8:16], b[16:24]) {
			return fail("nonce %d repeats itself: %x", i, k)
		}
		all = append(all, k, bsub(ref.N, k))
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Cmp(all[j]) < 0 })
	for i := 1; i < len(all); i++ {
		d := bsub(all[i], all[i-1])
		if d.Sign() == 0 {
			return fail("nonce %x is used twice", all[i])
		}
		if d.BitLen() < 180 && badd(all[i], all[i-1]).Cmp(ref.N) != 0 {
			return fail("nonces %x and %x are related", all[i], all[i-1])
		}
	}
	if len(ks) >= 64 { // each bit position varies
		n := len(ks)
		for b := 0; b < 256; b++ {
			ones := 0
			for _, k := range ks {
				ones += int(k.Bit(b))
			}
			if ones < n/10 || ones > n-n/10 {
				return fail("bit %d is set in %d of %d nonces", b, ones, n)
			}
		}
	}
	return nil
}

// ---- P14 ----

type idCase struct {
	D        *big.Int
	ID1, ID2 HB
	Msg      HB
	K        *big.Int
	Seed     uint64
}

func genIDs(t *rapid.T) idCase {
	c := idCase{D: genScalar(t, "d", 1), ID1: genID(t, "id1"), Msg: genMsg(t, "msg", 60), K: genScalar(t, "k", 0), Seed: u64(t, "seed")}
	switch intR(t, "rel", 0, 6) {
	case 0:
		c.ID2 = c.ID1
	case 1:
		c.ID2 = HB(mutateBytes(t, "mut", idOf(c.ID1)))
	case 2: // lengths that agree modulo 32 bytes or 256 bits
		c.ID2 = append(append(HB{}, c.ID1...), make([]byte, pick(t, "pad", 1, 32, 64, 256))...)
	case 3:
		c.ID1, c.ID2 = nil, HB{}
	case 4:
		c.ID1, c.ID2 = nil, HB(append([]byte{}, ref.DefaultID...))
	case 5:
		c.ID2 = nil
	default:
		c.ID2 = genID(t, "id2")
	}
	if len(c.ID2) > 8191 {
		c.ID2 = c.ID2[:8191]
	}
	if coin(t, "swap", 1, 2) {
		c.ID1, c.ID2 = c.ID2, c.ID1
	}
	return c
}

func runIDs(rec *Rec, c idCase) error {
	same := bytes.Equal(idOf(c.ID1), idOf(c.ID2))
	rec.Class("same identity: %v (nil %v/%v, empty %v/%v)", same, c.ID1 == nil, c.ID2 == nil, len(c.ID1) == 0, len(c.ID2) == 0)
	if !same {
		rec.NT()
	}
	pub := ref.MulG(c.D)
	lpub := mkPub(pub)
	seedEntropy(c.Seed)
	r, s, err := sm2.SignToRS(mkPriv(c.D), c.ID1, c.Msg)
	if err != nil {
		return fail("SignToRS: %v", err)
	}
	if !ref.Verify(pub.X, pub.Y, idOf(c.ID1), c.Msg, r, s) {
		return fail("the signature under identity %s is not valid for another implementation", hexs(c.ID1))
	}
	if got := sm2.VerifyByRS(lpub, c.ID2, c.Msg, r, s); got != same {
		return fail("signature under identity %s verifies under %s: %v", hexs(c.ID1), hexs(c.ID2), got)
	}
	if r, s, ok := ref.SignK(c.D, idOf(c.ID2), c.Msg, c.K); ok {
		if !sm2.VerifyByRS(lpub, c.ID2, c.Msg, r, s) {
			return fail("another implementation's signature under identity %s is rejected", hexs(c.ID2))
		}
		if got := sm2.VerifyByRS(lpub, c.ID1, c.Msg, r, s); got != same {
			return fail("another implementation's signature under %s verifies under %s: %v", hexs(c.ID2), hexs(c.ID1), got)
		}
	}
	return nil
}

func init() {
	register("P08",
		NewSub("generate", "entropy streams (steered to 0, 1, n-2, n-1, n and above, delivered whole or in pieces): keys in [1, n-2] with the reference public point; non-trivial: all", 4000, 150000, genKeygen, runKeygen),
		NewSub("derive", "generated and edge scalars of [1, n-1]: CalculatePubKey against the reference multiplication; non-trivial: scalar above 16 bits", 6000, 250000, func(t *rapid.T) scalarCase { return scalarCase{genScalar(t, "d", 0)} }, runDerive, edgeScalars(0)...))
	register("P09", NewSub("raw", "generated private keys, public points (many with leading zero bytes) and inputs of wrong lengths; non-trivial: a number has a leading zero byte", 40000, 1000000, genRaw, runRaw),
		NewSub("extreme", "public keys with an extreme coordinate: encoded and decoded; non-trivial: all", 20000, 500000, genXKey, runXRaw))
	register("P10",
		NewSub("sign", "generated keys, identities, messages and entropy (steered nonces, nonces to skip, messages searched for short r or s): standard verification of what Sign and SignToRS return; non-trivial: all", 4000, 120000, genSign, runSign),
		NewSub("extreme", "signing with d = n-1; non-trivial: all", 100, 1000, func(t *rapid.T) extremeCase {
			return extremeCase{genID(t, "id"), genMsg(t, "m", 50), u64(t, "seed")}
		}, runExtreme))
	register("P11", NewSub("verify", "reference-made signatures and 33 kinds of altered, congruent, degenerate or forged ones: both verifiers against the standard equation; non-trivial: all", 8000, 250000, genVerify, runVerify))
	register("P12",
		NewSub("der", "generated pairs of non-negative integers and valid, negative, mutated or random encodings against a strict DER reader; non-trivial: the decoded input is not the canonical encoding", 40000, 1500000, genSigDER, runSigDER),
		NewSub("live", "encodings of genuine signatures with one structural or byte change through Verify; non-trivial: changed", 4000, 120000, genLiveDER, runSigDER))
	register("P13",
		NewSub("history", "histories of 10-40 signatures, encryptions and generated keys over 1-3 keys, 2-3 messages and 2 identities with entropy delivered whole or in pieces: nonces recovered with the private key, compared with each other and with the secrets of the other operations; non-trivial: all", 240, 8000, genNonces(10, 40, 0), runNonces),
		Slow(NewSub("bits", "histories of 200 and more signatures: every bit position of the nonces varies; non-trivial: all", 16, 400, genNonces(1, 10, 200), runNonces), 200),
		NewSub("together", "2-12 goroutines with 1-3 signatures, encryptions and generated keys each, drawing from one slow source at the same time: outcomes valid, secrets distinct and unrelated; non-trivial: all", 160, 6000, genTogether(2), runTogether))
	register("P14", NewSub("identity", "pairs of identities (nil, empty, default, prefixes, one-bit changes, up to 8191 bytes): cross verification with the reference; non-trivial: different identities", 3000, 100000, genIDs, runIDs))
}
