package main

import (
	"crypto/x509"
	"encoding/asn1"
	"math/big"
	"time"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/cryptobyte"
	casn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"pgregory.net/rapid"
)

// ---- P32 ----

// mutations applies 0-4 changes.
func mutations(t *rapid.T, b []byte) []byte {
	for i := pick(t, "mutations", 0, 1, 1, 1, 2, 3, 4); i > 0; i-- {
		b = mutateDER(t, "mut"+itoa(i), b)
	}
	return b
}

type totalCase struct {
	Kind string
	In   HB
	ID   HB
	Key  Key
	N    int
	Raw2 HB `json:",omitempty"`
}

func genTotalCert(t *rapid.T) totalCase {
	c := totalCase{ID: genID(t, "id"), Key: genKey(t, "ca"), N: intR(t, "n", 0, 3)}
	var b []byte
	switch intR(t, "from", 0, 9) {
	case 0:
		b = genBytes(t, "raw", 300, 16)
		c.Kind = "random bytes"
	case 1, 2:
		b = genForeignNC(t).der()
		c.Kind = "constraints"
	case 3, 4:
		b = genForeignSAN(t).der()
		c.Kind = "names"
	case 5:
		a := genAlg(t)
		b, _, _, _ = a.build(&Rec{})
		c.Kind = "algorithms"
	case 6:
		s := csrSig{Key: genKey(t, "key"), ID: c.ID, Subject: genRDNs(t, "subject"), Kind: "genuine", K: genScalar(t, "k", 0), Seed: 3}
		b, _ = s.build()
		c.Kind = "signed request"
	case 7: // a request with odd attributes
		f := Foreign{Key: genKey(t, "key"), Subject: genRDNs(t, "subject"), CSR: true, Sig: HB{1}}
		f.Exts = append(genUnknownExts(t, "x", 2), Ext{OID: oidSAN, V: genExtValue(t, "v", oidSAN)})
		b = f.der()
		c.Kind = "request"
	default:
		b = genForeignExts(t).der()
		c.Kind = "extensions"
	}
	c.In = mutations(t, b)
	return c
}

func runTotalCert(rec *Rec, c totalCase) error {
	in := append([]byte{}, c.In...)
	setEntropy(Entropy{Seed: 5})
	x, err := cert.ParseCertificate(in)
	rec.Class("%s: certificate %v", c.Kind, err == nil)
	if (x == nil) != (err != nil) {
		return fail("ParseCertificate returns %v and the error %v", x != nil, err)
	}
	if err == nil {
		rec.NT()
		// use it as an issuer, and its key
		t := &x509.Certificate{SerialNumber: i64(4), NotAfter: time.Unix(1e9, 0)}
		if c.N == 0 {
			t.RawSubject = x.RawSubject
		}
		if info, err := cert.CreateCertificateInfo(t, x, reqFor(c.Key.pt())); err == nil {
			if _, err := cert.CreateCertificate(info, []byte{1}); err != nil {
				return fail("CreateCertificate: %v", err)
			}
		}
		if c.N == 1 {
			sm2.Verify(x.PublicKey.(*sm2.PublicKey), c.ID, x.RawTBSCertificate, x.Signature)
		}
	}
	r, err := cert.ParseCertificateRequest(in)
	if (r == nil) != (err != nil) {
		return fail("ParseCertificateRequest returns %v and the error %v", r != nil, err)
	}
	rec.Class("%s: request %v", c.Kind, err == nil)
	ok, verr := cert.VerifyDERCSRSign(in, c.ID)
	if ok && verr != nil || (verr == nil) != (err == nil) {
		return fail("VerifyDERCSRSign: %v, %v; ParseCertificateRequest: %v", ok, verr, err)
	}
	if err == nil {
		rec.NT()
		cert.VerifyCSRSign(r, c.ID)
		t := &x509.Certificate{SerialNumber: i64(4), NotAfter: time.Unix(1e9, 0)}
		cert.FillCertificateTemplateByCSR(t, r)
		if info, err := cert.CreateCertificateInfo(t, &x509.Certificate{}, r); err == nil {
			if _, err := cert.CreateCertificate(info, []byte{1}); err != nil {
				return fail("CreateCertificate: %v", err)
			}
		}
	}
	return nil
}

// sweepTotal lists the certificates of the two sweeps.
func sweepTotal() (o []totalCase) {
	for i, f := range append(sweepNC(), sweepSAN()...) {
		o = append(o, totalCase{Kind: "sweep", In: f.der(), Key: Key(i % keyPool), N: 3})
	}
	return
}

func genTotalSM2(t *rapid.T) totalCase {
	c := totalCase{ID: genID(t, "id"), Key: genKey(t, "key"), N: pick(t, "layout", 1, 2, 1, 2, 0, 3, -1)}
	m := genMsg(t, "m", 100)
	l := 1
	if c.N == 2 {
		l = 2
	}
	var b []byte
	switch intR(t, "from", 0, 8) {
	case 0:
		c.Kind = "random bytes"
		b = genBytes(t, "raw", 200, 32)
	case 1, 2:
		c.Kind = "signature"
		r, s, _ := ref.SignK(c.Key.d(), idOf(c.ID), m, genScalar(t, "k", 0))
		b = mutations(t, ref.Seq(ref.Int(r), ref.Int(s)))
	case 3:
		c.Kind = "numbers"
		b = ref.Seq(ref.Int(genInt(t, "r", 600)), ref.Int(genInt(t, "s", 600)))
	case 4, 5:
		c.Kind = "ciphertext"
		b, _ = ref.EncryptK(c.Key.pt(), m, genScalar(t, "k", 0), l)
		for i := intR(t, "muts", 0, 2); i > 0; i-- {
			b = mutateBytes(t, "mb"+itoa(i), b)
		}
	default:
		c.Kind = "envelope"
		ct, _ := ref.EncryptK(c.Key.pt(), m, genScalar(t, "k", 0), l)
		x, y := new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])
		if coin(t, "oddxy", 1, 3) {
			x, y = genInt(t, "x", 600), genInt(t, "y", 300)
		}
		u, v := ct[65:97], ct[97:]
		if l == 1 {
			u, v = ct[65:len(ct)-32], ct[len(ct)-32:]
		}
		b = mutations(t, ref.Seq(ref.Int(x), ref.Int(y), ref.Octets(u), ref.Octets(v)))
	}
	c.In, c.Raw2 = b, m
	return c
}

func runTotalSM2(rec *Rec, c totalCase) error {
	in := append([]byte{}, c.In...)
	if len(in) > 0 {
		rec.NT()
	}
	rec.Class("%s", c.Kind)
	priv, pub := c.Key.priv(), c.Key.pub()
	if r, s, err := sm2.UnmarshalSign(in); err == nil {
		if r == nil || s == nil {
			return fail("UnmarshalSign returns no numbers and no error")
		}
		rec.Class("signature decoded")
		sm2.VerifyByRS(pub, c.ID, c.Raw2, r, s)
	}
	sm2.Verify(pub, c.ID, c.Raw2, in)
	for _, l := range []int{1, 2, c.N} {
		if raw, err := sm2.UnmarshalCipher(in, lay(l)); err == nil {
			rec.Class("envelope decoded")
			sm2.Decrypt(priv, raw, lay(l))
			sm2.MarshalCipher(raw, lay(l))
		}
		if _, err := sm2.Decrypt(priv, in, lay(l)); err == nil {
			rec.Class("decrypted")
		}
		if b, err := sm2.MarshalCipher(in, lay(l)); err == nil {
			sm2.UnmarshalCipher(b, lay(l))
		}
	}
	return nil
}

func genTotalKey(t *rapid.T) totalCase {
	c := totalCase{ID: genID(t, "id"), Key: genKey(t, "key"), N: pick(t, "layout", 1, 2)}
	coord := func(l string, v *big.Int) []byte {
		switch intR(t, l, 0, 6) {
		case 0:
			return b32(pick(t, l+".e", i64(0), i64(1), ref.P, bsub(ref.P, bigOne), ref.N, ref.Gx, ref.Gy, bsub(new(big.Int).Lsh(bigOne, 256), bigOne)))
		case 1:
			return genFill(t, l+".f", 32)
		}
		return b32(v)
	}
	p := ref.MulG(genScalar(t, "d", 0))
	if coin(t, "liftx", 1, 8) {
		p.X = i64(0)
		if y := ref.LiftX(p.X); y != nil {
			p.Y = y
		}
	}
	c.In = ref.Cat(coord("x", p.X), coord("y", p.Y))
	if coin(t, "len", 1, 10) {
		c.In = genBytes(t, "any", 130, 32)
	}
	c.Raw2 = b32(genScalar(t, "priv", 0))
	if coin(t, "oddpriv", 1, 3) {
		c.Raw2 = pick(t, "pk", HB(make([]byte, 32)), HB(b32(ref.N)), HB(b32(nM1)), HB(b32(bsub(new(big.Int).Lsh(bigOne, 256), bigOne))), genBytes(t, "pkb", 64, 32))
	}
	return c
}

func runTotalKey(rec *Rec, c totalCase) error {
	rec.NT()
	setEntropy(Entropy{Seed: uint64(c.Key)})
	m := []byte("message")
	var pub *sm2.PublicKey
	var err error
	if pub, err = sm2.RawBytesToPublicKey(append([]byte{}, c.In...)); err == nil {
		on := ref.OnCurve(pub.X, pub.Y)
		rec.Class("public key: on curve %v", on)
		pub.GetRawBytes()
		pub.GetUnCompressBytes()
		sm2.VerifyByRS(pub, c.ID, m, i64(3), i64(5))
		sm2.Verify(pub, c.ID, m, ref.Seq(ref.Int(nM1), ref.Int(i64(1))))
		if on || c.N == 1 { // retries end only by chance off the curve
			sm2.Encrypt(pub, m, lay(c.N))
		}
		for _, init := range []bool{true, false} {
			tag := randBytes(7, []int{32, 0, 1, 31, 33}[int(c.Key)%5])
			sm2.CalculateKeyWithConfirmation(init, 128, tag, c.Key.priv(), Key(1).priv(), c.ID, pub, Key(2).pub(), nil)
			sm2.CalculateKeyWithConfirmation(init, 128, tag, c.Key.priv(), Key(1).priv(), c.ID, Key(2).pub(), pub, nil)
		}
	}
	priv, err := sm2.RawBytesToPrivateKey(append([]byte{}, c.Raw2...))
	if err != nil {
		rec.Class("private key refused")
		return nil
	}
	zero := bmod(priv.D, ref.N).Sign() == 0
	rec.Class("private key in range %v", priv.D.Sign() > 0 && priv.D.Cmp(nM1) < 0)
	priv.GetRawBytes()
	sm2.CalculatePubKey(priv)
	if _, err := sm2.Sign(priv, c.ID, m); err == nil && zero {
		rec.Class("signed with a zero key")
	}
	ct, _ := ref.EncryptK(c.Key.pt(), m, i64(99), c.N)
	sm2.Decrypt(priv, ct, lay(c.N))
	sm2.CalculateKeyWithConfirmation(false, 128, nil, priv, Key(1).priv(), c.ID, Key(2).pub(), Key(3).pub(), nil)
	sm2.CalculateKeyWithConfirmation(true, 128, make([]byte, 32), Key(1).priv(), priv, c.ID, Key(2).pub(), Key(3).pub(), nil)
	return nil
}

type totalSym struct {
	Key, IV, Data HB
	Unpad         int
}

func runTotalSym(rec *Rec, c totalSym) error {
	rec.NT()
	rec.Class("key %v iv %v data %v", len(c.Key) == 16, len(c.IV) == 16, len(c.Data)%16 == 0)
	for _, f := range []func() ([]byte, error){
		func() ([]byte, error) { return sm4.ECBDecrypt(c.Key, c.Data) },
		func() ([]byte, error) { return sm4.CBCDecrypt(c.Key, c.IV, c.Data) },
		func() ([]byte, error) { return sm4.ECBEncrypt(c.Key, c.Data) },
		func() ([]byte, error) { return sm4.CBCEncrypt(c.Key, c.IV, c.Data) },
	} {
		out, err := f()
		if err != nil && out != nil {
			return fail("%x together with the error %v", out, err)
		}
		u := util.PKCS5UnPadding(out)
		if len(u) > len(out) {
			return fail("unpadding gives %d bytes of %d", len(u), len(out))
		}
		util.UnZeroPadding(out, min(c.Unpad, len(out)))
	}
	util.PKCS5UnPadding(c.Data)
	util.UnZeroPadding(c.Data, min(c.Unpad, len(c.Data)))
	return nil
}

// readers: every reader on any bytes.
type totalRead struct {
	In  HB
	Tag int
	N   int
}

func genTotalRead(t *rapid.T) totalRead {
	c := totalRead{Tag: pick(t, "tag", 2, 3, 4, 6, 0x30, 0x31, 0xa0, 0x80, 0xff, 0), N: intR(t, "n", -3, 300)}
	switch intR(t, "from", 0, 3) {
	case 0:
		c.In = genBytes(t, "raw", 400, 128)
	case 1:
		b, err := encodeAll([]BNode{genBNode(t, 3, false), genBNode(t, 2, false)})
		if err != nil {
			b = nil
		}
		c.In = mutations(t, b)
	case 2: // a header with any length
		c.In = ref.Cat([]byte{byte(c.Tag)}, genFill(t, "len", intR(t, "ll", 0, 9)), genBytes(t, "rest", 300))
		if coin(t, "long", 2, 3) && len(c.In) > 1 {
			c.In[1] = 0x80 | byte(intR(t, "ln", 0, 9))
		}
	default:
		r := genRead(t)
		c.In, c.Tag = mutations(t, r.Data), r.Tag
	}
	return c
}

func runTotalRead(rec *Rec, c totalRead) error {
	if len(c.In) > 1 {
		rec.NT()
	}
	tag := casn1.Tag(c.Tag)
	g := newGuard(c.In, 16)
	n := 0
	try := func(f func(s *cryptobyte.String) bool) error {
		s := cryptobyte.String(g.b()[:len(c.In):len(c.In)])
		if f(&s) {
			n++
		}
		if len(s) > len(c.In) {
			return fail("%d bytes are left of %d", len(s), len(c.In))
		}
		return nil
	}
	var s1, s2 cryptobyte.String
	var b1 []byte
	var u8 uint8
	var u16 uint16
	var u32 uint32
	var i64v int64
	var u64v uint64
	var iv int
	var ok bool
	var oid asn1.ObjectIdentifier
	var bits asn1.BitString
	var tm time.Time
	var anyTag casn1.Tag
	for i, f := range []func(s *cryptobyte.String) bool{
		func(s *cryptobyte.String) bool { return s.Skip(c.N) },
		func(s *cryptobyte.String) bool { return s.ReadBytes(&b1, c.N) },
		func(s *cryptobyte.String) bool { return s.ReadUint8(&u8) },
		func(s *cryptobyte.String) bool { return s.ReadUint16(&u16) },
		func(s *cryptobyte.String) bool { return s.ReadUint24(&u32) },
		func(s *cryptobyte.String) bool { return s.ReadUint32(&u32) },
		func(s *cryptobyte.String) bool { return s.ReadUint8LengthPrefixed(&s1) },
		func(s *cryptobyte.String) bool { return s.ReadUint16LengthPrefixed(&s1) },
		func(s *cryptobyte.String) bool { return s.ReadUint24LengthPrefixed(&s1) },
		func(s *cryptobyte.String) bool { return s.ReadASN1(&s2, tag) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Element(&s2, tag) },
		func(s *cryptobyte.String) bool { return s.ReadAnyASN1(&s2, &anyTag) },
		func(s *cryptobyte.String) bool { return s.ReadAnyASN1Element(&s2, &anyTag) },
		func(s *cryptobyte.String) bool { return s.SkipASN1(tag) },
		func(s *cryptobyte.String) bool { return s.SkipOptionalASN1(tag) },
		func(s *cryptobyte.String) bool { return s.PeekASN1Tag(tag) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Boolean(&ok) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Integer(&iv) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Integer(&i64v) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Integer(&u64v) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Integer(&u8) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Integer(new(big.Int)) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Enum(&iv) },
		func(s *cryptobyte.String) bool { return s.ReadASN1ObjectIdentifier(&oid) },
		func(s *cryptobyte.String) bool { return s.ReadASN1GeneralizedTime(&tm) },
		func(s *cryptobyte.String) bool { return s.ReadASN1BitString(&bits) },
		func(s *cryptobyte.String) bool { return s.ReadASN1BitStringAsBytes(&b1) },
		func(s *cryptobyte.String) bool { return s.ReadASN1Bytes(&b1, tag) },
		func(s *cryptobyte.String) bool { return s.ReadOptionalASN1(&s2, &ok, tag) },
		func(s *cryptobyte.String) bool { return s.ReadOptionalASN1Integer(&iv, tag, 3) },
		func(s *cryptobyte.String) bool { return s.ReadOptionalASN1OctetString(&b1, &ok, tag) },
		func(s *cryptobyte.String) bool { return s.ReadOptionalASN1Boolean(&ok, true) },
	} {
		if err := try(f); err != nil {
			return fail("reader %d: %v", i, err)
		}
	}
	rec.Class("%d readers succeed", n/4*4)
	return g.check("readers")
}

func init() {
	register("P32",
		NewSweep("sweep", "the values of the sweeps of P33 and P34 in certificates and requests, parsed, verified and used as in certificates; non-trivial: parsed", sweepTotal, runTotalCert),
		NewSub("certificates", "certificates and requests of the generators of P25, P30, P31, P33, P34 and random bytes with 0-4 structural or byte changes, parsed, verified and used as issuer or request; non-trivial: parsed", 120000, 5000000, genTotalCert, runTotalCert),
		NewSub("sm2", "signatures, ciphertexts and envelopes with 0-4 changes, odd numbers, random bytes, through every SM2 decoder, verification and decryption in known and unknown layouts; non-trivial: not empty", 24000, 200000, genTotalSM2, runTotalSM2),
		NewSub("keys", "raw public and private keys on and off the curve, zero, out of range and of wrong size, then used for everything; non-trivial: all", 1600, 60000, genTotalKey, runTotalKey),
		NewSub("sm4", "keys, vectors and data of any size through the SM4 modes and padding removal; non-trivial: all", 40000, 1000000, func(t *rapid.T) totalSym {
			return totalSym{genSized(t, "key", 40), genSized(t, "iv", 40), genSized(t, "data", 300), intR(t, "unpad", 0, 300)}
		}, runTotalSym),
		NewSub("readers", "every reader of the byte strings on random bytes, mutated encodings and headers with any length; non-trivial: more than one byte", 120000, 5000000, genTotalRead, runTotalRead))
}

// genSized draws bytes whose length is often 16, or a multiple for long ones.
func genSized(t *rapid.T, l string, max int) HB {
	if coin(t, l+".fit", 2, 3) {
		n := 16
		if max > 100 {
			n *= intR(t, l+".blocks", 0, 8)
		}
		return HB(genFill(t, l, n))
	}
	return genBytes(t, l, max, 16)
}
