package main

import (
	"bytes"
	"crypto/elliptic"
	"crypto/x509"
	"math/big"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"pgregory.net/rapid"
)

// ---- P43: the exported curve as a group ----

type groupCase struct {
	Op   string
	From int        // where the curve object comes from
	D, E *big.Int   // the points are D*G and E*G; a multiple of n is infinity
	X, Y *big.Int   `json:",omitempty"` // coordinates for the membership test
	K    HB         // scalar bytes
	Lead SmallPoint `json:",omitempty"` // replaces the first point when it has an x
	Ext  *XPoint    `json:",omitempty"` // replaces the first point
}

func (c groupCase) first() ref.Pt {
	if c.Ext != nil {
		return c.Ext.pt()
	}
	if c.Lead.Hex != "" {
		u := c.Lead.U()
		return ref.MulG(u)
	}
	return ref.MulG(c.D)
}

func genGroup(t *rapid.T) groupCase {
	c := groupCase{Op: pick(t, "op", "member", "add", "add", "double", "mult", "mult", "base", "base", "codec"), From: intR(t, "from", 0, 4)}
	c.D = genScalar(t, "d", 0)
	if coin(t, "inf", 1, 12) {
		c.D = new(big.Int)
	}
	if coin(t, "lead", 1, 4) {
		c.Lead = pick(t, "point", smallCoord...)
	}
	if coin(t, "extreme", 1, 4) {
		x := genXPoint(t, "xp")
		c.Ext = &x
	}
	switch c.Op {
	case "add":
		switch intR(t, "rel", 0, 5) {
		case 0:
			c.E, c.Lead, c.Ext = new(big.Int).Set(c.D), SmallPoint{}, nil
		case 1:
			c.E, c.Lead, c.Ext = bmod(new(big.Int).Neg(c.D), ref.N), SmallPoint{}, nil
		case 2:
			c.E = new(big.Int)
		default:
			c.E = genScalar(t, "e", 0)
		}
	case "mult", "base":
		switch intR(t, "kind", 0, 5) {
		case 0:
			c.K = genFill(t, "k", intR(t, "kn", 0, 70))
		case 1: // around multiples of the order
			k := badd(bmul(ref.N, i64(int64(intR(t, "m", 0, 3)))), i64(int64(intR(t, "off", -3, 3))))
			c.K = k.Abs(k).Bytes()
		case 2:
			c.K = append(make([]byte, intR(t, "zeros", 1, 40)), genScalar(t, "kz", 0).Bytes()...)
		default:
			c.K = b32(genScalar(t, "ks", 0))
		}
	case "member":
		p := c.first()
		if p.Inf {
			p = ref.Pt{X: new(big.Int), Y: new(big.Int)}
		}
		c.X, c.Y = new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
		switch intR(t, "change", 0, 9) {
		case 0:
			c.X.Add(c.X, ref.P)
		case 1:
			c.Y.Add(c.Y, ref.P)
		case 2:
			c.X.Sub(c.X, ref.P)
		case 3:
			c.Y.Neg(c.Y)
		case 4:
			c.Y.Sub(ref.P, c.Y)
		case 5:
			c.X.SetBit(c.X, intR(t, "bx", 0, 256), uint(intR(t, "b", 0, 1)))
		case 6:
			c.Y.SetBit(c.Y, intR(t, "by", 0, 256), uint(intR(t, "b", 0, 1)))
		case 7: // a point of the same field but another b
			c.X = bmod(c.X, ref.P)
			c.Y = bmod(badd(c.Y, bigOne), ref.P)
		}
	}
	return c
}

// curveOf obtains the curve in one of the ways a program can.
func curveOf(from int) (sm2.P256V1Curve, error) {
	switch from {
	case 1:
		p, err := sm2.RawBytesToPrivateKey(b32(i64(77)))
		if err != nil {
			return sm2.P256V1Curve{}, fail("RawBytesToPrivateKey: %v", err)
		}
		return p.Curve, nil
	case 2:
		q := ref.MulG(i64(77))
		p, err := sm2.RawBytesToPublicKey(ref.Cat(b32(q.X), b32(q.Y)))
		if err != nil {
			return sm2.P256V1Curve{}, fail("RawBytesToPublicKey: %v", err)
		}
		return p.Curve, nil
	case 3:
		priv, pub, err := sm2.GenerateKey(newEntropy(Entropy{Seed: 3}))
		if err != nil {
			return sm2.P256V1Curve{}, fail("GenerateKey: %v", err)
		}
		if err := checkCurve(priv.Curve); err != nil {
			return sm2.P256V1Curve{}, err
		}
		return pub.Curve, nil
	case 4:
		return sm2.CalculatePubKey(mkPriv(i64(9))).Curve, nil
	}
	return sm2.GetSm2P256V1(), nil
}

func affineXY(p ref.Pt) (x, y *big.Int) {
	if p.Inf {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
}

func runGroup(rec *Rec, c groupCase) error {
	curve, err := curveOf(c.From)
	if err != nil {
		return err
	}
	if err := checkCurve(curve); err != nil {
		return err
	}
	var e elliptic.Curve = curve
	if p := e.Params(); p == nil || p.P.Cmp(ref.P) != 0 || p.N.Cmp(ref.N) != 0 || p.B.Cmp(ref.B) != 0 || p.Gx.Cmp(ref.Gx) != 0 || p.Gy.Cmp(ref.Gy) != 0 || p.BitSize != 256 {
		return fail("the parameters reported are %+v", p)
	}
	p := c.first()
	px, py := affineXY(p)
	sx, sy := new(big.Int).Set(px), new(big.Int).Set(py)
	rec.Class("%s", c.Op)
	if !p.Inf {
		rec.NT()
	}
	var gx, gy *big.Int
	var want ref.Pt
	k := append([]byte{}, c.K...)
	switch c.Op {
	case "member":
		if got, w := e.IsOnCurve(c.X, c.Y), ref.OnCurve(c.X, c.Y); got != w {
			return fail("IsOnCurve(%x, %x) = %v", c.X, c.Y, got)
		}
		return nil
	case "add":
		q := ref.MulG(c.E)
		qx, qy := affineXY(q)
		gx, gy = e.Add(px, py, qx, qy)
		if wx, wy := affineXY(q); qx.Cmp(wx) != 0 || qy.Cmp(wy) != 0 {
			return fail("Add changed its second point")
		}
		want = ref.AddPt(p, q)
	case "double":
		gx, gy = e.Double(px, py)
		want = ref.AddPt(p, p)
	case "mult":
		gx, gy = e.ScalarMult(px, py, k)
		want = ref.Mul(p, new(big.Int).SetBytes(c.K))
	case "base":
		gx, gy = e.ScalarBaseMult(k)
		want = ref.MulG(new(big.Int).SetBytes(c.K))
	case "codec":
		if p.Inf {
			return nil
		}
		raw := elliptic.Marshal(e, px, py)
		if !bytes.Equal(raw, ref.Cat([]byte{4}, b32(px), b32(py))) {
			return fail("elliptic.Marshal gives %x", raw)
		}
		gx, gy = elliptic.Unmarshal(e, raw)
		if gx == nil {
			return fail("elliptic.Unmarshal refuses %x", raw)
		}
		want = p
	}
	if px.Cmp(sx) != 0 || py.Cmp(sy) != 0 || !bytes.Equal(k, c.K) {
		return fail("%s changed its arguments", c.Op)
	}
	wx, wy := affineXY(want)
	if gx == nil || gy == nil || gx.Cmp(wx) != 0 || gy.Cmp(wy) != 0 {
		return fail("%s gives (%x, %x), want (%x, %x)", c.Op, gx, gy, wx, wy)
	}
	if err := checkCurve(sm2.GetSm2P256V1()); err != nil {
		return fail("after %s: %v", c.Op, err)
	}
	if c.Op == "base" || c.Op == "mult" && len(c.K)%3 == 0 {
		if err := againInts(c.Op, func() []*big.Int {
			var x, y *big.Int
			if c.Op == "base" {
				x, y = e.ScalarBaseMult(k)
			} else {
				x, y = e.ScalarMult(new(big.Int).Set(sx), new(big.Int).Set(sy), k)
			}
			return []*big.Int{x, y}
		}); err != nil {
			return err
		}
		if err := checkCurve(sm2.GetSm2P256V1()); err != nil {
			return fail("after the caller changed the result of %s: %v", c.Op, err)
		}
	}
	return nil
}

// ---- P44: keys mean the same in every form ----

type formCase struct {
	D, D2    *big.Int // two owners' scalars
	PF, UF   int      // form of the first owner's private and public key
	PF2, UF2 int
	ID, ID2  HB
	M        HB
	Layout   int
	Bits     int
	E        Entropy
}

var privForms = []string{"literal", "raw", "raw twice", "generated"}
var pubForms = []string{"literal", "calculated", "raw", "raw of calculated", "certificate", "request", "request in certificate"}

func genForm(t *rapid.T) formCase {
	c := formCase{D: genScalar(t, "d", 1), D2: genScalar(t, "d2", 1), PF: intR(t, "pf", 0, 3), UF: intR(t, "uf", 0, 6), PF2: intR(t, "pf2", 0, 3), UF2: intR(t, "uf2", 0, 6),
		ID: genID(t, "id"), ID2: genID(t, "id2"), M: genMsg(t, "m", 200), Layout: intR(t, "layout", 1, 2), Bits: 8 * intR(t, "bytes", 1, 80), E: Entropy{Seed: u64(t, "seed")}}
	for _, d := range []**big.Int{&c.D, &c.D2} {
		if coin(t, "lead", 1, 2) {
			*d = pick(t, "leadp", smallCoord...).U()
		}
		*d = clampScalar(*d, nM2)
	}
	return c
}

// owner makes a key pair's objects in the given forms.
func owner(d *big.Int, pf, uf int, id []byte, seed uint64) (priv *sm2.PrivateKey, pub *sm2.PublicKey, pt ref.Pt, err error) {
	pt = ref.MulG(d)
	switch privForms[pf] {
	case "literal":
		priv = mkPriv(d)
	case "raw", "raw twice":
		if priv, err = sm2.RawBytesToPrivateKey(b32(d)); err != nil {
			return nil, nil, pt, fail("RawBytesToPrivateKey: %v", err)
		}
		if privForms[pf] == "raw twice" {
			if priv, err = sm2.RawBytesToPrivateKey(priv.GetRawBytes()); err != nil {
				return nil, nil, pt, fail("RawBytesToPrivateKey: %v", err)
			}
		}
	case "generated":
		if priv, pub, err = sm2.GenerateKey(newEntropy(Entropy{Seed: seed})); err != nil {
			return nil, nil, pt, fail("GenerateKey: %v", err)
		}
		pt = ref.MulG(priv.D)
		if err := checkPub(pub, pt, "generated"); err != nil {
			return nil, nil, pt, err
		}
	}
	switch pubForms[uf] {
	case "literal":
		if pub == nil {
			pub = mkPub(pt)
		}
	case "calculated":
		pub = sm2.CalculatePubKey(priv)
	case "raw":
		if pub, err = sm2.RawBytesToPublicKey(ref.Cat(b32(pt.X), b32(pt.Y))); err != nil {
			return nil, nil, pt, fail("RawBytesToPublicKey: %v", err)
		}
	case "raw of calculated":
		if pub, err = sm2.RawBytesToPublicKey(sm2.CalculatePubKey(priv).GetUnCompressBytes()[1:]); err != nil {
			return nil, nil, pt, fail("RawBytesToPublicKey: %v", err)
		}
	default:
		req := reqFor(pt)
		if pubForms[uf] != "certificate" {
			der, err := cert.CreateCertificateRequest(&x509.CertificateRequest{}, sm2.CalculatePubKey(priv), priv, id)
			if err != nil {
				return nil, nil, pt, fail("CreateCertificateRequest: %v", err)
			}
			if ok, err := cert.VerifyDERCSRSign(der, id); !ok || err != nil {
				return nil, nil, pt, fail("VerifyDERCSRSign: %v, %v", ok, err)
			}
			if req, err = cert.ParseCertificateRequest(der); err != nil {
				return nil, nil, pt, fail("ParseCertificateRequest: %v", err)
			}
		}
		any := req.PublicKey
		if pubForms[uf] != "request" {
			info, err := cert.CreateCertificateInfo(&x509.Certificate{SerialNumber: i64(1)}, &x509.Certificate{}, req)
			if err != nil {
				return nil, nil, pt, fail("CreateCertificateInfo: %v", err)
			}
			der, err := cert.IssueCertificateBySoftCAKey(info, priv, id)
			if err != nil {
				return nil, nil, pt, fail("IssueCertificateBySoftCAKey: %v", err)
			}
			x, err := cert.ParseCertificate(der)
			if err != nil {
				return nil, nil, pt, fail("ParseCertificate: %v", err)
			}
			if p, ok := x.PublicKey.(*sm2.PublicKey); !ok || !sm2.Verify(p, id, x.RawTBSCertificate, x.Signature) {
				return nil, nil, pt, fail("the self-signed certificate does not verify under its own key")
			}
			any = x.PublicKey
		}
		var ok bool
		if pub, ok = any.(*sm2.PublicKey); !ok {
			return nil, nil, pt, fail("the key parsed from the %s is a %T", pubForms[uf], any)
		}
	}
	if err := checkPub(pub, pt, pubForms[uf]); err != nil {
		return nil, nil, pt, err
	}
	if err := checkCurve(priv.Curve); err != nil {
		return nil, nil, pt, err
	}
	return priv, pub, pt, nil
}

func runForm(rec *Rec, c formCase) error {
	rec.NT()
	rec.Class("private %s", privForms[c.PF])
	rec.Class("public %s", pubForms[c.UF])
	setEntropy(c.E)
	priv, pub, pt, err := owner(c.D, c.PF, c.UF, c.ID, c.E.Seed)
	if err != nil {
		return err
	}
	priv2, pub2, pt2, err := owner(c.D2, c.PF2, c.UF2, c.ID2, c.E.Seed+1)
	if err != nil {
		return err
	}
	d, d2 := new(big.Int).Set(priv.D), new(big.Int).Set(priv2.D)
	if !bytes.Equal(priv.GetRawBytes(), b32(d)) || !bytes.Equal(pub.GetRawBytes(), ref.Cat(b32(pt.X), b32(pt.Y))) || !bytes.Equal(pub.GetUnCompressBytes(), ref.Cat([]byte{4}, b32(pt.X), b32(pt.Y))) {
		return fail("raw forms of the key are %x, %x", priv.GetRawBytes(), pub.GetUnCompressBytes())
	}
	sig, err := sm2.Sign(priv, c.ID, c.M)
	if err != nil {
		return fail("Sign: %v", err)
	}
	if !sm2.Verify(pub, c.ID, c.M, sig) {
		return fail("a signature by the private key (%s) does not verify under the public key (%s)", privForms[c.PF], pubForms[c.UF])
	}
	if r, s, ok := ref.ReadSig(sig); !ok || !ref.Verify(pt.X, pt.Y, idOf(c.ID), c.M, r, s) {
		return fail("the signature %x is not valid", sig)
	}
	if same := d.Cmp(d2) == 0; !same && sm2.Verify(pub2, c.ID, c.M, sig) {
		return fail("the signature verifies under another key")
	}
	ct, err := sm2.Encrypt(pub, c.M, lay(c.Layout))
	if err != nil {
		return fail("Encrypt: %v", err)
	}
	if p, ok := ref.Decrypt(d, ct, c.Layout); !ok || !bytes.Equal(p, c.M) {
		return fail("the ciphertext for the public key (%s) does not decrypt", pubForms[c.UF])
	}
	if p, err := sm2.Decrypt(priv, ct, lay(c.Layout)); err != nil || !bytes.Equal(p, c.M) {
		return fail("Decrypt with the private key (%s): %s, %v", privForms[c.PF], hexs(p), err)
	}
	// each owner's key is static and ephemeral at once: only the forms matter
	want := ref.KX(c.ID, d, d2, c.ID2, pt2, pt, c.Bits)
	if want.Inf {
		return nil
	}
	b, err := sm2.CalculateKeyWithConfirmation(false, c.Bits, nil, priv2, priv, c.ID2, pub, pub2, c.ID)
	if err != nil {
		return fail("key exchange, responder: %v", err)
	}
	a, err := sm2.CalculateKeyWithConfirmation(true, c.Bits, b.S1, priv, priv2, c.ID, pub2, pub, c.ID2)
	if err != nil {
		return fail("key exchange, initiator: %v", err)
	}
	if !bytes.Equal(a.Key, want.Key) || !bytes.Equal(b.Key, want.Key) || !bytes.Equal(b.S1, want.S1) || !bytes.Equal(a.S2, want.S2) || !sm2.ResponderConfirm(b.S2, a.S2) {
		return fail("key exchange results are not the standard's")
	}
	return nil
}

func init() {
	register("P43", NewSub("group", "membership, addition, doubling, multiplication and point encoding through the elliptic.Curve interface of the exported curve, obtained in five ways; edge points (infinity, equal, opposite, leading zeros) and scalars of 0-70 bytes; against the reference arithmetic; non-trivial: the point is not infinity", 6000, 250000, genGroup, runGroup))
	register("P44", NewSub("forms", "two owners' keys as literals, decoded, generated, calculated or parsed out of certificates and requests, then signed, verified, encrypted, decrypted and exchanged with; against the reference; non-trivial: all", 1200, 40000, genForm, runForm))
}
