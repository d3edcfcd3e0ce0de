package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"fmt"
	"math/big"
	"reflect"
	"sort"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"pgregory.net/rapid"
)

// Issue is one certificate to be issued.
type Issue struct {
	T        Tmpl
	Parent   Name
	PSKI     HB
	Self     bool // the parent has the same subject as the template
	Chain    bool // the parent is a parsed certificate
	Key, CA  Key
	Soft     bool
	ID       HB
	Sig      HB `json:",omitempty"`
	E        Entropy
	NoSerial bool `json:",omitempty"`
	Later    bool `json:",omitempty"` // the caller overwrites its objects before the signature is there
}

func genIssue(soft int, overrides int) func(t *rapid.T) Issue {
	return func(t *rapid.T) Issue {
		c := Issue{T: genTmpl(t), Parent: genName(t, "parent", false), Key: genKey(t, "key"), CA: genKey(t, "ca"), Self: coin(t, "self", 1, 4), Chain: coin(t, "chain", 1, 4)}
		if coin(t, "nearparent", 1, 6) {
			c.Parent = nearName(t, "near", c.T.Subject)
		}
		if coin(t, "hasov", 1, 3) {
			c.T.overrides(t, overrides)
		}
		if coin(t, "pski", 2, 3) {
			c.PSKI = genFill(t, "pskiv", genIDLen(t, "pskin"))
		}
		if soft > 0 && coin(t, "soft", soft, 8) {
			c.Soft = true
			c.ID = genID(t, "id")
			c.E = Entropy{Seed: u64(t, "seed")}
		} else {
			c.Sig = genFill(t, "sig", pick(t, "siglen", 0, 1, 64, 70, 71, 72, 127, 128, 256, intR(t, "sigany", 0, 300)))
		}
		c.Later = coin(t, "later", 1, 2)
		return c
	}
}

func (c Issue) parentName() Name {
	if c.Self {
		return c.T.Subject
	}
	return c.Parent
}

// parent builds the issuer's certificate object.
func (c Issue) parent() (*x509.Certificate, error) {
	n := c.parentName()
	p := &x509.Certificate{RawSubject: clone(n.Raw), Subject: n.pkix(), SubjectKeyId: clone(c.PSKI)}
	if !c.Chain {
		noiseParent(p, c.T.Noise)
		return p, nil
	}
	// a CA certificate made by the independent encoder and parsed back
	f := Foreign{Key: c.CA, Version: 2, Serial: i64(1), Issuer: HB{0x30, 0}, Subject: n.der(), NA: 1e9, Sig: HB{1},
		Exts: []Ext{{oidBC, true, ref.Seq(ref.Bool(true))}}}
	if len(c.PSKI) > 0 {
		f.Exts = append(f.Exts, Ext{OID: oidSKI, V: ref.Octets(c.PSKI)})
	}
	return cert.ParseCertificate(f.der())
}

func (c Issue) aki() []byte {
	if !bytes.Equal(c.parentName().der(), c.T.Subject.der()) && len(c.PSKI) > 0 {
		return c.PSKI
	}
	return c.T.AKI
}

// issue runs the library and returns the certificate.
func (c Issue) issue() (der, handed []byte, err error) {
	parent, err := c.parent()
	if err != nil {
		return nil, nil, fmt.Errorf("parsing the issuer: %v", err)
	}
	x, req := c.T.x509(), c.T.req(c.Key.pt())
	info, err := cert.CreateCertificateInfo(x, parent, req)
	if err != nil {
		return nil, nil, err
	}
	if info == nil {
		return nil, nil, fmt.Errorf("no certificate information and no error")
	}
	handed = append([]byte{}, info.Raw...)
	if c.Later { // the caller goes on using its objects while the signature is made
		scribbleValue(reflect.ValueOf(x).Elem(), 0)
		scribbleValue(reflect.ValueOf(parent).Elem(), 0)
		scribbleValue(reflect.ValueOf(req).Elem(), 0)
	}
	if c.Soft {
		setEntropy(c.E)
		der, err = cert.IssueCertificateBySoftCAKey(info, c.CA.priv(), c.ID)
	} else {
		der, err = cert.CreateCertificate(info, append([]byte{}, c.Sig...))
	}
	return der, handed, err
}

func (c Issue) want() (Want, []Ext) {
	exts := c.T.exts(c.aki())
	w, v := interpret(exts)
	if v != must {
		bug("the template's own extensions are not valid: %s", extsString(exts))
	}
	return w, exts
}

// P26
func runFields(rec *Rec, c Issue) error {
	w, exts := c.want()
	rec.Class("%d extensions", len(exts))
	if len(exts) > 0 {
		rec.NT()
	}
	der, _, err := c.issue()
	if err != nil {
		return fail("issuing failed: %v", err)
	}
	x, err := cert.ParseCertificate(append([]byte{}, der...))
	if err != nil {
		return fail("the issued certificate does not parse: %v\n%x", err, der)
	}
	if x.Version != 3 {
		return fail("version %d", x.Version)
	}
	if x.SerialNumber == nil || x.SerialNumber.Cmp(c.T.Serial) != 0 {
		return fail("serial number %v, want %v", x.SerialNumber, c.T.Serial)
	}
	for _, v := range []struct {
		what string
		got  interface{ Unix() int64 }
		ns   int
		utc  string
		want int64
	}{{"not before", x.NotBefore, x.NotBefore.Nanosecond(), x.NotBefore.Location().String(), c.T.NB}, {"not after", x.NotAfter, x.NotAfter.Nanosecond(), x.NotAfter.Location().String(), c.T.NA}} {
		if v.got.Unix() != v.want || v.ns != 0 || v.utc != "UTC" {
			return fail("%s is %v, want %d seconds after 1970, in UTC", v.what, v.got, v.want)
		}
	}
	if err := checkName("subject", c.T.Subject, x.Subject, x.RawSubject); err != nil {
		return err
	}
	if err := checkName("issuer", c.parentName(), x.Issuer, x.RawIssuer); err != nil {
		return err
	}
	pub, ok := x.PublicKey.(*sm2.PublicKey)
	if !ok {
		return fail("public key is a %T", x.PublicKey)
	}
	if err := checkPub(pub, c.Key.pt(), "parsed certificate"); err != nil {
		return err
	}
	if err := w.checkFields(x); err != nil {
		return err
	}
	// the values the template gives directly, where nothing overrides them
	if c.T.extra(oidKU) < 0 && int(x.KeyUsage) != c.T.KU {
		return fail("key usage %d, want %d", x.KeyUsage, c.T.KU)
	}
	if c.T.extra(oidBC) < 0 && c.T.BC && (x.IsCA != c.T.CA || c.T.CA && c.T.PathLen > 0 && x.MaxPathLen != c.T.PathLen || x.MaxPathLenZero != (c.T.CA && c.T.PathZero && c.T.PathLen == 0)) {
		return fail("basic constraints CA %v, path length %d (%v), want %v, %d (%v)", x.IsCA, x.MaxPathLen, x.MaxPathLenZero, c.T.CA, c.T.PathLen, c.T.PathZero)
	}
	if c.T.extra(oidSAN) < 0 {
		if err := checkSAN("certificate", c.T.SAN, x.DNSNames, x.EmailAddresses, x.IPAddresses, x.URIs); err != nil {
			return err
		}
	}
	for _, e := range c.T.Extra {
		n := 0
		for _, g := range extsOf(x.Extensions) {
			if sameOID(g.OID, e.OID) {
				n++
				if g.String() != e.String() {
					return fail("explicit extension %v became %v", e, g)
				}
			}
		}
		if n != 1 {
			return fail("explicit extension %v occurs %d times", e, n)
		}
	}
	return nil
}

// P27
func runSigned(rec *Rec, c Issue) error {
	rec.NT()
	rec.Class("soft=%v self=%v chain=%v", c.Soft, c.Self, c.Chain)
	if c.NoSerial {
		parent, err := c.parent()
		if err != nil {
			return fail("parsing the issuer: %v", err)
		}
		x := c.T.x509()
		x.SerialNumber = nil
		info, err := cert.CreateCertificateInfo(x, parent, c.T.req(c.Key.pt()))
		if err == nil || info != nil {
			return fail("a template without a serial number gives %v, %v", info, err)
		}
		return nil
	}
	der, handed, err := c.issue()
	if err != nil {
		return fail("issuing failed: %v", err)
	}
	return judgeIssued(c, der, handed, c.Key.pt(), c.CA.pt(), c.ID)
}

// judgeIssued decides whether der is the certificate c asks for, over the
// given keys and identity.
func judgeIssued(c Issue, der, handed []byte, key, ca ref.Pt, id []byte) error {
	p, err := readCert(der)
	if err != nil {
		return err
	}
	if !bytes.Equal(p.TBS, handed) {
		return fail("the bytes handed out for signing are %s, the certificate contains %s", hexs(handed), hexs(p.TBS))
	}
	x, err := cert.ParseCertificate(append([]byte{}, der...))
	if err != nil {
		return fail("the issued certificate does not parse: %v", err)
	}
	aki := c.aki()
	if i := c.T.extra(oidAKI); i >= 0 {
		var w Want
		w.decode(c.T.Extra[i])
		aki = w.AKI
	}
	for _, r := range []struct {
		what      string
		got, want []byte
	}{{"reported signed bytes", x.RawTBSCertificate, handed}, {"raw bytes", x.Raw, der}, {"reported signature", x.Signature, p.Sig},
		{"issuer", p.Issuer, c.parentName().der()}, {"subject", p.Subject, c.T.Subject.der()}, {"reported issuer", x.RawIssuer, p.Issuer},
		{"reported subject", x.RawSubject, p.Subject}, {"authority key identifier", x.AuthorityKeyId, aki},
		{"key information", p.SPKI, refSPKI(key)}, {"reported key information", x.RawSubjectPublicKeyInfo, p.SPKI},
		{"signature algorithm", p.Outer, algSM2}, {"inner signature algorithm", p.Inner, algSM2},
		{"not before", p.NB, timeDER(c.T.NB)}, {"not after", p.NA, timeDER(c.T.NA)}} {
		if !bytes.Equal(r.got, r.want) {
			return fail("%s is %s, want %s", r.what, hexs(r.got), hexs(r.want))
		}
	}
	if p.Version != 2 || p.Serial.Cmp(c.T.Serial) != 0 {
		return fail("version %d, serial %v, want 2, %v", p.Version, p.Serial, c.T.Serial)
	}
	if !c.Soft {
		if !bytes.Equal(p.Sig, c.Sig) {
			return fail("the signature inside is %s, supplied was %s", hexs(p.Sig), hexs(c.Sig))
		}
		return nil
	}
	r, s, ok := ref.ReadSig(p.Sig)
	if !ok || !ref.Verify(ca.X, ca.Y, idOf(id), p.TBS, r, s) {
		return fail("the signature inside (%s) is not one by the CA key under the identity %x", hexs(p.Sig), id)
	}
	if !sm2.Verify(mkPub(ca), id, x.RawTBSCertificate, x.Signature) {
		return fail("sm2.Verify rejects the issued certificate")
	}
	return nil
}

// P28: encoding.
func runExts(rec *Rec, c Issue) error {
	_, exts := c.want()
	der, _, err := c.issue()
	if err != nil {
		return fail("issuing failed: %v", err)
	}
	rec.Class("%d extensions, %d explicit", len(exts), len(c.T.Extra))
	if len(exts) > 0 {
		rec.NT()
	}
	p, err := readCert(der)
	if err != nil {
		return err
	}
	return p.hasExactly(exts)
}

// hasExactly compares the extensions regardless of their order.
func (p CertParts) hasExactly(exts []Ext) error {
	if p.HasExts != (len(exts) > 0) {
		return fail("extensions field present: %v, want %d extensions", p.HasExts, len(exts))
	}
	return sameExtSet(p.Exts, exts)
}

// sameExtSet compares extensions regardless of their order.
func sameExtSet(got, want []Ext) error {
	s := func(es []Ext) []Ext {
		es = append([]Ext{}, es...)
		sort.SliceStable(es, func(i, j int) bool { return oidKey(es[i].OID) < oidKey(es[j].OID) })
		return es
	}
	return sameExts("issued certificate", s(got), s(want))
}

// templates that cannot be encoded
type badTmpl struct {
	I    Issue
	Kind string
	EKU  int
	At   int
	Name string
}

func genBadTmpl(t *rapid.T) badTmpl {
	c := badTmpl{I: genIssue(0, 0)(t), Kind: pick(t, "kind", "eku", "pd", "xd", "pm", "xm", "pu", "xu"), At: intR(t, "at", 0, 10)}
	if c.Kind == "eku" {
		c.EKU = pick(t, "eku", 14, 15, -1, 99, 255, 1<<31, -1<<31, intR(t, "any", 14, 1<<40))
	}
	s := genHost(t, "host")
	i := intR(t, "pos", 0, len(s))
	c.Name = s[:i] + pick(t, "nonascii", "\u4e2d", "\u00e9", "\u0080", "\U0001F600") + s[i:]
	c.I.T.Extra = nil
	return c
}

func insertAt[T any](l []T, at int, x T) []T {
	at %= len(l) + 1
	return append(l[:at:at], append([]T{x}, l[at:]...)...)
}

func runBadTmpl(rec *Rec, c badTmpl) error {
	rec.NT()
	rec.Class("%s", c.Kind)
	x := c.I.T.x509()
	switch c.Kind {
	case "eku":
		x.ExtKeyUsage = insertAt(x.ExtKeyUsage, c.At, x509.ExtKeyUsage(c.EKU))
	case "pd":
		x.PermittedDNSDomains = insertAt(x.PermittedDNSDomains, c.At, c.Name)
	case "xd":
		x.ExcludedDNSDomains = insertAt(x.ExcludedDNSDomains, c.At, c.Name)
	case "pm":
		x.PermittedEmailAddresses = insertAt(x.PermittedEmailAddresses, c.At, "user@"+c.Name)
	case "xm":
		x.ExcludedEmailAddresses = insertAt(x.ExcludedEmailAddresses, c.At, c.Name)
	case "pu":
		x.PermittedURIDomains = insertAt(x.PermittedURIDomains, c.At, c.Name)
	case "xu":
		x.ExcludedURIDomains = insertAt(x.ExcludedURIDomains, c.At, c.Name)
	}
	parent, err := c.I.parent()
	if err != nil {
		return fail("parsing the issuer: %v", err)
	}
	info, err := cert.CreateCertificateInfo(x, parent, c.I.T.req(c.I.Key.pt()))
	if err == nil {
		return fail("a template with an unencodable %s (%d, %q) gives no error", c.Kind, c.EKU, c.Name)
	}
	if info != nil {
		return fail("a result was returned together with the error %v", err)
	}
	return nil
}

// the standard library's own encoder as a second opinion
func genStd(t *rapid.T) Issue {
	c := genIssue(0, 2)(t)
	c.T.Subject, c.Parent = genName(t, "s2", true), genName(t, "p2", true)
	c.Chain = false
	c.T.Serial = i64(int64(intR(t, "serial2", 1, 1<<40)))
	if c.T.CA && len(c.T.SKI) == 0 { // the standard library would add one
		c.T.SKI = genFill(t, "ski2", 20)
	}
	return c
}

var stdKey = func() *ecdsa.PrivateKey {
	k := &ecdsa.PrivateKey{D: big.NewInt(12345)}
	k.Curve = elliptic.P256()
	k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
	return k
}()

func runStd(rec *Rec, c Issue) error {
	x := c.T.x509()
	for _, o := range c.T.Policies {
		u := make([]uint64, len(o))
		for i, a := range o {
			u[i] = uint64(a)
		}
		id, err := x509.OIDFromInts(u)
		if err != nil {
			rec.Class("policy not expressible")
			return nil
		}
		x.Policies = append(x.Policies, id)
	}
	parent, _ := c.parent()
	std, err := x509.CreateCertificate(newEntropy(Entropy{Seed: 1}), x, parent, &stdKey.PublicKey, stdKey)
	if err != nil {
		rec.Class("refused by the standard library: %v", cut(err.Error(), 50))
		return nil
	}
	want, err := readCert(std)
	if err != nil {
		bug("%v", err)
	}
	rec.NT()
	rec.Class("compared")
	der, _, err := c.issue()
	if err != nil {
		return fail("issuing failed: %v", err)
	}
	got, err := readCert(der)
	if err != nil {
		return err
	}
	if !bytes.Equal(got.Subject, want.Subject) || !bytes.Equal(got.Issuer, want.Issuer) || !bytes.Equal(got.NB, want.NB) || !bytes.Equal(got.NA, want.NA) || got.Serial.Cmp(want.Serial) != 0 {
		return fail("names, validity or serial number differ from the standard library's")
	}
	return sameExtSet(got.Exts, want.Exts)
}

// ---- P29 ----

type fromReq struct {
	Req     Req
	Foreign *Foreign // when set, the request comes from another implementation
	T       Tmpl
	Parent  Name
	Sig     HB
	After   []Ext // extensions added to the template after filling
}

// genPlainRDNs draws a name of standard attributes, one per RDN.
func genPlainRDNs(t *rapid.T, l string) HB {
	var rdns []byte
	perm := rapid.Permutation(nameOIDs).Draw(t, l+".perm")
	for i, o := range perm[:intR(t, l+".n", 0, 6)] {
		tag := pick(t, l+".tag"+itoa(i), byte(0x13), 0x0c, 0x16, 0x14)
		v := []byte(genASCIIname(t, l+".v"+itoa(i)))
		if tag == 0x0c {
			v = []byte(genText(t, l+".u"+itoa(i), 12))
		}
		rdns = append(rdns, ref.TLV(0x31, ref.Seq(ref.OID(o...), ref.TLV(tag, v)))...)
	}
	return ref.Seq(rdns)
}

func genFromReq(t *rapid.T) fromReq {
	c := fromReq{Req: genReq(t), T: genTmpl(t), Parent: genName(t, "parent", false), Sig: genFill(t, "sig", intR(t, "sn", 0, 80))}
	c.Req.Subject = genName(t, "plain", true)
	c.T.Subject = genName(t, "old", true)
	if coin(t, "oldov", 1, 2) {
		c.T.overrides(t, 3)
		for i := range c.T.Extra { // replaced when filling; must not be constrained by it
			if sameOID(c.T.Extra[i].OID, oidSAN) {
				c.T.Extra[i].V = genExtValue(t, "oldsan", oidSAN)
			}
		}
	}
	if coin(t, "foreign", 1, 2) {
		f := Foreign{Key: c.Req.Key, Subject: genPlainRDNs(t, "fs"), CSR: true, Sig: HB{1}}
		if coin(t, "san", 2, 3) {
			f.Exts = append(f.Exts, Ext{OID: oidSAN, V: genExtValue(t, "fsan", oidSAN)})
		}
		f.Exts = append(f.Exts, genUnknownExts(t, "fext", 2)...)
		c.Foreign = &f
	}
	c.After = genUnknownExts(t, "after", 2)
	return c
}

func nameFields(n interface{ String() string }, lists ...[]string) string {
	var o []string
	for _, l := range lists {
		l = append([]string{}, l...)
		sort.Strings(l)
		o = append(o, fmt.Sprintf("%q", l))
	}
	return fmt.Sprint(o)
}

func runFromReq(rec *Rec, c fromReq) error {
	var der []byte
	var err error
	if c.Foreign != nil {
		der = c.Foreign.der()
	} else {
		setEntropy(c.Req.E)
		if der, err = c.Req.create(); err != nil {
			return fail("CreateCertificateRequest: %v", err)
		}
	}
	req, err := cert.ParseCertificateRequest(append([]byte{}, der...))
	if err != nil {
		return fail("the request does not parse: %v", err)
	}
	before, _ := cert.ParseCertificateRequest(append([]byte{}, der...))
	if !reflect.DeepEqual(req, before) {
		return fail("parsing the same request twice gives different results")
	}
	names := len(req.DNSNames) + len(req.EmailAddresses) + len(req.IPAddresses) + len(req.URIs)
	rec.Class("foreign=%v names=%v", c.Foreign != nil, names > 0)
	if len(req.RawSubject) > 2 || names > 0 {
		rec.NT()
	}
	x := c.T.x509()
	x.RawSubject = nil
	base := *x // the template x was copied from
	baseWas := fingerprint(&base)
	cert.FillCertificateTemplateByCSR(x, req)
	if g, w := settings(x), settings(&base); g != w {
		return fail("filling the template changed its other settings: %s", diffAt(w, g))
	}
	if !reflect.DeepEqual(x.PublicKey, before.PublicKey) || x.PublicKeyAlgorithm != before.PublicKeyAlgorithm {
		return fail("the filled template holds the key %v (algorithm %v), the request %v (%v)", x.PublicKey, x.PublicKeyAlgorithm, before.PublicKey, before.PublicKeyAlgorithm)
	}
	if !reflect.DeepEqual(x.Subject, before.Subject) {
		return fail("the filled template holds the subject %v, the request %v", x.Subject, before.Subject)
	}
	if g, w := fmt.Sprintf("%q %q %v %v", x.DNSNames, x.EmailAddresses, x.IPAddresses, x.URIs), fmt.Sprintf("%q %q %v %v", before.DNSNames, before.EmailAddresses, before.IPAddresses, before.URIs); g != w {
		return fail("the filled template holds the names %s, the request %s", g, w)
	}
	for _, e := range c.After {
		x.ExtraExtensions = append(x.ExtraExtensions, e.pkix())
	}
	parent := &x509.Certificate{RawSubject: clone(c.Parent.Raw), Subject: c.Parent.pkix()}
	info, err := cert.CreateCertificateInfo(x, parent, req)
	if err != nil {
		return fail("issuing from the request failed: %v", err)
	}
	cer, err := cert.CreateCertificate(info, append([]byte{}, c.Sig...))
	if err != nil {
		return fail("issuing from the request failed: %v", err)
	}
	if !reflect.DeepEqual(req, before) || !bytes.Equal(req.Raw, der) {
		return fail("issuing changed the request")
	}
	if g := fingerprint(&base); g != baseWas {
		return fail("filling and issuing changed the template the filled one was copied from: %s", diffAt(baseWas, g))
	}
	out, err := cert.ParseCertificate(append([]byte{}, cer...))
	if err != nil {
		return fail("the issued certificate does not parse: %v", err)
	}
	rp, ok := readCSR(der)
	cp, err := readCert(cer)
	if err != nil {
		return err
	}
	if !ok || !bytes.Equal(cp.SPKI, rp.SPKI) || !bytes.Equal(out.RawSubjectPublicKeyInfo, rp.SPKI) {
		return fail("the certificate carries the key information %s, the request %s", hexs(cp.SPKI), hexs(rp.SPKI))
	}
	pub, isKey := out.PublicKey.(*sm2.PublicKey)
	if !isKey {
		return fail("public key is a %T", out.PublicKey)
	}
	if err := checkPub(pub, c.Req.Key.pt(), "certificate"); err != nil {
		return err
	}
	// the subject, attribute by attribute, read from the encodings
	a, ok1 := attrsOf(rp.Subject)
	b, ok2 := attrsOf(cp.Subject)
	if !ok1 || !ok2 {
		return fail("subject is not a name: %s, %s", hexs(rp.Subject), hexs(cp.Subject))
	}
	if err := sameStrings("the certificate's subject attributes", b, a); err != nil {
		return err
	}
	if g, w := nameFields(out.Subject, out.Subject.Country, out.Subject.Organization, out.Subject.OrganizationalUnit, out.Subject.Locality, out.Subject.Province, out.Subject.StreetAddress, out.Subject.PostalCode, []string{out.Subject.CommonName, out.Subject.SerialNumber}),
		nameFields(before.Subject, before.Subject.Country, before.Subject.Organization, before.Subject.OrganizationalUnit, before.Subject.Locality, before.Subject.Province, before.Subject.StreetAddress, before.Subject.PostalCode, []string{before.Subject.CommonName, before.Subject.SerialNumber}); g != w {
		return fail("the certificate's subject is %s, the request's %s", g, w)
	}
	for _, n := range []struct {
		what      string
		got, want []string
	}{{"DNS names", out.DNSNames, before.DNSNames}, {"e-mail addresses", out.EmailAddresses, before.EmailAddresses}, {"IP addresses", ipWires(out.IPAddresses), ipWires(before.IPAddresses)}, {"URIs", urlStrings(out.URIs), urlStrings(before.URIs)}} {
		if err := sameStrings("the certificate's "+n.what, n.got, n.want); err != nil {
			return err
		}
	}
	return nil
}

// settings prints what a template holds besides the names and key of a request.
func settings(c *x509.Certificate) string {
	return fingerprint([]any{c.SerialNumber, c.NotBefore, c.NotAfter, c.KeyUsage, c.ExtKeyUsage, c.UnknownExtKeyUsage, c.BasicConstraintsValid, c.IsCA, c.MaxPathLen, c.MaxPathLenZero, c.SubjectKeyId,
		c.OCSPServer, c.IssuingCertificateURL, c.CRLDistributionPoints, c.PolicyIdentifiers, c.PermittedDNSDomainsCritical, c.PermittedDNSDomains, c.ExcludedDNSDomains,
		c.PermittedIPRanges, c.ExcludedIPRanges, c.PermittedEmailAddresses, c.ExcludedEmailAddresses, c.PermittedURIDomains, c.ExcludedURIDomains})
}

// attrsOf lists the attributes of an encoded name, sorted.
func attrsOf(der []byte) (o []string, ok bool) {
	rdns, ok := ref.ReadSeq(der)
	if !ok {
		return nil, false
	}
	for _, r := range rdns {
		tag, c, _, _, _ := ref.ReadTLV(r)
		avs, ok := tlvs(c)
		if tag != 0x31 || !ok {
			return nil, false
		}
		for _, a := range avs {
			f, ok := ref.ReadSeq(a)
			if !ok || len(f) != 2 {
				return nil, false
			}
			_, oc, _, _, _ := ref.ReadTLV(f[0])
			id, ok := ref.ReadOID(oc)
			_, v, _, _, _ := ref.ReadTLV(f[1])
			if !ok {
				return nil, false
			}
			o = append(o, oidKey(id)+"="+string(v))
		}
	}
	sort.Strings(o)
	return o, true
}

// ---- P20 ----

type certEntropy struct {
	Req   Req
	Issue Issue
	CSR   bool
	E     Entropy
}

func runCertEntropy(rec *Rec, c certEntropy) error {
	rec.NT()
	var src *entropyReader
	var out []byte
	var err error
	var valid func() error
	op := "CreateCertificateRequest"
	if c.CSR {
		tm, pub, priv := c.Req.template(), c.Req.Key.pub(), c.Req.Key.priv()
		src = setEntropy(c.E)
		out, err = cert.CreateCertificateRequest(tm, pub, priv, c.Req.ID)
		valid = func() error {
			p, ok := readCSR(out)
			if !ok || !p.genuine(idOf(c.Req.ID)) {
				return fail("invalid request %x", out)
			}
			return nil
		}
	} else {
		op = "IssueCertificateBySoftCAKey"
		parent, e := c.Issue.parent()
		if e != nil {
			return fail("parsing the issuer: %v", e)
		}
		info, e := cert.CreateCertificateInfo(c.Issue.T.x509(), parent, c.Issue.T.req(c.Issue.Key.pt()))
		if e != nil {
			return fail("CreateCertificateInfo: %v", e)
		}
		src = setEntropy(c.E)
		out, err = cert.IssueCertificateBySoftCAKey(info, c.Issue.CA.priv(), c.Issue.ID)
		valid = func() error {
			p, err := readCert(out)
			if err != nil {
				return err
			}
			r, s, ok := ref.ReadSig(p.Sig)
			if pt := c.Issue.CA.pt(); !ok || !ref.Verify(pt.X, pt.Y, idOf(c.Issue.ID), p.TBS, r, s) {
				return fail("invalid certificate signature %x", p.Sig)
			}
			return nil
		}
	}
	rec.Class("%s: error %v", op, err != nil)
	return judgeEntropy(op, src, err, len(out) == 0, valid)
}

func init() {
	register("P20", NewSub("cert", "request creation and software issuance with an entropy source failing after 0-130 bytes in four ways; non-trivial: all", 4000, 120000, func(t *rapid.T) certEntropy {
		c := certEntropy{CSR: coin(t, "csr", 1, 2), E: genFailing(t, "e")}
		if c.CSR {
			c.Req = genReq(t)
		} else {
			c.Issue = genIssue(8, 0)(t)
			c.Issue.T.Serial = i64(3)
		}
		return c
	}, runCertEntropy))
	bad := Issue{T: Tmpl{Serial: i64(1)}, NoSerial: true}
	register("P26", NewSub("fields", "templates over all certificate fields, one third with explicit extensions replacing derived ones, issued with an external signature and parsed: every field against the template and an independent decoder; non-trivial: extensions present", 40000, 1500000, genIssue(0, 3), runFields))
	register("P27",
		NewSub("links", "as P26 with constructed or parsed issuers, self-issued or not, external or software signing: signed bytes, signature, names, key identifier; non-trivial: all", 8000, 250000, func(t *rapid.T) Issue {
			c := genIssue(2, 1)(t)
			c.NoSerial = coin(t, "noserial", 1, 30)
			return c
		}, runSigned, bad))
	register("P28",
		NewSub("encoding", "templates as in P26: extensions read by an independent decoder against those from an independent encoder; non-trivial: extensions present", 40000, 1500000, genIssue(0, 3), runExts),
		NewSub("std", "the same template through crypto/x509 with another key; non-trivial: crypto/x509 accepts the template", 12000, 400000, genStd, runStd),
		NewSub("unencodable", "templates with an unknown usage or a non-ASCII constraint in any list: an error; non-trivial: all", 4000, 100000, genBadTmpl, runBadTmpl))
	register("P29", NewSub("keyinfo", "request objects whose key information is damaged (element dropped, retagged, emptied, non-DER length, cut, extended) or left alone: refused, or issued with exactly it; non-trivial: damaged", 12000, 300000, genBadSPKI, runBadSPKI),
		NewSub("fromrequest", "library-made and foreign requests, issuing templates with other contents: key information, subject, names of the certificate against the request; non-trivial: a subject or names", 8000, 250000, genFromReq, runFromReq))
}
