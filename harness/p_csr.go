package main

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"net/url"
	"sort"
	"strings"
	"time"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"pgregory.net/rapid"
)

// AVal is one typed value inside an attribute.
type AVal struct {
	OID []int
	B   HB     // when not nil, an OCTET STRING
	S   string `json:",omitempty"`
}

// Attr is a request attribute: a set of sequences of typed values.
type Attr struct {
	OID  []int
	Sets [][]AVal
}

func (a Attr) pkix() pkix.AttributeTypeAndValueSET {
	o := pkix.AttributeTypeAndValueSET{Type: clone(a.OID)}
	for _, s := range a.Sets {
		vs := make([]pkix.AttributeTypeAndValue, 0, len(s)+2) // spare capacity, as an append-built list has
		for _, v := range s {
			x := pkix.AttributeTypeAndValue{Type: clone(v.OID), Value: v.S}
			if v.B != nil {
				x.Value = append([]byte{}, v.B...)
			}
			vs = append(vs, x)
		}
		o.Value = append(o.Value, vs)
	}
	return o
}

func (v AVal) String() string {
	if v.B != nil {
		return fmt.Sprintf("%s=%x", oidKey(v.OID), []byte(v.B))
	}
	return fmt.Sprintf("%s=%q", oidKey(v.OID), v.S)
}

func (a Attr) String() string {
	var sets []string
	for _, s := range a.Sets {
		sets = append(sets, fmt.Sprint(s))
	}
	sort.Strings(sets)
	return oidKey(a.OID) + "{" + strings.Join(sets, " ") + "}"
}

func attrOf(x pkix.AttributeTypeAndValueSET) Attr {
	a := Attr{OID: x.Type}
	for _, s := range x.Value {
		var vs []AVal
		for _, v := range s {
			switch y := v.Value.(type) {
			case []byte:
				vs = append(vs, AVal{OID: v.Type, B: append(HB{}, y...)})
			default:
				vs = append(vs, AVal{OID: v.Type, S: fmt.Sprint(y)})
			}
		}
		a.Sets = append(a.Sets, vs)
	}
	return a
}

// Req is a serialisable request template with its key and identity.
type Req struct {
	Subject Name
	SAN     SAN
	Extra   []Ext  `json:",omitempty"`
	Attrs   []Attr `json:",omitempty"`
	Key     Key
	ID      HB
	E       Entropy
	Noise   uint64 `json:",omitempty"` // contents of fields without meaning for creation
}

// ambiguous tells that an extension attribute has several value sets; which of
// them a parser looks at depends on their encodings.
func (c Req) ambiguous() bool {
	for _, a := range c.Attrs {
		if sameOID(a.OID, oidExtReq) && len(a.Sets) > 1 {
			return true
		}
	}
	return false
}

func (c Req) template() *x509.CertificateRequest {
	x := &x509.CertificateRequest{RawSubject: clone(c.Subject.Raw), Subject: c.Subject.pkix(),
		DNSNames: clone(c.SAN.DNS), EmailAddresses: clone(c.SAN.Mail), IPAddresses: c.SAN.ips(), URIs: c.SAN.uris()}
	for _, e := range c.Extra {
		x.ExtraExtensions = append(x.ExtraExtensions, e.pkix())
	}
	for _, a := range c.Attrs {
		x.Attributes = append(x.Attributes, a.pkix())
	}
	if c.Noise != 0 {
		r := rand.New(rand.NewPCG(c.Noise, 3))
		noiseBytes(r, &x.Raw, &x.RawTBSCertificateRequest, &x.RawSubjectPublicKeyInfo, &x.Signature)
		x.Version, x.SignatureAlgorithm, x.PublicKeyAlgorithm = r.IntN(4), x509.SignatureAlgorithm(r.IntN(17)), x509.PublicKeyAlgorithm(r.IntN(5))
		if r.IntN(2) == 0 {
			x.PublicKey = Key(r.IntN(keyPool)).pub()
		}
		x.Extensions = noiseExts(r)
	}
	return x
}

func (c Req) create() ([]byte, error) {
	return cert.CreateCertificateRequest(c.template(), c.Key.pub(), c.Key.priv(), c.ID)
}

// expect computes the attributes and extensions the request must contain.
func (c Req) expect() (attrs []Attr, exts []Ext) {
	given := map[string]bool{}
	for _, a := range c.Attrs {
		if sameOID(a.OID, oidExtReq) {
			for _, s := range a.Sets {
				for _, v := range s {
					given[oidKey(v.OID)] = true
				}
			}
		}
	}
	var list []Ext
	explicit := false
	for _, e := range c.Extra {
		explicit = explicit || sameOID(e.OID, oidSAN)
	}
	if !c.SAN.empty() && !explicit {
		list = append(list, Ext{OID: oidSAN, V: c.SAN.der()})
	}
	list = append(list, c.Extra...)
	var add []AVal
	for _, e := range list {
		if !given[oidKey(e.OID)] {
			add = append(add, AVal{OID: e.OID, B: append(HB{}, e.V...)})
		}
	}
	done := len(list) == 0
	for _, a := range c.Attrs {
		b := Attr{OID: a.OID}
		for _, s := range a.Sets {
			b.Sets = append(b.Sets, append([]AVal{}, s...))
		}
		if !done && sameOID(a.OID, oidExtReq) && len(b.Sets) > 0 {
			b.Sets[0] = append(b.Sets[0], add...)
			done = true
		}
		attrs = append(attrs, b)
	}
	if !done {
		attrs = append(attrs, Attr{oidExtReq, [][]AVal{add}})
	}
	for _, a := range attrs {
		if sameOID(a.OID, oidExtReq) && len(a.Sets) > 0 {
			for _, v := range a.Sets[0] {
				exts = append(exts, Ext{OID: v.OID, V: v.B})
			}
		}
	}
	return
}

func genAttrs(t *rapid.T, l string) (o []Attr) {
	used := map[string]bool{}
	extVal := func(x string) (v AVal, ok bool) {
		oid := pick(t, x+".o", pick(t, x+".std", oidSAN, oidKU, oidBC, oidEKU), genOID(t, x+".any"))
		if used[oidKey(oid)] {
			return v, false
		}
		used[oidKey(oid)] = true
		b := genBytes(t, x+".v", 60)
		if sameOID(oid, oidSAN) {
			b = genExtValue(t, x+".san", oidSAN)
		}
		return AVal{OID: oid, B: append(HB{}, b...)}, true
	}
	for i := pick(t, l+".n", 0, 0, 1, 2, manyR(t, l+".nn", 3, 4)); i > 0; i-- {
		x := l + itoa(i)
		if coin(t, x+".ext", 1, 2) {
			a := Attr{OID: oidExtReq}
			if coin(t, x+".set", 5, 6) {
				s := []AVal{}
				for j := manyR(t, x+".vals", 0, 3); j > 0; j-- {
					if v, ok := extVal(x + "v" + itoa(j)); ok {
						s = append(s, v)
					}
				}
				a.Sets = append(a.Sets, s)
				if coin(t, x+".second", 1, 6) { // not allowed by PKCS #9, but accepted
					s2 := []AVal{}
					for j := manyR(t, x+".vals2", 1, 2); j > 0; j-- {
						if v, ok := extVal(x + "w" + itoa(j)); ok {
							s2 = append(s2, v)
						}
					}
					a.Sets = append(a.Sets, s2)
				}
			}
			o = append(o, a)
			continue
		}
		a := Attr{OID: pick(t, x+".oid", genOID(t, x+".any"), []int{1, 2, 840, 113549, 1, 9, 7}, []int{1, 3, 6, 1, 4, 1, 311, 2, 1, 14})}
		for j := manyR(t, x+".sets", 0, 3); j > 0; j-- {
			s := []AVal{}
			for k := manyR(t, x+".n", 0, 3); k > 0; k-- {
				v := AVal{OID: genOID(t, x+".vo")}
				if coin(t, x+".bytes", 1, 2) {
					v.B = append(HB{}, genBytes(t, x+".b", 150)...)
				} else {
					v.S = genText(t, x+".s", 20)
				}
				s = append(s, v)
			}
			a.Sets = append(a.Sets, s)
		}
		o = append(o, a)
	}
	return
}

func genReq(t *rapid.T) Req {
	c := Req{Subject: genName(t, "subject", false), SAN: genSAN(t, "san"), Key: genKey(t, "key"), ID: genID(t, "id"), E: Entropy{Seed: u64(t, "seed")}}
	c.Extra = genUnknownExts(t, "extra", 3)
	for i := intR(t, "std", 0, 2); i > 0; i-- {
		o := pick(t, "so"+itoa(i), oidSAN, oidSAN, oidKU, oidEKU, oidBC)
		dup := false
		for _, e := range c.Extra {
			dup = dup || sameOID(e.OID, o)
		}
		if !dup {
			at := intR(t, "at"+itoa(i), 0, len(c.Extra))
			c.Extra = append(c.Extra[:at:at], append([]Ext{{o, coin(t, "crit", 1, 3), genExtValue(t, "sv"+itoa(i), o)}}, c.Extra[at:]...)...)
		}
	}
	c.Attrs = genAttrs(t, "attr")
	c.Noise = genNoise(t, "noise")
	return c
}

func genNoise(t *rapid.T, l string) uint64 {
	if coin(t, l+".is", 1, 3) {
		return rapid.Uint64Range(1, 1<<20).Draw(t, l)
	}
	return 0
}

func noiseBytes(r *rand.Rand, to ...*[]byte) {
	for _, p := range to {
		if r.IntN(2) == 0 {
			*p = randBytes(r.Uint64(), r.IntN(40))
			if r.IntN(2) == 0 { // something well-formed
				*p = ref.Seq(ref.TLV(0x31, ref.Seq(ref.OID(2, 5, 4, 3), ref.TLV(12, []byte("noise")))))
			}
		}
	}
}

func noiseExts(r *rand.Rand) (o []pkix.Extension) {
	for i := r.IntN(3); i > 0; i-- {
		o = append(o, pkix.Extension{Id: clone(stdExts[r.IntN(len(stdExts))]), Critical: r.IntN(2) == 0, Value: []byte{4, 1, byte(i)}})
	}
	return
}

func noiseNames(r *rand.Rand) (dns, mail []string, ips []net.IP, uris []*url.URL) {
	if r.IntN(2) == 0 {
		dns, mail = []string{"noise.example"}, []string{"noise@example.net"}
		ips, uris = []net.IP{{9, 9, 9, 9}}, []*url.URL{{Scheme: "noise", Host: "host"}}
	}
	return
}

// noiseTemplate fills the fields of a certificate template that have no
// meaning for issuing.
func noiseTemplate(x *x509.Certificate, seed uint64) {
	if seed == 0 {
		return
	}
	r := rand.New(rand.NewPCG(seed, 1))
	noiseBytes(r, &x.Raw, &x.RawTBSCertificate, &x.RawSubjectPublicKeyInfo, &x.RawIssuer, &x.Signature)
	x.SignatureAlgorithm, x.PublicKeyAlgorithm, x.Version = x509.SignatureAlgorithm(r.IntN(17)), x509.PublicKeyAlgorithm(r.IntN(5)), r.IntN(5)
	if r.IntN(2) == 0 {
		x.PublicKey = Key(r.IntN(keyPool)).pub()
	}
	x.Issuer.CommonName, x.Issuer.Names = "noise", nil
	x.Extensions = noiseExts(r)
	if r.IntN(2) == 0 {
		x.UnhandledCriticalExtensions = []asn1.ObjectIdentifier{{1, 2, 3}}
	}
}

// noiseParent fills the fields of a parent that have no meaning for issuing:
// all but the subject and its key identifier.
func noiseParent(x *x509.Certificate, seed uint64) {
	if seed == 0 {
		return
	}
	r := rand.New(rand.NewPCG(seed, 2))
	noiseTemplate(x, seed)
	noiseBytes(r, &x.AuthorityKeyId)
	x.SerialNumber = i64(r.Int64N(1000))
	x.NotBefore, x.NotAfter = time.Unix(r.Int64N(4e9), 5), time.Unix(r.Int64N(4e9), 6)
	x.KeyUsage, x.BasicConstraintsValid, x.IsCA, x.MaxPathLen, x.MaxPathLenZero = x509.KeyUsage(r.IntN(512)), r.IntN(2) == 0, r.IntN(2) == 0, r.IntN(3), r.IntN(2) == 0
	x.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsage(r.IntN(14))}
	x.DNSNames, x.EmailAddresses, x.IPAddresses, x.URIs = noiseNames(r)
	x.OCSPServer, x.IssuingCertificateURL, x.CRLDistributionPoints = []string{"http://noise/o"}, []string{"http://noise/i"}, []string{"http://noise/c"}
	x.PermittedDNSDomains, x.ExcludedDNSDomains, x.PermittedDNSDomainsCritical = []string{"noise"}, []string{"not.noise"}, r.IntN(2) == 0
	x.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3, 4}}
	x.ExtraExtensions = noiseExts(r)
}

// noiseReq fills the fields of a request that have no meaning for issuing:
// all but the public key.
func noiseReq(x *x509.CertificateRequest, seed uint64) {
	if seed == 0 {
		return
	}
	r := rand.New(rand.NewPCG(seed, 4))
	noiseBytes(r, &x.Raw, &x.RawTBSCertificateRequest, &x.Signature, &x.RawSubject)
	x.Version, x.SignatureAlgorithm = r.IntN(4), x509.SignatureAlgorithm(r.IntN(17))
	x.Subject.CommonName, x.Subject.Country = "noise", []string{"NO"}
	x.DNSNames, x.EmailAddresses, x.IPAddresses, x.URIs = noiseNames(r)
	x.Extensions, x.ExtraExtensions = noiseExts(r), noiseExts(r)
}

// CSRParts are the parts of a request, split by an independent reader.
type CSRParts struct {
	TBS, Subject, SPKI, Outer, Sig []byte
	X, Y                           *big.Int
	Tail                           int // bytes after the signature, inside the outer sequence
}

func readCSR(der []byte) (p CSRParts, ok bool) {
	tag, body, _, rest, ok := ref.ReadTLV(der)
	if !ok || tag != 0x30 || len(rest) != 0 {
		return p, false
	}
	// What follows the three parts inside the outer sequence is skipped, as
	// encoding/asn1 does; nothing is claimed about it.
	var top [3][]byte
	for i := range top {
		if _, _, top[i], body, ok = ref.ReadTLV(body); !ok {
			return p, false
		}
	}
	p.Tail = len(body)
	p.TBS, p.Outer = top[0], top[1]
	tag, c, _, _, _ := ref.ReadTLV(top[2])
	if tag != 3 || len(c) < 1 || c[0] != 0 {
		return p, false
	}
	p.Sig = c[1:]
	f, ok := ref.ReadSeq(p.TBS)
	if !ok || len(f) < 3 {
		return p, false
	}
	p.Subject, p.SPKI = f[1], f[2]
	k, ok := ref.ReadSeq(p.SPKI)
	if !ok || len(k) < 2 {
		return p, false
	}
	tag, c, _, _, _ = ref.ReadTLV(k[1])
	if tag != 3 || len(c) != 66 || c[0] != 0 || c[1] != 4 {
		return p, false
	}
	p.X, p.Y = new(big.Int).SetBytes(c[2:34]), new(big.Int).SetBytes(c[34:])
	return p, true
}

// genuine tells whether the signature inside is a standard one.
func (p CSRParts) genuine(id []byte) bool {
	r, s, ok := ref.ReadSig(p.Sig)
	return ok && ref.OnCurve(p.X, p.Y) && ref.Verify(p.X, p.Y, id, p.TBS, r, s)
}

func runReq(rec *Rec, c Req) error {
	setEntropy(c.E)
	der, err := c.create()
	if err != nil {
		return fail("CreateCertificateRequest: %v", err)
	}
	return judgeReq(rec, c, der, c.Key.pt(), c.ID)
}

// judgeReq decides whether der is a request for c with the given key and
// identity, and parses back to it.
func judgeReq(rec *Rec, c Req, der []byte, pt ref.Pt, id []byte) error {
	attrs, exts := c.expect()
	if len(exts) > 0 || len(attrs) > 0 || c.Subject.Raw != nil {
		rec.NT()
	}
	rec.Class("%d extensions, %d attributes", min(len(exts), 3), min(len(attrs), 3))
	x, err := cert.ParseCertificateRequest(append([]byte{}, der...))
	if err != nil {
		return fail("the created request does not parse: %v\n%x", err, der)
	}
	p, ok := readCSR(der)
	if !ok || p.Tail != 0 {
		return fail("the created request is not well-formed: %x", der)
	}
	for _, r := range []struct {
		what      string
		got, want []byte
	}{{"raw request", x.Raw, der}, {"signed part", x.RawTBSCertificateRequest, p.TBS}, {"raw subject", x.RawSubject, p.Subject},
		{"raw key information", x.RawSubjectPublicKeyInfo, p.SPKI}, {"key information", p.SPKI, refSPKI(pt)}, {"signature", x.Signature, p.Sig},
		{"signature algorithm", p.Outer, algSM2}} {
		if !bytes.Equal(r.got, r.want) {
			return fail("request: %s is %s, want %s", r.what, hexs(r.got), hexs(r.want))
		}
	}
	if x.Version != 0 {
		return fail("request version is %d", x.Version)
	}
	if err := checkName("request subject", c.Subject, x.Subject, x.RawSubject); err != nil {
		return err
	}
	pub, isKey := x.PublicKey.(*sm2.PublicKey)
	if !isKey {
		return fail("public key is a %T", x.PublicKey)
	}
	if err := checkPub(pub, pt, "parsed request"); err != nil {
		return err
	}
	if c.ambiguous() {
		rec.Class("several value sets")
	} else if err := sameExts("parsed request", extsOf(x.Extensions), exts); err != nil {
		return err
	}
	var w Want
	for _, e := range exts {
		if sameOID(e.OID, oidSAN) {
			if v := w.names(e.V); v != must {
				bug("generated names are not valid: %x", []byte(e.V))
			}
		}
	}
	for _, n := range []struct {
		what      string
		got, want []string
	}{{"DNS names", x.DNSNames, w.DNS}, {"e-mail addresses", x.EmailAddresses, w.Mail}, {"IP addresses", ipStrings(x.IPAddresses), w.IP}, {"URIs", urlStrings(x.URIs), w.URI}} {
		if err := sameStrings("parsed request: "+n.what, n.got, n.want); err != nil && !c.ambiguous() {
			return err
		}
	}
	var ga, wa []string
	for _, a := range x.Attributes {
		ga = append(ga, attrOf(a).String())
	}
	for _, a := range attrs {
		wa = append(wa, a.String())
	}
	if err := sameStrings("parsed request: attributes", ga, wa); err != nil {
		return err
	}
	if !p.genuine(idOf(id)) {
		return fail("the created request is not signed by its key under its identity: %x", der)
	}
	if ok, err := cert.VerifyDERCSRSign(der, id); !ok || err != nil {
		return fail("VerifyDERCSRSign rejects the created request: %v %v", ok, err)
	}
	return nil
}

// ---- P25 ----

type csrSig struct {
	Key, Other Key
	Lib        bool // made by the library instead of the reference
	ID, VID    HB
	Subject    HB
	Kind       string
	K          *big.Int
	Pos, Val   int
	Mut        HB // replaces the request when Kind is "der"
	Seed       uint64
}

var csrKinds = []string{"genuine", "genuine", "otherid", "otherkey", "otherkeyinside", "tbs-sig", "r+n", "s+n", "swap", "neg-s", "byte", "byte", "byte", "byte", "der", "der", "sigder", "sigtail", "hash-whole", "zero"}

func (c csrSig) build() ([]byte, bool) {
	f := Foreign{Key: c.Key, Subject: c.Subject, CSR: true}
	if c.Kind == "otherkeyinside" {
		f.Key = c.Other
	}
	tbs := f.csrTBS()
	signed := tbs
	switch c.Kind {
	case "tbs-sig":
		signed = append(append([]byte{}, tbs...), 0)
	case "hash-whole":
		_, signed, _, _, _ = ref.ReadTLV(tbs)
	}
	d := c.Key.d()
	if c.Kind == "otherkey" {
		d = c.Other.d()
	}
	r, s, ok := ref.SignK(d, idOf(c.ID), signed, c.K)
	if !ok {
		r, s, _ = ref.SignK(d, idOf(c.ID), signed, seedScalar(c.Seed))
	}
	switch c.Kind {
	case "r+n":
		r = badd(r, ref.N)
	case "s+n":
		s = badd(s, ref.N)
	case "swap":
		r, s = s, r
	case "neg-s":
		s = bsub(ref.N, s)
	case "zero":
		if c.Pos%2 == 0 {
			r = new(big.Int)
		} else {
			s = new(big.Int)
		}
	}
	sig := ref.Seq(ref.Int(r), ref.Int(s))
	switch c.Kind {
	case "sigtail":
		sig = append(sig, byte(c.Val))
	case "sigder":
		sig = ref.Seq(ref.TLV(2, []byte{0}, ref.IntBytes(r)), ref.Int(s))
	}
	return ref.Seq(tbs, algSM2, ref.BitString(sig)), true
}

func genCSRSig(t *rapid.T) csrSig {
	c := csrSig{Key: genKey(t, "key"), Other: genKey(t, "other"), ID: genID(t, "id"), Subject: genRDNs(t, "subject"), Kind: pick(t, "kind", csrKinds...), K: genScalar(t, "k", 0), Seed: u64(t, "seed")}
	c.VID = c.ID
	if c.Kind == "otherid" || coin(t, "vid", 1, 8) {
		c.VID = genID(t, "vidv")
	}
	c.Pos, c.Val = intR(t, "pos", 0, 1<<20), intR(t, "val", 1, 255)
	if c.Kind == "der" {
		b, _ := c.build()
		c.Mut = mutateDER(t, "m", b)
	}
	return c
}

// sm2Verify is the reference's verdict on a parsed request.
func sm2Verify(x *x509.CertificateRequest, id []byte) bool {
	pub, ok := x.PublicKey.(*sm2.PublicKey)
	r, s, ok2 := ref.ReadSig(x.Signature)
	return ok && ok2 && ref.Verify(pub.X, pub.Y, idOf(id), x.RawTBSCertificateRequest, r, s)
}

func runCSRSig(rec *Rec, c csrSig) error {
	setEntropy(Entropy{Seed: c.Seed})
	der, _ := c.build()
	genuineBytes := der
	switch c.Kind {
	case "byte":
		der = append([]byte{}, der...)
		der[c.Pos%len(der)] ^= byte(c.Val)
	case "der":
		der = append([]byte{}, c.Mut...)
	}
	p, ok := readCSR(der)
	want := ok && p.genuine(idOf(c.VID)) && bytes.Equal(p.Outer, algSM2)
	exact := c.Kind != "der" || bytes.Equal(der, genuineBytes)
	if c.Kind == "byte" {
		want = false
	}
	rec.Class("%s: %v", c.Kind, want)
	if !want || c.Kind != "genuine" {
		rec.NT()
	}
	got, err := cert.VerifyDERCSRSign(append([]byte{}, der...), c.VID)
	if got && err != nil {
		return fail("verification answers true together with the error %v", err)
	}
	if got && !want {
		if exact || !ok || !p.genuine(idOf(c.VID)) {
			return fail("a request that is not genuine (%s) was accepted: %x", c.Kind, der)
		}
	}
	if want && exact && (!got || err != nil) {
		return fail("a genuine request was rejected: %v %v: %x", got, err, der)
	}
	x, perr := cert.ParseCertificateRequest(append([]byte{}, der...))
	if (perr == nil) != (err == nil) {
		return fail("VerifyDERCSRSign says %v, ParseCertificateRequest says %v", err, perr)
	}
	if perr == nil {
		// one parsed request, under this and other identities, in turn
		ids := []HB{c.VID, c.ID, nil, {}, append(append(HB{}, c.VID...), 1), c.VID}
		for i := range ids {
			id := ids[(i+c.Val)%len(ids)]
			want := sm2Verify(x, id)
			if g := cert.VerifyCSRSign(x, id); g != want || bytes.Equal(id, c.VID) && (id == nil) == (c.VID == nil) && g != got {
				return fail("VerifyCSRSign of one request under %d identities in turn says %v under %x, its key and signed part say %v, VerifyDERCSRSign under %x says %v", len(ids), g, []byte(id), want, []byte(c.VID), got)
			}
		}
	}
	return nil
}

// sweep: many single-byte changes of one request made by the library.
type csrSweep struct {
	Req  Req
	From int
	N    int
	Val  int
}

func runCSRSweep(rec *Rec, c csrSweep) error {
	rec.NT()
	setEntropy(c.Req.E)
	der, err := c.Req.create()
	if err != nil {
		return fail("CreateCertificateRequest: %v", err)
	}
	if ok, err := cert.VerifyDERCSRSign(der, c.Req.ID); !ok || err != nil {
		return fail("genuine request rejected: %v %v", ok, err)
	}
	p, _ := readCSR(der)
	if !p.genuine(idOf(c.Req.ID)) {
		return fail("the created request is not signed under its identity")
	}
	r := prng(c.Req.E.Seed)
	for i := 0; i < c.N; i++ {
		m := append([]byte{}, der...)
		pos := (c.From + i*7919) % len(m)
		v := byte(c.Val)
		if i%2 == 1 {
			v = byte(r.Uint64()%255) + 1
		}
		m[pos] ^= v
		if ok, err := cert.VerifyDERCSRSign(m, c.Req.ID); ok {
			return fail("request with byte %d changed by %#x was accepted (%v)", pos, v, err)
		}
	}
	return nil
}

func init() {
	register("P24", NewSub("roundtrip", "request templates over all fields (names of 10 attribute kinds or raw, alternative names of 4 kinds, explicit extensions, attributes incl. extension requests), keys and identities: parts and parsed fields against an independent model, signature against the reference; non-trivial: extensions, attributes or a raw subject", 4000, 120000, genReq, runReq))
	register("P25",
		NewSub("verdict", "requests signed by the reference: genuine, other identity, other key, other bytes, congruent or swapped values, non-DER signatures, single-byte and structural changes: verdict against the reference verifier; non-trivial: not simply genuine", 6000, 200000, genCSRSig, runCSRSig),
		NewSub("sweep", "a library-made request and 24 single-byte changes of it; non-trivial: all", 400, 12000, func(t *rapid.T) csrSweep {
			return csrSweep{genReq(t), intR(t, "from", 0, 4000), 24, 1 << intR(t, "bit", 0, 7)}
		}, runCSRSweep))
}
