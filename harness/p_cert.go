package main

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"sort"
	"strings"
	"time"
	"unicode"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"

	"pgregory.net/rapid"
)

// Object identifiers, written down independently of the code under test.
var (
	oidEC      = []int{1, 2, 840, 10045, 2, 1}
	oidCurve   = []int{1, 2, 156, 10197, 1, 301}
	oidSM2SM3  = []int{1, 2, 156, 10197, 1, 501}
	oidExtReq  = []int{1, 2, 840, 113549, 1, 9, 14}
	oidSKI     = []int{2, 5, 29, 14}
	oidKU      = []int{2, 5, 29, 15}
	oidSAN     = []int{2, 5, 29, 17}
	oidBC      = []int{2, 5, 29, 19}
	oidNC      = []int{2, 5, 29, 30}
	oidCRLDP   = []int{2, 5, 29, 31}
	oidPol     = []int{2, 5, 29, 32}
	oidAKI     = []int{2, 5, 29, 35}
	oidEKU     = []int{2, 5, 29, 37}
	oidAIA     = []int{1, 3, 6, 1, 5, 5, 7, 1, 1}
	oidOCSP    = []int{1, 3, 6, 1, 5, 5, 7, 48, 1}
	oidIssuers = []int{1, 3, 6, 1, 5, 5, 7, 48, 2}

	stdExts = [][]int{oidSKI, oidKU, oidSAN, oidBC, oidNC, oidCRLDP, oidPol, oidAKI, oidEKU, oidAIA}

	ekuOIDs = [][]int{ // indexed by x509.ExtKeyUsage
		{2, 5, 29, 37, 0}, {1, 3, 6, 1, 5, 5, 7, 3, 1}, {1, 3, 6, 1, 5, 5, 7, 3, 2}, {1, 3, 6, 1, 5, 5, 7, 3, 3},
		{1, 3, 6, 1, 5, 5, 7, 3, 4}, {1, 3, 6, 1, 5, 5, 7, 3, 5}, {1, 3, 6, 1, 5, 5, 7, 3, 6}, {1, 3, 6, 1, 5, 5, 7, 3, 7},
		{1, 3, 6, 1, 5, 5, 7, 3, 8}, {1, 3, 6, 1, 5, 5, 7, 3, 9}, {1, 3, 6, 1, 4, 1, 311, 10, 3, 3}, {2, 16, 840, 1, 113730, 4, 1},
		{1, 3, 6, 1, 4, 1, 311, 2, 1, 22}, {1, 3, 6, 1, 4, 1, 311, 61, 1, 1},
	}
)

func sameOID(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func oidKey(o []int) string { return strings.Trim(strings.ReplaceAll(fmt.Sprint(o), " ", "."), "[]") }

func hasOID(l [][]int, o []int) bool {
	for _, x := range l {
		if sameOID(x, o) {
			return true
		}
	}
	return false
}

// refSPKI is the SubjectPublicKeyInfo of a point.
func refSPKI(p ref.Pt) []byte {
	return ref.Seq(ref.Seq(ref.OID(oidEC...), ref.OID(oidCurve...)), ref.BitString(ref.Cat([]byte{4}, b32(p.X), b32(p.Y))))
}

// ---- texts ----

// genText draws a text of one of several alphabets, without NUL.
func genText(t *rapid.T, l string, max int) string {
	if s, ok := dictText(t, l, unicode.IsPrint); ok {
		return s
	}
	n := intR(t, l+".n", 1, max)
	if k, ok := dictLen(t, l+".n", max, 2000); ok && k > 0 {
		n = k
	} else if coin(t, l+".long", 1, 12) {
		n = pick(t, l+".ln", 100, 127, 128, 129, 200, 255, 256, 257, 400)
	}
	var runes []rune
	switch intR(t, l+".k", 0, 4) {
	case 0, 1:
		runes = []rune("abcXYZ019 '()+,-./:=?")
	case 2:
		runes = []rune("abz*&@_!#;<>\"\\|~%$")
	case 3:
		runes = []rune("中国密码é ñßΩж日本语a1")
	default:
		runes = []rune("a中\U0001F600\U00020000\u007f\u0001\t ")
	}
	r := prng(u64(t, l+".seed"))
	o := make([]rune, n)
	for i := range o {
		o[i] = runes[r.Uint64()%uint64(len(runes))]
	}
	return string(o)
}

func genASCII(t *rapid.T, l string, max int) string {
	if s, ok := dictText(t, l, allowedIn("-.*@_%/:?=&")); ok {
		return s
	}
	n := intR(t, l+".n", 1, max)
	if k, ok := dictLen(t, l+".n", max, 2000); ok && k > 0 {
		n = k
	} else if coin(t, l+".long", 1, 20) {
		n = pick(t, l+".ln", 120, 125, 126, 127, 128, 130, 255, 256, 300)
	}
	r := prng(u64(t, l+".seed"))
	o := make([]byte, n)
	for i := range o {
		o[i] = "abcdefgxyz0189-.*@_%/:?=&"[r.Uint64()%25]
	}
	return string(o)
}

func genList(t *rapid.T, l string, max int, f func(l string) string) []string {
	var o []string
	for i := pick(t, l+".cnt", 0, 0, 0, 1, 1, 2, manyR(t, l+".max", 0, max)); i > 0; i-- {
		if len(o) > 0 && coin(t, l+".dup"+itoa(i), 1, 12) {
			o = append(o, o[intR(t, l+".dupof"+itoa(i), 0, len(o)-1)])
			continue
		}
		o = append(o, f(l+itoa(i)))
	}
	return o
}

// ---- distinguished names ----

// AV is one attribute of a name given explicitly.
type AV struct {
	OID []int
	V   string
}

// Name is a distinguished name as a template gives it.
type Name struct {
	C, O, OU, L, ST, SA, PC []string `json:",omitempty"`
	CN, SN                  string   `json:",omitempty"`
	Extra                   []AV     `json:",omitempty"`
	Raw                     HB       `json:",omitempty"` // overrides everything
}

var nameOIDs = [][]int{{2, 5, 4, 6}, {2, 5, 4, 10}, {2, 5, 4, 11}, {2, 5, 4, 7}, {2, 5, 4, 8}, {2, 5, 4, 9}, {2, 5, 4, 17}, {2, 5, 4, 3}, {2, 5, 4, 5}}

func (n Name) lists() [][]string { return [][]string{n.C, n.O, n.OU, n.L, n.ST, n.SA, n.PC} }

func (n Name) pkix() pkix.Name {
	p := pkix.Name{Country: clone(n.C), Organization: clone(n.O), OrganizationalUnit: clone(n.OU), Locality: clone(n.L), Province: clone(n.ST),
		StreetAddress: clone(n.SA), PostalCode: clone(n.PC), CommonName: n.CN, SerialNumber: n.SN}
	for _, a := range n.Extra {
		p.ExtraNames = append(p.ExtraNames, pkix.AttributeTypeAndValue{Type: clone(a.OID), Value: a.V})
	}
	return p
}

func clone[T any](x []T) []T {
	if x == nil {
		return nil
	}
	return append([]T{}, x...)
}

// attrs lists the attributes the name must contain, in no particular order.
func (n Name) attrs() []AV {
	var o []AV
	extra := map[string]bool{}
	for _, a := range n.Extra {
		extra[oidKey(a.OID)] = true
	}
	for i, l := range n.lists() {
		if extra[oidKey(nameOIDs[i])] {
			continue
		}
		for _, v := range l {
			o = append(o, AV{nameOIDs[i], v})
		}
	}
	for i, v := range []string{n.CN, n.SN} {
		if v != "" && !extra[oidKey(nameOIDs[7+i])] {
			o = append(o, AV{nameOIDs[7+i], v})
		}
	}
	return append(o, n.Extra...)
}

// der is the expected encoding (the standard library's for the same name).
func (n Name) der() []byte {
	if len(n.Raw) > 0 {
		return n.Raw
	}
	b, err := asn1.Marshal(n.pkix().ToRDNSequence())
	if err != nil {
		bug("name: %v", err)
	}
	return b
}

func genName(t *rapid.T, l string, std bool) Name {
	var n Name
	switch k := intR(t, l+".kind", 0, 9); {
	case k == 0:
		return n // empty
	case k == 1 && !std:
		n.Raw = genRDNs(t, l+".raw")
		if coin(t, l+".only", 1, 3) {
			return n
		}
	case k <= 4:
		n.CN = genText(t, l+".cn", 20)
		n.O = genList(t, l+".o", 3, func(x string) string { return genText(t, x, 20) })
		return n
	}
	f := func(x string) string { return genText(t, x, 16) }
	for i, p := range []*[]string{&n.C, &n.O, &n.OU, &n.L, &n.ST, &n.SA, &n.PC} {
		*p = genList(t, l+".f"+itoa(i), 4, f)
	}
	if coin(t, l+".hascn", 3, 4) {
		n.CN = f(l + ".cn")
	}
	if coin(t, l+".hassn", 1, 3) {
		n.SN = f(l + ".sn")
	}
	if !std && coin(t, l+".hasextra", 1, 3) {
		for i := intR(t, l+".nextra", 1, 3); i > 0; i-- {
			o := pick(t, l+".eo"+itoa(i), []int{1, 2, 840, 113549, 1, 9, 1}, []int{0, 9, 2342, 19200300, 100, 1, 25}, []int{2, 5, 4, 12}, []int{2, 5, 4, 3}, []int{2, 5, 4, 10}, genOID(t, l+".eoid"))
			n.Extra = append(n.Extra, AV{o, f(l + ".ev" + itoa(i))})
		}
	}
	return n
}

// nearName draws a name that differs from n in little: the case of a letter,
// a space, an attribute more, less, elsewhere or twice.
func nearName(t *rapid.T, l string, n Name) Name {
	m := Name{CN: n.CN, SN: n.SN, Raw: clone(n.Raw), Extra: clone(n.Extra)}
	from, to := n.lists(), []*[]string{&m.C, &m.O, &m.OU, &m.L, &m.ST, &m.SA, &m.PC}
	for i := range from {
		*to[i] = clone(from[i])
	}
	if len(m.Raw) > 0 { // texts inside the encoding
		var at []int
		for i, b := range m.Raw {
			if b|0x20 >= 'a' && b|0x20 <= 'z' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[intR(t, l+".at", 0, len(at)-1)]
			if okRDNs(flipBit(m.Raw, 8*i+2)) {
				m.Raw = HB(flipBit(m.Raw, 8*i+2))
			}
		}
		return m
	}
	vary := func(s string) string {
		switch r := []rune(s); intR(t, l+".v", 0, 4) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToLower(s)
		case 2:
			return s + " "
		case 3:
			if len(r) > 1 {
				return string(r[:len(r)-1])
			}
			return s + "a"
		default:
			for i, c := range r {
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
					r[i] ^= 0x20
					break
				}
			}
			return string(r)
		}
	}
	var full []int
	for i, p := range to {
		if len(*p) > 0 {
			full = append(full, i)
		}
	}
	k := intR(t, l+".k", 0, 5)
	if len(full) == 0 || k == 0 {
		if m.CN == "" || coin(t, l+".sn", 1, 4) {
			m.SN, m.CN = m.CN, m.SN
		} else {
			m.CN = vary(m.CN)
		}
		return m
	}
	p := to[full[intR(t, l+".which", 0, len(full)-1)]]
	i := intR(t, l+".i", 0, len(*p)-1)
	switch k {
	case 1, 2:
		(*p)[i] = vary((*p)[i])
	case 3:
		*p = append(*p, (*p)[i])
	case 4:
		*p = append((*p)[:i:i], (*p)[i+1:]...)
	default:
		q := to[(full[0]+1)%len(to)]
		*p, *q = *q, *p
	}
	return m
}

// okRDNs: whether the standard library reads b as a name.
func okRDNs(b []byte) bool {
	var rdn pkix.RDNSequence
	rest, err := asn1.Unmarshal(b, &rdn)
	return err == nil && len(rest) == 0
}

// genRDNs draws the encoding of a name as other implementations write it:
// several attributes in one RDN, every string type, unknown attributes.
func genRDNs(t *rapid.T, l string) HB {
	var rdns []byte
	for i := manyR(t, l+".rdns", 0, 4); i > 0; i-- {
		var avs [][]byte
		for j := pick(t, l+".avs", 1, 1, 1, 2, 3); j > 0; j-- {
			o := pick(t, l+".o", nameOIDs...)
			if coin(t, l+".uo", 1, 4) {
				o = genOID(t, l+".oid")
			}
			tag := pick(t, l+".tag", byte(0x13), 0x0c, 0x16, 0x14, 0x1e)
			var v []byte
			switch tag {
			case 0x0c:
				v = []byte(genText(t, l+".v", 12))
			case 0x1e:
				for _, c := range genASCIIname(t, l+".v") {
					v = append(v, 0, byte(c))
				}
			default:
				v = []byte(genASCIIname(t, l+".v"))
			}
			avs = append(avs, ref.Seq(ref.OID(o...), ref.TLV(tag, v)))
		}
		sort.Slice(avs, func(a, b int) bool { return bytes.Compare(avs[a], avs[b]) < 0 })
		rdns = append(rdns, ref.TLV(0x31, avs...)...)
	}
	return ref.Seq(rdns)
}

func genASCIIname(t *rapid.T, l string) string {
	if s, ok := dictText(t, l, allowedIn(" -.,/")); ok {
		return s
	}
	n := intR(t, l+".n", 1, 12)
	if k, ok := dictLen(t, l+".n", 12, 1000); ok && k > 0 {
		n = k
	}
	r := prng(u64(t, l+".seed"))
	o := make([]byte, n)
	for i := range o {
		o[i] = "abcXYZ019 -.,/"[r.Uint64()%14]
	}
	return string(o)
}

// nameOf decodes a name with the standard library.
func nameOf(der []byte) (n pkix.Name) {
	var rdn pkix.RDNSequence
	if rest, err := asn1.Unmarshal(der, &rdn); err != nil || len(rest) > 0 {
		bug("name %x: %v", der, err)
	}
	n.FillFromRDNSequence(&rdn)
	return
}

// checkName compares a parsed name and its raw bytes with the name given.
func checkName(what string, n Name, got pkix.Name, raw []byte) error {
	if want := n.der(); !bytes.Equal(raw, want) {
		return fail("%s: encoded name is %s, want %s", what, hexs(raw), hexs(want))
	}
	if w, g := fmt.Sprintf("%q", nameOf(n.der())), fmt.Sprintf("%q", got); w != g {
		return fail("%s: parsed name is %s, want %s", what, g, w)
	}
	if n.Raw == nil {
		var w, g []string
		for _, a := range n.attrs() {
			w = append(w, oidKey(a.OID)+"="+a.V)
		}
		for _, a := range got.Names {
			g = append(g, fmt.Sprintf("%s=%v", oidKey(a.Type), a.Value))
		}
		sort.Strings(w)
		sort.Strings(g)
		if fmt.Sprintf("%q", w) != fmt.Sprintf("%q", g) {
			return fail("%s: parsed name has the attributes %q, want %q", what, g, w)
		}
	}
	return nil
}

// ---- alternative names ----

// SAN lists alternative names of the four kinds.
type SAN struct {
	DNS, Mail []string `json:",omitempty"`
	IP        []HB     `json:",omitempty"`
	URI       []string `json:",omitempty"`
}

func (s SAN) empty() bool { return len(s.DNS)+len(s.Mail)+len(s.IP)+len(s.URI) == 0 }

func genSAN(t *rapid.T, l string) SAN {
	var s SAN
	if coin(t, l+".none", 1, 4) {
		return s
	}
	s.DNS = genList(t, l+".dns", 4, func(x string) string { return genASCII(t, x, 24) })
	s.Mail = genList(t, l+".mail", 4, func(x string) string { return genASCII(t, x, 10) + "@" + genASCII(t, x+"d", 10) })
	for i := pick(t, l+".ips", 0, 0, 1, 2, manyR(t, l+".ipn", 1, 4)); i > 0; i-- {
		s.IP = append(s.IP, genIP(t, l+".ip"+itoa(i)))
	}
	s.URI = genList(t, l+".uri", 3, func(x string) string { return genURI(t, x) })
	return s
}

// genIP draws an address: 4 bytes, 16 bytes, or IPv4 in 16 bytes.
func genIP(t *rapid.T, l string) HB {
	switch intR(t, l+".k", 0, 3) {
	case 0, 1:
		return genFill(t, l+".b", 4)
	case 2:
		b := genFill(t, l+".b", 4)
		return HB(net.IPv4(b[0], b[1], b[2], b[3]))
	}
	b := genFill(t, l+".b", 16)
	switch intR(t, l+".near", 0, 5) {
	case 0: // next to the IPv4-mapped range
		copy(b, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
		b[intR(t, l+".off", 0, 11)] ^= 1
	case 1: // IPv4-compatible, loopback, unspecified
		copy(b, make([]byte, 12))
	}
	return b
}

func ipWire(ip []byte) []byte {
	if len(ip) == 16 && bytes.Equal(ip[:12], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}) {
		return ip[12:]
	}
	return ip
}

func ipWires(l []net.IP) (o []string) {
	for _, ip := range l {
		o = append(o, hexs(ipWire(ip)))
	}
	return
}

func genHost(t *rapid.T, l string) string {
	var ls []string
	for i := intR(t, l+".labels", 1, 4); i > 0; i-- {
		if s, ok := dictText(t, l+".d"+itoa(i), allowedIn("-_")); ok && len(s) < 60 {
			ls = append(ls, s)
			continue
		}
		ls = append(ls, pick(t, l+".l"+itoa(i), "a", "com", "example", "x-1", "xn--fiqs8s", "_srv", "www", "0"))
	}
	return strings.Join(ls, ".")
}

func genURI(t *rapid.T, l string) string {
	s := pick(t, l+".scheme", "http", "https", "ldap", "urn", "mailto") + ":"
	if s[0] == 'u' || s[0] == 'm' {
		return s + pick(t, l+".opaque", "a", "oid:1.2.3", "user@example.com", "x:y:z")
	}
	s += "//"
	if coin(t, l+".user", 1, 6) {
		s += "user:pw@"
	}
	s += genHost(t, l+".host") + pick(t, l+".port", "", "", ":80", ":8443")
	s += pick(t, l+".path", "", "/", "/a/b.crl", "/a%20b", "/cn=x,o=y?certificateRevocationList;binary", "?q=1&r=2", "/p#frag")
	return s
}

func (s SAN) ips() (o []net.IP) {
	for _, i := range s.IP {
		o = append(o, append(net.IP{}, i...))
	}
	return
}

func (s SAN) uris() (o []*url.URL) {
	for _, u := range s.URI {
		p, err := url.Parse(u)
		if err != nil {
			bug("uri %q: %v", u, err)
		}
		o = append(o, p)
	}
	return
}

// der is the extension value RFC 5280 prescribes.
func (s SAN) der() []byte {
	var c []byte
	for _, d := range s.DNS {
		c = append(c, ref.TLV(0x82, []byte(d))...)
	}
	for _, d := range s.Mail {
		c = append(c, ref.TLV(0x81, []byte(d))...)
	}
	for _, d := range s.IP {
		c = append(c, ref.TLV(0x87, ipWire(d))...)
	}
	for _, u := range s.uris() {
		c = append(c, ref.TLV(0x86, []byte(u.String()))...)
	}
	return ref.Seq(c)
}

// checkSAN compares parsed names with those given.
func checkSAN(what string, s SAN, dns, mail []string, ips []net.IP, uris []*url.URL) error {
	if err := sameStrings(what+" DNS names", dns, s.DNS); err != nil {
		return err
	}
	if err := sameStrings(what+" e-mail addresses", mail, s.Mail); err != nil {
		return err
	}
	var gi, wi, gu, wu []string
	for _, i := range ips {
		gi = append(gi, fmt.Sprintf("%x", []byte(i)))
	}
	for _, i := range s.IP {
		wi = append(wi, fmt.Sprintf("%x", ipWire(i)))
	}
	if err := sameStrings(what+" IP addresses", gi, wi); err != nil {
		return err
	}
	for _, u := range uris {
		gu = append(gu, u.String())
	}
	for _, u := range s.uris() {
		wu = append(wu, u.String())
	}
	return sameStrings(what+" URIs", gu, wu)
}

func sameStrings(what string, got, want []string) error {
	if len(got) == len(want) {
		ok := true
		for i := range got {
			ok = ok && got[i] == want[i]
		}
		if ok {
			return nil
		}
	}
	return fail("%s are %q, want %q", what, got, want)
}

// ---- extensions ----

// Ext is an extension given as bytes.
type Ext struct {
	OID  []int
	Crit bool `json:",omitempty"`
	V    HB
}

func (e Ext) pkix() pkix.Extension {
	return pkix.Extension{Id: clone(e.OID), Critical: e.Crit, Value: append([]byte{}, e.V...)}
}

func (e Ext) der() []byte {
	c := ref.OID(e.OID...)
	if e.Crit {
		c = append(c, ref.Bool(true)...)
	}
	return ref.Seq(c, ref.Octets(e.V))
}

func (e Ext) String() string { return fmt.Sprintf("%s/%v/%x", oidKey(e.OID), e.Crit, []byte(e.V)) }

func extsString(es []Ext) string {
	var o []string
	for _, e := range es {
		o = append(o, e.String())
	}
	return strings.Join(o, " ")
}

func extsOf(es []pkix.Extension) (o []Ext) {
	for _, e := range es {
		o = append(o, Ext{e.Id, e.Critical, e.Value})
	}
	return
}

func sameExts(what string, got []Ext, want []Ext) error {
	if g, w := extsString(got), extsString(want); g != w {
		return fail("%s: extensions are %s, want %s", what, g, w)
	}
	return nil
}

// genUnknownExts draws extensions with identifiers the library does not know.
func genUnknownExts(t *rapid.T, l string, max int) (o []Ext) {
	seen := map[string]bool{}
	for i := manyR(t, l+".n", 0, max); i > 0; i-- {
		oid := pick(t, l+".o"+itoa(i), genOID(t, l+".oid"), []int{2, 5, 29, 36}, []int{2, 5, 29, 54}, []int{2, 5, 29, 15, 1}, []int{2, 5, 29}, []int{1, 3, 6, 1, 5, 5, 7, 1, 11}, []int{2, 5, 29, 16}, []int{2, 5, 30, 15}, []int{1, 2, 3, 4})
		if seen[oidKey(oid)] || hasOID(stdExts, oid) {
			continue
		}
		seen[oidKey(oid)] = true
		o = append(o, Ext{oid, coin(t, l+".c"+itoa(i), 1, 3), genBytes(t, l+".v"+itoa(i), 200)})
	}
	return
}

// ---- certificate templates ----

// NetC is an IP range constraint.
type NetC struct {
	IP, Mask HB
}

// NC holds name constraints.
type NC struct {
	Crit           bool     `json:",omitempty"`
	PD, XD         []string `json:",omitempty"`
	PI, XI         []NetC   `json:",omitempty"`
	PM, XM, PU, XU []string `json:",omitempty"`
}

func (n NC) empty() bool {
	return len(n.PD)+len(n.XD)+len(n.PI)+len(n.XI)+len(n.PM)+len(n.XM)+len(n.PU)+len(n.XU) == 0
}

func maskIP(ip, mask []byte) []byte {
	if len(mask) == 4 {
		ip = ipWire(ip)
	}
	o := make([]byte, len(ip))
	for i := range o {
		o[i] = ip[i] & mask[i]
	}
	return o
}

func (n NC) der() []byte {
	part := func(tag byte, d []string, ips []NetC, m, u []string) []byte {
		var c []byte
		put := func(tag byte, v []byte) { c = append(c, ref.Seq(ref.TLV(tag, v))...) }
		for _, s := range d {
			put(0x82, []byte(s))
		}
		for _, i := range ips {
			put(0x87, ref.Cat(maskIP(i.IP, i.Mask), i.Mask))
		}
		for _, s := range m {
			put(0x81, []byte(s))
		}
		for _, s := range u {
			put(0x86, []byte(s))
		}
		if len(c) == 0 {
			return nil
		}
		return ref.TLV(tag, c)
	}
	return ref.Seq(part(0xa0, n.PD, n.PI, n.PM, n.PU), part(0xa1, n.XD, n.XI, n.XM, n.XU))
}

func genNC(t *rapid.T, l string) NC {
	var n NC
	n.Crit = coin(t, l+".crit", 1, 2)
	if coin(t, l+".none", 1, 2) {
		return n
	}
	dom := func(x string) string { return pick(t, x+".dot", "", "", ".") + genHost(t, x) }
	mail := func(x string) string {
		return pick(t, x+".m", genHost(t, x), "."+genHost(t, x), "user@"+genHost(t, x), "first.last+tag@"+genHost(t, x), "\"a b\"@"+genHost(t, x))
	}
	uri := func(x string) string { return pick(t, x+".dot", "", ".") + "h" + genHost(t, x) }
	nets := func(x string) (o []NetC) {
		for i := pick(t, x+".n", 0, 0, 1, manyR(t, x+".nn", 1, 3)); i > 0; i-- {
			ln := pick(t, x+".len", 4, 16)
			mask := make([]byte, ln)
			ip, high := genFill(t, x+".ip", ln), 0
			if ln == 4 && coin(t, x+".mapped", 1, 3) {
				ip = net.IPv4(ip[0], ip[1], ip[2], ip[3])
			} else if ln == 16 && coin(t, x+".emb", 1, 3) {
				embedIP4(t, x, ip)
				high = 96 * intR(t, x+".deep", 0, 1)
			}
			for b := intR(t, x+".bits", high, 8*ln) - 1; b >= 0; b-- {
				mask[b/8] |= 0x80 >> (b % 8)
			}
			o = append(o, NetC{ip, mask})
		}
		return
	}
	n.PD, n.XD = genList(t, l+".pd", 3, dom), genList(t, l+".xd", 3, dom)
	n.PI, n.XI = nets(l+".pi"), nets(l+".xi")
	n.PM, n.XM = genList(t, l+".pm", 3, mail), genList(t, l+".xm", 3, mail)
	n.PU, n.XU = genList(t, l+".pu", 3, uri), genList(t, l+".xu", 3, uri)
	return n
}

func ipNets(l []NetC) (o []*net.IPNet) {
	for _, n := range l {
		o = append(o, &net.IPNet{IP: append(net.IP{}, n.IP...), Mask: append(net.IPMask{}, n.Mask...)})
	}
	return
}

// Tmpl is a serialisable certificate template.
type Tmpl struct {
	Subject   Name
	Serial    *big.Int
	NB, NA    int64    // seconds since 1970
	NBns      int      `json:",omitempty"`
	Zone      int      `json:",omitempty"` // seconds east
	KU        int      `json:",omitempty"`
	EKU       []int    `json:",omitempty"`
	UEKU      [][]int  `json:",omitempty"`
	BC, CA    bool     `json:",omitempty"`
	PathLen   int      `json:",omitempty"`
	PathZero  bool     `json:",omitempty"`
	SKI, AKI  HB       `json:",omitempty"`
	OCSP, Iss []string `json:",omitempty"`
	SAN       SAN
	Policies  [][]int `json:",omitempty"`
	NC        NC
	CRL       []string `json:",omitempty"`
	Extra     []Ext    `json:",omitempty"`
	Noise     uint64   `json:",omitempty"` // contents of fields without meaning for issuing, here and in parent and request
}

func genSerial(t *rapid.T, l string) *big.Int {
	if v := dictBig(t, l); v != nil && v.Sign() > 0 && v.BitLen() < 160 {
		return v
	}
	switch intR(t, l+".k", 0, 5) {
	case 0:
		return i64(int64(intR(t, l+".s", 0, 300)))
	case 1:
		return badd(new(big.Int).Lsh(bigOne, uint(8*intR(t, l+".b", 1, 21)-intR(t, l+".o", 0, 1))), i64(int64(intR(t, l+".off", -2, 2))))
	case 2:
		return new(big.Int).Neg(i64(int64(intR(t, l+".neg", 1, 70000))))
	}
	return new(big.Int).SetBytes(genFill(t, l+".any", intR(t, l+".n", 1, 20)))
}

// times from year 1 to 9999
func genSecs(t *rapid.T, l string) int64 {
	if s, ok := dictSecs(t, l); ok {
		return s
	}
	switch intR(t, l+".k", 0, 3) {
	case 0:
		return pick(t, l+".x", int64(-62135596800), 253402300799, 0, -1, 951782400, 951868799, 1709164800, 2524607999, 2524608000, -631152000, -631152001, 4107542400, 1483228799)
	case 1:
		return int64(intR(t, l+".now", 1500000000, 2000000000))
	}
	return rapid.Int64Range(-62135596800, 253402300799).Draw(t, l+".any")
}

// genIDLen draws the length of a key identifier.
func genIDLen(t *rapid.T, l string) int {
	if coin(t, l+".long", 1, 8) {
		return pick(t, l+".n", 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300)
	}
	return intR(t, l, 1, 40)
}

func genTmpl(t *rapid.T) Tmpl {
	c := Tmpl{Subject: genName(t, "subject", false), Serial: genSerial(t, "serial"), NB: genSecs(t, "nb"), NA: genSecs(t, "na")}
	if coin(t, "ns", 1, 3) {
		c.NBns = intR(t, "nbns", 0, 999999999)
	}
	c.Zone = pick(t, "zone", 0, 0, 8*3600, -5*3600, 14*3600, -12*3600, 5*3600+45*60)
	if coin(t, "hasku", 3, 4) {
		c.KU = pick(t, "ku", 1<<intR(t, "kubit", 0, 8), intR(t, "kuany", 1, 511), 511, 256, 128)
	}
	for i := pick(t, "ekus", 0, 0, 1, 2, manyR(t, "ekun", 3, 8)); i > 0; i-- {
		c.EKU = append(c.EKU, intR(t, "eku"+itoa(i), 0, 13))
	}
	for i := pick(t, "uekus", 0, 0, 0, 1, manyR(t, "uekun", 2, 4)); i > 0; i-- {
		c.UEKU = append(c.UEKU, pick(t, "ueku"+itoa(i), genOID(t, "uekuoid"), ekuOIDs[i%len(ekuOIDs)], []int{1, 3, 6, 1, 5, 5, 7, 3, 17}))
	}
	if coin(t, "bc", 2, 3) {
		c.BC, c.CA = true, coin(t, "ca", 2, 3)
		if c.CA {
			c.PathLen = pick(t, "pl", 0, 0, -1, 1, 2, 127, 128, 255, 256, 32767, 32768, intR(t, "plany", 1, 1<<40))
			c.PathZero = coin(t, "plz", 1, 2) // without meaning for other lengths
		} else {
			c.PathLen = pick(t, "pl0", 0, -1)
		}
	} else {
		c.CA = coin(t, "caonly", 1, 3)
	}
	if coin(t, "hasski", 1, 2) {
		c.SKI = genFill(t, "ski", genIDLen(t, "skilen"))
	}
	if coin(t, "hasaki", 1, 2) {
		c.AKI = genFill(t, "aki", genIDLen(t, "akilen"))
	}
	url := func(l string) string { return genASCII(t, l, 30) }
	c.OCSP, c.Iss = genList(t, "ocsp", 3, url), genList(t, "iss", 3, url)
	c.SAN = genSAN(t, "san")
	for i := pick(t, "pols", 0, 0, 1, manyR(t, "poln", 2, 5)); i > 0; i-- {
		c.Policies = append(c.Policies, pick(t, "pol"+itoa(i), genOID(t, "poloid"), []int{2, 5, 29, 32, 0}))
	}
	c.NC = genNC(t, "nc")
	c.CRL = genList(t, "crl", 3, url)
	c.Extra = genUnknownExts(t, "extra", 3)
	c.Noise = genNoise(t, "noise")
	if coin(t, "sparse", 1, 8) {
		c.thin(t)
	}
	return c
}

// thin drops most of what gives extensions.
func (c *Tmpl) thin(t *rapid.T) {
	e := Tmpl{Subject: c.Subject, Serial: c.Serial, NB: c.NB, NA: c.NA, NBns: c.NBns, Zone: c.Zone, Noise: c.Noise}
	for i := intR(t, "keep", 0, 2); i > 0; i-- {
		switch intR(t, "kept"+itoa(i), 0, 11) {
		case 0:
			e.KU = c.KU
		case 1:
			e.EKU = c.EKU
		case 2:
			e.UEKU = c.UEKU
		case 3:
			e.BC, e.CA, e.PathLen, e.PathZero = c.BC, c.CA, c.PathLen, c.PathZero
		case 4:
			e.SKI = c.SKI
		case 5:
			e.AKI = c.AKI
		case 6:
			e.OCSP = c.OCSP
		case 7:
			e.Iss = c.Iss
		case 8:
			e.SAN = c.SAN
		case 9:
			e.NC = c.NC
		case 10:
			e.CRL = c.CRL
		default:
			e.Extra, e.Policies = c.Extra, c.Policies
		}
	}
	*c = e
}

// overrides adds explicit extensions that replace derived ones, with valid
// values of their kind.
func (c *Tmpl) overrides(t *rapid.T, max int) {
	for i := intR(t, "overrides", 0, max); i > 0; i-- {
		o := pick(t, "ov"+itoa(i), stdExts...)
		if c.extra(o) >= 0 {
			continue
		}
		e := Ext{OID: o, Crit: coin(t, "ovc"+itoa(i), 1, 2), V: genExtValue(t, "ovv"+itoa(i), o)}
		at := intR(t, "ovpos"+itoa(i), 0, len(c.Extra))
		c.Extra = append(c.Extra[:at:at], append([]Ext{e}, c.Extra[at:]...)...)
	}
}

func (c Tmpl) extra(o []int) int {
	for i, e := range c.Extra {
		if sameOID(e.OID, o) {
			return i
		}
	}
	return -1
}

func oids(l [][]int) (o []asn1.ObjectIdentifier) {
	for _, x := range l {
		o = append(o, clone(x))
	}
	return
}

func (c Tmpl) times() (nb, na time.Time) {
	z := time.UTC
	if c.Zone != 0 {
		z = time.FixedZone("z", c.Zone)
	}
	return time.Unix(c.NB, int64(c.NBns)).In(z), time.Unix(c.NA, int64(c.NBns)).In(z)
}

// x509 builds the library's template.
func (c Tmpl) x509() *x509.Certificate {
	x := &x509.Certificate{
		RawSubject: clone(c.Subject.Raw), Subject: c.Subject.pkix(),
		KeyUsage: x509.KeyUsage(c.KU), UnknownExtKeyUsage: oids(c.UEKU),
		BasicConstraintsValid: c.BC, IsCA: c.CA, MaxPathLen: c.PathLen, MaxPathLenZero: c.PathZero,
		SubjectKeyId: clone(c.SKI), AuthorityKeyId: clone(c.AKI), OCSPServer: clone(c.OCSP), IssuingCertificateURL: clone(c.Iss),
		DNSNames: clone(c.SAN.DNS), EmailAddresses: clone(c.SAN.Mail), IPAddresses: c.SAN.ips(), URIs: c.SAN.uris(),
		PolicyIdentifiers: oids(c.Policies), PermittedDNSDomainsCritical: c.NC.Crit,
		PermittedDNSDomains: clone(c.NC.PD), ExcludedDNSDomains: clone(c.NC.XD),
		PermittedIPRanges: ipNets(c.NC.PI), ExcludedIPRanges: ipNets(c.NC.XI),
		PermittedEmailAddresses: clone(c.NC.PM), ExcludedEmailAddresses: clone(c.NC.XM),
		PermittedURIDomains: clone(c.NC.PU), ExcludedURIDomains: clone(c.NC.XU),
		CRLDistributionPoints: clone(c.CRL),
	}
	if c.Serial != nil {
		x.SerialNumber = new(big.Int).Set(c.Serial)
	}
	for _, e := range c.EKU {
		x.ExtKeyUsage = append(x.ExtKeyUsage, x509.ExtKeyUsage(e))
	}
	for _, e := range c.Extra {
		x.ExtraExtensions = append(x.ExtraExtensions, e.pkix())
	}
	x.NotBefore, x.NotAfter = c.times()
	noiseTemplate(x, c.Noise)
	return x
}

// exts lists the extensions RFC 5280 prescribes for the template, explicit
// ones included. aki is the authority key identifier to use.
func (c Tmpl) exts(aki []byte) (out []Ext) {
	add := func(o []int, crit bool, v []byte) {
		if c.extra(o) < 0 {
			out = append(out, Ext{o, crit, v})
		}
	}
	if c.KU != 0 {
		add(oidKU, true, kuDER(c.KU))
	}
	if len(c.EKU)+len(c.UEKU) > 0 {
		var b []byte
		for _, e := range c.EKU {
			b = append(b, ref.OID(ekuOIDs[e]...)...)
		}
		for _, e := range c.UEKU {
			b = append(b, ref.OID(e...)...)
		}
		add(oidEKU, false, ref.Seq(b))
	}
	if c.BC {
		var b []byte
		if c.CA {
			b = ref.Bool(true)
		}
		if c.PathLen > 0 || c.PathLen == 0 && c.PathZero {
			b = append(b, ref.Int(i64(int64(c.PathLen)))...)
		}
		add(oidBC, true, ref.Seq(b))
	}
	if len(c.SKI) > 0 {
		add(oidSKI, false, ref.Octets(c.SKI))
	}
	if len(aki) > 0 {
		add(oidAKI, false, ref.Seq(ref.TLV(0x80, aki)))
	}
	if len(c.OCSP)+len(c.Iss) > 0 {
		var b []byte
		for _, u := range c.OCSP {
			b = append(b, ref.Seq(ref.OID(oidOCSP...), ref.TLV(0x86, []byte(u)))...)
		}
		for _, u := range c.Iss {
			b = append(b, ref.Seq(ref.OID(oidIssuers...), ref.TLV(0x86, []byte(u)))...)
		}
		add(oidAIA, false, ref.Seq(b))
	}
	if !c.SAN.empty() {
		add(oidSAN, bytes.Equal(c.Subject.der(), []byte{0x30, 0}), c.SAN.der())
	}
	if len(c.Policies) > 0 {
		var b []byte
		for _, p := range c.Policies {
			b = append(b, ref.Seq(ref.OID(p...))...)
		}
		add(oidPol, false, ref.Seq(b))
	}
	if !c.NC.empty() {
		add(oidNC, c.NC.Crit, c.NC.der())
	}
	if len(c.CRL) > 0 {
		var b []byte
		for _, u := range c.CRL {
			b = append(b, ref.Seq(ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, []byte(u)))))...)
		}
		add(oidCRLDP, false, ref.Seq(b))
	}
	return append(out, c.Extra...)
}

// kuDER is the BIT STRING with the named bits of ku, without trailing zeros.
func kuDER(ku int) []byte {
	n := 0
	for i := 0; i < 9; i++ {
		if ku>>i&1 == 1 {
			n = i + 1
		}
	}
	b := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		if ku>>i&1 == 1 {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return ref.TLV(3, []byte{byte(8*len(b) - n)}, b)
}

// ---- reading certificates ----

// CertParts are the parts of a certificate, split by an independent reader.
type CertParts struct {
	TBS, Inner, Issuer, Subject, SPKI, Outer, Sig []byte
	Version                                       int
	Serial                                        *big.Int
	NB, NA                                        []byte // full elements
	Exts                                          []Ext
	HasExts                                       bool
}

// readCert decodes a strict DER certificate.
func readCert(der []byte) (p CertParts, err error) {
	bad := func(s string) (CertParts, error) {
		return p, fail("certificate is not well-formed: %s: %s", s, hexs(der))
	}
	top, ok := ref.ReadSeq(der)
	if !ok || len(top) != 3 {
		return bad("outer structure")
	}
	p.TBS, p.Outer = top[0], top[1]
	tag, c, _, _, _ := ref.ReadTLV(top[2])
	if tag != 3 || len(c) < 1 || c[0] != 0 {
		return bad("signature")
	}
	p.Sig = c[1:]
	f, ok := ref.ReadSeq(p.TBS)
	if !ok {
		return bad("to-be-signed part")
	}
	if len(f) > 0 && f[0][0] == 0xa0 {
		_, c, _, _, _ := ref.ReadTLV(f[0])
		tag, v, _, rest, ok := ref.ReadTLV(c)
		n, ok2 := ref.ReadInt(v)
		if !ok || tag != 2 || len(rest) > 0 || !ok2 || !n.IsInt64() {
			return bad("version")
		}
		p.Version = int(n.Int64())
		f = f[1:]
	}
	if len(f) < 6 {
		return bad("missing fields")
	}
	tag, c, _, _, _ = ref.ReadTLV(f[0])
	if p.Serial, ok = ref.ReadInt(c); tag != 2 || !ok {
		return bad("serial number")
	}
	p.Inner, p.Issuer, p.Subject, p.SPKI = f[1], f[2], f[4], f[5]
	v, ok := ref.ReadSeq(f[3])
	if !ok || len(v) != 2 {
		return bad("validity")
	}
	p.NB, p.NA = v[0], v[1]
	f = f[6:]
	if len(f) == 0 {
		return p, nil
	}
	tag, c, _, _, _ = ref.ReadTLV(f[0])
	if len(f) != 1 || tag != 0xa3 {
		return bad("fields after the key")
	}
	es, ok := ref.ReadSeq(c)
	if !ok {
		return bad("extensions")
	}
	p.HasExts = true
	for _, e := range es {
		x, ok := readExt(e)
		if !ok {
			return bad("extension")
		}
		p.Exts = append(p.Exts, x)
	}
	return p, nil
}

func readExt(b []byte) (x Ext, ok bool) {
	f, ok := ref.ReadSeq(b)
	if !ok || len(f) < 2 || len(f) > 3 {
		return x, false
	}
	tag, c, _, _, _ := ref.ReadTLV(f[0])
	if x.OID, ok = ref.ReadOID(c); tag != 6 || !ok {
		return x, false
	}
	if len(f) == 3 {
		if !bytes.Equal(f[1], []byte{1, 1, 0xff}) {
			return x, false
		}
		x.Crit = true
	}
	tag, c, _, _, _ = ref.ReadTLV(f[len(f)-1])
	x.V = c
	return x, tag == 4
}

// timeDER is the encoding of a time in a certificate.
func timeDER(sec int64) []byte {
	t := time.Unix(sec, 0).UTC()
	if y := t.Year(); y >= 1950 && y < 2050 {
		return ref.TLV(0x17, []byte(t.Format("060102150405Z")))
	}
	return ref.TLV(0x18, []byte(t.Format("20060102150405Z")))
}

var algSM2 = func() []byte { return ref.Seq(ref.OID(oidSM2SM3...)) }()

// reqFor is a request object that carries only the public key.
func reqFor(p ref.Pt) *x509.CertificateRequest {
	return &x509.CertificateRequest{RawSubjectPublicKeyInfo: refSPKI(p), PublicKey: mkPub(p)}
}

// req is the request a template is issued for.
func (c Tmpl) req(p ref.Pt) *x509.CertificateRequest {
	x := reqFor(p)
	noiseReq(x, c.Noise)
	return x
}

// Key is a serialisable SM2 key for certificates: d and its point come from a
// small pool, so that the point need not be computed for each case.
type Key int

const keyPool = 24

var keyCache [keyPool]struct {
	d *big.Int
	p ref.Pt
}

func (k Key) load() {
	if c := &keyCache[k]; c.d == nil {
		switch {
		case k < 6:
			c.d = []*big.Int{i64(1), i64(2), nM2, i64(3), bsub(ref.N, i64(3)), new(big.Int).Lsh(bigOne, 255)}[k]
		case k < 12:
			c.d = smallCoord[(int(k)*7)%len(smallCoord)].U()
		default:
			c.d = seedScalar(uint64(k))
		}
		c.p = ref.MulG(c.d)
	}
}

func (k Key) d() *big.Int           { k.load(); return new(big.Int).Set(keyCache[k].d) }
func (k Key) pt() ref.Pt            { k.load(); return keyCache[k].p }
func (k Key) priv() *sm2.PrivateKey { return mkPriv(k.d()) }
func (k Key) pub() *sm2.PublicKey   { return mkPub(k.pt()) }

func genKey(t *rapid.T, l string) Key { return Key(intR(t, l, 0, keyPool-1)) }
