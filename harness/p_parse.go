package main

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"net"
	"net/url"
	"strings"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"pgregory.net/rapid"
)

// verdict says what a decoder may do with an extension value.
type verdict int

const (
	must    verdict = iota // accept, with exactly these fields
	may                    // refuse, or accept with exactly these fields
	free                   // no claim about this value
	mustErr                // refuse
)

func worst(a, b verdict) verdict {
	if b > a {
		return b
	}
	return a
}

// Want is what a parsed certificate must report.
type Want struct {
	KU             int
	EKU            []int
	UEKU           [][]int
	BC, CA         bool
	PathLen        int
	SKI, AKI       []byte
	OCSP, Iss      []string
	DNS, Mail, URI []string
	IP             []string
	Policies       [][]int
	PD, XD, PI, XI []string
	PM, XM, PU, XU []string
	NCCrit         bool
	CRL            []string
	Unhandled      []string
	skip           map[string]bool // extensions without a claim
}

func tlvs(b []byte) ([][]byte, bool) { return ref.SplitAll(b) }

// outerElem is the rule every standard extension value obeys: exactly one
// element with the given tag.
func outerElem(v []byte, tag byte) (content []byte, ok bool) {
	t, c, _, rest, ok := ref.ReadTLV(v)
	if !ok || t != tag || len(rest) > 0 {
		return nil, false
	}
	return c, true
}

func oidVerdict(c []byte) ([]int, verdict) {
	if len(c) == 0 {
		return nil, mustErr
	}
	o, ok := ref.ReadOID(c)
	if !ok {
		if bigArc(c) {
			return nil, free
		}
		return nil, mustErr
	}
	for i, a := range o {
		if a > math.MaxInt32 || i == 1 && o[0] == 2 && a > math.MaxInt32-80 {
			return o, free
		}
	}
	return o, must
}

// decode interprets one extension; unhandled tells whether a critical one must
// be reported.
func (w *Want) decode(e Ext) (v verdict, unhandled bool) {
	b := []byte(e.V)
	switch {
	case sameOID(e.OID, oidKU):
		c, ok := outerElem(b, 3)
		if !ok || len(c) == 0 || c[0] > 7 || len(c) == 1 && c[0] != 0 {
			return mustErr, false
		}
		bits := c[1:]
		if len(bits) > 0 && bits[len(bits)-1]&(1<<c[0]-1) != 0 {
			return free, false
		}
		for i := 0; i < 9 && i < 8*len(bits)-int(c[0]); i++ {
			if bits[i/8]>>(7-i%8)&1 == 1 {
				w.KU |= 1 << i
			}
		}
		return must, false
	case sameOID(e.OID, oidEKU):
		c, ok := outerElem(b, 0x30)
		if !ok {
			return mustErr, false
		}
		es, ok := tlvs(c)
		if !ok {
			return badList(c), false
		}
		if len(es) == 0 {
			v = may
		}
		for _, x := range es {
			tag, oc, _, _, _ := ref.ReadTLV(x)
			if tag != 6 {
				return mustErr, false
			}
			o, ov := oidVerdict(oc)
			v = worst(v, ov)
			known := false
			for i, k := range ekuOIDs {
				if sameOID(o, k) {
					w.EKU = append(w.EKU, i)
					known = true
				}
			}
			if !known {
				w.UEKU = append(w.UEKU, o)
			}
		}
		return v, false
	case sameOID(e.OID, oidBC):
		c, ok := outerElem(b, 0x30)
		if !ok {
			return mustErr, false
		}
		w.BC, w.PathLen = true, -1
		es, ok := tlvs(c)
		if !ok {
			return free, false
		}
		if len(es) > 0 && es[0][0] == 1 {
			if len(es[0]) != 3 {
				return mustErr, false
			}
			w.CA = es[0][2] != 0
			if es[0][2] != 0xff {
				v = may
			}
			es = es[1:]
		}
		if len(es) > 0 && es[0][0] == 2 {
			_, c, _, _, _ := ref.ReadTLV(es[0])
			n, ok := ref.ReadInt(c)
			if !ok {
				return mustErr, false
			}
			if !n.IsInt64() {
				return free, false
			}
			if n.Sign() < 0 {
				v = may
			}
			w.PathLen = int(n.Int64())
			es = es[1:]
		}
		if len(es) > 0 {
			return free, false
		}
		return v, false
	case sameOID(e.OID, oidSKI):
		c, ok := outerElem(b, 4)
		if !ok {
			return mustErr, false
		}
		w.SKI = c
		return must, false
	case sameOID(e.OID, oidAKI):
		c, ok := outerElem(b, 0x30)
		if !ok {
			return mustErr, false
		}
		es, ok := tlvs(c)
		if !ok {
			return free, false
		}
		if len(es) > 0 && es[0][0] == 0x80 {
			_, w.AKI, _, _, _ = ref.ReadTLV(es[0])
			es = es[1:]
		}
		for _, tag := range []byte{0xa1, 0x82} {
			if len(es) > 0 && es[0][0] == tag {
				es = es[1:]
			}
		}
		if len(es) > 0 {
			return free, false
		}
		return must, false
	case sameOID(e.OID, oidAIA):
		c, ok := outerElem(b, 0x30)
		if !ok {
			return mustErr, false
		}
		es, ok := tlvs(c)
		if !ok {
			return badList(c), false
		}
		if len(es) == 0 {
			v = may
		}
		for _, x := range es {
			if x[0] != 0x30 {
				return mustErr, false
			}
			f, ok := ref.ReadSeq(x)
			if !ok {
				v = worst(v, free)
				continue
			}
			if len(f) < 2 {
				return mustErr, false
			}
			tag, oc, _, _, _ := ref.ReadTLV(f[0])
			if tag != 6 {
				return mustErr, false
			}
			o, ov := oidVerdict(oc)
			v = worst(v, ov)
			gtag, gc, _, _, _ := ref.ReadTLV(f[1])
			if len(f) > 2 || gtag&0xc0 != 0x80 || gtag == 0xa6 {
				v = worst(v, free)
			}
			if gtag == 0x86 && sameOID(o, oidOCSP) {
				w.OCSP = append(w.OCSP, string(gc))
			}
			if gtag == 0x86 && sameOID(o, oidIssuers) {
				w.Iss = append(w.Iss, string(gc))
			}
		}
		return v, false
	case sameOID(e.OID, oidPol):
		c, ok := outerElem(b, 0x30)
		if !ok {
			return mustErr, false
		}
		es, ok := tlvs(c)
		if !ok {
			return badList(c), false
		}
		if len(es) == 0 {
			v = may
		}
		for _, x := range es {
			if x[0] != 0x30 {
				return mustErr, false
			}
			f, ok := ref.ReadSeq(x)
			if !ok {
				v = worst(v, free)
				continue
			}
			if len(f) == 0 || f[0][0] != 6 {
				return mustErr, false
			}
			_, oc, _, _, _ := ref.ReadTLV(f[0])
			o, ov := oidVerdict(oc)
			v = worst(v, ov)
			if len(f) > 2 || len(f) == 2 && f[1][0] != 0x30 {
				v = worst(v, free)
			}
			w.Policies = append(w.Policies, o)
		}
		return v, false
	case sameOID(e.OID, oidCRLDP):
		c, ok := outerElem(b, 0x30)
		if !ok {
			return mustErr, false
		}
		es, ok := tlvs(c)
		if !ok {
			return badList(c), false
		}
		if len(es) == 0 {
			v = may
		}
		for _, x := range es {
			if x[0] != 0x30 {
				return mustErr, false
			}
			v = worst(v, w.distPoint(x))
		}
		return v, false
	case sameOID(e.OID, oidSAN):
		v = w.names(b)
		return v, len(w.DNS)+len(w.Mail)+len(w.IP)+len(w.URI) == 0
	case sameOID(e.OID, oidNC):
		w.NCCrit = e.Crit
		return w.constraints(b)
	}
	return must, true
}

// badList judges the content of a list that does not split into elements.
func badList(c []byte) verdict {
	for len(c) > 0 {
		_, _, _, rest, ok := ref.ReadTLV(c)
		if !ok {
			if c[0]&0x1f == 0x1f {
				return free
			}
			return mustErr
		}
		c = rest
	}
	return must
}

func (w *Want) distPoint(x []byte) (v verdict) {
	f, ok := ref.ReadSeq(x)
	if !ok {
		return free
	}
	if len(f) > 0 && f[0][0] == 0xa0 {
		_, c, _, _, _ := ref.ReadTLV(f[0])
		n, ok := tlvs(c)
		if !ok || len(n) != 1 {
			return free
		}
		switch n[0][0] {
		case 0xa1:
			v = may // nameRelativeToCRLIssuer
		case 0xa0:
			_, gc, _, _, _ := ref.ReadTLV(n[0])
			gs, ok := tlvs(gc)
			if !ok {
				return free
			}
			if len(gs) == 0 {
				v = may
			}
			for _, g := range gs {
				if g[0]&0xc0 != 0x80 || g[0] == 0xa6 {
					return free
				}
				if g[0] == 0x86 {
					_, u, _, _, _ := ref.ReadTLV(g)
					w.CRL = append(w.CRL, string(u))
				}
			}
		default:
			return free
		}
		f = f[1:]
	}
	if len(f) > 0 && f[0][0] == 0x81 {
		_, c, _, _, _ := ref.ReadTLV(f[0])
		if !bitsOK(c) {
			return free
		}
		f = f[1:]
	}
	if len(f) > 0 && f[0][0] == 0xa2 {
		f = f[1:]
	}
	if len(f) > 0 {
		return free
	}
	return v
}

// names decodes a subject alternative name value (RFC 5280, 4.2.1.6).
func (w *Want) names(b []byte) (v verdict) {
	c, ok := outerElem(b, 0x30)
	if !ok {
		return mustErr
	}
	if len(c) == 0 {
		v = may
	}
	for len(c) > 0 {
		tag, d, _, rest, ok := ref.ReadTLV(c)
		if !ok {
			if c[0]&0x1f == 0x1f {
				return free
			}
			return mustErr
		}
		c = rest
		switch tag {
		case 0x81:
			w.Mail = append(w.Mail, string(d))
		case 0x82:
			w.DNS = append(w.DNS, string(d))
		case 0x87:
			if len(d) != 4 && len(d) != 16 {
				return mustErr
			}
			w.IP = append(w.IP, fmt.Sprintf("%x", d))
		case 0x86:
			u, err := url.Parse(string(d))
			if err != nil {
				return mustErr
			}
			v = worst(v, hostVerdict(u))
			w.URI = append(w.URI, u.String())
		case 0xa1, 0xa2, 0xa6, 0xa7:
			v = worst(v, free)
		default:
			if tag&0xc0 != 0x80 {
				v = worst(v, free)
			}
		}
	}
	return v
}

func hostVerdict(u *url.URL) verdict {
	switch {
	case u.Host == "":
		return must
	case !domainOK(u.Host):
		return mustErr
	case strings.ContainsAny(u.Host, "[]"):
		return may
	case !domainOK(u.Hostname()):
		return may
	}
	return must
}

// domainOK tells whether s is a sequence of non-empty labels of printable
// ASCII characters, or empty.
func domainOK(s string) bool {
	if s == "" {
		return true
	}
	for _, l := range strings.Split(s, ".") {
		if l == "" {
			return false
		}
		for i := 0; i < len(l); i++ {
			if l[i] < 33 || l[i] > 126 {
				return false
			}
		}
	}
	return true
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

func constraintDomain(s string) verdict {
	if s == "." {
		return may
	}
	if !ascii(s) || !domainOK(strings.TrimPrefix(s, ".")) {
		return mustErr
	}
	return must
}

// mailbox judges an address by the grammar of RFC 2821, section 4.1.2.
func mailbox(s string) verdict {
	v := must
	if strings.HasPrefix(s, "\"") {
		i := 1
		for ; ; i++ {
			if i >= len(s) {
				return mustErr
			}
			c := s[i]
			if c == '"' {
				break
			}
			if c == '\\' {
				i++
				if i >= len(s) {
					return mustErr
				}
				c = s[i]
				if c == 0 || c == 10 || c == 13 || c > 127 {
					return mustErr
				}
				continue
			}
			if c == 32 { // RFC 3696
				continue
			}
			if c == 0 || c == 9 || c == 10 || c == 13 || c > 127 {
				return mustErr
			}
		}
		s = s[i+1:]
	} else {
		at := strings.IndexByte(s, '@')
		local := s[:at]
		if strings.Contains(local, "\\") {
			// RFC 2821 has no backslash here, RFC 3696 has it make the
			// next character plain (its errata disagree): free where
			// that reading finds a mailbox, wrong by both otherwise.
			v = free
			for s != "" && s[0] != '@' {
				if s[0] == '\\' {
					s = s[1:]
				}
				if s == "" {
					return mustErr
				}
				s = s[1:]
			}
		} else {
			s = s[at:]
			for _, atom := range strings.Split(local, ".") {
				if atom == "" {
					return mustErr
				}
				for i := 0; i < len(atom); i++ {
					c := atom[i]
					if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("!#$%&'*+-/=?^_`{|}~", c) >= 0) {
						return mustErr
					}
				}
			}
		}
	}
	if s == "" || s[0] != '@' {
		return worst(v, mustErr)
	}
	d := s[1:]
	if d == "" || strings.ContainsAny(d, "@") {
		v = worst(v, may)
	}
	if !domainOK(d) {
		return mustErr
	}
	return v
}

// constraints decodes a name constraints value (RFC 5280, 4.2.1.10).
func (w *Want) constraints(b []byte) (v verdict, unhandled bool) {
	c, ok := outerElem(b, 0x30)
	if !ok {
		return mustErr, false
	}
	var part [2][]byte
	have := 0
	for i, tag := range []byte{0xa0, 0xa1} {
		if len(c) > 0 && c[0] == tag {
			_, d, _, rest, ok := ref.ReadTLV(c)
			if !ok {
				return mustErr, false
			}
			part[i], c = d, rest
			have++
			if len(d) == 0 {
				v = may
			}
		}
	}
	if len(c) > 0 || len(part[0])+len(part[1]) == 0 {
		return mustErr, false
	}
	dst := [2][4]*[]string{{&w.PM, &w.PD, &w.PU, &w.PI}, {&w.XM, &w.XD, &w.XU, &w.XI}}
	for i, p := range part {
		for len(p) > 0 {
			tag, s, _, rest, ok := ref.ReadTLV(p)
			if !ok || tag != 0x30 {
				if p[0]&0x1f == 0x1f {
					return mustErr, false
				}
				return mustErr, false
			}
			p = rest
			tag, d, _, more, ok := ref.ReadTLV(s)
			if !ok {
				return mustErr, false
			}
			if len(more) > 0 { // minimum, maximum
				v = worst(v, free)
				if es, ok := tlvs(more); ok && len(es) <= 2 {
					good := true
					for j, x := range es {
						good = good && (x[0] == 0x80 && j == 0 || x[0] == 0x81 && j == len(es)-1)
					}
					if good {
						v = may
					}
				}
			}
			str := string(d)
			switch tag {
			case 0x82:
				v = worst(v, constraintDomain(str))
				*dst[i][1] = append(*dst[i][1], str)
			case 0x81:
				if !ascii(str) {
					return mustErr, false
				}
				if strings.Contains(str, "@") {
					v = worst(v, mailbox(str))
				} else {
					v = worst(v, constraintDomain(str))
				}
				*dst[i][0] = append(*dst[i][0], str)
			case 0x86:
				if net.ParseIP(str) != nil {
					return mustErr, false
				}
				if net.ParseIP(strings.TrimPrefix(str, ".")) != nil || strings.ContainsAny(str, ":[]") {
					v = worst(v, may)
				}
				v = worst(v, constraintDomain(str))
				*dst[i][2] = append(*dst[i][2], str)
			case 0x87:
				if len(d) != 8 && len(d) != 32 {
					return mustErr, false
				}
				ip, mask := d[:len(d)/2], d[len(d)/2:]
				if !contiguous(mask) {
					return mustErr, false
				}
				*dst[i][3] = append(*dst[i][3], fmt.Sprintf("%x/%x", ip, mask))
			default:
				if tag&0xc0 != 0x80 {
					v = worst(v, free)
				}
				unhandled = true
			}
		}
	}
	return v, unhandled
}

func contiguous(mask []byte) bool {
	n := new(big.Int).SetBytes(mask)
	all := bsub(new(big.Int).Lsh(bigOne, uint(8*len(mask))), bigOne)
	inv := new(big.Int).Xor(n, all) // must be 2^k - 1
	return new(big.Int).And(inv, badd(inv, bigOne)).Sign() == 0
}

// interpret judges a list of extensions with distinct identifiers.
func interpret(exts []Ext) (w Want, v verdict) {
	w.skip = map[string]bool{}
	for _, e := range exts {
		before := w
		ev, unhandled := w.decode(e)
		if ev == free {
			skip := w.skip
			w = before
			skip[oidKey(e.OID)] = true
			w.skip = skip
			if e.Crit && (sameOID(e.OID, oidSAN) || sameOID(e.OID, oidNC)) {
				skip["unhandled"] = true
			}
			unhandled = false
		}
		if e.Crit && unhandled {
			w.Unhandled = append(w.Unhandled, oidKey(e.OID))
		}
		v = worst(v, ev)
	}
	return
}

func ints[T ~int](l []T) []int {
	var o []int
	for _, x := range l {
		o = append(o, int(x))
	}
	return o
}

func urlStrings(l []*url.URL) (o []string) {
	for _, u := range l {
		o = append(o, u.String())
	}
	return
}

func ipStrings(l []net.IP) (o []string) {
	for _, i := range l {
		o = append(o, fmt.Sprintf("%x", []byte(i)))
	}
	return
}

func netStrings(l []*net.IPNet) (o []string) {
	for _, n := range l {
		o = append(o, fmt.Sprintf("%x/%x", []byte(n.IP), []byte(n.Mask)))
	}
	return
}

func oidStrings[T ~[]int](l []T) (o []string) {
	for _, x := range l {
		o = append(o, oidKey(x))
	}
	return
}

// checkFields compares every extension-derived field of a parsed certificate.
func (w *Want) checkFields(x *x509.Certificate) error {
	eq := func(oid []int, what string, got, want any) error {
		if w.skip[oidKey(oid)] {
			return nil
		}
		if g, v := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want); g != v {
			return fail("parsed certificate: %s is %s, want %s", what, g, v)
		}
		return nil
	}
	pl, plz := w.PathLen, w.BC && w.PathLen == 0
	var unh []string
	for _, o := range x.UnhandledCriticalExtensions {
		unh = append(unh, oidKey(o))
	}
	for _, c := range []struct {
		oid       []int
		what      string
		got, want any
	}{
		{oidKU, "key usage", int(x.KeyUsage), w.KU},
		{oidEKU, "extended key usage", ints(x.ExtKeyUsage), w.EKU},
		{oidEKU, "unknown extended key usages", oidStrings(x.UnknownExtKeyUsage), oidStrings(w.UEKU)},
		{oidBC, "basic constraints validity", x.BasicConstraintsValid, w.BC},
		{oidBC, "CA flag", x.IsCA, w.CA},
		{oidBC, "path length", x.MaxPathLen, pl},
		{oidBC, "zero path length flag", x.MaxPathLenZero, plz},
		{oidSKI, "subject key id", x.SubjectKeyId, w.SKI},
		{oidAKI, "authority key id", x.AuthorityKeyId, w.AKI},
		{oidAIA, "OCSP servers", x.OCSPServer, w.OCSP},
		{oidAIA, "issuing certificate URLs", x.IssuingCertificateURL, w.Iss},
		{oidSAN, "DNS names", x.DNSNames, w.DNS},
		{oidSAN, "e-mail addresses", x.EmailAddresses, w.Mail},
		{oidSAN, "IP addresses", ipStrings(x.IPAddresses), w.IP},
		{oidSAN, "URIs", urlStrings(x.URIs), w.URI},
		{oidPol, "policies", oidStrings(x.PolicyIdentifiers), oidStrings(w.Policies)},
		{oidNC, "critical constraints flag", x.PermittedDNSDomainsCritical, w.NCCrit},
		{oidNC, "permitted DNS domains", x.PermittedDNSDomains, w.PD},
		{oidNC, "excluded DNS domains", x.ExcludedDNSDomains, w.XD},
		{oidNC, "permitted IP ranges", netStrings(x.PermittedIPRanges), w.PI},
		{oidNC, "excluded IP ranges", netStrings(x.ExcludedIPRanges), w.XI},
		{oidNC, "permitted e-mail addresses", x.PermittedEmailAddresses, w.PM},
		{oidNC, "excluded e-mail addresses", x.ExcludedEmailAddresses, w.XM},
		{oidNC, "permitted URI domains", x.PermittedURIDomains, w.PU},
		{oidNC, "excluded URI domains", x.ExcludedURIDomains, w.XU},
		{oidCRLDP, "CRL distribution points", x.CRLDistributionPoints, w.CRL},
	} {
		if err := eq(c.oid, c.what, c.got, c.want); err != nil {
			return err
		}
	}
	if !w.skip["unhandled"] {
		return sameStrings("parsed certificate: unhandled critical extensions", unh, w.Unhandled)
	}
	return nil
}

// ---- generating extension values as other implementations write them ----

func genGN(t *rapid.T, l string) []byte {
	switch intR(t, l+".gk", 0, 8) {
	case 0, 1:
		return ref.TLV(0x82, []byte(genASCII(t, l+".d", 12)))
	case 2:
		return ref.TLV(0x81, []byte(genASCII(t, l+".m", 12)))
	case 3:
		ip := genFill(t, l+".i", pick(t, l+".il", 4, 16))
		if len(ip) == 16 && coin(t, l+".emb", 1, 3) {
			embedIP4(t, l, ip)
		}
		return ref.TLV(0x87, ip)
	case 4, 5:
		return ref.TLV(0x86, []byte(genURI(t, l+".u")))
	case 6:
		return ref.TLV(0xa4, genRDNs(t, l+".dn"))
	case 7:
		return ref.TLV(0xa0, ref.OID(genOID(t, l+".on")...), ref.TLV(0xa0, ref.TLV(0x0c, []byte("other"))))
	}
	return ref.TLV(0x88, ref.OIDBytes(genOID(t, l+".rid")...))
}

func genGNs(t *rapid.T, l string, lo, hi int) (b []byte) {
	for i := manyR(t, l+".n", lo, hi); i > 0; i-- {
		b = append(b, genGN(t, l+itoa(i))...)
	}
	return
}

// genExtValue draws a valid value of a standard extension.
func genExtValue(t *rapid.T, l string, o []int) HB {
	seqOf := func(lo, hi int, f func(l string) []byte) HB {
		var b []byte
		for i := manyR(t, l+".n", lo, hi); i > 0; i-- {
			b = append(b, f(l+itoa(i))...)
		}
		return ref.Seq(b)
	}
	switch {
	case sameOID(o, oidSKI):
		return ref.Octets(genFill(t, l+".id", intR(t, l+".n", 0, 140)))
	case sameOID(o, oidKU):
		if coin(t, l+".plain", 1, 2) {
			return kuDER(intR(t, l+".ku", 0, 511))
		}
		b := genFill(t, l+".bits", intR(t, l+".n", 1, 3))
		un := intR(t, l+".un", 0, 7)
		b[len(b)-1] &^= 1<<un - 1
		return ref.TLV(3, []byte{byte(un)}, b)
	case sameOID(o, oidSAN):
		return ref.Seq(genGNs(t, l, 1, 4))
	case sameOID(o, oidBC):
		var b []byte
		if coin(t, l+".ca", 2, 3) {
			b = ref.Bool(true)
			if coin(t, l+".pl", 1, 2) {
				b = append(b, ref.Int(i64(pick(t, l+".len", int64(0), 0, 1, 127, 128, 255, 256, 65535, 1<<31, 1<<40)))...)
			}
		}
		return ref.Seq(b)
	case sameOID(o, oidNC):
		n := genNC(t, l+".nc")
		if n.empty() {
			n.PD = []string{"example.com"}
		}
		return n.der()
	case sameOID(o, oidCRLDP):
		return seqOf(1, 3, func(l string) []byte {
			var b []byte
			if coin(t, l+".name", 4, 5) {
				b = ref.TLV(0xa0, ref.TLV(0xa0, genGNs(t, l, 1, 3)))
			}
			if coin(t, l+".reasons", 1, 3) {
				b = append(b, ref.TLV(0x81, []byte{1, 0x66})...)
			}
			if len(b) == 0 || coin(t, l+".issuer", 1, 3) {
				b = append(b, ref.TLV(0xa2, ref.TLV(0xa4, genRDNs(t, l+".rdn")))...)
			}
			return ref.Seq(b)
		})
	case sameOID(o, oidPol):
		return seqOf(1, 3, func(l string) []byte {
			b := ref.OID(genOID(t, l+".o")...)
			if coin(t, l+".q", 1, 3) {
				b = append(b, ref.Seq(ref.Seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 2, 1), ref.TLV(0x16, []byte("http://cps"))))...)
			}
			return ref.Seq(b)
		})
	case sameOID(o, oidAKI):
		var b []byte
		if coin(t, l+".id", 3, 4) {
			b = ref.TLV(0x80, genFill(t, l+".v", intR(t, l+".n", 0, 40)))
		}
		if coin(t, l+".iss", 1, 3) {
			b = ref.Cat(b, ref.TLV(0xa1, ref.TLV(0xa4, genRDNs(t, l+".dn"))), ref.TLV(0x82, ref.IntBytes(genSerial(t, l+".ser"))))
		}
		return ref.Seq(b)
	case sameOID(o, oidEKU):
		return seqOf(1, 5, func(l string) []byte {
			return ref.OID(pick(t, l+".k", pick(t, l+".known", ekuOIDs...), genOID(t, l+".o"))...)
		})
	case sameOID(o, oidAIA):
		return seqOf(1, 4, func(l string) []byte {
			return ref.Seq(ref.OID(pick(t, l+".m", oidOCSP, oidIssuers, oidOCSP, oidIssuers, genOID(t, l+".o"))...), pick(t, l+".g", ref.TLV(0x86, []byte(genASCII(t, l+".u", 20))), genGN(t, l+".gn")))
		})
	}
	bug("no value generator for %v", o)
	return nil
}

// ---- foreign certificates ----

// Foreign is a certificate assembled by the independent encoder.
type Foreign struct {
	Key             Key
	Version         int // 0 = v1 (field absent)
	Serial          *big.Int
	Issuer, Subject HB
	NB, NA          int64
	UID, SUID       HB `json:",omitempty"`
	Exts            []Ext
	Sig             HB
	CSR             bool `json:",omitempty"` // a request instead of a certificate
}

func genForeign(t *rapid.T) Foreign {
	f := Foreign{Key: genKey(t, "key"), Version: 2, Serial: genSerial(t, "serial"), Issuer: genRDNs(t, "issuer"), Subject: genRDNs(t, "subject"), NB: genSecs(t, "nb"), NA: genSecs(t, "na"), Sig: genFill(t, "sig", intR(t, "siglen", 0, 80))}
	if coin(t, "uid", 1, 8) {
		f.UID = genFill(t, "uidv", intR(t, "uidn", 1, 9))
	}
	if coin(t, "suid", 1, 8) {
		f.SUID = genFill(t, "suidv", intR(t, "suidn", 1, 9))
	}
	return f
}

func (f Foreign) tbs() []byte {
	var b []byte
	if f.Version != 0 {
		b = ref.TLV(0xa0, ref.Int(i64(int64(f.Version))))
	}
	b = ref.Cat(b, ref.Int(f.Serial), algSM2, f.Issuer, ref.Seq(timeDER(f.NB), timeDER(f.NA)), f.Subject, refSPKI(f.Key.pt()))
	if f.UID != nil {
		b = append(b, ref.TLV(0x81, []byte{0}, f.UID)...)
	}
	if f.SUID != nil {
		b = append(b, ref.TLV(0x82, []byte{0}, f.SUID)...)
	}
	if len(f.Exts) > 0 {
		b = append(b, ref.TLV(0xa3, f.extList())...)
	}
	return ref.Seq(b)
}

func (f Foreign) extList() []byte {
	var es []byte
	for _, e := range f.Exts {
		es = append(es, e.der()...)
	}
	return ref.Seq(es)
}

func (f Foreign) csrTBS() []byte {
	var attrs []byte
	if len(f.UID) > 0 { // a challenge password
		attrs = ref.Seq(ref.OID(1, 2, 840, 113549, 1, 9, 7), ref.TLV(0x31, ref.TLV(0x0c, []byte("secret"))))
	}
	if len(f.Exts) > 0 {
		attrs = append(attrs, ref.Seq(ref.OID(oidExtReq...), ref.TLV(0x31, f.extList()))...)
	}
	return ref.Seq(ref.Int(i64(0)), f.Subject, refSPKI(f.Key.pt()), ref.TLV(0xa0, attrs))
}

func (f Foreign) der() []byte {
	if f.CSR {
		return ref.Seq(f.csrTBS(), algSM2, ref.BitString(f.Sig))
	}
	return ref.Seq(f.tbs(), algSM2, ref.BitString(f.Sig))
}

func runForeign(rec *Rec, f Foreign) error {
	exts := f.Exts
	if f.CSR { // only alternative names are looked into
		exts = nil
		for _, e := range f.Exts {
			if hasOID([][]int{oidSAN}, e.OID) {
				exts = append(exts, e)
			}
		}
	}
	w, v := interpret(exts)
	der := f.der()
	rec.Class("%s", []string{"must be accepted", "may be refused", "no claim on a value", "must be refused"}[v])
	for _, e := range f.Exts {
		var w1 Want
		ev, _ := w1.decode(e)
		name := "unknown"
		if hasOID(stdExts, e.OID) {
			name = oidKey(e.OID)
		}
		rec.Class("ext %s: %s", name, []string{"valid", "unusual", "no claim", "invalid"}[ev])
	}
	if len(f.Exts) > 0 && v != free {
		rec.NT()
	}
	if f.CSR {
		return f.checkCSR(rec, der, &w, v)
	}
	x, err := cert.ParseCertificate(append([]byte{}, der...))
	if err != nil {
		if x != nil {
			return fail("a certificate was returned together with the error %v", err)
		}
		if v == must {
			return fail("valid certificate refused: %v\n%x", err, der)
		}
		return nil
	}
	if v == mustErr {
		return fail("a certificate with an invalid extension was accepted: %s", extsString(f.Exts))
	}
	if err := sameExts("parsed certificate", extsOf(x.Extensions), f.Exts); err != nil {
		return err
	}
	if err := w.checkFields(x); err != nil {
		return err
	}
	return f.checkBasics(x, der)
}

// checkBasics compares the fields that are no extensions.
func (f Foreign) checkBasics(x *x509.Certificate, der []byte) error {
	for _, c := range []struct {
		what      string
		got, want []byte
	}{{"raw bytes", x.Raw, der}, {"signed bytes", x.RawTBSCertificate, f.tbs()}, {"signature", x.Signature, f.Sig},
		{"key information", x.RawSubjectPublicKeyInfo, refSPKI(f.Key.pt())}} {
		if !bytes.Equal(c.got, c.want) {
			return fail("parsed certificate: %s are %s, want %s", c.what, hexs(c.got), hexs(c.want))
		}
	}
	if x.Version != f.Version+1 || x.SerialNumber == nil || x.SerialNumber.Cmp(f.Serial) != 0 {
		return fail("parsed certificate: version %d, serial number %v, want %d and %v", x.Version, x.SerialNumber, f.Version+1, f.Serial)
	}
	if x.NotBefore.Unix() != f.NB || x.NotAfter.Unix() != f.NA || x.NotBefore.Nanosecond() != 0 || x.NotAfter.Nanosecond() != 0 {
		return fail("parsed certificate: validity %v - %v, want %d - %d", x.NotBefore, x.NotAfter, f.NB, f.NA)
	}
	if err := checkName("subject", Name{Raw: f.Subject}, x.Subject, x.RawSubject); err != nil {
		return err
	}
	if err := checkName("issuer", Name{Raw: f.Issuer}, x.Issuer, x.RawIssuer); err != nil {
		return err
	}
	pub, ok := x.PublicKey.(*sm2.PublicKey)
	if !ok {
		return fail("parsed certificate: public key is a %T", x.PublicKey)
	}
	return checkPub(pub, f.Key.pt(), "parsed certificate")
}

func (f Foreign) checkCSR(rec *Rec, der []byte, w *Want, v verdict) error {
	x, err := cert.ParseCertificateRequest(append([]byte{}, der...))
	if err != nil {
		if x != nil {
			return fail("a request was returned together with the error %v", err)
		}
		if v == must {
			return fail("valid request refused: %v\n%x", err, der)
		}
		return nil
	}
	if v == mustErr {
		return fail("a request with an invalid extension was accepted: %s", extsString(f.Exts))
	}
	if err := sameExts("parsed request", extsOf(x.Extensions), f.Exts); err != nil {
		return err
	}
	if w.skip[oidKey(oidSAN)] {
		return nil
	}
	for _, c := range []struct {
		what      string
		got, want []string
	}{{"DNS names", x.DNSNames, w.DNS}, {"e-mail addresses", x.EmailAddresses, w.Mail}, {"IP addresses", ipStrings(x.IPAddresses), w.IP}, {"URIs", urlStrings(x.URIs), w.URI}} {
		if err := sameStrings("parsed request: "+c.what, c.got, c.want); err != nil {
			return err
		}
	}
	if !bytes.Equal(x.RawTBSCertificateRequest, f.csrTBS()) || !bytes.Equal(x.Signature, f.Sig) {
		return fail("parsed request: wrong raw parts")
	}
	pub, ok := x.PublicKey.(*sm2.PublicKey)
	if !ok {
		return fail("parsed request: public key is a %T", x.PublicKey)
	}
	return checkPub(pub, f.Key.pt(), "parsed request")
}

// P31: all extensions, valid and damaged.
// genRelName makes a name relative to the issuer, as prescribed or as a list
// of sets, which may be empty.
func genRelName(t *rapid.T, l string) (n []byte) {
	for i := intR(t, l+".atvs", 0, 2); i > 0; i-- {
		av := ref.Seq(ref.OID(genOID(t, l+".t"+itoa(i))...), ref.TLV(0x13, []byte("v")))
		if coin(t, l+".set"+itoa(i), 2, 3) {
			av = ref.TLV(0x31, pick(t, l+".in"+itoa(i), av, av, nil))
		}
		n = append(n, av...)
	}
	return
}

func genForeignExts(t *rapid.T) Foreign {
	f := genForeign(t)
	perm := rapid.Permutation(stdExts).Draw(t, "perm")
	damage := coin(t, "damage", 1, 2)
	for i, o := range perm[:intR(t, "n", 0, 6)] {
		l := "e" + itoa(i)
		e := Ext{OID: o, Crit: coin(t, l+".crit", 1, 2), V: genExtValue(t, l+".v", o)}
		if sameOID(o, oidCRLDP) && coin(t, l+".rel", 1, 4) {
			_, points, _, _, _ := ref.ReadTLV(e.V)
			rel := ref.Seq(ref.TLV(0xa0, ref.TLV(0xa1, genRelName(t, l+".rel"))))
			e.V = ref.Seq(pick(t, l+".relfirst", ref.Cat(rel, points), ref.Cat(points, rel)))
		}
		if damage && coin(t, l+".damage", 1, 2) {
			switch intR(t, l+".dk", 0, 5) {
			case 0:
				e.V = genBytes(t, l+".raw", 40)
			case 1:
				e.V = mutateBytes(t, l+".mb", e.V)
			case 2: // the value of another extension
				e.V = genExtValue(t, l+".w", pick(t, l+".other", stdExts...))
			default:
				e.V = mutateDER(t, l+".md", e.V)
			}
		}
		f.Exts = append(f.Exts, e)
	}
	for _, e := range genUnknownExts(t, "unknown", 3) {
		at := intR(t, "at", 0, len(f.Exts))
		f.Exts = append(f.Exts[:at:at], append([]Ext{e}, f.Exts[at:]...)...)
	}
	if len(f.Exts) == 0 {
		f.Version = pick(t, "version", 0, 1, 2)
		if f.Version == 0 {
			f.UID, f.SUID = nil, nil
		}
	}
	return f
}

// P33: one name constraints extension.
func genForeignNC(t *rapid.T) Foreign {
	f := Foreign{Key: genKey(t, "key"), Version: 2, Serial: i64(5), Issuer: HB{0x30, 0}, Subject: HB{0x30, 0}, NA: 1e9, Sig: HB{1}}
	wild := intR(t, "wild", 0, 3) // how many values may be invalid: none, one, one, all
	part := func(l string, tag byte) []byte {
		var b []byte
		for i := pick(t, l+".n", 1, 1, 2, manyR(t, l+".nn", 3, 4), 0); i > 0; i-- {
			x := l + itoa(i)
			g := genConstraint(t, x, wild > 0)
			if wild < 3 {
				wild = 0
			}
			if coin(t, x+".minmax", 1, 10) {
				g = append(g, pick(t, x+".mm", []byte{0x80, 1, 0}, []byte{0x80, 1, 0, 0x81, 1, 5}, []byte{0x81, 1, 1}, []byte{5, 0}, []byte{0x99})...)
			}
			b = append(b, ref.Seq(g)...)
		}
		return ref.TLV(tag, b)
	}
	var c []byte
	switch intR(t, "parts", 0, 8) {
	case 0, 1:
		c = part("p", 0xa0)
	case 2:
		c = part("x", 0xa1)
	case 3:
		c = ref.Cat(part("p", 0xa0), part("x", 0xa1))
	case 4:
		c = pick(t, "odd", nil, ref.Cat(part("x", 0xa1), part("p", 0xa0)), part("q", 0xa2), part("p", 0x80), ref.Cat(part("p", 0xa0), part("p2", 0xa0)), ref.Cat(part("x", 0xa1), []byte{5, 0}), []byte{0xa0, 0}, []byte{0xa0, 0, 0xa1, 0})
	default:
		c = ref.Cat(part("p", 0xa0), part("x", 0xa1))
	}
	v := ref.Seq(c)
	if coin(t, "damage", 1, 8) {
		v = mutateDER(t, "m", v)
	} else if coin(t, "trail", 1, 25) {
		v = append(v, genFill(t, "tr", intR(t, "trn", 1, 3))...)
	}
	f.Exts = []Ext{{oidNC, coin(t, "crit", 1, 2), v}}
	if coin(t, "more", 1, 4) {
		f.Exts = append(f.Exts, Ext{oidKU, true, kuDER(6)})
	}
	return f
}

// genDomain draws domains around the border of validity.
func genDomain(t *rapid.T, l string) string {
	s := genHost(t, l)
	switch intR(t, l+".dk", 0, 9) {
	case 0:
		return "." + s
	case 1:
		return s + "."
	case 2:
		return ".." + s
	case 3:
		return strings.Replace(s, ".", "..", 1)
	case 4:
		i := intR(t, l+".pos", 0, len(s))
		c := pick(t, l+".c", 0, 1, 9, 10, 31, 32, 33, 126, 127, 128, 255, intR(t, l+".any", 0, 255))
		return s[:i] + string([]byte{byte(c)}) + s[i:]
	case 5:
		return pick(t, l+".x", "", ".", "..", " ", "*", "*."+s, "\u4e2d."+s, "a_b."+s, s+":80", s+" ", s+".\u00e9")
	}
	return s
}

func genMailbox(t *rapid.T, l string) string {
	var local string
	switch intR(t, l+".mk", 0, 10) {
	case 9, 10: // any order of the characters that matter
		return soup(t, l+".soup", 9, "\"", "\"", "\\", "@", ".", "a", "a.b", " ", "\x7f", "\x0b", "\x80", "@a.b")
	case 0, 1:
		local = pick(t, l+".plain", "user", "first.last", "a+b", "!#$%&'*+-/=?^_`{|}~", "0")
	case 2:
		local = pick(t, l+".dots", ".user", "user.", "a..b", ".", "a.b.c")
	case 3:
		c := byte(intR(t, l+".c", 0, 255))
		local = "a" + string([]byte{c}) + "b"
	case 4:
		c := byte(intR(t, l+".qc", 0, 255))
		local = "\"a" + string([]byte{c}) + "b\""
	case 5:
		c := byte(intR(t, l+".ec", 0, 255))
		local = "\"a\\" + string([]byte{c}) + "b\""
	case 6:
		local = pick(t, l+".q", "\"\"", "\"a", "\"a\"b", "\"a b\"", "\"a\\\"", "\"@\"", "\"a.b.\"", "a\"b\"", "\"a\\\\\"")
	case 7:
		local = ""
	default:
		local = genASCII(t, l+".any", 8)
	}
	d := genDomain(t, l+".dom")
	s := local + pick(t, l+".at", "@", "@", "@", "@", "@", "@@", "") + d
	if coin(t, l+".cut", 1, 5) {
		s = pick(t, l+".cutset", mangled(s)...)
	}
	return s
}

// soup joins up to n of the pieces in any order.
func soup(t *rapid.T, l string, n int, pieces ...string) string {
	var b strings.Builder
	for i := intR(t, l+".n", 0, n); i > 0; i-- {
		b.WriteString(pick(t, l+".p"+itoa(i), pieces...))
	}
	return b.String()
}

// mangled lists the proper beginnings and endings of s, s with each character
// left out or doubled, and s with a delimiter put in at each place.
func mangled(s string) (o []string) {
	for i := 0; i <= len(s); i++ {
		o = append(o, s[:i], s[i:])
		for _, c := range []string{"\"", "\\", "@", "."} {
			o = append(o, s[:i]+c+s[i:], s[:i]+c)
		}
		if i < len(s) {
			o = append(o, s[:i]+s[i+1:], s[:i+1]+s[i:])
		}
	}
	return
}

// Prefixes of IPv6 addresses that hold an IPv4 address, and near misses.
var embedPrefixes = []string{"00000000000000000000ffff", "00000000000000000000ffff", "000000000000000000000000", "0064ff9b0000000000000000", "00000000000000000000fffe", "00000000000000000001ffff"}

func embedAt(v []byte, prefix string) {
	p, err := hex.DecodeString(prefix)
	if err != nil {
		bug("%v", err)
	}
	copy(v, p)
}

// embedIP4 makes a 16-byte address one that holds an IPv4 address.
func embedIP4(t *rapid.T, l string, v []byte) {
	embedAt(v, pick(t, l+".in", embedPrefixes...))
}

// genConstraint draws the base of a subtree.
func genConstraint(t *rapid.T, l string, wild bool) []byte {
	if !wild {
		n := genNC(t, l+".valid")
		n.XD, n.XI, n.XM, n.XU = nil, nil, nil, nil
		if n.empty() {
			n.PD = []string{genHost(t, l+".host")}
		}
		_, c, _, _, _ := ref.ReadTLV(n.der())
		_, c, _, _, _ = ref.ReadTLV(c)
		es, _ := tlvs(c)
		_, c, _, _, _ = ref.ReadTLV(es[intR(t, l+".which", 0, len(es)-1)])
		return c
	}
	switch intR(t, l+".k", 0, 12) {
	case 0, 1, 2:
		return ref.TLV(0x82, []byte(genDomain(t, l)))
	case 3, 4:
		return ref.TLV(0x81, []byte(genMailbox(t, l)))
	case 5:
		return ref.TLV(0x81, []byte(genDomain(t, l)))
	case 6, 7:
		s := genDomain(t, l)
		if coin(t, l+".lit", 1, 4) {
			s = pick(t, l+".ip", "1.2.3.4", "::1", "2001:db8::1", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::ffff:1.2.3.4", "[::1]", ".1.2.3.4", "01.2.3.4", "1.2.3.4.")
		}
		return ref.TLV(0x86, []byte(s))
	case 8, 9, 10:
		ln := pick(t, l+".len", 8, 8, 32, 32, 4, 16, 0, 7, 9, 31, 33, 12, 20, 5, 40)
		v := genFill(t, l+".ip", ln)
		high := 0
		if ln == 32 && coin(t, l+".emb", 1, 4) { // an IPv4 address within an IPv6 one
			embedIP4(t, l, v[:16])
			if coin(t, l+".deep", 2, 3) {
				high = 96
			}
		}
		if ln == 8 || ln == 32 {
			m := v[ln/2:]
			for i := range m {
				m[i] = 0
			}
			for i := intR(t, l+".bits", high, 4*ln) - 1; i >= 0; i-- {
				m[i/8] |= 0x80 >> (i % 8)
			}
			if coin(t, l+".hole", 1, 3) {
				m[intR(t, l+".hp", 0, ln/2-1)] ^= 1 << intR(t, l+".hb", 0, 7)
			}
		}
		return ref.TLV(0x87, v)
	case 11:
		return pick(t, l+".unk", ref.TLV(0xa4, genRDNs(t, l+".dn")), ref.TLV(0xa0, ref.OID(1, 2, 3), ref.TLV(0xa0, ref.TLV(12, []byte("x")))), ref.TLV(0x88, []byte{42, 3}), ref.TLV(0xa3, ref.Seq()), ref.TLV(0xa5, ref.Seq()), ref.TLV(0x80, []byte("x")), ref.TLV(0xa2, []byte("y")), ref.TLV(0x85, nil))
	}
	return ref.TLV(0x82, nil)
}

// P34: one alternative name extension, in a certificate or a request.
func genForeignSAN(t *rapid.T) Foreign {
	f := Foreign{Key: genKey(t, "key"), Version: 2, Serial: i64(5), Issuer: HB{0x30, 0}, Subject: HB{0x30, 0}, NA: 1e9, Sig: HB{1}, CSR: coin(t, "csr", 1, 3)}
	if f.CSR && coin(t, "pw", 1, 3) {
		f.UID = HB{1}
	}
	var c []byte
	calm := coin(t, "calm", 2, 3) // at most one odd name
	for i := manyR(t, "n", 0, 5); i > 0; i-- {
		l := "g" + itoa(i)
		if i > 1 && calm {
			c = append(c, genGN(t, l)...)
			continue
		}
		switch intR(t, l+".kind", 0, 9) {
		case 0:
			ip := genFill(t, l+".ip", pick(t, l+".len", 4, 16, 4, 16, 16, 0, 3, 5, 8, 15, 17, 32))
			if len(ip) == 16 && coin(t, l+".emb", 1, 3) {
				embedIP4(t, l, ip)
			}
			c = append(c, ref.TLV(0x87, ip)...)
		case 1, 2:
			c = append(c, ref.TLV(0x86, []byte(genWildURI(t, l)))...)
		case 3:
			c = append(c, ref.TLV(pick(t, l+".tag", byte(0x81), 0x82), genBytes(t, l+".raw", 300, 128))...)
		default:
			c = append(c, genGN(t, l)...)
		}
	}
	if coin(t, "bulk", 1, 120) { // a huge name among them
		big := ref.TLV(pick(t, "bulktag", byte(0x81), 0x82, 0x86, 0xa0, 0x88), bytes.Repeat([]byte{'a' + byte(intR(t, "letter", 0, 25))}, pick(t, "bulkn", 255, 256, 32768, 65536, 70000)))
		if coin(t, "front", 2, 3) {
			c = append(big, c...)
		} else {
			c = append(c, big...)
		}
	}
	v := ref.Seq(c)
	switch intR(t, "damage", 0, 18) {
	case 0, 1:
		v = mutateDER(t, "m", v)
	case 2:
		v[0] = pick(t, "tag", byte(0x31), 0x10, 0x70, 0xb0, 4)
	case 3:
		v = append(v, genFill(t, "tr", intR(t, "trn", 1, 3))...)
	case 4:
		v = genBytes(t, "any", 20)
	}
	f.Exts = []Ext{{oidSAN, coin(t, "crit", 1, 2), v}}
	if coin(t, "more", 1, 4) {
		f.Exts = append([]Ext{{oidKU, true, kuDER(6)}}, f.Exts...)
	}
	return f
}

func genWildURI(t *rapid.T, l string) string {
	switch intR(t, l+".wk", 0, 5) {
	case 5:
		return pick(t, l+".scheme", "http://", "http://", "x:", "//", "") + soup(t, l+".soup", 7, ":", "/", "@", "[", "]", "?", "#", "%", ".", "0", "a", "a.b", "::1", "%41", "%00", " ", "\x00", "\x80", "\u00e9")
	case 0:
		return genURI(t, l)
	case 1, 2:
		return pick(t, l+".s", "http:", "http:", "ldap:", "x:", "") + "//" + pick(t, l+".u", "", "", "", "u@", "u:p@") + genDomain(t, l) + pick(t, l+".p", "", "/", ":80/x", "?q", "/a b")
	case 3:
		return pick(t, l+".odd", "", "/relative", "//host/x", "http://", "http://[::1]/", "http://[::1]:80/", "http://[::1", "http://a b/", "%zz", "http://%41/", "://x", "1http://x", "http://x:port/", "http://user@/x", "http://1.2.3.4/", "mailto:a@b", "http://.x/", "http://x./", "http://x..y/", "http:///p", "\x7f", "http://\u4e2d/", "?q", "#f", ":", "a:b:c", "http://x/%", "http://example.com:/", "http://[fe80::1%25en0]/")
	}
	return string(genBytes(t, l+".raw", 30))
}

// ---- P30: algorithms and keys ----

type algCase struct {
	CSR          bool
	X            *XPoint `json:",omitempty"` // used instead of Key
	Key          Key
	Outer, Alg   []int
	InnerOK      bool // the inner signature algorithm is right even if the outer is not
	OuterP, AlgP HB   // parameters after the identifiers
	KeyKind      string
	Tail         HB
	TailAt       int // 0 outermost, 1.. extension index
}

func genAlg(t *rapid.T) algCase {
	c := algCase{CSR: coin(t, "csr", 1, 2), Key: genKey(t, "key"), Outer: oidSM2SM3, Alg: oidEC, AlgP: ref.OID(oidCurve...), KeyKind: "good"}
	if coin(t, "extreme", 1, 4) {
		x := genXPoint(t, "x")
		c.X = &x
	}
	switch intR(t, "what", 0, 7) {
	case 0:
		c.InnerOK = coin(t, "innerok", 1, 2)
		c.Outer = pick(t, "outer", []int{1, 2, 156, 10197, 1, 502}, []int{1, 2, 156, 10197, 1, 301}, []int{1, 2, 840, 10045, 4, 3, 2}, []int{1, 2, 840, 113549, 1, 1, 11}, []int{1, 2, 156, 10197, 1, 501, 1}, []int{1, 2, 156, 10197, 1}, genOID(t, "oo"))
	case 1:
		c.Alg = pick(t, "alg", []int{1, 2, 840, 113549, 1, 1, 1}, []int{1, 2, 840, 10045, 2}, []int{1, 2, 840, 10045, 2, 1, 1}, []int{1, 2, 156, 10197, 1, 301}, []int{1, 3, 132, 1, 12}, genOID(t, "ao"))
	case 2:
		c.AlgP = pick(t, "params", nil, ref.OID(1, 2, 840, 10045, 3, 1, 7), ref.OID(1, 2, 156, 10197, 1, 302), ref.OID(1, 2, 156, 10197, 1), ref.OID(1, 2, 156, 10197, 1, 301, 1), []byte{5, 0}, ref.Seq(ref.OID(oidCurve...)), ref.TLV(4, ref.OIDBytes(oidCurve...)), []byte{6, 0}, ref.OID(genOID(t, "co")...))
	case 3, 4:
		c.KeyKind = pick(t, "kk", "compressed", "hybrid", "inf", "off", "swap", "neg", "short", "long", "empty", "zero", "plusp", "type0", "type5", "xonly", "bad-hybrid", "offx", "ffff", "good")
	case 5:
		c.Tail = genFill(t, "tail", intR(t, "tn", 1, 4))
		if !c.CSR || coin(t, "outertail", 1, 2) {
			c.TailAt = intR(t, "at", 0, len(stdExts))
		}
	case 6:
		c.OuterP = pick(t, "op", HB{5, 0}, nil)
	}
	return c
}

// build encodes the case; ok tells whether it must be accepted, and pt the key
// inside then.
func (c algCase) build(rec *Rec) (der []byte, ok bool, pt ref.Pt, ext string) {
	pt = c.Key.pt()
	if c.X != nil {
		pt = c.X.pt()
	}
	ok = sameOID(c.Outer, oidSM2SM3) && sameOID(c.Alg, oidEC) && bytes.Equal(c.AlgP, ref.OID(oidCurve...))
	if (sameOID(c.Outer, oidSM2SM3)) && (sameOID(c.Alg, oidEC)) && !ok {
		rec.Class("curve parameters %x", []byte(c.AlgP))
	}
	X, Y := b32(pt.X), b32(pt.Y)
	key := ref.Cat([]byte{4}, X, Y)
	ysel := byte(pt.Y.Bit(0))
	switch c.KeyKind {
	case "good":
	case "compressed":
		key, ok = ref.Cat([]byte{2 + ysel}, X), false
	case "hybrid":
		key[0], ok = 6+ysel, false
	case "bad-hybrid":
		key[0], ok = 7-ysel, false
	case "inf":
		key, ok = []byte{0}, false
	case "off":
		key[64] ^= 1
		ok = false
	case "offx":
		key[5] ^= 0x10
		ok = ok && ref.OnCurve(new(big.Int).SetBytes(key[1:33]), pt.Y)
	case "swap":
		key = ref.Cat([]byte{4}, Y, X)
		ok = ok && ref.OnCurve(pt.Y, pt.X)
		if ok {
			pt = ref.Pt{X: pt.Y, Y: pt.X}
		}
	case "neg":
		pt = ref.Neg(pt)
		key = ref.Cat([]byte{4}, X, b32(pt.Y))
	case "short":
		key, ok = key[:64], false
	case "long":
		key, ok = append(key, 0), false
	case "xonly":
		key, ok = key[:33], false
	case "empty":
		key, ok = nil, false
	case "zero":
		key, ok = append([]byte{4}, make([]byte, 64)...), false
	case "ffff":
		key, ok = append([]byte{4}, bytes.Repeat([]byte{0xff}, 64)...), false
	case "plusp":
		xp, yp := badd(pt.X, ref.P), badd(pt.Y, ref.P)
		if xp.BitLen() <= 256 {
			key = ref.Cat([]byte{4}, b32(xp), Y)
		} else if yp.BitLen() <= 256 {
			key = ref.Cat([]byte{4}, X, b32(yp))
		} else {
			key = ref.Cat([]byte{4}, b32(ref.P), Y)
		}
		ok = false
	case "type0":
		key[0], ok = 0, false
	case "type5":
		key[0], ok = 5, false
	}
	spki := ref.Seq(ref.Seq(ref.OID(c.Alg...), c.AlgP), ref.BitString(key))
	outer := ref.Seq(ref.OID(c.Outer...), c.OuterP)
	name := ref.Seq(ref.TLV(0x31, ref.Seq(ref.OID(2, 5, 4, 3), ref.TLV(0x13, []byte("n")))))
	var exts []byte
	if c.TailAt > 0 {
		o := stdExts[c.TailAt-1]
		v := fixedExtValue(o)
		v = append(v, c.Tail...)
		exts = ref.Seq(Ext{OID: o, V: v}.der())
		ext = oidKey(o)
		if !c.CSR || sameOID(o, oidSAN) {
			ok = false
		}
	}
	if c.CSR {
		var attrs []byte
		if exts != nil {
			attrs = ref.Seq(ref.OID(oidExtReq...), ref.TLV(0x31, exts))
		}
		der = ref.Seq(ref.Seq(ref.Int(i64(0)), name, spki, ref.TLV(0xa0, attrs)), outer, ref.BitString([]byte{1, 2}))
	} else {
		inner := outer
		if c.InnerOK {
			inner = algSM2
		}
		b := ref.Cat(ref.TLV(0xa0, ref.Int(i64(2))), ref.Int(i64(7)), inner, name, ref.Seq(timeDER(0), timeDER(1)), name, spki)
		if exts != nil {
			b = append(b, ref.TLV(0xa3, exts)...)
		}
		der = ref.Seq(ref.Seq(b), outer, ref.BitString([]byte{1, 2}))
	}
	if c.TailAt == 0 && len(c.Tail) > 0 {
		der = append(der, c.Tail...)
		ok = false
	}
	return
}

func runAlg(rec *Rec, c algCase) error {
	der, ok, pt, ext := c.build(rec)
	rec.Class("%v %s ok=%v %s", c.CSR, c.KeyKind, ok, ext)
	if !ok || c.X != nil {
		rec.NT()
	}
	var err error
	var pub any
	var none bool
	if c.CSR {
		var x *x509.CertificateRequest
		x, err = cert.ParseCertificateRequest(der)
		if none = x == nil; !none {
			pub = x.PublicKey
		}
	} else {
		var x *x509.Certificate
		x, err = cert.ParseCertificate(der)
		if none = x == nil; !none {
			pub = x.PublicKey
		}
	}
	if err != nil {
		if !none {
			return fail("a result was returned together with the error %v", err)
		}
		if ok {
			return fail("a well-formed SM2 object was refused: %v\n%x", err, der)
		}
		return nil
	}
	if !ok {
		return fail("accepted although it must not be (key %s, outer %v, alg %v, parameters %x, trailing %x at %q): %x", c.KeyKind, c.Outer, c.Alg, []byte(c.AlgP), []byte(c.Tail), ext, der)
	}
	p, isKey := pub.(*sm2.PublicKey)
	if !isKey {
		return fail("public key is a %T", pub)
	}
	return checkPub(p, pt, "parsed key")
}

func fixedExtValue(o []int) []byte {
	switch {
	case sameOID(o, oidSKI):
		return ref.Octets([]byte{1, 2})
	case sameOID(o, oidKU):
		return kuDER(5)
	case sameOID(o, oidSAN):
		return ref.Seq(ref.TLV(0x82, []byte("a.b")))
	case sameOID(o, oidBC):
		return ref.Seq(ref.Bool(true))
	case sameOID(o, oidNC):
		return ref.Seq(ref.TLV(0xa0, ref.Seq(ref.TLV(0x82, []byte("a.b")))))
	case sameOID(o, oidCRLDP):
		return ref.Seq(ref.Seq(ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, []byte("http://c"))))))
	case sameOID(o, oidPol):
		return ref.Seq(ref.Seq(ref.OID(1, 2, 3)))
	case sameOID(o, oidAKI):
		return ref.Seq(ref.TLV(0x80, []byte{1}))
	case sameOID(o, oidEKU):
		return ref.Seq(ref.OID(ekuOIDs[1]...))
	}
	return ref.Seq(ref.Seq(ref.OID(oidOCSP...), ref.TLV(0x86, []byte("http://o"))))
}

func init() {
	register("P30", NewSub("algorithms", "certificates and requests from the independent encoder with substituted signature algorithm, key algorithm, curve, key encoding (18 kinds, unreduced coordinates included) or trailing data: accepted exactly when all are right; non-trivial: a substitution, or a key with an extreme coordinate", 160000, 6000000, genAlg, runAlg),
		NewSub("structure", "independently made certificates and requests with one mandatory element dropped, retagged, emptied, given a non-DER length, or the object cut off: refused, and accepted untouched; non-trivial: damaged", 60000, 2000000, genShape, runShape))
	register("P31", NewSub("extensions", "certificates with 0-6 standard and 0-3 unknown extensions, half of them with damaged values: judged by an independent decoder of every extension; non-trivial: extensions present and a claim made", 100000, 4000000, genForeignExts, runForeign))
	register("P33", NewSub("constraints", "name constraints of all kinds with valid and invalid values: judged by an independent decoder; non-trivial: a claim is made", 300000, 10000000, genForeignNC, runForeign),
		NewSweep("sweep", "every byte value in every part of mailboxes and domains, every mask with bits changed, every length of a range; non-trivial: a claim is made", sweepNC, runForeign))
	register("P34", NewSub("names", "alternative names of all kinds with valid and invalid contents in certificates and requests: judged by an independent decoder; non-trivial: a claim is made", 300000, 10000000, genForeignSAN, runForeign),
		NewSweep("sweep", "every byte value in every part of URIs, every name tag, every address length; non-trivial: a claim is made", sweepSAN, runForeign))
}

// ---- sweeps: every byte value in every position of a value ----

func oneExt(o []int, v []byte, csr bool) Foreign {
	return Foreign{Key: 0, Version: 2, Serial: i64(5), Issuer: HB{0x30, 0}, Subject: HB{0x30, 0}, NA: 1e9, Sig: HB{1}, Exts: []Ext{{oidNC, true, v}}, CSR: csr}.with(o)
}

func (f Foreign) with(o []int) Foreign { f.Exts[0].OID = o; return f }

// sweepNC lists name constraints with every byte value in every part of a
// mailbox and of a domain, and every network mask with every bit changed.
func sweepNC() (o []Foreign) {
	nc := func(tag byte, v []byte) {
		part := byte(0xa0)
		if len(o)%2 == 1 {
			part = 0xa1
		}
		o = append(o, oneExt(oidNC, ref.Seq(ref.TLV(part, ref.Seq(ref.TLV(tag, v)))), false))
	}
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		for _, s := range []string{"a" + b + "c@x.y", b + "@x.y", b + "a@x.y", "a" + b + "@x.y", "\"a" + b + "c\"@x.y", "\"" + b + "\"@x.y", "\"a\\" + b + "c\"@x.y", "a\\" + b + "c@x.y",
			"a@" + b + "x.y", "a@x.y" + b, "a@x" + b + "y", "\"a\"" + b + "@x.y", "\"a\"@" + b} {
			nc(0x81, []byte(s))
		}
		for _, s := range []string{b, b + "x.y", "x" + b + "y", "x.y" + b, "." + b + "x"} {
			for _, tag := range []byte{0x81, 0x82, 0x86} {
				nc(tag, []byte(s))
			}
		}
	}
	for _, s := range []string{"a.b@x.y", "\"a\"\"b\"@x.y", "\"a@b\"@x.y", "\"a\\\"@b\"@x.y", "\"\\\\@\"@.x", "a\\@b@x.y"} {
		for _, m := range mangled(s) {
			nc(0x81, []byte(m))
			for _, mm := range mangled(m) {
				if strings.Contains(mm, "@") && len(o)%3 != 0 {
					nc(0x81, []byte(mm))
				} else {
					nc(0x81, []byte(mm+"@"))
				}
			}
		}
	}
	for _, s := range []string{".a-b.c", "a.b", "*.x.y"} {
		for _, m := range mangled(s) {
			for _, tag := range []byte{0x81, 0x82, 0x86} {
				nc(tag, []byte(m))
			}
		}
	}
	for _, n := range []int{4, 16} {
		ip := bytes.Repeat([]byte{0xff}, n)
		for l := 0; l <= 8*n; l++ {
			mask := make([]byte, n)
			for i := 0; i < l; i++ {
				mask[i/8] |= 0x80 >> (i % 8)
			}
			nc(0x87, ref.Cat(ip, mask))
			for i := 0; i < 8*n; i++ {
				if n == 4 || i/8 == l/8 || i%17 == l%17 {
					m := append([]byte{}, mask...)
					m[i/8] ^= 0x80 >> (i % 8)
					nc(0x87, ref.Cat(ip, m))
				}
			}
		}
		for c := 0; c < 256; c++ {
			for i := 0; i < n; i += 3 {
				m := bytes.Repeat([]byte{0xff}, n)
				m[i] = byte(c)
				nc(0x87, ref.Cat(ip, m))
			}
		}
	}
	for _, pre := range embedPrefixes {
		for l := 0; l <= 128; l++ {
			v := make([]byte, 32)
			embedAt(v, pre)
			copy(v[12:], []byte{10, 20, 30, 40})
			for i := 0; i < l; i++ {
				v[16+i/8] |= 0x80 >> (i % 8)
			}
			nc(0x87, v)
		}
	}
	for n := 0; n <= 66; n++ {
		nc(0x87, bytes.Repeat([]byte{0xff}, n))
		nc(0x87, make([]byte, n))
	}
	return
}

// sweepSAN does the same for alternative names.
func sweepSAN() (o []Foreign) {
	add := func(tag byte, v []byte) {
		o = append(o, oneExt(oidSAN, ref.Seq(ref.TLV(tag, v)), len(o)%4 == 3))
	}
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		for _, pre := range []string{"http://", "//", "ldap://u@"} {
			for _, s := range []string{b, b + "x.y", "x" + b + "y", "x.y" + b, "x.y" + b + "/p", "x." + b + ":80"} {
				add(0x86, []byte(pre+s))
			}
		}
		for _, s := range []string{b, "a" + b + "b", "http:" + b, "http:/" + b + "x", "http://x.y/" + b, "http://x.y/?" + b, "http://x.y/#" + b, "http://" + b + "@x.y", "u" + b + "n:x", "%" + b + "1"} {
			add(0x86, []byte(s))
		}
		add(0x82, []byte("a"+b))
		add(0x81, []byte("a"+b))
		add(byte(c), []byte{1, 2, 3, 4})
	}
	for c := 128; c <= 0x10ffff; c++ { // hosts are ASCII
		if c > 0x7ff && c&0xff != (c>>8)*7&0xff && c&0xff != 0x30+c>>12 || c&0xf800 == 0xd800 {
			continue
		}
		add(0x86, []byte("http://a"+string(rune(c))+".b/"))
		if c%3 == 0 || c < 0x180 {
			add(0x82, []byte("a"+string(rune(c))))
			add(0x81, []byte("a@b."+string(rune(c))))
		}
	}
	for _, pre := range embedPrefixes {
		v := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 20, 30, 40}
		embedAt(v, pre)
		add(0x87, v)
	}
	for n := 0; n <= 130; n++ {
		add(0x87, make([]byte, n))
	}
	for _, s := range []string{"http://u:p@a.b:80/p?q#f", "//[::1]:8/", "mailto:a@b.c", "x://a%41b/%2e"} {
		for i := 0; i <= len(s); i++ {
			add(0x86, []byte(s[:i]))
			add(0x86, []byte(s[i:]))
			for _, c := range []string{":", "/", "@", "[", "]", "%", "?", "#", "."} {
				add(0x86, []byte(s[:i]+c+s[i:]))
				if i < len(s) {
					add(0x86, []byte(s[:i]+c+s[i+1:]))
				}
			}
			if i < len(s) {
				add(0x86, []byte(s[:i]+s[i+1:]))
			}
		}
	}
	return
}
