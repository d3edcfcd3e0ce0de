package main

import (
	"bytes"
	"crypto/cipher"
	"crypto/x509"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/cryptobyte"
	casn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"pgregory.net/rapid"
)

// P39, P40, P41: operations over a pool of objects that many of them share.

// Pool describes the objects.
type Pool struct {
	D         []*big.Int // scalars of the key objects
	IDs, Msgs []HB
	Keys4     []HB `json:",omitempty"` // SM4 keys
	Reqs      []Req
	Issues    []Issue
	Foreigns  []Foreign
}

// Op is one operation; its numbers select objects (modulo their count).
type Op struct {
	Kind       string
	A, B, C, E int    `json:",omitempty"` // keys
	I, J       int    `json:",omitempty"` // identities
	M, M2      int    `json:",omitempty"` // messages
	N          int    `json:",omitempty"` // variant
	Seed       uint64 `json:",omitempty"`
	FailAt     int    `json:",omitempty"` // >0: the entropy source fails after FailAt-1 bytes
}

// world is the pool made real.
type world struct {
	p       Pool
	ds      []*big.Int // current scalars
	pts     []ref.Pt
	privs   []*sm2.PrivateKey
	pubs    []*sm2.PublicKey
	ids     [][]byte
	msgs    [][]byte
	ciphers []cipher.Block
	keys4   [][]byte
	reqs    []*x509.CertificateRequest
	tmpls   []*x509.Certificate
	parents []*x509.Certificate
	ders    [][]byte
	nums    []*big.Int // numbers every operation may read
	numWas  []*big.Int
	elems   []byte // encoded numbers, identifiers and strings
	guards  []*guard
	prints  []watched
}

type watched struct {
	what string
	v    any
	fp   string
}

func (w *world) hold(b []byte) []byte {
	if b == nil {
		return nil
	}
	g := newGuard(b, 24)
	w.guards = append(w.guards, g)
	return g.b()
}

func newWorld(p Pool) (*world, error) {
	w := &world{p: p}
	for _, d := range p.D {
		w.ds = append(w.ds, new(big.Int).Set(d))
		w.pts = append(w.pts, ref.MulG(d))
	}
	for i, d := range w.ds {
		w.privs = append(w.privs, mkPriv(d))
		w.pubs = append(w.pubs, mkPub(w.pts[i]))
	}
	for _, b := range p.IDs {
		w.ids = append(w.ids, w.hold(b))
	}
	for _, b := range p.Msgs {
		w.msgs = append(w.msgs, w.hold(b))
	}
	for _, k := range p.Keys4 {
		k4 := w.hold(k)
		c, err := sm4.NewCipher(k4)
		if err != nil {
			return nil, fail("NewCipher: %v", err)
		}
		w.keys4, w.ciphers = append(w.keys4, k4), append(w.ciphers, c)
	}
	for _, r := range p.Reqs {
		x := r.template()
		w.watch("the request template", x)
		w.reqs = append(w.reqs, x)
	}
	for _, c := range p.Issues {
		x := c.T.x509()
		par, err := c.parent()
		if err != nil {
			return nil, fail("parsing the issuer: %v", err)
		}
		w.watch("the certificate template", x)
		w.watch("the parent certificate", par)
		w.tmpls, w.parents = append(w.tmpls, x), append(w.parents, par)
	}
	for _, f := range p.Foreigns {
		w.ders = append(w.ders, w.hold(f.der()))
	}
	add := func(n *big.Int) {
		w.nums, w.numWas = append(w.nums, n), append(w.numWas, new(big.Int).Set(n))
	}
	for _, d := range p.D {
		add(new(big.Int).Set(d))
		add(new(big.Int).Neg(d))
		add(new(big.Int).Neg(new(big.Int).Lsh(d, 130)))
		add(new(big.Int).Lsh(d, 65))
	}
	add(i64(-128))
	var el []byte
	for _, n := range w.numWas {
		el = append(el, ref.Int(n)...)
	}
	w.elems = w.hold(ref.Cat(el, ref.OID(sharedOID...), ref.BitString(w.msgs[0]), ref.Octets(w.msgs[0])))
	return w, nil
}

// watch gives the object's slices spare capacity and remembers its contents.
func (w *world) watch(what string, x any) {
	addSpare(reflect.ValueOf(x).Elem())
	w.prints = append(w.prints, watched{what, x, fingerprint(x)})
}

// unchanged checks every input of the world.
func (w *world) unchanged(op string) error {
	for _, g := range w.guards {
		if err := g.check(op); err != nil {
			return err
		}
	}
	for i := range w.ds {
		if w.privs[i].D.Cmp(w.ds[i]) != 0 {
			return fail("%s: the private key object changed from %x to %x", op, w.ds[i], w.privs[i].D)
		}
		if w.pubs[i].X.Cmp(w.pts[i].X) != 0 || w.pubs[i].Y.Cmp(w.pts[i].Y) != 0 {
			return fail("%s: the public key object changed from (%x, %x) to (%x, %x)", op, w.pts[i].X, w.pts[i].Y, w.pubs[i].X, w.pubs[i].Y)
		}
		if err := checkCurve(w.privs[i].Curve); err != nil {
			return fail("%s: %v", op, err)
		}
		if err := checkCurve(w.pubs[i].Curve); err != nil {
			return fail("%s: %v", op, err)
		}
	}
	for i, n := range w.nums {
		if n.Cmp(w.numWas[i]) != 0 {
			return fail("%s: the number %x became %x", op, w.numWas[i], n)
		}
	}
	if err := checkCurve(sm2.GetSm2P256V1()); err != nil {
		return fail("%s: %v", op, err)
	}
	for _, x := range w.prints {
		if fp := fingerprint(x.v); fp != x.fp {
			return fail("%s: %s was changed: %s", op, x.what, diffAt(x.fp, fp))
		}
	}
	return nil
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("...%s became ...%s", cut(a[min(lo, len(a)):], 160), cut(b[min(lo, len(b)):], 160))
}

// fingerprint writes out everything reachable from x, the spare capacity of
// slices included.
func fingerprint(x any) string {
	var b strings.Builder
	printValue(&b, reflect.ValueOf(x), 0)
	return b.String()
}

var (
	bigType  = reflect.TypeOf(big.Int{})
	timeType = reflect.TypeOf(time.Time{})
	urlType  = reflect.TypeOf(url.URL{})
)

func printValue(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 30 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr && v.CanInterface() {
			switch x := v.Interface().(type) {
			case *big.Int:
				b.WriteString(x.Text(16))
				return
			case *url.URL:
				fmt.Fprintf(b, "%q", x.String())
				return
			}
		}
		printValue(b, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == timeType && v.CanInterface() {
			t := v.Interface().(time.Time)
			fmt.Fprintf(b, "%d.%d %s", t.Unix(), t.Nanosecond(), t.Location())
			return
		}
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			printValue(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "[%d/", v.Len())
		full := v.Slice3(0, v.Cap(), v.Cap())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", full.Bytes())
		} else {
			for i := 0; i < full.Len(); i++ {
				printValue(b, full.Index(i), depth+1)
				b.WriteByte(',')
			}
		}
		b.WriteByte(']')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			printValue(b, v.Index(i), depth+1)
			b.WriteByte(',')
		}
	case reflect.Map:
		fmt.Fprintf(b, "map %d", v.Len())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	default:
		b.WriteString(v.Kind().String())
	}
}

// addSpare gives every slice reachable through exported fields room behind
// its end, as lists built with append have.
func addSpare(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type().Elem() != bigType && v.Type().Elem() != urlType {
			addSpare(v.Elem())
		}
	case reflect.Interface:
		if b, ok := v.Interface().([]byte); ok && v.CanSet() && b != nil {
			n := make([]byte, len(b), len(b)+9)
			copy(n, b)
			pattern(n)
			v.Set(reflect.ValueOf(n))
		}
	case reflect.Struct:
		if v.Type() == timeType || v.Type() == bigType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				addSpare(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+3)
		reflect.Copy(n, v)
		if n.Type().Elem().Kind() == reflect.Uint8 {
			pattern(n.Bytes())
		}
		v.Set(n)
		for i := 0; i < v.Len(); i++ {
			addSpare(v.Index(i))
		}
	}
}

func pattern(b []byte) {
	full := b[:cap(b)]
	for i := len(b); i < len(full); i++ {
		full[i] = byte(0xC3 ^ i)
	}
}

// runner executes operations of one goroutine on a world.
type runner struct {
	w      *world
	rec    *Rec
	shared bool // other goroutines use the world too: leave the entropy source alone
	guards []*guard
	outs   []output
	objs   []watched // results that may share memory with the inputs

	// arena: the caller has one buffer, number, key and template object for
	// each place of an argument and puts the values of every operation there
	arena  bool
	used   [5]int // places taken in the current operation
	bufs   [][]byte
	nums   []*big.Int
	apriv  []*sm2.PrivateKey
	apub   []*sm2.PublicKey
	acerts []*x509.Certificate
	areq   x509.CertificateRequest
}

// place returns the next element of a list of reusable objects.
func place[T any](x *runner, kind int, l *[]T, mk func() T) *T {
	i := x.used[kind]
	x.used[kind]++
	if i == len(*l) {
		*l = append(*l, mk())
	}
	return &(*l)[i]
}

func (x *runner) arg(b []byte) []byte {
	if !x.arena {
		return b
	}
	return x.in(b)
}

func (x *runner) num(n *big.Int) *big.Int {
	if !x.arena {
		return new(big.Int).Set(n)
	}
	return (*place(x, 1, &x.nums, func() *big.Int { return new(big.Int) })).Set(n)
}

func (x *runner) priv(i int) *sm2.PrivateKey {
	if !x.arena {
		return x.w.privs[i]
	}
	k := *place(x, 2, &x.apriv, func() *sm2.PrivateKey { return mkPriv(bigOne) })
	k.D.Set(x.w.ds[i])
	return k
}

func (x *runner) pub(i int) *sm2.PublicKey {
	if !x.arena {
		return x.w.pubs[i]
	}
	k := *place(x, 3, &x.apub, func() *sm2.PublicKey { return mkPub(ref.MulG(bigOne)) })
	k.X.Set(x.w.pts[i].X)
	k.Y.Set(x.w.pts[i].Y)
	return k
}

func (x *runner) cert(c *x509.Certificate) *x509.Certificate {
	if !x.arena {
		return c
	}
	k := *place(x, 4, &x.acerts, func() *x509.Certificate { return new(x509.Certificate) })
	*k = *c
	return k
}

func (x *runner) req(r *x509.CertificateRequest) *x509.CertificateRequest {
	if !x.arena {
		return r
	}
	x.areq = *r
	return &x.areq
}

type output struct {
	what      string
	now, then []byte
	num       *big.Int
	numThen   string
}

func (x *runner) in(b []byte) []byte {
	if b == nil {
		return nil
	}
	if x.arena {
		s := place(x, 0, &x.bufs, func() []byte { return nil })
		if cap(*s) < len(b) {
			*s = make([]byte, 2*len(b)+64)
		}
		o := (*s)[:len(b)]
		copy(o, b)
		return o
	}
	g := newGuard(b, 24)
	x.guards = append(x.guards, g)
	return g.b()
}

func (x *runner) out(what string, b []byte) []byte {
	x.outs = append(x.outs, output{what: what, now: b, then: append([]byte{}, b...)})
	return b
}

func (x *runner) outNum(what string, n *big.Int) {
	if n != nil {
		x.outs = append(x.outs, output{what: what, num: n, numThen: n.Text(16)})
	}
}

func (x *runner) inputsKept(op string) error {
	for _, g := range x.guards {
		if err := g.check(op); err != nil {
			return err
		}
	}
	return nil
}

func (x *runner) outputsKept() error {
	for _, o := range x.objs {
		if fp := fingerprint(o.v); fp != o.fp {
			return fail("%s was changed after it was returned: %s", o.what, diffAt(o.fp, fp))
		}
	}
	for _, o := range x.outs {
		if o.num != nil {
			if o.num.Text(16) != o.numThen {
				return fail("%s changed from %s to %x after it was returned", o.what, o.numThen, o.num)
			}
		} else if !bytes.Equal(o.now, o.then) {
			return fail("%s changed from %s to %s after it was returned", o.what, hexs(o.then), hexs(o.now))
		}
	}
	return nil
}

// scribbleOutputs overwrites what the library returned: it is the caller's.
func (x *runner) scribbleOutputs() {
	for _, o := range x.outs {
		if o.num != nil {
			o.num.SetInt64(-77)
		}
		for i := range o.now {
			o.now[i] ^= 0x5a
		}
		full := o.now[:cap(o.now)]
		for i := len(o.now); i < len(full); i++ {
			full[i] = 0xA5
		}
	}
	x.outs, x.objs = nil, nil
}

// scribbleInputs overwrites all byte strings handed to the library.
func (x *runner) scribbleInputs() {
	for _, l := range [][]*guard{x.guards, x.w.guards} {
		for _, g := range l {
			for i := range g.buf {
				g.buf[i] = ^g.buf[i]
			}
		}
	}
	x.guards, x.w.guards = nil, nil
	for i := range x.w.ds {
		x.w.privs[i].D.SetInt64(3)
		x.w.pubs[i].X.SetInt64(4)
		x.w.pubs[i].Y.SetInt64(5)
	}
	for _, t := range x.w.reqs {
		scribbleValue(reflect.ValueOf(t).Elem(), 0)
	}
	for _, t := range x.w.tmpls {
		scribbleValue(reflect.ValueOf(t).Elem(), 0)
	}
	x.w.prints, x.objs = nil, nil
}

func scribbleValue(v reflect.Value, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type().Elem() == bigType {
			v.Interface().(*big.Int).SetInt64(99)
			return
		}
		scribbleValue(v.Elem(), depth+1)
	case reflect.Interface:
		if b, ok := v.Interface().([]byte); ok {
			for i := range b {
				b[i] ^= 0xff
			}
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribbleValue(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribbleValue(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(1)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0xff)
		}
	}
}

func sel[T any](l []T, i int) T { return l[i%len(l)] }

// entropy prepares the entropy source; it reports whether it may fail.
func (x *runner) entropy(o Op) bool {
	if x.shared {
		return false
	}
	e := Entropy{Seed: o.Seed, Mode: int(o.Seed % 3)}
	if o.FailAt > 0 {
		e.Fails, e.FailAt = true, o.FailAt-1
	}
	setEntropy(e)
	return o.FailAt > 0
}

// opKinds lists the operations with relative frequencies.
var opKinds = []string{"sm3", "sm3w", "blk", "blk", "ecb", "cbc", "ecb", "cbc", "pad", "genkey", "calcpub", "rawkey", "sign", "sign", "signrs", "verify", "verify", "verify", "enc", "enc", "dec", "dec", "envelope", "sigder", "kx", "kx", "csr", "cert", "csrverify", "parse", "fill", "build", "arith"}

var sharedOID = asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 301}

func genOp(t *rapid.T, l string, kinds []string) Op {
	o := Op{Kind: rapid.SampledFrom(kinds).Draw(t, l+".op")}
	ix := func(n string) int { return intR(t, l+"."+n, 0, 11) }
	o.A, o.B, o.I, o.M, o.N = ix("a"), ix("b"), ix("i"), ix("m"), intR(t, l+".n", 0, 23)
	switch o.Kind {
	case "kx":
		o.C, o.E, o.J = ix("c"), ix("e"), ix("j")
	case "verify", "csrverify":
		o.J, o.M2 = ix("j"), ix("m2")
	}
	o.Seed = rapid.Uint64Range(0, 1<<20).Draw(t, l+".seed")
	return o
}

func genPool(t *rapid.T, certs bool) Pool {
	var p Pool
	d := genScalar(t, "d", 1)
	p.D = []*big.Int{d}
	for i := intR(t, "keys", 1, 4); i > 0; i-- {
		l := "k" + itoa(i)
		var e *big.Int
		switch intR(t, l+".rel", 0, 7) {
		case 5, 6, 7: // the same low or high words, one bit different, ...
			e = clampScalar(new(big.Int).SetBytes(genRelatedWords(t, l, b32(d))), nM2)
		case 0:
			e = bsub(ref.N, d) // the point with the same x
		case 1:
			e = clampScalar(badd(d, bigOne), nM2)
		case 2:
			e = new(big.Int).Set(d) // another object of the same key
		case 3:
			e = pick(t, l+".tab", smallCoord...).U()
		default:
			e = genScalar(t, l, 1)
		}
		if e.Cmp(nM2) > 0 {
			e = i64(2)
		}
		p.D = append(p.D, e)
	}
	p.IDs = []HB{genID(t, "id")}
	for i := intR(t, "ids", 1, 3); i > 0; i-- {
		l := "id" + itoa(i)
		id := append(HB{}, p.IDs[0]...)
		switch k := intR(t, l+".rel", 0, 4); {
		case k == 4:
			id = HB(genRelated(t, l, id))
		case k == 0 && len(id) > 0:
			id = HB(flipBit(id, intR(t, l+".bit", 0, 8*len(id)-1)))
		case k == 1 && len(id) > 0:
			id = id[:len(id)-1]
		default:
			id = genID(t, l)
		}
		p.IDs = append(p.IDs, id)
	}
	p.Msgs = []HB{genMsg(t, "m", 300)}
	for i := intR(t, "msgs", 1, 3); i > 0; i-- {
		l := "m" + itoa(i)
		m := append(HB{}, p.Msgs[0]...)
		switch k := intR(t, l+".rel", 0, 5); {
		case k >= 4:
			m = HB(genRelatedWords(t, l, m))
		case k == 0 && len(m) > 0:
			m = HB(flipBit(m, intR(t, l+".bit", 0, 8*len(m)-1)))
		case k == 1 && len(m) > 0:
			m = m[:intR(t, l+".cut", 0, len(m)-1)]
		default:
			m = genMsg(t, l, 300)
		}
		p.Msgs = append(p.Msgs, m)
	}
	for i := intR(t, "keys4", 1, 3); i > 0; i-- {
		k := genKey16(t, "k4"+itoa(i))
		if len(p.Keys4) > 0 && coin(t, "k4rel"+itoa(i), 1, 2) {
			k = HB(genRelatedWords(t, "k4r"+itoa(i), p.Keys4[0]))
		}
		p.Keys4 = append(p.Keys4, k)
	}
	if certs {
		for i := intR(t, "reqs", 1, 2); i > 0; i-- {
			r := genReq(t)
			if len(p.Reqs) > 0 && coin(t, "reqnear", 1, 2) {
				r = nearReq(t, p.Reqs[0], r)
			}
			p.Reqs = append(p.Reqs, r)
		}
		for i := intR(t, "issues", 1, 2); i > 0; i-- {
			c := genIssue(4, 3)(t)
			if len(p.Issues) > 0 && coin(t, "issuenear", 1, 2) {
				c = nearIssue(t, p.Issues[0], c)
			}
			p.Issues = append(p.Issues, c)
		}
		for i := intR(t, "foreign", 1, 2); i > 0; i-- {
			f := genForeignExts(t)
			if coin(t, "fsan"+itoa(i), 1, 2) {
				f = genForeignSAN(t) // half of them requests
			}
			if len(p.Foreigns) > 0 && coin(t, "foreignnear", 1, 2) {
				f = nearForeign(t, p.Foreigns[0], f)
			}
			p.Foreigns = append(p.Foreigns, f)
		}
	}
	return p
}

// nearReq, nearIssue and nearForeign are the first but for one or two parts,
// which come from the second: what a result remembered under part of its
// arguments would confuse.
func nearReq(t *rapid.T, a, b Req) Req {
	for i := intR(t, "parts", 1, 2); i > 0; i-- {
		switch intR(t, "part"+itoa(i), 0, 5) {
		case 0:
			a.Subject = b.Subject
		case 1:
			a.SAN = b.SAN
		case 2:
			a.Extra = b.Extra
		case 3:
			a.Attrs = b.Attrs
		case 4:
			a.Key = b.Key
		default:
			a.ID, a.E = b.ID, b.E
		}
	}
	return a
}

func nearIssue(t *rapid.T, a, b Issue) Issue {
	for i := intR(t, "parts", 1, 2); i > 0; i-- {
		switch intR(t, "part"+itoa(i), 0, 9) {
		case 0:
			a.T.Subject = b.T.Subject
		case 1:
			a.T.Serial = b.T.Serial
		case 2:
			a.T.NB, a.T.NA, a.T.NBns, a.T.Zone = b.T.NB, b.T.NA, b.T.NBns, b.T.Zone
		case 3:
			a.T.SAN = b.T.SAN
		case 4:
			a.T.NC = b.T.NC
		case 5:
			a.Parent, a.Self = b.Parent, b.Self
		case 6:
			a.PSKI = b.PSKI
		case 7:
			a.Key = b.Key
		case 8:
			a.CA = b.CA
		default:
			s, n, v := a.T.Subject, a.T.Serial, b.T
			a.T, a.T.Subject, a.T.Serial = v, s, n
		}
	}
	return a
}

func nearForeign(t *rapid.T, a, b Foreign) Foreign {
	for i := intR(t, "parts", 1, 2); i > 0; i-- {
		switch intR(t, "part"+itoa(i), 0, 6) {
		case 0:
			a.Key = b.Key
		case 1:
			a.Serial = b.Serial
		case 2:
			a.Issuer = b.Issuer
		case 3:
			a.Subject = b.Subject
		case 4:
			a.Exts = b.Exts
		case 5:
			a.NB, a.NA = b.NB, b.NA
		default:
			a.Sig = b.Sig
		}
	}
	return a
}

func (x *runner) do(o Op) (err error) {
	x.used = [5]int{}
	if err := x.exec(o); err != nil {
		return fail("%s: %v", o.describe(), err)
	}
	return nil
}

func (o Op) describe() string {
	b, _ := json.Marshal(o)
	return string(b)
}

func (x *runner) exec(o Op) error {
	w := x.w
	a := o.A % len(w.ds)
	b := o.B % len(w.ds)
	id, id2 := x.arg(sel(w.ids, o.I)), x.arg(sel(w.ids, o.J))
	m := x.arg(sel(w.msgs, o.M))
	layout := 1 + o.N%2
	switch o.Kind {
	case "sm3":
		h := sm3.Sum(m)
		x.out("sm3.Sum digest", h[:])
		if h != ref.SM3(m) {
			return fail("digest %x", h)
		}
	case "sm3w":
		h := sm3.New()
		if o.N%5 == 0 {
			h.Write([]byte("left over"))
			h.Reset()
		}
		c := min(len(m), o.N*3)
		h.Write(m[:c])
		mid := h.Sum(nil)
		if e := ref.SM3(m[:c]); !bytes.Equal(mid, e[:]) {
			return fail("digest of the first %d bytes is %x", c, mid)
		}
		h.Write(m[c:])
		d := x.out("digest", h.Sum(nil))
		if e := ref.SM3(m); !bytes.Equal(d, e[:]) {
			return fail("digest %x, want %x", d, e)
		}
		x.out("digest", mid)
		h.Write([]byte{1})
		h.Sum(nil)
		h.Reset()
	case "blk":
		if len(w.ciphers) == 0 {
			return nil
		}
		c, k := sel(w.ciphers, o.A), ref.NewSM4(sel(w.p.Keys4, o.A))
		src := x.in(randBytes(o.Seed, 16))
		dst := make([]byte, 16)
		want := k.Enc(src)
		if o.N%2 == 1 {
			c.Decrypt(dst, src)
			want = k.Dec(src)
		} else {
			c.Encrypt(dst, src)
		}
		x.out("block", dst)
		if !bytes.Equal(dst, want) {
			return fail("block %x, want %x", dst, want)
		}
	case "ecb", "cbc":
		if len(w.keys4) == 0 {
			return nil
		}
		key := x.arg(sel(w.keys4, o.A))
		data := x.in(randBytes(o.Seed, 16*(1+o.N%5)))
		iv := x.in(randBytes(o.Seed+uint64(o.M), 16))
		bad := 0
		switch o.N {
		case 20:
			data, bad = data[:len(data)-1-o.B%15], 1
		case 21:
			key, bad = x.in(randBytes(o.Seed, 15+2*(o.B%2))), 1
		case 22:
			if o.Kind == "cbc" {
				iv, bad = iv[:15], 1
			}
		}
		var got, want []byte
		var err error
		dec := o.B%2 == 1
		if o.Kind == "ecb" {
			if dec {
				got, err = sm4.ECBDecrypt(key, data)
			} else {
				got, err = sm4.ECBEncrypt(key, data)
			}
			if bad == 0 {
				want = ref.SM4ECB(key, data, dec)
			}
		} else {
			if dec {
				got, err = sm4.CBCDecrypt(key, iv, data)
			} else {
				got, err = sm4.CBCEncrypt(key, iv, data)
			}
			if bad == 0 {
				want = ref.SM4CBC(key, iv, data, dec)
			}
		}
		if bad == 1 {
			if err == nil {
				return fail("wrong sizes were accepted")
			}
			return nil
		}
		if err != nil || !bytes.Equal(got, want) {
			return fail("%x, %v; want %x", got, err, want)
		}
		x.out("SM4 output", got)
	case "pad":
		bs := 1 + (o.N*11+o.B)%255
		n := bs - len(m)%bs
		p := util.PKCS5Padding(m, bs)
		if !bytes.Equal(p, ref.Cat(m, bytes.Repeat([]byte{byte(n)}, n))) {
			return fail("PKCS5Padding(%d bytes, %d) = %s", len(m), bs, hexs(p))
		}
		if u := util.PKCS5UnPadding(x.in(p)); !bytes.Equal(u, m) {
			return fail("PKCS5UnPadding gives %s", hexs(u))
		}
		z := util.ZeroPadding(m, bs)
		if !bytes.Equal(z, ref.Cat(m, make([]byte, n))) {
			return fail("ZeroPadding(%d bytes, %d) = %s", len(m), bs, hexs(z))
		}
		x.out("PKCS5 padded text", p)
		x.out("zero padded text", z)
	case "genkey":
		src := sysReader
		may := false
		if !x.shared {
			e := Entropy{Seed: o.Seed}
			if o.FailAt > 0 {
				e.Fails, e.FailAt, may = true, o.FailAt-1, true
			}
			src = newEntropy(e)
		}
		priv, pub, err := sm2.GenerateKey(src)
		if err != nil {
			if may && priv == nil && pub == nil {
				return nil
			}
			return fail("GenerateKey: %v, %v, %v", priv, pub, err)
		}
		if priv.D.Sign() <= 0 || priv.D.Cmp(nM2) > 0 {
			return fail("generated key %x", priv.D)
		}
		if err := checkPub(pub, ref.MulG(priv.D), "GenerateKey"); err != nil {
			return err
		}
		x.outNum("the generated private key", priv.D)
		x.outNum("the generated X", pub.X)
		x.outNum("the generated Y", pub.Y)
	case "calcpub":
		pub := sm2.CalculatePubKey(x.priv(a))
		if err := checkPub(pub, w.pts[a], "CalculatePubKey"); err != nil {
			return err
		}
		x.outNum("the calculated X", pub.X)
		x.outNum("the calculated Y", pub.Y)
	case "rawkey":
		pb, ub, rb := x.priv(a).GetRawBytes(), x.pub(a).GetUnCompressBytes(), x.pub(a).GetRawBytes()
		raw := ref.Cat(b32(w.pts[a].X), b32(w.pts[a].Y))
		if !bytes.Equal(pb, b32(w.ds[a])) || !bytes.Equal(rb, raw) || !bytes.Equal(ub, ref.Cat([]byte{4}, raw)) {
			return fail("raw forms %x, %x, %x", pb, ub, rb)
		}
		x.out("raw private key", pb)
		x.out("uncompressed public key", ub)
		x.out("raw public key", rb)
		priv, err := sm2.RawBytesToPrivateKey(x.in(b32(w.ds[b])))
		if err != nil || priv.D.Cmp(w.ds[b]) != 0 {
			return fail("RawBytesToPrivateKey: %v, %v", priv, err)
		}
		pub, err := sm2.RawBytesToPublicKey(x.in(ref.Cat(b32(w.pts[b].X), b32(w.pts[b].Y))))
		if err != nil {
			return fail("RawBytesToPublicKey: %v", err)
		}
		if err := checkPub(pub, w.pts[b], "RawBytesToPublicKey"); err != nil {
			return err
		}
		x.outNum("the decoded private key", priv.D)
		x.outNum("the decoded X", pub.X)
		x.outNum("the decoded Y", pub.Y)
		if o.N == 0 {
			if _, err := sm2.RawBytesToPublicKey(x.in(raw[:63])); err == nil {
				return fail("63 bytes were accepted as a public key")
			}
		}
	case "sign", "signrs":
		may := x.entropy(o)
		var r, s *big.Int
		var err error
		if o.Kind == "sign" {
			var sig []byte
			sig, err = sm2.Sign(x.priv(a), id, m)
			if err == nil {
				x.out("signature", sig)
				var ok bool
				if r, s, ok = ref.ReadSig(sig); !ok {
					return fail("signature %x", sig)
				}
			} else if sig != nil {
				return fail("a signature together with the error %v", err)
			}
		} else {
			r, s, err = sm2.SignToRS(x.priv(a), id, m)
			if err == nil {
				defer func() { x.outNum("r", r); x.outNum("s", s) }()
			}
		}
		if err != nil {
			if may {
				return nil
			}
			return fail("signing failed: %v", err)
		}
		if !ref.Verify(w.pts[a].X, w.pts[a].Y, idOf(id), m, r, s) {
			return fail("(%x, %x) is not a signature by key %x under %x", r, s, w.ds[a], id)
		}
	case "verify":
		return x.verify(o, a, b, id, id2, m)
	case "enc":
		may := x.entropy(o)
		ct, err := sm2.Encrypt(x.pub(a), m, lay(layout))
		if err != nil {
			if may && ct == nil {
				return nil
			}
			return fail("encryption failed: %v", err)
		}
		x.out("ciphertext", ct)
		if pt, ok := ref.Decrypt(w.ds[a], ct, layout); !ok || !bytes.Equal(pt, m) {
			return fail("ciphertext %s does not decrypt to the plaintext", hexs(ct))
		}
	case "dec":
		ct, _ := ref.EncryptK(w.pts[a], m, seedScalar(o.Seed), layout)
		switch o.N / 2 {
		case 7:
			ct = flipBit(ct, int(o.Seed)%(8*len(ct)))
		case 8:
			ct = ct[:int(o.Seed)%len(ct)]
		case 9:
			layout = 3 - layout
		case 10:
			a = b
		}
		ct = x.in(ct)
		want, ok := ref.Decrypt(w.ds[a], ct, layout)
		got, err := sm2.Decrypt(x.priv(a), ct, lay(layout))
		if ok != (err == nil) {
			return fail("decryption of %s: %v, the standard says %v", hexs(ct), err, ok)
		}
		if ok {
			x.out("plaintext", got)
			if !bytes.Equal(got, want) {
				return fail("plaintext %s, want %s", hexs(got), hexs(want))
			}
		} else if got != nil {
			return fail("plaintext %s together with the error %v", hexs(got), err)
		}
	case "envelope":
		ct, _ := ref.EncryptK(w.pts[a], m, seedScalar(o.Seed), layout)
		der, err := sm2.MarshalCipher(x.in(ct), lay(layout))
		if err != nil {
			return fail("MarshalCipher: %v", err)
		}
		x.out("cipher envelope", der)
		xx, yy, raw, ok := refEnvelope(der, layout)
		if !ok || !bytes.Equal(raw, ct) || xx == nil || yy == nil {
			return fail("envelope %s of %s", hexs(der), hexs(ct))
		}
		if o.N > 18 {
			bad := x.in(flipBit(der, int(o.Seed)%16))
			if out, err := sm2.UnmarshalCipher(bad, lay(layout)); err == nil {
				return fail("UnmarshalCipher accepts %s: %s", hexs(bad), hexs(out))
			}
			return nil
		}
		back, err := sm2.UnmarshalCipher(x.in(der), lay(layout))
		if err != nil || !bytes.Equal(back, ct) {
			return fail("UnmarshalCipher: %s, %v, want %s", hexs(back), err, hexs(ct))
		}
		x.out("unmarshalled ciphertext", back)
	case "sigder":
		r, s := w.ds[a], w.pts[b].X
		der, err := sm2.MarshalSign(x.num(r), x.num(s))
		if want := ref.Seq(ref.Int(r), ref.Int(s)); err != nil || !bytes.Equal(der, want) {
			return fail("MarshalSign: %x, %v, want %x", der, err, want)
		}
		r2, s2, err := sm2.UnmarshalSign(x.in(der))
		if err != nil || r2.Cmp(r) != 0 || s2.Cmp(s) != 0 {
			return fail("UnmarshalSign: %x, %x, %v", r2, s2, err)
		}
		x.out("encoded signature", der)
		x.outNum("r", r2)
		x.outNum("s", s2)
	case "kx":
		return x.kx(o, a, b, id, id2)
	case "csr":
		if len(w.reqs) == 0 {
			return nil
		}
		may := x.entropy(o)
		i := o.N % len(w.reqs)
		der, err := cert.CreateCertificateRequest(x.req(w.reqs[i]), x.pub(a), x.priv(a), id)
		if err != nil {
			if may && der == nil {
				return nil
			}
			return fail("CreateCertificateRequest: %v", err)
		}
		x.out("certificate request", der)
		return judgeReq(x.rec, w.p.Reqs[i], append([]byte{}, der...), w.pts[a], id)
	case "cert":
		if len(w.tmpls) == 0 {
			return nil
		}
		i := o.N % len(w.tmpls)
		c := w.p.Issues[i]
		info, err := cert.CreateCertificateInfo(x.cert(w.tmpls[i]), x.cert(w.parents[i]), c.T.req(w.pts[b]))
		if err != nil {
			return fail("CreateCertificateInfo: %v", err)
		}
		handed := append([]byte{}, info.Raw...)
		x.objs = append(x.objs, watched{"the certificate information", info, fingerprint(info)})
		if o.N%3 == 2 { // the same information used twice
			if _, err := cert.CreateCertificate(info, x.in(randBytes(o.Seed, 64))); err != nil {
				return fail("CreateCertificate: %v", err)
			}
		}
		x.out("bytes to be signed", info.Raw)
		var der []byte
		c.Soft = c.Soft || o.M%3 == 0
		if c.Soft {
			may := x.entropy(o)
			der, err = cert.IssueCertificateBySoftCAKey(info, x.priv(a), id)
			if err != nil && may && der == nil {
				return nil
			}
		} else {
			der, err = cert.CreateCertificate(info, x.in(append([]byte{}, c.Sig...)))
		}
		if err != nil {
			return fail("issuing: %v", err)
		}
		x.out("certificate", der)
		p, err := readCert(append([]byte{}, der...))
		if err != nil {
			return err
		}
		_, exts := c.want()
		if err := p.hasExactly(exts); err != nil {
			return err
		}
		return judgeIssued(c, append([]byte{}, der...), handed, w.pts[b], w.pts[a], id)
	case "csrverify":
		f := Foreign{Key: Key(o.B % keyPool), Subject: HB{0x30, 0}, CSR: true}
		tbs := f.csrTBS()
		r, s, ok := ref.SignK(f.Key.d(), idOf(id), tbs, seedScalar(o.Seed))
		if !ok {
			return nil
		}
		if o.N%4 == 3 {
			s = bmod(badd(s, bigOne), ref.N)
		}
		der := x.in(ref.Seq(tbs, algSM2, ref.BitString(ref.Seq(ref.Int(r), ref.Int(s)))))
		pt := f.Key.pt()
		want := ref.Verify(pt.X, pt.Y, idOf(id2), tbs, r, s)
		got, err := cert.VerifyDERCSRSign(der, id2)
		if got != want || err != nil {
			return fail("VerifyDERCSRSign: %v, %v, want %v", got, err, want)
		}
	case "parse":
		if len(w.ders) == 0 {
			return nil
		}
		f, der := sel(w.p.Foreigns, o.N), x.arg(sel(w.ders, o.N))
		if f.CSR {
			cert.ParseCertificateRequest(der)
		} else if c, err := cert.ParseCertificate(der); err == nil {
			if err := f.checkBasics(c, f.der()); err != nil {
				return err
			}
		}
		return runForeign(x.rec, f)
	case "fill":
		if len(w.ders) == 0 {
			return nil
		}
		f := sel(w.p.Foreigns, o.N)
		f.CSR = true
		req, err := cert.ParseCertificateRequest(f.der())
		if err != nil {
			return nil
		}
		fp := fingerprint(req)
		t := &x509.Certificate{SerialNumber: i64(int64(o.N)), NotAfter: time.Unix(1e9, 0)}
		cert.FillCertificateTemplateByCSR(t, req)
		t.ExtraExtensions = append(slices.Clip(t.ExtraExtensions), Ext{OID: []int{1, 2, 3, 4}, V: HB{5, 0}}.pkix())
		t.DNSNames = append(slices.Clip(t.DNSNames), "added.example")
		info, err := cert.CreateCertificateInfo(t, &x509.Certificate{}, req)
		if err != nil {
			return nil
		}
		c, err := cert.CreateCertificate(info, []byte{1, 2, 3})
		if err != nil {
			return fail("CreateCertificate: %v", err)
		}
		x.out("certificate", c)
		if got := fingerprint(req); got != fp {
			return fail("issuing changed the request: %s", diffAt(fp, got))
		}
		p, err := readCert(c)
		if err != nil {
			return err
		}
		if !bytes.Equal(p.SPKI, refSPKI(f.Key.pt())) {
			return fail("the certificate carries the key information %s", hexs(p.SPKI))
		}
	case "build":
		n := badd(w.ds[a], i64(int64(o.N)))
		in := x.num(n)
		msg := x.in(m)
		var bl cryptobyte.Builder
		bl.AddASN1(casn1.SEQUENCE, func(c *cryptobyte.Builder) {
			c.AddASN1BigInt(in)
			c.AddASN1OctetString(msg)
			c.AddASN1BitString(msg)
			c.AddUint16LengthPrefixed(func(d *cryptobyte.Builder) { d.AddBytes(msg) })
		})
		got, err := bl.Bytes()
		want := ref.Seq(ref.Int(n), ref.Octets(m), ref.BitString(m), be(uint64(len(m)), 2), m)
		if err != nil || !bytes.Equal(got, want) {
			return fail("builder gives %s, %v, want %s", hexs(got), err, hexs(want))
		}
		x.out("built bytes", got)
		if in.Cmp(n) != 0 {
			return fail("AddASN1BigInt changed its argument")
		}
		in.SetInt64(5)
		return x.buildShared(o)
	case "arith":
		return x.arith(o, a, b)
	case "rekey": // the caller stores another key in the same objects
		d := sel(w.p.D, o.B)
		if o.N%3 == 0 {
			d = clampScalar(badd(w.ds[a], bigOne), nM2)
		}
		pt := ref.MulG(d)
		w.ds[a], w.pts[a] = new(big.Int).Set(d), pt
		if o.N%2 == 0 {
			w.privs[a].D.Set(d)
			w.pubs[a].X.Set(pt.X)
			w.pubs[a].Y.Set(pt.Y)
		} else {
			w.privs[a].D = new(big.Int).Set(d)
			w.pubs[a].X, w.pubs[a].Y = new(big.Int).Set(pt.X), new(big.Int).Set(pt.Y)
		}
	case "rewrite": // the caller reuses a buffer for other contents of the same length
		i := o.M % len(w.msgs)
		j := o.I % len(w.ids)
		for k := range w.msgs[i] {
			w.msgs[i][k] += byte(o.Seed) | 1
		}
		for k := range w.ids[j] {
			w.ids[j][k] ^= byte(o.Seed>>3) | 2
		}
	default:
		bug("operation %q", o.Kind)
	}
	return nil
}

// shared builds and reads values that belong to all operations.
func (x *runner) buildShared(o Op) error {
	w := x.w
	var bl cryptobyte.Builder
	var want []byte
	for i := range w.nums {
		j := (i + o.N + o.B) % len(w.nums)
		bl.AddASN1BigInt(w.nums[j])
		want = append(want, ref.Int(w.numWas[j])...)
	}
	bl.AddASN1ObjectIdentifier(sharedOID)
	got, err := bl.Bytes()
	if want = append(want, ref.OID(1, 2, 156, 10197, 1, 301)...); err != nil || !bytes.Equal(got, want) {
		return fail("the builder gives %s, %v for shared numbers, want %s", hexs(got), err, hexs(want))
	}
	s := cryptobyte.String(w.elems)
	for _, n := range w.numWas {
		var z big.Int
		if !s.ReadASN1Integer(&z) || z.Cmp(n) != 0 {
			return fail("the shared number %x is read as %x", n, &z)
		}
	}
	var oid asn1.ObjectIdentifier
	var bits, octets []byte
	if !s.ReadASN1ObjectIdentifier(&oid) || !oid.Equal(asn1.ObjectIdentifier{1, 2, 156, 10197, 1, 301}) || !s.ReadASN1BitStringAsBytes(&bits) || !s.ReadASN1Bytes(&octets, casn1.OCTET_STRING) || !bytes.Equal(bits, octets) || len(s) != 0 {
		return fail("shared elements are read as %v, %s, %s, %d bytes are left", oid, hexs(bits), hexs(octets), len(s))
	}
	return nil
}

// arith calculates with numbers and points that belong to all operations.
func (x *runner) arith(o Op, a, b int) error {
	w := x.w
	i, j := o.N%len(w.nums), (o.M+o.B)%len(w.nums)
	p, q, pv, qv := w.nums[i], w.nums[j], w.numWas[i], w.numWas[j]
	m := new(big.Int).Abs(qv)
	for _, c := range []struct {
		what      string
		got, want *big.Int
	}{
		{"Add", util.Add(p, q), badd(pv, qv)}, {"Sub", util.Sub(p, q), bsub(pv, qv)}, {"Mul", util.Mul(p, q), bmul(pv, qv)}, {"Mod", util.Mod(p, q), new(big.Int).Mod(pv, qv)},
		{"Lsh", util.Lsh(p, uint(o.I*13)), new(big.Int).Lsh(pv, uint(o.I*13))}, {"And", util.And(p, q), new(big.Int).And(pv, qv)}, {"SetBit", util.SetBit(p, o.I*29, 1), new(big.Int).SetBit(pv, o.I*29, 1)},
		{"ModInverse", util.ModInverse(x.num(w.ds[a]), ref.N), binv(w.ds[a], ref.N)}, {"Mod", util.Mod(p, m), new(big.Int).Mod(pv, m)},
	} {
		if c.got == nil || c.got.Cmp(c.want) != 0 {
			return fail("%s of %x and %x is %x, must be %x", c.what, pv, qv, c.got, c.want)
		}
	}
	curve := sm2.GetSm2P256V1()
	pub, pub2 := x.pub(a), x.pub(b)
	if !curve.IsOnCurve(pub.X, pub.Y) || util.IsEcPointInfinity(pub.X, pub.Y) {
		return fail("public key %d is off the curve or infinite", a)
	}
	point := func(what string, want ref.Pt, gx, gy *big.Int) error {
		if gx.Cmp(want.X) != 0 || gy.Cmp(want.Y) != 0 {
			return fail("%s gives (%x, %x), must be (%x, %x)", what, gx, gy, want.X, want.Y)
		}
		x.outNum(what, gx)
		return nil
	}
	if w.pts[a].X.Cmp(w.pts[b].X) != 0 {
		gx, gy := curve.Add(pub.X, pub.Y, pub2.X, pub2.Y)
		if err := point("Add", ref.AddPt(w.pts[a], w.pts[b]), gx, gy); err != nil {
			return err
		}
	}
	gx, gy := curve.Double(pub.X, pub.Y)
	if err := point("Double", ref.AddPt(w.pts[a], w.pts[a]), gx, gy); err != nil {
		return err
	}
	k := seedScalar(o.Seed)
	if o.N%2 == 0 {
		gx, gy = curve.ScalarBaseMult(x.in(b32(k)))
		return point("ScalarBaseMult", ref.MulG(k), gx, gy)
	}
	gx, gy = curve.ScalarMult(pub.X, pub.Y, x.in(b32(k)))
	return point("ScalarMult", ref.Mul(w.pts[a], k), gx, gy)
}

func (x *runner) verify(o Op, a, b int, id, id2, m []byte) error {
	w := x.w
	r, s, ok := ref.SignK(w.ds[a], idOf(id), m, seedScalar(o.Seed))
	if !ok {
		return nil
	}
	k, pt, vid, vm := a, w.pts[a], id, m
	switch o.N % 8 {
	case 2:
		k, pt = b, w.pts[b]
	case 3:
		vid = id2
	case 4:
		vm = x.arg(sel(w.msgs, o.M2))
	case 5:
		r = bmod(badd(r, bigOne), ref.N)
	case 6:
		s = bsub(ref.N, s)
	}
	sig := ref.Seq(ref.Int(r), ref.Int(s))
	want := ref.Verify(pt.X, pt.Y, idOf(vid), vm, r, s)
	if o.N == 23 {
		sig, want = sig[:len(sig)-1], false
	}
	pub := x.pub(k)
	if got := sm2.Verify(pub, vid, vm, x.in(sig)); got != want {
		return fail("Verify = %v, the standard says %v", got, want)
	}
	if o.N < 12 && o.N != 7 {
		r2, s2 := x.num(r), x.num(s)
		if got := sm2.VerifyByRS(pub, vid, vm, r2, s2); got != want {
			return fail("VerifyByRS = %v, the standard says %v", got, want)
		}
		if r2.Cmp(r) != 0 || s2.Cmp(s) != 0 {
			return fail("VerifyByRS changed its numbers")
		}
	}
	return nil
}

func (x *runner) kx(o Op, a, b int, id, id2 []byte) error {
	w := x.w
	c, e := o.C%len(w.ds), o.E%len(w.ds)
	bits := 8 * (1 + o.N*5)
	initiator := o.N%2 == 0
	var want ref.KXResult
	if initiator {
		want = ref.KX(id, w.ds[a], w.ds[b], id2, w.pts[c], w.pts[e], bits)
	} else {
		want = ref.KX(id2, w.ds[c], w.ds[e], id, w.pts[a], w.pts[b], bits)
	}
	var tag []byte
	bad := want.Inf
	if initiator {
		tag = want.S1
		if want.Inf {
			tag = make([]byte, 32)
		}
		if o.N > 19 {
			tag, bad = flipBit(tag, int(o.Seed%256)), true
		}
		tag = x.in(tag)
	}
	res, err := sm2.CalculateKeyWithConfirmation(initiator, bits, tag, x.priv(a), x.priv(b), id, x.pub(c), x.pub(e), id2)
	if bad {
		if err == nil {
			return fail("the exchange was completed: %v", res)
		}
		return nil
	}
	if err != nil {
		return fail("%v", err)
	}
	if !bytes.Equal(res.Key, want.Key) || !bytes.Equal(res.S2, want.S2) || !initiator && !bytes.Equal(res.S1, want.S1) {
		return fail("key %s, S1 %x, S2 %x; want %s, %x, %x", hexs(res.Key), res.S1, res.S2, hexs(want.Key), want.S1, want.S2)
	}
	x.out("exchanged key", res.Key)
	x.out("S1", res.S1)
	x.out("S2", res.S2)
	return nil
}

// ---- P39 ----

type pureCase struct {
	P     Pool
	Ops   []Op
	Arena bool `json:",omitempty"` // arguments in reused buffers and objects
}

func genPure(t *rapid.T) pureCase {
	c := pureCase{P: genPool(t, true)}
	for i := intR(t, "n", 2, 8); i > 0; i-- {
		o := genOp(t, "o"+itoa(i), opKinds)
		if coin(t, "fails", 1, 12) {
			o.FailAt = intR(t, "failat", 1, 60)
		}
		c.Ops = append(c.Ops, o)
	}
	if coin(t, "again", 1, 2) { // reuse the same objects
		c.Ops = append(c.Ops, c.Ops[intR(t, "which", 0, len(c.Ops)-1)])
	}
	return c
}

func runPure(rec *Rec, c pureCase) error {
	w, err := newWorld(c.P)
	if err != nil {
		return err
	}
	x := &runner{w: w, rec: &Rec{}}
	rec.NT()
	for i, o := range c.Ops {
		rec.Class("%s", o.Kind)
		if err := x.do(o); err != nil {
			return fail("operation %d: %v", i, err)
		}
		name := fmt.Sprintf("operation %d (%s)", i, o.Kind)
		if err := w.unchanged(name); err != nil {
			return err
		}
		if err := x.inputsKept(name); err != nil {
			return err
		}
		if err := x.outputsKept(); err != nil {
			return fail("%s: %v", name, err)
		}
	}
	rec.Class("%d outputs retained", min(len(x.outs)/8*8, 32))
	x.scribbleInputs()
	if err := x.outputsKept(); err != nil {
		return fail("the caller overwrote the inputs: %v", err)
	}
	// and none of it reaches the outputs of later operations
	w2, err := newWorld(Pool{D: c.P.D, IDs: c.P.IDs, Msgs: c.P.Msgs, Keys4: c.P.Keys4})
	if err != nil {
		return err
	}
	y := &runner{w: w2, rec: &Rec{}}
	for i, o := range c.Ops[:min(3, len(c.Ops))] {
		if err := y.do(o); err != nil {
			return fail("operation %d on fresh objects after the first ones were overwritten: %v", i, err)
		}
	}
	if err := x.outputsKept(); err != nil {
		return fail("after further operations: %v", err)
	}
	return nil
}

// ---- P40 ----

type concCase struct {
	P     Pool
	Ops   [][]Op // one list per goroutine
	Procs int    `json:",omitempty"` // processors; 0 = all
	Pad   int    `json:",omitempty"` // messages repeated to this length
	Crowd int    `json:",omitempty"` // so many goroutines take the lists in turn
}

func genConc(t *rapid.T) concCase {
	c := concCase{P: genPool(t, true)}
	kinds := opKinds
	if coin(t, "focus", 1, 2) { // many goroutines in few operations
		kinds = nil
		for i := intR(t, "kinds", 1, 3); i > 0; i-- {
			kinds = append(kinds, rapid.SampledFrom(opKinds).Draw(t, "kind"+itoa(i)))
		}
	}
	for i := intR(t, "goroutines", 2, 6); i > 0; i-- {
		var l []Op
		for j := intR(t, "n"+itoa(i), 2, 6); j > 0; j-- {
			l = append(l, genOp(t, itoa(i)+"."+itoa(j), kinds))
		}
		c.Ops = append(c.Ops, l)
	}
	return c
}

// genConcLong: operations that outlast a scheduler's time slice, on one or
// two processors, so that they are interrupted in the middle of the work.
func genConcLong(t *rapid.T) concCase {
	c := concCase{P: genPool(t, false), Procs: intR(t, "procs", 1, 2), Pad: intR(t, "pad", 15000, 70000)}
	focus := longKinds
	if coin(t, "focus", 2, 3) {
		focus = []string{rapid.SampledFrom(longKinds).Draw(t, "kind")}
		if coin(t, "two", 1, 2) {
			focus = append(focus, rapid.SampledFrom(opKinds).Draw(t, "kind2"))
		}
	}
	for i := intR(t, "goroutines", 3, 6); i > 0; i-- {
		var l []Op
		for j := intR(t, "n"+itoa(i), 1, 3); j > 0; j-- {
			l = append(l, genOp(t, itoa(i)+"."+itoa(j), focus))
		}
		c.Ops = append(c.Ops, l)
	}
	return c
}

var longKinds = []string{"sm3", "sm3w", "ecb", "cbc", "sign", "signrs", "verify", "verify", "enc", "dec"}

// genCrowd: many goroutines in few kinds of operations on one or two
// processors, so that hundreds of operations are begun before the first is
// resumed.
func genCrowd(t *rapid.T) concCase {
	c := concCase{P: genPool(t, false), Procs: intR(t, "procs", 1, 2), Pad: pick(t, "pad", 0, 15000, 40000)}
	kind := rapid.SampledFrom(crowdKinds).Draw(t, "kind")
	if kind == "sm3" || kind == "sm3w" || kind == "ecb" || kind == "cbc" {
		c.Pad = 40000
	}
	for i := 0; i < 5; i++ {
		c.Ops = append(c.Ops, []Op{genOp(t, "o"+itoa(i), []string{kind})})
	}
	c.Crowd = pick(t, "crowd", 40, 100, 270, 270)
	return c
}

// crowds has a full crowd for every kind.
func crowds() (out []concCase) {
	p := repeats(1, 1)[0].P
	for i, k := range crowdKinds {
		if i > 0 && k == crowdKinds[i-1] {
			continue
		}
		for _, pad := range []int{0, 20000} {
			if pad > 0 && k == "kx" {
				continue
			}
			c := concCase{P: p, Procs: 1 + pad/20000, Pad: pad, Crowd: 270}
			if pad == 0 && (k[0] == 's' && k[1] == 'm' || k == "cbc") {
				c.Pad = 60000
			}
			for g := 0; g < 5; g++ {
				c.Ops = append(c.Ops, []Op{{Kind: k, A: g, B: g + 1, C: g + 2, E: g + 3, M: g, I: g % 2, J: g % 3, Seed: uint64(g)}})
			}
			out = append(out, c)
		}
	}
	return
}

var crowdKinds = []string{"sm3", "sm3w", "cbc", "sign", "signrs", "verify", "verify", "enc", "dec", "kx"}

func runConc(rec *Rec, c concCase) error {
	for k := Key(0); k < keyPool; k++ {
		k.load()
	}
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	if c.Crowd > 0 {
		lists := c.Ops
		c.Ops = nil
		for i := 0; i < c.Crowd; i++ {
			c.Ops = append(c.Ops, lists[i%len(lists)])
		}
	}
	if c.Pad > 0 {
		msgs := c.P.Msgs
		c.P.Msgs = nil
		for _, m := range msgs {
			b := make(HB, 0, c.Pad)
			for len(m) > 0 && len(b) < c.Pad {
				b = append(b, m[:min(len(m), c.Pad-len(b))]...)
			}
			c.P.Msgs = append(c.P.Msgs, b)
		}
	}
	w, err := newWorld(c.P)
	if err != nil {
		return err
	}
	rounds := 1
	if rec.Replay {
		rounds = 50
		if c.Crowd > 0 {
			rounds = 5
		}
	}
	rec.NT()
	for ; rounds > 0; rounds-- {
		errs := make([]error, len(c.Ops))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, l := range c.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						if b, ok := p.(harnessBug); ok {
							errs[i] = fmt.Errorf("HARNESS %s", b.msg)
							return
						}
						errs[i] = fail("goroutine %d: panic: %v", i, p)
					}
				}()
				x := &runner{w: w, rec: &Rec{}, shared: true}
				<-start
				for j, o := range l {
					if err := x.do(o); err != nil {
						errs[i] = fail("goroutine %d, operation %d: %v", i, j, err)
						return
					}
				}
				if err := x.inputsKept("concurrent operations"); err != nil {
					errs[i] = err
				} else if err := x.outputsKept(); err != nil {
					errs[i] = err
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				if strings.HasPrefix(err.Error(), "HARNESS ") {
					bug("%v", err)
				}
				return err
			}
		}
		if err := w.unchanged("concurrent operations"); err != nil {
			return err
		}
	}
	for _, l := range c.Ops {
		for _, o := range l {
			rec.Class("%s", o.Kind)
		}
	}
	rec.Class("%d goroutines", len(c.Ops))
	return nil
}

// ---- P41 ----

func genHistory(t *rapid.T) pureCase {
	c := pureCase{P: genPool(t, coin(t, "certs", 1, 2)), Arena: coin(t, "arena", 1, 2)}
	kinds := append(append([]string{}, opKinds...), "rekey", "rekey", "rewrite")
	if coin(t, "focus", 1, 2) {
		kinds = []string{"rekey", "rewrite"}
		for i := intR(t, "kinds", 1, 4); i > 0; i-- {
			kinds = append(kinds, rapid.SampledFrom(opKinds).Draw(t, "kind"+itoa(i)))
		}
	}
	for i := intR(t, "n", 3, 14); i > 0; i-- {
		if len(c.Ops) > 0 && coin(t, "repeat", 1, 5) { // the same, or nearly the same, again
			o := c.Ops[intR(t, "which", 0, len(c.Ops)-1)]
			switch intR(t, "vary", 0, 5) {
			case 0:
				o.A = intR(t, "va", 0, 11)
			case 1:
				o.I = intR(t, "vi", 0, 11)
			case 2:
				o.M = intR(t, "vm", 0, 11)
			case 3:
				o.N = intR(t, "vn", 0, 23)
			}
			c.Ops = append(c.Ops, o)
			continue
		}
		o := genOp(t, "o"+itoa(i), kinds)
		if coin(t, "fails", 1, 10) {
			o.FailAt = intR(t, "failat", 1, 60)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runHistory(rec *Rec, c pureCase) error {
	w, err := newWorld(c.P)
	if err != nil {
		return err
	}
	x := &runner{w: w, rec: &Rec{}, arena: c.Arena}
	if len(c.Ops) > 2 {
		rec.NT()
	}
	if c.Arena {
		rec.Class("reused buffers and objects")
	}
	for i, o := range c.Ops {
		rec.Class("%s", o.Kind)
		if err := x.do(o); err != nil {
			return fail("operation %d: %v", i, err)
		}
		x.scribbleOutputs()
	}
	return nil
}

// repeat: one operation very often, then others.
type repeatCase struct {
	P     Pool
	O     Op
	Count int
	Then  []Op
}

func runRepeat(rec *Rec, c repeatCase) error {
	rec.NT()
	rec.Class("%s", c.O.Kind)
	w, err := newWorld(c.P)
	if err != nil {
		return err
	}
	x := &runner{w: w, rec: &Rec{}}
	for i := 0; i < c.Count; i++ {
		o := c.O
		o.Seed += uint64(i)
		if err := x.do(o); err != nil {
			return fail("repetition %d: %v", i, err)
		}
		x.scribbleOutputs()
		x.guards, x.rec.classes = nil, nil
	}
	for _, o := range c.Then {
		if err := x.do(o); err != nil {
			return fail("after %d repetitions of %s: %v", c.Count, c.O.Kind, err)
		}
	}
	return nil
}

func repeats(cheap, dear int) (out []repeatCase) {
	cheap, dear = max(cheap, dict.maxLen(150000)+2), max(dear, dict.maxLen(1200)+2)
	p := Pool{D: []*big.Int{seedScalar(1), seedScalar(2)}, IDs: []HB{nil, HB("ALICE123@YAHOO.COM")}, Msgs: []HB{HB("message digest"), HB("other")}, Keys4: []HB{randBytes(5, 16)}}
	p.Reqs = []Req{{Subject: Name{CN: "x"}, SAN: SAN{DNS: []string{"a.example"}}}}
	p.Issues = []Issue{{T: Tmpl{Serial: i64(7), NA: 1e9, KU: 5, SAN: SAN{DNS: []string{"a.example"}}}, Parent: Name{CN: "ca"}, Sig: HB{1, 2, 3}}}
	p.Foreigns = []Foreign{{Version: 2, Serial: i64(5), Issuer: HB{0x30, 0}, Subject: HB{0x30, 0}, NA: 1e9, Sig: HB{1}, Exts: []Ext{{oidKU, true, kuDER(6)}}}}
	var then []Op
	for _, k := range opKinds {
		then = append(then, Op{Kind: k, B: 1, C: 1, Seed: 5})
	}
	n := map[string]int{"sm3": cheap, "sm3w": cheap, "blk": cheap, "ecb": cheap / 4, "cbc": cheap / 4, "pad": cheap, "rawkey": cheap / 8, "sigder": cheap / 8, "build": cheap / 4, "parse": cheap / 16, "envelope": cheap / 16,
		"genkey": dear, "calcpub": dear, "sign": dear, "signrs": dear, "verify": dear, "enc": dear, "dec": dear, "kx": dear / 2, "csr": dear / 3, "cert": dear / 2, "csrverify": dear, "fill": dear, "arith": dear}
	for _, k := range sortedKeys(n) {
		for v := 0; v < 2; v++ {
			out = append(out, repeatCase{p, Op{Kind: k, N: v, B: v}, n[k], then})
		}
	}
	return
}

// mixed: cases of other properties one after another in one process.
type mixedCase struct {
	Subs  []string
	Cases []json.RawMessage
}

type genericSub struct {
	name string
	gen  func(*rapid.T) json.RawMessage
	run  func(json.RawMessage) error
}

func generic[C any](name string, gen func(*rapid.T) C, run func(*Rec, C) error) genericSub {
	return genericSub{name, func(t *rapid.T) json.RawMessage {
		b, err := json.Marshal(gen(t))
		if err != nil {
			bug("marshal: %v", err)
		}
		return b
	}, func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			bug("unmarshal: %v", err)
		}
		resetWorld()
		return run(&Rec{}, c)
	}}
}

var mixedSubs = []genericSub{
	generic("digest history", genHashHistory, runHashHistory), generic("hmac", genHmac, runHmac),
	generic("blocks", genBlockHistory, runBlockHistory), generic("modes", genMode, runMode), generic("sizes", genSizes, runSizes), generic("padding", genPad, runPad),
	generic("keygen", genKeygen, runKeygen), generic("raw", genRaw, runRaw), generic("sign", genSign, runSign), generic("verify", genVerify, runVerify),
	generic("sigder", genSigDER, runSigDER), generic("liveder", genLiveDER, runSigDER), generic("ids", genIDs, runIDs),
	generic("enc", genEnc, runEnc), generic("dec", genDec(200), runDec), generic("tamper", genTamper, runTamper), generic("envelope", genEnv, runEnv),
	generic("entropyfail", genEntropyFail, runEntropyFail), generic("agree", genKX, runAgree), generic("mismatch", genMismatch, runMismatch), generic("badpeer", genBadPeer, runBadPeer),
	generic("req", genReq, runReq), generic("extensions", genIssue(0, 3), runExts), generic("links", genIssue(2, 1), runSigned), generic("csrsig", genCSRSig, runCSRSig), generic("fields", genIssue(2, 3), runFields), generic("badtmpl", genBadTmpl, runBadTmpl), generic("fromreq", genFromReq, runFromReq),
	generic("foreign", genForeignExts, runForeign), generic("constraints", genForeignNC, runForeign), generic("names", genForeignSAN, runForeign), generic("alg", genAlg, runAlg),
	generic("build", genBuild(true), runBuild), generic("read", genRead, runRead), generic("strings", genString, runString), generic("fixed", genFixed, runFixed), generic("big", genBig, runBig), generic("group", genGroup, runGroup), generic("forms", genForm, runForm),
}

func genMixed(t *rapid.T) mixedCase {
	var c mixedCase
	subs := mixedSubs
	if coin(t, "focus", 1, 2) { // several cases of few kinds
		subs = nil
		for i := intR(t, "kinds", 1, 3); i > 0; i-- {
			subs = append(subs, mixedSubs[intR(t, "kind"+itoa(i), 0, len(mixedSubs)-1)])
		}
	}
	for i := intR(t, "n", 2, 7); i > 0; i-- {
		if len(c.Subs) > 0 && coin(t, "again", 1, 6) {
			k := intR(t, "which", 0, len(c.Subs)-1)
			c.Subs, c.Cases = append(c.Subs, c.Subs[k]), append(c.Cases, c.Cases[k])
			continue
		}
		s := subs[intR(t, "sub"+itoa(i), 0, len(subs)-1)]
		c.Subs, c.Cases = append(c.Subs, s.name), append(c.Cases, s.gen(t))
	}
	return c
}

func runMixed(rec *Rec, c mixedCase) error {
	rec.NT()
	for i, n := range c.Subs {
		for _, s := range mixedSubs {
			if s.name == n {
				rec.Class("%s", n)
				if err := s.run(c.Cases[i]); err != nil {
					return fail("step %d (%s): %v", i, n, err)
				}
			}
		}
	}
	return nil
}

func init() {
	register("P39", NewSub("inputs", "2-9 operations of 31 kinds over shared keys, identities, messages, templates and certificates held in guarded memory with spare capacity, some failing or repeated; every input is compared after each operation, every output after each operation and after the inputs were overwritten; non-trivial: all", 8000, 200000, genPure, runPure))
	register("P40", NewSub("concurrent", "2-6 goroutines with 2-6 operations each over shared keys, ciphers, templates and inputs under the race detector; every result judged by the reference; non-trivial: all", 600, 12000, genConc, runConc),
		NewSub("long", "3-6 goroutines on one or two processors with 1-3 operations each over messages of 15-70 kB, so that they are interrupted in the middle of an operation; race detector and reference; non-trivial: all", 60, 2000, genConcLong, runConc),
		NewSub("crowd", "40-270 goroutines in one kind of operation on one or two processors, so that hundreds of operations are begun before the first is resumed; race detector and reference; non-trivial: all", 8, 600, genCrowd, runConc, crowds()...),
		NewSub("cold", "the first operations of a new process: 2-5 goroutines with 1-4 operations each, every goroutine making its own objects, under the race detector; also every kind of operation by 3 goroutines; non-trivial: all", 120, 3000, genCold(true), runCold, listCold(true)...))
	register("P41",
		NewSub("history", "3-14 operations over few related keys (negated, equal, neighbours), identities and messages, outputs overwritten by the caller, half of them with all arguments in reused buffers and objects, keys and buffers rewritten in place, failing entropy sources, near-repetitions; every outcome judged by the reference; non-trivial: more than two operations", 8000, 200000, genHistory, runHistory),
		NewSub("mixed", "2-7 cases of 39 other checks one after another, failing operations included; non-trivial: all", 6000, 160000, genMixed, runMixed),
		Slow(NewSub("repeat", "one operation 300 to 70000 times, then one of every kind; non-trivial: all", 0, 0, nil, runRepeat, repeats(70000, 300)...), 600),
		NewSub("cold", "the first 1-4 operations of a new process, judged by the reference; also every kind of operation; non-trivial: all", 800, 20000, genCold(false), runCold, listCold(false)...),
		ThoroughOnly(Slow(NewSub("repeat-long", "one operation 5000 to 1100000 times, then one of every kind; non-trivial: all", 0, 0, nil, runRepeat, repeats(1100000, 5000)...), 3000)))
}
