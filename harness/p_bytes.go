package main

import (
	"bytes"
	"encoding/asn1"
	"errors"
	"fmt"
	"math"
	"math/big"
	"time"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/cryptobyte"
	gasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"

	"pgregory.net/rapid"
)

// ---- values written by a Builder ----

// BNode is one builder operation.
type BNode struct {
	Kind string
	U    uint64   `json:",omitempty"`
	I    int64    `json:",omitempty"`
	N    *big.Int `json:",omitempty"`
	B    HB       `json:",omitempty"`
	OID  []int    `json:",omitempty"`
	Tag  int      `json:",omitempty"`
	Off  int      `json:",omitempty"` // minutes east of UTC
	Kids []BNode  `json:",omitempty"`
}

var lenKinds = map[string]int{"l8": 1, "l16": 2, "l24": 3, "l32": 4}

var (
	errValue   = errors.New("value cannot be marshalled")
	errBuild   = errors.New("build error of a continuation")
	errUnknown = errors.New("some error")
)

func genBNode(t *rapid.T, depth int, errs bool) BNode {
	kinds := []string{"u8", "u16", "u24", "u32", "bytes", "int", "enum", "uint", "big", "octets", "bits", "oid", "bool", "null", "time", "marshal"}
	if depth > 0 {
		kinds = append(kinds, "l8", "l16", "l24", "l32", "asn1", "asn1", "asn1", "l8", "l16", "value")
	}
	if errs {
		kinds = append(kinds, "badtag", "badoid", "badtime", "badmarshal", "badvalue")
		if depth < 3 {
			kinds = append(kinds, "panic")
		}
	}
	n := BNode{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	switch n.Kind {
	case "u8", "u16", "u24", "u32", "uint", "bool":
		n.U = u64(t, "u")
		if n.Kind == "uint" {
			n.U = genU64(t)
		}
		if n.Kind == "bool" {
			n.U &= 1
		}
	case "int", "enum", "marshal":
		n.I = int64(genU64(t))
		if coin(t, "neg", 1, 2) {
			n.I = -n.I
		}
	case "big":
		n.N = genInt(t, "n", pick(t, "nbits", 600, 600, 600, 1100, 2200, 4500))
	case "bytes", "octets", "bits":
		n.B = genBytes(t, "b", 300, 128, 256)
	case "oid":
		n.OID = genOID(t, "oid")
	case "badoid":
		n.OID = pick(t, "badoid", []int{}, []int{1}, []int{3, 1}, []int{0, 40}, []int{1, 40, 5}, []int{1, 2, -3}, []int{-1, 2}, []int{2, -1}, nil)
	case "badtag":
		n.Tag = pick(t, "btag", 0x1f, 0x3f, 0x9f, 0xff, 0x5f, 0xbf)
		n.Kids = []BNode{{Kind: "u8", U: 1}}
	case "badtime":
		n.I = pick(t, "bt", int64(253402300800), -62167219201, 1e15, -1e15)
	case "time":
		n.I, n.Off = genTime(t)
	case "asn1":
		n.Tag = pick(t, "tag", 0x30, 0x31, 2, 4, 12, 0x80, 0xa0, 0xa3, 0xbe, 0x9e, 0x1e, 0, 0x41, 0xfe)
	}
	if _, ok := lenKinds[n.Kind]; ok || n.Kind == "asn1" || n.Kind == "value" {
		k := intR(t, "kids", 0, 4)
		for i := 0; i < k; i++ {
			n.Kids = append(n.Kids, genBNode(t, depth-1, errs && coin(t, "errhere", 1, 4)))
		}
		if coin(t, "filler", 1, 3) {
			// bring the content near a length boundary
			have, _ := encodeAll(n.Kids)
			want := pick(t, "target", 127, 128, 255, 256, 129, 300, 65535, 65536) + intR(t, "toff", -2, 2)
			if want > len(have) && (want < 1000 || coin(t, "big", 1, 6)) {
				n.Kids = append(n.Kids, BNode{Kind: "bytes", B: genFill(t, "fillb", want-len(have))})
			}
		}
	}
	return n
}

// genU64 draws numbers near powers of two.
func genU64(t *rapid.T) uint64 {
	if v := dictBig(t, "u"); v != nil {
		return bmod(v, new(big.Int).Lsh(bigOne, 64)).Uint64()
	}
	switch intR(t, "uk", 0, 3) {
	case 0:
		return uint64(intR(t, "us", 0, 300))
	case 1:
		return u64(t, "ua") >> uint(intR(t, "ush", 0, 63))
	default:
		return 1<<uint(intR(t, "ub", 0, 63)) + uint64(intR(t, "uo", 0, 4)) - 2
	}
}

// genInt draws integers of either sign, near byte boundaries or anywhere.
func genInt(t *rapid.T, l string, bits int) *big.Int {
	n := dictBig(t, l)
	switch k := intR(t, l+".k", 0, 3); {
	case n != nil && n.BitLen() <= bits:
	case k == 0:
		n = i64(int64(intR(t, l+".s", 0, 300)))
	case k == 1:
		n = new(big.Int).SetBytes(genFill(t, l+".b", intR(t, l+".len", 0, bits/8)))
	default:
		n = new(big.Int).Lsh(bigOne, uint(intR(t, l+".bit", 0, bits)))
		n.Add(n, i64(int64(intR(t, l+".off", -2, 2))))
	}
	if coin(t, l+".neg", 1, 3) {
		n.Neg(n)
	}
	return n
}

func genOID(t *rapid.T, l string) []int {
	if o, ok := dictOID(t, l); ok {
		return o
	}
	a := intR(t, l+".0", 0, 2)
	b := intR(t, l+".1", 0, 39)
	arc := func(i int) int {
		switch intR(t, l+".k", 0, 2) {
		case 0:
			return intR(t, l+".s", 0, 130)
		case 1:
			return min(math.MaxInt32, max(0, 1<<uint(intR(t, l+".b", 0, 31))+intR(t, l+".o", -1, 1)))
		}
		return intR(t, l+".a", 0, math.MaxInt32)
	}
	if a == 2 && coin(t, l+".big2", 1, 2) {
		b = min(arc(1), math.MaxInt32-80)
	}
	oid := []int{a, b}
	for i := intR(t, l+".n", 0, 6); i > 0; i-- {
		oid = append(oid, arc(i))
	}
	return oid
}

func genTime(t *rapid.T) (sec int64, off int) {
	if s, ok := dictSecs(t, "t"); ok {
		return s, 0
	}
	switch intR(t, "tk", 0, 3) {
	case 0:
		sec = pick(t, "tx", int64(-62167219200), 253402300799, 0, -1, 951782400, 1709251199, 2524607999, 2524608000, -631152000, -631152001)
	default:
		sec = rapid.Int64Range(-62167219200+90000, 253402300799-90000).Draw(t, "t")
		off = intR(t, "off", -23*60, 23*60)
		if coin(t, "utc", 2, 3) {
			off = 0
		}
	}
	return
}

func (n BNode) time() time.Time {
	if n.Off == 0 {
		return time.Unix(n.I, 0).UTC()
	}
	return time.Unix(n.I, 0).In(time.FixedZone("z", n.Off*60))
}

func encodeAll(ns []BNode) ([]byte, error) {
	var out []byte
	var err error
	for _, n := range ns {
		b, e := n.encode()
		if e != nil && err == nil {
			err = e
		}
		out = append(out, b...)
	}
	return out, err
}

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// encode is the standard encoding, written independently of the Builder.
func (n BNode) encode() ([]byte, error) {
	if l, ok := lenKinds[n.Kind]; ok {
		c, err := encodeAll(n.Kids)
		if err == nil && uint64(len(c))>>(8*uint(l)) != 0 {
			err = errUnknown
		}
		return append(be(uint64(len(c)), l), c...), err
	}
	switch n.Kind {
	case "u8":
		return be(n.U, 1), nil
	case "u16":
		return be(n.U, 2), nil
	case "u24":
		return be(n.U, 3), nil
	case "u32":
		return be(n.U, 4), nil
	case "bytes":
		return n.B, nil
	case "int", "marshal":
		return ref.Int(i64(n.I)), nil
	case "enum":
		return ref.TLV(10, ref.IntBytes(i64(n.I))), nil
	case "uint":
		return ref.Int(new(big.Int).SetUint64(n.U)), nil
	case "big":
		return ref.Int(n.N), nil
	case "octets":
		return ref.Octets(n.B), nil
	case "bits":
		return ref.BitString(n.B), nil
	case "oid":
		return ref.OID(n.OID...), nil
	case "bool":
		return ref.Bool(n.U == 1), nil
	case "null":
		return []byte{5, 0}, nil
	case "time":
		t := n.time()
		s := fmt.Sprintf("%04d%02d%02d%02d%02d%02d", t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second())
		switch {
		case n.Off == 0:
			s += "Z"
		case n.Off > 0:
			s += fmt.Sprintf("+%02d%02d", n.Off/60, n.Off%60)
		default:
			s += fmt.Sprintf("-%02d%02d", -n.Off/60, -n.Off%60)
		}
		return ref.TLV(24, []byte(s)), nil
	case "asn1":
		c, err := encodeAll(n.Kids)
		return ref.TLV(byte(n.Tag), c), err
	case "value":
		return encodeAll(n.Kids)
	case "badvalue":
		return nil, errValue
	case "panic":
		return nil, errBuild
	case "badtag", "badoid", "badtime", "badmarshal":
		return nil, errUnknown
	}
	bug("kind %q", n.Kind)
	return nil, nil
}

// sources counts the operations that raise an error of their own.
func sources(ns []BNode) int {
	c := 0
	for _, n := range ns {
		switch n.Kind {
		case "badvalue", "panic", "badtag", "badoid", "badtime", "badmarshal":
			c++
		}
		c += sources(n.Kids)
		if l, ok := lenKinds[n.Kind]; ok {
			b, err := encodeAll(n.Kids)
			if err == nil && uint64(len(b))>>(8*uint(l)) != 0 || err != nil && uint64(mostBytes(n.Kids))>>(8*uint(l)) != 0 {
				c++
			}
		}
	}
	return c
}

// mostBytes is an upper bound of what ns write, failing or not.
func mostBytes(ns []BNode) int {
	c := 0
	for _, n := range ns {
		if b, err := n.encode(); err == nil {
			c += len(b)
		} else {
			c += 10 + mostBytes(n.Kids)
		}
	}
	return c
}

type kidsValue []BNode

func (k kidsValue) Marshal(b *cryptobyte.Builder) error {
	for _, n := range k {
		n.build(b)
	}
	return nil
}

type failingValue struct{}

func (failingValue) Marshal(*cryptobyte.Builder) error { return errValue }

func (n BNode) build(b *cryptobyte.Builder) {
	kids := func(c *cryptobyte.Builder) {
		for _, k := range n.Kids {
			k.build(c)
		}
	}
	switch n.Kind {
	case "u8":
		b.AddUint8(uint8(n.U))
	case "u16":
		b.AddUint16(uint16(n.U))
	case "u24":
		b.AddUint24(uint32(n.U))
	case "u32":
		b.AddUint32(uint32(n.U))
	case "bytes":
		b.AddBytes(n.B)
	case "int":
		b.AddASN1Int64(n.I)
	case "enum":
		b.AddASN1Enum(n.I)
	case "uint":
		b.AddASN1Uint64(n.U)
	case "big":
		b.AddASN1BigInt(n.N)
	case "octets":
		b.AddASN1OctetString(n.B)
	case "bits":
		b.AddASN1BitString(n.B)
	case "oid", "badoid":
		b.AddASN1ObjectIdentifier(asn1.ObjectIdentifier(n.OID))
	case "bool":
		b.AddASN1Boolean(n.U == 1)
	case "null":
		b.AddASN1NULL()
	case "time", "badtime":
		b.AddASN1GeneralizedTime(n.time())
	case "marshal":
		b.MarshalASN1(n.I)
	case "badmarshal":
		b.MarshalASN1(make(chan int))
	case "asn1", "badtag":
		b.AddASN1(gasn1.Tag(n.Tag), kids)
	case "l8":
		b.AddUint8LengthPrefixed(kids)
	case "l16":
		b.AddUint16LengthPrefixed(kids)
	case "l24":
		b.AddUint24LengthPrefixed(kids)
	case "l32":
		b.AddUint32LengthPrefixed(kids)
	case "value":
		b.AddValue(kidsValue(n.Kids))
	case "badvalue":
		b.AddValue(failingValue{})
	case "panic":
		panic(cryptobyte.BuildError{Err: errBuild})
	default:
		bug("kind %q", n.Kind)
	}
}

// read takes the node off s with the matching reader.
func (n BNode) read(s *cryptobyte.String) error {
	bad := func(what string, got any) error {
		return fail("%s: reading back gives %v, written was %+v", what, got, n)
	}
	readKids := func(c cryptobyte.String) error {
		for _, k := range n.Kids {
			if err := k.read(&c); err != nil {
				return err
			}
		}
		if !c.Empty() {
			return fail("%s: %d bytes left inside", n.Kind, len(c))
		}
		return nil
	}
	switch n.Kind {
	case "u8":
		var v uint8
		if !s.ReadUint8(&v) || v != uint8(n.U) {
			return bad("ReadUint8", v)
		}
	case "u16":
		var v uint16
		if !s.ReadUint16(&v) || v != uint16(n.U) {
			return bad("ReadUint16", v)
		}
	case "u24":
		var v uint32
		if !s.ReadUint24(&v) || v != uint32(n.U)&0xffffff {
			return bad("ReadUint24", v)
		}
	case "u32":
		var v uint32
		if !s.ReadUint32(&v) || v != uint32(n.U) {
			return bad("ReadUint32", v)
		}
	case "bytes":
		c := *s
		cp := make([]byte, len(n.B))
		var v []byte
		if !c.CopyBytes(cp) || !bytes.Equal(cp, n.B) {
			return bad("CopyBytes", hexs(cp))
		}
		if !s.ReadBytes(&v, len(n.B)) || !bytes.Equal(v, n.B) {
			return bad("ReadBytes", hexs(v))
		}
	case "int", "marshal":
		c := *s
		var v int64
		if !s.ReadASN1Integer(&v) || v != n.I {
			return bad("ReadASN1Integer(*int64)", v)
		}
		var w big.Int
		if !c.ReadASN1Integer(&w) || w.Cmp(i64(n.I)) != 0 {
			return bad("ReadASN1Integer(*big.Int)", &w)
		}
	case "enum":
		var v int
		if !s.ReadASN1Enum(&v) || int64(v) != n.I {
			return bad("ReadASN1Enum", v)
		}
	case "uint":
		var v uint64
		if !s.ReadASN1Integer(&v) || v != n.U {
			return bad("ReadASN1Integer(*uint64)", v)
		}
	case "big":
		v := i64(77)
		if !s.ReadASN1Integer(v) || v.Cmp(n.N) != 0 {
			return bad("ReadASN1Integer(*big.Int)", v)
		}
	case "octets":
		var v []byte
		if !s.ReadASN1Bytes(&v, gasn1.OCTET_STRING) || !bytes.Equal(v, n.B) {
			return bad("ReadASN1Bytes", hexs(v))
		}
	case "bits":
		c := *s
		var v []byte
		if !s.ReadASN1BitStringAsBytes(&v) || !bytes.Equal(v, n.B) {
			return bad("ReadASN1BitStringAsBytes", hexs(v))
		}
		var w asn1.BitString
		if !c.ReadASN1BitString(&w) || w.BitLength != 8*len(n.B) || !bytes.Equal(w.Bytes, n.B) {
			return bad("ReadASN1BitString", w)
		}
	case "oid":
		var v asn1.ObjectIdentifier
		if !s.ReadASN1ObjectIdentifier(&v) || !v.Equal(asn1.ObjectIdentifier(n.OID)) {
			return bad("ReadASN1ObjectIdentifier", v)
		}
	case "bool":
		v, c := n.U == 0, *s
		if !s.ReadASN1Boolean(&v) || v != (n.U == 1) {
			return bad("ReadASN1Boolean", v)
		}
		v = n.U == 0
		if !c.ReadOptionalASN1Boolean(&v, n.U == 0) || v != (n.U == 1) || len(c) != len(*s) {
			return bad("ReadOptionalASN1Boolean", v)
		}
	case "null":
		var v cryptobyte.String
		if !s.ReadASN1(&v, gasn1.NULL) || len(v) != 0 {
			return bad("ReadASN1(NULL)", v)
		}
	case "time":
		var v time.Time
		if !s.ReadASN1GeneralizedTime(&v) || !v.Equal(n.time()) {
			return bad("ReadASN1GeneralizedTime", v)
		}
	case "asn1":
		c, d := *s, *s
		var in, el cryptobyte.String
		var tag gasn1.Tag
		if !s.ReadASN1(&in, gasn1.Tag(n.Tag)) {
			return bad("ReadASN1", "failure")
		}
		if !c.ReadAnyASN1Element(&el, &tag) || int(tag) != n.Tag || len(c) != len(*s) || !bytes.HasSuffix(el, in) {
			return bad("ReadAnyASN1Element", tag)
		}
		if !d.SkipASN1(gasn1.Tag(n.Tag)) || len(d) != len(*s) {
			return bad("SkipASN1", "failure")
		}
		return readKids(in)
	case "l8", "l16", "l24":
		var in cryptobyte.String
		ok := false
		switch n.Kind {
		case "l8":
			ok = s.ReadUint8LengthPrefixed(&in)
		case "l16":
			ok = s.ReadUint16LengthPrefixed(&in)
		case "l24":
			ok = s.ReadUint24LengthPrefixed(&in)
		}
		if !ok {
			return bad("length-prefixed read", "failure")
		}
		return readKids(in)
	case "l32":
		var l uint32
		var in []byte
		if !s.ReadUint32(&l) || !s.ReadBytes(&in, int(l)) {
			return bad("ReadUint32+ReadBytes", l)
		}
		return readKids(in)
	case "value":
		for _, k := range n.Kids {
			if err := k.read(s); err != nil {
				return err
			}
		}
	default:
		bug("read %q", n.Kind)
	}
	return nil
}

func depthOf(ns []BNode) int {
	d := 0
	for _, n := range ns {
		if k := depthOf(n.Kids); len(n.Kids) > 0 && k+1 > d {
			d = k + 1
		}
	}
	return d
}

type buildCase struct{ Ops []BNode }

func genBuild(errs bool) func(t *rapid.T) buildCase {
	return func(t *rapid.T) buildCase {
		var c buildCase
		for i := intR(t, "n", 1, 6); i > 0; i-- {
			n := genBNode(t, 3, errs)
			if n.Kind == "panic" {
				n = BNode{Kind: "asn1", Tag: 0x30, Kids: []BNode{n}}
			}
			if n.Kind == "value" {
				n = BNode{Kind: "l16", Kids: []BNode{n}}
			}
			c.Ops = append(c.Ops, n)
		}
		return c
	}
}

func runBuild(r *Rec, c buildCase) error {
	want, werr := encodeAll(c.Ops)
	var b cryptobyte.Builder
	for _, n := range c.Ops {
		n.build(&b)
	}
	got, err := b.Bytes()
	r.Class("depth %d", min(depthOf(c.Ops), 4))
	if werr != nil {
		r.Class("unrepresentable")
		r.NT()
		if err == nil {
			return fail("the builder reports no error for a value that cannot be represented; it gives %s", hexs(got))
		}
		return nil
	}
	if err != nil {
		return fail("the builder reports %v for representable values", err)
	}
	if !bytes.Equal(got, want) {
		return fail("the builder gives %s, the encoding is %s", hexs(got), hexs(want))
	}
	if depthOf(c.Ops) > 0 || len(c.Ops) > 2 {
		r.NT()
	}
	r.Class("bytes %s", encClass(len(want)))
	s := cryptobyte.String(append([]byte{}, got...))
	for _, n := range c.Ops {
		if err := n.read(&s); err != nil {
			return err
		}
	}
	if !s.Empty() {
		return fail("%d bytes are left after reading everything back", len(s))
	}
	return nil
}

func encClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 128:
		return "<128"
	case n < 256:
		return "<256"
	case n < 65536:
		return "<65536"
	}
	return ">=65536"
}

// ---- P36 ----

type readCase struct {
	Data   HB
	Reader string
	Tag    int
	Def    int64
}

var readers = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "big", "enum", "oid", "bits", "bitbytes", "octets", "time",
	"any", "anyelem", "asn1", "elem", "skip", "peek", "opt", "skipopt", "optint", "optbig", "optoct", "optbool"}

var readerTag = map[string]int{"bool": 1, "optbool": 1, "enum": 10, "oid": 6, "bits": 3, "bitbytes": 3, "octets": 4, "time": 24}

func genRead(t *rapid.T) readCase {
	c := readCase{Reader: rapid.SampledFrom(readers).Draw(t, "reader"), Def: int64(intR(t, "def", -5, 5))}
	tag, ok := readerTag[c.Reader]
	if !ok {
		tag = 2
	}
	c.Tag = tag
	switch c.Reader {
	case "any", "anyelem", "asn1", "elem", "skip", "peek", "opt", "skipopt":
		c.Tag = pick(t, "tag", 0x30, 2, 4, 0xa0, 0x80, 0x1e, 0x1f, 0, 5)
		tag = c.Tag
	case "optint", "optbig", "optoct":
		c.Tag = pick(t, "ctag", 0xa0, 0xa1, 0x80, 0xbe)
	}
	var content []byte
	switch tag {
	case 1:
		content = pick(t, "bool", []byte{0}, []byte{0xff}, []byte{1}, []byte{0xfe}, []byte{}, []byte{0xff, 0xff}, []byte{0, 0})
	case 2, 10:
		n := genInt(t, "n", pick(t, "nbits", 80, 80, 80, 80, 80, 300, 1100, 2200))
		if coin(t, "near", 1, 2) { // ends of the Go integer types
			w := uint(pick(t, "w", 7, 8, 15, 16, 31, 32, 63, 64))
			n = badd(new(big.Int).Lsh(bigOne, w), i64(int64(intR(t, "no", -2, 1))))
			if coin(t, "nn", 1, 2) {
				n.Neg(n)
			}
		}
		content = ref.IntBytes(n)
		if coin(t, "nonmin", 1, 8) {
			content = append([]byte{pick(t, "pad", byte(0), byte(0xff))}, content...)
		}
		if coin(t, "empty", 1, 30) {
			content = nil
		}
	case 3:
		content = append([]byte{byte(pick(t, "pad", 0, 0, 0, 1, 3, 7, 8, 255))}, genFill(t, "bits", intR(t, "bl", 0, 6))...)
		if len(content) > 1 && coin(t, "clean", 2, 3) && content[0] < 8 {
			content[len(content)-1] &^= byte(1)<<content[0] - 1
		}
	case 6:
		content = ref.OIDBytes(genOID(t, "oid")...)
		switch intR(t, "oidmut", 0, 5) {
		case 0:
			i := intR(t, "oi", 0, len(content))
			content = ref.Cat(content[:i], []byte{0x80}, content[i:])
		case 1:
			content = append(content, 0x80|byte(intR(t, "ob", 0, 127)))
		case 2:
			i := intR(t, "oi", 0, len(content))
			content = ref.Cat(content[:i], []byte{0x8f | byte(intR(t, "hi", 0, 127)), 0xff, 0xff, 0xff, 0x7f}, content[i:])
		}
	case 24:
		b, _ := BNode{Kind: "time", I: rapid.Int64Range(-62167219200, 253402300799).Draw(t, "sec")}.encode()
		content = b[2:]
		switch intR(t, "tm", 0, 5) {
		case 0:
			i := intR(t, "ti", 0, len(content)-1)
			content[i] = pick(t, "tc", byte('0'), '1', '3', '5', '6', '9', 'Z', '+', '-', '.', ' ', '2')
		case 1:
			content = append(content[:len(content)-1], pick(t, "zone", "+0800", "-0130", "+0000", "-0000", "", "z", "+08", "+08:00", ".5Z", ".0Z", ",5Z", "Z ", "+0860", "+0060")...)
		case 2:
			content = append(content[:4:4], content[intR(t, "tcut", 4, 14):]...)
		case 3:
			copy(content[4:], pick(t, "date", "0229", "0230", "1301", "0001", "0100", "0431", "1232", "0228", "1231"))
		case 4:
			copy(content[8:], pick(t, "clock", "240000", "236000", "235960", "000000", "235959"))
		}
	default:
		content = genBytes(t, "content", 300, 128, 256)
	}
	if coin(t, "big", 1, 25) {
		content = append(content, make([]byte, pick(t, "bigl", 127, 128, 255, 256, 65535, 65536)-min(len(content), 127))...)
	}
	t0 := byte(tag)
	if c.Reader == "optoct" {
		t0 = 4
		content = genBytes(t, "oct", 20)
	}
	el := ref.TLV(t0, content)
	if t0&0x1f == 0x1f && coin(t, "hightag", 1, 2) {
		el = ref.Cat([]byte{t0, byte(intR(t, "ht", 31, 127))}, ref.DERLen(len(content)), content)
	}
	switch c.Reader {
	case "optint", "optbig", "optoct":
		if coin(t, "inner2", 1, 8) {
			el = append(el, genFill(t, "in2", intR(t, "in2l", 1, 3))...)
		}
		el = ref.TLV(byte(c.Tag), el)
	}
	if coin(t, "mutate", 1, 2) {
		el = mutateDER(t, "mut", el)
	}
	if coin(t, "othertag", 1, 8) && len(el) > 0 {
		el[0] = byte(intR(t, "ot", 0, 255))
	}
	if coin(t, "lead", 1, 30) {
		el = []byte{}
	}
	c.Data = append(el, genFill(t, "rest", intR(t, "restl", 0, 5))...)
	return c
}

// derTime decodes the content of a GeneralizedTime "YYYYMMDDHHMMSS" followed by
// Z or a numeric zone. known is false where neither the standard's nor the
// code's documentation settles what is accepted.
func derTime(c []byte) (tm time.Time, ok, known bool) {
	if len(c) < 15 {
		return tm, false, true
	}
	v := make([]int, 14)
	for i := range v {
		if c[i] < '0' || c[i] > '9' {
			return tm, false, true
		}
		v[i] = int(c[i] - '0')
	}
	two := func(i int) int { return 10*v[i] + v[i+1] }
	y, mo, d, h, mi, s := 100*two(0)+two(2), two(4), two(6), two(8), two(10), two(12)
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days[1] = 29
	}
	if mo < 1 || mo > 12 || d < 1 || d > days[mo-1] || h > 23 || mi > 59 || s > 59 {
		return tm, false, true
	}
	z := string(c[14:])
	if z == "Z" {
		return time.Date(y, time.Month(mo), d, h, mi, s, 0, time.UTC), true, true
	}
	if len(z) != 5 || z[0] != '+' && z[0] != '-' {
		return tm, false, true
	}
	for _, x := range z[1:] {
		if x < '0' || x > '9' {
			return tm, false, true
		}
	}
	oh, om := int(z[1]-'0')*10+int(z[2]-'0'), int(z[3]-'0')*10+int(z[4]-'0')
	if z[1:] == "0000" {
		return tm, false, true
	}
	if oh > 23 || om > 59 {
		return tm, false, om == 60 || oh > 23 // may fail or not
	}
	o := (oh*60 + om) * 60
	if z[0] == '-' {
		o = -o
	}
	return time.Date(y, time.Month(mo), d, h, mi, s, 0, time.FixedZone("", o)), true, true
}

func typeFor(reader string) (ptr any, lo, hi *big.Int) {
	sgn := func(bits uint) (*big.Int, *big.Int) {
		h := new(big.Int).Lsh(bigOne, bits-1)
		return new(big.Int).Neg(h), bsub(h, bigOne)
	}
	uns := func(bits uint) (*big.Int, *big.Int) {
		return i64(0), bsub(new(big.Int).Lsh(bigOne, bits), bigOne)
	}
	switch reader {
	case "int", "int64", "optint":
		lo, hi = sgn(64)
		if reader == "int64" {
			return new(int64), lo, hi
		}
		return new(int), lo, hi
	case "int8":
		lo, hi = sgn(8)
		return new(int8), lo, hi
	case "int16":
		lo, hi = sgn(16)
		return new(int16), lo, hi
	case "int32":
		lo, hi = sgn(32)
		return new(int32), lo, hi
	case "uint":
		lo, hi = uns(64)
		return new(uint), lo, hi
	case "uint64":
		lo, hi = uns(64)
		return new(uint64), lo, hi
	case "uint8":
		lo, hi = uns(8)
		return new(uint8), lo, hi
	case "uint16":
		lo, hi = uns(16)
		return new(uint16), lo, hi
	case "uint32":
		lo, hi = uns(32)
		return new(uint32), lo, hi
	}
	bug("type %s", reader)
	return nil, nil, nil
}

func intOf(p any) *big.Int {
	switch v := p.(type) {
	case *int:
		return i64(int64(*v))
	case *int8:
		return i64(int64(*v))
	case *int16:
		return i64(int64(*v))
	case *int32:
		return i64(int64(*v))
	case *int64:
		return i64(*v)
	case *uint:
		return new(big.Int).SetUint64(uint64(*v))
	case *uint8:
		return i64(int64(*v))
	case *uint16:
		return i64(int64(*v))
	case *uint32:
		return i64(int64(*v))
	case *uint64:
		return new(big.Int).SetUint64(*v)
	case *big.Int:
		return v
	}
	bug("intOf %T", p)
	return nil
}

func runRead(r *Rec, c readCase) error {
	data := append([]byte{}, c.Data...)
	s := cryptobyte.String(data)
	tag, content, full, rest, ok := ref.ReadTLV(data)
	// expectation: wantOK, wantRest, and a comparison of the value
	wantOK, wantRest := ok, rest
	present := len(data) > 0 && int(data[0]) == c.Tag
	var got bool
	var cmp func() error
	// what an earlier read into the same variable may have given stays as it is
	old := bytes.Repeat([]byte{0xa5}, 100)
	oldOID := make(asn1.ObjectIdentifier, 50)
	def := i64(c.Def)
	if c.Def%3 == 0 {
		def.Lsh(def, 200)
	}
	oldDef := def.String()
	eq := func(what string, a, b any) error {
		if fmt.Sprint(a) != fmt.Sprint(b) {
			return fail("%s gives %v, encoded is %v (input %s)", what, a, b, hexs(c.Data))
		}
		return nil
	}
	eqb := func(what string, a, b []byte) error {
		if !bytes.Equal(a, b) {
			return fail("%s gives %s, encoded is %s (input %s)", what, hexs(a), hexs(b), hexs(c.Data))
		}
		return nil
	}
	tagOK := ok && int(tag) == c.Tag
	switch c.Reader {
	case "bool":
		v := c.Def >= 0
		got = s.ReadASN1Boolean(&v)
		wantOK = tagOK && len(content) == 1 && (content[0] == 0 || content[0] == 0xff)
		cmp = func() error { return eq("ReadASN1Boolean", v, content[0] == 0xff) }
	case "optbool":
		v, def := c.Def < 0, c.Def >= 0
		got = s.ReadOptionalASN1Boolean(&v, def)
		if !present {
			wantOK, wantRest = true, data
			cmp = func() error { return eq("ReadOptionalASN1Boolean (absent)", v, def) }
			break
		}
		wantOK = tagOK && len(content) == 1 && (content[0] == 0 || content[0] == 0xff)
		cmp = func() error { return eq("ReadOptionalASN1Boolean", v, content[0] == 0xff) }
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
		p, lo, hi := typeFor(c.Reader)
		got = s.ReadASN1Integer(p)
		wantOK = false
		if tagOK {
			if n, ok := ref.ReadInt(content); ok && n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
				wantOK = true
				cmp = func() error { return eq("ReadASN1Integer(*"+c.Reader+")", intOf(p), n) }
			}
		}
	case "big":
		p := i64(c.Def)
		got = s.ReadASN1Integer(p)
		n, iok := ref.ReadInt(content)
		wantOK = tagOK && iok
		cmp = func() error { return eq("ReadASN1Integer(*big.Int)", p, n) }
	case "enum":
		v := int(c.Def)
		got = s.ReadASN1Enum(&v)
		n, iok := ref.ReadInt(content)
		wantOK = tagOK && iok && n.IsInt64()
		cmp = func() error { return eq("ReadASN1Enum", v, n) }
	case "oid":
		v := oldOID[:5]
		got = s.ReadASN1ObjectIdentifier(&v)
		arcs, aok := ref.ReadOID(content)
		wantOK = tagOK && aok
		cmp = func() error { return eq("ReadASN1ObjectIdentifier", []int(v), arcs) }
		large := bigArc(content)
		if wantOK {
			for i, a := range arcs {
				if a > math.MaxInt32 || i == 1 && a > math.MaxInt32-80 {
					large = true
				}
			}
		}
		if tagOK && large && !got {
			r.Class("oid with arcs beyond 31 bits")
			return nil // whether they fit is up to the reader
		}
	case "bits":
		v := asn1.BitString{Bytes: old[:5], BitLength: 37}
		got = s.ReadASN1BitString(&v)
		wantOK = tagOK && bitsOK(content)
		cmp = func() error {
			if v.BitLength != 8*(len(content)-1)-int(content[0]) {
				return eq("ReadASN1BitString bit length", v.BitLength, 8*(len(content)-1)-int(content[0]))
			}
			return eqb("ReadASN1BitString", v.Bytes, content[1:])
		}
	case "bitbytes":
		v := old[:5]
		got = s.ReadASN1BitStringAsBytes(&v)
		wantOK = tagOK && len(content) > 0 && content[0] == 0
		cmp = func() error { return eqb("ReadASN1BitStringAsBytes", v, content[1:]) }
	case "octets", "asn1":
		v, w := cryptobyte.String(old[:5]), old[:7]
		s2 := s
		got = s.ReadASN1(&v, gasn1.Tag(c.Tag))
		if g2 := s2.ReadASN1Bytes(&w, gasn1.Tag(c.Tag)); g2 != got || got && (len(s2) != len(s) || !bytes.Equal(v, w)) {
			return fail("ReadASN1 and ReadASN1Bytes differ on %s", hexs(c.Data))
		}
		wantOK = tagOK
		cmp = func() error { return eqb("ReadASN1", v, content) }
	case "time":
		var v time.Time
		got = s.ReadASN1GeneralizedTime(&v)
		tm, tok, known := derTime(content)
		if tagOK && !known {
			r.Class("time zone beyond a day")
			return nil
		}
		wantOK = tagOK && tok
		cmp = func() error { return eq("ReadASN1GeneralizedTime", v.UTC(), tm.UTC()) }
	case "any", "anyelem":
		v := cryptobyte.String(old[:5])
		var g gasn1.Tag
		wantOK = ok
		if c.Reader == "any" {
			got = s.ReadAnyASN1(&v, &g)
			cmp = func() error {
				if int(g) != int(tag) {
					return eq("ReadAnyASN1 tag", g, tag)
				}
				return eqb("ReadAnyASN1", v, content)
			}
		} else {
			got = s.ReadAnyASN1Element(&v, &g)
			cmp = func() error {
				if int(g) != int(tag) {
					return eq("ReadAnyASN1Element tag", g, tag)
				}
				return eqb("ReadAnyASN1Element", v, full)
			}
		}
	case "elem":
		v := cryptobyte.String(old[:5])
		got = s.ReadASN1Element(&v, gasn1.Tag(c.Tag))
		wantOK = tagOK
		cmp = func() error { return eqb("ReadASN1Element", v, full) }
	case "skip":
		got = s.SkipASN1(gasn1.Tag(c.Tag))
		wantOK = tagOK
	case "peek":
		got = s.PeekASN1Tag(gasn1.Tag(c.Tag))
		wantOK, wantRest = present, data
	case "opt":
		v, p := cryptobyte.String(old[:5]), !present
		got = s.ReadOptionalASN1(&v, &p, gasn1.Tag(c.Tag))
		wantOK = tagOK
		if !present {
			wantOK, wantRest, content = true, data, nil
		}
		cmp = func() error {
			if p != present {
				return eq("ReadOptionalASN1 present", p, present)
			}
			if !present {
				return nil
			}
			return eqb("ReadOptionalASN1", v, content)
		}
		if present && c.Def > 0 {
			s2 := cryptobyte.String(data)
			if g := s2.ReadOptionalASN1(&v, nil, gasn1.Tag(c.Tag)); g != got {
				return fail("ReadOptionalASN1 depends on outPresent")
			}
		}
	case "skipopt":
		got = s.SkipOptionalASN1(gasn1.Tag(c.Tag))
		wantOK = tagOK
		if !present {
			wantOK, wantRest = true, data
		}
	case "optint", "optbig", "optoct":
		itag := byte(2)
		if c.Reader == "optoct" {
			itag = 4
		}
		wantOK = false
		var inner []byte
		if tagOK {
			t2, c2, _, r2, ok2 := ref.ReadTLV(content)
			if ok2 && t2 == itag && len(r2) == 0 {
				wantOK, inner = true, c2
			}
		}
		if !present {
			wantOK, wantRest = true, data
		}
		switch c.Reader {
		case "optint":
			v := 99
			got = s.ReadOptionalASN1Integer(&v, gasn1.Tag(c.Tag), int(c.Def))
			n := i64(c.Def)
			if present && wantOK {
				n, wantOK = ref.ReadInt(inner)
				wantOK = wantOK && n.IsInt64()
			}
			cmp = func() error { return eq("ReadOptionalASN1Integer", v, n) }
		case "optbig":
			v := i64(99)
			got = s.ReadOptionalASN1Integer(v, gasn1.Tag(c.Tag), def)
			n := def
			if present && wantOK {
				n, wantOK = ref.ReadInt(inner)
			}
			cmp = func() error {
				if err := eq("ReadOptionalASN1Integer(*big.Int)", v, n); err != nil {
					return err
				}
				for i, w := 0, v.Bits(); i < len(w); i++ {
					w[i] = ^w[i] // the number is the caller's
				}
				return eq("default after the number read was overwritten", def, oldDef)
			}
		case "optoct":
			v, p := old[:5], !present
			got = s.ReadOptionalASN1OctetString(&v, &p, gasn1.Tag(c.Tag))
			cmp = func() error {
				if p != present {
					return eq("ReadOptionalASN1OctetString present", p, present)
				}
				return eqb("ReadOptionalASN1OctetString", v, inner)
			}
		}
	default:
		bug("reader %s", c.Reader)
	}
	r.NT()
	r.Class("%s %v", c.Reader, wantOK)
	if got != wantOK {
		return fail("reader %s (tag 0x%02x) returns %v, must be %v, on %s", c.Reader, c.Tag, got, wantOK, hexs(c.Data))
	}
	if !bytes.Equal(data, c.Data) {
		return fail("reader %s changes the bytes it reads", c.Reader)
	}
	for _, b := range old {
		if b != 0xa5 {
			return fail("reader %s writes into the bytes the variable held before (input %s)", c.Reader, hexs(c.Data))
		}
	}
	for _, a := range oldOID {
		if a != 0 {
			return fail("reader %s writes into the identifier the variable held before (input %s)", c.Reader, hexs(c.Data))
		}
	}
	if got {
		if cmp != nil {
			if err := cmp(); err != nil {
				return err
			}
		}
		if !bytes.Equal(s, wantRest) {
			return fail("reader %s leaves %s, must leave %s (input %s)", c.Reader, hexs(s), hexs(wantRest), hexs(c.Data))
		}
	}
	return nil
}

// bigArc reports a (possibly unfinished) base-128 number of 5 or more bytes.
func bigArc(c []byte) bool {
	n := 0
	for _, b := range c {
		n++
		if n >= 5 {
			return true
		}
		if b < 128 {
			n = 0
		}
	}
	return false
}

func bitsOK(c []byte) bool {
	if len(c) == 0 || c[0] > 7 {
		return false
	}
	if len(c) == 1 {
		return c[0] == 0
	}
	return c[len(c)-1]&(byte(1)<<c[0]-1) == 0
}

// ---- P37 ----

type stringOp struct {
	Op string
	N  int
}

type stringCase struct {
	Data HB
	Ops  []stringOp
}

func genString(t *rapid.T) stringCase {
	c := stringCase{Data: genBytes(t, "data", 400, 256)}
	if coin(t, "nil", 1, 20) {
		c.Data = nil
	}
	if len(c.Data) > 0 && coin(t, "small", 1, 3) { // small numbers make usable length prefixes
		for i := range c.Data {
			if c.Data[i] > 60 || i%2 == 0 {
				c.Data[i] %= 8
			}
		}
	}
	left := len(c.Data)
	for i := intR(t, "n", 1, 12); i > 0; i-- {
		o := stringOp{Op: pick(t, "op", "skip", "bytes", "copy", "u8", "u16", "u24", "u32", "l8", "l16", "l24", "empty", "skip", "bytes")}
		switch o.Op {
		case "skip", "bytes", "copy":
			o.N = pick(t, "nk", 0, 1, -1, intR(t, "na", 0, 40), left, left+1, left-1, math.MaxInt, math.MinInt, -intR(t, "nn", 1, 400), math.MaxInt32+1, math.MinInt32)
			if o.Op == "copy" && (o.N < 0 || o.N > 1000) {
				o.N = left + 1
			}
			if o.N >= 0 && o.N <= left {
				left -= o.N
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runString(r *Rec, c stringCase) error {
	var g *guard
	s := cryptobyte.String(nil)
	if c.Data != nil {
		g = newGuard(c.Data, 16)
		s = cryptobyte.String(g.b()[:len(c.Data):len(c.Data)])
	}
	model := append([]byte{}, c.Data...)
	take := func(n int) []byte {
		if n < 0 || n > len(model) {
			return nil
		}
		b := model[:n:n]
		model = model[n:]
		return b
	}
	num := func(b []byte) (v uint32) {
		for _, x := range b {
			v = v<<8 | uint32(x)
		}
		return
	}
	fails, reads := 0, 0
	var bytesOut []byte // the same variables for every read
	var child cryptobyte.String
	var kept [][2][]byte
	for i, o := range c.Ops {
		before := len(model)
		var ok, want bool
		var got, exp []byte
		resync := false
		switch o.Op {
		case "skip":
			want = o.N >= 0 && o.N <= len(model)
			take(o.N)
			ok = s.Skip(o.N)
		case "bytes":
			want = o.N >= 0 && o.N <= len(model)
			exp = take(o.N)
			ok = s.ReadBytes(&bytesOut, o.N)
			got = bytesOut
		case "copy":
			want = o.N >= 0 && o.N <= len(model)
			exp = take(o.N)
			got = make([]byte, max(o.N, 0))
			ok = s.CopyBytes(got)
		case "u8", "u16", "u24", "u32":
			n := atoi(o.Op[1:]) / 8
			want = n <= len(model)
			e := num(take(n))
			var v uint32
			switch n {
			case 1:
				var x uint8
				ok = s.ReadUint8(&x)
				v = uint32(x)
			case 2:
				var x uint16
				ok = s.ReadUint16(&x)
				v = uint32(x)
			case 3:
				ok = s.ReadUint24(&v)
			case 4:
				ok = s.ReadUint32(&v)
			}
			if ok && want && v != e {
				return fail("op %d %s reads %d, the bytes say %d", i, o.Op, v, e)
			}
		case "l8", "l16", "l24":
			n := atoi(o.Op[1:]) / 8
			if n <= len(model) {
				l := int(num(model[:n]))
				if l <= len(model)-n {
					want = true
					take(n)
					exp = take(l)
				}
			}
			resync = !want
			switch n {
			case 1:
				ok = s.ReadUint8LengthPrefixed(&child)
			case 2:
				ok = s.ReadUint16LengthPrefixed(&child)
			case 3:
				ok = s.ReadUint24LengthPrefixed(&child)
			}
			got = child
		case "empty":
			if s.Empty() != (len(model) == 0) {
				return fail("op %d: Empty() is %v with %d bytes left", i, s.Empty(), len(model))
			}
			ok, want = true, true
		}
		if ok != want {
			return fail("op %d %s(%d) returns %v with %d bytes left", i, o.Op, o.N, ok, before)
		}
		if ok {
			reads++
			if exp != nil && !bytes.Equal(got, exp) {
				return fail("op %d %s(%d) returns %s, the next bytes are %s", i, o.Op, o.N, hexs(got), hexs(exp))
			}
			kept = append(kept, [2][]byte{got, exp})
		} else {
			fails++
		}
		if resync {
			if len(s) > len(model) || !bytes.Equal(s, model[len(model)-len(s):]) {
				return fail("op %d: after a failed %s the string is not a rest of the input", i, o.Op)
			}
			model = append([]byte{}, s...)
		} else if !bytes.Equal(s, model) {
			return fail("op %d %s(%d): %d bytes are left, must be %d", i, o.Op, o.N, len(s), len(model))
		}
	}
	if g != nil {
		if err := g.check("byte reader"); err != nil {
			return err
		}
	}
	for _, k := range kept {
		if k[1] != nil && !bytes.Equal(k[0], k[1]) {
			return fail("bytes read earlier, %s, became %s", hexs(k[1]), hexs(k[0]))
		}
	}
	if reads > 0 {
		r.NT()
	}
	r.Class("failing requests %v", fails > 0)
	return nil
}

// ---- P38 ----

type fixedCase struct {
	Ops   []BNode
	Mode  int // 0 zero Builder, 1 NewBuilder over a buffer, 2 NewFixedBuilder
	Init  HB
	Spare int
}

func genFixed(t *rapid.T) fixedCase {
	c := fixedCase{Ops: genBuild(coin(t, "errs", 1, 3))(t).Ops, Mode: pick(t, "mode", 0, 1, 2, 2, 2)}
	if c.Mode > 0 {
		c.Init = genBytes(t, "init", 20)
		enc, _ := encodeAll(c.Ops)
		c.Spare = pick(t, "spare", 0, len(enc), len(enc), len(enc)+1, max(0, len(enc)-1), max(0, len(enc)-2), max(0, len(enc)-intR(t, "less", 0, 10)), intR(t, "any", 0, len(enc)+10))
	}
	return c
}

func runFixed(r *Rec, c fixedCase) error {
	const margin = 32
	buf := make([]byte, 8+len(c.Init)+c.Spare+margin)
	for i := range buf {
		buf[i] = byte(0x5A ^ i)
	}
	copy(buf[8:], c.Init)
	orig := append([]byte{}, buf...)
	lo, top := 8+len(c.Init), 8+len(c.Init)+c.Spare
	arg := buf[8:lo:top]
	var b *cryptobyte.Builder
	switch c.Mode {
	case 0:
		b = &cryptobyte.Builder{}
	case 1:
		b = cryptobyte.NewBuilder(arg)
	default:
		b = cryptobyte.NewFixedBuilder(arg)
	}
	want := append([]byte{}, c.Init...)
	if c.Mode == 0 {
		want = nil
	}
	broken := false
	var first error
	var atError []byte // the buffer when the error came
	overflow := false
	for i, n := range c.Ops {
		n.build(b)
		e, werr := n.encode()
		if !broken {
			want = append(want, e...)
			if werr != nil {
				broken, first = true, werr
				if sources([]BNode{n}) != 1 {
					first = errUnknown
				}
			}
			if c.Mode == 2 && len(want) > len(c.Init)+c.Spare {
				broken, overflow, first = true, true, errUnknown
			}
		}
		got, err := b.Bytes()
		if broken != (err != nil) {
			return fail("after operation %d: error %v, expected an error: %v (needs %d bytes, room for %d, mode %d)", i, err, broken, len(want), len(c.Init)+c.Spare, c.Mode)
		}
		if broken && len(got) > 0 {
			return fail("after operation %d (mode %d) the builder gives %s together with the error %v", i, c.Mode, hexs(got), err)
		}
		if broken && atError == nil {
			atError = append([]byte{}, buf...)
		} else if broken && !bytes.Equal(buf, atError) {
			return fail("operation %d (mode %d), after an error, changes the buffer", i, c.Mode)
		}
		if !broken && !bytes.Equal(got, want) {
			return fail("after operation %d (mode %d) the builder holds %s, must be %s", i, c.Mode, hexs(got), hexs(want))
		}
		if broken && first != errUnknown && first != nil && sources(c.Ops) == 1 && err != first {
			return fail("the error is %v, the operation failed with %v", err, first)
		}
		if !broken && c.Mode == 2 && len(got) > 0 && &got[0] != &buf[8] {
			return fail("a fixed-size builder moved to another buffer")
		}
		for j := range buf {
			if (j < lo || j >= top) && buf[j] != orig[j] {
				return fail("after operation %d (mode %d): byte %d of the caller's buffer changed (content %d..%d, capacity end %d)", i, c.Mode, j-8, 0, len(c.Init), top-8)
			}
		}
		if !broken {
			if p := b.BytesOrPanic(); !bytes.Equal(p, got) {
				return fail("BytesOrPanic differs from Bytes")
			}
		} else if !panics(func() { b.BytesOrPanic() }) {
			return fail("BytesOrPanic returns bytes in spite of the error")
		}
	}
	r.NT()
	switch {
	case overflow:
		r.Class("mode %d overflow", c.Mode)
	case broken:
		r.Class("mode %d error", c.Mode)
	default:
		r.Class("mode %d fits", c.Mode)
	}
	return nil
}

// pendingCase: inside the nested prefixes Levels, a write goes to a builder that
// is waiting for one of its children, or the continuation panics.
type pendingCase struct {
	Levels  []pendingLevel
	Top     []BNode // before the first level
	Target  int     // 0 is the outermost builder; len(Levels) the innermost child
	Write   BNode
	Caught  bool // the innermost continuation recovers and goes on
	Foreign bool // it panics itself, with a value of its own
	After   []BNode
	Spare   int // capacity of a fixed builder beyond what is needed; -1 a growing one
}

type pendingLevel struct {
	Kind      string
	Tag       int
	Pre, Post []BNode
}

func genPending(t *rapid.T) pendingCase {
	leaf := func(l string) BNode {
		return pick(t, l, BNode{Kind: "u8", U: 7}, BNode{Kind: "u16", U: 300}, BNode{Kind: "bytes", B: HB("ab")}, BNode{Kind: "int", I: -129}, BNode{Kind: "bool", U: 1}, BNode{Kind: "octets", B: HB("x")},
			BNode{Kind: "bytes", B: bytes.Repeat([]byte{1}, intR(t, l+".n", 1, 140))}, BNode{Kind: "l8", Kids: []BNode{{Kind: "u8", U: 3}}}, BNode{Kind: "asn1", Tag: 0x30})
	}
	few := func(l string) (o []BNode) {
		for i := intR(t, l, 0, 2); i > 0; i-- {
			o = append(o, leaf(l+itoa(i)))
		}
		return
	}
	c := pendingCase{Top: few("top"), Write: leaf("write"), Caught: coin(t, "caught", 2, 3), Foreign: coin(t, "foreign", 1, 5), After: few("after"), Spare: pick(t, "spare", -1, -1, 0, 1, 200)}
	for i := intR(t, "levels", 1, 4); i > 0; i-- {
		l := "l" + itoa(i)
		c.Levels = append(c.Levels, pendingLevel{pick(t, l+".kind", "l8", "l16", "l24", "l32", "asn1"), 0x30, few(l + ".pre"), few(l + ".post")})
	}
	c.Target = intR(t, "target", 0, len(c.Levels))
	if c.Foreign {
		c.Target, c.Caught = 0, false
	}
	return c
}

// tree is the content that must be written; extra is the write that is allowed.
func (c pendingCase) tree() []BNode {
	var in []BNode
	for i := len(c.Levels) - 1; i >= 0; i-- {
		l := c.Levels[i]
		kids := append([]BNode{}, l.Pre...)
		if i == len(c.Levels)-1 && c.Target == len(c.Levels) {
			kids = append(kids, c.Write)
		}
		kids = append(append(kids, in...), l.Post...)
		in = []BNode{{Kind: l.Kind, Tag: l.Tag, Kids: kids}}
	}
	return append(append(append([]BNode{}, c.Top...), in...), c.After...)
}

func runPending(r *Rec, c pendingCase) error {
	want, werr := encodeAll(c.tree())
	if werr != nil {
		r.Class("too long for a prefix")
		return nil
	}
	type mine struct{ n int }
	own := &mine{len(want)}
	b := &cryptobyte.Builder{}
	if c.Spare >= 0 {
		b = cryptobyte.NewFixedBuilder(make([]byte, 0, len(want)+c.Spare+c.room()))
	}
	all := []*cryptobyte.Builder{b}
	legal := c.Target == len(c.Levels)
	refused := false
	var enter func(i int)
	add := func(l []BNode, b *cryptobyte.Builder) {
		for _, n := range l {
			n.build(b)
		}
	}
	enter = func(i int) {
		p, l := all[i], c.Levels[i]
		cont := func(ch *cryptobyte.Builder) {
			all = append(all[:i+1], ch)
			add(l.Pre, ch)
			switch {
			case i < len(c.Levels)-1:
				enter(i + 1)
			case c.Foreign:
				panic(own)
			case legal:
				c.Write.build(ch)
			case c.Caught:
				refused = panics(func() { c.Write.build(all[c.Target]) })
			default:
				c.Write.build(all[c.Target])
			}
			add(l.Post, ch)
		}
		switch l.Kind {
		case "l8":
			p.AddUint8LengthPrefixed(cont)
		case "l16":
			p.AddUint16LengthPrefixed(cont)
		case "l24":
			p.AddUint24LengthPrefixed(cont)
		case "l32":
			p.AddUint32LengthPrefixed(cont)
		default:
			p.AddASN1(gasn1.Tag(l.Tag), cont)
		}
	}
	var got []byte
	var err error
	value := func() (v any) {
		defer func() { v = recover() }()
		add(c.Top, b)
		enter(0)
		add(c.After, b)
		got, err = b.Bytes()
		return nil
	}()
	r.NT()
	if !legal || c.Foreign {
		if c.Foreign {
			r.Class("panic of the caller's own")
			if value != any(own) {
				return fail("a continuation panics with a value of its own; the builder gives %s, %v and the panic %v", hexs(got), err, value)
			}
			return nil
		}
		r.Class("write to a waiting builder, level %d of %d", c.Target, len(c.Levels))
		if !c.Caught {
			if value == nil {
				return fail("a write to a builder waiting for its child is not refused: the builder gives %s, %v", hexs(got), err)
			}
			return nil
		}
		if !refused {
			return fail("a write to a builder waiting for its child is not refused: the builder gives %s, %v", hexs(got), err)
		}
	} else {
		r.Class("allowed")
	}
	if value != nil || err != nil || !bytes.Equal(got, want) {
		return fail("the builder gives %s, error %v, panic %v, must give %s", hexs(got), err, value, hexs(want))
	}
	return nil
}

// room is what a write could add.
func (c pendingCase) room() int { e, _ := c.Write.encode(); return len(e) }

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// ---- tags ----

// tagCase is a tag number (or a tag name), the class bits put on it and a content.
type tagCase struct {
	Name    string `json:",omitempty"`
	N       int
	Con, Cs bool
	B       HB
}

// X.680 8.4: universal tag numbers. SEQUENCE and SET are always constructed.
var namedTags = map[string]struct {
	t gasn1.Tag
	n int
}{
	"BOOLEAN": {gasn1.BOOLEAN, 1}, "INTEGER": {gasn1.INTEGER, 2}, "BIT STRING": {gasn1.BIT_STRING, 3}, "OCTET STRING": {gasn1.OCTET_STRING, 4},
	"NULL": {gasn1.NULL, 5}, "OBJECT IDENTIFIER": {gasn1.OBJECT_IDENTIFIER, 6}, "ENUMERATED": {gasn1.ENUM, 10}, "UTF8String": {gasn1.UTF8String, 12},
	"SEQUENCE": {gasn1.SEQUENCE, 0x30}, "SET": {gasn1.SET, 0x31}, "PrintableString": {gasn1.PrintableString, 19}, "T61String": {gasn1.T61String, 20},
	"IA5String": {gasn1.IA5String, 22}, "UTCTime": {gasn1.UTCTime, 23}, "GeneralizedTime": {gasn1.GeneralizedTime, 24}, "GeneralString": {gasn1.GeneralString, 27},
}

func listTags() (o []tagCase) {
	for n := 0; n < 31; n++ {
		for k := 0; k < 4; k++ {
			o = append(o, tagCase{N: n, Con: k&1 != 0, Cs: k&2 != 0, B: HB{1, byte(n)}}, tagCase{N: n, Con: k&1 != 0, Cs: k&2 != 0})
		}
	}
	for _, name := range sortedKeys(namedTags) {
		for k := 0; k < 4; k++ {
			o = append(o, tagCase{Name: name, N: namedTags[name].n, Con: k&1 != 0, Cs: k&2 != 0, B: HB{3, 0, byte(k)}})
		}
	}
	return
}

func runTag(r *Rec, c tagCase) error {
	t, want := gasn1.Tag(c.N), byte(c.N)
	if c.Name != "" {
		t = namedTags[c.Name].t
		if int(t) != c.N {
			return fail("the tag %s is %d, must be %d", c.Name, t, c.N)
		}
	}
	if c.Con {
		t, want = t.Constructed(), want|0x20
	}
	if c.Cs {
		t, want = t.ContextSpecific(), want|0x80
	}
	if byte(t) != want {
		return fail("tag %s %d, constructed %v, context specific %v is %#x, must be %#x", c.Name, c.N, c.Con, c.Cs, byte(t), want)
	}
	b := &cryptobyte.Builder{}
	b.AddASN1(t, func(b *cryptobyte.Builder) { b.AddBytes(c.B) })
	got, err := b.Bytes()
	exp := append([]byte{want, byte(len(c.B))}, c.B...)
	if err != nil || !bytes.Equal(got, exp) {
		return fail("an element with tag %#x is %s (%v), must be %s", want, hexs(got), err, hexs(exp))
	}
	var out, elem cryptobyte.String
	var rt gasn1.Tag
	s, s2, s3 := cryptobyte.String(got), cryptobyte.String(got), cryptobyte.String(got)
	if !s.PeekASN1Tag(t) || s.PeekASN1Tag(t^1) || s.PeekASN1Tag(t^0x20) || s.PeekASN1Tag(t^0x40) || s.PeekASN1Tag(t^0x80) {
		return fail("PeekASN1Tag is wrong about an element with tag %#x", want)
	}
	if !s.ReadASN1(&out, t) || !bytes.Equal(out, c.B) || len(s) != 0 {
		return fail("reading an element with tag %#x back gives %s", want, hexs(out))
	}
	if !s2.ReadAnyASN1Element(&elem, &rt) || rt != t || !bytes.Equal(elem, exp) {
		return fail("reading any element gives tag %#x and %s, must be %#x and %s", byte(rt), hexs(elem), want, hexs(exp))
	}
	if s3.ReadASN1(&out, t^0x20) || s3.ReadASN1(&out, t^0x80) || s3.ReadASN1(&out, t^1) {
		return fail("an element with tag %#x is read with another tag", want)
	}
	r.NT()
	return nil
}

func bigFill(n int) BNode { return BNode{Kind: "bytes", B: bytes.Repeat([]byte{0x61}, n)} }

func init() {
	seq := func(kids ...BNode) BNode { return BNode{Kind: "asn1", Tag: 0x30, Kids: kids} }
	pre := func(k string, kids ...BNode) BNode { return BNode{Kind: k, Kids: kids} }
	one := func(ns ...BNode) buildCase { return buildCase{Ops: ns} }
	register("P35",
		NewSub("values", "trees of 1-6 values of every kind, nested up to 4 deep, built, compared with the independent encoding and read back; non-trivial: nested or more than 2 values",
			120000, 2000000, genBuild(false), runBuild,
			one(pre("l8", bigFill(255))), one(pre("l8", bigFill(256))), one(pre("l16", bigFill(65535))), one(pre("l16", bigFill(65536))),
			one(pre("l24", bigFill(1<<24-1))), one(pre("l24", bigFill(1<<24))), one(pre("l32", bigFill(1<<24))),
			one(seq(bigFill(127))), one(seq(bigFill(128))), one(seq(bigFill(255))), one(seq(bigFill(256))), one(seq(bigFill(65535))), one(seq(bigFill(65536))),
			one(seq(bigFill(1<<24-1))), one(seq(bigFill(1<<24))), one(seq(seq(seq(bigFill(1<<24)), BNode{Kind: "u8"}), BNode{Kind: "u16", U: 5})),
			one(), one(BNode{Kind: "bytes"})),
		NewSub("errors", "the same with values that cannot be represented (tags, identifiers, years, over-long contents, failing values, raised build errors); non-trivial: an error is due",
			60000, 1000000, genBuild(true), runBuild),
		NewSweep("tags", "every tag number with and without the constructed and context-specific bits, and every named tag, written and read back; non-trivial: all", listTags, runTag))
	register("P36", NewSub("readers", "one typed reader on a generated element: valid values at the ends of every type, non-minimal and malformed contents, structural and byte mutations, trailing bytes; non-trivial: all",
		800000, 12000000, genRead, runRead),
		Slow(NewSub("large", "readers on elements of 65535 to 2^24+300 bytes, complete or cut; non-trivial: all", 160, 4000, genLargeRead, func(r *Rec, c largeRead) error { return c.run(r) }), 120))
	register("P37", NewSub("strings", "1-12 read/skip/copy/length-prefixed requests with sizes from the most negative to the largest int; non-trivial: a request succeeded",
		600000, 8000000, genString, runString,
		stringCase{nil, []stringOp{{"skip", 0}, {"bytes", 0}, {"copy", 0}, {"u8", 0}, {"skip", -1}, {"bytes", math.MinInt}}}),
		Slow(NewSub("large", "requests on strings of 65538 to 2^24+303 bytes with a 24-bit length prefix; non-trivial: a request succeeded", 100, 3000, genLargeString, func(r *Rec, c largeString) error { return c.run(r) }), 120))
	register("P38", NewSub("buffers", "operation trees on a zero, a growing and a fixed-size builder over a guarded buffer with room for about what is needed; checked after every operation; non-trivial: all",
		160000, 2400000, genFixed, runFixed),
		NewSub("pending", "1-4 nested prefixes over growing and fixed builders; from the innermost continuation a value is written to it or to any of the builders waiting for it, or it panics with a value of its own; the panic is caught there or not: refused writes leave the content as it was; non-trivial: all",
			60000, 1000000, genPending, runPending),
		Slow(NewSub("large", "contents around the limits of 16- and 24-bit prefixes and of DER lengths in nested prefixes, over the three kinds of builder with just enough or too little room; non-trivial: all", 60, 2000, genLargeBuild, func(r *Rec, c largeBuild) error { return c.run(r) }), 120))
}

// ---- large inputs ----

// largeRead is a reader on an element with a long content.
type largeRead struct {
	Reader string
	Tag    int
	Len    int // of the content
	Short  int // bytes missing at the end
	Rest   int
}

var largeReaders = []string{"octets", "any", "anyelem", "asn1", "elem", "skip", "opt", "skipopt", "optoct", "bits", "bitbytes"}

func (c largeRead) run(r *Rec) error {
	content := make([]byte, c.Len)
	for i := range content {
		content[i] = byte(i>>8) ^ byte(i)
	}
	tag, ok := readerTag[c.Reader]
	if !ok {
		tag = c.Tag
	}
	if tag == 3 {
		content[0] = 0
	}
	rc := readCase{Reader: c.Reader, Tag: tag, Data: ref.TLV(byte(tag), content)}
	if c.Reader == "optoct" {
		rc.Tag = 0xa1
		rc.Data = ref.TLV(0xa1, ref.TLV(4, content))
	}
	rc.Data = append(rc.Data[:len(rc.Data)-c.Short], make([]byte, c.Rest)...)
	return runRead(r, rc)
}

var largeLens = []int{65535, 65536, 65537, 70000, 1 << 20, 1<<23 - 1, 1 << 23, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 300}

func genLargeRead(t *rapid.T) largeRead {
	c := largeRead{Reader: pick(t, "reader", largeReaders...), Tag: pick(t, "tag", 0x30, 4, 0xa0, 0x80), Len: pick(t, "len", largeLens...), Rest: intR(t, "rest", 0, 3)}
	if coin(t, "short", 1, 5) {
		c.Short, c.Rest = intR(t, "missing", 1, 70), 0
	}
	return c
}

// largeString is a sequence of requests on a long string that starts with its
// own length in 3 bytes.
type largeString struct {
	Len, Prefix int
	Ops         []stringOp
}

func genLargeString(t *rapid.T) largeString {
	c := largeString{Len: pick(t, "len", largeLens...)}
	c.Prefix = c.Len + pick(t, "off", 0, 0, 0, -1, 1, -2, -300)
	for i := intR(t, "n", 0, 2); i > 0; i-- {
		c.Ops = append(c.Ops, stringOp{Op: pick(t, "op", "u8", "skip", "bytes", "empty"), N: 0})
	}
	c.Ops = append(c.Ops, stringOp{Op: pick(t, "main", "l24", "l24", "skip", "bytes", "copy"), N: c.Prefix + 3}, stringOp{Op: "bytes", N: pick(t, "after", 0, 1, 2, 300, c.Len/2)}, stringOp{Op: "empty"})
	return c
}

func (c largeString) run(r *Rec) error {
	d := make([]byte, 3+c.Len)
	for i := range d {
		d[i] = byte(i>>8) ^ byte(i)
	}
	d[0], d[1], d[2] = byte(c.Prefix>>16), byte(c.Prefix>>8), byte(c.Prefix)
	return runString(r, stringCase{d, c.Ops})
}

// largeBuild wraps many bytes in nested prefixes, over any kind of builder.
type largeBuild struct {
	Len   int
	Wraps []string // from the inside out
	Mode  int
	Spare int // bytes of room more than needed
	After bool
}

func genLargeBuild(t *rapid.T) largeBuild {
	c := largeBuild{Len: pick(t, "len", 65533, 65534, 65535, 65536, 1<<24-2, 1<<24-1, 1<<24, 1<<24+1), Mode: intR(t, "mode", 0, 2), Spare: pick(t, "spare", -3, -2, -1, 0, 0, 1, 2), After: coin(t, "after", 1, 2)}
	for i := intR(t, "wraps", 1, 2); i > 0; i-- {
		c.Wraps = append(c.Wraps, pick(t, "w", "l16", "l24", "l32", "asn1", "asn1"))
	}
	return c
}

func (c largeBuild) run(r *Rec) error {
	n := bigFill(c.Len)
	for _, w := range c.Wraps {
		n = BNode{Kind: w, Tag: 0x30, Kids: []BNode{n}}
	}
	f := fixedCase{Ops: []BNode{n}, Mode: c.Mode}
	if c.After {
		f.Ops = append(f.Ops, BNode{Kind: "u8", U: 7})
	}
	enc, err := encodeAll(f.Ops)
	if err != nil {
		enc = make([]byte, c.Len+20) // room enough: the prefix is what fails
	}
	if c.Mode > 0 {
		f.Spare = max(0, len(enc)+c.Spare)
	}
	return runFixed(r, f)
}
