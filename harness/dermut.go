package main

import (
	"gmverif/ref"

	"pgregory.net/rapid"
)

// node is an editable BER tree.
type node struct {
	tag     byte
	kids    []*node
	content []byte // leaf
	raw     []byte // when set, replaces the whole encoding
	lenForm int    // 0 minimal, 1 one extra length byte, 2 two extra, 3 indefinite
	wrap    byte   // 0 none; 3 or 4: kids are the inner content of a BIT/OCTET STRING
}

func parseNodes(b []byte, depth int) ([]*node, bool) {
	var out []*node
	for len(b) > 0 {
		tag, c, _, rest, ok := ref.ReadTLV(b)
		if !ok {
			return nil, false
		}
		n := &node{tag: tag, content: c}
		if tag&0x20 != 0 && depth > 0 {
			if kids, ok := parseNodes(c, depth-1); ok {
				n.kids = kids
			}
		} else if (tag == 4 || tag == 3 && len(c) > 0 && c[0] == 0) && depth > 0 {
			in := c
			if tag == 3 {
				in = c[1:]
			}
			if len(in) > 1 && in[0] == 0x30 {
				if kids, ok := parseNodes(in, depth-1); ok {
					n.kids, n.wrap = kids, tag
				}
			}
		}
		out = append(out, n)
		b = rest
	}
	return out, true
}

func (n *node) encode() []byte {
	if n.raw != nil {
		return n.raw
	}
	c := n.content
	if n.kids != nil {
		c = nil
		if n.wrap == 3 {
			c = []byte{0}
		}
		for _, k := range n.kids {
			c = append(c, k.encode()...)
		}
	}
	l := ref.DERLen(len(c))
	switch n.lenForm {
	case 1, 2:
		var b []byte
		for x := len(c); x > 0; x >>= 8 {
			b = append([]byte{byte(x)}, b...)
		}
		for i := 0; i < n.lenForm; i++ {
			if i == 0 && len(c) < 128 && len(b) > 0 && n.lenForm == 1 {
				continue // 0x81 for a short length is already non-minimal
			}
			b = append([]byte{0}, b...)
		}
		if len(b) == 0 {
			b = []byte{0}
		}
		l = append([]byte{0x80 | byte(len(b))}, b...)
	case 3:
		return ref.Cat([]byte{n.tag, 0x80}, c, []byte{0, 0})
	}
	return ref.Cat([]byte{n.tag}, l, c)
}

func collect(ns []*node, out *[]*node) {
	for _, n := range ns {
		*out = append(*out, n)
		collect(n.kids, out)
	}
}

// mutateDER applies one generated structural or byte-level change to der.
func mutateDER(t *rapid.T, l string, der []byte) []byte {
	kind := intR(t, l+".kind", 0, 16)
	if kind <= 3 || len(der) == 0 {
		return mutateBytes(t, l, der)
	}
	roots, ok := parseNodes(der, 12)
	if !ok || len(roots) == 0 {
		return mutateBytes(t, l, der)
	}
	var all []*node
	collect(roots, &all)
	n := all[intR(t, l+".node", 0, len(all)-1)]
	touch := func(c []byte) { n.kids, n.content, n.wrap = nil, c, 0 }
	inner := n.encode
	switch kind {
	case 4:
		n.lenForm = intR(t, l+".form", 1, 3)
	case 5:
		n.tag = pick(t, l+".tag", n.tag^0x20, n.tag^0x80, n.tag^0x40, n.tag^0x01, 2, 3, 4, 5, 6, 0x0a, 0x0c, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1e, 0x30, 0x31, 0x80, 0xa0, 0xa1, 0xa3, 0x1f, 0)
	case 6: // non-minimal content
		touch(append([]byte{pick(t, l+".pad", byte(0), byte(0xff), byte(0x80))}, contentOf(n)...))
	case 7:
		n.raw = append([]byte{}, inner()...)
		n.raw = append(n.raw, inner()...) // duplicated element
	case 8:
		n.raw = []byte{} // removed element
	case 9: // extra element behind
		extra := pick(t, l+".extra", []byte{5, 0}, []byte{2, 1, 0}, []byte{0}, []byte{0, 0}, []byte{4, 0}, []byte{0x30, 0}, []byte{1, 1, 0xff}, []byte{0xff})
		n.raw = ref.Cat(inner(), extra)
	case 10: // trailing content inside
		touch(append(append([]byte{}, contentOf(n)...), genFill(t, l+".tail", intR(t, l+".taillen", 1, 3))...))
	case 11:
		c := contentOf(n)
		if len(c) > 0 {
			c = c[:intR(t, l+".cut", 0, len(c)-1)]
		}
		touch(append([]byte{}, c...))
	case 12:
		touch(genFill(t, l+".new", intR(t, l+".newlen", 0, 40)))
	case 13: // change content bytes, keep the structure
		c := append([]byte{}, contentOf(n)...)
		if len(c) > 0 {
			c[intR(t, l+".pos", 0, len(c)-1)] = byte(intR(t, l+".val", 0, 255))
		}
		touch(c)
	case 14: // swap with another node
		m := all[intR(t, l+".other", 0, len(all)-1)]
		a, b := append([]byte{}, n.encode()...), append([]byte{}, m.encode()...)
		n.raw, m.raw = b, a
	case 15: // copy another node here
		n.raw = append([]byte{}, all[intR(t, l+".from", 0, len(all)-1)].encode()...)
	case 16:
		touch(nil)
	}
	var out []byte
	for _, r := range roots {
		out = append(out, r.encode()...)
	}
	return out
}

func contentOf(n *node) []byte {
	if n.kids == nil {
		return n.content
	}
	var c []byte
	if n.wrap == 3 {
		c = []byte{0}
	}
	for _, k := range n.kids {
		c = append(c, k.encode()...)
	}
	return c
}

// mutateBytes applies one byte-level change.
func mutateBytes(t *rapid.T, l string, in []byte) []byte {
	b := append([]byte{}, in...)
	switch intR(t, l+".bk", 0, 6) {
	case 0:
		if len(b) > 0 {
			return flipBit(b, intR(t, l+".bit", 0, 8*len(b)-1))
		}
	case 1:
		if len(b) > 0 {
			return b[:intR(t, l+".trunc", 0, len(b)-1)]
		}
	case 2:
		return append(b, genFill(t, l+".ext", intR(t, l+".extlen", 1, 4))...)
	case 3:
		if len(b) > 0 {
			b[intR(t, l+".pos", 0, len(b)-1)] = pick(t, l+".v", byte(0), byte(0xff), byte(0x80), byte(0x7f), byte(0x81), byte(0x82), byte(0x84), byte(1), byte(0x30))
			return b
		}
	case 4:
		i := intR(t, l+".ins", 0, len(b))
		return ref.Cat(b[:i], genFill(t, l+".insb", intR(t, l+".inslen", 1, 3)), b[i:])
	case 5:
		if len(b) > 0 {
			i := intR(t, l+".del", 0, len(b)-1)
			return append(b[:i:i], b[i+1:]...)
		}
	case 6:
		if len(b) > 1 { // repeat a slice
			i := intR(t, l+".from", 0, len(b)-1)
			j := intR(t, l+".to", i, min(len(b), i+40))
			return ref.Cat(b[:j], b[i:j], b[j:])
		}
	}
	return append(b, 0)
}
