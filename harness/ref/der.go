package ref

import (
	"encoding/binary"
	"math/big"
)

// TLV encodes one DER element with a single-byte tag.
func TLV(tag byte, content ...[]byte) []byte {
	c := Cat(content...)
	return Cat([]byte{tag}, DERLen(len(c)), c)
}

// DERLen is the minimal definite length encoding.
func DERLen(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	b := binary.BigEndian.AppendUint64(nil, uint64(n))
	for b[0] == 0 {
		b = b[1:]
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// Seq is a SEQUENCE.
func Seq(content ...[]byte) []byte { return TLV(0x30, content...) }

// Octets is an OCTET STRING.
func Octets(b []byte) []byte { return TLV(4, b) }

// IntBytes is the minimal two's complement form of n.
func IntBytes(n *big.Int) []byte {
	if n.Sign() >= 0 {
		b := n.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	// smallest k with n >= -2^(8k-1)
	k := 1
	for new(big.Int).Neg(n).Cmp(new(big.Int).Lsh(one, uint(8*k-1))) > 0 {
		k++
	}
	b := new(big.Int).Add(n, new(big.Int).Lsh(one, uint(8*k))).Bytes()
	for len(b) < k {
		b = append([]byte{0}, b...)
	}
	return b
}

// Int is an INTEGER.
func Int(n *big.Int) []byte { return TLV(2, IntBytes(n)) }

// Bool is a BOOLEAN.
func Bool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}

// OIDBytes is the content of an OBJECT IDENTIFIER.
func OIDBytes(arcs ...int) []byte {
	var out []byte
	put := func(n uint64) {
		b := []byte{byte(n & 127)}
		for n >>= 7; n > 0; n >>= 7 {
			b = append([]byte{byte(n&127) | 128}, b...)
		}
		out = append(out, b...)
	}
	put(uint64(arcs[0])*40 + uint64(arcs[1]))
	for _, a := range arcs[2:] {
		put(uint64(a))
	}
	return out
}

// OID is an OBJECT IDENTIFIER.
func OID(arcs ...int) []byte { return TLV(6, OIDBytes(arcs...)) }

// BitString is a BIT STRING without unused bits.
func BitString(b []byte) []byte { return TLV(3, []byte{0}, b) }

// ReadTLV splits the first DER element (tag number below 31, minimal definite
// length) off b.
func ReadTLV(b []byte) (tag byte, content, full, rest []byte, ok bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return
	}
	n, h := int(b[1]), 2
	if n >= 128 {
		k := n & 127
		if k == 0 || k > 4 || len(b) < 2+k || b[2] == 0 {
			return
		}
		n = 0
		for _, x := range b[2 : 2+k] {
			n = n<<8 | int(x)
		}
		if n < 128 {
			return
		}
		h += k
	}
	if n > len(b)-h {
		return
	}
	return b[0], b[h : h+n], b[:h+n], b[h+n:], true
}

// ReadInt decodes the content of a DER INTEGER.
func ReadInt(c []byte) (*big.Int, bool) {
	if len(c) == 0 {
		return nil, false
	}
	if len(c) > 1 && (c[0] == 0 && c[1] < 128 || c[0] == 0xff && c[1] >= 128) {
		return nil, false
	}
	n := new(big.Int).SetBytes(c)
	if c[0] >= 128 {
		n.Sub(n, new(big.Int).Lsh(one, uint(8*len(c))))
	}
	return n, true
}

// ReadOID decodes the content of an OBJECT IDENTIFIER; arcs must fit 63 bits.
func ReadOID(c []byte) ([]int, bool) {
	if len(c) == 0 {
		return nil, false
	}
	var arcs []int
	for len(c) > 0 {
		if c[0] == 0x80 {
			return nil, false
		}
		n, i := 0, 0
		for {
			if i >= len(c) || i > 8 {
				return nil, false
			}
			n = n<<7 | int(c[i]&127)
			i++
			if c[i-1] < 128 {
				break
			}
		}
		c = c[i:]
		if arcs == nil {
			switch {
			case n < 40:
				arcs = []int{0, n}
			case n < 80:
				arcs = []int{1, n - 40}
			default:
				arcs = []int{2, n - 80}
			}
			continue
		}
		arcs = append(arcs, n)
	}
	return arcs, true
}

// ReadSeq requires b to be exactly one SEQUENCE and splits its elements.
func ReadSeq(b []byte) (elems [][]byte, ok bool) {
	tag, c, _, rest, ok := ReadTLV(b)
	if !ok || tag != 0x30 || len(rest) != 0 {
		return nil, false
	}
	return SplitAll(c)
}

// SplitAll splits c into DER elements.
func SplitAll(c []byte) (elems [][]byte, ok bool) {
	for len(c) > 0 {
		_, _, full, rest, ok := ReadTLV(c)
		if !ok {
			return nil, false
		}
		elems = append(elems, full)
		c = rest
	}
	return elems, true
}

// ReadSig decodes exactly SEQUENCE { INTEGER, INTEGER }.
func ReadSig(b []byte) (r, s *big.Int, ok bool) {
	e, ok := ReadSeq(b)
	if !ok || len(e) != 2 {
		return nil, nil, false
	}
	var v [2]*big.Int
	for i := range v {
		tag, c, _, _, _ := ReadTLV(e[i])
		if tag != 2 {
			return nil, nil, false
		}
		if v[i], ok = ReadInt(c); !ok {
			return nil, nil, false
		}
	}
	return v[0], v[1], true
}
