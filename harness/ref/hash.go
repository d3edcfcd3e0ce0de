// Package ref holds independent reference models of the standards the library
// implements. Nothing here is derived from, or shares code with, /repo: SM3
// follows the text of GB/T 32905, SM4 derives its S-box algebraically, the
// curve arithmetic is its own 4x64-bit Montgomery implementation and DER is
// written out by hand.
package ref

import (
	"encoding/binary"
	"math/bits"
)

// SM3 follows GB/T 32905-2016 section 5 literally on the whole message.
func SM3(m []byte) [32]byte {
	l := uint64(len(m)) * 8
	p := append([]byte{}, m...)
	p = append(p, 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	p = binary.BigEndian.AppendUint64(p, l)
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	for ; len(p) > 0; p = p[64:] {
		v = sm3cf(v, p[:64])
	}
	var out [32]byte
	for i, x := range v {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return out
}

func sm3cf(v [8]uint32, b []byte) [8]uint32 {
	rol := bits.RotateLeft32
	P0 := func(x uint32) uint32 { return x ^ rol(x, 9) ^ rol(x, 17) }
	P1 := func(x uint32) uint32 { return x ^ rol(x, 15) ^ rol(x, 23) }
	var w [68]uint32
	var w1 [64]uint32
	for i := 0; i < 16; i++ {
		w[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	for j := 16; j <= 67; j++ {
		w[j] = P1(w[j-16]^w[j-9]^rol(w[j-3], 15)) ^ rol(w[j-13], 7) ^ w[j-6]
	}
	for j := 0; j <= 63; j++ {
		w1[j] = w[j] ^ w[j+4]
	}
	s := v
	for j := 0; j <= 63; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := rol(rol(s[0], 12)+s[4]+rol(t, j%32), 7)
		ss2 := ss1 ^ rol(s[0], 12)
		var ff, gg uint32
		if j < 16 {
			ff = s[0] ^ s[1] ^ s[2]
			gg = s[4] ^ s[5] ^ s[6]
		} else {
			ff = (s[0] & s[1]) | (s[0] & s[2]) | (s[1] & s[2])
			gg = (s[4] & s[5]) | (^s[4] & s[6])
		}
		tt1 := ff + s[3] + ss2 + w1[j]
		tt2 := gg + s[7] + ss1 + w[j]
		s[3], s[2], s[1], s[0] = s[2], rol(s[1], 9), s[0], tt1
		s[7], s[6], s[5], s[4] = s[6], rol(s[5], 19), s[4], P0(tt2)
	}
	for i := range s {
		s[i] ^= v[i]
	}
	return s
}

// HMACSM3 is RFC 2104 over SM3 with B = 64.
func HMACSM3(key, m []byte) []byte {
	if len(key) > 64 {
		h := SM3(key)
		key = h[:]
	}
	ip, op := make([]byte, 64), make([]byte, 64)
	copy(ip, key)
	copy(op, key)
	for i := range ip {
		ip[i] ^= 0x36
		op[i] ^= 0x5c
	}
	in := SM3(append(ip, m...))
	out := SM3(append(op, in[:]...))
	return out[:]
}

// KDF is the key derivation function of GB/T 32918.3 5.4.3 with SM3.
func KDF(z []byte, n int) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		h := SM3(binary.BigEndian.AppendUint32(append([]byte{}, z...), ct))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// SBox is the SM4 S-box, S(x) = A*(A*x+C)^-1+C over GF(2^8)/0x1F5.
var SBox [256]byte

func gfmul(a, b byte) byte {
	var r byte
	for b != 0 {
		if b&1 != 0 {
			r ^= a
		}
		hi := a & 0x80
		a <<= 1
		if hi != 0 {
			a ^= 0xF5
		}
		b >>= 1
	}
	return r
}

func gfinv(a byte) byte { // a^254
	r := byte(1)
	for i := 0; i < 254; i++ {
		r = gfmul(r, a)
	}
	return r
}

func affine(x byte) byte {
	var y byte
	for i := 0; i < 8; i++ {
		row := bits.RotateLeft8(0xa7, i)
		y |= byte(bits.OnesCount8(row&x)&1) << i
	}
	return y ^ 0xd3
}

func init() {
	for i := range SBox {
		SBox[i] = affine(gfinv(affine(byte(i))))
	}
}

func sm4tau(x uint32) uint32 {
	return uint32(SBox[x>>24])<<24 | uint32(SBox[x>>16&255])<<16 | uint32(SBox[x>>8&255])<<8 | uint32(SBox[x&255])
}

// SM4Key is the expanded key.
type SM4Key [32]uint32

// NewSM4 follows GB/T 32907-2016 section 7.3.
func NewSM4(key []byte) *SM4Key {
	fk := [4]uint32{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}
	var k [36]uint32
	for i := 0; i < 4; i++ {
		k[i] = binary.BigEndian.Uint32(key[4*i:]) ^ fk[i]
	}
	var rk SM4Key
	for i := 0; i < 32; i++ {
		var ck uint32
		for j := 0; j < 4; j++ {
			ck = ck<<8 | uint32((4*i+j)*7%256)
		}
		b := sm4tau(k[i+1] ^ k[i+2] ^ k[i+3] ^ ck)
		k[i+4] = k[i] ^ b ^ bits.RotateLeft32(b, 13) ^ bits.RotateLeft32(b, 23)
		rk[i] = k[i+4]
	}
	return &rk
}

func (rk *SM4Key) block(in []byte, dec bool) []byte {
	var x [36]uint32
	for i := 0; i < 4; i++ {
		x[i] = binary.BigEndian.Uint32(in[4*i:])
	}
	for i := 0; i < 32; i++ {
		k := rk[i]
		if dec {
			k = rk[31-i]
		}
		b := sm4tau(x[i+1] ^ x[i+2] ^ x[i+3] ^ k)
		x[i+4] = x[i] ^ b ^ bits.RotateLeft32(b, 2) ^ bits.RotateLeft32(b, 10) ^ bits.RotateLeft32(b, 18) ^ bits.RotateLeft32(b, 24)
	}
	out := make([]byte, 16)
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint32(out[4*i:], x[35-i])
	}
	return out
}

func (rk *SM4Key) Enc(in []byte) []byte { return rk.block(in, false) }
func (rk *SM4Key) Dec(in []byte) []byte { return rk.block(in, true) }

func SM4ECB(key, in []byte, dec bool) []byte {
	k := NewSM4(key)
	var out []byte
	for i := 0; i < len(in); i += 16 {
		out = append(out, k.block(in[i:i+16], dec)...)
	}
	return out
}

func SM4CBC(key, iv, in []byte, dec bool) []byte {
	k := NewSM4(key)
	var out []byte
	prev := iv
	for i := 0; i < len(in); i += 16 {
		b := make([]byte, 16)
		if dec {
			d := k.Dec(in[i : i+16])
			for j := range b {
				b[j] = d[j] ^ prev[j]
			}
			prev = in[i : i+16]
		} else {
			for j := range b {
				b[j] = in[i+j] ^ prev[j]
			}
			b = k.Enc(b)
			prev = b
		}
		out = append(out, b...)
	}
	return out
}
