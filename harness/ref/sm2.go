package ref

import (
	"bytes"
	"encoding/binary"
	"math/big"
)

// DefaultID is the identity GB/T 32918.5 uses in its examples and the library
// documents as its default.
var DefaultID = []byte("1234567812345678")

func b32(n *big.Int) []byte { b := make([]byte, 32); n.FillBytes(b); return b }

// Cat concatenates.
func Cat(xs ...[]byte) []byte { return bytes.Join(xs, nil) }

// Z is the identity digest of GB/T 32918.2 5.5.
func Z(id []byte, pub Pt) []byte {
	h := SM3(Cat(binary.BigEndian.AppendUint16(nil, uint16(len(id)*8)), id, b32(A), b32(B), b32(Gx), b32(Gy), b32(pub.X), b32(pub.Y)))
	return h[:]
}

// E is the message representative.
func E(id []byte, pub Pt, msg []byte) *big.Int {
	h := SM3(append(Z(id, pub), msg...))
	return new(big.Int).SetBytes(h[:])
}

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, N) }

// SignK signs with nonce k; ok is false when the standard demands a new nonce.
func SignK(d *big.Int, id, msg []byte, k *big.Int) (r, s *big.Int, ok bool) {
	pub := MulG(d)
	e := E(id, pub, msg)
	r = mod(new(big.Int).Add(e, MulG(k).X))
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(N) == 0 {
		return nil, nil, false
	}
	inv := new(big.Int).ModInverse(new(big.Int).Add(d, one), N)
	s = new(big.Int).Sub(k, new(big.Int).Mul(r, d))
	s = mod(s.Mul(mod(s), inv))
	return r, s, s.Sign() != 0
}

// Verify is the verification of GB/T 32918.2 7.1 with public key validation.
func Verify(x, y *big.Int, id, msg []byte, r, s *big.Int) bool {
	if !OnCurve(x, y) || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	pub := Pt{X: x, Y: y}
	t := mod(new(big.Int).Add(r, s))
	if t.Sign() == 0 {
		return false
	}
	q := AddPt(MulG(s), Mul(pub, t))
	if q.Inf {
		return false
	}
	return mod(new(big.Int).Add(E(id, pub, msg), q.X)).Cmp(r) == 0
}

// Nonce recovers k from a signature: s = (k - r d)/(1+d), k = s(1+d) + r d.
func Nonce(d, r, s *big.Int) *big.Int {
	k := new(big.Int).Mul(s, new(big.Int).Add(d, one))
	k.Add(k, new(big.Int).Mul(r, d))
	return mod(k)
}

// Layout of a ciphertext.
const (
	C1C2C3 = 1
	C1C3C2 = 2
)

// EncryptK encrypts with nonce k; ok is false when the standard demands a new
// nonce (mask all zero for a non-empty message).
func EncryptK(pub Pt, m []byte, k *big.Int, layout int) (ct []byte, ok bool) {
	return EncryptAt(MulG(k), Mul(pub, k), m, layout)
}

// EncryptAt encrypts with the given ephemeral and shared points.
func EncryptAt(c1, sh Pt, m []byte, layout int) (ct []byte, ok bool) {
	t := KDF(Cat(b32(sh.X), b32(sh.Y)), len(m))
	zero := len(m) > 0
	c2 := make([]byte, len(m))
	for i := range m {
		if t[i] != 0 {
			zero = false
		}
		c2[i] = m[i] ^ t[i]
	}
	h := SM3(Cat(b32(sh.X), m, b32(sh.Y)))
	c1b := Cat([]byte{4}, b32(c1.X), b32(c1.Y))
	if layout == C1C2C3 {
		return Cat(c1b, c2, h[:]), !zero
	}
	return Cat(c1b, h[:], c2), !zero
}

// Mask is the key stream of a (pub, k, n) encryption.
func Mask(pub Pt, k *big.Int, n int) []byte {
	sh := Mul(pub, k)
	return KDF(Cat(b32(sh.X), b32(sh.Y)), n)
}

// Decrypt is GB/T 32918.4 decryption.
func Decrypt(d *big.Int, ct []byte, layout int) ([]byte, bool) {
	if len(ct) < 97 || ct[0] != 4 {
		return nil, false
	}
	c1 := Pt{X: new(big.Int).SetBytes(ct[1:33]), Y: new(big.Int).SetBytes(ct[33:65])}
	if !OnCurve(c1.X, c1.Y) {
		return nil, false
	}
	var c2, c3 []byte
	if layout == C1C2C3 {
		c2, c3 = ct[65:len(ct)-32], ct[len(ct)-32:]
	} else {
		c3, c2 = ct[65:97], ct[97:]
	}
	sh := Mul(c1, d)
	if sh.Inf {
		return nil, false
	}
	t := KDF(Cat(b32(sh.X), b32(sh.Y)), len(c2))
	m := make([]byte, len(c2))
	for i := range m {
		m[i] = c2[i] ^ t[i]
	}
	h := SM3(Cat(b32(sh.X), m, b32(sh.Y)))
	return m, bytes.Equal(h[:], c3)
}

// Party is one side of a key exchange.
type Party struct {
	ID   []byte
	D, R *big.Int // static and ephemeral private keys
}

// XBar is 2^127 + (x mod 2^127).
func XBar(x *big.Int) *big.Int { return xbar(x) }

func xbar(x *big.Int) *big.Int {
	w := new(big.Int).Lsh(one, 127)
	m := new(big.Int).Sub(w, one)
	return new(big.Int).Add(w, m.And(m, x))
}

// KXResult is the outcome of a key exchange.
type KXResult struct {
	Inf         bool
	Key, S1, S2 []byte
	U           Pt
}

// KX computes GB/T 32918.3 with initiator a and responder b from the
// initiator's private keys and the responder's points.
func KX(aID []byte, aD, aR *big.Int, bID []byte, pb, rb Pt, bits int) KXResult {
	pa, ra := MulG(aD), MulG(aR)
	t := mod(new(big.Int).Add(aD, new(big.Int).Mul(xbar(ra.X), aR)))
	u := Mul(AddPt(pb, Mul(rb, xbar(rb.X))), t)
	if u.Inf {
		return KXResult{Inf: true}
	}
	return KXAt(u, aID, pa, ra, bID, pb, rb, bits)
}

// KXAt is the outcome for initiator a, responder b and the shared point u.
func KXAt(u Pt, aID []byte, pa, ra Pt, bID []byte, pb, rb Pt, bits int) KXResult {
	za, zb := Z(aID, pa), Z(bID, pb)
	key := KDF(Cat(b32(u.X), b32(u.Y), za, zb), (bits+7)/8)
	in := SM3(Cat(b32(u.X), za, zb, b32(ra.X), b32(ra.Y), b32(rb.X), b32(rb.Y)))
	s1 := SM3(Cat([]byte{2}, b32(u.Y), in[:]))
	s2 := SM3(Cat([]byte{3}, b32(u.Y), in[:]))
	return KXResult{Key: key, S1: s1[:], S2: s2[:], U: u}
}

// SharedFactor returns t = d + xbar(R)*r mod n of one party.
func SharedFactor(d, r *big.Int) *big.Int {
	ra := MulG(r)
	return mod(new(big.Int).Add(d, new(big.Int).Mul(xbar(ra.X), r)))
}

// StaticForFactor returns the static private key that gives factor t together
// with ephemeral key r.
func StaticForFactor(t, r *big.Int) *big.Int {
	ra := MulG(r)
	return mod(new(big.Int).Sub(t, new(big.Int).Mul(xbar(ra.X), r)))
}
