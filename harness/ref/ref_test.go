package ref

import (
	"encoding/hex"
	"math/big"
	"math/rand"
	"testing"
)

func TestVectors(t *testing.T) {
	h := SM3([]byte("abc"))
	if hex.EncodeToString(h[:]) != "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0" {
		t.Fatal("sm3")
	}
	h = SM3(nil)
	if hex.EncodeToString(h[:]) != "1ab21d8355cfa17f8e61194831e81a8f22bec8c728fefb747ed035eb5082aa2b" {
		t.Fatal("sm3 empty")
	}
	key, _ := hex.DecodeString("0123456789abcdeffedcba9876543210")
	x := key
	k := NewSM4(key)
	if hex.EncodeToString(k.Enc(x)) != "681edf34d206965e86b3e94f536e4246" {
		t.Fatal("sm4", hex.EncodeToString(SBox[:16]))
	}
	for i := 0; i < 1000000; i++ {
		x = k.Enc(x)
	}
	if hex.EncodeToString(x) != "595298c7c6fd271f0402f804c33d3f66" {
		t.Fatal("sm4 1M")
	}
	// GB/T 32918.5 annex A.
	d := hx("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	pub := MulG(d)
	if pub.X.Cmp(hx("09F9DF311E5421A150DD7D161E4BC5C672179FAD1833FC076BB08FF356F35020")) != 0 {
		t.Fatal("pub")
	}
	r, s, ok := SignK(d, DefaultID, []byte("message digest"), hx("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21"))
	if !ok || r.Cmp(hx("F5A03B0648D2C4630EEAC513E1BB81A15944DA3827D5B74143AC7EACEEE720B3")) != 0 || s.Cmp(hx("B1B6AA29DF212FD8763182BC0D421CA1BB9038FD1F7F42D4840B69C485BBC1AA")) != 0 {
		t.Fatal("sign")
	}
	if !Verify(pub.X, pub.Y, DefaultID, []byte("message digest"), r, s) {
		t.Fatal("verify")
	}
	if Nonce(d, r, s).Cmp(hx("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")) != 0 {
		t.Fatal("nonce")
	}
	ct, _ := EncryptK(pub, []byte("encryption standard"), hx("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21"), C1C3C2)
	if hex.EncodeToString(ct) != "0404ebfc718e8d1798620432268e77feb6415e2ede0e073c0f4f640ecd2e149a73e858f9d81e5430a57b36daab8f950a3c64e6ee6a63094d99283aff767e124df059983c18f809e262923c53aec295d30383b54e39d609d160afcb1908d0bd876621886ca989ca9c7d58087307ca93092d651efa" {
		t.Fatal("enc", hex.EncodeToString(ct))
	}
	// key exchange, annex B
	a := Party{DefaultID, hx("81EB26E941BB5AF16DF116495F90695272AE2CD63D6C4AE1678418BE48230029"), hx("D4DE15474DB74D06491C440D305E012400990F3E390C7E87153C12DB2EA60BB3")}
	b := Party{DefaultID, hx("785129917D45A9EA5437A59356B82338EAADDA6CEB199088F14AE10DEFA229B5"), hx("7E07124814B309489125EAED101113164EBF0F3458C5BD88335C1F9D596243D6")}
	k1 := KX(a.ID, a.D, a.R, b.ID, MulG(b.D), MulG(b.R), 128)
	if hex.EncodeToString(k1.Key) != "6c89347354de2484c60b4ab1fde4c6e5" {
		t.Fatal("kx", hex.EncodeToString(k1.Key))
	}
	if hex.EncodeToString(k1.S1) != "d3a0fe15dee185ceae907a6b595cc32a266ed7b3367e9983a896dc32fa20f8eb" || hex.EncodeToString(k1.S2) != "18c7894b3816df16cf07b05c5ec0bef5d655d58f779cc1b400a4f3884644db88" {
		t.Fatal("kx tags", hex.EncodeToString(k1.S1), hex.EncodeToString(k1.S2))
	}
}

func TestField(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for i := 0; i < 20000; i++ {
		a := new(big.Int).Rand(rnd, P)
		b := new(big.Int).Rand(rnd, P)
		if i%3 == 0 {
			a.Sub(P, big.NewInt(int64(i+1)))
		}
		if i%5 == 0 {
			b.Sub(P, big.NewInt(int64(i+1)))
		}
		m := mul(toMont(a), toMont(b)).out()
		if w := new(big.Int).Mod(new(big.Int).Mul(a, b), P); w.Cmp(m) != 0 {
			t.Fatal(a, b)
		}
		if w := new(big.Int).Mod(new(big.Int).Add(a, b), P); w.Cmp(add(toMont(a), toMont(b)).out()) != 0 {
			t.Fatal(a, b)
		}
		if w := new(big.Int).Mod(new(big.Int).Sub(a, b), P); w.Cmp(sub(toMont(a), toMont(b)).out()) != 0 {
			t.Fatal(a, b)
		}
	}
	for i := 0; i < 200; i++ {
		k := new(big.Int).Rand(rnd, N)
		p := MulG(k)
		if !OnCurve(p.X, p.Y) || !p.Equal(Mul(G, k)) {
			t.Fatal(k)
		}
		q := MulG(new(big.Int).Sub(N, k))
		if !AddPt(p, q).Inf || !q.Equal(Neg(p)) {
			t.Fatal(k)
		}
	}
	if !MulG(N).Inf || !AddPt(G, G).Equal(MulG(big.NewInt(2))) {
		t.Fatal()
	}
}

func BenchmarkMulG(b *testing.B) {
	k := new(big.Int).Sub(N, big.NewInt(3))
	for i := 0; i < b.N; i++ {
		MulG(k)
	}
}
func BenchmarkMul(b *testing.B) {
	k := new(big.Int).Sub(N, big.NewInt(3))
	for i := 0; i < b.N; i++ {
		Mul(G, k)
	}
}
