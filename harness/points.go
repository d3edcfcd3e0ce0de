package main

import (
	"bytes"
	"crypto/x509"
	"math/big"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"pgregory.net/rapid"
)

// XPoint is a point of the curve given by its coordinates: nobody knows its
// discrete logarithm. Points with extreme coordinates cannot be reached by
// multiplying the generator.
type XPoint struct{ X, Y *big.Int }

func (p XPoint) pt() ref.Pt { return ref.Pt{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)} }

func xpt(p ref.Pt) XPoint { return XPoint{p.X, p.Y} }

// tinyY are the points with y from 1 on (x^3 + ax + b = y^2 solved for x).
var tinyY = [][2]string{
	{"9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f", "1"},
	{"3b404f94e46027d11401987cd5acb2953e4bff91a7d856b40986700015b4f8a6", "2"},
	{"1800ffcb38194ce0905766dfd6b9ce196095203d481ba8e4e614749d615cd506", "3"},
	{"6c504604f185db67ce1a538451c37804e2121d283e1e31ca3f9bad74b6a40cf5", "4"},
	{"791c45d2c77b0437b92e8a1df6f6b8c37f7a16df8e59a8e1009854df57d20a4e", "5"},
	{"b32daa88c808f7511afa590770f3e7e06ba565237deb82dc0a4178691df63a4e", "6"},
	{"c5702aeab631611442d0270d55857db2beded803327532394b9532cdbe1a18eb", "6"},
	{"87622a8a81c5a79aa2357feb39869a6cd57bc2d74f9f4aecaa2954c923efacc5", "6"},
	{"f4301ef7f5d979d3125d530019737eb5d4a2fe8a556b219063cee83d68ffee61", "7"},
	{"633d32ef2faed807c3448381036f88d3b8c87b19623229eeb0255dc81f8d5585", "7"},
	{"a892ae16da77ae252a5e297ee31cf8767294865a4862b482ec0bb9fa7772bc18", "7"},
	{"b1b53ab17c4189baa08f94099ac5d78aca728a108cac0e7a26490f3b71470711", "8"},
	{"648729b165c8b26ec5860899e774370f12e249337f13f217e74188dd04a450e9", "8"},
	{"e9c39b9b1df5c3d699ea635c7dc5f16622ab2cb9f43fff6ff27567e78a14a804", "8"},
	{"9cd0df45b403b29a64441018c8ff529c4d108a4dd6262d67c870d85bd8997d5e", "b"},
	{"3ca5e39a61e965375335ea3d41b2cd91120398dd75b625a4327938fba937abb0", "b"},
	{"26893d1eea12e82e488605a9f54ddfd2a0ebdcd3b423acf50515eea87e2ed6f1", "b"},
	{"dc4aca5d82cce0ca2ad2f9e709ebc8183ac513b5857e32f772b3a8f080634d05", "c"},
	{"88ad78444688df55c234fa1cebdf51ba99c372628c09e3a9bd4c955697ef24af", "e"},
	{"f722d90508c584d3a36f01aa2fed34214b08679d2c75a76990bb0c487a25615b", "e"},
	{"802faeb4b0b19bd69a5c0438e4337a241b3425fe478074eeb1f85e60edeb79f4", "e"},
	{"c6fbf5a2f6febebd9d60b72e0bb91ee619f0b0a45f3f45f03ac5948148958bd3", "f"},
	{"cc56a8267a46f76c76b1cda09a9391253b703f7ee0868a17c1306e71281d8346", "11"},
	{"9523941991bc15da6cbb0cd1b7fe0739c9602678d22ad1036179ed6d34363152", "15"},
	{"5a90868d9614cfbb65f6a6c1625e43ad667865a71da681bb1ab1d1a67e07493a", "18"},
	{"a62bca155373689d6806fafd935c5f9b69bbb017e6a1177ef64aaf2b4198c492", "19"},
	{"3d0b3b201a70582072a5dccd8158e23eda3752a7715bcc0d739283a3f30c36b8", "1b"},
	{"3b0d837c8e437697c6f182ea0271016ebba5b1987455afce1acaf01dc5572a55", "1b"},
	{"87e74162574c3147c668a0487c361c526a22fbbf1a4e842571a28c3e479c9ef2", "1b"},
	{"4dae071073464f7abe6b01782b606429fe6e9fc70e826d3504adaf8498aaddb1", "1d"},
	{"56a725d1c0978fe263d3b4a0feb1fcc072dafa83cd56fd193a5adf0f462d001b", "1e"},
	{"e16b56c08efb773843658e63b6ab96e70bfce47d1e4e1d966d60c1d3b202752b", "23"},
	{"47918ea46923e928ac3d386da9acb71bcb6ae28da72b2695992a1a55e010df7d", "23"},
	{"d7031a9907e09f9f105d392e9fa7b1fd289838f33a86bbd5f97523d66decab56", "23"},
	{"e96de678c3d6f6752181036eba604ac0f4f365ac01db9f5d158a77d58438f716", "24"},
	{"b244ed9be229a51a0b7c08bd50df21aee9ec52add7e5c2e950de88c3d9d6fbce", "24"},
	{"644d2be959ff6470d302f3d3f4c09390212047a4263e9dbb9996ff66a1f00d1a", "24"},
	{"1ad0d0b685841563a1cf2bd848332fbf63c1793b5a23057c1e7a5c80984df65c", "25"},
	{"a2b86f376a283c558d78866d2f578190aa4ca94d4d19f1a969f90b6f66ac0699", "27"},
	{"c3aaeb08cdc31fe2ffa0cf7090d200b97bf3f67de59bec10ac323d05ef1d3ef5", "40"},
	{"fc781575387d0d9b47ade22d79b1737f346abe5aa8b9b6ca48189a98f20eb4e", "8000"},
	{"3394b518ec593e5036d7e00da37c7f797902ab04302ce174cfabbc5385db760c", "8000"},
	{"bca3c98ec01ef0d614ad41cf84e8694e93b6a9152547831f8bd2ba02eb039ea5", "8000"},
	{"24ea9cc6e119ccf7f1304f240e471b650bfdac9447759936dcb283ae040d2cb4", "1000000"},
	{"84cc155a7a4c4abf5dfbab7d81e1ed69d0376758442dae6120d339058afe9a23", "40000000000"},
	{"34c9a6826aeb8b2fab09e0ce125c89afccbb0805e0d1c59ec4debed12eb2b589", "40000000000"},
	{"466a44221ac82a10f6fa73b46bc188e6630d90a0db008c011a4e0829464eb053", "40000000000"},
	{"9b8d1e230d1a4e1a50bd2f5feb88836c6e115f32fb0b82740f0e94fdda2085a5", "8000000000000"},
	{"9485c5cd818363bfcbd60b7a6e457f9646a47dafe3e0226a7608eb4a7d58cb0", "40000000000000000000"},
	{"8012aaa9977e0aaab5e16e8ab80549096a6eeb1842b04e5daeeab136ac04f35", "1000000000000000000000000"},
	{"abef7ebd3a0ceeb7ca669610460b29d48e811df018f37648f352dff4e81edebf", "200000000000000000000000000"},
	{"b7f236a2b7a78320f04b634b0a00f7ddea2a581b75873b846492ef97de221955", "40000000000000000000000000000"},
	{"dc61f3aabb69ed87b86ce11266a8331d790c95977cb311a1e7c5381ae81ed82a", "200000000000000000000000000000000000"},
	{"db7642dfffc668fae8ed309e0ff2cf7509d11f3aa7233e25d719b3455ded8292", "40000000000000000000000000000000000000"},
	{"b378b6c6b3e26100692ca0fbc7e7aa601b7ec6487e007d2f52733a4f7bff2a9a", "40000000000000000000000000000000000000"},
	{"711106574c573604ade62e662825862adab01a7adadc44acd673126b261352d2", "40000000000000000000000000000000000000"},
	{"817ccb1955fc17127a26de31480af0c9ebe3579364e12a666af1203e9287dc51", "8000000000000000000000000000000000000000"},
	{"ca66c7d87a8c5ad648f18fe33133eba6e480aaaf812dbedf9b2f71e24eceb5c2", "200000000000000000000000000000000000000000000"},
	{"7c181e754b088521694feea58cbfe17e1cb7c4a0aa1d80a4d0dfa6933af0abfd", "40000000000000000000000000000000000000000000000"},
	{"f40627bee587fe045a2eaf03c8383da00e1af37c15c4c09161a22aa2bff000c4", "8000000000000000000000000000000000000000000000000"},
}

// liftNear gives the point whose x is the first at or after x (before it when
// down is set).
func liftNear(x *big.Int, down bool) ref.Pt {
	x = new(big.Int).Set(x)
	for {
		x = bmod(x, ref.P)
		if y := ref.LiftX(x); y != nil {
			return ref.Pt{X: x, Y: y}
		}
		if down {
			x.Sub(x, bigOne)
		} else {
			x.Add(x, bigOne)
		}
	}
}

// genXPoint draws a point with an extreme coordinate: tiny, just below p,
// between n and p, around a power of two, or of repeated bytes.
func genXPoint(t *rapid.T, l string) XPoint {
	var p ref.Pt
	switch intR(t, l+".xp", 0, 6) {
	case 0:
		p = liftNear(i64(0), false)
	case 1:
		p = liftNear(i64(int64(intR(t, l+".small", 1, 1000))), false)
	case 2:
		p = liftNear(bsub(ref.P, i64(int64(intR(t, l+".below", 1, 1000)))), true)
	case 3:
		e := pick(t, l+".y", tinyY...)
		x, _ := new(big.Int).SetString(e[0], 16)
		y, _ := new(big.Int).SetString(e[1], 16)
		p = ref.Pt{X: x, Y: y}
	case 4:
		p = liftNear(badd(ref.N, i64(int64(intR(t, l+".n", -20, 1000)))), false)
	case 5:
		x := new(big.Int).Lsh(bigOne, uint(intR(t, l+".pow", 8, 255)))
		p = liftNear(badd(x, i64(int64(intR(t, l+".off", -3, 3)))), coin(t, l+".down", 1, 2))
	default:
		p = liftNear(new(big.Int).SetBytes(genFill(t, l+".fill", 32)), false)
	}
	if !ref.OnCurve(p.X, p.Y) {
		bug("not on the curve")
	}
	if coin(t, l+".neg", 1, 2) {
		p = ref.Neg(p)
	}
	return xpt(p)
}

// ---- P15, P16: ciphertexts whose points are extreme ----

// xEnc is an encryption (P15) or decryption (P16) around an extreme point.
type xEnc struct {
	Kind   string // where the point stands: "recipient", "C1" or "shared"
	P      XPoint
	D      *big.Int // the recipient's scalar, or (P15) the ephemeral one
	M      HB
	Layout int
}

func genXEnc(kinds ...string) func(t *rapid.T) xEnc {
	return func(t *rapid.T) xEnc {
		return xEnc{Kind: pick(t, "kind", kinds...), P: genXPoint(t, "p"), D: genScalar(t, "d", 0), M: genPlain(t, 200), Layout: intR(t, "layout", 1, 2)}
	}
}

// runXEnc encrypts to a key for which nobody has the private key. The
// ciphertext can be judged when the entropy steers the ephemeral scalar.
func runXEnc(rec *Rec, c xEnc) error {
	rec.NT()
	pub := c.P.pt()
	if c.Kind == "shared" {
		pub = ref.Mul(pub, binv(c.D, ref.N))
	}
	setEntropy(Entropy{Seed: 7, Prefix: steer(c.D)})
	ct, err := sm2.Encrypt(mkPub(pub), c.M, lay(c.Layout))
	if err != nil {
		return fail("Encrypt to the valid key (%x, %x): %v", pub.X, pub.Y, err)
	}
	if len(ct) != 97+len(c.M) || ct[0] != 4 || !ref.OnCurve(new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])) {
		return fail("ciphertext %s for a plaintext of %d bytes", hexs(ct), len(c.M))
	}
	c1 := ref.MulG(c.D)
	if !bytes.Equal(ct[1:65], ref.Cat(b32(c1.X), b32(c1.Y))) {
		rec.Class("%s: the scalar could not be steered", c.Kind)
		return nil
	}
	rec.Class("%s: judged", c.Kind)
	if want, ok := ref.EncryptK(pub, c.M, c.D, c.Layout); ok && !bytes.Equal(ct, want) {
		return fail("Encrypt to (%x, %x) with the ephemeral scalar %x gives %s, the standard says %s", pub.X, pub.Y, c.D, hexs(ct), hexs(want))
	}
	return nil
}

func runXDec(rec *Rec, c xEnc) error {
	c1 := c.P.pt()
	if c.Kind == "shared" {
		c1 = ref.Mul(c1, binv(c.D, ref.N))
	}
	rec.NT()
	rec.Class("%s", c.Kind)
	ct, ok := ref.EncryptAt(c1, ref.Mul(c1, c.D), c.M, c.Layout)
	if !ok {
		rec.Class("zero mask")
		return nil
	}
	m, err := sm2.Decrypt(mkPriv(c.D), ct, lay(c.Layout))
	if err != nil || !bytes.Equal(m, c.M) {
		return fail("Decrypt(%s, layout %d) = %s, %v; want %s", hexs(ct), c.Layout, hexs(m), err, hexs(c.M))
	}
	der, err := sm2.MarshalCipher(ct, lay(c.Layout))
	if err != nil {
		return fail("MarshalCipher(%s): %v", hexs(ct), err)
	}
	back, err := sm2.UnmarshalCipher(der, lay(c.Layout))
	if err != nil || !bytes.Equal(back, ct) {
		return fail("UnmarshalCipher(MarshalCipher(%s)) = %s, %v", hexs(ct), hexs(back), err)
	}
	bad := append([]byte{}, ct...)
	bad[len(bad)-1] ^= 1
	if m, err := sm2.Decrypt(mkPriv(c.D), bad, lay(c.Layout)); err == nil {
		return fail("Decrypt accepts the altered ciphertext %s as %s", hexs(bad), hexs(m))
	}
	return nil
}

// ---- P22: a peer with extreme points ----

type xKX struct {
	Kind      string // "static", "ephemeral", "both" or "shared"
	Initiator bool   // the library's role
	D, R      *big.Int
	P, Q      XPoint // static and ephemeral point, or (shared) the shared point and the ephemeral point
	ID, PeerI HB
	Bits      int
}

func genXKX(t *rapid.T) xKX {
	c := xKX{Kind: pick(t, "kind", "static", "ephemeral", "both", "shared", "shared"), Initiator: coin(t, "init", 1, 2), D: genScalar(t, "d", 1), R: genScalar(t, "r", 1), ID: genID(t, "id"), PeerI: genID(t, "peer"), Bits: min(genBits(t, "bits"), 3000)}
	c.P, c.Q = genXPoint(t, "p"), genXPoint(t, "q")
	if c.Kind == "static" {
		c.Q = xpt(ref.MulG(genScalar(t, "q0", 1)))
	}
	if c.Kind == "ephemeral" {
		c.P = xpt(ref.MulG(genScalar(t, "p0", 1)))
	}
	return c
}

func runXKX(rec *Rec, c xKX) error {
	t := ref.SharedFactor(c.D, c.R)
	p, q := c.P.pt(), c.Q.pt()
	if t.Sign() == 0 {
		rec.Class("own keys cancel")
		return nil
	}
	if c.Kind == "shared" { // t*(p + xbar(q)*q) shall be P
		p = ref.AddPt(ref.Mul(p, binv(t, ref.N)), ref.Neg(ref.Mul(q, ref.XBar(q.X))))
	}
	u := ref.Mul(ref.AddPt(p, ref.Mul(q, ref.XBar(q.X))), t)
	if p.Inf || u.Inf {
		rec.Class("infinity")
		return nil
	}
	if c.Kind == "shared" && !u.Equal(c.P.pt()) {
		bug("shared point")
	}
	rec.NT()
	rec.Class("%s, initiator %v", c.Kind, c.Initiator)
	own, ownR := ref.MulG(c.D), ref.MulG(c.R)
	w := ref.KXAt(u, c.PeerI, p, q, c.ID, own, ownR, c.Bits)
	s1 := []byte(nil)
	if c.Initiator {
		w = ref.KXAt(u, c.ID, own, ownR, c.PeerI, p, q, c.Bits)
		s1 = w.S1
	}
	got, err := sm2.CalculateKeyWithConfirmation(c.Initiator, c.Bits, s1, mkPriv(c.D), mkPriv(c.R), c.ID, mkPub(p), mkPub(q), c.PeerI)
	if err != nil {
		return fail("a valid peer with static key (%x, %x) and ephemeral key (%x, %x) is refused: %v", p.X, p.Y, q.X, q.Y, err)
	}
	if !sameKey(got.Key, w.Key, c.Bits, "responder key") || !bytes.Equal(got.S2, w.S2) || !c.Initiator && !bytes.Equal(got.S1, w.S1) {
		return fail("key %s, S1 %s, S2 %s; the standard says %s, %s, %s", hexs(got.Key), hexs(got.S1), hexs(got.S2), hexs(w.Key), hexs(w.S1), hexs(w.S2))
	}
	return nil
}

// ---- P09, P11: keys with extreme points ----

func genXKey(t *rapid.T) XPoint { return genXPoint(t, "p") }

func runXRaw(rec *Rec, c XPoint) error {
	rec.NT()
	p := c.pt()
	pub := mkPub(p)
	want := ref.Cat(b32(p.X), b32(p.Y))
	if raw, un := pub.GetRawBytes(), pub.GetUnCompressBytes(); !bytes.Equal(raw, want) || !bytes.Equal(un, ref.Cat([]byte{4}, want)) {
		return fail("public key (%x, %x) encodes to %x and %x", p.X, p.Y, raw, un)
	}
	back, err := sm2.RawBytesToPublicKey(want)
	if err != nil {
		return fail("RawBytesToPublicKey(%x): %v", want, err)
	}
	return checkPub(back, p, "RawBytesToPublicKey")
}

// ---- P30: the mandatory structure ----

// shapeCase damages one mandatory element of an otherwise acceptable object.
type shapeCase struct {
	F    Foreign
	Path []int
	How  string // drop, retag, empty, length, cut
	N    int
}

var csrPaths = [][]int{{0}, {0, 0}, {0, 1}, {0, 2}, {0, 2, 0}, {0, 2, 0, 0}, {0, 2, 0, 1}, {0, 2, 1}, {1}, {1, 0}, {2}}
var certPaths = [][]int{{0}, {0, 1}, {0, 2}, {0, 2, 0}, {0, 3}, {0, 4}, {0, 4, 0}, {0, 4, 1}, {0, 5}, {0, 6}, {0, 6, 0}, {0, 6, 0, 0}, {0, 6, 0, 1}, {0, 6, 1}, {1}, {1, 0}, {2}}

func genShape(t *rapid.T) shapeCase {
	c := shapeCase{F: genForeign(t)}
	c.F.Exts = genUnknownExts(t, "ext", 2) // known extensions are P31's matter
	c.F.CSR = coin(t, "csr", 1, 2)
	if c.F.CSR {
		c.Path = pick(t, "path", csrPaths...)
	} else {
		c.Path = pick(t, "path", certPaths...)
	}
	c.How = pick(t, "how", "drop", "retag", "retag", "empty", "length", "cut", "none")
	switch c.How {
	case "retag":
		c.N = pick(t, "tag", 0x120, 0x180, 0x140, 0x05, 0x0c, 0x01, 0x31, 0x80, 0xa5, 0x04, 0x1f)
	case "length":
		c.N = intR(t, "form", 1, 3)
	case "cut":
		c.N = intR(t, "n", 1, 80)
	}
	return c
}

func at(n *node, path []int) *node {
	for _, i := range path {
		if i >= len(n.kids) {
			bug("no element %v", path)
		}
		n = n.kids[i]
	}
	return n
}

// damage changes the element; it reports whether the encoding differs.
func damage(n *node, how string, arg int) bool {
	switch how {
	case "drop":
		n.raw = []byte{}
	case "retag":
		tag := byte(arg)
		if arg >= 0x100 {
			tag = n.tag ^ byte(arg)
		}
		same := tag == n.tag
		n.tag = tag
		return !same
	case "empty":
		n.kids, n.content, n.wrap = nil, nil, 0
	case "length":
		n.lenForm = arg
	}
	return true
}

func runShape(rec *Rec, c shapeCase) error {
	der := c.F.der()
	ok := c.How == "none"
	if c.How == "cut" {
		der = der[:max(0, len(der)-c.N)]
	} else if !ok {
		roots, parsed := parseNodes(der, 5)
		if !parsed || len(roots) != 1 {
			bug("shape: not a tree")
		}
		n := at(roots[0], c.Path)
		name := n.tag == 0x30 && len(c.Path) == 2 && (c.F.CSR && c.Path[1] == 1 || !c.F.CSR && (c.Path[1] == 3 || c.Path[1] == 5))
		ok = name && c.How == "empty" || !damage(n, c.How, c.N)
		der = roots[0].encode()
	}
	rec.Class("csr %v: %s", c.F.CSR, c.How)
	if !ok {
		rec.NT()
	}
	var err error
	var none bool
	what := "certificate"
	if c.F.CSR {
		what = "request"
		var x *x509.CertificateRequest
		x, err = cert.ParseCertificateRequest(der)
		none = x == nil
	} else {
		var x *x509.Certificate
		x, err = cert.ParseCertificate(der)
		none = x == nil
	}
	if ok {
		if err != nil {
			return fail("a well-formed %s is refused: %v\n%x", what, err, der)
		}
		return nil
	}
	if err == nil || !none {
		return fail("a malformed %s (%s of element %v) is accepted: %x", what, c.How, c.Path, der)
	}
	return nil
}

// ---- P29: requests whose key information is damaged ----

type badSPKI struct {
	Key  Key
	Path []int
	How  string
	N    int
	T    Tmpl
}

func genBadSPKI(t *rapid.T) badSPKI {
	c := badSPKI{Key: genKey(t, "key"), T: genTmpl(t), How: pick(t, "how", "drop", "retag", "empty", "length", "cut", "tail", "none", "none")}
	c.Path = pick(t, "path", []int{}, []int{0}, []int{0, 0}, []int{1})
	switch c.How {
	case "retag":
		c.N = pick(t, "tag", 0x120, 0x180, 0x140, 0x05, 0x0c, 0x01, 0x31, 0x80, 0xa5, 0x04, 0x1f)
	case "length":
		c.N = intR(t, "form", 1, 3)
	case "drop": // without its identifier an algorithm still has the right shape
		if len(c.Path) == 2 {
			c.Path = []int{1}
		}
	case "cut", "tail":
		c.N = intR(t, "n", 1, 60)
	}
	return c
}

func runBadSPKI(rec *Rec, c badSPKI) error {
	good := refSPKI(c.Key.pt())
	spki, ok := good, c.How == "none"
	switch c.How {
	case "none":
	case "cut":
		spki = spki[:max(0, len(spki)-c.N)]
	case "tail":
		spki = append(append([]byte{}, spki...), make([]byte, c.N)...)
	default:
		roots, parsed := parseNodes(spki, 3)
		if !parsed || len(roots) != 1 {
			bug("spki")
		}
		ok = !damage(at(roots[0], c.Path), c.How, c.N)
		spki = roots[0].encode()
	}
	rec.Class("%s, well-formed %v", c.How, ok)
	if !ok {
		rec.NT()
	}
	info, err := cert.CreateCertificateInfo(c.T.x509(), &x509.Certificate{RawSubject: []byte{0x30, 0}}, &x509.CertificateRequest{RawSubjectPublicKeyInfo: append([]byte{}, spki...), PublicKey: c.Key.pub()})
	if !ok {
		if err == nil || info != nil {
			return fail("a certificate is issued for the malformed key information %x", spki)
		}
		return nil
	}
	if err != nil {
		return fail("issuing failed: %v", err)
	}
	if !bytes.Contains(info.Raw, good) {
		return fail("the signed part %x lacks the key information %x", info.Raw, good)
	}
	return nil
}
