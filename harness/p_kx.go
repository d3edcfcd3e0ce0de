package main

import (
	"bytes"
	"fmt"
	"math/big"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm2"

	"pgregory.net/rapid"
)

type kxCase struct {
	DA, RA, DB, RB *big.Int
	IDA, IDB       HB
	Bits, Bits2    int
}

func genBits(t *rapid.T, l string) int {
	switch intR(t, l+".kind", 0, 3) {
	case 0:
		return pick(t, l+".std", 128, 256, 192, 384, 512, 64, 1, 7, 8, 9, 255, 257, 1024)
	case 1:
		return 256*intR(t, l+".blk", 1, 12) + intR(t, l+".off", -9, 9)
	case 2:
		return intR(t, l+".small", 1, 300)
	}
	return intR(t, l+".any", 1, 20000)
}

func genKX(t *rapid.T) kxCase {
	c := kxCase{RA: genScalar(t, "ra", 1), RB: genScalar(t, "rb", 1), IDA: genID(t, "ida"), IDB: genID(t, "idb"), Bits: genBits(t, "bits"), Bits2: genBits(t, "bits2")}
	c.DA = genScalar(t, "da", 1)
	switch intR(t, "steer", 0, 3) {
	case 0: // shared point u*G with leading zeros in a coordinate
		u := pick(t, "u", smallCoord...).U()
		ta := ref.SharedFactor(c.DA, c.RA)
		if ta.Sign() == 0 {
			break
		}
		tb := bmod(bmul(u, binv(ta, ref.N)), ref.N)
		c.DB = ref.StaticForFactor(tb, c.RB)
	case 1: // ephemeral coordinates with leading zeros
		c.RA = pick(t, "ra2", smallCoord...).U()
		if coin(t, "both", 1, 2) {
			c.RB = pick(t, "rb2", smallCoord...).U()
		}
	}
	if c.DB == nil || c.DB.Sign() == 0 || c.DB.Cmp(nM1) == 0 {
		c.DB = genScalar(t, "db", 1)
	}
	sameID := 8
	if coin(t, "same", 1, 6) { // related keys, up to the sign of the point
		rel := func(l string, d *big.Int) *big.Int {
			if coin(t, l+".neg", 1, 2) {
				return new(big.Int).Sub(ref.N, d)
			}
			return d
		}
		how := intR(t, "how", 0, 7)
		if how == 0 || how == 1 || how == 6 {
			c.DB = rel("db", c.DA)
		}
		if how == 2 || how == 3 || how == 6 {
			c.RB = rel("rb", c.RA)
		}
		switch how {
		case 4:
			c.RA = rel("ra", c.DA)
		case 5:
			c.RB = rel("rb", c.DA)
		case 7:
			c.RB = rel("rb", c.DB)
		}
		for _, d := range []**big.Int{&c.DA, &c.DB, &c.RA, &c.RB} {
			if (*d).Cmp(nM1) >= 0 {
				*d = i64(2)
			}
		}
		sameID = 2
	}
	if coin(t, "sameid", 1, sameID) {
		c.IDB = c.IDA
	}
	return c
}

// kxID: in the key exchange nil means the empty identity.
func kxID(id HB) []byte { return id }

func (c kxCase) result(bits int) ref.KXResult {
	return ref.KX(kxID(c.IDA), c.DA, c.RA, kxID(c.IDB), ref.MulG(c.DB), ref.MulG(c.RB), bits)
}

func (c kxCase) responder(bits int) (*sm2.ExchangeResult, error) {
	return sm2.CalculateKeyWithConfirmation(false, bits, nil, mkPriv(c.DB), mkPriv(c.RB), c.IDB, mkPub(ref.MulG(c.DA)), mkPub(ref.MulG(c.RA)), c.IDA)
}

func (c kxCase) initiator(bits int, s1 []byte) (*sm2.ExchangeResult, error) {
	return sm2.CalculateKeyWithConfirmation(true, bits, s1, mkPriv(c.DA), mkPriv(c.RA), c.IDA, mkPub(ref.MulG(c.DB)), mkPub(ref.MulG(c.RB)), c.IDB)
}

func (c kxCase) classify(rec *Rec, u ref.Pt) {
	z := func(n *big.Int) bool { return n.BitLen() <= 248 }
	if u.Inf {
		rec.Class("shared point at infinity")
		return
	}
	ra, rb := ref.MulG(c.RA), ref.MulG(c.RB)
	rec.Class("leading zeros: shared %v, ephemeral %v", z(u.X) || z(u.Y), z(ra.X) || z(ra.Y) || z(rb.X) || z(rb.Y))
	if c.Bits > 256 {
		rec.Class("key longer than a hash block")
	}
}

// ---- P21 ----

func runAgree(rec *Rec, c kxCase) error {
	w := c.result(c.Bits)
	c.classify(rec, w.U)
	if w.Inf {
		return nil
	}
	rec.NT()
	b, err := c.responder(c.Bits)
	if err != nil {
		return fail("responder: %v", err)
	}
	a, err := c.initiator(c.Bits, b.S1)
	if err != nil {
		return fail("the initiator refuses the responder's S1: %v", err)
	}
	if !bytes.Equal(a.Key, b.Key) {
		return fail("keys differ: %s and %s", hexs(a.Key), hexs(b.Key))
	}
	if len(a.Key) != (c.Bits+7)/8 {
		return fail("key of %d bytes for %d bits", len(a.Key), c.Bits)
	}
	if !sm2.ResponderConfirm(b.S2, a.S2) {
		return fail("the responder refuses the initiator's S2")
	}
	return nil
}

// ---- P22 ----

func runConform(rec *Rec, c kxCase) error {
	w := c.result(c.Bits)
	c.classify(rec, w.U)
	if w.Inf {
		return nil
	}
	rec.NT()
	b, err := c.responder(c.Bits)
	if err != nil {
		return fail("responder: %v", err)
	}
	a, err := c.initiator(c.Bits, w.S1)
	if err != nil {
		return fail("the initiator refuses a conforming responder: %v", err)
	}
	for _, v := range []struct {
		n         string
		got, want []byte
	}{{"responder key", b.Key, w.Key}, {"initiator key", a.Key, w.Key}, {"S1", b.S1, w.S1}, {"responder S2", b.S2, w.S2}, {"initiator S2", a.S2, w.S2}} {
		if !sameKey(v.got, v.want, c.Bits, v.n) {
			return fail("%s is %s, the standard says %s", v.n, hexs(v.got), hexs(v.want))
		}
	}
	b2, err := c.responder(c.Bits2)
	if err != nil {
		return fail("responder: %v", err)
	}
	n := min(len(b.Key), len(b2.Key))
	if c.Bits%8 == 0 && c.Bits2%8 == 0 && !bytes.Equal(b.Key[:n], b2.Key[:n]) {
		return fail("keys of %d and %d bits are not prefixes of one stream", c.Bits, c.Bits2)
	}
	return nil
}

// sameKey compares; for a bit length that is not a multiple of 8 only the
// requested bits of the last byte are prescribed.
func sameKey(got, want []byte, bits int, what string) bool {
	if len(got) != len(want) {
		return false
	}
	if bits%8 != 0 && (what == "responder key" || what == "initiator key") {
		n := len(got) - 1
		return bytes.Equal(got[:n], want[:n]) && (got[n]^want[n])>>(8-bits%8) == 0
	}
	return bytes.Equal(got, want)
}

// ---- P23 ----

type kxMismatch struct {
	C     kxCase
	Kind  string
	Alter kxCase // the responder's view
	S1    HB     // what the initiator receives, when Kind is about S1
	S2    HB
}

func genMismatch(t *rapid.T) kxMismatch {
	m := kxMismatch{C: genKX(t)}
	m.C.Bits = min(m.C.Bits, 600)
	m.Alter = m.C
	w := m.C.result(128)
	if w.Inf {
		w.S1, w.S2 = make([]byte, 32), make([]byte, 32)
	}
	m.S1, m.S2 = w.S1, w.S2
	other := func(l string, d *big.Int) *big.Int {
		switch intR(t, l+".how", 0, 2) {
		case 0:
			return bsub(ref.N, d)
		case 1:
			return clampScalar(badd(d, i64(int64(intR(t, l+".inc", 1, 5)))), nM2)
		}
		return genScalar(t, l+".other", 1)
	}
	switch m.Kind = pick(t, "kind", "da", "ra", "db", "rb", "ida", "idb", "ids swapped", "s1 altered", "s1 altered", "s2 altered", "s2 altered", "s1 bit", "s1 cut", "s1 extended", "s1 empty", "s1 is s2", "s2 bit", "s2 cut", "s2 extended", "s2 empty", "s2 is s1", "s1 zero"); m.Kind {
	case "da":
		m.Alter.DA = other("o", m.C.DA)
	case "ra":
		m.Alter.RA = other("o", m.C.RA)
	case "db":
		m.Alter.DB = other("o", m.C.DB)
	case "rb":
		m.Alter.RB = other("o", m.C.RB)
	case "ida":
		m.Alter.IDA = HB(mutateBytes(t, "m", m.C.IDA))
	case "idb":
		m.Alter.IDB = HB(mutateBytes(t, "m", m.C.IDB))
	case "ids swapped":
		m.Alter.IDA, m.Alter.IDB = m.C.IDB, m.C.IDA
	case "s1 bit":
		m.S1 = flipBit(w.S1, intR(t, "bit", 0, 255))
	case "s1 altered":
		m.S1 = alterValue(t, "alter", w.S1)
	case "s2 altered":
		m.S2 = alterValue(t, "alter", w.S2)
	case "s1 cut":
		m.S1 = w.S1[:intR(t, "n", 1, 31)]
	case "s1 extended":
		m.S1 = ref.Cat(w.S1, []byte{byte(intR(t, "x", 0, 255))})
	case "s1 empty":
		m.S1 = HB{}
	case "s1 zero":
		m.S1 = make([]byte, 32)
	case "s1 is s2":
		m.S1 = w.S2
	case "s2 bit":
		m.S2 = flipBit(w.S2, intR(t, "bit", 0, 255))
	case "s2 cut":
		m.S2 = w.S2[:intR(t, "n", 0, 31)]
	case "s2 extended":
		m.S2 = ref.Cat(w.S2, []byte{byte(intR(t, "x", 0, 255))})
	case "s2 empty":
		m.S2 = nil
	case "s2 is s1":
		m.S2 = w.S1
	}
	return m
}

func sameView(a, b kxCase) bool {
	return a.DA.Cmp(b.DA) == 0 && a.RA.Cmp(b.RA) == 0 && a.DB.Cmp(b.DB) == 0 && a.RB.Cmp(b.RB) == 0 && bytes.Equal(a.IDA, b.IDA) && bytes.Equal(a.IDB, b.IDB)
}

func runMismatch(rec *Rec, m kxMismatch) error {
	c := m.C
	w := c.result(c.Bits)
	if w.Inf {
		rec.Class("infinity")
		return nil
	}
	rec.Class("%s", m.Kind)
	rec.NT()
	if m.Kind == "s1 altered" && bytes.Equal(m.S1, w.S1) || m.Kind == "s2 altered" && bytes.Equal(m.S2, w.S2) {
		return nil // equal bytes exchanged
	}
	if bytes.HasPrefix([]byte(m.Kind), []byte("s2")) {
		b, err := c.responder(c.Bits)
		if err != nil {
			return fail("responder: %v", err)
		}
		if sm2.ResponderConfirm(b.S2, m.S2) {
			return fail("%s: the responder accepts S2 %x instead of %x", m.Kind, []byte(m.S2), b.S2)
		}
		return nil
	}
	s1 := []byte(m.S1)
	if !bytes.HasPrefix([]byte(m.Kind), []byte("s1")) {
		if sameView(m.C, m.Alter) {
			return nil
		}
		if m.Alter.result(c.Bits).Inf {
			return nil
		}
		b, err := m.Alter.responder(c.Bits)
		if err != nil {
			return fail("responder: %v", err)
		}
		s1 = b.S1
	}
	a, err := c.initiator(c.Bits, s1)
	if err == nil {
		return fail("%s: the initiator accepts a responder that disagrees (S1 %x)", m.Kind, s1)
	}
	if a != nil && (len(a.Key) > 0 || len(a.S2) > 0) {
		return fail("%s: the initiator returns a key together with an error", m.Kind)
	}
	if _, err := c.initiator(c.Bits, nil); err == nil {
		return fail("the initiator accepts a missing confirmation value")
	}
	return nil
}

type badPeer struct {
	Kind           string
	Initiator      bool
	D, R           *big.Int // own keys
	PX, PY, QX, QY *big.Int // peer static and ephemeral points
	ID             HB
	Good           bool
}

func genBadPeer(t *rapid.T) badPeer {
	c := badPeer{Initiator: coin(t, "init", 1, 2), D: genScalar(t, "d", 1), R: genScalar(t, "r", 1), ID: genID(t, "id")}
	pd, pr := genScalar(t, "pd", 1), genScalar(t, "pr", 1)
	c.Kind = pick(t, "kind", "off curve", "zero", "x+p", "y+p", "negative", "peer cancels", "own cancels", "huge", "swapped", "good")
	if c.Kind == "peer cancels" { // static + xbar(R)*R = O
		pd = ref.StaticForFactor(i64(0), pr)
	}
	if c.Kind == "own cancels" {
		c.D = ref.StaticForFactor(i64(0), c.R)
	}
	if pd.Sign() == 0 {
		pd = i64(5)
	}
	if c.D.Sign() == 0 {
		c.D = i64(5)
	}
	p, q := ref.MulG(pd), ref.MulG(pr)
	c.PX, c.PY, c.QX, c.QY = p.X, p.Y, q.X, q.Y
	x, y := &c.PX, &c.PY
	if coin(t, "eph", 1, 2) {
		x, y = &c.QX, &c.QY
	}
	switch c.Kind {
	case "off curve":
		*y = bmod(badd(*y, i64(int64(intR(t, "dy", 1, 9)))), ref.P)
	case "zero":
		*x, *y = i64(0), i64(0)
	case "x+p":
		*x = badd(*x, ref.P)
	case "y+p":
		*y = badd(*y, ref.P)
	case "negative":
		*y = bsub(*y, ref.P)
	case "huge":
		*x = new(big.Int).Lsh(*x, 300)
	case "swapped":
		*x, *y = *y, *x
	}
	return c
}

func runBadPeer(rec *Rec, c badPeer) error {
	rec.Class("%s", c.Kind)
	good := ref.OnCurve(c.PX, c.PY) && ref.OnCurve(c.QX, c.QY)
	var s1 []byte
	if good {
		pa, ra := ref.Pt{X: c.PX, Y: c.PY}, ref.Pt{X: c.QX, Y: c.QY}
		w := ref.KX(c.ID, c.D, c.R, c.ID, pa, ra, 128)
		good = !w.Inf
		s1 = w.S1
	}
	if !good {
		rec.NT()
		s1 = make([]byte, 32)
	}
	res, err := func() (*sm2.ExchangeResult, error) {
		if c.Initiator {
			return sm2.CalculateKeyWithConfirmation(true, 128, s1, mkPriv(c.D), mkPriv(c.R), c.ID, mkPubXY(c.PX, c.PY), mkPubXY(c.QX, c.QY), c.ID)
		}
		return sm2.CalculateKeyWithConfirmation(false, 128, nil, mkPriv(c.D), mkPriv(c.R), c.ID, mkPubXY(c.PX, c.PY), mkPubXY(c.QX, c.QY), c.ID)
	}()
	if good {
		if err != nil {
			return fail("%s: a valid peer is refused: %v", c.Kind, err)
		}
		return nil
	}
	if err == nil {
		return fail("%s: an invalid peer is accepted, key %s", c.Kind, hexs(res.Key))
	}
	if res != nil && len(res.Key) > 0 {
		return fail("%s: a key is returned together with an error", c.Kind)
	}
	return nil
}

// infinity with a confirmation value an initiator that ignores infinity would
// accept: coordinates (0, 0) hashed as such.
func runInfinityTag(rec *Rec, c kxCase) error {
	rec.NT()
	pb, rb := ref.MulG(c.DB), ref.MulG(c.RB)
	if !c.result(128).Inf {
		return fail("harness: not at infinity")
	}
	za, zb := ref.Z(c.IDA, ref.MulG(c.DA)), ref.Z(c.IDB, pb)
	ra := ref.MulG(c.RA)
	for _, w := range []int{0, 1, 32} {
		z := make([]byte, w)
		in := ref.SM3(ref.Cat(z, za, zb, b32(ra.X), b32(ra.Y), b32(rb.X), b32(rb.Y)))
		s1 := ref.SM3(ref.Cat([]byte{2}, z, in[:]))
		if res, err := c.initiator(128, s1[:]); err == nil {
			return fail("the initiator accepts a shared point at infinity, key %s", hexs(res.Key))
		}
	}
	return nil
}

func init() {
	_ = fmt.Sprint
	var longKeys []kxCase
	for i, n := range []int{65280, 65281, 65536, 65793, 131073, 16776960, 16777216 + 300} {
		longKeys = append(longKeys, kxCase{DA: seedScalar(uint64(i + 20)), RA: seedScalar(uint64(i + 40)), DB: seedScalar(uint64(i + 60)), RB: seedScalar(uint64(i + 80)), IDA: HB("a"), IDB: HB("b"), Bits: n, Bits2: 100})
	}
	register("P21", NewSub("agree", "generated static and ephemeral keys (often with short shared or ephemeral coordinates), identities and key lengths 1-20000 bits: both sides run; non-trivial: shared point not at infinity", 3000, 90000, genKX, runAgree, longKeys...))
	register("P22", NewSub("conform", "as P21: key, S1, S2 of each side against the reference, each side facing a reference peer; non-trivial: shared point not at infinity", 2400, 70000, genKX, runConform, longKeys...),
		NewSub("extreme", "peers with extreme static or ephemeral points, or an extreme shared point, for both roles: key and confirmation values against the reference; non-trivial: shared point not at infinity", 2400, 80000, genXKX, runXKX))
	register("P23",
		NewSub("mismatch", "18 kinds of disagreement or altered confirmation values; non-trivial: all but infinity", 2400, 70000, genMismatch, runMismatch),
		NewSub("peer", "peer points off the curve, zero, out of range, or cancelling to infinity, for both roles; non-trivial: invalid peer", 3000, 80000, genBadPeer, runBadPeer),
		NewSub("infinity", "peers that cancel to infinity with a matching confirmation value; non-trivial: all", 300, 8000, func(t *rapid.T) kxCase {
			c := kxCase{DA: genScalar(t, "da", 1), RA: genScalar(t, "ra", 1), RB: genScalar(t, "rb", 1), IDA: genID(t, "ida"), IDB: genID(t, "idb"), Bits: 128, Bits2: 128}
			c.DB = ref.StaticForFactor(i64(0), c.RB)
			if c.DB.Sign() == 0 {
				c.RB = badd(c.RB, bigOne)
				c.DB = ref.StaticForFactor(i64(0), c.RB)
			}
			return c
		}, runInfinityTag))
}
