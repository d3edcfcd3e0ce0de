package main

import (
	"bytes"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/pbkdf2"
	"encoding/binary"
	"encoding/hex"
	"hash"
	"slices"

	"gmverif/ref"

	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"

	"pgregory.net/rapid"
)

// ---- P01 ----

type digestCase struct {
	Msg   HB
	Spare int
}

// constCase is a long message of one repeated byte, with the digest computed
// by an independent implementation (OpenSSL) once and for all.
type constCase struct {
	Byte    byte
	N       int64
	Digest  string
	OneShot bool
	Chunk   int
}

var longDigests = []constCase{
	{0, 536870975, "cbddd84dffa517ce33c1574749a5cc972df06fe0e131d3296c18790ffffd2144", false, 1<<20 + 3},
	{0xa5, 268435456, "64238e69ecc61afb14467df972f03a19fcbd3e9cbbc60fd0976b532d9c2beef4", false, 1 << 16},
	{0, 536870912, "7927ca8884a535d9a4d80986f7c478a790013ee370836dfb86a36b4443c86533", true, 0},
}

var longerDigests = []constCase{
	{0, 2147483719, "585313826876df10026996f07c2bc8cd951e63728f6568bfbbdc6f4c7888a9b3", true, 0},
	{0xa5, 2147483719, "511593269af56844f336bfef57d5126e1b35bad6fdd174606dc0b3dc8858bf3d", false, 1 << 20},
}

var longestDigests = []constCase{
	{0xa5, 4294967299, "418c9153c6db924498788e9a1c279176cae8b8e078a4068210471ff2b3869908", false, 1<<20 + 1},
	{0, 4294967296, "d8f3cf34d17be16481b6f9c26c37e189730f291bfe9f251f35f35a94de15790e", false, 1 << 20},
}

func runConst(rec *Rec, c constCase) error {
	rec.NT()
	var got []byte
	if c.OneShot {
		m := make([]byte, c.N)
		if c.Byte != 0 {
			for i := range m {
				m[i] = c.Byte
			}
		}
		d := sm3.Sum(m)
		got = d[:]
	} else {
		h := sm3.New()
		buf := bytes.Repeat([]byte{c.Byte}, c.Chunk)
		for left := c.N; left > 0; {
			n := min(left, int64(c.Chunk))
			w, err := h.Write(buf[:n])
			if err != nil || int64(w) != n {
				return fail("Write of %d bytes returned %d, %v", n, w, err)
			}
			left -= n
		}
		got = h.Sum(nil)
	}
	if hex.EncodeToString(got) != c.Digest {
		return fail("digest of %d bytes %02x is %x, want %s", c.N, c.Byte, got, c.Digest)
	}
	return nil
}

func genDigestMsg(t *rapid.T, l string) HB {
	return HB(genFill(t, l, genLenBeyond(t, l, 600, 70000, 64, 4)))
}

func runDigest(rec *Rec, c digestCase) error {
	if len(c.Msg) > 0 {
		rec.NT()
	}
	rec.Class("len mod 64 in %s", lenClass(len(c.Msg)))
	want := ref.SM3(c.Msg)
	got := sm3.Sum(c.Msg)
	if got != want {
		return fail("Sum(%d bytes) = %x, want %x", len(c.Msg), got, want)
	}
	h := sm3.New()
	if n, err := h.Write(c.Msg); err != nil || n != len(c.Msg) {
		return fail("Write returned %d, %v for %d bytes", n, err, len(c.Msg))
	}
	if s := h.Sum(nil); !bytes.Equal(s, want[:]) {
		return fail("hash object over %d bytes gives %x, want %x", len(c.Msg), s, want)
	}
	return nil
}

func lenClass(n int) string {
	switch m := n % 64; {
	case n == 0:
		return "empty"
	case m == 0:
		return "0"
	case m < 55:
		return "1-54"
	case m <= 56:
		return "55-56"
	default:
		return "57-63"
	}
}

// ---- P02 ----

type hashOp struct {
	H     int // which hash object
	Op    string
	Data  HB
	Spare int
	Rep   int `json:",omitempty"` // further writes of the same data
}

type hashHistory struct{ Ops []hashOp }

func genHashHistory(t *rapid.T) hashHistory {
	n := intR(t, "ops", 1, 25)
	var h hashHistory
	for i := 0; i < n; i++ {
		o := hashOp{H: intR(t, "h", 0, 2)}
		switch k := intR(t, "op", 0, 9); {
		case k < 6:
			o.Op = "write"
			o.Data = genBytes(t, "data", 200, 64, 4)
			if coin(t, "bulk", 1, 12) {
				o.Data = genFill(t, "bulkdata", pick(t, "bulkn", 256, 512, 1024, 4096, 8192, intR(t, "any", 200, 3000), intR(t, "more", 3000, 20000)))
			} else if coin(t, "many", 1, 25) {
				o.Rep = pick(t, "rep", 15, 63, 255, 1023, intR(t, "any", 1, 700))
			}
		case k < 9:
			o.Op = "sum"
			if !coin(t, "nilprefix", 1, 3) {
				o.Data = genBytes(t, "prefix", 40)
			}
			o.Spare = intR(t, "spare", 0, 48)
		default:
			o.Op = "reset"
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

func runHashHistory(rec *Rec, c hashHistory) error {
	objs := make([]hash.Hash, 3)
	model := make([][]byte, 3)
	summed := make([]bool, 3)
	for i := range objs {
		objs[i] = sm3.New()
	}
	check := func(i int, prefix []byte, spare int) error {
		var p []byte
		if prefix != nil {
			p = make([]byte, len(prefix), len(prefix)+spare)
			copy(p, prefix)
		}
		d := ref.SM3(model[i])
		want := append(append([]byte{}, prefix...), d[:]...)
		got := objs[i].Sum(p)
		if !bytes.Equal(got, want) {
			return fail("digest of object %d after %d bytes: got %x, want %x", i, len(model[i]), got, want)
		}
		if !bytes.Equal(p, prefix) {
			return fail("Sum changed its argument")
		}
		return nil
	}
	for _, o := range c.Ops {
		switch o.Op {
		case "write":
			buf := append([]byte{}, o.Data...)
			for j := 0; j <= o.Rep; j++ {
				n, err := objs[o.H].Write(buf)
				if err != nil || n != len(buf) {
					return fail("Write(%d bytes) returned %d, %v", len(buf), n, err)
				}
				model[o.H] = append(model[o.H], o.Data...)
			}
			if !bytes.Equal(buf, o.Data) {
				return fail("Write changed its argument")
			}
			for i := range buf { // the hash must not keep the buffer
				buf[i] ^= 0x5a
			}
			if summed[o.H] {
				rec.Class("write after digest")
				rec.NT()
			}
			if len(o.Data) == 0 {
				rec.Class("empty write")
			}
		case "sum":
			if err := check(o.H, o.Data, o.Spare); err != nil {
				return err
			}
			if summed[o.H] {
				rec.Class("repeated digest")
				rec.NT()
			}
			summed[o.H] = true
		case "reset":
			if len(model[o.H]) > 0 || summed[o.H] {
				rec.Class("reset of a used hash")
			}
			objs[o.H].Reset()
			model[o.H], summed[o.H] = nil, false
		}
	}
	for i := range objs {
		for k := 0; k < 2; k++ {
			if err := check(i, nil, 0); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- P03 ----

type hmacCase struct {
	Key, Msg, Salt, Info HB
	Split                int
	Out, Iter            int
}

func genHmac(t *rapid.T) hmacCase {
	return hmacCase{Key: genBytes(t, "key", 200, 64, 32), Msg: genBytes(t, "msg", 300, 64), Salt: genBytes(t, "salt", 80, 64), Info: genBytes(t, "info", 40),
		Split: intR(t, "split", 0, 300), Out: intR(t, "out", 1, 200), Iter: intR(t, "iter", 1, 4)}
}

func refHKDF(key, salt, info []byte, n int) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 32)
	}
	prk := ref.HMACSM3(salt, key)
	var out, prev []byte
	for i := byte(1); len(out) < n; i++ {
		prev = ref.HMACSM3(prk, ref.Cat(prev, info, []byte{i}))
		out = append(out, prev...)
	}
	return out[:n]
}

func refPBKDF2(pw, salt []byte, iter, n int) []byte {
	var out []byte
	for i := byte(1); len(out) < n; i++ {
		u := ref.HMACSM3(pw, ref.Cat(salt, []byte{0, 0, 0, i}))
		x := append([]byte{}, u...)
		for j := 1; j < iter; j++ {
			u = ref.HMACSM3(pw, u)
			for k := range x {
				x[k] ^= u[k]
			}
		}
		out = append(out, x...)
	}
	return out[:n]
}

func runHmac(rec *Rec, c hmacCase) error {
	h := sm3.New()
	h.Write(c.Msg)
	if h.Size() != 32 || h.BlockSize() != 64 {
		return fail("Size() = %d, BlockSize() = %d, want 32 and 64", h.Size(), h.BlockSize())
	}
	rec.NT()
	rec.Class("key longer than a block: %v", len(c.Key) > 64)
	want := ref.HMACSM3(c.Key, c.Msg)
	m := hmac.New(sm3.New, c.Key)
	k := min(c.Split, len(c.Msg))
	m.Write(c.Msg[:k])
	if got, w := m.Sum(nil), ref.HMACSM3(c.Key, c.Msg[:k]); !bytes.Equal(got, w) {
		return fail("HMAC of the first part: %x, want %x", got, w)
	}
	m.Write(c.Msg[k:])
	for i := 0; i < 2; i++ {
		if got := m.Sum(nil); !bytes.Equal(got, want) {
			return fail("HMAC = %x, want %x", got, want)
		}
	}
	m.Reset()
	m.Write(c.Msg)
	if got := m.Sum([]byte("pre")); !bytes.Equal(got, append([]byte("pre"), want...)) {
		return fail("HMAC after Reset = %x, want %x", got, want)
	}
	if m.Size() != 32 || m.BlockSize() != 64 {
		return fail("HMAC Size/BlockSize %d/%d", m.Size(), m.BlockSize())
	}
	dk, err := hkdf.Key(sm3.New, c.Key, c.Salt, string(c.Info), c.Out)
	if err != nil {
		return fail("HKDF: %v", err)
	}
	if w := refHKDF(c.Key, c.Salt, c.Info, c.Out); !bytes.Equal(dk, w) {
		return fail("HKDF = %x, want %x", dk, w)
	}
	pk, err := pbkdf2.Key(sm3.New, string(c.Key), c.Salt, c.Iter, c.Out)
	if err != nil {
		return fail("PBKDF2: %v", err)
	}
	if w := refPBKDF2(c.Key, c.Salt, c.Iter, c.Out); !bytes.Equal(pk, w) {
		return fail("PBKDF2 = %x, want %x", pk, w)
	}
	return nil
}

// ---- P04 ----

type blockOp struct {
	C     int  // cipher object
	Dec   bool // decrypt
	Block HB   // source; may be longer than a block
	Mode  int  // 0 separate, 1 in place
	Extra int  // destination bytes beyond the block
	Short int  `json:",omitempty"` // 1, 2: a call with a source or destination below one block comes first
}

type blockHistory struct {
	Keys []HB
	Ops  []blockOp
}

func genKey16(t *rapid.T, l string) HB { return HB(genFill(t, l, 16)) }

func genBlockHistory(t *rapid.T) blockHistory {
	var h blockHistory
	for i, n := 0, intR(t, "keys", 1, 3); i < n; i++ {
		k := genKey16(t, "key")
		if i > 0 && coin(t, "relkey", 1, 2) {
			k = HB(genRelated(t, "key", h.Keys[i-1]))
		}
		h.Keys = append(h.Keys, k)
	}
	for i, n := 0, intR(t, "ops", 1, 12); i < n; i++ {
		b := genFill(t, "block", 16+pick(t, "srcextra", 0, 0, 1, 16, 20))
		switch intR(t, "relblock", 0, 5) {
		case 0:
			copy(b, genRelated(t, "block", h.Keys[0]))
		case 1, 2:
			if i > 0 {
				copy(b, genRelated(t, "block", h.Ops[intR(t, "blockof", 0, i-1)].Block[:16]))
			}
		}
		h.Ops = append(h.Ops, blockOp{C: intR(t, "c", 0, len(h.Keys)-1), Dec: coin(t, "dec", 1, 2),
			Block: HB(b), Mode: intR(t, "mode", 0, 1), Extra: pick(t, "extra", 0, 1, 16, 17, 48, 112, 240, intR(t, "anyextra", 0, 300)), Short: pick(t, "short", 0, 0, 0, 0, 1, 2)})
	}
	return h
}

func runBlockHistory(rec *Rec, c blockHistory) error {
	if len(c.Ops) > 1 {
		rec.NT()
	}
	type blk interface {
		BlockSize() int
		Encrypt(dst, src []byte)
		Decrypt(dst, src []byte)
	}
	var cs []blk
	var rs []*ref.SM4Key
	for _, k := range c.Keys {
		key := append([]byte{}, k...)
		o, err := sm4.NewCipher(key)
		if err != nil {
			return fail("NewCipher: %v", err)
		}
		if !bytes.Equal(key, k) {
			return fail("NewCipher changed the key")
		}
		for i := range key {
			key[i] ^= 0xff
		}
		if o.BlockSize() != 16 {
			return fail("BlockSize() = %d", o.BlockSize())
		}
		cs = append(cs, o)
		rs = append(rs, ref.NewSM4(k))
	}
	one := func(o blk, dec bool, dst, src []byte) {
		if dec {
			o.Decrypt(dst, src)
		} else {
			o.Encrypt(dst, src)
		}
	}
	for i, op := range c.Ops {
		want := rs[op.C].Enc(op.Block[:16])
		if op.Dec {
			want = rs[op.C].Dec(op.Block[:16])
		}
		rec.Class("in place: %v, decrypt: %v", op.Mode == 1, op.Dec)
		if op.Short != 0 { // refused, whichever way; the object must not care
			rec.Class("after a refused call")
			short := make([]byte, i%16)
			func() {
				defer func() { recover() }()
				if op.Short == 1 {
					one(cs[op.C], (i&1 == 0) != op.Dec, make([]byte, 16), short)
				} else {
					one(cs[op.C], (i&1 == 0) != op.Dec, short, make([]byte, 16))
				}
			}()
		}
		src := append([]byte{}, op.Block...)
		dst := bytes.Repeat([]byte{0xEE}, 16+op.Extra)
		rest := bytes.Repeat([]byte{0xEE}, op.Extra)
		if op.Mode == 1 {
			dst = src
			rest = append([]byte{}, op.Block[16:]...)
		}
		one(cs[op.C], op.Dec, dst, src)
		if !bytes.Equal(dst[:16], want) {
			return fail("op %d (decrypt=%v): %x -> %x, want %x", i, op.Dec, []byte(op.Block[:16]), dst[:16], want)
		}
		if !bytes.Equal(dst[16:], rest) {
			return fail("op %d wrote beyond the block", i)
		}
		if op.Mode == 0 && !bytes.Equal(src, op.Block) {
			return fail("op %d changed its source", i)
		}
		back := make([]byte, 16)
		one(cs[op.C], !op.Dec, back, dst)
		if !bytes.Equal(back, op.Block[:16]) {
			return fail("op %d is not inverted: %x -> %x -> %x", i, []byte(op.Block[:16]), dst[:16], back)
		}
	}
	return nil
}

// ---- P05 / P06 ----

type modeCase struct {
	Key, IV, Data HB
	Then          HB `json:",omitempty"` // the key the caller's buffer holds next
}

func genMode(t *rapid.T) modeCase {
	n := 16 * dictBlocks(t, "blocks", pick(t, "blocks", 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 64, 100, intR(t, "anyblocks", 0, 130)))
	d := genFill(t, "data", n)
	if coin(t, "related", 1, 2) {
		relateBlocks(t, "data", d, 16)
	}
	c := modeCase{Key: genKey16(t, "key"), IV: genKey16(t, "iv"), Data: d}
	if coin(t, "then", 1, 4) {
		c.Then = HB(genRelated(t, "next", c.Key))
	}
	if n > 0 {
		switch intR(t, "ivof", 0, 7) {
		case 0:
			c.IV = HB(genRelated(t, "iv", d[:16]))
		case 1:
			c.IV = HB(genRelated(t, "iv", c.Key))
		case 2:
			c.Key = HB(genRelated(t, "key", d[n-16:]))
		}
	}
	return c
}

func runMode(rec *Rec, c modeCase) error {
	rec.Class("blocks: %d", len(c.Data)/16)
	if len(c.Data) > 16 {
		rec.NT()
	}
	c.Key, c.IV = append(HB{}, c.Key...), append(HB{}, c.IV...)
	if err := runModes(rec, c); err != nil || c.Then == nil {
		return err
	}
	// the caller puts another key into the same buffer
	rec.Class("another key in the same buffer")
	copy(c.Key, c.Then)
	for i := range c.IV {
		c.IV[i] += 7
	}
	if err := runModes(rec, c); err != nil {
		return fail("with another key in the same buffer: %v", err)
	}
	return nil
}

func runModes(rec *Rec, c modeCase) error {
	key, iv := []byte(c.Key), []byte(c.IV)
	type fn func(in []byte) ([]byte, error)
	for _, m := range []struct {
		name string
		enc  fn
		dec  fn
		want []byte
		inv  []byte
	}{
		{"ECB", func(in []byte) ([]byte, error) { return sm4.ECBEncrypt(key, in) }, func(in []byte) ([]byte, error) { return sm4.ECBDecrypt(key, in) }, ref.SM4ECB(key, c.Data, false), ref.SM4ECB(key, c.Data, true)},
		{"CBC", func(in []byte) ([]byte, error) { return sm4.CBCEncrypt(key, iv, in) }, func(in []byte) ([]byte, error) { return sm4.CBCDecrypt(key, iv, in) }, ref.SM4CBC(key, iv, c.Data, false), ref.SM4CBC(key, iv, c.Data, true)},
	} {
		ct, err := m.enc(c.Data)
		if err != nil || !bytes.Equal(ct, m.want) || len(ct) != len(c.Data) {
			return fail("%s encryption: %s, %v; want %s", m.name, hexs(ct), err, hexs(m.want))
		}
		pt, err := m.dec(ct)
		if err != nil || !bytes.Equal(pt, c.Data) {
			return fail("%s decryption of the ciphertext: %s, %v; want %s", m.name, hexs(pt), err, hexs(c.Data))
		}
		pt, err = m.dec(c.Data)
		if err != nil || !bytes.Equal(pt, m.inv) {
			return fail("%s decryption: %s, %v; want %s", m.name, hexs(pt), err, hexs(m.inv))
		}
		if len(c.Data) <= 1024 {
			if err := again(m.name+" encryption", func() []byte { o, _ := m.enc(c.Data); return o }); err != nil {
				return err
			}
			if err := again(m.name+" decryption", func() []byte { o, _ := m.dec(c.Data); return o }); err != nil {
				return err
			}
		}
	}
	return nil
}

type bigMode struct {
	Key, IV HB
	N       int
	Seed    uint64
}

func runBigMode(rec *Rec, c bigMode) error {
	rec.NT()
	d := make([]byte, 16*c.N)
	r := prng(c.Seed)
	for i := 0; i < len(d); i += 8 {
		binary.LittleEndian.PutUint64(d[i:], r.Uint64())
	}
	if c.Seed%3 == 0 { // long runs of equal blocks
		for i := 32; i < len(d)/2; i++ {
			d[i] = d[i%16]
		}
	}
	return runMode(rec, modeCase{Key: c.Key, IV: c.IV, Data: d})
}

type sizeCase struct {
	Key, IV, Data HB
}

func genSizes(t *rapid.T) sizeCase {
	sz := func(l string, good int) int {
		return pick(t, l, good, good, good, 0, 1, 8, 12, 15, 17, 24, 32, 33, 256, 272, intR(t, l+".any", 0, 70), intR(t, l+".more", 0, 600))
	}
	c := sizeCase{HB(genFill(t, "key", sz("keylen", 16))), HB(genFill(t, "iv", sz("ivlen", 16))), HB(genFill(t, "data", pick(t, "datalen", 16, 32, 0, 48, 1, 15, 17, 31, 256, 264, intR(t, "any", 0, 100), intR(t, "more", 100, 1100))))}
	if coin(t, "long", 1, 100) {
		n := pick(t, "longlen", 4096, 8192, 16384, 32768, 65536, 131072, 16*intR(t, "longany", 100, 9000)) + pick(t, "over", -1, 0, 0, 1, 8, 15, 17)
		c.Data = HB(randBytes(u64(t, "longseed"), n))
	}
	if len(c.IV) == 0 && coin(t, "niliv", 1, 2) {
		c.IV = nil
	}
	if len(c.Key) == 0 && coin(t, "nilkey", 1, 2) {
		c.Key = nil
	}
	if len(c.Data) == 0 && coin(t, "nildata", 1, 2) {
		c.Data = nil
	}
	return c
}

func runSizes(rec *Rec, c sizeCase) error {
	kOK, ivOK, dOK := len(c.Key) == 16, len(c.IV) == 16, len(c.Data)%16 == 0
	rec.Class("key ok %v, iv ok %v, data ok %v", kOK, ivOK, dOK)
	if !(kOK && ivOK && dOK) {
		rec.NT()
	}
	b, err := sm4.NewCipher(c.Key)
	if kOK != (err == nil) {
		return fail("NewCipher with %d key bytes: error %v", len(c.Key), err)
	}
	if err != nil && b != nil {
		return fail("NewCipher returned both a cipher and an error")
	}
	rec.Class("long data: %v", len(c.Data) > 4000)
	for _, f := range []struct {
		name string
		ok   bool
		f    func() ([]byte, error)
	}{
		{"ECBEncrypt", kOK && dOK, func() ([]byte, error) { return sm4.ECBEncrypt(c.Key, c.Data) }},
		{"ECBDecrypt", kOK && dOK, func() ([]byte, error) { return sm4.ECBDecrypt(c.Key, c.Data) }},
		{"CBCEncrypt", kOK && dOK && ivOK, func() ([]byte, error) { return sm4.CBCEncrypt(c.Key, c.IV, c.Data) }},
		{"CBCDecrypt", kOK && dOK && ivOK, func() ([]byte, error) { return sm4.CBCDecrypt(c.Key, c.IV, c.Data) }},
	} {
		out, err := f.f()
		if f.ok != (err == nil) {
			return fail("%s with key %d, iv %d, data %d bytes: error %v", f.name, len(c.Key), len(c.IV), len(c.Data), err)
		}
		if err != nil && len(out) != 0 {
			return fail("%s returned output together with an error", f.name)
		}
		if err == nil && len(out) != len(c.Data) {
			return fail("%s returned %d bytes for %d", f.name, len(out), len(c.Data))
		}
	}
	return nil
}

// ---- P07 ----

type padCase struct {
	Data  HB
	Block int
	Spare int
	Key   HB
	IV    HB
}

func genPad(t *rapid.T) padCase {
	b := pick(t, "block", 1, 2, 7, 8, 15, 16, 16, 16, 17, 32, 127, 128, 129, 254, 255, intR(t, "anyblock", 1, 255))
	c := padCase{Data: genBytes(t, "data", 600, b), Block: b, Spare: pick(t, "spare", 0, 1, 3, 16, 64, 300, b, 2*b, 512, 1100, 4200, 8300, 70000>>uint(2*intR(t, "less", 0, 8))), Key: genKey16(t, "key"), IV: genKey16(t, "iv")}
	if len(c.Data) > 0 && coin(t, "tail", 1, 3) { // data that ends like padding
		v := byte(intR(t, "tailv", 0, 17))
		for i := max(0, len(c.Data)-int(max(v, 1))); i < len(c.Data); i++ {
			c.Data[i] = v
		}
	}
	if len(c.Data) == 0 && coin(t, "nil", 1, 2) {
		c.Data = nil
	}
	return c
}

type bigPad struct {
	Pad  padCase
	N    int
	Seed uint64
}

func runBigPad(rec *Rec, c bigPad) error {
	d := make([]byte, c.N)
	r := prng(c.Seed)
	for i := range d {
		d[i] = byte(r.Uint64())
	}
	if len(c.Pad.Data) < len(d) { // the end of the small case, often like padding
		copy(d[len(d)-len(c.Pad.Data):], c.Pad.Data)
	}
	c.Pad.Data = d
	return runPad(rec, c.Pad)
}

func runPad(rec *Rec, c padCase) error {
	rec.Class("residue zero: %v, spare capacity: %v", len(c.Data)%c.Block == 0, c.Spare > 0)
	if c.Spare > 0 && c.Block > 1 {
		rec.NT()
	}
	wantPad := c.Block - len(c.Data)%c.Block
	for _, m := range []struct {
		name string
		pad  func([]byte, int) []byte
		b    byte
	}{{"PKCS5Padding", util.PKCS5Padding, byte(wantPad)}, {"ZeroPadding", util.ZeroPadding, 0}} {
		want := append(append([]byte{}, c.Data...), bytes.Repeat([]byte{m.b}, wantPad)...)
		g := newGuard(c.Data, c.Spare)
		src := g.b()
		if c.Data == nil {
			src = nil
		}
		got := m.pad(src, c.Block)
		if !bytes.Equal(got, want) {
			return fail("%s(%d bytes, %d) = %s, want %s", m.name, len(c.Data), c.Block, hexs(got), hexs(want))
		}
		if err := g.check(m.name); err != nil {
			return err
		}
		if len(c.Data) <= 4096 {
			if err := again(m.name, func() []byte {
				if c.Data == nil {
					return m.pad(nil, c.Block)
				}
				return m.pad(append(make([]byte, 0, len(c.Data)+c.Spare), c.Data...), c.Block)
			}); err != nil {
				return err
			}
			got = append([]byte{}, want...)
		}
		un := func(p []byte) []byte { return util.PKCS5UnPadding(p) }
		if m.b == 0 {
			un = func(p []byte) []byte { return util.UnZeroPadding(p, wantPad) }
		}
		p := newGuard(got, 8)
		if back := un(p.b()); !bytes.Equal(back, c.Data) {
			return fail("unpadding after %s gives %s, want %s", m.name, hexs(back), hexs(c.Data))
		}
		if err := p.check("unpadding"); err != nil {
			return err
		}
		if 16%c.Block == 0 && c.Block == 16 {
			ct, err := sm4.CBCEncrypt(c.Key, c.IV, got)
			if err != nil {
				return fail("CBCEncrypt of padded data: %v", err)
			}
			pt, err := sm4.CBCDecrypt(c.Key, c.IV, ct)
			if err != nil || !bytes.Equal(un(pt), c.Data) {
				return fail("pad, CBC encrypt, decrypt, unpad is not the identity: %s, %v", hexs(pt), err)
			}
			if ct, err = sm4.ECBEncrypt(c.Key, got); err != nil {
				return fail("ECBEncrypt of padded data: %v", err)
			}
			pt, err = sm4.ECBDecrypt(c.Key, ct)
			if err != nil || !bytes.Equal(un(pt), c.Data) {
				return fail("pad, ECB encrypt, decrypt, unpad is not the identity: %s, %v", hexs(pt), err)
			}
		}
	}
	return nil
}

func init() {
	var every []digestCase
	for n := 0; n <= 330; n++ {
		every = append(every, digestCase{Msg: randBytes(uint64(n), n)})
	}
	register("P01",
		NewSub("digest", "generated messages of 0-600 bytes around block boundaries (plus every length 0-330): one-shot and hash-object digest against a literal transcription of GB/T 32905; non-trivial: non-empty message", 40000, 1500000,
			func(t *rapid.T) digestCase { return digestCase{Msg: genDigestMsg(t, "msg")} }, runDigest, every...),
		Slow(NewSub("large", "messages of 1 kB - 400 kB with random textures; non-trivial: all", 300, 6000,
			func(t *rapid.T) digestCase {
				return digestCase{Msg: HB(genFill(t, "m", intR(t, "n", 1000, 400000)))}
			}, runDigest), 300),
		Slow(NewSub("long", "constant messages of 2^28 to 2^32+3 bytes whose digests OpenSSL computed; non-trivial: all", 0, 0, nil, runConst, slices.Concat(longDigests, longerDigests, longestDigests[:1])...), 900),
		ThoroughOnly(Slow(NewSub("longest", "constant messages of 2^32 bytes and more whose digests OpenSSL computed", 0, 0, nil, runConst, longestDigests...), 900)))
	register("P02",
		NewSub("history", "generated histories of writes, digests and resets over three interleaved hash objects against a byte-log model; non-trivial: a digest followed by another write or digest of the same object", 12000, 500000, genHashHistory, runHashHistory),
		NewSub("split", "one message written in generated pieces; non-trivial: at least two pieces and more than a block", 12000, 400000, func(t *rapid.T) hashHistory {
			m := genBytes(t, "m", 700, 64)
			var h hashHistory
			for len(m) > 0 {
				n := min(len(m), pick(t, "n", 0, 1, 2, 3, 4, 5, 7, 55, 56, 63, 64, 65, 128, intR(t, "any", 1, 700)))
				h.Ops = append(h.Ops, hashOp{Op: "write", Data: m[:n]})
				m = m[n:]
				if len(h.Ops) > 200 {
					break
				}
			}
			h.Ops = append(h.Ops, hashOp{Op: "sum"})
			return h
		}, func(rec *Rec, c hashHistory) error {
			n := 0
			for _, o := range c.Ops {
				n += len(o.Data)
			}
			if len(c.Ops) > 2 && n > 64 {
				rec.NT()
			}
			return runHashHistory(rec, c)
		}),
		Slow(NewSub("long", "streams of 2^28 and more bytes whose digests OpenSSL computed", 0, 0, nil, runConst, longDigests[:2]...), 600))
	register("P03", NewSub("hmac", "generated keys (0-200 bytes, around the block size) and messages: Size, BlockSize, HMAC (incremental, repeated, reset), HKDF and PBKDF2 over the hash object against RFC 2104/5869/8018 over the reference digest; non-trivial: all", 6000, 200000, genHmac, runHmac))
	register("P04", NewSub("blocks", "generated histories of block encryptions and decryptions over up to three cipher objects against a reference SM4 with algebraically derived S-box; non-trivial: more than one operation", 40000, 1500000, genBlockHistory, runBlockHistory))
	register("P05", NewSub("modes", "generated key, IV and 0-100 blocks of data: ECB and CBC against textbook modes over the reference cipher; non-trivial: more than one block", 20000, 600000, genMode, runMode),
		Slow(NewSub("large", "as modes, with 100-70000 blocks of textured data; non-trivial: all", 160, 4000, func(t *rapid.T) bigMode {
			return bigMode{genKey16(t, "key"), genKey16(t, "iv"), pick(t, "n", 127, 128, 129, 255, 256, 257, 511, 512, 1024, 4096, 4097, 8192, 16384, intR(t, "any", 100, 3000), intR(t, "more", 3000, 20000)), u64(t, "seed")}
		}, runBigMode, bigMode{HB("0123456789abcdef"), HB("fedcba9876543210"), 65535, 1}, bigMode{HB("0123456789abcdef"), HB("fedcba9876543210"), 65536, 2}, bigMode{HB("0123456789abcdef"), HB("fedcba9876543210"), 70000, 3}), 120))
	register("P06", NewSub("sizes", "generated combinations of key, IV and data sizes; non-trivial: some size is wrong", 60000, 2000000, genSizes, runSizes))
	register("P07", NewSub("padding", "generated data, block sizes 1-255 and spare capacities; non-trivial: spare capacity behind the data and block size above 1", 30000, 900000, genPad, runPad),
		NewSub("large", "as padding, with data of 600-140000 bytes; non-trivial: as there", 400, 10000, func(t *rapid.T) bigPad {
			return bigPad{genPad(t), pick(t, "n", 4095, 4096, 4097, 65535, 65536, 65537, intR(t, "any", 600, 9000), intR(t, "more", 9000, 140000)), u64(t, "seed")}
		}, runBigPad))
}
