package main

import (
	"crypto/rand"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	mrand "math/rand/v2"
	"strings"
)

// HB is a byte string that JSON shows in hex; nil and empty stay distinct.
type HB []byte

func (h HB) MarshalJSON() ([]byte, error) {
	if h == nil {
		return []byte("null"), nil
	}
	// long constant runs are abbreviated as "rep:<byte>:<count>"
	if len(h) > 4096 {
		same := true
		for _, b := range h {
			if b != h[0] {
				same = false
				break
			}
		}
		if same {
			return json.Marshal("rep:" + hex.EncodeToString(h[:1]) + ":" + itoa(len(h)))
		}
	}
	out := make([]byte, 2+2*len(h))
	out[0], out[len(out)-1] = '"', '"'
	hex.Encode(out[1:], h)
	return out, nil
}

func (h *HB) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		*h = nil
		return nil
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "rep:") {
		f := strings.Split(s, ":")
		c, err := hex.DecodeString(f[1])
		if err != nil {
			return err
		}
		n := atoi(f[2])
		o := make(HB, n)
		for i := range o {
			o[i] = c[0]
		}
		*h = o
		return nil
	}
	d, err := hex.DecodeString(s)
	if err != nil {
		return err
	}
	if d == nil {
		d = []byte{}
	}
	*h = d
	return nil
}

var sysReader = rand.Reader

// resetWorld restores the process-wide state a case may have replaced.
func resetWorld() { rand.Reader = sysReader }

var errEntropy = errors.New("entropy source failed")

// Entropy describes a deterministic entropy source.
type Entropy struct {
	Prefix HB     // delivered first
	Seed   uint64 // then a ChaCha8 stream
	Mode   int    // delivery: 0 whole, 1 single bytes, 2 random pieces, 3 with empty reads
	FailAt int    // fail once this many bytes were delivered; 0 = never (see Fails)
	Fails  bool
	EOF    int // kind of failure: 0 error, 1 io.EOF, 2 io.ErrUnexpectedEOF, 3 data together with an error
}

type entropyReader struct {
	e     Entropy
	rng   *mrand.ChaCha8
	piece *mrand.Rand
	given int
	calls int
	max   int
}

func seedBytes(seed uint64) (b [32]byte) {
	binary.BigEndian.PutUint64(b[:], seed)
	copy(b[8:], "verif entropy stream....")
	return
}

func prng(seed uint64) *mrand.ChaCha8 { return mrand.NewChaCha8(seedBytes(seed)) }

func randBytes(seed uint64, n int) []byte {
	b := make([]byte, n)
	prng(seed).Read(b)
	return b
}

func newEntropy(e Entropy) *entropyReader {
	b := seedBytes(e.Seed)
	copy(b[8:], "for the library only....") // not the bytes generated keys are made of
	return &entropyReader{e: e, rng: mrand.NewChaCha8(b), piece: mrand.New(mrand.NewPCG(e.Seed, 7)), max: 1 << 20}
}

func (r *entropyReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	r.calls++
	n := len(p)
	switch r.e.Mode {
	case 1:
		n = 1
	case 2:
		n = 1 + r.piece.IntN(n)
	case 3:
		if r.calls%3 != 0 {
			return 0, nil
		}
		n = 1 + r.piece.IntN(n)
	}
	var err error
	if r.e.Fails && r.given+n >= r.e.FailAt {
		rest := r.e.FailAt - r.given
		fe := errEntropy
		switch r.e.EOF {
		case 1:
			fe = io.EOF
		case 2:
			fe = io.ErrUnexpectedEOF
		}
		if rest <= 0 {
			r.calls++
			if r.calls > 100000 {
				panic(noEndError{})
			}
			return 0, fe
		}
		n = rest
		if r.e.EOF == 3 {
			err = fe
		}
	}
	for i := 0; i < n; {
		if o := r.given + i; o < len(r.e.Prefix) {
			p[i] = r.e.Prefix[o]
			i++
			continue
		}
		r.rng.Read(p[i:n])
		break
	}
	r.given += n
	if r.given > r.max {
		panic(noEndError{})
	}
	return n, err
}

// setEntropy makes the library's process-wide entropy source deterministic
// until the end of the case.
func setEntropy(e Entropy) *entropyReader {
	r := newEntropy(e)
	rand.Reader = r
	return r
}

func seedEntropy(seed uint64) *entropyReader { return setEntropy(Entropy{Seed: seed}) }
