package main

import (
	"encoding/json"
	"errors"
	"math/rand/v2"
	"os"
	"testing"

	"pgregory.net/rapid"
)

// Coverage-guided exploration of a sub-check: the fuzzer's bytes are the
// generator's random choices, so that inputs which reach new code of the
// library are kept and varied. Driven by fuzz_test.go under "go test -fuzz".

// fuzzPad follows every fuzzer input, so that a short one is not refused.
var fuzzPad = func() []byte {
	r := rand.New(rand.NewPCG(7, 11))
	b := make([]byte, 1<<15)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}()

// fuzzSub is the fuzz target of the sub-check; a failing case goes to out. A
// dry run only writes the case.
func fuzzSub(f *testing.F, prop string, s Sub, out string, dry bool) {
	for i := range 12 {
		if dry {
			break
		}
		r := rand.New(rand.NewPCG(uint64(i), 3))
		b := make([]byte, 8<<(i%7))
		for j := range b {
			b[j] = byte(r.Uint64())
		}
		f.Add(b)
	}
	target := rapid.MakeFuzz(func(t *rapid.T) {
		raw, err := s.once(t, !dry)
		if dry {
			err = errors.New("the process ended or did not come back")
		}
		if err != nil {
			b, _ := json.Marshal(violation{prop, s.Name, raw, err.Error()})
			if out != "" {
				os.WriteFile(out, b, 0o644)
			}
			t.Fatalf("%s/%s violated: %v\n%s", prop, s.Name, err, raw)
		}
	})
	f.Fuzz(func(t *testing.T, in []byte) {
		if len(in) > 1<<14 {
			t.Skip()
		}
		in = in[: len(in)&^7 : len(in)&^7]
		target(t, append(in, fuzzPad...))
	})
}
