package main

import (
	"os"
	"testing"
)

// FuzzSub explores the sub-check named by GMVERIF_FUZZ ("P32/certificates").
func FuzzSub(f *testing.F) {
	name := os.Getenv("GMVERIF_FUZZ")
	for p, subs := range registry {
		for _, s := range subs {
			if p+"/"+s.Name == name {
				fuzzSub(f, p, s, os.Getenv("GMVERIF_FUZZ_OUT"), os.Getenv("GMVERIF_FUZZ_DRY") != "")
				return
			}
		}
	}
	f.Skip("GMVERIF_FUZZ names no sub-check")
}
