// Command gmverif explores and replays the properties of /verif/properties.jsonl
// against the ZZMarquis/gm sources it was built with. check.py drives it.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"time"
)

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		bug("flag %s: %v", k, err)
	}
}

// exit codes of the worker process
const (
	exitOK   = 0
	exitViol = 1
	exitBug  = 2
)

func main() {
	prop := flag.String("prop", "", "property id")
	idx := flag.Int("worker", 0, "worker index")
	n := flag.Int("of", 1, "number of workers")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("vseed", 1, "seed")
	out := flag.String("out", "", "result file prefix")
	only := flag.String("sub", "", "only this sub-check")
	scale := flag.Float64("scale", 1, "multiply case counts")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list properties")
	fuzzable := flag.Bool("fuzzable", false, "list the sub-checks for coverage-guided exploration")
	lits := flag.String("literals", "", "list the constants of the Go sources below a directory")
	cold := flag.Bool("cold", false, "run the cold-start case on standard input")
	testing.Init()
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetTraceback("single")

	if *lits != "" {
		fmt.Print(literalLines(literals(*lits)))
		return
	}
	if *cold {
		os.Exit(coldChild())
	}
	if *list {
		for _, p := range sortedKeys(registry) {
			var s []string
			for _, x := range registry[p] {
				s = append(s, fmt.Sprintf("%s(%d/%d)", x.Name, x.Quick, x.Thorough))
			}
			fmt.Println(p, strings.Join(s, " "))
		}
		return
	}
	if *fuzzable {
		for _, s := range registry[*prop] {
			if s.once != nil && s.CPULimit == 0 && !s.Deep {
				fmt.Println(s.Name)
			}
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	subs, ok := registry[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(exitBug)
	}
	w := &worker{prop: *prop, i: *idx, n: *n, stats: map[string]*subStats{}, hashes: map[uint64]struct{}{}}
	if *out != "" {
		f, err := os.Create(*out + ".current")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitBug)
		}
		w.current = f
	}
	finish := func(code int) {
		if *out != "" {
			b, _ := json.Marshal(map[string]any{"stats": w.stats, "violation": w.viol, "code": code})
			hs := make([]byte, 0, 8*len(w.hashes))
			for h := range w.hashes {
				hs = binary.BigEndian.AppendUint64(hs, h)
			}
			if os.WriteFile(*out+".hashes", hs, 0o644) != nil || os.WriteFile(*out+".json", b, 0o644) != nil {
				code = exitBug
			}
		} else if w.viol != nil {
			fmt.Println("VIOLATED", w.viol.Sub, string(w.viol.Case), w.viol.Message)
		} else {
			for _, k := range sortedKeys(w.stats) {
				s := w.stats[k]
				fmt.Printf("%s cases=%d nontrivial=%d cpu=%.2fs\n", k, s.Cases, s.NonTriv, s.CPU)
				for _, c := range sortedKeys(s.Classes) {
					fmt.Printf("    %-40s %d\n", c, s.Classes[c])
				}
			}
		}
		os.Exit(code)
	}
	go w.watchdog(func(msg string) {
		// The case that does not return is in the .current file.
		fmt.Fprintln(os.Stderr, "WATCHDOG:", msg)
		os.Exit(exitViol)
	})
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintf(os.Stderr, "HARNESS: %v\n%s\n", p, debug.Stack())
			os.Exit(exitBug)
		}
	}()
	for _, s := range subs {
		if *only != "" && s.Name != *only {
			continue
		}
		if s.Deep && *tier != "thorough" {
			continue
		}
		w.setLimit(s)
		total := s.Quick
		if *tier == "thorough" {
			total = s.Thorough
		}
		total = int(float64(total) * *scale)
		checks := total / *n
		if *idx < total%*n {
			checks++
		}
		start := cpuTime()
		s.explore(w, checks, subSeed(*seed, *prop, s.Name, *idx))
		if st := w.stats[s.Name]; st != nil {
			st.CPU = (cpuTime() - start).Seconds()
		}
		if w.viol != nil {
			finish(exitViol)
		}
	}
	finish(exitOK)
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitBug
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitBug
	}
	for _, s := range registry[v.Property] {
		if s.Name != v.Sub {
			continue
		}
		w := &worker{prop: v.Property, n: 1}
		w.setLimit(s)
		w.caseStart.Store(int64(cpuTime()))
		w.caseSeq.Store(1)
		go w.watchdog(func(msg string) {
			fmt.Println("REPRODUCED:", msg)
			os.Exit(exitViol)
		})
		start := time.Now()
		err, ok := s.replay(v.Case)
		if !ok {
			fmt.Fprintln(os.Stderr, "bad case:", err)
			return exitBug
		}
		if err != nil {
			fmt.Printf("REPRODUCED: %s/%s after %v: %v\n", v.Property, v.Sub, time.Since(start).Round(time.Millisecond), err)
			return exitViol
		}
		fmt.Println("not reproduced")
		return exitOK
	}
	fmt.Fprintln(os.Stderr, "no sub-check", v.Property, v.Sub)
	return exitBug
}
