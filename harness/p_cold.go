package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Cold starts (P40, P41): the operations of a case are the first use of the
// packages in a process of their own, so that state which is set up on first
// use is set up by them. With several goroutines, each builds its own objects
// after the start signal.

type coldCase struct {
	P   Pool
	Ops [][]Op // one list per goroutine
}

func genCold(conc bool) func(*rapid.T) coldCase {
	return func(t *rapid.T) coldCase {
		c := coldCase{P: genPool(t, coin(t, "certs", 2, 3))}
		kinds := opKinds
		if coin(t, "focus", 2, 3) {
			kinds = nil
			for i := intR(t, "kinds", 1, 3); i > 0; i-- {
				kinds = append(kinds, rapid.SampledFrom(opKinds).Draw(t, "kind"+itoa(i)))
			}
		}
		n := 1
		if conc {
			n = intR(t, "goroutines", 2, 5)
		}
		for i := n; i > 0; i-- {
			var l []Op
			for j := intR(t, "n"+itoa(i), 1, 4); j > 0; j-- {
				l = append(l, genOp(t, itoa(i)+"."+itoa(j), kinds))
			}
			c.Ops = append(c.Ops, l)
		}
		return c
	}
}

// richPool has certificates, requests and templates that use every field.
func richPool() Pool {
	p := repeats(1, 1)[0].P
	san := SAN{DNS: []string{"a.example", "b.example"}, Mail: []string{"m@a.example"}, IP: []HB{{10, 1, 2, 3}, HB(randBytes(9, 16))}, URI: []string{"http://u.example:80/p?q", "urn:x"}}
	name := Name{C: []string{"CN"}, O: []string{"O"}, OU: []string{"u", "v"}, L: []string{"L"}, ST: []string{"S"}, SA: []string{"street"}, PC: []string{"1"}, CN: "cn", SN: "7"}
	v4, v6 := NetC{HB{10, 0, 0, 0}, HB{255, 0, 0, 0}}, NetC{make(HB, 16), make(HB, 16)}
	t := Tmpl{Subject: name, Serial: i64(77), NA: 1e9, KU: 0x1ff, EKU: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, UEKU: [][]int{{1, 2, 3, 4}}, BC: true, CA: true, PathLen: 3,
		SKI: HB{1, 2, 3}, AKI: HB{4, 5}, OCSP: []string{"http://o.example"}, Iss: []string{"http://i.example"}, SAN: san, Policies: [][]int{{1, 2, 3}, {2, 999, 1}},
		NC:  NC{Crit: true, PD: []string{"a.example"}, XD: []string{".b.example"}, PI: []NetC{v4}, XI: []NetC{v6}, PM: []string{"m@a.example"}, XM: []string{"x.example"}, PU: []string{"u.example"}, XU: []string{".v.example"}},
		CRL: []string{"http://c.example/1", "http://c.example/2"}}
	extra := t
	extra.SAN, extra.KU, extra.Extra = SAN{}, 0, []Ext{{oidKU, true, kuDER(6)}, {OID: []int{1, 2, 3, 9}, V: HB{5, 0}}}
	p.Issues = []Issue{{T: t, Parent: Name{CN: "ca"}, PSKI: HB{9}, Sig: HB{1, 2}}, {T: extra, Parent: name, Chain: true, Sig: HB{3}}}
	p.Reqs = []Req{{Subject: name, SAN: san, Extra: extra.Extra}, {Subject: name, SAN: san}}
	f := Foreign{Version: 2, Serial: i64(5), Issuer: Name{CN: "ca"}.der(), Subject: name.der(), NA: 1e9, Sig: HB{1}, Exts: t.exts(t.AKI)}
	r := f
	r.CSR = true
	p.Foreigns = []Foreign{f, r}
	return p
}

// listCold has one case for every kind and variant of operation.
func listCold(conc bool) (out []coldCase) {
	p := richPool()
	for _, k := range sortedKeys(kindSet()) {
		for v := 0; v < 4; v++ {
			c := coldCase{P: p}
			if !conc {
				c.Ops = [][]Op{{{Kind: k, A: v, B: v / 2, I: v, M: v, N: v, Seed: uint64(v)}, {Kind: k, B: 1, N: 1}}}
				out = append(out, c)
				continue
			}
			for g := 0; g < 3; g++ {
				c.Ops = append(c.Ops, []Op{{Kind: k, A: g, B: v / 2, I: v, M: g, N: v, Seed: uint64(g)}, {Kind: k, A: v, B: g, N: g + v, Seed: 3}})
			}
			out = append(out, c)
		}
	}
	return
}

func kindSet() map[string]bool {
	m := map[string]bool{}
	for _, k := range opKinds {
		m[k] = true
	}
	return m
}

const coldBugExit = 3

// coldChild runs the case on its standard input.
func coldChild() int {
	raw, err := io.ReadAll(os.Stdin)
	var c coldCase
	if err == nil {
		err = json.Unmarshal(raw, &c)
	}
	if err != nil {
		fmt.Println(err)
		return coldBugExit
	}
	w := &worker{n: 1}
	w.setLimit(Sub{})
	w.caseStart.Store(int64(cpuTime()))
	w.caseSeq.Store(1)
	go w.watchdog(func(msg string) {
		fmt.Println("WATCHDOG:", msg)
		os.Exit(exitViol)
	})
	errs := make([]error, len(c.Ops))
	for k := Key(0); k < keyPool; k++ {
		k.load()
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, l := range c.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					if b, ok := p.(harnessBug); ok {
						errs[i] = fmt.Errorf("HARNESS %s", b.msg)
						return
					}
					errs[i] = fail("goroutine %d: panic: %v", i, p)
				}
			}()
			<-start
			w, err := newWorld(c.P)
			if err != nil {
				errs[i] = err
				return
			}
			x := &runner{w: w, rec: &Rec{}, shared: true}
			for j, o := range l {
				if err := x.do(o); err != nil {
					errs[i] = fail("goroutine %d, operation %d of a new process: %v", i, j, err)
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			fmt.Println(err)
			if strings.HasPrefix(err.Error(), "HARNESS ") {
				return coldBugExit
			}
			return exitViol
		}
	}
	return exitOK
}

func runCold(rec *Rec, c coldCase) error {
	raw, err := json.Marshal(c)
	if err != nil {
		bug("marshal: %v", err)
	}
	times := 1
	if rec.Replay && len(c.Ops) > 1 {
		times = 30
	}
	for ; times > 0; times-- {
		var out bytes.Buffer
		cmd := exec.Command("/proc/self/exe", "-cold")
		cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(raw), &out, &out
		if err := cmd.Start(); err != nil {
			bug("starting a new process: %v", err)
		}
		slow := time.AfterFunc(400*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		if !slow.Stop() {
			bug("the new process does not end")
		}
		switch code := cmd.ProcessState.ExitCode(); {
		case err == nil:
		case code == exitViol:
			return fail("%s", cut(out.String(), 3000))
		case code == coldBugExit:
			bug("new process: %s", out.String())
		default:
			// A data race or a crash of the process: not shrunk, because it need
			// not happen again. The case is the current one.
			os.Stderr.WriteString(cut(out.String(), 20000))
			fmt.Fprintf(os.Stderr, "\nthe new process ended with %v\n", err)
			os.Exit(66)
		}
	}
	if len(c.Ops) > 1 || len(c.Ops[0]) > 0 {
		rec.NT()
	}
	for _, l := range c.Ops {
		for _, o := range l {
			rec.Class("%s", o.Kind)
		}
	}
	return nil
}
