package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Rec records what one case exercised.
type Rec struct {
	Replay  bool
	nontriv bool
	classes []string
}

// Class counts the case under a label (input distribution, reported in the
// evidence).
func (r *Rec) Class(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	r.classes = append(r.classes, format)
}

// NT marks the case as non-trivial by the sub-check's rule.
func (r *Rec) NT() { r.nontriv = true }

// Sub is one generator/oracle pair of a property.
type Sub struct {
	Name            string
	Rule            string        // what a case is and when it is non-trivial
	Quick, Thorough int           // generated cases per run, over all workers
	CPULimit        time.Duration // per case; 0 = caseCPU
	Deep            bool          // thorough tier only, fixed cases included
	explore         func(w *worker, checks int, seed uint64)
	replay          func(raw json.RawMessage) (error, bool)
	once            func(t *rapid.T, run bool) (json.RawMessage, error) // one generated case
}

var registry = map[string][]Sub{}

func register(prop string, subs ...Sub) { registry[prop] = append(registry[prop], subs...) }

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
}

// harnessBug is a problem of the check itself, never of the code under test.
type harnessBug struct{ msg string }

func bug(format string, a ...any) { panic(harnessBug{fmt.Sprintf(format, a...)}) }

// fail builds the error a check returns for a violated property.
func fail(format string, a ...any) error { return fmt.Errorf(format, a...) }

// noEndError is the panic raised by a generated entropy source that is asked
// for far more bytes than any terminating operation needs.
type noEndError struct{}

func (noEndError) Error() string { return "the operation keeps asking for entropy without end" }

// Slow raises the per-case CPU limit of a sub-check whose cases are large.
func Slow(s Sub, seconds int) Sub { s.CPULimit = time.Duration(seconds) * time.Second; return s }

// ThoroughOnly leaves a sub-check out of the quick tier.
func ThoroughOnly(s Sub) Sub { s.Deep = true; return s }

func runCase[C any](rec *Rec, c C, run func(*Rec, C) error) (err error) {
	resetWorld()
	defer func() {
		if p := recover(); p != nil {
			if b, ok := p.(harnessBug); ok {
				panic(b)
			}
			st := string(debug.Stack())
			if e, ok := p.(error); ok && errors.Is(e, noEndError{}) {
				err = fail("%v", e)
				return
			}
			err = fail("panic: %v\n%s", p, trimStack(st))
		}
		resetWorld()
	}()
	return run(rec, c)
}

func trimStack(s string) string {
	i := strings.Index(s, "panic(")
	if i > 0 {
		s = s[i:]
	}
	if len(s) > 1800 {
		s = s[:1800]
	}
	return s
}

// NewSub builds a sub-check from a generator of serialisable cases and an
// executable oracle. enum cases are always run.
func NewSub[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Rec, C) error, enum ...C) Sub {
	s := Sub{Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	s.replay = func(raw json.RawMessage) (error, bool) {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return err, false
		}
		return runCase(&Rec{Replay: true}, c, run), true
	}
	if gen != nil {
		s.once = func(t *rapid.T, exec bool) (json.RawMessage, error) {
			c := gen(t)
			raw, err := json.Marshal(c)
			if err != nil {
				bug("marshal: %v", err)
			}
			if !exec {
				return raw, nil
			}
			return raw, runCase(&Rec{}, c, run)
		}
	}
	s.explore = func(w *worker, checks int, seed uint64) {
		do := func(c C) error {
			raw, err := json.Marshal(c)
			if err != nil {
				bug("marshal: %v", err)
			}
			w.begin(name, raw)
			rec := &Rec{}
			err = runCase(rec, c, run)
			w.end(name, rule, raw, rec, err)
			return err
		}
		for i, c := range enum {
			if i%w.n != w.i {
				continue
			}
			if err := do(c); err != nil {
				return
			}
		}
		if checks <= 0 || gen == nil {
			return
		}
		tb := &plainTB{}
		setFlag("rapid.checks", fmt.Sprint(checks))
		setFlag("rapid.seed", fmt.Sprint(seed))
		setFlag("rapid.nofailfile", "true")
		setFlag("rapid.shrinktime", "8s")
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(tbStop); !ok {
						panic(p)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := gen(t)
				if err := do(c); err != nil {
					t.Fatalf("violated") // constant, so that shrinking compares causes by case only
				}
			})
		}()
		if tb.failed && w.viol == nil {
			bug("rapid failed without a violation in %s: %s", name, tb.log)
		}
	}
	return s
}

// NewSweep builds a sub-check that runs every case of an enumeration.
func NewSweep[C any](name, rule string, list func() []C, run func(*Rec, C) error) Sub {
	s := NewSub(name, rule, 0, 0, nil, run)
	s.explore = func(w *worker, _ int, seed uint64) {
		NewSub(name, rule, 0, 0, nil, run, list()...).explore(w, 0, seed)
	}
	return s
}

// worker explores the sub-checks of one property.
type worker struct {
	prop    string
	i, n    int
	stats   map[string]*subStats
	viol    *violation
	current *os.File
	hashes  map[uint64]struct{}
	// watched by the watchdog
	caseSeq   atomic.Int64
	caseStart atomic.Int64 // process CPU, ns
	limit     atomic.Int64 // ns
	maxRSS    atomic.Int64
}

type subStats struct {
	Rule    string            `json:"rule"`
	Cases   int               `json:"cases"`
	NonTriv int               `json:"nontrivial"`
	Classes map[string]int    `json:"classes"`
	Samples []json.RawMessage `json:"samples"`
	CPU     float64           `json:"cpu_s"`
	start   time.Duration
}

func (w *worker) begin(sub string, raw []byte) {
	buf := make([]byte, 0, len(raw)+len(sub)+32)
	buf = append(buf, fmt.Sprintf("%10d %s\n", len(raw), sub)...)
	buf = append(buf, raw...)
	if w.current != nil {
		if _, err := w.current.WriteAt(buf, 0); err != nil {
			bug("current case: %v", err)
		}
	}
	w.caseStart.Store(int64(cpuTime()))
	w.caseSeq.Add(1)
}

func (w *worker) end(sub, rule string, raw []byte, rec *Rec, err error) {
	w.caseSeq.Add(1)
	st := w.stats[sub]
	if st == nil {
		st = &subStats{Rule: rule, Classes: map[string]int{}}
		w.stats[sub] = st
	}
	if err != nil {
		w.viol = &violation{w.prop, sub, append(json.RawMessage{}, raw...), err.Error()}
		return
	}
	if w.viol != nil {
		return // shrinking: do not count
	}
	st.Cases++
	for _, c := range rec.classes {
		st.Classes[c]++
	}
	if rec.nontriv {
		h := sha256.Sum256(append([]byte(sub+"\x00"), raw...))
		k := binary.BigEndian.Uint64(h[:])
		if _, dup := w.hashes[k]; !dup {
			w.hashes[k] = struct{}{}
			st.NonTriv++
			if len(st.Samples) < 2 {
				s := raw
				if len(s) > 1500 {
					s, _ = json.Marshal(string(s[:1500]) + "...(cut)")
				}
				st.Samples = append(st.Samples, append(json.RawMessage{}, s...))
			}
		}
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Limits on a single case. They are far above what any case needs (slowest:
// some seconds) and are measured in CPU time, so a busy machine cannot trip
// them.
const (
	caseCPU   = 60 * time.Second
	caseBytes = 5 << 29 // resident bytes; 6 GiB for slow sub-checks
)

var workerRE = regexp.MustCompile(`(?m)^goroutine \d+ \[([^\]]*)\]`)

func (w *worker) setLimit(s Sub) {
	w.limit.Store(int64(max(caseCPU, s.CPULimit)))
	w.maxRSS.Store(caseBytes)
	if s.CPULimit > 0 {
		w.maxRSS.Store(6 << 30)
	}
}

// watchdog ends the process with a violation when a case does not terminate:
// it burns CPU without end, allocates without end, or all goroutines of the
// process are blocked for good.
func (w *worker) watchdog(report func(msg string)) {
	seq := int64(-1)
	ticks, blocked := 0, 0
	for {
		time.Sleep(250 * time.Millisecond)
		s := w.caseSeq.Load()
		if s%2 == 0 { // between cases
			seq, ticks, blocked = s, 0, 0
			continue
		}
		if s != seq {
			seq, ticks, blocked = s, 0, 0
		}
		ticks++
		if d := cpuTime() - time.Duration(w.caseStart.Load()); d > time.Duration(w.limit.Load()) {
			report(fmt.Sprintf("the case does not terminate (%.0f s of CPU time used)", d.Seconds()))
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			var size, rss int64
			fmt.Sscan(string(b), &size, &rss)
			if rss*4096 > w.maxRSS.Load() {
				report("the case allocates memory without bound")
			}
		}
		if ticks >= 40 && ticks%8 == 0 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if allBlocked(string(buf)) && w.caseSeq.Load() == seq {
				blocked++
			} else {
				blocked = 0
			}
			if blocked >= 10 {
				report("the case is blocked for good (deadlock):\n" + cut(string(buf), 3000))
			}
		} else if ticks < 40 {
			blocked = 0
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func allBlocked(stacks string) bool {
	ms := workerRE.FindAllStringSubmatch(stacks, -1)
	others := 0
	for i, m := range ms {
		if i == 0 {
			continue // the watchdog itself comes first
		}
		st := strings.SplitN(m[1], ",", 2)[0]
		switch {
		case strings.HasPrefix(st, "semacquire"), strings.HasPrefix(st, "sync."), strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"):
			others++
		default:
			return false
		}
	}
	return others > 0
}

func subSeed(seed uint64, prop, sub string, w int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", seed, prop, sub, w)))
	return binary.BigEndian.Uint64(h[:])>>1 | 1
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// plainTB lets rapid run outside "go test".
type plainTB struct {
	failed bool
	log    string
}

type tbStop struct{}

func (t *plainTB) Helper()                   {}
func (t *plainTB) Name() string              { return "verif" }
func (t *plainTB) Logf(f string, a ...any)   { t.add(fmt.Sprintf(f, a...)) }
func (t *plainTB) Log(a ...any)              { t.add(fmt.Sprint(a...)) }
func (t *plainTB) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *plainTB) Skip(a ...any)             { panic(tbStop{}) }
func (t *plainTB) SkipNow()                  { panic(tbStop{}) }
func (t *plainTB) Errorf(f string, a ...any) { t.failed = true; t.add(fmt.Sprintf(f, a...)) }
func (t *plainTB) Error(a ...any)            { t.failed = true; t.add(fmt.Sprint(a...)) }
func (t *plainTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *plainTB) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *plainTB) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *plainTB) Fail()                     { t.failed = true }
func (t *plainTB) Failed() bool              { return t.failed }
func (t *plainTB) add(s string)              { t.log = cut(t.log+s+"\n", 4000) }
