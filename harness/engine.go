package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one property: a generator of cases, which are plain data, and a check of one case.
type Prop struct {
	ID   string
	Rule string
	// Gen draws a case.
	Gen func(t *rapid.T) any
	// New returns a pointer to an empty case to unmarshal into.
	New func() any
	// Check panics with *Failure if the property does not hold for the case.
	Check func(x *X, c any)
	// Cost is the relative number of cases: cases = base * Weight.
	Quick, Thorough int
}

var props = map[string]*Prop{}

func register[C any](id string, quick, thorough int, rule string, gen func(g G) *C, check func(x *X, c *C)) {
	props[id] = &Prop{
		ID: id, Rule: rule, Quick: quick, Thorough: thorough,
		Gen:   func(t *rapid.T) any { return gen(G{t}) },
		New:   func() any { return new(C) },
		Check: func(x *X, c any) { check(x, c.(*C)) },
	}
}

// Failure is a violation of a property.
type Failure struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// X is the context of one evaluation of a check.
type X struct {
	dir        string
	nontrivial bool
	labels     []string
}

// Fail reports a violation. The kind must be stable under shrinking.
func (x *X) Fail(kind, format string, args ...any) {
	panic(&Failure{kind, fmt.Sprintf(format, args...)})
}

// NonTrivial marks the case as non-trivial.
func (x *X) NonTrivial() { x.nontrivial = true }

// Label counts a class of cases.
func (x *X) Label(format string, args ...any) {
	x.labels = append(x.labels, fmt.Sprintf(format, args...))
}

// Discard skips a case that is outside of the domain of the property.
type discard struct{ why string }

func (x *X) Discard(why string) { panic(discard{why}) }

// runCheck evaluates the check. A panic of the code under test is a violation of every property.
func runCheck(p *Prop, c any) (f *Failure, x *X) {
	x = &X{dir: scratch}
	defer func() {
		r := recover()
		switch v := r.(type) {
		case nil:
		case *Failure:
			f = v
		case discard:
			x.nontrivial = false
			x.labels = append(x.labels, "discarded: "+v.why)
		case harnessBug:
			fmt.Fprintln(os.Stderr, "HARNESS BUG:", v.msg)
			fmt.Fprintln(os.Stderr, string(debug.Stack()))
			os.Exit(3)
		default:
			st := string(debug.Stack())
			site := panicSite(st)
			if _, ok := r.(runtime.Error); site == "" && ok {
				// The result of the library does not have the structure that every result has, e.g. a type is missing.
				f = &Failure{"malformed result", fmt.Sprintf("%v\n%s", r, trim(st, 3000))}
				return
			}
			if site == "" {
				fmt.Fprintln(os.Stderr, "HARNESS PANIC:", r)
				fmt.Fprintln(os.Stderr, st)
				os.Exit(3)
			}
			f = &Failure{"panic in the library", fmt.Sprintf("%v at %s\n%s", r, site, trim(st, 3000))}
		}
	}()
	p.Check(x, c)
	return nil, x
}

type harnessBug struct{ msg string }

func bug(format string, args ...any) { panic(harnessBug{fmt.Sprintf(format, args...)}) }

// panicSite returns the innermost frame that belongs to the library if the library was on the stack below the harness.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	for _, l := range lines {
		if strings.HasPrefix(l, "main.") && !strings.HasPrefix(l, "main.runCheck") {
			return "" // the harness itself panicked before any library frame
		}
		if strings.HasPrefix(l, "github.com/acronis/go-raml/v2") {
			if i := strings.LastIndex(l, "("); i > 0 {
				return l[:i]
			}
			return l
		}
	}
	return ""
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var (
	scratch   string
	caseStart atomic.Int64 // CPU time at the start of the current case, 0 if none
	caseLimit = 45 * time.Second
	heapLimit = uint64(3 << 30)
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const exitHang = 97

// watchdog ends the process if a single case does not end within a generous amount of CPU time or memory.
func watchdog() {
	go func() {
		var ms runtime.MemStats
		for i := 0; ; i++ {
			time.Sleep(100 * time.Millisecond)
			st := caseStart.Load()
			if st == 0 {
				continue
			}
			if cpuTime()-time.Duration(st) > caseLimit {
				fmt.Fprintln(os.Stderr, "WATCHDOG: case does not terminate")
				os.Exit(exitHang)
			}
			if i%5 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > heapLimit {
					fmt.Fprintln(os.Stderr, "WATCHDOG: case exhausts memory")
					os.Exit(exitHang)
				}
			}
		}
	}()
}

// quietTB is the rapid.TB that collects the outcome.
type quietTB struct{ failed bool }

type stopTB struct{}

func (q *quietTB) Helper()              {}
func (q *quietTB) Name() string         { return "check" }
func (q *quietTB) Logf(string, ...any)  {}
func (q *quietTB) Log(...any)           {}
func (q *quietTB) Skipf(string, ...any) {}
func (q *quietTB) Skip(...any)          {}
func (q *quietTB) SkipNow()             {}
func (q *quietTB) Errorf(f string, a ...any) {
	q.failed = true
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
func (q *quietTB) Error(a ...any)        { q.failed = true }
func (q *quietTB) Fatalf(string, ...any) { q.failed = true; panic(stopTB{}) }
func (q *quietTB) Fatal(...any)          { q.failed = true; panic(stopTB{}) }
func (q *quietTB) FailNow()              { q.failed = true; panic(stopTB{}) }
func (q *quietTB) Fail()                 { q.failed = true }
func (q *quietTB) Failed() bool          { return q.failed }

// Result is what a shard reports to the runner.
type Result struct {
	Prop        string         `json:"prop"`
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Failure     *Failure       `json:"failure,omitempty"`
	Case        any            `json:"case,omitempty"`
	Rule        string         `json:"rule"`
	Generated   int            `json:"generated"`
}

// Replay is the format of a saved case.
type Replay struct {
	Prop    string          `json:"prop"`
	Note    string          `json:"note,omitempty"`
	Failure *Failure        `json:"failure,omitempty"`
	Golden  *Golden         `json:"golden,omitempty"`
	Case    json.RawMessage `json:"case,omitempty"`
}

func mustJSON(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		bug("marshal: %v", err)
	}
	return bytes.TrimSpace(b.Bytes())
}

func runShard(p *Prop, seed uint64, cases int, journal, out string) {
	res := &Result{Prop: p.ID, Labels: map[string]int{}, Rule: p.Rule}
	hashes := map[uint64]struct{}{}
	jf, err := os.OpenFile(journal, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		log.Fatal(err)
	}
	var failing []byte
	set("rapid.checks", strconv.Itoa(cases))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.nofailfile", "true")
	tb := &quietTB{}
	done := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := p.Gen(t)
			data := mustJSON(c)
			res.Generated++
			// The check must see what a replay sees.
			cc := p.New()
			if err := json.Unmarshal(data, cc); err != nil {
				bug("case does not round-trip: %v", err)
			}
			_ = jf.Truncate(0)
			_, _ = jf.WriteAt(data, 0)
			caseStart.Store(int64(cpuTime()))
			f, x := runCheck(p, cc)
			caseStart.Store(0)
			if failing == nil {
				res.Evaluations++
				for _, l := range x.labels {
					res.Labels[l]++
				}
				if x.nontrivial {
					h := fnv.New64a()
					_, _ = h.Write(data)
					if _, ok := hashes[h.Sum64()]; !ok {
						hashes[h.Sum64()] = struct{}{}
						if len(res.Samples) < 2 || (len(res.Samples) < 3 && len(hashes)%500 == 0) {
							if len(data) < 6000 {
								res.Samples = append(res.Samples, json.RawMessage(data))
							}
						}
					}
				}
			}
			if f != nil {
				failing = data
				res.Failure = f
				t.Fatalf("%s", f.Kind)
			}
		})
		done = true
	}()
	_ = done
	for h := range hashes {
		res.Hashes = append(res.Hashes, strconv.FormatUint(h, 16))
	}
	sort.Strings(res.Hashes)
	if failing != nil {
		res.Case = json.RawMessage(failing)
	} else if tb.failed {
		fmt.Fprintln(os.Stderr, "HARNESS: rapid failed without a failing case")
		os.Exit(3)
	}
	if err := os.WriteFile(out, mustJSON(res), 0o644); err != nil {
		log.Fatal(err)
	}
}

func set(name, value string) {
	if err := flag.Set(name, value); err != nil {
		log.Fatal(err)
	}
}

// replayFile evaluates a saved case and returns its failure.
func replayFile(file string) (*Replay, *Failure) {
	data, err := os.ReadFile(file)
	if err != nil {
		log.Fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(data, &r); err != nil {
		log.Fatalf("%s: %v", file, err)
	}
	p := props[r.Prop]
	if p == nil {
		log.Fatalf("unknown property %q", r.Prop)
	}
	caseStart.Store(int64(cpuTime()))
	defer caseStart.Store(0)
	if r.Golden != nil {
		g := &Prop{ID: p.ID, Check: func(x *X, c any) { c.(*Golden).check(x) }}
		f, _ := runCheck(g, r.Golden)
		return &r, f
	}
	c := p.New()
	if err := json.Unmarshal(r.Case, c); err != nil {
		log.Fatalf("%s: %v", file, err)
	}
	f, _ := runCheck(p, c)
	return &r, f
}

func main() {
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	debug.SetMaxStack(128 << 20)
	log.SetOutput(io.Discard)
	log.SetFlags(0)
	mode := ""
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	cases := fs.Int("cases", 100, "")
	journal := fs.String("journal", "", "")
	out := fs.String("out", "", "")
	shrink := fs.String("shrinktime", "20s", "")
	file := fs.String("file", "", "")
	if len(os.Args) > 2 {
		_ = fs.Parse(os.Args[2:])
	}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	var err error
	scratch, err = os.MkdirTemp(base, "raml-w-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	scratch, _ = filepath.EvalSymlinks(scratch)
	defer os.RemoveAll(scratch)
	watchdog()
	switch mode {
	case "list":
		ids := make([]string, 0, len(props))
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Quick, props[id].Thorough)
		}
	case "run":
		p := props[*prop]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(4)
		}
		set("rapid.shrinktime", *shrink)
		runShard(p, *seed, *cases, *journal, *out)
	case "replay":
		_, f := replayFile(*file)
		if f != nil {
			fmt.Printf("%s: %s\n", f.Kind, f.Detail)
			_ = os.RemoveAll(scratch)
			os.Exit(1)
		}
	case "digest":
		runDigest(*file)
	case "regress":
		// Evaluate many saved cases, print one JSON line per failing one.
		for _, f := range fs.Args() {
			_, fail := replayFile(f)
			if fail != nil {
				fmt.Println(string(mustJSON(map[string]any{"file": f, "failure": fail})))
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "usage: harness list|run|replay|regress")
		os.Exit(4)
	}
}
