package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// A Prop is a listed property: a set of sub-checks, each generator + check.
type Prop struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Level       string
	Assumptions []string
	Subs        []Sub
}

// A Sub is a generator of JSON-able cases and a deterministic check of one case.
type Sub struct {
	Name     string
	Quick    int // number of cases in the quick tier (all shards together)
	Thorough int
	Shards   int
	gen      func(t *rapid.T) any
	decode   func(b []byte) (any, error)
	check    func(c *Ctx, in any) error
}

func sub[T any](name string, quick, thorough int, gen func(*rapid.T) T, check func(*Ctx, T) error) Sub {
	return Sub{
		Name: name, Quick: quick, Thorough: thorough, Shards: 8,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var v T
			err := json.Unmarshal(b, &v)
			return v, err
		},
		check: func(c *Ctx, in any) error { return check(c, in.(T)) },
	}
}

// Ctx is handed to a check; it gives scratch space and collects classification.
type Ctx struct {
	root       string // scratch of this worker
	dir        string // scratch of this case, made on demand
	bin        string // directory of the executables under test
	labels     []string
	nontrivial bool
	res        map[string]any // resources shared by the cases of one worker
	closers    []func()

	// for the check that output is the same every time: commands are run so many times more
	repeat   int
	repeated int   // commands compared with over 3 lines of output
	differs  error // the first difference
}

// Label counts the case in a class.
func (c *Ctx) Label(format string, args ...any) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Dir is an empty directory for this case.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(c.root, "case")
		infraIf(err)
		c.dir = d
	}
	return c.dir
}

func (c *Ctx) cleanup() {
	if c.dir != "" {
		os.RemoveAll(c.dir)
		c.dir = ""
	}
}

func (c *Ctx) reset() { c.labels, c.nontrivial = nil, false }

// infra is a failure of the machinery, never a violation.
type infra struct{ msg string }

func infraIf(err error) {
	if err != nil {
		panic(infra{err.Error() + "\n" + string(debug.Stack())})
	}
}

// undecided ends a case that cannot be judged.
type undecided struct{ why string }

func infraf(format string, args ...any) { panic(infra{fmt.Sprintf(format, args...)}) }

func viol(format string, args ...any) error { return fmt.Errorf(format, args...) }

// runCheck runs the check of one case; a panic in it that is not infra counts as a violation
// (in-process calls of the code under test panic that way).
func runCheck(s *Sub, c *Ctx, in any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if i, ok := r.(infra); ok {
				fmt.Fprintf(os.Stderr, "INFRA: %s\n", i.msg)
				os.RemoveAll(c.root)
				os.Exit(3)
			}
			if u, ok := r.(undecided); ok {
				c.Label("not-decided: %s", head(u.why, 60))
				return
			}
			stack := string(debug.Stack())
			if !codeUnderTest(stack) {
				fmt.Fprintf(os.Stderr, "INFRA: panic in the harness: %v\n%s\n", r, stack)
				os.RemoveAll(c.root)
				os.Exit(3)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(stack))
		}
	}()
	c.reset()
	defer c.cleanup()
	return s.check(c, in)
}

// codeUnderTest says whether the panic came from below a call of the code under test.
func codeUnderTest(stack string) bool {
	if i := strings.Index(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/mkobetic/coin"):
			return true
		case strings.HasPrefix(l, "main."):
			return false
		}
	}
	return false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// ---- worker ----

type workerOut struct {
	Evaluations int
	Excluded    int
	Labels      map[string]int
	NonTrivial  []string // hashes
	Samples     []json.RawMessage
	Violation   *violation
}

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type tbStub struct {
	failed bool
	log    []string
}

func (t *tbStub) Helper()                   {}
func (t *tbStub) Name() string              { return "vf" }
func (t *tbStub) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tbStub) Log(a ...any)              { t.log = append(t.log, fmt.Sprintln(a...)) }
func (t *tbStub) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *tbStub) Skip(a ...any)             { runtime.Goexit() }
func (t *tbStub) SkipNow()                  { runtime.Goexit() }
func (t *tbStub) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tbStub) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbStub) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); runtime.Goexit() }
func (t *tbStub) Fatal(a ...any)            { t.failed = true; t.Log(a...); runtime.Goexit() }
func (t *tbStub) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tbStub) Fail()                     { t.failed = true }
func (t *tbStub) Failed() bool              { return t.failed }

func workerSeed(seed int64, prop, sub string, shard int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", seed, prop, sub, shard)))
	v := binary.LittleEndian.Uint64(h[:8]) >> 1
	if v == 0 {
		v = 1
	}
	return v
}

func runWorker(p *Prop, s *Sub, seed int64, shard, checks int, bin, scratch string, budget time.Duration, outFile string) {
	testing.Init()
	infraIf(flag.CommandLine.Parse(nil))
	flag.Set("rapid.seed", fmt.Sprint(workerSeed(seed, p.ID, s.Name, shard)))
	flag.Set("rapid.checks", fmt.Sprint(checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
	root, err := os.MkdirTemp(scratch, "w")
	infraIf(err)
	defer os.RemoveAll(root)
	c := &Ctx{root: root, bin: bin, res: map[string]any{}}
	out := workerOut{Labels: map[string]int{}}
	seen := map[string]bool{}
	var lastCase any
	var lastErr error
	start := time.Now()
	failing := false
	tb := &tbStub{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			if !failing && time.Since(start) > budget {
				// Out of time: remaining cases are not evaluated (and not counted).
				return
			}
			in := s.gen(t)
			err := runCheck(s, c, in)
			if !failing {
				out.Evaluations++
				for _, l := range c.labels {
					out.Labels[l]++
				}
				if c.nontrivial {
					b, _ := json.Marshal(in)
					h := sha256.Sum256(b)
					k := hex.EncodeToString(h[:8])
					if !seen[k] {
						seen[k] = true
						out.NonTrivial = append(out.NonTrivial, k)
						if len(out.Samples) < 2 && len(b) < 6000 {
							out.Samples = append(out.Samples, b)
						}
					}
				}
			}
			if err != nil {
				failing = true
				lastCase, lastErr = in, err
				t.Fatalf("violation: %s", firstLine(err.Error()))
			}
		})
	}()
	<-done
	for _, f := range c.closers {
		f()
	}
	if tb.failed && lastErr == nil {
		infraf("rapid failed without a violation: %s", strings.Join(tb.log, "\n"))
	}
	if lastErr != nil {
		b, err := json.Marshal(lastCase)
		infraIf(err)
		out.Violation = &violation{Property: p.ID, Sub: s.Name, Message: lastErr.Error(), Case: b}
	}
	b, err := json.Marshal(&out)
	infraIf(err)
	infraIf(os.WriteFile(outFile, b, 0o644))
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	// the message takes part in rapid's "same failure" test: keep its beginning only
	if i := strings.IndexByte(s, ':'); i > 0 {
		s = s[:i]
	}
	return s
}

func replayFile(fn, bin, scratch string) int {
	b, err := os.ReadFile(fn)
	infraIf(err)
	var v violation
	infraIf(json.Unmarshal(b, &v))
	p, s := findSub(v.Property, v.Sub)
	if p == nil || s == nil {
		infraf("unknown property/sub in %s", fn)
	}
	in, err := s.decode(v.Case)
	infraIf(err)
	root, err := os.MkdirTemp(scratch, "r")
	infraIf(err)
	defer os.RemoveAll(root)
	c := &Ctx{root: root, bin: bin, res: map[string]any{}}
	seenDiffers = true
	err = runCheck(s, c, in)
	for _, f := range c.closers {
		f()
	}
	if err != nil {
		fmt.Printf("FAILS property=%s sub=%s\n%s\n", v.Property, v.Sub, err)
		return 1
	}
	fmt.Printf("holds property=%s sub=%s\n", v.Property, v.Sub)
	return 0
}

func findSub(prop, name string) (*Prop, *Sub) {
	for _, p := range props {
		if p.ID == prop {
			for i := range p.Subs {
				if p.Subs[i].Name == name {
					return p, &p.Subs[i]
				}
			}
			return p, nil
		}
	}
	return nil, nil
}

var props []*Prop

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props = append(props, p)
	sort.Slice(props, func(i, j int) bool { return props[i].ID < props[j].ID })
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func replayPath(prop, sub string) string {
	return filepath.Join(verifDir(), "replays", prop+"-"+sub+".json")
}
