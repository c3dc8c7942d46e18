// Package core drives properties: it runs seeded searches over generated cases
// in several worker processes, shrinks failures, writes replay files and
// evidence, and re-checks listed findings and the regression corpus.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is the outcome of checking one case.
type Result struct {
	Violation  string   // what is wrong, empty if the property holds
	Discard    string   // reason the case says nothing about the property
	Nontrivial bool     // by the rule of the property
	Key        string   // identifies the case for counting distinct ones
	Evals      int      // number of evaluations the case stands for (default 1)
	Features   []string // for the histogram in the evidence
	Sample     string   // how the case is written out in the evidence
}

// Fail returns a violation.
func Fail(format string, args ...any) Result { return Result{Violation: fmt.Sprintf(format, args...)} }

// Env is what a check may use.
type Env struct {
	Repo    string // source tree of gowrap
	Verif   string // this framework
	Scratch string // directory for the case, emptied before each
	CLI     string // path of the built gowrap command
	Tier    string
	Seed    int64
	Worker  int
	Workers int
	Log     func(format string, args ...any)
}

// Prop is a property.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Quick int    // cases over all workers
	Deep  int    // same for the thorough tier
	Draw  func(t *rapid.T, e *Env) any
	New   func() any
	Check func(e *Env, c any) Result
	// Batch replaces Draw/Check by a custom search in the worker.
	Batch func(e *Env, out *WorkerOut, deadline time.Time) error
	// Setup runs once per check, before the workers.
	Setup       func(e *Env) error
	Assumptions []string
	MaxWorkers  int
}

// Found is a violation with the case that shows it.
type Found struct {
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
}

// WorkerOut is what a worker reports.
type WorkerOut struct {
	Evaluations int
	Discards    map[string]int
	Hashes      []uint64
	Features    map[string]int
	Samples     []string
	Violation   *Found
	HarnessErr  string
	Notes       map[string]any

	seen map[uint64]bool
}

// NewWorkerOut returns an empty report.
func NewWorkerOut() *WorkerOut {
	return &WorkerOut{Discards: map[string]int{}, Features: map[string]int{}, Notes: map[string]any{}, seen: map[uint64]bool{}}
}

// Hash of a case key.
func Hash(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.LittleEndian.Uint64(h[:8])
}

// Add accounts for one checked case.
func (o *WorkerOut) Add(r Result) {
	if r.Discard != "" {
		o.Discards[r.Discard]++
		return
	}
	n := r.Evals
	if n == 0 {
		n = 1
	}
	o.Evaluations += n
	for _, f := range r.Features {
		o.Features[f]++
	}
	if r.Nontrivial {
		h := Hash(r.Key)
		if !o.seen[h] {
			o.seen[h] = true
			o.Hashes = append(o.Hashes, h)
			// keep the first and a few later samples
			if k := len(o.Hashes); r.Sample != "" && (k == 1 || k == 10 || k == 40) {
				o.Samples = append(o.Samples, clip(r.Sample, 1800))
			}
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...(cut)"
	}
	return s
}

// Case journal: a worker notes the case it is about to check, so that a crash
// of the code under test can be attributed.
func journal(dir string, c any) {
	b, err := json.Marshal(c)
	if err == nil {
		os.WriteFile(filepath.Join(dir, "current.json"), b, 0o644)
	}
}

type tb struct{ failed bool }

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "vh" }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(string, ...any)      { runtime.Goexit() }
func (t *tb) Skip(...any)               { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; lastTB = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; lastTB = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) {
	t.failed = true
	lastTB = fmt.Sprintf(f, a...)
	runtime.Goexit()
}
func (t *tb) Fatal(a ...any) { t.failed = true; lastTB = fmt.Sprint(a...); runtime.Goexit() }
func (t *tb) FailNow()       { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()          { t.failed = true }
func (t *tb) Failed() bool   { return t.failed }

var lastTB string

// SafeCheck runs Check, telling panics of the harness from violations.
func SafeCheck(p *Prop, e *Env, c any) (r Result, harness string) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if panicked(st) {
				r = Result{Nontrivial: true, Violation: fmt.Sprintf("gowrap panics: %v\n%s", x, st)}
				return
			}
			harness = fmt.Sprintf("panic in the check: %v\n%s", x, st)
		}
	}()
	if err := ResetDir(e.Scratch); err != nil {
		return r, err.Error()
	}
	r = p.Check(e, c)
	return r, ""
}

// panicked tells whether the panic a stack belongs to comes from gowrap (or from what it called) and not from the harness.
func panicked(stack string) bool {
	_, after, ok := strings.Cut(stack, "\npanic(")
	if !ok {
		return false
	}
	for _, l := range strings.Split(after, "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/hexdigest/gowrap"):
			return true
		case strings.HasPrefix(l, "verif/harness"):
			return false
		}
	}
	return false
}

// ResetDir empties a scratch directory.
func ResetDir(dir string) error {
	if !strings.Contains(dir, "vh-scratch") {
		return fmt.Errorf("refusing to empty %s", dir)
	}
	os.Chdir("/")
	if err := os.RemoveAll(dir); err != nil {
		return err
	}
	return os.MkdirAll(dir, 0o755)
}

// RunWorker searches with rapid and fills the report.
func RunWorker(p *Prop, e *Env, n int, dir string, deadline time.Time) *WorkerOut {
	out := NewWorkerOut()
	if p.Batch != nil {
		func() {
			defer func() {
				if x := recover(); x != nil {
					out.HarnessErr = fmt.Sprintf("panic in the check: %v\n%s", x, debug.Stack())
				}
			}()
			if err := p.Batch(e, out, deadline); err != nil {
				out.HarnessErr = err.Error()
			}
		}()
		return out
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	set("rapid.checks", fmt.Sprint(n))
	set("rapid.seed", fmt.Sprint(1+Hash(fmt.Sprintf("%s/%d/%d", p.ID, e.Seed, e.Worker))>>1))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "25s")
	var found *Found
	var harness string
	done := make(chan bool)
	t := &tb{}
	var shrinkEnd time.Time
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			if found == nil && time.Now().After(deadline) || harness != "" {
				return
			}
			if found != nil && time.Now().After(shrinkEnd) {
				rt.Skip()
			}
			c := p.Draw(rt, e)
			if c == nil {
				out.Discards["draw"]++
				rt.Skip()
			}
			journal(dir, c)
			r, herr := SafeCheck(p, e, c)
			if herr != "" {
				harness = herr
				return
			}
			if found == nil {
				out.Add(r)
			}
			if r.Discard != "" {
				rt.Skip()
			}
			if r.Violation != "" {
				b, err := json.Marshal(c)
				if err != nil {
					harness = err.Error()
					return
				}
				if found == nil {
					shrinkEnd = time.Now().Add(30 * time.Second)
				}
				found = &Found{Message: r.Violation, Case: b}
				rt.Fatalf("violation")
			}
		})
	}()
	<-done
	switch {
	case harness != "":
		out.HarnessErr = harness
	case found != nil:
		out.Violation = found
	case t.failed:
		out.HarnessErr = "generator failed: " + lastTB
	}
	return out
}

// Names of features, most frequent first.
func TopFeatures(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if m[ks[i]] != m[ks[j]] {
			return m[ks[i]] > m[ks[j]]
		}
		return ks[i] < ks[j]
	})
	return ks
}
