package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replay is the contents of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Message  string          `json:"message,omitempty"`
	Note     string          `json:"note,omitempty"`
	Match    string          `json:"match,omitempty"` // findings: regexp for the expected violation
	Case     json.RawMessage `json:"case"`
}

// exit codes of workers
const (
	exitHarness = 3
	exitHang    = 77
)

// Main is the entry point of the vh command.
func Main(props map[string]*Prop, args []string) int {
	defer func() {
		for _, f := range atExit {
			f()
		}
	}()
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: vh check|replay|worker|list ...")
		return 2
	}
	switch args[0] {
	case "check":
		return check(props, args[1])
	case "replay":
		return replayCmd(props, args[1])
	case "worker":
		return workerCmd(props, args[1:])
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return 0
	}
	return 2
}

func newEnv() *Env {
	e := &Env{Repo: getenv("VH_REPO", "/repo"), Verif: getenv("VH_VERIF", "/verif"), Tier: getenv("VERIF_TIER", "quick"), CLI: os.Getenv("VH_CLI")}
	e.Seed, _ = strconv.ParseInt(getenv("VERIF_SEED", "1"), 10, 64)
	e.Log = func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
	e.Workers = runtime.NumCPU()
	if e.Workers > 8 {
		e.Workers = 8
	}
	return e
}

var atExit []func()

// AtExit registers a function to be run before the command ends.
func AtExit(f func()) { atExit = append(atExit, f) }

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Scratch directories live below one directory per vh run.
func runDir() (string, func(), error) {
	d, err := os.MkdirTemp("", "vh-scratch-")
	if err != nil {
		return "", nil, err
	}
	return d, func() {
		// killed processes may still be writing
		for i := 0; i < 50 && os.RemoveAll(d) != nil; i++ {
			time.Sleep(100 * time.Millisecond)
		}
	}, nil
}

type workerRun struct {
	out  *WorkerOut
	err  string
	dir  string
	code int
	log  string
}

func spawn(e *Env, id, dir string, worker, n int, deadline time.Time, stop <-chan bool) workerRun {
	w := workerRun{dir: dir}
	os.MkdirAll(dir, 0o755)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker", id, fmt.Sprint(worker), fmt.Sprint(n), dir, fmt.Sprint(deadline.Unix()))
	cmd.Env = append(os.Environ(), "VH_CLI="+e.CLI)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	if err := cmd.Start(); err != nil {
		w.err = err.Error()
		return w
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	hard := time.After(time.Until(deadline) + 240*time.Second)
	select {
	case err = <-done:
	case <-stop:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		w.err = "stopped"
		return w
	case <-hard:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		w.err = "worker did not finish"
		w.log = log.String()
		return w
	}
	// leftovers of the worker's group
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	w.log = log.String()
	if err != nil {
		w.code = cmd.ProcessState.ExitCode()
		w.err = err.Error()
	}
	b, rerr := os.ReadFile(filepath.Join(dir, "out.json"))
	if rerr == nil {
		w.out = NewWorkerOut()
		if jerr := json.Unmarshal(b, w.out); jerr != nil {
			w.out = nil
		}
	}
	return w
}

func workerCmd(props map[string]*Prop, args []string) int {
	p := props[args[0]]
	e := newEnv()
	e.Worker, _ = strconv.Atoi(args[1])
	n, _ := strconv.Atoi(args[2])
	dir := args[3]
	sec, _ := strconv.ParseInt(args[4], 10, 64)
	e.Scratch = filepath.Join(dir, "vh-scratch")
	out := RunWorker(p, e, n, dir, time.Unix(sec, 0))
	b, err := json.Marshal(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	if err := os.WriteFile(filepath.Join(dir, "out.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	return 0
}

// checkOne checks a single case in this process.
func checkOne(p *Prop, e *Env, raw json.RawMessage) (Result, string) {
	c := p.New()
	if err := json.Unmarshal(raw, c); err != nil {
		return Result{}, "bad case: " + err.Error()
	}
	return SafeCheck(p, e, c)
}

// isolated checks a case in a process of its own, for cases that may kill it.
func isolated(e *Env, file string) (code int, output string) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "replay", file)
	cmd.Env = append(os.Environ(), "VH_CLI="+e.CLI)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(300 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return exitHang, buf.String()
	}
	return cmd.ProcessState.ExitCode(), buf.String()
}

func replayCmd(props map[string]*Prop, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", r.Property)
		return 2
	}
	e := newEnv()
	dir, clean, err := runDir()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer clean()
	e.Scratch = filepath.Join(dir, "case")
	if e.CLI == "" {
		if err := buildCLI(e, dir); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if p.Setup != nil {
		if err := p.Setup(e); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	res, herr := checkOne(p, e, r.Case)
	if herr != "" {
		fmt.Fprintln(os.Stderr, herr)
		return exitHarness
	}
	if res.Discard != "" {
		fmt.Println("discarded:", res.Discard)
		return 0
	}
	if res.Violation != "" {
		fmt.Println(res.Violation)
		abs, _ := filepath.Abs(file)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, abs)
		return 1
	}
	fmt.Println("the property holds for this case")
	return 0
}

func buildCLI(e *Env, dir string) error {
	e.CLI = filepath.Join(dir, "gowrap")
	cmd := exec.Command("go", "build", "-o", e.CLI, "./cmd/gowrap")
	cmd.Dir = e.Repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building gowrap: %v\n%s", err, out)
	}
	return nil
}

// Known is an entry of the known-findings file.
type Known struct {
	Property, File, What string
}

var knownRe = regexp.MustCompile(`^finding: property=(\S+) case=(\S+) (.*)$`)

// KnownFindings reads the open findings of a property.
func KnownFindings(e *Env, id string) ([]Known, error) {
	b, err := os.ReadFile(filepath.Join(e.Verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil, err
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil && m[1] == id {
			out = append(out, Known{m[1], filepath.Join(e.Verif, m[2]), m[3]})
		}
	}
	return out, nil
}

func check(props map[string]*Prop, id string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		return 2
	}
	e := newEnv()
	dir, clean, err := runDir()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer clean()
	fail := func(f string, a ...any) int {
		fmt.Fprintf(os.Stderr, "ERROR property=%s: %s\n", id, fmt.Sprintf(f, a...))
		return 2
	}
	if err := buildCLI(e, dir); err != nil {
		return fail("%v", err)
	}
	if p.Setup != nil {
		if err := p.Setup(e); err != nil {
			return fail("setup: %v", err)
		}
	}
	e.Scratch = filepath.Join(dir, "case")

	replayDir := filepath.Join(e.Verif, "evidence", "replay")
	violation := func(raw json.RawMessage, msg string) int {
		os.MkdirAll(replayDir, 0o755)
		file := filepath.Join(replayDir, fmt.Sprintf("%s-%016x.json", id, Hash(string(raw))))
		b, _ := json.MarshalIndent(Replay{Property: id, Message: msg, Case: raw}, "", " ")
		if err := os.WriteFile(file, b, 0o644); err != nil {
			return fail("%v", err)
		}
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	ev := newEvidence(p, e)
	finish := func(code int, n int) int {
		ev.Violations = n
		ev.WallS = time.Since(start).Seconds()
		if err := ev.write(e); err != nil {
			return fail("%v", err)
		}
		return code
	}

	// listed findings: still failing as described, and nothing else
	known, err := KnownFindings(e, id)
	if err != nil {
		return fail("%v", err)
	}
	for _, k := range known {
		raw, r, err := readReplay(k.File)
		if err != nil {
			return fail("%v", err)
		}
		_ = raw
		code, out := isolated(e, k.File)
		switch {
		case code == 0:
			ev.note("known finding no longer fails: " + k.What)
		case code == exitHarness || code == -1 || code == 2 && !strings.Contains(out, "goroutine "):
			return fail("finding %s: %s", k.File, out)
		default:
			if ok, _ := regexp.MatchString(r.Match, out); !ok {
				return finish(violation(r.Case, "listed finding fails in another way than recorded:\n"+out), 1)
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			ev.KnownFindings = append(ev.KnownFindings, k.What)
		}
	}

	// regression corpus
	files, _ := filepath.Glob(filepath.Join(e.Verif, "corpus", id, "*.json"))
	sort.Strings(files)
	var mu sync.Mutex
	var corpusBad *Replay
	var corpusMsg, corpusErr string
	var wg sync.WaitGroup
	sem := make(chan bool, e.Workers)
	for _, f := range files {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			_, r, err := readReplay(f)
			code, out := 0, ""
			if err == nil {
				code, out = isolated(e, f)
			}
			mu.Lock()
			defer mu.Unlock()
			ev.Corpus++
			switch {
			case err != nil:
				corpusErr = err.Error()
			case code == 0:
			case code == exitHarness || code == -1 || code == 2 && !strings.Contains(out, "goroutine "):
				corpusErr = f + ": " + out
			case corpusBad == nil:
				corpusBad, corpusMsg = &r, out
			}
		}()
	}
	wg.Wait()
	if corpusBad != nil {
		return finish(violation(corpusBad.Case, clip(corpusMsg, 4000)), 1)
	}
	if corpusErr != "" {
		return fail("corpus: %s", corpusErr)
	}

	// search
	n, budget := p.Quick, 100*time.Second
	if e.Tier == "thorough" {
		n, budget = p.Deep, 600*time.Second
	}
	if s := os.Getenv("VH_N"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	deadline := time.Now().Add(budget)
	workers := e.Workers
	if p.MaxWorkers > 0 && workers > p.MaxWorkers {
		workers = p.MaxWorkers
	}
	if n > 0 && n < workers {
		workers = n
	}
	runs := make([]workerRun, workers)
	stop := make(chan bool)
	var once sync.Once
	for i := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runs[i] = spawn(e, id, filepath.Join(dir, fmt.Sprintf("w%d", i)), i, (n+workers-1)/workers, deadline, stop)
			if runs[i].out != nil && runs[i].out.Violation != nil {
				once.Do(func() { close(stop) })
			}
		}()
	}
	wg.Wait()
	var found *Found
	for _, r := range runs {
		if r.out != nil {
			ev.merge(r.out)
			if r.out.Violation != nil && (found == nil || len(r.out.Violation.Case) < len(found.Case)) {
				found = r.out.Violation
			}
		}
	}
	if found != nil {
		return finish(violation(found.Case, found.Message), 1)
	}
	for _, r := range runs {
		if r.out == nil {
			// the worker died: does the case it was checking kill a process again?
			raw, err := os.ReadFile(filepath.Join(r.dir, "current.json"))
			if err == nil && p.Check != nil && r.err != "stopped" {
				f := filepath.Join(dir, "crash.json")
				b, _ := json.Marshal(Replay{Property: id, Case: raw})
				os.WriteFile(f, b, 0o644)
				code, out := isolated(e, f)
				if code != 0 && code != exitHarness && (strings.Contains(out, "VIOLATION") || strings.Contains(out, "goroutine ") || code == exitHang) {
					return finish(violation(raw, "the code under test crashed or hung:\n"+clip(out, 3000)), 1)
				}
			}
			return fail("worker failed: %s\n%s", r.err, clip(r.log, 4000))
		}
		if r.out.HarnessErr != "" {
			return fail("%s", clip(r.out.HarnessErr, 6000))
		}
	}
	if ev.evaluations == 0 {
		return fail("nothing was checked")
	}
	code := finish(0, 0)
	fmt.Printf("OK property=%s evaluations=%d distinct_nontrivial=%d corpus=%d known=%d wall=%.1fs\n", id, ev.evaluations, len(ev.hashes), ev.Corpus, len(ev.KnownFindings), time.Since(start).Seconds())
	return code
}

func readReplay(f string) ([]byte, Replay, error) {
	var r Replay
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, r, err
	}
	return b, r, json.Unmarshal(b, &r)
}

// Evidence of a run.
type evidence struct {
	p             *Prop
	e             *Env
	hashes        map[uint64]bool
	evaluations   int
	features      map[string]int
	discards      map[string]int
	samples       []string
	notes         []string
	extra         map[string]any
	KnownFindings []string
	Corpus        int
	Violations    int
	WallS         float64
}

func newEvidence(p *Prop, e *Env) *evidence {
	return &evidence{p: p, e: e, hashes: map[uint64]bool{}, features: map[string]int{}, discards: map[string]int{}, extra: map[string]any{}}
}

func (v *evidence) note(s string) { v.notes = append(v.notes, s) }

func (v *evidence) merge(o *WorkerOut) {
	v.evaluations += o.Evaluations
	for _, h := range o.Hashes {
		v.hashes[h] = true
	}
	for k, n := range o.Features {
		v.features[k] += n
	}
	for k, n := range o.Discards {
		v.discards[k] += n
	}
	if len(v.samples) < 6 {
		v.samples = append(v.samples, o.Samples...)
	}
	for k, x := range o.Notes {
		if f, ok := x.(float64); ok {
			if g, ok := v.extra[k].(float64); ok {
				x = f + g
			}
		}
		v.extra[k] = x
	}
}

func (v *evidence) write(e *Env) error {
	if len(v.samples) > 6 {
		v.samples = v.samples[:6]
	}
	cov := map[string]any{
		"evaluations":         v.evaluations,
		"distinct_nontrivial": len(v.hashes),
		"rule":                v.p.Rule,
		"samples":             v.samples,
		"features":            v.features,
		"discarded":           v.discards,
		"corpus_cases":        v.Corpus,
		"known_findings":      v.KnownFindings,
		"notes":               v.notes,
	}
	if v.samples == nil {
		cov["samples"] = []string{}
	}
	for k, x := range v.extra {
		cov[k] = x
	}
	doc := map[string]any{
		"property": v.p.ID, "tier": e.Tier, "seed": e.Seed, "level": "exploration",
		"coverage": cov, "wall_s": v.WallS, "violations": v.Violations,
		"assumptions": v.p.Assumptions,
	}
	if v.p.Assumptions == nil {
		doc["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(e.Verif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(e.Verif, "evidence", v.p.ID+".json"), append(b, '\n'), 0o644)
}
