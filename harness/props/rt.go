package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"go/ast"
	"go/parser"
	"go/token"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/tc"
)

// RTDeco is a decorator to be generated and run.
type RTDeco struct {
	M        *gen.Module
	Template string
	Vars     map[string]string `json:",omitempty"`
}

// RTCase is a decorator with a scenario.
type RTCase struct {
	D        RTDeco
	Scenario json.RawMessage
	Race     bool `json:",omitempty"` // under the race detector
}

// RTProp says how a property of decorators is checked at run time.
type RTProp struct {
	ID, Rule    string
	Assumptions []string
	Templates   []string
	Pkg, Var    string // where the run-time half is: package below verif/libs and variable
	Synctest    bool   // needs virtual time
	Race        bool   // every third batch runs under the race detector
	RaceAll     bool   // all do
	Cfg         func(template string) gen.Cfg
	Vars        func(t *rapid.T, template string, i int) map[string]string // of the i-th decorator of a batch
	Batches     int                                                        // per worker, quick
	PerBatch    int
	Checks      int // scenarios per decorator, quick
}

// the toolchain with virtual time
var syncRoots = []string{"/opt/veriftools/go1.25.14", "/opt/veriftools/go1.26.10", "/opt/veriftools/go1.27.3"}

func (p *RTProp) goEnv() ([]string, string) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")
	if !p.Synctest {
		return env, "go"
	}
	for _, r := range syncRoots {
		if _, err := os.Stat(r + "/bin/go"); err == nil {
			return append(env, "GOROOT="+r, "GOTOOLCHAIN=local"), r + "/bin/go"
		}
	}
	panic("no Go toolchain with testing/synctest")
}

// rtName is the name of the decorator.
func (d *RTDeco) rtName() string {
	if n := d.Vars["DecoratorName"]; n != "" {
		return n
	}
	return d.M.Targets[0].Iface + hostedByName(d.Template).Suffix
}

func (d *RTDeco) render() string {
	t := d.M.Targets[0]
	return fmt.Sprintf("template %s %v, interface %s.%s -> %s\n%s", d.Template, d.Vars, t.PkgPath, t.Iface, t.DstDir, d.M.Render())
}

// build generates the decorators below root and builds a test binary that can
// drive them. bad is what is wrong with one of them.
func (p *RTProp) build(e *core.Env, root string, ds []RTDeco, race bool) (bin string, badDeco int, bad string, err error) {
	badDeco = -1
	for i := range ds {
		d := &ds[i]
		dir := filepath.Join(root, fmt.Sprintf("m%d", i))
		if err := writeFiles(dir, d.M.Files); err != nil {
			return "", -1, "", err
		}
		if msg, herr := d.generate(e, dir); herr != nil {
			return "", -1, "", fmt.Errorf("%v\n%s", herr, d.render())
		} else if msg != "" {
			return "", i, msg, nil
		}
	}
	// the main module
	libs := filepath.Join(e.Verif, "harness", "libs")
	b, err := os.ReadFile(filepath.Join(libs, "go.mod"))
	if err != nil {
		return "", -1, "", err
	}
	mod := strings.Replace(string(b), "module verif/libs", "module vhmain", 1)
	mod = strings.Replace(mod, "=> ./otel", "=> "+filepath.Join(libs, "otel"), 1)
	mod += "\nrequire verif/libs v0.0.0\nreplace verif/libs => " + libs + "\n"
	var main strings.Builder
	fmt.Fprintf(&main, "package vhmain\n\nimport (\n\t\"testing\"\n\n\t\"verif/libs/rt\"\n\tprop \"verif/libs/%s\"\n", p.Pkg)
	for i, d := range ds {
		t := d.M.Targets[0]
		mod += fmt.Sprintf("require %s v0.0.0\nreplace %s => ./m%d\n", d.M.Path, d.M.Path, i)
		fmt.Fprintf(&main, "\te%d %q\n", i, d.M.Path+"/"+t.DstDir)
	}
	fmt.Fprintf(&main, ")\n\nfunc TestVH(t *testing.T) {\n\trt.Main(t, prop.%s, []*rt.Entry{", p.Var)
	for i := range ds {
		fmt.Fprintf(&main, "e%d.VHEntry(), ", i)
	}
	main.WriteString("})\n}\n")
	sum, err := os.ReadFile(filepath.Join(libs, "go.sum"))
	if err != nil {
		return "", -1, "", err
	}
	if err := writeFiles(root, map[string]string{"go.mod": mod, "go.sum": string(sum), "vh_test.go": main.String()}); err != nil {
		return "", -1, "", err
	}
	bin = filepath.Join(root, "vh.test")
	env, g := p.goEnv()
	cmd := exec.Command(g, raceArgs(race, "test", "-c", "-vet=off", "-o", bin, ".")...)
	cmd.Dir, cmd.Env = root, env
	if out, err := cmd.CombinedOutput(); err != nil {
		// blame a decorator if only generated files have errors
		who := -1
		for _, l := range strings.Split(string(out), "\n") {
			if strings.Contains(l, "zz_generated.go:") {
				var k int
				if _, err := fmt.Sscanf(l, "m%d/", &k); err == nil {
					who = k
				}
			} else if strings.Contains(l, ".go:") {
				who = -1
				break
			}
		}
		if who >= 0 {
			return "", who, "the generated code does not compile:\n" + string(out), nil
		}
		return "", -1, "", fmt.Errorf("building the driver: %v\n%s", err, out)
	}
	return bin, -1, "", nil
}

const dataRace = "data race:\n"

func raceArgs(race bool, args ...string) []string {
	if race {
		args = append(args[:len(args)-1:len(args)-1], "-race", args[len(args)-1])
	}
	return args
}

// generate runs gowrap in dir and adds the driver's part to the output package.
func (d *RTDeco) generate(e *core.Env, dir string) (bad string, err error) {
	t := d.M.Targets[0]
	if _, _, _, err := loadSource(dir, d.M, t); err != nil {
		return "", fmt.Errorf("invalid source: %v", err)
	}
	if err := writeFiles(dir, map[string]string{"tmpl/" + d.Template: hosted(e, d.Template)}); err != nil {
		return "", err
	}
	args := []string{"-i", t.Iface, "-p", "./" + t.PkgDir, "-t", "tmpl/" + d.Template, "-o", t.DstDir + "/" + t.DstFile}
	for _, k := range sortedKeys(d.Vars) {
		args = append(args, "-v", k+"="+d.Vars[k])
	}
	gerr, pan := genRun(dir, noRemote{}, args...)
	if pan != "" {
		return "gowrap panicked: " + pan, nil
	}
	if gerr != nil {
		return "gowrap refuses a supported interface: " + errLine(gerr), nil
	}
	l := tc.New(dir, d.M.Path)
	dp := l.Load(d.M.Path + "/" + t.DstDir)
	if dp.Err != nil {
		return "the generated code does not compile: " + compileErr(dp.Err), nil
	}
	src := l.Load(t.PkgPath)
	typ, it, err := tc.Iface(src.Types, t.Iface)
	if err != nil {
		return "", err
	}
	name := d.rtName()
	if dp.Types.Scope().Lookup("New"+name) == nil {
		return "constructor New" + name + " is not declared", nil
	}
	return "", os.WriteFile(filepath.Join(dir, t.DstDir, "zz_harness.go"), []byte(driver(d, dp.Types, src.Types, typ, it)), 0o644)
}

// driver is the source of the file added to the output package.
func driver(d *RTDeco, dst, src *types.Package, typ types.Type, it *types.Interface) string {
	t := d.M.Targets[0]
	imps := map[string]string{}
	qual := func(p *types.Package) string {
		if p.Path() == dst.Path() {
			return ""
		}
		if imps[p.Path()] == "" {
			imps[p.Path()] = fmt.Sprintf("vhp%d", len(imps))
		}
		return imps[p.Path()]
	}
	ts := func(t types.Type) string { return types.TypeString(t, qual) }
	quoted := func(tu *types.Tuple) string {
		var ss []string
		for i := 0; i < tu.Len(); i++ {
			ss = append(ss, fmt.Sprintf("%q", tu.At(i).Name()))
		}
		return "[]string{" + strings.Join(ss, ", ") + "}"
	}
	var meths, spy, stubs, stubReg strings.Builder
	seen := map[string]bool{}
	var stub func(t types.Type, depth int)
	walked := map[types.Type]bool{}
	stub = func(t types.Type, depth int) {
		if walked[t] || depth > 12 {
			return
		}
		walked[t] = true
		switch x := t.(type) {
		case *types.Alias:
			stub(types.Unalias(x), depth+1)
			return
		case *types.Named:
			if o := x.Obj(); o.Pkg() == nil || o.Pkg().Path() == "context" && o.Name() == "Context" {
				return
			}
			if _, ok := x.Underlying().(*types.Interface); !ok {
				// values of types declared elsewhere are zero
				if strings.HasPrefix(x.Obj().Pkg().Path(), "example.com/") {
					stub(x.Underlying(), depth+1)
				}
				return
			}
		}
		switch x := t.Underlying().(type) {
		case *types.Interface:
			if x.NumMethods() == 0 || !x.IsMethodSet() {
				return
			}
			if n, ok := t.(*types.Named); ok && !n.Obj().Exported() && n.Obj().Pkg().Path() != dst.Path() {
				return
			}
			s := ts(t)
			if seen[s] {
				return
			}
			seen[s] = true
			k := len(seen)
			fmt.Fprintf(&stubs, "type vhI%d = %s\n\ntype vhS%d struct {\n\tvhI%d\n\tN int\n}\n\n", k, s, k, k)
			fmt.Fprintf(&stubReg, "\t\t\treflect.TypeFor[%s](): func(n int) any { return &vhS%d{N: n} },\n", s, k)
		case *types.Pointer:
			stub(x.Elem(), depth+1)
		case *types.Slice:
			stub(x.Elem(), depth+1)
		case *types.Array:
			stub(x.Elem(), depth+1)
		case *types.Map:
			stub(x.Key(), depth+1)
			stub(x.Elem(), depth+1)
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if x.Field(i).Exported() {
					stub(x.Field(i).Type(), depth+1)
				}
			}
		}
	}
	var ms []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		ms = append(ms, it.Method(i))
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].Name() < ms[j].Name() })
	for i, m := range ms {
		sig := m.Type().(*types.Signature)
		fmt.Fprintf(&meths, "\t\t\t{Name: %q, Fn: reflect.ValueOf(vhIface.%s), Params: %s, Results: %s},\n", m.Name(), m.Name(), quoted(sig.Params()), quoted(sig.Results()))
		var ps, pn, rs, rn []string
		for k := 0; k < sig.Params().Len(); k++ {
			pt := sig.Params().At(k).Type()
			stub(pt, 0)
			s := ts(pt)
			if sig.Variadic() && k == sig.Params().Len()-1 {
				s = "..." + ts(pt.(*types.Slice).Elem())
			}
			ps = append(ps, fmt.Sprintf("a%d %s", k, s))
			pn = append(pn, fmt.Sprintf("&a%d", k))
		}
		for k := 0; k < sig.Results().Len(); k++ {
			stub(sig.Results().At(k).Type(), 0)
			rs = append(rs, fmt.Sprintf("r%d %s", k, ts(sig.Results().At(k).Type())))
			rn = append(rn, fmt.Sprintf(", &r%d", k))
		}
		fmt.Fprintf(&spy, "func (vhs *vhSpy) %s(%s) (%s) {\n\trt.Set(vhs.vhH.Handle(%d, rt.Args(%s))%s)\n\treturn\n}\n\n", m.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "), i, strings.Join(pn, ", "), strings.Join(rn, ""))
	}
	name := d.rtName()
	extra := ""
	for _, x := range dst.Scope().Names() {
		if _, ok := dst.Scope().Lookup(x).(*types.Func); ok && (x == "MustNew"+name || strings.HasPrefix(x, name+"With")) {
			extra += fmt.Sprintf("%q: %s, ", strings.Replace(x, name, "", 1), x)
		}
		if _, ok := dst.Scope().Lookup(x).(*types.TypeName); ok && x == name+"Config" {
			extra += fmt.Sprintf("\"Config\": %s{}, \"SetTimeout\": func(c any, m string, d int64) any {\n\tx := c.(%s)\n\tswitch m {\n", x, x)
			for _, m := range ms {
				f := m.Name() + "Timeout"
				if o, _, _ := types.LookupFieldOrMethod(dst.Scope().Lookup(x).Type(), false, dst, f); o != nil {
					extra += fmt.Sprintf("\tcase %q:\n\t\tx.%s = %sDuration(d)\n", m.Name(), f, qual(timePkg)+".")
				}
			}
			extra += "\tdefault:\n\t\treturn nil\n\t}\n\treturn x\n}, "
		}
	}
	if o, ok := src.Scope().Lookup("ValidateHook").(*types.Var); ok {
		q := qual(o.Pkg())
		if q != "" {
			q += "."
		}
		extra += fmt.Sprintf("\"ValidateHook\": &%sValidateHook, \"TReq\": %sTReq{}, \"TPReq\": %sTPReq{}, \"TVText\": %sTVText(\"\"), \"TVList\": %sTVList{}, ", q, q, q, q, q)
	}
	spelled := t.Iface
	if !t.Same {
		spelled = "." + t.Iface
	}
	body := fmt.Sprintf("type vhIface = %s\n\ntype vhSpy struct{ vhH rt.Handler }\n\n%s%s", ts(typ), spy.String(), stubs.String())
	body += fmt.Sprintf("// VHEntry describes the decorator.\nfunc VHEntry() *rt.Entry {\n\treturn (&rt.Entry{\n\t\tTemplate: %q, Iface: %q, Spelled: %q, Decorator: %q, Same: %v,\n\t\tVars: %#v,\n\t\tIfaceT: reflect.TypeFor[vhIface](),\n\t\tMethods: []*rt.Method{\n%s\t\t},\n", d.Template, t.Iface, spelled, name, t.Same, d.Vars, meths.String())
	body += fmt.Sprintf("\t\tSpy: func(h rt.Handler) any { return &vhSpy{h} },\n\t\tNew: New%s,\n\t\tExtra: map[string]any{%s},\n\t\tStubs: map[reflect.Type]func(n int) any{\n%s\t\t},\n\t}).Init()\n}\n", name, extra, stubReg.String())
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"reflect\"\n\n\t\"verif/libs/rt\"\n", dst.Name())
	for _, p := range sortedKeys(imps) {
		fmt.Fprintf(&sb, "\t%s %q\n", imps[p], p)
	}
	sb.WriteString(")\n\n" + body)
	return sb.String()
}

var timePkg = types.NewPackage("time", "time")

// rtJob and rtOut mirror rt.Job and rt.Out.
type rtJob struct {
	Seed     uint64
	Checks   int
	Deadline int64
	Out      string
	Journal  string
	Entries  []string
	Scenario json.RawMessage `json:",omitempty"`
}

type rtFound struct {
	Entry    int
	Message  string
	Scenario json.RawMessage
}

type rtOut struct {
	Evaluations int
	Discards    map[string]int
	Features    map[string]int
	Hashes      []uint64
	Samples     []string
	Found       *rtFound
	HarnessErr  string
	Result      *struct {
		Violation, Discard string
		Nontrivial         bool
		Features           []string
	}
}

// run executes the test binary.
func (p *RTProp) run(root, bin string, j rtJob, limit time.Duration) (o rtOut, crashed string, err error) {
	j.Out, j.Journal = filepath.Join(root, "out.json"), filepath.Join(root, "journal.json")
	os.Remove(j.Out)
	os.Remove(j.Journal)
	b, _ := json.Marshal(j)
	jf := filepath.Join(root, "job.json")
	if err := os.WriteFile(jf, b, 0o644); err != nil {
		return o, "", err
	}
	cmd := exec.Command(bin, "-test.run", "TestVH", "-test.timeout", "0")
	cmd.Dir = root
	env, _ := p.goEnv()
	cmd.Env = append(env, "VH_JOB="+jf, "ELASTIC_APM_LOG_LEVEL=off", "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return o, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	select {
	case err = <-done:
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
		hung = true
	}
	b, rerr := os.ReadFile(j.Out)
	if rerr == nil {
		return o, "", json.Unmarshal(b, &o)
	}
	text := buf.String()
	if hung {
		return o, "the scenario did not finish:\n" + clipText(text, 3000), nil
	}
	if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
		return o, dataRace + clipText(text[i:], 3000), nil
	}
	if strings.Contains(text, "goroutine ") {
		return o, "the process died:\n" + clipText(text, 3000), nil
	}
	return o, "", fmt.Errorf("driver: %v\n%s", err, clipText(text, 3000))
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...(cut)"
	}
	return s
}

func (p *RTProp) drawDeco(i int) func(t *rapid.T) RTDeco {
	return func(t *rapid.T) RTDeco {
		d := RTDeco{Template: p.Templates[i%len(p.Templates)]}
		cfg := p.Cfg(d.Template)
		cfg.Path = fmt.Sprintf("example.com/m%d", i)
		cfg.IfaceName = fmt.Sprintf("Target%d", i)
		d.M = gen.Draw(t, cfg)
		d.Vars = map[string]string{}
		if rapid.IntRange(0, 9).Draw(t, "named") >= 8 {
			d.Vars["DecoratorName"] = rapid.SampledFrom([]string{"Deco", "Wrapped", "myDecorator"}).Draw(t, "decoName")
		}
		if p.Vars != nil {
			for k, v := range p.Vars(t, d.Template, i) {
				d.Vars[k] = v
			}
		}
		return d
	}
}

// batch searches in a worker.
func (p *RTProp) batch(e *core.Env, out *core.WorkerOut, deadline time.Time) error {
	batches, checks := p.Batches, p.Checks
	if e.Tier == "thorough" {
		batches, checks = 1000, checks*3
	}
	built := 0
	for b := 0; b < batches && time.Now().Before(deadline); b++ {
		if err := core.ResetDir(e.Scratch); err != nil {
			return err
		}
		var ds []RTDeco
		var names []string
		for k := 0; k < p.PerBatch; k++ {
			seed := int(core.Hash(fmt.Sprintf("%s/%d/%d/%d/%d", p.ID, e.Seed, e.Worker, b, k)) >> 2)
			i := k
			if len(p.Templates) > p.PerBatch {
				i = k + p.PerBatch*(b*e.Workers+e.Worker)
			}
			d := rapid.Custom(p.drawDeco(i)).Example(seed)
			ds = append(ds, d)
			names = append(names, fmt.Sprintf("%s of %s (%s)", d.Template, d.M.Targets[0].Iface, strings.Join(features(d.M), " ")))
		}
		race := p.Race && b%3 == 2 || p.RaceAll
		bin, who, bad, err := p.build(e, e.Scratch, ds, race)
		if err != nil {
			return err
		}
		if bad != "" {
			out.Violation = p.found(ds[who], nil, bad, false)
			return nil
		}
		built += len(ds)
		o, crashed, err := p.run(e.Scratch, bin, rtJob{Seed: core.Hash(fmt.Sprintf("%s/%d/%d/%d", p.ID, e.Seed, e.Worker, b)), Checks: checks, Deadline: deadline.Unix(), Entries: names}, time.Until(deadline)+90*time.Second)
		if err != nil {
			return err
		}
		if crashed != "" {
			var f rtFound
			jb, err := os.ReadFile(filepath.Join(e.Scratch, "journal.json"))
			if err != nil || json.Unmarshal(jb, &f) != nil {
				return fmt.Errorf("%s", crashed)
			}
			f.Message = crashed
			o.Found = &f
		}
		if o.HarnessErr != "" {
			return fmt.Errorf("%s", o.HarnessErr)
		}
		out.Evaluations += o.Evaluations
		for k, n := range o.Discards {
			out.Discards[k] += n
		}
		for k, n := range o.Features {
			out.Features[k] += n
		}
		out.Hashes = append(out.Hashes, o.Hashes...)
		for _, s := range o.Samples {
			if len(out.Samples) < 3 {
				out.Samples = append(out.Samples, s)
			}
		}
		for _, d := range ds {
			out.Features["template:"+d.Template]++
		}
		if o.Found != nil {
			race = race && strings.HasPrefix(o.Found.Message, dataRace)
			d := p.shrink(e, ds[o.Found.Entry], o.Found, race)
			out.Violation = p.found(d, o.Found.Scenario, o.Found.Message, race)
			return nil
		}
	}
	out.Notes["decorators_built"] = float64(built)
	return nil
}

func (p *RTProp) found(d RTDeco, sc json.RawMessage, msg string, race bool) *core.Found {
	if sc == nil {
		sc = json.RawMessage("null")
	}
	b, _ := json.Marshal(RTCase{d, sc, race})
	return &core.Found{Message: fmt.Sprintf("%s\nscenario %s\n%s", msg, sc, d.render()), Case: b}
}

// one checks a decorator with a scenario.
func (p *RTProp) one(e *core.Env, c *RTCase) core.Result {
	r := core.Result{Nontrivial: true, Key: string(c.Scenario)}
	d := c.D
	bin, _, bad, err := p.build(e, e.Scratch, []RTDeco{d}, c.Race)
	must(err)
	if bad != "" {
		r.Violation = bad
		return r
	}
	if string(c.Scenario) == "null" || c.Scenario == nil {
		return r
	}
	o, crashed, err := p.run(e.Scratch, bin, rtJob{Scenario: c.Scenario, Entries: []string{"replayed"}}, 60*time.Second)
	for k := 1; c.Race && k < 20 && err == nil && crashed == "" && o.Result != nil && o.Result.Violation == ""; k++ {
		o, crashed, err = p.run(e.Scratch, bin, rtJob{Scenario: c.Scenario, Entries: []string{"replayed"}}, 60*time.Second)
	}
	must(err)
	if crashed != "" {
		r.Violation = crashed
		return r
	}
	if o.HarnessErr != "" {
		panic(o.HarnessErr)
	}
	r.Violation, r.Discard = o.Result.Violation, o.Result.Discard
	return r
}

// shrink drops methods and embedded interfaces the failure does not need.
func (p *RTProp) shrink(e *core.Env, d RTDeco, f *rtFound, race bool) RTDeco {
	end := time.Now().Add(40 * time.Second)
	try := func(files map[string]string) bool {
		if time.Now().After(end) {
			return false
		}
		m := *d.M
		m.Files = files
		c := &RTCase{RTDeco{&m, d.Template, d.Vars}, f.Scenario, race}
		ok := false
		func() {
			defer func() { recover() }()
			if core.ResetDir(e.Scratch) != nil {
				return
			}
			r := p.one(e, c)
			ok = r.Violation != "" && !strings.Contains(r.Violation, "compile") && !strings.Contains(r.Violation, "gowrap") && messageKind(r.Violation) == messageKind(f.Message)
			if ok {
				f.Message = r.Violation
			}
		}()
		if ok {
			d = c.D
		}
		return ok
	}
	names := sortedKeys(d.M.Files)
	for _, name := range names {
		if !strings.HasSuffix(name, ".go") {
			continue
		}
		for k := 0; ; {
			src, ok := dropElem(d.M.Files[name], d.M.Targets[0].Iface, k)
			if !ok || time.Now().After(end) {
				break
			}
			files := map[string]string{}
			for n, s := range d.M.Files {
				files[n] = s
			}
			files[name] = src
			if !try(files) {
				k++
			}
		}
	}
	return d
}

// messageKind is the part of a message that does not depend on the case.
func messageKind(s string) string {
	if strings.HasPrefix(s, dataRace) {
		return dataRace
	}
	if i := strings.LastIndex(strings.SplitN(s, "\n", 2)[0], ": "); i >= 0 {
		s = s[i+2:]
	}
	return s[:min(len(s), 12)]
}

// dropElem removes the k-th element of the interface from a file.
func dropElem(src, iface string, k int) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return "", false
	}
	out, ok := "", false
	ast.Inspect(f, func(n ast.Node) bool {
		if ts, is := n.(*ast.TypeSpec); is && ts.Name.Name == iface {
			if it, is := ts.Type.(*ast.InterfaceType); is && k < len(it.Methods.List) {
				x := it.Methods.List[k]
				out, ok = src[:fset.Position(x.Pos()).Offset]+src[fset.Position(x.End()).Offset:], true
			}
		}
		return true
	})
	if !ok {
		return "", false
	}
	return dropUnusedImports(out), true
}

// dropUnusedImports removes imports a file no longer needs.
func dropUnusedImports(src string) string {
	lines := strings.Split(src, "\n")
	var out []string
	in := false
	body := src[strings.Index(src+")", ")"):]
	for _, l := range lines {
		if strings.HasPrefix(l, "import (") {
			in = true
		} else if in && strings.HasPrefix(l, ")") {
			in = false
		} else if in {
			f := strings.Fields(l)
			if len(f) > 0 {
				name := strings.Trim(f[len(f)-1], "\"`")
				name = strings.TrimSuffix(name, "/v2")
				name = name[strings.LastIndex(name, "/")+1:]
				if len(f) == 2 {
					name = f[0]
				}
				if !strings.Contains(body, name+".") {
					continue
				}
			}
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

var warm sync.Once

// registerRT registers a run-time property.
func registerRT(p *RTProp) {
	register(&core.Prop{
		ID: p.ID, Rule: p.Rule, Assumptions: append([]string{
			"arguments and results are made by reflection; references are compared by identity",
			"interfaces are drawn within the limits of the hosted templates (DESIGN.md)"}, p.Assumptions...),
		New:   func() any { return &RTCase{} },
		Check: func(e *core.Env, x any) core.Result { return p.one(e, x.(*RTCase)) },
		Batch: p.batch,
		Setup: func(e *core.Env) error {
			if err := setupExports(e); err != nil {
				return err
			}
			// build what all drivers share before the workers do it all at once
			env, g := p.goEnv()
			dir := filepath.Join(e.Verif, "harness", "libs")
			for _, race := range []bool{false, true} {
				if race && !p.Race && !p.RaceAll || !race && p.RaceAll {
					continue
				}
				cmd := exec.Command(g, raceArgs(race, "test", "-c", "-vet=off", "-o", "/dev/null", "./"+p.Pkg)...)
				cmd.Dir = dir
				cmd.Env = append(env, "GOFLAGS=-mod=readonly -buildvcs=false")
				if out, err := cmd.CombinedOutput(); err != nil {
					return fmt.Errorf("building the run-time part: %v\n%s", err, out)
				}
			}
			return nil
		},
	})
}

// rtCfg is what interfaces of run-time properties are drawn from.
func rtCfg(string) gen.Cfg {
	return gen.Cfg{Generics: true, Embeds: true, Aliases: true, UnexportedOK: true, MultiFile: true, Comments: true, StdRich: true, MaxDepth: 2, MaxMethods: 5, SmallArrays: true,
		NameFilter: safeParam, ExtraNames: []string{"key", "value", "req", "name", "userID", "opts", "filter", "data"}}
}
