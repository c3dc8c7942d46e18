package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/hexdigest/gowrap/loader"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// LoadOp is a step of a history.
type LoadOp struct {
	Op      string // publish, host, write, remove, mkdir, load, gen
	Name    string // template, URL, path below the scratch directory, or reference
	Content []byte
	Dir     string // working directory of load and gen
	Out     string // output file of gen
	Faults  []Fault
	Chunk   int
}

// LoadCase is a history of changes to the world and loads.
type LoadCase struct {
	Git string // directory that is a git repository, or "-"
	Ops []LoadOp
}

func (o LoadOp) String() string {
	s := o.Op + " " + fmt.Sprintf("%q", o.Name)
	if o.Op == "load" || o.Op == "gen" {
		s += fmt.Sprintf(" in %q faults %+v", o.Dir, o.Faults)
	} else {
		s += fmt.Sprintf(" %d bytes", len(o.Content))
	}
	return s
}

var locRe = regexp.MustCompile(`(?m)^// template: (.*)$`)

func checkLoad(e *core.Env, c *LoadCase) core.Result {
	r := core.Result{Key: fmt.Sprint(*c), Evals: 0}
	root := e.Scratch
	w := newWeb()
	l := loader.New(w)
	must(os.MkdirAll(filepath.Join(root, "w/sub"), 0o755))
	must(os.MkdirAll(filepath.Join(root, "w/my repo/in"), 0o755))
	must(writeFiles(root, map[string]string{"w/go.mod": "module example.com/m\n\ngo 1.24\n", "w/src/src.go": "package src\n\ntype I interface{ M() }\n"}))
	if c.Git != "-" {
		cmd := exec.Command("git", "init", "-q")
		cmd.Dir = filepath.Join(root, c.Git)
		if b, err := cmd.CombinedOutput(); err != nil {
			panic(string(b))
		}
	}
	must(os.Setenv("GIT_CEILING_DIRECTORIES", filepath.Dir(e.Scratch)))
	steps := ""
	loads, faulty, changed := 0, 0, 0
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf(f, a...) + "\ngit repository: " + c.Git + "\n" + steps
		return r
	}
	for _, o := range c.Ops {
		steps += o.String() + "\n"
		p := filepath.Join(root, o.Name)
		r.Features = append(r.Features, o.Op)
		switch o.Op {
		case "publish":
			w.publish(o.Name, o.Content)
			changed++
		case "host":
			w.pages[o.Name] = o.Content
		case "write":
			if os.MkdirAll(filepath.Dir(p), 0o755) == nil {
				if fi, err := os.Stat(p); err != nil || !fi.IsDir() {
					must(os.WriteFile(p, o.Content, 0o644))
				}
			}
			changed++
		case "remove":
			os.Remove(p)
			changed++
		case "mkdir":
			os.MkdirAll(p, 0o755)
		case "load", "gen":
			loads++
			dir := filepath.Join(root, o.Dir)
			must(os.MkdirAll(dir, 0o755))
			git := ""
			if c.Git != "-" && (o.Dir == c.Git || strings.HasPrefix(o.Dir+"/", strings.TrimSuffix(c.Git, "/")+"/") || c.Git == "") {
				git = filepath.Join(root, c.Git)
			}
			w.faults, w.asked, w.chunk = o.Faults, nil, o.Chunk
			for _, f := range o.Faults {
				if f.Kind != "" {
					faulty++
				}
			}
			r.Features = append(r.Features, refKind(o.Name))
			ref := strings.ReplaceAll(o.Name, "{ROOT}", root)
			r.Evals++
			var v string
			if o.Op == "load" {
				v = checkOneLoad(w, l, ref, dir, git, o)
			} else {
				v = checkOneGen(w, l, ref, dir, git, filepath.Join(root, o.Out), o)
			}
			if v != "" {
				return bad("%s", v)
			}
		}
	}
	r.Nontrivial = loads > 1 && (faulty > 0 || changed > 1)
	r.Sample = steps
	return r
}

func refKind(s string) string {
	switch {
	case strings.HasPrefix(s, "http"):
		return "ref:url"
	case strings.HasPrefix(s, "file:///") || strings.HasPrefix(s, "file://{ROOT}"):
		return "ref:file-absolute"
	case strings.HasPrefix(s, "file://"):
		return "ref:file"
	case strings.ContainsAny(s, "/"):
		return "ref:path"
	}
	return "ref:name"
}

func sameRequests(w *web, want []string) string {
	if want == nil {
		return ""
	}
	if len(w.asked) > len(want) {
		return fmt.Sprintf("requests %q, want %q", w.asked, want)
	}
	for i := range w.asked {
		if w.asked[i] != want[i] {
			return fmt.Sprintf("requests %q, want %q", w.asked, want)
		}
	}
	return ""
}

// checkOneLoad compares a load by the remote loader with the model.
func checkOneLoad(w *web, l loader.Loader, ref, dir, git string, o LoadOp) string {
	want, loc, ok, asked := w.load(ref, dir, git, o.Faults)
	must(os.Chdir(dir))
	got, gotLoc, err := l.Load(ref)
	defer os.Chdir("/")
	if s := sameRequests(w, asked); s != "" {
		return s
	}
	if ok != (err == nil) {
		if ok {
			return fmt.Sprintf("load fails: %v", err)
		}
		return fmt.Sprintf("load succeeds with %q from %q, the template cannot be loaded", clipS(string(got), 300), gotLoc)
	}
	if !ok {
		return ""
	}
	if !bytes.Equal(got, want) {
		return fmt.Sprintf("loaded %d bytes %q, want %d bytes %q", len(got), clipS(string(got), 300), len(want), clipS(string(want), 300))
	}
	return sameLocation(gotLoc, loc, dir)
}

// sameLocation compares locations: URLs literally, paths by what they lead to.
func sameLocation(got, want, dir string) string {
	if strings.HasPrefix(want, "http") {
		if got != want {
			return fmt.Sprintf("the location is %q, want %q", got, want)
		}
		return ""
	}
	if !filepath.IsAbs(got) {
		got = filepath.Join(dir, got)
	}
	a, err := os.Stat(got)
	if err != nil {
		return fmt.Sprintf("the location %q is of no file: %v", got, err)
	}
	b, err := os.Stat(want)
	must(err)
	if !os.SameFile(a, b) {
		return fmt.Sprintf("the location is %q, want %q", got, want)
	}
	return ""
}

const genMark = "//MARK:"

// checkOneGen compares a generation with the model, local files first.
func checkOneGen(w *web, l loader.Loader, ref, dir, git, out string, o LoadOp) string {
	local := ref
	if !filepath.IsAbs(ref) {
		local = dir + "/" + ref // not cleaned: a/../b needs a
	}
	var want []byte
	var loc string
	var ok bool
	var asked []string
	if fi, err := os.Stat(local); err == nil {
		loc = local
		want, err = os.ReadFile(local)
		ok = err == nil && !fi.IsDir()
		asked = []string{}
	} else {
		want, loc, ok, asked = w.load(ref, dir, git, o.Faults)
	}
	os.Remove(out)
	err, pan := genRun(dir, l, "-p", "example.com/m/src", "-i", "I", "-t", ref, "-o", out)
	if pan != "" {
		return "panic: " + pan
	}
	if s := sameRequests(w, asked); s != "" {
		return s
	}
	if ok && !bytes.Contains(want, []byte(genMark)) {
		// not a template that can be generated from
		return ""
	}
	if ok != (err == nil) {
		if ok {
			return fmt.Sprintf("gowrap gen fails: %v", errLine(err))
		}
		return fmt.Sprintf("gowrap gen succeeds, the template cannot be loaded:\n%s", read(out))
	}
	if !ok {
		if _, err := os.Stat(out); err == nil {
			return "gowrap gen fails and leaves an output"
		}
		return ""
	}
	text := read(out)
	mark := string(want[bytes.Index(want, []byte(genMark)):])
	mark = mark[:strings.IndexByte(mark, '\n')]
	if !strings.Contains(text, mark) {
		return fmt.Sprintf("the output was not made from the template with %s:\n%s", mark, text)
	}
	m := locRe.FindStringSubmatch(text)
	if m == nil {
		return "the output does not tell its template:\n" + text
	}
	if s := sameLocation(m[1], loc, filepath.Dir(out)); s != "" {
		return "in the output, " + s
	}
	return ""
}

func init() {
	names := []string{"retry", "log", "x", "circuit_breaker", "a-b", "v1.2"}
	urls := []string{"https://example.com/t", "http://example.com/t?x=1&y=%20z", "https://example.com/a%2Fb/%C3%A9#frag", "http://127.0.0.1:99/", "https://user:pw@example.com/t", "https://raw.githubusercontent.com/hexdigest/gowrap/main/templates/log",
		"http://example.com/a//b/../c", "https://example.com/+x;y,z"}
	paths := []string{"t", "sub/t", "retry", "log", "http:/example.com/t", "deep/er/t t", "file:/t", "ü"}
	register(&core.Prop{
		ID: "C12",
		Rule: "rapid draws histories: templates published on a fake GitHub (each commit with its own contents), pages hosted elsewhere, files written, removed and replaced by directories in a scratch tree that is or is not a git repository, and loads of names, URLs, file:// references and paths from several working directories, " +
			"with faults injected into each request (refused, any status, body cut or failing, substituted listings). A model says which bytes come from where or that the load fails; requests, bytes, location and errors of loader.Load, and of gowrap gen for loads that include local files, must agree. " +
			"Each load is one evaluation. Non-trivial: several loads with a fault or a change in between.",
		Quick: 4000, Deep: 80000,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &LoadCase{Git: rapid.SampledFrom([]string{"-", "", "w", "w/sub", "w/my repo"}).Draw(t, "git")}
			n := rapid.IntRange(2, 9).Draw(t, "ops")
			pick := func(label string, xs []string) string { return rapid.SampledFrom(xs).Draw(t, label) }
			base := func() string { return pick("base", []string{"", "w", "w/sub", "w/my repo", "w/my repo/in"}) }
			mark := 0
			content := func() []byte {
				mark++
				if rapid.Bool().Draw(t, "usable") {
					return []byte(fmt.Sprintf("// Deco is %d\ntype Deco struct{}\n\n%s%d\n", mark, genMark, mark))
				}
				return drawBytes(t, "content")
			}
			usedNames, usedURLs, usedPaths := names[:2], urls[:1], []string{"t"}
			// most histories are about few places
			if rapid.Bool().Draw(t, "wide") {
				usedNames, usedURLs, usedPaths = names, urls, paths
			}
			for i := 0; i < n; i++ {
				o := LoadOp{}
				switch k := rapid.IntRange(0, 11).Draw(t, "op"); {
				case k < 2:
					o = LoadOp{Op: "publish", Name: pick("name", usedNames), Content: content()}
				case k == 2:
					o = LoadOp{Op: "host", Name: pick("url", usedURLs), Content: content()}
				case k < 5:
					o = LoadOp{Op: "write", Name: filepath.Join(base(), pick("path", usedPaths)), Content: content()}
				case k == 5:
					o = LoadOp{Op: "remove", Name: filepath.Join(base(), pick("path", usedPaths))}
				case k == 6 && rapid.IntRange(0, 2).Draw(t, "mkdir") == 2:
					o = LoadOp{Op: "mkdir", Name: filepath.Join(base(), pick("path", usedPaths))}
				default:
					o = LoadOp{Op: "load", Dir: base(), Chunk: rapid.SampledFrom([]int{0, 0, 1, 7, 512}).Draw(t, "chunk")}
					if rapid.IntRange(0, 2).Draw(t, "gen") == 2 {
						o.Op, o.Dir = "gen", pick("genDir", []string{"w", "w/sub", "w/my repo", "w/my repo/in"})
						o.Out = pick("out", []string{"w/out/zz.go", "w/zz.go", "w/sub/deeper/zz.go"})
					}
					var subst []string
					switch k := rapid.IntRange(0, 6).Draw(t, "ref"); {
					case k < 3:
						o.Name, subst = pick("name", usedNames), badLists
					case k == 3:
						o.Name = pick("url", usedURLs)
					case k == 4 || k == 5:
						p := pick("path", usedPaths)
						switch rapid.IntRange(0, 4).Draw(t, "fileForm") {
						case 0:
							p = "./" + p
						case 1:
							p = "../" + p
						case 2:
							p = "{ROOT}/" + filepath.Join(base(), p)
						case 3:
							// written as an URL within an URL
							p = strings.Replace(p, "file:/", "file://", 1)
						}
						o.Name = "file://" + p
					default:
						if o.Op == "load" {
							o.Name, subst = pick("name", usedNames), badLists
							break
						}
						// a local file, if it is there
						o.Name = pick("path", usedPaths)
						if rapid.Bool().Draw(t, "up") {
							o.Name = "../" + o.Name
						}
					}
					if rapid.IntRange(0, 2).Draw(t, "faulty") == 2 {
						o.Faults = append(o.Faults, drawWebFault(t, subst), drawWebFault(t, nil))
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		New:         func() any { return &LoadCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkLoad(e, x.(*LoadCase)) },
		Assumptions: []string{"the HTTP client follows redirects itself", "names of templates need no escaping in an URL", "files are not changed while they are read"},
	})
}
