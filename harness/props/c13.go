package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/hexdigest/gowrap"
	"github.com/hexdigest/gowrap/loader"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// TmplOp is a step of a history of "gowrap template" runs.
type TmplOp struct {
	Op      string // tree, publish, write, mkdir, remove, list, copy
	Name    string
	Content []byte
	Tree    []TreeEntry
	Dst     string
	Faults  []Fault
	Chunk   int
}

// TmplCase is a history.
type TmplCase struct{ Ops []TmplOp }

func (o TmplOp) String() string {
	switch o.Op {
	case "tree":
		return fmt.Sprintf("tree %+v", o.Tree)
	case "list":
		return fmt.Sprintf("list faults %+v", o.Faults)
	case "copy":
		return fmt.Sprintf("copy %q to %q faults %+v", o.Name, o.Dst, o.Faults)
	}
	return fmt.Sprintf("%s %q %d bytes", o.Op, o.Name, len(o.Content))
}

// treeModel lists the names below templates/ in a listing.
func treeModel(w *web, f Fault) (names []string, ok bool) {
	if f.Kind == "body" {
		// substituted listings hold no template or are malformed
		return nil, false
	}
	if _, ok := w.fetch(treeURL, f); !ok {
		return nil, false
	}
	for _, t := range w.tree {
		if n, ok := strings.CutPrefix(t.Path, "templates/"); ok && n != "" {
			names = append(names, n)
		}
	}
	return names, len(names) > 0
}

func checkTmpl(e *core.Env, c *TmplCase) core.Result {
	r := core.Result{Key: fmt.Sprint(*c)}
	w := newWeb()
	l := loader.New(w)
	must(os.MkdirAll(filepath.Join(e.Scratch, "d"), 0o755))
	steps := ""
	runs, faulty := 0, 0
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf(f, a...) + "\n" + steps
		return r
	}
	run := func(args ...string) (out string, err error, pan string) {
		must(os.Chdir(e.Scratch))
		defer os.Chdir("/")
		defer func() {
			if x := recover(); x != nil {
				pan = fmt.Sprintf("%v\n%s", x, debug.Stack())
			}
		}()
		var buf bytes.Buffer
		err = gowrap.NewTemplateCommand(l).Run(args, &buf)
		return buf.String(), err, ""
	}
	for _, o := range c.Ops {
		steps += o.String() + "\n"
		r.Features = append(r.Features, o.Op)
		p := filepath.Join(e.Scratch, o.Name)
		w.faults, w.asked, w.chunk = o.Faults, nil, o.Chunk
		for _, f := range o.Faults {
			if f.Kind != "" {
				faulty++
				r.Features = append(r.Features, "fault:"+f.Kind)
			}
		}
		switch o.Op {
		case "tree":
			w.tree = o.Tree
		case "publish":
			w.publish(o.Name, o.Content)
		case "write":
			if fi, err := os.Stat(p); err != nil || !fi.IsDir() {
				must(os.WriteFile(p, o.Content, 0o644))
			}
		case "mkdir":
			os.Mkdir(p, 0o755)
		case "remove":
			os.Remove(p)
		case "list":
			runs++
			r.Evals++
			want, ok := treeModel(w, faultAt(o.Faults, 0))
			before := snapshot(e.Scratch)
			out, err, pan := run("list")
			if pan != "" {
				return bad("panic: %s", pan)
			}
			if ok != (err == nil) {
				return bad("list gives error %v and\n%s\nwant names %q", err, out, want)
			}
			if d := treeDiff(before, snapshot(e.Scratch)); d != "" {
				return bad("list changes files: %s", d)
			}
			if s := sameRequests(w, []string{"GET " + treeURL}); s != "" {
				return bad("%s", s)
			}
			if ok {
				text := "List of available remote templates:\n"
				for _, n := range want {
					text += "  " + n + "\n"
				}
				if out != text {
					return bad("list prints %q, want %q", out, text)
				}
			} else if strings.Contains(out, "  ") {
				return bad("list fails and prints %q", out)
			}
		case "copy":
			runs++
			r.Evals++
			dst := o.Dst
			if !filepath.IsAbs(dst) {
				dst = filepath.Join(e.Scratch, dst)
			}
			want, loc, ok, asked := w.load(o.Name, e.Scratch, "", o.Faults)
			before := snapshot(e.Scratch)
			writable := true
			if fi, err := os.Stat(dst); err == nil {
				writable = !fi.IsDir() && dst != "/dev/full"
			} else if fi, err := os.Stat(filepath.Dir(dst)); err != nil || !fi.IsDir() {
				writable = false
			}
			if dst == "/dev/full" && ok && len(want) == 0 {
				break // nothing has to be written
			}
			out, err, pan := run("copy", o.Name, o.Dst)
			if pan != "" {
				return bad("panic: %s", pan)
			}
			if s := sameRequests(w, asked); s != "" {
				return bad("%s", s)
			}
			after := snapshot(e.Scratch)
			if !ok || !writable {
				if err == nil {
					return bad("copy succeeds and prints %q, loading or writing must fail", out)
				}
				if d := treeDiff(before, after); d != "" {
					return bad("copy fails (%v) and changes files: %s", err, d)
				}
				if strings.Contains(out, "success") {
					return bad("copy fails (%v) and prints %q", err, out)
				}
				r.Features = append(r.Features, "copy-fails")
				break
			}
			if err != nil {
				return bad("copy fails: %v", err)
			}
			if dst != "/dev/full" {
				b, err := os.ReadFile(dst)
				if err != nil || !bytes.Equal(b, want) {
					return bad("copy writes %d bytes %q (%v), want %d bytes %q", len(b), clipS(string(b), 300), err, len(want), clipS(string(want), 300))
				}
				rel, _ := filepath.Rel(e.Scratch, dst)
				delete(before, rel)
				delete(after, rel)
				if d := treeDiff(before, after); d != "" {
					return bad("copy changes other files: %s", d)
				}
			}
			if strings.HasPrefix(loc, "http") && !strings.Contains(out, loc) {
				return bad("copy prints %q, want it to name %s", out, loc)
			}
			if !strings.HasPrefix(loc, "http") && !strings.Contains(out, filepath.Base(loc)) {
				return bad("copy prints %q, want it to name %s", out, loc)
			}
		}
	}
	r.Nontrivial = runs > 1 || faulty > 0
	r.Sample = steps
	return r
}

func init() {
	names := []string{"retry", "log", "x", "a-b", "v1.2"}
	dsts := []string{"out", "d/out", "log", "d", "missing/out", "other", "/dev/full", "log/x", "ü t"}
	paths := []string{"templates/retry", "templates/log", "templates/", "templates", "templates/a/b", "templates/templates/x", "templatesx/y", "x/templates/y", "README.md", "generator/types.go", "templates_tests/log.go", "Templates/z", "/templates/q", "templates/ü", "templates/a b", " templates/w", "templates//e", "templates/.hidden", "templates/%s", "templates/a\tb", "templates/README.md", "templates/x.tmpl", "templates/_util", "templates/log_test", "templates/log.go", "templates/0", "templates/LOG"}
	register(&core.Prop{
		ID: "C13",
		Rule: "rapid draws histories of repository listings, published templates, local files and runs of 'template list' and 'template copy' (names, URLs, file:// references; destinations new, existing, directories, below missing directories or files, a full device), with faults injected into each request. " +
			"A model gives the names in order, or the bytes, location and destination; on any error the file tree must be as before. Each run is one evaluation. Non-trivial: several runs, or a fault.",
		Quick: 60000, Deep: 1000000,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &TmplCase{}
			pick := func(label string, xs []string) string { return rapid.SampledFrom(xs).Draw(t, label) }
			n := rapid.IntRange(1, 8).Draw(t, "ops")
			used := names[:2]
			if rapid.Bool().Draw(t, "wide") {
				used = names
			}
			for i := 0; i < n; i++ {
				o := TmplOp{}
				switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
				case k == 0:
					o.Op = "tree"
					m := rapid.IntRange(0, 8).Draw(t, "entries")
					if rapid.IntRange(0, 20).Draw(t, "many") == 20 {
						m = rapid.IntRange(100, 400).Draw(t, "entries")
					}
					for j := 0; j < m; j++ {
						p := pick("entry", paths)
						if rapid.IntRange(0, 3).Draw(t, "odd") == 3 {
							p = "templates/" + rapid.StringMatching(`[a-zA-Z0-9_ .é-]{1,8}`).Draw(t, "name")
						}
						o.Tree = append(o.Tree, TreeEntry{p, pick("type", []string{"blob", "tree", "commit"})})
					}
				case k < 3:
					o = TmplOp{Op: "publish", Name: pick("name", used), Content: drawBytes(t, "content")}
				case k == 3:
					o = TmplOp{Op: "write", Name: pick("file", []string{"out", "d/out", "log", "other"}), Content: drawBytes(t, "content")}
				case k == 4 && rapid.Bool().Draw(t, "dir"):
					o = TmplOp{Op: pick("mkdir", []string{"mkdir", "remove"}), Name: pick("file", []string{"log", "other", "missing", "out"})}
				case k < 7:
					o = TmplOp{Op: "list"}
					if rapid.IntRange(0, 2).Draw(t, "faulty") == 2 {
						o.Faults = []Fault{drawWebFault(t, badTrees)}
					}
				default:
					o = TmplOp{Op: "copy", Name: pick("name", used), Dst: pick("dst", dsts)}
					var subst []string
					switch rapid.IntRange(0, 5).Draw(t, "ref") {
					case 4:
						o.Name = "file://" + pick("file", []string{"out", "d/out", "./log", "other", "d"})
					case 5:
						o.Name = pick("url", []string{"https://example.com/none", rawURL(fmt.Sprintf("%040x", 0xabc001), "retry"), rawURL(fmt.Sprintf("%040x", 0xabc001), "log")})
					default:
						subst = badLists
					}
					if rapid.IntRange(0, 2).Draw(t, "faulty") == 2 {
						o.Faults = []Fault{drawWebFault(t, subst), drawWebFault(t, nil)}
					}
				}
				o.Chunk = rapid.SampledFrom([]int{0, 0, 1, 7, 512}).Draw(t, "chunk")
				if o.Chunk == 1 && rapid.IntRange(0, 4).Draw(t, "slow") > 0 {
					o.Chunk = 13
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		New:         func() any { return &TmplCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkTmpl(e, x.(*TmplCase)) },
		Assumptions: []string{"standard output accepts what is printed", "the disk does not fill up half-way through a template"},
	})
}
