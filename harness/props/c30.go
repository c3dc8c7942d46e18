package props

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/hexdigest/gowrap/generator"
	"github.com/hexdigest/gowrap/pkg"
	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// LibGen is a generator made with the library.
type LibGen struct {
	Target   int
	Template string
	Name     string
	Local    string
	How      string // of giving the source package: path, relative, instance
	Imports  bool   // Options.Imports is a slice with room behind its end, shared by all
	VarsToo  bool   // Options.Vars is shared by all
	NilFuncs bool
	Alias    string // Options.SourcePackageAlias
}

// LibCase is a history of generators.
type LibCase struct {
	M     *gen.Module
	Gens  []LibGen
	Runs  []int // which generator writes
	Cut   []int // after how many bytes the writer fails, -1 for never; as many as Runs
	Early bool  // all generators are made before the first writes
}

// cutWriter fails after some bytes.
type cutWriter struct {
	bytes.Buffer
	left int
}

var errCut = errors.New("no space left")

func (w *cutWriter) Write(b []byte) (int, error) {
	if w.left < 0 {
		return w.Buffer.Write(b)
	}
	if len(b) > w.left {
		n, _ := w.Buffer.Write(b[:w.left])
		w.left = 0
		return n, errCut
	}
	w.left -= len(b)
	return w.Buffer.Write(b)
}

var sourceSelector = regexp.MustCompile(`\b_source[\p{L}\p{N}_]+\b`)

const libHeader = "// header of {{.Options.InterfaceName}} {{.Options.HeaderVars.k}}\n\npackage {{.Package.Name}}\n\nimport (\n{{range .Options.Imports}}{{.}}\n{{end}})\n"

func bodyOf(s string) string {
	if i := strings.Index(s, "\npackage "); i >= 0 {
		s = s[i+1:]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "//go:generate gowrap gen") {
			out = append(out, l)
		}
	}
	s = strings.Join(out, "\n")
	for strings.Contains(s, "\n\n") {
		s = strings.ReplaceAll(s, "\n\n", "\n")
	}
	return s
}

func checkLibrary(e *core.Env, c *LibCase) core.Result {
	root := e.Scratch
	r := core.Result{Nontrivial: len(c.Gens) > 1 && len(c.Runs) > len(c.Gens), Key: fmt.Sprint(c.Gens, c.Runs, c.Cut, c.M.Files), Sample: fmt.Sprintf("%+v\nruns %v cut %v\n%s", c.Gens, c.Runs, c.Cut, c.M.Render())}
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("%s\ngenerators %+v\nruns %v, cut after %v\n%s", fmt.Sprintf(f, a...), c.Gens, c.Runs, c.Cut, c.M.Render())
		return r
	}
	must(writeFiles(root, c.M.Files))
	for _, t := range c.M.Targets[:1] {
		if _, _, _, err := loadSource(root, c.M, t); err != nil {
			r.Discard = "invalid source"
			return r
		}
	}
	// what the command writes
	want := make([]string, len(c.Gens))
	for i, g := range c.Gens {
		t := c.M.Targets[g.Target]
		tf := filepath.Join(root, "tmpl", g.Template)
		must(writeFiles(root, map[string]string{"tmpl/" + g.Template: libTemplate(e, g.Template)}))
		out := filepath.Join(root, t.DstDir, t.DstFile)
		args := []string{"-i", t.Iface, "-p", t.PkgPath, "-t", tf, "-o", t.DstDir + "/" + t.DstFile, "-g"}
		if g.VarsToo {
			args = append(args, "-v", "Shared=yes")
		} else if g.Name != "" {
			args = append(args, "-v", "DecoratorName="+g.Name)
		}
		if g.Local != "" {
			args = append(args, "-l", g.Local)
		}
		err, pan := genRun(root, noRemote{}, args...)
		if pan != "" {
			return bad("gowrap panicked: %s", pan)
		}
		if err != nil {
			want[i] = "" // refused
		} else {
			b, err := os.ReadFile(out)
			must(err)
			if g.Alias != "" {
				// the same, but for the selector of the source package
				// and as long, because gofmt breaks and aligns lines by their lengths
				for n := len(sourceSelector.Find(b)); len(g.Alias) < n; {
					g.Alias += "z"
				}
				c.Gens[i].Alias = g.Alias
				b, err = format.Source(sourceSelector.ReplaceAll(b, []byte(g.Alias)))
				must(err)
			}
			want[i] = bodyOf(string(b))
			must(os.Remove(out))
		}
	}
	must(os.Chdir(root))
	defer os.Chdir("/")
	shared := make([]string, 0, 64)
	sharedVars := map[string]interface{}{"Shared": "yes"}
	instances := map[string]*packages.Package{}
	gens := make([]*generator.Generator, len(c.Gens))
	mk := func(i int) string {
		if gens[i] != nil {
			return ""
		}
		g := c.Gens[i]
		t := c.M.Targets[g.Target]
		o := generator.Options{InterfaceName: t.Iface, OutputFile: t.DstDir + "/" + t.DstFile, HeaderTemplate: libHeader, BodyTemplate: libTemplate(e, g.Template), LocalPrefix: g.Local, HeaderVars: map[string]interface{}{"k": i}, SourcePackageAlias: g.Alias}
		if !g.NilFuncs {
			o.Funcs = libFuncs
		}
		switch g.How {
		case "path":
			o.SourcePackage = t.PkgPath
		case "relative":
			if t.PkgDir == "" {
				o.SourcePackage = t.PkgPath
				break
			}
			o.SourcePackage = "./" + t.PkgDir
		default:
			if instances[t.PkgPath] == nil {
				p, err := pkg.Load(t.PkgPath)
				must(err)
				instances[t.PkgPath] = p
			}
			o.SourcePackageInstance = instances[t.PkgPath]
		}
		if g.Imports {
			o.Imports = shared
		}
		if g.VarsToo {
			o.Vars = sharedVars
		} else if g.Name != "" {
			o.Vars = map[string]interface{}{"DecoratorName": g.Name}
		}
		before := o
		x, err := generator.NewGenerator(o)
		if !reflect.DeepEqual(before.Imports, o.Imports) || !reflect.DeepEqual(sharedVars, map[string]interface{}{"Shared": "yes"}) {
			return "NewGenerator changes the options it is given"
		}
		if err != nil {
			if want[i] != "" {
				return fmt.Sprintf("NewGenerator fails: %v, though the command succeeds", err)
			}
			return ""
		}
		gens[i] = x
		return ""
	}
	fail := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				fail = fmt.Sprintf("panic: %v", x)
			}
		}()
		if c.Early {
			for i := range gens {
				if fail = mk(i); fail != "" {
					fail = fmt.Sprintf("generator %d: %s", i, fail)
					return
				}
			}
		}
		wrote := map[int]string{}
		for k, i := range c.Runs {
			if fail = mk(i); fail != "" {
				fail = fmt.Sprintf("generator %d: %s", i, fail)
				return
			}
			if gens[i] == nil {
				continue // refused, like by the command
			}
			w := &cutWriter{left: c.Cut[k]}
			err := gens[i].Generate(w)
			r.Evals++
			switch {
			case want[i] == "" && err == nil:
				fail = fmt.Sprintf("run %d of generator %d succeeds, though the command fails", k, i)
			case want[i] == "":
				r.Features = append(r.Features, "refused")
				if w.Len() > 0 {
					fail = fmt.Sprintf("run %d of generator %d fails (%s), but writes", k, i, errLine(err))
				}
			case w.left == 0 && c.Cut[k] >= 0:
				// may be exactly the length
				r.Features = append(r.Features, "writer fails")
				if err == nil && wrote[i] != "" && len(wrote[i]) > c.Cut[k] {
					fail = fmt.Sprintf("run %d of generator %d succeeds, though the writer failed after %d bytes", k, i, c.Cut[k])
				} else if err == nil && wrote[i] == "" && bodyOf(w.String()) != want[i] {
					fail = fmt.Sprintf("run %d of generator %d succeeds, though the writer failed after %d bytes", k, i, c.Cut[k])
				} else if err != nil && !errors.Is(err, errCut) {
					fail = fmt.Sprintf("run %d of generator %d fails with %v, want the error of the writer", k, i, err)
				}
			case err != nil:
				fail = fmt.Sprintf("run %d of generator %d fails: %v", k, i, errLine(err))
			default:
				r.Features = append(r.Features, "written")
				got := w.String()
				if b := bodyOf(got); b != want[i] {
					fail = fmt.Sprintf("run %d of generator %d does not write what the command does\n-- command --\n%s\n-- library --\n%s", k, i, numbered(want[i]), numbered(b))
				} else if wrote[i] != "" && wrote[i] != got {
					fail = fmt.Sprintf("run %d of generator %d does not write what it wrote before\n-- before --\n%s\n-- now --\n%s", k, i, numbered(wrote[i]), numbered(got))
				} else if head := fmt.Sprintf("// header of %s %d\n", c.M.Targets[c.Gens[i].Target].Iface, i); !strings.HasPrefix(got, head) {
					fail = fmt.Sprintf("run %d of generator %d does not begin with the rendered header template %q:\n%s", k, i, head, numbered(got))
				}
				wrote[i] = got
			}
			if fail != "" {
				return
			}
		}
	}()
	if fail != "" {
		return bad("%s", fail)
	}
	for _, g := range c.Gens {
		r.Features = append(r.Features, "template:"+g.Template, "source:"+g.How)
	}
	return r
}

var libFuncs = map[string]interface{}{"up": strings.ToUpper, "twice": func(s string) string { return s + s }}

// libTemplate is a template that needs none of the command's helper functions.
func libTemplate(e *core.Env, name string) string {
	switch name {
	case "full":
		return fullTemplate
	case "broken":
		return "func {{.Interface.Name}}( {\n"
	case "failing":
		return "{{range .Interface.Methods}}{{index .Params 99}}{{end}}\n"
	case "shared":
		return "// Vars are {{.Vars.Shared}}\n" + fullTemplate
	}
	return hosted(e, name)
}

func init() {
	register(&core.Prop{
		ID: "C30",
		Rule: "rapid draws a module with up to three target interfaces, one to four generators for them (template, variables, local prefix, way of giving the source package, shared option slices and maps), and a history in which they write again and again, " +
			"to writers that may fail half-way. Each write is compared byte for byte with the file the command writes for the same options (apart from its header), and with earlier writes. " +
			"Non-trivial: there are several generators and one of them writes twice. Each write is one evaluation.",
		Quick: 320, Deep: 6000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &LibCase{Early: rapid.Bool().Draw(t, "early")}
			cfg := gen.Cfg{Generics: true, Embeds: true, Aliases: true, UnexportedOK: true, MultiFile: true, Comments: true, StdRich: true, MaxDepth: 2, MaxMethods: 5, NameFilter: safeParam}
			c.M = gen.Draw(t, cfg)
			first := c.M.Targets[0]
			for _, x := range rapid.Permutation([]string{"io.ReadSeeker", "fmt.Stringer", "net/http.Handler", "sort.Interface", "context.Context", "io/fs.FileInfo", "go/ast.Visitor", "net.Conn", "encoding/json.Marshaler"}).Draw(t, "std")[:rapid.IntRange(0, 2).Draw(t, "others")] {
				k := strings.LastIndex(x, ".")
				c.M.Targets = append(c.M.Targets, gen.Target{PkgPath: x[:k], Iface: x[k+1:], DstDir: rapid.SampledFrom([]string{"out", first.DstDir}).Draw(t, "dst"), DstFile: "zz_other.go"})
			}
			n := rapid.IntRange(1, 4).Draw(t, "gens")
			for i := 0; i < n; i++ {
				g := LibGen{Target: rapid.IntRange(0, len(c.M.Targets)-1).Draw(t, "target"), How: rapid.SampledFrom([]string{"path", "relative", "instance"}).Draw(t, "how"),
					Imports: rapid.IntRange(0, 2).Draw(t, "imports") > 0}
				switch k := rapid.IntRange(0, 9).Draw(t, "template"); {
				case k < 4:
					g.Template = "full"
				case k < 5:
					g.Template = rapid.SampledFrom([]string{"broken", "failing"}).Draw(t, "bad")
				case k < 7:
					g.Template, g.VarsToo = "shared", true
				default:
					for g.Template = ""; g.Template == "" || usesHelpers(hosted(e, g.Template)); {
						g.Template = Hosted[rapid.IntRange(0, len(Hosted)-1).Draw(t, "hosted")].Name
					}
				}
				if g.Template == "full" {
					g.NilFuncs = rapid.Bool().Draw(t, "nilFuncs")
				}
				if rapid.IntRange(0, 2).Draw(t, "named") == 2 {
					g.Name = rapid.SampledFrom([]string{"Deco", "Other", "third"}).Draw(t, "name")
				}
				if rapid.IntRange(0, 3).Draw(t, "aliased") == 3 {
					g.Alias = rapid.SampledFrom([]string{"origin", "x0", "_s", "zz"}).Draw(t, "alias")
				}
				if rapid.IntRange(0, 2).Draw(t, "localised") == 2 {
					g.Local = rapid.SampledFrom([]string{c.M.Path, "io", "example.com,context"}).Draw(t, "local")
				}
				c.Gens = append(c.Gens, g)
			}
			for k, m := 0, rapid.IntRange(n, n+4).Draw(t, "runs"); k < m; k++ {
				c.Runs = append(c.Runs, rapid.IntRange(0, n-1).Draw(t, "run"))
				cut := -1
				if rapid.IntRange(0, 4).Draw(t, "cut") == 4 {
					cut = rapid.IntRange(0, 1500).Draw(t, "after")
				}
				c.Cut = append(c.Cut, cut)
			}
			return c
		},
		New:         func() any { return &LibCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkLibrary(e, x.(*LibCase)) },
		Assumptions: []string{"generators are used one at a time: import processing keeps the local prefix in a global variable of golang.org/x/tools"},
	})
}

// usesHelpers says whether a template calls helper functions of the command.
func usesHelpers(s string) bool {
	for _, f := range []string{"up ", "down ", "upFirst", "downFirst", "replace ", "snake", "default ", "trim", "quote", "has", "list", "dict", "cat "} {
		if strings.Contains(s, "| "+f) || strings.Contains(s, "("+f) || strings.Contains(s, "{{"+f) || strings.Contains(s, "{{ "+f) {
			return true
		}
	}
	return false
}
