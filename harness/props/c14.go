package props

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/tc"
)

// TmplImport is an import of a template.
type TmplImport struct {
	Path     string
	Name     string // explicit name
	Use      string // expression after the qualifier, "" if it is not used
	Declared bool   // imported by the template; otherwise gowrap has to find it
	Block    int    // import declaration it is in
	Gap      bool   // preceded by an empty line
	Semi     bool   `json:",omitempty"` // followed by a semicolon in place of a new line
}

// FileCase is a generation into a destination in some state.
type FileCase struct {
	D       DecoCase
	Imports []TmplImport
	Parens  []bool // whether import declaration i is parenthesised although it holds one
	Dst     []string
	Old     string // contents of the destination before: "", output (of the same run), other (of another template), stale
	NoGen   bool
}

var tmplUses = []TmplImport{
	{Path: "strings", Use: "ToUpper"}, {Path: "bytes", Use: "ToUpper"}, {Path: "strconv", Use: "Itoa"}, {Path: "bufio", Use: "NewReader"}, {Path: "sync", Use: "NewCond"},
	{Path: "net/http", Use: "Get"}, {Path: "encoding/json", Use: "Marshal"}, {Path: "math/rand", Use: "Int"}, {Path: "context", Use: "Background"}, {Path: "time", Use: "Now"}, {Path: "text/template", Use: "New"},
}

func importName(p string) string { return p[strings.LastIndex(p, "/")+1:] }

// body renders the template.
func (c *FileCase) body(e *core.Env) string {
	var sb strings.Builder
	blocks := map[int][]TmplImport{}
	max := -1
	for _, i := range c.Imports {
		if i.Declared {
			blocks[i.Block] = append(blocks[i.Block], i)
			if i.Block > max {
				max = i.Block
			}
		}
	}
	for b := 0; b <= max; b++ {
		is := blocks[b]
		if len(is) == 0 {
			continue
		}
		end := func(i TmplImport) string {
			if i.Semi {
				return " ; "
			}
			return "\n"
		}
		line := func(i TmplImport) string { return strings.TrimSpace(i.Name + " " + strconv.Quote(i.Path)) }
		if len(is) == 1 && !(b < len(c.Parens) && c.Parens[b]) {
			sb.WriteString("import " + line(is[0]) + end(is[0]))
			continue
		}
		if is[0].Semi {
			sb.WriteString("import (")
		} else {
			sb.WriteString("import (\n")
		}
		for _, i := range is {
			if i.Gap {
				sb.WriteString("\n")
			}
			sb.WriteString("  " + line(i) + end(i))
		}
		sb.WriteString(")\n")
	}
	t := c.D.template(e)
	if max >= 0 && strings.HasPrefix(strings.TrimSpace(t), "import") {
		panic("two import sections")
	}
	sb.WriteString(t)
	for k, i := range c.Imports {
		if i.Use != "" {
			n := i.Name
			if n == "" {
				n = importName(i.Path)
			}
			fmt.Fprintf(&sb, "\nvar _x%d = %s.%s\n", k, n, i.Use)
		}
	}
	return sb.String()
}

// sibling makes a decorator of another interface with the template, in the same package.
func (c *FileCase) sibling(e *core.Env) {
	d := c.D
	m := *c.D.M
	t := m.Targets[0]
	m.Files = map[string]string{}
	for k, v := range c.D.M.Files {
		m.Files[k] = v
	}
	m.Files[filepath.Join(t.PkgDir, "zsibling.go")] = "package " + t.PkgName + "\n\nimport \"context\"\n\ntype Zsibling interface {\n\tZsib(ctx context.Context, n int) (s string, err error)\n\tZno()\n}\n"
	t.Iface, t.DstFile = "Zsibling", "zsibling_gen.go"
	m.Targets = []gen.Target{t}
	d.M = &m
	if _, err, pan := d.generate(e, d.template(e)); err != nil || pan != "" {
		panic(fmt.Sprintf("no sibling: %v %s", err, pan))
	}
}

func checkFile(e *core.Env, c *FileCase) core.Result {
	t := c.D.M.Targets[0]
	r := core.Result{Nontrivial: len(c.Imports) > 1 || len(c.Dst) > 0 || c.D.Local != "" || c.Old != "", Key: c.D.sample() + fmt.Sprint(c.Imports, c.Dst, c.Old, c.D.Local, c.Parens),
		Features: append(features(c.D.M), "template:"+c.D.Template), Sample: fmt.Sprintf("imports %+v, -l %q, destination %v %s\n%s", c.Imports, c.D.Local, c.Dst, c.Old, c.D.sample())}
	r.Features = append(r.Features, c.Dst...)
	if c.Old != "" {
		r.Features = append(r.Features, "old:"+c.Old)
	}
	if c.D.Local != "" {
		r.Features = append(r.Features, "local-prefix")
	}
	m := c.D.M
	must(writeFiles(e.Scratch, m.Files))
	if _, _, _, err := loadSource(e.Scratch, m, t); err != nil {
		r.Discard = "invalid source"
		return r
	}
	dst := filepath.Join(e.Scratch, t.DstDir)
	want := t.DstPkg
	extra := map[string]string{}
	sibling := false
	exists := t.Same
	if ents, err := os.ReadDir(dst); err == nil {
		for _, f := range ents {
			exists = exists || strings.HasSuffix(f.Name(), ".go")
		}
	}
	for _, s := range c.Dst {
		switch s {
		case "other-file":
			if !exists {
				want, exists = "custom", true
			}
			extra["other.go"] = "// Package doc.\npackage " + want + "\n\nvar Other = 1\n"
		case "external-test":
			if exists {
				extra["x_test.go"] = "package " + want + "_test\n\nvar X = 1\n"
			}
		case "internal-test":
			if exists {
				extra["y_test.go"] = "package " + want + "\n\nvar testOnly = 1\n"
			}
		case "ignored-file":
			if exists {
				extra["gen.go"] = "//go:build ignore\n\npackage main\n\nfunc main() {}\n"
			}
		case "other-files":
			extra["README.md"] = "package nonsense\n"
			extra["data.txt"] = "x"
		case "sub-package":
			extra["zsub/z.go"] = "package different\n"
		case "sibling":
			sibling = true
		case "other-os":
			if exists {
				extra["os_plan9.go"] = "package " + want + "\n\nvar OnlyPlan9 = 1\n"
			}
		}
	}
	for f, s := range extra {
		must(writeFiles(dst, map[string]string{f: s}))
	}
	if sibling {
		c.sibling(e)
	}
	body := c.body(e)
	out := filepath.Join(dst, t.DstFile)
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("%s\ntemplate %s, interface %s, output %s/%s, -l %q, destination before: %v %s\n-- template --\n%s\n%s\n-- output --\n%s",
			fmt.Sprintf(f, a...), c.D.Template, t.Iface, t.DstDir, t.DstFile, c.D.Local, c.Dst, c.Old, body, m.Render(), numbered(read(out)))
		return r
	}
	var more []string
	if c.NoGen {
		more = append(more, "-g")
	}
	switch c.Old {
	case "other":
		_, err, pan := c.D.generate(e, fullTemplate, more...)
		if err != nil || pan != "" {
			return bad("gowrap fails: %v %s", err, pan)
		}
	case "output":
		_, err, pan := c.D.generate(e, body, more...)
		if err != nil || pan != "" {
			return bad("gowrap fails: %v %s", err, pan)
		}
	case "longer":
		must(writeFiles(dst, map[string]string{t.DstFile: "package " + want + "\n\n" + strings.Repeat("// filler\n", 3000)}))
	}
	_, err, pan := c.D.generate(e, body, more...)
	if pan != "" {
		return bad("gowrap panicked: %s", pan)
	}
	if err != nil {
		return bad("gowrap refuses a supported interface: %s", errLine(err))
	}
	b, err := os.ReadFile(out)
	must(err)
	for p, want := out, os.FileMode(0o600); p != e.Scratch; p, want = filepath.Dir(p), 0o700 {
		fi, err := os.Lstat(p)
		must(err)
		if fi.Mode()&want != want {
			return bad("%s is not accessible to its owner: %s", p, fi.Mode())
		}
	}
	text := string(b)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, out, text, parser.ParseComments)
	if err != nil {
		return bad("the output is not Go: %v", err)
	}
	if !ast.IsGenerated(f) || !strings.HasPrefix(text, "// Code generated ") {
		return bad("the output does not start with the generated-code marker")
	}
	if f.Name.Name != want {
		return bad("the output declares package %s, want %s", f.Name.Name, want)
	}
	if g, err := format.Source(b); err != nil || string(g) != text {
		return bad("the output is not gofmt-clean (%v), formatted:\n%s", err, g)
	}
	seen := map[string]bool{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := ""
		if i.Name != nil {
			n = i.Name.Name
		}
		if seen[n+" "+p] {
			return bad("import %s %q is repeated", n, p)
		}
		seen[n+" "+p] = true
	}
	l := tc.New(e.Scratch, m.Path)
	dp := l.Load(m.Path + "/" + t.DstDir)
	if dp.Err != nil {
		return bad("the package of the output does not compile: %s", compileErr(dp.Err))
	}
	if dp.Types.Name() != want {
		return bad("the package of the output is %s, want %s", dp.Types.Name(), want)
	}
	if s := groupsBad(fs, f, c.D.Local); s != "" {
		return bad("%s", s)
	}
	return r
}

func matchesPrefix(path, list string) bool {
	for _, p := range strings.Split(list, ",") {
		if p != "" && (strings.HasPrefix(path, p) || strings.TrimSuffix(p, "/") == path) {
			return true
		}
	}
	return false
}

// groupsBad checks that imports matching the prefixes come last, apart from others.
func groupsBad(fs *token.FileSet, f *ast.File, list string) string {
	if list == "" {
		return ""
	}
	wasLocal := false
	prev := 0
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		local := matchesPrefix(p, list)
		line := fs.Position(i.Pos()).Line
		if wasLocal && !local {
			return fmt.Sprintf("import %q follows an import that matches -l %q", p, list)
		}
		if local && !wasLocal && prev != 0 && line == prev+1 {
			return fmt.Sprintf("import %q, which matches -l %q, is in the group of the import before", p, list)
		}
		wasLocal, prev = local, line
	}
	return ""
}

func init() {
	register(&core.Prop{
		ID: "C14",
		Rule: "rapid draws a module, a template (bare or hosted; bare ones with imports in several declarations, groups and spellings, used, unused, or used without being imported), a list of -l prefixes, and a state of the destination (other files, a decorator of another interface made with the same template, tests of both kinds, ignored files, sub-packages, previous or longer outputs). " +
			"The output is parsed, formatted, its import groups are checked, and it is type-checked with the rest of its package. Non-trivial: template imports, a destination state, a prefix or a previous output occur.",
		Quick: 900, Deep: 14000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &FileCase{}
			c.D.Template = drawTemplate(t, 30)
			cfg := gen.Cfg{Embeds: true, Aliases: true, UnexportedOK: true, MultiFile: true, Comments: true, StdRich: true, MaxDepth: 2}
			if c.D.Template != "full" {
				cfg.NameFilter = safeParam
			} else {
				cfg.Qualifiers = map[string]string{}
				for _, u := range tmplUses {
					cfg.Qualifiers[importName(u.Path)] = u.Path
				}
			}
			c.D.M = gen.Draw(t, cfg)
			drawInvocation(t, &c.D)
			n := 0
			if c.D.Template == "full" {
				n = rapid.IntRange(0, 6).Draw(t, "imports")
			}
			taken := map[string]bool{}
			for k := 0; k < n; k++ {
				i := tmplUses[rapid.IntRange(0, len(tmplUses)-1).Draw(t, "import")]
				i.Declared = rapid.IntRange(0, 4).Draw(t, "declared") < 4
				if rapid.IntRange(0, 3).Draw(t, "unused") == 3 && i.Declared {
					i.Use = ""
				}
				if i.Declared {
					switch rapid.IntRange(0, 5).Draw(t, "named") {
					case 4:
						i.Name = importName(i.Path)
					case 5:
						i.Name = fmt.Sprintf("tx%d", k)
					}
				} else if i.Path == "math/rand" || i.Path == "text/template" {
					i.Declared = true // there are other packages of that name
				}
				i.Block = rapid.IntRange(0, 2).Draw(t, "block")
				i.Gap = rapid.IntRange(0, 3).Draw(t, "gap") == 3
				i.Semi = rapid.IntRange(0, 7).Draw(t, "semi") == 7
				q := i.Name
				if q == "" {
					q = importName(i.Path)
				}
				if taken[q] {
					continue
				}
				taken[q] = true
				c.Imports = append(c.Imports, i)
			}
			for k := 0; k < 3; k++ {
				c.Parens = append(c.Parens, rapid.Bool().Draw(t, "parens"))
			}
			for _, s := range []string{"other-file", "external-test", "internal-test", "ignored-file", "other-files", "sub-package", "other-os", "sibling"} {
				if rapid.IntRange(0, 3).Draw(t, s) == 3 {
					c.Dst = append(c.Dst, s)
				}
			}
			c.Old = rapid.SampledFrom([]string{"", "", "", "output", "other", "longer"}).Draw(t, "old")
			if c.Old == "other" && c.D.Template != "full" {
				c.Old = ""
			}
			c.D.Local = rapid.SampledFrom([]string{"", "", "example.com/m", "example.com/", "example.com/m/lib,example.com/m/src", "io,net", "net/http", "std,example.com/m/", "context", "e", "github.com/", "nothing"}).Draw(t, "local")
			c.NoGen = rapid.Bool().Draw(t, "g")
			return c
		},
		New:         func() any { return &FileCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkFile(e, x.(*FileCase)) },
		Assumptions: []string{"type-checking with go/types (go1.24) stands for compiling", "import qualifiers are consistent within a module and with the template", "packages used without an import are of the standard library and unambiguous"},
	})
}
