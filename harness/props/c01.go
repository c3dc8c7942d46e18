package props

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/tc"
)

// DecoCase is an interface, a template and the way gowrap is run.
type DecoCase struct {
	M        *gen.Module
	Template string // name of a hosted template or "full"
	Name     string // DecoratorName or ""
	PkgPath  bool   // -p with the import path in place of a relative directory
	AbsOut   bool
	FromPkg  bool // run in the source package's directory without -p
	FromDst  bool // run in the destination's directory, which may be empty
	Local    string

	ImportArgs []ImportArg `json:",omitempty"`
}

func drawInvocation(t *rapid.T, c *DecoCase) {
	c.PkgPath = rapid.Bool().Draw(t, "pkgPath")
	c.AbsOut = rapid.IntRange(0, 9).Draw(t, "absOut") == 9
	switch rapid.IntRange(0, 9).Draw(t, "fromPkg") {
	case 9:
		c.FromPkg = true
	case 8:
		c.FromDst = true
	}
}

// generate writes the module and runs gowrap; it returns the path of the output.
func (c *DecoCase) generate(e *core.Env, template string, extra ...string) (out string, err error, panicked string) {
	root := e.Scratch
	must(writeFiles(root, c.M.Files))
	must(writeFiles(root, map[string]string{"tmpl/" + c.Template: template}))
	must(libraryModule(e, root, c.M))
	t := c.M.Targets[0]
	out = filepath.Join(root, t.DstDir, t.DstFile)
	args := []string{"-i", t.Iface}
	dir, rel := root, ""
	if c.FromPkg && t.PkgDir != "" {
		dir = filepath.Join(root, t.PkgDir)
		rel, _ = filepath.Rel(dir, root)
		rel += "/"
	} else {
		if c.FromDst {
			dir = filepath.Dir(out)
			must(os.MkdirAll(dir, 0o755))
			rel, _ = filepath.Rel(dir, root)
			rel += "/"
		}
		if c.PkgPath || t.PkgDir == "" {
			args = append(args, "-p", t.PkgPath)
		} else {
			args = append(args, "-p", "./"+rel+t.PkgDir)
		}
	}
	args = append(args, "-t", rel+"tmpl/"+c.Template)
	if c.AbsOut {
		args = append(args, "-o", out)
	} else if c.FromDst {
		args = append(args, "-o", t.DstFile)
	} else {
		args = append(args, "-o", rel+t.DstDir+"/"+t.DstFile)
	}
	if c.Name != "" {
		args = append(args, "-v", "DecoratorName="+c.Name)
	}
	if c.Local != "" {
		args = append(args, "-l", c.Local)
	}
	err, panicked = genRun(dir, noRemote{}, append(args, extra...)...)
	return out, err, panicked
}

func (c *DecoCase) template(e *core.Env) string {
	if c.Template == "full" {
		return fullTemplate
	}
	return hosted(e, c.Template)
}

func (c *DecoCase) decorator() string {
	if c.Name != "" {
		return c.Name
	}
	suffix := "Full"
	if h := hostedByName(c.Template); h != nil {
		suffix = h.Suffix
	}
	return c.M.Targets[0].Iface + suffix
}

func (c *DecoCase) sample() string {
	t := c.M.Targets[0]
	return fmt.Sprintf("template %s, interface %s.%s -> %s\n%s", c.Template, t.PkgPath, t.Iface, t.DstDir, c.M.Render())
}

func drawTemplate(t *rapid.T, hostedPct int) string {
	if rapid.IntRange(0, 99).Draw(t, "hosted") >= 100-hostedPct {
		return Hosted[rapid.IntRange(0, len(Hosted)-1).Draw(t, "template")].Name
	}
	return "full"
}

func init() {
	register(&core.Prop{
		ID: "C01",
		Rule: "rapid draws a whole Go module (source package of 1-3 files, 0-2 dependency packages, types nested to depth 3, embeds, aliases, comments), a destination " +
			"(same package, existing other package, new directory), and a template (a bare decorator or one of the 18 hosted ones). gowrap generates, go/types checks the " +
			"result against the source. Non-trivial: the module has at least three features beyond flat basic signatures.",
		Quick: 1100, Deep: 16000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &DecoCase{Template: drawTemplate(t, 60)}
			cfg := gen.Cfg{Generics: true, Embeds: true, Aliases: true, UnexportedOK: true, MultiFile: true, Comments: true, StdRich: true, MaxDepth: 3}
			if c.Template != "full" {
				cfg.NameFilter = safeParam
				cfg.ExtraNames = []string{"key", "value", "req", "name", "userID", "opts", "filter", "data"}
			}
			if c.M = drawLib(t, c); c.M == nil {
				c.M = gen.Draw(t, cfg)
			}
			if rapid.IntRange(0, 9).Draw(t, "named") >= 7 {
				c.Name = rapid.SampledFrom([]string{"Deco", "Wrapped", "myDecorator"}).Draw(t, "decoName")
			}
			drawInvocation(t, c)
			return c
		},
		New:   func() any { return &DecoCase{} },
		Check: func(e *core.Env, x any) core.Result { return checkDeco(e, x.(*DecoCase)) },
		Assumptions: []string{
			"type-checking with go/types (go1.24) stands for compiling",
			"opentelemetry is represented by a stand-in with the API the template uses",
			"import qualifiers are consistent within a module, parameter names do not shadow packages (known limits, DESIGN.md)",
		},
	})
}

func checkDeco(e *core.Env, c *DecoCase) core.Result {
	t := c.M.Targets[0]
	r := core.Result{Nontrivial: c.M.NonTrivial(), Key: c.sample(), Features: append(features(c.M), "template:"+c.Template), Sample: c.sample()}
	must(writeFiles(e.Scratch, c.M.Files))
	if _, _, _, err := loadSource(e.Scratch, c.M, t); err != nil {
		r.Discard = "invalid source"
		return r
	}
	out, err, pan := c.generate(e, c.template(e))
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("%s\ntemplate %s, interface %s, output %s/%s\n%s\n-- output --\n%s", fmt.Sprintf(f, a...), c.Template, t.Iface, t.DstDir, t.DstFile, c.M.Render(), numbered(read(out)))
		return r
	}
	if pan != "" {
		return bad("gowrap panicked: %s", pan)
	}
	if err != nil {
		return bad("gowrap refuses a supported interface: %s", errLine(err))
	}
	l := tc.New(e.Scratch, c.M.Path)
	dp := l.Load(c.M.Path + "/" + t.DstDir)
	if dp.Err != nil {
		return bad("the generated code does not compile: %s", compileErr(dp.Err))
	}
	sp := l.Load(t.PkgPath)
	_, it, _ := tc.Iface(sp.Types, t.Iface)
	o := dp.Types.Scope().Lookup(c.decorator())
	if o == nil {
		return bad("decorator %s is not declared", c.decorator())
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return bad("%s is not a defined type", c.decorator())
	}
	if !types.Implements(n, it) && !types.Implements(types.NewPointer(n), it) {
		m, wrong := types.MissingMethod(types.NewPointer(n), it, true)
		return bad("%s does not implement %s: method %s (wrong type: %v)", c.decorator(), t.Iface, m.Name(), wrong)
	}
	h := hostedByName(c.Template)
	if d := methodDiff(n, it, h == nil || h.Which == "all" && !h.Embeds); d != "" {
		return bad("%s", d)
	}
	if h != nil {
		// the constructor gives something assignable to the interface
		f, _ := dp.Types.Scope().Lookup("New" + c.decorator()).(*types.Func)
		if f == nil {
			return bad("constructor New%s is not declared", c.decorator())
		}
		res := f.Type().(*types.Signature).Results()
		if res.Len() == 0 || !types.Implements(res.At(0).Type(), it) {
			return bad("New%s returns %s, which does not implement %s", c.decorator(), res, t.Iface)
		}
	}
	return r
}
