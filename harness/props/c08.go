package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

func checkDeterminism(e *core.Env, c *DecoCase) core.Result {
	t := c.M.Targets[0]
	r := core.Result{Nontrivial: c.M.NonTrivial(), Key: c.sample(), Features: append(features(c.M), "template:"+c.Template), Sample: c.sample()}
	must(writeFiles(e.Scratch, c.M.Files))
	if _, _, _, err := loadSource(e.Scratch, c.M, t); err != nil {
		r.Discard = "invalid source"
		return r
	}
	var first string
	keep := false // the output
	run := func(what string) (violation string) {
		out, err, pan := c.generate(e, c.template(e))
		got := ""
		switch {
		case pan != "":
			got = "panic: " + pan
		case err != nil:
			got = "error"
		default:
			b, err := os.ReadFile(out)
			must(err)
			if !keep {
				must(os.Remove(out))
			}
			got = string(b)
		}
		r.Evals++
		if first == "" {
			first = got
			return ""
		}
		if got != first {
			files := c.M.Render()
			if what == "the permuted sources" {
				files += "==== permuted ====\n" + (&gen.Module{Files: c.M.Variant}).Render()
			}
			return fmt.Sprintf("another output for %s\ntemplate %s, interface %s\n-- before --\n%s\n-- after --\n%s\n%s", what, c.Template, t.Iface, numbered(first), numbered(got), files)
		}
		return ""
	}
	for i := 0; i < 3; i++ {
		if r.Violation = run("the same sources"); r.Violation != "" {
			return r
		}
	}
	// a decorator written over the last one is the same
	if h := hostedByName(c.Template); len(first) > 20 && (h == nil || stdOnly(hosted(e, c.Template))) {
		keep = true
		for i := 0; i < 2; i++ {
			if r.Violation = run("the same sources and the last output in its place"); r.Violation != "" {
				return r
			}
		}
		keep = false
		must(os.RemoveAll(filepath.Join(e.Scratch, t.DstDir, t.DstFile)))
		r.Features = append(r.Features, "written over")
	}
	if c.M.Variant == nil {
		return r
	}
	// the same declarations in another order and in other files
	orig := c.M.Files
	for f := range orig {
		if filepath.Ext(f) == ".go" {
			must(os.Remove(filepath.Join(e.Scratch, f)))
		}
	}
	c.M.Files = c.M.Variant
	defer func() { c.M.Files = orig }()
	must(writeFiles(e.Scratch, c.M.Files))
	if _, _, _, err := loadSource(e.Scratch, c.M, t); err != nil {
		panic(fmt.Sprintf("the permuted module is not valid: %v\n%s", err, c.M.Render()))
	}
	c.M.Files = orig
	files := c.M.Files
	c.M.Files = c.M.Variant
	v := run("the permuted sources")
	c.M.Files = files
	r.Violation = v
	return r
}

// stdOnly says whether a template imports nothing but the standard library.
func stdOnly(template string) bool {
	return !regexp.MustCompile(`(?m)^\s*(import\s+)?(\w+\s+)?"[a-z]+\.[^"]*/`).MatchString(template)
}

// overlap makes the target embed interfaces that share a method and give other
// names to its parameters.
func overlap(t *rapid.T, c *DecoCase) {
	target := &c.M.Targets[0]
	if len(target.TypeParams) > 0 || rapid.IntRange(0, 3).Draw(t, "overlap") > 0 {
		return
	}
	types := []string{"int", "string", "[]byte"}[:rapid.IntRange(1, 3).Draw(t, "overlapParams")]
	result := rapid.SampledFrom([]string{"", "error", "int"}).Draw(t, "overlapResult")
	n := rapid.IntRange(2, 4).Draw(t, "overlaps")
	src := "package " + target.PkgName + "\n\n"
	embeds := []string{target.Iface}
	for i := 0; i < n; i++ {
		var params []string
		for k, x := range types {
			params = append(params, fmt.Sprintf("p%d%c %s", k, 'a'+i, x))
		}
		src += fmt.Sprintf("type Zov%d interface {\n\tZmeth(%s) %s\n\tZown%d()\n}\n\n", i, strings.Join(params, ", "), result, i)
		embeds = append(embeds, fmt.Sprintf("Zov%d", i))
	}
	src += "type Ztarget interface {\n\t" + strings.Join(rapid.Permutation(embeds).Draw(t, "overlapOrder"), "\n\t") + "\n}\n"
	c.M.Files[filepath.Join(target.PkgDir, "zoverlap.go")] = src
	c.M.Features["overlap names"]++
	c.M.Variant = nil
	target.Iface = "Ztarget"
}

func init() {
	register(&core.Prop{
		ID: "C08",
		Rule: "rapid draws a module, a template (bare or hosted), and a variant of the module: declarations permuted and dealt to other files, methods and embedded elements permuted, imports reversed, unrelated declarations and files added. " +
			"gowrap runs three times on the module, twice over its own output, and once on the variant; the outputs must be byte-identical. Non-trivial: the module has at least three features beyond flat basic signatures. Each run is one evaluation.",
		Quick: 400, Deep: 8000,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &DecoCase{Template: drawTemplate(t, 50)}
			cfg := gen.Cfg{Generics: true, Embeds: true, MoreEmbeds: rapid.Bool().Draw(t, "moreEmbeds"), Aliases: true, UnexportedOK: true, MultiFile: true, Comments: true, StdRich: true, MaxDepth: 2, MaxMethods: 6, Variant: true}
			if c.Template != "full" {
				cfg.NameFilter = safeParam
			} else {
				cfg.GenericTarget = rapid.IntRange(0, 3).Draw(t, "generic") == 3
			}
			c.M = gen.Draw(t, cfg)
			overlap(t, c)
			drawInvocation(t, c)
			return c
		},
		New:         func() any { return &DecoCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkDeterminism(e, x.(*DecoCase)) },
		Setup:       setupExports,
		Assumptions: []string{"methods declared by several embedded interfaces with other parameter names are not permuted (the first embedded one gives the names)", "import qualifiers are consistent within a module"},
	})
}
