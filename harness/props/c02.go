package props

import (
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

func init() {
	register(&core.Prop{
		ID: "C02",
		Rule: "as C01, with modules whose interfaces are composed by embedding (local, dependency, standard library, error, literals, parenthesised, generic instances, overlapping) and aliasing over " +
			"several files and packages; the methods gowrap hands to a bare template are compared with the method set go/types computes for the source. Non-trivial: at least one embed or alias.",
		Quick: 1100, Deep: 16000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &DecoCase{Template: "full"}
			if c.M = drawLib(t, c); c.M == nil {
				c.M = gen.Draw(t, gen.Cfg{Generics: rapid.Bool().Draw(t, "generics"), Embeds: true, MoreEmbeds: true, Aliases: true, UnexportedOK: true, MultiFile: true, StdRich: true, MaxDepth: 1, MaxMethods: 2})
			}
			drawInvocation(t, c)
			return c
		},
		New: func() any { return &DecoCase{} },
		Check: func(e *core.Env, x any) core.Result {
			c := x.(*DecoCase)
			r := checkDeco(e, c)
			r.Nontrivial = false
			for f := range c.M.Features {
				if len(f) > 5 && (f[:5] == "embed" || f[:5] == "alias") {
					r.Nontrivial = true
				}
			}
			return r
		},
		Assumptions: []string{"go/types computes the method set the Go specification defines", "import qualifiers are consistent within a module (known limits, DESIGN.md)"},
	})
}
