package gen

import (
	"fmt"
	"strings"
)

// shadows adds files the build leaves out to the packages. They declare the
// names of the packages once more, as something else.
func (g *g) shadows(files map[string]string, pkgs []*pkgB, target string) {
	for _, p := range pkgs {
		if !g.chance("shadow", 25) {
			continue
		}
		g.feat("excluded-file")
		for i, n := 0, 1+g.pick("shadows", 2); i < n; i++ {
			kinds := []struct{ name, head, pkg, tail string }{
				{"os_plan9.go", "", p.name, ""},
				{"a_windows_arm64.go", "", p.name, ""},
				{"aa.go", "//go:build ignore\n\n", p.name, ""},
				{"zz.go", "// Copyright.\n\n//go:build never && !linux\n\n", p.name, ""},
				{"gen.go", "//go:build ignore\n\n", "main", "func main() {}\n"},
				{"broken.go", "//go:build ignore\n\n", p.name, "func {{.Name}}(\n"},
				{"_old.go", "", p.name, ""},
				{".#a.go", "", p.name, ""},
				{"_draft.go", "", p.name, "type = {{\n"},
				{"a_plan9_test.go", "", p.name, ""},
				{"aa_test.go", "//go:build ignore\n\n", p.name, ""},
				{"a_test.go", "", p.name + "_test", ""},
			}
			k := kinds[g.pick("shadowKind", len(kinds))]
			var sb strings.Builder
			fmt.Fprintf(&sb, "%spackage %s\n\nimport (\n\tcontext \"os\"\n\tio \"strings\"\n)\n\nvar _ context.File\nvar _ io.Builder\n\n", k.head, k.pkg)
			seen := map[string]bool{}
			put := func(name, typ string) {
				if !seen[name] {
					seen[name] = true
					fmt.Fprintf(&sb, "type %s %s\n\n", name, typ)
				}
			}
			put(target, "interface{ Shadow() int }")
			for _, x := range p.ifaces {
				put(x.name, []string{"interface{ Shadow(int) string }", "struct{}", "= int"}[g.pick("shadowIface", 3)])
			}
			for _, d := range p.decls {
				put(d.name, []string{"interface{ Shadow() }", "map[string]int"}[g.pick("shadowDecl", 2)])
			}
			for _, n := range []string{"A", "B", "T", "K", "V", "E"} {
				put(n, "int")
			}
			sb.WriteString(k.tail)
			files[p.dir+"/"+k.name] = sb.String()
		}
	}
}
