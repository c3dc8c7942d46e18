package gen

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// LibIface is an exported interface of a library somebody else wrote.
type LibIface struct {
	Path, Pkg, Name string
	Methods         []string
	Params          []string          // names of all parameters and results
	Uses            map[string]string // packages of the types in it, by their names; "!" is a name that stands for several
	Std             bool              // part of the standard library
}

// LibCfg says which library interfaces may be drawn and how.
type LibCfg struct {
	Path       string
	NameFilter func(string) bool // of parameters
	Qualifiers map[string]string // names reserved for packages
	NotOwnName bool              // no method is called like its interface
}

// DrawLib draws a module whose target is an interface of a library, or is made from several.
func DrawLib(t *rapid.T, all []LibIface, c LibCfg) *Module {
	pick := func(label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }
	m := &Module{Path: "example.com/m", Files: map[string]string{}, Features: map[string]int{"library-interface": 1}}
	if c.Path != "" {
		m.Path = c.Path
	}
	m.Files["go.mod"] = "module " + m.Path + "\n\ngo 1.24\n"

	var libs []LibIface
next:
	for _, l := range all {
		if l.Uses["!"] != "" {
			continue
		}
		for n, p := range l.Uses {
			if q, ok := c.Qualifiers[n]; ok && p != q {
				continue next
			}
		}
		for _, n := range l.Params {
			if n != "" && n != "_" && c.NameFilter != nil && !c.NameFilter(n) {
				continue next
			}
		}
		for _, n := range l.Methods {
			if c.NotOwnName && n == l.Name {
				continue next
			}
		}
		libs = append(libs, l)
	}

	// the interfaces: their packages have different names, their methods too
	n := 1
	shape := pick("libShape", 5)
	if shape >= 3 {
		n = 1 + pick("libCount", 3)
	}
	var ls []LibIface
	pkgs, used, methods := map[string]string{}, map[string]string{}, map[string]bool{}
	for i := 0; i < n; i++ {
		l := libs[pick("lib", len(libs))]
		ok := true
		for n, p := range l.Uses {
			ok = ok && (used[n] == "" || used[n] == p)
		}
		for _, x := range l.Methods {
			ok = ok && !methods[x]
		}
		if !ok {
			continue
		}
		pkgs[l.Pkg] = l.Path
		for n, p := range l.Uses {
			used[n] = p
		}
		for _, x := range l.Methods {
			methods[x] = true
		}
		ls = append(ls, l)
		m.Libs = m.Libs || !l.Std
	}

	tg := Target{PkgDir: "src", PkgPath: m.Path + "/src", PkgName: "src", Iface: "Target", DstDir: "out", DstFile: "zz_generated.go", DstPkg: "out"}
	switch pick("libDst", 3) {
	case 1:
		m.Files["out/doc.go"] = "package existing\n\nvar Used = 1\n"
		tg.DstPkg = "existing"
	case 2:
		if shape > 0 {
			tg.DstDir, tg.DstPkg, tg.Same = "src", "src", true
		}
	}
	if shape == 0 {
		l := ls[0]
		tg.PkgDir, tg.PkgPath, tg.PkgName, tg.Iface = "", l.Path, l.Pkg, l.Name
		m.Features["library-direct"]++
		m.Features["embed-library"]++
		m.Targets = []Target{tg}
		return m
	}

	var src strings.Builder
	imports := func(paths map[string]string) string {
		var ks []string
		for k, p := range paths {
			if p[strings.LastIndex(p, "/")+1:] == k {
				k = ""
			}
			ks = append(ks, fmt.Sprintf("\t%s %q\n", k, p))
		}
		sort.Strings(ks)
		return "import (\n" + strings.Join(ks, "") + ")\n\n"
	}
	body := func() string {
		var b strings.Builder
		b.WriteString("interface {\n")
		for _, l := range ls {
			fmt.Fprintf(&b, "\t%s.%s\n", l.Pkg, l.Name)
		}
		return b.String()
	}
	if shape == 4 {
		// through a package of the module
		m.Files["dep/dep.go"] = "package dep\n\n" + imports(pkgs) + "// All is a composition\ntype All " + body() + "\tDepOwn(int) string\n}\n"
		src.WriteString("package src\n\n" + imports(map[string]string{"dep": m.Path + "/dep"}))
		fmt.Fprintf(&src, "type Target interface {\n\tdep.All\n\tOwn(string) (int, error)\n}\n")
		m.Features["library-dep"]++
		m.Features["embed-library"]++
	} else {
		src.WriteString("package src\n\n" + imports(pkgs))
		switch shape {
		case 1:
			fmt.Fprintf(&src, "type Target = %s.%s\n", ls[0].Pkg, ls[0].Name)
			m.Features["library-alias"]++
			m.Features["alias-library"]++
		case 2:
			fmt.Fprintf(&src, "type Target %s.%s\n", ls[0].Pkg, ls[0].Name)
			m.Features["library-defined"]++
			m.Features["alias-library"]++
		default:
			src.WriteString("// Target has it all\ntype Target " + body() + "\tOwn(string) (int, error)\n}\n")
			m.Features["library-embed"]++
			m.Features["embed-library"]++
		}
	}
	m.Files["src/a.go"] = src.String()
	m.Targets = []Target{tg}
	return m
}
