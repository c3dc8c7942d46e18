package gen

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// addBaseDecls declares types other declarations of the package can refer to.
func (g *g) addBaseDecls(p *pkgB, prefix string, unexported bool) {
	file := func() *fileB { return p.files[g.pick("declFile", len(p.files))] }
	put := func(src string) { f := file(); f.chunks = append(f.chunks, text(src)) }
	add := func(d decl) { p.decls = append(p.decls, d) }

	put(fmt.Sprintf("type %sStruct struct {\n\tV int\n}", prefix))
	add(decl{prefix + "Struct", true, true, "struct"})
	put(fmt.Sprintf("type %sNamed string", prefix))
	if g.c.GenericTarget {
		put(fmt.Sprintf("func (*%sStruct) Reset() {}\n\nfunc (%sNamed) Less(int) bool { return false }\n\nfunc (%sStruct) String() string { return \"\" }", prefix, prefix, prefix))
	}
	add(decl{prefix + "Named", true, true, "basic"})
	if g.chance("aliasDecl", 40) {
		put(fmt.Sprintf("type %sAlias = []string", prefix))
		add(decl{prefix + "Alias", false, true, "alias"})
	}
	if g.chance("funcDecl", 30) {
		put(fmt.Sprintf("type %sFunc func(int) string", prefix))
		add(decl{prefix + "Func", false, true, "func"})
	}
	if g.chance("unicodeDecl", 20) {
		put(fmt.Sprintf("type Ünit%s []int", prefix))
		add(decl{"Ünit" + prefix, false, true, "basic"})
	}
	if g.chance("ifaceDecl", 30) {
		put(fmt.Sprintf("type %sIface interface{ Z%s() %sStruct }", prefix, prefix, prefix))
		add(decl{prefix + "Iface", false, true, "iface"})
	}
	if g.chance("constDecl", 30) {
		put(fmt.Sprintf("const %sLen = 2", prefix))
		p.constN = prefix + "Len"
	}
	if unexported && g.chance("unexpDecl", 40) {
		n := "u" + strings.ToLower(prefix)
		put(fmt.Sprintf("type %s struct{ v int }", n))
		add(decl{n, true, false, "struct"})
	}
	if g.chance("oddDecl", 30) {
		// names that resemble those of predeclared and well-known types
		pool := []string{"Error", "String", "ParseError", "Int", "Any", "Err", "Interface"}
		if !g.c.CtxShapes && !g.dots {
			pool = append(pool, "Context")
		}
		if unexported {
			pool = append(pool, "parseError", "myContext")
		}
		n := pool[g.pick("oddName", len(pool))]
		put(fmt.Sprintf("type %s struct{ V int }", n))
		// listed twice to be used more often
		add(decl{n, true, isExported(n), "struct"})
		add(decl{n, true, isExported(n), "struct"})
		g.feat("odd-type-name")
	}
	if g.c.Generics || g.c.GenericTarget {
		put(fmt.Sprintf("type %sBox[E any] struct {\n\tV E\n}", prefix))
		add(decl{prefix + "Box", false, true, "generic1"})
		put(fmt.Sprintf("type %sPair[K comparable, W any] struct {\n\tK K\n\tW W\n}", prefix))
		add(decl{prefix + "Pair", false, true, "generic2"})
	}
}

// Draw draws a module.
func Draw(t *rapid.T, c Cfg) *Module {
	if c.MaxMethods == 0 {
		c.MaxMethods = 4
	}
	if c.MaxDepth == 0 {
		c.MaxDepth = 2
	}
	gg := &g{t: t, c: c, m: &Module{Files: map[string]string{}, Features: map[string]int{}}, quals: map[string]string{}, taken: map[string]string{}, names: map[string]string{}, spell: map[string]int{}}
	for q, p := range c.Qualifiers {
		gg.taken[q] = p
	}
	return gg.module()
}

var srcPkgs = []struct{ dir, name string }{{"src", "src"}, {"store/api", "api"}, {"go-svc", "svc"}, {"pkg/v2", "thing"}, {"uni", "uniCode"}, {"snake_case", "snake_case"}, {"Upper", "UPPER"}, {"v1beta1", "v1beta1"}}

func (g *g) module() *Module {
	m := g.m
	m.Path = "example.com/m"
	if g.c.Path != "" {
		m.Path = g.c.Path
	}
	m.Files["go.mod"] = "module " + m.Path + "\n\ngo 1.24\n"

	g.dots = !g.c.Runtime && g.chance("dots", 7)

	// dependency packages
	var deps []*pkgB
	nd := g.pick("ndeps", 4)
	depDirs := []struct{ dir, name string }{{"dep", "dep"}, {"lib/types", "types"}, {"other/types", "types"}, {"yy-lib", "depgo"},
		// directories called like other packages
		{"old/dep", "olddep"}, {"lib/depgo", "legacy"}, {"my/io", "iox"}}
	if g.c.CtxShapes {
		depDirs = append(depDirs, struct{ dir, name string }{"lib/context", "context"}, struct{ dir, name string }{"context", "ctxs"})
	}
	for i := 0; i < nd; i++ {
		k := g.pick("depDir", len(depDirs))
		dd := depDirs[k]
		dup := false
		for _, x := range deps {
			if x.dir == dd.dir {
				dup = true
			}
		}
		if dup {
			continue
		}
		p := &pkgB{dir: dd.dir, path: m.Path + "/" + dd.dir, name: dd.name}
		newFile(g, p, "dep.go")
		if g.c.MultiFile && g.chance("depFile2", 40) {
			newFile(g, p, "dep_more.go")
		}
		g.addBaseDecls(p, fmt.Sprintf("D%d", k), false)
		// earlier deps can be used by later ones
		p.deps = append(p.deps, deps...)
		g.addIfaces(p, fmt.Sprintf("D%d", k), 1+g.pick("ndi", 2), false)
		deps = append(deps, p)
	}

	sp := srcPkgs[g.pick("srcPkg", len(srcPkgs))]
	src := &pkgB{dir: sp.dir, path: m.Path + "/" + sp.dir, name: sp.name, deps: deps}
	newFile(g, src, "a.go")
	if g.c.MultiFile {
		if g.chance("file2", 50) {
			newFile(g, src, "b.go")
			if g.chance("file3", 30) {
				newFile(g, src, "z.go")
			}
		}
	}

	same := g.c.ForceSame
	if !g.c.ForceSame && !g.c.ForceOther {
		same = g.chance("samePkg", 40)
	}
	unexp := g.c.UnexportedOK && same
	g.addBaseDecls(src, "T", unexp)
	if g.c.Validatable {
		src.files[0].chunks = append(src.files[0].chunks, text(validatable))
		for i := 0; i < 3; i++ {
			src.decls = append(src.decls, decl{"TReq", true, true, "struct"}, decl{"TPReq", true, true, "struct"}, decl{"TVText", true, true, "basic"}, decl{"TVIface", false, true, "iface"}, decl{"TVList", false, true, "basic"})
		}
	}
	if g.c.CtxShapes {
		for _, p := range append([]*pkgB{src}, deps...) {
			if !g.dots {
				p.files[0].chunks = append(p.files[0].chunks, text("type Context interface{ Done() <-chan struct{} }"))
			}
			p.files[0].chunks = append(p.files[0].chunks, text("type ErrorX interface{ Error() string }"))
		}
	}
	if g.c.Embeds {
		n := g.pick("nei", 4)
		if g.c.MoreEmbeds {
			n += 2
		}
		g.addIfaces(src, "E", n, unexp)
	}

	// the target
	f := src.files[0]
	if len(src.files) > 1 {
		f = src.files[g.pick("targetFile", len(src.files))]
	}
	s := scope{f: f, exportedOnly: !unexp}
	tgt := Target{PkgDir: src.dir, PkgPath: src.path, PkgName: src.name, Iface: "Target", Same: same}
	if g.c.IfaceName != "" {
		tgt.Iface = g.c.IfaceName
	}
	aliasName := tgt.Iface + "Alias"
	if unexp && g.chance("unexpTarget", 20) {
		tgt.Iface = "t" + tgt.Iface[1:]
		g.feat("unexported-target")
	}
	header := ""
	if g.c.GenericTarget {
		header = g.typeParams(&s, &tgt)
	}
	var embeds []string
	taken := map[string]bool{}
	if g.c.Embeds {
		embeds = g.embeds(s, taken)
	}
	min := 1
	if len(embeds) > 0 {
		min = 0
	}
	body := g.ifaceBody(s, min, unexp, "", embeds, taken)
	tc := chunk{head: fmt.Sprintf("type %s%s interface {\n", tgt.Iface, header), elems: body, tail: "}"}
	pos := g.pick("targetPos", len(f.chunks)+1)
	f.chunks = append(f.chunks[:pos], append([]chunk{tc}, f.chunks[pos:]...)...)

	if g.c.Aliases && !g.c.GenericTarget && g.chance("aliasTarget", 35) {
		af := src.files[g.pick("aliasFile", len(src.files))]
		eq := ""
		if g.chance("trueAlias", 50) {
			eq = "= "
		}
		switch g.pick("aliasOf", 3) {
		case 0:
			af.chunks = append(af.chunks, text(fmt.Sprintf("type %s %s%s", aliasName, eq, tgt.Iface)))
			tgt.Iface = aliasName
			g.feat("alias-local")
		case 1:
			if len(deps) > 0 {
				d := deps[g.pick("aliasDep", len(deps))]
				if pub := d.public(); len(pub) > 0 {
					i := pub[g.pick("aliasDepIface", len(pub))]
					if i.nparams == 0 {
						af.chunks = append(af.chunks, text(fmt.Sprintf("type %s %s%s%s", aliasName, eq, af.use(d.path, d.name), i.name)))
						tgt.Iface = aliasName
						g.feat("alias-dep")
					}
				}
			}
		case 2:
			e := stdEmbeds[g.pick("aliasStd", len(stdEmbeds))]
			af.chunks = append(af.chunks, text(fmt.Sprintf("type %s %s%s%s", aliasName, eq, af.use(e.path, e.pkg), e.typ)))
			tgt.Iface = aliasName
			g.feat("alias-std")
		}
	}

	for k := 0; k < 3 && strings.HasPrefix(tgt.Iface, aliasName) && g.chance("targetChain", 30); k++ {
		af := src.files[g.pick("targetChainFile", len(src.files))]
		eq := "= "
		if g.chance("targetChainDefined", 40) {
			eq = ""
		}
		af.chunks = append(af.chunks, text(fmt.Sprintf("type %sB %s%s", tgt.Iface, eq, tgt.Iface)))
		tgt.Iface += "B"
		g.feat("target-alias-chain")
	}

	// destination
	if same {
		tgt.DstDir, tgt.DstPkg = src.dir, src.name
		g.feat("same-package")
	} else {
		switch k := g.pick("dstKind", 5); {
		case k == 4:
			n := []string{"load_test", "v2", "my_pkg", "Camel", "testdata_x"}[g.pick("dstName", 5)]
			tgt.DstDir, tgt.DstPkg = "gen/"+n, n
			g.feat("dst-odd-name")
		case k == 1 && !g.c.NoExistingDst:
			tgt.DstDir, tgt.DstPkg = "out", "existing"
			m.Files["out/doc.go"] = "package existing\n\nvar Used = 1\n"
			g.feat("existing-dst")
		case k == 2:
			tgt.DstDir, tgt.DstPkg = src.dir+"/wrap", "wrap"
		case k == 3:
			tgt.DstDir, tgt.DstPkg = "gen/deep/decorators", "decorators"
		default:
			tgt.DstDir, tgt.DstPkg = "out", "out"
		}
		g.feat("other-package")
	}
	tgt.DstFile = "zz_generated.go"
	for _, p := range append(deps, src) {
		for _, f := range p.files {
			if len(f.chunks) > 1 && g.chance("shuffle", 30) {
				all := f.chunks
				f.chunks = nil
				for _, k := range rapid.Permutation(seq(len(all))).Draw(g.t, "shuffled") {
					f.chunks = append(f.chunks, all[k])
				}
			}
			m.Files[p.dir+"/"+f.name] = f.render(false)
		}
	}
	g.shadows(m.Files, append(deps, src), tgt.Iface)
	if g.c.Variant {
		g.variant(append(deps, src), src)
		g.shadows(m.Variant, append(deps, src), tgt.Iface)
	}
	m.Targets = []Target{tgt}
	return m
}

const validatable = `// ValidateHook is called by the types that can be validated.
var ValidateHook = func(v any) error { return nil }

type TReq struct {
	V    int
	Note string
}

func (r TReq) Validate() error { return ValidateHook(r) }

type TPReq struct{ V int }

func (r *TPReq) Validate() error { return ValidateHook(r) }

type TVText string

func (r TVText) Validate() error { return ValidateHook(r) }

type TVIface interface{ Validate() error }

type TVList []int

func (r TVList) Validate() error { return ValidateHook(r) }`

type stdEmbed struct {
	path, pkg, typ string
	methods        []string
}

var stdEmbeds = []stdEmbed{
	{"io", "io", "Reader", []string{"Read"}},
	{"fmt", "fmt", "Stringer", []string{"String"}},
	{"io", "io", "Closer", []string{"Close"}},
	{"io", "io", "ReadWriteCloser", []string{"Read", "Write", "Close"}},
	{"sort", "sort", "Interface", []string{"Len", "Less", "Swap"}},
	{"container/heap", "heap", "Interface", []string{"Len", "Less", "Swap", "Push", "Pop"}},
	{"context", "context", "Context", []string{"Deadline", "Done", "Err", "Value"}},
	{"io", "io", "ReaderFrom", []string{"ReadFrom"}},
}

// addIfaces declares interfaces other interfaces can embed.
func (g *g) addIfaces(p *pkgB, prefix string, n int, unexp bool) {
	for i := 0; i < n; i++ {
		f := p.files[g.pick("ifaceFile", len(p.files))]
		name := fmt.Sprintf("%sI%d", prefix, i)
		if g.chance("unexpEmbed", 25) {
			name = strings.ToLower(name)
			g.feat("unexported-embeddable")
		}
		s := scope{f: f, exportedOnly: !unexp}
		d := ifaceD{name: name, exported: isExported(name), methods: map[string]bool{}}
		header := ""
		if g.c.Generics && g.chance("genericIface", 35) {
			a := "A"
			if len(p.decls) > 0 && g.chance("tpShadow", 20) {
				// a type parameter that hides a type of the package
				a = p.decls[g.pick("tpShadowed", len(p.decls))].name
				s.hidden = a
				g.feat("tparam-shadow")
				f.group = f.group || g.chance("groupShadow", 50)
			}
			if g.chance("two", 40) {
				header = "[" + a + " any, B any]"
				s.tparams = []string{a, "B"}
				d.nparams = 2
			} else {
				header = "[" + a + " any]"
				s.tparams = []string{a}
				d.nparams = 1
			}
			g.feat("generic-embeddable")
		}
		taken := map[string]bool{}
		g.instantiated = nil
		var embeds []string
		if g.c.Embeds && i > 0 || len(p.deps) > 0 {
			embeds = g.embeds(s, taken)
			if len(embeds) > 0 {
				g.feat("nested-embed")
			}
		}
		min := 1
		if len(embeds) > 0 {
			min = 0
		}
		body := g.ifaceBody(s, min, false, name2prefix(name), embeds, taken)
		d.methods, d.generic = taken, g.instantiated
		f.chunks = append(f.chunks, chunk{head: fmt.Sprintf("type %s%s interface {\n", name, header), elems: body, tail: "}"})
		p.ifaces = append(p.ifaces, d)
		if g.c.Aliases && d.nparams == 0 && g.chance("ifaceAlias", 25) {
			af := p.files[g.pick("ifaceAliasFile", len(p.files))]
			eq := "= "
			if g.chance("ifaceDefined", 40) {
				eq = ""
			}
			a := ifaceD{name: name + "A", exported: d.exported, methods: d.methods, generic: d.generic}
			of := name
			if g.chance("ifaceAliasStd", 30) {
				e := stdEmbeds[g.pick("ifaceAliasStdOf", len(stdEmbeds))]
				of = af.use(e.path, e.pkg) + e.typ
				a.methods, a.generic = map[string]bool{}, nil
				for _, m := range e.methods {
					a.methods[m] = true
				}
			} else if len(p.deps) > 0 && g.chance("ifaceAliasDep", 40) {
				q := p.deps[g.pick("ifaceAliasDepPkg", len(p.deps))]
				if pub := q.public(); len(pub) > 0 {
					x := pub[g.pick("ifaceAliasDepOf", len(pub))]
					if x.nparams == 0 {
						of, a.methods, a.generic = af.use(q.path, q.name)+x.name, x.methods, x.generic
					}
				}
			}
			g.feat("embeddable-alias")
			af.chunks = append(af.chunks, text(fmt.Sprintf("type %s %s%s", a.name, eq, of)))
			p.ifaces = append(p.ifaces, a)
			for k := 0; k < 3 && g.chance("aliasChain", 45); k++ {
				af := p.files[g.pick("chainFile", len(p.files))]
				eq := "= "
				if g.chance("chainDefined", 40) {
					eq = ""
				}
				af.chunks = append(af.chunks, text(fmt.Sprintf("type %sB %s%s", a.name, eq, a.name)))
				a.name += "B"
				p.ifaces = append(p.ifaces, a)
				g.feat("alias-chain")
			}
		}
	}
}

// public are the interfaces other packages can refer to.
func (p *pkgB) public() (out []ifaceD) {
	for _, d := range p.ifaces {
		if d.exported {
			out = append(out, d)
		}
	}
	return out
}

func name2prefix(n string) string { return strings.ToUpper(n[:1]) + n[1:] }

// embeds draws embedded elements whose method names do not collide with taken,
// except for overlaps of identical interfaces (embedded twice through different paths).
func (g *g) embeds(s scope, taken map[string]bool) []string {
	var out []string
	n := g.pick("nembeds", 4)
	if g.c.MoreEmbeds {
		n += g.pick("moreEmbeds", 3)
	}
	seen := map[string]bool{}
	inst := map[string]bool{}
	defer func() { g.instantiated = inst }()
	// methods of different instantiations differ, so they must not meet
	clash := func(d ifaceD) bool {
		return d.nparams > 0 && overlaps(d.methods, taken) || overlaps(d.generic, taken) || overlaps(d.methods, inst)
	}
	merge := func(d ifaceD) {
		merge(taken, d.methods)
		merge(inst, d.generic)
		if d.nparams > 0 {
			merge(inst, d.methods)
		}
	}
	for i := 0; i < n; i++ {
		switch g.pick("embedKind", 4) {
		case 0: // local
			var cand []ifaceD
			for _, d := range s.f.pkg.ifaces {
				if !seen["l"+d.name] {
					cand = append(cand, d)
				}
			}
			if len(cand) == 0 {
				continue
			}
			d := cand[g.pick("embedLocal", len(cand))]
			if clash(d) {
				continue
			}
			seen["l"+d.name] = true
			g.feat("embed-local")
			if overlaps(d.methods, taken) {
				g.feat("embed-overlap")
			}
			merge(d)
			out = append(out, d.name+g.targs(s, d.nparams))
		case 1: // dep
			if len(s.f.pkg.deps) == 0 {
				continue
			}
			p := s.f.pkg.deps[g.pick("embedDepPkg", len(s.f.pkg.deps))]
			pub := p.public()
			if len(pub) == 0 {
				continue
			}
			d := pub[g.pick("embedDep", len(pub))]
			if seen[p.path+d.name] || clash(d) {
				continue
			}
			seen[p.path+d.name] = true
			g.feat("embed-dep")
			merge(d)
			out = append(out, s.f.use(p.path, p.name)+d.name+g.targs(s, d.nparams))
		case 2: // std
			e := stdEmbeds[g.pick("embedStd", len(stdEmbeds))]
			if seen[e.path+e.typ] {
				continue
			}
			seen[e.path+e.typ] = true
			g.feat("embed-std")
			for _, m := range e.methods {
				taken[m] = true
			}
			if (e.typ == "Context" || e.typ == "Stringer") && g.dots && g.chance("embedDot", 70) {
				g.feat("embed-dot")
				out = append(out, e.typ)
				continue
			}
			out = append(out, s.f.use(e.path, e.pkg)+e.typ)
		case 3:
			if seen["error"] || !g.chance("embedError", 40) {
				continue
			}
			seen["error"] = true
			g.feat("embed-error")
			taken["Error"] = true
			out = append(out, "error")
		}
	}
	for i, x := range out {
		switch g.pick("embedForm", 12) {
		case 10:
			g.feat("embed-paren")
			out[i] = "(" + x + ")"
		case 11:
			g.feat("embed-literal")
			name := fmt.Sprintf("Q%d", len(taken))
			if !taken[name] && g.chance("litMethod", 50) {
				taken[name] = true
				x += "; " + name + g.methodSig(s)
			}
			out[i] = "interface{ " + x + " }"
		}
	}
	return out
}

func overlaps(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}
func merge(dst, src map[string]bool) {
	for k := range src {
		dst[k] = true
	}
}

func (g *g) targs(s scope, n int) string {
	if n == 0 {
		return ""
	}
	g.feat("embed-generic")
	var as []string
	for i := 0; i < n; i++ {
		ty := g.typ(s, g.pick("targDepth", 2))
		if g.c.CtxShapes {
			ty = g.paramType(s, 1)
		}
		as = append(as, ty)
	}
	return "[" + strings.Join(as, ", ") + "]"
}

// typeParams draws the type parameter list of a generic target.
func (g *g) typeParams(s *scope, tgt *Target) string {
	names := []string{"K", "V", "W", "E0", "ü"}
	n := 1 + g.pick("ntp", 3)
	if n == 3 && g.chance("manyTp", 30) {
		n = 5
	}
	if d := s.f.pkg.decls; !(tgt.Same && g.c.Embeds) && g.chance("tpShadow", 20) {
		// a type parameter that hides a type of the package
		names[0] = d[g.pick("tpShadowed", len(d))].name
		s.hidden = names[0]
		g.feat("tparam-shadow")
	}
	var parts []string
	i := 0
	for i < n {
		grpN := 1
		if i+1 < n && g.chance("tpGroup", 40) {
			grpN = 2
			if i+2 < n && g.chance("tpGroup3", 40) {
				grpN = 3
			}
			g.feat("tparam-group")
		}
		if len(s.tparams) > 0 {
			g.earlier = s.tparams[g.pick("earlier", len(s.tparams))]
		} else if n > i+1 && g.chance("later", 30) {
			g.earlier = names[n-1]
			if i+grpN >= n {
				g.earlier = ""
			}
		}
		cons, args := g.constraint(*s)
		for j := 0; j < grpN; j++ {
			tgt.TypeParams = append(tgt.TypeParams, TypeParam{Name: names[i+j], Args: args})
			s.tparams = append(s.tparams, names[i+j])
		}
		parts = append(parts, strings.Join(names[i:i+grpN], ", ")+" "+cons)
		i += grpN
	}
	return "[" + strings.Join(parts, ", ") + "]"
}

func (g *g) constraint(s scope) (string, []string) {
	putIn := func(p *pkgB, name, src string) {
		for _, d := range p.decls {
			if d.name == name {
				return
			}
		}
		f := p.files[g.pick("consFile", len(p.files))]
		f.chunks = append(f.chunks, text(src))
		p.decls = append(p.decls, decl{name, false, true, "constraint"})
	}
	put := func(name, src string) { putIn(s.f.pkg, name, src) }
	switch k := g.pick("constraint", 17); k {
	case 13, 14:
		// a longer union of terms that do not overlap
		g.feat("constraint-long-union")
		arg := compBasics[g.pick("unionArg", 2)]
		terms := []string{arg}
		if g.chance("unionTilde", 50) {
			terms[0] = "~" + arg
		}
		pool := []string{"bool", "~float64", "~[]byte", "map[string]int8", "chan error"}
		if s.hidden == "" {
			pool = append(pool, "*TStruct", "[2]TStruct", "map[string]TStruct", "<-chan TStruct", "func(TStruct) error", "struct{ V TStruct }", "~[]TStruct", "TStruct")
		}
		for _, p := range s.f.pkg.deps {
			q := s.f.use(p.path, p.name)
			pool = append(pool, q+p.decls[0].name, "*"+q+p.decls[0].name)
			break
		}
		for n := 1 + g.pick("unionTerms", 4); n > 0; n-- {
			i := g.pick("unionTerm", len(pool))
			at := g.pick("unionAt", len(terms)+1)
			terms = append(terms[:at], append([]string{pool[i]}, terms[at:]...)...)
			pool = append(pool[:i:i], pool[i+1:]...)
		}
		u := strings.Join(terms, " | ")
		if g.chance("unionIface", 20) {
			u = "interface{ " + u + " }"
			if g.chance("unionComparable", 30) {
				u = "interface{ comparable; ~int | ~string | bool }"
				arg = "int"
			}
		}
		return u, []string{arg}
	case 15, 16:
		if len(s.f.pkg.deps) == 0 {
			return "any", nil
		}
		p := s.f.pkg.deps[g.pick("consDep", len(s.f.pkg.deps))]
		g.feat("constraint-dep")
		q := s.f.use(p.path, p.name)
		if k == 15 {
			putIn(p, "ANumber", "type ANumber interface{ ~int | ~float64 }")
			c := q + "ANumber"
			if g.chance("consDepUnion", 30) {
				c += " | ~string"
			}
			return c, []string{"int", "float64"}
		}
		if g.earlier == "" {
			return "any", nil
		}
		putIn(p, "AHas", "type AHas[E any] interface{ Less(E) bool }")
		return q + "AHas[" + g.earlier + "]", nil
	case 1:
		g.feat("constraint-comparable")
		return "comparable", []string{"string", "int"}
	case 2:
		g.feat("constraint-union")
		return "int | string", []string{"int", "string"}
	case 3:
		g.feat("constraint-approx")
		return "~int | ~string", []string{"int", "string"}
	case 4:
		g.feat("constraint-local")
		put("TNumber", "type TNumber interface{ ~int | ~float64 }")
		return "TNumber", []string{"int", "float64"}
	case 5:
		g.feat("constraint-std")
		return s.f.use("fmt", "fmt") + "Stringer", []string{"interface{ String() string }"}
	case 6:
		g.feat("constraint-std2")
		return s.f.use("cmp", "cmp") + "Ordered", []string{"int", "string"}
	case 7:
		g.feat("constraint-local-union")
		put("TNumber", "type TNumber interface{ ~int | ~float64 }")
		put("TText", "type TText interface{ ~string | ~[]byte }")
		return "TNumber | TText", []string{"int", "string"}
	case 9, 10, 11, 12:
		// constraints that mention other type parameters
		p := g.earlier
		if p == "" {
			return "any", nil
		}
		g.feat("constraint-tparam")
		switch k {
		case 9:
			return "~[]" + p, nil
		case 10:
			return "interface{ Less(" + p + ") bool }", nil
		case 11:
			put("TLess", "type TLess[E any] interface{ Less(E) bool }")
			return "TLess[" + p + "]", nil
		}
		return "interface{ *" + p + "; Reset() }", nil
	case 8:
		g.feat("constraint-iface")
		return "interface{}", []string{"int", "bool"}
	}
	return "any", []string{"int", "string"}
}

// variant renders the module with methods, declarations and imports in another
// order, declarations moved between files, and unrelated ones added.
func (g *g) variant(pkgs []*pkgB, src *pkgB) {
	v := map[string]string{"go.mod": g.m.Files["go.mod"]}
	for n, s := range g.m.Files {
		if strings.HasPrefix(n, "out/") {
			v[n] = s
		}
	}
	for _, p := range pkgs {
		var all []chunk
		for _, f := range p.files {
			all = append(all, f.chunks...)
		}
		perm := rapid.Permutation(seq(len(all))).Draw(g.t, "chunkPerm")
		nf := 1 + g.pick("variantFiles", 3)
		files := make([]*fileB, nf)
		for i := range files {
			files[i] = &fileB{g: g, pkg: p, name: fmt.Sprintf("v%d.go", i), group: g.chance("variantGroup", 20)}
		}
		for _, k := range perm {
			c := all[k]
			if len(c.elems) > 1 {
				ep := rapid.Permutation(seq(len(c.elems))).Draw(g.t, "elemPerm")
				el := make([][]string, 0, len(ep))
				for _, e := range ep {
					el = append(el, c.elems[e])
				}
				c.elems = el
			}
			f := files[g.pick("chunkFile", nf)]
			f.chunks = append(f.chunks, c)
		}
		for _, f := range files {
			rev := g.chance("revImports", 50)
			v[p.dir+"/"+f.name] = f.render(rev)
		}
		if p == src && g.chance("unrelatedDecl", 60) {
			v[p.dir+"/unrelated.go"] = "package " + p.name + "\n\nimport \"os\"\n\ntype Unrelated interface{ Unrelated(*os.File) error }\n\nfunc helper() {}\n"
			g.feat("unrelated")
		}
	}
	g.m.Variant = v
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
