// Package gen draws whole Go modules with rapid: source packages declaring
// interfaces in many spellings, the packages they depend on, and the place the
// decorator goes to. Everything is valid Go by construction.
package gen

import (
	"fmt"
	"go/token"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Cfg selects what the generator may produce.
type Cfg struct {
	Generics       bool // allow instantiated generic types and generic embeds
	GenericTarget  bool // the target itself has type parameters
	Embeds         bool
	MoreEmbeds     bool // bigger compositions
	Aliases        bool
	UnexportedOK   bool // unexported types/methods in the target (same-package output only)
	MaxMethods     int
	MaxDepth       int
	MultiFile      bool
	Comments       bool
	Runtime        bool // values must be constructible and drivable at run time
	ShadowNames    bool // parameter names equal to imported package or type names
	StdRich        bool // more standard packages, incl. two with the same name
	SingleTarget   bool
	ForceSame      bool // output in the source package
	ForceOther     bool // output in another package
	NoExistingDst  bool
	ReservedParams map[string]bool // parameter names never used
	NoDepStyle     bool
	NameFilter     func(string) bool // parameter names that may be used
	ExtraNames     []string
	Variant        bool // also render a reordered variant of the module
	ManyParams     bool // up to 8 parameters and 5 results
	// Qualifiers denotes packages by names no other package may be given.
	Qualifiers  map[string]string
	SmallArrays bool   // channels of them stay below the limit of the compiler
	CtxShapes   bool   // contexts and errors in unusual places
	Path        string // of the module, example.com/m by default
	IfaceName   string // of the target, Target by default
	Validatable bool   // declare types with a Validate method
}

// Target is an interface to decorate.
type Target struct {
	PkgDir, PkgPath, PkgName string
	Iface                    string
	TypeParams               []TypeParam
	DstDir, DstFile          string
	DstPkg                   string // expected package name of the output
	Same                     bool
}

// TypeParam of a generic target, with type arguments that satisfy it.
type TypeParam struct {
	Name string
	Args []string // candidate type arguments, as universe types
}

// Module is a drawn Go module.
type Module struct {
	Path     string
	Files    map[string]string
	Targets  []Target
	Features map[string]int
	// Variant holds the files of the same module with declarations reordered
	// and moved, when asked for.
	Variant map[string]string
	// Libs says that packages outside of the standard library are needed.
	Libs bool `json:",omitempty"`
}

// Render lists the files of the module for humans.
func (m *Module) Render() string {
	var names []string
	for n := range m.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		fmt.Fprintf(&sb, "-- %s --\n%s\n", n, m.Files[n])
	}
	return sb.String()
}

// NonTrivial says whether the drawn interfaces go beyond flat basic signatures.
func (m *Module) NonTrivial() bool { return len(m.Features) >= 3 }

type decl struct {
	name       string
	comparable bool
	exported   bool
	kind       string // struct, basic, alias, func, iface, generic1, generic2, const, constraint
}

type fileB struct {
	g      *g
	pkg    *pkgB
	name   string
	chunks []chunk
	group  bool // consecutive types share a declaration
}

// chunk is a declaration; elems are the elements of an interface.
type chunk struct {
	head  string
	elems [][]string
	tail  string
}

func (c chunk) String() string {
	var sb strings.Builder
	sb.WriteString(c.head)
	for _, e := range c.elems {
		sb.WriteString(strings.Join(e, "\n"))
		sb.WriteString("\n")
	}
	sb.WriteString(c.tail)
	return sb.String()
}

func text(s string) chunk { return chunk{head: s} }

type pkgB struct {
	dir, path, name string
	decls           []decl
	ifaces          []ifaceD
	files           []*fileB
	constN          string
	deps            []*pkgB
}

type ifaceD struct {
	name     string
	nparams  int
	exported bool
	methods  map[string]bool // all method names (flattened)
	generic  map[string]bool // those that stem from instantiated interfaces
}

type g struct {
	t     *rapid.T
	c     Cfg
	m     *Module
	quals map[string]string // import path -> qualifier, module wide
	spell map[string]int    // 1 raw string, 2 explicit name
	taken map[string]string // qualifier -> import path
	names map[string]string // import path -> package name

	earlier string // type parameter constraints can mention

	dots bool // files may import packages into the file scope

	// names of the methods embeds drew that stem from instantiated interfaces
	instantiated map[string]bool
}

func (g *g) feat(s string) { g.m.Features[s]++ }

func (g *g) pick(label string, n int) int { return rapid.IntRange(0, n-1).Draw(g.t, label) }
func (g *g) chance(label string, pct int) bool {
	// minimal value = false, so shrinking removes optional features
	return rapid.IntRange(0, 99).Draw(g.t, label) >= 100-pct
}

func newFile(gg *g, p *pkgB, name string) *fileB {
	f := &fileB{g: gg, pkg: p, name: name, group: gg.chance("groupTypes", 20)}
	p.files = append(p.files, f)
	if gg.dots && gg.chance("dotUnused", 40) {
		f.chunks = append(f.chunks, chunk{head: "var _ " + gg.dotType()})
	}
	return f
}

// dotType draws a type that is referred to without a qualifier of its package.
func (g *g) dotType() string {
	g.feat("dot-import")
	return []string{"DNSDoneInfo", "*Ring", "[AlignRight]byte", "Stringer", "Context"}[g.pick("dotType", 5)]
}

var dotImports = map[string]string{"Ring": "container/ring", "DNSDoneInfo": "net/http/httptrace", "AlignRight": "text/tabwriter", "Stringer": "fmt", "Context": "context"}

var dotRe = regexp.MustCompile(`(\.\.\.|^|[^\pL\pN_.])(Ring|DNSDoneInfo|AlignRight|Stringer|Context)\b`)

// qualifier returns the name under which the package is imported everywhere in the
// module. gowrap collects imports from several files into one, so a path has
// one name and a name denotes one path (see DESIGN.md, known limits).
func (g *g) qualifier(path, name string) string {
	if q, ok := g.quals[path]; ok {
		return q
	}
	q := name
	if !g.c.NoDepStyle && g.chance("importAlias", 20) {
		q = []string{"al", "x" + name, "pkg", name + "2"}[g.pick("aliasName", 4)]
	}
	for g.taken[q] != "" && g.taken[q] != path {
		q += "x"
	}
	g.quals[path], g.taken[q], g.names[path] = q, path, name
	if !g.c.NoDepStyle && g.chance("importSpelling", 15) {
		g.spell[path] = 1 + g.pick("importSpellingKind", 2)
		g.feat("import-spelling")
	}
	return q
}

// use returns the qualifier (with dot) for a package in this file.
func (f *fileB) use(path, name string) string {
	g := f.g
	q := g.qualifier(path, name)
	if q != name {
		g.feat("import-alias")
	}
	if path[strings.LastIndex(path, "/")+1:] != name {
		g.feat("pkgname-differs")
	}
	return q + "."
}

var qualRe = regexp.MustCompile(`[\pL_][\pL\pN_]*\.\p{Lu}`)

// imports lists the import paths that text refers to.
func (g *g) imports(text string) []string {
	seen := map[string]bool{}
	var out []string
	for _, line := range strings.Split(text, "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		for _, m := range qualRe.FindAllString(line, -1) {
			if p := g.taken[m[:strings.IndexByte(m, '.')]]; p != "" && !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	return out
}

func (f *fileB) render(rev bool) string {
	var body strings.Builder
	g := f.g
	open := false
	for i, c := range f.chunks {
		src := c.String()
		isType := func(i int) bool {
			return i < len(f.chunks) && strings.HasPrefix(f.chunks[i].head, "type ") && !strings.Contains(f.chunks[i].head, "\n\n")
		}
		if f.group && isType(i) && (open || isType(i+1)) {
			if !open {
				body.WriteString("type (\n")
				open = true
				g.feat("grouped-types")
			}
			src = strings.TrimPrefix(src, "type ")
		} else if open {
			body.WriteString(")\n\n")
			open = false
		}
		body.WriteString(src)
		body.WriteString("\n\n")
	}
	if open {
		body.WriteString(")\n")
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\n", f.pkg.name)
	imps := g.imports(body.String())
	if rev {
		for i, j := 0, len(imps)-1; i < j; i, j = i+1, j-1 {
			imps[i], imps[j] = imps[j], imps[i]
		}
	}
	if g.dots {
		seen := map[string]bool{}
		for _, m := range dotRe.FindAllStringSubmatch(body.String(), -1) {
			if !seen[m[2]] {
				seen[m[2]] = true
				fmt.Fprintf(&sb, "import . %q\n\n", dotImports[m[2]])
			}
		}
	}
	if len(imps) > 0 {
		sb.WriteString("import (\n")
		for _, p := range imps {
			spelled := fmt.Sprintf("%q", p)
			if g.spell[p] == 1 {
				spelled = "`" + p + "`"
			}
			if q := g.quals[p]; q == g.names[p] && g.spell[p] != 2 {
				fmt.Fprintf(&sb, "\t%s\n", spelled)
			} else {
				fmt.Fprintf(&sb, "\t%s %s\n", q, spelled)
			}
		}
		sb.WriteString(")\n\n")
	}
	sb.WriteString(body.String())
	return sb.String()
}

type stdT struct {
	path, name, typ string
	iface           bool
	comparable      bool
	ptr             bool
}

var stdTypes = []stdT{
	{"time", "time", "Duration", false, true, false},
	{"io", "io", "Reader", true, false, false},
	{"context", "context", "Context", true, false, false},
	{"time", "time", "Time", false, true, false},
	{"io", "io", "Writer", true, false, false},
	{"bytes", "bytes", "Buffer", false, false, true},
	{"strings", "strings", "Builder", false, false, true},
	{"fmt", "fmt", "Stringer", true, false, false},
}
var stdRich = []stdT{
	{"text/template", "template", "Template", false, false, true},
	{"html/template", "template", "Template", false, false, true},
	{"math/rand", "rand", "Rand", false, false, true},
	{"math/rand/v2", "rand", "Source", true, false, false},
	{"encoding/json", "json", "Number", false, true, false},
	{"sync/atomic", "atomic", "Int64", false, false, true},
}

var basics = []string{"string", "int", "bool", "byte", "float64", "int64", "uint32", "rune", "error", "interface{}", "any", "uintptr", "complex128", "[]byte"}
var compBasics = []string{"string", "int", "bool", "byte", "float64", "int64", "uint32"}

type scope struct {
	f       *fileB
	tparams []string // type parameters usable as types
	// exportedOnly limits source-package names to exported ones
	exportedOnly bool
	hidden       string // the type of the package a type parameter hides
}

func (g *g) localDecl(s scope, wantComparable bool) (decl, bool) {
	var cand []decl
	for _, d := range s.f.pkg.decls {
		if d.kind == "const" || d.kind == "constraint" || strings.HasPrefix(d.kind, "generic") {
			continue
		}
		if s.exportedOnly && !d.exported || d.name == s.hidden {
			continue
		}
		if wantComparable && !d.comparable {
			continue
		}
		cand = append(cand, d)
	}
	if len(cand) == 0 {
		return decl{}, false
	}
	return cand[g.pick("local", len(cand))], true
}

func (g *g) comparableType(s scope) string {
	switch g.pick("cmpKind", 9) {
	case 6:
		return fmt.Sprintf("[%d]%s", 1+g.pick("len", 3), g.comparableType(s))
	case 7:
		g.feat("comparable-struct")
		return "struct { F0 " + g.comparableType(s) + "; F1 *" + g.leaf(s) + " }"
	case 8:
		g.feat("comparable-composite")
		switch g.pick("cmpComposite", 4) {
		case 0:
			return "*" + g.typ(s, 1)
		case 1:
			return "chan<- " + g.comparableType(s)
		case 2:
			return g.ifaceLit(s, 0)
		}
		if g.c.Generics && s.f.pkg.constN != "" && (!s.exportedOnly || isExported(s.f.pkg.constN)) {
			return "[" + s.f.pkg.constN + "]" + g.comparableType(s)
		}
		return "any"
	case 1:
		if d, ok := g.localDecl(s, true); ok {
			g.feat("local-type")
			return d.name
		}
	case 2:
		if q, d, ok := g.depDecl(s, true); ok {
			return q + d.name
		}
	case 3:
		return s.f.use("time", "time") + "Duration"
	case 4:
		return fmt.Sprintf("[%d]%s", 1+g.pick("len", 3), compBasics[g.pick("cmpElt", len(compBasics))])
	}
	return compBasics[g.pick("cmpBasic", len(compBasics))]
}

func (g *g) depDecl(s scope, wantComparable bool) (string, decl, bool) {
	p := s.f.pkg
	if len(p.deps) == 0 {
		return "", decl{}, false
	}
	d := p.deps[g.pick("dep", len(p.deps))]
	var cand []decl
	for _, x := range d.decls {
		if !x.exported || x.kind == "const" || x.kind == "constraint" || strings.HasPrefix(x.kind, "generic") {
			continue
		}
		if wantComparable && !x.comparable {
			continue
		}
		cand = append(cand, x)
	}
	if len(cand) == 0 {
		return "", decl{}, false
	}
	g.feat("dep-type")
	x := cand[g.pick("depDecl", len(cand))]
	return s.f.use(d.path, d.name), x, true
}

// typ draws a type expression valid in the file of the scope.
func (g *g) typ(s scope, depth int) string {
	if depth <= 0 {
		return g.leaf(s)
	}
	switch g.pick("typeKind", 14) {
	default:
		return g.leaf(s)
	case 5:
		g.feat("pointer")
		return "*" + g.typ(s, depth-1)
	case 6:
		g.feat("slice")
		return "[]" + g.typ(s, depth-1)
	case 7:
		g.feat("array")
		if p := s.f.pkg; p.constN != "" && g.chance("constLen", 30) && (!s.exportedOnly || isExported(p.constN)) {
			g.feat("array-const-len")
			return "[" + p.constN + "]" + g.typ(s, depth-1)
		}
		l := []string{"0", "1", "2", "3", "1 << 2", "'a'", "0x1_0", "(1 + 2) * 3", "7 / 2 % 3", "2 &^ 1"}[g.pick("alen", 10)]
		if g.c.SmallArrays && (l == "'a'" || l == "0x1_0") {
			l = "0x3"
		}
		return "[" + l + "]" + g.typ(s, depth-1)
	case 8:
		g.feat("map")
		return "map[" + g.comparableType(s) + "]" + g.typ(s, depth-1)
	case 9:
		g.feat("chan")
		dir := []string{"chan ", "chan<- ", "<-chan "}[g.pick("dir", 3)]
		el := g.typ(s, depth-1)
		if strings.HasPrefix(el, "<-chan") || (strings.HasPrefix(el, "func") || strings.HasPrefix(el, "chan") && g.chance("paren", 50)) {
			el = "(" + el + ")"
			g.feat("paren-type")
		}
		return dir + el
	case 10:
		g.feat("func")
		return "func" + g.funcSig(s, depth-1)
	case 11:
		g.feat("struct")
		return g.structType(s, depth-1)
	case 12:
		g.feat("iface-literal")
		return g.ifaceLit(s, depth-1)
	case 13:
		if g.c.Generics {
			if x, ok := g.genericInst(s, depth-1); ok {
				g.feat("generic-inst")
				return x
			}
		}
		return g.leaf(s)
	}
}

func (g *g) genericInst(s scope, depth int) (string, bool) {
	type cnd struct {
		q   string
		d   decl
		pkg *pkgB
	}
	var cand []cnd
	for _, d := range s.f.pkg.decls {
		if strings.HasPrefix(d.kind, "generic") && (!s.exportedOnly || d.exported) && d.name != s.hidden {
			cand = append(cand, cnd{"", d, nil})
		}
	}
	for _, p := range s.f.pkg.deps {
		for _, d := range p.decls {
			if strings.HasPrefix(d.kind, "generic") && d.exported {
				cand = append(cand, cnd{"?", d, p})
			}
		}
	}
	if len(cand) == 0 {
		return "", false
	}
	c := cand[g.pick("ginst", len(cand))]
	q := ""
	if c.pkg != nil {
		q = s.f.use(c.pkg.path, c.pkg.name)
	}
	if c.d.kind == "generic2" {
		return q + c.d.name + "[" + g.comparableType(s) + ", " + g.typ(s, depth) + "]", true
	}
	return q + c.d.name + "[" + g.typ(s, depth) + "]", true
}

func isExported(n string) bool { return token.IsExported(n) }

func (g *g) leaf(s scope) string {
	k := g.pick("leafKind", 10)
	switch {
	case k >= 4 && k <= 5:
		if d, ok := g.localDecl(s, false); ok {
			g.feat("local-type")
			return d.name
		}
	case k == 6:
		if q, d, ok := g.depDecl(s, false); ok {
			return q + d.name
		}
	case k == 7 || k == 8:
		list := stdTypes
		if g.c.StdRich {
			list = append(append([]stdT{}, stdTypes...), stdRich...)
		}
		st := list[g.pick("std", len(list))]
		g.feat("std-type")
		x := s.f.use(st.path, st.name) + st.typ
		if st.ptr {
			return "*" + x
		}
		return x
	case k == 9:
		if len(s.tparams) > 0 {
			g.feat("tparam-use")
			return s.tparams[g.pick("tp", len(s.tparams))]
		}
	}
	if g.dots && g.chance("dot", 25) {
		return g.dotType()
	}
	if len(s.tparams) > 0 && g.chance("tparam", 40) {
		g.feat("tparam-use")
		return s.tparams[g.pick("tp", len(s.tparams))]
	}
	return basics[g.pick("basic", len(basics))]
}

func (g *g) structType(s scope, depth int) string {
	n := g.pick("nfields", 4)
	var fs []string
	for i := 0; i < n; i++ {
		names := fmt.Sprintf("F%d", i)
		if g.chance("grp", 20) {
			names += fmt.Sprintf(", G%d", i)
		}
		line := names + " " + g.typ(s, depth)
		if g.chance("tag", 25) {
			line += fmt.Sprintf([]string{" `json:\"f%d\"`", " \"json:\\\"f%d,omitempty\\\"\"", " `f%d: ... (a | b)`"}[g.pick("tagKind", 3)], i)
			g.feat("struct-tag")
		}
		fs = append(fs, line)
	}
	if n > 0 && g.chance("embedField", 15) {
		d, ok := g.localDecl(s, false)
		if ok && d.kind == "struct" {
			g.feat("struct-embed")
			if e := d.name; g.chance("embedPtr", 30) {
				fs = append(fs, "*"+e+" `x:\"y\"`")
			} else {
				fs = append(fs, e)
			}
		} else if q, d, ok := g.depDecl(s, false); ok && d.kind == "struct" && g.chance("embedDepField", 50) {
			g.feat("struct-embed-dep")
			fs = append(fs, q+d.name)
		}
	}
	if len(fs) == 0 {
		return "struct{}"
	}
	return "struct { " + strings.Join(fs, "; ") + " }"
}

func (g *g) ifaceLit(s scope, depth int) string {
	n := 1 + g.pick("nimeth", 2)
	var ms []string
	for i := 0; i < n; i++ {
		ms = append(ms, fmt.Sprintf("L%d%s", i, g.funcSig(s, depth)))
	}
	return "interface { " + strings.Join(ms, "; ") + " }"
}

// funcSig draws the signature of a func type (not of a target method).
func (g *g) funcSig(s scope, depth int) string {
	np := g.pick("fnp", 3)
	named := g.chance("fnamed", 40)
	var ps []string
	for i := 0; i < np; i++ {
		ty := g.typ(s, depth)
		if i == np-1 && g.chance("fvariadic", 20) {
			ty = "..." + ty
			g.feat("func-variadic")
		}
		if named {
			ty = fmt.Sprintf("q%d %s", i, ty)
		}
		ps = append(ps, ty)
	}
	nr := g.pick("fnr", 3)
	var rs []string
	for i := 0; i < nr; i++ {
		ty := g.typ(s, depth)
		if named {
			ty = fmt.Sprintf("w%d %s", i, ty)
		}
		rs = append(rs, ty)
	}
	out := "(" + strings.Join(ps, ", ") + ")"
	if nr == 1 && !named {
		return out + " " + wrapResult(rs[0])
	}
	if nr > 0 {
		return out + " (" + strings.Join(rs, ", ") + ")"
	}
	return out
}

func wrapResult(s string) string {
	if strings.HasPrefix(s, "(") {
		return "(" + s + ")"
	}
	return s
}

var paramNames = []string{"a", "b", "c", "x", "s1", "i1", "p1", "e1", "err", "ctx", "s", "r1", "sa1", "sp1", "m1", "ch1", "f1", "st1", "b1", "id", "ünï", "c1", "e", "A", "i2", "_p", "s2"}
var shadowNames = []string{"time", "io", "context", "string", "error", "nil", "len", "T0", "fmt"}

type names struct {
	g     *g
	used  map[string]bool
	avail []string
}

func (n *names) next() string {
	g := n.g
	if g.chance("blank", 10) {
		g.feat("blank-name")
		return "_"
	}
	var cand []string
	pool := append(append([]string{}, paramNames...), g.c.ExtraNames...)
	if g.c.ShadowNames {
		pool = append(pool, shadowNames...)
	}
	for _, x := range pool {
		if !n.used[x] && !g.c.ReservedParams[x] && (g.c.NameFilter == nil || g.c.NameFilter(x)) {
			cand = append(cand, x)
		}
	}
	x := cand[g.pick("pname", len(cand))]
	n.used[x] = true
	if x == "err" || x == "ctx" {
		g.feat("name-" + x)
	}
	return x
}

type grp struct {
	names []string
	typ   string
}

func renderGroups(gs []grp) string {
	var ss []string
	for _, x := range gs {
		if len(x.names) == 0 {
			ss = append(ss, x.typ)
		} else {
			ss = append(ss, strings.Join(x.names, ", ")+" "+x.typ)
		}
	}
	return strings.Join(ss, ", ")
}

func (g *g) paramType(s scope, depth int) string {
	if g.c.CtxShapes && g.chance("ctxShape", 35) {
		ctx := s.f.use("context", "context")
		if len(s.f.pkg.deps) > 0 && g.chance("depCtx", 30) {
			// another package's Context
			d := s.f.pkg.deps[g.pick("depCtxPkg", len(s.f.pkg.deps))]
			g.feat("ctx-other-package")
			if k := g.pick("depCtxKind", 2); k == 0 && !g.dots {
				return s.f.use(d.path, d.name) + "Context"
			}
			return s.f.use(d.path, d.name) + "ErrorX"
		}
		g.feat("ctx-shape")
		opts := []string{ctx + "Context", "*" + ctx + "Context", "[]" + ctx + "Context", ctx + "CancelFunc", "error", "*error", "[]error",
			"func() error", "(" + ctx + "Context)", "(error)", "map[string]error", "chan " + ctx + "Context", "func(" + ctx + "Context)", "Context", "ErrorX"}
		return opts[g.pick("ctxShapeKind", len(opts))]
	}
	if g.c.Validatable && g.chance("validatable", 50) {
		for _, d := range s.f.pkg.decls {
			if d.name == "TReq" && s.hidden == "" {
				opts := []string{"TReq", "*TReq", "TPReq", "*TPReq", "TVText", "TVIface", "TVList", "any"}
				return opts[g.pick("validatableKind", len(opts))]
			}
		}
	}
	return g.typ(s, g.pick("d", depth+1))
}

// methodSig draws the signature of an interface method.
func (g *g) methodSig(s scope) string {
	nm := &names{g: g, used: map[string]bool{}}
	var params []grp
	pNamed := g.chance("pNamed", 60)
	depth := g.c.MaxDepth

	add := func(list *[]grp, named bool, ty string, canGroup bool) {
		x := grp{typ: ty}
		if named {
			x.names = []string{nm.next()}
			if canGroup && g.chance("group", 20) {
				x.names = append(x.names, nm.next())
				g.feat("grouped")
			}
		}
		*list = append(*list, x)
	}
	if g.chance("ctx", 45) {
		g.feat("ctx")
		ty := s.f.use("context", "context") + "Context"
		add(&params, pNamed, ty, true)
	}
	np := g.pick("np", 4)
	if g.c.ManyParams && g.chance("many", 25) {
		np += 4
	}
	for i := 0; i < np; i++ {
		ty := g.paramType(s, depth)
		if i == np-1 && g.chance("variadic", 30) {
			g.feat("variadic")
			add(&params, pNamed, "..."+ty, false)
		} else {
			add(&params, pNamed, ty, true)
		}
	}
	var results []grp
	rNamed := g.chance("rNamed", 40)
	nr := g.pick("nr", 3)
	if g.c.ManyParams && g.chance("manyRes", 25) {
		nr += 2
	}
	for i := 0; i < nr; i++ {
		add(&results, rNamed, g.paramType(s, depth), true)
	}
	if g.chance("lastErr", 55) {
		g.feat("returns-error")
		add(&results, rNamed, "error", true)
	}
	out := "(" + renderGroups(params) + ")"
	switch {
	case len(results) == 0 && g.chance("emptyResults", 10):
		out += " ()"
		g.feat("empty-results")
	case len(results) == 0:
	case len(results) == 1 && len(results[0].names) == 0 && !g.chance("parenRes", 20):
		out += " " + results[0].typ
	default:
		out += " (" + renderGroups(results) + ")"
	}
	return out
}

func (g *g) comment(label string) string {
	return label + " " + rapid.SampledFrom([]string{"does something", "// nested", "says \"hi\" \\n", "{{.}} `x`", "100% of it", "ünï — text"}).Draw(g.t, "ctext")
}

var methodNames = []string{"Get", "Put", "Do", "M0", "M1", "M2", "List", "Call", "Open", "X", "GET", "DO", "Ünï"}
var unexpMethods = []string{"get", "put", "m0"}

// ifaceBody draws the elements of an interface declaration.
func (g *g) ifaceBody(s scope, minMethods int, allowUnexp bool, prefix string, embeds []string, taken map[string]bool) [][]string {
	n := minMethods + g.pick("nm", g.c.MaxMethods)
	var elems [][]string
	for i := 0; i < n; i++ {
		var cand []string
		pool := methodNames
		if allowUnexp && g.chance("unexpMeth", 10) {
			pool = unexpMethods
			g.feat("unexported-method")
		}
		for _, x := range pool {
			if !taken[prefix+x] {
				cand = append(cand, prefix+x)
			}
		}
		if len(cand) == 0 {
			break
		}
		name := cand[g.pick("mname", len(cand))]
		taken[name] = true
		var el []string
		if g.c.Comments && g.chance("doc", 25) {
			k := 1 + g.pick("ndoc", 3)
			for j := 0; j < k; j++ {
				if k > 1 && g.chance("emptyDoc", 25) {
					el = append(el, []string{"\t//", "\t// ", "\t//\t"}[g.pick("emptyDocKind", 3)])
					g.feat("doc-empty-line")
				} else if g.chance("directive", 10) {
					el = append(el, []string{"\t//nolint:all", "\t//lint:ignore", "\t//-", "\t// Deprecated: no", "\t//\tcode()", "\t/*\n\t * several\n\n\t lines */"}[g.pick("directiveKind", 6)])
					g.feat("doc-directive")
				} else if x := g.comment(name); g.chance("blockDoc", 15) {
					el = append(el, "\t/* "+x+" */")
				} else {
					el = append(el, "\t// "+x)
				}
			}
			g.feat("doc")
		}
		line := "\t" + name + g.methodSig(s)
		if g.c.Comments && g.chance("trail", 20) {
			if g.chance("blockTrail", 20) {
				line += " /* " + g.comment("trailing") + " */"
			} else {
				line += " // " + g.comment("trailing")
			}
			g.feat("trailing-comment")
		}
		el = append(el, line)
		elems = append(elems, el)
	}
	for _, e := range embeds {
		pos := g.pick("embedPos", len(elems)+1)
		elems = append(elems[:pos], append([][]string{{"\t" + e}}, elems[pos:]...)...)
	}
	for i, el := range elems {
		if i > 0 && g.c.Comments && g.chance("blankLine", 30) {
			gap := []string{""}
			if g.chance("looseComment", 30) {
				// belongs to no method
				gap = []string{"", "\t// loose comment", ""}
				g.feat("loose-comment")
			}
			elems[i] = append(gap, el...)
		}
	}
	return elems
}
