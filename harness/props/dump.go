package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/tc"
)

// dumpTail writes what templates are given as a comment.
const dumpTail = "\n// DUMP {{toJson .Interface | b64enc}}\n"

type dumpParam struct {
	Name, Type string
	Variadic   bool
}

type dumpMethod struct {
	Doc, Comment                 []string
	Name                         string
	Params, Results              []dumpParam
	ReturnsError, AcceptsContext bool
}

type dumpIface struct {
	Name, Type string
	Generics   struct{ Types, Params string }
	Methods    map[string]dumpMethod
}

var dumpRe = regexp.MustCompile(`(?m)^// DUMP (\S+)$`)

func parseDump(src string) (*dumpIface, error) {
	m := dumpRe.FindStringSubmatch(src)
	if m == nil {
		return nil, fmt.Errorf("the output has no DUMP line")
	}
	b, err := base64.StdEncoding.DecodeString(m[1])
	if err != nil {
		return nil, err
	}
	d := &dumpIface{}
	return d, json.Unmarshal(b, d)
}

// dumped generates with the template and returns the source interface, what
// the template was given and a function to report violations.
func dumped(e *core.Env, c *DecoCase, template string, r *core.Result) (it *types.Interface, d *dumpIface, l *tc.Loader, dp *tc.Pkg, bad func(string, ...any) core.Result, ok bool) {
	t := c.M.Targets[0]
	*r = core.Result{Nontrivial: true, Key: c.sample(), Features: features(c.M), Sample: c.sample()}
	if c.Template != "full" {
		r.Features = append(r.Features, "template:"+c.Template)
	}
	must(writeFiles(e.Scratch, c.M.Files))
	if _, _, _, err := loadSource(e.Scratch, c.M, t); err != nil {
		r.Discard = "invalid source"
		return
	}
	out, err, pan := c.generate(e, template)
	bad = func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("%s\ntemplate %s, interface %s, output %s/%s\n%s\n-- output --\n%s", fmt.Sprintf(f, a...), c.Template, t.Iface, t.DstDir, t.DstFile, c.M.Render(), numbered(read(out)))
		return *r
	}
	if pan != "" {
		bad("gowrap panicked: %s", pan)
		return
	}
	if err != nil {
		bad("gowrap refuses a supported interface: %s", errLine(err))
		return
	}
	l = tc.New(e.Scratch, c.M.Path)
	dp = l.Load(c.M.Path + "/" + t.DstDir)
	if dp.Err != nil {
		bad("the generated code does not compile: %s", compileErr(dp.Err))
		return
	}
	sp := l.Load(t.PkgPath)
	_, it, err = tc.Iface(sp.Types, t.Iface)
	must(err)
	d, err = parseDump(read(out))
	if err != nil {
		bad("%v", err)
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		dm, has := d.Methods[m.Name()]
		if !has {
			bad("the template is not given method %s", m.Name())
			return
		}
		sig := m.Type().(*types.Signature)
		if len(dm.Params) != sig.Params().Len() || len(dm.Results) != sig.Results().Len() {
			bad("method %s is given with %d parameters and %d results", m.Name(), len(dm.Params), len(dm.Results))
			return
		}
	}
	if len(d.Methods) != it.NumMethods() {
		bad("the template is given %d methods, the interface has %d", len(d.Methods), it.NumMethods())
		return
	}
	return it, d, l, dp, bad, true
}

// direct tells whether t is written as the named type and not as an alias of it.
func isContextType(t types.Type) (yes, viaAlias bool) {
	if _, ok := t.(*types.Alias); ok {
		viaAlias = true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context", viaAlias
}

func isErrorType(t types.Type) (yes, viaAlias bool) {
	if _, ok := t.(*types.Alias); ok {
		viaAlias = true
	}
	return types.Identical(t, types.Universe.Lookup("error").Type()), viaAlias
}

func checkNames(e *core.Env, c *DecoCase) core.Result {
	var r core.Result
	it, d, _, _, bad, ok := dumped(e, c, fullTemplate+dumpTail, &r)
	if !ok {
		return r
	}
	r.Nontrivial = c.M.Features["blank-name"] > 0 || c.M.Features["name-err"] > 0 || c.M.Features["name-ctx"] > 0
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		dm := d.Methods[m.Name()]
		if dm.Name != m.Name() {
			return bad("method %s is given under the name %s", dm.Name, m.Name())
		}
		var declared []string
		var got []string
		for j := 0; j < sig.Params().Len(); j++ {
			declared = append(declared, sig.Params().At(j).Name())
			got = append(got, dm.Params[j].Name)
		}
		for j := 0; j < sig.Results().Len(); j++ {
			declared = append(declared, sig.Results().At(j).Name())
			got = append(got, dm.Results[j].Name)
		}
		accepts, returns := false, false
		if sig.Params().Len() > 0 {
			accepts, _ = isContextType(sig.Params().At(0).Type())
		}
		if n := sig.Results().Len(); n > 0 {
			returns, _ = isErrorType(sig.Results().At(n - 1).Type())
		}
		seen := map[string]bool{}
		for j, n := range got {
			what := fmt.Sprintf("method %s, parameter or result %d", m.Name(), j)
			if !token.IsIdentifier(n) || n == "_" {
				return bad("%s: %q is not a usable name", what, n)
			}
			if seen[n] {
				return bad("%s: the name %s is used twice", what, n)
			}
			switch {
			case j == 0 && accepts && n != "ctx":
				return bad("%s: the context is named %s", what, n)
			case j == len(got)-1 && returns && n != "err":
				return bad("%s: the error is named %s", what, n)
			case j == 0 && accepts || j == len(got)-1 && returns:
			default:
				dn := declared[j]
				// ctx is set aside for the context and err for the error (the latter in
				// every method with results)
				if dn != "" && dn != "_" && dn != n && !(dn == "ctx" && accepts) && !(dn == "err" && sig.Results().Len() > 0) {
					return bad("%s: declared as %s but named %s", what, dn, n)
				}
			}
			seen[n] = true
		}
	}
	return r
}

func checkFlags(e *core.Env, c *DecoCase) core.Result {
	var r core.Result
	it, d, _, dp, bad, ok := dumped(e, c, c.template(e)+dumpTail, &r)
	if !ok {
		return r
	}
	r.Nontrivial = c.M.Features["ctx-shape"]+c.M.Features["ctx-other-package"] > 0
	h := hostedByName(c.Template)
	var declared map[string]*types.Signature
	if h != nil {
		o := dp.Types.Scope().Lookup(c.decorator())
		if o == nil {
			return bad("decorator %s is not declared", c.decorator())
		}
		declared = tc.DeclaredMethods(o.Type().(*types.Named))
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		dm := d.Methods[m.Name()]
		accepts, returns, viaAlias := false, false, false
		if sig.Params().Len() > 0 && !(sig.Variadic() && sig.Params().Len() == 1) {
			var a bool
			accepts, a = isContextType(sig.Params().At(0).Type())
			viaAlias = viaAlias || a
		}
		if n := sig.Results().Len(); n > 0 {
			var a bool
			returns, a = isErrorType(sig.Results().At(n - 1).Type())
			viaAlias = viaAlias || a
		}
		if viaAlias {
			continue
		}
		if dm.AcceptsContext != accepts {
			return bad("method %s%s is reported as accepting a context: %v", m.Name(), sig, dm.AcceptsContext)
		}
		if dm.ReturnsError != returns {
			return bad("method %s%s is reported as returning an error: %v", m.Name(), sig, dm.ReturnsError)
		}
		if h != nil {
			_, has := declared[m.Name()]
			want := h.Which == "all" || h.Which == "ctx" && accepts || h.Which == "err" && returns
			if has != want {
				return bad("template %s instruments method %s%s: %v, want %v", h.Name, m.Name(), sig, has, want)
			}
		}
	}
	return r
}

// renderTemplate makes use of everything methods offer.
const renderTemplate = `{{.Import "strconv" "encoding/hex" IMPORTARGS}}

IMPORTUSES
const XBlock = {{printf "%q" (.Import IMPORTARGS)}}
const XImports = {{toJson .Imports | printf "%q"}}

var _ = strconv.Itoa
var _ hex.InvalidByteError

type XIface = {{.Interface.Type}}

type XDeco struct { _base {{.Interface.Type}} }
type XPass struct { _base {{.Interface.Type}} }
type XCall struct { _base {{.Interface.Type}} }
{{range $m := .Interface.Methods}}
type XParams{{$m.Name}} {{$m.ParamsStruct}}
type XPtrs{{$m.Name}} {{$m.ParamPtrsStruct}}
type XResults{{$m.Name}} {{$m.ResultsStruct}}
type XSignature{{$m.Name}} func {{$m.Signature}}
type XDeclaration{{$m.Name}} interface { {{$m.Declaration}} }
type XParamList{{$m.Name}} func({{$m.Params}})

// XDeco {{$m.Name}} {{$m.HasParams}} {{$m.HasResults}}
func (_d XDeco) {{$m.Declaration}} {
	_pm := {{$m.ParamsMap}}
	_pn := []interface{}{ {{$m.ParamsNames}} }
	{{if $m.HasResults}}{{$m.ResultsNames}} = {{end}}_d._base.{{$m.Call}}
	_rm := {{$m.ResultsMap}}
	_rn := []interface{}{ {{$m.ResultsNames}} }
	_res := XResults{{$m.Name}}{ {{$m.ResultsNames}} }
	_, _, _, _, _ = _pm, _pn, _rm, _rn, _res
	{{$m.ReturnStruct "_res"}}
}

func (_d XPass) {{$m.Declaration}} {
	{{$m.Pass "_d._base."}}
}

func (_d XCall) {{$m.Declaration}} {
	{{if $m.HasResults}}return {{end}}_d._base.{{$m.Name}}({{$m.Params.Pass}})
}
{{end}}
`

func checkRender(e *core.Env, c *DecoCase) core.Result {
	var r core.Result
	var args, uses []string
	for _, a := range c.ImportArgs {
		args = append(args, strconv.Quote(a.Arg))
		if a.Use != "" {
			uses = append(uses, "var _ = "+a.Use+"\n")
		}
	}
	text := strings.NewReplacer("IMPORTARGS", strings.Join(args, " "), "IMPORTUSES", strings.Join(uses, "")).Replace(renderTemplate)
	it, d, l, dp, bad, ok := dumped(e, c, text+dumpTail, &r)
	if !ok {
		return r
	}
	t := c.M.Targets[0]
	r.Nontrivial = c.M.NonTrivial()
	if d.Name != t.Iface {
		return bad("the interface is given as %q", d.Name)
	}
	if t.Same && d.Type != t.Iface {
		return bad("the type is given as %q", d.Type)
	}
	sp := l.Load(t.PkgPath)
	scope := dp.Types.Scope()
	if !types.Identical(scope.Lookup("XIface").Type(), sp.Types.Scope().Lookup(t.Iface).Type()) {
		return bad("the type %s is not the source interface", d.Type)
	}
	if s := blockDiff(scope, c.ImportArgs); s != "" {
		return bad("Import(%s): %s", strings.Join(args, ", "), s)
	}
	docs := sourceDocs(e, c, l)
	lookup := func(n string) types.Type {
		if o := scope.Lookup(n); o != nil {
			return o.Type().Underlying()
		}
		return types.Typ[types.Invalid]
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		dm := d.Methods[m.Name()]
		n := m.Name()
		if x, ok := docs[m.Pos()]; ok {
			if !eqList(x.doc, dm.Doc) {
				return bad("doc comment of %s is given as %q, want %q", n, dm.Doc, x.doc)
			}
			if !eqList(x.comment, dm.Comment) {
				return bad("trailing comment of %s is given as %q, want %q", n, dm.Comment, x.comment)
			}
		}
		for j, p := range dm.Params {
			want := sig.Variadic() && j == len(dm.Params)-1
			if p.Variadic != want || want != strings.HasPrefix(p.Type, "...") {
				return bad("parameter %d of %s: variadic %v, type %s", j, n, p.Variadic, p.Type)
			}
		}
		for j, p := range dm.Results {
			if p.Variadic {
				return bad("result %d of %s is variadic", j, n)
			}
		}
		if g := lookup("XSignature" + n); !types.Identical(g, sig) {
			return bad("signature of %s denotes %s, want %s", n, g, sig)
		}
		if g, ok := lookup("XDeclaration" + n).(*types.Interface); !ok || g.NumMethods() != 1 || g.Method(0).Name() != n || !types.Identical(g.Method(0).Type(), sig) {
			return bad("declaration of %s denotes %s", n, g)
		}
		if g := lookup("XParamList" + n); !types.Identical(g, types.NewSignatureType(nil, nil, nil, sig.Params(), nil, sig.Variadic())) {
			return bad("parameter list of %s denotes %s", n, g)
		}
		if s := structDiff(lookup("XParams"+n), dm.Params, sig.Params(), false); s != "" {
			return bad("params struct of %s: %s", n, s)
		}
		if s := structDiff(lookup("XPtrs"+n), dm.Params, sig.Params(), true); s != "" {
			return bad("param pointers struct of %s: %s", n, s)
		}
		if s := structDiff(lookup("XResults"+n), dm.Results, sig.Results(), false); s != "" {
			return bad("results struct of %s: %s", n, s)
		}
	}
	for _, f := range dp.Files {
		for _, dd := range f.Decls {
			fd, ok := dd.(*ast.FuncDecl)
			if !ok || fd.Recv == nil {
				continue
			}
			recv := recvName(fd)
			dm, ok := d.Methods[fd.Name.Name]
			if !ok {
				continue
			}
			if recv == "XDeco" {
				want := fmt.Sprintf("XDeco %s %v %v", dm.Name, len(dm.Params) > 0, len(dm.Results) > 0)
				if got := strings.TrimSpace(fd.Doc.Text()); got != want {
					return bad("HasParams/HasResults: %q, want %q", got, want)
				}
				if s := bodyDiff(fd, dm); s != "" {
					return bad("body of %s: %s", dm.Name, s)
				}
			}
			if recv == "XDeco" || recv == "XPass" || recv == "XCall" {
				if s := callDiff(fd, dm); s != "" {
					return bad("%s.%s: %s", recv, dm.Name, s)
				}
			}
		}
	}
	return r
}

// ImportArg is an argument of the Import helper.
type ImportArg struct {
	Arg        string
	Name, Path string // what it denotes; no path if it denotes nothing
	Use        string
}

var importArgs = []ImportArg{
	{Arg: "bytes", Path: "bytes", Use: "bytes.ToUpper"}, {Arg: `"bufio"`, Path: "bufio", Use: "bufio.NewReader"}, {Arg: "  container/list ", Path: "container/list", Use: "list.New"},
	{Arg: `tstrings "strings"`, Name: "tstrings", Path: "strings", Use: "tstrings.ToUpper"}, {Arg: ` tnet   "net/url"`, Name: "tnet", Path: "net/url", Use: "tnet.Parse"}, {Arg: `_ "embed"`, Name: "_", Path: "embed"},
	{Arg: ""}, {Arg: `"example.com/zz/zzunused"`, Path: "example.com/zz/zzunused"}, {Arg: "encoding/hex", Path: "encoding/hex"}, {Arg: `"html`, Path: "html", Use: "html.EscapeString"}, {Arg: `path"`, Path: "path", Use: "path.Base"},
	{Arg: `ttmpl "text/template"`, Name: "ttmpl", Path: "text/template", Use: "ttmpl.New"}, {Arg: `trand "math/rand/v2"`, Name: "trand", Path: "math/rand/v2", Use: "trand.Int"},
}

// blockDiff compares what Import returned with what it was given.
func blockDiff(scope *types.Scope, args []ImportArg) string {
	text := func(n string) string {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			return "missing " + n
		}
		return constant.StringVal(c.Val())
	}
	specs := func(src string) (map[string]int, string) {
		f, err := parser.ParseFile(token.NewFileSet(), "", "package x\n"+src, parser.ImportsOnly)
		if err != nil {
			return nil, fmt.Sprintf("%v in %s", err, src)
		}
		m := map[string]int{}
		for _, i := range f.Imports {
			n := ""
			if i.Name != nil {
				n = i.Name.Name
			}
			p, err := strconv.Unquote(i.Path.Value)
			must(err)
			m[n+" "+p]++
		}
		return m, ""
	}
	var given []string
	must(json.Unmarshal([]byte(text("XImports")), &given))
	want, s := specs("import (\n" + strings.Join(given, "\n") + "\n)\n")
	if s != "" {
		return s
	}
	for _, a := range args {
		if a.Path != "" {
			want[a.Name+" "+a.Path]++
		}
	}
	got, s := specs(text("XBlock"))
	if s != "" {
		return s
	}
	for k, n := range got {
		if n > 1 {
			return fmt.Sprintf("%q is repeated in %s", k, text("XBlock"))
		}
		if want[k] == 0 {
			return fmt.Sprintf("%q was not asked for in %s", k, text("XBlock"))
		}
	}
	for k := range want {
		if got[k] == 0 {
			return fmt.Sprintf("%q is missing from %s", k, text("XBlock"))
		}
	}
	return ""
}

func recvName(fd *ast.FuncDecl) string {
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func eqList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func structDiff(ty types.Type, ps []dumpParam, tup *types.Tuple, ptr bool) string {
	st, ok := ty.(*types.Struct)
	if !ok {
		return "denotes " + ty.String()
	}
	if st.NumFields() != len(ps) {
		return fmt.Sprintf("%d fields, want %d", st.NumFields(), len(ps))
	}
	for i := range ps {
		f := st.Field(i)
		want := tup.At(i).Type()
		if ptr {
			want = types.NewPointer(want)
		}
		if f.Name() != ps[i].Name || !types.Identical(f.Type(), want) {
			return fmt.Sprintf("field %d is %s %s, want %s %s", i, f.Name(), f.Type(), ps[i].Name, want)
		}
	}
	return ""
}

type docs struct{ doc, comment []string }

// sourceDocs lists the comments of all interface methods in the module by position.
func sourceDocs(e *core.Env, c *DecoCase, l *tc.Loader) map[token.Pos]docs {
	out := map[token.Pos]docs{}
	texts := func(g *ast.CommentGroup) (ss []string) {
		if g != nil {
			for _, x := range g.List {
				ss = append(ss, x.Text)
			}
		}
		return
	}
	dirs := map[string]bool{}
	for f := range c.M.Files {
		if strings.HasSuffix(f, ".go") {
			dirs[filepath.Dir(f)] = true
		}
	}
	for d := range dirs {
		p := l.Load(c.M.Path + "/" + d)
		for _, f := range p.Files {
			if filepath.Base(tc.Fset().Position(f.Pos()).Filename) == c.M.Targets[0].DstFile {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				it, ok := n.(*ast.InterfaceType)
				if !ok {
					return true
				}
				for _, fl := range it.Methods.List {
					if len(fl.Names) == 1 {
						out[fl.Names[0].Pos()] = docs{texts(fl.Doc), texts(fl.Comment)}
					}
				}
				return true
			})
		}
	}
	return out
}

// bodyDiff checks the maps and lists in the body of an XDeco method.
func bodyDiff(fd *ast.FuncDecl, dm dumpMethod) string {
	found := 0
	var bad string
	check := func(name string, x ast.Expr) {
		cl, ok := x.(*ast.CompositeLit)
		if !ok {
			return
		}
		ps := dm.Params
		if strings.HasPrefix(name, "_r") {
			ps = dm.Results
		}
		var want, got []string
		for _, p := range ps {
			want = append(want, p.Name)
		}
		for _, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k, v := types.ExprString(kv.Key), types.ExprString(kv.Value)
				if k != `"`+v+`"` {
					bad = fmt.Sprintf("%s: key %s holds %s", name, k, v)
				}
				got = append(got, v)
			} else {
				got = append(got, types.ExprString(el))
			}
		}
		found++
		if !eqList(want, got) {
			bad = fmt.Sprintf("%s lists %v, want %v", name, got, want)
		}
	}
	for _, s := range fd.Body.List {
		as, ok := s.(*ast.AssignStmt)
		if ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 {
			check(types.ExprString(as.Lhs[0]), as.Rhs[0])
		}
		if rs, ok := s.(*ast.ReturnStmt); ok {
			var got, want []string
			for _, x := range rs.Results {
				got = append(got, types.ExprString(x))
			}
			for _, p := range dm.Results {
				want = append(want, "_res."+p.Name)
			}
			if !eqList(got, want) {
				return fmt.Sprintf("the struct return is %v, want %v", got, want)
			}
			found++
		}
	}
	if found != 6 && bad == "" {
		bad = fmt.Sprintf("found %d of 6 renderings", found)
	}
	return bad
}

// callDiff checks the call of the wrapped method.
func callDiff(fd *ast.FuncDecl, dm dumpMethod) string {
	var calls []*ast.CallExpr
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if ce, ok := n.(*ast.CallExpr); ok {
			calls = append(calls, ce)
		}
		return true
	})
	if len(calls) != 1 {
		return fmt.Sprintf("%d calls", len(calls))
	}
	ce := calls[0]
	se, ok := ce.Fun.(*ast.SelectorExpr)
	if !ok {
		return "calls " + types.ExprString(ce.Fun)
	}
	if se.Sel.Name != dm.Name {
		return "calls " + se.Sel.Name
	}
	var got, want []string
	for _, a := range ce.Args {
		got = append(got, types.ExprString(a))
	}
	variadic := false
	for _, p := range dm.Params {
		want = append(want, p.Name)
		variadic = variadic || p.Variadic
	}
	if !eqList(got, want) {
		return fmt.Sprintf("passes %v, want %v", got, want)
	}
	if ce.Ellipsis.IsValid() != variadic {
		return fmt.Sprintf("ellipsis: %v, variadic: %v", ce.Ellipsis.IsValid(), variadic)
	}
	return ""
}

func init() {
	register(&core.Prop{
		ID: "C04",
		Rule: "rapid draws modules whose methods mix unnamed, blank, grouped, repeated-looking and reserved (err, ctx, generated-looking s1, sa1 ...) names; the names the template is given (dumped as JSON by the template) " +
			"are checked against the declared ones. Non-trivial: a blank name or a declared err or ctx occurs.",
		Quick: 1100, Deep: 16000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &DecoCase{Template: "full"}
			if c.M = drawLib(t, c); c.M == nil {
				c.M = gen.Draw(t, gen.Cfg{Embeds: rapid.Bool().Draw(t, "embeds"), UnexportedOK: true, StdRich: true, CtxShapes: rapid.Bool().Draw(t, "ctxShapes"), ManyParams: true, MaxDepth: 2,
					ExtraNames: []string{"error", "i3", "s3", "p2", "f2", "err1", "ctx1", "err2", "c2", "_1", "__"}})
			}
			drawInvocation(t, c)
			return c
		},
		New:         func() any { return &DecoCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkNames(e, x.(*DecoCase)) },
		Assumptions: []string{"a parameter declared err may be renamed in any method that has results"},
	})
	register(&core.Prop{
		ID: "C05",
		Rule: "rapid draws modules whose signatures hold contexts and errors in unusual places (pointers, slices, other packages' Context, aliased import of context, errors not last) and a template; the two facts the template is given " +
			"are compared with go/types, and so is the set of methods a hosted template implements. Non-trivial: such an unusual place occurs.",
		Quick: 1100, Deep: 16000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &DecoCase{Template: drawTemplate(t, 50)}
			cfg := gen.Cfg{Embeds: true, Generics: rapid.Bool().Draw(t, "generics"), MultiFile: true, StdRich: true, CtxShapes: true, MaxDepth: 1, NameFilter: safeParam}
			if c.Template != "full" {
				cfg.Qualifiers = map[string]string{"context": "context"}
			}
			if c.M = drawLib(t, c); c.M == nil {
				c.M = gen.Draw(t, cfg)
			}
			drawInvocation(t, c)
			return c
		},
		New:         func() any { return &DecoCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkFlags(e, x.(*DecoCase)) },
		Assumptions: []string{"aliases of context.Context and error are left open", "dot-imports of context are a known finding"},
	})
	register(&core.Prop{
		ID: "C06",
		Rule: "rapid draws modules with comments, variadics and nested types; a template renders every helper of a method into code (structs, maps, lists, calls, returns, declarations) which is type-checked and walked, and dumps its inputs; " +
			"both are compared with the go/types view and the comments of the source. Non-trivial: the module has at least three features beyond flat basic signatures.",
		Quick: 1100, Deep: 16000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &DecoCase{Template: "full"}
			if c.M = drawLib(t, c); c.M == nil {
				c.M = gen.Draw(t, gen.Cfg{Generics: true, Embeds: true, Aliases: true, UnexportedOK: true, MultiFile: true, Comments: true, StdRich: true, MaxDepth: 2, ManyParams: true})
			}
			drawInvocation(t, c)
			for n := rapid.IntRange(0, 4).Draw(t, "importArgs"); len(c.ImportArgs) < n; {
				a := rapid.SampledFrom(importArgs).Draw(t, "importArg")
				for _, b := range c.ImportArgs {
					if b.Arg == a.Arg {
						a.Use = ""
					}
				}
				c.ImportArgs = append(c.ImportArgs, a)
			}
			return c
		},
		New:         func() any { return &DecoCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkRender(e, x.(*DecoCase)) },
		Assumptions: []string{"comments of methods declared outside the module are not compared"},
	})
}
