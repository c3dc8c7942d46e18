package props

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"github.com/hexdigest/gowrap/generator"
	"github.com/hexdigest/gowrap/printer"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// ModelCase is a method a program makes a model of, without a generator.
type ModelCase struct {
	Kind   string // method, param, model
	Source string // kind method: a method of an interface with its comments

	Name string          // kind param: the name asked for
	Type string          // and its type
	Used map[string]bool // and the names taken

	Method generator.Method // kind model: a method filled in by the program
	Field  string
}

// textPrinter shows that the printer of the caller is the one in use.
type textPrinter struct {
	types []string
	at    int // the print that fails, counted from 1
}

func (p *textPrinter) PrintType(n ast.Node) (string, error) {
	p.types = append(p.types, fmt.Sprintf("%T", n))
	if p.at == len(p.types) {
		return "", fmt.Errorf("print %d fails", p.at)
	}
	return fmt.Sprintf("T%d", len(p.types)), nil
}

func normalType(x ast.Expr) string {
	n := &normal{}
	n.typ(x)
	return n.sb.String()
}

func normalText(s string) (string, error) {
	x, _, err := parseType(s)
	if err != nil {
		return "", err
	}
	return normalType(x), nil
}

func commentTexts(g *ast.CommentGroup) (out []string) {
	if g != nil {
		for _, c := range g.List {
			out = append(out, c.Text)
		}
	}
	return out
}

// flat lists the names and types of fields, one for each parameter.
func flat(fl *ast.FieldList) (names, types []string) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		for i := 0; i < max(1, len(f.Names)); i++ {
			n := ""
			if len(f.Names) > 0 {
				n = f.Names[i].Name
			}
			names, types = append(names, n), append(types, normalType(f.Type))
		}
	}
	return
}

// notations checks everything a method says about itself against its fields.
func notations(m generator.Method, field string) string {
	var pn, pt, rn, rt, pass []string
	for _, p := range m.Params {
		t, err := normalText(p.Type)
		if err != nil {
			return fmt.Sprintf("the type %q of %s is not a type: %v", p.Type, p.Name, err)
		}
		pn, pt = append(pn, p.Name), append(pt, t)
		want := p.Name
		if p.Variadic {
			want += "..."
		}
		pass = append(pass, want)
		if got := p.Pass(); got != want {
			return fmt.Sprintf("%s.Pass() is %q", p.Name, got)
		}
	}
	for _, p := range m.Results {
		t, err := normalText(p.Type)
		if err != nil {
			return fmt.Sprintf("the type %q of %s is not a type: %v", p.Type, p.Name, err)
		}
		rn, rt = append(rn, p.Name), append(rt, t)
	}
	list := func(ss []string) string { return strings.Join(ss, ", ") }
	same := func(what, got, want string) string {
		if strings.Join(strings.Fields(got), " ") != strings.Join(strings.Fields(want), " ") {
			return fmt.Sprintf("%s is %q, want %q", what, got, want)
		}
		return ""
	}
	ret := m.Name + "(" + list(pass) + ")"
	retPrefix := "return p." + ret
	retStruct := "return"
	if len(rn) == 0 {
		retPrefix = "p." + ret + "\nreturn"
	} else {
		var fs []string
		for _, n := range rn {
			fs = append(fs, field+"."+n)
		}
		retStruct += " " + list(fs)
	}
	for _, s := range []string{
		same("Params.Pass()", m.Params.Pass(), list(pass)),
		same("ParamsNames()", m.ParamsNames(), list(pn)),
		same("ResultsNames()", m.ResultsNames(), list(rn)),
		same("Call()", m.Call(), ret),
		same(`Pass("p.")`, m.Pass("p."), retPrefix),
		same("ReturnStruct("+strconv.Quote(field)+")", m.ReturnStruct(field), retStruct),
	} {
		if s != "" {
			return s
		}
	}
	if m.HasParams() != (len(pn) > 0) || m.HasResults() != (len(rn) > 0) {
		return fmt.Sprintf("HasParams() is %v and HasResults() %v with %d and %d", m.HasParams(), m.HasResults(), len(pn), len(rn))
	}
	zip := func(names, types []string) (out string) {
		for i := range names {
			out += names[i] + " " + types[i] + "; "
		}
		return out
	}
	// what declares something declares these names with these types
	fn := func(what, s string) string {
		f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\n\ntype X interface{\n"+s+"\n}\n", parser.SkipObjectResolution)
		if err != nil {
			return fmt.Sprintf("%s is %q: %v", what, s, err)
		}
		ms := f.Decls[0].(*ast.GenDecl).Specs[0].(*ast.TypeSpec).Type.(*ast.InterfaceType).Methods.List
		if len(ms) != 1 || len(ms[0].Names) != 1 || ms[0].Names[0].Name != m.Name {
			return fmt.Sprintf("%s is %q, which does not declare %s", what, s, m.Name)
		}
		ft := ms[0].Type.(*ast.FuncType)
		an, at := flat(ft.Params)
		bn, bt := flat(ft.Results)
		if got, want := zip(an, at)+"-> "+zip(bn, bt), zip(pn, pt)+"-> "+zip(rn, rt); got != want {
			return fmt.Sprintf("%s is %q, it declares\n%s, want\n%s", what, s, got, want)
		}
		return ""
	}
	st := func(what, s string, names, types []string, elem func(string) string) string {
		x, err := parser.ParseExpr(s)
		if err != nil {
			return fmt.Sprintf("%s is %q: %v", what, s, err)
		}
		t, ok := x.(*ast.StructType)
		if !ok {
			return fmt.Sprintf("%s is %q, not a struct", what, s)
		}
		var want []string
		for _, y := range types {
			want = append(want, elem(y))
		}
		an, at := flat(t.Fields)
		if got, want := zip(an, at), zip(names, want); got != want {
			return fmt.Sprintf("%s is %q, it declares\n%s, want\n%s", what, s, got, want)
		}
		return ""
	}
	value := func(t string) string {
		if s, ok := strings.CutPrefix(t, "..."); ok {
			return "[]" + s
		}
		return t
	}
	mp := func(what, s string, names []string) string {
		x, err := parser.ParseExpr(s)
		if err != nil {
			return fmt.Sprintf("%s is %q: %v", what, s, err)
		}
		l, ok := x.(*ast.CompositeLit)
		if !ok || normalType(l.Type) != "map[string]interface{}" && normalType(l.Type) != "map[string]any" || len(l.Elts) != len(names) {
			return fmt.Sprintf("%s is %q, not a map with %d values", what, s, len(names))
		}
		for i, y := range l.Elts {
			kv, ok := y.(*ast.KeyValueExpr)
			if ok {
				var k *ast.BasicLit
				if k, ok = kv.Key.(*ast.BasicLit); ok {
					n, err := strconv.Unquote(k.Value)
					v, isName := kv.Value.(*ast.Ident)
					ok = err == nil && n == names[i] && isName && v.Name == names[i]
				}
			}
			if !ok {
				return fmt.Sprintf("%s is %q, its element %d is not %s", what, s, i, names[i])
			}
		}
		return ""
	}
	for _, s := range []string{
		fn("Declaration()", m.Declaration()),
		fn("Signature() after the name", m.Name+m.Signature()),
		fn("Params.String() and Results.String() in parentheses", m.Name+"("+m.Params.String()+") ("+m.Results.String()+")"),
		st("ParamsStruct()", m.ParamsStruct(), pn, pt, value),
		st("ParamPtrsStruct()", m.ParamPtrsStruct(), pn, pt, func(s string) string { return "*" + value(s) }),
		st("ResultsStruct()", m.ResultsStruct(), rn, rt, func(s string) string { return s }),
		mp("ParamsMap()", m.ParamsMap(), pn),
		mp("ResultsMap()", m.ResultsMap(), rn),
	} {
		if s != "" {
			return s
		}
	}
	return ""
}

func badName(n string) bool { return n == "_" || !token.IsIdentifier(n) }

func checkModelMethod(c *ModelCase) core.Result {
	r := core.Result{Key: c.Source, Sample: c.Source, Features: []string{"kind:method"}}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", "package p\n\ntype X interface{\n"+c.Source+"\n}\n", parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		r.Discard = "not a method"
		return r
	}
	ms := f.Decls[0].(*ast.GenDecl).Specs[0].(*ast.TypeSpec).Type.(*ast.InterfaceType).Methods.List
	if len(ms) != 1 {
		r.Discard = "not one method"
		return r
	}
	bad := func(f string, a ...any) core.Result {
		r.Violation = "the model of\n" + c.Source + "\n" + fmt.Sprintf(f, a...)
		return r
	}
	fi := ms[0]
	ft, ok := fi.Type.(*ast.FuncType)
	if !ok {
		r.Features = append(r.Features, "not a method")
		if _, err := generator.NewMethod("M", fi, printer.New(fs, nil, ""), nil, nil); err == nil {
			return bad("is made though it is not a method")
		}
		return r
	}
	name := fi.Names[0].Name
	m, err := generator.NewMethod(name, fi, printer.New(fs, nil, ""), nil, nil)
	if err != nil {
		return bad("is not made: %v", err)
	}
	if m.Name != name {
		return bad("has the name %q", m.Name)
	}
	for _, d := range []struct {
		what      string
		got, want []string
	}{{"doc comment", m.Doc, commentTexts(fi.Doc)}, {"line comment", m.Comment, commentTexts(fi.Comment)}} {
		if fmt.Sprint(len(d.got), d.got) != fmt.Sprint(len(d.want), d.want) {
			return bad("has the %s %q, want %q", d.what, d.got, d.want)
		}
	}
	pn, pt := flat(ft.Params)
	rn, rt := flat(ft.Results)
	r.Nontrivial = len(pn)+len(rn) > 2
	if len(m.Params) != len(pn) || len(m.Results) != len(rn) {
		return bad("has %d parameters and %d results, want %d and %d", len(m.Params), len(m.Results), len(pn), len(rn))
	}
	var docs []*ast.Field
	for _, l := range []*ast.FieldList{ft.Params, ft.Results} {
		if l != nil {
			for _, f := range l.List {
				for i := 0; i < max(1, len(f.Names)); i++ {
					docs = append(docs, f)
				}
			}
		}
	}
	seen := map[string]bool{}
	all := append(append(generator.ParamsSlice{}, m.Params...), m.Results...)
	names, types := append(append([]string{}, pn...), rn...), append(append([]string{}, pt...), rt...)
	for i, p := range all {
		if badName(p.Name) {
			return bad("names parameter or result %d %q", i, p.Name)
		}
		if seen[p.Name] {
			return bad("gives the name %q twice", p.Name)
		}
		seen[p.Name] = true
		if n := names[i]; n != "" && n != "_" && n != "ctx" && n != "err" && p.Name != n && !(i == len(all)-1 && m.ReturnsError) && !(i == 0 && m.AcceptsContext) {
			return bad("calls %q %q", n, p.Name)
		}
		t, err := normalText(p.Type)
		if err != nil || t != types[i] {
			return bad("gives %s the type %q (%s), want %s (%v)", p.Name, p.Type, t, types[i], err)
		}
		if p.Variadic != strings.HasPrefix(types[i], "...") {
			return bad("says of %s %s that it is variadic: %v", p.Name, p.Type, p.Variadic)
		}
		if got, want := fmt.Sprintf("%q %q", p.Doc, p.Comment), fmt.Sprintf("%q %q", commentTexts(docs[i].Doc), commentTexts(docs[i].Comment)); got != want {
			return bad("gives %s the comments %s, want %s", p.Name, got, want)
		}
	}
	returns := len(rt) > 0 && rt[len(rt)-1] == "error"
	accepts := len(pt) > 0 && pt[0] == "context.Context"
	if m.ReturnsError != returns || m.AcceptsContext != accepts && !(len(pt) > 0 && strings.HasSuffix(pt[0], ".Context")) {
		return bad("returns an error: %v, accepts a context: %v", m.ReturnsError, m.AcceptsContext)
	}
	if returns && m.Results[len(rt)-1].Name != "err" {
		return bad("calls the error %q", m.Results[len(rt)-1].Name)
	}
	if accepts && m.Params[0].Name != "ctx" {
		return bad("calls the context %q", m.Params[0].Name)
	}
	if s := notations(*m, "res"); s != "" {
		return bad("%s", s)
	}
	// the printer of the caller prints every type, and its errors are returned
	tp := &textPrinter{}
	m2, err := generator.NewMethod(name, fi, tp, nil, nil)
	if err != nil {
		return bad("is not made with another printer: %v", err)
	}
	used := map[string]bool{}
	for _, p := range append(append(generator.ParamsSlice{}, m2.Params...), m2.Results...) {
		if !strings.HasPrefix(p.Type, "T") || used[p.Type] {
			return bad("gives %s the type %q, which the printer of the caller did not print", p.Name, p.Type)
		}
		used[p.Type] = true
	}
	for at := 1; at <= len(all); at++ {
		if _, err := generator.NewMethod(name, fi, &textPrinter{at: at}, nil, nil); err == nil || !strings.Contains(err.Error(), fmt.Sprintf("print %d fails", at)) {
			return bad("is made although print %d of %d fails (%v)", at, len(all), err)
		}
	}
	if len(all) > 0 {
		r.Features = append(r.Features, "failing printer")
	}
	return r
}

func checkModelParam(c *ModelCase) core.Result {
	r := core.Result{Nontrivial: c.Name == "" || c.Name == "_" || c.Used[c.Name], Key: fmt.Sprint(c.Name, c.Type, c.Used), Sample: fmt.Sprintf("%s %s, taken %v", c.Name, c.Type, c.Used), Features: []string{"kind:param"}}
	x, fs, err := parseType(c.Type)
	if err != nil {
		r.Discard = "not a type"
		return r
	}
	used := map[string]bool{}
	for k, v := range c.Used {
		used[k] = v
	}
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("NewParam(%q, %s) with %v taken: %s", c.Name, c.Type, sortedKeys(c.Used), fmt.Sprintf(f, a...))
		return r
	}
	p, err := generator.NewParam(c.Name, &ast.Field{Type: x}, used, printer.New(fs, nil, ""), nil, nil)
	if err != nil {
		return bad("%v", err)
	}
	switch {
	case badName(p.Name):
		return bad("the name is %q", p.Name)
	case c.Used[p.Name]:
		return bad("the name is %q, which is taken", p.Name)
	case c.Name != "" && c.Name != "_" && !c.Used[c.Name] && p.Name != c.Name:
		return bad("the name is %q", p.Name)
	case !used[p.Name]:
		return bad("the name %q is not noted as taken", p.Name)
	}
	for k, v := range c.Used {
		if v && !used[k] {
			return bad("the name %q is no longer taken", k)
		}
	}
	if got, err := normalText(p.Type); err != nil || got != normalType(x) {
		return bad("the type is %q (%v)", p.Type, err)
	}
	if p.Variadic != strings.HasPrefix(normalType(x), "...") {
		return bad("variadic: %v", p.Variadic)
	}
	return r
}

func checkModel(c *ModelCase) core.Result {
	r := core.Result{Nontrivial: len(c.Method.Params)+len(c.Method.Results) > 2, Key: fmt.Sprint(c.Method), Sample: fmt.Sprintf("%+v", c.Method), Features: []string{"kind:model"}}
	if s := notations(c.Method, c.Field); s != "" {
		r.Violation = fmt.Sprintf("of the method %+v, %s", c.Method, s)
	}
	return r
}

func drawModel(t *rapid.T) *ModelCase {
	c := &ModelCase{Kind: rapid.SampledFrom([]string{"method", "method", "method", "param", "model"}).Draw(t, "kind")}
	d := &typeDrawer{t: t}
	typ := func(depth int) string {
		if d.n(5, "special") == 0 {
			return []string{"error", "context.Context", "other.Context", "(error)", "(context.Context)", "Context"}[d.n(6, "which")]
		}
		return d.draw(d.n(depth+1, "depth"))
	}
	pool := []string{"a", "b", "ctx", "err", "_", "s1", "s2", "i1", "ch1", "f1", "p1", "e1", "err1", "ctx1", "c1", "é", "M", "string", "ip1", "sa1", "m1", "st1", "result", "cp1"}
	switch c.Kind {
	case "method":
		taken := map[string]bool{}
		list := func(label string, variadic bool) string {
			named := d.n(3, label+"named") > 0
			var ss []string
			n := d.n(5, label)
			for i := 0; i < n; i++ {
				s, group := "", 1
				if named {
					var ns []string
					for j, m := 0, 1+d.n(2, "group"); j < m; j++ {
						x := pool[d.n(len(pool), "name")]
						if x != "_" && taken[x] {
							x = "_"
						}
						taken[x] = true
						ns = append(ns, x)
					}
					group = len(ns)
					s = strings.Join(ns, ", ") + " "
				}
				if variadic && i == n-1 && group == 1 && d.n(3, "variadic") == 2 {
					s += "..."
				}
				s += typ(2)
				if d.n(6, "doc") == 5 {
					s = []string{"/* of p */ ", "\n// of p\n// more\n", "\n/* a */\n/* b */\n"}[d.n(3, "comment")] + s
				}
				if d.n(6, "trailing") == 5 {
					s += []string{" /* after */", ", // after\n"}[d.n(2, "comment")]
				}
				ss = append(ss, s)
			}
			out := strings.Join(ss, ", ")
			return strings.ReplaceAll(out, ", // after\n, ", ", // after\n")
		}
		name := []string{"Do", "m", "Ünï", "String", "M2"}[d.n(5, "method")]
		src := name + "(" + list("params", true) + ")"
		if d.n(4, "results") > 0 {
			src += " (" + list("results", false) + ")"
		}
		if d.n(12, "none") == 11 {
			src = d.name()
		}
		switch d.n(4, "doc") {
		case 0:
			src = "// Doc of it.\n//\n//  code\n" + src
		case 1:
			src = "/* block\ncomment */\n" + src
		}
		if d.n(3, "comment") == 0 {
			src += " // trailing"
		}
		c.Source = src
	case "param":
		c.Name = rapid.SampledFrom(append([]string{"", ""}, pool...)).Draw(t, "name")
		c.Type = typ(2)
		if d.n(5, "variadic") == 4 {
			c.Type = "..." + c.Type
		}
		c.Used = map[string]bool{}
		for _, n := range rapid.SliceOfN(rapid.SampledFrom(append([]string{"i2", "i3", "t1", "t2", "s3"}, pool...)), 0, 10).Draw(t, "used") {
			c.Used[n] = true
		}
		for _, n := range rapid.SliceOfN(rapid.SampledFrom([]string{"free", "a", "i1"}), 0, 2).Draw(t, "free") {
			if _, ok := c.Used[n]; !ok {
				c.Used[n] = false
			}
		}
	default:
		names := append([]string{}, pool...)
		sort.Strings(names)
		names = rapid.Permutation(names).Draw(t, "names")
		next := func() (n string) {
			for {
				n, names = names[0], names[1:]
				if n != "_" {
					return n
				}
			}
		}
		fill := func(label string, variadic bool) (out generator.ParamsSlice) {
			n := d.n(5, label)
			for i := 0; i < n; i++ {
				p := generator.Param{Name: next(), Type: typ(2)}
				if variadic && i == n-1 && d.n(2, "variadic") == 1 {
					p.Type, p.Variadic = "..."+p.Type, true
				}
				out = append(out, p)
			}
			return out
		}
		c.Method = generator.Method{Name: []string{"Do", "m", "Ünï"}[d.n(3, "method")], Params: fill("params", true), Results: fill("results", false)}
		c.Field = []string{"res", "_d.r", "x[0]", "f()"}[d.n(4, "field")]
	}
	return c
}

func init() {
	register(&core.Prop{
		ID: "C32",
		Rule: "rapid draws methods (names which clash with each other and with generated ones, comments in every place, types from the whole grammar), single parameters with sets of taken names, and methods a program fills in itself. " +
			"NewMethod and NewParam run as library calls with the printer of the package, one which only counts, and ones which fail at every position; what the methods say about themselves is parsed again and compared with their fields. " +
			"Non-trivial: more than two parameters and results, or a name that cannot be used.",
		Quick: 120000, Deep: 4000000,
		Draw: func(t *rapid.T, e *core.Env) any { return drawModel(t) },
		New:  func() any { return &ModelCase{} },
		Check: func(e *core.Env, x any) core.Result {
			c := x.(*ModelCase)
			switch c.Kind {
			case "method":
				return checkModelMethod(c)
			case "param":
				return checkModelParam(c)
			}
			return checkModel(c)
		},
		Assumptions: []string{"without a generator a context is a type called Context of some package, so only context.Context itself is decided"},
	})
}
