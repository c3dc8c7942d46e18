package props

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"

	"github.com/hexdigest/gowrap/printer"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// PrintCase is a sequence of types one printer prints.
type PrintCase struct {
	Types   []string // source of type expressions
	Locals  []string // types the source package declares
	Prefix  string   // selector of the source package, empty in the package itself
	Replace map[string]string
}

var printNames = []string{"T", "Item", "local", "Ünï", "über", "Box", "pair", "K", "E", "A", "_t", "x1"}
var printPredeclared = []string{"int", "string", "error", "any", "byte", "float64", "bool", "uintptr", "comparable"}
var printSelectors = []string{"context.Context", "io.Reader", "time.Duration", "pkg.local", "a1.T", "_x.Y"}

type typeDrawer struct {
	t       *rapid.T
	replace map[string]string
}

func (d *typeDrawer) n(n int, label string) int { return rapid.IntRange(0, n-1).Draw(d.t, label) }

func (d *typeDrawer) name() string {
	switch d.n(4, "kind") {
	case 0, 1:
		return printPredeclared[d.n(len(printPredeclared), "predeclared")]
	case 2:
		return printSelectors[d.n(len(printSelectors), "selector")]
	}
	return printNames[d.n(len(printNames), "name")]
}

func (d *typeDrawer) list(max, depth int, f func(depth int) string, sep string) string {
	var ss []string
	for i, n := 0, d.n(max+1, "n"); i < n; i++ {
		ss = append(ss, f(depth))
	}
	return strings.Join(ss, sep)
}

func (d *typeDrawer) params(depth int) string {
	names := d.n(3, "named")
	var ss []string
	k := 0
	for i, n := 0, d.n(4, "params"); i < n; i++ {
		s := ""
		if names == 2 {
			for j, m := 0, 1+d.n(2, "group"); j < m; j++ {
				if j > 0 {
					s += ", "
				}
				s += []string{"a", "b", "_", "ctx", "T", "é"}[d.n(6, "param")] + strconv.Itoa(k)
				k++
			}
			s += " "
		}
		if i == n-1 && d.n(4, "variadic") == 3 && !(names == 2 && strings.Contains(s, ",")) {
			s += "..."
		}
		ss = append(ss, s+d.draw(depth))
	}
	return strings.Join(ss, ", ")
}

func (d *typeDrawer) results(depth int) string {
	switch d.n(3, "results") {
	case 0:
		return ""
	case 1:
		return " (" + d.draw(depth) + ")"
	}
	return " (" + strings.ReplaceAll(d.params(depth), "...", "") + ")"
}

func (d *typeDrawer) draw(depth int) string {
	if depth <= 0 {
		return d.name()
	}
	switch d.n(16, "type") {
	case 0, 1, 2:
		return d.name()
	case 3:
		return "*" + d.draw(depth-1)
	case 4:
		return "[]" + d.draw(depth-1)
	case 5:
		return "[" + d.length(2) + "]" + d.draw(depth-1)
	case 6:
		return "map[" + d.draw(depth-1) + "]" + d.draw(depth-1)
	case 7, 8:
		x := d.draw(depth - 1)
		if strings.HasPrefix(x, "<-") && d.n(2, "parens") == 0 {
			x = "(" + x + ")"
		}
		return []string{"chan ", "chan<- ", "<-chan "}[d.n(3, "dir")] + x
	case 9, 10:
		return "func(" + d.params(depth-1) + ")" + d.results(depth-1)
	case 11:
		return "(" + d.draw(depth-1) + ")"
	case 12, 13:
		g := []string{"Box", "pair", "dep.Box", "Item"}[d.n(4, "generic")]
		s := d.draw(depth - 1)
		for i, n := 0, d.n(3, "args"); i < n; i++ {
			s += ", " + d.draw(depth-1)
		}
		return g + "[" + s + "]"
	case 14:
		var fs []string
		for i, n := 0, d.n(4, "fields"); i < n; i++ {
			f := ""
			switch d.n(6, "field") {
			case 0:
				f = []string{"T", "*Item", "io.Reader", "*dep.X", "Box[int]", "*dep.Box[T]", "local", "error", "*T"}[d.n(9, "embedded")]
				if d.replace[strings.TrimPrefix(f, "*")] != "" {
					f = "io.Reader"
				}
			case 1:
				f = "f" + strconv.Itoa(i) + " " + d.draw(depth-1)
			case 2:
				f = "F" + strconv.Itoa(i) + ", G" + strconv.Itoa(i) + " " + d.draw(depth-1)
			default:
				f = "F" + strconv.Itoa(i) + " " + d.draw(depth-1)
			}
			if d.n(4, "tagged") == 3 {
				f += " " + []string{"`json:\"x\"`", `"a:\"b\""`, "``", `"100%d"`}[d.n(4, "tag")]
			}
			fs = append(fs, f)
		}
		return "struct{" + strings.Join(fs, "; ") + "}"
	}
	var es []string
	for i, n := 0, d.n(4, "elems"); i < n; i++ {
		switch d.n(4, "elem") {
		case 0:
			es = append(es, d.name())
		case 1:
			u := ""
			for j, m := 0, 1+d.n(4, "union"); j < m; j++ {
				if j > 0 {
					u += " | "
				}
				if d.n(2, "tilde") == 1 {
					u += "~"
				}
				x := d.draw(depth - 1)
				if strings.Contains(x, "func") || strings.Contains(x, "interface") || strings.Contains(x, "<-") {
					x = d.name()
				}
				u += x
			}
			es = append(es, u)
		default:
			es = append(es, []string{"M", "Get", "m", "Ünï", "String"}[d.n(5, "method")]+strconv.Itoa(i)+"("+d.params(depth-1)+")"+d.results(depth-1))
		}
	}
	return "interface{" + strings.Join(es, "; ") + "}"
}

func (d *typeDrawer) length(depth int) string {
	if depth > 0 && d.n(4, "len") == 3 {
		return d.length(depth-1) + []string{" + ", "*", " << ", " &^ ", " - "}[d.n(5, "op")] + d.length(depth-1)
	}
	if depth > 0 && d.n(6, "paren") == 5 {
		return "(" + d.length(depth-1) + ")"
	}
	return []string{"2", "0x1F", "'a'", "1_000", "N", "Size", "size", "math.MaxInt8", "dep.N", "0b11"}[d.n(10, "lit")]
}

// normal writes a type expression without anything that does not matter:
// parentheses, grouping of fields, empty result lists. With a model it applies
// what the printer is asked to do; bad is why it has to refuse.
type normal struct {
	c   *PrintCase
	bad string
	sb  strings.Builder
}

func (p *normal) listed(n string) bool {
	for _, l := range p.c.Locals {
		if l == n {
			return true
		}
	}
	return false
}

func (p *normal) refuse(why string) {
	if p.bad == "" {
		p.bad = why
	}
}

func (p *normal) fields(fl *ast.FieldList, names bool) {
	if fl != nil {
		for _, f := range fl.List {
			n := len(f.Names)
			for i := 0; i < max(n, 1); i++ {
				p.sb.WriteString("(field ")
				if n > 0 && names {
					p.sb.WriteString(f.Names[i].Name + " ")
				}
				p.typ(f.Type)
				if f.Tag != nil {
					s, _ := strconv.Unquote(f.Tag.Value)
					fmt.Fprintf(&p.sb, " %q", s)
				}
				p.sb.WriteString(")")
			}
		}
	}
}

func (p *normal) length(x ast.Expr) {
	switch x := x.(type) {
	case nil:
	case *ast.Ident:
		if p.c != nil && p.c.Prefix != "" {
			if !x.IsExported() {
				p.refuse("constant " + x.Name)
			}
			p.sb.WriteString(p.c.Prefix + ".")
		}
		p.sb.WriteString(x.Name)
	case *ast.ParenExpr:
		p.length(x.X)
	case *ast.BinaryExpr:
		p.sb.WriteString("(")
		p.length(x.X)
		p.sb.WriteString(" " + x.Op.String() + " ")
		p.length(x.Y)
		p.sb.WriteString(")")
	case *ast.BasicLit:
		p.sb.WriteString(x.Value)
	case *ast.SelectorExpr:
		p.length0(x.X)
		p.sb.WriteString("." + x.Sel.Name)
	default:
		fmt.Fprintf(&p.sb, "?%T", x)
	}
}

func (p *normal) length0(x ast.Expr) {
	if id, ok := x.(*ast.Ident); ok {
		p.sb.WriteString(id.Name)
	}
}

func (p *normal) typ(x ast.Expr) {
	w := p.sb.WriteString
	switch x := x.(type) {
	case *ast.Ident:
		if p.c != nil {
			if s, ok := p.c.Replace[x.Name]; ok {
				y, err := parser.ParseExpr(s)
				must(err)
				q := &normal{}
				q.typ(y)
				w(q.sb.String())
				return
			}
			if p.c.Prefix != "" && p.listed(x.Name) {
				if !x.IsExported() {
					p.refuse("type " + x.Name)
				}
				w(p.c.Prefix + ".")
			}
		}
		w(x.Name)
	case *ast.SelectorExpr:
		p.length0(x.X)
		w("." + x.Sel.Name)
	case *ast.ParenExpr:
		p.typ(x.X)
	case *ast.StarExpr:
		w("*")
		p.typ(x.X)
	case *ast.Ellipsis:
		w("...")
		p.typ(x.Elt)
	case *ast.ArrayType:
		w("[")
		p.length(x.Len)
		w("]")
		p.typ(x.Elt)
	case *ast.MapType:
		w("map[")
		p.typ(x.Key)
		w("]")
		p.typ(x.Value)
	case *ast.ChanType:
		fmt.Fprintf(&p.sb, "chan%d(", x.Dir)
		p.typ(x.Value)
		w(")")
	case *ast.FuncType:
		w("func(")
		p.fields(x.Params, true)
		w(")(")
		p.fields(x.Results, true)
		w(")")
	case *ast.StructType:
		w("struct{")
		if p.c != nil && p.c.Prefix != "" {
			for _, f := range x.Fields.List {
				for _, n := range f.Names {
					if !n.IsExported() {
						p.refuse("field " + n.Name)
					}
				}
				if len(f.Names) == 0 {
					y := f.Type
					if s, ok := y.(*ast.StarExpr); ok {
						y = s.X
					}
					if ix, ok := y.(*ast.IndexExpr); ok {
						y = ix.X
					}
					if id, ok := y.(*ast.Ident); ok && !id.IsExported() {
						p.refuse("field " + id.Name)
					}
				}
			}
		}
		p.fields(x.Fields, true)
		w("}")
	case *ast.InterfaceType:
		w("interface{")
		for _, f := range x.Methods.List {
			w("(elem ")
			for _, n := range f.Names {
				if p.c != nil && p.c.Prefix != "" && !n.IsExported() {
					p.refuse("method " + n.Name)
				}
				w(n.Name + " ")
			}
			p.typ(f.Type)
			w(")")
		}
		w("}")
	case *ast.IndexExpr:
		p.typ(x.X)
		w("[")
		p.typ(x.Index)
		w("]")
	case *ast.IndexListExpr:
		p.typ(x.X)
		w("[")
		for i, y := range x.Indices {
			if i > 0 {
				w(", ")
			}
			p.typ(y)
		}
		w("]")
	case *ast.UnaryExpr:
		w(x.Op.String())
		p.typ(x.X)
	case *ast.BinaryExpr:
		p.typ(x.X)
		w(" " + x.Op.String() + " ")
		p.typ(x.Y)
	default:
		fmt.Fprintf(&p.sb, "?%T", x)
	}
}

// parseType parses a type expression the way it stands in a file.
func parseType(s string) (ast.Expr, *token.FileSet, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", "package p\n\ntype X interface{ M(\n"+s+") }\n", parser.SkipObjectResolution)
	if err != nil {
		return nil, nil, err
	}
	m := f.Decls[0].(*ast.GenDecl).Specs[0].(*ast.TypeSpec).Type.(*ast.InterfaceType).Methods.List[0].Type.(*ast.FuncType)
	if n := len(m.Params.List); n != 1 || len(m.Params.List[0].Names) > 0 {
		return nil, nil, fmt.Errorf("not one type: %d parameters", n)
	}
	return m.Params.List[0].Type, fs, nil
}

func checkPrint(e *core.Env, c *PrintCase) core.Result {
	r := core.Result{Key: fmt.Sprint(*c), Sample: fmt.Sprintf("%+v", *c), Evals: len(c.Types)}
	var p *printer.Printer
	var specs []*ast.TypeSpec
	for _, l := range c.Locals {
		specs = append(specs, &ast.TypeSpec{Name: ast.NewIdent(l), Type: ast.NewIdent("int")})
	}
	for i, s := range c.Types {
		x, fs, err := parseType(s)
		if err != nil {
			r.Discard = "not a type"
			return r
		}
		if p == nil {
			p = printer.New(fs, specs, c.Prefix)
			if len(c.Replace) > 0 {
				p = p.Replace(c.Replace)
			}
		}
		want, plain := &normal{c: c}, &normal{}
		want.typ(x)
		plain.typ(x)
		if strings.Contains(want.sb.String(), "?") {
			r.Discard = "outside of the grammar of types"
			return r
		}
		bad := func(f string, a ...any) core.Result {
			r.Violation = fmt.Sprintf("type %d, %s\nprefix %q, types of the package %v, replacements %v: %s", i, s, c.Prefix, c.Locals, c.Replace, fmt.Sprintf(f, a...))
			return r
		}
		got, err := p.PrintType(x)
		switch {
		case want.bad != "" && err == nil:
			return bad("PrintType gives %q, though %s cannot be referred to from another package", got, want.bad)
		case want.bad != "":
			r.Features = append(r.Features, "refused")
			continue
		case err != nil:
			return bad("PrintType fails: %v", err)
		}
		y, _, err := parseType(got)
		if err != nil {
			return bad("PrintType gives %q, which is not a type: %v", got, err)
		}
		g := &normal{}
		g.typ(y)
		if g.sb.String() != want.sb.String() {
			return bad("PrintType gives %q, another type\ngot  %s\nwant %s", got, g.sb.String(), want.sb.String())
		}
		raw, err := p.Print(x)
		if err != nil {
			return bad("Print fails: %v", err)
		}
		if y, _, err = parseType(raw); err != nil {
			return bad("Print gives %q, which is not a type: %v", raw, err)
		}
		g = &normal{}
		g.typ(y)
		if g.sb.String() != plain.sb.String() {
			return bad("Print gives %q, another type\ngot  %s\nwant %s", raw, g.sb.String(), plain.sb.String())
		}
		if len(s) > 20 {
			r.Nontrivial = true
		}
		if g.sb.String() != want.sb.String() {
			r.Features = append(r.Features, "rewritten")
		}
		ast.Inspect(x, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ChanType, *ast.FuncType, *ast.StructType, *ast.InterfaceType, *ast.IndexExpr, *ast.IndexListExpr, *ast.Ellipsis, *ast.MapType:
				r.Features = append(r.Features, strings.TrimPrefix(fmt.Sprintf("%T", n), "*ast."))
			}
			return true
		})
	}
	return r
}

func init() {
	register(&core.Prop{
		ID: "C29",
		Rule: "rapid draws sequences of type expressions from the whole grammar of types (nested to depth 5), the names of the types the source package declares, a selector, and replacements of names; one printer prints them all. " +
			"What it prints is parsed again and compared with the original, after applying the qualification and replacements asked for to its syntax tree; types that cannot be referred to must be refused. Non-trivial: a type is longer than twenty characters. Each type is one evaluation.",
		Quick: 40000, Deep: 1500000,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &PrintCase{Prefix: rapid.SampledFrom([]string{"", "pkg", "_sourceX", "ü"}).Draw(t, "prefix")}
			for _, n := range printNames {
				if c.Prefix != "" && token.IsExported(n) && rapid.IntRange(0, 1).Draw(t, "listed") == 1 || rapid.IntRange(0, 7).Draw(t, "listed2") == 7 {
					c.Locals = append(c.Locals, n)
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "replaces") == 2 {
				c.Replace = map[string]string{}
				for _, n := range []string{"T", "K", "E", "A"} {
					if rapid.Bool().Draw(t, "replaced") {
						c.Replace[n] = rapid.SampledFrom([]string{"int", "_sourceX.T", "[]string", "<-chan int", "func(int) (T)", "map[string]dep.X", "*K", "struct{\nF T\n}", "chan<- E"}).Draw(t, "replacement")
					}
				}
			}
			d := &typeDrawer{t, c.Replace}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "types"); i < n; i++ {
				c.Types = append(c.Types, d.draw(rapid.IntRange(0, 5).Draw(t, "depth")))
			}
			return c
		},
		New:         func() any { return &PrintCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkPrint(e, x.(*PrintCase)) },
		Assumptions: []string{"array lengths are literals, constants, and expressions of them (calls are a known limit)", "type parameters are not embedded in structs"},
	})
}
