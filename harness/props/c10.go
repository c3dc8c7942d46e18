package props

import (
	"encoding/base64"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// VarsCase is a list of variables given in various spellings.
type VarsCase struct {
	Vars     []string
	Spelling []int
	Template string // "full" or a hosted template
	Same     bool
	Iface    string
}

var varRe = regexp.MustCompile(`(?m)^// VAR\|([^|]*)\|([^|]*)\|([^|]*)\|$`)

func checkVars(e *core.Env, c *VarsCase) core.Result {
	r := core.Result{Key: fmt.Sprint(*c), Features: []string{"template:" + c.Template, fmt.Sprintf("vars:%d", len(c.Vars))}}
	src := "package src\n\nimport \"context\"\n\ntype " + c.Iface + " interface {\n\tOne(ctx context.Context, a int) (string, error)\n\tTwo(b string)\n}\n"
	body := fullTemplate
	if c.Template != "full" {
		body = hosted(e, c.Template)
	}
	must(writeFiles(e.Scratch, map[string]string{"go.mod": "module example.com/m\n\ngo 1.24\n", "src/src.go": src, "t": body + varsDump}))
	out := "out/zz.go"
	if c.Same {
		out = "src/zz.go"
	}
	args := []string{"-p", "./src", "-i", c.Iface, "-t", "t", "-o", out}
	model := map[string]any{}
	for i, v := range c.Vars {
		switch c.Spelling[i] {
		case 0:
			args = append(args, "-v", v)
		case 1:
			args = append(args, "-v="+v)
		case 2:
			args = append(args, "--v", v)
		case 3:
			// before the other flags
			args = append([]string{"-v", v}, args...)
		}
	}
	// the order on the command line decides
	var given []string
	for i := 0; i < len(args); i++ {
		switch {
		case args[i] == "-v" || args[i] == "--v":
			given = append(given, args[i+1])
			i++
		case strings.HasPrefix(args[i], "-v="):
			given = append(given, args[i][3:])
		default:
			i++
		}
	}
	repeated := false
	for _, v := range given {
		k := strings.IndexByte(v, '=')
		n := v
		var x any = true
		if k >= 0 {
			n, x = v[:k], v[k+1:]
		}
		if _, ok := model[n]; ok {
			repeated = true
		}
		model[n] = x
	}
	r.Nontrivial = repeated || len(given) > 1 || strings.Contains(strings.Join(given, ""), "=")
	r.Sample = fmt.Sprintf("gowrap gen %q", args)
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("%s\ngowrap gen %q\n-- output --\n%s", fmt.Sprintf(f, a...), args, read(filepath.Join(e.Scratch, out)))
		return r
	}
	err, pan := genRun(e.Scratch, noRemote{}, args...)
	if pan != "" {
		return bad("panic: %s", pan)
	}
	if err != nil {
		return bad("gowrap fails: %s", errLine(err))
	}
	text := read(filepath.Join(e.Scratch, out))
	got := map[string]any{}
	for _, m := range varRe.FindAllStringSubmatch(text, -1) {
		dec := func(s string) string {
			b, err := base64.StdEncoding.DecodeString(s)
			must(err)
			return string(b)
		}
		switch m[2] {
		case "string":
			got[dec(m[1])] = dec(m[3])
		case "bool":
			got[dec(m[1])] = dec(m[3]) == "true"
		default:
			return bad("variable %q has type %s", dec(m[1]), m[2])
		}
	}
	for k, v := range model {
		if g, ok := got[k]; !ok || g != v {
			return bad("variable %q is %#v for the template, want %#v", k, g, v)
		}
	}
	for k := range got {
		if _, ok := model[k]; !ok {
			return bad("the template sees variable %q that was not given", k)
		}
	}
	return checkHostedVars(c, model, text, bad, r)
}

// checkHostedVars looks for the effect of the documented variables.
func checkHostedVars(c *VarsCase, model map[string]any, text string, bad func(string, ...any) core.Result, r core.Result) core.Result {
	str := func(n, def string) string {
		if s, ok := model[n].(string); ok && s != "" {
			return s
		}
		if model[n] == true {
			return "true"
		}
		return def
	}
	suffix := "Full"
	h := hostedByName(c.Template)
	if h != nil {
		suffix = h.Suffix
	}
	f, err := parser.ParseFile(token.NewFileSet(), "", text, 0)
	if err != nil {
		return bad("%v", err)
	}
	want := str("DecoratorName", c.Iface+suffix)
	types, funcs := map[string]bool{}, map[string]bool{}
	lits := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.TypeSpec:
			types[x.Name.Name] = true
		case *ast.FuncDecl:
			if x.Recv == nil {
				funcs[x.Name.Name] = true
			} else if got := recvTypeName(x.Recv.List[0].Type); got != want && !strings.HasPrefix(got, want) {
				r = bad("method %s is declared on %s, want %s", x.Name.Name, got, want)
			}
		case *ast.BasicLit:
			if x.Kind == token.STRING {
				s, _ := strconv.Unquote(x.Value)
				lits[s] = true
			}
		}
		return true
	})
	if r.Violation != "" {
		return r
	}
	if !types[want] {
		return bad("the decorator is not named %s", want)
	}
	if h != nil && !funcs["New"+want] {
		return bad("the constructor is not named New%s", want)
	}
	need := func(v, s string) core.Result {
		if !lits[s] {
			return bad("variable %s: no string %q in the output, the strings are %q", v, s, sortedKeys(lits))
		}
		return r
	}
	down := strings.ToLower(c.Iface)
	switch c.Template {
	case "prometheus":
		return need("MetricName", str("MetricName", down+"_duration_seconds"))
	case "elasticapm":
		return need("ComponentName", str("ComponentName", down)+".One")
	case "opentelemetry":
		return need("SpanNamePrefix", str("SpanNamePrefix", c.Iface)+".One")
	}
	return r
}

func recvTypeName(x ast.Expr) string {
	switch t := x.(type) {
	case *ast.StarExpr:
		return recvTypeName(t.X)
	case *ast.IndexExpr:
		return recvTypeName(t.X)
	case *ast.Ident:
		return t.Name
	}
	return "?"
}

func init() {
	register(&core.Prop{
		ID: "C10",
		Rule: "rapid draws lists of -v arguments (repeated names, several equal signs, empty names and values, arbitrary bytes), spellings and positions on the command line, and a template (bare or hosted); the template dumps its variables, which are compared with a map model, " +
			"and hosted templates are checked for the effect of DecoratorName, MetricName, ComponentName and SpanNamePrefix. Non-trivial: several variables, or one with a value.",
		Quick: 1400, Deep: 24000,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &VarsCase{Template: "full", Iface: rapid.SampledFrom([]string{"Target", "iface", "HTTPClient", "Ünit"}).Draw(t, "iface")}
			c.Same = c.Iface == "iface" || rapid.Bool().Draw(t, "same")
			hostedT := rapid.IntRange(0, 99).Draw(t, "hosted") < 50
			if hostedT {
				c.Template = Hosted[rapid.IntRange(0, len(Hosted)-1).Draw(t, "template")].Name
			}
			n := rapid.IntRange(0, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				v := drawVar(t)
				switch k := rapid.IntRange(0, 9).Draw(t, "special"); {
				case k < 3:
					v = "DecoratorName=" + rapid.SampledFrom([]string{"Deco", "myDeco", "Ünïcode", "T1"}).Draw(t, "deco")
				case k < 6 && hostedT:
					v = map[string]string{"prometheus": "MetricName", "elasticapm": "ComponentName", "opentelemetry": "SpanNamePrefix"}[c.Template]
					if v == "" {
						v = "unused"
					}
					v += "=" + rapid.SampledFrom([]string{"my_metric", "x", "A.b", "prefix=1", "a b", "é", ""}).Draw(t, "hostedValue")
				case k == 6 && i > 0:
					// a name given before
					n := c.Vars[rapid.IntRange(0, i-1).Draw(t, "repeat")]
					if j := strings.IndexByte(n, '='); j >= 0 {
						n = n[:j]
					}
					if n != "DecoratorName" {
						v = n + "=" + oddString(t, "again")
					}
				}
				if !utf8.ValidString(v) && rapid.Bool().Draw(t, "valid") {
					v = strings.ToValidUTF8(v, "?")
				}
				// documented variables have to be usable where templates put them
				for _, d := range []string{"MetricName", "ComponentName", "SpanNamePrefix"} {
					if strings.HasPrefix(v, d+"=") && strings.ContainsAny(v, "\"\\\n\r`{}\xff\x01\t\u2028") {
						v = d + "=plain"
					}
				}
				c.Vars = append(c.Vars, v)
				c.Spelling = append(c.Spelling, rapid.IntRange(0, 3).Draw(t, "spelling"))
			}
			return c
		},
		New:         func() any { return &VarsCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkVars(e, x.(*VarsCase)) },
		Assumptions: []string{"values of the documented variables are usable in a Go string or identifier"},
	})
}
