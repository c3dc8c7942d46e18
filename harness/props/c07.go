package props

import (
	"bytes"
	"context"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// FaultCase is a run of the gowrap command with something wrong.
type FaultCase struct {
	Kind  string
	Files map[string]string // whole tree
	Dirs  []string          // empty directories to create
	Dir   string            // working directory, relative to the tree
	Args  []string          // {URL} stands for the address of a local web server
	Out   string            // output file, relative to the tree
	Want  int               // exit status; -1: 0 with a complete output or 1 without any change
}

const endMark = "// END-OF-OUTPUT"

// snapshot lists everything below root.
func snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		must(err)
		rel, _ := filepath.Rel(root, p)
		switch {
		case d.IsDir():
			m[rel+"/"] = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "-> " + l
		default:
			b, err := os.ReadFile(p)
			must(err)
			i, _ := d.Info()
			m[rel] = fmt.Sprintf("%v %s", i.Mode(), b)
		}
		return nil
	})
	return m
}

func treeDiff(a, b map[string]string) string {
	var out []string
	for _, k := range sortedKeys(a) {
		if x, ok := b[k]; !ok {
			out = append(out, k+" was removed")
		} else if x != a[k] {
			out = append(out, fmt.Sprintf("%s was changed\n-- before --\n%s\n-- after --\n%s", k, a[k], x))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("%s was created:\n%s", k, b[k]))
		}
	}
	return strings.Join(out, "\n")
}

var (
	faultServerOnce sync.Once
	faultServer     *httptest.Server
)

// webServer serves faulty and working templates.
func webServer() string {
	faultServerOnce.Do(func() {
		mux := http.NewServeMux()
		mux.HandleFunc("/ok", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, fullTemplate+"\n"+endMark+"\n") })
		mux.HandleFunc("/404", func(w http.ResponseWriter, r *http.Request) { http.Error(w, fullTemplate, 404) })
		mux.HandleFunc("/500", func(w http.ResponseWriter, r *http.Request) { http.Error(w, fullTemplate, 500) })
		mux.HandleFunc("/204", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) })
		mux.HandleFunc("/loop", func(w http.ResponseWriter, r *http.Request) { http.Redirect(w, r, "/loop", 302) })
		mux.HandleFunc("/truncated", func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Length", fmt.Sprint(len(fullTemplate)+1000))
			io.WriteString(w, fullTemplate+"\n"+endMark+"\n")
			if h, ok := w.(http.Hijacker); ok {
				w.(http.Flusher).Flush()
				c, _, _ := h.Hijack()
				c.Close()
			}
		})
		mux.HandleFunc("/reset", func(w http.ResponseWriter, r *http.Request) {
			c, _, _ := w.(http.Hijacker).Hijack()
			c.Close()
		})
		faultServer = httptest.NewServer(mux)
	})
	return faultServer.URL
}

// runCLI runs the built command.
func runCLI(e *core.Env, dir string, args ...string) (status int, stdout, stderr string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, e.CLI, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=", "NO_PROXY=127.0.0.1,localhost", "GIT_CEILING_DIRECTORIES="+filepath.Dir(e.Scratch))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err != nil && ctx.Err() != nil {
		panic(fmt.Sprintf("gowrap %q timed out", args))
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	return cmd.ProcessState.ExitCode(), so.String(), se.String()
}

func checkFault(e *core.Env, c *FaultCase) core.Result {
	must(writeFiles(e.Scratch, c.Files))
	for _, d := range c.Dirs {
		must(os.MkdirAll(filepath.Join(e.Scratch, d), 0o755))
	}
	before := snapshot(e.Scratch)
	var args []string
	for _, a := range c.Args {
		if strings.Contains(a, "{URL}") {
			a = strings.ReplaceAll(a, "{URL}", webServer())
		}
		args = append(args, a)
	}
	status, stdout, stderr := runCLI(e, filepath.Join(e.Scratch, c.Dir), args...)
	sample := fmt.Sprintf("%s: gowrap %q -> status %d\n%s", c.Kind, c.Args, status, clipS(stderr, 300))
	r := core.Result{Nontrivial: c.Want != 0, Key: fmt.Sprint(c.Kind, c.Args, c.Files), Features: []string{"kind:" + c.Kind}, Sample: sample}
	bad := func(f string, a ...any) core.Result {
		var files strings.Builder
		for _, k := range sortedKeys(c.Files) {
			fmt.Fprintf(&files, "-- %s --\n%s\n", k, c.Files[k])
		}
		r.Violation = fmt.Sprintf("%s\n%s\nin %s/ run: gowrap %q\nstatus %d\nstdout: %s\nstderr: %s\n%s", fmt.Sprintf(f, a...), c.Kind, c.Dir, c.Args, status, clipS(stdout, 2000), clipS(stderr, 3000), files.String())
		return r
	}
	if strings.Contains(stderr, "goroutine ") && strings.Contains(stderr, "panic") || status < 0 {
		return bad("gowrap crashed")
	}
	d := treeDiff(before, snapshot(e.Scratch))
	complete := func() string {
		b, err := os.ReadFile(filepath.Join(e.Scratch, c.Out))
		if err != nil {
			return "the output was not written: " + err.Error()
		}
		if _, err := parser.ParseFile(token.NewFileSet(), "", b, 0); err != nil {
			return "the output is not a Go file: " + err.Error()
		}
		if !strings.HasSuffix(strings.TrimSpace(string(b)), endMark) {
			return "the output is not complete"
		}
		after := snapshot(e.Scratch)
		delete(after, c.Out)
		dd := map[string]string{}
		for k, v := range after {
			// directories above the output may have been created
			if !(v == "dir" && strings.HasPrefix(c.Out, k)) {
				dd[k] = v
			}
		}
		bb := map[string]string{}
		for k, v := range before {
			if k != c.Out && !(v == "dir" && strings.HasPrefix(c.Out, k)) {
				bb[k] = v
			}
		}
		if x := treeDiff(bb, dd); x != "" {
			return "other files changed: " + x
		}
		return ""
	}
	switch {
	case c.Want == -1 && status == 0, c.Want == 0:
		if status != 0 {
			return bad("status %d, want 0", status)
		}
		if c.Out != "" {
			if x := complete(); x != "" {
				return bad("gowrap reports success but %s", x)
			}
		} else if d != "" {
			return bad("files changed: %s", d)
		}
		return r
	}
	want := c.Want
	if want == -1 {
		want = 1
	}
	if status != want {
		return bad("status %d, want %d", status, want)
	}
	if strings.TrimSpace(stderr) == "" {
		return bad("the failure is not reported")
	}
	if d != "" {
		return bad("gowrap failed but changed files: %s", d)
	}
	return r
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// nest puts a type into a drawn place.
func nest(t *rapid.T, typ string, depth int) string {
	forms := []string{"%s", "*%s", "[]%s", "[2]%s", "map[string]%s", "chan %s", "<-chan %s", "func(%s) error", "func() (int, %s)", "struct{ F %s }", "interface{ M(%s) }", "func(...%s)", "(%s)", "Box[%s]"}
	n := rapid.IntRange(0, depth).Draw(t, "nest")
	for i := 0; i < n; i++ {
		typ = fmt.Sprintf(rapid.SampledFrom(forms).Draw(t, "form"), typ)
	}
	return typ
}

func drawFault(t *rapid.T, e *core.Env) any {
	pick := func(label string, xs ...string) string { return rapid.SampledFrom(xs).Draw(t, label) }
	other := rapid.IntRange(0, 99).Draw(t, "otherPkg") < 60
	m := gen.Draw(t, gen.Cfg{Embeds: rapid.Bool().Draw(t, "embeds"), MultiFile: true, MaxMethods: 3, MaxDepth: 1, ForceOther: other, ForceSame: !other})
	tg := m.Targets[0]
	c := &FaultCase{Files: m.Files, Out: tg.DstDir + "/" + tg.DstFile, Want: 1}
	i, p, tmpl, out := tg.Iface, "./"+tg.PkgDir, "tmpl/t", c.Out
	template := fullTemplate
	tail := "\n" + endMark + "\n"
	var extra []string
	fault := "" // declarations added to the source package
	imports := ""
	// a decl the faulty target hides among
	good := "Ok(a int) error"
	method := func(typ string) string {
		switch rapid.IntRange(0, 3).Draw(t, "place") {
		case 0:
			return "M(x " + typ + ")"
		case 1:
			return "M() (int, " + typ + ")"
		case 2:
			return "M(a int, xs ..." + typ + ") error"
		}
		return "M(" + typ + ", string) " + typ
	}
	refused := func(kind, decl string) {
		c.Kind, i, fault = kind, "Faulty", decl
	}
	wrapped := func(kind, body string) {
		switch rapid.IntRange(0, 3).Draw(t, "wrapped") {
		case 0:
			refused(kind, "type Faulty interface{ "+good+"; "+body+" }")
		case 1:
			refused(kind, "type inner interface{ "+body+" }\ntype Faulty interface{ inner; "+good+" }")
		case 2:
			refused(kind, "type Faulty = Inner\ntype Inner interface{ "+good+"; "+body+" }")
		case 3:
			refused(kind, "type Faulty interface{ interface{ "+body+" }; "+good+" }")
		}
	}
	dst := func() { // output in another package
		c.Out = "out2/gen/zz.go"
		out = c.Out
	}
	kinds := []string{"control", "control-web", "cmdline", "top", "unknown-interface", "unknown-package", "non-interface", "empty-interface", "constraint-interface",
		"unexported-method", "unexported-type", "unexported-field", "unexported-constraint", "foreign-unexported", "embed-unknown", "embed-cycle", "embed-non-interface",
		"template-syntax", "template-exec", "template-output", "template-missing", "template-web", "template-dir", "out-dir", "out-parent", "out-name", "source-syntax", "source-types",
		"dst-broken", "template-command", "odd-package", "broken-test"}
	kind := pick("kind", kinds...)
	c.Kind = kind
	switch kind {
	case "control":
		c.Want = 0
	case "control-web":
		c.Want, tmpl = 0, "{URL}/ok"
	case "unknown-interface":
		i = pick("iface", "NoSuch", "target2", "Target ", "*Target", "Target[int]", "%d%s", "[]", "error", "context.Context", "_", "Target.M", "-x", "init", "Ünknown", "int")
	case "unknown-package":
		p = pick("pkg", "./nosuch", "./src/nosuch", "example.com/m/nosuch", "example.com/other", "nosuch", "../outside", "/nonexistent/dir", "%s", "github.com/no/such", "./go.mod", "x y")
	case "odd-package":
		p = pick("oddpkg", "./...", "./"+tg.PkgDir+"/...", "./"+tg.PkgDir+"/a.go", "file="+tg.PkgDir+"/a.go", "pattern=./"+tg.PkgDir, ".", "", "-v", "cmd/nosuch", "...x", "unsafe", "C", "errors")
		c.Want = -1
		extra = []string{}
	case "non-interface":
		refused(kind, pick("decl", "type Faulty struct{ F int }", "type Faulty int", "type Faulty func()", "type Faulty []int", "type Faulty map[string]int", "type Faulty chan int", "type Faulty *int",
			"var Faulty int", "const Faulty = 1", "func Faulty() {}", "type other struct{}\nfunc (other) Faulty() {}", "type Faulty = struct{}", "type base struct{}\ntype Faulty base", "type Faulty = *Inner\ntype Inner interface{ M() }",
			"type Faulty []Inner\ntype Inner interface{ M() }", "type Faulty[T any] struct{ F T }", "var Faulty interface{ M() }", "func f() { type Faulty interface{ M() } }", "type Faulty func() Inner\ntype Inner interface{ M() }",
			"import \"io\"\ntype Faulty io.SectionReader", "import \"bytes\"\ntype Faulty = bytes.Buffer"))
	case "empty-interface":
		refused(kind, pick("decl", "type Faulty interface{}", "type Faulty any", "type Faulty = any", "type Faulty = interface{}", "type Inner interface{}\ntype Faulty interface{ Inner }", "type Inner = any\ntype Faulty = Inner",
			"type Faulty interface{ any }", "type Inner interface{ interface{} }\ntype Faulty Inner", "type Faulty[T any] interface{}"))
	case "constraint-interface":
		wrapped(kind, pick("decl", "int | string", "~int", "~[]byte", "comparable", "*int", "[]string", "map[string]int", "interface{ ~int }", "interface{ comparable }", "struct{ F int }", "func()", "chan int"))
	case "unexported-method":
		dst()
		wrapped(kind, pick("m", "secret()", "m(int) error", "_x()", "ünexported(a string)"))
	case "unexported-type":
		dst()
		wrapped(kind, method(nest(t, "hidden", 3)))
		fault += "\ntype hidden struct{ F int }\ntype Box[T any] struct{ F T }"
	case "unexported-field":
		dst()
		wrapped(kind, method(nest(t, pick("lit", "struct{ f int }", "interface{ m() }", "struct{ F int; g string }", "struct{ error }", "[hiddenN]int", "struct{ _ int }", "interface{ M(); x(int) }"), 2)))
		fault += "\nconst hiddenN = 3\ntype Box[T any] struct{ F T }"
	case "unexported-constraint":
		dst()
		refused(kind, "type hidden interface{ ~int | ~string }\ntype num int\ntype G[T any] interface{ M(T) }\ntype Faulty["+pick("tp", "T hidden", "T any, U hidden", "T interface{ hidden }", "T interface{ ~[]U }, U hidden", "T G[num]", "T ~int | num", "T interface{ M(num) }")+"] interface{ F(T) }")
	case "foreign-unexported":
		// methods and types of yet another package cannot be implemented anywhere else
		c.Files["sealed/sealed.go"] = "package sealed\n\ntype Sealed interface{ Open(); seal() }\n\ntype hidden int\n\ntype Uses interface{ M(hidden) }\n\ntype SealedAlias = Sealed\n\ntype More interface{ Sealed }\n\ntype Lit interface{ M(struct{ f int }) }\n"
		imports = "import \"example.com/m/sealed\"\n"
		x := "sealed." + pick("sealed", "Sealed", "Uses", "SealedAlias", "More", "Lit")
		if rapid.Bool().Draw(t, "std") {
			imports, x = "import \"testing\"\n", "testing.TB"
		}
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			refused(kind, "type Faulty interface{ "+x+" }")
		case 1:
			refused(kind, "type Faulty = "+x)
		case 2:
			refused(kind, "type Inner "+x+"\ntype Faulty interface{ Inner; "+good+" }")
		case 3:
			refused(kind, "type Inner interface{ "+x+" }\ntype Faulty interface{ "+good+"; Inner }")
		}
	case "embed-unknown":
		wrapped(kind, pick("embed", "NoSuchType", "nosuchpkg.Thing", "NoSuch[int]", "float33"))
	case "embed-cycle":
		refused(kind, pick("decl", "type Faulty interface{ Faulty }", "type Inner interface{ Faulty }\ntype Faulty interface{ Inner; M() }", "type A1 = B1\ntype B1 = Faulty\ntype Faulty interface{ A1; M() }",
			"type Faulty interface{ A1; M() }\ntype A1 interface{ B1 }\ntype B1 interface{ A1 }", "type Faulty interface{ interface{ Faulty }; M() }"))
	case "embed-non-interface":
		refused(kind, pick("decl", "type Inner struct{}\ntype Faulty interface{ Inner; M() }", "type Inner int\ntype Faulty interface{ M(); Inner }", "type Inner func()\ntype Faulty interface{ Inner; M() }", "type Faulty interface{ int; M() }",
			"type Inner []string\ntype A1 = Inner\ntype Faulty interface{ A1; M() }", "type Inner[T any] struct{}\ntype Faulty interface{ Inner[int]; M() }"))
	case "template-syntax":
		x := pick("syntax", "{{", "{{.Interface", "{{end}}", "{{range}}x{{end}}", "{{nofunc 1}}", "{{range .Interface.Methods}}", "{{if true}}", "{{else}}", "{{.}} {{ 'ab }}", "{{ \"abc }}", "{{ $x }}", "{{ 1 | 2 }}", "{{/* a comment", "{{break}}", "{{define \"x\"}}")
		template = pick("syntaxAt", fullTemplate+x, x+fullTemplate)
	case "template-exec":
		x := pick("exec", "{{.Interface.Nope}}", "{{.Nope}}", "{{index .Interface.Methods 5}}", `{{fail "boom"}}`, `{{template "nosuch"}}`, "{{ .Vars.x.y.z }}", `{{ repeat -1 "x" }}`, `{{ "x" | atoi 1 }}`,
			`{{range .Interface.Methods}}{{.Nope}}{{end}}`, `{{ substr 5 2 "abc" }}`, `{{ index (splitList "," "a") 7 }}`, `{{ required "must" "" }}{{fail "x"}}`, `{{ up }}`, `{{ up 1 }}`, `{{ replace "a" }}`, `{{ .Import 1 }}`, `{{ div 1 0 }}`)
		template = pick("execAt", fullTemplate+x, x+fullTemplate)
		if strings.Contains(x, "required") {
			template = strings.Replace(template, x, `{{fail "x"}}`, 1)
		}
	case "template-output":
		x := pick("output", "func (", "type A struct {", "package x", "}", "var a int\nimport \"fmt\"\n", "x := 1", "type 1x int", "\x00", "/* open", "var s = \"abc", "var s = `abc", "func f() { return } }", "type T struct { a, }", "var 世 界 x", "<html>not found</html>", "404: Not Found", "{\"message\": \"x\"}", "\xff")
		template = pick("outputAt", fullTemplate+x+"\n", x+"\n"+fullTemplate)
	case "template-missing":
		tmpl = pick("missing", "tmpl/nosuch", "nosuch", "retry2", "file://nosuch", "file:///nonexistent/x", "http://127.0.0.1:1/x", "https://127.0.0.1:1/x", "http://[bad", "https://%zz/", "http://", "tmpl/t/x", "./tmpl/", "%s%d", "a b", strings.Repeat("n", 300), "ftp://x/y", "file://")
	case "template-web":
		tmpl = "{URL}/" + pick("web", "404", "500", "204", "loop", "truncated", "reset", "nosuch")
	case "template-dir":
		c.Dirs = []string{"tmpl/dir"}
		tmpl = pick("dir", "tmpl/dir", "tmpl", ".", "file://tmpl", "/")
	case "out-dir":
		c.Dirs = []string{"outdir/sub.go"}
		out = pick("outdir", "outdir/sub.go", "outdir", "outdir/", ".")
		if out != "outdir/sub.go" && rapid.Bool().Draw(t, "slash") {
			out = "outdir/sub.go/"
		}
	case "out-parent":
		c.Files["afile"] = "not a directory\n"
		out = pick("outparent", "afile/x.go", "afile/a/b.go", "go.mod/x.go")
	case "out-name":
		out = "out2/" + strings.Repeat("n", 300) + ".go"
		c.Dirs = []string{"out2"}
	case "source-syntax":
		fault = pick("syntax", "type X interface {", "func (", "}", "type Target2 interface { M( }", "import \"x", "var = 1", "type ; int")
	case "source-types":
		c.Want = -1
		fault = pick("types", "var X NoSuch", "func f() { return 1 }", "import \"os\"", "type Target2 interface { M(NoSuch) }", "var a int\nvar a string", "import \"no/such/pkg\"", "func g() { x := 1 }")
	case "broken-test":
		// test files are no part of the packages that are loaded
		c.Want = -1
		text := pick("brokenTest", "package dep2\n\nfunc (", "not go", "", "package dep2\n\ntype Inner interface {", "package dep2_test\n\nvar x = ")
		c.Files["dep2/dep.go"] = "package dep2\n\ntype Inner interface{ Open(n int) error }\n"
		if rapid.Bool().Draw(t, "inSource") {
			c.Files[tg.PkgDir+"/zz_test.go"] = strings.ReplaceAll(text, "dep2", tg.PkgName)
		} else {
			c.Files["dep2/dep_test.go"] = text
		}
		imports = "import \"example.com/m/dep2\"\n"
		refused(kind, pick("decl", "type Faulty = dep2.Inner", "type Faulty dep2.Inner", "type Faulty interface{ dep2.Inner; M() }", "type Mid = dep2.Inner\ntype Faulty interface{ Mid }"))
	case "dst-broken":
		c.Want = -1
		c.Files["out3/a.go"] = pick("dst", "package", "package out3\nfunc (", "", "not go", "package out3\nimport \"nosuch/x\"\n", "package a b")
		c.Out, out = "out3/z.go", "out3/z.go"
	case "template-command":
		c.Args = append([]string{"template"}, rapid.SampledFrom([][]string{{}, {"nosuch"}, {"copy"}, {"copy", "x"}, {"list"}, {"copy", "nosuch", "dst"}, {"copy", "file://nosuch", "dst"}, {"copy", "{URL}/404", "dst"}, {"copy", "{URL}/truncated", "dst"}, {"copy", "{URL}/reset", "go.mod"}, {"-x"}, {"copy", "{URL}/500", "go.mod"}}).Draw(t, "template")...)
		if len(c.Args) < 3 && !(len(c.Args) == 2 && c.Args[1] == "list") || len(c.Args) == 3 {
			c.Want = 2
		}
		c.Out = ""
		return c
	case "top":
		x := rapid.SampledFrom([][]string{{}, {"nosuch"}, {"-x"}, {"--"}, {"-h"}, {"help", "a", "b"}, {"help", "nosuch"}, {"%s%d"}, {""}, {"gen"}, {"gen", "-h"}, {"gen", "--help"}, {"gen", "-"}, {"gen", "--"}, {"-gen"}, {"Gen"}, {"gen "},
			{"help"}, {"help", "gen"}, {"help", "template"}, {"--", "help"}}).Draw(t, "top")
		c.Args, c.Want, c.Out = x, 2, ""
		if len(x) > 0 && (x[0] == "help" || x[len(x)-1] == "help") && (len(x) == 1 || x[1] == "gen" || x[1] == "template" || x[0] == "--") {
			c.Want = 0
		}
		return c
	case "cmdline":
		tokens := []string{"-o", out, "-i", i, "-t", "tmpl/t", "-p", p, "-g", "-v", "a=b", "-x", "--o=" + out, "-i=" + i, "--t", "-g=maybe", "-g=false", "-v", "-l", "example.com/%s", "--", "-", "stray", "-o=", "-i=", "-t=", "--g", "---o", "-=", "-h", "-v=%d", "-p="}
		n := rapid.IntRange(0, 10).Draw(t, "ntok")
		var args []string
		for k := 0; k < n; k++ {
			args = append(args, rapid.SampledFrom(tokens).Draw(t, "tok"))
		}
		// complete command lines are worth more than random ones
		if rapid.Bool().Draw(t, "seeded") {
			base := []string{"-o", out, "-i", i, "-t", "tmpl/t", "-p", p}
			k := 2 * rapid.IntRange(0, 4).Draw(t, "dropPair")
			if k < 8 && rapid.Bool().Draw(t, "drop") {
				base = append(base[:k:k], base[k+2:]...)
			}
			at := rapid.IntRange(0, len(args)).Draw(t, "at")
			args = append(append(append([]string{}, args[:at]...), base...), args[at:]...)
		}
		c.Args = append([]string{"gen"}, args...)
		c.Want, c.Out = flagModel(args)
		c.Files["tmpl/t"] = template + tail
		return c
	}
	c.Files["tmpl/t"] = template + tail
	if fault != "" {
		if strings.HasPrefix(fault, "import ") {
			k := strings.Index(fault+"\n", "\n")
			imports, fault = fault[:k]+"\n", fault[min(k+1, len(fault)):]
		}
		c.Files[tg.PkgDir+"/"+pick("faultFile", "fault.go", "a0.go", "zzz.go")] = "package " + tg.PkgName + "\n\n" + imports + "\n" + fault + "\n"
	}
	if kind != "out-dir" && kind != "out-parent" && kind != "out-name" {
		switch rapid.IntRange(0, 2).Draw(t, "pre") {
		case 1:
			c.Files[c.Out] = "package " + dstName(c, tg) + "\n\n// previous output\n"
		case 2:
			if kind != "control" && kind != "control-web" && c.Want != -1 {
				c.Files[c.Out] = "garbage"
			}
		}
	}
	if kind == "control" || kind == "control-web" {
		if rapid.Bool().Draw(t, "nested") && other {
			c.Out, out = "new/dir/deco/x.go", "new/dir/deco/x.go"
		}
	}
	c.Args = append([]string{"gen", "-i", i, "-p", p, "-t", tmpl, "-o", out}, extra...)
	if rapid.IntRange(0, 3).Draw(t, "g") == 3 {
		c.Args = append(c.Args, "-g")
	}
	if rapid.IntRange(0, 3).Draw(t, "v") == 3 {
		c.Args = append(c.Args, "-v", "x=%d")
	}
	return c
}

func dstName(c *FaultCase, tg gen.Target) string {
	if d := filepath.Dir(c.Out); d != tg.DstDir {
		return filepath.Base(d)
	}
	return tg.DstPkg
}

// flagModel tells the exit status for a command line of gen by the documented
// flags; -1 is returned when it is acceptable as a command line.
func flagModel(args []string) (want int, out string) {
	f := flag.NewFlagSet("", flag.ContinueOnError)
	f.SetOutput(io.Discard)
	f.Bool("g", false, "")
	var i, o, tt string
	f.StringVar(&i, "i", "", "")
	f.StringVar(&o, "o", "", "")
	f.StringVar(&tt, "t", "", "")
	f.String("p", "", "")
	f.String("l", "", "")
	f.Func("v", "", func(string) error { return nil })
	if f.Parse(args) != nil || i == "" || o == "" || tt == "" {
		return 2, ""
	}
	return -1, filepath.Clean(o)
}

func init() {
	register(&core.Prop{
		ID: "C07",
		Rule: "rapid draws a module, one of 32 kinds of faults (command lines, interfaces that cannot be decorated, templates that do not parse/execute/give Go, templates and packages that cannot be loaded, outputs that cannot be written) with drawn details, " +
			"and the state of the output before; the built command is run. Exit status, messages and the whole file tree before and after are compared; controls must succeed with a complete output. Non-trivial: a fault was injected.",
		Quick: 1600, Deep: 20000,
		Draw:        drawFault,
		New:         func() any { return &FaultCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkFault(e, x.(*FaultCase)) },
		Assumptions: []string{"a disk that fills up in the middle of the write is not simulated", "for sources and destinations with type errors both a refusal and a complete output are accepted"},
	})
}
