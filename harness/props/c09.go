package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
)

// RoundCase is a generation to be repeated by go generate.
type RoundCase struct {
	M        *gen.Module
	Dir      string // working directory of the first run
	Pkg      string // -p, not given when empty
	Iface    string
	Template string // -t
	TmplFile string // file that is created for it, or ""
	Git      bool   // the module is a git repository
	Vars     []string
	Local    string
	Out      string // -o; {ROOT} stands for the root of the module
	OutFile  string // the same, relative to the module
	Body     string
}

const varsDump = "\n{{range $k, $v := .Vars}}// VAR|{{b64enc $k}}|{{printf \"%T\" $v}}|{{b64enc (toString $v)}}|\n{{end}}\n"

func (c *RoundCase) args(root string, extra ...string) []string {
	sub := func(s string) string {
		return strings.ReplaceAll(s, "{ROOT}", root)
	}
	args := []string{"gen"}
	if c.Pkg != "" {
		args = append(args, "-p", sub(c.Pkg))
	}
	t := sub(c.Template)
	if strings.Contains(t, "{URL}") {
		t = strings.ReplaceAll(t, "{URL}", webServer())
	}
	args = append(args, "-i", c.Iface, "-t", t, "-o", sub(c.Out))
	for _, v := range c.Vars {
		args = append(args, "-v", v)
	}
	if c.Local != "" {
		args = append(args, "-l", c.Local)
	}
	return append(args, extra...)
}

var instructionRe = regexp.MustCompile(`(?m)^//go:generate .*\n`)

func checkRound(e *core.Env, c *RoundCase) core.Result {
	r := core.Result{Nontrivial: len(c.Vars) > 0 || c.Local != "" || strings.ContainsAny(c.Template+c.Out, " $\"'\\`{"), Key: fmt.Sprint(*c), Features: c.features(),
		Sample: fmt.Sprintf("in %q: gowrap %q", c.Dir, c.args("/ROOT"))}
	root := e.Scratch
	must(writeFiles(root, c.M.Files))
	if c.TmplFile != "" {
		must(writeFiles(root, map[string]string{c.TmplFile: c.Body}))
	}
	if c.Git {
		cmd := exec.Command("git", "init", "-q")
		cmd.Dir = root
		if b, err := cmd.CombinedOutput(); err != nil {
			panic(string(b))
		}
	}
	dir := filepath.Join(root, c.Dir)
	must(os.MkdirAll(dir, 0o755))
	out := filepath.Join(root, c.OutFile)
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("%s\nfirst run in %q: gowrap %q\n%s\n-- template --\n%s\n-- output --\n%s", fmt.Sprintf(f, a...), c.Dir, c.args("{ROOT}"), c.M.Render(), c.Body, read(out))
		return r
	}
	status, _, stderr := runCLI(e, dir, c.args(root)...)
	if status != 0 {
		return bad("gowrap fails: %s", clipS(stderr, 1500))
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return bad("the output was not written: %v", err)
	}
	want := string(b)
	if n := len(instructionRe.FindAllString(want, -1)); n != 1 {
		return bad("%d go:generate instructions", n)
	}
	// something only the second generation can repair
	must(os.WriteFile(out, append(b, "\n// stale\n"...), 0o644))
	cmd := exec.Command("go", "generate", filepath.Base(out))
	cmd.Dir = filepath.Dir(out)
	cmd.Env = append(os.Environ(), "PATH="+filepath.Dir(e.CLI)+":"+os.Getenv("PATH"), "HTTPS_PROXY=http://127.0.0.1:1", "NO_PROXY=127.0.0.1,localhost")
	msg, err := cmd.CombinedOutput()
	if err != nil {
		return bad("go generate fails: %v\n%s\nwant:\n%s", err, msg, want)
	}
	if got := read(out); got != want {
		return bad("go generate gives another file:\n%s\n-- want --\n%s", got, want)
	}
	// -g only leaves the instruction out
	must(os.Remove(out))
	status, _, stderr = runCLI(e, dir, c.args(root, "-g")...)
	if status != 0 {
		return bad("gowrap fails with -g: %s", clipS(stderr, 1500))
	}
	if x, y := squeeze(read(out)), squeeze(instructionRe.ReplaceAllString(want, "")); x != y {
		return bad("-g changes more than the instruction:\n-- without -g --\n%s", want)
	}
	return r
}

func (c *RoundCase) features() []string {
	f := []string{fmt.Sprintf("vars:%d", len(c.Vars))}
	if c.Git {
		f = append(f, "git-root-template")
	}
	if strings.Contains(c.Template, "://") {
		f = append(f, "url-template")
	}
	if c.Pkg == "" {
		f = append(f, "no-package-flag")
	} else if !strings.HasPrefix(c.Pkg, ".") && !strings.HasPrefix(c.Pkg, "example.com") {
		f = append(f, "std-package")
	}
	if c.Local != "" {
		f = append(f, "local-prefix")
	}
	return f
}

// squeeze drops empty lines.
func squeeze(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// oddString draws command line arguments that need care when quoted.
func oddString(t *rapid.T, label string) string {
	if rapid.IntRange(0, 3).Draw(t, label+"Word") == 3 {
		// what could be taken for something else than a string
		return rapid.SampledFrom([]string{"true", "false", "True", "TRUE", "t", "1", "0", "-1", "007", "1.50", "1e3", "nil", "null", "[]", "{}", "yes", "no", "on", "a,b", "a, b", "a,b=c", "k=v&x=y", "{\"a\": 1}",
			"'q'", "\"q\"", "`q`", "@file", "./t", "/", "http://x/y?z=1", "-x", "--", "-v", "10s", "0x1F", " ", " lead", "trail ", "==", "=x", "Ünïcode", "ALLCAPS", "camelCase", "src", "Target", "a\nb", "%d", "%%", "<no value>", "{{.}}", "&amp;"}).Draw(t, label+"Whole")
	}
	parts := []string{"a", "b", "X1", "foo", "_", "-", ".", "/", ",", ":", " ", "  ", "\"", "'", "\\", "`", "$", "${DOLLAR}", "$HOME", "$GOFILE", "${", "}", "=", "%", "%s", "#", "//", "*", "?", "!", "&", "|", ";", "(", ")", "<", "~", "é", "世界", "\t", "\n", "\\n", "\xff", "\\\"", "\r", "\u2028", "\x01", "{{", "}}", "*/"}
	n := rapid.IntRange(0, 5).Draw(t, label+"N")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(rapid.SampledFrom(parts).Draw(t, label))
	}
	return sb.String()
}

// drawVar draws an argument of -v.
func drawVar(t *rapid.T) string {
	names := []string{"a", "b", "Name", "Foo", "x y", "DecoratorName2", "$d", "\"q\"", "ключ", "", "-v", "A"}
	n := rapid.SampledFrom(names).Draw(t, "varName")
	if rapid.IntRange(0, 4).Draw(t, "oddName") == 4 {
		n = strings.ReplaceAll(oddString(t, "varOdd"), "=", "")
	}
	if rapid.IntRange(0, 3).Draw(t, "boolVar") == 3 {
		return n
	}
	return n + "=" + oddString(t, "varValue")
}

var stdTargets = []struct{ pkg, iface string }{{"io", "ReadWriteCloser"}, {"io", "Reader"}, {"sort", "Interface"}, {"net/http", "RoundTripper"}, {"fmt", "Stringer"}, {"context", "Context"}, {"net", "Conn"}, {"io/fs", "ReadDirFS"}, {"database/sql/driver", "Conn"}}

func drawRound(t *rapid.T, e *core.Env) any {
	m := gen.Draw(t, gen.Cfg{MultiFile: true, MaxMethods: 2, MaxDepth: 1, Comments: true})
	tg := m.Targets[0]
	c := &RoundCase{M: m, Iface: tg.Iface, Body: fullTemplate + varsDump}
	pick := func(label string, xs ...string) string { return rapid.SampledFrom(xs).Draw(t, label) }
	// where the output goes
	file := pick("file", "zz.go", "zz_gen.go", "a b.go", "a$b.go", "wrap_test.go", "it's.go", "q\"q.go", "é.go", "b.go2.go", "x#y.go", "back`tick.go", "x${GOFILE}.go", "100%.go")
	if strings.HasSuffix(tg.DstDir, "_test") && file == "wrap_test.go" {
		file = "zz.go" // an external test package of a package that does not exist
	}
	c.OutFile = tg.DstDir + "/" + file
	// where the template is
	name := pick("tmpl", "t", "my.tmpl", "my template", "a$b", "q\"uote", "ü.tmpl", "-dash", "tab\there", "a'b", "x${DOLLAR}y", "back\\slash", "per%cent", "back`tick", "#t", "a=b")
	tdir := pick("tmplDir", "tmpl", ".", tg.DstDir, "deep/er dir", "../" /* outside of the module is not used */)
	if tdir == "../" {
		tdir = "tmpl"
	}
	c.TmplFile = filepath.Join(tdir, name)
	// where gowrap runs
	switch rapid.IntRange(0, 3).Draw(t, "runIn") {
	case 0:
		c.Dir = ""
	case 1:
		c.Dir = tg.PkgDir
	case 2:
		c.Dir = tg.DstDir
	case 3:
		c.Dir = "some/where"
	}
	rel := func(p string) string {
		r, err := filepath.Rel("/r/"+c.Dir, "/r/"+p)
		must(err)
		return r
	}
	c.Out = rel(c.OutFile)
	switch rapid.IntRange(0, 4).Draw(t, "outForm") {
	case 3:
		c.Out = "{ROOT}/" + c.OutFile
	case 4:
		c.Out = "./" + c.Out
	}
	c.Template = rel(c.TmplFile)
	switch rapid.IntRange(0, 7).Draw(t, "tmplForm") {
	case 3:
		c.Template = "{ROOT}/" + c.TmplFile
	case 4:
		c.Template = "./" + c.Template
	case 5:
		c.Template = "file://" + c.Template
	case 6:
		c.Git = true
		c.Template = "file://" + c.TmplFile
	case 7:
		c.Template, c.TmplFile = "{URL}/ok", ""
	}
	if strings.HasPrefix(c.Template, "-") {
		c.Template = "./" + c.Template
	}
	switch k := rapid.IntRange(0, 5).Draw(t, "pkgForm"); {
	case k < 2:
		c.Pkg = tg.PkgPath
	case k < 4:
		c.Pkg = rel(tg.PkgDir)
		if !strings.HasPrefix(c.Pkg, "..") {
			c.Pkg = "./" + c.Pkg
		}
	case k == 4:
		if c.Dir == tg.PkgDir {
			break // the package in the working directory
		}
		c.Pkg = "{ROOT}/" + tg.PkgDir
	default:
		s := rapid.SampledFrom(stdTargets).Draw(t, "std")
		c.Pkg, c.Iface = s.pkg, s.iface
	}
	if c.Pkg == "" && c.Dir != tg.PkgDir {
		c.Pkg = tg.PkgPath
	}
	n := rapid.IntRange(0, 3).Draw(t, "nvars")
	for i := 0; i < n; i++ {
		c.Vars = append(c.Vars, drawVar(t))
	}
	if rapid.IntRange(0, 2).Draw(t, "local") == 2 {
		c.Local = pick("localPrefix", "example.com/m", "example.com", "context,example.com/m", "a b", "$x", "\"q\"", "it's", "back\\slash", "x`y", "ü", "${DOLLAR}", "a=b,-c")
	}
	return c
}

func init() {
	register(&core.Prop{
		ID: "C09",
		Rule: "rapid draws a module, a source package (of the module, by path, directory or working directory, or of the standard library), a working directory, file names, template locations (relative, absolute, file://, git root, http), variables and prefixes with characters that need quoting; " +
			"the built gowrap generates, the output is spoilt and the real 'go generate' has to restore it byte for byte, and -g has to leave out the instruction only. Non-trivial: variables, a prefix or a special file name occur.",
		Quick: 420, Deep: 7000,
		Draw:        drawRound,
		New:         func() any { return &RoundCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkRound(e, x.(*RoundCase)) },
		Assumptions: []string{"the go command of the toolchain in use reads the instruction"},
	})
}
