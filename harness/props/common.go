// Package props holds the properties of gowrap as executable checks.
package props

import (
	"bytes"
	"fmt"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/hexdigest/gowrap"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/tc"
)

// All properties by id.
var All = map[string]*core.Prop{}

func register(p *core.Prop) { All[p.ID] = p }

// noRemote is a template loader without any remote template.
type noRemote struct{}

func (noRemote) List() ([]string, error) { return nil, fmt.Errorf("no network") }
func (noRemote) Load(p string) ([]byte, string, error) {
	return nil, "", fmt.Errorf("template %q: no network", p)
}

// remote is the interface NewGenerateCommand and NewTemplateCommand take.
type remote interface {
	List() ([]string, error)
	Load(string) ([]byte, string, error)
}

// writeFiles creates the files below root.
func writeFiles(root string, files map[string]string) error {
	for f, s := range files {
		p := filepath.Join(root, f)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// genRun runs "gowrap gen" in this process with dir as the working directory.
func genRun(dir string, l remote, args ...string) (err error, panicked string) {
	must(os.Chdir(dir))
	defer os.Chdir("/")
	defer func() {
		if x := recover(); x != nil {
			panicked = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	cmd := gowrap.NewGenerateCommand(l)
	cmd.FlagSet().SetOutput(io.Discard)
	return cmd.Run(args, io.Discard), ""
}

// errLine shortens the error of a generation; those of imports.Process hold the
// whole generated file.
func errLine(err error) string {
	s := err.Error()
	if i := strings.Index(s, ":\n"); i > 0 {
		s = s[:i] + " ... " + s[strings.LastIndex(strings.TrimRight(s, "\n"), "\n")+1:]
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

var hostedCache = map[string]string{}

// hosted reads a template of the repository.
func hosted(e *core.Env, name string) string {
	if s, ok := hostedCache[name]; ok {
		return s
	}
	b, err := os.ReadFile(filepath.Join(e.Repo, "templates", name))
	must(err)
	hostedCache[name] = string(b)
	return string(b)
}

// HostedTemplate describes what the documentation of a hosted template promises.
type HostedTemplate struct {
	Name, Suffix string
	// Which methods get an implementation of their own: all, err, ctx
	Which string
	// Embeds says whether the rest is promoted from an embedded interface.
	Embeds bool
	Ptr    bool
}

// Hosted templates.
var Hosted = []HostedTemplate{
	{"log", "WithLog", "all", false, false},
	{"circuitbreaker", "WithCircuitBreaker", "err", true, true},
	{"elasticapm", "APMTracing", "all", false, false},
	{"fallback", "WithFallback", "all", false, false},
	{"grpc_validate", "WithGRPCValidation", "err", true, false},
	{"logrus", "WithLogrus", "all", false, false},
	{"opencensus", "WithTracing", "ctx", true, false},
	{"opentelemetry", "WithTracing", "ctx", true, false},
	{"opentracing", "WithTracing", "ctx", true, false},
	{"prometheus", "WithPrometheus", "all", false, false},
	{"ratelimit", "WithRateLimit", "all", false, true},
	{"retry", "WithRetry", "err", true, false},
	{"robinpool", "RoundRobinPool", "all", false, true},
	{"syncpool", "Pool", "all", false, false},
	{"timeout", "WithTimeout", "ctx", true, false},
	{"twirp_error", "WithTwirpError", "all", true, false},
	{"twirp_validate", "WithTwirpValidation", "all", true, false},
	{"validate", "WithValidation", "all", true, false},
}

func hostedByName(n string) *HostedTemplate {
	for i := range Hosted {
		if Hosted[i].Name == n {
			return &Hosted[i]
		}
	}
	return nil
}

// safeParam says whether a hosted template can cope with the parameter name:
// names of packages the templates import and of predeclared identifiers they
// use cannot be used (known limit, see DESIGN.md).
var safeNames = map[string]bool{}

func init() {
	for _, n := range []string{"a", "b", "c", "x", "s1", "i1", "p1", "e1", "err", "ctx", "r1", "sa1", "sp1", "m1", "ch1", "f1", "st1", "b1", "id", "ünï", "c1", "A", "i2", "s2",
		"key", "value", "req", "name", "userID", "opts", "filter", "data"} {
		safeNames[n] = true
	}
}

func safeParam(n string) bool { return safeNames[n] }

// setupExports prepares export data for type checking.
func setupExports(e *core.Env) error {
	f, err := os.CreateTemp("", "vh-exports-")
	if err != nil {
		return err
	}
	f.Close()
	core.AtExit(func() { os.Remove(f.Name()) })
	return tc.Exports(filepath.Join(e.Verif, "harness", "libs"), f.Name())
}

// fullTemplate declares a decorator that only uses what every template is given.
const fullTemplate = `{{ $decorator := (or .Vars.DecoratorName (printf "%sFull" .Interface.Name)) }}
// {{$decorator}} wraps {{.Interface.Type}}
type {{$decorator}}{{.Interface.Generics.Types}} struct { _base {{.Interface.Type}}{{.Interface.Generics.Params}} }
{{range $m := .Interface.Methods}}
func (_d {{$decorator}}{{$.Interface.Generics.Params}}) {{$m.Declaration}} { {{$m.Pass "_d._base."}} }
{{end}}
`

// loadSource checks the source package of the module at root.
func loadSource(root string, m *gen.Module, t gen.Target) (*types.Package, types.Type, *types.Interface, error) {
	l := tc.New(root, m.Path)
	p := l.Load(t.PkgPath)
	if p.Err != nil {
		return nil, nil, nil, p.Err
	}
	typ, it, err := tc.Iface(p.Types, t.Iface)
	return p.Types, typ, it, err
}

var posRe = regexp.MustCompile(`^\S+?/(\S+:\d+:\d+: )`)

// compileErr shortens the position of a type error.
func compileErr(err error) string { return posRe.ReplaceAllString(err.Error(), "$1") }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func read(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "(" + err.Error() + ")"
	}
	return string(b)
}

// methodDiff compares the methods declared on a type with those of an interface.
func methodDiff(n *types.Named, it *types.Interface, complete bool) string {
	decl := tc.DeclaredMethods(n)
	var bad []string
	want := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		want[m.Name()] = true
		sig, ok := decl[m.Name()]
		if !ok {
			if complete {
				bad = append(bad, "method "+m.Name()+" is missing")
			}
			continue
		}
		if !types.Identical(sig, m.Type()) {
			bad = append(bad, fmt.Sprintf("method %s is %s, want %s", m.Name(), sig, m.Type()))
		}
	}
	for _, k := range sortedKeys(decl) {
		if !want[k] {
			bad = append(bad, "method "+k+" is not one of the interface")
		}
	}
	return strings.Join(bad, "; ")
}

func numbered(s string) string {
	var b bytes.Buffer
	for i, l := range strings.Split(s, "\n") {
		fmt.Fprintf(&b, "%4d %s\n", i+1, l)
	}
	return b.String()
}

func features(m *gen.Module) []string { return sortedKeys(m.Features) }
