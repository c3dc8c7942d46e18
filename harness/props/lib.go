package props

import (
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/tc"
)

// libIfaces are the interfaces of the libraries installed here which can be implemented anywhere.
var libIfaces = sync.OnceValue(func() []gen.LibIface {
	l := tc.New("/nonexistent", "example.com/m")
	var out []gen.LibIface
	for _, path := range tc.Libraries() {
		if strings.Contains("/"+path, "/internal/") || strings.HasSuffix(path, "/internal") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "verif/") {
			continue
		}
		p, err := l.Import(path)
		if err != nil {
			continue
		}
		for _, n := range p.Scope().Names() {
			o, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok || !o.Exported() {
				continue
			}
			it, ok := o.Type().Underlying().(*types.Interface)
			if !ok || !it.IsMethodSet() || it.NumMethods() == 0 {
				continue
			}
			if nt, ok := types.Unalias(o.Type()).(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			li := gen.LibIface{Path: path, Pkg: p.Name(), Name: n, Uses: map[string]string{p.Name(): path}, Std: !strings.Contains(strings.Split(path, "/")[0], ".")}
			ok = true
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				ok = ok && m.Exported() && nameable(m.Type())
				li.Methods = append(li.Methods, m.Name())
				types.TypeString(m.Type(), func(q *types.Package) string {
					if o, ok := li.Uses[q.Name()]; ok && o != q.Path() {
						li.Uses["!"] = q.Name()
					}
					li.Uses[q.Name()] = q.Path()
					return ""
				})
				sig := m.Type().(*types.Signature)
				for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
					for j := 0; j < t.Len(); j++ {
						li.Params = append(li.Params, t.At(j).Name())
					}
				}
			}
			if ok {
				out = append(out, li)
			}
		}
	}
	return out
})

// nameable says whether a type can be written down in another package.
func nameable(t types.Type) bool {
	visible := func(o *types.TypeName) bool {
		if o.Pkg() == nil {
			return true
		}
		return o.Exported() && !strings.Contains("/"+o.Pkg().Path()+"/", "/internal/") && !strings.HasPrefix(o.Pkg().Path(), "vendor/")
	}
	all := func(l *types.TypeList) bool {
		for i := 0; i < l.Len(); i++ {
			if !nameable(l.At(i)) {
				return false
			}
		}
		return true
	}
	switch t := t.(type) {
	case *types.Alias:
		return visible(t.Obj())
	case *types.Named:
		return visible(t.Obj()) && all(t.TypeArgs())
	case *types.Pointer:
		return nameable(t.Elem())
	case *types.Slice:
		return nameable(t.Elem())
	case *types.Array:
		return nameable(t.Elem())
	case *types.Chan:
		return nameable(t.Elem())
	case *types.Map:
		return nameable(t.Key()) && nameable(t.Elem())
	case *types.Signature:
		for _, l := range []*types.Tuple{t.Params(), t.Results()} {
			for i := 0; i < l.Len(); i++ {
				if !nameable(l.At(i).Type()) {
					return false
				}
			}
		}
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !t.Field(i).Exported() || !nameable(t.Field(i).Type()) {
				return false
			}
		}
	case *types.Interface:
		for i := 0; i < t.NumMethods(); i++ {
			if !t.Method(i).Exported() || !nameable(t.Method(i).Type()) {
				return false
			}
		}
	}
	return true
}

// drawLib draws a module with library interfaces.
func drawLib(t *rapid.T, c *DecoCase) *gen.Module {
	if p := os.Getenv("VH_LIB"); rapid.IntRange(0, 99).Draw(t, "library") < 90 && p == "" {
		return nil
	}
	cfg := gen.LibCfg{Qualifiers: map[string]string{"bytes": "bytes", "bufio": "bufio", "list": "container/list", "html": "html", "path": "path", "hex": "encoding/hex", "strconv": "strconv", "embed": "embed"}}
	if c.Template != "full" {
		cfg.NameFilter, cfg.NotOwnName, cfg.Qualifiers = safeParam, true, templateImports
	}
	return gen.DrawLib(t, libIfaces(), cfg)
}

// templateImports are the packages hosted templates import, by their names.
var templateImports = map[string]string{"context": "context", "errors": "errors", "fmt": "fmt", "strings": "strings", "sync": "sync", "atomic": "sync/atomic", "time": "time", "io": "io", "log": "log",
	"prometheus": "github.com/prometheus/client_golang/prometheus", "promauto": "github.com/prometheus/client_golang/prometheus/promauto", "logrus": "github.com/sirupsen/logrus", "twirp": "github.com/twitchtv/twirp",
	"opentracing": "github.com/opentracing/opentracing-go", "apm": "go.elastic.co/apm/v2", "trace": "-", "attribute": "-", "otel": "-"}

// libraryModule makes the libraries known to the module at root.
func libraryModule(e *core.Env, root string, m *gen.Module) error {
	if !m.Libs {
		return nil
	}
	libs := filepath.Join(e.Verif, "harness", "libs")
	mod, err := os.ReadFile(filepath.Join(libs, "go.mod"))
	if err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(libs, "go.sum"))
	if err != nil {
		return err
	}
	s := strings.Replace(string(mod), "module verif/libs", "module "+m.Path, 1)
	s = strings.Replace(s, "=> ./otel", "=> "+filepath.Join(libs, "otel"), 1)
	return writeFiles(root, map[string]string{"go.mod": s, "go.sum": string(sum)})
}
