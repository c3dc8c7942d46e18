// Package tc type-checks drawn modules and gowrap's output with go/types.
package tc

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

var (
	once sync.Once
	fset = token.NewFileSet()
	ext  types.Importer

	extFiles = map[string]string{}
)

// Exports writes a map from import path to export data of everything the libs
// module depends on, and tells this process and its children where it is.
func Exports(libsDir, file string) error {
	if os.Getenv("VH_EXPORTS") != "" {
		return nil
	}
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", ".")
	cmd.Dir = libsDir
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list -export: %v\n%s", err, errb.String())
	}
	if err := os.WriteFile(file, out, 0o644); err != nil {
		return err
	}
	return os.Setenv("VH_EXPORTS", file)
}

func extImporter() types.Importer {
	once.Do(func() {
		b, err := os.ReadFile(os.Getenv("VH_EXPORTS"))
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if k, v, ok := strings.Cut(l, " "); ok && v != "" {
				extFiles[k] = v
			}
		}
		ext = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f, ok := extFiles[path]
			if !ok {
				return nil, fmt.Errorf("package %s is not available", path)
			}
			return os.Open(f)
		})
	})
	return ext
}

// Libraries returns the import paths of all packages there is export data for.
func Libraries() []string {
	extImporter()
	var paths []string
	for p := range extFiles {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	return paths
}

// Loader type-checks packages of one module directory. Packages outside of it
// come from the standard library.
type Loader struct {
	Root, ModPath string
	pkgs          map[string]*Pkg
	loading       map[string]bool
}

// Pkg is a checked package.
type Pkg struct {
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
	Names []string
	Err   error
}

// New returns a loader for the module at root.
func New(root, modPath string) *Loader {
	return &Loader{Root: root, ModPath: modPath, pkgs: map[string]*Pkg{}, loading: map[string]bool{}}
}

// Fset is the file set of everything loaded.
func Fset() *token.FileSet { return fset }

// Import implements types.Importer.
func (l *Loader) Import(path string) (*types.Package, error) {
	if path == l.ModPath || strings.HasPrefix(path, l.ModPath+"/") {
		p := l.Load(path)
		if p.Types == nil {
			return nil, p.Err
		}
		return p.Types, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return extImporter().Import(path)
}

// Load parses and checks the package with the import path; all files but _test ones.
func (l *Loader) Load(path string) *Pkg {
	if p, ok := l.pkgs[path]; ok {
		return p
	}
	if l.loading[path] {
		return &Pkg{Err: fmt.Errorf("import cycle through %s", path)}
	}
	if path != l.ModPath && !strings.HasPrefix(path, l.ModPath+"/") {
		p := &Pkg{}
		p.Types, p.Err = l.Import(path)
		return p
	}
	l.loading[path] = true
	dir := filepath.Join(l.Root, strings.TrimPrefix(strings.TrimPrefix(path, l.ModPath), "/"))
	p := l.LoadDir(dir, path)
	l.pkgs[path] = p
	return p
}

// LoadDir checks the files of a directory as package path.
func (l *Loader) LoadDir(dir, path string) *Pkg {
	p := &Pkg{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		p.Err = err
		return p
	}
	var names []string
	for _, e := range ents {
		if !e.IsDir() && strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			if ok, err := build.Default.MatchFile(dir, e.Name()); err == nil && ok {
				names = append(names, filepath.Join(dir, e.Name()))
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		p.Err = fmt.Errorf("no Go files in %s", dir)
		return p
	}
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			p.Err = err
			return p
		}
		p.Files = append(p.Files, f)
		p.Names = append(p.Names, n)
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	var first error
	conf := types.Config{Importer: l, Error: func(e error) {
		if first == nil {
			first = e
		}
	}, GoVersion: "go1.24"}
	tp, err := conf.Check(path, fset, p.Files, info)
	p.Types, p.Info = tp, info
	if first != nil {
		p.Err = first
	} else if err != nil {
		p.Err = err
	}
	return p
}

// Iface returns the named interface of a package and its complete method set.
func Iface(p *types.Package, name string) (types.Type, *types.Interface, error) {
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil, nil, fmt.Errorf("%s is not declared in %s", name, p.Path())
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, nil, fmt.Errorf("%s is not an interface", name)
	}
	it.Complete()
	return o.Type(), it, nil
}

// DeclaredMethods returns the methods declared (not promoted) on a named type.
func DeclaredMethods(n *types.Named) map[string]*types.Signature {
	out := map[string]*types.Signature{}
	for i := 0; i < n.NumMethods(); i++ {
		out[n.Method(i).Name()] = n.Method(i).Type().(*types.Signature)
	}
	return out
}
