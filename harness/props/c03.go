package props

import (
	"fmt"
	"go/types"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/tc"
)

// typeArgs are candidate type arguments.
func typeArgs(src *types.Package) []types.Type {
	basic := func(k types.BasicKind) types.Type { return types.Typ[k] }
	out := []types.Type{basic(types.Int), basic(types.String), basic(types.Float64), types.NewSlice(basic(types.Int)), types.NewSlice(basic(types.String)), types.NewSlice(basic(types.Byte)),
		types.NewMap(basic(types.String), basic(types.Bool)), types.NewSignatureType(nil, nil, nil, nil, nil, false), types.Universe.Lookup("error").Type()}
	for _, n := range []string{"TStruct", "TNamed"} {
		if o := src.Scope().Lookup(n); o != nil {
			out = append(out, o.Type(), types.NewPointer(o.Type()), types.NewSlice(o.Type()))
		}
	}
	return out
}

func tparamString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func checkGeneric(e *core.Env, c *DecoCase) core.Result {
	t := c.M.Targets[0]
	r := core.Result{Nontrivial: true, Key: c.sample(), Features: features(c.M), Sample: c.sample()}
	must(writeFiles(e.Scratch, c.M.Files))
	if _, _, _, err := loadSource(e.Scratch, c.M, t); err != nil {
		r.Discard = "invalid source"
		return r
	}
	out, err, pan := c.generate(e, fullTemplate)
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("%s\ninterface %s, output %s/%s\n%s\n-- output --\n%s", fmt.Sprintf(f, a...), t.Iface, t.DstDir, t.DstFile, c.M.Render(), numbered(read(out)))
		return r
	}
	if pan != "" {
		return bad("gowrap panicked: %s", pan)
	}
	if err != nil {
		return bad("gowrap refuses a supported interface: %s", errLine(err))
	}
	l := tc.New(e.Scratch, c.M.Path)
	dp := l.Load(c.M.Path + "/" + t.DstDir)
	if dp.Err != nil {
		return bad("the generated code does not compile: %s", compileErr(dp.Err))
	}
	sp := l.Load(t.PkgPath)
	src := sp.Types.Scope().Lookup(t.Iface).Type().(*types.Named)
	o := dp.Types.Scope().Lookup(c.decorator())
	if o == nil {
		return bad("decorator %s is not declared", c.decorator())
	}
	dec := o.Type().(*types.Named)
	st, dt := src.TypeParams(), dec.TypeParams()
	if st.Len() != dt.Len() {
		return bad("the decorator has %d type parameters, the interface %d", dt.Len(), st.Len())
	}
	for i := 0; i < st.Len(); i++ {
		a, b := st.At(i), dt.At(i)
		if a.Obj().Name() != b.Obj().Name() {
			return bad("type parameter %d is named %s, want %s", i, b.Obj().Name(), a.Obj().Name())
		}
		if !types.Identical(a.Constraint(), b.Constraint()) && tparamString(a.Constraint()) != tparamString(b.Constraint()) &&
			!types.Identical(a.Constraint().Underlying(), b.Constraint().Underlying()) {
			return bad("constraint of %s is %s, want %s", a.Obj().Name(), tparamString(b.Constraint()), tparamString(a.Constraint()))
		}
	}
	if st.Len() == 0 {
		it := src.Underlying().(*types.Interface)
		if !types.Implements(dec, it) {
			return bad("the decorator does not implement the interface")
		}
		if d := methodDiff(dec, it, true); d != "" {
			return bad("%s", d)
		}
		return r
	}
	cand := typeArgs(sp.Types)
	idx := make([]int, st.Len())
	tried, valid := 0, 0
	for {
		args := make([]types.Type, st.Len())
		var names []string
		for i := range args {
			args[i] = cand[idx[i]]
			names = append(names, args[i].String())
		}
		si, serr := types.Instantiate(nil, src, args, true)
		di, derr := types.Instantiate(nil, dec, args, true)
		tried++
		if (serr == nil) != (derr == nil) {
			return bad("type arguments %s: interface: %v, decorator: %v", strings.Join(names, ", "), serr, derr)
		}
		if serr == nil {
			valid++
			it := si.Underlying().(*types.Interface)
			if !types.Implements(di, it) {
				m, wrong := types.MissingMethod(di, it, true)
				return bad("decorator[%s] does not implement the interface: method %s (wrong type: %v)", strings.Join(names, ", "), m.Name(), wrong)
			}
			if n := types.NewMethodSet(di).Len(); n != it.NumMethods() {
				return bad("decorator[%s] has %d methods, the interface %d", strings.Join(names, ", "), n, it.NumMethods())
			}
		}
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(cand) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			break
		}
	}
	r.Features = append(r.Features, fmt.Sprintf("valid instantiations: %d+", min(valid, 10)/5*5))
	return r
}

func init() {
	register(&core.Prop{
		ID: "C03",
		Rule: "rapid draws modules whose target has 1-3 type parameters (grouped or not, constraints: any, comparable, unions, approximations, local, imported, interface literals, ones that mention other type " +
			"parameters) or embeds instances of generic interfaces; a bare generic decorator is generated and, for every combination of about 15 type arguments, go/types must accept the instantiation for the decorator " +
			"exactly when it does for the interface, and the instance must implement the instantiated interface with no other methods. Every case is non-trivial.",
		Quick: 500, Deep: 12000,
		Setup: setupExports,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &DecoCase{Template: "full"}
			cfg := gen.Cfg{Generics: true, GenericTarget: true, Embeds: true, MultiFile: true, UnexportedOK: true, StdRich: true, Comments: true, MaxDepth: 2, MaxMethods: 3}
			if rapid.IntRange(0, 3).Draw(t, "plainTarget") == 3 {
				cfg.GenericTarget, cfg.MoreEmbeds = false, true
			}
			c.M = gen.Draw(t, cfg)
			drawInvocation(t, c)
			return c
		},
		New:         func() any { return &DecoCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkGeneric(e, x.(*DecoCase)) },
		Assumptions: []string{"go/types implements the Go specification", "aliases of instantiated generic interfaces are not drawn (gowrap refuses them)"},
	})
}
