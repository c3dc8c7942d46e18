package rtlibs

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/twitchtv/twirp"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	"verif/libs/rt"
)

// ValCall is a call with arguments that can be validated.
type ValCall struct {
	M, Args, Res int
	Fail         int // which of them fails, counted among those that can be validated; -1 for none
	Message      string
	Outcome      int // of the wrapped method: 0 success, 1 error, 2 panic
}

// ValCase is a history.
type ValCase struct{ Calls []ValCall }

type validator interface{ Validate() error }

var validatorT = reflect.TypeFor[validator]()

// valArgs makes arguments, many of which can be validated.
func valArgs(e *rt.Entry, m int, ctx context.Context, seed int) []reflect.Value {
	args := e.ArgsFor(m, ctx, seed)
	r := rt.NewRand(seed + 77)
	of := func(t reflect.Type) reflect.Value {
		var xs []reflect.Value
		for _, k := range []string{"TReq", "TPReq", "TVText", "TVList"} {
			xt := reflect.TypeOf(e.Extra[k])
			if k == "TPReq" || k == "TReq" && r.N(2) == 0 {
				xt = reflect.PointerTo(xt)
			}
			v := e.Value(xt, 1+r.N(1000))
			if xt.Kind() == reflect.Pointer && v.IsNil() {
				v = reflect.New(xt.Elem())
			}
			if xt.AssignableTo(t) {
				xs = append(xs, v)
			}
		}
		if len(xs) == 0 {
			return reflect.Value{}
		}
		return xs[r.N(len(xs))]
	}
	treq := reflect.TypeOf(e.Extra["TReq"])
	for i, t := range e.Methods[m].In() {
		if i == 0 && e.Methods[m].AcceptsCtx {
			continue
		}
		switch {
		case t == reflect.PointerTo(treq) && args[i].IsNil():
			args[i] = reflect.New(treq)
		case t.Kind() == reflect.Interface && (t.Implements(validatorT) || r.N(2) == 0):
			if v := of(t); v.IsValid() {
				x := reflect.New(t).Elem()
				x.Set(v)
				args[i] = x
			}
		}
	}
	return args
}

// C26 checks the validating decorators.
var C26 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		if len(e.Methods) == 0 {
			return nil
		}
		c := &ValCase{}
		errs := e.Where(func(m *rt.Method) bool { return m.ReturnsErr && len(m.In()) > 0 })
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			x := ValCall{M: rapid.IntRange(0, len(e.Methods)-1).Draw(t, "m"), Args: rapid.IntRange(0, 1000).Draw(t, "args"), Res: rapid.IntRange(0, 1000).Draw(t, "res"), Outcome: rapid.IntRange(0, 2).Draw(t, "outcome"),
				Fail: rapid.IntRange(-1, 3).Draw(t, "fail"), Message: rapid.SampledFrom([]string{"bad", "", "100%d", "line\nbreak", "ünï \"q\""}).Draw(t, "message")}
			if len(errs) > 0 && rapid.IntRange(0, 3).Draw(t, "any") > 0 {
				x.M = errs[rapid.IntRange(0, len(errs)-1).Draw(t, "err method")]
			}
			c.Calls = append(c.Calls, x)
		}
		return c
	},
	New:   func() any { return &ValCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkValidate(e, s.(*ValCase)) },
}

func checkValidate(e *rt.Entry, c *ValCase) rt.Result {
	hook, ok := e.Extra["ValidateHook"].(*func(any) error)
	if !ok {
		return rt.Result{Discard: "no types to validate"}
	}
	quiet := func(any) error { return nil }
	*hook = quiet
	defer func() { *hook = quiet }()
	var got [][]reflect.Value
	var want []reflect.Value
	boom := false
	cur := 0
	d := e.AsIface(rt.Make(e.New, e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
		if m != cur {
			got = append(got, nil)
			return e.ResultsFor(m, nil, 0)
		}
		got = append(got, a)
		if boom {
			panic(rt.ErrBoom)
		}
		return want
	}))))
	r := rt.Result{}
	for i, x := range c.Calls {
		m := e.Methods[x.M]
		ctx := context.WithValue(context.Background(), rt.Key{}, i)
		args := valArgs(e, x.M, ctx, x.Args)
		bad := func(f string, a ...any) rt.Result {
			return rt.Fail("call %d of %s.%s (%s): %s", i, e.Decorator, m.Name, e.Template, fmt.Sprintf(f, a...))
		}
		// what has to be validated
		var subjects []any
		odd := false
		if m.ReturnsErr {
			for k, a := range args {
				if k == 0 && m.AcceptsCtx {
					continue
				}
				if v, ok := a.Interface().(validator); ok {
					*hook = func(v any) error {
						subjects = append(subjects, v)
						return nil
					}
					func() {
						defer func() { odd = odd || recover() != nil }()
						v.Validate()
					}()
				}
			}
		}
		if odd {
			continue // a method promoted from a nil pointer
		}
		fail := x.Fail
		if fail >= len(subjects) {
			fail = -1
		}
		verr := errors.New(x.Message)
		var seen []any
		*hook = func(v any) error {
			seen = append(seen, v)
			if len(seen)-1 == fail {
				return verr
			}
			return nil
		}
		var err error
		if x.Outcome == 1 {
			err = rt.ErrFor(x.Res)
		}
		want, boom, cur, got = e.ResultsFor(x.M, err, x.Res), x.Outcome == 2, x.M, nil
		res, pan := e.Invoke(d, x.M, args)
		*hook = quiet
		if m.ReturnsErr {
			expected := len(subjects)
			if fail >= 0 {
				expected = fail + 1
			}
			if len(seen) != expected {
				return bad("%d arguments were validated, want %d of %d (the failing one is %d)", len(seen), expected, len(subjects), fail)
			}
			for k, v := range seen {
				a, b := reflect.ValueOf(subjects[k]), reflect.ValueOf(v)
				if !rt.Same(a, b) {
					return bad("validated %s as number %d, want %s", rt.Show(b), k, rt.Show(a))
				}
			}
			if len(seen) > 0 {
				r.Nontrivial = true
				r.Features = append(r.Features, fmt.Sprintf("validated:%d", len(seen)))
			}
		}
		if fail >= 0 {
			r.Features = append(r.Features, "rejected")
			if len(got) != 0 {
				return bad("the wrapped method was called though argument %d is not valid", fail)
			}
			if pan != nil {
				return bad("panic %v", pan.Val)
			}
			err := m.ErrOf(res)
			switch e.Template {
			case "validate":
				if err != verr {
					return bad("returned %v, not the error of Validate, %v", err, verr)
				}
			case "grpc_validate":
				s, ok := status.FromError(err)
				if !ok || s.Code() != codes.InvalidArgument || s.Message() != x.Message {
					return bad("returned %v, not an InvalidArgument status with the message %q", err, x.Message)
				}
			case "twirp_validate":
				te, ok := err.(twirp.Error)
				if !ok || te.Code() != twirp.InvalidArgument || te.Msg() != x.Message {
					return bad("returned %v, not an InvalidArgument error with the message %q", err, x.Message)
				}
			}
			continue
		}
		if len(got) != 1 {
			return bad("%d calls reached the wrapped value", len(got))
		}
		if got[0] == nil {
			return bad("another method was called")
		}
		if s := m.DiffArgs(args, got[0], false); s != "" {
			return bad("%s", s)
		}
		if boom {
			if pan == nil || pan.Val != any(rt.ErrBoom) {
				return bad("the panic was lost (%v)", pan)
			}
			continue
		}
		if pan != nil {
			return bad("panic %v", pan.Val)
		}
		if s := rt.DiffResults(want, res); s != "" {
			return bad("%s", s)
		}
	}
	return r
}
