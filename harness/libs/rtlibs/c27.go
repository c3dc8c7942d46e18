package rtlibs

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/twitchtv/twirp"
	"pgregory.net/rapid"

	"verif/libs/rt"
)

// TwirpCall is a call of a method that may return twirp errors.
type TwirpCall struct {
	M, Args, Res int
	Outcome      int // 0 success, 1 plain error, 2 panic, 3 twirp error, 4 wrapping twirp error, 5 own type of twirp error
	Code         int
	Message      string
	Meta         map[string]string
}

// TwirpCase is a history.
type TwirpCase struct{ Calls []TwirpCall }

// ownErr is a twirp error of another type.
type ownErr struct {
	code twirp.ErrorCode
	msg  string
	meta map[string]string
}

func (e ownErr) Code() twirp.ErrorCode      { return e.code }
func (e ownErr) Msg() string                { return e.msg }
func (e ownErr) Meta(k string) string       { return e.meta[k] }
func (e ownErr) MetaMap() map[string]string { return e.meta }
func (e ownErr) Error() string              { return "own " + e.msg }
func (e ownErr) WithMeta(k, v string) twirp.Error {
	m := map[string]string{k: v}
	for a, b := range e.meta {
		if a != k {
			m[a] = b
		}
	}
	return ownErr{e.code, e.msg, m}
}

var twirpCodes = []twirp.ErrorCode{twirp.NotFound, twirp.Internal, twirp.InvalidArgument, twirp.Canceled, twirp.Unknown, twirp.PermissionDenied}

// C27 checks twirp_error.
var C27 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		if len(e.Methods) == 0 {
			return nil
		}
		c := &TwirpCase{}
		errs := e.Where(func(m *rt.Method) bool { return m.ReturnsErr && len(m.In()) > 0 })
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			x := TwirpCall{M: rapid.IntRange(0, len(e.Methods)-1).Draw(t, "m"), Args: rapid.IntRange(0, 1000).Draw(t, "args"), Res: rapid.IntRange(0, 1000).Draw(t, "res"), Outcome: rapid.IntRange(0, 5).Draw(t, "outcome"),
				Code: rapid.IntRange(0, len(twirpCodes)-1).Draw(t, "code"), Message: rapid.SampledFrom([]string{"bad", "", "100%d", "line\nbreak"}).Draw(t, "message")}
			if len(errs) > 0 && rapid.IntRange(0, 3).Draw(t, "any") > 0 {
				x.M = errs[rapid.IntRange(0, len(errs)-1).Draw(t, "err method")]
			}
			if rapid.Bool().Draw(t, "meta") {
				x.Meta = rapid.MapOfN(rapid.SampledFrom([]string{"a", "b", "Request", "method"}), rapid.SampledFrom([]string{"", "x", "{}"}), 1, 3).Draw(t, "meta values")
			}
			if rapid.IntRange(0, 5).Draw(t, "before") == 5 {
				x.Meta = map[string]string{"request": "an older one"}
			}
			c.Calls = append(c.Calls, x)
		}
		return c
	},
	New:   func() any { return &TwirpCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkTwirp(e, s.(*TwirpCase)) },
}

func checkTwirp(e *rt.Entry, c *TwirpCase) rt.Result {
	var got [][]reflect.Value
	var want []reflect.Value
	boom := false
	cur := 0
	d := e.AsIface(rt.Make(e.New, e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
		if m != cur {
			got = append(got, nil)
			return e.ResultsFor(m, nil, 0)
		}
		got = append(got, a)
		if boom {
			panic(rt.ErrBoom)
		}
		return want
	}))))
	r := rt.Result{}
	for i, x := range c.Calls {
		m := e.Methods[x.M]
		args := e.ArgsFor(x.M, context.WithValue(context.Background(), rt.Key{}, i), x.Args)
		bad := func(f string, a ...any) rt.Result {
			return rt.Fail("call %d of %s.%s: %s", i, e.Decorator, m.Name, fmt.Sprintf(f, a...))
		}
		orig := errors.New(x.Message)
		var err error
		var te twirp.Error
		switch x.Outcome {
		case 1:
			err = orig
		case 3, 4:
			te = twirp.NewError(twirpCodes[x.Code], x.Message)
			for k, v := range x.Meta {
				te = te.WithMeta(k, v)
			}
			if x.Outcome == 4 {
				te = twirp.WrapError(te, orig)
			}
			err = te
		case 5:
			te = ownErr{twirpCodes[x.Code], x.Message, x.Meta}
			err = te
		}
		want, boom, cur, got = e.ResultsFor(x.M, err, x.Res), x.Outcome == 2, x.M, nil
		// requests in JSON
		var reqs []string
		for k, a := range args {
			if k == 0 && m.AcceptsCtx {
				continue
			}
			b, err := json.Marshal(a.Interface())
			if err != nil {
				b = nil
			}
			reqs = append(reqs, string(b))
		}
		res, pan := e.Invoke(d, x.M, args)
		if len(got) != 1 || got[0] == nil {
			return bad("%d calls reached the wrapped value", len(got))
		}
		if s := m.DiffArgs(args, got[0], false); s != "" {
			return bad("%s", s)
		}
		if boom {
			if pan == nil || pan.Val != any(rt.ErrBoom) {
				return bad("the panic was lost (%v)", pan)
			}
			continue
		}
		if pan != nil {
			return bad("panic %v", pan.Val)
		}
		if !m.ReturnsErr || err == nil {
			if s := rt.DiffResults(want, res); s != "" {
				return bad("%s", s)
			}
			continue
		}
		n := len(want) - 1
		if s := rt.DiffResults(want[:n], res[:n]); s != "" {
			return bad("%s", s)
		}
		if len(reqs) == 0 {
			// there is no request
			if err := m.ErrOf(res); err == nil {
				return bad("the error was lost")
			}
			continue
		}
		out, ok := m.ErrOf(res).(twirp.Error)
		if !ok {
			return bad("returned %v, which is not a twirp error", m.ErrOf(res))
		}
		r.Nontrivial = true
		found := false
		for _, q := range reqs {
			found = found || q == out.Meta("request")
		}
		if _, ok := out.MetaMap()["request"]; !ok || !found {
			return bad("the request in the metadata is %q, want one of %q", out.Meta("request"), reqs)
		}
		if te == nil {
			r.Features = append(r.Features, "plain error")
			if out.Code() != twirp.Internal || !errors.Is(out, orig) || out.Msg() != x.Message {
				return bad("returned %v, not an internal error wrapping %q", out, x.Message)
			}
			continue
		}
		r.Features = append(r.Features, "twirp error")
		if out.Code() != te.Code() || out.Msg() != te.Msg() {
			return bad("returned %q %q, the wrapped method %q %q", out.Code(), out.Msg(), te.Code(), te.Msg())
		}
		if x.Outcome == 4 && !errors.Is(out, orig) {
			return bad("the error does not wrap what that of the wrapped method did")
		}
		for k, v := range x.Meta {
			if k != "request" && out.Meta(k) != v {
				return bad("metadata %s is %q, want %q", k, out.Meta(k), v)
			}
		}
	}
	return r
}
