// Package rtstd holds run-time halves of properties that need only the standard library.
package rtstd

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"time"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// Call of a history.
type Call struct {
	M       int
	Args    int  // seed
	Res     int  // seed
	Outcome int  // 0 returns without an error, 1 with one, 2 panics
	Cancel  bool // the caller's context has a cancel function that is called by the wrapped method
}

// Calls is a history.
type Calls struct{ Calls []Call }

// DrawCalls draws a history of calls of methods satisfying the filter.
func DrawCalls(t *rapid.T, e *rt.Entry, max int, outcomes int, filter func(m *rt.Method) bool) *Calls {
	ms := e.Where(filter)
	if len(ms) == 0 {
		return nil
	}
	c := &Calls{}
	n := rapid.IntRange(1, max).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Calls = append(c.Calls, Call{
			M:       ms[rapid.IntRange(0, len(ms)-1).Draw(t, "m")],
			Args:    rapid.IntRange(0, 1000).Draw(t, "args"),
			Res:     rapid.IntRange(0, 1000).Draw(t, "res"),
			Outcome: rapid.IntRange(0, outcomes-1).Draw(t, "outcome"),
			Cancel:  rapid.Bool().Draw(t, "cancel"),
		})
	}
	return c
}

// Outcome of the wrapped method.
func (c *Call) Results(e *rt.Entry) (res []reflect.Value, panics bool) {
	var err error
	if c.Outcome == 1 {
		err = rt.ErrFor(c.Res)
	}
	return e.ResultsFor(c.M, err, c.Res), c.Outcome == 2
}

// Transparent checks that each call of a history goes through the decorator
// unchanged.
func Transparent(e *rt.Entry, mk func(base ...any) reflect.Value, h *Calls) rt.Result {
	var cur *Call
	var got [][]reflect.Value
	var gotM []int
	var want []reflect.Value
	var cancel context.CancelFunc
	var ctxDone string
	spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
		got, gotM = append(got, a), append(gotM, m)
		if m != cur.M {
			return nil
		}
		if mm := e.Methods[m]; mm.AcceptsCtx && cancel != nil && cur.Cancel {
			ctx := a[0].Interface().(context.Context)
			if ctx == nil {
				ctxDone = "a nil context"
			} else {
				if ctx.Err() != nil {
					ctxDone = "a context that has ended"
				}
				cancel()
				if ctx.Err() == nil {
					ctxDone = "a context that is not cancelled with the caller's one"
				}
			}
		}
		if cur.Outcome == 2 {
			panic(rt.ErrBoom)
		}
		return want
	}))
	d := e.AsIface(mk(spy))
	r := rt.Result{}
	for i := range h.Calls {
		cur = &h.Calls[i]
		m := e.Methods[cur.M]
		got, gotM, ctxDone = nil, nil, ""
		want, _ = cur.Results(e)
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.WithValue(context.Background(), rt.Key{}, i+1))
		args := e.ArgsFor(cur.M, ctx, cur.Args)
		res, pan := e.Invoke(d, cur.M, args)
		cancel()
		bad := func(f string, a ...any) rt.Result {
			return rt.Fail("call %d of %s.%s: %s", i, e.Decorator, m.Name, fmt.Sprintf(f, a...))
		}
		if len(got) != 1 {
			return bad("the wrapped value was called %d times (panic %v)", len(got), pan)
		}
		if gotM[0] != cur.M {
			return bad("the wrapped method %s was called", e.Methods[gotM[0]].Name)
		}
		if s := m.DiffArgs(args, got[0], true); s != "" {
			return bad("%s", s)
		}
		if m.AcceptsCtx {
			c, _ := got[0][0].Interface().(context.Context)
			if c == nil || c.Value(rt.Key{}) != i+1 {
				return bad("the wrapped method got a context not derived from the caller's")
			}
			if ctxDone != "" {
				return bad("the wrapped method got %s", ctxDone)
			}
		}
		switch {
		case cur.Outcome == 2 && pan == nil:
			return bad("the panic of the wrapped method did not reach the caller")
		case cur.Outcome == 2 && !errors.Is(asErr(pan.Val), rt.ErrBoom):
			return bad("the caller got panic %v", pan.Val)
		case cur.Outcome != 2 && pan != nil:
			return bad("panic: %v", pan.Val)
		case cur.Outcome != 2:
			if s := rt.DiffResults(want, res); s != "" {
				return bad("%s", s)
			}
		}
		if len(m.In()) > 0 && cur.Args != 0 || len(m.Out()) > 0 && cur.Res != 0 {
			r.Nontrivial = true
		}
		r.Features = append(r.Features, []string{"returned", "failed", "panicked"}[cur.Outcome])
		if m.Variadic {
			r.Features = append(r.Features, "variadic")
		}
	}
	return r
}

func asErr(x any) error {
	err, _ := x.(error)
	return err
}

// Idle makes a decorator that has no reason to interfere.
func Idle(e *rt.Entry, base ...any) reflect.Value {
	switch e.Template {
	case "log":
		return rt.Make(e.New, base[0], discard{}, discard{})
	case "circuitbreaker":
		return rt.Make(e.New, base[0], 1000, time.Hour)
	case "fallback":
		return rt.Make(e.New, time.Hour, base[0])
	case "ratelimit":
		return rt.Make(e.New, base[0], 1000, 0.001)
	case "retry":
		return rt.Make(e.New, base[0], 0, time.Hour)
	case "timeout":
		return rt.Make(e.New, base[0], e.Extra["Config"])
	case "elasticapm":
		// labels are of no concern to the caller, sampled or not
		if o := e.Extra["WithUsingSetLabel"]; o != nil && len(e.Methods)%2 == 0 {
			return rt.Make(e.New, base[0], rt.Make(o).Interface())
		}
	}
	// robinpool, syncpool, validate
	return rt.Make(e.New, base...)
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
