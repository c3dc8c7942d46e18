//go:build go1.25

package rtsync

import (
	"context"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// TimeoutCall is a call through a timeout decorator.
type TimeoutCall struct {
	M, Args, Res int
	Start        int // slots after the start of the group
	Dur          int // slots
	Honours      bool
	Outcome      int
	Cancel       int // slots after the call begins, 0 for never, -1 for before
	Deadline     int // slots after the call begins, 0 for none
}

// TimeoutCase is a history: calls of a group overlap.
type TimeoutCase struct {
	Timeouts map[string]int // slots by method, 0 for none
	Groups   [][]TimeoutCall
}

// C25 checks timeout.
var C25 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		c := &TimeoutCase{Timeouts: map[string]int{}}
		ctxs := e.Where(func(m *rt.Method) bool { return m.AcceptsCtx })
		if len(ctxs) == 0 {
			return nil
		}
		for _, m := range ctxs {
			if n := rapid.IntRange(0, 8).Draw(t, "timeout"); n > 0 {
				c.Timeouts[e.Methods[m].Name] = n
			}
		}
		for g, n := 0, rapid.IntRange(1, 3).Draw(t, "groups"); g < n; g++ {
			var calls []TimeoutCall
			for _, m := range rapid.Permutation(indices(len(e.Methods))).Draw(t, "methods")[:rapid.IntRange(1, min(3, len(e.Methods))).Draw(t, "size")] {
				x := TimeoutCall{M: m, Args: rapid.IntRange(0, 100).Draw(t, "args"), Res: rapid.IntRange(0, 100).Draw(t, "res"), Start: rapid.IntRange(0, 6).Draw(t, "start"),
					Dur: rapid.IntRange(0, 12).Draw(t, "dur"), Honours: rapid.Bool().Draw(t, "honours"), Outcome: rapid.IntRange(ok, panics).Draw(t, "outcome")}
				if e.Methods[m].AcceptsCtx {
					if rapid.IntRange(0, 2).Draw(t, "cancelled") == 2 {
						x.Cancel = rapid.IntRange(-1, 10).Draw(t, "cancel")
					}
					if rapid.IntRange(0, 2).Draw(t, "limited") == 2 {
						x.Deadline = rapid.IntRange(1, 10).Draw(t, "deadline")
					}
				}
				calls = append(calls, x)
			}
			c.Groups = append(c.Groups, calls)
		}
		return c
	},
	New:   func() any { return &TimeoutCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkTimeout(t, e, s.(*TimeoutCase)) },
}

func checkTimeout(t *testing.T, e *rt.Entry, c *TimeoutCase) rt.Result {
	const never = time.Duration(1 << 62)
	cfg := e.Extra["Config"]
	for m, n := range c.Timeouts {
		cfg = e.Extra["SetTimeout"].(func(any, string, int64) any)(cfg, m, int64(time.Duration(n)*slot+2*time.Millisecond))
		if cfg == nil {
			return rt.Fail("the configuration of %s has no timeout for %s", e.Decorator, m)
		}
	}
	type obs struct {
		n           int
		called, ret time.Duration
		parent      context.Context
		args        []reflect.Value
		diff        string
		same        bool // context
		value       any
		deadline    time.Duration
		ended       time.Duration // of the context
		entryErr    error
		res, want   []reflect.Value
		pan         *rt.Panicked
	}
	var all [][]*obs
	left := bubble(t, func() {
		clk := newClock()
		var mu sync.Mutex
		active := map[int]*obs{}
		plan := map[int]*TimeoutCall{}
		spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			mm := e.Methods[m]
			mu.Lock()
			o, x := active[m], plan[m]
			o.n++
			o.diff = mm.DiffArgs(o.args, a, true)
			o.want = results(e, m, x.Res, x.Outcome)
			want := o.want
			if mm.AcceptsCtx {
				ctx := a[0].Interface().(context.Context)
				o.same = ctx == o.parent
				o.value = ctx.Value(rt.Key{})
				o.deadline, o.ended = never, never
				if d, ok := ctx.Deadline(); ok {
					o.deadline = d.Sub(clk.base)
				}
				o.entryErr = ctx.Err()
				go func() {
					<-ctx.Done()
					mu.Lock()
					o.ended = clk.now()
					mu.Unlock()
				}()
			}
			mu.Unlock()
			over := time.After(time.Duration(x.Dur)*slot + time.Millisecond)
			if mm.AcceptsCtx && x.Honours {
				select {
				case <-over:
				case <-a[0].Interface().(context.Context).Done():
				}
			} else {
				<-over
			}
			if x.Outcome == panics {
				panic(rt.ErrBoom)
			}
			return want
		}))
		d := e.AsIface(rt.Make(e.New, spy, cfg))
		for _, g := range c.Groups {
			var os []*obs
			var wg sync.WaitGroup
			var cancels []context.CancelFunc
			base := clk.now()
			for i := range g {
				x := &g[i]
				o := &obs{}
				os = append(os, o)
				mu.Lock()
				active[x.M], plan[x.M] = o, x
				mu.Unlock()
				start := base + time.Duration(x.Start)*slot
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), rt.Key{}, x.Res+i))
				if x.Cancel < 0 {
					cancel()
				} else if x.Cancel > 0 {
					time.AfterFunc(start+time.Duration(x.Cancel)*slot+4*time.Millisecond-clk.now(), cancel)
				}
				cancels = append(cancels, cancel)
				if x.Deadline > 0 {
					ctx, cancel = context.WithDeadline(ctx, clk.base.Add(start+time.Duration(x.Deadline)*slot+5*time.Millisecond))
					cancels = append(cancels, cancel)
				}
				o.parent = ctx
				o.args = e.ArgsFor(x.M, ctx, x.Args)
				wg.Add(1)
				go func() {
					defer wg.Done()
					clk.until(start)
					o.called = clk.now()
					o.res, o.pan = e.Invoke(d, x.M, o.args)
					o.ret = clk.now()
				}()
			}
			wg.Wait()
			time.Sleep(40 * slot)
			for _, c := range cancels {
				c()
			}
			time.Sleep(slot)
			all = append(all, os)
		}
	})
	if left != "" {
		return rt.Fail("calls or goroutines do not end: %s", left)
	}
	r := rt.Result{}
	for gi, g := range c.Groups {
		for i := range g {
			x, o := &g[i], all[gi][i]
			m := e.Methods[x.M]
			timeout := never
			if n := c.Timeouts[m.Name]; n > 0 {
				timeout = time.Duration(n)*slot + 2*time.Millisecond
			}
			show := func(d time.Duration) string {
				if d == never {
					return "never"
				}
				return d.String()
			}
			bad := func(f string, a ...any) rt.Result {
				return rt.Fail("call of %s.%s at %v (timeout %s), returned at %v: %s", e.Decorator, m.Name, o.called, show(timeout), o.ret, fmt.Sprintf(f, a...))
			}
			if o.n != 1 {
				return bad("reached the wrapped value %d times (%v)", o.n, o.pan)
			}
			if o.diff != "" {
				return bad("%s", o.diff)
			}
			ret := o.called + time.Duration(x.Dur)*slot + time.Millisecond
			if m.AcceptsCtx {
				if o.value != any(x.Res+i) {
					return bad("the context is not derived from that of the caller")
				}
				deadline, ended := never, never
				if x.Deadline > 0 {
					deadline = o.called + time.Duration(x.Deadline)*slot + 5*time.Millisecond
				}
				switch {
				case x.Cancel < 0:
					ended = o.called
				case x.Cancel > 0:
					ended = o.called + time.Duration(x.Cancel)*slot + 4*time.Millisecond
				}
				if timeout != never {
					deadline = min(deadline, o.called+timeout)
				} else if !o.same {
					return bad("the context was replaced though there is no timeout")
				}
				if o.deadline != deadline {
					return bad("the deadline is %s, want %s", show(o.deadline), show(deadline))
				}
				ended = min(ended, deadline)
				if x.Honours {
					ret = min(ret, max(ended, o.called))
				}
				if timeout != never {
					r.Nontrivial = true
					if ended > ret {
						r.Features = append(r.Features, "in time")
					}
					ended = min(ended, ret)
				}
				if (o.entryErr != nil) != (ended == o.called) {
					return bad("the context has error %v when the wrapped method is called", o.entryErr)
				}
				if ended == never {
					// the caller's context, which ends after the call
					if o.ended < ret+slot {
						return bad("the context ended at %s", show(o.ended))
					}
				} else if o.ended != ended {
					return bad("the context ended at %s, want %s", show(o.ended), show(ended))
				}
				if timeout != never && ended == o.called+timeout {
					r.Features = append(r.Features, "timed out")
				}
			}
			if o.ret != ret {
				return bad("it had to return at %v", ret)
			}
			if x.Outcome == panics {
				if o.pan == nil || o.pan.Val != any(rt.ErrBoom) {
					return bad("the panic was lost (%v)", o.pan)
				}
				continue
			}
			if o.pan != nil {
				return bad("panic %v", o.pan.Val)
			}
			if s := rt.DiffResults(o.want, o.res); s != "" {
				return bad("%s", s)
			}
		}
	}
	return r
}
