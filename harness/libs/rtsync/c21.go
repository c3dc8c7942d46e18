//go:build go1.25

package rtsync

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// FallbackImpl is what an implementation does in a call.
type FallbackImpl struct {
	Dur     int  // tenths of the interval
	Outcome int  // ok or fails
	Honours bool // returns when its context ends
}

// FallbackCall is a call through a fallback decorator.
type FallbackCall struct {
	M, Args, Res int
	Start        int // tenths of the interval after the start of the group
	Cancel       int // tenths of the interval after the start of the call, 0 for never, -1 for before the call
	Deadline     bool
	Impls        []FallbackImpl
}

// FallbackCase is a history: calls of a group overlap.
type FallbackCase struct {
	N        int
	Interval int // in slots
	Groups   [][]FallbackCall
}

// C21 checks fallback.
var C21 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		if len(e.Methods) == 0 {
			return nil
		}
		c := &FallbackCase{N: rapid.IntRange(1, 5).Draw(t, "impls"), Interval: rapid.IntRange(1, 3).Draw(t, "interval")}
		for g, n := 0, rapid.IntRange(1, 3).Draw(t, "groups"); g < n; g++ {
			ms := rapid.Permutation(indices(len(e.Methods))).Draw(t, "methods")
			ms = ms[:rapid.IntRange(1, min(2, len(ms))).Draw(t, "size")]
			var calls []FallbackCall
			for _, m := range ms {
				x := FallbackCall{M: m, Args: rapid.IntRange(0, 100).Draw(t, "args"), Res: rapid.IntRange(0, 100).Draw(t, "res"), Start: rapid.IntRange(0, 12).Draw(t, "start")}
				if e.Methods[m].AcceptsCtx && rapid.IntRange(0, 2).Draw(t, "cancelled") == 2 {
					x.Cancel = rapid.IntRange(-1, 45).Draw(t, "cancel")
					x.Deadline = rapid.Bool().Draw(t, "deadline")
				}
				for i := 0; i < c.N; i++ {
					p := FallbackImpl{Dur: rapid.IntRange(0, 25).Draw(t, "dur")}
					if e.Methods[m].ReturnsErr && rapid.IntRange(0, 3).Draw(t, "fails") > 0 {
						p.Outcome = fails
					}
					if e.Methods[m].AcceptsCtx {
						p.Honours = rapid.Bool().Draw(t, "honours")
					}
					x.Impls = append(x.Impls, p)
				}
				calls = append(calls, x)
			}
			c.Groups = append(c.Groups, calls)
		}
		return c
	},
	New:   func() any { return &FallbackCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkFallback(t, e, s.(*FallbackCase)) },
}

type implObs struct {
	n          int
	start, end time.Duration
	res        []reflect.Value
	diff       string
	value      any           // what the context carries
	ended      time.Duration // of its context
}

type fallbackObs struct {
	impls       []implObs
	args        []reflect.Value
	called, ret time.Duration
	returned    bool
	res         []reflect.Value
	pan         *rt.Panicked
	stray       string
	ctxErr      error
}

func checkFallback(t *testing.T, e *rt.Entry, c *FallbackCase) rt.Result {
	interval := time.Duration(c.Interval) * slot
	tenth := interval / 10
	var obs [][]*fallbackObs
	stray := ""
	left := bubble(t, func() {
		clk := newClock()
		var mu sync.Mutex
		active := map[int]*fallbackObs{}
		plan := map[int]*FallbackCall{}
		var pool []any
		for i := 0; i < c.N; i++ {
			pool = append(pool, e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
				mm := e.Methods[m]
				mu.Lock()
				o, p := active[m], plan[m]
				if o == nil {
					stray = mm.Name + " was called, when no call of it was going on"
					mu.Unlock()
					return e.ResultsFor(m, nil, 0)
				}
				x, b := p.Impls[i], &o.impls[i]
				if o.returned && clk.now() > o.ret {
					o.stray = fmt.Sprintf("implementation %d was called at %v, after the call had returned", i, clk.now())
				}
				b.n++
				b.start = clk.now()
				b.diff = mm.DiffArgs(o.args, a, true)
				b.res = results(e, m, p.Res*8+i, x.Outcome)
				res := b.res
				mu.Unlock()
				over := time.After(time.Duration(x.Dur)*tenth + time.Microsecond<<i)
				if !mm.AcceptsCtx {
					<-over
				} else {
					ctx := a[0].Interface().(context.Context)
					mu.Lock()
					b.value = ctx.Value(rt.Key{})
					mu.Unlock()
					go func() {
						<-ctx.Done()
						mu.Lock()
						b.ended = clk.now()
						mu.Unlock()
					}()
					if x.Honours {
						select {
						case <-over:
						case <-ctx.Done():
							time.Sleep(time.Microsecond << i)
							if mm.ReturnsErr {
								res = e.ResultsFor(m, ctx.Err(), 0)
							}
						}
					} else {
						<-over
					}
				}
				mu.Lock()
				b.end = clk.now()
				mu.Unlock()
				return res
			})))
		}
		d := e.AsIface(rt.Make(e.New, append([]any{interval}, pool...)...))
		for _, g := range c.Groups {
			var os []*fallbackObs
			var wg sync.WaitGroup
			base := clk.now()
			var cancels []context.CancelFunc
			for i := range g {
				x := &g[i]
				o := &fallbackObs{impls: make([]implObs, c.N)}
				os = append(os, o)
				mu.Lock()
				active[x.M], plan[x.M] = o, x
				mu.Unlock()
				start := base + time.Duration(x.Start)*tenth
				ctx := context.WithValue(context.Background(), rt.Key{}, x.Res+i)
				var cancel context.CancelFunc
				end := start + time.Duration(x.Cancel)*tenth + 500*time.Microsecond
				switch {
				case x.Cancel == 0:
					ctx, cancel = context.WithCancel(ctx)
				case x.Cancel < 0:
					ctx, cancel = context.WithCancel(ctx)
					cancel()
				case x.Deadline:
					ctx, cancel = context.WithTimeout(ctx, end-clk.now())
				default:
					ctx, cancel = context.WithCancel(ctx)
					time.AfterFunc(end-clk.now(), cancel)
				}
				cancels = append(cancels, cancel)
				o.args = e.ArgsFor(x.M, ctx, x.Args)
				wg.Add(1)
				go func() {
					defer wg.Done()
					clk.until(start)
					o.called = clk.now()
					res, pan := e.Invoke(d, x.M, o.args)
					mu.Lock()
					o.res, o.pan, o.ret, o.returned = res, pan, clk.now(), true
					o.ctxErr = ctx.Err()
					mu.Unlock()
				}()
			}
			wg.Wait()
			time.Sleep(20 * interval)
			for _, c := range cancels {
				c()
			}
			time.Sleep(interval)
			obs = append(obs, os)
			mu.Lock()
			clear(active)
			mu.Unlock()
		}
	})
	if left != "" {
		return rt.Fail("calls or goroutines do not end: %s", left)
	}
	if stray != "" {
		return rt.Fail("%s", stray)
	}
	r := rt.Result{}
	for gi, g := range c.Groups {
		for i := range g {
			x, o := &g[i], obs[gi][i]
			m := e.Methods[x.M]
			bad := func(f string, a ...any) rt.Result {
				s := ""
				for k := range o.impls {
					b := &o.impls[k]
					s += fmt.Sprintf("  implementation %d called %d times, at %v until %v\n", k, b.n, b.start, b.end)
				}
				return rt.Fail("call of %s.%s at %v (interval %v, cancel %d tenths after): %s\n%sthe call returned at %v", e.Decorator, m.Name, o.called, interval, x.Cancel, fmt.Sprintf(f, a...), s, o.ret)
			}
			if o.stray != "" {
				return bad("%s", o.stray)
			}
			if o.pan != nil {
				return bad("panic %v", o.pan.Val)
			}
			n := 0 // started
			for n < c.N && o.impls[n].n > 0 {
				n++
			}
			for k := range o.impls {
				switch {
				case o.impls[k].n > 1:
					return bad("implementation %d was called %d times", k, o.impls[k].n)
				case o.impls[k].n > 0 && k >= n:
					return bad("implementation %d was called, but not %d", k, n)
				case o.impls[k].n > 0 && o.impls[k].diff != "":
					return bad("implementation %d: %s", k, o.impls[k].diff)
				}
			}
			ended := time.Duration(-1)
			if x.Cancel > 0 {
				ended = o.called + time.Duration(x.Cancel)*tenth + 500*time.Microsecond
			} else if x.Cancel < 0 {
				ended = o.called
			}
			if n == 0 && x.Cancel >= 0 || n > 0 && o.impls[0].start != o.called {
				return bad("the first implementation was not called at once")
			}
			// what the call has to return, and when
			ret, first := time.Duration(-1), -1
			end := func(k int) time.Duration {
				return o.impls[k].start + time.Duration(x.Impls[k].Dur)*tenth + time.Microsecond<<k
			}
			var failed []time.Duration
			for k := 0; k < n; k++ {
				if x.Impls[k].Outcome != fails {
					if ret < 0 || end(k) < ret {
						ret, first = end(k), k
					}
				} else {
					failed = append(failed, end(k))
				}
			}
			how := "the first success"
			if len(failed) == c.N {
				for _, f := range failed {
					ret = max(ret, f)
				}
				how = "the last failure"
			}
			if x.Cancel != 0 && (ret < 0 || ended < ret) {
				ret, how = ended, "the end of the context"
			}
			if ret < 0 {
				// nothing to return yet, so all have to be tried
				return bad("only %d implementations were tried", n)
			}
			r.Features = append(r.Features, how)
			// starts
			sort.Slice(failed, func(a, b int) bool { return failed[a] < failed[b] })
			for k := 1; k <= n; k++ {
				prev := o.impls[k-1].start
				if k == n {
					if n < c.N && prev+interval < ret {
						return bad("implementation %d was not called within the interval", k)
					}
					break
				}
				s := o.impls[k].start
				switch {
				case s > prev+interval:
					return bad("implementation %d was called more than an interval after the one before", k)
				case s < prev:
					return bad("implementation %d was called before implementation %d", k, k-1)
				case s == prev+interval || (s-o.called)%interval == 0 && s > o.called:
				default:
					found := false
					for _, f := range failed {
						found = found || f == s
					}
					if !found {
						return bad("implementation %d was called though the interval had not passed and none had failed", k)
					}
				}
				if k > 1 && s == prev && s != o.called {
					return bad("implementations %d and %d were called at once", k-1, k)
				}
			}
			for _, f := range failed {
				if f >= ret {
					continue
				}
				before, at := 0, 0
				for k := 0; k < n; k++ {
					if o.impls[k].start < f {
						before++
					} else if o.impls[k].start == f {
						at++
					}
				}
				if before < c.N && at == 0 {
					return bad("no implementation was called when one had failed at %v", f)
				}
			}
			if o.ret != ret {
				return bad("the call returned at %v, want %v (%s)", o.ret, ret, how)
			}
			if n > 1 {
				r.Nontrivial = true
				r.Features = append(r.Features, fmt.Sprintf("started:%d", n))
			}
			switch how {
			case "the first success":
				if s := rt.DiffResults(o.impls[first].res, o.res); s != "" {
					return bad("not the result of implementation %d: %s", first, s)
				}
			case "the last failure":
				err := m.ErrOf(o.res)
				if err == nil {
					return bad("no error though all implementations failed")
				}
				for k := range o.impls {
					if want := m.ErrOf(o.impls[k].res).Error(); !strings.Contains(err.Error(), want) {
						return bad("the error %q does not name %q", err, want)
					}
				}
			default:
				if err := m.ErrOf(o.res); m.ReturnsErr && (err == nil || !errors.Is(err, o.ctxErr)) {
					return bad("the error %v is not that of the context, %v", err, o.ctxErr)
				}
			}
			if m.AcceptsCtx {
				for k := 0; k < n; k++ {
					b := &o.impls[k]
					if b.value != any(x.Res+i) {
						return bad("the context of implementation %d is not derived from that of the caller", k)
					}
					if e := end(k); e > ret && b.ended != ret {
						return bad("the context of implementation %d ended at %v, want %v", k, b.ended, ret)
					} else if e <= ret && b.ended < e {
						return bad("the context of implementation %d ended at %v, while it was needed", k, b.ended)
					}
				}
			}
		}
	}
	return r
}
