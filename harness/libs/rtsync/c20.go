//go:build go1.25

package rtsync

import (
	"context"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// RetryAttempt is what the wrapped method does.
type RetryAttempt struct {
	Dur     int // tenths of the interval
	Outcome int
}

// RetryCall is a call through a retry decorator.
type RetryCall struct {
	M, Args, Res int
	Start        int // tenths of the interval after the start of the group
	Cancel       int // tenths of the interval after the start of the call, 0 for never, -1 for before the call
	Attempts     []RetryAttempt
}

// RetryCase is a history: calls of a group overlap.
type RetryCase struct {
	Count    int
	Interval int // in slots
	Groups   [][]RetryCall
}

// C20 checks retry.
var C20 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		c := &RetryCase{Count: rapid.SampledFrom([]int{1, 2, 3, 0, 4, 5, -1}).Draw(t, "count"), Interval: rapid.IntRange(1, 3).Draw(t, "interval")}
		for g, n := 0, rapid.IntRange(1, 3).Draw(t, "groups"); g < n; g++ {
			ms := rapid.Permutation(indices(len(e.Methods))).Draw(t, "methods")
			ms = ms[:rapid.IntRange(1, min(3, len(ms))).Draw(t, "size")]
			var calls []RetryCall
			for _, m := range ms {
				x := RetryCall{M: m, Args: rapid.IntRange(0, 100).Draw(t, "args"), Res: rapid.IntRange(0, 100).Draw(t, "res"), Start: 2 * rapid.IntRange(0, 10).Draw(t, "start")}
				slow := rapid.IntRange(0, 3).Draw(t, "slow") == 3
				if e.Methods[m].AcceptsCtx && !slow && rapid.Bool().Draw(t, "cancelled") {
					x.Cancel = 2*rapid.IntRange(-1, 35).Draw(t, "cancel") + 1
				}
				for k := 0; k <= max(c.Count, 0); k++ {
					a := RetryAttempt{Outcome: []int{1, 1, 1, 1, 1, 1, 0, 2}[rapid.IntRange(0, 7).Draw(t, "outcome")]}
					if slow {
						a.Dur = 2 * rapid.IntRange(0, 15).Draw(t, "dur")
					} else {
						a.Dur = 2 * rapid.IntRange(0, 4).Draw(t, "dur")
					}
					x.Attempts = append(x.Attempts, a)
				}
				calls = append(calls, x)
			}
			c.Groups = append(c.Groups, calls)
		}
		return c
	},
	New:   func() any { return &RetryCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkRetry(t, e, s.(*RetryCase)) },
}

func indices(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

type retryObs struct {
	starts, ends []time.Duration
	diff         string
	called, ret  time.Duration
	res          []reflect.Value
	want         []reflect.Value // of the last attempt
	pan          *rt.Panicked
	extra        bool
	args         []reflect.Value
}

func checkRetry(t *testing.T, e *rt.Entry, c *RetryCase) rt.Result {
	interval := time.Duration(c.Interval) * slot
	tenth := interval / 10
	var obs [][]*retryObs
	stray := ""
	left := bubble(t, func() {
		clk := newClock()
		var mu sync.Mutex
		active := map[int]*retryObs{}
		plan := map[int]*RetryCall{}
		spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			mu.Lock()
			o, p := active[m], plan[m]
			if o == nil {
				stray = e.Methods[m].Name + " was called, when no call of it was going on"
				mu.Unlock()
				return nil
			}
			k := len(o.starts)
			o.starts = append(o.starts, clk.now())
			if d := e.Methods[m].DiffArgs(o.args, a, false); d != "" {
				o.diff = fmt.Sprintf("attempt %d: %s", k, d)
			}
			var x RetryAttempt
			if k < len(p.Attempts) {
				x = p.Attempts[k]
			} else {
				o.extra = true
			}
			want := results(e, m, p.Res*8+k, x.Outcome)
			o.want = want
			mu.Unlock()
			time.Sleep(time.Duration(x.Dur) * tenth)
			mu.Lock()
			o.ends = append(o.ends, clk.now())
			mu.Unlock()
			if x.Outcome == panics {
				panic(rt.ErrBoom)
			}
			return want
		}))
		d := e.AsIface(rt.Make(e.New, spy, c.Count, interval))
		for _, g := range c.Groups {
			var os []*retryObs
			var wg sync.WaitGroup
			base := clk.now()
			for i := range g {
				x := &g[i]
				o := &retryObs{}
				os = append(os, o)
				mu.Lock()
				active[x.M], plan[x.M] = o, x
				mu.Unlock()
				ctx, cancel := context.WithCancel(context.Background())
				if x.Cancel == -1 {
					cancel()
				}
				o.args = e.ArgsFor(x.M, ctx, x.Args)
				start := base + time.Duration(x.Start)*tenth
				if x.Cancel > 0 {
					time.AfterFunc(start+time.Duration(x.Cancel)*tenth-clk.now(), cancel)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer cancel()
					clk.until(start)
					o.called = clk.now()
					o.res, o.pan = e.Invoke(d, x.M, o.args)
					o.ret = clk.now()
				}()
			}
			wg.Wait()
			obs = append(obs, os)
			mu.Lock()
			clear(active)
			mu.Unlock()
		}
	})
	if left != "" {
		return rt.Fail("calls do not return: %s", left)
	}
	if stray != "" {
		return rt.Fail("%s", stray)
	}
	r := rt.Result{}
	for gi, g := range c.Groups {
		for i := range g {
			x, o := &g[i], obs[gi][i]
			m := e.Methods[x.M]
			bad := func(f string, a ...any) rt.Result {
				return rt.Fail("call of %s.%s at %v (count %d, interval %v, cancel %d tenths after): %s\nattempts began at %v and ended at %v, the call returned at %v", e.Decorator, m.Name, o.called, c.Count, interval, x.Cancel, fmt.Sprintf(f, a...), o.starts, o.ends, o.ret)
			}
			if len(o.starts) == 0 || o.starts[0] != o.called {
				return bad("the first attempt was not made at once")
			}
			if o.diff != "" {
				return bad("%s", o.diff)
			}
			ended := time.Duration(-1) // when the context ended
			if x.Cancel != 0 {
				ended = o.called
				if x.Cancel > 0 {
					ended += time.Duration(x.Cancel) * tenth
				}
			}
			slow := false
			for _, a := range x.Attempts {
				slow = slow || a.Dur >= 10
			}
			n := 1
			ret := time.Duration(-1)
			for k := 0; ; k++ {
				a := x.Attempts[k]
				end := o.starts[k] + time.Duration(a.Dur)*tenth
				ret = end
				if a.Outcome != fails || k >= c.Count || !m.ReturnsErr {
					break
				}
				if x.Cancel != 0 && ended <= end {
					r.Features = append(r.Features, "cancelled during an attempt")
					break
				}
				if k+1 >= len(o.starts) {
					if x.Cancel != 0 && ended <= end+interval {
						// the context ended before the next attempt had to begin
						ret = ended
						r.Features = append(r.Features, "cancelled while waiting")
						break
					}
					return bad("attempt %d failed, but the method was not tried again", k)
				}
				lo := max(end, o.starts[k]+interval)
				if slow {
					lo = end
				}
				s := o.starts[k+1]
				if s < lo || s > end+interval {
					return bad("attempt %d began at %v, want between %v and %v", k+1, s, lo, end+interval)
				}
				if x.Cancel != 0 && s > ended {
					return bad("attempt %d was made after the context had ended at %v", k+1, ended)
				}
				n++
			}
			if len(o.starts) != n {
				return bad("%d attempts, want %d", len(o.starts), n)
			}
			if o.extra {
				return bad("too many attempts")
			}
			if o.ret != ret {
				return bad("the call returned at %v, want %v", o.ret, ret)
			}
			if n > 1 {
				r.Nontrivial = true
				r.Features = append(r.Features, fmt.Sprintf("attempts:%d", n))
			}
			if x.Attempts[n-1].Outcome == panics {
				if o.pan == nil || o.pan.Val != any(rt.ErrBoom) {
					return bad("the panic was lost (%v)", o.pan)
				}
				continue
			}
			if o.pan != nil {
				return bad("panic %v", o.pan.Val)
			}
			if s := rt.DiffResults(o.want, o.res); s != "" {
				return bad("the results are not those of the last attempt: %s", s)
			}
		}
	}
	return r
}
