//go:build go1.25

package rtsync

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// PoolCall is a call through a pool.
type PoolCall struct {
	M, Args int
	Wait    int // slots after the previous call
}

// PoolServe is what the wrapped values do with the calls they get, in order.
type PoolServe struct {
	Dur     int // slots
	Outcome int
	Res     int
}

// PoolCase is a history.
type PoolCase struct {
	N      int
	Calls  []PoolCall
	Serves []PoolServe
}

// C24 checks syncpool.
var C24 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		if len(e.Methods) == 0 {
			return nil
		}
		c := &PoolCase{N: rapid.IntRange(1, 4).Draw(t, "impls")}
		for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
			c.Calls = append(c.Calls, PoolCall{M: rapid.IntRange(0, len(e.Methods)-1).Draw(t, "m"), Args: rapid.IntRange(0, 100).Draw(t, "args"), Wait: rapid.IntRange(0, 3).Draw(t, "wait")})
			c.Serves = append(c.Serves, PoolServe{Dur: rapid.IntRange(0, 9).Draw(t, "dur"), Outcome: rapid.SampledFrom([]int{ok, ok, fails, panics}).Draw(t, "outcome"), Res: rapid.IntRange(0, 100).Draw(t, "res")})
		}
		return c
	},
	New:   func() any { return &PoolCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkPool(t, e, s.(*PoolCase)) },
}

func checkPool(t *testing.T, e *rt.Entry, c *PoolCase) rt.Result {
	if func() (pan any) {
		defer func() { pan = recover() }()
		rt.Make(e.New)
		return nil
	}() == nil {
		return rt.Fail("New%s() of no implementations does not panic", e.Decorator)
	}
	type serve struct {
		impl, m    int
		start, end time.Duration
		done       bool
		res        []reflect.Value
	}
	type call struct {
		at, ret  time.Duration
		returned bool
		res      []reflect.Value
		pan      *rt.Panicked
		args     []reflect.Value
	}
	var serves []*serve
	calls := make([]call, len(c.Calls))
	stray := ""
	left := bubble(t, func() {
		clk := newClock()
		var mu sync.Mutex
		var pool []any
		for i := 0; i < c.N; i++ {
			pool = append(pool, e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
				mu.Lock()
				k := len(serves)
				if k == len(c.Serves) {
					stray = "more calls reached wrapped values than were made"
					mu.Unlock()
					return e.ResultsFor(m, nil, 0)
				}
				x := c.Serves[k]
				known := false
				for j := range calls {
					known = known || c.Calls[j].M == m && calls[j].at <= clk.now() && e.Methods[m].DiffArgs(calls[j].args, a, false) == ""
				}
				if !known {
					stray = fmt.Sprintf("%s was called at %v with arguments nobody gave", e.Methods[m].Name, clk.now())
				}
				s := &serve{impl: i, m: m, start: clk.now(), res: results(e, m, x.Res, x.Outcome)}
				serves = append(serves, s)
				mu.Unlock()
				time.Sleep(time.Duration(x.Dur)*slot + time.Duration(k+1)*10*time.Microsecond)
				mu.Lock()
				s.end, s.done = clk.now(), true
				mu.Unlock()
				if x.Outcome == panics {
					panic(rt.ErrBoom)
				}
				return s.res
			})))
		}
		d := e.AsIface(rt.Make(e.New, pool...))
		var wg sync.WaitGroup
		at := 3 * time.Millisecond
		for i, x := range c.Calls {
			at += time.Duration(x.Wait) * slot
			o := &calls[i]
			o.at = at
			o.args = e.ArgsFor(x.M, context.Background(), x.Args)
		}
		for i, x := range c.Calls {
			o := &calls[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				clk.until(o.at)
				res, pan := e.Invoke(d, x.M, o.args)
				mu.Lock()
				o.res, o.pan, o.ret, o.returned = res, pan, clk.now(), true
				mu.Unlock()
			}()
		}
		wg.Wait()
	})
	r := rt.Result{}
	var shown []string
	for i := range calls {
		shown = append(shown, fmt.Sprintf("  call %d of %s arrived at %v, returned %v at %v", i, e.Methods[c.Calls[i].M].Name, calls[i].at, calls[i].returned, calls[i].ret))
	}
	for _, s := range serves {
		shown = append(shown, fmt.Sprintf("  implementation %d served %s from %v to %v", s.impl, e.Methods[s.m].Name, s.start, s.end))
	}
	bad := func(f string, a ...any) rt.Result {
		return rt.Fail("%s of %d: %s\n%s", e.Decorator, c.N, fmt.Sprintf(f, a...), list(shown))
	}
	if left != "" {
		return bad("calls do not return: %s", left)
	}
	if stray != "" {
		return bad("%s", stray)
	}
	if len(serves) != len(calls) {
		return bad("%d calls were served", len(serves))
	}
	var at []time.Duration
	for _, s := range serves {
		at = append(at, s.start, s.end)
		for _, o := range serves {
			if o != s && o.impl == s.impl && o.start <= s.start && s.start < o.end {
				return bad("implementation %d served two calls at %v", s.impl, s.start)
			}
		}
	}
	for i := range calls {
		at = append(at, calls[i].at)
	}
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	for _, t := range at {
		busy, waiting := 0, 0
		for _, s := range serves {
			if s.start <= t {
				waiting--
				if s.end > t {
					busy++
				}
			}
		}
		for i := range calls {
			if calls[i].at <= t {
				waiting++
			}
		}
		if waiting > 0 {
			r.Nontrivial = true
			if busy < c.N {
				return bad("at %v %d calls wait, but only %d implementations are busy", t, waiting, busy)
			}
		}
	}
	if r.Nontrivial {
		r.Features = append(r.Features, "waited")
	}
	// each call returns what one that was served at that time gave
	for _, s := range serves {
		found := false
		for i := range calls {
			o := &calls[i]
			if o.ret != s.end || c.Calls[i].M != s.m {
				continue
			}
			if o.pan != nil {
				found = found || o.pan.Val == any(rt.ErrBoom)
			} else {
				found = found || rt.DiffResults(s.res, o.res) == ""
			}
		}
		if !found {
			return bad("the results served at %v did not get back", s.end)
		}
	}
	np := 0
	for i := range calls {
		if calls[i].pan != nil {
			np++
		}
	}
	for _, x := range c.Serves {
		if x.Outcome == panics {
			np--
			r.Features = append(r.Features, "panicked")
		}
	}
	if np != 0 {
		return bad("%d more panics than wrapped methods had", np)
	}
	return r
}
