//go:build go1.25

package rtsync

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// LimitCall is a call through a rate limit.
type LimitCall struct {
	M, Args, Res int
	Wait         int // quarters of the delay after the arrival of the previous call
	Cancel       int // quarters of the delay until the context ends, 0 for never
	Deadline     bool
}

// LimitCase is a history.
type LimitCase struct {
	Burst  int
	Micros int // delay between passes
	Calls  []LimitCall
}

// C22 checks ratelimit.
var C22 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		if len(e.Methods) == 0 {
			return nil
		}
		c := &LimitCase{Burst: rapid.IntRange(0, 4).Draw(t, "burst"), Micros: rapid.SampledFrom([]int{10000, 1000, 20000, 500, 250000, 1000000, 2000000, 64, 400000, 160000, 80000}).Draw(t, "delay")}
		dense := rapid.Bool().Draw(t, "dense")
		for i, n := 0, rapid.IntRange(1, 24).Draw(t, "n"); i < n; i++ {
			x := LimitCall{M: rapid.IntRange(0, len(e.Methods)-1).Draw(t, "m"), Args: rapid.IntRange(0, 100).Draw(t, "args"), Res: rapid.IntRange(1, 100).Draw(t, "res")}
			if dense {
				x.Wait = rapid.IntRange(0, 3).Draw(t, "wait")
			} else {
				x.Wait = rapid.IntRange(0, 12).Draw(t, "wait")
			}
			if rapid.IntRange(0, 9).Draw(t, "idle") == 9 {
				x.Wait = rapid.IntRange(0, 60).Draw(t, "idle time")
			}
			if m := e.Methods[x.M]; m.AcceptsCtx && m.ReturnsErr && rapid.Bool().Draw(t, "cancelled") {
				x.Cancel = rapid.IntRange(1, 16).Draw(t, "cancel")
				x.Deadline = rapid.Bool().Draw(t, "deadline")
			}
			c.Calls = append(c.Calls, x)
		}
		return c
	},
	New:   func() any { return &LimitCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkLimit(t, e, s.(*LimitCase)) },
}

func checkLimit(t *testing.T, e *rt.Entry, c *LimitCase) rt.Result {
	d := time.Duration(c.Micros) * time.Microsecond
	rps := float64(time.Second) / float64(d)
	if time.Duration(float64(time.Second)/rps) != d {
		return rt.Result{Discard: "delay is not exact"}
	}
	type obs struct {
		at, ends, ret time.Duration // arrival, end of the context
		returned      bool
		err           error
		ctxErr        error
		pan           *rt.Panicked
		diff          string
	}
	os := make([]obs, len(c.Calls))
	var passes []time.Duration
	var horizon time.Duration
	bubble(t, func() {
		clk := newClock()
		var mu sync.Mutex
		given := map[string][][]reflect.Value{} // results by the kind of call
		args := make([][]reflect.Value, len(c.Calls))
		spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			mu.Lock()
			defer mu.Unlock()
			passes = append(passes, clk.now())
			// one of the waiting calls with these arguments
			for i, x := range c.Calls {
				if k := fmt.Sprint(i); x.M == m && os[i].at <= clk.now() && given[k] == nil && e.Methods[m].DiffArgs(args[i], a, false) == "" {
					res := e.ResultsFor(m, nil, c.Calls[i].Res)
					given[k] = append(given[k], res)
					return res
				}
			}
			passes = append(passes, -1)
			return e.ResultsFor(m, nil, 0)
		}))
		at := d / 8
		for i, x := range c.Calls {
			at += time.Duration(x.Wait) * d / 4
			os[i].at = at
		}
		// contexts exist before calls arrive, but carry what is theirs
		dec := e.AsIface(rt.Make(e.New, spy, c.Burst, rps))
		for i, x := range c.Calls {
			ctx := context.WithValue(context.Background(), rt.Key{}, i)
			var cancel context.CancelFunc = func() {}
			o := &os[i]
			o.ends = o.at + time.Duration(x.Cancel)*d/4 + d/16
			switch {
			case x.Cancel == 0:
			case x.Deadline:
				ctx, cancel = context.WithTimeout(ctx, o.ends-clk.now())
			default:
				ctx, cancel = context.WithCancel(ctx)
				time.AfterFunc(o.ends-clk.now(), cancel)
			}
			args[i] = e.ArgsFor(x.M, ctx, x.Args)
			go func() {
				_ = cancel
				clk.until(o.at)
				res, pan := e.Invoke(dec, x.M, args[i])
				mu.Lock()
				defer mu.Unlock()
				o.returned, o.ret, o.pan = true, clk.now(), pan
				if pan == nil {
					o.err = e.Methods[x.M].ErrOf(res)
				}
				o.ctxErr = ctx.Err()
			}()
		}
		horizon = at + time.Duration(len(c.Calls)+2)*d
		clk.until(horizon)
		mu.Lock() // nothing is recorded from here on
	})
	r := rt.Result{}
	var shown []string
	for i := range os {
		o := &os[i]
		shown = append(shown, fmt.Sprintf("  call %d of %s arrived at %v, returned %v at %v (context ends at %v)", i, e.Methods[c.Calls[i].M].Name, o.at, o.returned, o.ret, o.ends))
	}
	bad := func(f string, a ...any) rt.Result {
		return rt.Fail("%s: %s\nburst %d, delay %v, passes at %v\n%s", e.Decorator, fmt.Sprintf(f, a...), c.Burst, d, passes, list(shown))
	}
	for _, p := range passes {
		if p < 0 {
			return bad("the wrapped value was called with arguments nobody gave")
		}
	}
	sort.Slice(passes, func(i, j int) bool { return passes[i] < passes[j] })
	upTo := func(t time.Duration) int {
		return sort.Search(len(passes), func(i int) bool { return passes[i] > t })
	}
	back := map[time.Duration]int{}
	waited := 0
	for i := range os {
		o, x := &os[i], c.Calls[i]
		m := e.Methods[x.M]
		if o.pan != nil {
			return bad("call %d of %s panics: %v", i, m.Name, o.pan.Val)
		}
		until := horizon
		if o.returned {
			until = o.ret
		}
		if x.Cancel > 0 && (!o.returned || o.ret > o.ends) {
			return bad("call %d of %s waits though its context has ended at %v", i, m.Name, o.ends)
		}
		if !o.returned {
			return bad("call %d of %s did not get through until %v", i, m.Name, horizon)
		}
		if n := upTo(until) - upTo(o.at); n < int((until-o.at)/d) {
			return bad("call %d of %s waited from %v to %v, but only %d calls passed", i, m.Name, o.at, until, n)
		}
		if until > o.at {
			waited++
			r.Nontrivial = true
			if upTo(o.at) < c.Burst {
				return bad("call %d of %s had to wait though the burst was not used up", i, m.Name)
			}
		}
		if x.Cancel > 0 && o.ret == o.ends {
			if o.err == nil || !errors.Is(o.err, o.ctxErr) {
				return bad("call %d of %s returned %v, not the error of its context %v", i, m.Name, o.err, o.ctxErr)
			}
			r.Features = append(r.Features, "context ended")
			continue
		}
		if o.err != nil {
			return bad("call %d of %s failed: %v", i, m.Name, o.err)
		}
		back[o.ret]++
	}
	if waited > 0 {
		r.Features = append(r.Features, "waited")
	}
	got := map[time.Duration]int{}
	for j, p := range passes {
		got[p]++
		if j+1 > c.Burst+int(p/d) {
			return bad("%d calls reached the wrapped value until %v, at most %d may", j+1, p, c.Burst+int(p/d))
		}
		for i := range passes[:j] {
			// unused budget does not pile up beyond the burst and what is under way
			if n, w := j-i+1, p-passes[i]; n > c.Burst+3+int(w/d) {
				return bad("%d calls reached the wrapped value within %v", n, w)
			}
		}
	}
	for p, n := range back {
		if got[p] != n {
			return bad("%d calls returned at %v, but %d reached the wrapped value", n, p, got[p])
		}
	}
	for p, n := range got {
		if back[p] != n {
			return bad("%d calls reached the wrapped value at %v, but %d returned", n, p, back[p])
		}
	}
	// a bucket of burst tokens: who arrives when it holds some must not wait
	bucket, next, ticks := c.Burst, 0, 0
	for i := range os {
		o := &os[i]
		for {
			tick := time.Duration(ticks+1) * d
			if next < len(passes) && passes[next] < o.at && passes[next] < tick {
				bucket = max(bucket-1, 0)
				next++
			} else if tick < o.at {
				bucket = min(bucket+1, c.Burst)
				ticks++
			} else {
				break
			}
		}
		// those who arrived at this moment
		n := 0
		for k := range os {
			if os[k].at == o.at {
				n++
			}
		}
		if want := min(bucket, n); got[o.at] < want {
			return bad("%d calls passed at %v, want %d", got[o.at], o.at, want)
		} else if want > 0 && next > 0 {
			r.Features = append(r.Features, "refilled")
		}
	}
	return r
}
