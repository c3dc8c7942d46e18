//go:build go1.25

package rtsync

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// CBCall is a call through a circuit breaker.
type CBCall struct {
	M, Args, Res int
	Wait         int // slots between the start of the previous call and this one
	Dur          int // slots the wrapped method takes
	Outcome      int // 0 success, 1 error, 2 panic, 3 ignored error, 4 wrapped ignored error, 5 joined ignored error
}

// CBCase is a history.
type CBCase struct {
	Max, Open int // open interval in slots
	Ignored   int // number of ignored errors
	Calls     []CBCall
}

const slot = 10 * time.Millisecond

// C19 checks circuitbreaker.
var C19 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		errs := e.Where(func(m *rt.Method) bool { return m.ReturnsErr })
		if len(errs) == 0 {
			return nil
		}
		c := &CBCase{Max: rapid.IntRange(1, 4).Draw(t, "max"), Open: rapid.IntRange(1, 8).Draw(t, "open"), Ignored: rapid.IntRange(0, 3).Draw(t, "ignored")}
		overlap := rapid.Bool().Draw(t, "overlap")
		for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
			x := CBCall{Args: rapid.IntRange(0, 100).Draw(t, "args"), Res: rapid.IntRange(0, 100).Draw(t, "res"), Wait: rapid.IntRange(1, 6).Draw(t, "wait")}
			x.M = errs[rapid.IntRange(0, len(errs)-1).Draw(t, "m")]
			if rapid.IntRange(0, 9).Draw(t, "other") == 9 {
				x.M = rapid.IntRange(0, len(e.Methods)-1).Draw(t, "any")
			}
			if overlap {
				x.Dur = rapid.IntRange(0, 8).Draw(t, "dur")
			}
			x.Outcome = []int{1, 1, 1, 1, 1, 1, 0, 0, 3, 4, 5, 2}[rapid.IntRange(0, 11).Draw(t, "outcome")]
			c.Calls = append(c.Calls, x)
		}
		return c
	},
	New:   func() any { return &CBCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkBreaker(t, e, s.(*CBCase)) },
}

type cbObs struct {
	entered  int // calls of the wrapped method
	at, ret  time.Duration
	diff     string
	res      []reflect.Value
	want     []reflect.Value
	pan      *rt.Panicked
	returned bool
}

func checkBreaker(t *testing.T, e *rt.Entry, c *CBCase) rt.Result {
	var ignored []error
	for i := 0; i < c.Ignored; i++ {
		ignored = append(ignored, []error{&rt.Err{N: -1}, io.EOF, context.Canceled}[i])
	}
	errOf := func(i int) error {
		x := c.Calls[i]
		if x.Outcome >= 3 && len(ignored) > 0 {
			err := ignored[i%len(ignored)]
			switch x.Outcome {
			case 4:
				return fmt.Errorf("wrapped: %w", err)
			case 5:
				return errors.Join(&rt.Err{N: i}, err)
			}
			return err
		}
		if x.Outcome == 0 {
			return nil
		}
		return rt.ErrFor(x.Res)
	}
	// starts are at 3 ms of a slot, the end of call i is i+1 times 10 us later
	starts := make([]time.Duration, len(c.Calls))
	k := 0
	for i, x := range c.Calls {
		k += x.Wait
		starts[i] = time.Duration(k)*slot + 3*time.Millisecond
	}
	dur := func(i int) time.Duration {
		return time.Duration(c.Calls[i].Dur)*slot + time.Duration(i+1)*10*time.Microsecond
	}
	obs := make([]cbObs, len(c.Calls))
	stray := ""
	left := bubble(t, func() {
		clk := newClock()
		var mu sync.Mutex
		args := make([][]reflect.Value, len(c.Calls))
		spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			now := clk.now()
			mu.Lock()
			i := sort.Search(len(starts), func(i int) bool { return starts[i] >= now })
			if i == len(starts) || starts[i] != now || c.Calls[i].M != m {
				stray = fmt.Sprintf("%s was called at %v, when no call of it started", e.Methods[m].Name, now)
				mu.Unlock()
				return nil
			}
			o := &obs[i]
			o.entered++
			o.diff = e.Methods[m].DiffArgs(args[i], a, false)
			want := e.ResultsFor(m, errOf(i), c.Calls[i].Res)
			o.want = want
			mu.Unlock()
			time.Sleep(dur(i))
			if c.Calls[i].Outcome == 2 {
				panic(rt.ErrBoom)
			}
			return want
		}))
		in := []any{spy, c.Max, time.Duration(c.Open) * slot}
		for _, err := range ignored {
			in = append(in, err)
		}
		d := e.AsIface(rt.Make(e.New, in...))
		var wg sync.WaitGroup
		for i, x := range c.Calls {
			args[i] = e.ArgsFor(x.M, context.Background(), x.Args)
			wg.Add(1)
			go func() {
				defer wg.Done()
				clk.until(starts[i])
				res, pan := e.Invoke(d, x.M, args[i])
				obs[i].at, obs[i].ret = starts[i], clk.now()
				obs[i].res, obs[i].pan, obs[i].returned = res, pan, true
			}()
		}
		wg.Wait()
	})
	if left != "" {
		return rt.Fail("calls do not return: %s", left)
	}
	if stray != "" {
		return rt.Fail("%s", stray)
	}
	// the model
	type ev struct {
		at  time.Duration
		i   int
		end bool
	}
	var evs []ev
	for i := range c.Calls {
		evs = append(evs, ev{starts[i], i, false}, ev{starts[i] + dur(i), i, true})
	}
	sort.Slice(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	r := rt.Result{}
	count := 0
	closes := time.Duration(-1)
	var trace []string
	blocked := make([]bool, len(c.Calls))
	opened := false
	for _, v := range evs {
		x, m, o := c.Calls[v.i], e.Methods[c.Calls[v.i].M], &obs[v.i]
		bad := func(f string, a ...any) rt.Result {
			return rt.Fail("call %d of %s.%s at %v: %s\nthreshold %d, open interval %v, model so far:\n%s", v.i, e.Decorator, m.Name, starts[v.i], fmt.Sprintf(f, a...), c.Max, time.Duration(c.Open)*slot, list(trace))
		}
		if !v.end {
			blocked[v.i] = m.ReturnsErr && closes > v.at
			trace = append(trace, fmt.Sprintf("  %v: call %d of %s starts, open %v", v.at, v.i, m.Name, blocked[v.i]))
			switch {
			case blocked[v.i] && o.entered > 0:
				return bad("reached the wrapped value though the circuit is open")
			case blocked[v.i] && (o.pan != nil || m.ErrOf(o.res) == nil):
				return bad("did not fail though the circuit is open")
			case blocked[v.i] && o.ret != starts[v.i]:
				return bad("failed after %v only", o.ret-o.at)
			case !blocked[v.i] && o.entered != 1:
				return bad("reached the wrapped value %d times though the circuit is closed (%v)", o.entered, o.pan)
			}
			if blocked[v.i] {
				r.Features = append(r.Features, "blocked")
				r.Nontrivial = true
			} else if opened {
				r.Features = append(r.Features, "passed after opening")
			}
			continue
		}
		if blocked[v.i] {
			continue
		}
		if o.diff != "" {
			return bad("%s", o.diff)
		}
		if o.ret != v.at {
			return bad("returned at %v, the wrapped method at %v", o.ret, v.at)
		}
		if x.Outcome == 2 {
			if o.pan == nil {
				return bad("the panic was lost")
			}
			trace = append(trace, fmt.Sprintf("  %v: call %d panics", v.at, v.i))
			continue
		}
		if o.pan != nil {
			return bad("panic %v", o.pan.Val)
		}
		if s := rt.DiffResults(o.want, o.res); s != "" {
			return bad("%s", s)
		}
		if !m.ReturnsErr {
			continue
		}
		err := errOf(v.i)
		ign := false
		for _, x := range ignored {
			ign = ign || errors.Is(err, x)
		}
		switch {
		case err == nil || ign:
			count, closes = 0, -1
		default:
			count++
			if count >= c.Max {
				closes = v.at + time.Duration(c.Open)*slot
				opened = true
			}
		}
		trace = append(trace, fmt.Sprintf("  %v: call %d returns %v (ignored %v), count %d, open until %v", v.at, v.i, err, ign, count, closes))
	}
	return r
}
