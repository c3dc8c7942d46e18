package rtstd

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"verif/libs/rt"
)

// RobinGroup are calls made at the same time.
type RobinGroup struct {
	Methods []int
	Times   int // every caller calls that often
	Outcome int // 0 success, 1 error, 2 panic
}

// RobinCase is a history.
type RobinCase struct {
	N      int
	Must   bool
	Groups []RobinGroup
}

// C23 checks robinpool.
var C23 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		if len(e.Methods) == 0 {
			return nil
		}
		c := &RobinCase{N: rapid.IntRange(1, 6).Draw(t, "impls"), Must: rapid.Bool().Draw(t, "must")}
		stress := rapid.IntRange(0, 9).Draw(t, "stress") == 9
		for i, n := 0, rapid.IntRange(1, 20).Draw(t, "groups"); i < n; i++ {
			g := RobinGroup{Times: 1, Outcome: rapid.IntRange(0, 2).Draw(t, "outcome")}
			size := 1
			if rapid.IntRange(0, 4).Draw(t, "concurrent") == 4 {
				size = rapid.IntRange(2, 8).Draw(t, "size")
				if stress {
					g.Times = rapid.IntRange(1, 200).Draw(t, "times")
				}
			}
			for k := 0; k < size; k++ {
				g.Methods = append(g.Methods, rapid.IntRange(0, len(e.Methods)-1).Draw(t, "m"))
			}
			c.Groups = append(c.Groups, g)
		}
		return c
	},
	New:   func() any { return &RobinCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkRobin(e, s.(*RobinCase)) },
}

func checkRobin(e *rt.Entry, c *RobinCase) rt.Result {
	must := e.Extra["MustNew"]
	if must == nil {
		return rt.Fail("MustNew%s is not declared", e.Decorator)
	}
	call := func(fn any, args ...any) (out []reflect.Value, pan any) {
		defer func() { pan = recover() }()
		f := reflect.ValueOf(fn)
		var in []reflect.Value
		for _, a := range args {
			v := reflect.New(f.Type().In(0).Elem()).Elem()
			v.Set(reflect.ValueOf(a))
			in = append(in, v)
		}
		return f.Call(in), nil
	}
	if out, pan := call(e.New); pan != nil || len(out) != 2 || out[1].IsNil() {
		return rt.Fail("New%s() of no implementations does not fail (%v)", e.Decorator, pan)
	}
	if _, pan := call(must); pan == nil {
		return rt.Fail("MustNew%s() of no implementations does not panic", e.Decorator)
	}
	var mu sync.Mutex
	counts := make([]int, c.N)
	last, outcome := -1, 0
	spies := make([]any, c.N)
	for i := range spies {
		spies[i] = e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			mu.Lock()
			counts[i]++
			last = i
			o := outcome
			mu.Unlock()
			if o == 2 {
				panic(rt.ErrBoom)
			}
			var err error
			if o == 1 {
				err = rt.ErrBoom
			}
			return e.ResultsFor(m, err, 0)
		}))
	}
	ctor := e.New
	if c.Must {
		ctor = must
	}
	out, pan := call(ctor, spies...)
	if pan != nil || len(out) == 2 && !out[1].IsNil() {
		return rt.Fail("the constructor of %s fails with %d implementations (%v)", e.Decorator, c.N, pan)
	}
	d := e.AsIface(out[0])
	r := rt.Result{}
	rotation := map[int]int{} // position modulo N to implementation
	made := 0
	var trace []string
	bad := func(f string, a ...any) rt.Result {
		return rt.Fail("%s of %d: %s\ncalls: %v\nreceived by each: %v", e.Decorator, c.N, fmt.Sprintf(f, a...), trace, counts)
	}
	for _, g := range c.Groups {
		outcome = g.Outcome
		before := append([]int(nil), counts...)
		wrong := ""
		one := func(m int) {
			_, pan := e.Invoke(d, m, e.ArgsFor(m, context.Background(), 0))
			if (pan != nil) != (g.Outcome == 2) || pan != nil && pan.Val != any(rt.ErrBoom) {
				mu.Lock()
				wrong = fmt.Sprintf("%s panics: %v", e.Methods[m].Name, pan)
				mu.Unlock()
			}
		}
		if len(g.Methods) == 1 {
			last = -1
			one(g.Methods[0])
			trace = append(trace, fmt.Sprintf("%s -> %d", e.Methods[g.Methods[0]].Name, last))
			if wrong != "" {
				return bad("%s", wrong)
			}
			p := made % c.N
			made++
			if was, ok := rotation[p]; ok && was != last {
				return bad("call %d went to implementation %d, the rotation demands %d", made-1, last, was)
			}
			for q, i := range rotation {
				if i == last && q != p {
					return bad("call %d went to implementation %d, whose turn was %d calls before", made-1, last, (p-q+c.N)%c.N)
				}
			}
			rotation[p] = last
		} else {
			var wg sync.WaitGroup
			start := make(chan bool)
			for _, m := range g.Methods {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for k := 0; k < g.Times; k++ {
						one(m)
						if k%7 == 0 {
							runtime.Gosched()
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			trace = append(trace, fmt.Sprintf("%d at once, %d times", len(g.Methods), g.Times))
			if wrong != "" {
				return bad("%s", wrong)
			}
			r.Features = append(r.Features, "concurrent")
			want := map[int]int{}
			for k := 0; k < len(g.Methods)*g.Times; k++ {
				want[made%c.N]++
				made++
			}
			if len(rotation) == c.N {
				for p, i := range rotation {
					if counts[i]-before[i] != want[p] {
						return bad("of concurrent calls implementation %d got %d, want %d", i, counts[i]-before[i], want[p])
					}
				}
			}
		}
		lo, hi, sum := counts[0], counts[0], 0
		for _, n := range counts {
			lo, hi, sum = min(lo, n), max(hi, n), sum+n
		}
		if sum != made {
			return bad("%d calls arrived of %d", sum, made)
		}
		if hi-lo > 1 {
			return bad("the distribution is not even")
		}
	}
	r.Nontrivial = made > c.N && c.N > 1
	return r
}
