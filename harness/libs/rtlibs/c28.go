package rtlibs

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"go.opencensus.io/trace"
	"go.opentelemetry.io/otel"
	otrace "go.opentelemetry.io/otel/trace"
	"pgregory.net/rapid"

	"verif/libs/rt"
)

// SharedCall is a call one of the callers makes.
type SharedCall struct {
	M, Args, Res int
	Fails        bool // the wrapped method returns an error
	Yield        int  // how often the wrapped method yields
}

// SharedCase is what goroutines that share a decorator do.
type SharedCase struct {
	Impls   int // of decorators with several
	Busy    bool
	Callers [][]SharedCall
}

// C28 checks that goroutines can share decorators.
var C28 = &rt.Prop{
	Setup: func([]*rt.Entry) {
		otel.SetTracerProvider(quiet{})
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	},
	Draw: func(t *rapid.T, e *rt.Entry) any {
		if len(e.Methods) == 0 {
			return nil
		}
		c := &SharedCase{Impls: rapid.IntRange(1, 3).Draw(t, "impls"), Busy: rapid.Bool().Draw(t, "busy")}
		// callers prefer few methods, so that they meet
		var ms []int
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "methods"); i < n; i++ {
			ms = append(ms, rapid.IntRange(0, len(e.Methods)-1).Draw(t, "method"))
		}
		for i, n := 0, rapid.IntRange(2, 6).Draw(t, "callers"); i < n; i++ {
			var calls []SharedCall
			for k, n := 0, rapid.IntRange(1, 6).Draw(t, "calls"); k < n; k++ {
				x := SharedCall{M: rapid.SampledFrom(ms).Draw(t, "m"), Args: rapid.IntRange(0, 1000).Draw(t, "args"), Res: rapid.IntRange(0, 1000).Draw(t, "res"), Yield: rapid.IntRange(0, 3).Draw(t, "yield")}
				x.Fails = e.Methods[x.M].ReturnsErr && e.Template != "twirp_error" && rapid.IntRange(0, 2).Draw(t, "fails") == 2
				calls = append(calls, x)
			}
			c.Callers = append(c.Callers, calls)
		}
		return c
	},
	New:   func() any { return &SharedCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkShared(e, s.(*SharedCase)) },
}

// shared makes the decorator, some of them such that they have to interfere.
func (c *SharedCase) shared(e *rt.Entry, spies []any) reflect.Value {
	switch e.Template {
	case "robinpool", "syncpool":
		if out := reflect.ValueOf(e.New); out.Type().NumOut() == 2 {
			return rt.Make(e.Extra["MustNew"], spies...)
		}
		return rt.Make(e.New, spies...)
	case "fallback":
		interval := time.Hour
		if c.Busy {
			interval = 50 * time.Microsecond
		}
		return rt.Make(e.New, append([]any{interval}, spies...)...)
	case "logrus":
		l := logrus.New()
		l.SetOutput(io.Discard)
		l.SetLevel(logrus.TraceLevel)
		return rt.Make(e.New, spies[0], logrus.NewEntry(l))
	}
	if c.Busy {
		switch e.Template {
		case "circuitbreaker":
			return rt.Make(e.New, spies[0], 2, 20*time.Microsecond)
		case "ratelimit":
			return rt.Make(e.New, spies[0], 2, 100000.0)
		case "retry":
			return rt.Make(e.New, spies[0], 2, 10*time.Microsecond)
		case "timeout":
			cfg := e.Extra["Config"]
			set := e.Extra["SetTimeout"].(func(any, string, int64) any)
			for _, m := range e.Methods {
				if x := set(cfg, m.Name, int64(time.Hour)); x != nil {
					cfg = x
				}
			}
			return rt.Make(e.New, spies[0], cfg)
		}
	}
	return idle(e, spies[0])
}

// served is a call that reached a wrapped value.
type served struct {
	id        any // what the context carries
	m         int
	args, res []reflect.Value
	failed    bool
}

// sharedCalled is a call that was made.
type sharedCalled struct {
	c         *SharedCall
	id        int
	args, res []reflect.Value
	pan       *rt.Panicked
}

func checkShared(e *rt.Entry, c *SharedCase) rt.Result {
	var mu sync.Mutex // held only when a call reaches a wrapped value, not when it leaves
	var got []*served
	plan := map[int][]*SharedCall{} // by method, used up as calls arrive
	for _, cs := range c.Callers {
		for i := range cs {
			plan[cs[i].M] = append(plan[cs[i].M], &cs[i])
		}
	}
	n := 0
	var spies []any
	for i := 0; i < c.Impls; i++ {
		spies = append(spies, e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			s := &served{m: m, args: a}
			if mm := e.Methods[m]; mm.AcceptsCtx {
				if ctx, _ := a[0].Interface().(context.Context); ctx != nil {
					s.id = ctx.Value(rt.Key{})
				}
			}
			mu.Lock()
			n++
			x := plan[m][n%len(plan[m])]
			s.failed = x.Fails
			got = append(got, s)
			var err error
			if s.failed {
				err = &rt.Err{N: 10000 + n}
			}
			s.res = e.ResultsFor(m, err, x.Res*64+n)
			mu.Unlock()
			for k := 0; k < x.Yield; k++ {
				runtime.Gosched()
			}
			return s.res
		})))
	}
	d := e.AsIface(c.shared(e, spies))
	var made [][]*sharedCalled
	var wg sync.WaitGroup
	start := make(chan struct{})
	id := 0
	for i := range c.Callers {
		var cs []*sharedCalled
		for k := range c.Callers[i] {
			x := &c.Callers[i][k]
			id++
			s := &sharedCalled{c: x, id: id}
			s.args = e.ArgsFor(x.M, context.WithValue(context.Background(), rt.Key{}, id), x.Args*64+id)
			cs = append(cs, s)
		}
		made = append(made, cs)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, s := range cs {
				s.res, s.pan = e.Invoke(d, s.c.M, s.args)
			}
		}()
	}
	close(start)
	wg.Wait()
	r := rt.Result{Nontrivial: true}
	if e.Template == "fallback" {
		// implementations that lost may still be on their way
		time.Sleep(200 * time.Microsecond)
	}
	mu.Lock()
	defer mu.Unlock()
	used := make([]bool, len(got))
	for i, cs := range made {
		for k, s := range cs {
			m := e.Methods[s.c.M]
			bad := func(f string, a ...any) rt.Result {
				return rt.Fail("call %d of %s.%s by goroutine %d of %d: %s", k, e.Decorator, m.Name, i, len(made), fmt.Sprintf(f, a...))
			}
			if s.pan != nil {
				return bad("panic %v", s.pan.Val)
			}
			// one of the calls that reached a wrapped value must be this one
			args, found := false, false
			diff := ""
			for j, g := range got {
				if used[j] || g.m != s.c.M || m.DiffArgs(s.args, g.args, true) != "" || m.AcceptsCtx && g.id != any(s.id) {
					continue
				}
				args = true
				if x := rt.DiffResults(g.res, s.res); x == "" {
					// with retries and fallbacks others with these arguments may remain
					used[j], found = true, true
					break
				} else {
					diff = x
				}
			}
			if found {
				r.Features = append(r.Features, "served")
				continue
			}
			err := m.ErrOf(s.res)
			switch {
			case e.Template == "circuitbreaker" && c.Busy && err != nil && strings.Contains(err.Error(), "circuit is open"):
				r.Features = append(r.Features, "refused")
			case e.Template == "fallback" && args && err != nil:
				r.Features = append(r.Features, "all failed")
			case args:
				return bad("the results are not those of the wrapped method: %s", diff)
			default:
				return bad("it did not reach a wrapped value with its arguments")
			}
		}
	}
	if e.Template != "fallback" && !(e.Template == "retry" && c.Busy) {
		for j := range got {
			if !used[j] {
				return rt.Fail("%s of %s: a wrapped method was called with arguments no caller gave, or once too often", e.Methods[got[j].m].Name, e.Decorator)
			}
		}
	}
	return r
}

// quiet is a tracer provider whose spans do nothing.
type quiet struct{}

type quietTracer struct{}

func (quiet) Tracer(string, ...otrace.TracerOption) otrace.Tracer { return quietTracer{} }

func (quietTracer) Start(ctx context.Context, name string, _ ...otrace.SpanStartOption) (context.Context, otrace.Span) {
	s := &otelSpan{name: name}
	return otrace.ContextWithSpan(ctx, s), s
}
