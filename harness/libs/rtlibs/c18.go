package rtlibs

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/collectors"
	dto "github.com/prometheus/client_model/go"
	"pgregory.net/rapid"

	"verif/libs/rt"
	"verif/libs/rtstd"
)

// PromCall is a group of equal calls made at the same time.
type PromCall struct {
	C     rtstd.Call
	Inst  int // index of the decorator
	N     int
	Sleep int // of the wrapped method, microseconds
}

// PromCase is a history of calls through several decorators of the same type.
type PromCase struct {
	Instances []string
	Calls     []PromCall
}

type promKey struct{ family, instance, method, result string }

type promVal struct {
	count uint64
	sum   float64
}

// gather reads the default registry.
func gather() (map[promKey]promVal, error) {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return nil, err
	}
	out := map[promKey]promVal{}
	for _, f := range fs {
		for _, m := range f.GetMetric() {
			k := promKey{family: f.GetName()}
			var names []string
			for _, l := range m.GetLabel() {
				names = append(names, l.GetName())
				switch l.GetName() {
				case "instance_name":
					k.instance = l.GetValue()
				case "method":
					k.method = l.GetValue()
				case "result":
					k.result = l.GetValue()
				}
			}
			sort.Strings(names)
			if f.GetType() != dto.MetricType_SUMMARY || strings.Join(names, " ") != "instance_name method result" {
				return nil, fmt.Errorf("metric %s is a %v with labels %v", f.GetName(), f.GetType(), names)
			}
			out[k] = promVal{m.GetSummary().GetSampleCount(), m.GetSummary().GetSampleSum()}
		}
	}
	return out, nil
}

// C18 checks prometheus.
var C18 = &rt.Prop{
	Setup: func([]*rt.Entry) {
		prometheus.Unregister(collectors.NewGoCollector())
		prometheus.Unregister(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{}))
	},
	Draw: func(t *rapid.T, e *rt.Entry) any {
		c := &PromCase{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "instances"); i < n; i++ {
			c.Instances = append(c.Instances, rapid.SampledFrom([]string{"", "a", "b", "ünï", "ok", "error"}).Draw(t, "instance"))
		}
		h := rtstd.DrawCalls(t, e, 6, 3, any1)
		if h == nil {
			return nil
		}
		for _, x := range h.Calls {
			p := PromCall{C: x, Inst: rapid.IntRange(0, len(c.Instances)-1).Draw(t, "inst"), N: 1}
			if rapid.IntRange(0, 4).Draw(t, "par") == 4 {
				p.N = rapid.IntRange(2, 8).Draw(t, "parallel")
			}
			if rapid.IntRange(0, 4).Draw(t, "slow") == 4 {
				p.Sleep = rapid.IntRange(1, 300).Draw(t, "sleep")
			}
			c.Calls = append(c.Calls, p)
		}
		return c
	},
	New:   func() any { return &PromCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkProm(e, s.(*PromCase)) },
}

func checkProm(e *rt.Entry, c *PromCase) rt.Result {
	var mu sync.Mutex
	var cur *PromCall
	var res []reflect.Value
	var calls int
	var inside time.Duration
	var decos []reflect.Value
	for i := range c.Instances {
		spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			start := time.Now()
			time.Sleep(time.Duration(cur.Sleep) * time.Microsecond)
			d := time.Since(start)
			mu.Lock()
			inside += d
			calls++
			if m != cur.C.M || i != cur.Inst {
				calls += 1000
			}
			mu.Unlock()
			if cur.C.Outcome == 2 {
				panic(rt.ErrBoom)
			}
			return res
		}))
		decos = append(decos, e.AsIface(rt.Make(e.New, spy, c.Instances[i])))
	}
	family := strings.ToLower(e.Iface) + "_duration_seconds"
	if n := e.Vars["MetricName"]; n != "" {
		family = n
	}
	r := rt.Result{}
	before, err := gather()
	if err != nil {
		return rt.Fail("%v", err)
	}
	for i := range c.Calls {
		cur = &c.Calls[i]
		m := e.Methods[cur.C.M]
		res, _ = cur.C.Results(e)
		calls, inside = 0, 0
		start := time.Now()
		var wg sync.WaitGroup
		for k := 0; k < cur.N; k++ {
			args := e.ArgsFor(cur.C.M, context.Background(), cur.C.Args)
			wg.Add(1)
			go func() {
				defer wg.Done()
				e.Invoke(decos[cur.Inst], cur.C.M, args)
			}()
		}
		wg.Wait()
		outside := time.Since(start)
		bad := func(f string, a ...any) rt.Result {
			return rt.Fail("call group %d, %d x %s.%s on instance %q (outcome %d): %s", i, cur.N, e.Decorator, m.Name, c.Instances[cur.Inst], cur.C.Outcome, fmt.Sprintf(f, a...))
		}
		if calls != cur.N {
			return bad("%d calls reached the wrapped value", calls)
		}
		after, err := gather()
		if err != nil {
			return bad("%v", err)
		}
		result := "ok"
		if cur.C.Outcome < 2 && m.ErrOf(res) != nil {
			result = "error"
		}
		var count uint64
		for k, v := range after {
			d := v.count - before[k].count
			if d == 0 && v.sum == before[k].sum {
				continue
			}
			if k.family != family || k.instance != c.Instances[cur.Inst] || k.method != m.Name || k.result != result && cur.C.Outcome < 2 || k.result != "ok" && k.result != "error" {
				return bad("%d observations under %+v", d, k)
			}
			count += d
			sum := v.sum - before[k].sum
			if cur.C.Outcome == 2 && d != uint64(cur.N) {
				continue
			}
			if sum < inside.Seconds()-1e-9 {
				return bad("observed %v s, the wrapped method took %v", sum, inside)
			}
			if sum > outside.Seconds()*float64(cur.N)+1e-9 {
				return bad("observed %v s, the calls took at most %v each", sum, outside)
			}
		}
		if count != uint64(cur.N) {
			return bad("%d observations", count)
		}
		before = after
		r.Nontrivial = r.Nontrivial || len(c.Calls) > 1
		r.Features = append(r.Features, []string{"returned", "failed", "panicked"}[cur.C.Outcome])
		if cur.N > 1 {
			r.Features = append(r.Features, "parallel")
		}
	}
	return r
}
