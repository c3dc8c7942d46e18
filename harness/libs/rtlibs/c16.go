package rtlibs

import (
	"context"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verif/libs/rt"
	"verif/libs/rtstd"
)

// LogCase is a history of calls through a logging decorator.
type LogCase struct {
	H     rtstd.Calls
	Level uint32 // logrus level
	Base  bool   // the logrus entry has a field of its own
}

// event is something observed, in order.
type event struct {
	kind string // out, err: lines of the writers; call: the wrapped method; entry: logrus
	text string
	ent  *logrus.Entry
}

type writer struct {
	kind string
	ev   *[]event
}

func (w writer) Write(b []byte) (int, error) {
	*w.ev = append(*w.ev, event{kind: w.kind, text: string(b)})
	return len(b), nil
}

type hook struct{ ev *[]event }

func (h hook) Levels() []logrus.Level { return logrus.AllLevels }
func (h hook) Fire(e *logrus.Entry) error {
	c := *e
	*h.ev = append(*h.ev, event{kind: "entry", ent: &c})
	return nil
}

// C16 checks log and logrus.
var C16 = &rt.Prop{
	Draw: func(t *rapid.T, e *rt.Entry) any {
		h := rtstd.DrawCalls(t, e, 4, 3, any1)
		if h == nil {
			return nil
		}
		return &LogCase{*h, rapid.SampledFrom([]uint32{uint32(logrus.DebugLevel), uint32(logrus.TraceLevel), uint32(logrus.InfoLevel), uint32(logrus.ErrorLevel)}).Draw(t, "level"), rapid.Bool().Draw(t, "base")}
	},
	New: func() any { return &LogCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result {
		c := s.(*LogCase)
		var ev []event
		var cur *rtstd.Call
		var want []reflect.Value
		spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
			ev = append(ev, event{kind: "call"})
			if cur.Outcome == 2 {
				panic(rt.ErrBoom)
			}
			return want
		}))
		var d reflect.Value
		if e.Template == "log" {
			d = rt.Make(e.New, spy, io.Writer(writer{"out", &ev}), io.Writer(writer{"err", &ev}))
		} else {
			l := logrus.New()
			l.SetOutput(io.Discard)
			l.SetLevel(logrus.Level(c.Level))
			l.AddHook(hook{&ev})
			en := logrus.NewEntry(l)
			if c.Base {
				en = en.WithField("vh-base", 7)
			}
			d = rt.Make(e.New, spy, en)
		}
		d = e.AsIface(d)
		r := rt.Result{}
		for i := range c.H.Calls {
			cur = &c.H.Calls[i]
			m := e.Methods[cur.M]
			ev = nil
			want, _ = cur.Results(e)
			args := e.ArgsFor(cur.M, context.WithValue(context.Background(), rt.Key{}, i), cur.Args)
			res, _ := e.Invoke(d, cur.M, args)
			var bad string
			if e.Template == "log" {
				bad = checkLog(e, m, cur, args, res, ev)
			} else {
				bad = checkLogrus(e, m, cur, args, res, ev, c)
			}
			if bad != "" {
				return rt.Fail("call %d of %s.%s (outcome %d): %s\nobserved:\n%s", i, e.Decorator, m.Name, cur.Outcome, bad, showEvents(ev))
			}
			if len(args) > 0 && cur.Args != 0 || len(res) > 0 && cur.Res != 0 {
				r.Nontrivial = true
			}
			r.Features = append(r.Features, e.Template+[]string{" returned", " failed", " panicked"}[cur.Outcome])
		}
		return r
	},
}

func showEvents(ev []event) string {
	var sb strings.Builder
	for _, x := range ev {
		if x.ent != nil {
			fmt.Fprintf(&sb, "  %s %q %v\n", x.ent.Level, x.ent.Message, x.ent.Data)
		} else {
			fmt.Fprintf(&sb, "  %s %q\n", x.kind, x.text)
		}
	}
	return sb.String()
}

// split separates what happened before and after the wrapped call.
func split(ev []event) (before, after []event, ok bool) {
	n := -1
	for i, x := range ev {
		if x.kind == "call" {
			if n >= 0 {
				return nil, nil, false
			}
			n = i
		}
	}
	if n < 0 {
		return nil, nil, false
	}
	return ev[:n], ev[n+1:], true
}

// line checks one line of the log decorator.
func line(e *rt.Entry, m *rt.Method, x event, kind string, vals []reflect.Value) string {
	if x.kind != kind {
		return fmt.Sprintf("the line went to the %s writer, want %s", x.kind, kind)
	}
	if !strings.Contains(x.text, e.Decorator) || !strings.Contains(x.text, m.Name) {
		return "the line does not name the decorator and the method"
	}
	var xs []any
	for _, v := range vals {
		xs = append(xs, v.Interface())
	}
	if want := fmt.Sprintln(xs...); len(vals) > 0 && !strings.HasSuffix(x.text, " "+want) {
		return fmt.Sprintf("the line does not end with the values %q", want)
	}
	return ""
}

func checkLog(e *rt.Entry, m *rt.Method, c *rtstd.Call, args, res []reflect.Value, ev []event) string {
	before, after, ok := split(ev)
	if !ok || len(before) != 1 {
		return "want one line before one call of the wrapped method"
	}
	if s := line(e, m, before[0], "out", args); s != "" {
		return s
	}
	if c.Outcome == 2 {
		// what is logged after a panic is left open
		return ""
	}
	if len(after) != 1 {
		return "want one line after the call"
	}
	kind := "out"
	if m.ErrOf(res) != nil {
		kind = "err"
	}
	return line(e, m, after[0], kind, res)
}

// fields checks the fields of a logrus entry.
func fields(en *logrus.Entry, names []string, vals []reflect.Value, special map[int]string, base bool) string {
	data := map[string]any{}
	for k, v := range en.Data {
		data[k] = v
	}
	if base {
		if data["vh-base"] != 7 {
			return "the fields of the logger are lost"
		}
		delete(data, "vh-base")
	}
	// logrus itself leaves out functions and pointers to them
	var ns []string
	var vs []reflect.Value
	for i, v := range vals {
		t := v.Type()
		if t.Kind() == reflect.Func || t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Func {
			continue
		}
		n := names[i]
		if s := special[i]; s != "" {
			n = s
		} else if n == "err" || n == "ctx" {
			// these names are reserved
			n = ""
		}
		ns, vs = append(ns, n), append(vs, v)
	}
	return mapFields(data, ns, vs, nil)
}

// mapFields checks that a map holds values under their names; special gives
// names some have instead, and unnamed ones have names of their own.
func mapFields(m map[string]any, names []string, vals []reflect.Value, special map[int]string) string {
	data := map[string]any{}
	for k, v := range m {
		data[k] = v
	}
	if len(data) != len(vals) {
		return fmt.Sprintf("%d fields for %d values", len(data), len(vals))
	}
	var rest []reflect.Value
	for i, v := range vals {
		n := names[i]
		if s := special[i]; s != "" {
			n = s
		} else if special != nil && (n == "err" || n == "ctx") {
			n = ""
		}
		x, ok := data[n]
		if !ok || n == "" || n == "_" {
			rest = append(rest, v)
			continue
		}
		if !sameAny(v, x) {
			return fmt.Sprintf("field %s is %v, want %s", n, x, rt.Show(v))
		}
		delete(data, n)
	}
	// unnamed ones have names of their own
	for _, v := range rest {
		found := false
		for k, x := range data {
			if sameAny(v, x) {
				delete(data, k)
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("no field has the value %s", rt.Show(v))
		}
	}
	return ""
}

// sameAny compares a value with one that was converted to an empty interface.
func sameAny(v reflect.Value, x any) bool {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	return rt.Same(v, reflect.ValueOf(x))
}

func checkLogrus(e *rt.Entry, m *rt.Method, c *rtstd.Call, args, res []reflect.Value, ev []event, lc *LogCase) string {
	before, after, ok := split(ev)
	if !ok {
		return "want one call of the wrapped method"
	}
	debug := logrus.Level(lc.Level) >= logrus.DebugLevel
	one := func(list []event, level logrus.Level, names []string, vals []reflect.Value, special map[int]string) string {
		if level == logrus.DebugLevel && !debug {
			if len(list) != 0 {
				return "an entry above the level of the logger"
			}
			return ""
		}
		if len(list) != 1 {
			return fmt.Sprintf("%d entries, want one", len(list))
		}
		en := list[0].ent
		if en.Level != level {
			return fmt.Sprintf("level %s, want %s", en.Level, level)
		}
		if !strings.Contains(en.Message, e.Decorator) || !strings.Contains(en.Message, m.Name) {
			return "the entry does not name the decorator and the method"
		}
		return fields(en, names, vals, special, lc.Base)
	}
	sp := map[int]string{}
	if m.AcceptsCtx {
		sp[0] = "ctx"
	}
	if s := one(before, logrus.DebugLevel, m.Params, args, sp); s != "" {
		return "before the call: " + s
	}
	if c.Outcome == 2 {
		return ""
	}
	level := logrus.DebugLevel
	sp = map[int]string{}
	if m.ReturnsErr {
		sp[len(res)-1] = "err"
		if m.ErrOf(res) != nil {
			level = logrus.ErrorLevel
		}
	}
	if s := one(after, level, m.Results, res, sp); s != "" {
		return "after the call: " + s
	}
	return ""
}
