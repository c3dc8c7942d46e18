package rtlibs

import (
	"compress/zlib"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"
	"go.elastic.co/apm/v2"
	"go.elastic.co/apm/v2/model"
	octrace "go.opencensus.io/trace"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"pgregory.net/rapid"

	"verif/libs/rt"
	"verif/libs/rtstd"
)

// TNode is a call; while it runs the wrapped value makes the calls in Sub
// through the decorator.
type TNode struct {
	C   rtstd.Call
	Sub []TNode `json:",omitempty"`
}

// TraceCase is a history of nested calls through a tracing decorator.
type TraceCase struct {
	Calls    []TNode
	Custom   int // 0 no span decorator, 1 one, 2 nil
	Parent   int // 0 no span in the context, 1 one; Elastic APM: 1 a transaction, 2 a span of it
	Instance string
	Labels   bool
	SpanType string
}

// spanRec is a span as some library recorded it.
type spanRec struct {
	id, parent any
	name       string
	finished   int
	failed     bool   // marked as failed
	message    string // everything that was recorded about the error
	err        error  // the error itself, where it is kept
	late       bool   // changed after the end
	kind       string
	labels     map[string]any
}

// tracing is a library.
type tracing interface {
	reset()
	make(e *rt.Entry, spy any, c *TraceCase, custom func(id any, open bool, params, results map[string]any)) reflect.Value
	root(c *TraceCase) (context.Context, any)
	current(ctx context.Context) (id any, open bool)
	spans() []*spanRec
	name(e *rt.Entry, m *rt.Method, c *TraceCase) (prefix, iface string)
}

// ---- opentracing ----

type otTracer struct{ all []*otSpan }

type otSpan struct {
	t   *otTracer
	rec spanRec
	n   int
}

type otCtx struct{ s *otSpan }

func (otCtx) ForeachBaggageItem(func(k, v string) bool) {}

func (t *otTracer) StartSpan(name string, opts ...opentracing.StartSpanOption) opentracing.Span {
	var o opentracing.StartSpanOptions
	for _, x := range opts {
		x.Apply(&o)
	}
	s := &otSpan{t: t}
	s.rec.name = name
	s.rec.id = s
	for _, r := range o.References {
		if c, ok := r.ReferencedContext.(otCtx); ok && r.Type == opentracing.ChildOfRef {
			s.rec.parent = c.s
		}
	}
	t.all = append(t.all, s)
	return s
}
func (t *otTracer) Inject(opentracing.SpanContext, interface{}, interface{}) error { return nil }
func (t *otTracer) Extract(interface{}, interface{}) (opentracing.SpanContext, error) {
	return nil, opentracing.ErrSpanContextNotFound
}

func (s *otSpan) change()                                        { s.rec.late = s.rec.late || s.rec.finished > 0 }
func (s *otSpan) Finish()                                        { s.rec.finished++ }
func (s *otSpan) FinishWithOptions(opentracing.FinishOptions)    { s.rec.finished++ }
func (s *otSpan) Context() opentracing.SpanContext               { return otCtx{s} }
func (s *otSpan) SetOperationName(n string) opentracing.Span     { s.rec.name = n; return s }
func (s *otSpan) SetBaggageItem(string, string) opentracing.Span { return s }
func (s *otSpan) BaggageItem(string) string                      { return "" }
func (s *otSpan) Tracer() opentracing.Tracer                     { return s.t }
func (s *otSpan) SetTag(k string, v interface{}) opentracing.Span {
	s.change()
	if k == "error" {
		s.rec.failed = v == true
	}
	return s
}
func (s *otSpan) LogFields(fs ...otlog.Field) {
	s.change()
	for _, f := range fs {
		s.rec.message += fmt.Sprintf("%s=%v;", f.Key(), f.Value())
	}
}
func (s *otSpan) LogKV(kv ...interface{})                     { s.change(); s.rec.message += fmt.Sprint(kv...) }
func (s *otSpan) LogEvent(ev string)                          { s.LogKV(ev) }
func (s *otSpan) LogEventWithPayload(e string, p interface{}) { s.LogKV(e, p) }
func (s *otSpan) Log(d opentracing.LogData)                   { s.LogKV(d.Event, d.Payload) }

type otLib struct{ t *otTracer }

func (l *otLib) reset() {
	l.t = &otTracer{}
	opentracing.SetGlobalTracer(l.t)
}

func (l *otLib) make(e *rt.Entry, spy any, c *TraceCase, custom func(any, bool, map[string]any, map[string]any)) reflect.Value {
	var f func(opentracing.Span, map[string]interface{}, map[string]interface{})
	switch c.Custom {
	case 0:
		return rt.Make(e.New, spy, c.Instance)
	case 1:
		f = func(s opentracing.Span, p, r map[string]interface{}) {
			x, _ := s.(*otSpan)
			if x == nil {
				custom(nil, false, p, r)
				return
			}
			custom(x, x.rec.finished == 0, p, r)
		}
	}
	return rt.Make(e.New, spy, c.Instance, f)
}

func (l *otLib) root(c *TraceCase) (context.Context, any) {
	if c.Parent == 0 {
		return context.Background(), nil
	}
	s := &otSpan{t: l.t}
	s.rec.id = s
	return opentracing.ContextWithSpan(context.Background(), s), s
}

func (l *otLib) current(ctx context.Context) (any, bool) {
	if s, ok := opentracing.SpanFromContext(ctx).(*otSpan); ok {
		return s, s.rec.finished == 0
	}
	return nil, false
}

func (l *otLib) spans() (out []*spanRec) {
	for _, s := range l.t.all {
		out = append(out, &s.rec)
	}
	return
}

func (l *otLib) name(e *rt.Entry, m *rt.Method, c *TraceCase) (string, string) {
	return c.Instance + ".", e.Iface + "." + m.Name
}

// ---- opencensus ----

type ocLib struct{ all []*octrace.SpanData }

func (l *ocLib) ExportSpan(s *octrace.SpanData) { l.all = append(l.all, s) }

func (l *ocLib) reset() { l.all = nil }

func (l *ocLib) make(e *rt.Entry, spy any, c *TraceCase, custom func(any, bool, map[string]any, map[string]any)) reflect.Value {
	var f func(*octrace.Span, map[string]interface{}, map[string]interface{})
	switch c.Custom {
	case 0:
		return rt.Make(e.New, spy, c.Instance)
	case 1:
		f = func(s *octrace.Span, p, r map[string]interface{}) {
			id := s.SpanContext().SpanID
			custom(id, !l.ended(id), p, r)
		}
	}
	return rt.Make(e.New, spy, c.Instance, f)
}

func (l *ocLib) ended(id octrace.SpanID) bool {
	for _, s := range l.all {
		if s.SpanID == id {
			return true
		}
	}
	return false
}

func (l *ocLib) root(c *TraceCase) (context.Context, any) {
	if c.Parent == 0 {
		return context.Background(), nil
	}
	ctx, s := octrace.StartSpan(context.Background(), "root")
	return ctx, s.SpanContext().SpanID
}

func (l *ocLib) current(ctx context.Context) (any, bool) {
	if s := octrace.FromContext(ctx); s != nil {
		id := s.SpanContext().SpanID
		return id, !l.ended(id)
	}
	return nil, false
}

func (l *ocLib) spans() (out []*spanRec) {
	for _, s := range l.all {
		r := &spanRec{id: s.SpanID, name: s.Name, finished: 1}
		if s.ParentSpanID != (octrace.SpanID{}) {
			r.parent = s.ParentSpanID
		}
		r.failed = s.Attributes["error"] == true
		for k, v := range s.Attributes {
			r.message += fmt.Sprintf("%s=%v;", k, v)
		}
		out = append(out, r)
	}
	return
}

func (l *ocLib) name(e *rt.Entry, m *rt.Method, c *TraceCase) (string, string) {
	return c.Instance + ".", e.Iface + "." + m.Name
}

// ---- OpenTelemetry ----

type otelLib struct{ p *provider }

func (l *otelLib) reset() {
	l.p = &provider{}
	otel.SetTracerProvider(l.p)
}

func (l *otelLib) make(e *rt.Entry, spy any, c *TraceCase, custom func(any, bool, map[string]any, map[string]any)) reflect.Value {
	var f func(trace.Span, map[string]interface{}, map[string]interface{})
	switch c.Custom {
	case 0:
		return rt.Make(e.New, spy, c.Instance)
	case 1:
		f = func(s trace.Span, p, r map[string]interface{}) {
			x, _ := s.(*otelSpan)
			custom(x, x != nil && x.ended == 0, p, r)
		}
	}
	return rt.Make(e.New, spy, c.Instance, f)
}

func (l *otelLib) root(c *TraceCase) (context.Context, any) {
	if c.Parent == 0 {
		return context.Background(), nil
	}
	s := &otelSpan{name: "root"}
	return trace.ContextWithSpan(context.Background(), s), s
}

func (l *otelLib) current(ctx context.Context) (any, bool) {
	if s, ok := trace.SpanFromContext(ctx).(*otelSpan); ok {
		return s, s.ended == 0
	}
	return nil, false
}

func (l *otelLib) spans() (out []*spanRec) {
	for _, s := range l.p.spans {
		r := &spanRec{id: s, name: s.tracer + "/" + s.name, finished: s.ended, late: s.late, message: s.desc}
		if p, ok := s.parent.(*otelSpan); ok {
			r.parent = p
		}
		for _, st := range s.status {
			r.failed = st == codes.Error
		}
		if len(s.errs) == 1 {
			r.err = s.errs[0]
		}
		if len(s.errs) > 0 && !r.failed {
			r.failed, r.message = true, "recorded but not marked"
		}
		out = append(out, r)
	}
	return
}

func (l *otelLib) name(e *rt.Entry, m *rt.Method, c *TraceCase) (string, string) {
	n := e.Iface
	if p := e.Vars["SpanNamePrefix"]; p != "" {
		n = p
	}
	return c.Instance + "/", n + "." + m.Name
}

// ---- Elastic APM ----

// apmSink receives what the agent sends.
type apmSink struct {
	mu    sync.Mutex
	spans []model.Span
	errs  []model.Error
}

func (s *apmSink) SendStream(ctx context.Context, r io.Reader) error {
	z, err := zlib.NewReader(r)
	if err != nil {
		return err
	}
	dec := json.NewDecoder(z)
	for {
		var x struct {
			Error *model.Error `json:"error"`
			Span  *model.Span  `json:"span"`
		}
		if err := dec.Decode(&x); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
		s.mu.Lock()
		if x.Error != nil {
			s.errs = append(s.errs, *x.Error)
		}
		if x.Span != nil {
			s.spans = append(s.spans, *x.Span)
		}
		s.mu.Unlock()
	}
}

type apmPayload struct {
	spans []model.Span
	errs  []model.Error
}

func (s *apmSink) take() apmPayload {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := apmPayload{s.spans, s.errs}
	s.spans, s.errs = nil, nil
	return p
}

type apmLib struct {
	t   *apm.Tracer
	rec apmSink
	tx  *apm.Transaction
	// the span given as the parent
	parent *apm.Span
	open   map[apm.SpanID]bool
}

func newAPM() *apmLib {
	l := &apmLib{}
	t, err := apm.NewTracerOptions(apm.TracerOptions{ServiceName: "vh", Transport: &l.rec})
	if err != nil {
		panic(err)
	}
	l.t = t
	return l
}

func (l *apmLib) reset() {
	l.t.Flush(nil)
	l.rec.take()
	l.tx, l.parent = nil, nil
}

func (l *apmLib) make(e *rt.Entry, spy any, c *TraceCase, _ func(any, bool, map[string]any, map[string]any)) reflect.Value {
	args := []any{spy}
	if c.Labels {
		args = append(args, rt.Make(e.Extra["WithUsingSetLabel"]).Interface())
	}
	if c.SpanType != "" {
		args = append(args, rt.Make(e.Extra["WithSpanType"], c.SpanType).Interface())
	}
	return rt.Make(e.New, args...)
}

func (l *apmLib) root(c *TraceCase) (context.Context, any) {
	ctx := context.Background()
	if c.Parent == 0 {
		return ctx, nil
	}
	l.tx = l.t.StartTransaction("tx", "vh")
	ctx = apm.ContextWithTransaction(ctx, l.tx)
	if c.Parent == 1 {
		return ctx, l.tx.TraceContext().Span
	}
	l.parent, ctx = apm.StartSpan(ctx, "parent", "vh")
	return ctx, l.parent.TraceContext().Span
}

func (l *apmLib) current(ctx context.Context) (any, bool) {
	if s := apm.SpanFromContext(ctx); s != nil {
		return s.TraceContext().Span, !s.Dropped() && s.SpanData != nil
	}
	return nil, false
}

func (l *apmLib) spans() (out []*spanRec) {
	var own any
	if l.parent != nil {
		own = l.parent.TraceContext().Span
		l.parent.End()
	}
	if l.tx != nil {
		l.tx.End()
	}
	l.t.Flush(nil)
	p := l.rec.take()
	for _, s := range p.spans {
		r := &spanRec{id: apm.SpanID(s.ID), parent: apm.SpanID(s.ParentID), name: s.Name, finished: 1, kind: s.Type, labels: map[string]any{}}
		if r.id == own {
			continue
		}
		if s.Context != nil {
			for _, t := range s.Context.Tags {
				r.labels[t.Key] = t.Value
			}
		}
		for _, x := range p.errs {
			if x.ParentID == s.ID {
				if r.failed {
					r.message = "recorded twice"
					break
				}
				r.failed, r.message = true, x.Exception.Message
			}
		}
		out = append(out, r)
	}
	for _, x := range p.errs {
		found := false
		for _, r := range out {
			found = found || r.id == apm.SpanID(x.ParentID)
		}
		if !found {
			out = append(out, &spanRec{id: "an error without a span", name: x.Exception.Message})
		}
	}
	return
}

func (l *apmLib) name(e *rt.Entry, m *rt.Method, c *TraceCase) (string, string) {
	n := strings.ToLower(e.Iface)
	if p := e.Vars["ComponentName"]; p != "" {
		n = p
	}
	return "", n + "." + m.Name
}

// ---- the property ----

var tracers = map[string]tracing{}

// C17 checks the tracing decorators.
var C17 = &rt.Prop{
	Setup: func([]*rt.Entry) {
		oc := &ocLib{}
		octrace.ApplyConfig(octrace.Config{DefaultSampler: octrace.AlwaysSample()})
		octrace.RegisterExporter(oc)
		tracers = map[string]tracing{"opentracing": &otLib{}, "opencensus": oc, "opentelemetry": &otelLib{}, "elasticapm": newAPM()}
	},
	Draw: func(t *rapid.T, e *rt.Entry) any {
		c := &TraceCase{
			Custom: rapid.IntRange(0, 2).Draw(t, "custom"), Parent: rapid.IntRange(0, 2).Draw(t, "parent"),
			Instance: rapid.SampledFrom([]string{"inst", "", "a.b", "x y"}).Draw(t, "instance"),
			Labels:   rapid.Bool().Draw(t, "labels"), SpanType: rapid.SampledFrom([]string{"", "db", "custom.type"}).Draw(t, "spanType"),
		}
		ctxMs := e.Where(func(m *rt.Method) bool { return m.AcceptsCtx })
		n := 0
		var nodes func(depth int) []TNode
		nodes = func(depth int) []TNode {
			var out []TNode
			k := rapid.IntRange(0, 3).Draw(t, "k")
			for i := 0; i < k && n < 8; i++ {
				n++
				x := TNode{C: rtstd.Call{
					Args: rapid.IntRange(0, 1000).Draw(t, "args"), Res: rapid.IntRange(0, 1000).Draw(t, "res"),
					Outcome: rapid.IntRange(0, 2).Draw(t, "outcome")}}
				if len(ctxMs) > 0 && rapid.IntRange(0, 3).Draw(t, "any") < 3 {
					x.C.M = ctxMs[rapid.IntRange(0, len(ctxMs)-1).Draw(t, "mctx")]
				} else {
					x.C.M = rapid.IntRange(0, len(e.Methods)-1).Draw(t, "m")
				}
				if depth > 0 {
					x.Sub = nodes(depth - 1)
				}
				out = append(out, x)
			}
			return out
		}
		c.Calls = nodes(3)
		if len(c.Calls) == 0 {
			return nil
		}
		return c
	},
	New:   func() any { return &TraceCase{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result { return checkTracing(e, s.(*TraceCase)) },
}

type traceRec struct {
	n         *TNode
	m         *rt.Method
	depth     int
	ctx       context.Context
	parent    any
	args, res []reflect.Value
	seen      int
	span      any
	custom    int
}

func checkTracing(e *rt.Entry, c *TraceCase) rt.Result {
	tr := tracers[e.Template]
	tr.reset()
	bad := ""
	fail := func(r *traceRec, f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf("%s.%s: ", e.Decorator, r.m.Name) + fmt.Sprintf(f, a...)
		}
	}
	var stack, recs []*traceRec
	// contexts of an APM transaction carry no spans unless there is one
	emits := e.Template != "elasticapm" || c.Parent > 0
	var run func(n *TNode, depth int, ctx context.Context, parent any)
	var d reflect.Value
	spy := e.Spy(rt.HandlerFunc(func(m int, a []reflect.Value) []reflect.Value {
		r := stack[len(stack)-1]
		r.seen++
		if r.n.C.M != m || r.seen > 1 {
			fail(r, "another or a second call reached the wrapped value")
			return nil
		}
		if s := r.m.DiffArgs(r.args, a, true); s != "" {
			fail(r, "%s", s)
		}
		ctx, parent := r.ctx, r.parent
		if r.m.AcceptsCtx {
			ctx, _ = a[0].Interface().(context.Context)
			if ctx == nil || ctx.Value(rt.Key{}) != r.ctx.Value(rt.Key{}) {
				fail(r, "the context of the wrapped method does not derive from the caller's")
				return r.res
			}
			if emits {
				id, open := tr.current(ctx)
				switch {
				case id == nil || id == r.parent:
					fail(r, "the context of the wrapped method does not carry a new span")
				case !open:
					fail(r, "the span in the context of the wrapped method is finished")
				}
				r.span = id
				parent = id
			}
		}
		for i := range r.n.Sub {
			run(&r.n.Sub[i], r.depth+1, ctx, parent)
		}
		if r.n.C.Outcome == 2 {
			panic(rt.ErrBoom)
		}
		return r.res
	}))
	same := func(r *traceRec, what string, m map[string]any, names []string, vals []reflect.Value, special map[int]string) {
		if s := mapFields(m, names, vals, special); s != "" {
			fail(r, "%s given to the span decorator: %s", what, s)
		}
	}
	custom := func(id any, open bool, params, results map[string]any) {
		r := stack[len(stack)-1]
		r.custom++
		if id != r.span {
			fail(r, "the span decorator got another span")
		}
		if !open {
			fail(r, "the span decorator got a finished span")
		}
		args := append([]reflect.Value{}, r.args...)
		sp := map[int]string{}
		if r.m.AcceptsCtx {
			sp[0] = "ctx"
			// the context may be the one with the span
			v := reflect.New(reflect.TypeFor[context.Context]()).Elem()
			x, _ := params["ctx"].(context.Context)
			if x == nil || x.Value(rt.Key{}) != r.ctx.Value(rt.Key{}) {
				fail(r, "the span decorator did not get the context")
				return
			}
			v.Set(reflect.ValueOf(x))
			args[0] = v
		}
		same(r, "parameters", params, r.m.Params, args, sp)
		res := r.res
		if r.n.C.Outcome == 2 {
			res = nil
			for _, t := range r.m.Out() {
				res = append(res, reflect.Zero(t))
			}
		}
		sp = map[int]string{}
		if r.m.ReturnsErr {
			sp[len(res)-1] = "err"
		}
		same(r, "results", results, r.m.Results, res, sp)
	}
	d = e.AsIface(tr.make(e, spy, c, custom))
	run = func(n *TNode, depth int, ctx context.Context, parent any) {
		if bad != "" {
			return
		}
		r := &traceRec{n: n, m: e.Methods[n.C.M], depth: depth, parent: parent}
		r.ctx = context.WithValue(ctx, rt.Key{}, len(recs)+1)
		recs = append(recs, r)
		r.res, _ = n.C.Results(e)
		r.args = e.ArgsFor(n.C.M, r.ctx, n.C.Args)
		stack = append(stack, r)
		res, pan := e.Invoke(d, n.C.M, r.args)
		stack = stack[:len(stack)-1]
		switch {
		case r.seen != 1:
			fail(r, "the wrapped method was called %d times (panic %v)", r.seen, pan)
		case (pan != nil) != (n.C.Outcome == 2):
			fail(r, "panic %v", pan)
		case pan == nil:
			if s := rt.DiffResults(r.res, res); s != "" {
				fail(r, "%s", s)
			}
		}
	}
	ctx, parent := tr.root(c)
	for i := range c.Calls {
		run(&c.Calls[i], 0, ctx, parent)
	}
	res := rt.Result{}
	var spans []*spanRec
	if bad == "" {
		spans = tr.spans()
		checkSpans(e, c, tr, recs, spans, emits, fail)
	}
	if bad != "" {
		var sb strings.Builder
		for _, s := range spans {
			fmt.Fprintf(&sb, "  %q finished %d times, failed %v, %q\n", s.name, s.finished, s.failed, s.message)
		}
		return rt.Fail("%s (%d calls)\nspans:\n%s", bad, len(recs), sb.String())
	}
	for _, r := range recs {
		if r.m.AcceptsCtx {
			res.Nontrivial = true
			res.Features = append(res.Features, fmt.Sprintf("%s depth %d", e.Template, r.depth), []string{"returned", "failed", "panicked"}[r.n.C.Outcome])
			if c.Custom == 1 {
				res.Features = append(res.Features, "span decorator")
			}
		} else {
			res.Features = append(res.Features, "no context")
		}
	}
	return res
}

func checkSpans(e *rt.Entry, c *TraceCase, tr tracing, recs []*traceRec, spans []*spanRec, emits bool, fail func(r *traceRec, f string, a ...any)) {
	byID := map[any]*spanRec{}
	for _, s := range spans {
		byID[s.id] = s
	}
	want := 0
	for _, r := range recs {
		if !r.m.AcceptsCtx || !emits {
			continue
		}
		want++
		s := byID[r.span]
		if s == nil {
			fail(r, "the span of the call was not recorded or not finished")
			return
		}
		pre, suf := tr.name(e, r.m, c)
		if !strings.HasPrefix(s.name, pre) || !strings.HasSuffix(s.name, suf) {
			fail(r, "the span is named %q, want %q...%q", s.name, pre, suf)
		}
		if s.parent != r.parent {
			fail(r, "the parent of span %q is %v, want %v", s.name, s.parent, r.parent)
		}
		if s.finished != 1 {
			fail(r, "the span was finished %d times", s.finished)
		}
		if s.late {
			fail(r, "the span was changed after it had been finished")
		}
		isCustom := c.Custom == 1 && e.Template != "elasticapm"
		if n := r.custom; isCustom && n != 1 || !isCustom && n != 0 {
			fail(r, "the span decorator was called %d times", n)
		}
		var err error
		if r.n.C.Outcome < 2 {
			err = r.m.ErrOf(r.res)
		}
		switch {
		case isCustom && s.failed:
			fail(r, "the error was recorded in spite of the span decorator")
		case isCustom:
		case err == nil && s.failed:
			fail(r, "an error was recorded (%s) and none returned", s.message)
		case err != nil && !s.failed:
			fail(r, "the error was not recorded")
		case err != nil && !strings.Contains(s.message, err.Error()):
			fail(r, "the span says %q about error %q", s.message, err)
		case err != nil && e.Template == "opentelemetry" && s.err != err:
			fail(r, "another error was recorded")
		}
		if e.Template == "elasticapm" {
			checkAPM(e, c, r, s, fail)
		}
	}
	if len(spans) != want {
		fail(recs[len(recs)-1], "%d spans for %d calls of methods with a context", len(spans), want)
	}
}

func checkAPM(e *rt.Entry, c *TraceCase, r *traceRec, s *spanRec, fail func(r *traceRec, f string, a ...any)) {
	kind := c.SpanType
	if kind == "" {
		kind = strings.TrimSuffix(strings.TrimSuffix(s.name, r.m.Name), ".")
	}
	if first, _, _ := strings.Cut(kind, "."); s.kind != kind && s.kind != first {
		fail(r, "the span has type %q, want %q", s.kind, kind)
	}
	if !c.Labels && len(s.labels) > 0 {
		fail(r, "the span has labels %v", s.labels)
	}
	if !c.Labels {
		return
	}
	for i, n := range r.m.Params {
		unique := n != "_" && n != "" && n == strings.ToLower(n) && n != "ctx" && n != "err"
		for j, x := range r.m.Params {
			if i != j && strings.ReplaceAll(strings.ToLower(x), "_", "") == strings.ReplaceAll(n, "_", "") {
				unique = false
			}
		}
		if !unique || strings.Trim(n, "abcdefghijklmnopqrstuvwxyz") != "" {
			continue
		}
		switch v := r.args[i].Interface().(type) {
		case string:
			if s.labels[n] != v {
				fail(r, "label %s is %v, want %q", n, s.labels[n], v)
			}
		case bool:
			if s.labels[n] != v {
				fail(r, "label %s is %v, want %v", n, s.labels[n], v)
			}
		}
	}
}
