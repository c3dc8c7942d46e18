// Package rtlibs holds run-time halves of properties of decorators that use
// third-party libraries.
package rtlibs

import (
	"context"
	"io"
	"reflect"
	"testing"

	"github.com/sirupsen/logrus"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"pgregory.net/rapid"

	"verif/libs/rt"
	"verif/libs/rtstd"
)

func any1(*rt.Method) bool { return true }

// C15 checks all templates.
var C15 = &rt.Prop{
	Setup: func([]*rt.Entry) { otel.SetTracerProvider(&provider{}) },
	Draw: func(t *rapid.T, e *rt.Entry) any {
		c := rtstd.DrawCalls(t, e, 5, 3, any1)
		if c == nil {
			return nil
		}
		for i := range c.Calls {
			if e.Template == "twirp_error" && c.Calls[i].Outcome == 1 || e.Template == "fallback" && c.Calls[i].Outcome > 0 {
				c.Calls[i].Outcome = 0
			}
			if e.Template == "fallback" {
				// a cancelled call may return early
				c.Calls[i].Cancel = false
			}
		}
		return c
	},
	New: func() any { return &rtstd.Calls{} },
	Check: func(t *testing.T, e *rt.Entry, s any) rt.Result {
		return rtstd.Transparent(e, func(base ...any) reflect.Value { return idle(e, base...) }, s.(*rtstd.Calls))
	},
}

// idle makes a decorator that has no reason to interfere.
func idle(e *rt.Entry, base ...any) reflect.Value {
	switch e.Template {
	case "logrus":
		l := logrus.New()
		l.SetOutput(io.Discard)
		l.SetLevel(logrus.TraceLevel)
		return rt.Make(e.New, base[0], logrus.NewEntry(l))
	case "opencensus", "opentelemetry", "opentracing", "prometheus":
		return rt.Make(e.New, base[0], "instance")
	}
	return rtstd.Idle(e, base...)
}

// provider records the spans of the OpenTelemetry stand-in.
type provider struct{ spans []*otelSpan }

type otelSpan struct {
	tracer, name string
	parent       trace.Span
	ended        int
	errs         []error
	status       []codes.Code
	desc         string
	attrs        []attribute.KeyValue
	late         bool // changed after the end
}

type otelTracer struct {
	p    *provider
	name string
}

func (p *provider) Tracer(name string, _ ...trace.TracerOption) trace.Tracer {
	return otelTracer{p, name}
}

func (t otelTracer) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	s := &otelSpan{tracer: t.name, name: name, parent: trace.SpanFromContext(ctx)}
	t.p.spans = append(t.p.spans, s)
	return trace.ContextWithSpan(ctx, s), s
}

func (s *otelSpan) End(...trace.SpanEndOption)            { s.ended++ }
func (s *otelSpan) AddEvent(string, ...trace.EventOption) { s.late = s.late || s.ended > 0 }
func (s *otelSpan) IsRecording() bool                     { return s.ended == 0 }
func (s *otelSpan) RecordError(err error, _ ...trace.EventOption) {
	s.errs = append(s.errs, err)
	s.late = s.late || s.ended > 0
}
func (s *otelSpan) SetStatus(c codes.Code, d string) {
	s.status, s.desc = append(s.status, c), d
	s.late = s.late || s.ended > 0
}
func (s *otelSpan) SetName(n string) { s.name = n }
func (s *otelSpan) SetAttributes(kv ...attribute.KeyValue) {
	s.attrs = append(s.attrs, kv...)
	s.late = s.late || s.ended > 0
}
