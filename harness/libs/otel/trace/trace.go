// Package trace is a stand-in with the part of the API gowrap's template uses.
// Spans are recorded by the tracer provider set in package otel.
package trace

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

// SpanStartOption configures a span.
type SpanStartOption interface{ start() }

// SpanEndOption configures the end of a span.
type SpanEndOption interface{ end() }

// EventOption configures an event.
type EventOption interface{ event() }

// Span is a span.
type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
}

// Tracer starts spans.
type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}

// TracerOption configures a tracer.
type TracerOption interface{ tracer() }

// TracerProvider gives tracers.
type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}

type key struct{}

// ContextWithSpan returns a context carrying the span.
func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, key{}, s)
}

// SpanFromContext returns the span carried by the context or nil.
func SpanFromContext(ctx context.Context) Span {
	s, _ := ctx.Value(key{}).(Span)
	return s
}
