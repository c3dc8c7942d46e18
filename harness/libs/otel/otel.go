// Package otel is a stand-in with the part of the API gowrap's template uses.
package otel

import "go.opentelemetry.io/otel/trace"

var provider trace.TracerProvider

// SetTracerProvider sets the provider.
func SetTracerProvider(p trace.TracerProvider) { provider = p }

// GetTracerProvider returns the provider.
func GetTracerProvider() trace.TracerProvider { return provider }

// Tracer returns a tracer of the provider.
func Tracer(name string, opts ...trace.TracerOption) trace.Tracer {
	return provider.Tracer(name, opts...)
}
