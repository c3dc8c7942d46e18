module go.opentelemetry.io/otel

go 1.24.0
