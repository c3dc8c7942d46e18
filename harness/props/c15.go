package props

import (
	"fmt"

	"verif/harness/gen"

	"pgregory.net/rapid"
)

func init() {
	var ts []string
	for _, h := range Hosted {
		ts = append(ts, h.Name)
	}
	registerRT(&RTProp{
		ID: "C15",
		Rule: "rapid draws modules; gowrap generates decorators from all 18 hosted templates, which are compiled together with generated spies. Histories of calls (arguments, results, errors, panics, " +
			"cancellation during the call) are driven through decorators configured not to interfere; calls the wrapped value gets, results and panics are compared with those given. " +
			"Non-trivial: a call passes arguments or results other than zero values.",
		Templates: ts,
		Pkg:       "rtlibs", Var: "C15", Cfg: rtCfg, Batches: 4, PerBatch: 18, Checks: 60,
		Assumptions: []string{"with several implementations or with failures of the wrapped value, decorators that have a reason to interfere are the subject of other properties", "panics are not driven through fallback (it calls implementations on goroutines of its own)"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C16",
		Rule: "rapid draws modules; gowrap generates log and logrus decorators, and histories of calls with drawn values, errors and panics are driven through them. Writers, a logrus hook and the wrapped value " +
			"record what happens in which order; each line or entry is compared with the values of the call. Non-trivial: a call has arguments or results other than zero values.",
		Templates: []string{"log", "logrus"},
		Pkg:       "rtlibs", Var: "C16", Cfg: rtCfg, Batches: 6, PerBatch: 12, Checks: 120,
		Assumptions: []string{"what is logged after a panic of the wrapped method is left open", "values are expected in the line as fmt.Sprintln writes them"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C17",
		Rule: "rapid draws modules; gowrap generates the four tracing decorators (with drawn names and prefixes). Trees of calls are driven through them: the wrapped value calls the decorator again with the context it got; " +
			"calls return values, errors or panic. Recording tracers (own ones for opentracing and OpenTelemetry, exporters for OpenCensus and Elastic APM) give the spans, which are compared with the tree. " +
			"Non-trivial: a method with a context is called.",
		Templates: []string{"opentracing", "opencensus", "opentelemetry", "elasticapm"},
		Pkg:       "rtlibs", Var: "C17", Cfg: rtCfg, Batches: 6, PerBatch: 12, Checks: 120,
		Vars: func(t *rapid.T, template string, _ int) map[string]string {
			v := map[string]string{}
			if rapid.IntRange(0, 2).Draw(t, "prefixed") == 2 {
				switch template {
				case "opentelemetry":
					v["SpanNamePrefix"] = rapid.SampledFrom([]string{"svc", "a.b", "P"}).Draw(t, "prefix")
				case "elasticapm":
					v["ComponentName"] = rapid.SampledFrom([]string{"svc", "comp_1", "P"}).Draw(t, "component")
				}
			}
			return v
		},
		Assumptions: []string{"go.opentelemetry.io/otel is not installed: decorators are compiled against a stand-in with the part of its API the template uses", "finishing a span twice cannot be seen with OpenCensus and Elastic APM, which ignore it"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C18",
		Rule: "rapid draws modules; gowrap generates prometheus decorators with drawn metric names. Histories of calls (groups of parallel ones included) with drawn outcomes and durations go through several decorators at once; " +
			"the default registry is gathered after every group and the change of every time series is compared with what was called. Non-trivial: a history has at least two groups.",
		Templates: []string{"prometheus"},
		Pkg:       "rtlibs", Var: "C18", Race: true, Cfg: rtCfg, Batches: 3, PerBatch: 10, Checks: 120,
		Vars: func(t *rapid.T, template string, i int) map[string]string {
			if rapid.IntRange(0, 1).Draw(t, "named") == 0 {
				return nil
			}
			return map[string]string{"MetricName": fmt.Sprintf("%s_%d", rapid.SampledFrom([]string{"calls", "svc:time", "X"}).Draw(t, "metric"), i)}
		},
		Assumptions: []string{"a call that panics may count under either result"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C19",
		Rule: "rapid draws modules; gowrap generates circuit breakers. Histories of calls (overlapping ones included) with drawn durations, outcomes, waits, thresholds, open intervals and ignored errors run under virtual time " +
			"(testing/synctest) and are compared with a model of the breaker. Non-trivial: a call is refused.",
		Templates: []string{"circuitbreaker"},
		Pkg:       "rtsync", Var: "C19", Synctest: true, Race: true, Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 150,
		Assumptions: []string{"a call that panics leaves the state as it is", "events never fall on the same instant"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C20",
		Rule: "rapid draws modules; gowrap generates retry decorators. Calls (overlapping ones of different methods included) with drawn outcomes and durations of every attempt, numbers of retries, intervals and " +
			"moments of cancellation run under virtual time; times and arguments of all attempts, the moment of the return and the results are compared with what the plan implies. Non-trivial: a call makes at least two attempts.",
		Templates: []string{"retry"},
		Pkg:       "rtsync", Var: "C20", Synctest: true, Race: true, Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 150,
		Assumptions: []string{"the interval is positive", "the context does not end at the instant an attempt begins or ends, or during an attempt that takes longer than the interval"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C21",
		Rule: "rapid draws modules; gowrap generates fallback decorators. Calls (overlapping ones of different methods included) to one to five implementations with drawn durations, outcomes, reactions to cancellation, " +
			"intervals, cancellations and deadlines run under virtual time; the moments implementations are called, their arguments and contexts, the moment of the return, the result and goroutines left are compared with what the plan implies. " +
			"Non-trivial: a call starts at least two implementations.",
		Templates: []string{"fallback"},
		Pkg:       "rtsync", Var: "C21", Synctest: true, Race: true, Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 150,
		Assumptions: []string{"there is at least one implementation and the interval is positive", "events never fall on the same instant", "implementations do not panic (they run on goroutines of their own)"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C22",
		Rule: "rapid draws modules; gowrap generates rate limits. Histories of up to 24 calls with drawn arrivals, bursts, rates, cancellations and deadlines run under virtual time; the moments calls reach the wrapped value and return are " +
			"compared with bounds from above (budget) and from below (a token bucket, progress of those who wait). Non-trivial: a call has to wait.",
		Templates: []string{"ratelimit"},
		Pkg:       "rtsync", Var: "C22", Synctest: true, Race: true, Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 150,
		Assumptions: []string{"events never fall on the same instant as a tick", "a context does not end before its call arrives", "rates are such that the delay is a whole number of nanoseconds"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C23",
		Rule: "rapid draws modules; gowrap generates round-robin pools. Histories of sequential and concurrent calls (up to eight callers, hundreds of calls each) on drawn methods with drawn outcomes go to pools of one to six values; " +
			"who gets what is compared with a rotation learnt from the calls, and counts with an even distribution. Non-trivial: there are more calls than values, and at least two values.",
		Templates: []string{"robinpool"},
		Pkg:       "rtstd", Var: "C23", Race: true, Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 100,
		Assumptions: []string{"fewer than 2^32 calls are made: the counter of the template wraps there", "schedules of concurrent calls are those of the Go scheduler on eight cores"},
	})
	registerRT(&RTProp{
		ID: "C24",
		Rule: "rapid draws modules; gowrap generates pools. Histories of calls with drawn arrivals, durations and outcomes (panics included) go to pools of one to four values under virtual time; " +
			"which value serves when is compared with mutual exclusion and work conservation, results and panics with those served. Non-trivial: a call has to wait.",
		Templates: []string{"syncpool"},
		Pkg:       "rtsync", Var: "C24", Synctest: true, Race: true, Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 150,
		Assumptions: []string{"wrapped values do not call the pool they are in"},
	})
	registerRT(&RTProp{
		ID: "C25",
		Rule: "rapid draws modules; gowrap generates timeout decorators. Calls (overlapping ones of different methods included) with drawn timeouts per method, durations, outcomes, cancellations and deadlines of the caller's context run " +
			"under virtual time; deadline, identity, end and values of the context the wrapped value gets are compared with what the plan implies. Non-trivial: a method with a timeout is called.",
		Templates: []string{"timeout"},
		Pkg:       "rtsync", Var: "C25", Synctest: true, Race: true, Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 150,
		Assumptions: []string{"timeouts are not negative", "events never fall on the same instant"},
	})
}

func init() {
	registerRT(&RTProp{
		ID: "C26",
		Rule: "rapid draws modules with types that can be validated; gowrap generates the three validating decorators. Calls with drawn arguments (values, pointers, nil pointers, interfaces holding either), failing arguments and messages go through them; " +
			"which values are validated in which order, whether the wrapped method is called, and the error are compared with what the arguments imply. Non-trivial: an argument is validated.",
		Templates: []string{"validate", "grpc_validate", "twirp_validate"},
		Pkg:       "rtlibs", Var: "C26", Batches: 6, PerBatch: 12, Checks: 150,
		Cfg: func(t string) gen.Cfg {
			c := rtCfg(t)
			c.Validatable = true
			return c
		},
		Assumptions: []string{"Validate does not panic"},
	})
	registerRT(&RTProp{
		ID: "C27",
		Rule: "rapid draws modules; gowrap generates twirp_error decorators. Calls with drawn arguments, results and errors (plain, twirp errors with metadata, wrapping ones, other implementations of twirp.Error) go through them; " +
			"type, code, message, cause and metadata of the error and the other results are compared with what the wrapped method returned. Non-trivial: a method with a request returns an error.",
		Templates: []string{"twirp_error"},
		Pkg:       "rtlibs", Var: "C27", Cfg: rtCfg, Batches: 6, PerBatch: 10, Checks: 150,
		Assumptions: []string{"of several arguments any may be the request", "what a method without arguments returns as an error is left open"},
	})
}

func init() {
	var ts []string
	for _, h := range Hosted {
		ts = append(ts, h.Name)
	}
	registerRT(&RTProp{
		ID: "C28",
		Rule: "rapid draws modules; gowrap generates decorators from all 18 hosted templates. Two to six goroutines share one of them and make drawn calls at the same time, built with the race detector; " +
			"calls that reach the wrapped values, results and races are compared with what was asked for. Every scenario counts as non-trivial: at least two goroutines make calls.",
		Templates: ts,
		Pkg:       "rtlibs", Var: "C28", Cfg: rtCfg, Batches: 4, PerBatch: 18, Checks: 60, RaceAll: true,
		Assumptions: []string{"the wrapped values may be used by several goroutines", "schedules are those of the Go scheduler on eight cores; the race detector sees races of these schedules that happen not to interleave, too"},
	})
}
