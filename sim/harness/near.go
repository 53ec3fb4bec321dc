package main

import (
	"fmt"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// near makes a copy of an earlier export of the same signal whose records are new and in which
// the identity of one resource, scope or metric differs in a single respect.
func (g *generator) near(sig v1.Scan_SCOPE) *v1.Data {
	var from []*v1.Data
	for _, d := range g.made {
		if dataSignal(d) == sig {
			from = append(from, d)
		}
	}
	if len(from) == 0 {
		return nil
	}
	d := proto.Clone(from[g.r.IntN(len(from))]).(*v1.Data)
	var muts []func()
	moved := g.chance(0.5) // otherwise at the times of the original
	ts := func(t *uint64) {
		if moved {
			*t = g.ts()
		}
	}
	switch x := d.Data.(type) {
	case *v1.Data_Metrics:
		for _, rm := range x.Metrics.GetResourceMetrics() {
			rm.Resource = g.nearResource(rm.Resource, &rm.SchemaUrl, &muts)
			for _, sm := range rm.ScopeMetrics {
				sm.Scope = g.nearScope(sm.Scope, &sm.SchemaUrl, &muts)
				for _, m := range sm.Metrics {
					g.nearMetric(m, &muts)
					switch e := m.Data.(type) {
					case *metricsv1.Metric_Gauge:
						for _, p := range e.Gauge.DataPoints {
							p.StartTimeUnixNano = g.mark()
							ts(&p.TimeUnixNano)
						}
					case *metricsv1.Metric_Sum:
						for _, p := range e.Sum.DataPoints {
							p.StartTimeUnixNano = g.mark()
							ts(&p.TimeUnixNano)
						}
					case *metricsv1.Metric_Histogram:
						for _, p := range e.Histogram.DataPoints {
							p.StartTimeUnixNano = g.mark()
							ts(&p.TimeUnixNano)
						}
					case *metricsv1.Metric_ExponentialHistogram:
						for _, p := range e.ExponentialHistogram.DataPoints {
							p.StartTimeUnixNano = g.mark()
							ts(&p.TimeUnixNano)
						}
					case *metricsv1.Metric_Summary:
						for _, p := range e.Summary.DataPoints {
							p.StartTimeUnixNano = g.mark()
							ts(&p.TimeUnixNano)
						}
					}
				}
			}
		}
	case *v1.Data_Logs:
		for _, rm := range x.Logs.GetResourceLogs() {
			rm.Resource = g.nearResource(rm.Resource, &rm.SchemaUrl, &muts)
			for _, sm := range rm.ScopeLogs {
				sm.Scope = g.nearScope(sm.Scope, &sm.SchemaUrl, &muts)
				for _, l := range sm.LogRecords {
					g.nearLog(l, &muts)
					l.ObservedTimeUnixNano = g.mark()
					ts(&l.TimeUnixNano)
				}
			}
		}
	case *v1.Data_Traces:
		for _, rm := range x.Traces.GetResourceSpans() {
			rm.Resource = g.nearResource(rm.Resource, &rm.SchemaUrl, &muts)
			for _, sm := range rm.ScopeSpans {
				sm.Scope = g.nearScope(sm.Scope, &sm.SchemaUrl, &muts)
				for _, s := range sm.Spans {
					g.nearSpan(s, &muts)
					s.TraceState = fmt.Sprint("m", g.mark())
					if moved {
						d := s.EndTimeUnixNano - s.StartTimeUnixNano
						s.StartTimeUnixNano = g.ts()
						s.EndTimeUnixNano = s.StartTimeUnixNano + d
					}
				}
			}
		}
	}
	if len(muts) > 0 {
		muts[g.r.IntN(len(muts))]()
	}
	return clone(d)
}

func dataSignal(d *v1.Data) v1.Scan_SCOPE {
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return v1.Scan_METRICS
	case *v1.Data_Logs:
		return v1.Scan_LOGS
	}
	return v1.Scan_TRACES
}

// other changes a text a little: the last character, its length, or entirely.
func (g *generator) other(s string) string {
	switch g.r.IntN(4) {
	case 0:
		return s + "x"
	case 1:
		if r := []rune(s); len(r) > 1 {
			c := 'y'
			if r[len(r)-1] == c {
				c = 'z'
			}
			r[len(r)-1] = c
			return string(r)
		}
		return s + "y"
	case 2:
		if s != "" {
			return ""
		}
		return "x"
	}
	return g.pick(g.vals)
}

func (g *generator) nearResource(r *resourcev1.Resource, schema *string, muts *[]func()) *resourcev1.Resource {
	*muts = append(*muts, func() { *schema = g.other(*schema) })
	if r == nil {
		return r
	}
	*muts = append(*muts, func() { r.DroppedAttributesCount ^= 1 }, func() { r.Attributes = g.nearAttrs(r.Attributes) }, func() { r.Attributes = g.nearAttrs(r.Attributes) })
	return r
}

func (g *generator) nearScope(s *commonv1.InstrumentationScope, schema *string, muts *[]func()) *commonv1.InstrumentationScope {
	*muts = append(*muts, func() { *schema = g.other(*schema) })
	if s == nil {
		return s
	}
	*muts = append(*muts, func() { s.Name = g.other(s.Name) }, func() { s.Version = g.other(s.Version) }, func() { s.DroppedAttributesCount ^= 1 },
		func() { s.Name, s.Version = s.Version, s.Name }, func() { s.Name, s.Version = shift(s.Name, s.Version) },
		func() { s.Attributes = g.nearAttrs(s.Attributes) }, func() { s.Attributes = g.nearAttrs(s.Attributes) })
	return s
}

// shift moves the border between two adjacent texts.
func shift(a, b string) (string, string) {
	if r := []rune(a); len(r) > 0 {
		return string(r[:len(r)-1]), string(r[len(r)-1]) + b
	}
	return b, a
}

func (g *generator) nearMetric(m *metricsv1.Metric, muts *[]func()) {
	add := func(f func()) { *muts = append(*muts, f) }
	add(func() { m.Name = g.other(m.Name) })
	add(func() { m.Description = g.other(m.Description) })
	add(func() { m.Unit = g.other(m.Unit) })
	add(func() { m.Name, m.Description = shift(m.Name, m.Description) })
	add(func() { m.Description, m.Unit = shift(m.Description, m.Unit) })
	add(func() { m.Metadata = g.nearAttrs(m.Metadata) })
	next := func(t metricsv1.AggregationTemporality) metricsv1.AggregationTemporality { return (t + 1) % 3 }
	switch e := m.Data.(type) {
	case *metricsv1.Metric_Sum:
		s := e.Sum
		add(func() { s.IsMonotonic = !s.IsMonotonic })
		add(func() { s.IsMonotonic = !s.IsMonotonic })
		add(func() { s.AggregationTemporality = next(s.AggregationTemporality) })
		add(func() { m.Data = &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: s.DataPoints}} })
	case *metricsv1.Metric_Gauge:
		s := e.Gauge
		add(func() { m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: s.DataPoints}} })
	case *metricsv1.Metric_Histogram:
		s := e.Histogram
		add(func() { s.AggregationTemporality = next(s.AggregationTemporality) })
	case *metricsv1.Metric_ExponentialHistogram:
		s := e.ExponentialHistogram
		add(func() { s.AggregationTemporality = next(s.AggregationTemporality) })
	}
	// the same metric of another kind
	add(func() {
		switch g.r.IntN(3) {
		case 0:
			m.Data = &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{DataPoints: []*metricsv1.SummaryDataPoint{{StartTimeUnixNano: g.mark(), TimeUnixNano: g.ts()}}}}
		case 1:
			m.Data = &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{StartTimeUnixNano: g.mark(), TimeUnixNano: g.ts()}}}}
		case 2:
			m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: []*metricsv1.ExponentialHistogramDataPoint{{StartTimeUnixNano: g.mark(), TimeUnixNano: g.ts()}}}}
		}
	})
}

func (g *generator) nearLog(l *logsv1.LogRecord, muts *[]func()) {
	*muts = append(*muts, func() { l.SeverityText = g.other(l.SeverityText) }, func() { l.Attributes = g.nearAttrs(l.Attributes) })
}

func (g *generator) nearSpan(s *tracev1.Span, muts *[]func()) {
	*muts = append(*muts, func() { s.Name = g.other(s.Name) }, func() { s.Attributes = g.nearAttrs(s.Attributes) },
		func() { s.SpanId, s.ParentSpanId = s.ParentSpanId, s.SpanId })
}

// nearAttrs changes one thing about a list of attributes.
func (g *generator) nearAttrs(a []*commonv1.KeyValue) []*commonv1.KeyValue {
	r := g.r
	if len(a) == 0 {
		return append(a, g.kv(0))
	}
	i := r.IntN(len(a))
	switch r.IntN(7) {
	case 0: // one more
		return append(a, g.kv(0))
	case 1: // the same twice
		return append(a, proto.Clone(a[i]).(*commonv1.KeyValue))
	case 2: // one less
		return append(append([]*commonv1.KeyValue{}, a[:i]...), a[i+1:]...)
	case 3: // another order
		if j := r.IntN(len(a)); j != i {
			a[i], a[j] = a[j], a[i]
			return a
		}
		a[i].Key = g.other(a[i].Key)
	case 4: // values swapped
		if j := r.IntN(len(a)); j != i {
			a[i].Value, a[j].Value = a[j].Value, a[i].Value
			return a
		}
		a[i].Key = g.other(a[i].Key)
	case 5:
		a[i].Key = g.other(a[i].Key)
		if a[i].Key == "" && !g.p.Weird {
			a[i].Key = "x"
		}
	default:
		a[i].Value = g.nearValue(a[i].Value)
	}
	return a
}

// nearValue changes a value a little, or gives it another type of the same look.
func (g *generator) nearValue(v *commonv1.AnyValue) *commonv1.AnyValue {
	str := func(s string) *commonv1.AnyValue {
		if s == "" {
			s = "x"
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
	}
	switch x := v.GetValue().(type) {
	case *commonv1.AnyValue_StringValue:
		if g.r.IntN(4) == 0 && x.StringValue != "" {
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte(x.StringValue)}}
		}
		return str(g.other(x.StringValue))
	case *commonv1.AnyValue_BytesValue:
		if g.r.IntN(3) == 0 && len(x.BytesValue) > 0 {
			return str("b" + fmt.Sprintf("%x", x.BytesValue))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: append(append([]byte{}, x.BytesValue...), 0)}}
	case *commonv1.AnyValue_IntValue:
		switch g.r.IntN(3) {
		case 0:
			return str(fmt.Sprint(x.IntValue))
		case 1:
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: float64(x.IntValue)}}
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: -x.IntValue - 1}}
	case *commonv1.AnyValue_DoubleValue:
		if g.r.IntN(2) == 0 {
			return str(fmt.Sprint(x.DoubleValue))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: x.DoubleValue + 1e-9}}
	case *commonv1.AnyValue_BoolValue:
		if g.r.IntN(2) == 0 {
			return str(fmt.Sprint(x.BoolValue))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: !x.BoolValue}}
	case *commonv1.AnyValue_ArrayValue:
		a := proto.Clone(v).(*commonv1.AnyValue)
		l := a.GetArrayValue()
		if l == nil || len(l.Values) == 0 || g.r.IntN(2) == 0 {
			if l == nil {
				return g.any(0)
			}
			l.Values = append(l.Values, str("x"))
			return a
		}
		i := g.r.IntN(len(l.Values))
		l.Values[i] = g.nearValue(l.Values[i])
		return a
	case *commonv1.AnyValue_KvlistValue:
		a := proto.Clone(v).(*commonv1.AnyValue)
		if l := a.GetKvlistValue(); l != nil {
			l.Values = g.nearAttrs(l.Values)
			return a
		}
	}
	return g.any(0)
}
