package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// dump writes a message field by field. A sub-message without content counts as absent: storage
// may hand back an empty one for a missing one and the two mean the same to OTLP readers.
func dump(m protoreflect.Message) string {
	if !m.IsValid() {
		return ""
	}
	var parts []string
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !m.Has(fd) {
			continue
		}
		v := m.Get(fd)
		name := string(fd.Name())
		switch {
		case fd.IsList():
			l := v.List()
			var e []string
			for j := 0; j < l.Len(); j++ {
				e = append(e, dumpVal(fd, l.Get(j)))
			}
			parts = append(parts, name+":["+strings.Join(e, ",")+"]")
		case fd.Message() != nil:
			if s := dump(v.Message()); s != "" || fd.ContainingOneof() != nil && !fd.HasOptionalKeyword() {
				parts = append(parts, name+":{"+s+"}")
			}
		default:
			parts = append(parts, name+":"+dumpVal(fd, v))
		}
	}
	return strings.Join(parts, " ")
}

func dumpVal(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.MessageKind:
		return "{" + dump(v.Message()) + "}"
	case protoreflect.StringKind:
		return strconv.Quote(v.String())
	case protoreflect.BytesKind:
		return fmt.Sprintf("%x", v.Bytes())
	case protoreflect.DoubleKind, protoreflect.FloatKind:
		f := v.Float()
		if f == 0 && math.Signbit(f) {
			return "-0"
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return v.String()
}

func dumpM(m proto.Message) string {
	if m == nil {
		return ""
	}
	return dump(m.ProtoReflect())
}

func attrsDump(kv []*commonv1.KeyValue) string {
	var e []string
	for _, k := range kv {
		e = append(e, dumpM(k))
	}
	return "[" + strings.Join(e, ",") + "]"
}

func resDump(schema string, r *resourcev1.Resource) string {
	return strconv.Quote(schema) + "{" + dumpM(r) + "}"
}

func scopeDump(schema string, s *commonv1.InstrumentationScope) string {
	return strconv.Quote(schema) + "{" + dumpM(s) + "}"
}

// atom is one data point, log record or span with everything it belongs to.
type atom struct {
	Ctx  string // resource, scope, metric
	Body string
}

func (a atom) String() string { return a.Ctx + " | " + a.Body }

// points visits every data point of a metric.
func points(m *metricsv1.Metric, f func(p proto.Message, ts uint64, attrs []*commonv1.KeyValue)) {
	switch e := m.Data.(type) {
	case *metricsv1.Metric_Gauge:
		for _, p := range e.Gauge.GetDataPoints() {
			f(p, p.GetTimeUnixNano(), p.GetAttributes())
		}
	case *metricsv1.Metric_Sum:
		for _, p := range e.Sum.GetDataPoints() {
			f(p, p.GetTimeUnixNano(), p.GetAttributes())
		}
	case *metricsv1.Metric_Histogram:
		for _, p := range e.Histogram.GetDataPoints() {
			f(p, p.GetTimeUnixNano(), p.GetAttributes())
		}
	case *metricsv1.Metric_ExponentialHistogram:
		for _, p := range e.ExponentialHistogram.GetDataPoints() {
			f(p, p.GetTimeUnixNano(), p.GetAttributes())
		}
	case *metricsv1.Metric_Summary:
		for _, p := range e.Summary.GetDataPoints() {
			f(p, p.GetTimeUnixNano(), p.GetAttributes())
		}
	}
}

func metricDump(m *metricsv1.Metric) string {
	k := ""
	switch e := m.Data.(type) {
	case *metricsv1.Metric_Gauge:
		k = "gauge"
	case *metricsv1.Metric_Sum:
		k = fmt.Sprintf("sum %d %v", e.Sum.GetAggregationTemporality(), e.Sum.GetIsMonotonic())
	case *metricsv1.Metric_Histogram:
		k = fmt.Sprintf("histogram %d", e.Histogram.GetAggregationTemporality())
	case *metricsv1.Metric_ExponentialHistogram:
		k = fmt.Sprintf("exphistogram %d", e.ExponentialHistogram.GetAggregationTemporality())
	case *metricsv1.Metric_Summary:
		k = "summary"
	}
	return fmt.Sprintf("metric(%q %q %q %s %s)", m.GetName(), m.GetDescription(), m.GetUnit(), k, attrsDump(m.GetMetadata()))
}

// each visits every atom of the data, with the parts a filter can look at.
func each(d *v1.Data, f func(a atom, ts uint64, own map[label]bool)) {
	switch e := d.GetData().(type) {
	case *v1.Data_Metrics:
		for _, rm := range e.Metrics.GetResourceMetrics() {
			rs, rl := resDump(rm.GetSchemaUrl(), rm.GetResource()), resLabels(rm.GetSchemaUrl(), rm.GetResource())
			for _, sm := range rm.GetScopeMetrics() {
				ss, sl := scopeDump(sm.GetSchemaUrl(), sm.GetScope()), scopeLabels(sm.GetSchemaUrl(), sm.GetScope())
				for _, m := range sm.GetMetrics() {
					md := metricDump(m)
					points(m, func(p proto.Message, ts uint64, attrs []*commonv1.KeyValue) {
						own := union(rl, sl)
						own[label{pName, m.GetName(), ""}] = true
						attrLabels(own, pAttr, attrs)
						f(atom{"metrics " + rs + " " + ss + " " + md, dumpM(p)}, ts, own)
					})
				}
			}
		}
	case *v1.Data_Logs:
		for _, rm := range e.Logs.GetResourceLogs() {
			rs, rl := resDump(rm.GetSchemaUrl(), rm.GetResource()), resLabels(rm.GetSchemaUrl(), rm.GetResource())
			for _, sm := range rm.GetScopeLogs() {
				ss, sl := scopeDump(sm.GetSchemaUrl(), sm.GetScope()), scopeLabels(sm.GetSchemaUrl(), sm.GetScope())
				for _, m := range sm.GetLogRecords() {
					own := union(rl, sl)
					logLabels(own, m)
					f(atom{"logs " + rs + " " + ss, dumpM(m)}, m.GetTimeUnixNano(), own)
				}
			}
		}
	case *v1.Data_Traces:
		for _, rm := range e.Traces.GetResourceSpans() {
			rs, rl := resDump(rm.GetSchemaUrl(), rm.GetResource()), resLabels(rm.GetSchemaUrl(), rm.GetResource())
			for _, sm := range rm.GetScopeSpans() {
				ss, sl := scopeDump(sm.GetSchemaUrl(), sm.GetScope()), scopeLabels(sm.GetSchemaUrl(), sm.GetScope())
				for _, m := range sm.GetSpans() {
					own := union(rl, sl)
					spanLabels(own, m)
					f(atom{"traces " + rs + " " + ss, dumpM(m)}, m.GetStartTimeUnixNano(), own)
				}
			}
		}
	}
}

func union(a, b map[label]bool) map[label]bool {
	o := map[label]bool{}
	for k := range a {
		o[k] = true
	}
	for k := range b {
		o[k] = true
	}
	return o
}

// label is something a filter can match: property, key (or whole value), value (attributes).
type label struct {
	P    int32
	K, V string
}

const (
	pResSchema   = int32(v1.Scan_RESOURCE_SCHEMA)
	pScopeSchema = int32(v1.Scan_SCOPE_SCHEMA)
	pScopeName   = int32(v1.Scan_SCOPE_NAME)
	pScopeVer    = int32(v1.Scan_SCOPE_VERSION)
	pName        = int32(v1.Scan_NAME)
	pTrace       = int32(v1.Scan_TRACE_ID)
	pSpan        = int32(v1.Scan_SPAN_ID)
	pParent      = int32(v1.Scan_PARENT_SPAN_ID)
	pLevel       = int32(v1.Scan_LOGS_LEVEL)
	pResAttr     = int32(v1.Scan_RESOURCE_ATTRIBUTES)
	pScopeAttr   = int32(v1.Scan_SCOPE_ATTRIBUTES)
	pAttr        = int32(v1.Scan_ATTRIBUTES)
)

func isAttr(p int32) bool { return p == pResAttr || p == pScopeAttr || p == pAttr }

func attrLabels(o map[label]bool, p int32, kv []*commonv1.KeyValue) {
	for _, k := range kv {
		if s, ok := k.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok && s.StringValue != "" {
			o[label{p, k.GetKey(), s.StringValue}] = true
		}
	}
}

func base(o map[label]bool, p int32, s string) {
	if s != "" {
		o[label{p, s, ""}] = true
	}
}

func resLabels(schema string, r *resourcev1.Resource) map[label]bool {
	o := map[label]bool{}
	base(o, pResSchema, schema)
	attrLabels(o, pResAttr, r.GetAttributes())
	return o
}

func scopeLabels(schema string, s *commonv1.InstrumentationScope) map[label]bool {
	o := map[label]bool{}
	base(o, pScopeSchema, schema)
	base(o, pScopeName, s.GetName())
	base(o, pScopeVer, s.GetVersion())
	attrLabels(o, pScopeAttr, s.GetAttributes())
	return o
}

func logLabels(o map[label]bool, m *logsv1.LogRecord) {
	base(o, pLevel, m.GetSeverityText())
	base(o, pTrace, fmt.Sprintf("%x", m.GetTraceId()))
	base(o, pSpan, fmt.Sprintf("%x", m.GetSpanId()))
	attrLabels(o, pAttr, m.GetAttributes())
}

func spanLabels(o map[label]bool, m *tracev1.Span) {
	base(o, pName, m.GetName())
	base(o, pTrace, fmt.Sprintf("%x", m.GetTraceId()))
	base(o, pSpan, fmt.Sprintf("%x", m.GetSpanId()))
	base(o, pParent, fmt.Sprintf("%x", m.GetParentSpanId()))
	attrLabels(o, pAttr, m.GetAttributes())
}

// exportLabels collects what any part of the export offers to filters, and its timestamps.
func exportLabels(d *v1.Data) (all map[label]bool, ts []uint64) {
	all = map[label]bool{}
	add := func(m map[label]bool) {
		for k := range m {
			all[k] = true
		}
	}
	switch e := d.GetData().(type) {
	case *v1.Data_Metrics:
		for _, rm := range e.Metrics.GetResourceMetrics() {
			add(resLabels(rm.GetSchemaUrl(), rm.GetResource()))
			for _, sm := range rm.GetScopeMetrics() {
				add(scopeLabels(sm.GetSchemaUrl(), sm.GetScope()))
				for _, m := range sm.GetMetrics() {
					base(all, pName, m.GetName())
					points(m, func(p proto.Message, t uint64, attrs []*commonv1.KeyValue) {
						attrLabels(all, pAttr, attrs)
						ts = append(ts, t)
					})
				}
			}
		}
	case *v1.Data_Logs:
		for _, rm := range e.Logs.GetResourceLogs() {
			add(resLabels(rm.GetSchemaUrl(), rm.GetResource()))
			for _, sm := range rm.GetScopeLogs() {
				add(scopeLabels(sm.GetSchemaUrl(), sm.GetScope()))
				for _, m := range sm.GetLogRecords() {
					logLabels(all, m)
					ts = append(ts, m.GetTimeUnixNano())
				}
			}
		}
	case *v1.Data_Traces:
		for _, rm := range e.Traces.GetResourceSpans() {
			add(resLabels(rm.GetSchemaUrl(), rm.GetResource()))
			for _, sm := range rm.GetScopeSpans() {
				add(scopeLabels(sm.GetSchemaUrl(), sm.GetScope()))
				for _, m := range sm.GetSpans() {
					spanLabels(all, m)
					ts = append(ts, m.GetStartTimeUnixNano())
				}
			}
		}
	}
	return
}

func atoms(d *v1.Data) (r []atom) {
	each(d, func(a atom, _ uint64, _ map[label]bool) { r = append(r, a) })
	return
}

func atomKeys(d *v1.Data) (r []string) {
	for _, a := range atoms(d) {
		r = append(r, a.String())
	}
	return
}

func sorted(m map[label]bool) []label {
	var r []label
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.P != b.P {
			return a.P < b.P
		}
		if a.K != b.K {
			return a.K < b.K
		}
		return a.V < b.V
	})
	return r
}
