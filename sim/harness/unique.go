package main

import (
	"fmt"
	"strconv"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/protobuf/proto"
)

// repeated names a resource, scope or metric that data has more than once under the same parent.
// Lax takes messages without content for absent ones.
func repeated(d *v1.Data, lax bool) string {
	seen := map[string]bool{}
	first := ""
	see := func(what, id string) {
		if seen[id] && first == "" {
			first = what + " " + short(id)
		}
		seen[id] = true
	}
	opt := func(m proto.Message) string {
		if !lax && !m.ProtoReflect().IsValid() {
			return "none"
		}
		return "{" + dumpM(m) + "}"
	}
	switch e := d.GetData().(type) {
	case *v1.Data_Metrics:
		for _, r := range e.Metrics.GetResourceMetrics() {
			rid := strconv.Quote(r.GetSchemaUrl()) + opt(r.GetResource())
			see("resource", rid)
			for _, s := range r.GetScopeMetrics() {
				sid := rid + " scope " + strconv.Quote(s.GetSchemaUrl()) + opt(s.GetScope())
				see("scope", sid)
				for _, m := range s.GetMetrics() {
					see("metric", sid+" metric "+metricID(m, lax))
				}
			}
		}
	case *v1.Data_Logs:
		for _, r := range e.Logs.GetResourceLogs() {
			rid := strconv.Quote(r.GetSchemaUrl()) + opt(r.GetResource())
			see("resource", rid)
			for _, s := range r.GetScopeLogs() {
				see("scope", rid+" scope "+strconv.Quote(s.GetSchemaUrl())+opt(s.GetScope()))
			}
		}
	case *v1.Data_Traces:
		for _, r := range e.Traces.GetResourceSpans() {
			rid := strconv.Quote(r.GetSchemaUrl()) + opt(r.GetResource())
			see("resource", rid)
			for _, s := range r.GetScopeSpans() {
				see("scope", rid+" scope "+strconv.Quote(s.GetSchemaUrl())+opt(s.GetScope()))
			}
		}
	}
	return first
}

// metricID is all of a metric but its data points.
func metricID(m *metricsv1.Metric, lax bool) string {
	n := 0
	c := &metricsv1.Metric{Name: m.GetName(), Description: m.GetDescription(), Unit: m.GetUnit(), Metadata: m.GetMetadata()}
	kind := ""
	switch e := m.GetData().(type) {
	case *metricsv1.Metric_Gauge:
		n, kind = len(e.Gauge.GetDataPoints()), "gauge"
	case *metricsv1.Metric_Sum:
		n, kind = len(e.Sum.GetDataPoints()), fmt.Sprint("sum ", e.Sum.GetAggregationTemporality(), e.Sum.GetIsMonotonic())
	case *metricsv1.Metric_Histogram:
		n, kind = len(e.Histogram.GetDataPoints()), fmt.Sprint("histogram ", e.Histogram.GetAggregationTemporality())
	case *metricsv1.Metric_ExponentialHistogram:
		n, kind = len(e.ExponentialHistogram.GetDataPoints()), fmt.Sprint("exponential ", e.ExponentialHistogram.GetAggregationTemporality())
	case *metricsv1.Metric_Summary:
		n, kind = len(e.Summary.GetDataPoints()), "summary"
	}
	if lax && n == 0 {
		kind = ""
	}
	return dumpM(c) + " " + kind
}
