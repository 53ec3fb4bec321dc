package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/bits"
	"math/rand/v2"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// generator builds exports and scans from one seeded source.
type generator struct {
	r      *rand.Rand
	p      profile
	marker uint64
	names  []string
	keys   []string
	vals   []string
	lvls   []string
	trace  [][]byte
	span   [][]byte
	res    []*resourcev1.Resource
	resS   []string
	scope  []*commonv1.InstrumentationScope
	scoS   []string
	hubs   []time.Time // times data clusters around
	made   []*v1.Data
	long   bool
}

var simEpoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func newGenerator(r *rand.Rand, p profile) *generator {
	g := &generator{r: r, p: p, marker: 1}
	pool := func(n int, f func() string) (o []string) {
		for i := 0; i < n; i++ {
			o = append(o, f())
		}
		return
	}
	words := []string{"a", "b", "ab", "cpu.time", "http.method", "GET", "x=y", "=", "a=b", "b=c", "svc", "ünïcode/✓", "a:b", "1:6:a", "with space", "a\"b", "ε", "α", "k\\=v", "host.name", "0", "null"}
	word := func() string {
		switch {
		case r.IntN(9) == 0: // longer than one hash block
			return words[r.IntN(len(words))] + strings.Repeat("long-", 7+r.IntN(4)) + fmt.Sprint(r.IntN(3))
		case p.HugeLabels && r.IntN(5) == 0:
			return strings.Repeat("w", []int{255, 4096, 60000, 64990, 65001, 65520, 65536, 66000, 200000}[r.IntN(9)]) + fmt.Sprint(r.IntN(2))
		}
		return words[r.IntN(len(words))]
	}
	n := 2 + r.IntN(3)
	g.names = pool(n, word)
	g.keys = pool(n, word)
	g.vals = pool(n, word)
	var a, b string
	if r.IntN(4) == 0 { // strings that a popular hash does not tell apart
		at := []int{0, 4, 5, 8, 8, 16, 16, 16}[r.IntN(8)]
		if r.IntN(5) == 0 {
			at = min(4+len(g.keys[0])+1, 24)
		}
		a, b = twins(r, strings.Repeat("-", at))
		for _, l := range []*[]string{&g.names, &g.vals, &g.keys} {
			*l = append((*l)[:len(*l)-1-r.IntN(2)], a, b)
		}
	}
	if r.IntN(5) == 0 { // names and values that run into each other
		k := []string{"a\\", "a=x", "a", "a\\=x", "a:x", "a\\\\", "1:6", "a\x00"}
		v := []string{"x=v", "v", "=v", "x\\=v", "x:v", "\\=v", "\\", "x\x00v", "\x00v"}
		r.Shuffle(len(k), func(i, j int) { k[i], k[j] = k[j], k[i] })
		r.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
		if r.IntN(5) < 3 {
			x := [][4]string{{"a\\", "x=v", "a=x", "v"}, {"a", "x=v", "a=x", "v"}, {"a", "x\\=v", "a\\=x", "v"}, {"a", "x:v", "a:x", "v"}, {"a", "x\x00v", "a\x00x", "v"},
				{"a\\\\", "x=v", "a\\=x", "v"}, {"a=", "v", "a", "=v"}, {"a\\", "v", "a", "\\v"}}[r.IntN(8)]
			k, v = []string{x[0], x[2]}, []string{x[1], x[3]}
		}
		g.keys, g.vals = append(k[:2+r.IntN(len(k)-1)], g.keys[0]), append(v[:2+r.IntN(len(v)-1)], g.vals[0])
	}
	g.lvls = pool(2, func() string { return []string{"INFO", "WARN", "ERROR", "info", "fatal"}[r.IntN(5)] })
	for i := 0; i < n; i++ {
		t := make([]byte, 16)
		binary.LittleEndian.PutUint64(t, r.Uint64())
		g.trace = append(g.trace, t)
		s := make([]byte, 8)
		binary.LittleEndian.PutUint64(s, r.Uint64N(1<<20))
		g.span = append(g.span, s)
	}
	if r.IntN(4) == 0 {
		g.span = append(g.span, []byte("ab"), g.trace[0]) // ids of unusual length
	}
	// resources and scopes: a base and near copies of it
	nr := 1 + r.IntN(3)
	for i := 0; i <= nr; i++ {
		g.res = append(g.res, g.resource(i))
		g.resS = append(g.resS, g.maybe(0.4))
	}
	for i := 0; i <= 1+r.IntN(3); i++ {
		g.scope = append(g.scope, g.mkScope(i))
		g.scoS = append(g.scoS, g.maybe(0.4))
	}
	if a != "" && r.IntN(2) == 0 {
		for _, s := range []string{a, b} {
			g.res, g.resS = append(g.res, g.res[0]), append(g.resS, s)
			g.scope, g.scoS = append(g.scope, g.scope[0]), append(g.scoS, s)
		}
	}
	return g
}

func (g *generator) pick(s []string) string { return s[g.r.IntN(len(s))] }
func (g *generator) maybe(p float64) string {
	if g.r.Float64() < p {
		return g.pick(g.vals)
	}
	return ""
}
func (g *generator) chance(p float64) bool { return g.r.Float64() < p }

func (g *generator) resource(i int) *resourcev1.Resource {
	r := g.r
	if i > 0 && r.IntN(2) == 0 {
		c := proto.Clone(g.res[0]).(*resourcev1.Resource)
		if c == nil || !c.ProtoReflect().IsValid() {
			c = &resourcev1.Resource{}
		}
		switch r.IntN(5) {
		case 0:
			c.DroppedAttributesCount++
		case 1:
			c.Attributes = append(c.Attributes, g.kv(0))
		case 2:
			if len(c.Attributes) > 0 {
				c.Attributes = c.Attributes[:len(c.Attributes)-1]
			}
		case 3:
			if n := len(c.Attributes); n > 1 {
				c.Attributes[0], c.Attributes[n-1] = c.Attributes[n-1], c.Attributes[0]
			}
		case 4:
			if len(c.Attributes) > 0 {
				c.Attributes[0] = g.kv(0)
			}
		}
		return c
	}
	if r.IntN(8) == 0 {
		return nil
	}
	return &resourcev1.Resource{Attributes: g.kvs(3), DroppedAttributesCount: uint32(r.IntN(2))}
}

func (g *generator) mkScope(i int) *commonv1.InstrumentationScope {
	r := g.r
	if i > 0 && g.scope[0] != nil && r.IntN(2) == 0 {
		c := proto.Clone(g.scope[0]).(*commonv1.InstrumentationScope)
		switch r.IntN(5) {
		case 0: // move the boundary between name and version
			s := c.Name + c.Version
			k := 0
			if len(s) > 0 {
				k = r.IntN(len(s) + 1)
			}
			if strings.ToValidUTF8(s[:k], "") == s[:k] && strings.ToValidUTF8(s[k:], "") == s[k:] {
				c.Name, c.Version = s[:k], s[k:]
			}
		case 1:
			c.DroppedAttributesCount++
		case 2:
			c.Version += "1"
		case 3:
			c.Attributes = append(c.Attributes, g.kv(0))
		case 4:
			c.Attributes = nil
		}
		return c
	}
	if r.IntN(6) == 0 {
		return nil
	}
	return &commonv1.InstrumentationScope{Name: g.maybe(0.8), Version: g.maybe(0.6), Attributes: g.kvs(2), DroppedAttributesCount: uint32(r.IntN(2))}
}

func (g *generator) any(depth int) *commonv1.AnyValue {
	r := g.r
	k := r.IntN(10)
	if k >= 7 && (depth >= 2 || !g.p.DeepValues) {
		k = 0
	}
	switch k {
	case 3:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: []int64{0, 1, -5, math.MaxInt64, math.MinInt64}[r.IntN(5)]}}
	case 4:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: []float64{0, 1.5, -2, math.MaxFloat64}[r.IntN(4)]}}
	case 5:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: r.IntN(2) == 0}}
	case 6:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte(g.pick(g.vals))}}
	case 7:
		a := &commonv1.ArrayValue{}
		for i := 0; i < 1+r.IntN(2); i++ {
			a.Values = append(a.Values, g.any(depth+1))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: a}}
	case 8:
		a := &commonv1.KeyValueList{}
		for i := 0; i < 1+r.IntN(2); i++ {
			a.Values = append(a.Values, g.kv(depth+1))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: a}}
	}
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: g.pick(g.vals)}}
}

func (g *generator) kv(depth int) *commonv1.KeyValue {
	k := &commonv1.KeyValue{Key: g.pick(g.keys), Value: g.any(depth)}
	if g.p.Weird && g.chance(0.15) {
		k.Value = []*commonv1.AnyValue{nil, {}, {Value: &commonv1.AnyValue_StringValue{}}}[g.r.IntN(3)]
	}
	if g.p.Weird && g.chance(0.05) {
		k.Key = ""
	}
	return k
}

func (g *generator) kvs(n int) (r []*commonv1.KeyValue) {
	for i := g.r.IntN(n + 1); i > 0; i-- {
		r = append(r, g.kv(0))
	}
	return
}

func (g *generator) mark() uint64 {
	g.marker++
	return g.marker
}

// ts draws a timestamp near one of the run's hubs.
func (g *generator) ts() uint64 {
	r := g.r
	if g.p.Weird && r.IntN(8) == 0 {
		return []uint64{0, 1, math.MaxInt64, math.MaxUint64, 1 << 62, 1 << 63, 999999999}[r.IntN(7)]
	}
	h := g.hubs[r.IntN(len(g.hubs))]
	var d time.Duration
	switch r.IntN(6) {
	case 0:
	case 1:
		d = time.Duration(r.IntN(3) - 1)
	case 2:
		d = time.Duration(r.IntN(7200)-3600) * time.Second
	case 3:
		d = -time.Duration(r.IntN(3)) * time.Hour
	default:
		d = -time.Duration(r.IntN(900)) * time.Second
	}
	return uint64(h.Add(d).UnixNano())
}

func (g *generator) floats(n int) (r []float64) {
	for i := 0; i < n; i++ {
		r = append(r, float64(g.r.IntN(100))/4)
	}
	return
}

func (g *generator) u64s(n int) (r []uint64) {
	for i := 0; i < n; i++ {
		r = append(r, g.r.Uint64N(1000))
	}
	return
}

func (g *generator) exemplars() (r []*metricsv1.Exemplar) {
	if g.r.IntN(4) != 0 {
		return nil
	}
	for i := 0; i <= g.r.IntN(2); i++ {
		e := &metricsv1.Exemplar{TimeUnixNano: g.r.Uint64N(1 << 40), SpanId: g.span[0], TraceId: g.trace[0], FilteredAttributes: g.kvs(1)}
		if g.r.IntN(2) == 0 {
			e.Value = &metricsv1.Exemplar_AsInt{AsInt: int64(g.r.IntN(9)) - 4}
		} else {
			e.Value = &metricsv1.Exemplar_AsDouble{AsDouble: 2.5}
		}
		r = append(r, e)
	}
	return
}

func (g *generator) number() *metricsv1.NumberDataPoint {
	p := &metricsv1.NumberDataPoint{Attributes: g.kvs(2), StartTimeUnixNano: g.mark(), TimeUnixNano: g.ts(), Flags: uint32(g.r.IntN(2)), Exemplars: g.exemplars()}
	switch g.r.IntN(5) {
	case 0:
		p.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: int64(g.r.IntN(7)) - 3}
	case 1:
		if g.p.Weird {
			break
		}
		fallthrough
	default:
		p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: float64(g.r.IntN(9)) / 2}
	}
	return p
}

func (g *generator) opt() *float64 {
	if g.r.IntN(3) == 0 {
		return nil
	}
	return proto.Float64(float64(1+g.r.IntN(100)) / 8)
}

func (g *generator) metric(n int) *metricsv1.Metric {
	r := g.r
	m := &metricsv1.Metric{Name: g.pick(g.names), Description: g.maybe(0.3), Unit: []string{"", "", "1", "By", "ms"}[r.IntN(5)]}
	if r.IntN(4) == 0 {
		m.Metadata = g.kvs(2)
	}
	tmp := metricsv1.AggregationTemporality(r.IntN(3))
	switch r.IntN(5) {
	case 0:
		e := &metricsv1.Gauge{}
		for i := 0; i < n; i++ {
			e.DataPoints = append(e.DataPoints, g.number())
		}
		m.Data = &metricsv1.Metric_Gauge{Gauge: e}
	case 1:
		e := &metricsv1.Sum{AggregationTemporality: tmp, IsMonotonic: r.IntN(2) == 0}
		for i := 0; i < n; i++ {
			e.DataPoints = append(e.DataPoints, g.number())
		}
		m.Data = &metricsv1.Metric_Sum{Sum: e}
	case 2:
		e := &metricsv1.Histogram{AggregationTemporality: tmp}
		for i := 0; i < n; i++ {
			k := r.IntN(3)
			e.DataPoints = append(e.DataPoints, &metricsv1.HistogramDataPoint{Attributes: g.kvs(2), StartTimeUnixNano: g.mark(), TimeUnixNano: g.ts(),
				Count: r.Uint64N(50), Sum: g.opt(), Min: g.opt(), Max: g.opt(), BucketCounts: g.u64s(k + 1), ExplicitBounds: g.floats(k), Exemplars: g.exemplars(), Flags: uint32(r.IntN(2))})
		}
		m.Data = &metricsv1.Metric_Histogram{Histogram: e}
	case 3:
		e := &metricsv1.ExponentialHistogram{AggregationTemporality: tmp}
		for i := 0; i < n; i++ {
			e.DataPoints = append(e.DataPoints, &metricsv1.ExponentialHistogramDataPoint{Attributes: g.kvs(2), StartTimeUnixNano: g.mark(), TimeUnixNano: g.ts(),
				Count: r.Uint64N(50), Sum: g.opt(), Scale: int32(r.IntN(5)) - 2, ZeroCount: r.Uint64N(3), ZeroThreshold: float64(r.IntN(2)) / 2, Min: g.opt(), Max: g.opt(), Exemplars: g.exemplars(),
				Positive: &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: int32(r.IntN(5)) - 2, BucketCounts: g.u64s(r.IntN(3))},
				Negative: &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: int32(r.IntN(3)), BucketCounts: g.u64s(r.IntN(2))}})
		}
		m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: e}
	case 4:
		e := &metricsv1.Summary{}
		for i := 0; i < n; i++ {
			p := &metricsv1.SummaryDataPoint{Attributes: g.kvs(2), StartTimeUnixNano: g.mark(), TimeUnixNano: g.ts(), Count: r.Uint64N(9), Sum: float64(r.IntN(50)), Flags: uint32(r.IntN(2))}
			for j := 0; j < r.IntN(3); j++ {
				p.QuantileValues = append(p.QuantileValues, &metricsv1.SummaryDataPoint_ValueAtQuantile{Quantile: float64(j) / 2, Value: float64(r.IntN(9))})
			}
			e.DataPoints = append(e.DataPoints, p)
		}
		m.Data = &metricsv1.Metric_Summary{Summary: e}
	}
	if g.p.Weird && r.IntN(10) == 0 {
		m.Data = nil
	}
	if g.p.Weird && r.IntN(10) == 0 {
		m.Name = ""
	}
	return m
}

func (g *generator) n() int {
	if g.p.Weird && g.r.IntN(6) == 0 {
		return 0
	}
	switch g.r.IntN(5) {
	case 0:
		return 2
	case 1:
		return 1 + g.r.IntN(3)
	}
	return 1
}

func (g *generator) idx(n int) int {
	// mostly the first, so that exports often share resources and scopes
	if g.r.IntN(2) == 0 {
		return 0
	}
	return g.r.IntN(n)
}

func (g *generator) log() *logsv1.LogRecord {
	r := g.r
	l := &logsv1.LogRecord{TimeUnixNano: g.ts(), ObservedTimeUnixNano: g.mark(), SeverityNumber: logsv1.SeverityNumber(r.IntN(25)), Body: g.any(0), Attributes: g.kvs(3), DroppedAttributesCount: uint32(r.IntN(2)), Flags: uint32(r.IntN(2))}
	if g.chance(0.7) {
		l.SeverityText = g.pick(g.lvls)
	}
	if g.chance(0.5) {
		l.TraceId = g.trace[r.IntN(len(g.trace))]
	}
	if g.chance(0.5) {
		l.SpanId = g.span[r.IntN(len(g.span))]
	}
	if g.p.Weird && g.chance(0.2) {
		l.Body = nil
	}
	return l
}

func (g *generator) spanRec() *tracev1.Span {
	r := g.r
	t := g.ts()
	s := &tracev1.Span{TraceId: g.trace[r.IntN(len(g.trace))], SpanId: g.span[r.IntN(len(g.span))], TraceState: fmt.Sprint("m", g.mark()), Name: g.pick(g.names), Kind: tracev1.Span_SpanKind(r.IntN(6)),
		StartTimeUnixNano: t, EndTimeUnixNano: t + r.Uint64N(uint64(3*time.Hour)), Attributes: g.kvs(3), DroppedAttributesCount: uint32(r.IntN(2)), DroppedEventsCount: uint32(r.IntN(2)), DroppedLinksCount: uint32(r.IntN(2)), Flags: uint32(r.IntN(2))}
	if g.chance(0.6) {
		s.ParentSpanId = g.span[r.IntN(len(g.span))]
	}
	if g.chance(0.4) {
		s.Events = append(s.Events, &tracev1.Span_Event{TimeUnixNano: t + 1, Name: g.pick(g.names), Attributes: g.kvs(2)})
	}
	if g.chance(0.3) {
		s.Links = append(s.Links, &tracev1.Span_Link{TraceId: g.trace[0], SpanId: g.span[0], TraceState: "x", Attributes: g.kvs(1)})
	}
	if g.chance(0.4) {
		s.Status = &tracev1.Status{Message: g.maybe(0.5), Code: tracev1.Status_StatusCode(r.IntN(3))}
	}
	if g.p.Weird {
		if g.chance(0.1) {
			s.Name = ""
		}
		if g.chance(0.1) {
			s.TraceId, s.SpanId = nil, nil
		}
		if g.chance(0.1) {
			s.EndTimeUnixNano = 0
		}
	}
	return s
}

// data builds one export of the given signal.
func (g *generator) data(sig v1.Scan_SCOPE) *v1.Data {
	d := g.data0(sig)
	g.made = append(g.made, d)
	return d
}

func (g *generator) data0(sig v1.Scan_SCOPE) *v1.Data {
	if len(g.made) > 0 && g.chance(g.p.Dup) {
		d := g.made[g.r.IntN(len(g.made))]
		return proto.Clone(d).(*v1.Data)
	}
	if len(g.made) > 0 && g.chance(g.p.Near) {
		if d := g.near(sig); d != nil {
			return d
		}
	}
	switch sig {
	case v1.Scan_METRICS:
		o := &metricsv1.MetricsData{}
		for i := g.n(); i > 0; i-- {
			ri := g.idx(len(g.res))
			rm := &metricsv1.ResourceMetrics{Resource: g.res[ri], SchemaUrl: g.resS[ri]}
			for j := g.n(); j > 0; j-- {
				si := g.idx(len(g.scope))
				sm := &metricsv1.ScopeMetrics{Scope: g.scope[si], SchemaUrl: g.scoS[si]}
				for k := g.n(); k > 0; k-- {
					sm.Metrics = append(sm.Metrics, g.metric(g.n()))
				}
				rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
			}
			o.ResourceMetrics = append(o.ResourceMetrics, rm)
		}
		return clone(&v1.Data{Data: &v1.Data_Metrics{Metrics: o}})
	case v1.Scan_LOGS:
		o := &logsv1.LogsData{}
		for i := g.n(); i > 0; i-- {
			ri := g.idx(len(g.res))
			rm := &logsv1.ResourceLogs{Resource: g.res[ri], SchemaUrl: g.resS[ri]}
			for j := g.n(); j > 0; j-- {
				si := g.idx(len(g.scope))
				sm := &logsv1.ScopeLogs{Scope: g.scope[si], SchemaUrl: g.scoS[si]}
				for k := g.n(); k > 0; k-- {
					sm.LogRecords = append(sm.LogRecords, g.log())
				}
				rm.ScopeLogs = append(rm.ScopeLogs, sm)
			}
			o.ResourceLogs = append(o.ResourceLogs, rm)
		}
		return clone(&v1.Data{Data: &v1.Data_Logs{Logs: o}})
	default:
		o := &tracev1.TracesData{}
		for i := g.n(); i > 0; i-- {
			ri := g.idx(len(g.res))
			rm := &tracev1.ResourceSpans{Resource: g.res[ri], SchemaUrl: g.resS[ri]}
			for j := g.n(); j > 0; j-- {
				si := g.idx(len(g.scope))
				sm := &tracev1.ScopeSpans{Scope: g.scope[si], SchemaUrl: g.scoS[si]}
				for k := g.n(); k > 0; k-- {
					sm.Spans = append(sm.Spans, g.spanRec())
				}
				rm.ScopeSpans = append(rm.ScopeSpans, sm)
			}
			o.ResourceSpans = append(o.ResourceSpans, rm)
		}
		return clone(&v1.Data{Data: &v1.Data_Traces{Traces: o}})
	}
}

// clone sends the message over the wire, as a client would.
func clone(d *v1.Data) *v1.Data {
	b, err := proto.Marshal(d)
	if err != nil {
		panic(err)
	}
	o := &v1.Data{}
	if err := proto.Unmarshal(b, o); err != nil {
		panic(err)
	}
	return o
}

func (g *generator) signal() v1.Scan_SCOPE {
	if len(g.p.Signals) > 0 {
		return g.p.Signals[g.r.IntN(len(g.p.Signals))]
	}
	return v1.Scan_SCOPE(1 + g.r.IntN(3))
}

// filters draws filters, mostly ones that some export satisfies.
func (g *generator) filters(max int) (r []filter) {
	n := g.r.IntN(max + 1)
	if n == 0 {
		return nil
	}
	var from []label
	if len(g.made) > 0 {
		d := g.made[g.r.IntN(len(g.made))]
		all, _ := exportLabels(d)
		from = sorted(all)
	}
	seen := map[int32]bool{}
	for i := 0; i < n; i++ {
		var l label
		switch {
		case len(from) > 0 && g.r.IntN(8) != 0:
			l = from[g.r.IntN(len(from))]
		case len(g.made) > 0 && g.r.IntN(2) == 0:
			all, _ := exportLabels(g.made[g.r.IntN(len(g.made))])
			if x := sorted(all); len(x) > 0 {
				l = x[g.r.IntN(len(x))]
				break
			}
			fallthrough
		default:
			ps := []int32{pResSchema, pScopeSchema, pScopeName, pScopeVer, pName, pTrace, pSpan, pParent, pLevel, pResAttr, pScopeAttr, pAttr}
			l = label{P: ps[g.r.IntN(len(ps))], K: g.pick(g.vals)}
			if isAttr(l.P) {
				l.K, l.V = g.pick(g.keys), g.pick(g.vals)
			} else if l.P == pTrace {
				l.K = hex.EncodeToString(g.trace[g.r.IntN(len(g.trace))])
			} else if l.P == pSpan || l.P == pParent {
				l.K = hex.EncodeToString(g.span[g.r.IntN(len(g.span))])
			} else if l.P == pLevel {
				l.K = g.pick(g.lvls)
			} else if g.r.IntN(3) == 0 {
				l.K = "no such thing"
			}
		}
		if l.K == "" && !isAttr(l.P) || isAttr(l.P) && l.V == "" {
			continue
		}
		if g.p.OneEach && !isAttr(l.P) && seen[l.P] {
			continue
		}
		seen[l.P] = true
		r = append(r, filter{P: l.P, K: []byte(l.K), V: []byte(l.V)})
	}
	return
}

// window draws a scanned time range around the hubs.
func (g *generator) window() (start, end time.Time) {
	r := g.r
	h := g.hubs[r.IntN(len(g.hubs))]
	lens := []time.Duration{0, time.Nanosecond, time.Second, 59 * time.Minute, time.Hour, 61 * time.Minute, 2 * time.Hour, 5 * time.Hour, 23 * time.Hour, 24*time.Hour - 1, 24 * time.Hour, 25 * time.Hour, 3 * 24 * time.Hour,
		29 * 24 * time.Hour, 30*24*time.Hour - 1, 30 * 24 * time.Hour, 31 * 24 * time.Hour, 45 * 24 * time.Hour, 100 * 24 * time.Hour, 359 * 24 * time.Hour, 360 * 24 * time.Hour, 366 * 24 * time.Hour, 800 * 24 * time.Hour}
	d := lens[r.IntN(len(lens))]
	switch r.IntN(5) {
	case 0: // ends at the hub
		start = h.Add(-d)
	case 1: // starts at it
		start = h
	case 2: // aligned
		u := []time.Duration{time.Hour, 24 * time.Hour}[r.IntN(2)]
		start = h.Truncate(u)
	default:
		start = h.Add(-time.Duration(r.Float64() * float64(d)))
		start = start.Add(time.Duration(r.IntN(7200)-3600) * time.Second)
	}
	return start, start.Add(d)
}

// twins returns two strings that have the same 64 bit xxhash after the given prefix. Such
// strings are easy to make: both words of a lane are chosen so that its accumulator ends up the
// same. If the prefix has at most 24 bytes its content does not matter.
func twins(r *rand.Rand, prefix string) (string, string) {
	const p1, p2 = 11400714785074694791, 14029467366897019727
	inv := uint64(1) // of p2 modulo 2^64
	for i := 0; i < 6; i++ {
		inv *= 2 - p2*inv
	}
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*p2, 31) * p1 }
	word := func() []byte {
		b := make([]byte, 8)
		for i := range b {
			b[i] = 'a' + byte(r.IntN(26))
		}
		return b
	}
	le := binary.LittleEndian
	pre, mid := strings.Repeat("-", (56-len(prefix)%32)%32), strings.Repeat("-", 24)
	p := uint64(p1)
	acc := -p
	for x := []byte(prefix + pre); len(x) >= 32; x = x[32:] {
		acc = round(acc, le.Uint64(x[24:]))
	}
	for {
		a, a2 := word(), word()
		b, b2 := word(), make([]byte, 8)
		le.PutUint64(b2, le.Uint64(b)+(round(acc, le.Uint64(a))-round(acc, le.Uint64(a2)))*inv)
		ok := true
		for _, c := range b2 {
			ok = ok && c >= ' ' && c < 127 && c != '"' && c != '\\'
		}
		if ok {
			return pre + string(a) + mid + string(b), pre + string(a2) + mid + string(b2)
		}
	}
}
