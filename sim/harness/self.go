package main

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"sort"
	"strconv"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/self"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/trace"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"zzsim/rt"
)

// telemetry is what the server's own telemetry was told, and what it exported (C19). The exports
// also enter the model of the database, so that scans are judged by them.
type telemetry struct {
	s     *sim
	n     int
	spans map[string]*spanRec // trace id + span id
	ms    []*measRec
	seqs  map[*server]*gaugeRec
	last  map[*server]time.Time // time of the newest metrics exported
}

type spanRec struct {
	name      string
	want      string
	srv       *server
	begun     int64 // End was called
	done      int64 // End returned
	doneAt    time.Time
	exported  int
	lostOK    bool // the export that carried it failed, as it may
	exportErr error
}

type measRec struct {
	inst    int
	scope   int
	attrs   string
	v       float64
	srv     *server
	beginAt time.Time
	done    int64
	doneAt  time.Time
	ended   bool
}

type gaugeRec struct {
	registered bool
	n          int64 // collections
	exports    int64
}

var curSelf *telemetry

func init() {
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(error) {}))
	rt.SelfHook = func(x any) any {
		if curSelf == nil {
			return x
		}
		switch x := x.(type) {
		case collector_metrics.MetricsServiceServer:
			return &selfMetrics{t: curSelf, srv: curSelf.s.srv, to: x}
		case collector_trace.TraceServiceServer:
			return &selfTraces{t: curSelf, srv: curSelf.s.srv, to: x}
		}
		return x
	}
	compBuild["C19"] = func(prop string, seed uint64) *plan {
		p := buildServer(prop, profiles[prop], seed)
		p.Cfg.Self = true
		p.Cfg.FaultRate["self.export"] = pick(rand.New(rand.NewPCG(seed, 78)), 0.05, 0.5, 1)
		p.Cfg.SelfBatch = pick(rand.New(rand.NewPCG(seed, 77)), 0, 0, 1, 3, 17)
		return p
	}
}

// setupSelf prepares a run.
func (s *sim) setupSelf() {
	curSelf = nil
	os.Unsetenv("OTEL_BSP_MAX_EXPORT_BATCH_SIZE")
	if s.p.Cfg.Self {
		curSelf = &telemetry{s: s, spans: map[string]*spanRec{}, seqs: map[*server]*gaugeRec{}, last: map[*server]time.Time{}}
		if n := s.p.Cfg.SelfBatch; n > 0 {
			os.Setenv("OTEL_BSP_MAX_EXPORT_BATCH_SIZE", strconv.Itoa(n))
		}
	}
	s.self = curSelf
}

// ---------------------------------------------------------------- what the server exports

func canonText(m proto.Message) string { return prototext.MarshalOptions{}.Format(m) }

type selfMetrics struct {
	collector_metrics.UnimplementedMetricsServiceServer
	t   *telemetry
	srv *server
	to  collector_metrics.MetricsServiceServer
}

type selfTraces struct {
	collector_trace.UnimplementedTraceServiceServer
	t   *telemetry
	srv *server
	to  collector_trace.TraceServiceServer
}

// through passes an export on the way a client's goes.
func (t *telemetry) through(ctx context.Context, srv *server, d *v1.Data, call func() error) error {
	s := t.s
	e := s.m.add(1_000_000+t.n, proto.Clone(d).(*v1.Data), srv, s.step())
	e.self = true
	s.nExp++
	s.w.Log("self export %d begins", t.n)
	faulty := s.faults
	var err error
	if s.faults && rt.Fault("self.export") {
		err = rt.EIO("export")
		e.lost = true
	} else {
		err = call()
	}
	e.end = s.step()
	e.ackAt = time.Now()
	e.acked, e.failed = err == nil, err != nil
	s.w.Log("self export ends %v", err)
	if err != nil && !faulty && !s.faults && !s.recovering() && ctx.Err() == nil {
		s.fail("the server failed to store its own telemetry: %v", err)
	}
	return err
}

func (c *selfMetrics) Export(ctx context.Context, req *collector_metrics.ExportMetricsServiceRequest) (*collector_metrics.ExportMetricsServiceResponse, error) {
	t := c.t
	t.n++
	t.checkMetrics(c.srv, req)
	// two exports of the same moment must not be taken for one
	for _, rm := range req.ResourceMetrics {
		if rm.Resource == nil {
			rm.Resource = &resourcev1.Resource{}
		}
		rm.Resource.Attributes = append(rm.Resource.Attributes, &commonv1.KeyValue{Key: "zz.export", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: int64(t.n)}}})
	}
	var res *collector_metrics.ExportMetricsServiceResponse
	err := t.through(ctx, c.srv, &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: req.ResourceMetrics}}}, func() (err error) {
		res, err = c.to.Export(ctx, req)
		return
	})
	return res, err
}

func (c *selfTraces) Export(ctx context.Context, req *collector_trace.ExportTraceServiceRequest) (*collector_trace.ExportTraceServiceResponse, error) {
	t := c.t
	t.n++
	recs := t.checkSpans(c.srv, req)
	var res *collector_trace.ExportTraceServiceResponse
	err := t.through(ctx, c.srv, &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: req.ResourceSpans}}}, func() (err error) {
		res, err = c.to.Export(ctx, req)
		return
	})
	for _, r := range recs {
		r.exportErr = err
	}
	return res, err
}

// ---------------------------------------------------------------- spans

func selfResource() (*resourcev1.Resource, string) {
	r := &resourcev1.Resource{}
	for _, kv := range self.Resource.Attributes() {
		r.Attributes = append(r.Attributes, &commonv1.KeyValue{Key: string(kv.Key), Value: protoValue(kv.Value.AsInterface())})
	}
	return r, self.Resource.SchemaURL()
}

func sortAttrs(a []*commonv1.KeyValue) []*commonv1.KeyValue {
	b := append([]*commonv1.KeyValue(nil), a...)
	sort.SliceStable(b, func(i, j int) bool { return b[i].Key < b[j].Key })
	return b
}

// spanText is a span, with everything it is under, for comparison.
func spanText(res *resourcev1.Resource, resSchema string, sc *commonv1.InstrumentationScope, scSchema string, sp *tracev1.Span) string {
	sp = proto.Clone(sp).(*tracev1.Span)
	sp.Attributes = sortAttrs(sp.Attributes)
	for _, x := range sp.Events {
		x.Attributes = sortAttrs(x.Attributes)
	}
	for _, x := range sp.Links {
		x.Attributes = sortAttrs(x.Attributes)
	}
	if sp.Status != nil && sp.Status.Code == 0 && sp.Status.Message == "" {
		sp.Status = nil
	}
	if sc == nil {
		sc = &commonv1.InstrumentationScope{}
	}
	x := &tracev1.ResourceSpans{Resource: &resourcev1.Resource{Attributes: sortAttrs(res.GetAttributes())}, SchemaUrl: resSchema,
		ScopeSpans: []*tracev1.ScopeSpans{{Scope: sc, SchemaUrl: scSchema, Spans: []*tracev1.Span{sp}}}}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(x)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func showSpan(b string) string {
	x := &tracev1.ResourceSpans{}
	if proto.Unmarshal([]byte(b), x) != nil {
		return fmt.Sprintf("%q", b)
	}
	return canonText(x)
}

func (t *telemetry) checkSpans(srv *server, req *collector_trace.ExportTraceServiceRequest) (recs []*spanRec) {
	s := t.s
	for _, rs := range req.ResourceSpans {
		for _, ss := range rs.ScopeSpans {
			for _, sp := range ss.Spans {
				r := t.spans[string(sp.TraceId)+string(sp.SpanId)]
				switch {
				case r == nil:
					s.fail("the server exported a span that never ended: %s", short(canonText(sp)))
					return
				case r.exported > 0:
					s.fail("the server exported its span %q twice", r.name)
					return
				case r.srv != srv:
					s.fail("the server exported a span of a server before it")
					return
				}
				r.exported++
				recs = append(recs, r)
				if got := spanText(rs.Resource, rs.SchemaUrl, ss.Scope, ss.SchemaUrl, sp); got != r.want {
					s.fail("the server exported its span %q altered: %s instead of %s", r.name, short(showSpan(got)), short(showSpan(r.want)))
					return
				}
			}
		}
	}
	return
}

var selfScopes = []struct{ name, version, schema string }{{"zz.alpha", "1.0", ""}, {"zz.alpha", "1.1", ""}, {"zz.beta", "", "https://zz/schema"}, {"zz.alpha", "1.0", "https://zz/other"},
	{"zz.gamma", "", ""}, {"zz.gamma", "2", ""}, {"zz.delta", "", ""}, {"zz.delta/sub", "v0.1", ""}, {"zz.alpha1.0", "", ""}}

func protoValue(v any) *commonv1.AnyValue {
	arr := func(n int, f func(i int) any) *commonv1.AnyValue {
		a := &commonv1.ArrayValue{}
		for i := 0; i < n; i++ {
			a.Values = append(a.Values, protoValue(f(i)))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: a}}
	}
	switch v := v.(type) {
	case string:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}
	case bool:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: v}}
	case int64:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: v}}
	case float64:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: v}}
	case []string:
		return arr(len(v), func(i int) any { return v[i] })
	case []bool:
		return arr(len(v), func(i int) any { return v[i] })
	case []int64:
		return arr(len(v), func(i int) any { return v[i] })
	case []float64:
		return arr(len(v), func(i int) any { return v[i] })
	}
	return nil
}

// drawAttrs makes attributes with different keys, in both representations.
func drawAttrs(r *rand.Rand, n int) (a []attribute.KeyValue, b []*commonv1.KeyValue) {
	perm := r.Perm(max(n, 6))
	for i := 0; i < n; i++ {
		k := fmt.Sprint("k", perm[i])
		var x attribute.KeyValue
		var v any
		switch r.IntN(9) {
		case 0:
			y := r.IntN(2) == 0
			v, x = y, attribute.Bool(k, y)
		case 1:
			y := pick(r, int64(0), 1, -1, math.MaxInt64, math.MinInt64)
			v, x = y, attribute.Int64(k, y)
		case 2:
			y := pick(r, 0.0, -0.5, 1e300, math.Inf(1))
			v, x = y, attribute.Float64(k, y)
		case 3:
			y := pick(r, []string{}, []string{"a"}, []string{"a", "", "b"})
			v, x = y, attribute.StringSlice(k, y)
		case 4:
			y := pick(r, []int64{9}, []int64{1, -2, 3})
			v, x = y, attribute.Int64Slice(k, y)
		case 5:
			y := pick(r, []bool{true}, []bool{true, false, true})
			v, x = y, attribute.BoolSlice(k, y)
		case 6:
			y := pick(r, []float64{0.25}, []float64{1, 2.5})
			v, x = y, attribute.Float64Slice(k, y)
		default:
			y := pick(r, "", "v", "w", "value with spaces", "ünï")
			v, x = y, attribute.String(k, y)
		}
		a = append(a, x)
		b = append(b, &commonv1.KeyValue{Key: k, Value: protoValue(v)})
	}
	return
}

func (s *sim) inServer(o op, name string, f func(srv *server)) {
	srv := s.srv
	if s.self == nil || !srv.up() {
		return
	}
	s.w.Go(srv.inc, fmt.Sprint(name, o.ID), func() {
		rt.Y(rt.SiteClient)
		f(srv)
	})
}

func (s *sim) span(o op) {
	s.inServer(o, "span", func(srv *server) {
		r := rand.New(rand.NewPCG(uint64(o.D), 1))
		for i := int64(0); i < o.N; i++ {
			ctx := context.Background()
			var parent *trace.SpanContext
			if r.IntN(4) == 0 { // the caller is elsewhere
				ts, _ := trace.ParseTraceState(pick(r, "", "zz=1", "zz=1,yy=two"))
				sc := trace.NewSpanContext(trace.SpanContextConfig{TraceID: drawTrace(r), SpanID: drawSpan(r), TraceFlags: trace.FlagsSampled, TraceState: ts, Remote: true})
				ctx = trace.ContextWithRemoteSpanContext(ctx, sc)
				parent = &sc
			}
			s.oneSpan(ctx, srv, r, parent, o.ID, r.IntN(3))
			s.nRead++
		}
	})
}

func drawTrace(r *rand.Rand) (t trace.TraceID) {
	for i := range t {
		t[i] = byte(1 + r.IntN(255))
	}
	return
}

func drawSpan(r *rand.Rand) (t trace.SpanID) {
	for i := range t {
		t[i] = byte(1 + r.IntN(255))
	}
	return
}

func (s *sim) oneSpan(ctx context.Context, srv *server, r *rand.Rand, parent *trace.SpanContext, id, depth int) {
	t := s.self
	sc := selfScopes[r.IntN(len(selfScopes))]
	tr := otel.GetTracerProvider().Tracer(sc.name, trace.WithInstrumentationVersion(sc.version), trace.WithSchemaURL(sc.schema))
	k := r.IntN(6)
	kind := []trace.SpanKind{trace.SpanKindUnspecified, trace.SpanKindInternal, trace.SpanKindServer, trace.SpanKindClient, trace.SpanKindProducer, trace.SpanKindConsumer}[k]
	want := &tracev1.Span{Name: fmt.Sprintf("span %d.%d", id, r.IntN(1000)), Kind: []tracev1.Span_SpanKind{tracev1.Span_SPAN_KIND_INTERNAL, tracev1.Span_SPAN_KIND_INTERNAL, tracev1.Span_SPAN_KIND_SERVER, tracev1.Span_SPAN_KIND_CLIENT, tracev1.Span_SPAN_KIND_PRODUCER, tracev1.Span_SPAN_KIND_CONSUMER}[k]}
	at := time.Now().Add(time.Duration(r.Int64N(int64(time.Hour))) - time.Hour)
	opts := []trace.SpanStartOption{trace.WithSpanKind(kind), trace.WithTimestamp(at)}
	want.StartTimeUnixNano = uint64(at.UnixNano())
	var links []trace.Link
	// the library keeps 128 of everything: the first attributes, the last events and links
	many := func() int {
		if r.IntN(40) == 0 {
			return 127 + r.IntN(5)
		}
		return pick(r, 0, 0, 1, 3)
	}
	for i := many(); i > 0; i-- {
		n := r.IntN(3)
		if r.IntN(100) == 0 {
			n = 127 + r.IntN(4)
		}
		a, b := drawAttrs(r, n)
		ts, _ := trace.ParseTraceState(pick(r, "", "", "zz=1", "zz=1,yy=two"))
		lc := trace.NewSpanContext(trace.SpanContextConfig{TraceID: drawTrace(r), SpanID: drawSpan(r), TraceState: ts})
		links = append(links, trace.Link{SpanContext: lc, Attributes: a})
		tid, sid := lc.TraceID(), lc.SpanID()
		want.Links = append(want.Links, &tracev1.Span_Link{TraceId: tid[:], SpanId: sid[:], TraceState: ts.String(), Attributes: b[:min(n, 128)], DroppedAttributesCount: uint32(max(n-128, 0))})
	}
	if n := len(want.Links); n > 128 {
		want.Links, want.DroppedLinksCount = want.Links[n-128:], uint32(n-128)
	}
	if len(links) > 0 {
		opts = append(opts, trace.WithLinks(links...))
	}
	ctx, sp := tr.Start(ctx, want.Name, opts...)
	c := sp.SpanContext()
	if !c.IsValid() {
		return // the provider has been shut down
	}
	tid, sid := c.TraceID(), c.SpanID()
	want.TraceId, want.SpanId = tid[:], sid[:]
	if parent != nil {
		if parent.TraceID() != tid {
			s.fail("a span of the server does not continue its caller's trace")
			return
		}
		p := parent.SpanID()
		want.ParentSpanId = p[:]
		want.TraceState = parent.TraceState().String()
	}
	rt.Y(rt.SiteClient)
	n := pick(r, 0, 1, 2, 5)
	if r.IntN(40) == 0 { // more than the library keeps
		n = 128 + r.IntN(5)
	}
	a, b := drawAttrs(r, n)
	sp.SetAttributes(a...)
	if n > 128 {
		b = b[:128]
		want.DroppedAttributesCount = uint32(n - 128)
	}
	want.Attributes = b
	for i := many(); i > 0; i-- {
		n := r.IntN(3)
		if r.IntN(100) == 0 {
			n = 127 + r.IntN(4)
		}
		a, b := drawAttrs(r, n)
		et := at.Add(time.Duration(r.Int64N(int64(time.Minute))))
		en := fmt.Sprint("event", r.IntN(10))
		sp.AddEvent(en, trace.WithTimestamp(et), trace.WithAttributes(a...))
		want.Events = append(want.Events, &tracev1.Span_Event{Name: en, TimeUnixNano: uint64(et.UnixNano()), Attributes: b[:min(n, 128)], DroppedAttributesCount: uint32(max(n-128, 0))})
	}
	if n := len(want.Events); n > 128 {
		want.Events, want.DroppedEventsCount = want.Events[n-128:], uint32(n-128)
	}
	if depth > 0 {
		s.oneSpan(ctx, srv, r, &c, id, depth-1)
	}
	switch r.IntN(4) {
	case 0:
		sp.SetStatus(codes.Error, "it broke")
		want.Status = &tracev1.Status{Code: tracev1.Status_STATUS_CODE_ERROR, Message: "it broke"}
	case 1:
		sp.SetStatus(codes.Ok, "")
		want.Status = &tracev1.Status{Code: tracev1.Status_STATUS_CODE_OK}
	}
	end := at.Add(time.Duration(r.Int64N(int64(time.Hour))))
	want.EndTimeUnixNano = uint64(end.UnixNano())
	res, schema := selfResource()
	rec := &spanRec{name: want.Name, srv: srv, begun: s.step()}
	rec.want = spanText(res, schema, &commonv1.InstrumentationScope{Name: sc.name, Version: sc.version}, sc.schema, want)
	t.spans[string(tid[:])+string(sid[:])] = rec
	sp.End(trace.WithTimestamp(end))
	rec.done, rec.doneAt = s.step(), time.Now()
	s.w.Log("span %s ends", rec.name)
}

// ---------------------------------------------------------------- measurements

type instrument struct {
	name, kind, unit, desc string
	float                  bool
}

var selfInst = []instrument{
	{"zz.ci", "counter", "1", "counts", false}, {"zz.cf", "counter", "s", "", true},
	{"zz.ui", "updown", "By", "up and down", false}, {"zz.uf", "updown", "", "", true},
	{"zz.hi", "histogram", "ms", "spread", false}, {"zz.hf", "histogram", "s", "", true},
	{"zz.gi", "gauge", "1", "observed", false}, {"zz.of", "ocounter", "1", "observed sum", true},
}

func (s *sim) measure(o op) {
	s.inServer(o, "meas", func(srv *server) {
		t := s.self
		r := rand.New(rand.NewPCG(uint64(o.D), 2))
		ctx := context.Background()
		for i := int64(0); i < o.N; i++ {
			si := pick(r, 0, 0, 1, 1, 2, 3, 4, 7, 8)
			sc := selfScopes[si]
			m := otel.GetMeterProvider().Meter(sc.name, metric.WithInstrumentationVersion(sc.version), metric.WithSchemaURL(sc.schema))
			ii := r.IntN(6)
			in := selfInst[ii]
			a, b := drawAttrs(r, pick(r, 0, 1, 1, 2))
			set := metric.WithAttributes(a...)
			rec := &measRec{inst: ii, scope: si, attrs: attrText(b), srv: srv}
			var do func()
			iv, fv := pick(r, int64(0), 1, 2, 7, 30, 5, 99, 600, 20000, 1<<40+1, 3_000_000_007), pick(r, 0.0, 0.25, 1.5, 5, 80.5, 1e6, 1<<24+1, 1<<40+0.125)
			if in.kind == "updown" && r.IntN(2) == 0 {
				iv, fv = -iv, -fv
			}
			switch in.name {
			case "zz.ci":
				c, err := m.Int64Counter(in.name, metric.WithDescription(in.desc), metric.WithUnit(in.unit))
				must0(err)
				rec.v, do = float64(iv), func() { c.Add(ctx, iv, set) }
			case "zz.cf":
				c, err := m.Float64Counter(in.name, metric.WithDescription(in.desc), metric.WithUnit(in.unit))
				must0(err)
				rec.v, do = fv, func() { c.Add(ctx, fv, set) }
			case "zz.ui":
				c, err := m.Int64UpDownCounter(in.name, metric.WithDescription(in.desc), metric.WithUnit(in.unit))
				must0(err)
				rec.v, do = float64(iv), func() { c.Add(ctx, iv, set) }
			case "zz.uf":
				c, err := m.Float64UpDownCounter(in.name, metric.WithDescription(in.desc), metric.WithUnit(in.unit))
				must0(err)
				rec.v, do = fv, func() { c.Add(ctx, fv, set) }
			case "zz.hi":
				c, err := m.Int64Histogram(in.name, metric.WithDescription(in.desc), metric.WithUnit(in.unit))
				must0(err)
				rec.v, do = float64(iv), func() { c.Record(ctx, iv, set) }
			case "zz.hf":
				c, err := m.Float64Histogram(in.name, metric.WithDescription(in.desc), metric.WithUnit(in.unit))
				must0(err)
				rec.v, do = fv, func() { c.Record(ctx, fv, set) }
			}
			rt.Y(rt.SiteClient)
			rec.beginAt = time.Now()
			t.ms = append(t.ms, rec)
			do()
			rec.done, rec.doneAt, rec.ended = s.step(), time.Now(), true
			s.nRead++
		}
		g := t.seqs[srv]
		if g == nil {
			g = &gaugeRec{}
			t.seqs[srv] = g
			sc := selfScopes[0]
			m := otel.GetMeterProvider().Meter(sc.name, metric.WithInstrumentationVersion(sc.version), metric.WithSchemaURL(sc.schema))
			gi, err := m.Int64ObservableGauge("zz.gi", metric.WithDescription(selfInst[6].desc), metric.WithUnit(selfInst[6].unit))
			must0(err)
			of, err := m.Float64ObservableCounter("zz.of", metric.WithDescription(selfInst[7].desc), metric.WithUnit(selfInst[7].unit))
			must0(err)
			_, err = m.RegisterCallback(func(ctx context.Context, ob metric.Observer) error {
				rt.Y(rt.SiteClient)
				g.n++
				ob.ObserveInt64(gi, g.n*3)
				ob.ObserveFloat64(of, float64(g.n)*0.5)
				return nil
			}, gi, of)
			must0(err)
			g.registered = true
		}
	})
}

func must0(err error) {
	if err != nil {
		panic(err)
	}
}

func attrText(a []*commonv1.KeyValue) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(&resourcev1.Resource{Attributes: sortAttrs(a)})
	return string(b)
}

var selfBounds = []float64{0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000}

type series struct {
	inst, scope int
	attrs       string
}

func (t *telemetry) checkMetrics(srv *server, req *collector_metrics.ExportMetricsServiceRequest) {
	s := t.s
	bad := func(f string, a ...any) { s.fail("the server exported its own metrics wrong: "+f, a...) }
	res, schema := selfResource()
	seen := map[series]bool{}
	sizes := 0
	srv.selfExports++
	gauge := map[int]float64{}
	var at time.Time
	for _, rm := range req.ResourceMetrics {
		if attrText(rm.Resource.GetAttributes()) != attrText(res.Attributes) || rm.SchemaUrl != schema {
			bad("under resource %s %s", canonText(rm.Resource), rm.SchemaUrl)
			return
		}
		for _, sm := range rm.ScopeMetrics {
			for _, m := range sm.Metrics {
				if m.Name == "rq.db.size" {
					sizes++
					for _, p := range append(m.GetSum().GetDataPoints(), m.GetGauge().GetDataPoints()...) {
						v := p.GetAsInt()
						if x, ok := p.Value.(*metricsv1.NumberDataPoint_AsDouble); ok {
							v = int64(x.AsDouble)
						}
						// the library sums up what is observed in a collection that it gives up
						if srv.inc.SizeN == srv.selfExports && !srv.inc.Sizes[v] {
							bad("%q is %d, which the database never said", m.Name, v)
							return
						}
					}
				}
				if len(m.Name) < 3 || m.Name[:3] != "zz." {
					continue
				}
				ii := -1
				for i, in := range selfInst {
					if in.name == m.Name {
						ii = i
					}
				}
				si := -1
				for i, sc := range selfScopes {
					if sm.Scope.GetName() == sc.name && sm.Scope.GetVersion() == sc.version && sm.SchemaUrl == sc.schema {
						si = i
					}
				}
				if ii < 0 || si < 0 {
					bad("metric %q in scope %s %s", m.Name, canonText(sm.Scope), sm.SchemaUrl)
					return
				}
				in := selfInst[ii]
				if m.Description != in.desc || m.Unit != in.unit {
					bad("metric %q with description %q and unit %q", m.Name, m.Description, m.Unit)
					return
				}
				num := func(pts []*metricsv1.NumberDataPoint) bool {
					for _, p := range pts {
						var v float64
						switch x := p.Value.(type) {
						case *metricsv1.NumberDataPoint_AsInt:
							v = float64(x.AsInt)
							if in.float {
								bad("%q holds integers", m.Name)
								return false
							}
						case *metricsv1.NumberDataPoint_AsDouble:
							v = x.AsDouble
							if !in.float {
								bad("%q holds floats", m.Name)
								return false
							}
						}
						at = time.Unix(0, int64(p.TimeUnixNano))
						if !t.timesOK(m.Name, p.StartTimeUnixNano, p.TimeUnixNano, in.kind != "gauge") {
							return false
						}
						if in.kind == "gauge" || in.kind == "ocounter" {
							if _, dup := gauge[ii]; dup {
								bad("%q occurs twice", m.Name)
								return false
							}
							gauge[ii] = v
							continue
						}
						k := series{ii, si, attrText(p.Attributes)}
						if seen[k] {
							bad("a point of %q occurs twice", m.Name)
							return false
						}
						seen[k] = true
						lo, hi := t.measured(srv, k, at)
						if len(hi) == 0 {
							bad("%q has a point nobody measured: %s", m.Name, canonText(p))
							return false
						}
						a, b := 0.0, 0.0
						for _, x := range lo {
							a += x.v
						}
						for _, x := range hi {
							b += x.v
						}
						if len(lo) == len(hi) && v != a || in.kind == "counter" && (v < a || v > b) {
							bad("%q is %v, measured %v to %v", m.Name, v, a, b)
							return false
						}
					}
					return true
				}
				switch d := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					if in.kind != "gauge" {
						bad("%q is a gauge", m.Name)
						return
					}
					if !num(d.Gauge.DataPoints) {
						return
					}
				case *metricsv1.Metric_Sum:
					if in.kind == "gauge" || in.kind == "histogram" || d.Sum.AggregationTemporality != metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE || d.Sum.IsMonotonic == (in.kind == "updown") {
						bad("%q is %s", m.Name, short(canonText(m)))
						return
					}
					if !num(d.Sum.DataPoints) {
						return
					}
				case *metricsv1.Metric_Histogram:
					if in.kind != "histogram" || d.Histogram.AggregationTemporality != metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE {
						bad("%q is %s", m.Name, short(canonText(m)))
						return
					}
					for _, p := range d.Histogram.DataPoints {
						at = time.Unix(0, int64(p.TimeUnixNano))
						if !t.timesOK(m.Name, p.StartTimeUnixNano, p.TimeUnixNano, true) {
							return
						}
						k := series{ii, si, attrText(p.Attributes)}
						if seen[k] {
							bad("a point of %q occurs twice", m.Name)
							return
						}
						seen[k] = true
						lo, hi := t.measured(srv, k, at)
						if p.Count < uint64(len(lo)) || p.Count > uint64(len(hi)) {
							bad("%q counts %d, measured %d to %d", m.Name, p.Count, len(lo), len(hi))
							return
						}
						if len(lo) != len(hi) {
							continue
						}
						w := &metricsv1.HistogramDataPoint{ExplicitBounds: selfBounds, BucketCounts: make([]uint64, len(selfBounds)+1), Count: uint64(len(lo))}
						sum, mn, mx := 0.0, math.Inf(1), math.Inf(-1)
						for _, x := range lo {
							sum += x.v
							mn, mx = min(mn, x.v), max(mx, x.v)
							w.BucketCounts[sort.SearchFloat64s(selfBounds, x.v)]++
						}
						w.Sum, w.Min, w.Max = &sum, &mn, &mx
						g := proto.Clone(p).(*metricsv1.HistogramDataPoint)
						g.Attributes, g.StartTimeUnixNano, g.TimeUnixNano, g.Exemplars = nil, 0, 0, nil
						if !proto.Equal(g, w) {
							bad("%q is %s, measured %s", m.Name, canonText(g), canonText(w))
							return
						}
					}
				default:
					bad("%q is %s", m.Name, short(canonText(m)))
					return
				}
			}
		}
	}
	if sizes != 1 {
		bad("rq.db.size occurs %d times", sizes)
		return
	}
	now := time.Now()
	if !at.IsZero() {
		now = at
	}
	for _, x := range t.ms {
		if x.srv == srv && x.ended && x.doneAt.Before(now) && !seen[series{x.inst, x.scope, x.attrs}] {
			bad("%q lacks a point", selfInst[x.inst].name)
			return
		}
	}
	if g := t.seqs[srv]; g != nil && len(gauge) > 0 {
		g.exports++
		// the library sums up what is observed in a collection that it gives up
		if gauge[6] != float64(g.n*3) || g.exports == g.n && gauge[7] != float64(g.n)*0.5 {
			bad("observed values are %v and %v, expected %v and %v", gauge[6], gauge[7], float64(g.n*3), float64(g.n)*0.5)
			return
		}
	}
	t.last[srv] = now
}

func (t *telemetry) timesOK(name string, start, at uint64, started bool) bool {
	if at > uint64(time.Now().UnixNano()) || at == 0 || started && (start == 0 || start > at) {
		t.s.fail("the server exported its own metrics wrong: %q has times %d and %d at %d", name, start, at, time.Now().UnixNano())
		return false
	}
	return true
}

// measured returns the measurements certainly and possibly part of a series at a time.
func (t *telemetry) measured(srv *server, k series, at time.Time) (lo, hi []*measRec) {
	for _, x := range t.ms {
		if x.srv != srv || (series{x.inst, x.scope, x.attrs}) != k || x.beginAt.After(at) {
			continue
		}
		hi = append(hi, x)
		if x.ended && x.doneAt.Before(at) {
			lo = append(lo, x)
		}
	}
	return
}

// checkDone looks for telemetry that should have been exported by now. stopped says that the
// server has stopped in order.
func (t *telemetry) checkDone(srv *server, stopped bool) {
	if t == nil || t.s.failed() || t.s.w.Over {
		return
	}
	s := t.s
	due := func(done int64, at time.Time) bool {
		if done == 0 {
			return false
		}
		if stopped {
			return srv.stopReq && done < srv.stopStep
		}
		// a process that gets no time cannot keep the libraries' time limits
		return time.Since(at) >= 2*flushEvery && time.Since(s.stalled) >= 2*flushEvery
	}
	for _, k := range sortedKeys(t.spans) {
		r := t.spans[k]
		if r.srv == srv && r.exported == 0 && due(r.done, r.doneAt) {
			s.fail("the server never exported its span %q, which ended %s ago", r.name, time.Since(r.doneAt))
			return
		}
	}
	for _, x := range t.ms {
		if x.srv == srv && due(x.done, x.doneAt) && t.last[srv].Before(x.doneAt) {
			s.fail("the server never exported a measurement of %q, made %s ago", selfInst[x.inst].name, time.Since(x.doneAt))
			return
		}
	}
}
