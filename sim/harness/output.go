package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/commands/query"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/urfave/cli/v3"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	"zzsim/rt"
)

// output runs many scripts that print and render at once in one process (C18).
type output struct {
	s    *sim
	inc  *rt.Inc
	runs []*outRun
	cmds []*queryRun
	want map[*queryRun]string
}

// outRun is one execution of a script.
type outRun struct {
	name  string
	mode  string
	steps []outStep
	data  []*metricsv1.MetricsData // what its scans return
	copy  []*metricsv1.MetricsData // the same, for the judge alone
	w     sink
	marks []int
	done  bool
	task  *rt.Task
}

type outStep struct {
	K    string
	Args []any
	Opt  map[string]bool
	Data int
}

// sink is where a script prints to.
type sink struct {
	buf   []byte
	limit int // bytes until it fails (-1: never)
	once  bool
	hit   bool
	late  bool
	over  bool
	slow  int
}

func (w *sink) Write(p []byte) (int, error) {
	if w.over {
		w.late = true
	}
	rt.Y(rt.SiteOSWrite)
	if w.limit >= 0 && len(w.buf)+len(p) > w.limit && !(w.once && w.hit) {
		n := max(0, w.limit-len(w.buf))
		w.buf = append(w.buf, p[:n]...)
		w.hit = true
		rt.Struck("stdout write")
		return n, errPeer
	}
	if w.slow > 0 && len(p) > w.slow {
		n := max(w.slow, len(p)/500)
		for i := 0; i < len(p); i += n {
			w.buf = append(w.buf, p[i:min(len(p), i+n)]...)
			rt.Y(rt.SiteOSWrite)
		}
		return len(p), nil
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func init() {
	compNew["output"] = newOutput
	compBuild["C18"] = buildOutput
}

func newOutput(s *sim) component {
	o := &output{s: s, inc: s.w.NewInc("output"), want: map[*queryRun]string{}}
	home := filepath.Join(s.root, "home")
	os.MkdirAll(home, 0o755)
	os.MkdirAll(filepath.Join(s.root, "scripts"), 0o755)
	os.Setenv("HOME", home)
	return o
}

func buildOutput(prop string, seed uint64) *plan {
	r := rand.New(rand.NewPCG(seed, rt.Hash64(prop)))
	p := &plan{Prop: prop, Kind: "output", Seed: seed}
	p.Cfg = rt.Config{MapSeed: r.Uint64(), PoolNew: pick(r, 0, 0, 0, 3, 6), FaultRate: map[string]float64{}}
	p.Cfg.Preempt[rt.ClassStmt] = pick(r, 0.0, 0.02, 0.1, 0.3)
	p.Cfg.Preempt[rt.ClassSync] = pick(r, 0.05, 0.3, 0.6)
	p.Cfg.Preempt[rt.ClassIO] = pick(r, 0.05, 0.3, 0.6)
	p.Cfg.FaultRate["stdout.write"] = pick(r, 0.05, 0.3, 0.8)
	modes := []string{"", "", "", "wfail", "once", "scanfail", "noscan", "slow", "nowrite"}
	if r.IntN(3) == 0 {
		modes = []string{"", "slow"}
	}
	add := func(o op) { o.ID = len(p.Ops) + 1; p.Ops = append(p.Ops, o) }
	for i := 1 + r.IntN(6); i > 0; i-- {
		switch r.IntN(8) {
		case 0: // the command itself, sometimes with a standard output that fails
			bad := r.IntN(2) == 0
			add(op{K: "faults", B: bad})
			for j := 1 + r.IntN(3); j > 0; j-- {
				add(op{K: "outcmd", D: int64(r.Uint64() >> 2)})
			}
			add(op{K: "drain"})
			add(op{K: "faults"})
		default:
			for j := 1 + r.IntN(5); j > 0; j-- {
				add(op{K: "out", Str: modes[r.IntN(len(modes))], D: int64(r.Uint64() >> 2), Q: int64(r.IntN(1001)), B: r.IntN(6) != 0})
			}
			if r.IntN(3) == 0 {
				add(op{K: "run", N: int64(1 + r.IntN(100))})
			} else {
				add(op{K: "drain"})
			}
		}
	}
	for j := 1 + r.IntN(3); j > 0; j-- { // whatever happened before must not matter
		add(op{K: "out", D: int64(r.Uint64() >> 2), B: true})
	}
	add(op{K: "drain"})
	return p
}

// The script: it does the steps it is told to do, one by one.
const outputSource = `
import { Metrics, print, println } from "@requiemdb/rq";
//@ts-ignore
const steps = JSON.parse(STEPS);
let data: any;
for (const step of steps) {
	//@ts-ignore
	MARK();
	switch (step.K) {
	case "query": data = new Metrics().query(); break;
	case "print": print(...step.Args); break;
	case "println": println(...step.Args); break;
	case "render": step.Opt ? Metrics.render(data, step.Opt) : Metrics.render(data); break;
	case "json": step.Opt ? Metrics.renderJSON(data, step.Opt) : Metrics.renderJSON(data); break;
	}
}
//@ts-ignore
MARK();
`

var (
	outScript    *goja.Program
	outScriptErr error
)

func warmOutput() {
	defer func() {
		if e := recover(); e != nil {
			outScriptErr = fmt.Errorf("%v", e)
		}
	}()
	b, err := compile.Compile([]byte(outputSource))
	if err == nil {
		outScript, err = goja.Compile("scan.js", string(b), true)
	}
	outScriptErr = err
}

func (o *output) do(x op) {
	o.judgeCmds()
	if o.died() {
		return
	}
	switch x.K {
	case "out":
		o.script(x)
	case "outcmd":
		o.command(x)
	}
}

var outWords = []string{"cpu.time", "a", "GET /x", "ünïcode ✓", "x=y", "=", "\"quoted\"", "%d %s", "{", "--> in", "=== x", "TIMESTAMP VALUE", "s", "ε", "\\", "host name"}

func outWord(r *rand.Rand) string {
	switch r.IntN(12) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("w", pick(r, 60, 500, 5000))
	}
	return outWords[r.IntN(len(outWords))] + pick(r, "", "", fmt.Sprint(r.IntN(5)))
}

func outValue(r *rand.Rand, depth int) *commonv1.AnyValue {
	switch r.IntN(9) {
	case 0:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: r.IntN(2) == 0}}
	case 1:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: int64(r.Uint64()) >> r.IntN(64)}}
	case 2:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: outFloat(r)}}
	case 3:
		b := make([]byte, r.IntN(6))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: b}}
	case 4:
		if depth > 0 {
			l := &commonv1.ArrayValue{}
			for i := r.IntN(4); i > 0; i-- {
				v := outValue(r, depth-1)
				if v == nil {
					v = &commonv1.AnyValue{}
				}
				l.Values = append(l.Values, v)
			}
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: l}}
		}
	case 5:
		if depth > 0 {
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: outAttrs(r, depth-1)}}}
		}
	case 6:
		switch r.IntN(4) {
		case 0:
			return nil
		case 1:
			return &commonv1.AnyValue{}
		}
	}
	s := outWord(r)
	if r.IntN(6) == 0 {
		s += "\ttab\nnew line "
	}
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
}

func outAttrs(r *rand.Rand, depth int) (o []*commonv1.KeyValue) {
	for i := r.IntN(4); i > 0; i-- {
		o = append(o, &commonv1.KeyValue{Key: outWord(r), Value: outValue(r, depth)})
	}
	return
}

func outFloat(r *rand.Rand) float64 {
	switch r.IntN(8) {
	case 0:
		return 0
	case 6:
		return math.Float64frombits(r.Uint64())
	case 7:
		return pick(r, math.Inf(1), math.Inf(-1), math.NaN(), 1e19, -1e19, 1<<63, 1<<64, 9.3e18, 2562047, 2562048, -153722867, 9223372036, 9223372037)
	case 1:
		return float64(r.IntN(5000))
	case 2:
		return float64(r.IntN(5000)) / 8
	case 3:
		return float64(r.Uint64() >> (24 + r.IntN(40)))
	case 4:
		return -float64(r.IntN(100000)) / 4
	}
	return r.Float64()
}

func outInt(r *rand.Rand) int64 {
	switch r.IntN(8) {
	case 0:
		return int64(r.IntN(5000))
	case 1:
		return pick[int64](r, 0, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1, 1<<53+1, 2562047, 2562048, -2562048, 153722867, 153722868, 9223372036, -9223372037, 9223372036854, 9223372036855)
	}
	return int64(r.Uint64()) >> r.IntN(64)
}

var outUnits = []string{"", "", "h", "m", "s", "ms", "ns", "By", "By", "1", "{request}", "S", "us", "By/s", "KiBy"}

// outData is what a scan returns: number data points of all kinds.
func outData(r *rand.Rand, all bool) *metricsv1.MetricsData {
	d := &metricsv1.MetricsData{}
	scope := func() *commonv1.InstrumentationScope {
		if r.IntN(5) == 0 {
			return nil
		}
		return &commonv1.InstrumentationScope{Name: outWord(r), Version: outWord(r), Attributes: outAttrs(r, 2)}
	}
	points := func() (o []*metricsv1.NumberDataPoint) {
		for i := r.IntN(pick(r, 3, 3, 6, 40)); i > 0; i-- {
			p := &metricsv1.NumberDataPoint{Attributes: outAttrs(r, 2)}
			switch r.IntN(5) {
			case 0:
				p.TimeUnixNano = uint64(r.IntN(3)) * 1e9
			case 1:
				p.TimeUnixNano = r.Uint64()
			default:
				p.TimeUnixNano = uint64(simEpoch.UnixNano()) + r.Uint64N(1e15)
			}
			if r.IntN(2) == 0 {
				p.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: outInt(r)}
			} else if r.IntN(8) != 0 {
				p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: outFloat(r)}
			}
			o = append(o, p)
		}
		return
	}
	for i := r.IntN(4); i > 0; i-- {
		rm := &metricsv1.ResourceMetrics{SchemaUrl: outWord(r)}
		if r.IntN(5) != 0 {
			rm.Resource = &resourcev1.Resource{Attributes: outAttrs(r, 2)}
		}
		for j := r.IntN(4); j > 0; j-- {
			sm := &metricsv1.ScopeMetrics{Scope: scope(), SchemaUrl: outWord(r)}
			for k := r.IntN(4); k > 0; k-- {
				m := &metricsv1.Metric{Name: outWord(r), Description: outWord(r), Unit: pick(r, outUnits...)}
				if r.IntN(6) == 0 {
					m.Description = pick(r, "time in nanoseconds", "nanoseconds", "Nanoseconds")
				}
				switch n := r.IntN(9); {
				case n < 4:
					m.Data = &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: points()}}
				case n < 8 || !all:
					m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: points(), IsMonotonic: r.IntN(2) == 0}}
				default:
					m.Data = &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{TimeUnixNano: 7, Count: 3, Sum: proto.Float64(2.5), BucketCounts: []uint64{1, 2}, ExplicitBounds: []float64{10}, Attributes: outAttrs(r, 1)}}}}
				}
				sm.Metrics = append(sm.Metrics, m)
			}
			rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
		}
		d.ResourceMetrics = append(d.ResourceMetrics, rm)
	}
	return d
}

func outArgs(r *rand.Rand, line bool) []any {
	o := []any{}
	n := 1
	if line {
		n = r.IntN(4)
	}
	for ; n > 0; n-- {
		if line && r.IntN(3) == 0 {
			o = append(o, r.IntN(2000)-1000)
		} else {
			o = append(o, outWord(r))
		}
	}
	return o
}

func (o *output) script(x op) {
	r := rand.New(rand.NewPCG(uint64(x.D), 11))
	t := &outRun{name: fmt.Sprintf("script #%d %s", x.ID, x.Str), mode: x.Str}
	t.w.limit = -1
	jsonOnly := r.IntN(4) == 0
	for i := 1 + r.IntN(6); i > 0; i-- {
		st := outStep{Data: len(t.data) - 1}
		switch n := r.IntN(10); {
		case len(t.data) == 0 || n == 0:
			st.K, st.Data = "query", len(t.data)
			d := outData(r, jsonOnly)
			t.data = append(t.data, d)
			t.copy = append(t.copy, proto.Clone(d).(*metricsv1.MetricsData))
		case n == 1:
			st.K, st.Args = "print", outArgs(r, false)
		case n < 4:
			st.K, st.Args = "println", outArgs(r, true)
		case n < 8 && !jsonOnly:
			st.K = "render"
			if r.IntN(4) != 0 {
				st.Opt = map[string]bool{}
				for _, k := range []string{"resource", "scope", "metrics"} {
					if r.IntN(3) != 0 {
						st.Opt[k] = r.IntN(2) == 0
					}
				}
			}
		default:
			st.K = "json"
			if r.IntN(3) != 0 {
				st.Opt = map[string]bool{"pretty": r.IntN(2) == 0}
			}
		}
		t.steps = append(t.steps, st)
	}
	switch t.mode {
	case "wfail", "once":
		t.w.limit = int(x.Q) * pick(r, 1, 3, 10) / 2
		t.w.once = t.mode == "once"
	case "nowrite":
		t.w.limit = 0
	case "slow":
		t.w.slow = 1 + r.IntN(200)
	}
	failScan := -1
	if t.mode == "scanfail" {
		failScan = r.IntN(len(t.data))
	}
	o.runs = append(o.runs, t)
	t.task = o.s.w.Go(o.inc, fmt.Sprint("t", x.ID), func() {
		if outScriptErr != nil {
			o.s.fail("the client library does not compile: %v", outScriptErr)
			return
		}
		steps, err := json.Marshal(t.steps)
		if err != nil {
			panic(err)
		}
		n := 0
		vm := js.New().WithNow(rt.Now).WithOutput(&t.w)
		if t.mode != "noscan" {
			vm.WithScan(func(*v1.Scan) (*v1.Data, error) {
				rt.Y(rt.SiteNet)
				if n == failScan {
					n++
					rt.Struck("scan failed")
					return nil, errors.New("unavailable")
				}
				n++
				if n > len(t.data) {
					return nil, errors.New("no such query")
				}
				return &v1.Data{Data: &v1.Data_Metrics{Metrics: t.data[n-1]}}, nil
			})
		}
		err = errors.Join(vm.Runtime.Set("STEPS", string(steps)), vm.Runtime.Set("MARK", func(goja.FunctionCall) goja.Value {
			rt.Y(rt.SiteClient)
			t.marks = append(t.marks, len(t.w.buf))
			return nil
		}))
		if err == nil {
			err = vm.Run(outScript)
		}
		t.w.over = true
		if x.B {
			vm.Release()
		}
		rt.Y(rt.SiteClient)
		t.done = true
		o.s.nRead++
		o.s.w.Log("%s ended, %d bytes, failed: %v", t.name, len(t.w.buf), err != nil)
		o.judge(t, err, failScan)
	})
}

func (o *output) judge(t *outRun, err error, failScan int) {
	fail := func(f string, a ...any) { o.s.fail("%s: %s", t.name, fmt.Sprintf(f, a...)) }
	if o.s.failed() {
		return
	}
	for i := range t.data {
		if !proto.Equal(t.data[i], t.copy[i]) {
			fail("rendering changed the data")
			return
		}
	}
	excuse := t.w.hit || t.mode == "noscan" || failScan >= 0
	switch {
	case t.w.late:
		fail("it writes after it ended")
		return
	case err != nil && !excuse:
		fail("failed: %s", short(err.Error()))
		return
	case err == nil && t.w.hit:
		fail("reports success although only %d bytes of its output were written", len(t.w.buf))
		return
	case err == nil && excuse:
		fail("reports success although its query failed")
		return
	case err == nil && len(t.marks) != len(t.steps)+1:
		fail("ended after %d of its %d steps", len(t.marks)-1, len(t.steps))
		return
	}
	for i, st := range t.steps {
		if i >= len(t.marks) {
			break
		}
		whole := i+1 < len(t.marks)
		seg := t.w.buf[t.marks[i]:]
		if whole {
			seg = t.w.buf[t.marks[i]:t.marks[i+1]]
		}
		if !whole && t.mode != "wfail" && t.mode != "once" && t.mode != "nowrite" && len(seg) > 0 {
			fail("step %d (%s) printed %q although it failed", i, st.K, short(string(seg)))
			return
		}
		if msg := o.step(t, st, seg, whole); msg != "" {
			fail("step %d (%s %v): %s", i, st.K, st.Opt, msg)
			return
		}
	}
}

// step judges what one step printed; if it is not whole, what it printed until it failed.
func (o *output) step(t *outRun, st outStep, seg []byte, whole bool) string {
	exact := func(want string) string {
		if whole && string(seg) != want || !strings.HasPrefix(want, string(seg)) {
			return fmt.Sprintf("printed %q instead of %q", short(string(seg)), short(want))
		}
		return ""
	}
	switch st.K {
	case "query":
		return exact("")
	case "print":
		return exact(st.Args[0].(string))
	case "println":
		var l []string
		for _, a := range st.Args {
			l = append(l, fmt.Sprint(a))
		}
		return exact(strings.Join(l, " ") + "\n")
	case "json":
		if !whole {
			return ""
		}
		d := &metricsv1.MetricsData{}
		if err := protojson.Unmarshal(seg, d); err != nil {
			return fmt.Sprintf("not valid JSON of metrics data: %v", err)
		}
		if !proto.Equal(d, t.copy[st.Data]) {
			return fmt.Sprintf("rendered %s instead of %s", short(d.String()), short(t.copy[st.Data].String()))
		}
		if n := bytes.Count(bytes.TrimRight(seg, "\n"), []byte("\n")); (n > 0) != (st.Opt["pretty"] && len(d.ResourceMetrics) > 0) {
			return fmt.Sprintf("%d line breaks", n)
		}
		return ""
	}
	want := outText(t.copy[st.Data], st.Opt)
	got := outLines(string(seg))
	for i := 0; i < max(len(got), len(want)); i++ {
		switch {
		case i >= len(got):
			if whole {
				return fmt.Sprintf("line %q is missing", short(want[i]))
			}
		case !whole && i == len(got)-1:
			if i >= len(want) || !strings.HasPrefix(strings.ReplaceAll(want[i], " ", ""), strings.ReplaceAll(got[i], " ", "")) {
				return fmt.Sprintf("unexpected line %q", short(got[i]))
			}
		case i >= len(want):
			return fmt.Sprintf("unexpected line %q", short(got[i]))
		case got[i] != want[i]:
			return fmt.Sprintf("line %q instead of %q", short(got[i]), short(want[i]))
		}
	}
	return ""
}

// outLines are the lines of a text, apart from alignment and empty lines.
func outLines(s string) (o []string) {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.Join(strings.Fields(l), " "); l != "" {
			o = append(o, l)
		}
	}
	return
}

// outText is what rendering must look like.
func outText(d *metricsv1.MetricsData, opt map[string]bool) []string {
	var b strings.Builder
	for _, rm := range d.ResourceMetrics {
		fmt.Fprintf(&b, "=== %s\n", rm.SchemaUrl)
		if opt["resource"] {
			fmt.Fprintf(&b, "resource.schema %s\nresource.attributes %s\n", rm.SchemaUrl, outAttrText(rm.GetResource().GetAttributes()))
		}
		for _, sm := range rm.ScopeMetrics {
			fmt.Fprintf(&b, "--> %s\n", sm.GetScope().GetName())
			if opt["scope"] {
				fmt.Fprintf(&b, "scope.name %s\nscope.schema %s\nscope.version %s\nscope.attributes %s\n", sm.GetScope().GetName(), sm.SchemaUrl, sm.GetScope().GetVersion(), outAttrText(sm.GetScope().GetAttributes()))
			}
			for _, m := range sm.Metrics {
				unit := m.Unit
				if unit == "" && strings.Contains(m.Description, "nanoseconds") {
					unit = "ns"
				}
				fmt.Fprintln(&b, m.Name)
				if opt["metrics"] {
					fmt.Fprintf(&b, "description %s\nunit %s\n", m.Description, unit)
				}
				points := m.GetGauge().GetDataPoints()
				if m.GetSum() != nil {
					points = m.GetSum().DataPoints
				}
				fmt.Fprintln(&b, "TIMESTAMP VALUE ATTRIBUTES")
				for _, p := range points {
					fmt.Fprintf(&b, "%s %s %s\n", time.Unix(int64(p.TimeUnixNano/1e9), 0).UTC().Format("2006-01-02 15:04:05"), outNumber(p, unit), outAttrText(p.Attributes))
				}
			}
		}
	}
	return outLines(b.String())
}

// outNumber is the value of a point, with its unit if that is known. A value that is
// too large for the notation of its unit is shown with the unit behind it.
func outNumber(p *metricsv1.NumberDataPoint, unit string) string {
	scale := map[string]int64{"h": 3600e9, "m": 60e9, "s": 1e9, "ms": 1e6, "ns": 1}[unit]
	if v, ok := p.Value.(*metricsv1.NumberDataPoint_AsInt); ok {
		n := big.NewInt(v.AsInt)
		d := new(big.Int).Mul(n, big.NewInt(scale))
		switch {
		case scale != 0 && d.IsInt64() && d.Int64() != math.MinInt64:
			return time.Duration(d.Int64()).String()
		case scale != 0:
			return n.String() + unit
		case unit == "By" && n.Sign() < 0:
			return "-" + outBytes(n.Neg(n).Uint64())
		case unit == "By":
			return outBytes(n.Uint64())
		}
		return n.String()
	}
	f := p.GetAsDouble()
	plain := strconv.FormatFloat(f, 'g', -1, 64)
	switch {
	case scale != 0 && math.Abs(f*float64(scale)) < 1<<63:
		return time.Duration(f * float64(scale)).String()
	case unit == "By" && math.Abs(f) < 1<<64:
		if f < 0 {
			return "-" + outBytes(uint64(-f))
		}
		return outBytes(uint64(f))
	case scale != 0 || unit == "By":
		return plain + unit
	}
	return plain
}

func outBytes(n uint64) string {
	if n < 10 {
		return fmt.Sprintf("%d B", n)
	}
	names := []string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}
	e, d := 0, uint64(1)
	for n/d >= 1024 && e < len(names)-1 {
		e++
		d *= 1024
	}
	v := float64(int64(float64(n)/float64(d)*10+0.5)) / 10
	if v < 10 {
		return fmt.Sprintf("%.1f %s", v, names[e])
	}
	return fmt.Sprintf("%.0f %s", v, names[e])
}

func outAttrText(kv []*commonv1.KeyValue) string {
	return outAnyText(&commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: kv}}})
}

func outAnyText(v *commonv1.AnyValue) string {
	switch e := v.GetValue().(type) {
	case *commonv1.AnyValue_StringValue:
		return strconv.Quote(e.StringValue)
	case *commonv1.AnyValue_BoolValue:
		return fmt.Sprint(e.BoolValue)
	case *commonv1.AnyValue_IntValue:
		return fmt.Sprint(e.IntValue)
	case *commonv1.AnyValue_DoubleValue:
		return strconv.FormatFloat(e.DoubleValue, 'g', -1, 64)
	case *commonv1.AnyValue_BytesValue:
		return fmt.Sprintf("%x", e.BytesValue)
	case *commonv1.AnyValue_ArrayValue:
		var l []string
		for _, x := range e.ArrayValue.Values {
			l = append(l, outAnyText(x))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case *commonv1.AnyValue_KvlistValue:
		var l []string
		for _, x := range e.KvlistValue.Values {
			l = append(l, x.Key+" = "+outAnyText(x.Value))
		}
		if l == nil {
			return "{}"
		}
		return "{ " + strings.Join(l, ", ") + " }"
	}
	return ""
}

// command runs the query command itself on a script that prints.
func (o *output) command(x op) {
	s := o.s
	r := rand.New(rand.NewPCG(uint64(x.D), 13))
	src, want := "import { println, print } from \"@requiemdb/rq\";\n", ""
	for i := 1 + r.IntN(5); i > 0; i-- {
		w := outWord(r)
		if r.IntN(2) == 0 {
			src += fmt.Sprintf("print(%s);\n", strconv.QuoteToASCII(w))
			want += w
		} else {
			src += fmt.Sprintf("println(%s, %d);\n", strconv.QuoteToASCII(w), i)
			want += fmt.Sprintln(w, i)
		}
	}
	file := filepath.Join(s.root, "scripts", fmt.Sprint(x.ID, ".ts"))
	if err := os.WriteFile(file, []byte(src), 0o644); err != nil {
		panic(err)
	}
	q := &queryRun{name: fmt.Sprintf("command #%d", x.ID)}
	q.inc = s.w.NewInc(fmt.Sprint("q", x.ID))
	o.cmds = append(o.cmds, q)
	o.want[q] = want
	q.task = s.w.Go(q.inc, q.inc.Name, func() {
		cmd := &cli.Command{Name: "rq", Flags: []cli.Flag{&cli.StringFlag{Name: "logLevel", Value: "error"}}, Writer: io.Discard, ErrWriter: io.Discard, Commands: []*cli.Command{query.Cmd()}}
		q.err = cmd.Run(context.Background(), []string{"rq", "query", file})
		q.done = true
		s.w.Log("%s ended %v, output %q", q.name, q.err != nil, q.inc.Stdout["stdout"])
	})
}

func (o *output) judgeCmds() {
	s := o.s
	for _, q := range o.cmds {
		if q.judged || s.failed() {
			continue
		}
		out, want := string(q.inc.Stdout["stdout"]), o.want[q]
		if q.inc.Death != nil {
			s.fail("%s died (%s): %s in %s", q.name, q.inc.Death.Kind, q.inc.Death.What, q.inc.Death.Where)
			continue
		}
		if !q.done {
			continue
		}
		q.judged = true
		s.nRead++
		s.w.Kill(q.inc)
		switch {
		case !strings.HasPrefix(want, out):
			s.fail("%s printed %q instead of %q", q.name, short(out), short(want))
		case q.err == nil && out != want:
			s.fail("%s reports success although it printed only %q of %q", q.name, short(out), short(want))
		case q.err != nil && q.inc.Stdout["failed"] == nil:
			s.fail("%s failed: %s", q.name, short(q.err.Error()))
		}
	}
}

// died reports a script that took the whole process with it.
func (o *output) died() bool {
	if d := o.inc.Death; d != nil && !o.s.failed() {
		o.s.fail("a script killed the process (%s): %s in %s", d.Kind, d.What, d.Where)
	}
	return o.inc.Death != nil
}

func (o *output) finish() {
	o.judgeCmds()
	if o.died() {
		return
	}
	for _, t := range o.runs {
		if !t.done && !o.s.failed() {
			o.s.fail("%s never ends: %s@%s", t.name, t.task.State(), t.task.Where())
		}
	}
	for _, q := range o.cmds {
		if !q.judged && !o.s.failed() {
			o.s.fail("%s never ends: %s@%s", q.name, q.task.State(), q.task.Where())
		}
		o.s.w.Kill(q.inc)
	}
	os.Setenv("HOME", filepath.Join(filepath.Dir(o.s.root), "home"))
}
