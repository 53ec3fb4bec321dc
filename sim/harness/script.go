package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"

	"zzsim/rt"
)

// The query script of every simulated client: it builds the scan step by step with the client
// library and hands over what the query returns.
const scriptSource = `
import { Metrics, Logs, Trace } from "@requiemdb/rq";
//@ts-ignore
const plan = JSON.parse(STEPS);
let q: any;
switch (plan.signal) {
case 1: q = plan.name ? new Metrics(plan.name) : new Metrics(); break;
case 3: q = new Logs(); break;
default: q = new Trace();
}
for (const [m, ...args] of plan.calls) {
	switch (m) {
	case "now": q.now(new Date(args[0])); break;
	case "range": q.ptr.TimeRange(args[0], args[1]); break;
	default: q[m](...args);
	}
}
//@ts-ignore
RESULT(q.query());
`

var (
	script    *goja.Program
	scriptErr error
)

// warmScript compiles the script, outside any simulation.
func warmScript() {
	defer func() {
		if e := recover(); e != nil {
			scriptErr = fmt.Errorf("%v", e)
		}
	}()
	b, err := compile.Compile([]byte(scriptSource))
	if err == nil {
		script, err = goja.Compile("scan.js", string(b), true)
	}
	scriptErr = err
}

var baseCall = map[int32]string{pResSchema: "resourceSchema", pScopeSchema: "scopeSchema", pScopeName: "scopeName", pScopeVer: "scopeVersion", pName: "name",
	pTrace: "traceId", pSpan: "spanId", pParent: "parentSpanId", pLevel: "logLevel", pResAttr: "resourceAttr", pScopeAttr: "scopeAttr", pAttr: "attr"}

// scriptRun is one execution of the script.
type scriptRun struct {
	name     string
	op       op
	spec     *scanSpec
	run      *scanRun // as the server saw it
	lo, hi   time.Time
	data     *v1.Data
	nScan    int
	err      error
	excused  bool
	clo, chi time.Time
	begin    int64
	done     bool
}

func (s *sim) clientInc(skew int64) *rt.Inc {
	if s.clients == nil {
		s.clients = map[int64]*rt.Inc{}
	}
	in := s.clients[skew]
	if in == nil {
		in = s.w.NewInc(fmt.Sprint("cli", len(s.clients)+1))
		in.Skew = time.Duration(skew)
		s.clients[skew] = in
		s.clientList = append(s.clientList, in)
	}
	return in
}

// steps is what the script is told to do.
func scriptSteps(o op) string {
	var calls [][]any
	name := ""
	for i, f := range o.S.Filters {
		c := baseCall[f.P]
		switch {
		case isAttr(f.P):
			calls = append(calls, []any{c, string(f.K), string(f.V)})
		case i == 0 && f.P == pName && o.S.Sig == 1 && o.N%2 == 0:
			name = string(f.K)
		default:
			calls = append(calls, []any{c, string(f.K)})
		}
	}
	if o.S.Now != nil {
		calls = append(calls, []any{"now", *o.S.Now / 1e6})
	}
	if o.S.Offset != 0 {
		calls = append(calls, []any{"offset", time.Duration(o.S.Offset).String()})
	}
	switch o.Str {
	case "":
	case "range":
		calls = append(calls, []any{"range", floorDiv(o.S.Start, 1e6), floorDiv(o.S.End, 1e6)})
	case "ago":
		calls = append(calls, []any{"ago", time.Duration(o.D).String()})
	default:
		calls = append(calls, []any{o.Str})
	}
	if o.N%3 == 1 && len(calls) > 1 { // the order of the calls does not matter
		for i, j := 0, len(calls)-1; i < j; i, j = i+1, j-1 {
			calls[i], calls[j] = calls[j], calls[i]
		}
	}
	b, err := json.Marshal(map[string]any{"signal": o.S.Sig, "name": name, "calls": append([][]any{}, calls...)})
	if err != nil {
		panic(err)
	}
	return string(b)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func (s *sim) script(o op) {
	in := s.clientInc(o.Q)
	r := &scriptRun{name: fmt.Sprintf("script #%d (%s %s)", o.ID, o.Str, o.S), op: o, spec: o.S, begin: s.step()}
	s.scripts = append(s.scripts, r)
	s.nScan++
	c := &call{id: o.ID, name: r.name, srv: &server{inc: in}, cancel: func() {}}
	s.calls = append(s.calls, c)
	c.task = s.w.Go(in, fmt.Sprint("script", o.ID), func() {
		rt.Y(rt.SiteClient)
		r.clo = time.Now().Add(in.Skew)
		r.excused = s.shaky()
		if scriptErr != nil {
			s.fail("the client library does not compile: %v", scriptErr)
			return
		}
		vm := js.New().WithNow(rt.Now).WithScan(func(req *v1.Scan) (*v1.Data, error) {
			r.nScan++
			return s.remoteScan(r, req)
		})
		got := false
		err := errors.Join(vm.Runtime.Set("STEPS", scriptSteps(o)), vm.Runtime.Set("RESULT", func(v goja.Value) {
			got = true
			r.data = nil
			switch x := v.Export().(type) {
			case *metricsv1.MetricsData:
				r.data = &v1.Data{Data: &v1.Data_Metrics{Metrics: x}}
			case *logsv1.LogsData:
				r.data = &v1.Data{Data: &v1.Data_Logs{Logs: x}}
			case *tracev1.TracesData:
				r.data = &v1.Data{Data: &v1.Data_Traces{Traces: x}}
			}
		}))
		if err == nil {
			err = vm.Run(script)
		}
		if o.B {
			vm.Release()
		}
		rt.Y(rt.SiteClient)
		r.err = err
		r.chi = time.Now().Add(in.Skew)
		r.excused = r.excused || s.shaky()
		if s.failed() {
			return
		}
		s.w.Log("script #%d ends %v", o.ID, err)
		switch {
		case err != nil:
			if !r.excused {
				s.fail("%s failed: %s", r.name, short(err.Error()))
			}
		case !got || r.data == nil:
			s.fail("%s: the query returned nothing of its signal", r.name)
		default:
			s.nRead++
			s.judgeScript(r)
		}
		if !s.failed() && r.data != nil && len(s.frozen) < 40 {
			s.frozen = append(s.frozen, frozen{r.name, r.data, strings.Join(atomKeys(r.data), "\n")})
		}
		c.done = true
	})
}

// shaky reports whether scans may fail now for reasons that are not the script's.
func (s *sim) shaky() bool {
	return s.faults || !s.srv.up() || s.srv.stopReq || s.recovering()
}

// remoteScan is a call over the network: the server's handler gets a copy of the request, the
// client a copy of the answer.
func (s *sim) remoteScan(r *scriptRun, req *v1.Scan) (*v1.Data, error) {
	rt.Y(rt.SiteNet)
	errDown := errors.New("unavailable")
	srv := s.srv
	if !srv.up() {
		r.excused = true
		return nil, errDown
	}
	pb, err := proto.Marshal(req)
	if err != nil {
		return nil, err
	}
	var answer []byte
	var answerErr error = errDown
	done := make(chan struct{})
	over := false
	end := func() error {
		if !over {
			over = true
			close(done)
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	srv.inc.AddCloser("call", nil, end, func() bool { return over })
	c := &call{id: r.op.ID, name: r.name, srv: srv, cancel: cancel}
	s.calls = append(s.calls, c)
	c.task = s.w.Go(srv.inc, fmt.Sprint("call", r.op.ID), func() {
		defer end()
		defer cancel()
		g := grpcOf(srv.inc)
		if !g.begin(cancel) {
			c.done = true
			return
		}
		req := &v1.Scan{}
		if err := proto.Unmarshal(pb, req); err != nil {
			answerErr = err
		} else {
			x := &scanRun{op: r.op.ID, spec: r.spec, srv: srv, faulty: s.faults, req: req}
			x.begin = s.step()
			x.at = time.Now().Add(srv.inc.Skew)
			r.lo = x.at
			s.m.start(x)
			r.run = x
			d, err := handler[v1.RQServer](srv, v1.RQ_ServiceDesc.ServiceName).ScanSamples(ctx, req)
			rt.Y(rt.SiteClient)
			r.hi = time.Now().Add(srv.inc.Skew)
			x.end = s.step()
			x.faulty = x.faulty || s.faults
			answerErr = err
			if err == nil {
				answer, answerErr = proto.Marshal(d)
			}
		}
		c.done = true
		g.end()
	})
	<-done
	rt.Y(rt.SiteNet)
	r.excused = r.excused || s.shaky() || s.srv != srv || srv.inc.Dead
	if answerErr != nil {
		return nil, answerErr
	}
	d := &v1.Data{}
	if err := proto.Unmarshal(answer, d); err != nil {
		return nil, err
	}
	return d, nil
}

// askedWindow is the time range the script asked for, given where its end is.
func (r *scriptRun) askedStart(end time.Time) time.Time {
	t := end.In(time.Local)
	y, m, d := t.Date()
	switch r.op.Str {
	case "today":
		return time.Date(y, m, d, 0, 0, 0, 0, t.Location())
	case "thisWeek":
		return time.Date(y, m, d-int(t.Weekday()), 0, 0, 0, 0, t.Location())
	case "thisMonth":
		return time.Date(y, m, 1, 0, 0, 0, 0, t.Location())
	case "thisYear":
		return time.Date(y, 1, 1, 0, 0, 0, 0, t.Location())
	case "latest":
		return end.Add(-15 * time.Minute)
	}
	return end.Add(-time.Duration(r.op.D))
}

// passes reports whether a point's own labels satisfy all filters.
func (s *scanSpec) passes(own map[label]bool) bool {
	any := map[int32]bool{}
	for _, f := range s.Filters {
		ok := own[label{f.P, string(f.K), string(f.V)}]
		if isAttr(f.P) {
			if !ok {
				return false
			}
			continue
		}
		any[f.P] = any[f.P] || ok
	}
	for _, ok := range any {
		if !ok {
			return false
		}
	}
	return true
}

func nanos(t time.Time) uint64 {
	switch {
	case t.Before(time.Unix(0, 0)):
		return 0
	case t.After(time.Unix(0, math.MaxInt64)):
		return math.MaxUint64
	}
	return uint64(t.UnixNano())
}

// trim counts the points of an export a query must and may select.
func (r *scriptRun) trim(e *export, windows [][2]time.Time) (must, may map[string]int) {
	must, may = map[string]int{}, map[string]int{}
	each(e.data, func(a atom, ts uint64, own map[label]bool) {
		if !r.spec.passes(own) {
			return
		}
		all, some := true, false
		for _, w := range windows {
			in := ts >= nanos(w[0]) && ts < nanos(w[1])
			all, some = all && in, some || in
		}
		if ts > math.MaxInt64 {
			some = true
			all = false
		}
		if some {
			may[a.String()]++
		}
		if all {
			must[a.String()]++
		}
	})
	return
}

// judgeScript compares the result of a query with the points it should have selected.
func (s *sim) judgeScript(r *scriptRun) {
	x, m := r.run, s.m
	if r.nScan != 1 || x == nil {
		s.fail("%s: one query sent %d scans", r.name, r.nScan)
		return
	}
	if r.op.Str == "" {
		if x.req.TimeRange != nil {
			s.fail("%s states a time range nobody asked for", r.name)
			return
		}
		if len(r.spec.Filters) == 0 {
			x.data = r.data
			n := len(m.fails)
			m.finish(x, x.end, r.lo, r.hi, false)
			if len(m.fails) > n {
				s.w.Log("fail %s", m.fails[n])
			}
			return
		}
	} else {
		if x.req.TimeRange == nil {
			s.fail("%s does not state its time range", r.name)
			return
		}
		a, b := x.req.TimeRange.Start.AsTime(), x.req.TimeRange.End.AsTime()
		if r.op.Str == "range" {
			wa, wb := time.UnixMilli(floorDiv(r.spec.Start, 1e6)), time.UnixMilli(floorDiv(r.spec.End, 1e6))
			if !a.Equal(wa) || !b.Equal(wb) {
				s.fail("%s scans [%s, %s)", r.name, a, b)
				return
			}
		} else {
			lo, hi := r.clo, r.chi
			if r.spec.Now != nil {
				lo = time.Unix(0, *r.spec.Now)
				hi = lo
			}
			off := -time.Duration(r.spec.Offset)
			if b.Before(lo.Add(off)) || b.After(hi.Add(off)) || !a.Equal(r.askedStart(b)) {
				s.fail("%s scans [%s, %s) although its time is %s, less %s", r.name, a, b, lo, -off)
				return
			}
		}
	}
	got := map[string]int{}
	for _, a := range atomKeys(r.data) {
		if _, ok := m.owner[a]; !ok {
			s.fail("%s returned something nobody exported: %s%s", r.name, short(a), m.nearest(a))
			return
		}
		got[a]++
	}
	var must, may []*export
	for _, e := range m.exports {
		if !x.matches(e) || e.lost || e.begin > x.end {
			continue
		}
		if _, ok := x.in(e, r.lo, r.hi); ok {
			may = append(may, e)
		}
	}
	for _, e := range x.must {
		if ok, _ := x.in(e, r.lo, r.hi); ok {
			must = append(must, e)
		}
	}
	a, b := x.bounds(r.clo)
	a2, b2 := x.bounds(r.chi)
	windows := [][2]time.Time{{a, b}, {a2, b2}}
	if x.req.TimeRange == nil { // of a newest export
		none := len(must) == 0
		why := ""
		for _, c := range may {
			newest := true
			for _, e := range must {
				if c.end != 0 && c.end < e.begin && e != c {
					newest = false
				}
			}
			if !newest {
				continue
			}
			lo, hi := r.trim(c, windows)
			w := compare(got, lo, hi)
			if w == "" {
				return
			}
			why = fmt.Sprintf(" (of #%d: %s)", c.op, w)
		}
		if none && len(got) == 0 {
			return
		}
		s.fail("%s did not return exactly the selected points of a newest matching export%s", r.name, why)
		return
	}
	lo, hi := map[string]int{}, map[string]int{}
	for _, e := range must {
		l, _ := r.trim(e, windows)
		for k, n := range l {
			lo[k] += n
		}
	}
	for _, e := range may {
		_, h := r.trim(e, windows)
		for k, n := range h {
			hi[k] += n
		}
	}
	if w := compare(got, lo, hi); w != "" {
		s.fail("%s: %s", r.name, w)
	}
}

func compare(got, lo, hi map[string]int) string {
	for _, k := range sortedKeys(got) {
		if got[k] > hi[k] {
			return fmt.Sprintf("returned %d times, %d expected: %s", got[k], hi[k], short(k))
		}
	}
	for _, k := range sortedKeys(lo) {
		if got[k] < lo[k] {
			return fmt.Sprintf("returned %d times, at least %d expected: %s", got[k], lo[k], short(k))
		}
	}
	return ""
}
