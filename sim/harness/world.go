package main

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/urfave/cli/v3"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"

	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"

	"zzsim/rt"
	"zzsim/simnet"
)

// server is one incarnation of the rq process.
type server struct {
	inc         *rt.Inc
	dir         string
	ctx         context.Context
	cancel      context.CancelFunc
	task        *rt.Task
	err         error
	returned    bool
	unclosed    []string
	stopReq     bool
	stopStep    int64
	crashed     bool
	selfExports int
	nextDir     string // snapshot taken by a crash
	faulty      bool   // storage errors were possible at some time while it ran
	ended       bool   // accounted for
}

// up reports whether the server accepts calls.
func (s *server) up() bool {
	return s != nil && !s.inc.Dead && !s.returned && grpcOf(s.inc).serving
}

// started reports whether the server ever accepted calls.
func (s *server) started() bool { return grpcOf(s.inc).served }

// sim is one simulated run.
type sim struct {
	w       *rt.World
	p       *plan
	m       *model
	root    string
	ndir    int
	srv     *server
	dir     string // data directory of the next start
	tick    int64
	calls   []*call
	scans   []*scanRun
	nExp    int
	nScan   int
	nCrash  int
	nStart  int
	nRead   int
	faults  bool
	lastF   time.Time // when faults were last possible
	everF   bool
	stalled time.Time // when the process last got no time
	frozen  []frozen
	power   uint64 // power is lost before the next start (0: no)
	ops     map[int]*call
	comp    component
	self    *telemetry

	scripts    []*scriptRun
	clients    map[int64]*rt.Inc
	clientList []*rt.Inc
}

type frozen struct {
	name string
	data *v1.Data
	was  string
}

type call struct {
	id     int
	name   string
	task   *rt.Task
	srv    *server
	cancel context.CancelFunc
	cancd  bool
	done   bool
}

func (s *sim) step() int64 { s.tick++; return s.tick }

func (s *sim) fail(format string, a ...any) {
	s.m.fail(format, a...)
	s.w.Log("fail %s", s.m.fails[len(s.m.fails)-1])
}

func (s *sim) failed() bool { return len(s.m.fails) > 0 }

func (s *sim) newDir() string {
	s.ndir++
	d := filepath.Join(s.root, fmt.Sprint("d", s.ndir))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// start launches a server on the current data directory.
func (s *sim) start() {
	if s.srv != nil && !s.srv.ended {
		return
	}
	if s.dir == "" {
		s.dir = s.newDir()
	}
	s.losePower()
	simnet.Reset()
	s.nStart++
	in := s.w.NewInc(fmt.Sprint("srv", s.nStart))
	ctx, cancel := context.WithCancel(context.Background())
	srv := &server{inc: in, dir: s.dir, ctx: ctx, cancel: cancel, faulty: s.faults}
	in.OnCrash = func() {
		srv.nextDir = s.newDir()
		copyDir(srv.dir, srv.nextDir)
		if s.w.Disk != nil {
			s.w.Disk.Moved(srv.dir, srv.nextDir)
		}
		s.w.Log("crash %s", in.Name)
	}
	in.AddCloser("ctx", nil, func() error { cancel(); return nil }, func() bool { return ctx.Err() != nil })
	s.srv = srv
	s.w.AdoptInc = in
	srv.task = s.w.Go(in, in.Name, func() {
		srv.err = serve(ctx, srv.dir, s.p.Cfg.Level)
		if in.Dead {
			return
		}
		// the process exits as soon as its main function returns
		srv.returned = true
		srv.unclosed = in.Unclosed()
		s.w.Log("%s returned %v", in.Name, srv.err)
		in.OnCrash = nil
		in.Dead = true
	})
}

// losePower leaves only what is on disk, if the power is to be lost.
func (s *sim) losePower() {
	seed := s.power
	s.power = 0
	if seed == 0 || s.w.Disk == nil {
		return
	}
	r := rand.New(rand.NewPCG(seed, 7))
	dir := s.newDir()
	lost, err := s.w.Disk.PowerLoss(s.dir, dir, r.IntN)
	if err != nil {
		panic(err)
	}
	os.RemoveAll(s.dir)
	s.dir = dir
	s.w.Log("power lost, %d pages of it", lost)
	rt.Struck("power lost")
	if lost > 0 {
		rt.Struck("power lost with unsynced pages")
	}
}

// serve is the real server's run function under its own command definition.
func serve(ctx context.Context, dir, level string) error {
	cmd := &cli.Command{
		Name: "rq",
		Flags: []cli.Flag{
			&cli.StringFlag{Name: "logLevel", Value: level},
			&cli.StringFlag{Name: "otlpListen", Value: ":4317"},
			&cli.DurationFlag{Name: "retentionPeriod", Value: 7 * 24 * time.Hour},
		},
		Action: run,
	}
	return cmd.Run(ctx, []string{"rq", dir})
}

// account notices that the server has ended and updates the model.
func (s *sim) account() {
	srv := s.srv
	if srv == nil || srv.ended {
		return
	}
	switch {
	case srv.returned:
		s.w.Kill(srv.inc)
	case srv.inc.Death != nil:
		if !srv.started() && srv.faulty && srv.inc.Death.Kind == "exit" {
			break // may give up while starting on a failing disk
		}
		s.fail("the server process died (%s): %s in %s", srv.inc.Death.Kind, srv.inc.Death.What, srv.inc.Death.Where)
	case srv.inc.Dead:
	default:
		return
	}
	srv.ended = true
	s.dir = srv.dir
	clean := srv.returned
	if !clean {
		srv.crashed = true
		s.nCrash++
		if srv.nextDir != "" {
			old := srv.dir
			s.dir = srv.nextDir
			os.RemoveAll(old)
		}
	}
	if clean {
		if srv.err != nil && !srv.faulty {
			s.fail("the server ended with an error: %v", srv.err)
		} else if !srv.stopReq && srv.err == nil {
			s.fail("the server ended although nobody stopped it")
		}
		if srv.err == nil || !srv.faulty {
			if l := srv.unclosed; len(l) > 0 {
				s.fail("the stopped server left open: %s", strings.Join(l, ", "))
			}
		}
	}
	if clean && srv.started() {
		s.self.checkDone(srv, true)
	}
	for _, e := range s.m.exports {
		if e.inc != srv || e.settled {
			continue
		}
		if e.end == 0 {
			e.end = s.step()
			continue
		}
		if clean && e.acked && srv.stopReq && (e.end < srv.stopStep || e.self) && !srv.faulty {
			e.settled = true
		}
	}
	for _, c := range s.calls {
		if c.srv == srv {
			c.done = true
		}
	}
}

// settle records what is certainly stored by now. It is only called when nothing can run.
func (s *sim) settle() {
	if !s.srv.up() || s.faults || s.srv.stopReq {
		return
	}
	now := time.Now()
	for _, e := range s.m.exports {
		if e.settled || !e.acked || e.inc != s.srv {
			continue
		}
		if now.Sub(e.ackAt) < 2*flushEvery {
			continue
		}
		if s.everF && now.Sub(s.lastF) < 3*flushEvery {
			continue
		}
		e.settled = true
		s.w.Log("settled #%d", e.op)
	}
	if !s.recovering() {
		s.self.checkDone(s.srv, false)
	}
}

func (s *sim) drain() {
	s.w.Drain(s.failed)
	s.account()
}

func (s *sim) quiet() {
	s.drain()
	if s.srv != nil {
		s.settle()
	}
}

func (s *sim) client(o op, f func(ctx context.Context, srv *server, c *call)) {
	srv := s.srv
	if !srv.up() {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	c := &call{id: o.ID, name: o.String(), srv: srv, cancel: cancel}
	s.calls = append(s.calls, c)
	s.ops[o.ID] = c
	c.task = s.w.Go(srv.inc, fmt.Sprintf("c%d", o.ID), func() {
		defer cancel()
		rt.Y(rt.SiteClient)
		g := grpcOf(srv.inc)
		if !g.begin(cancel) {
			c.done = true // refused
			return
		}
		f(ctx, srv, c)
		c.done = true
		g.end()
	})
}

func (s *sim) export(o op) {
	s.client(o, func(ctx context.Context, srv *server, c *call) {
		s.exportData(ctx, srv, c, o.ID, unpb(o.PB))
	})
}

// mass makes very many small exports from a few clients.
func (s *sim) mass(o op) {
	const clients = 4
	id := o.ID
	s.w.MaxStep += 6_000_000
	for k := int64(0); k < clients; k++ {
		k := k
		o := o
		o.ID = o.ID*10 + 1_000_000 + int(k)
		s.client(o, func(ctx context.Context, srv *server, c *call) {
			r := rand.New(rand.NewPCG(uint64(o.D), uint64(k)))
			for i := k; i < o.N && !c.cancd && srv.up() && !srv.stopReq && !s.failed(); i += clients {
				mark := fmt.Sprintf("mass %d.%d", id, i)
				at := uint64(time.Now().UnixNano()) - r.Uint64N(2*uint64(time.Hour))
				d := &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{
					TimeUnixNano: at, SeverityText: "INFO", Body: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: mark}}}}}}}}}}}
				switch (o.Q + int64(r.IntN(8))/7) % 3 {
				case 1:
					d = &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{{
						Name: "mass", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: at, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(id)*1e6 + i}}}}}}}}}}}}}}
				case 2:
					d = &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{ScopeSpans: []*tracev1.ScopeSpans{{Spans: []*tracev1.Span{{
						Name: mark, StartTimeUnixNano: at, EndTimeUnixNano: at + 1, TraceId: []byte("massmassmassmass"), SpanId: []byte(fmt.Sprintf("%08d", i))}}}}}}}}}
				}
				s.exportData(ctx, srv, c, id*1_000_000+int(i), d)
			}
		})
	}
}

func (s *sim) exportData(ctx context.Context, srv *server, c *call, id int, d *v1.Data) {
	e := s.m.add(id, proto.Clone(d).(*v1.Data), srv, s.step())
	s.nExp++
	s.w.Log("export #%d begins", id)
	var err error
	switch x := d.GetData().(type) {
	case *v1.Data_Metrics:
		_, err = handler[collector_metrics.MetricsServiceServer](srv, "opentelemetry.proto.collector.metrics.v1.MetricsService").Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: x.Metrics.ResourceMetrics})
	case *v1.Data_Logs:
		_, err = handler[collector_logs.LogsServiceServer](srv, "opentelemetry.proto.collector.logs.v1.LogsService").Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: x.Logs.ResourceLogs})
	case *v1.Data_Traces:
		_, err = handler[collector_trace.TraceServiceServer](srv, "opentelemetry.proto.collector.trace.v1.TraceService").Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: x.Traces.ResourceSpans})
	}
	rt.Y(rt.SiteClient)
	e.end = s.step()
	e.ackAt = time.Now()
	if err == nil {
		e.acked = true
	} else {
		e.failed = true
		if !s.faults && !srv.stopReq && !c.cancd && !(s.everF && time.Since(s.lastF) < 3*flushEvery) {
			s.fail("export #%d failed: %v", id, err)
		}
	}
	s.w.Log("export #%d ends %v", id, err)
}

func (s *sim) scan(o op) {
	s.client(o, func(ctx context.Context, srv *server, c *call) {
		r := &scanRun{op: o.ID, spec: o.S, srv: srv, faulty: s.faults}
		s.nScan++
		r.at = time.Now().Add(srv.inc.Skew)
		lo := r.at
		r.req = o.S.request(lo)
		r.begin = s.step()
		s.m.start(r)
		s.scans = append(s.scans, r)
		s.w.Log("scan #%d begins", o.ID)
		nf := len(s.w.Faults)
		for _, n := range s.w.Faults {
			nf += n
		}
		r.data, r.err = handler[v1.RQServer](srv, v1.RQ_ServiceDesc.ServiceName).ScanSamples(ctx, r.req)
		rt.Y(rt.SiteClient)
		hi := time.Now().Add(srv.inc.Skew)
		s.w.Log("scan #%d ends %v", o.ID, r.err)
		r.faulty = r.faulty || s.faults
		errOK := r.faulty || srv.stopReq || c.cancd || o.S.Sig < 1 || o.S.Sig > 3 || o.S.Raw != nil || s.recovering()
		n := len(s.m.fails)
		s.m.finish(r, s.step(), lo, hi, errOK)
		if len(s.m.fails) > n {
			s.w.Log("fail %s", s.m.fails[n])
		}
		if r.data != nil && r.err == nil {
			s.nRead++
			s.frozen = append(s.frozen, frozen{fmt.Sprint("#", o.ID), r.data, strings.Join(atomKeys(r.data), "\n")})
		}
	})
}

// recovering reports whether storage errors were possible so recently that the server may still
// be getting over them.
func (s *sim) recovering() bool { return s.everF && time.Since(s.lastF) < 3*flushEvery }

func (s *sim) setFaults(on bool) {
	if on || s.faults {
		s.everF = true
		s.lastF = time.Now()
	}
	s.doComp(op{K: "tick"})
	s.faults = on
	s.w.SetFaults(on)
	s.doComp(op{K: "tick"})
	if on && s.srv != nil && !s.srv.ended {
		s.srv.faulty = true
	}
}

func (s *sim) do(o op) {
	s.w.Log("op %d %s", o.ID, o.K)
	switch o.K {
	case "start":
		s.start()
		if !o.B {
			s.drain()
			if s.srv != nil && !s.srv.ended && !s.srv.started() && !s.w.Over {
				// started but not serving yet: give it time
				for i := 0; i < 10 && !s.srv.ended && !s.srv.started(); i++ {
					s.w.Advance(time.Second, time.Second, true)
					s.account()
				}
				if !s.srv.ended && !s.srv.started() {
					s.fail("the server does not start: %s", s.stuck())
				}
			}
			if s.srv != nil && s.srv.ended && s.srv.returned && s.srv.err != nil && !s.srv.faulty && !s.failed() {
				s.fail("the server does not start: %v", s.srv.err)
			}
		}
	case "export":
		s.export(o)
	case "mass":
		s.mass(o)
	case "scan":
		s.scan(o)
	case "script":
		s.script(o)
	case "span":
		s.span(o)
	case "measure":
		s.measure(o)
	case "run":
		for i := int64(0); i < o.N && !s.failed(); i++ {
			if !s.w.Step() {
				break
			}
		}
		s.account()
	case "drain":
		s.quiet()
	case "adv":
		q := time.Duration(o.Q)
		if q <= 0 {
			q = 10 * time.Second
		}
		for d := time.Duration(o.D); d > 0 && !s.failed() && !s.w.Over; d -= q {
			if s.faults {
				s.lastF = time.Now()
			}
			time.Sleep(min(d, q))
			if s.faults {
				s.lastF = time.Now()
			}
			s.quiet()
		}
	case "stall": // time passes, nothing gets to run
		time.Sleep(time.Duration(o.D))
		s.stalled = time.Now()
	case "stop":
		if s.srv != nil && !s.srv.ended && !s.srv.stopReq {
			s.srv.stopReq = true
			s.srv.stopStep = s.step()
			s.w.Log("stop")
			s.srv.cancel()
		}
	case "wait": // the stop must complete
		srv := s.srv
		if srv == nil || srv.ended || !srv.stopReq {
			return
		}
		s.drain()
		for i := 0; i < 36 && !srv.ended && !s.failed() && !s.w.Over; i++ {
			if s.faults {
				s.lastF = time.Now()
			}
			time.Sleep(5 * time.Second)
			s.drain()
		}
		if !srv.ended && !s.failed() && !s.w.Over {
			s.fail("the server does not stop: %s", s.stuck())
		}
	case "crash":
		if s.srv != nil && !s.srv.ended {
			s.w.Kill(s.srv.inc)
			s.account()
		}
	case "power":
		s.power = uint64(o.N)
	case "crashafter":
		if s.srv != nil && !s.srv.ended {
			s.w.CrashAfter(s.srv.inc, o.N, o.B)
		}
	case "disarm":
		s.w.Disarm()
	case "faults":
		s.setFaults(o.B)
	case "skew":
		s.quiet()
		if s.srv != nil {
			s.srv.inc.Skew = time.Duration(o.D)
		}
	case "cancel":
		if c := s.ops[int(o.N)]; c != nil && !c.done {
			c.cancd = true
			c.cancel()
		}
	case "check": // quiet point: everything sent must have been answered
		s.quiet()
		s.checkProgress()
	case "labels":
		s.quiet()
		s.listLabels(o)
	default:
		s.doComp(o)
	}
}

func (s *sim) checkProgress() {
	if s.failed() || s.w.Over || s.faults {
		return
	}
	for _, c := range s.calls {
		if !c.done && !c.srv.inc.Dead {
			s.fail("%s never completes: %s", c.name, s.stuck())
			return
		}
	}
	if s.srv.up() && !s.srv.stopReq {
		if n := s.srv.inc.OpenTxs(); n > 0 {
			s.fail("%d index transactions are open although nothing is running", n)
		}
	}
}

// stuck describes what the unfinished tasks wait for.
func (s *sim) stuck() string {
	var r []string
	if s.srv != nil {
		for _, t := range s.srv.inc.Alive() {
			r = append(r, fmt.Sprintf("%s (%s, last at %s)", t.Name, t.State(), t.Where()))
		}
	}
	sort.Strings(r)
	if len(r) > 8 {
		r = r[:8]
	}
	return strings.Join(r, "; ")
}

// execute runs the plan. It is the root function of a bubble.
func (s *sim) execute() {
	s.ops = map[int]*call{}
	s.m = newModel()
	s.m.unique = s.p.Prop == "C08"
	s.setupSelf()
	s.w.Root = s.root
	s.w.TmpDir = filepath.Join(s.root, "tmp")
	os.MkdirAll(s.w.TmpDir, 0o755)
	for _, o := range s.p.Ops {
		if s.failed() || s.w.Over {
			break
		}
		s.do(o)
	}
	if s.w.Over && !s.failed() {
		s.fail("no progress: %d steps without getting there; %s", s.w.Steps, s.stuck())
	}
	if !s.failed() {
		for _, f := range s.frozen {
			if strings.Join(atomKeys(f.data), "\n") != f.was {
				s.fail("the result of scan %s changed after it was returned", f.name)
				break
			}
		}
	}
	s.finishComp()
	// tear down
	for _, in := range s.clientList {
		if in.Death != nil && !s.failed() {
			s.fail("a script's process died (%s): %s in %s", in.Death.Kind, in.Death.What, in.Death.Where)
		}
		s.w.Kill(in)
	}
	if s.srv != nil && !s.srv.ended {
		s.srv.inc.OnCrash = nil
		s.srv.cancel()
		s.w.Kill(s.srv.inc)
	}
}

// copyDir copies a data directory as the page cache sees it, keeping holes.
func copyDir(src, dst string) {
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			if errors.Is(err, fs.ErrNotExist) {
				return nil
			}
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		return copyFile(p, t)
	})
	if err != nil {
		panic(err)
	}
}

func copyFile(src, dst string) error {
	a, err := os.Open(src)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	defer a.Close()
	fi, err := a.Stat()
	if err != nil {
		return err
	}
	b, err := os.OpenFile(dst, os.O_CREATE|os.O_TRUNC|os.O_RDWR, fi.Mode().Perm())
	if err != nil {
		return err
	}
	defer b.Close()
	size := fi.Size()
	if err := b.Truncate(size); err != nil {
		return err
	}
	buf := make([]byte, 64<<10)
	for off := int64(0); off < size; {
		d, err := syscall.Seek(int(a.Fd()), off, 3) // SEEK_DATA
		if err != nil {
			break // only a hole is left
		}
		e, err := syscall.Seek(int(a.Fd()), d, 4) // SEEK_HOLE
		if err != nil {
			e = size
		}
		for d < e {
			n, err := a.ReadAt(buf[:min(int64(len(buf)), e-d)], d)
			if n > 0 {
				if _, err := b.WriteAt(buf[:n], d); err != nil {
					return err
				}
				d += int64(n)
			}
			if n == 0 && err != nil {
				return nil
			}
		}
		off = e
	}
	return nil
}
