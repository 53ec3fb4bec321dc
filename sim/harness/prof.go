package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"zzsim/rt"
)

// profile steers the generator for one property.
type profile struct {
	HugeLabels bool
	DeepValues bool
	Weird      bool
	Scripts    bool // scans are made by scripts
	OneEach    bool
	Dup        float64
	Near       float64
	Signals    []v1.Scan_SCOPE
	MaxFilters int
	HubSpread  int // 0: around now, 1: a few days, 2: years

	// weights of actions
	Burst, Flush, Overlap, Restart, Crash, CrashMid, Fault, Skew, Cancel, Raw, Slow, Self int
	Instant                                                                               float64 // share of instant scans
	Reads, Writes                                                                         bool    // kinds of faults
	Rounds                                                                                int
	Power                                                                                 float64 // share of crashes and stops after which the power is lost
	Calm                                                                                  float64 // share of runs without preemption inside operations
}

var profiles = map[string]profile{
	// durability across clean restart
	"C01": {Burst: 6, Flush: 5, Overlap: 3, Restart: 4, Instant: 0.2, MaxFilters: 2, Dup: 0.05, Near: 0.06, Rounds: 8, DeepValues: true},
	// durability across crashes
	"C02": {Burst: 6, Flush: 5, Overlap: 2, Restart: 1, Crash: 2, CrashMid: 4, Fault: 2, Reads: true, Writes: true, Instant: 0.2, MaxFilters: 2, Dup: 0.02, Near: 0.06, Rounds: 9},
	// no phantoms / all-or-nothing
	"C03": {Burst: 6, Flush: 5, Overlap: 3, Restart: 1, Crash: 2, CrashMid: 4, Fault: 2, Reads: true, Writes: true, Instant: 0.2, MaxFilters: 2, Dup: 0.2, Near: 0.06, Rounds: 9, DeepValues: true},
	// signal / filter selection
	"C04": {Burst: 7, Flush: 5, Overlap: 2, Restart: 1, Crash: 1, Instant: 0.1, MaxFilters: 4, Dup: 0.05, Near: 0.06, Rounds: 8, DeepValues: true, HugeLabels: true},
	"C05": {Burst: 7, Flush: 5, Overlap: 2, Restart: 1, Crash: 1, Instant: 0.2, MaxFilters: 4, Dup: 0.05, Near: 0.1, Rounds: 8, DeepValues: true, HugeLabels: true},
	"C06": {Burst: 7, Flush: 4, Overlap: 1, Restart: 1, Skew: 2, Instant: 0.3, MaxFilters: 1, HubSpread: 2, Dup: 0.05, Near: 0.03, Rounds: 8, Calm: 0.6},
	"C07": {Burst: 7, Flush: 5, Overlap: 4, Restart: 2, Crash: 2, CrashMid: 2, Instant: 0.8, MaxFilters: 1, Near: 0.06, Rounds: 10},
	"C08": {Burst: 7, Flush: 4, Overlap: 3, Restart: 1, Crash: 1, Instant: 0.1, MaxFilters: 1, Dup: 0.1, Near: 0.3, Rounds: 8, DeepValues: true},
	"C09": {Burst: 6, Flush: 5, Overlap: 4, Restart: 1, Fault: 5, Reads: true, Instant: 0.3, MaxFilters: 2, Near: 0.06, Rounds: 10},
	"C10": {Burst: 6, Flush: 6, Overlap: 3, Fault: 5, Reads: true, Writes: true, Instant: 0.2, MaxFilters: 1, Near: 0.06, Rounds: 10},
	// what is on disk
	"C20": {Burst: 6, Flush: 6, Overlap: 2, Restart: 2, Crash: 4, CrashMid: 5, Fault: 1, Writes: true, Power: 0.8, Instant: 0.2, MaxFilters: 2, Dup: 0.02, Near: 0.06, Rounds: 9},
	// label listings after the fact
	"C11": {Burst: 7, Flush: 5, Overlap: 2, Restart: 3, Crash: 2, CrashMid: 2, Fault: 2, Writes: true, Instant: 0.2, MaxFilters: 3, Near: 0.06, Rounds: 8, HugeLabels: true, DeepValues: true},
	"C12": {Burst: 7, Flush: 5, Overlap: 2, Restart: 1, Raw: 5, Instant: 0.3, MaxFilters: 3, Near: 0.15, Rounds: 8, Weird: true, DeepValues: true, HugeLabels: true},
	"C13": {Burst: 4, Flush: 3, Overlap: 8, Restart: 1, Instant: 0.3, MaxFilters: 2, Dup: 0.1, Near: 0.06, Rounds: 9},
	"C15": {Burst: 7, Flush: 5, Overlap: 5, Restart: 1, Crash: 1, Fault: 1, Reads: true, Skew: 1, Instant: 0.25, MaxFilters: 3, Near: 0.06, Rounds: 8, Dup: 0.05, DeepValues: true, HugeLabels: true, Scripts: true},
	// the server's telemetry about itself
	"C19": {Burst: 2, Flush: 4, Overlap: 2, Restart: 4, Crash: 1, Fault: 1, Writes: true, Slow: 1, Self: 9, Instant: 0.3, MaxFilters: 2, Rounds: 9},
	"C14": {Burst: 6, Flush: 4, Overlap: 4, Restart: 3, Fault: 4, Cancel: 3, Slow: 2, Reads: true, Writes: true, Instant: 0.3, MaxFilters: 1, Near: 0.06, Rounds: 10},
}

// massRate is how seldom a run has very many exports at once.
var massRate = 40

type builder struct {
	r     *rand.Rand
	g     *generator
	p     *plan
	prof  profile
	id    int
	now   time.Time
	exps  []int
	skews []time.Duration
	on    bool
}

func (b *builder) op(o op) int {
	b.id++
	o.ID = b.id
	b.p.Ops = append(b.p.Ops, o)
	return b.id
}

func (b *builder) k(k string) { b.op(op{K: k}) }

func (b *builder) adv(d, q time.Duration) {
	b.op(op{K: "adv", D: int64(d), Q: int64(q)})
	b.now = b.now.Add(d)
}

func (b *builder) stall(d time.Duration) {
	b.op(op{K: "stall", D: int64(d)})
	b.now = b.now.Add(d)
}

// toTick is the time to the next flush tick if the server started on a minute boundary; runs
// begin there and advance in whole seconds, so this usually hits it.
func (b *builder) run(n int) { b.op(op{K: "run", N: int64(n)}) }

func (b *builder) chance(p float64) bool { return b.r.Float64() < p }

func (b *builder) export() {
	if b.prof.HubSpread == 0 { // keep some data inside the instant window
		b.g.hubs[0] = b.now
	}
	d := b.g.data(b.g.signal())
	pb, err := proto.MarshalOptions{Deterministic: true}.Marshal(d)
	if err != nil {
		panic(err)
	}
	id := b.op(op{K: "export", PB: pb})
	b.exps = append(b.exps, id)
}

func (b *builder) scan() {
	s := &scanSpec{Sig: int32(b.g.signal()), Filters: b.g.filters(b.prof.MaxFilters)}
	if b.chance(b.prof.Instant) {
		switch b.r.IntN(4) {
		case 0:
			z := int64(time.Duration(b.r.IntN(1200)-600) * time.Second)
			s.Now, s.Rel = &z, true
		case 1:
			z := b.g.hubs[b.r.IntN(len(b.g.hubs))].Add(time.Duration(b.r.IntN(1800)-900) * time.Second).UnixNano()
			s.Now = &z
		case 2:
			s.Offset = int64([]time.Duration{time.Second, time.Minute, 15 * time.Minute, time.Hour, 24 * time.Hour, -time.Minute}[b.r.IntN(6)])
		}
	} else {
		s.Ranged = true
		if b.prof.HubSpread == 0 && b.chance(0.5) {
			s.Start, s.End = b.now.Add(-time.Duration(1+b.r.IntN(6))*time.Hour).UnixNano(), b.now.Add(time.Duration(1+b.r.IntN(3))*time.Hour).UnixNano()
		} else {
			a, z := b.g.window()
			s.Start, s.End = a.UnixNano(), z.UnixNano()
		}
		if b.chance(0.1) { // a range goes before offset and evaluation time
			s.Offset = int64(pick(b.r, time.Second, 10*time.Minute, 5*time.Hour, -40*24*time.Hour))
		}
		if b.chance(0.1) {
			z := b.g.hubs[b.r.IntN(len(b.g.hubs))].UnixNano()
			s.Now = &z
		}
	}
	b.scanOp(s)
}

// scanOp has somebody make the scan.
func (b *builder) scanOp(s *scanSpec) {
	if !b.prof.Scripts {
		b.op(op{K: "scan", S: s})
		return
	}
	r := b.r
	if s.Rel { // scripts name a date
		z := b.now.Add(time.Duration(*s.Now)).UnixNano()
		s.Now, s.Rel = &z, false
	}
	if s.Now != nil {
		z := *s.Now / 1e6 * 1e6
		s.Now = &z
	}
	o := op{K: "script", S: s, N: int64(r.IntN(12)), B: r.IntN(4) != 0}
	if b.skews == nil {
		b.skews = []time.Duration{0, pick(r, 0, 5*time.Second, -3*time.Minute, 50*time.Hour, -400*24*time.Hour)}
	}
	o.Q = int64(b.skews[r.IntN(2)])
	if s.Ranged {
		o.Str = "range"
		if r.IntN(8) == 0 { // since long ago
			s.Start = -r.Int64N(1 << uint(30+r.IntN(33)))
		}
		if r.IntN(4) == 0 {
			o.Str = pick(r, "ago", "ago", "latest", "today", "thisWeek", "thisMonth", "thisYear")
			o.D = int64(pick(r, time.Second, 10*time.Minute, 90*time.Minute, 26*time.Hour, 40*24*time.Hour, 500*24*time.Hour, 300000*time.Hour))
			if r.IntN(3) == 0 { // relative to a stated time
				z := s.End / 1e6 * 1e6
				s.Now = &z
			}
			if r.IntN(3) == 0 {
				s.Offset = int64(pick(r, time.Millisecond, time.Minute, 20*time.Minute, 5*time.Hour, 30*24*time.Hour))
			}
		}
	}
	b.op(o)
}

// wide scans everything of every signal and looks for particular exports.
func (b *builder) wide() {
	lo, hi := b.g.hubs[0], b.g.hubs[0]
	for _, h := range b.g.hubs {
		if h.Before(lo) {
			lo = h
		}
		if h.After(hi) {
			hi = h
		}
	}
	lo, hi = lo.Add(-30*time.Hour), hi.Add(30*time.Hour)
	if b.now.After(hi) {
		hi = b.now.Add(30 * time.Hour)
	}
	for sig := int32(1); sig <= 3; sig++ {
		b.scanOp(&scanSpec{Sig: sig, Ranged: true, Start: lo.UnixNano(), End: hi.UnixNano()})
		b.scanOp(&scanSpec{Sig: sig})
	}
	for i := 0; i < 4; i++ {
		b.scan()
	}
	b.k("drain")
	for i := 0; i < 6; i++ {
		b.aimed()
	}
	b.k("drain")
}

// aimed scans for one export by its own labels and time.
func (b *builder) aimed() bool {
	if len(b.g.made) == 0 {
		return false
	}
	d := b.g.made[b.r.IntN(len(b.g.made))]
	all, ts := exportLabels(d)
	if len(ts) == 0 {
		return false
	}
	m := uint64(math.MaxUint64)
	for _, t := range ts {
		m = min(m, t)
	}
	if m == 0 || m > math.MaxInt64/2 {
		return false
	}
	var sig v1.Scan_SCOPE
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		sig = v1.Scan_METRICS
	case *v1.Data_Logs:
		sig = v1.Scan_LOGS
	default:
		sig = v1.Scan_TRACES
	}
	s := &scanSpec{Sig: int32(sig), Ranged: true}
	at := time.Unix(0, int64(m)).UTC()
	ls := sorted(all)
	for k := b.r.IntN(b.prof.MaxFilters + 1); k > 0 && len(ls) > 0; k-- {
		l := ls[b.r.IntN(len(ls))]
		s.Filters = append(s.Filters, filter{P: l.P, K: []byte(l.K), V: []byte(l.V)})
	}
	switch b.r.IntN(5) {
	case 0:
		s.Start, s.End = at.UnixNano(), at.UnixNano()+1
	case 1:
		s.Start, s.End = at.Truncate(time.Hour).UnixNano(), at.Truncate(time.Hour).Add(time.Hour).UnixNano()
	case 2: // range ends in the export's unit
		s.Start, s.End = at.Add(-time.Duration(b.r.Int64N(int64(400*24*time.Hour)))).UnixNano(), at.UnixNano()+1
	case 3:
		s.Start, s.End = at.UnixNano(), at.Add(time.Duration(b.r.Int64N(int64(400*24*time.Hour)))).UnixNano()
	case 4: // instant, the export is just inside the window
		z := at.Add(pick(b.r, 1, time.Duration(1+b.r.IntN(1e6)), time.Duration(1+b.r.IntN(1e9)), 15*time.Minute, 15*time.Minute-1)).UnixNano()
		s.Ranged, s.Now = false, &z
	}
	b.scanOp(s)
	return true
}

// raw is a request outside what the model judges.
func (b *builder) raw() {
	r := b.r
	s := &v1.Scan{Scope: v1.Scan_SCOPE([]int32{0, 1, 2, 3, 4, -1, 99}[r.IntN(7)])}
	ts := func() *timestamppb.Timestamp {
		return []*timestamppb.Timestamp{nil, {}, {Seconds: -1}, {Seconds: math.MaxInt64}, {Seconds: math.MinInt64}, {Nanos: -5}, {Nanos: math.MaxInt32}, timestamppb.New(b.now), {Seconds: 253402300799}, {Seconds: 9223372036}, {Seconds: -62135596800}, {Seconds: 1 << 55}, {Seconds: -1 << 55}}[r.IntN(13)]
	}
	if r.IntN(3) != 0 {
		s.TimeRange = &v1.Scan_TimeRange{Start: ts(), End: ts()}
	}
	if r.IntN(3) == 0 {
		s.Now = ts()
	}
	if r.IntN(3) == 0 {
		s.Offset = []*durationpb.Duration{{}, {Seconds: math.MaxInt64}, {Seconds: math.MinInt64}, {Seconds: 1, Nanos: -1}, durationpb.New(time.Hour)}[r.IntN(5)]
	}
	for i := r.IntN(4); i > 0; i-- {
		f := &v1.Scan_Filter{}
		switch r.IntN(4) {
		case 0:
		case 1:
			f.Value = &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp(r.IntN(30) - 2), Value: b.g.maybe(0.5)}}
		case 2:
			f.Value = &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_AttributeProp(r.IntN(30) - 2), Key: b.g.maybe(0.5), Value: b.g.maybe(0.5)}}
		case 3:
			f.Value = &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp([]int32{pTrace, pSpan, pParent}[r.IntN(3)]), Value: "zz"}}
		}
		s.Filters = append(s.Filters, f)
	}
	if r.IntN(3) == 0 {
		s.Limit = []uint64{0, 1, math.MaxUint64}[r.IntN(3)]
		s.Reverse = r.IntN(2) == 0
	}
	pb, err := proto.Marshal(s)
	if err != nil {
		return
	}
	b.op(op{K: "scan", S: &scanSpec{Raw: pb}})
}

// power may let the power fail before the next start.
func (b *builder) power() {
	if b.prof.Power > 0 && b.chance(b.prof.Power) {
		b.op(op{K: "power", N: 1 + b.r.Int64N(1<<40)})
	}
}

func pick[T any](r *rand.Rand, x ...T) T { return x[r.IntN(len(x))] }

var readSites = []string{"badger.get", "badger.value", "rbf.begin.read", "rbf.read", "rbf.open", "os.stat", "os.readdir"}
var writeSites = []string{"badger.commit", "badger.get", "rbf.begin.write", "rbf.add", "rbf.wal", "rbf.init", "rbf.fsyncwal", "rbf.checkpoint", "rbf.fsync", "rbf.open"}

func drawCfg(r *rand.Rand, prof profile) rt.Config {
	c := rt.Config{MapSeed: r.Uint64(), FaultRate: map[string]float64{}}
	c.BadgerMemTable, c.BadgerValueThreshold = 8<<20, 1<<20
	c.Power = prof.Power > 0
	if prof.HugeLabels {
		c.BadgerMemTable = 32 << 20
	}
	if r.IntN(3) != 0 {
		c.RbfMinWAL = pick(r, int64(24<<10), 64<<10, 256<<10)
		c.RbfMaxWAL = c.RbfMinWAL * pick(r, int64(2), 4)
	}
	c.LeaseTranslate = pick(r, uint64(1), 2, 5, 50, 0)
	c.LeaseSample = pick(r, uint64(1), 2, 3, 10, 0)
	if r.IntN(3) == 0 {
		c.StartTranslate = uint64(1<<20 - r.IntN(12))
	}
	if r.IntN(3) == 0 {
		c.StartSample = uint64(r.IntN(70))
	}
	c.CacheDrop = pick(r, 0, 0, 2, 5)
	c.WALBuf = pick(r, 0, 8192, 16384)
	c.PoolNew = pick(r, 0, 0, 2, 4)
	c.Level = pick(r, "error", "error", "error", "error", "info", "warn", "debug", "loud")
	c.Zone = pick(r, 0, 0, 0, 19800, -28800, 50400, 3600)
	if r.Float64() >= prof.Calm {
		c.Preempt[rt.ClassStmt] = pick(r, 0.0, 0.002, 0.01, 0.05, 0.2)
		c.Preempt[rt.ClassSync] = pick(r, 0.0, 0.05, 0.3, 0.6)
		c.Preempt[rt.ClassIO] = pick(r, 0.0, 0.05, 0.3, 0.6)
	}
	var ss []string
	if prof.Reads {
		ss = append(ss, readSites...)
	}
	if prof.Writes {
		ss = append(ss, writeSites...)
	}
	if len(ss) > 0 {
		rate := pick(r, 0.03, 0.1, 0.3, 0.8)
		n := 1 + r.IntN(4)
		if r.IntN(4) == 0 {
			n = len(ss)
		}
		for i := 0; i < n; i++ {
			c.FaultRate[ss[r.IntN(len(ss))]] = rate
		}
	}
	return c
}

func build(prop string, seed uint64) *plan {
	if f := compBuild[prop]; f != nil {
		return f(prop, seed)
	}
	prof, ok := profiles[prop]
	if !ok {
		panic(fmt.Sprint("unknown property ", prop))
	}
	return buildServer(prop, prof, seed)
}

func buildServer(prop string, prof profile, seed uint64) *plan {
	r := rand.New(rand.NewPCG(seed, rt.Hash64(prop)))
	// now and then a narrower generator, so that runs differ in kind
	if r.IntN(3) == 0 {
		prof.Signals = []v1.Scan_SCOPE{v1.Scan_SCOPE(1 + r.IntN(3))}
	}
	if prof.HugeLabels && r.IntN(3) != 0 {
		prof.HugeLabels = false
	}
	p := &plan{Prop: prop, Kind: "server", Seed: seed, Cfg: drawCfg(r, prof)}
	b := &builder{r: r, p: p, prof: prof, now: simEpoch}
	b.g = newGenerator(r, prof)
	b.hubs()
	b.k("start")
	n := 2 + r.IntN(prof.Rounds)
	at := -1
	if massRate > 0 && r.IntN(massRate) == 0 { // very many exports before a flush
		at = r.IntN(n)
		n = min(n, at+3)
	}
	for i := 0; i < n; i++ {
		if i == at {
			b.op(op{K: "mass", N: int64(pick(r, 300, 1100, 2100, 4200, 5000)), Q: int64(r.IntN(3)), D: r.Int64()})
			if r.IntN(3) != 0 {
				b.k("drain")
			} else {
				b.run(r.IntN(2000))
			}
		}
		b.round()
	}
	b.finish()
	return p
}

func (b *builder) hubs() {
	r := b.r
	d := pick(r, 0, 0, 37*time.Second, 59*time.Minute+50*time.Second, 13*time.Hour, 24*time.Hour-90*time.Second, 59*24*time.Hour+1*time.Hour, 366*24*time.Hour-2*time.Minute)
	if d > 0 {
		b.stall(d)
	}
	switch b.prof.HubSpread {
	case 0:
		b.g.hubs = []time.Time{b.now, b.now, b.now.Add(-time.Hour)}
		if r.IntN(3) == 0 {
			b.g.hubs = append(b.g.hubs, b.now.Add(-time.Duration(r.IntN(96))*time.Hour))
		}
	default:
		all := []time.Time{b.now, b.now.Truncate(time.Hour), b.now.Truncate(24 * time.Hour), time.Date(2000, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(2000, 2, 29, 23, 59, 59, 999999999, time.UTC),
			time.Date(2000, 3, 1, 0, 0, 0, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2000, 1, 31, 12, 0, 0, 0, time.UTC),
			time.Date(2024, 2, 28, 22, 0, 0, 0, time.UTC), time.Date(2023, 3, 26, 1, 30, 0, 0, time.UTC), time.Date(1971, 5, 31, 7, 0, 0, 0, time.UTC), time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1998, 6, 30, 23, 0, 0, 0, time.UTC)}
		for i := 0; i < 2+r.IntN(3); i++ {
			b.g.hubs = append(b.g.hubs, all[r.IntN(len(all))])
		}
		b.g.hubs = append(b.g.hubs, b.now)
	}
}

func (b *builder) round() {
	r, p := b.r, &b.prof
	w := []int{p.Burst, p.Flush, p.Overlap, p.Restart, p.Crash, p.CrashMid, p.Fault, p.Skew, p.Cancel, p.Raw, p.Slow, p.Self}
	t := 0
	for _, x := range w {
		t += x
	}
	x := r.IntN(t)
	a := 0
	for x >= w[a] {
		x -= w[a]
		a++
	}
	switch a {
	case 0: // clients at work
		for i := 1 + r.IntN(4); i > 0; i-- {
			if r.IntN(4) == 0 {
				b.scan()
			} else {
				b.export()
			}
		}
		switch r.IntN(3) {
		case 0:
			b.run(1 + r.IntN(60))
		default:
			b.k("drain")
		}
	case 1: // time for a flush
		b.adv(time.Duration(30+r.IntN(100))*time.Second, pick(r, time.Second, 10*time.Second, 30*time.Second))
		if r.IntN(2) == 0 {
			b.scan()
			b.k("drain")
		}
	case 2: // a flush with clients at work
		if r.IntN(2) == 0 {
			b.export()
			b.k("drain")
		}
		b.stall(60 * time.Second)
		for i := 1 + r.IntN(5); i > 0; i-- {
			if r.IntN(3) == 0 {
				b.export()
			} else {
				b.scan()
			}
			if r.IntN(3) == 0 {
				b.run(1 + r.IntN(80))
			}
		}
		if r.IntN(5) == 0 {
			b.stall(60 * time.Second)
		}
		if r.IntN(4) != 0 {
			b.k("drain")
		} else {
			b.run(r.IntN(300))
		}
	case 3: // clean stop, sometimes under load
		if r.IntN(2) == 0 {
			for i := 1 + r.IntN(3); i > 0; i-- {
				b.export()
			}
			if r.IntN(3) != 0 {
				b.k("drain")
			}
		}
		if r.IntN(3) == 0 {
			b.stall(60 * time.Second)
			b.run(r.IntN(40))
		}
		b.k("stop")
		if r.IntN(3) == 0 {
			b.run(r.IntN(40))
			b.scan()
		}
		b.k("wait")
		b.power()
		b.k("start")
	case 4:
		if r.IntN(2) == 0 {
			b.run(r.IntN(100))
		}
		b.power()
		b.k("crash")
		b.k("start")
	case 5: // crash in the middle of a flush
		for i := r.IntN(3); i > 0; i-- {
			b.export()
		}
		if r.IntN(3) != 0 {
			b.k("drain")
		}
		io := r.IntN(3) != 0
		n := int64(1 + r.IntN(60))
		if !io {
			n = int64(1 + r.IntN(6000))
		}
		b.power()
		b.op(op{K: "crashafter", N: n, B: io})
		b.stall(60 * time.Second)
		if r.IntN(2) == 0 {
			b.scan()
		}
		b.k("drain")
		b.k("disarm")
		if r.IntN(3) == 0 { // a second crash during recovery
			b.power()
			b.op(op{K: "crashafter", N: int64(1 + r.IntN(12)), B: true})
			b.k("start")
			b.k("drain")
			b.k("disarm")
		}
		b.k("start")
		if r.IntN(2) == 0 {
			b.scan()
			b.k("drain")
		}
	case 6:
		b.on = !b.on
		if b.on && p.Reads && b.chance(b.settled()) {
			b.unreadable()
			return
		}
		b.op(op{K: "faults", B: b.on})
		if b.on {
			for i := 1 + r.IntN(3); i > 0; i-- {
				if p.Writes && r.IntN(2) == 0 {
					b.export()
				} else {
					b.scan()
				}
			}
			if p.Writes {
				b.stall(60 * time.Second)
			}
			b.k("drain")
		}
	case 7:
		b.op(op{K: "skew", D: int64(pick(r, 0, time.Second, -time.Minute, 10*time.Minute, -26*time.Hour, 40*24*time.Hour))})
	case 8:
		b.export()
		id := b.id
		if r.IntN(3) != 0 {
			b.scan()
			id = b.id
		}
		b.run(r.IntN(50))
		b.op(op{K: "cancel", N: int64(id)})
	case 9:
		for i := 1 + r.IntN(3); i > 0; i-- {
			b.raw()
		}
		b.k("drain")
	case 10: // a slow storage: the flush overruns its interval
		b.stall(60 * time.Second)
		for i := 0; i < 3; i++ {
			b.run(r.IntN(30))
			b.export()
			b.stall(time.Duration(r.IntN(90)) * time.Second)
		}
		b.k("drain")
	case 11: // the server reports about itself
		for i := 1 + r.IntN(4); i > 0; i-- {
			k := "span"
			if r.IntN(2) == 0 {
				k = "measure"
			}
			n := int64(1 + r.IntN(4))
			if r.IntN(6) == 0 {
				n = int64(20 + r.IntN(150))
			}
			b.op(op{K: k, N: n, D: r.Int64()})
			if r.IntN(4) == 0 {
				b.run(1 + r.IntN(60))
			}
		}
		switch r.IntN(5) {
		case 4: // exports fail until the end of an orderly stop
			b.on = true
			b.op(op{K: "faults", B: true})
			b.run(1 + r.IntN(60))
			if r.IntN(2) == 0 {
				b.stall(60 * time.Second)
				b.k("drain")
				b.op(op{K: "span", N: 2, D: r.Int64()})
				b.op(op{K: "measure", N: 2, D: r.Int64()})
				b.run(r.IntN(60))
			}
			b.k("stop")
			if r.IntN(2) == 0 {
				b.run(r.IntN(60))
			}
			b.k("wait")
			if r.IntN(2) == 0 {
				b.on = false
				b.op(op{K: "faults"})
			}
			b.k("start")
		case 0: // as the readers and the flush are due
			b.stall(60 * time.Second)
			b.run(1 + r.IntN(200))
			b.op(op{K: "span", N: 2, D: r.Int64()})
			b.op(op{K: "measure", N: 2, D: r.Int64()})
			b.k("drain")
		case 1:
			b.run(1 + r.IntN(60))
		default:
			b.k("drain")
		}
	}
}

// settled is how often reads fail only after what was exported so far is stored.
func (b *builder) settled() float64 {
	if b.p.Prop == "C09" {
		return 0.6
	}
	return 0.2
}

// unreadable scans what is certainly stored while reading it fails.
func (b *builder) unreadable() {
	r := b.r
	for i := r.IntN(3); i > 0; i-- {
		b.export()
	}
	b.k("drain")
	b.adv(200*time.Second, 20*time.Second)
	b.op(op{K: "faults", B: true})
	for i := 3 + r.IntN(6); i > 0; i-- {
		if !b.aimed() {
			b.scan()
		}
		if r.IntN(3) != 0 {
			b.k("drain")
		}
	}
	b.k("drain")
	if b.on = r.IntN(3) == 0; !b.on {
		b.op(op{K: "faults"})
		b.aimed()
		b.k("drain")
	}
}

// finish ends faults, lets everything settle and looks at all of it, twice.
func (b *builder) finish() {
	b.op(op{K: "faults"})
	b.k("disarm")
	b.k("start")
	b.k("drain")
	if b.chance(0.7) {
		b.adv(200*time.Second, 20*time.Second)
		b.k("check")
		b.wide()
		b.k("check")
		if b.p.Prop == "C11" {
			b.k("labels")
		}
	}
	b.k("stop")
	b.k("wait")
	b.k("start")
	b.wide()
	b.k("check")
	if b.p.Prop == "C11" {
		b.k("labels")
	}
	b.k("stop")
	b.k("wait")
}

var compBuild = map[string]func(prop string, seed uint64) *plan{}
