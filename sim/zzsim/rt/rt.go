// Package rt is the simulator's runtime: one token, many tasks. Every goroutine of the system
// under test is a task; a task runs only while it holds the token (or, for the few instructions
// between being woken by a channel and its next yield, as it was scheduled by the Go runtime),
// and the scheduler decides at every yield who holds it next. Clocks are testing/synctest's.
package rt

import (
	"context"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

//go:linkname getTag runtime.simGetTag
func getTag() unsafe.Pointer

//go:linkname setTag runtime.simSetTag
func setTag(unsafe.Pointer)

//go:linkname setSeed runtime.simSetSeed
func setSeed(uint64)

//go:linkname inBubble runtime.simInBubble
func inBubble() bool

// Named yield sites of the patched dependencies and the simulator's own libraries.
const (
	SiteStart = iota + 1
	SiteLock
	SiteUnlock
	SiteWait
	SiteBadgerOpen
	SiteBadgerClose
	SiteBadgerGet
	SiteBadgerCommit
	SiteBadgerCommitted
	SiteRbfOpen
	SiteRbfClose
	SiteRbfBegin
	SiteRbfRead
	SiteRbfAdd
	SiteRbfCommit
	SiteRbfCommitted
	SiteRbfWrite
	SiteRbfSync
	SiteRbfCheckpoint
	SiteRbfTruncate
	SiteOS
	SiteOSWrite
	SiteNet
	SiteClient
	SiteReader
	siteMax
)

var siteNames = []string{"", "start", "lock", "unlock", "wait", "badger.open", "badger.close", "badger.get", "badger.commit", "badger.committed",
	"rbf.open", "rbf.close", "rbf.begin", "rbf.read", "rbf.add", "rbf.commit", "rbf.committed", "rbf.write", "rbf.sync", "rbf.checkpoint", "rbf.truncate",
	"os", "os.write", "net", "client", "reader"}

// Yield classes: plain statements, synchronisation, storage.
const (
	ClassStmt = iota
	ClassSync
	ClassIO
	NClass
)

func classOf(site int) int {
	switch {
	case site >= siteMax:
		return ClassStmt
	case site >= SiteLock && site <= SiteWait, site == SiteNet, site == SiteClient, site == SiteStart:
		return ClassSync
	}
	return ClassIO
}

// Config is the per-run configuration; the generator draws it from the seed and the replay file
// carries it.
type Config struct {
	BadgerMemTable       int64
	BadgerValueThreshold int64
	RbfMinWAL, RbfMaxWAL int64
	LeaseTranslate       uint64
	LeaseSample          uint64
	StartTranslate       uint64
	StartSample          uint64
	CacheDrop            int // the label cache forgets 1 in n stores (0: never)
	WALBuf               int
	Preempt              [NClass]float64
	FaultRate            map[string]float64
	MapSeed              uint64
	Zone                 int    // server time zone, seconds east
	Level                string // the server's log level
	Zstd                 int    // goroutines of a compressed stream (0: none of its own)
	Self                 bool   // the server's own telemetry runs
	SelfBatch            int    // spans exported at once (0: as shipped)
	Power                bool   // the computer may lose power
	PoolNew              int    // sync.Pool hands out a fresh object 1 in n times (0: never)
}

// Death records how an incarnation ended other than by a simulated crash.
type Death struct {
	Kind  string // "panic" or "exit"
	What  string
	Where string
}

type closer struct {
	kind   string
	obj    any
	close  func() error
	closed func() bool
}

// Inc is one incarnation of the process under test (or a group of client-side tasks).
type Inc struct {
	ID      int
	Name    string
	Dead    bool
	Death   *Death
	Skew    time.Duration
	Caps    map[string]any
	SizeN   int
	Sizes   map[int64]bool // of the key-value store, as it reported them
	Pools   map[any][]any
	closers []closer
	Tasks   []*Task
	OnCrash func()
	ioN     int64
	yN      int64
	rbf     []rbfNote
	Stdout  map[string][]byte
}

type rbfNote struct {
	db  any
	txn func() int
}

func (in *Inc) NoteRbf(db any, txn func() int) { in.rbf = append(in.rbf, rbfNote{db, txn}) }

// OpenTxs returns the number of index transactions open right now.
func (in *Inc) OpenTxs() int {
	n := 0
	for _, r := range in.rbf {
		n += r.txn()
	}
	return n
}

func (in *Inc) AddCloser(kind string, obj any, close func() error, closed func() bool) {
	in.closers = append(in.closers, closer{kind, obj, close, closed})
}

// Unclosed lists the storage handles still open.
func (in *Inc) Unclosed() (r []string) {
	for _, c := range in.closers {
		if c.kind != "call" && !c.closed() {
			r = append(r, c.kind)
		}
	}
	return
}

// traceAll logs every yield (ZZ_TRACE, debugging).
var traceAll = os.Getenv("ZZ_TRACE") != ""

const (
	stParked = iota
	stRunning
	stBlocked // on a simulated lock
	stDone
)

type Task struct {
	ID      int
	Name    string
	Inc     *Inc
	ch      chan struct{}
	state   int32
	n       int64 // yields so far
	picks   int64 // times scheduled
	exiting bool
	exitN   int
	site    int
	kids    int
	occ     map[string]int
	pp      []int64 // replay: yields to preempt at
	fn      string
	blockOn string
}

func (t *Task) Done() bool { return atomic.LoadInt32(&t.state) == stDone }

// Where says at which site the task is (for reports).
func (t *Task) Where() string { return t.blockOn + "@" + SiteName(t.site) }

func (t *Task) State() string {
	return [...]string{"parked", "running or blocked on a channel", "waiting for a lock", "done"}[atomic.LoadInt32(&t.state)]
}

type World struct {
	Cfg     Config
	dec     *Decider
	mu      sync.Mutex
	parked  []*Task
	tasks   []*Task
	holder  atomic.Pointer[Task]
	last    *Task
	nextID  int
	hot     map[int]int // passages by site
	Steps   int64       // yields
	Sched   int64       // scheduling decisions
	Switch  int64
	hash    uint64
	log     []string
	LogOn   bool
	crash   *crashReq
	Faults  map[string]int
	faultOn bool
	// FaultOnly restricts faults to one incarnation (nil: all)
	Start   time.Time
	Pairs   map[uint64]struct{}
	MaxStep int64
	Over    bool
	incs    int
	closedW bool
	Probe   map[string]int
	// AdoptInc is the process unknown goroutines belong to (nil: the last one that ran).
	AdoptInc *Inc
	TmpDir   string
	Files    map[string]any // what simos knows about files, by path
	Root     string         // the run's own directory
	Disk     *Disk          // what a loss of power would leave (nil: not simulated)
	tmpN     int
}

type crashReq struct {
	inc   *Inc
	class int // ClassIO: count storage yields, else all
	left  int64
	due   bool
}

var w *World

// Active reports whether a simulated run is in progress on this goroutine.
func Active() bool { return w != nil && inBubble() }

// Cfg returns the run's configuration.
func Cfg() *Config { return &w.Cfg }

// W returns the current world.
func W() *World { return w }

func NewWorld(cfg Config, dec *Decider) *World {
	nw := &World{Cfg: cfg, dec: dec, Faults: map[string]int{}, Start: time.Now(), Pairs: map[uint64]struct{}{}, MaxStep: 1_500_000, Probe: map[string]int{}, hash: 14695981039346656037}
	dec.w = nw
	if cfg.Power {
		nw.Disk = newDisk()
	}
	setSeed(cfg.MapSeed | 1)
	w = nw
	return nw
}

func (nw *World) End() {
	w = nil
	setSeed(0x9e3779b97f4a7c15)
}

func (nw *World) mix(s string) {
	h := nw.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	nw.hash = h
}

// Log appends to the event log (and its hash).
func (nw *World) Log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	nw.mix(s)
	if nw.LogOn {
		nw.log = append(nw.log, s)
	}
}

func (nw *World) Hash() uint64       { return nw.hash }
func (nw *World) EventLog() []string { return nw.log }

func (nw *World) NewInc(name string) *Inc {
	in := &Inc{ID: nw.incs, Name: name, Caps: map[string]any{}, Pools: map[any][]any{}, Stdout: map[string][]byte{}}
	nw.incs++
	return in
}

// TmpN numbers temporary files.
func (nw *World) TmpN() int {
	nw.mu.Lock()
	defer nw.mu.Unlock()
	nw.tmpN++
	return nw.tmpN
}

func cur() *Task { return (*Task)(getTag()) }

// CurInc returns the incarnation of the calling goroutine.
func CurInc() *Inc {
	if t := cur(); t != nil {
		return t.Inc
	}
	if w.last != nil {
		return w.last.Inc
	}
	return w.root0()
}

var rootInc = &Inc{Name: "root", Caps: map[string]any{}, Pools: map[any][]any{}, Stdout: map[string][]byte{}}

func (nw *World) root0() *Inc { return rootInc }

// Untag detaches the goroutine from its task while third-party code starts its own goroutines.
func Untag() func() {
	p := getTag()
	if p == nil {
		return func() {}
	}
	setTag(nil)
	return func() { setTag(p) }
}

// Y is a yield point.
func Y(site int) {
	if w == nil {
		return
	}
	t := cur()
	if t == nil {
		if site < siteMax || !inBubble() || w.AdoptInc == nil {
			return
		}
		t = w.adopt()
	}
	t.yield(site)
}

// adopt makes an unknown goroutine of the system under test a task.
func (nw *World) adopt() *Task {
	t := nw.newTask(nw.AdoptInc, "anon", nil)
	setTag(unsafe.Pointer(t))
	debug.SetPanicOnFault(true)
	return t
}

func (nw *World) newTask(in *Inc, name string, parent *Task) *Task {
	nw.mu.Lock()
	defer nw.mu.Unlock()
	if parent != nil {
		name = fmt.Sprintf("%s/%d", parent.Name, parent.kids)
		parent.kids++
	} else if name == "anon" {
		name = fmt.Sprintf("anon%d", nw.nextID)
	}
	t := &Task{ID: nw.nextID, Name: name, Inc: in, ch: make(chan struct{}, 1), occ: map[string]int{}}
	t.pp = nw.dec.preempts(name)
	nw.nextID++
	nw.tasks = append(nw.tasks, t)
	in.Tasks = append(in.Tasks, t)
	return t
}

func (t *Task) die() {
	t.exiting = true
	runtime.Goexit()
}

func (t *Task) yield(site int) {
	nw := w
	if t.Inc.Dead {
		if t.exiting {
			t.exitN++
			if t.exitN%100000 == 0 {
				runtime.Goexit()
			}
			return
		}
		t.die()
	}
	if nw.holder.Load() == t {
		c := classOf(site)
		if c == ClassStmt && nw.cold(site) {
			return
		}
		t.n++
		nw.Steps++
		t.Inc.yN++
		if traceAll && nw.LogOn {
			nw.log = append(nw.log, fmt.Sprintf("  %s #%d %s", t.Name, t.n, SiteName(site)))
		}
		if c == ClassIO {
			t.Inc.ioN++
		}
		park := false
		if cr := nw.crash; cr != nil && cr.inc == t.Inc && !cr.due && (cr.class != ClassIO || c == ClassIO) {
			cr.left--
			if cr.left <= 0 {
				cr.due = true
				park = true
			}
		}
		if nw.Steps > nw.MaxStep {
			nw.Over = true
			park = true
		}
		if !park && !nw.dec.preempt(t, c) {
			return
		}
	}
	t.park(site)
}

// cold reports whether this passage of a statement that was passed very often (a loop over the
// bytes of a large value, say) is not considered for a preemption or crash.
func (nw *World) cold(site int) bool {
	if nw.hot == nil {
		nw.hot = map[int]int{}
	}
	n := nw.hot[site] + 1
	nw.hot[site] = n
	return n > 8192 && (n*2654435761>>8)%61 != 0
}

func (t *Task) park(site int) {
	nw := w
	t.site = site
	atomic.StoreInt32(&t.state, stParked)
	nw.mu.Lock()
	nw.parked = append(nw.parked, t)
	nw.mu.Unlock()
	t.await()
}

func (t *Task) await() {
	<-t.ch
	atomic.StoreInt32(&t.state, stRunning)
	if t.Inc.Dead && !t.exiting {
		t.die()
	}
}

// Block parks the current task until Unblock; used by simulated locks. It reports false when
// the caller must not wait (no task, or the process is gone).
func Block(what string) bool {
	t := cur()
	if t == nil || w == nil {
		return false
	}
	if t.Inc.Dead {
		if !t.exiting {
			t.die()
		}
		t.exitN++
		if t.exitN > 1000 {
			t.exitN = 0
			runtime.Goexit()
		}
		return false
	}
	t.blockOn = what
	atomic.StoreInt32(&t.state, stBlocked)
	t.await()
	t.blockOn = ""
	return true
}

// Cur returns the calling task (nil outside tasks).
func Cur() *Task {
	if w == nil {
		return nil
	}
	return cur()
}

// Exiting reports whether the calling task is unwinding after its process died.
func Exiting() bool {
	t := Cur()
	return t != nil && t.Inc.Dead
}

// Unblock makes a blocked task runnable.
func Unblock(t *Task) {
	nw := w
	if nw == nil || t == nil {
		return
	}
	if !atomic.CompareAndSwapInt32(&t.state, stBlocked, stParked) {
		return
	}
	nw.mu.Lock()
	nw.parked = append(nw.parked, t)
	nw.mu.Unlock()
}

// Go starts a task; it runs when the scheduler first picks it.
func (nw *World) Go(in *Inc, name string, f func()) *Task {
	t := nw.newTask(in, name, nil)
	nw.launch(t, f)
	return t
}

func (nw *World) launch(t *Task, f func()) {
	atomic.StoreInt32(&t.state, stRunning)
	go func() { t.run(f) }()
}

func (t *Task) run(f func()) {
	setTag(unsafe.Pointer(t))
	debug.SetPanicOnFault(true)
	defer atomic.StoreInt32(&t.state, stDone)
	defer setTag(nil)
	defer func() {
		if e := recover(); e != nil {
			t.panicked(e)
		}
	}()
	if t.Inc.Dead {
		return
	}
	t.park(SiteStart)
	f()
}

func (t *Task) panicked(e any) {
	if t.Inc.Dead {
		return
	}
	t.Inc.Death = &Death{Kind: "panic", What: fmt.Sprint(e), Where: stack()}
	t.Inc.Dead = true
}

func stack() string {
	b := debug.Stack()
	var keep []string
	lines := strings.Split(string(b), "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			keep = keep[:0]
			continue
		}
		if strings.HasPrefix(lines[i], "\t") || !seen {
			continue
		}
		fn := lines[i]
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		if strings.HasPrefix(fn, "zzsim/") || strings.HasPrefix(fn, "runtime") || fn == "" || strings.HasPrefix(fn, "created by") {
			continue
		}
		keep = append(keep, fn)
		if len(keep) == 6 {
			break
		}
	}
	return strings.Join(keep, " < ")
}

// Wrap prepares F, the function of a go statement, to run as a task.
func Wrap[F any](f F) F {
	if w == nil {
		return f
	}
	p := cur()
	if p == nil {
		if !inBubble() {
			return f
		}
		p = nil
	}
	nw := w
	var t *Task
	if p != nil {
		t = nw.newTask(p.Inc, "", p)
	} else {
		t = nw.newTask(CurInc(), "anon", nil)
	}
	v := reflect.ValueOf(f)
	t.fn = runtime.FuncForPC(v.Pointer()).Name()
	atomic.StoreInt32(&t.state, stRunning)
	m := reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		var out []reflect.Value
		t.run(func() {
			if v.Type().IsVariadic() {
				out = v.CallSlice(args)
			} else {
				out = v.Call(args)
			}
		})
		if out == nil {
			for i := 0; i < v.Type().NumOut(); i++ {
				out = append(out, reflect.Zero(v.Type().Out(i)))
			}
		}
		return out
	})
	return m.Interface().(F)
}

// WrapAlways is Wrap for helpers that must run even while their process is being unwound.
func WrapAlways(f func()) func() {
	if w == nil || cur() == nil || Exiting() {
		return f
	}
	ran := false
	h := Wrap(func() { ran = true; f() })
	return func() {
		defer func() {
			if !ran {
				f()
			}
		}()
		h()
	}
}

// Captured records an object built by the code under test.
func Captured(name string, v any) {
	if !Active() {
		return
	}
	CurInc().Caps[name] = v
}

// Now and friends are the process's wall clock: the bubble's clock plus the process's skew.
func Now() time.Time {
	if w == nil {
		return time.Now()
	}
	if t := cur(); t != nil && t.Inc.Skew != 0 {
		return time.Now().Add(t.Inc.Skew)
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func AfterFunc(d time.Duration, f func()) *time.Timer {
	return time.AfterFunc(d, Wrap(f))
}

// Exit is os.Exit of the process under test.
func Exit(code int) {
	t := Cur()
	if t == nil {
		os.Exit(code)
	}
	if !t.Inc.Dead {
		t.Inc.Death = &Death{Kind: "exit", What: fmt.Sprintf("os.Exit(%d)", code), Where: callers()}
		t.Inc.Dead = true
	}
	t.exiting = true
	runtime.Goexit()
}

func callers() string {
	pc := make([]uintptr, 16)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	var keep []string
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "zzsim/") || strings.HasPrefix(f.Function, "reflect.") || strings.HasPrefix(f.Function, "runtime.") {
		} else {
			keep = append(keep, f.Function)
		}
		if !more || len(keep) == 5 {
			break
		}
	}
	return strings.Join(keep, " < ")
}

// Getpid is the simulated process's number.
func Getpid() int {
	if !Active() {
		return os.Getpid()
	}
	return 1000 + CurInc().ID
}

// SelfHook sees the collectors the server's own telemetry is sent to.
var SelfHook = func(x any) any { return x }

// NoopShutdown stands in for the self-telemetry providers.
type NoopShutdown struct{}

func (NoopShutdown) Shutdown(context.Context) error { return nil }

// ---------------------------------------------------------------- scheduling

// Runnable returns the tasks that could run now, in id order.
func (nw *World) runnable() []*Task {
	nw.mu.Lock()
	defer nw.mu.Unlock()
	sort.Slice(nw.parked, func(i, j int) bool { return nw.parked[i].ID < nw.parked[j].ID })
	return nw.parked
}

// Step lets one task run until its next preemption, block or end. It reports false when nothing
// is runnable. It must be called from the bubble's root goroutine.
func (nw *World) Step() bool {
	synctest.Wait()
	if nw.crash != nil && nw.crash.due {
		in := nw.crash.inc
		nw.crash = nil
		nw.Kill(in)
		return true
	}
	c := nw.runnable()
	if len(c) == 0 || nw.Over {
		return false
	}
	nw.Sched++
	t := nw.dec.pick(c, nw.last)
	if nw.last != nil && nw.last != t {
		nw.Switch++
		nw.Pairs[uint64(nw.last.site)<<32|uint64(t.site)] = struct{}{}
	}
	nw.mu.Lock()
	for i, x := range nw.parked {
		if x == t {
			nw.parked = append(nw.parked[:i], nw.parked[i+1:]...)
			break
		}
	}
	nw.mu.Unlock()
	nw.mix(t.Name)
	nw.mix(fmt.Sprint(t.n, t.site))
	if nw.LogOn {
		nw.log = append(nw.log, fmt.Sprintf("run %s #%d at %s", t.Name, t.n, SiteName(t.site)))
	}
	nw.last = t
	t.picks++
	nw.holder.Store(t)
	t.ch <- struct{}{}
	synctest.Wait()
	nw.holder.Store(nil)
	if t.Inc.Death != nil && t.Inc.Dead && t.Inc.OnCrash != nil {
		f := t.Inc.OnCrash
		t.Inc.OnCrash = nil
		f()
		nw.reap(t.Inc)
	}
	return true
}

// Drain runs until nothing is runnable or until stop says so.
func (nw *World) Drain(stop func() bool) {
	for !nw.Over {
		if stop != nil && stop() {
			return
		}
		if !nw.Step() {
			return
		}
	}
}

// Advance lets simulated time pass in steps of at most q, running everything that becomes
// runnable after each (unless stalled).
func (nw *World) Advance(d, q time.Duration, run bool) {
	for d > 0 && !nw.Over {
		s := min(d, q)
		time.Sleep(s)
		d -= s
		if run {
			nw.Drain(nil)
		}
	}
}

// CrashAfter arms a crash of in after n of its yields (storage yields only if io).
func (nw *World) CrashAfter(in *Inc, n int64, io bool) {
	c := ClassStmt
	if io {
		c = ClassIO
	}
	nw.crash = &crashReq{inc: in, class: c, left: n}
}

// CrashArmed reports whether an armed crash has not happened yet.
func (nw *World) CrashArmed() bool { return nw.crash != nil }
func (nw *World) Disarm()          { nw.crash = nil }

// Kill crashes an incarnation at a quiescent point: OnCrash (which snapshots its disk) runs
// first, then its tasks are unwound one at a time without running any more of its code paths
// that matter, and whatever they left open is closed.
func (nw *World) Kill(in *Inc) {
	synctest.Wait()
	if in.Dead && in.OnCrash == nil {
		nw.reap(in)
		return
	}
	if in.OnCrash != nil {
		f := in.OnCrash
		in.OnCrash = nil
		f()
	}
	in.Dead = true
	nw.reap(in)
}

// reap unwinds a dead incarnation.
func (nw *World) reap(in *Inc) {
	if nw.crash != nil && nw.crash.inc == in {
		nw.crash = nil
	}
	for i := 0; i < 10000; i++ {
		synctest.Wait()
		var t *Task
		nw.mu.Lock()
		for j, x := range nw.parked {
			if x.Inc == in {
				t = x
				nw.parked = append(nw.parked[:j], nw.parked[j+1:]...)
				break
			}
		}
		nw.mu.Unlock()
		if t == nil {
			for _, x := range in.Tasks {
				if atomic.LoadInt32(&x.state) == stBlocked {
					atomic.StoreInt32(&x.state, stRunning)
					t = x
					break
				}
			}
		}
		if t == nil {
			break
		}
		nw.holder.Store(t)
		t.ch <- struct{}{}
		synctest.Wait()
		nw.holder.Store(nil)
	}
	synctest.Wait()
	// force-close what the unwound tasks left open
	for i := len(in.closers) - 1; i >= 0; i-- {
		c := in.closers[i]
		if !c.closed() && c.kind != "rbf" {
			c.close()
		}
	}
	for i := len(in.closers) - 1; i >= 0; i-- {
		c := in.closers[i]
		if c.kind == "rbf" && !c.closed() {
			forceClose(c)
		}
	}
	synctest.Wait()
}

func forceClose(c closer) {
	defer func() { recover() }()
	if h, ok := c.obj.(interface{ ZZForceClose() }); ok {
		h.ZZForceClose()
	}
}

// Alive lists tasks of the incarnation that have not finished.
func (in *Inc) Alive() (r []*Task) {
	for _, t := range in.Tasks {
		if !t.Done() {
			r = append(r, t)
		}
	}
	return
}

// ---------------------------------------------------------------- sites

var siteTable []string

func SetSites(s []string) { siteTable = s }

func SiteName(id int) string {
	if id < len(siteNames) {
		return siteNames[id]
	}
	if i := id - 100; i >= 0 && i < len(siteTable) {
		return siteTable[i]
	}
	return fmt.Sprint("site", id)
}

func Hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}
