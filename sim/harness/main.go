package main

import (
	"context"
	"encoding/json"
	"fmt"
	"log/slog"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"
	_ "unsafe"

	"zzsim/rt"
	"zzsim/simnet"
)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

// job tells the worker process what to do; it comes as JSON in ZZ_JOB.
type job struct {
	Mode    string // search, replay, min, hash
	Prop    string
	Seed0   uint64
	Stride  uint64
	Max     int     // runs
	Budget  float64 // seconds
	Out     string
	Cur     string
	Replay  string
	Sites   string
	Scratch string
	Verbose bool
	Profile string // write a CPU profile of the search here
}

// replayFile is everything needed to repeat one execution exactly.
type replayFile struct {
	Property  string
	Violation string
	Seed      uint64
	Plan      *plan
	Decisions map[string]string
	Random    bool     `json:",omitempty"` // decisions are drawn from the seed instead
	Hash      string   // event log hash of the execution
	Story     []string // the operations, readable
	Log       []string `json:",omitempty"`
	// BuildFromSeed: the plan is the one this property's generator draws from Seed.
	BuildFromSeed bool `json:",omitempty"`
}

// stats is what a worker reports about its runs.
type stats struct {
	Runs       int
	Nontrivial int
	Steps      int64
	Switches   int64
	SimSecs    float64
	Wall       float64
	Faults     map[string]int
	Probes     map[string]int
	Ops        map[string]int
	Hashes     map[uint64]bool `json:"-"`
	HashList   []uint64
	Pairs      map[uint64]bool `json:"-"`
	PairList   []uint64
	Leaks      int
	Samples    []string
	Done       bool
	Next       uint64
	Found      *replayFile
}

func TestMain(m *testing.M) {
	os.Exit(worker())
}

func worker() int {
	var j job
	if err := json.Unmarshal([]byte(os.Getenv("ZZ_JOB")), &j); err != nil {
		fmt.Fprintln(os.Stderr, "worker: no job:", err)
		return 3
	}
	os.Unsetenv("ZZ_JOB")
	if j.Scratch == "" {
		j.Scratch = "/dev/shm/zz"
	}
	os.Setenv("HOME", filepath.Join(j.Scratch, "home"))
	os.MkdirAll(filepath.Join(j.Scratch, "home"), 0o755)
	if b, err := os.ReadFile(j.Sites); err == nil {
		rt.SetSites(strings.Split(string(b), "\n"))
	}
	out := os.Stdout
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(2 << 30)
	runtime.GOMAXPROCS(2)
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGUSR2, os.Interrupt)
	signal.Reset(os.Interrupt)
	warmUp(filepath.Join(j.Scratch, "warm"))
	switch j.Mode {
	case "search":
		return search(&j)
	case "replay", "min":
		return replay(&j, out)
	case "hash":
		for i := 0; i < j.Max; i++ {
			seed := j.Seed0 + uint64(i)*max(1, j.Stride)
			p := build(j.Prop, seed)
			r := runPlan(p, rt.NewRandom(seed), j.Scratch, j.Verbose)
			rr := runPlan(p, rt.NewReplay(r.Rec), j.Scratch, j.Verbose)
			if j.Verbose && r.Hash != rr.Hash {
				for k := 0; k < len(r.Log) && k < len(rr.Log); k++ {
					if r.Log[k] != rr.Log[k] {
						for q := max(0, k-6); q < min(k+4, len(r.Log), len(rr.Log)); q++ {
							fmt.Fprintf(out, "   A %s\n   B %s\n", r.Log[q], rr.Log[q])
						}
						break
					}
				}
			}
			fmt.Fprintf(out, "%d %x %x %v %d %v\n", seed, r.Hash, rr.Hash, r.Hash == rr.Hash, r.Steps, r.Fails)
		}
		return 0
	}
	return 3
}

func search(j *job) int {
	st := &stats{Faults: map[string]int{}, Probes: map[string]int{}, Ops: map[string]int{}, Hashes: map[uint64]bool{}, Pairs: map[uint64]bool{}}
	begin := time.Now()
	if f, err := os.Create(j.Profile); err == nil {
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	seed := j.Seed0
	cur, _ := os.OpenFile(j.Cur, os.O_CREATE|os.O_WRONLY, 0o644)
	for {
		if st.Runs >= j.Max && j.Max > 0 || time.Since(begin).Seconds() > j.Budget {
			st.Done = true
			break
		}
		if st.Leaks > 150 {
			break
		}
		if cur != nil {
			cur.WriteAt([]byte(fmt.Sprintf("%-24d", seed)), 0)
		}
		p := build(j.Prop, seed)
		r := runPlan(p, rt.NewRandom(seed), j.Scratch, false)
		st.add(p, r)
		if len(r.Fails) > 0 {
			st.Found = &replayFile{Property: j.Prop, Violation: r.Fails[0], Seed: seed, Plan: p, Decisions: r.Rec, Hash: fmt.Sprintf("%x", r.Hash)}
			seed += j.Stride
			break
		}
		seed += j.Stride
	}
	st.Next = seed
	st.Wall = time.Since(begin).Seconds()
	for h := range st.Hashes {
		st.HashList = append(st.HashList, h)
	}
	for h := range st.Pairs {
		st.PairList = append(st.PairList, h)
	}
	b, _ := json.Marshal(st)
	if err := os.WriteFile(j.Out, b, 0o644); err != nil {
		return 3
	}
	return 0
}

func (st *stats) add(p *plan, r *result) {
	st.Runs++
	st.Steps += r.Steps
	st.Switches += r.Switch
	st.SimSecs += r.Sim.Seconds()
	for k, v := range r.Faults {
		st.Faults[k] += v
	}
	for k, v := range r.Probe {
		st.Probes[k] += v
	}
	for _, o := range p.Ops {
		st.Ops[o.K]++
	}
	if r.Nontrivial {
		st.Nontrivial++
		if len(st.Hashes) < 200000 {
			st.Hashes[r.Hash] = true
		}
	}
	for h := range r.Pairs {
		st.Pairs[h] = true
	}
	if r.Leak {
		st.Leaks++
	}
	if len(st.Samples) < 3 && r.Nontrivial {
		var s []string
		for i, o := range p.Ops {
			if i == 12 {
				s = append(s, "...")
				break
			}
			s = append(s, o.String())
		}
		st.Samples = append(st.Samples, fmt.Sprintf("seed %d: %s", p.Seed, strings.Join(s, "; ")))
	}
}

func replay(j *job, out *os.File) int {
	b, err := os.ReadFile(j.Replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if f.BuildFromSeed {
		f.Plan = build(f.Property, f.Seed)
	}
	dec := func() *rt.Decider {
		if f.Random {
			return rt.NewRandom(f.Seed)
		}
		return rt.NewReplay(f.Decisions)
	}
	if j.Mode == "min" {
		minimise(&f, j)
		b, _ := json.MarshalIndent(&f, "", " ")
		if err := os.WriteFile(j.Out, b, 0o644); err != nil {
			return 3
		}
		return 0
	}
	r := runPlan(f.Plan, dec(), j.Scratch, true)
	if j.Verbose {
		for _, l := range r.Log {
			fmt.Fprintln(out, l)
		}
	}
	fmt.Fprintf(out, "hash %x\n", r.Hash)
	for _, x := range r.Fails {
		fmt.Fprintf(out, "violated: %s\n", x)
	}
	if len(r.Fails) > 0 {
		return 1
	}
	return 0
}

// result is the outcome of one run.
type result struct {
	Fails      []string
	Hash       uint64
	Steps      int64
	Switch     int64
	Sim        time.Duration
	Faults     map[string]int
	Probe      map[string]int
	Pairs      map[uint64]struct{}
	Rec        map[string]string
	Log        []string
	Nontrivial bool
	Leak       bool
}

var runN int

func runPlan(p *plan, dec *rt.Decider, scratch string, log bool) *result {
	runN++
	root := filepath.Join(scratch, fmt.Sprintf("run%d", runN))
	os.RemoveAll(root) // of a worker that was killed
	os.MkdirAll(root, 0o755)
	defer os.RemoveAll(root)
	time.Local = time.FixedZone("sim", p.Cfg.Zone)
	if p.Cfg.Zone == 0 {
		time.Local = time.UTC
	}
	slog.SetDefault(slog.New(slog.DiscardHandler))
	r := &result{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				if !strings.Contains(s, "deadlock") {
					panic(e)
				}
				r.Leak = true
			}
		}()
		synctestRun(func() {
			w := rt.NewWorld(p.Cfg, dec)
			w.LogOn = log
			s := &sim{w: w, p: p, root: root}
			begin := time.Now()
			s.execute()
			r.Sim = time.Since(begin)
			r.Fails, r.Hash, r.Steps, r.Switch = s.m.fails, w.Hash(), w.Steps, w.Switch
			r.Faults, r.Probe, r.Pairs, r.Rec, r.Log = w.Faults, w.Probe, w.Pairs, dec.Rec, w.EventLog()
			r.Nontrivial = s.nontrivial()
			if s.nCrash > 0 {
				r.Faults["crash"] += s.nCrash
			}
			simnet.Reset()
			w.End()
		})
	}()
	return r
}

// nontrivial runs are those in which something was stored and read, or the component's
// equivalent, and tasks actually interleaved or something restarted or failed.
func (s *sim) nontrivial() bool {
	if s.p.Kind != "server" {
		return s.nRead > 0
	}
	return s.nExp > 1 && s.nRead > 1 && (s.w.Switch > 20 || s.nStart > 1 || len(s.w.Faults) > 0)
}

func sortedKeys[V any](m map[string]V) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// warmUp touches, outside any simulation, everything that keeps process-wide channels.
func warmUp(dir string) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	warmStorage(ctx, dir)
	warmScript()
	warmOutput()
}
