// Command driver runs one property's check: it farms seeds out to worker processes (the
// simulator binary), minimises and confirms what they find, and writes the evidence file.
//
//	driver -verif DIR -prop ID -tier quick|thorough
//	driver -verif DIR -replay FILE
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type job struct {
	Mode    string
	Prop    string
	Seed0   uint64
	Stride  uint64
	Max     int
	Budget  float64
	Out     string
	Cur     string
	Replay  string
	Sites   string
	Scratch string
	Verbose bool
}

type stats struct {
	Runs       int
	Nontrivial int
	Steps      int64
	Switches   int64
	SimSecs    float64
	Wall       float64
	Faults     map[string]int
	Probes     map[string]int
	Ops        map[string]int
	HashList   []uint64
	PairList   []uint64
	Leaks      int
	Samples    []string
	Done       bool
	Next       uint64
	Found      json.RawMessage
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Match    string `json:"match,omitempty"`  // regular expression over the violation text
	Replay   string `json:"replay,omitempty"` // file under /verif that shows it
}

var (
	verif   = flag.String("verif", "/verif", "")
	prop    = flag.String("prop", "", "")
	tier    = flag.String("tier", "quick", "")
	replayF = flag.String("replay", "", "")
	budgetF = flag.Float64("budget", 0, "search seconds (0: by tier)")
	workers = flag.Int("workers", 8, "")
	verbose = flag.Bool("v", false, "")
	scratch string
)

func build() string { return filepath.Join(*verif, ".build") }

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.RemoveAll(scratch)
	os.Exit(2)
}

// run starts a worker and waits for it; hang is how long the worker may stay on one seed.
func run(j job, limit time.Duration, stop <-chan struct{}) (out []byte, errOut string, rc int, killed bool) {
	j.Sites = filepath.Join(build(), "sites.txt")
	os.MkdirAll(j.Scratch, 0o755)
	defer os.RemoveAll(j.Scratch)
	b, _ := json.Marshal(j)
	c := exec.Command(filepath.Join(build(), "sim"))
	c.Env = []string{"ZZ_JOB=" + string(b), "PATH=/usr/bin:/bin", "TZ=UTC", "GODEBUG=asynctimerchan=0", "GOTRACEBACK=all"}
	c.Dir = j.Scratch
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var so, se bytes.Buffer
	c.Stdout = &so
	c.Stderr = &limited{b: &se}
	if err := c.Start(); err != nil {
		fatal("cannot start the simulator: %v", err)
	}
	done := make(chan struct{})
	go func() {
		t := time.NewTimer(limit)
		defer t.Stop()
		seen, since := "", time.Now()
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-stop:
				killed = true
				c.Process.Kill()
				return
			case <-t.C:
				killed = true
				c.Process.Kill()
				return
			case <-tick.C:
				if j.Cur == "" || j.Mode != "search" {
					continue
				}
				x, _ := os.ReadFile(j.Cur)
				if string(x) != seen {
					seen, since = string(x), time.Now()
				} else if time.Since(since) > 90*time.Second {
					c.Process.Signal(syscall.SIGQUIT)
					time.Sleep(3 * time.Second)
					c.Process.Kill()
					return
				}
			}
		}
	}()
	err := c.Wait()
	close(done)
	rc = c.ProcessState.ExitCode()
	if err != nil && rc == 0 {
		rc = -1
	}
	return so.Bytes(), se.String(), rc, killed
}

type limited struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func main() {
	flag.Parse()
	base := "/dev/shm"
	if err := os.WriteFile(filepath.Join(base, fmt.Sprintf("zzprobe%d", os.Getpid())), nil, 0o600); err != nil {
		base = os.TempDir()
	} else {
		os.Remove(filepath.Join(base, fmt.Sprintf("zzprobe%d", os.Getpid())))
	}
	scratch = filepath.Join(base, fmt.Sprintf("zzrq%d", os.Getpid()))
	defer os.RemoveAll(scratch)
	if *replayF != "" {
		rc := replayOnce(*replayF, true)
		os.RemoveAll(scratch)
		os.Exit(rc)
	}
	os.Exit(check())
}

func replayOnce(path string, show bool) int {
	abs, _ := filepath.Abs(path)
	out, se, rc, killed := run(job{Mode: "replay", Replay: abs, Scratch: filepath.Join(scratch, "r"), Verbose: *verbose}, 10*time.Minute, nil)
	if show {
		os.Stdout.Write(out)
		if rc > 1 || rc < 0 || killed {
			fmt.Printf("violated: the server process died: %s\n", deathOf(se))
		}
	}
	if rc == 0 || rc == 1 {
		return rc
	}
	return 1
}

// confirm replays the file in a fresh process and returns the violation text and hash.
func confirm(path string) (text, hash string) {
	out, se, rc, killed := run(job{Mode: "replay", Replay: path, Scratch: filepath.Join(scratch, "c")}, 10*time.Minute, nil)
	if rc == 3 || killed && rc != 0 && rc != 1 {
		return "", ""
	}
	for _, l := range strings.Split(string(out), "\n") {
		if h, ok := strings.CutPrefix(l, "hash "); ok {
			hash = h
		}
		if v, ok := strings.CutPrefix(l, "violated: "); ok && text == "" {
			text = v
		}
	}
	if text == "" && rc != 0 && rc != 1 {
		text = "the server process died: " + deathOf(se)
	}
	return
}

var reHex = regexp.MustCompile(`0x[0-9a-f]+`)

// deathOf extracts the reason of an unrecoverable failure from a worker's stderr.
func deathOf(se string) string {
	lines := strings.Split(se, "\n")
	why := ""
	var at []string
	for _, l := range lines {
		if why == "" && (strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG")) {
			why = l
		}
		if why != "" && len(at) < 4 && strings.HasPrefix(l, "github.com/gernest/requiemdb") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			at = append(at, l)
		}
	}
	if why == "" {
		why = "killed"
	}
	return reHex.ReplaceAllString(why+" in "+strings.Join(at, " < "), "ADDR")
}

func check() int {
	begin := time.Now()
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 40.0
	if *tier == "thorough" {
		budget = 600
	}
	if *budgetF > 0 {
		budget = *budgetF
	}
	first := seed*1_000_000_000 + 1
	findings := load()
	evid := filepath.Join(*verif, "evidence")
	os.MkdirAll(filepath.Join(evid, "replays"), 0o755)

	tot := &stats{Faults: map[string]int{}, Probes: map[string]int{}, Ops: map[string]int{}}
	hashes, pairs := map[uint64]bool{}, map[uint64]bool{}
	knownHit := map[int]bool{}
	var notes []string
	var violation, vfile string
	var mu sync.Mutex
	stop := make(chan struct{})
	var once sync.Once
	halt := func() { once.Do(func() { close(stop) }) }
	nw := *workers
	var confirming sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			next := first + uint64(i)
			deaths := 0
			tBegin := time.Now()
			for {
				left := budget - time.Since(tBegin).Seconds()
				select {
				case <-stop:
					return
				default:
				}
				if left <= 0.5 {
					return
				}
				dir := filepath.Join(scratch, fmt.Sprintf("w%d", i))
				of, cf := filepath.Join(scratch, fmt.Sprintf("o%d", i)), filepath.Join(scratch, fmt.Sprintf("s%d", i))
				os.MkdirAll(scratch, 0o755)
				os.Remove(of)
				_, se, rc, killed := run(job{Mode: "search", Prop: *prop, Seed0: next, Stride: uint64(nw), Budget: left, Out: of, Cur: cf, Scratch: dir}, time.Duration(left+180)*time.Second, stop)
				select {
				case <-stop:
					return
				default:
				}
				if rc == 3 || killed {
					mu.Lock()
					notes = append(notes, fmt.Sprintf("worker %d: rc %d killed %v: %s", i, rc, killed, tail(se)))
					mu.Unlock()
					deaths++
					if deaths > 3 {
						return
					}
				}
				var found json.RawMessage
				var st stats
				if rc == 0 {
					b, err := os.ReadFile(of)
					if err != nil || json.Unmarshal(b, &st) != nil {
						mu.Lock()
						notes = append(notes, "worker wrote no result")
						mu.Unlock()
						return
					}
					mu.Lock()
					add(tot, &st, hashes, pairs)
					mu.Unlock()
					next = st.Next
					if len(st.Found) > 0 && string(st.Found) != "null" {
						found = st.Found
					} else if st.Done {
						return
					} else {
						continue
					}
				} else {
					// the process itself was brought down by the code under test
					b, _ := os.ReadFile(cf)
					s, err := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
					if err != nil {
						mu.Lock()
						notes = append(notes, fmt.Sprintf("worker died early (rc %d): %s", rc, tail(se)))
						mu.Unlock()
						deaths++
						if deaths > 3 {
							return
						}
						continue
					}
					next = s + uint64(nw)
					found, _ = json.Marshal(map[string]any{"Property": *prop, "Violation": "the server process died: " + deathOf(se), "Seed": s, "BuildFromSeed": true, "Random": true})
				}
				confirming.Lock()
				select {
				case <-stop:
					confirming.Unlock()
					return
				default:
				}
				text, file := judge(found, evid)
				mu.Lock()
				if text == "" {
					notes = append(notes, "not reproduced, not reported: "+short(string(found)))
				} else {
					hit := -1
					for k, f := range findings {
						if f.Property == *prop && f.Status == "known" && f.Match != "" && regexp.MustCompile(f.Match).MatchString(text) {
							hit = k
						}
					}
					if hit >= 0 {
						knownHit[hit] = true
						os.Remove(file)
					} else if violation == "" {
						violation, vfile = text, file
						halt()
					}
				}
				mu.Unlock()
				confirming.Unlock()
				deaths = 0
			}
		}()
	}
	wg.Wait()
	// known findings are shown by their own replay files
	for k, f := range findings {
		if f.Property != *prop || f.Status != "known" {
			continue
		}
		if f.Replay != "" && !knownHit[k] {
			if t, _ := confirm(filepath.Join(*verif, f.Replay)); t != "" && regexp.MustCompile(f.Match).MatchString(t) {
				knownHit[k] = true
			}
		}
		if knownHit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
		}
	}
	wall := time.Since(begin).Seconds()
	writeEvidence(evid, seed, first, tot, len(hashes), len(pairs), notes, violation, wall)
	for _, n := range notes {
		fmt.Fprintln(os.Stderr, "note:", n)
	}
	os.RemoveAll(scratch)
	if violation != "" {
		fmt.Printf("violated: %s\n", violation)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, vfile)
		return 1
	}
	if tot.Runs < 20 {
		fmt.Fprintf(os.Stderr, "driver: only %d runs completed\n", tot.Runs)
		return 2
	}
	fmt.Printf("%s held on %d runs (%d steps, %.0f simulated hours)\n", *prop, tot.Runs, tot.Steps, tot.SimSecs/3600)
	return 0
}

// judge minimises a failing execution and confirms it in fresh processes.
func judge(found json.RawMessage, evid string) (text, file string) {
	var f map[string]any
	json.Unmarshal(found, &f)
	raw := filepath.Join(scratch, "found.json")
	os.WriteFile(raw, found, 0o644)
	min := filepath.Join(scratch, "min.json")
	os.Remove(min)
	mb := 60.0
	if *tier == "thorough" {
		mb = 120
	}
	use := raw
	if f["BuildFromSeed"] == nil {
		_, _, rc, killed := run(job{Mode: "min", Replay: raw, Out: min, Budget: mb, Scratch: filepath.Join(scratch, "m"), Cur: filepath.Join(scratch, "mc")}, time.Duration(mb+120)*time.Second, nil)
		if rc == 0 && !killed {
			if _, err := os.Stat(min); err == nil {
				use = min
			}
		}
	}
	t1, h1 := confirm(use)
	t2, h2 := confirm(use)
	if (t1 == "" || t1 != t2 || h1 != h2) && use == min {
		use = raw
		t1, h1 = confirm(use)
		t2, h2 = confirm(use)
	}
	if t1 == "" || t2 == "" || h1 != h2 {
		return "", ""
	}
	b, _ := os.ReadFile(use)
	s, _ := f["Seed"].(float64)
	file = filepath.Join(evid, "replays", fmt.Sprintf("%s-%.0f.json", *prop, s))
	os.WriteFile(file, b, 0o644)
	return t1, file
}

func load() (r []finding) {
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("known-findings.json: %v", err)
	}
	return
}

func add(t, s *stats, hashes, pairs map[uint64]bool) {
	t.Runs += s.Runs
	t.Nontrivial += s.Nontrivial
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.SimSecs += s.SimSecs
	t.Wall += s.Wall
	t.Leaks += s.Leaks
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Ops {
		t.Ops[k] += v
	}
	for _, h := range s.HashList {
		hashes[h] = true
	}
	for _, h := range s.PairList {
		pairs[h] = true
	}
	if len(t.Samples) < 4 {
		t.Samples = append(t.Samples, s.Samples...)
	}
}

// brief keeps the evidence file small: plans may contain labels of any length.
func brief(l []string) []string {
	o := make([]string, 0, len(l))
	for _, s := range l {
		if len(s) > 1000 {
			s = strings.ToValidUTF8(s[:1000], "") + " ..."
		}
		o = append(o, s)
	}
	return o
}

func writeEvidence(evid string, seed, first uint64, t *stats, nh, np int, notes []string, violation string, wall float64) {
	real := "cmd/rq run, internal/service, store, dataframe, shards, translate, seq, transform, labels, samples, batch, view, data, keys, visit, js, compile, compress, commands (instrumented from /repo's tree), badger 4.2.0 and rbf 0.22.4 on real files, arrow3/parquet, grpc in-process"
	stub := "scheduler, clocks, sync primitives and pools, label cache (ristretto), file faults, network; self-telemetry exporters not started; page compression snappy instead of zstd"
	assume := []string{"goroutines interleave at statement boundaries of the repository and at storage and synchronisation operations of its dependencies", "the operating system keeps written pages across a process crash", "badger's own recovery between commits is trusted"}
	switch *prop {
	case "C19":
		stub = strings.Replace(stub, "self-telemetry exporters not started", "host and runtime instruments of the self-telemetry not started", 1)
	case "C20":
		assume[1] = "what an operating system has written is what the files' syncs cover, and a part of the rest"
	}
	cov := map[string]any{
		"evaluations":                       t.Runs,
		"distinct_nontrivial":               nh,
		"rule":                              "one evaluation is one seeded simulated run (plan of operations, configuration, schedule and faults all drawn from the seed); non-trivial: something was stored and read back (or the component's equivalent happened) and tasks interleaved, the process restarted or a fault fired; distinct by the hash of the run's event log",
		"samples":                           brief(cut(t.Samples, 4)),
		"seeds":                             fmt.Sprintf("from %d, one per run", first),
		"runs_per_hour":                     math.Round(float64(t.Runs) / math.Max(wall, 1) * 3600),
		"simulated_hours":                   math.Round(t.SimSecs/36) / 100,
		"yield_points_passed":               t.Steps,
		"context_switches":                  t.Switches,
		"distinct_switch_site_pairs":        np,
		"faults_injected":                   t.Faults,
		"probes":                            t.Probes,
		"operations":                        t.Ops,
		"runs_with_stuck_goroutines_at_end": t.Leaks,
		"real_components":                   real,
		"stubbed_components":                stub,
		"notes":                             brief(cut(notes, 10)),
	}
	v := 0
	if violation != "" {
		v = 1
		cov["violation"] = brief([]string{violation})[0]
	}
	e := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": math.Round(wall*10) / 10, "violations": v,
		"assumptions": assume}
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(evid, *prop+".json"), b, 0o644)
}

func cut(s []string, n int) []string {
	sort.Strings(s)
	if len(s) > n {
		s = s[:n]
	}
	if s == nil {
		s = []string{}
	}
	return s
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:700] + " ... " + s[len(s)-700:]
	}
	return s
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}
