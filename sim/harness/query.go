package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/gernest/requiemdb/internal/commands/query"
	"github.com/gernest/requiemdb/internal/js/bundle"
	"github.com/urfave/cli/v3"

	"zzsim/rt"
	"zzsim/simos"
)

// queries runs the query command in processes of its own that share a home directory (C17).
type queries struct {
	s     *sim
	home  string
	dir   string
	vers  [][]scriptText // by script
	runs  []*queryRun
	armed *armed
	lib   int // version of the client library of the processes
}

// library is the client library as built into the binary.
var library = bundle.PKG[bundle.Base]

// newer is another version of it, which prints lines differently.
var newer = append(slices.Clone(library), "\n;{const o=module.exports;module.exports=Object.create(o,{println:{enumerable:true,value:(...a)=>{a.push(a.pop()+\";\");o.println(...a)}}})}\n"...)

type scriptText struct {
	out  [2]string // by version of the client library
	from int64
	to   int64 // 0: still current
}

type armed struct {
	n  int64
	io bool
}

type queryRun struct {
	name       string
	script     int
	lib        int
	inc        *rt.Inc
	task       *rt.Task
	begin, end int64
	err        error
	done       bool
	excused    bool // faults were on at some time while it ran
	killed     bool
	judged     bool
}

func init() {
	compNew["query"] = newQueries
	compBuild["C17"] = buildQuery
}

var osSites = []string{"os.write", "os.open", "os.close", "os.sync", "os.rename", "os.read", "os.mkdir", "os.link"}

func buildQuery(prop string, seed uint64) *plan {
	r := rand.New(rand.NewPCG(seed, rt.Hash64(prop)))
	p := &plan{Prop: prop, Kind: "query", Seed: seed}
	p.Cfg = rt.Config{MapSeed: r.Uint64(), PoolNew: pick(r, 0, 0, 3), FaultRate: map[string]float64{}}
	p.Cfg.Preempt[rt.ClassStmt] = pick(r, 0.0, 0.02, 0.1, 0.3)
	p.Cfg.Preempt[rt.ClassSync] = pick(r, 0.05, 0.3, 0.6)
	p.Cfg.Preempt[rt.ClassIO] = pick(r, 0.05, 0.3, 0.6)
	rate := pick(r, 0.05, 0.2, 0.6)
	for i := 1 + r.IntN(4); i > 0; i-- {
		p.Cfg.FaultRate[osSites[r.IntN(len(osSites))]] = rate
	}
	if r.IntN(2) == 0 {
		p.Cfg.FaultRate["os.write"] = rate
	}
	add := func(o op) { o.ID = len(p.Ops) + 1; p.Ops = append(p.Ops, o) }
	n := 1 + r.IntN(3)
	twin, near := r.IntN(4) == 0, r.IntN(3) == 0
	for i := 0; i < n; i++ {
		if twin {
			add(op{K: "edit", N: int64(i), Q: 7, Str: "twin", B: i%2 == 1})
			continue
		}
		if near {
			add(op{K: "edit", N: int64(i), D: 50, Q: 7, Str: fmt.Sprint("near", r.IntN(8))})
			continue
		}
		add(op{K: "edit", N: int64(i), D: int64(pick(r, 0, 1, 50, 3000, 30000)), Q: int64(r.Uint32())})
	}
	faults := false
	for i := 2 + r.IntN(10); i > 0; i-- {
		switch x := r.IntN(12); {
		case x < 6:
			for j := 1 + r.IntN(4); j > 0; j-- {
				add(op{K: "query", N: int64(r.IntN(n))})
			}
			if r.IntN(3) == 0 {
				add(op{K: "run", N: int64(r.IntN(120))})
			} else {
				add(op{K: "drain"})
			}
		case x == 6 && twin:
			add(op{K: "edit", N: int64(r.IntN(n)), Q: 7, Str: "twin", B: r.IntN(2) == 0})
		case x == 6 && near:
			add(op{K: "edit", N: int64(r.IntN(n)), D: 50, Q: 7, Str: fmt.Sprint("near", r.IntN(8))})
		case x == 6: // sometimes back to an earlier text, sometimes a text of another script
			add(op{K: "edit", N: int64(r.IntN(n)), D: int64(pick(r, 0, 1, 50, 3000)), Q: int64(pick(r, r.Uint32(), 1, 2, 3))})
		case x == 7:
			add(op{K: "rmcache", N: int64(r.IntN(4))})
		case x == 8:
			faults = !faults
			add(op{K: "faults", B: faults})
		case x == 9:
			switch r.IntN(4) {
			case 0:
				add(op{K: "upgrade"})
			case 1:
				for j := r.IntN(4); j > 0; j-- {
					add(op{K: "query", N: int64(r.IntN(n))})
				}
				if r.IntN(2) == 0 {
					add(op{K: "run", N: int64(r.IntN(200))})
				}
				add(op{K: "qpower", D: r.Int64()})
			default:
				add(op{K: "qkill"})
			}
		default:
			add(op{K: "qcrash", N: int64(1 + r.IntN(pick(r, 10, 40, 200))), B: r.IntN(3) != 0})
			add(op{K: "query", N: int64(r.IntN(n))})
			if r.IntN(2) == 0 {
				add(op{K: "query", N: int64(r.IntN(n))})
			}
			add(op{K: "drain"})
			if r.IntN(3) == 0 {
				add(op{K: "qpower", D: r.Int64()})
			}
			add(op{K: "disarm"})
		}
	}
	add(op{K: "drain"})
	add(op{K: "faults"})
	for k := 0; k < 2; k++ {
		for i := 0; i < n; i++ {
			add(op{K: "query", N: int64(i)})
			add(op{K: "drain"})
		}
	}
	return p
}

func newQueries(s *sim) component {
	q := &queries{s: s, home: filepath.Join(s.root, "home"), dir: filepath.Join(s.root, "scripts"), vers: make([][]scriptText, 8)}
	os.MkdirAll(q.home, 0o755)
	os.MkdirAll(q.dir, 0o755)
	os.Setenv("HOME", q.home)
	return q
}

func (q *queries) path(i int64) string { return filepath.Join(q.dir, fmt.Sprint("s", i, ".ts")) }

func (q *queries) do(o op) {
	s := q.s
	q.judge()
	switch o.K {
	case "edit":
		txt := fmt.Sprintf("text %d of %d bytes", o.Q, o.D)
		const head = "import { println } from \"@requiemdb/rq\";\nconst first: string = "
		if k, ok := strings.CutPrefix(o.Str, "near"); ok { // texts that are nearly the same
			i, _ := strconv.Atoi(k)
			txt = []string{"a text", "a  text", "A text", " a text", "a text ", "a\ttext", "a text;", "a t\u00e9xt"}[i%8]
		} else if o.Str != "" { // two texts that a popular hash does not tell apart
			a, b := twins(rand.New(rand.NewPCG(uint64(o.Q), 1)), head+"\"")
			txt = a
			if o.B {
				txt = b
			}
		}
		pad := strings.Repeat("abcdefg ", int(o.D)/8+1)[:o.D]
		intro := ""
		if o.Q%3 == 1 { // much in common with other scripts
			intro = "// " + strings.Repeat("the same comment ", int(o.D)/16+1) + "\n"
		}
		src := intro + head + fmt.Sprintf("%q;\nprintln(first);\nconst pad = %q;\nprintln(pad.length, \"and the rest\");\nprintln(\"end\");\n", txt, pad)
		out := [2]string{
			fmt.Sprintf("%s\n%d and the rest\nend\n", txt, o.D),
			fmt.Sprintf("%s;\n%d and the rest;\nend;\n", txt, o.D),
		}
		now := s.step()
		v := q.vers[o.N]
		if len(v) > 0 {
			v[len(v)-1].to = now
		}
		q.vers[o.N] = append(v, scriptText{out: out, from: now})
		tmp := q.path(o.N) + ".new"
		if os.WriteFile(tmp, []byte(src), 0o644) != nil || os.Rename(tmp, q.path(o.N)) != nil {
			panic("cannot write the script")
		}
	case "query":
		q.start(o)
	case "rmcache":
		c := filepath.Join(q.home, ".rq", "cache")
		switch es, _ := os.ReadDir(c); {
		case o.N == 0:
			os.RemoveAll(c)
		case o.N == 1:
			os.RemoveAll(filepath.Join(q.home, ".rq"))
		default:
			for i, e := range es {
				if int64(i)%3 == o.N-2 {
					os.Remove(filepath.Join(c, e.Name()))
				}
			}
		}
		rt.Struck("cache deleted")
	case "qkill":
		for _, r := range q.runs {
			if !r.done && !r.killed {
				r.killed = true
				rt.Struck("process killed")
				s.w.Kill(r.inc)
				break
			}
		}
	case "upgrade":
		q.kill()
		q.lib = 1 - q.lib
		bundle.PKG[bundle.Base] = library
		if q.lib == 1 {
			bundle.PKG[bundle.Base] = newer
		}
		rt.Struck("client library replaced")
	case "qpower":
		q.kill()
		rt.Struck("power lost")
		s.w.Log("power lost, %d files damaged", simos.PowerLoss(uint64(o.D)))
	case "qcrash":
		q.armed = &armed{o.N, o.B}
	}
}

// kill ends all processes.
func (q *queries) kill() {
	for _, r := range q.runs {
		if !r.done && !r.killed {
			r.killed = true
			rt.Struck("process killed")
			q.s.w.Kill(r.inc)
		}
	}
}

func (q *queries) start(o op) {
	s := q.s
	r := &queryRun{name: fmt.Sprintf("run #%d of script %d", o.ID, o.N), script: int(o.N), lib: q.lib, begin: s.step(), excused: s.faults}
	r.inc = s.w.NewInc(fmt.Sprint("q", o.ID))
	q.runs = append(q.runs, r)
	r.inc.OnCrash = func() {
		r.killed = r.inc.Death == nil
		if r.killed {
			rt.Struck("process crashed")
			s.w.Log("crash %s", r.name)
		}
	}
	r.task = s.w.Go(r.inc, r.inc.Name, func() {
		cmd := &cli.Command{Name: "rq", Flags: []cli.Flag{&cli.StringFlag{Name: "logLevel", Value: "error"}}, Commands: []*cli.Command{query.Cmd()}}
		r.err = cmd.Run(context.Background(), []string{"rq", "query", q.path(o.N)})
		r.done = true
		r.end = s.step()
		s.w.Log("%s ended %v, output %q", r.name, r.err != nil, r.inc.Stdout["stdout"])
		r.inc.OnCrash = nil
	})
	if a := q.armed; a != nil {
		q.armed = nil
		s.w.CrashAfter(r.inc, a.n, a.io)
	}
}

// judge looks at the runs that ended since the last time.
func (q *queries) judge() {
	s := q.s
	for _, r := range q.runs {
		if s.faults {
			r.excused = r.excused || !r.judged
		}
		if r.judged || s.failed() {
			continue
		}
		out := string(r.inc.Stdout["stdout"])
		if r.inc.Death != nil {
			if !r.excused || r.inc.Death.Kind == "panic" {
				s.fail("%s died (%s): %s in %s", r.name, r.inc.Death.Kind, r.inc.Death.What, r.inc.Death.Where)
			}
			r.judged = true
			continue
		}
		if !r.done && !r.killed {
			continue
		}
		r.judged = true
		if r.done {
			s.nRead++
			s.w.Kill(r.inc)
		}
		end := r.end
		if end == 0 {
			end = s.step()
		}
		ok := false
		var want []string
		for _, v := range q.vers[r.script] {
			if v.to != 0 && v.to < r.begin || v.from > end {
				continue
			}
			want = append(want, v.out[r.lib])
			if r.done && r.err == nil {
				ok = ok || out == v.out[r.lib]
			} else {
				ok = ok || strings.HasPrefix(v.out[r.lib], out)
			}
		}
		switch {
		case want == nil: // there is no such script (only in minimised plans)
		case r.done && r.err != nil && !r.excused:
			s.fail("%s failed: %s", r.name, short(r.err.Error()))
		case !ok:
			s.fail("%s printed %q instead of what the script prints: %q", r.name, short(out), want)
		}
	}
}

func (q *queries) finish() {
	s := q.s
	q.judge()
	bundle.PKG[bundle.Base] = library
	for _, r := range q.runs {
		if !r.judged && !s.failed() {
			s.fail("%s never ends: %s@%s", r.name, r.task.State(), r.task.Where())
		}
		s.w.Kill(r.inc)
	}
	os.Setenv("HOME", filepath.Join(filepath.Dir(s.root), "home"))
}
