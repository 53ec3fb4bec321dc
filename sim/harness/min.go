package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"zzsim/rt"
)

var reNum = regexp.MustCompile(`[0-9]+`)
var reQuote = regexp.MustCompile(`"[^"]*"`)

// kind classifies a violation so that minimisation keeps to the same one.
func kind(v string) string {
	for _, k := range []string{"process died", "does not start", "does not stop", "never completes", "left open", "no progress", "does not return export", "nobody exported", "another signal",
		"in part", "part of", "at most", "identical stored", "returned nothing although", "accepted later", "not in its window", "copies of", "neither data", "transactions are open", "changed after", "ended"} {
		if strings.Contains(v, k) {
			if k == "process died" {
				return k + reNum.ReplaceAllString(v, "#")
			}
			return k
		}
	}
	v = reNum.ReplaceAllString(reQuote.ReplaceAllString(v, "Q"), "#")
	if i := strings.Index(v, "failed: "); i >= 0 {
		v = v[i:]
	}
	if len(v) > 60 {
		v = v[:60]
	}
	return v
}

// minimise shrinks the operations and the schedule and fault decisions of a failing execution.
func minimise(f *replayFile, j *job) {
	until := time.Now().Add(time.Duration(j.Budget * float64(time.Second)))
	want := kind(f.Violation)
	try := func(p *plan, dec map[string]string) *result {
		if time.Now().After(until) {
			return nil
		}
		if cur, err := os.OpenFile(j.Cur, os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			cur.WriteAt([]byte(fmt.Sprintf("%-24d", f.Seed)), 0)
			cur.Close()
		}
		c := make(map[string]string, len(dec))
		for k, v := range dec {
			c[k] = v
		}
		r := runPlan(p, rt.NewReplay(c), j.Scratch, false)
		if len(r.Fails) > 0 && kind(r.Fails[0]) == want {
			return r
		}
		return nil
	}
	p, dec := f.Plan, f.Decisions
	if try(p, dec) == nil {
		f.Random = true
		finishReplay(f, j)
		return
	}
	for round := 0; round < 3; round++ {
		before := len(p.Ops) + len(dec)
		// no scheduling decisions at all?
		if r := try(p, map[string]string{}); r != nil {
			dec = map[string]string{}
		} else {
			nof := map[string]string{}
			for k, v := range dec {
				if k[0] == 'f' || k[0] == 'd' {
					nof[k] = v
				}
			}
			if len(nof) < len(dec) && try(p, nof) != nil {
				dec = nof
			}
		}
		// operations
		for n := len(p.Ops) / 2; n >= 1; {
			cut := false
			for i := len(p.Ops) - n; i >= 0; i -= n {
				q := *p
				q.Ops = append(append([]op{}, p.Ops[:i]...), p.Ops[i+n:]...)
				if try(&q, dec) != nil {
					p = &q
					cut = true
					i = min(i, len(p.Ops))
				}
			}
			if n == 1 && !cut {
				break
			}
			if !cut || n > 1 {
				n /= 2
			}
			if n == 0 {
				break
			}
		}
		// decisions
		keys := sortedKeys(dec)
		for n := (len(keys) + 1) / 2; n >= 1 && len(keys) > 0; n /= 2 {
			for i := 0; i < len(keys); {
				e := min(i+n, len(keys))
				c := map[string]string{}
				for q, k := range keys {
					if q < i || q >= e {
						c[k] = dec[k]
					}
				}
				if try(p, c) != nil {
					dec = c
					keys = append(append([]string{}, keys[:i]...), keys[e:]...)
				} else {
					i = e
				}
			}
		}
		if len(p.Ops)+len(dec) == before {
			break
		}
	}
	// configuration
	for _, f := range []func(c *rt.Config){func(c *rt.Config) { c.CacheDrop = 0 }, func(c *rt.Config) { c.PoolNew = 0 }, func(c *rt.Config) { c.WALBuf = 0 },
		func(c *rt.Config) { c.Zone = 0 }, func(c *rt.Config) { c.Level = "error" }, func(c *rt.Config) { c.LeaseSample = 0 }, func(c *rt.Config) { c.LeaseTranslate = 0 }, func(c *rt.Config) { c.StartSample = 0 },
		func(c *rt.Config) { c.StartTranslate = 0 }, func(c *rt.Config) { c.RbfMinWAL, c.RbfMaxWAL = 0, 0 }, func(c *rt.Config) { c.MapSeed = 1 }} {
		q := *p
		f(&q.Cfg)
		if try(&q, dec) != nil {
			p = &q
		}
	}
	f.Plan, f.Decisions = p, dec
	finishReplay(f, j)
}

func finishReplay(f *replayFile, j *job) {
	d := rt.NewReplay(f.Decisions)
	if f.Random {
		d = rt.NewRandom(f.Seed)
	}
	r := runPlan(f.Plan, d, j.Scratch, true)
	if len(r.Fails) > 0 {
		f.Violation = r.Fails[0]
	}
	f.Hash = fmt.Sprintf("%x", r.Hash)
	f.Story = nil
	for _, o := range f.Plan.Ops {
		f.Story = append(f.Story, o.String())
	}
	keys := sortedKeys(f.Decisions)
	sort.Strings(keys)
	f.Log = r.Log
	if len(f.Log) > 400 {
		f.Log = append([]string{"..."}, f.Log[len(f.Log)-400:]...)
	}
}
