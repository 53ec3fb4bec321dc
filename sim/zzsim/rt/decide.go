package rt

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Decider answers every question the simulator asks. In random mode answers come from one seeded
// generator and every non-default answer is recorded; in replay mode they come from the record.
//
// Keys: "p:<task>:<n>" preempt task at its n-th yield; "k:<task>:<n>" whom to run after that task
// stopped for the n-th time (value: task name); "f:<task>:<site>:<occurrence>" inject fault number v.
type Decider struct {
	mu     sync.Mutex
	w      *World
	rng    *rand.Rand
	replay bool
	Rec    map[string]string
	until  [NClass]int64
	pre    map[string][]int64
	policy int
	prio   map[string]int
}

func NewRandom(seed uint64) *Decider {
	d := &Decider{rng: rand.New(rand.NewPCG(seed, 0x5eed)), Rec: map[string]string{}, prio: map[string]int{}}
	for i := range d.until {
		d.until[i] = -1
	}
	d.policy = d.rng.IntN(4)
	return d
}

func NewReplay(rec map[string]string) *Decider {
	d := &Decider{replay: true, Rec: rec, pre: map[string][]int64{}}
	for k := range rec {
		if strings.HasPrefix(k, "p:") {
			i := strings.LastIndexByte(k, ':')
			n, _ := strconv.ParseInt(k[i+1:], 10, 64)
			d.pre[k[2:i]] = append(d.pre[k[2:i]], n)
		}
	}
	for _, v := range d.pre {
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	}
	return d
}

func (d *Decider) preempts(name string) []int64 {
	if !d.replay {
		return nil
	}
	return d.pre[name]
}

func (d *Decider) preempt(t *Task, class int) bool {
	if d.replay {
		for len(t.pp) > 0 && t.pp[0] < t.n {
			t.pp = t.pp[1:]
		}
		if len(t.pp) > 0 && t.pp[0] == t.n {
			t.pp = t.pp[1:]
			return true
		}
		return false
	}
	p := d.w.Cfg.Preempt[class]
	if p <= 0 {
		return false
	}
	if d.until[class] < 0 {
		d.until[class] = int64(d.rng.ExpFloat64() / p)
	}
	d.until[class]--
	if d.until[class] >= 0 {
		return false
	}
	d.Rec[fmt.Sprintf("p:%s:%d", t.Name, t.n)] = "1"
	return true
}

func (d *Decider) pick(c []*Task, last *Task) *Task {
	var key string
	if last != nil {
		key = fmt.Sprintf("k:%s:%d", last.Name, last.picks)
	} else {
		key = "k:root:0"
	}
	if d.replay {
		if v, ok := d.Rec[key]; ok {
			for _, t := range c {
				if t.Name == v {
					return t
				}
			}
		}
		return c[0]
	}
	var t *Task
	switch {
	case len(c) == 1:
		return c[0]
	case d.policy == 0: // priorities, reshuffled now and then
		if d.rng.IntN(50) == 0 {
			clear(d.prio)
		}
		best := -1
		for _, x := range c {
			p, ok := d.prio[x.Name]
			if !ok {
				p = d.rng.IntN(1 << 20)
				d.prio[x.Name] = p
			}
			if p > best {
				best, t = p, x
			}
		}
	case d.policy == 1 && last != nil: // keep switching
		t = c[d.rng.IntN(len(c))]
		if t == last {
			t = c[d.rng.IntN(len(c))]
		}
	default:
		t = c[d.rng.IntN(len(c))]
	}
	if t != c[0] {
		d.Rec[key] = t.Name
	}
	return t
}

// Draw is a general recorded choice in [0,n); 0 is the default.
func (d *Decider) Draw(key string, n int, p float64) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.replay {
		v, _ := strconv.Atoi(d.Rec[key])
		return v
	}
	if n < 2 || d.rng.Float64() >= p {
		return 0
	}
	v := 1 + d.rng.IntN(n-1)
	d.Rec[key] = strconv.Itoa(v)
	return v
}
