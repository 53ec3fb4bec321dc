package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"slices"
	"sort"
	"strconv"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/translate"

	"zzsim/rt"
)

// dict runs processes that own the label dictionary, with many clients in each (C11).
type dict struct {
	s     *sim
	dir   string
	p     *dictProc
	n     int
	num   map[string]uint64 // number of a label, once somebody was told
	text  map[uint64]string
	since map[string]int64 // since when it certainly has a number
	begun map[string]bool  // somebody asked for a number
	calls []*dictCall
	live  int // translations under way
	over  int64
}

type dictProc struct {
	inc      *rt.Inc
	ctx      context.Context
	cancel   context.CancelFunc
	tr       *translate.Translate
	err      error
	returned bool
	stopReq  bool
	faulty   bool
	next     string
}

type dictCall struct {
	name string
	p    *dictProc
	done bool
	task *rt.Task
}

func init() {
	compNew["dict"] = func(s *sim) component {
		return &dict{s: s, dir: s.newDir(), num: map[string]uint64{}, text: map[uint64]string{}, since: map[string]int64{}, begun: map[string]bool{}}
	}
	compBuild["C11"] = buildDict
}

// dictLabel makes the bytes of a label from its short form: Q bytes of a common prefix and PB.
func dictLabel(o op) []byte { return append(bytes.Repeat([]byte("p"), int(o.Q)), o.PB...) }

func buildDict(prop string, seed uint64) *plan {
	r := rand.New(rand.NewPCG(seed, rt.Hash64(prop)))
	if seed%2 == 0 {
		return buildServer(prop, profiles[prop], seed)
	}
	p := &plan{Prop: prop, Kind: "dict", Seed: seed}
	p.Cfg = rt.Config{MapSeed: r.Uint64(), PoolNew: pick(r, 0, 0, 3), FaultRate: map[string]float64{}}
	p.Cfg.BadgerMemTable, p.Cfg.BadgerValueThreshold = 32<<20, 1<<20
	p.Cfg.LeaseTranslate = pick(r, uint64(1), 2, 3, 7, 40, 0)
	if r.IntN(4) == 0 {
		p.Cfg.StartTranslate = uint64(1<<20 - r.IntN(12))
	}
	p.Cfg.Preempt[rt.ClassStmt] = pick(r, 0.0, 0.02, 0.1, 0.3)
	p.Cfg.Preempt[rt.ClassSync] = pick(r, 0.05, 0.3, 0.6)
	p.Cfg.Preempt[rt.ClassIO] = pick(r, 0.05, 0.3, 0.6)
	rate := pick(r, 0.02, 0.1, 0.4, 0.8)
	for _, s := range []string{"badger.commit", "badger.commit", "badger.get", "badger.value"} {
		if r.IntN(2) == 0 {
			p.Cfg.FaultRate[s] = rate
		}
	}
	var pool []op // labels
	lit := []string{"", "a", "b", "ab", "1:1:a", "1:1:a=b", "1:1:a=b=c", "seq", "ids", "keys", "\x00", "\x00\x00\x00\x00\x00\x00\x00\x01", "\xff\xfe", "5seq", "5keys", "idsx", "日本"}
	for i := 3 + r.IntN(20); i > 0; i-- {
		switch r.IntN(8) {
		case 0:
			x := make([]byte, 1+r.IntN(12))
			for j := range x {
				x[j] = byte(r.Uint32())
			}
			pool = append(pool, op{PB: x})
		case 1:
			q := int64(pick(r, 100, 32<<10-1, 32<<10, 32<<10+1, 65000-16, 65000, 66000, 100000))
			if r.IntN(12) == 0 {
				q = 2 << 20
			}
			pool = append(pool, op{Q: q, PB: []byte(fmt.Sprint(r.IntN(3)))}, op{Q: q, PB: []byte(fmt.Sprint(r.IntN(3)))})
		case 2, 3:
			pool = append(pool, op{PB: []byte(lit[r.IntN(len(lit))])})
		default:
			pool = append(pool, op{PB: []byte(fmt.Sprint("1:", r.IntN(4), ":k", r.IntN(100)))})
		}
	}
	add := func(o op) { o.ID = len(p.Ops) + 1; p.Ops = append(p.Ops, o) }
	client := func() {
		o := pool[r.IntN(len(pool))]
		switch r.IntN(8) {
		case 0, 1, 2, 3:
			o.K = "tkey"
		case 4, 5:
			o.K = "tfind"
			if r.IntN(3) == 0 { // something nobody translates
				o.PB = append([]byte("never "), o.PB...)
			}
		case 6:
			o = op{K: "tlist", N: int64(r.IntN(1000))}
		default:
			o = op{K: "tmany", N: int64(1 + r.IntN(pick(r, 3, 12, 60))), D: int64(r.IntN(4))}
		}
		add(o)
	}
	work := func() {
		for j := 1 + r.IntN(6); j > 0; j-- {
			client()
			if r.IntN(4) == 0 {
				add(op{K: "run", N: int64(r.IntN(40))})
			}
		}
	}
	faults := false
	add(op{K: "topen"})
	for i := 2 + r.IntN(8); i > 0; i-- {
		switch x := r.IntN(12); {
		case x < 6:
			work()
			if r.IntN(3) == 0 {
				add(op{K: "run", N: int64(r.IntN(80))})
			} else {
				add(op{K: "drain"})
			}
		case x < 8:
			if r.IntN(2) == 0 {
				work()
				add(op{K: "run", N: int64(r.IntN(80))})
			}
			add(op{K: "drain"})
			add(op{K: "tstop"})
			add(op{K: "topen"})
		case x == 8:
			if r.IntN(2) == 0 {
				work()
				add(op{K: "run", N: int64(r.IntN(120))})
			}
			add(op{K: "tcrash"})
			add(op{K: "topen"})
		case x == 9:
			faults = !faults
			add(op{K: "faults", B: faults})
			work()
			add(op{K: "drain"})
		default:
			n, io := int64(1+r.IntN(20)), r.IntN(3) != 0
			if !io {
				n = int64(1 + r.IntN(400))
			}
			add(op{K: "tcrashafter", N: n, B: io})
			if r.IntN(4) == 0 {
				add(op{K: "tstop"})
			} else {
				work()
			}
			add(op{K: "drain"})
			add(op{K: "disarm"})
			add(op{K: "topen"})
		}
	}
	add(op{K: "drain"})
	add(op{K: "faults"})
	add(op{K: "topen"})
	add(op{K: "tall"})
	for _, o := range pool { // new numbers after all that
		if r.IntN(2) == 0 {
			o.K = "tkey"
			add(o)
		}
	}
	add(op{K: "tmany", N: 12, D: 9})
	add(op{K: "drain"})
	add(op{K: "tstop"})
	add(op{K: "topen"})
	add(op{K: "tall"})
	add(op{K: "tstop"})
	return p
}

func (d *dict) up() bool { return d.p != nil && !d.p.inc.Dead && d.p.tr != nil && !d.p.stopReq }

func (d *dict) open() {
	s := d.s
	d.account()
	if d.p != nil || s.failed() {
		return
	}
	d.n++
	p := &dictProc{inc: s.w.NewInc(fmt.Sprint("proc", d.n)), faulty: s.faults}
	p.ctx, p.cancel = context.WithCancel(context.Background())
	p.inc.AddCloser("ctx", nil, func() error { p.cancel(); return nil }, func() bool { return p.ctx.Err() != nil })
	dir := d.dir
	p.inc.OnCrash = func() {
		p.next = s.newDir()
		copyDir(dir, p.next)
		s.w.Log("crash %s", p.inc.Name)
	}
	d.p = p
	s.w.AdoptInc = p.inc
	s.w.Go(p.inc, p.inc.Name, func() {
		p.err = p.serve(dir)
		if p.inc.Dead {
			return
		}
		p.returned = true
		p.inc.OnCrash = nil
		p.inc.Dead = true
		s.w.Log("%s returned %v", p.inc.Name, p.err)
	})
	s.drain()
	if p.tr == nil && !p.inc.Dead && !s.failed() && !s.w.Over {
		s.fail("the dictionary does not open")
	}
	d.account()
}

func (p *dictProc) serve(dir string) error {
	db, err := badger.Open(badger.DefaultOptions(dir).WithLogger(nil).WithCompression(options.ZSTD))
	if err != nil {
		return err
	}
	tr, err := translate.New(db, []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10)))
	if err != nil {
		return errors.Join(err, db.Close())
	}
	p.tr = tr
	<-p.ctx.Done()
	rt.Y(rt.SiteClient)
	return errors.Join(tr.Close(), db.Close())
}

// account notices that the process has ended.
func (d *dict) account() {
	p, s := d.p, d.s
	if p == nil || !p.inc.Dead && p.inc.Death == nil {
		return
	}
	d.p = nil
	d.live = 0
	if p.returned {
		s.w.Kill(p.inc)
		if p.err != nil && !p.faulty {
			s.fail("the dictionary failed to open or close: %s", short(p.err.Error()))
		}
	} else if p.inc.Death != nil {
		s.fail("the process died (%s): %s in %s", p.inc.Death.Kind, p.inc.Death.What, p.inc.Death.Where)
	} else {
		s.nCrash++
		if p.next != "" {
			os.RemoveAll(d.dir)
			d.dir = p.next
		}
	}
	for _, c := range d.calls {
		if c.p == p {
			c.done = true
		}
	}
}

func (d *dict) do(o op) {
	s := d.s
	d.account()
	switch o.K {
	case "tick":
		if s.faults && d.p != nil {
			d.p.faulty = true
		}
	case "topen":
		d.open()
	case "tstop":
		if p := d.p; p != nil && !p.stopReq {
			p.stopReq = true
			p.cancel()
			s.drain()
			d.account()
			if d.p != nil && !s.failed() && !s.w.Over {
				s.fail("the dictionary does not close")
			}
		}
	case "tcrash":
		if d.p != nil {
			s.w.Kill(d.p.inc)
			d.account()
		}
	case "tcrashafter":
		if d.p != nil {
			s.w.CrashAfter(d.p.inc, o.N, o.B)
		}
	case "tkey":
		l := dictLabel(o)
		d.client(o, func() { d.translate(o.ID, l) })
	case "tmany":
		d.client(o, func() {
			for i := int64(0); i < o.N; i++ {
				d.translate(o.ID, []byte(fmt.Sprintf("many %d %d", o.D, i)))
			}
		})
	case "tfind":
		l := dictLabel(o)
		d.client(o, func() { d.find(o.ID, l) })
	case "tlist":
		d.client(o, func() { d.list(o.ID, o.N) })
	case "tall":
		s.drain()
		d.client(o, func() {
			d.list(o.ID, -1)
			var ls []string
			for l := range d.begun {
				ls = append(ls, l)
			}
			sort.Strings(ls)
			for _, l := range ls {
				d.find(o.ID, []byte(l))
				d.find(o.ID, []byte("never "+l))
			}
		})
		s.drain()
		d.account()
		d.progress()
	}
}

func (d *dict) client(o op, f func()) {
	if !d.up() || d.s.failed() {
		return
	}
	c := &dictCall{name: fmt.Sprintf("%s #%d", o.K, o.ID), p: d.p}
	d.calls = append(d.calls, c)
	d.s.nRead++
	c.task = d.s.w.Go(d.p.inc, fmt.Sprint("c", o.ID), func() {
		f()
		c.done = true
	})
}

func (d *dict) progress() {
	if d.s.failed() || d.s.w.Over {
		return
	}
	for _, c := range d.calls {
		if !c.done && !c.p.inc.Dead {
			d.s.fail("%s never completes: %s@%s", c.name, c.task.State(), c.task.Where())
			return
		}
	}
}

// tell records that somebody was told the number of a label.
func (d *dict) tell(what string, l []byte, n uint64) {
	k := string(l)
	if x, ok := d.num[k]; ok && x != n {
		d.s.fail("%s: label %s has number %d, it had %d before", what, short(fmt.Sprintf("%q", k)), n, x)
		return
	}
	if x, ok := d.text[n]; ok && x != k {
		d.s.fail("%s: label %s has number %d, which is that of label %s", what, short(fmt.Sprintf("%q", k)), n, short(fmt.Sprintf("%q", x)))
		return
	}
	d.num[k], d.text[n] = n, k
	if d.since[k] == 0 {
		d.since[k] = d.s.step()
	}
}

func (d *dict) translate(id int, l []byte) {
	p := d.p
	d.begun[string(l)] = true
	busy := d.live > 0
	d.live++
	d.over++
	n0 := d.over
	faulty := d.s.faults
	in := bytes.Clone(l)
	n, err := p.tr.TranslateKey(in)
	for i := range in { // the caller may reuse its buffer
		in[i] = 'X'
	}
	d.live--
	busy = busy || d.over != n0 // somebody else translated meanwhile
	d.s.w.Log("translate #%d %d bytes: %d %v", id, len(l), n, err != nil)
	if err != nil {
		if d.s.faults || faulty || busy && errors.Is(err, badger.ErrConflict) {
			return
		}
		d.s.fail("translation #%d of label %s failed: %s", id, short(fmt.Sprintf("%q", l)), short(err.Error()))
		return
	}
	d.tell(fmt.Sprintf("translation #%d", id), l, n)
}

func (d *dict) find(id int, l []byte) {
	p := d.p
	faulty := d.s.faults
	has := d.since[string(l)] != 0
	n, err := p.tr.Find(bytes.Clone(l))
	d.s.w.Log("find #%d %d bytes: %d %v", id, len(l), n, err != nil)
	name := short(fmt.Sprintf("%q", l))
	switch {
	case err == nil && !d.begun[string(l)]:
		d.s.fail("lookup #%d of label %s, which was never translated, found %d", id, name, n)
	case err == nil:
		d.tell(fmt.Sprintf("lookup #%d", id), l, n)
	case faulty || d.s.faults:
	case !errors.Is(err, badger.ErrKeyNotFound):
		d.s.fail("lookup #%d of label %s failed: %s", id, name, short(err.Error()))
	case has:
		d.s.fail("lookup #%d does not find label %s, whose number is %d", id, name, d.num[string(l)])
	}
}

// list asks for the texts of numbers handed out, in some order (seed<0: of all of them).
func (d *dict) list(id int, seed int64) {
	p := d.p
	var ids []uint64
	for n := range d.text {
		ids = append(ids, n)
	}
	slices.Sort(ids)
	if seed >= 0 {
		r := rand.New(rand.NewPCG(uint64(seed), 1))
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		ids = ids[:r.IntN(len(ids)+1)]
	}
	faulty := d.s.faults
	var got []string
	err := p.tr.TranslateBulkID(ids, func(k []byte) error {
		got = append(got, string(k))
		return nil
	})
	d.s.w.Log("list #%d of %d: %v", id, len(ids), err != nil)
	if err != nil {
		if !faulty && !d.s.faults {
			d.s.fail("listing #%d of %d numbers failed: %s", id, len(ids), short(err.Error()))
		}
		return
	}
	for i, n := range ids {
		if i >= len(got) || got[i] != d.text[n] {
			x := "nothing"
			if i < len(got) {
				x = short(fmt.Sprintf("%q", got[i]))
			}
			d.s.fail("listing #%d gives %s for number %d of label %s", id, x, n, short(fmt.Sprintf("%q", d.text[n])))
			return
		}
	}
	if len(got) != len(ids) {
		d.s.fail("listing #%d of %d numbers gives %d texts", id, len(ids), len(got))
	}
	if len(ids) > 0 && !d.s.failed() {
		n := ids[len(ids)-1]
		k, err := p.tr.TranslateID(n)
		switch {
		case err != nil && !faulty && !d.s.faults:
			d.s.fail("number %d has no text: %s", n, short(err.Error()))
		case err == nil && k != d.text[n]:
			d.s.fail("number %d of label %s has text %s", n, short(fmt.Sprintf("%q", d.text[n])), short(fmt.Sprintf("%q", k)))
		}
	}
}

func (d *dict) finish() {
	s := d.s
	d.account()
	d.progress()
	if d.p != nil {
		d.p.inc.OnCrash = nil
		d.p.cancel()
		s.w.Kill(d.p.inc)
	}
}
