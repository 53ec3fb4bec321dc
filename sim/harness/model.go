package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"google.golang.org/protobuf/proto"
)

const flushEvery = time.Minute

// export is what the model knows about one request to store data.
type export struct {
	op       int
	sig      v1.Scan_SCOPE
	data     *v1.Data
	labels   map[label]bool
	min      uint64
	noTime   bool // no usable earliest timestamp
	group    string
	natoms   int
	begin    int64 // scheduler steps
	end      int64 // 0: not answered yet
	ackAt    time.Time
	acked    bool
	failed   bool
	inc      *server
	settled  bool // certainly stored from here on
	maybe    bool // may be missing forever: its process died before it was known stored
	lost     bool // certainly never stored
	seen     map[string]bool
	self     bool // the server's own telemetry
	repeats  bool // has a resource, scope or metric more than once
	pendingF bool // acknowledged or flushed while storage errors were possible
}

// model is the reference: which exports a scan must, may and must not return.
type model struct {
	exports []*export
	groups  map[string][]*export
	atoms   map[string][]string // group -> atom keys
	owner   map[string]string   // atom -> group
	fails   []string
	unique  bool // a merge unites equal resources, scopes and metrics
}

func newModel() *model {
	return &model{groups: map[string][]*export{}, atoms: map[string][]string{}, owner: map[string]string{}}
}

func (m *model) add(opID int, d *v1.Data, srv *server, step int64) *export {
	e := &export{op: opID, data: d, inc: srv, begin: step, seen: map[string]bool{}}
	switch d.GetData().(type) {
	case *v1.Data_Metrics:
		e.sig = v1.Scan_METRICS
	case *v1.Data_Logs:
		e.sig = v1.Scan_LOGS
	case *v1.Data_Traces:
		e.sig = v1.Scan_TRACES
	}
	var ts []uint64
	e.labels, ts = exportLabels(d)
	e.min = math.MaxUint64
	for _, t := range ts {
		e.min = min(e.min, t)
		if t == 0 || t > math.MaxInt64 {
			e.noTime = true
		}
	}
	if len(ts) == 0 {
		e.noTime = true
	}
	k := atomKeys(d)
	e.natoms = len(k)
	e.repeats = m.unique && repeated(d, true) != ""
	sort.Strings(k)
	e.group = strings.Join(k, "\n")
	m.groups[e.group] = append(m.groups[e.group], e)
	m.atoms[e.group] = k
	for _, a := range k {
		m.owner[a] = e.group
	}
	m.exports = append(m.exports, e)
	return e
}

func (m *model) fail(format string, a ...any) {
	m.fails = append(m.fails, fmt.Sprintf(format, a...))
}

// scanRun is a scan in progress.
type scanRun struct {
	op      int
	spec    *scanSpec
	req     *v1.Scan
	begin   int64
	at      time.Time
	srv     *server
	faulty  bool // storage errors possible while it ran
	must    []*export
	data    *v1.Data
	err     error
	end     int64
	started bool
	raw     string
}

func (s *scanRun) matches(e *export) bool {
	if e.sig != v1.Scan_SCOPE(s.spec.Sig) {
		return false
	}
	for _, f := range s.spec.Filters {
		if !e.labels[label{f.P, string(f.K), string(f.V)}] {
			return false
		}
	}
	return true
}

// key identifies what must behave alike for "seen once, seen always".
func (s *scanRun) key() string {
	var fs []string
	for _, f := range s.spec.Filters {
		fs = append(fs, fmt.Sprintf("%d %q %q", f.P, f.K, f.V))
	}
	sort.Strings(fs)
	a, b := s.bounds(s.at)
	return strings.Join(fs, ";") + unitOf(b.Sub(a))
}

// bounds gives the scanned window when the server's clock says now.
func (s *scanRun) bounds(now time.Time) (time.Time, time.Time) {
	if s.req.TimeRange != nil {
		return s.req.TimeRange.Start.AsTime(), s.req.TimeRange.End.AsTime()
	}
	if s.req.Now != nil {
		now = s.req.Now.AsTime()
	}
	now = now.Add(-time.Duration(s.spec.Offset))
	return now.Add(-15 * time.Minute), now
}

func unitOf(d time.Duration) string {
	const day = 24 * time.Hour
	switch {
	case d >= 360*day:
		return "Y"
	case d >= 30*day:
		return "M"
	case d >= day:
		return "D"
	}
	return "H"
}

// widen extends a window to whole units.
func widen(a, b time.Time) (time.Time, time.Time) {
	a, b = a.UTC(), b.UTC()
	trunc := func(t time.Time) time.Time {
		switch unitOf(b.Sub(a)) {
		case "Y":
			return time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
		case "M":
			return time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
		case "D":
			return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
		}
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), 0, 0, 0, time.UTC)
	}
	next := func(t time.Time) time.Time {
		switch unitOf(b.Sub(a)) {
		case "Y":
			return t.AddDate(1, 0, 0)
		case "M":
			return t.AddDate(0, 1, 0)
		case "D":
			return t.AddDate(0, 0, 1)
		}
		return t.Add(time.Hour)
	}
	e := trunc(b)
	if !e.Equal(b) {
		e = next(e)
	}
	s := trunc(a)
	if !e.After(s) { // empty or inverted range inside one unit
		e = next(s)
	}
	return s, e
}

// in reports whether e certainly lies in the window and whether it may be returned for it.
func (s *scanRun) in(e *export, lo, hi time.Time) (must, may bool) {
	if e.noTime {
		return false, true
	}
	t := time.Unix(0, int64(e.min)).UTC()
	a, b := s.bounds(lo)
	must = !t.Before(a) && t.Before(b)
	wa, wb := widen(a, b)
	may = !t.Before(wa) && t.Before(wb)
	if !hi.Equal(lo) { // the server's clock moved while the scan ran
		a2, b2 := s.bounds(hi)
		must = must && !t.Before(a2) && t.Before(b2)
		wa2, wb2 := widen(a2, b2)
		may = may || !t.Before(wa2) && t.Before(wb2) || !t.Before(wa) && t.Before(wb2)
	}
	return must, may || must
}

// stored reports whether e is certainly stored for this scan.
func (m *model) stored(e *export, s *scanRun) bool {
	return !e.lost && (e.settled || e.seen[s.key()])
}

// start fixes what the scan must return, from what is known when it is sent.
func (m *model) start(s *scanRun) {
	for _, e := range m.exports {
		if s.matches(e) && m.stored(e, s) {
			s.must = append(s.must, e)
		}
	}
	s.started = true
}

// finish judges the answer. errOK says whether an error is an acceptable answer.
func (m *model) finish(s *scanRun, endStep int64, lo, hi time.Time, errOK bool) {
	s.end = endStep
	name := fmt.Sprintf("%s (op #%d)", s.spec, s.op)
	if s.err != nil {
		if !errOK {
			m.fail("%s failed: %v", name, s.err)
		}
		return
	}
	if s.spec.NoCheck || s.spec.Raw != nil {
		return
	}
	if s.data == nil {
		m.fail("%s returned neither data nor an error", name)
		return
	}
	okKind := false
	switch s.data.GetData().(type) {
	case *v1.Data_Metrics:
		okKind = s.spec.Sig == int32(v1.Scan_METRICS)
	case *v1.Data_Logs:
		okKind = s.spec.Sig == int32(v1.Scan_LOGS)
	case *v1.Data_Traces:
		okKind = s.spec.Sig == int32(v1.Scan_TRACES)
	}
	if !okKind {
		m.fail("%s returned data of another signal: %s", name, short(s.data.String()))
		return
	}
	count := map[string]int{}
	got := map[string]int{}
	for _, a := range atomKeys(s.data) {
		g, ok := m.owner[a]
		if !ok {
			m.fail("%s returned something nobody exported: %s%s", name, short(a), m.nearest(a))
			return
		}
		count[a]++
		got[g]++
	}
	// candidates
	may := map[string][]*export{}
	must := map[string]int{}
	var isMust []*export
	for _, e := range m.exports {
		if !s.matches(e) || e.lost || e.begin > endStep {
			continue
		}
		_, mayW := s.in(e, lo, hi)
		if mayW {
			may[e.group] = append(may[e.group], e)
		}
	}
	for _, e := range s.must {
		if mw, _ := s.in(e, lo, hi); mw {
			must[e.group]++
			isMust = append(isMust, e)
		}
	}
	if m.unique {
		if what := repeated(s.data, false); what != "" {
			ok := false
			for _, e := range m.exports {
				ok = ok || e.sig == v1.Scan_SCOPE(s.spec.Sig) && e.repeats
			}
			if !ok {
				m.fail("%s returned %s more than once", name, what)
				return
			}
		}
	}
	if s.req.TimeRange == nil {
		m.finishInstant(s, name, count, got, may, isMust)
		return
	}
	for g, n := range got {
		mult := map[string]int{}
		for _, a := range m.atoms[g] {
			mult[a]++
		}
		c := -1
		for a, k := range mult {
			if count[a]%k != 0 {
				m.fail("%s returned a part of export #%d: %d of %d copies of %s", name, m.groups[g][0].op, count[a], k, short(a))
				return
			}
			if c >= 0 && count[a]/k != c {
				m.fail("%s returned export #%d in part: %s occurs %d times, other parts %d times (%d of %d atoms)", name, m.groups[g][0].op, short(a), count[a]/k, c, n, len(m.atoms[g]))
				return
			}
			c = count[a] / k
		}
		if c > len(may[g]) {
			e := m.groups[g][0]
			why := ""
			if len(may[g]) == 0 {
				why = "; it should not be in this answer at all"
				if !s.matches(e) {
					why += " (it does not match the filters)"
				} else if e.lost {
					why += " (it was never stored)"
				} else {
					why += fmt.Sprintf(" (its earliest timestamp is %s)", time.Unix(0, int64(e.min)).UTC().Format(time.RFC3339Nano))
				}
			}
			m.fail("%s returned export #%d %d times, at most %d expected%s", name, e.op, c, len(may[g]), why)
			return
		}
		if c < must[g] {
			m.fail("%s returned %d of %d identical stored exports (#%d)", name, c, must[g], m.groups[g][0].op)
			return
		}
		for i, e := range may[g] {
			if i < c && len(m.groups[g]) == 1 && !s.faulty {
				e.seen[s.key()] = true
			}
		}
	}
	for g, n := range must {
		if g != "" && n > 0 && got[g] == 0 {
			e := m.groups[g][0]
			m.fail("%s does not return export #%d (earliest timestamp %s), which is stored", name, e.op, time.Unix(0, int64(e.min)).UTC().Format(time.RFC3339Nano))
			return
		}
	}
}

func (m *model) finishInstant(s *scanRun, name string, count, got map[string]int, may map[string][]*export, isMust []*export) {
	if len(got) == 0 {
		// empty: nothing stored, or the newest is an export without content
		empties := may[""]
		for _, e := range isMust {
			if e.natoms == 0 {
				continue
			}
			ok := false
			for _, x := range empties {
				if !(x.end != 0 && x.end < e.begin) {
					ok = true
				}
			}
			if !ok {
				m.fail("%s returned nothing although export #%d is stored in its window", name, e.op)
				return
			}
		}
		return
	}
	if len(got) > 1 {
		m.fail("%s returned parts of %d different exports", name, len(got))
		return
	}
	for g := range got {
		mult := map[string]int{}
		for _, a := range m.atoms[g] {
			mult[a]++
		}
		for a, k := range mult {
			if count[a] != k {
				m.fail("%s returned %d instead of %d copies of %s of export #%d", name, count[a], k, short(a), m.groups[g][0].op)
				return
			}
		}
		if len(may[g]) == 0 {
			m.fail("%s returned export #%d, which is not in its window or does not match", name, m.groups[g][0].op)
			return
		}
		// some copy of it must have no stored export accepted after it
		var newer *export
		for _, x := range may[g] {
			ok := true
			for _, e := range isMust {
				if x.end != 0 && x.end < e.begin && e != x {
					ok = false
					if newer == nil || e.begin > newer.begin {
						newer = e
					}
				}
			}
			if ok {
				if len(m.groups[g]) == 1 && !s.faulty {
					x.seen[s.key()] = true
				}
				return
			}
		}
		m.fail("%s returned export #%d although #%d, accepted later, is stored and matches", name, may[g][0].op, newer.op)
	}
}

func (m *model) nearest(a string) string {
	best, bl := "", 0
	for k := range m.owner {
		n := common(a, k)
		if n > bl || n == bl && k < best {
			best, bl = k, n
		}
	}
	if best == "" {
		return ""
	}
	i := 0
	for i < len(a) && i < len(best) && a[i] == best[i] {
		i++
	}
	i = max(0, i-40)
	return fmt.Sprintf("; the closest exported item differs from ...%s to ...%s", short(best[min(i, len(best)):]), short(a[min(i, len(a)):]))
}

func common(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	m := 0
	for m < len(a)-n && m < len(b)-n && a[len(a)-1-m] == b[len(b)-1-m] {
		m++
	}
	return n + m
}

func short(s string) string {
	if len(s) > 600 {
		return s[:500] + " ... " + s[len(s)-80:]
	}
	return s
}

func unpb(pb []byte) *v1.Data {
	d := &v1.Data{}
	if err := proto.Unmarshal(pb, d); err != nil {
		panic(err)
	}
	return d
}
