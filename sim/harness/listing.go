package main

import (
	"context"
	"slices"
	"sort"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/store"
)

// labelText is the dictionary's text of everything a filter can find an export by.
func labelText(e *export) string {
	l := labels.NewLabel()
	defer l.Release()
	ls := []string{string(l.Reset().WithResource(v1.RESOURCE(e.sig)).WithPrefix(v1.PREFIX_UNKNOWN).Encode())}
	for k := range e.labels {
		ls = append(ls, string(l.Reset().WithResource(v1.RESOURCE(e.sig)).WithPrefix(v1.PREFIX(k.P)).WithKey(k.K).WithValue(k.V).Encode()))
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// listLabels reads back the labels of every sample and compares them with those of the exports (C11).
func (s *sim) listLabels(o op) {
	if !s.srv.up() || s.failed() || s.w.Over || s.faults || s.recovering() || s.srv.stopReq {
		return
	}
	st, ok := s.srv.inc.Caps["store.NewStore"].(*store.Storage)
	if !ok {
		return
	}
	lease := s.w.Cfg.LeaseSample
	if lease == 0 {
		lease = 1 << 8
	}
	max := s.w.Cfg.StartSample + uint64(s.nExp) + uint64(s.nStart)*lease + 8
	if s.everF {
		max += 20 * lease
	}
	if max > 1500 {
		return
	}
	s.client(o, func(_ context.Context, srv *server, c *call) {
		years := map[string]bool{}
		want := map[string]map[string]int{} // year, labels: exports certainly there
		may := map[string]bool{}
		for _, e := range s.m.exports {
			t := labelText(e)
			may[t] = true
			if e.noTime {
				continue
			}
			y := "std_" + time.Unix(0, int64(e.min)).UTC().Format("2006")
			years[y] = true
			if e.settled && !e.lost {
				if want[y] == nil {
					want[y] = map[string]int{}
				}
				want[y][t]++
			}
		}
		var ys []string
		for y := range years {
			ys = append(ys, y)
		}
		sort.Strings(ys)
		exact := s.nCrash == 0 && !s.everF
		for _, y := range ys {
			got := map[string]int{}
			for id := uint64(0); id < max; id++ {
				ls, err := st.Labels(y, id)
				if s.srv != srv || srv.inc.Dead {
					return
				}
				if err != nil {
					s.fail("the labels of sample %d in %s can not be listed: %s", id, y, short(err.Error()))
					return
				}
				if len(ls) == 0 {
					continue
				}
				// nothing is said about labels without a value
				ls = slices.DeleteFunc(ls, func(t string) bool {
					return strings.Count(t, ":") == 2 && strings.HasSuffix(t, ":") && !strings.HasSuffix(t, ":0:")
				})
				sort.Strings(ls)
				t := strings.Join(ls, "\n")
				if exact && !may[t] {
					s.fail("sample %d in %s is listed with labels no export has: %s", id, y, short(t))
					return
				}
				got[t]++
			}
			var ts []string
			for t := range want[y] {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			for _, t := range ts {
				if got[t] < want[y][t] {
					s.fail("%d stored exports of %s have labels %s, only %d samples are listed with them", want[y][t], y, short(t), got[t])
					return
				}
			}
		}
		s.nRead++
		s.w.Log("labels of %d ids listed", max)
	})
	s.quiet()
}
