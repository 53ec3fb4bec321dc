From 9a128136af232f7cef0da78dfac64e6effef1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 01/40] fix: index every sample under its own signal

The label used to select all samples of a signal was computed before the
signal of the sample was known, so it carried the signal of the sample
processed before.
---
 internal/transform/transform.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..2ac3eda 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,9 +46,12 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
+	c.label.Resource = 0
 	c.WithSample(sample.Id).
 		data(sample.Data)
+	// data selects the resource of this sample, the label that is used to select
+	// samples by resource depends on it.
+	c.init()
 	sample.MinTs = c.minTs
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
-- 
2.43.0


From 5932775cf84ed4bd48a92b676dd27b3b20706e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 02/40] fix: index span attributes

Attribute filters on traces could never match.
---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From f78e114ad0a04f3e9342e0e1b6cb545cdda94971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 03/40] fix: unset timestamps do not decide the earliest
 timestamp of a sample

A point without a timestamp reset the minimum and the timestamp that came
after it replaced the earlier ones.
---
 internal/transform/transform.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 2ac3eda..406975e 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -184,11 +184,7 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 }
 
 func (c *Context) Timestamp(ts uint64) {
-	if c.minTs == 0 {
-		c.minTs = ts
-	}
-	c.minTs = min(c.minTs, ts)
-	c.maxTs = max(c.maxTs, ts)
+	c.Range(ts, ts)
 }
 
 func (c *Context) Reset() {
@@ -199,10 +195,11 @@ func (c *Context) Reset() {
 	c.label = labels.Label{}
 }
 
+// Range extends time range covered by the sample. Zero means the timestamp is
+// not known and it is ignored.
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
+	if start != 0 && (c.minTs == 0 || start < c.minTs) {
 		c.minTs = start
 	}
-	c.minTs = min(c.minTs, start)
 	c.maxTs = max(c.maxTs, end)
 }
-- 
2.43.0


From e6ec819eb67bad208c398d13994807fca12ada35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 04/40] fix: scans cover units that the time range covers
 partially

quantum.ViewsByTimeRange drops the last unit when the range does not cover it
entirely and starts in the middle of the first one. A scan of a range ending
inside a day, month or year missed samples of that unit.
---
 internal/dataframe/dataframe.go |  3 +-
 internal/shards/shards.go       |  8 +----
 internal/view/view.go           | 53 +++++++++++++++++++++++++++++++--
 3 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..ce90182 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -12,7 +12,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/arrow3"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/batch"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..1fa00f3 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -12,7 +12,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -20,8 +19,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -104,10 +101,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..7a0602b 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -1,6 +1,7 @@
 package view
 
 import (
+	"math"
 	"time"
 
 	"github.com/gernest/rbf/quantum"
@@ -47,9 +48,57 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
+// Bounds of the time that can be stored, samples timestamps are 64 bit unix
+// nanoseconds.
+var (
+	minTime = time.Unix(0, math.MinInt64).UTC()
+	maxTime = time.Unix(0, math.MaxInt64).UTC()
+)
+
+// Search returns views that cover time range [start, end) . All views that
+// overlap the range are selected, first and last views can be partially covered.
 func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+	q := ChooseQuantum(end.Sub(start))
+	if start.Before(minTime) {
+		start = minTime
+	}
+	if end.After(maxTime) {
+		end = maxTime.Add(1)
+	}
+	var unit rune
+	t := start.UTC()
+	switch q {
+	case QY:
+		unit = 'Y'
+		t = time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
+	case QM:
+		unit = 'M'
+		t = time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
+	case QD:
+		unit = 'D'
+		t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	default:
+		unit = 'H'
+		t = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), 0, 0, 0, time.UTC)
+	}
+	if !start.Before(end) {
+		return nil
+	}
+	var views []string
+	for t.Before(end) {
+		views = append(views, quantum.ViewByTimeUnit(StdView, t, unit))
+		switch q {
+		case QY:
+			t = t.AddDate(1, 0, 0)
+		case QM:
+			t = t.AddDate(0, 1, 0)
+		case QD:
+			t = t.AddDate(0, 0, 1)
+		default:
+			t = t.Add(time.Hour)
+		}
+	}
+	return views
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From cf2c1c05265f5920e2e30ee9521046dcfe528f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 05/40] fix: scans report errors reading stored samples

The error was dropped and the scan returned nothing, or the samples of a part
of the time range, as its result.
---
 internal/store/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..52ffd98 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
+	if len(rs) == 0 {
+		return data.Zero(resource), nil
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From 1707b9796daf7fcb4cd8636c4790d37b7afa51bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 06/40] fix: merge only metrics, scopes and resources that are
 the same

Merging metrics that share a name but not the kind crashed the scan, merging
those that share the name but not the unit, temporality or other properties
reported points under the wrong ones, and name and version of a scope (or
schema and attributes) were hashed without boundaries, so that different scopes
were taken to be the same.
---
 internal/data/metrics.go |  6 ++---
 internal/data/sort.go    | 55 +++++++++++++++++++++++++++++++++-------
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..e165a4c 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,13 +43,46 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+// hashMetrics identifies a metric. Data points are merged only when all the
+// properties of the metric that are not data points are the same.
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsV1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	r.hashString(m.Name)
+	r.hashString(m.Description)
+	r.hashString(m.Unit)
+	r.attr(m.Metadata)
+	if m.GetGauge() != nil {
+		r.hashNum(1)
+	}
+	if sum := m.GetSum(); sum != nil {
+		r.hashNum(2)
+		r.hashNum(uint64(sum.AggregationTemporality))
+		if sum.IsMonotonic {
+			r.hashNum(1)
+		}
+	}
+	if hist := m.GetHistogram(); hist != nil {
+		r.hashNum(3)
+		r.hashNum(uint64(hist.AggregationTemporality))
+	}
+	if ehist := m.GetExponentialHistogram(); ehist != nil {
+		r.hashNum(4)
+		r.hashNum(uint64(ehist.AggregationTemporality))
+	}
+	if m.GetSummary() != nil {
+		r.hashNum(5)
+	}
 	return r.h.Sum64()
 }
 
+// hashString hashes size and content of s, this ensures that consecutive strings
+// are not ambiguous.
+func (r *Sorter[T, R, S]) hashString(s string) {
+	r.hashNum(uint64(len(s)))
+	r.h.WriteString(s)
+}
+
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
 	binary.BigEndian.PutUint64(r.buf[:8], v)
 	r.h.Write(r.buf[:8])
@@ -57,8 +91,9 @@ func (r *Sorter[T, R, S]) hashNum(v uint64) {
 
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
+		r.hashNum(uint64(resource.DroppedAttributesCount))
 		r.attr(resource.Attributes)
 	}
 	return r.h.Sum64()
@@ -67,13 +102,12 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
-		if scope.Attributes != nil {
-			r.attr(scope.Attributes)
-		}
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
+		r.hashNum(uint64(scope.DroppedAttributesCount))
+		r.attr(scope.Attributes)
 	}
 	return r.h.Sum64()
 }
@@ -112,8 +146,11 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 }
 
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
+	r.hashNum(uint64(len(kv)))
 	for _, v := range kv {
 		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
+		n := len(r.buf)
 		r.h.Write(r.buf)
+		r.hashNum(uint64(n))
 	}
 }
-- 
2.43.0


From db93ee33a0e06b0539d0810d3e389bda36068479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 07/40] fix: labels of different attributes are different

Key and value are joined by = which can be part of the key, a=b with value c
had the same label as a with value b=c.
---
 internal/labels/labels.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/labels/labels.go b/internal/labels/labels.go
index 70efebf..f8e26a5 100644
--- a/internal/labels/labels.go
+++ b/internal/labels/labels.go
@@ -40,10 +40,21 @@ func (l *Label) WithValue(v string) *Label {
 }
 
 func (l *Label) Encode() []byte {
-	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:%s", l.Resource, l.Prefix, l.Key)
-	if l.Value != "" {
-		l.buf = fmt.Appendf(l.buf, "=%s", l.Value)
+	l.buf = fmt.Appendf(l.buf[:0], "%d:%d:", l.Resource, l.Prefix)
+	if l.Value == "" {
+		l.buf = append(l.buf, l.Key...)
+		return l.buf
 	}
+	// The first = that is not escaped ends the key.
+	for i := 0; i < len(l.Key); i++ {
+		switch l.Key[i] {
+		case '=', '\\':
+			l.buf = append(l.buf, '\\')
+		}
+		l.buf = append(l.buf, l.Key[i])
+	}
+	l.buf = append(l.buf, '=')
+	l.buf = append(l.buf, l.Value...)
 	return l.buf
 }
 
-- 
2.43.0


From 3d31aad2e3ffefc2996332d80623398cc3785619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 08/40] fix: sample and label numbers are never reused

Keys of the label dictionary shared memory with the key of its sequence:
extending the lease of the sequence used another key than the one it was read
from and started again from 0. A sequence that failed to extend its lease
handed out numbers that were not reserved. Failing to reserve sample numbers
terminated the process.
---
 internal/seq/lease.go           | 59 +++++++++++++++++++++++++++++++++
 internal/seq/seq.go             | 13 +++-----
 internal/service/service.go     |  6 +++-
 internal/translate/translate.go | 22 ++++++++----
 4 files changed, 84 insertions(+), 16 deletions(-)
 create mode 100644 internal/seq/lease.go

diff --git a/internal/seq/lease.go b/internal/seq/lease.go
new file mode 100644
index 0000000..ee64147
--- /dev/null
+++ b/internal/seq/lease.go
@@ -0,0 +1,59 @@
+package seq
+
+import (
+	"bytes"
+	"sync"
+
+	"github.com/dgraph-io/badger/v4"
+)
+
+// Lease hands out monotonically increasing numbers that are never reused.
+type Lease struct {
+	db        *badger.DB
+	key       []byte
+	bandwidth uint64
+	mu        sync.Mutex
+	seq       *badger.Sequence
+}
+
+// NewLease returns a Lease which reserves bandwidth numbers at a time under key.
+func NewLease(db *badger.DB, key []byte, bandwidth uint64) (*Lease, error) {
+	l := &Lease{db: db, key: bytes.Clone(key), bandwidth: bandwidth}
+	var err error
+	l.seq, err = db.GetSequence(l.key, bandwidth)
+	if err != nil {
+		return nil, err
+	}
+	return l, nil
+}
+
+// Next returns a number that was never returned before.
+func (l *Lease) Next() (uint64, error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	if l.seq == nil {
+		seq, err := l.db.GetSequence(l.key, l.bandwidth)
+		if err != nil {
+			return 0, err
+		}
+		l.seq = seq
+	}
+	n, err := l.seq.Next()
+	if err != nil {
+		// A sequence that failed to extend its lease believes that it did. Abandon
+		// it and start from what is stored.
+		l.seq = nil
+		return 0, err
+	}
+	return n, nil
+}
+
+// Release returns numbers that are reserved but were not handed out.
+func (l *Lease) Release() error {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	if l.seq == nil {
+		return nil
+	}
+	return l.seq.Release()
+}
diff --git a/internal/seq/seq.go b/internal/seq/seq.go
index 4bed430..a1c1108 100644
--- a/internal/seq/seq.go
+++ b/internal/seq/seq.go
@@ -5,11 +5,10 @@ import (
 
 	"github.com/dgraph-io/badger/v4"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
-	"github.com/gernest/requiemdb/internal/logger"
 )
 
 type Seq struct {
-	sample *badger.Sequence
+	sample *Lease
 }
 
 func New(db *badger.DB) (*Seq, error) {
@@ -17,7 +16,7 @@ func New(db *badger.DB) (*Seq, error) {
 	seqKey := make([]byte, 8+4)
 	binary.LittleEndian.PutUint32(seqKey[8:], uint32(v1.RESOURCE_SAMPLE_ID))
 
-	sample, err := db.GetSequence(seqKey, 1<<20)
+	sample, err := NewLease(db, seqKey, 1<<20)
 	if err != nil {
 		return nil, err
 	}
@@ -28,10 +27,6 @@ func (s *Seq) Release() error {
 	return s.sample.Release()
 }
 
-func (s *Seq) SampleID() uint64 {
-	id, err := s.sample.Next()
-	if err != nil {
-		logger.Fail("failed generating sample id", "err", err)
-	}
-	return id
+func (s *Seq) SampleID() (uint64, error) {
+	return s.sample.Next()
 }
diff --git a/internal/service/service.go b/internal/service/service.go
index 80e548f..0046c9e 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -103,8 +103,12 @@ func (s *Service) start(ctx context.Context) {
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
+	id, err := s.seq.SampleID()
+	if err != nil {
+		return err
+	}
 	s.data.Items = append(s.data.Items, &v1.Sample{
-		Id:   s.seq.SampleID(),
+		Id:   id,
 		Data: data,
 	})
 	return nil
diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..3b5fb99 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -7,26 +7,33 @@ import (
 	"sync"
 
 	"github.com/dgraph-io/badger/v4"
+	"github.com/gernest/requiemdb/internal/seq"
 )
 
 type Translate struct {
 	db  *badger.DB
-	seq *badger.Sequence
+	seq *seq.Lease
 
 	keys, ids []byte
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
-	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
+	seq, err := seq.NewLease(db, join(prefix, "seq"), 4<<10)
 	if err != nil {
 		return nil, err
 	}
 	return &Translate{db: db, seq: seq,
-		keys: append(prefix, []byte("keys")...),
-		ids:  append(prefix, []byte("ids")...),
+		keys: join(prefix, "keys"),
+		ids:  join(prefix, "ids"),
 	}, nil
 }
 
+// join never shares memory with prefix, keys that are derived from the same
+// prefix are independent.
+func join(prefix []byte, name string) []byte {
+	return append(bytes.Clone(prefix), name...)
+}
+
 func (t *Translate) Close() error {
 	return t.seq.Release()
 }
@@ -121,8 +128,11 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
-		it, err := txn.Get(k)
+		g := get()
+		defer put(g)
+		g.Write(b.keys)
+		g.Write(key)
+		it, err := txn.Get(g.Bytes())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From abbe55b607af333d4014a689af3e3977e9d563b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 09/40] fix: failing to store a label fails the flush, not the
 process

A transient storage error terminated the server.
---
 internal/store/store.go         |  9 ++++-----
 internal/transform/transform.go | 27 +++++++++++++++++++++------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/internal/store/store.go b/internal/store/store.go
index 3ea5e44..42740b6 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -9,7 +9,6 @@ import (
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
 	"github.com/gernest/requiemdb/internal/dataframe"
-	"github.com/gernest/requiemdb/internal/logger"
 	"github.com/gernest/requiemdb/internal/samples"
 	"github.com/gernest/requiemdb/internal/seq"
 	"github.com/gernest/requiemdb/internal/shards"
@@ -55,17 +54,17 @@ func NewStore(db *badger.DB, rdb *shards.Shards, tr *translate.Translate, seq *s
 	return s, nil
 }
 
-func (s *Storage) Translate(key []byte) uint64 {
+func (s *Storage) Translate(key []byte) (uint64, error) {
 	h := xxhash.Sum64(key)
 	if v, ok := s.columnsCache.Get(h); ok {
-		return v.(uint64)
+		return v.(uint64), nil
 	}
 	v, err := s.translate.TranslateKey(key)
 	if err != nil {
-		logger.Fail("BUG: failed tp translate column", "err", err)
+		return 0, err
 	}
 	s.columnsCache.Set(h, v, 8)
-	return v
+	return v, nil
 }
 
 func (s *Storage) Close() error {
diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 406975e..9fcdf80 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -16,7 +16,7 @@ import (
 	resource1 "go.opentelemetry.io/proto/otlp/resource/v1"
 )
 
-type TranslateFunc func(k []byte) uint64
+type TranslateFunc func(k []byte) (uint64, error)
 
 type Context struct {
 	sampleID  uint64
@@ -26,6 +26,7 @@ type Context struct {
 	positions *bitmaps.Bitmap
 	translate TranslateFunc
 	label     labels.Label
+	err       error
 }
 
 func NewContext(t TranslateFunc) *Context {
@@ -36,8 +37,13 @@ func NewContext(t TranslateFunc) *Context {
 }
 
 func (c *Context) ProcessSamples(ls ...*v1.Sample) (batch.Fragments, error) {
+	c.err = nil
 	for _, v := range ls {
 		c.processSample(v)
+		if c.err != nil {
+			c.batch.Reset()
+			return nil, c.err
+		}
 	}
 	return c.batch.Build()
 }
@@ -155,8 +161,18 @@ func (c *Context) Label(f func(lbl *labels.Label)) {
 	c.label.Key = ""
 	c.label.Value = ""
 	f(&c.label)
-	e := c.label.Encode()
-	column := c.translate(e)
+	c.addLabel()
+}
+
+func (c *Context) addLabel() {
+	if c.err != nil {
+		return
+	}
+	column, err := c.translate(c.label.Encode())
+	if err != nil {
+		c.err = err
+		return
+	}
 	c.positions.Add(column)
 }
 
@@ -164,9 +180,7 @@ func (c *Context) init() {
 	c.label.Key = ""
 	c.label.Value = ""
 	c.label.Prefix = v1.PREFIX_UNKNOWN
-	e := c.label.Encode()
-	column := c.translate(e)
-	c.positions.Add(column)
+	c.addLabel()
 }
 
 func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
@@ -193,6 +207,7 @@ func (c *Context) Reset() {
 	c.maxTs = 0
 	c.translate = nil
 	c.label = labels.Label{}
+	c.err = nil
 }
 
 // Range extends time range covered by the sample. Zero means the timestamp is
-- 
2.43.0


From 29aa06e30ee8ab9e8e05d09ea275d21071565447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 10/40] fix: labels of any size can be stored

A label longer than the limit badger has on keys failed the flush of all the
samples it was part of.
---
 internal/translate/translate.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index 3b5fb99..9d0a7dd 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -2,6 +2,7 @@ package translate
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/binary"
 	"errors"
 	"sync"
@@ -38,6 +39,21 @@ func (t *Translate) Close() error {
 	return t.seq.Release()
 }
 
+// maxKeySize is the size of the longest key that is stored as it is, badger
+// limits the size of keys.
+const maxKeySize = 32 << 10
+
+func (b *Translate) encodeKey(g *bytes.Buffer, key []byte) {
+	g.Write(b.keys)
+	if len(key) <= maxKeySize {
+		g.Write(key)
+		return
+	}
+	sum := sha256.Sum256(key)
+	g.Write(key[:maxKeySize])
+	g.Write(sum[:])
+}
+
 func (b *Translate) TranslateID(id uint64) (k string, err error) {
 	err = b.db.View(func(txn *badger.Txn) error {
 		g := get()
@@ -83,8 +99,7 @@ func (b *Translate) TranslateBulkID(ids []uint64, f func(key []byte) error) (err
 func (b *Translate) TranslateKey(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
-		g.Write(b.keys)
-		g.Write(key)
+		b.encodeKey(g, key)
 		defer put(g)
 		it, err := txn.Get(g.Bytes())
 		if err != nil {
@@ -130,8 +145,7 @@ func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
 		defer put(g)
-		g.Write(b.keys)
-		g.Write(key)
+		b.encodeKey(g, key)
 		it, err := txn.Get(g.Bytes())
 		if err != nil {
 			return err
-- 
2.43.0


From 58f3840a8330269157b5601c7624cca665dcf718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 11/40] fix: samples are stored in the row of their number

In a table that starts with a sample other than the first one the rows were off
by one, which returned the wrong sample. Samples that are saved again after a
failure were stored twice.
---
 internal/dataframe/dataframe.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index ce90182..f9f2455 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -221,21 +221,29 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var nextId uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			nextId = uint64(r.NumRows())
 			defer r.Release()
 		}
+		firstId := nextId
 		empty := &v1.Data{}
 		for _, s := range samples {
+			if s.Id < nextId {
+				// Already stored by a previous attempt to save the sample.
+				continue
+			}
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for ; nextId < s.Id; nextId++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			nextId++
+		}
+		if nextId == firstId {
+			return nil
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From 479b621faaeb67ec980bdd3fed2acd6d8ec2962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 12/40] fix: samples of a failed flush are kept for the next
 one

They were acknowledged and then dropped.
---
 internal/service/service.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/service/service.go b/internal/service/service.go
index 0046c9e..f2edae7 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -87,19 +87,32 @@ func (s *Service) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-tick.C:
-			s.dataMu.Lock()
-			ls := s.data
-			s.data = samples.Get()
-			s.dataMu.Unlock()
-			err := s.store.SaveSamples(ctx, ls)
+			err := s.flush(ctx)
 			if err != nil {
 				slog.Error("Failed to save samples", "err", err)
 			}
-			ls.Release()
 		}
 	}
 }
 
+// flush saves buffered samples. Samples stay in the buffer when saving fails, so
+// that they are part of the next flush.
+func (s *Service) flush(ctx context.Context) error {
+	s.dataMu.Lock()
+	ls := s.data
+	s.data = samples.Get()
+	s.dataMu.Unlock()
+	err := s.store.SaveSamples(ctx, ls)
+	if err != nil {
+		s.dataMu.Lock()
+		ls.Items = append(ls.Items, s.data.Items...)
+		s.data, ls = ls, s.data
+		s.dataMu.Unlock()
+	}
+	ls.Release()
+	return err
+}
+
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
-- 
2.43.0


From 06a0741c1215433b072d69cbea4e77c42e86fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 13/40] fix: a clean shutdown saves samples that are not
 flushed yet

Samples acknowledged since the last periodic flush were lost, and a flush that
was in progress was running on a database that is closed.
---
 cmd/rq/main.go              |  2 +-
 internal/service/service.go | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index d99c0a0..172dffc 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -138,7 +138,7 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 	defer providers.Shutdown(ctx)
 	store.MonitorSize(ctx, db)
 
-	go api.Start(ctx)
+	api.Start(ctx)
 
 	go func() {
 		defer cancel()
diff --git a/internal/service/service.go b/internal/service/service.go
index f2edae7..a5b6187 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -2,6 +2,7 @@ package service
 
 import (
 	"context"
+	"errors"
 	"log/slog"
 	"sync"
 	"time"
@@ -29,11 +30,17 @@ const (
 	DataBuffer = 4 << 10
 )
 
+// ErrClosed is returned when saving samples after the service is closed.
+var ErrClosed = errors.New("service is closed")
+
 type Service struct {
 	snippets *snippets.Snippets
 	store    *store.Storage
 	dataMu   sync.Mutex
 	data     *samples.List
+	closed   bool
+	cancel   context.CancelFunc
+	done     chan struct{}
 	seq      *seq.Seq
 	stats    struct {
 		processed metric.Int64Counter
@@ -74,9 +81,15 @@ func NewService(ctx context.Context,
 	return service, nil
 }
 
+// Start starts periodic flush. It must be called before Close.
 func (s *Service) Start(ctx context.Context) {
+	ctx, s.cancel = context.WithCancel(ctx)
+	s.done = make(chan struct{})
 	go s.store.Start(ctx)
-	go s.start(ctx)
+	go func() {
+		defer close(s.done)
+		s.start(ctx)
+	}()
 }
 
 func (s *Service) start(ctx context.Context) {
@@ -116,6 +129,9 @@ func (s *Service) flush(ctx context.Context) error {
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
+	if s.closed {
+		return ErrClosed
+	}
 	id, err := s.seq.SampleID()
 	if err != nil {
 		return err
@@ -127,7 +143,20 @@ func (s *Service) Save(data *v1.Data) error {
 	return nil
 }
 
+// Close saves buffered samples and releases resources of the service. Samples
+// are not accepted after that.
 func (s *Service) Close() {
+	s.dataMu.Lock()
+	s.closed = true
+	s.dataMu.Unlock()
+	if s.cancel != nil {
+		s.cancel()
+		<-s.done
+	}
+	err := s.flush(context.Background())
+	if err != nil {
+		slog.Error("Failed to save samples", "err", err)
+	}
 	s.store.Close()
 	s.snippets.Close()
 }
-- 
2.43.0


From 7089dfaeb9e66fe90aefd402986705dd09d44d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 14/40] fix: scans use all index shards on disk

Shards written before a restart are found, a shard is opened only once and
a sample matches only when it matches in every shard.
---
 internal/shards/shards.go | 137 ++++++++++++++++++++++++--------------
 1 file changed, 86 insertions(+), 51 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 1fa00f3..26e2cdf 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -72,22 +73,34 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
 func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-	for shard, db := range s.db {
-		tx, err := db.Begin(false)
+	ls, err := os.ReadDir(s.dir)
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return nil
+		}
+		return err
+	}
+	for _, e := range ls {
+		shard, err := strconv.ParseUint(e.Name(), 10, 64)
+		if err != nil {
+			continue
+		}
+		ok, err := s.exists(shard)
 		if err != nil {
 			return err
 		}
-		err = f(tx, shard)
+		if !ok {
+			continue
+		}
+		err = s.View(shard, func(tx *rbf.Tx) error {
+			return f(tx, shard)
+		})
 		if err != nil {
-			tx.Rollback()
 			if errors.Is(err, io.EOF) {
 				return nil
 			}
 			return err
 		}
-		tx.Rollback()
 	}
 	return nil
 }
@@ -105,58 +118,54 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
-	var tx *rbf.Tx
 	var fs []roaring.BitmapFilter
-	for k, f := range columns {
-		db, ok := s.db[k]
-		if !ok {
-			// Matches should be true for all filters.
+	for shard, f := range columns {
+		b := bitmaps.New()
+		fs = slices.Grow(fs, len(f))[:0]
+		for i := range f {
+			fs = append(fs, roaring.NewBitmapColumnFilter(f[i]))
+		}
+		err = s.match(shard, views, fs, b)
+		if err != nil {
+			b.Release()
 			if r != nil {
-				r.Clear()
+				r.Release()
 			}
-			return
+			return nil, err
 		}
-		tx, err = db.Begin(false)
-		if err != nil {
-			return
+		if r == nil {
+			// first column set
+			r = b
+		} else {
+			r.And(&b.Bitmap)
+			b.Release()
 		}
-		fs = slices.Grow(fs, len(f))[:0]
-		for i := range f {
-			fs = append(fs, roaring.NewBitmapColumnFilter(f[i]))
+		if r.IsEmpty() {
+			// Matches should be true for all filters. No need to keep searching
+			return
 		}
-		b := bitmaps.New()
+	}
+	return
+}
+
+// match adds rows of shard that match all filters to b.
+func (s *Shards) match(shard uint64, views []string, fs []roaring.BitmapFilter, b *bitmaps.Bitmap) error {
+	ok, err := s.exists(shard)
+	if err != nil || !ok {
+		return err
+	}
+	return s.View(shard, func(tx *rbf.Tx) error {
 		for _, view := range views {
-			err = tx.ApplyFilter(view, 0, roaring.NewBitmapRowFilter(func(u uint64) error {
+			err := tx.ApplyFilter(view, 0, roaring.NewBitmapRowFilter(func(u uint64) error {
 				b.Add(u)
 				return nil
 			}, fs...))
 			if err != nil {
-				tx.Rollback()
-				return
-			}
-		}
-		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
+				return err
 			}
 		}
-		b.Release()
-	}
-	return
+		return nil
+	})
 }
 
 func (s *Shards) Row(view string, rowID uint64) (*rows.Row, error) {
@@ -192,6 +201,28 @@ func row(tx *rbf.Tx, view string, shard, rowID uint64) (*rows.Row, error) {
 	return r, nil
 }
 
+func (s *Shards) path(shard uint64) string {
+	return filepath.Join(s.dir, strconv.FormatUint(shard, 10))
+}
+
+// exists returns true if there is a database for the shard.
+func (s *Shards) exists(shard uint64) (bool, error) {
+	s.mu.RLock()
+	_, ok := s.db[shard]
+	s.mu.RUnlock()
+	if ok {
+		return true, nil
+	}
+	_, err := os.Stat(filepath.Join(s.path(shard), "data"))
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return false, nil
+		}
+		return false, err
+	}
+	return true, nil
+}
+
 func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	s.mu.RLock()
 	r, ok := s.db[shard]
@@ -200,19 +231,23 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		return r, nil
 	}
 	s.mu.RUnlock()
-	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
+
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	r, ok = s.db[shard]
+	if ok {
+		return r, nil
+	}
 	config := s.config
 	config.Logger = slog.Default().With(
 		slog.Uint64("shard", shard),
 	)
-	r = rbf.NewDB(path, &config)
+	r = rbf.NewDB(s.path(shard), &config)
 	err := r.Open()
 	if err != nil {
-		return nil, err
+		return nil, errors.Join(err, r.Close())
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
-- 
2.43.0


From db7caae0d144283f8ad380114874e5cdc9d08b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 15/40] fix: index shards recover from failed operations

A shard whose transaction failed is opened again, which recovers the last
committed state, and an interrupted creation does not fail all later opens.
---
 internal/shards/shards.go | 111 +++++++++++++++++++++++++++++---------
 1 file changed, 85 insertions(+), 26 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 26e2cdf..273566d 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -23,27 +23,31 @@ import (
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
-	db     map[uint64]*rbf.DB
+	db     map[uint64]*handle
 	dir    string
 }
 
+type handle struct {
+	db *rbf.DB
+	// set when an operation on the database failed. The database can only be
+	// used again after it is closed and opened, which recovers the state of the
+	// last transaction that was committed.
+	failed bool
+}
+
 func New(path string, config *cfg.Config) *Shards {
 	if config == nil {
 		config = cfg.NewDefaultConfig()
 	}
 	return &Shards{
-		db:     make(map[uint64]*rbf.DB),
+		db:     make(map[uint64]*handle),
 		dir:    path,
 		config: *config,
 	}
 }
 
 func (s *Shards) View(shard uint64, f func(tx *rbf.Tx) error) error {
-	db, err := s.get(shard)
-	if err != nil {
-		return err
-	}
-	tx, err := db.Begin(false)
+	tx, err := s.begin(shard, false)
 	if err != nil {
 		return err
 	}
@@ -51,24 +55,43 @@ func (s *Shards) View(shard uint64, f func(tx *rbf.Tx) error) error {
 	return f(tx)
 }
 
-func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
-	db, err := s.get(shard)
-	if err != nil {
-		return err
-	}
-	tx, err := db.Begin(true)
+func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) (err error) {
+	tx, err := s.begin(shard, true)
 	if err != nil {
 		return err
 	}
-	defer tx.Rollback()
+	defer func() {
+		tx.Rollback()
+		if err != nil {
+			s.fail(shard)
+		}
+	}()
 	err = f(tx)
 	if err != nil {
-		tx.Rollback()
 		return err
 	}
 	return tx.Commit()
 }
 
+// begin starts a transaction. A database that does not accept transactions is
+// opened again once.
+func (s *Shards) begin(shard uint64, writable bool) (*rbf.Tx, error) {
+	db, err := s.get(shard)
+	if err != nil {
+		return nil, err
+	}
+	tx, err := db.Begin(writable)
+	if err == nil {
+		return tx, nil
+	}
+	s.fail(shard)
+	db, err = s.get(shard)
+	if err != nil {
+		return nil, err
+	}
+	return db.Begin(writable)
+}
+
 // AllShards iterate on all active shards and calling f with the database
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
@@ -225,30 +248,66 @@ func (s *Shards) exists(shard uint64) (bool, error) {
 
 func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	s.mu.RLock()
-	r, ok := s.db[shard]
-	if ok {
+	h, ok := s.db[shard]
+	if ok && !h.failed {
 		s.mu.RUnlock()
-		return r, nil
+		return h.db, nil
 	}
 	s.mu.RUnlock()
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	r, ok = s.db[shard]
+	h, ok = s.db[shard]
 	if ok {
-		return r, nil
+		if !h.failed {
+			return h.db, nil
+		}
+		// waits for current transactions
+		err := h.db.Close()
+		if err != nil {
+			return nil, err
+		}
+		delete(s.db, shard)
+	}
+	db, err := s.open(shard)
+	if err != nil {
+		return nil, err
+	}
+	s.db[shard] = &handle{db: db}
+	return db, nil
+}
+
+func (s *Shards) open(shard uint64) (*rbf.DB, error) {
+	path := s.path(shard)
+	// A new data file starts with three pages. There is nothing in a shorter one,
+	// creating it was interrupted.
+	data := filepath.Join(path, "data")
+	if fi, err := os.Stat(data); err == nil && fi.Size() < 3*rbf.PageSize {
+		err = os.Remove(data)
+		if err != nil {
+			return nil, err
+		}
 	}
 	config := s.config
 	config.Logger = slog.Default().With(
 		slog.Uint64("shard", shard),
 	)
-	r = rbf.NewDB(s.path(shard), &config)
-	err := r.Open()
+	db := rbf.NewDB(path, &config)
+	err := db.Open()
 	if err != nil {
-		return nil, errors.Join(err, r.Close())
+		return nil, errors.Join(err, db.Close())
+	}
+	return db, nil
+}
+
+// fail marks the database of the shard as failed, next transaction opens it
+// again.
+func (s *Shards) fail(shard uint64) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if h, ok := s.db[shard]; ok {
+		h.failed = true
 	}
-	s.db[shard] = r
-	return r, nil
 }
 
 func (s *Shards) Close() error {
@@ -256,7 +315,7 @@ func (s *Shards) Close() error {
 	defer s.mu.Unlock()
 	errs := make([]error, 0, len(s.db))
 	for _, r := range s.db {
-		errs = append(errs, r.Close())
+		errs = append(errs, r.db.Close())
 	}
 	return errors.Join(errs...)
 }
-- 
2.43.0


From e907773e12dd4c5204ca04ef24c52ab496c4f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 16/40] fix: scripts can filter by attributes

Attribute filters were applied to scope attributes, long attributes never
matched, key and value were not told apart, and attributes without a value
failed the script.
---
 internal/visit/visit.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..73a6fc7 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -1,6 +1,7 @@
 package visit
 
 import (
+	"encoding/binary"
 	"encoding/hex"
 	"sync"
 
@@ -115,7 +116,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
@@ -158,12 +159,13 @@ func (a *All) SetResourceAttr(k, v string) {
 	a.resource_attr.Add(attr(k, v))
 }
 
-var sep = []byte("=")
-
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
+	h.Reset()
+	var size [8]byte
+	binary.LittleEndian.PutUint64(size[:], uint64(len(k)))
+	h.Write(size[:])
 	h.WriteString(k)
-	h.Write(sep)
 	h.WriteString(v)
 	return h.Sum64()
 }
@@ -289,15 +291,10 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	}
 	b := bitmaps.New()
 	defer b.Release()
-	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
-			h.Reset()
-			h.WriteString(k.Key)
-			h.Write(sep)
-			h.WriteString(e.StringValue)
-			b.Add(h.Sum64())
+			b.Add(attr(k.Key, e.StringValue))
 		}
 	}
 	// For labels, we use And to make sure we only take data points that have all
-- 
2.43.0


From 5f103cb1c5a1458ff3d3116b8b16f0888ad23cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 17/40] fix: scripts can filter by span ids

The span id was compared with the filter for the id of the parent, and trace and
span id filters did not apply to log records.
---
 internal/visit/logs.go  | 2 ++
 internal/visit/trace.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From 53ba6a9f8d47211a79cbcfb7985bea5102066853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 18/40] fix: filtered results keep metadata of metrics and
 scopes

---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 40 +++++++++++++++++++++++++++++----------
 internal/visit/trace.go   |  3 ++-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..780f19d 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,11 +38,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -62,11 +66,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -89,11 +97,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -115,11 +127,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -141,11 +157,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From 07039b2769eb64b043fe5940ee8ea87764f50476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 19/40] fix: script time ranges can start before 1970

Such a range did not match any data point.
---
 internal/js/rq.go       | 16 +++++++++++++++-
 internal/visit/visit.go |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 42352a6..83fbc2f 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sync"
 	"time"
 
@@ -91,13 +92,26 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		defer vs.Release()
 
 		start, end := x.TimeBounds(x.UTC, a)
-		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
+		vs.SetTimeRange(unixNano(start), unixNano(end))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
 	}
 	return nil, errors.New("RQ.Scan is not implemented")
 }
 
+// unixNano returns ts as a timestamp of a data point. Time outside the range of
+// timestamps is moved to the nearest end of it.
+func unixNano(ts time.Time) uint64 {
+	switch {
+	case ts.Before(time.Unix(0, 0)):
+		return 0
+	case ts.After(time.Unix(0, math.MaxInt64)):
+		return math.MaxUint64
+	default:
+		return uint64(ts.UnixNano())
+	}
+}
+
 func (o *JS) Run(program *goja.Program) error {
 	_, err := o.Runtime.RunProgram(program)
 	return err
diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 73a6fc7..0ddc2e5 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -264,7 +264,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From 8e41822757e90129dae27c6f89869dbcf8269a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 20/40] fix: a crash does not skip a million sample numbers

Tables have a row for each number, saving the samples that follow took seconds
and gigabytes for each table.
---
 internal/seq/seq.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/seq/seq.go b/internal/seq/seq.go
index a1c1108..d2a3c1b 100644
--- a/internal/seq/seq.go
+++ b/internal/seq/seq.go
@@ -16,7 +16,9 @@ func New(db *badger.DB) (*Seq, error) {
 	seqKey := make([]byte, 8+4)
 	binary.LittleEndian.PutUint32(seqKey[8:], uint32(v1.RESOURCE_SAMPLE_ID))
 
-	sample, err := NewLease(db, seqKey, 1<<20)
+	// Numbers that are reserved but not used before a crash are skipped, all tables
+	// have blank rows for them.
+	sample, err := NewLease(db, seqKey, 1<<8)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a2abd2240447caad01a66351cba36283f6d83cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 21/40] fix: wait for requests in progress before closing the
 database

---
 cmd/rq/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 172dffc..1e69326 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -122,7 +122,11 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 	}
 	defer otelGRPC.Close()
 
-	oSvr := grpc.NewServer(grpc.StatsHandler(otelgrpc.NewServerHandler()))
+	oSvr := grpc.NewServer(
+		grpc.StatsHandler(otelgrpc.NewServerHandler()),
+		// Handlers use resources that are closed after the server stops.
+		grpc.WaitForHandlers(true),
+	)
 	defer oSvr.Stop()
 
 	v1.RegisterRQServer(oSvr, api)
-- 
2.43.0


From 4d9ec7a1ff3267785d8741ed52a8212bd6cd0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 22/40] fix: compressed streams can be used after they ended

Reading after an error or the end, writing after Close and closing twice
dereferenced a nil coder.
---
 internal/compress/grpc.go | 73 ++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..f016229 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -22,45 +22,84 @@ func (codec) Name() string {
 func (codec) Compress(w io.Writer) (io.WriteCloser, error) {
 	c := getEncoder()
 	c.Reset(w)
-	return &writeCodec{Encoder: c}, nil
+	return &writeCodec{encoder: c}, nil
 }
 
 func (codec) Decompress(r io.Reader) (io.Reader, error) {
 	c := getDecoder()
-	c.Reset(r)
-	return &readCodec{Decoder: c}, nil
+	err := c.Reset(r)
+	if err != nil {
+		putDecoder(c)
+		return nil, err
+	}
+	return &readCodec{decoder: c}, nil
 }
 
 type writeCodec struct {
-	*zstd.Encoder
+	// nil after the stream is closed
+	encoder *zstd.Encoder
+}
+
+func (w *writeCodec) Write(p []byte) (n int, err error) {
+	if w.encoder == nil {
+		return 0, io.ErrClosedPipe
+	}
+	return w.encoder.Write(p)
+}
+
+func (w *writeCodec) ReadFrom(r io.Reader) (n int64, err error) {
+	if w.encoder == nil {
+		return 0, io.ErrClosedPipe
+	}
+	return w.encoder.ReadFrom(r)
 }
 
 func (w *writeCodec) Close() (err error) {
-	err = w.Encoder.Close()
-	w.Reset(nil)
-	putEncoder(w.Encoder)
-	w.Encoder = nil
+	if w.encoder == nil {
+		return io.ErrClosedPipe
+	}
+	err = w.encoder.Close()
+	putEncoder(w.encoder)
+	w.encoder = nil
 	return
 }
 
 type readCodec struct {
-	*zstd.Decoder
+	// nil after the stream ended
+	decoder *zstd.Decoder
+	// how the stream ended
+	err error
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
-	n, err = r.Decoder.Read(p)
+	if r.decoder == nil {
+		return 0, r.err
+	}
+	n, err = r.decoder.Read(p)
 	if err != nil {
-		r.Reset(nil)
-		putDecoder(r.Decoder)
-		r.Decoder = nil
+		r.end(err)
 	}
 	return
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
-	n, err = r.Decoder.WriteTo(w)
-	r.Reset(nil)
-	putDecoder(r.Decoder)
-	r.Decoder = nil
+	if r.decoder == nil {
+		if r.err == io.EOF {
+			return 0, nil
+		}
+		return 0, r.err
+	}
+	n, err = r.decoder.WriteTo(w)
+	if err != nil {
+		r.end(err)
+	} else {
+		r.end(io.EOF)
+	}
 	return
 }
+
+func (r *readCodec) end(err error) {
+	putDecoder(r.decoder)
+	r.decoder = nil
+	r.err = err
+}
-- 
2.43.0


From 1dffbe7a2cfd841ad6200e12a3c22fa2b52707a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 23/40] fix: a cached script is complete or does not exist

---
 internal/commands/query/query.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..a46fbcf 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -86,7 +86,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = store(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -98,3 +98,20 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// store saves data in file key. The file is either complete or does not exist.
+func store(key string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(key), "tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	err = errors.Join(err, f.Sync(), f.Close())
+	if err == nil {
+		err = os.Rename(f.Name(), key)
+	}
+	if err != nil {
+		return errors.Join(err, os.Remove(f.Name()))
+	}
+	return nil
+}
-- 
2.43.0


From 3163a6708ff85af6067975f28ee88a294ac6b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 24/40] fix: a script runs even if it can not be cached

---
 internal/commands/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index a46fbcf..bf9218e 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -88,7 +88,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			}
 			err = store(key, cached)
 			if err != nil {
-				return nil, err
+				log.Warn("failed to cache compiled package", "key", key, "err", err)
 			}
 		} else {
 			return nil, err
-- 
2.43.0


From 91854c70bd56849996151c285eae27f40fe3ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 25/40] fix: a reader of a failed shard does not fail the one
 opened after it

---
 internal/shards/shards.go | 45 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 273566d..74b7b7b 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -47,7 +47,7 @@ func New(path string, config *cfg.Config) *Shards {
 }
 
 func (s *Shards) View(shard uint64, f func(tx *rbf.Tx) error) error {
-	tx, err := s.begin(shard, false)
+	tx, _, err := s.begin(shard, false)
 	if err != nil {
 		return err
 	}
@@ -56,14 +56,14 @@ func (s *Shards) View(shard uint64, f func(tx *rbf.Tx) error) error {
 }
 
 func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) (err error) {
-	tx, err := s.begin(shard, true)
+	tx, h, err := s.begin(shard, true)
 	if err != nil {
 		return err
 	}
 	defer func() {
 		tx.Rollback()
 		if err != nil {
-			s.fail(shard)
+			s.fail(h)
 		}
 	}()
 	err = f(tx)
@@ -75,21 +75,22 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) (err error) {
 
 // begin starts a transaction. A database that does not accept transactions is
 // opened again once.
-func (s *Shards) begin(shard uint64, writable bool) (*rbf.Tx, error) {
-	db, err := s.get(shard)
+func (s *Shards) begin(shard uint64, writable bool) (*rbf.Tx, *handle, error) {
+	h, err := s.get(shard)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	tx, err := db.Begin(writable)
+	tx, err := h.db.Begin(writable)
 	if err == nil {
-		return tx, nil
+		return tx, h, nil
 	}
-	s.fail(shard)
-	db, err = s.get(shard)
+	s.fail(h)
+	h, err = s.get(shard)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return db.Begin(writable)
+	tx, err = h.db.Begin(writable)
+	return tx, h, err
 }
 
 // AllShards iterate on all active shards and calling f with the database
@@ -246,12 +247,12 @@ func (s *Shards) exists(shard uint64) (bool, error) {
 	return true, nil
 }
 
-func (s *Shards) get(shard uint64) (*rbf.DB, error) {
+func (s *Shards) get(shard uint64) (*handle, error) {
 	s.mu.RLock()
 	h, ok := s.db[shard]
 	if ok && !h.failed {
 		s.mu.RUnlock()
-		return h.db, nil
+		return h, nil
 	}
 	s.mu.RUnlock()
 
@@ -260,7 +261,7 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	h, ok = s.db[shard]
 	if ok {
 		if !h.failed {
-			return h.db, nil
+			return h, nil
 		}
 		// waits for current transactions
 		err := h.db.Close()
@@ -273,8 +274,9 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	s.db[shard] = &handle{db: db}
-	return db, nil
+	h = &handle{db: db}
+	s.db[shard] = h
+	return h, nil
 }
 
 func (s *Shards) open(shard uint64) (*rbf.DB, error) {
@@ -300,14 +302,11 @@ func (s *Shards) open(shard uint64) (*rbf.DB, error) {
 	return db, nil
 }
 
-// fail marks the database of the shard as failed, next transaction opens it
-// again.
-func (s *Shards) fail(shard uint64) {
+// fail marks the database as failed, next transaction opens it again.
+func (s *Shards) fail(h *handle) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	if h, ok := s.db[shard]; ok {
-		h.failed = true
-	}
+	h.failed = true
 }
 
 func (s *Shards) Close() error {
-- 
2.43.0


From fd742191d5fa81aa94370771ffed2dc9f5bc2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 26/40] fix: two labels whose hashes collide do not share a
 number

---
 internal/store/store.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/store/store.go b/internal/store/store.go
index 42740b6..5dc5b30 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
@@ -55,15 +54,14 @@ func NewStore(db *badger.DB, rdb *shards.Shards, tr *translate.Translate, seq *s
 }
 
 func (s *Storage) Translate(key []byte) (uint64, error) {
-	h := xxhash.Sum64(key)
-	if v, ok := s.columnsCache.Get(h); ok {
+	if v, ok := s.columnsCache.Get(key); ok {
 		return v.(uint64), nil
 	}
 	v, err := s.translate.TranslateKey(key)
 	if err != nil {
 		return 0, err
 	}
-	s.columnsCache.Set(h, v, 8)
+	s.columnsCache.Set(key, v, 8)
 	return v, nil
 }
 
-- 
2.43.0


From 1fc74dd42a5d87ab6707f4faa130d41f9a1b43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 27/40] fix: resources, scopes and metrics whose hashes collide
 are not merged

---
 internal/data/sort.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index e165a4c..64ff930 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -2,10 +2,10 @@ package data
 
 import (
 	"encoding/binary"
+	"hash/maphash"
 	"slices"
 	"sort"
 
-	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
 	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
@@ -13,7 +13,7 @@ import (
 )
 
 type Sorter[T any, R any, S any] struct {
-	h        xxhash.Digest
+	h        maphash.Hash
 	resource map[uint64]R
 	scope    map[uint64]S
 	metrics  map[uint64]T
-- 
2.43.0


From 6d22912bbe9c157b2e1af57fb6ac23f1b6dfda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 28/40] fix: a query does not select values whose hash collides
 with a filter's

---
 internal/visit/visit.go | 45 ++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 0ddc2e5..81f7e46 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -3,16 +3,19 @@ package visit
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"hash/maphash"
 	"sync"
 
 	"github.com/RoaringBitmap/roaring/roaring64"
-	"github.com/cespare/xxhash/v2"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
 	resourceV1 "go.opentelemetry.io/proto/otlp/resource/v1"
 )
 
+// seed makes it impossible to choose values with the same hash.
+var seed = maphash.MakeSeed()
+
 type BaseResource interface {
 	GetSchemaUrl() string
 	GetResource() *resourceV1.Resource
@@ -152,7 +155,7 @@ func (a *All) Release() {
 }
 
 func (a *All) SetResourceSchema(schema string) {
-	a.resource_schema.Add(xxhash.Sum64String(schema))
+	a.resource_schema.Add(maphash.String(seed, schema))
 }
 
 func (a *All) SetResourceAttr(k, v string) {
@@ -160,8 +163,8 @@ func (a *All) SetResourceAttr(k, v string) {
 }
 
 func attr(k, v string) uint64 {
-	var h xxhash.Digest
-	h.Reset()
+	var h maphash.Hash
+	h.SetSeed(seed)
 	var size [8]byte
 	binary.LittleEndian.PutUint64(size[:], uint64(len(k)))
 	h.Write(size[:])
@@ -171,14 +174,14 @@ func attr(k, v string) uint64 {
 }
 
 func (a *All) SetScopeSchema(schema string) {
-	a.scope_schema.Add(xxhash.Sum64String(schema))
+	a.scope_schema.Add(maphash.String(seed, schema))
 }
 func (a *All) SetScopeName(name string) {
-	a.scope_name.Add(xxhash.Sum64String(name))
+	a.scope_name.Add(maphash.String(seed, name))
 }
 
 func (a *All) SetScopVersion(version string) {
-	a.scope_version.Add(xxhash.Sum64String(version))
+	a.scope_version.Add(maphash.String(seed, version))
 }
 
 func (a *All) SetScopeAttr(k, v string) {
@@ -190,7 +193,7 @@ func (a *All) SetAttr(k, v string) {
 }
 
 func (a *All) SetName(name string) {
-	a.name.Add(xxhash.Sum64String(name))
+	a.name.Add(maphash.String(seed, name))
 }
 
 func (a *All) SetTraceID(id string) error {
@@ -198,7 +201,7 @@ func (a *All) SetTraceID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.trace_id.Add(xxhash.Sum64(h))
+	a.trace_id.Add(maphash.Bytes(seed, h))
 	return nil
 }
 
@@ -207,7 +210,7 @@ func (a *All) SetSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.span_id.Add(xxhash.Sum64(h))
+	a.span_id.Add(maphash.Bytes(seed, h))
 	return nil
 }
 
@@ -216,12 +219,12 @@ func (a *All) SetParentSpanID(id string) error {
 	if err != nil {
 		return err
 	}
-	a.parent_span_id.Add(xxhash.Sum64(h))
+	a.parent_span_id.Add(maphash.Bytes(seed, h))
 	return nil
 }
 
 func (a *All) SetLogLevel(lvl string) {
-	a.log_level.Add(xxhash.Sum64String(lvl))
+	a.log_level.Add(maphash.String(seed, lvl))
 }
 
 func (a *All) SetTimeRange(start, end uint64) {
@@ -232,7 +235,7 @@ func (a *All) AcceptResourceSchema(schema string) bool {
 	if a.resource_schema.IsEmpty() {
 		return true
 	}
-	return a.resource_schema.Contains(xxhash.Sum64String(schema))
+	return a.resource_schema.Contains(maphash.String(seed, schema))
 }
 
 func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
@@ -240,15 +243,15 @@ func (a *All) AcceptResourceAttributes(kv []*commonV1.KeyValue) bool {
 }
 func (a *All) AcceptScopeSchema(schema string) bool {
 	return a.scope_schema.IsEmpty() ||
-		a.scope_schema.Contains(xxhash.Sum64String(schema))
+		a.scope_schema.Contains(maphash.String(seed, schema))
 }
 func (a *All) AcceptScopeName(name string) bool {
 	return a.scope_name.IsEmpty() ||
-		a.scope_name.Contains(xxhash.Sum64String(name))
+		a.scope_name.Contains(maphash.String(seed, name))
 }
 func (a *All) AcceptScopeVersion(version string) bool {
 	return a.scope_version.IsEmpty() ||
-		a.scope_version.Contains(xxhash.Sum64String(version))
+		a.scope_version.Contains(maphash.String(seed, version))
 }
 func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 	return matchAttr(&a.scope_attr, attr)
@@ -256,7 +259,7 @@ func (a *All) AcceptScopeAttributes(attr []*commonV1.KeyValue) bool {
 
 func (a *All) AcceptName(name string) bool {
 	return a.name.IsEmpty() ||
-		a.name.Contains(xxhash.Sum64String(name))
+		a.name.Contains(maphash.String(seed, name))
 }
 
 func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
@@ -269,16 +272,16 @@ func (a *All) TimeRange() (start, end uint64) {
 
 func (a *All) AcceptLogLevel(lvl string) bool {
 	return a.log_level.IsEmpty() ||
-		a.log_level.Contains(xxhash.Sum64String(lvl))
+		a.log_level.Contains(maphash.String(seed, lvl))
 }
 func (a *All) AcceptTraceID(id []byte) bool {
-	return a.trace_id.IsEmpty() || a.trace_id.Contains(xxhash.Sum64(id))
+	return a.trace_id.IsEmpty() || a.trace_id.Contains(maphash.Bytes(seed, id))
 }
 func (a *All) AcceptSpanID(id []byte) bool {
-	return a.span_id.IsEmpty() || a.span_id.Contains(xxhash.Sum64(id))
+	return a.span_id.IsEmpty() || a.span_id.Contains(maphash.Bytes(seed, id))
 }
 func (a *All) AcceptParentSpanID(id []byte) bool {
-	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(xxhash.Sum64(id))
+	return a.parent_span_id.IsEmpty() || a.parent_span_id.Contains(maphash.Bytes(seed, id))
 }
 
 func (a *All) AcceptTimestamp(ts uint64) bool {
-- 
2.43.0


From 381230d353e5eb175bb7dbc0b3c2c08d0251d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 29/40] fix: scripts whose hashes collide do not share a cache
 entry

---
 internal/commands/query/query.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index bf9218e..b547aa2 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"log/slog"
@@ -9,7 +10,6 @@ import (
 	"path/filepath"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dop251/goja"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/commands"
@@ -76,8 +76,8 @@ func run(ctx context.Context, cmd *cli.Command) error {
 }
 
 func build(log *slog.Logger, data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
-	key := filepath.Join(commands.Cache(), fmt.Sprint(hash))
+	hash := sha256.Sum256(data)
+	key := filepath.Join(commands.Cache(), fmt.Sprintf("%x", hash))
 	cached, err := os.ReadFile(key)
 	if err != nil {
 		if os.IsNotExist(err) {
-- 
2.43.0


From b43de8df186b114c00ee12c57b9e255d04c704ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 30/40] fix: rendering an attribute without a value does not
 panic

---
 internal/render/attribute.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/render/attribute.go b/internal/render/attribute.go
index 8a64086..fd07060 100644
--- a/internal/render/attribute.go
+++ b/internal/render/attribute.go
@@ -18,7 +18,7 @@ func attr(kv []*v1.KeyValue) string {
 }
 
 func value(b *bytes.Buffer, v *v1.AnyValue) {
-	switch e := v.Value.(type) {
+	switch e := v.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		fmt.Fprintf(b, "%q", e.StringValue)
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From a1e356ad6685dab2fbfffcc313598fd9077a0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 31/40] fix: a script learns that its output could not be
 written

---
 internal/js/rq.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 83fbc2f..802d899 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -142,15 +142,18 @@ func (o *JS) RenderMetricsDataJSON(data *metricsv1.MetricsData, opts render.JSON
 	return err
 }
 
-func (o *JS) RenderMetricsData(data *metricsv1.MetricsData, opts render.MetricsFormatOption) {
+func (o *JS) RenderMetricsData(data *metricsv1.MetricsData, opts render.MetricsFormatOption) error {
 	b := render.MetricsData(data, opts)
-	o.Output.Write([]byte(b))
+	_, err := o.Output.Write([]byte(b))
+	return err
 }
 
-func (o *JS) Print(args ...any) {
-	fmt.Fprint(o.Output, args...)
+func (o *JS) Print(args ...any) error {
+	_, err := fmt.Fprint(o.Output, args...)
+	return err
 }
 
-func (o *JS) PrintLn(args ...any) {
-	fmt.Fprintln(o.Output, args...)
+func (o *JS) PrintLn(args ...any) error {
+	_, err := fmt.Fprintln(o.Output, args...)
+	return err
 }
-- 
2.43.0


From 7bdf28c334c9597209ab581f69f480a2448c1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 32/40] fix: negative sizes are rendered as such

---
 internal/render/unit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/render/unit.go b/internal/render/unit.go
index a0b1b7c..d3e75d2 100644
--- a/internal/render/unit.go
+++ b/internal/render/unit.go
@@ -20,6 +20,9 @@ func formatUnit(value float64, unit string) string {
 	case "ns":
 		return time.Duration(value * float64(time.Nanosecond)).String()
 	case "By":
+		if value < 0 {
+			return "-" + humanize.IBytes(uint64(-value))
+		}
 		return humanize.IBytes(uint64(value))
 	default:
 		return fmt.Sprint(value)
-- 
2.43.0


From 6a6495bed8436e18298b21ca50ca089683bbb337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 33/40] fix: a stopping server stores the telemetry it still
 holds

---
 cmd/rq/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 1e69326..5977ea6 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -139,7 +139,8 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 		return err
 	}
 
-	defer providers.Shutdown(ctx)
+	// ctx is done by the time this runs.
+	defer providers.Shutdown(context.WithoutCancel(ctx))
 	store.MonitorSize(ctx, db)
 
 	api.Start(ctx)
-- 
2.43.0


From 652eb0333348cf7319095646250f881f645496be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 34/40] fix: links of the server's spans keep their trace state

---
 internal/self/trace/tracetransform/span.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index ce69cfa..91ce823 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -149,6 +149,7 @@ func links(links []tracesdk.Link) []*tracepb.Span_Link {
 		sl = append(sl, &tracepb.Span_Link{
 			TraceId:                tid[:],
 			SpanId:                 sid[:],
+			TraceState:             otLink.SpanContext.TraceState().String(),
 			Attributes:             KeyValues(otLink.Attributes),
 			DroppedAttributesCount: uint32(otLink.DroppedAttributeCount),
 		})
-- 
2.43.0


From 6ba8eeb50c6bfbc323f2f3134586a050cecbd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:36 +0000
Subject: [PATCH 35/40] fix: relative time ranges of scripts ignored now and
 offset

---
 internal/js/scan.go | 50 ++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/internal/js/scan.go b/internal/js/scan.go
index b3f90a1..ff0e4b4 100644
--- a/internal/js/scan.go
+++ b/internal/js/scan.go
@@ -12,9 +12,15 @@ import (
 type Scan struct {
 	o    *JS
 	scan *v1.Scan
+	// computes start of a time range relative to its end
+	since func(end time.Time) time.Time
 }
 
 func (s *Scan) Scan() *v1.Scan {
+	if s.since != nil {
+		ts := s.ts()
+		s.rangeTS(s.since(ts), ts)
+	}
 	return s.scan
 }
 
@@ -109,46 +115,44 @@ func (s *Scan) Attr(key, value string) {
 }
 
 func (s *Scan) TimeRange(from, to int64) {
+	s.since = nil
 	s.rangeTS(
 		time.UnixMilli(from).UTC(), time.UnixMilli(to).UTC(),
 	)
 }
 
 func (s *Scan) Today() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfDay(), ts,
-	)
+	s.since = func(end time.Time) time.Time {
+		return now.With(end).BeginningOfDay()
+	}
 }
 
 func (s *Scan) ThisWeek() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfWeek(), ts,
-	)
+	s.since = func(end time.Time) time.Time {
+		return now.With(end).BeginningOfWeek()
+	}
 }
 
 func (s *Scan) ThisMonth() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfMonth(), ts,
-	)
+	s.since = func(end time.Time) time.Time {
+		return now.With(end).BeginningOfMonth()
+	}
 }
 
 func (s *Scan) ThisYear() {
-	ts := s.ts()
-	s.rangeTS(
-		now.With(ts).BeginningOfYear(), ts,
-	)
+	s.since = func(end time.Time) time.Time {
+		return now.With(end).BeginningOfYear()
+	}
 }
 
 func (s *Scan) Ago(duration string) error {
-	ts := s.ts()
 	d, err := time.ParseDuration(duration)
 	if err != nil {
 		return err
 	}
-	s.rangeTS(ts.Add(-d), ts)
+	s.since = func(end time.Time) time.Time {
+		return end.Add(-d)
+	}
 	return nil
 }
 
@@ -159,8 +163,16 @@ func (s *Scan) rangeTS(from, to time.Time) {
 	}
 }
 
+// ts returns scan evaluation time, the end of a relative time range.
 func (s *Scan) ts() time.Time {
-	return s.o.GetNow()
+	ts := s.o.GetNow()
+	if s.scan.Now != nil {
+		ts = s.scan.Now.AsTime().In(ts.Location())
+	}
+	if s.scan.Offset != nil {
+		ts = ts.Add(-s.scan.Offset.AsDuration())
+	}
+	return ts
 }
 
 func (s *Scan) base(prop v1.Scan_BaseProp, value string) {
-- 
2.43.0


From e5e3eb256104af9a9f53df80911dd88582e7ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:36 +0000
Subject: [PATCH 36/40] fix: cached scripts outlived the client library they
 include

---
 internal/commands/query/query.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index b547aa2..f7a7965 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -8,6 +8,7 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
+	"slices"
 	"time"
 
 	"github.com/dop251/goja"
@@ -15,6 +16,7 @@ import (
 	"github.com/gernest/requiemdb/internal/commands"
 	"github.com/gernest/requiemdb/internal/compile"
 	"github.com/gernest/requiemdb/internal/js"
+	"github.com/gernest/requiemdb/internal/js/bundle"
 	"github.com/gernest/requiemdb/internal/logger"
 	"github.com/urfave/cli/v3"
 )
@@ -76,8 +78,19 @@ func run(ctx context.Context, cmd *cli.Command) error {
 }
 
 func build(log *slog.Logger, data []byte) (*goja.Program, error) {
-	hash := sha256.Sum256(data)
-	key := filepath.Join(commands.Cache(), fmt.Sprintf("%x", hash))
+	// compiled package includes the client library, which may change with a new
+	// version of rq
+	hash := sha256.New()
+	names := make([]string, 0, len(bundle.PKG))
+	for name := range bundle.PKG {
+		names = append(names, name)
+	}
+	slices.Sort(names)
+	for _, name := range names {
+		fmt.Fprintf(hash, "%q %x\n", name, sha256.Sum256(bundle.PKG[name]))
+	}
+	hash.Write(data)
+	key := filepath.Join(commands.Cache(), fmt.Sprintf("%x", hash.Sum(nil)))
 	cached, err := os.ReadFile(key)
 	if err != nil {
 		if os.IsNotExist(err) {
-- 
2.43.0


From 9714642832a5bb3b1a5da0a5c7059a11b366bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:29 +0000
Subject: [PATCH 37/40] fix: a loss of power took flushed samples the index
 refers to

---
 cmd/rq/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 5977ea6..45e7642 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -78,7 +78,9 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 		WithLogger(Logger{}).
 		WithCompression(
 			options.ZSTD,
-		)
+		).
+		// The index is synced by every commit, what it refers to must be as well.
+		WithSyncWrites(true)
 	o = setupLogging(cmd, o)
 	slog.Info("Setup  database", "path", dbPath)
 	db, err := badger.Open(o)
-- 
2.43.0


From 9f4d56ba415a2cc9faf926f0f8e3a460068ac89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:29 +0000
Subject: [PATCH 38/40] fix: a shard whose data file was lost with the power
 hid its log

---
 internal/shards/shards.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 74b7b7b..029c659 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -282,10 +282,11 @@ func (s *Shards) get(shard uint64) (*handle, error) {
 func (s *Shards) open(shard uint64) (*rbf.DB, error) {
 	path := s.path(shard)
 	// A new data file starts with three pages. There is nothing in a shorter one,
-	// creating it was interrupted.
+	// creating it was interrupted or did not get to the disk. The file stays, there
+	// may be a log.
 	data := filepath.Join(path, "data")
 	if fi, err := os.Stat(data); err == nil && fi.Size() < 3*rbf.PageSize {
-		err = os.Remove(data)
+		err = os.Truncate(data, 0)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8f616918fc4d0cb01beaebfd23ff5bc72b9a9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:55 +0000
Subject: [PATCH 39/40] fix: large values are rendered as they are

---
 internal/render/metrics.go | 10 ++++----
 internal/render/unit.go    | 51 ++++++++++++++++++++++++++++++--------
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/internal/render/metrics.go b/internal/render/metrics.go
index a30182e..1057c4e 100644
--- a/internal/render/metrics.go
+++ b/internal/render/metrics.go
@@ -113,7 +113,7 @@ func numeric(points []*v1.NumberDataPoint, unit string) string {
 	for _, d := range points {
 		fmt.Fprintf(w, "%s \t%s \t%s \t\n",
 			formatTime(d.TimeUnixNano),
-			formatUnit(numericDataValue(d), unit),
+			formatValue(d, unit),
 			attr(d.Attributes))
 	}
 	w.Flush()
@@ -121,14 +121,14 @@ func numeric(points []*v1.NumberDataPoint, unit string) string {
 }
 
 func formatTime(ns uint64) string {
-	return time.Unix(0, int64(ns)).UTC().Format(time.DateTime)
+	return time.Unix(int64(ns/1e9), int64(ns%1e9)).UTC().Format(time.DateTime)
 }
 
-func numericDataValue(d *v1.NumberDataPoint) float64 {
+func formatValue(d *v1.NumberDataPoint, unit string) string {
 	switch e := d.Value.(type) {
 	case *v1.NumberDataPoint_AsInt:
-		return float64(e.AsInt)
+		return formatIntUnit(e.AsInt, unit)
 	default:
-		return d.GetAsDouble()
+		return formatUnit(d.GetAsDouble(), unit)
 	}
 }
diff --git a/internal/render/unit.go b/internal/render/unit.go
index d3e75d2..4564eaa 100644
--- a/internal/render/unit.go
+++ b/internal/render/unit.go
@@ -2,24 +2,35 @@ package render
 
 import (
 	"fmt"
+	"math"
+	"strconv"
 	"time"
 
 	"github.com/dustin/go-humanize"
 )
 
+var timeUnits = map[string]time.Duration{
+	"h":  time.Hour,
+	"m":  time.Minute,
+	"s":  time.Second,
+	"ms": time.Millisecond,
+	"ns": time.Nanosecond,
+}
+
 func formatUnit(value float64, unit string) string {
+	if u, ok := timeUnits[unit]; ok {
+		ns := value * float64(u)
+		if !(math.Abs(ns) < math.MaxInt64) {
+			// not a duration
+			return fmt.Sprint(value) + unit
+		}
+		return time.Duration(ns).String()
+	}
 	switch unit {
-	case "h":
-		return time.Duration(value * float64(time.Hour)).String()
-	case "m":
-		return time.Duration(value * float64(time.Minute)).String()
-	case "s":
-		return time.Duration(value * float64(time.Second)).String()
-	case "ms":
-		return time.Duration(value * float64(time.Millisecond)).String()
-	case "ns":
-		return time.Duration(value * float64(time.Nanosecond)).String()
 	case "By":
+		if !(math.Abs(value) < math.MaxUint64) {
+			return fmt.Sprint(value) + unit
+		}
 		if value < 0 {
 			return "-" + humanize.IBytes(uint64(-value))
 		}
@@ -28,3 +39,23 @@ func formatUnit(value float64, unit string) string {
 		return fmt.Sprint(value)
 	}
 }
+
+// formatIntUnit is like formatUnit for integers, which floating point numbers can
+// not represent exactly.
+func formatIntUnit(value int64, unit string) string {
+	if u, ok := timeUnits[unit]; ok {
+		if value > math.MaxInt64/int64(u) || value < -(math.MaxInt64/int64(u)) {
+			return strconv.FormatInt(value, 10) + unit
+		}
+		return (time.Duration(value) * u).String()
+	}
+	switch unit {
+	case "By":
+		if value < 0 {
+			return "-" + humanize.IBytes(-uint64(value))
+		}
+		return humanize.IBytes(uint64(value))
+	default:
+		return strconv.FormatInt(value, 10)
+	}
+}
-- 
2.43.0


From e38c7d7b6e8a1279ddcf73acbef0f03afe5dd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:06 +0000
Subject: [PATCH 40/40] fix: a shard was opened although its data file could
 not be examined

---
 internal/shards/shards.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 029c659..b2e6bb1 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -285,18 +285,19 @@ func (s *Shards) open(shard uint64) (*rbf.DB, error) {
 	// creating it was interrupted or did not get to the disk. The file stays, there
 	// may be a log.
 	data := filepath.Join(path, "data")
-	if fi, err := os.Stat(data); err == nil && fi.Size() < 3*rbf.PageSize {
+	fi, err := os.Stat(data)
+	if err == nil && fi.Size() < 3*rbf.PageSize {
 		err = os.Truncate(data, 0)
-		if err != nil {
-			return nil, err
-		}
+	}
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return nil, err
 	}
 	config := s.config
 	config.Logger = slog.Default().With(
 		slog.Uint64("shard", shard),
 	)
 	db := rbf.NewDB(path, &config)
-	err := db.Open()
+	err = db.Open()
 	if err != nil {
 		return nil, errors.Join(err, db.Close())
 	}
-- 
2.43.0

