package main

import (
	"context"
	"path/filepath"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"
	"github.com/dgraph-io/badger/v4/y"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/service"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/translate"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
)

// warmStorage runs the storage stack once outside any simulation. Whatever goes wrong here is
// left for the simulation to find.
func warmStorage(ctx context.Context, dir string) {
	defer func() { recover() }()
	if b, err := y.ZSTDCompress(nil, []byte("abcabcabcabcabcabcabc"), 1); err == nil {
		y.ZSTDDecompress(nil, b)
	}
	db, err := badger.Open(badger.DefaultOptions(filepath.Join(dir, "db")).WithLogger(nil).WithCompression(options.ZSTD).WithMemTableSize(8 << 20))
	if err != nil {
		return
	}
	defer db.Close()
	tr, err := translate.New(db, []byte("warm"))
	if err != nil {
		return
	}
	defer tr.Close()
	idx := shards.New(filepath.Join(dir, "index"), nil)
	defer idx.Close()
	sq, err := seq.New(db)
	if err != nil {
		return
	}
	defer sq.Release()
	api, err := service.NewService(ctx, db, tr, sq, idx, time.Now, "", time.Hour)
	if err != nil {
		return
	}
	defer api.Close()
	api.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: []*metricsv1.ResourceMetrics{{ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{
		{Name: "warm", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: uint64(time.Now().UnixNano())}}}}}}}}}}})
	api.ScanSamples(ctx, &v1.Scan{Scope: v1.Scan_METRICS})
}
