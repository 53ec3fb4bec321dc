package main

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"
)

// deps writes patched copies of the storage dependencies. Only seams are added: yields, fault
// points, chunked writes, smaller size parameters and deterministic pools; no logic changes.
func deps() map[string]string {
	reps := map[string]string{}
	copyMod := func(path, ver string, files map[string][]edit, repl func(rel, src string) string) {
		src := filepath.Join(*modcache, path+"@"+ver)
		dst := filepath.Join(*out, "deps", filepath.Base(strings.TrimSuffix(path, "/v4")))
		seen := map[string]bool{}
		must(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(src, p)
			if d.IsDir() {
				if strings.HasPrefix(filepath.Base(p), "testdata") || strings.HasPrefix(filepath.Base(p), ".") && rel != "." {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".s") || filepath.Base(p) == "go.mod" || strings.HasSuffix(p, ".h")) {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s := string(b)
			if es, ok := files[rel]; ok {
				s = patch(path+"/"+rel, s, es)
				seen[rel] = true
			}
			if repl != nil {
				s = repl(rel, s)
			}
			write(filepath.Join(dst, rel), []byte(s))
			return nil
		}))
		for k := range files {
			if !seen[k] {
				must(os.ErrNotExist)
			}
		}
		reps[path] = dst
	}

	// arrow3: page codec only (the zstd page codec builds encoders per column chunk, ~370 ms a flush).
	copyMod("github.com/gernest/arrow3", "v0.0.3", map[string][]edit{}, func(rel, s string) string {
		if rel == "node.go" {
			return patch(rel, s, []edit{{"compress.Codecs.Zstd", "compress.Codecs.Snappy"}})
		}
		return s
	})

	imp := func(s string) string { // add the rt import to a file
		i := strings.Index(s, "\nimport (")
		if i < 0 {
			panic("no import block")
		}
		return s[:i] + "\nimport (\n\tzzrt \"zzsim/rt\"\n" + s[i+len("\nimport ("):]
	}
	copyMod("github.com/dgraph-io/badger/v4", "v4.2.0", map[string][]edit{
		"db.go": {
			{"func Open(opt Options) (*DB, error) {\n", `func Open(opt Options) (*DB, error) {
	if !zzrt.Active() {
		return zzOpen(opt)
	}
	zzrt.Y(zzrt.SiteBadgerOpen)
	if v := zzrt.Cfg().BadgerMemTable; v > 0 {
		opt.MemTableSize = v
		opt.ValueLogFileSize = 2 * v
		opt.ValueThreshold = zzrt.Cfg().BadgerValueThreshold
		opt.BlockCacheSize = 1 << 20
		opt.NumCompactors = 0
		opt.NumLevelZeroTablesStall = 10000
		opt.NumLevelZeroTables = 5000
	}
	inc := zzrt.CurInc()
	un := zzrt.Untag()
	db, err := zzOpen(opt)
	un()
	if err == nil {
		inc.AddCloser("badger", db, func() error { return db.Close() }, db.IsClosed)
	}
	return db, err
}

func zzOpen(opt Options) (*DB, error) {
`},
			{"func (db *DB) Close() error {\n", `func (db *DB) Close() error {
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteBadgerClose)
		defer zzrt.Untag()()
	}
`},
			{"func (db *DB) Size() (lsm, vlog int64) {\n", "func (db *DB) Size() (lsm, vlog int64) {\n	if zzrt.Active() {\n		defer func() { zzrt.NoteSize(lsm, vlog) }()\n	}\n"},
			{"type Sequence struct {\n	lock      sync.Mutex\n", "type Sequence struct {\n	lock      simsync.Mutex\n"},
			{"			seq.next = 0\n		case err != nil:", "			seq.next = zzrt.SeqStart(seq.key)\n		case err != nil:"},
			{"	case bandwidth == 0:\n		return nil, ErrZeroBandwidth\n	}\n", "	case bandwidth == 0:\n		return nil, ErrZeroBandwidth\n	}\n	bandwidth = zzrt.SeqLease(key, bandwidth)\n"},
		},
		"txn.go": {
			{"func (txn *Txn) Get(key []byte) (item *Item, rerr error) {\n", `func (txn *Txn) Get(key []byte) (item *Item, rerr error) {
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteBadgerGet)
		if zzrt.Fault("badger.get") {
			return nil, zzrt.EIO("read badger")
		}
	}
`},
			{"func (txn *Txn) Commit() error {\n", `func (txn *Txn) Commit() error {
	if !zzrt.Active() || len(txn.pendingWrites) == 0 {
		return txn.zzCommit()
	}
	zzrt.Y(zzrt.SiteBadgerCommit)
	switch zzrt.FaultN("badger.commit", 3) {
	case 1:
		return zzrt.EIO("write badger")
	case 2:
		return zzrt.ENOSPC("write badger")
	case 3:
		// applied, but the caller is told it failed
		if err := txn.zzCommit(); err != nil {
			return err
		}
		zzrt.Y(zzrt.SiteBadgerCommitted)
		return zzrt.EIO("sync badger")
	}
	err := txn.zzCommit()
	zzrt.Y(zzrt.SiteBadgerCommitted)
	return err
}

func (txn *Txn) zzCommit() error {
`},
		},
		"iterator.go": {
			{"	buf, cb, err := item.yieldItemValue()\n	defer runCallback(cb)\n	if err != nil {\n		return err\n	}\n	if fn != nil {\n		return fn(buf)\n	}\n	return nil\n", `	if zzrt.Active() && zzrt.Fault("badger.value") {
		return zzrt.EIO("read badger value")
	}
	buf, cb, err := item.yieldItemValue()
	defer runCallback(cb)
	if err != nil {
		return err
	}
	if fn != nil {
		if zzrt.Active() {
			// The value is only valid inside fn: hand out a copy and poison it afterwards.
			c := append([]byte(nil), buf...)
			err := fn(c)
			for i := range c {
				c[i] = 0xdb
			}
			return err
		}
		return fn(buf)
	}
	return nil
`},
		},
		"manifest.go": {
			{"var syncFunc = func(f *os.File) error { return f.Sync() }", "var syncFunc = func(f *os.File) error { defer zzrt.Synced(f); return f.Sync() }"},
			{"	if err := fp.Sync(); err != nil {\n", "	zzrt.Synced(fp)\n	if err := fp.Sync(); err != nil {\n"},
		},
		"table/table.go": {
			{"	if err := z.Msync(mf.Data); err != nil {\n", "	zzrt.Synced(mf.Fd)\n	if err := z.Msync(mf.Data); err != nil {\n"},
		},
	}, func(rel, s string) string {
		switch rel {
		case "db.go":
			s = imp(s)
			return strings.Replace(s, "\nimport (", "\nimport (\n\tsimsync \"zzsim/simsync\"", 1)
		case "txn.go", "iterator.go", "manifest.go", "table/table.go":
			return imp(s)
		case "go.mod":
			return s + "\nrequire zzsim v0.0.0\n"
		}
		return s
	})

	// the mapped files of badger: what is on disk after a sync
	copyMod("github.com/dgraph-io/ristretto", "v0.1.1", map[string][]edit{
		"z/file.go": {
			{"	return Msync(m.Data)\n", "	zzrt.Synced(m.Fd)\n	return Msync(m.Data)\n"},
		},
	}, func(rel, s string) string {
		switch rel {
		case "z/file.go":
			return imp(s)
		case "go.mod":
			return s + "\nrequire zzsim v0.0.0\n"
		}
		return s
	})

	// grpc: hooks that let the harness call registered handlers the way the server's transports do.
	copyMod("google.golang.org/grpc", "v1.63.2", map[string][]edit{
		"server.go": {
			{"func (s *Server) RegisterService(sd *ServiceDesc, ss any) {\n", "// Simulator hooks.\nvar (\n	ZZRegister = func(name string, impl any) {}\n	ZZServe    = func() {}\n	ZZQuit     = func(graceful bool) {}\n	ZZWait     = func() {}\n)\n\nfunc (s *Server) RegisterService(sd *ServiceDesc, ss any) {\n	ZZRegister(sd.ServiceName, ss)\n"},
			{"	s.serveWG.Add(1)\n	defer func() {\n		s.serveWG.Done()\n		if s.quit.HasFired() {\n			// Stop or", "	ZZServe()\n	s.serveWG.Add(1)\n	defer func() {\n		s.serveWG.Done()\n		if s.quit.HasFired() {\n			// Stop or"},
			{"	s.quit.Fire()\n	defer s.done.Fire()\n\n	s.channelzRemoveOnce", "	s.quit.Fire()\n	defer s.done.Fire()\n	ZZQuit(graceful)\n\n	s.channelzRemoveOnce"},
			{"		s.handlersWG.Wait()\n	}\n\n	if s.events", "		s.handlersWG.Wait()\n		ZZWait()\n	}\n\n	if s.events"},
		},
	}, nil)

	// zstd streams: their goroutines become tasks, and their number the run's.
	copyMod("github.com/klauspost/compress", "v1.17.8", map[string][]edit{
		"zstd/encoder_options.go": {{"concurrent:    runtime.GOMAXPROCS(0),", "concurrent:    zzrt.Zstd(runtime.GOMAXPROCS(0)),"}},
		"zstd/decoder_options.go": {{"concurrent:      runtime.GOMAXPROCS(0),", "concurrent:      zzrt.Zstd(runtime.GOMAXPROCS(0)),"}},
	}, func(rel, s string) string {
		switch rel {
		case "zstd/encoder_options.go", "zstd/decoder_options.go":
			return imp(s)
		case "zstd/encoder.go", "zstd/decoder.go":
			return wrapGoroutines(rel, s)
		case "go.mod":
			return s + "\nrequire zzsim v0.0.0\n"
		}
		return s
	})

	copyMod("github.com/gernest/rbf", "v0.22.4", map[string][]edit{
		"db.go": {
			{"func (db *DB) Open() (err error) {\n", `func (db *DB) Open() (err error) {
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteRbfOpen)
		if v := zzrt.Cfg().RbfMinWAL; v > 0 {
			db.cfg.MinWALCheckpointSize = v
			db.cfg.MaxWALCheckpointSize = zzrt.Cfg().RbfMaxWAL
			db.cfg.MaxSize = 256 << 20
			db.cfg.MaxWALSize = 256 << 20
		}
		if zzrt.Fault("rbf.open") {
			return zzrt.EIO("open index")
		}
		zzrt.CurInc().AddCloser("rbf", db, func() error { return db.Close() }, func() bool { return db.file == nil && db.walFile == nil })
		zzrt.CurInc().NoteRbf(db, func() int { return len(db.txs) })
	}
`},
			{"	_, err := db.file.WriteAt(page, 0*PageSize)\n", "	_, err := zzrt.WriteAt(db.file, page, 0*PageSize, \"rbf.init\")\n"},
			{"	_, err := db.file.WriteAt(page, 1*PageSize)\n", "	_, err := zzrt.WriteAt(db.file, page, 1*PageSize, \"rbf.init\")\n"},
			{"	_, err := db.file.WriteAt(page, 2*PageSize)\n", "	_, err := zzrt.WriteAt(db.file, page, 2*PageSize, \"rbf.init\")\n"},
			{"func (db *DB) Begin(writable bool) (_ *Tx, err error) {\n", `func (db *DB) Begin(writable bool) (_ *Tx, err error) {
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteRbfBegin)
		if !writable && zzrt.Fault("rbf.begin.read") || writable && zzrt.Fault("rbf.begin.write") {
			return nil, zzrt.EIO("begin index transaction")
		}
	}
`},
			{"	go func() {\n		<-txw.ready\n		db.mu.Lock()\n		defer db.mu.Unlock()\n		txw.callback()\n	}()\n", "	go zzrt.WrapAlways(func() {\n		<-txw.ready\n		db.mu.Lock()\n		defer db.mu.Unlock()\n		txw.callback()\n	})()\n"},
			{"	_, err := db.file.WriteAt(page, int64(pgno)*PageSize)\n", "	_, err := zzrt.WriteAt(db.file, page, int64(pgno)*PageSize, \"rbf.checkpoint\")\n"},
			{"		if err = db.walFile.Truncate(0); err != nil {\n", "		zzrt.Y(zzrt.SiteRbfTruncate)\n		if err = db.walFile.Truncate(0); err != nil {\n"},
			{"	if db.file != nil {\n		err = db.fsync(db.file)\n", "	if db.file != nil {\n		zzrt.Y(zzrt.SiteRbfClose)\n		err = db.fsync(db.file)\n"},
			{"		for pgno, walID := range pages {\n", "		for pgno, walID := range pages {\n			zzrt.Y(zzrt.SiteRbfCheckpoint)\n"},
		},
		"tx.go": {
			{"	w := bufio.NewWriterSize(tx.db.walFile, 65536)\n", "	w := bufio.NewWriterSize(zzrt.Writer(tx.db.walFile, \"rbf.wal\"), zzrt.WALBuf(65536))\n"},
			{"func (tx *Tx) ApplyFilter(name string, key uint64, filter roaring.BitmapFilter) (err error) {\n", `func (tx *Tx) ApplyFilter(name string, key uint64, filter roaring.BitmapFilter) (err error) {
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteRbfRead)
		if zzrt.Fault("rbf.read") {
			return zzrt.EIO("read index")
		}
	}
`},
			{"func (tx *Tx) Commit() error {\n", `func (tx *Tx) Commit() error {
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteRbfCommit)
		defer zzrt.Y(zzrt.SiteRbfCommitted)
	}
`},
			{"func (tx *Tx) AddRoaring(name string, bm *roaring.Bitmap) (changed bool, err error) {\n", `func (tx *Tx) AddRoaring(name string, bm *roaring.Bitmap) (changed bool, err error) {
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteRbfAdd)
		if zzrt.Fault("rbf.add") {
			return false, zzrt.EIO("update index")
		}
	}
`},
		},
		"rbf.go": {
			{"	if !db.cfg.FsyncEnabled {\n		return nil\n	}\n	return f.Sync()\n", `	if !db.cfg.FsyncEnabled {
		return nil
	}
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteRbfSync)
		if f == db.file && db.opened && zzrt.Fault("rbf.fsync") {
			return zzrt.EIO("fsync index")
		}
		zzrt.Synced(f)
		return nil
	}
	return f.Sync()
`},
			{"		return nil // no sync if either fsync flag is disabled\n	}\n	return f.Sync()\n", `		return nil // no sync if either fsync flag is disabled
	}
	if zzrt.Active() {
		zzrt.Y(zzrt.SiteRbfSync)
		if zzrt.Fault("rbf.fsyncwal") {
			return zzrt.EIO("fsync index log")
		}
		zzrt.Synced(f)
		return nil
	}
	return f.Sync()
`},
		},
	}, func(rel, s string) string {
		switch rel {
		case "db.go", "tx.go", "rbf.go":
			s = imp(s)
			s = strings.Replace(s, "\t\"sync\"\n", "\tsync \"zzsim/simsync\"\n", 1)
			if rel == "db.go" {
				s += `
// ZZForceClose drops what a crashed process held.
func (db *DB) ZZForceClose() {
	if db.data != nil {
		syswrap.Munmap(db.data)
		db.data = nil
	}
	if db.wal != nil {
		syswrap.Munmap(db.wal)
		db.wal = nil
	}
	if db.file != nil {
		db.file.Close()
		db.file = nil
	}
	if db.walFile != nil {
		db.walFile.Close()
		db.walFile = nil
	}
}
`
			}
		case "go.mod":
			return s + "\nrequire zzsim v0.0.0\n"
		}
		return s
	})
	// OpenTelemetry SDK: the server's own telemetry runs under the simulator when a run asks for it.
	otelRepl := func(rel, s string) string {
		if rel == "go.mod" {
			return s + "\nrequire zzsim v0.0.0\n"
		}
		if strings.HasSuffix(rel, ".go") && (strings.Contains(s, "\"sync\"") || strings.Contains(s, "go func")) && !strings.Contains(rel, "internaltest") && !strings.Contains(rel, "tracetest") {
			return wrapGoroutines(rel, s)
		}
		return s
	}
	copyMod("go.opentelemetry.io/otel", "v1.24.0", map[string][]edit{
		"internal/global/state.go": {
			{"var (\n	globalTracer        = defaultTracerValue()\n	globalPropagators   = defaultPropagatorsValue()\n	globalMeterProvider = defaultMeterProvider()\n\n	delegateTraceOnce             sync.Once\n	delegateTextMapPropagatorOnce sync.Once\n	delegateMeterOnce             sync.Once\n)\n",
				"// One set of globals for each simulated process.\ntype zzState struct {\n	globalTracer, globalPropagators, globalMeterProvider *atomic.Value\n\n	delegateTraceOnce, delegateTextMapPropagatorOnce, delegateMeterOnce sync.Once\n}\n\nfunc zzNew() *zzState {\n	return &zzState{globalTracer: defaultTracerValue(), globalPropagators: defaultPropagatorsValue(), globalMeterProvider: defaultMeterProvider()}\n}\n\nvar zzDefault = zzNew()\n\nfunc zz() *zzState {\n	if !zzrt.Active() {\n		return zzDefault\n	}\n	in := zzrt.CurInc()\n	if s, ok := in.Caps[\"otel\"].(*zzState); ok {\n		return s\n	}\n	s := zzNew()\n	in.Caps[\"otel\"] = s\n	return s\n}\n"},
		},
	}, func(rel, s string) string {
		if rel == "internal/global/state.go" {
			for _, x := range []string{"globalTracer.", "globalPropagators.", "globalMeterProvider.", "delegateTraceOnce.", "delegateTextMapPropagatorOnce.", "delegateMeterOnce."} {
				s = strings.ReplaceAll(s, "\t"+x, "\tzz()."+x)
				s = strings.ReplaceAll(s, "return "+x, "return zz()."+x)
			}
			s = imp(s)
		}
		return otelRepl(rel, s)
	})
	copyMod("go.opentelemetry.io/otel/sdk", "v1.24.0", map[string][]edit{
		"trace/id_generator.go": {{"	gen.randSource = rand.New(rand.NewSource(rngSeed))\n", "	if zzrt.Active() {\n		rngSeed = int64(zzrt.Cfg().MapSeed) + int64(zzrt.CurInc().ID)\n	}\n	gen.randSource = rand.New(rand.NewSource(rngSeed))\n"}},
		"trace/batch_span_processor.go": {
			{"	bsp.stopWait.Add(1)\n	go func() {\n", "	if zzrt.Active() {\n		zzrt.CurInc().AddCloser(\"call\", bsp, func() error {\n			defer func() { recover() }()\n			close(bsp.stopCh)\n			return nil\n		}, func() bool { return false })\n	}\n	bsp.stopWait.Add(1)\n	go func() {\n"},
			{"		go func() {\n			close(bsp.stopCh)\n", "		go func() {\n			defer close(wait)\n			close(bsp.stopCh)\n"},
			{"					otel.Handle(err)\n				}\n			}\n			close(wait)\n", "					otel.Handle(err)\n				}\n			}\n"},
		},
	}, func(rel, s string) string {
		switch rel {
		case "trace/id_generator.go":
			s = imp(s)
		}
		return otelRepl(rel, s)
	})
	copyMod("go.opentelemetry.io/otel/sdk/metric", "v1.24.0", map[string][]edit{
		"periodic_reader.go": {{"	go func() {\n		defer func() { close(r.done) }()\n", "	if zzrt.Active() {\n		zzrt.CurInc().AddCloser(\"call\", r, func() error { cancel(); return nil }, func() bool { return false })\n	}\n	go func() {\n		defer func() { close(r.done) }()\n"}},
	}, otelRepl)
	for _, x := range []string{"host", "runtime"} {
		// what the operating system and the go runtime report is no function of the seed
		copyMod("go.opentelemetry.io/contrib/instrumentation/"+x, "v0.49.0", map[string][]edit{
			x + ".go": {{"func Start(opts ...Option) error {\n", "func Start(opts ...Option) error {\n	if zzrt.Active() {\n		return nil\n	}\n"}},
		}, func(rel, s string) string {
			switch rel {
			case x + ".go":
				return imp(s)
			case "go.mod":
				return s + "\nrequire zzsim v0.0.0\n"
			}
			return s
		})
	}
	return reps
}
