package rt

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"syscall"
)

// IOError is an injected storage error.
type IOError struct {
	Op  string
	Err error
}

func (e *IOError) Error() string { return "simulated " + e.Op + ": " + e.Err.Error() }
func (e *IOError) Unwrap() error { return e.Err }

func EIO(op string) error    { return &IOError{op, syscall.EIO} }
func ENOSPC(op string) error { return &IOError{op, syscall.ENOSPC} }

// SetFaults switches fault injection on or off.
func (nw *World) SetFaults(on bool) { nw.faultOn = on }

// Fault decides whether the named fault strikes here and now.
func Fault(site string) bool { return FaultN(site, 1) != 0 }

// FaultN decides which of n variants of the named fault strikes (0: none).
func FaultN(site string, n int) int {
	nw := w
	t := Cur()
	if nw == nil || t == nil || t.Inc.Dead {
		return 0
	}
	t.occ[site]++
	if !nw.faultOn {
		return 0
	}
	p := nw.Cfg.FaultRate[site]
	if p == 0 {
		return 0
	}
	v := nw.dec.Draw(fmt.Sprintf("f:%s:%s:%d", t.Name, site, t.occ[site]), n+1, p)
	if v != 0 {
		nw.Faults[site]++
		nw.Log("fault %s #%d in %s", site, v, t.Name)
	}
	return v
}

// Draw is a recorded non-fault choice of the calling task.
func Draw(what string, n int, p float64) int {
	nw := w
	t := Cur()
	if nw == nil || t == nil || t.Inc.Dead {
		return 0
	}
	t.occ[what]++
	return nw.dec.Draw(fmt.Sprintf("d:%s:%s:%d", t.Name, what, t.occ[what]), n, p)
}

// Struck counts a fault the harness itself injected.
func Struck(name string) {
	if w != nil {
		w.mu.Lock()
		w.Faults[name]++
		w.mu.Unlock()
	}
}

// Probe counts that a condition of interest was reached.
func Probe(name string) {
	if w != nil {
		w.mu.Lock()
		w.Probe[name]++
		w.mu.Unlock()
	}
}

func callerIs(pkg string) bool {
	pc := make([]uintptr, 12)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, pkg) {
			return true
		}
		if !more {
			return false
		}
	}
}

// NoteSize notes what badger says about its size.
func NoteSize(lsm, vlog int64) {
	in := CurInc()
	w.mu.Lock()
	defer w.mu.Unlock()
	if in.Sizes == nil {
		in.Sizes = map[int64]bool{}
	}
	in.Sizes[lsm+vlog] = true
	in.SizeN++
}

// SeqLease shrinks an id lease so that it runs out within a run.
func SeqLease(key []byte, bw uint64) uint64 {
	if !Active() {
		return bw
	}
	l := w.Cfg.LeaseSample
	if callerIs("internal/translate.") {
		l = w.Cfg.LeaseTranslate
	}
	if l == 0 {
		return bw
	}
	return min(l, bw)
}

// SeqStart is the first id of a fresh sequence (0 in production); a run may place the label
// ids close to the boundary between two index shards.
func SeqStart(key []byte) uint64 {
	if !Active() {
		return 0
	}
	if callerIs("internal/translate.") {
		return w.Cfg.StartTranslate
	}
	return w.Cfg.StartSample
}

// WALBuf sizes the index log's write buffer.
func WALBuf(n int) int {
	if !Active() || w.Cfg.WALBuf == 0 {
		return n
	}
	return w.Cfg.WALBuf
}

type simWriter struct {
	f    *os.File
	site string
}

// Writer makes writes to f yield, tear and fail.
func Writer(f *os.File, site string) io.Writer {
	if !Active() {
		return f
	}
	return &simWriter{f, site}
}

func (s *simWriter) Write(p []byte) (int, error) {
	Y(SiteRbfWrite)
	switch FaultN(s.site, 3) {
	case 1:
		return 0, EIO("write index log")
	case 2, 3: // short write, then the disk is full
		h := len(p) / 2
		if h > 4096 {
			h = h/8192*8192 + 4096
		}
		n, err := s.f.Write(p[:h])
		if err != nil {
			return n, err
		}
		return n, ENOSPC("write index log")
	}
	// A crash may tear a write: yield in the middle of it.
	h := len(p) / 2
	n, err := s.f.Write(p[:h])
	if err != nil {
		return n, err
	}
	Y(SiteRbfWrite)
	m, err := s.f.Write(p[h:])
	return n + m, err
}

// WriteAt is os.File.WriteAt with yields and faults.
func WriteAt(f *os.File, p []byte, off int64, site string) (int, error) {
	if !Active() {
		return f.WriteAt(p, off)
	}
	Y(SiteRbfWrite)
	if Fault(site) {
		return 0, EIO("write index")
	}
	h := len(p) / 2
	n, err := f.WriteAt(p[:h], off)
	if err != nil {
		return n, err
	}
	Y(SiteRbfWrite)
	m, err := f.WriteAt(p[h:], off+int64(h))
	return n + m, err
}

// Zstd is the number of goroutines of a compressed stream.
func Zstd(n int) int {
	if !Active() || w.Cfg.Zstd == 0 {
		return 1
	}
	return w.Cfg.Zstd
}
