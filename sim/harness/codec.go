package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"github.com/gernest/requiemdb/internal/compress"
	"google.golang.org/grpc/encoding"

	"zzsim/rt"
)

// codec drives many compressed streams of one process at once (C16).
type codec struct {
	s    *sim
	inc  *rt.Inc
	open []*stream
	left []io.Reader
	over bool
}

// stream is one stream: what is sent, and what happens to it.
type stream struct {
	name string
	mode string
	data []byte
	r    *rand.Rand
	at   float64 // where the fault strikes, as a fraction
	done bool
	task *rt.Task
}

func init() {
	compNew["codec"] = func(s *sim) component { return &codec{s: s, inc: s.w.NewInc("codec")} }
	compBuild["C16"] = buildCodec
}

var codecModes = []string{"plain", "plain", "plain", "wfail", "wshort", "rfail", "trunc", "corrupt", "leavew", "leaver", "twice", "bytes", "to", "tofail", "bytestrunc", "bytescorrupt", "append", "noclose"}

func buildCodec(prop string, seed uint64) *plan {
	r := rand.New(rand.NewPCG(seed, rt.Hash64(prop)))
	p := &plan{Prop: prop, Kind: "codec", Seed: seed}
	p.Cfg = rt.Config{MapSeed: r.Uint64(), PoolNew: pick(r, 0, 0, 0, 3, 6), Zstd: pick(r, 1, 1, 2, 4)}
	p.Cfg.Preempt[rt.ClassStmt] = pick(r, 0.0, 0.05, 0.2, 0.5)
	p.Cfg.Preempt[rt.ClassSync] = pick(r, 0.05, 0.3, 0.6)
	p.Cfg.Preempt[rt.ClassIO] = pick(r, 0.05, 0.3, 0.6)
	modes := codecModes
	if r.IntN(3) == 0 { // a single kind of trouble among ordinary streams
		modes = []string{"plain", "plain", "bytes", pick(r, codecModes...)}
	}
	big := pick(r, 2000, 20000, 300000)
	id := 0
	for i := 1 + r.IntN(4); i > 0; i-- {
		for j := 1 + r.IntN(5); j > 0; j-- {
			id++
			n := r.IntN(big)
			switch r.IntN(6) {
			case 0:
				n = r.IntN(4)
			case 1:
				n = r.IntN(300)
			}
			p.Ops = append(p.Ops, op{ID: id, K: "stream", Str: modes[r.IntN(len(modes))], N: int64(n), D: int64(r.Uint64() >> 2), Q: int64(r.IntN(1001))})
		}
		if r.IntN(3) == 0 {
			id++
			p.Ops = append(p.Ops, op{ID: id, K: "run", N: int64(1 + r.IntN(60))})
		} else {
			id++
			p.Ops = append(p.Ops, op{ID: id, K: "drain"})
		}
	}
	for j := 1 + r.IntN(3); j > 0; j-- { // whatever happened before must not matter
		id++
		p.Ops = append(p.Ops, op{ID: id, K: "stream", Str: pick(r, "plain", "bytes"), N: int64(r.IntN(big)), D: int64(r.Uint64() >> 2)})
	}
	p.Ops = append(p.Ops, op{ID: id + 1, K: "drain"})
	return p
}

var errPeer = errors.New("peer failed")

// wire is the connection side of a stream: it yields, splits and fails.
type wire struct {
	st    *stream
	buf   []byte
	pos   int
	limit int // bytes until the failure (-1: none)
	short bool
	hit   bool
	eof   error // how reading ends at limit
	ended bool  // nobody may use it any more
	late  bool
}

func (w *wire) Write(p []byte) (int, error) {
	rt.Y(rt.SiteNet)
	if w.ended {
		w.late = true
	}
	if w.limit >= 0 && len(w.buf)+len(p) > w.limit {
		n := w.limit - len(w.buf)
		w.buf = append(w.buf, p[:n]...)
		w.hit = true
		rt.Struck("writer " + w.st.mode)
		if w.short {
			return n, io.ErrShortWrite
		}
		return n, errPeer
	}
	w.buf = append(w.buf, p...)
	rt.Y(rt.SiteNet)
	return len(p), nil
}

func (w *wire) Read(p []byte) (int, error) {
	rt.Y(rt.SiteNet)
	if w.ended {
		w.late = true
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(w.buf)
	if w.limit >= 0 && w.limit < end {
		end = w.limit
	}
	if w.pos >= end {
		w.hit = true
		if w.eof != nil && w.limit >= 0 {
			return 0, w.eof
		}
		return 0, io.EOF
	}
	n := min(len(p), end-w.pos)
	switch w.st.r.IntN(4) {
	case 0:
		n = 1
	case 1:
		n = 1 + w.st.r.IntN(n)
	}
	copy(p, w.buf[w.pos:w.pos+n])
	w.pos += n
	if w.pos >= end && w.st.r.IntN(4) == 0 { // an ending may come along with the last bytes
		w.hit = true
		if w.eof != nil && w.limit >= 0 {
			return n, w.eof
		}
		return n, io.EOF
	}
	return n, nil
}

func (c *codec) do(o op) {
	if o.K != "stream" {
		return
	}
	st := &stream{name: fmt.Sprintf("stream #%d (%s, %d bytes)", o.ID, o.Str, o.N), mode: o.Str, r: rand.New(rand.NewPCG(uint64(o.D), 7)), at: float64(o.Q) / 1000}
	st.data = make([]byte, o.N)
	switch st.r.IntN(4) {
	case 0:
		for i := range st.data {
			st.data[i] = byte(st.r.Uint32())
		}
	case 1:
		words := []string{"service", "name", "http.method", "GET", "\x00\x01", "0.25", "id"}
		b := st.data[:0]
		for len(b) < int(o.N) {
			b = append(b, words[st.r.IntN(len(words))]...)
		}
		st.data = b[:o.N]
	case 2:
		for i := range st.data {
			st.data[i] = byte(i/100 + o.ID)
		}
	case 3: // all alike
		for i := range st.data {
			st.data[i] = byte(o.ID)
		}
	}
	c.open = append(c.open, st)
	st.task = c.s.w.Go(c.inc, fmt.Sprintf("s%d", o.ID), func() {
		c.run(st)
		st.done = true
		c.s.nRead++
		c.s.w.Log("%s done", st.name)
	})
}

func (c *codec) fail(st *stream, f string, a ...any) {
	c.s.fail("%s: %s", st.name, fmt.Sprintf(f, a...))
}

func (c *codec) run(st *stream) {
	cd := encoding.GetCompressor("zstd")
	if cd == nil {
		c.fail(st, "the codec is not registered")
		return
	}
	switch st.mode {
	case "bytes":
		b, err := compress.Compress(st.data)
		if err != nil {
			c.fail(st, "Compress failed: %v", err)
			return
		}
		rt.Y(rt.SiteClient)
		d, err := compress.Decompress(b)
		if err != nil || !bytes.Equal(d, st.data) {
			c.fail(st, "Decompress of %d bytes returned %s, %v", len(st.data), diff(d, st.data), err)
		}
		return
	case "to", "tofail":
		w := &wire{st: st, limit: -1}
		if st.mode == "tofail" {
			w.limit = int(st.at * float64(len(st.data)))
		}
		err := compress.To(w, st.data)
		c.wrote(st, w, err)
		return
	case "bytestrunc", "bytescorrupt":
		b, err := compress.Compress(st.data)
		if err != nil {
			c.fail(st, "Compress failed: %v", err)
			return
		}
		if len(b) == 0 {
			return
		}
		k := min(len(b)-1, int(st.at*float64(len(b))))
		if st.mode == "bytestrunc" {
			b = b[:k]
			if k == 0 {
				return // indistinguishable from no data
			}
			if d, err := compress.Decompress(b); err == nil {
				c.fail(st, "Decompress of truncated data succeeded with %d bytes", len(d))
			}
			return
		}
		b = bytes.Clone(b)
		b[k] ^= 1 << (st.r.IntN(8))
		if d, err := compress.Decompress(b); err == nil && !bytes.Equal(d, st.data) {
			c.fail(st, "Decompress of corrupt data returned wrong data: %s", diff(d, st.data))
		}
		return
	}
	// a stream through the codec
	w := &wire{st: st, limit: -1}
	if st.mode == "wfail" || st.mode == "wshort" {
		w.limit = int(st.at * float64(len(st.data)+10))
		w.short = st.mode == "wshort"
	}
	z, err := cd.Compress(w)
	if err != nil {
		c.fail(st, "Compress failed: %v", err)
		return
	}
	err = c.send(st, z)
	if st.mode == "leavew" { // gone in mid-stream
		rt.Struck("stream abandoned")
		w.limit = -1
		return
	}
	if st.mode == "wfail" || st.mode == "wshort" {
		if err == nil {
			err = z.Close()
		} else if st.r.IntN(2) == 0 {
			z.Close()
		}
		if st.r.IntN(3) == 0 { // what a careless caller does
			z.Close()
		}
		w.ended = true
		c.wrote(st, w, err)
		return
	}
	if err != nil {
		c.fail(st, "Write failed: %v", err)
		return
	}
	if st.mode != "noclose" {
		if err := z.Close(); err != nil {
			c.fail(st, "Close failed: %v", err)
			return
		}
		w.ended = true
	}
	done := bytes.Clone(w.buf)
	if st.mode == "twice" || st.r.IntN(8) == 0 { // what a careless caller does
		rt.Y(rt.SiteClient)
		if st.mode == "noclose" {
			z.Close()
			return
		}
		z.Close()
		if n, err := z.Write([]byte("more")); err == nil && n == 4 {
			// accepted: it must not have gone anywhere
			z.Close()
		}
		if !bytes.Equal(done, w.buf) {
			c.fail(st, "using the stream after its end wrote %d more bytes", len(w.buf)-len(done))
			return
		}
	}
	if st.mode == "noclose" {
		return
	}
	c.receive(st, cd, done)
}

// send writes the contents in pieces.
func (c *codec) send(st *stream, z io.WriteCloser) error {
	d := st.data
	if st.mode == "leavew" || st.mode == "noclose" {
		d = d[:int(st.at*float64(len(d)))]
	}
	if rf, ok := z.(io.ReaderFrom); ok && st.r.IntN(4) == 0 {
		n, err := rf.ReadFrom(&wire{st: st, buf: bytes.Clone(d), limit: -1})
		if err == nil && n != int64(len(d)) {
			c.fail(st, "ReadFrom took %d of %d bytes without an error", n, len(d))
		}
		return err
	}
	whole := st.r.IntN(3) == 0
	for len(d) > 0 {
		n := len(d)
		if !whole {
			n = 1 + st.r.IntN(n)
			if st.r.IntN(3) == 0 {
				n = min(n, 1+st.r.IntN(40))
			}
		}
		p := bytes.Clone(d[:n])
		m, err := z.Write(p)
		for i := range p { // the caller's buffer is its own again
			p[i] = 0xee
		}
		if err != nil {
			return err
		}
		if m != n {
			c.fail(st, "Write took %d of %d bytes without an error", m, n)
			return nil
		}
		d = d[n:]
		rt.Y(rt.SiteClient)
		if c.s.failed() {
			return nil
		}
	}
	if st.r.IntN(5) == 0 {
		if _, err := z.Write(nil); err != nil {
			return err
		}
	}
	return nil
}

// wrote judges a stream whose writer may have failed.
func (c *codec) wrote(st *stream, w *wire, err error) {
	if err != nil {
		if !w.hit {
			c.fail(st, "failed although its writer did not: %v", err)
		}
		return
	}
	if w.hit {
		c.fail(st, "its writer failed but the stream did not")
		return
	}
	d, err := compress.Decompress(w.buf)
	if err != nil || !bytes.Equal(d, st.data) {
		c.fail(st, "what was written decompresses to %s, %v", diff(d, st.data), err)
	}
}

func (c *codec) receive(st *stream, cd encoding.Compressor, sent []byte) {
	r := &wire{st: st, buf: bytes.Clone(sent), limit: -1}
	bad := false // the result must be an error
	switch st.mode {
	case "rfail":
		rt.Struck("reader fails")
		r.limit, r.eof = int(st.at*float64(len(sent))), errPeer
		bad = r.limit < len(sent)
	case "trunc":
		rt.Struck("stream truncated")
		r.limit = int(st.at * float64(len(sent)))
		bad = r.limit < len(sent) && r.limit > 0
		if r.limit == 0 && len(sent) > 0 {
			return // indistinguishable from no data
		}
	case "corrupt":
		rt.Struck("stream corrupted")
		if len(sent) > 0 {
			r.buf[min(len(sent)-1, int(st.at*float64(len(sent))))] ^= 1 << (st.r.IntN(8))
		}
	case "append":
		rt.Struck("rubbish appended")
		r.buf = append(r.buf, 1, 2, 3, 4, 5)
		bad = true
	}
	x, err := cd.Decompress(r)
	if err != nil {
		if !bad && st.mode != "corrupt" && st.mode != "rfail" {
			c.fail(st, "Decompress failed: %v", err)
		}
		return
	}
	var got []byte
	if wt, ok := x.(io.WriterTo); ok && st.r.IntN(4) == 0 && st.mode != "leaver" {
		o := &wire{st: st, limit: -1}
		var n int64
		n, err = wt.WriteTo(o)
		got = o.buf
		if err == nil && n != int64(len(got)) {
			c.fail(st, "WriteTo reported %d of %d bytes", n, len(got))
			return
		}
	} else {
		stopAt := len(st.data) + 1
		if st.mode == "leaver" {
			stopAt = int(st.at * float64(len(st.data)))
		}
		size := 1 + st.r.IntN(8192)
		if st.r.IntN(4) == 0 {
			size = 1 + st.r.IntN(8)
		}
		buf := make([]byte, max(size, len(st.data)/200))
		idle := 0
		for err == nil {
			if len(got) >= stopAt && st.mode == "leaver" {
				if st.r.IntN(3) != 0 {
					c.left = append(c.left, x)
				}
				r.ended = st.r.IntN(2) == 0
				return
			}
			n := 0
			n, err = x.Read(buf[:1+st.r.IntN(len(buf))])
			got = append(got, buf[:n]...)
			for i := range buf {
				buf[i] = 0xcc
			}
			if n == 0 && err == nil {
				if idle++; idle > 1000 {
					c.fail(st, "Read returns nothing and no error, again and again")
					return
				}
			} else {
				idle = 0
			}
			rt.Y(rt.SiteClient)
			if len(got) > len(st.data)+1<<20 {
				break
			}
		}
		if err == io.EOF {
			err = nil
			if st.r.IntN(3) == 0 || st.mode == "twice" { // and once more
				rt.Y(rt.SiteClient)
				if n, e := x.Read(buf); n != 0 || e != io.EOF {
					c.fail(st, "Read after the end returned %d bytes and %v", n, e)
					return
				}
			}
		} else if err != nil && (st.r.IntN(3) == 0 || st.mode == "twice") {
			rt.Y(rt.SiteClient)
			if n, e := x.Read(buf); n != 0 || e == nil || e == io.EOF {
				c.fail(st, "Read after the error %v returned %d bytes and %v", err, n, e)
				return
			}
		}
	}
	switch {
	case err != nil && !bad && st.mode != "corrupt" && st.mode != "rfail":
		c.fail(st, "reading failed: %v", err)
	case err != nil && st.mode != "corrupt" && !bytes.HasPrefix(st.data, got):
		c.fail(st, "wrong data before the error: %s", diff(got, st.data))
	case err == nil && bad:
		c.fail(st, "reading a damaged stream succeeded with %d of %d bytes", len(got), len(st.data))
	case err == nil && !bytes.Equal(got, st.data):
		c.fail(st, "wrong data: %s", diff(got, st.data))
	}
}

func diff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return "the right data"
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes instead of %d, different from byte %d on", len(got), len(want), i)
}

func (c *codec) finish() {
	s := c.s
	if d := c.inc.Death; d != nil && !s.failed() {
		s.fail("the process died (%s): %s in %s", d.Kind, d.What, d.Where)
	}
	if !s.failed() {
		for _, st := range c.open {
			if !st.done {
				s.fail("%s never ends: %s@%s", st.name, st.task.State(), st.task.Where())
				break
			}
		}
	}
	if len(c.left) > 0 && c.inc.Death == nil {
		s.w.Go(c.inc, "leftover", func() {
			for _, x := range c.left {
				io.Copy(io.Discard, x)
			}
		})
		s.w.Drain(nil)
	}
	s.w.Kill(c.inc)
}
