// Package simnet is an in-memory network: listeners by address, connections as buffered pipes
// whose bytes the simulator can delay or cut.
package simnet

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"zzsim/rt"
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type listener struct {
	a    addr
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

var (
	mu sync.Mutex
	ls = map[string]*listener{}
)

// Reset forgets all listeners (between runs and after a crash).
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	clear(ls)
}

func norm(a string) string {
	_, p, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	return p
}

// Listen is net.Listen.
func Listen(network, address string) (net.Listener, error) {
	if !rt.Active() {
		return net.Listen(network, address)
	}
	rt.Y(rt.SiteNet)
	if rt.Fault("net.listen") {
		return nil, rt.EIO("listen")
	}
	mu.Lock()
	defer mu.Unlock()
	k := norm(address)
	if o := ls[k]; o != nil {
		select {
		case <-o.done:
		default:
			return nil, &net.OpError{Op: "listen", Net: network, Err: fmt.Errorf("address already in use")}
		}
	}
	l := &listener{a: addr(address), ch: make(chan net.Conn), done: make(chan struct{})}
	ls[k] = l
	in := rt.CurInc()
	in.AddCloser("listener", l, l.Close, func() bool {
		select {
		case <-l.done:
			return true
		default:
			return false
		}
	})
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error {
	l.once.Do(func() { close(l.done) })
	return nil
}
func (l *listener) Addr() net.Addr { return l.a }

// Dial connects to a simulated listener.
func Dial(ctx context.Context, address string) (net.Conn, error) {
	mu.Lock()
	l := ls[norm(address)]
	mu.Unlock()
	refused := &net.OpError{Op: "dial", Net: "tcp", Err: fmt.Errorf("connection refused")}
	if l == nil {
		return nil, refused
	}
	a, b := pipe(address)
	select {
	case l.ch <- b:
		return a, nil
	case <-l.done:
		return nil, refused
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	buf    []byte
	closed bool
	sig    chan struct{}
}

func (h *half) kick() {
	select {
	case h.sig <- struct{}{}:
	default:
	}
}

type conn struct {
	r, w   *half
	a      addr
	mu     sync.Mutex
	rd     time.Time
	closed chan struct{}
	once   sync.Once
}

func pipe(a string) (net.Conn, net.Conn) {
	x, y := &half{sig: make(chan struct{}, 1)}, &half{sig: make(chan struct{}, 1)}
	return &conn{r: x, w: y, a: addr(a), closed: make(chan struct{})}, &conn{r: y, w: x, a: addr(a), closed: make(chan struct{})}
}

func (c *conn) Read(p []byte) (int, error) {
	for {
		c.r.mu.Lock()
		if len(c.r.buf) > 0 {
			n := copy(p, c.r.buf)
			c.r.buf = c.r.buf[n:]
			c.r.mu.Unlock()
			return n, nil
		}
		cl := c.r.closed
		c.r.mu.Unlock()
		if cl {
			return 0, io.EOF
		}
		c.mu.Lock()
		d := c.rd
		c.mu.Unlock()
		var tm <-chan time.Time
		if !d.IsZero() {
			if !time.Now().Before(d) {
				return 0, os.ErrDeadlineExceeded
			}
			t := time.NewTimer(time.Until(d))
			defer t.Stop()
			tm = t.C
		}
		select {
		case <-c.r.sig:
		case <-c.closed:
			return 0, net.ErrClosed
		case <-tm:
			return 0, os.ErrDeadlineExceeded
		}
	}
}

func (c *conn) Write(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, net.ErrClosed
	default:
	}
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.w.closed {
		return 0, io.ErrClosedPipe
	}
	c.w.buf = append(c.w.buf, p...)
	c.w.kick()
	return len(p), nil
}

func (c *conn) Close() error {
	c.once.Do(func() {
		close(c.closed)
		for _, h := range []*half{c.r, c.w} {
			h.mu.Lock()
			h.closed = true
			h.kick()
			h.mu.Unlock()
		}
	})
	return nil
}

func (c *conn) LocalAddr() net.Addr  { return c.a }
func (c *conn) RemoteAddr() net.Addr { return c.a }
func (c *conn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rd = t
	c.mu.Unlock()
	c.r.kick()
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
