// Package simsync is package sync with every blocking decision made by the simulator. Outside a
// simulated run it behaves like package sync.
package simsync

import (
	"bytes"
	"sync"

	"zzsim/rt"
)

type Locker = sync.Locker

// waiter is a blocked task (or a goroutine that is no task).
type waiter struct {
	t     *rt.Task
	ch    chan struct{}
	fired bool
}

func newWaiter() *waiter {
	if t := rt.Cur(); t != nil {
		return &waiter{t: t}
	}
	return &waiter{ch: make(chan struct{})}
}

func (x *waiter) wait(what string) bool {
	if x.ch != nil {
		<-x.ch
		return true
	}
	for !x.fired {
		if !rt.Block(what) {
			return false
		}
	}
	return true
}

func (x *waiter) fire() {
	x.fired = true
	if x.ch != nil {
		close(x.ch)
		return
	}
	rt.Unblock(x.t)
}

func fatal(s string) {
	if rt.Exiting() {
		return
	}
	panic("fatal error: " + s)
}

// Mutex is sync.Mutex.
type Mutex struct {
	mu    sync.Mutex
	held  bool
	owner *rt.Inc
	q     []*waiter
}

func (m *Mutex) wake() {
	q := m.q
	m.q = nil
	for _, x := range q {
		x.fire()
	}
}

func inc() *rt.Inc {
	if t := rt.Cur(); t != nil {
		return t.Inc
	}
	return nil
}

func gone(in *rt.Inc) bool { return in != nil && in.Dead && in != inc() }

func (m *Mutex) Lock() {
	rt.Y(rt.SiteLock)
	for {
		if rt.Exiting() {
			return
		}
		m.mu.Lock()
		if !m.held || gone(m.owner) {
			m.held = true
			m.owner = inc()
			m.mu.Unlock()
			return
		}
		x := newWaiter()
		m.q = append(m.q, x)
		m.mu.Unlock()
		if !x.wait("Mutex.Lock") {
			return
		}
	}
}

func (m *Mutex) TryLock() bool {
	rt.Y(rt.SiteLock)
	if rt.Exiting() {
		return true
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.held && !gone(m.owner) {
		return false
	}
	m.held = true
	m.owner = inc()
	return true
}

func (m *Mutex) Unlock() {
	rt.Y(rt.SiteUnlock)
	if rt.Exiting() {
		return
	}
	m.mu.Lock()
	if !m.held {
		m.mu.Unlock()
		fatal("sync: unlock of unlocked mutex")
		return
	}
	m.held = false
	m.owner = nil
	m.wake()
	m.mu.Unlock()
	rt.Y(rt.SiteUnlock)
}

// RWMutex is sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	mu    sync.Mutex
	w     bool
	r     int
	ww    int
	owner *rt.Inc
	q     []*waiter
}

func (m *RWMutex) wake() {
	q := m.q
	m.q = nil
	for _, x := range q {
		x.fire()
	}
}

func (m *RWMutex) stale() {
	if gone(m.owner) {
		m.w, m.r, m.ww, m.owner = false, 0, 0, nil
	}
}

func (m *RWMutex) Lock() {
	rt.Y(rt.SiteLock)
	first := true
	for {
		if rt.Exiting() {
			return
		}
		m.mu.Lock()
		m.stale()
		if !m.w && m.r == 0 {
			m.w = true
			m.owner = inc()
			if !first {
				m.ww--
			}
			m.mu.Unlock()
			return
		}
		if first {
			m.ww++
			first = false
		}
		x := newWaiter()
		m.q = append(m.q, x)
		m.mu.Unlock()
		if !x.wait("RWMutex.Lock") {
			return
		}
	}
}

func (m *RWMutex) TryLock() bool {
	rt.Y(rt.SiteLock)
	if rt.Exiting() {
		return true
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.stale()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.owner = inc()
	return true
}

func (m *RWMutex) Unlock() {
	rt.Y(rt.SiteUnlock)
	if rt.Exiting() {
		return
	}
	m.mu.Lock()
	if !m.w {
		m.mu.Unlock()
		fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.w = false
	m.owner = nil
	m.wake()
	m.mu.Unlock()
	rt.Y(rt.SiteUnlock)
}

func (m *RWMutex) RLock() {
	rt.Y(rt.SiteLock)
	for {
		if rt.Exiting() {
			return
		}
		m.mu.Lock()
		m.stale()
		if !m.w && m.ww == 0 {
			m.r++
			m.owner = inc()
			m.mu.Unlock()
			return
		}
		x := newWaiter()
		m.q = append(m.q, x)
		m.mu.Unlock()
		if !x.wait("RWMutex.RLock") {
			return
		}
	}
}

func (m *RWMutex) TryRLock() bool {
	rt.Y(rt.SiteLock)
	if rt.Exiting() {
		return true
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.stale()
	if m.w || m.ww > 0 {
		return false
	}
	m.r++
	m.owner = inc()
	return true
}

func (m *RWMutex) RUnlock() {
	rt.Y(rt.SiteUnlock)
	if rt.Exiting() {
		return
	}
	m.mu.Lock()
	if m.r == 0 {
		m.mu.Unlock()
		fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.r--
	if m.r == 0 {
		m.owner = nil
		m.wake()
	}
	m.mu.Unlock()
	rt.Y(rt.SiteUnlock)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	mu sync.Mutex
	n  int
	q  []*waiter
}

func (g *WaitGroup) Add(d int) {
	rt.Y(rt.SiteUnlock)
	g.mu.Lock()
	g.n += d
	neg := g.n < 0
	if g.n <= 0 {
		q := g.q
		g.q = nil
		for _, x := range q {
			x.fire()
		}
	}
	g.mu.Unlock()
	if neg {
		fatal("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	rt.Y(rt.SiteWait)
	for {
		if rt.Exiting() {
			return
		}
		g.mu.Lock()
		if g.n <= 0 {
			g.mu.Unlock()
			return
		}
		x := newWaiter()
		g.q = append(g.q, x)
		g.mu.Unlock()
		if !x.wait("WaitGroup.Wait") {
			return
		}
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go rt.Wrap(func() {
		defer g.Done()
		f()
	})()
}

// Once is sync.Once, once per simulated process.
type Once struct {
	m    Mutex
	done bool
	by   *rt.Inc
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if in := inc(); !o.done || o.by != in {
		if rt.Exiting() {
			return
		}
		defer func() { o.done, o.by = true, in }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is sync.Cond.
type Cond struct {
	L  Locker
	mu sync.Mutex
	q  []*waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	x := newWaiter()
	c.mu.Lock()
	c.q = append(c.q, x)
	c.mu.Unlock()
	c.L.Unlock()
	x.wait("Cond.Wait")
	c.L.Lock()
}

func (c *Cond) Signal() {
	rt.Y(rt.SiteUnlock)
	c.mu.Lock()
	if len(c.q) > 0 {
		x := c.q[0]
		c.q = c.q[1:]
		x.fire()
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	rt.Y(rt.SiteUnlock)
	c.mu.Lock()
	q := c.q
	c.q = nil
	for _, x := range q {
		x.fire()
	}
	c.mu.Unlock()
}

// Pool is sync.Pool: each simulated process has its own, last in first out, so that an object
// put back too early is handed to the next user at once; now and then it hands out a new one.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	real sync.Pool
}

func (p *Pool) Get() any {
	if !rt.Active() {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	in := rt.CurInc()
	p.mu.Lock()
	l := in.Pools[p]
	if n := len(l); n > 0 && !(rt.Cfg().PoolNew > 0 && rt.Draw("pool", 2, 1/float64(rt.Cfg().PoolNew)) != 0) {
		v := l[n-1]
		in.Pools[p] = l[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !rt.Active() {
		p.real.Put(v)
		return
	}
	scribble(v)
	in := rt.CurInc()
	p.mu.Lock()
	in.Pools[p] = append(in.Pools[p], v)
	p.mu.Unlock()
}

// scribble overwrites the bytes of a buffer that is given back: from here on anyone may get it
// and write into it, so whoever still reads them reads something else.
func scribble(v any) {
	var b []byte
	switch x := v.(type) {
	case *bytes.Buffer:
		b = x.Bytes()
	case []byte:
		b = x
	case *[]byte:
		b = *x
	}
	b = b[:min(cap(b), 1<<16)]
	for i := range b {
		b[i] = 0xdb
	}
}

// Map is sync.Map with a fixed iteration order.
type Map struct {
	mu   sync.Mutex
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.del(k)
	return o, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, v any) bool {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = v
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	rt.Y(rt.SiteLock)
	m.mu.Lock()
	keys := append([]any(nil), m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
