// Package simristretto stands in for github.com/dgraph-io/ristretto: a cache that may forget
// anything at any time, decided by the simulator instead of by background goroutines.
package simristretto

import (
	"sync"
	"time"

	"zzsim/rt"
)

type Item struct {
	Key        uint64
	Conflict   uint64
	Value      interface{}
	Cost       int64
	Expiration time.Time
}

type Config struct {
	NumCounters            int64
	MaxCost                int64
	BufferItems            int64
	Metrics                bool
	OnEvict                func(item *Item)
	OnReject               func(item *Item)
	OnExit                 func(val interface{})
	KeyToHash              func(key interface{}) (uint64, uint64)
	Cost                   func(value interface{}) int64
	IgnoreInternalCost     bool
	TtlTickerDurationInSec int64
}

type entry struct {
	v    any
	cost int64
	exp  time.Time
}

type Cache struct {
	mu     sync.Mutex
	cfg    Config
	m      map[any]entry
	order  []any
	cost   int64
	closed bool
}

func NewCache(c *Config) (*Cache, error) { return &Cache{cfg: *c, m: map[any]entry{}}, nil }

func norm(k any) any {
	if b, ok := k.([]byte); ok {
		return string(b)
	}
	return k
}

func (c *Cache) Get(key any) (any, bool) {
	rt.Y(rt.SiteLock)
	if c == nil || key == nil {
		return nil, false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return nil, false
	}
	e, ok := c.m[norm(key)]
	if !ok || !e.exp.IsZero() && rt.Now().After(e.exp) {
		return nil, false
	}
	return e.v, true
}

func (c *Cache) Set(key, value any, cost int64) bool { return c.SetWithTTL(key, value, cost, 0) }

func (c *Cache) SetWithTTL(key, value any, cost int64, ttl time.Duration) bool {
	rt.Y(rt.SiteLock)
	if c == nil || key == nil || ttl < 0 {
		return false
	}
	if rt.Active() {
		if n := rt.Cfg().CacheDrop; n > 0 && rt.Draw("cache", 2, 1/float64(n)) != 0 {
			return false
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return false
	}
	if cost == 0 && c.cfg.Cost != nil {
		cost = c.cfg.Cost(value)
	}
	k := norm(key)
	if o, ok := c.m[k]; ok {
		c.cost -= o.cost
	} else {
		c.order = append(c.order, k)
	}
	e := entry{v: value, cost: cost}
	if ttl > 0 {
		e.exp = rt.Now().Add(ttl)
	}
	c.m[k] = e
	c.cost += cost
	for c.cfg.MaxCost > 0 && c.cost > c.cfg.MaxCost && len(c.order) > 1 {
		d := c.order[0]
		c.order = c.order[1:]
		c.cost -= c.m[d].cost
		delete(c.m, d)
	}
	return true
}

func (c *Cache) Del(key any) {
	rt.Y(rt.SiteLock)
	if c == nil || key == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	k := norm(key)
	if o, ok := c.m[k]; ok {
		c.cost -= o.cost
		delete(c.m, k)
		for i, x := range c.order {
			if x == k {
				c.order = append(c.order[:i], c.order[i+1:]...)
				break
			}
		}
	}
}

func (c *Cache) GetTTL(key any) (time.Duration, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	e, ok := c.m[norm(key)]
	if !ok {
		return 0, false
	}
	if e.exp.IsZero() {
		return 0, true
	}
	return e.exp.Sub(rt.Now()), true
}

func (c *Cache) Wait() { rt.Y(rt.SiteLock) }

func (c *Cache) Clear() {
	rt.Y(rt.SiteLock)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m, c.order, c.cost = map[any]entry{}, nil, 0
}

func (c *Cache) Close() {
	rt.Y(rt.SiteLock)
	if c == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
}

func (c *Cache) MaxCost() int64        { return c.cfg.MaxCost }
func (c *Cache) UpdateMaxCost(n int64) { c.cfg.MaxCost = n }
