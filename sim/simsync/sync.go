// Package simsync stands in for package sync under the simulated scheduler.
package simsync

import (
	"sync"

	"github.com/go-air/dupi/zz/rt"
)

type Locker = sync.Locker

type Mutex struct{ rt.Mutex }

type RWMutex struct{ rt.RWMutex }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ g rt.WaitGroup }

func (g *WaitGroup) Add(n int) { g.g.Add(n) }
func (g *WaitGroup) Done()     { g.g.Add(-1) }
func (g *WaitGroup) Wait()     { g.g.Wait() }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

type Cond struct {
	L Locker
	q rt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := c.q.Enqueue()
	c.L.Unlock()
	c.q.Wait(s)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.q.Wake(false) }
func (c *Cond) Broadcast() { c.q.Wake(true) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		rt.Yield()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[R any](f func() R) func() R {
	var o Once
	var r R
	return func() R {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[R1, R2 any](f func() (R1, R2)) func() (R1, R2) {
	var o Once
	var r1 R1
	var r2 R2
	return func() (R1, R2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// Pool hands back the most recently put item, always.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	rt.Yield()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	rt.Yield()
	if x != nil {
		p.l = append(p.l, x)
	}
}

// Map is a concurrent map; ranging follows insertion order.
type Map struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	rt.Yield()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) store(k, v interface{}) {
	if m.m == nil {
		m.m = make(map[interface{}]interface{})
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Store(k, v interface{}) { rt.Yield(); m.store(k, v) }

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	rt.Yield()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	rt.Yield()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Delete(k interface{}) { rt.Yield(); m.del(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	rt.Yield()
	x, ok := m.m[k]
	m.store(k, v)
	return x, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	rt.Yield()
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.m[k] = n
	return true
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	rt.Yield()
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() { m.keys, m.m = nil, nil }

func (m *Map) Range(f func(k, v interface{}) bool) {
	rt.Yield()
	for _, k := range append([]interface{}(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
