package rt

import (
	"fmt"
	"reflect"
	"sort"
)

// Mutex state shared by the simulated sync types.
type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	w := W
	if w == nil {
		m.locked = true
		return
	}
	w.SyncOp()
	w.Block("mutex", func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if W != nil {
		W.SyncOp()
	}
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if W != nil {
		W.checkKilled()
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if W != nil {
		W.SyncOp()
	}
}

type RWMutex struct {
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	w := W
	if w == nil {
		m.writer = true
		return
	}
	w.SyncOp()
	m.waiting++
	w.Block("rwmutex", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if W != nil {
		W.SyncOp()
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if W != nil {
		W.checkKilled()
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	if W != nil {
		W.SyncOp()
	}
}

func (m *RWMutex) RLock() {
	w := W
	if w == nil {
		m.readers++
		return
	}
	w.SyncOp()
	// a waiting writer holds new readers back, as in the real one
	w.Block("rwmutex read", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if W != nil {
		W.SyncOp()
	}
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if W != nil {
		W.checkKilled()
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if W != nil {
		W.SyncOp()
	}
}

// WaitQ is a condition variable's queue.
type WaitQ struct {
	q []*selState
}

func (q *WaitQ) Enqueue() *selState {
	s := &selState{}
	q.q = append(q.q, s)
	return s
}

func (q *WaitQ) Wait(s *selState) {
	W.Block("cond", func() bool { return s.fired })
}

func (q *WaitQ) Wake(all bool) {
	W.SyncOp()
	for len(q.q) > 0 {
		q.q[0].fired = true
		q.q = q.q[1:]
		if !all {
			break
		}
	}
	W.SyncOp()
}

type WaitGroup struct {
	n int
}

func (g *WaitGroup) Add(d int) {
	if W != nil {
		W.checkKilled()
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if W != nil {
		W.SyncOp()
	}
}

func (g *WaitGroup) Wait() {
	w := world()
	w.SyncOp()
	w.Block("waitgroup", func() bool { return g.n == 0 })
}

// MapKeys returns the keys of m in an order that depends only on the seed.
func MapKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	less := func(i, j int) bool { return fmt.Sprintf("%#v", keys[i]) < fmt.Sprintf("%#v", keys[j]) }
	if len(keys) > 0 {
		switch reflect.TypeOf(keys[0]).Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			less = func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() }
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			less = func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() }
		case reflect.String:
			less = func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() }
		}
	}
	sort.SliceStable(keys, less)
	var seed uint64
	if W != nil {
		seed = W.mapSeed
	}
	p := NewRNG(seed + uint64(len(keys))).Perm(len(keys))
	out := make([]K, len(keys))
	for i, j := range p {
		out[i] = keys[j]
	}
	return out
}

// MapHas reports whether k is still in m.
func MapHas[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// GoDetached starts f as a task of the harness' choosing (timer callbacks).
func (w *World) GoDetached(f func()) { w.newTask(w.cur.proc, "timer", f) }
