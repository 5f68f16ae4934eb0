package rt

import (
	"fmt"
	"reflect"
)

// Channels of the instrumented code keep their Go types; their state lives
// in a side table keyed by the channel's address, and every operation on them
// goes through this file.

type selState struct {
	fired bool
	idx   int
}

type waiter struct {
	sel *selState
	idx int
	val interface{} // value sent, or value received
	ok  bool
}

type chanState struct {
	ref    interface{} // keeps the channel alive, so its address stays unique
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

func (w *World) chanOf(ch interface{}) *chanState {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	c := w.chans[p]
	if c == nil {
		c = &chanState{ref: ch, cap: v.Cap(), id: len(w.chans)}
		w.chans[p] = c
	}
	return c
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.sel.fired {
			return x
		}
	}
	return nil
}

// trySend attempts the send without waiting.
func (c *chanState) trySend(v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if r := popWaiter(&c.recvq); r != nil {
		r.val, r.ok = v, true
		r.sel.fired, r.sel.idx = true, r.idx
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *chanState) tryRecv() (v interface{}, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if s := popWaiter(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			s.ok = true
			s.sel.fired, s.sel.idx = true, s.idx
		}
		return v, true, true
	}
	if s := popWaiter(&c.sendq); s != nil {
		s.ok = true
		s.sel.fired, s.sel.idx = true, s.idx
		return s.val, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func world() *World {
	if W == nil {
		panic("rt: channel operation outside a simulation")
	}
	return W
}

func never() bool { return false }

// Send is ch <- v, written Send(ch)(v).
func Send[C any](ch chan<- C) func(C) {
	return func(v C) {
		w := world()
		w.SyncOp()
		c := w.chanOf(ch)
		if c == nil {
			w.Block("send on nil channel", never)
			return
		}
		if c.trySend(v) {
			return
		}
		s := &selState{}
		x := &waiter{sel: s, val: v}
		c.sendq = append(c.sendq, x)
		w.Block(fmt.Sprintf("channel %d send", c.id), func() bool { return s.fired })
		if !x.ok {
			panic("send on closed channel")
		}
	}
}

// Recv is <-ch.
func Recv[C any](ch <-chan C) C {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[C any](ch <-chan C) (C, bool) {
	w := world()
	w.SyncOp()
	c := w.chanOf(ch)
	if c == nil {
		w.Block("receive on nil channel", never)
	}
	v, ok, done := c.tryRecv()
	if !done {
		s := &selState{}
		x := &waiter{sel: s}
		c.recvq = append(c.recvq, x)
		w.Block(fmt.Sprintf("channel %d receive", c.id), func() bool { return s.fired })
		v, ok = x.val, x.ok
	}
	return as[C](v), ok
}

func as[C any](v interface{}) C {
	if v == nil {
		var z C
		return z
	}
	return v.(C)
}

// Close is close(ch).
func Close[C any](ch chan<- C) {
	w := world()
	w.SyncOp()
	c := w.chanOf(ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for x := popWaiter(&c.recvq); x != nil; x = popWaiter(&c.recvq) {
		x.sel.fired, x.sel.idx = true, x.idx
	}
	for x := popWaiter(&c.sendq); x != nil; x = popWaiter(&c.sendq) {
		x.sel.fired, x.sel.idx = true, x.idx
	}
}

// Len is len(ch).
func Len(ch interface{}) int {
	w := world()
	w.SyncOp()
	c := w.chanOf(ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// SelCase is one communication clause of a select.
type SelCase interface {
	state(w *World) *chanState
	send() bool
	sval() interface{}
	got(v interface{}, ok bool)
}

type RCase[C any] struct {
	ch <-chan C
	V  C
	Ok bool
}

func RecvCase[C any](ch <-chan C) *RCase[C]    { return &RCase[C]{ch: ch} }
func (r *RCase[C]) state(w *World) *chanState  { return w.chanOf(r.ch) }
func (r *RCase[C]) send() bool                 { return false }
func (r *RCase[C]) sval() interface{}          { return nil }
func (r *RCase[C]) got(v interface{}, ok bool) { r.V, r.Ok = as[C](v), ok }

type SCase[C any] struct {
	ch chan<- C
	v  C
}

func SendCase[C any](ch chan<- C) func(C) *SCase[C] {
	return func(v C) *SCase[C] { return &SCase[C]{ch, v} }
}
func (r *SCase[C]) state(w *World) *chanState  { return w.chanOf(r.ch) }
func (r *SCase[C]) send() bool                 { return true }
func (r *SCase[C]) sval() interface{}          { return r.v }
func (r *SCase[C]) got(v interface{}, ok bool) {}

// Select performs a select statement and returns the index of the clause
// taken, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	w := world()
	w.SyncOp()
	st := make([]*chanState, len(cases))
	for i, c := range cases {
		st[i] = c.state(w)
	}
	order := w.rng.Perm(len(cases))
	if w.opt.UseTrace {
		for i := range order {
			order[i] = i
		}
	}
	for _, i := range order {
		c := st[i]
		if c == nil {
			continue
		}
		if cases[i].send() {
			if c.trySend(cases[i].sval()) {
				return i
			}
			continue
		}
		if v, ok, done := c.tryRecv(); done {
			cases[i].got(v, ok)
			return i
		}
	}
	if hasDefault {
		return -1
	}
	s := &selState{}
	ws := make([]*waiter, len(cases))
	for i := range cases {
		c := st[i]
		if c == nil {
			continue
		}
		x := &waiter{sel: s, idx: i}
		ws[i] = x
		if cases[i].send() {
			x.val = cases[i].sval()
			c.sendq = append(c.sendq, x)
		} else {
			c.recvq = append(c.recvq, x)
		}
	}
	w.Block("select", func() bool { return s.fired })
	x := ws[s.idx]
	if cases[s.idx].send() {
		if !x.ok {
			panic("send on closed channel")
		}
	} else {
		cases[s.idx].got(x.val, x.ok)
	}
	return s.idx
}

// Done is a channel that becomes closed when Close is called from the runtime
// (timers); used by the simulated time package.
func TimerSend[C any](ch chan C, v C) {
	c := W.chanOf(ch)
	if c.closed {
		return
	}
	defer func() { recover() }()
	c.trySend(v)
}

// CloseQuiet closes a channel from the runtime: no scheduling point.
func CloseQuiet[C any](ch chan C) {
	c := W.chanOf(ch)
	if c == nil || c.closed {
		return
	}
	c.closed = true
	for x := popWaiter(&c.recvq); x != nil; x = popWaiter(&c.recvq) {
		x.sel.fired, x.sel.idx = true, x.idx
	}
	for x := popWaiter(&c.sendq); x != nil; x = popWaiter(&c.sendq) {
		x.sel.fired, x.sel.idx = true, x.idx
	}
}

// ChanIt drives for v := range ch.
type ChanIt[C any] struct{ ch <-chan C }

func ChanIter[C any](ch <-chan C) (ChanIt[C], C) {
	var z C
	return ChanIt[C]{ch}, z
}

func (i ChanIt[C]) Next(p *C) bool {
	v, ok := Recv2(i.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// MapIt drives for k, v := range m.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func MapIter[K comparable, V any](m map[K]V) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return &MapIt[K, V]{m: m, keys: MapKeys(m)}, k, v
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
