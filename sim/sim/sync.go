package sim

import (
	"fmt"
	"os"
	"unsafe"
)

func fatal(msg string) {
	r := R
	if r == nil {
		panic("fatal error: " + msg)
	}
	if r.aborted {
		return
	}
	r.res.Panic = "fatal error: " + msg + "\n" + trimStack(stack())
	r.abort("panic")
}

// Mutex stands in for sync.Mutex.
type Mutex struct {
	locked bool
	epoch  uint64
	race   byte
}

func (m *Mutex) fresh(r *Run) {
	if m.epoch != r.epoch {
		m.epoch = r.epoch
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	r := R
	if r == nil {
		return
	}
	if r.aborted {
		return
	}
	m.fresh(r)
	if r.atomic > 0 {
		raceAcquire(unsafe.Pointer(&m.race))
		return
	}
	r.syncPoint()
	for m.locked {
		r.block(unsafe.Pointer(m), "Mutex.Lock")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.race))
}

func (m *Mutex) TryLock() bool {
	r := R
	if r == nil || r.aborted {
		return true
	}
	m.fresh(r)
	r.syncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.race))
	return true
}

func (m *Mutex) Unlock() {
	r := R
	if r == nil || r.aborted {
		return
	}
	m.fresh(r)
	if r.atomic > 0 {
		raceRelease(unsafe.Pointer(&m.race))
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.race))
	m.locked = false
	r.wakeAll(unsafe.Pointer(m))
	r.syncPoint()
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
	pending int
	epoch   uint64
	raceW   byte
	raceR   byte
}

func (m *RWMutex) fresh(r *Run) {
	if m.epoch != r.epoch {
		*m = RWMutex{epoch: r.epoch}
	}
}

func (m *RWMutex) Lock() {
	r := R
	if r == nil || r.aborted {
		return
	}
	m.fresh(r)
	if r.atomic > 0 {
		raceAcquire(unsafe.Pointer(&m.raceW))
		raceAcquire(unsafe.Pointer(&m.raceR))
		return
	}
	r.syncPoint()
	m.pending++
	for m.writer || m.readers > 0 {
		r.block(unsafe.Pointer(m), "RWMutex.Lock")
	}
	m.pending--
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.raceW))
	raceAcquire(unsafe.Pointer(&m.raceR))
}

func (m *RWMutex) TryLock() bool {
	r := R
	if r == nil || r.aborted {
		return true
	}
	m.fresh(r)
	r.syncPoint()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.raceW))
	raceAcquire(unsafe.Pointer(&m.raceR))
	return true
}

func (m *RWMutex) Unlock() {
	r := R
	if r == nil || r.aborted {
		return
	}
	m.fresh(r)
	if r.atomic > 0 {
		raceRelease(unsafe.Pointer(&m.raceW))
		return
	}
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.raceW))
	m.writer = false
	r.wakeAll(unsafe.Pointer(m))
	r.syncPoint()
}

func (m *RWMutex) RLock() {
	r := R
	if r == nil || r.aborted {
		return
	}
	m.fresh(r)
	if r.atomic > 0 {
		raceAcquire(unsafe.Pointer(&m.raceW))
		return
	}
	r.syncPoint()
	for m.writer || m.pending > 0 {
		r.block(unsafe.Pointer(m), "RWMutex.RLock")
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.raceW))
}

func (m *RWMutex) TryRLock() bool {
	r := R
	if r == nil || r.aborted {
		return true
	}
	m.fresh(r)
	r.syncPoint()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.raceW))
	return true
}

func (m *RWMutex) RUnlock() {
	r := R
	if r == nil || r.aborted {
		return
	}
	m.fresh(r)
	if r.atomic > 0 {
		raceReleaseMerge(unsafe.Pointer(&m.raceR))
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.raceR))
	m.readers--
	r.wakeAll(unsafe.Pointer(m))
	r.syncPoint()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n     int
	epoch uint64
	race  byte
}

func (w *WaitGroup) fresh(r *Run) {
	if w.epoch != r.epoch {
		w.epoch = r.epoch
		w.n = 0
	}
}

func (w *WaitGroup) Add(d int) {
	r := R
	if r == nil || r.aborted {
		return
	}
	w.fresh(r)
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.race))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		r.wakeAll(unsafe.Pointer(w))
	}
	r.syncPoint()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	r := R
	if r == nil || r.aborted {
		return
	}
	w.fresh(r)
	r.syncPoint()
	for w.n > 0 {
		r.block(unsafe.Pointer(w), "WaitGroup.Wait")
	}
	raceAcquire(unsafe.Pointer(&w.race))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands in for sync.Once.
type Once struct {
	m     Mutex
	done  bool
	epoch uint64
	race  byte
}

func (o *Once) Do(f func()) {
	r := R
	if r == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if o.done {
		raceAcquire(unsafe.Pointer(&o.race))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

func (o *Once) finish() {
	raceRelease(unsafe.Pointer(&o.race))
	o.done = true
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(Once)
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond stands in for sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWaiter
}

type condWaiter struct {
	g    *G
	done bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	r := R
	if r == nil || r.aborted {
		return
	}
	w := &condWaiter{g: r.cur}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	for !w.done {
		r.block(unsafe.Pointer(w), "Cond.Wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	r := R
	if r == nil || r.aborted {
		return
	}
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.done = true
		r.wakeAll(unsafe.Pointer(w))
	}
	r.syncPoint()
}

func (c *Cond) Broadcast() {
	r := R
	if r == nil || r.aborted {
		return
	}
	for _, w := range c.waiters {
		w.done = true
		r.wakeAll(unsafe.Pointer(w))
	}
	c.waiters = nil
	r.syncPoint()
}

// ---- channels ----

type chanItem struct {
	v any
}

type chanWaiter struct {
	g    *G
	v    any
	ok   bool
	done bool
	sel  *selState // non-nil: part of a select
	idx  int
	race byte
}

type selState struct {
	fired bool
	idx   int
	v     any
	ok    bool
}

type chanState struct {
	ptr    unsafe.Pointer
	keep   any
	next   *chanState
	cap    int
	buf    []any
	closed bool
	recvq  []*chanWaiter
	sendq  []*chanWaiter
	nsent  int
	nrecv  int
	slots  []byte
	raceC  byte
	raceU  byte
}

func (r *Run) chanOf(p unsafe.Pointer, capacity int, keep any) *chanState {
	h := (uintptr(p) >> 5) % uintptr(len(r.chans))
	for c := r.chans[h]; c != nil; c = c.next {
		if c.ptr == p {
			return c
		}
	}
	c := &chanState{ptr: p, cap: capacity, keep: keep, next: r.chans[h]}
	n := capacity
	if n < 1 {
		n = 1
	}
	if n > 1<<16 {
		n = 1 << 16
	}
	c.slots = make([]byte, n)
	r.chans[h] = c
	return c
}

func (c *chanState) popRecv() *chanWaiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (c *chanState) popSend() *chanWaiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (c *chanState) hasRecv() bool {
	for _, w := range c.recvq {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *chanState) hasSend() bool {
	for _, w := range c.sendq {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (w *chanWaiter) complete(r *Run, v any, ok bool) {
	w.v = v
	w.ok = ok
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.v = v
		w.sel.ok = ok
	}
	r.wakeG(w.g)
}

func (c *chanState) slot(n int) unsafe.Pointer { return unsafe.Pointer(&c.slots[n%len(c.slots)]) }

// trySend performs the send if it can go on now.
func (c *chanState) trySend(r *Run, v any) bool {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := c.popRecv(); w != nil {
		// hand over directly: both sides synchronise
		raceReleaseMerge(unsafe.Pointer(&w.race))
		raceAcquire(unsafe.Pointer(&c.raceU))
		w.complete(r, v, true)
		c.nsent++
		c.nrecv++
		return true
	}
	if len(c.buf) < c.cap {
		s := c.slot(c.nsent)
		raceAcquire(s)
		raceRelease(s)
		c.nsent++
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *chanState) tryRecv(r *Run) (v any, ok bool, did bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		s := c.slot(c.nrecv)
		raceAcquire(s)
		raceRelease(s)
		c.nrecv++
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.v)
			s := c.slot(c.nsent)
			c.nsent++
			// the blocked sender released into its waiter when it enqueued
			raceAcquire(unsafe.Pointer(&w.race))
			raceReleaseMerge(s)
			w.complete(r, nil, true)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		raceAcquire(unsafe.Pointer(&w.race))
		raceReleaseMerge(unsafe.Pointer(&w.race))
		v = w.v
		w.complete(r, nil, true)
		c.nsent++
		c.nrecv++
		return v, true, true
	}
	if c.closed {
		raceAcquire(unsafe.Pointer(&c.raceC))
		return nil, false, true
	}
	return nil, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func (r *Run) blockForever(why string) {
	for {
		r.block(unsafe.Pointer(r), why)
	}
}

func chanSend(p unsafe.Pointer, capacity int, keep any, v any) {
	r := R
	if r == nil {
		panic("channel operation outside a run")
	}
	if r.aborted {
		r.abort("")
	}
	r.syncPoint()
	if p == nil {
		r.blockForever("send on nil channel")
	}
	c := r.chanOf(p, capacity, keep)
	if c.trySend(r, v) {
		r.syncPoint()
		return
	}
	w := &chanWaiter{g: r.cur, v: v}
	raceReleaseMerge(unsafe.Pointer(&w.race))
	c.sendq = append(c.sendq, w)
	for !w.done {
		r.block(unsafe.Pointer(w), "channel send")
	}
	if !w.ok {
		panic(plainError("send on closed channel"))
	}
	raceAcquire(unsafe.Pointer(&w.race))
}

func chanRecv(p unsafe.Pointer, capacity int, keep any) (any, bool) {
	r := R
	if r == nil {
		panic("channel operation outside a run")
	}
	if r.aborted {
		r.abort("")
	}
	r.syncPoint()
	if p == nil {
		r.blockForever("receive from nil channel")
	}
	c := r.chanOf(p, capacity, keep)
	if v, ok, did := c.tryRecv(r); did {
		r.syncPoint()
		return v, ok
	}
	w := &chanWaiter{g: r.cur}
	raceReleaseMerge(unsafe.Pointer(&c.raceU))
	c.recvq = append(c.recvq, w)
	for !w.done {
		r.block(unsafe.Pointer(w), "channel receive")
	}
	if w.ok {
		raceAcquire(unsafe.Pointer(&w.race))
	} else {
		raceAcquire(unsafe.Pointer(&c.raceC))
	}
	return w.v, w.ok
}

func chanClose(p unsafe.Pointer, capacity int, keep any) {
	r := R
	if r == nil || r.aborted {
		return
	}
	r.syncPoint()
	if p == nil {
		panic(plainError("close of nil channel"))
	}
	c := r.chanOf(p, capacity, keep)
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	raceRelease(unsafe.Pointer(&c.raceC))
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.complete(r, nil, false)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.complete(r, nil, false)
	}
	r.syncPoint()
}

func chanLen(p unsafe.Pointer, capacity int, keep any) int {
	r := R
	if r == nil || p == nil {
		return 0
	}
	return len(r.chanOf(p, capacity, keep).buf)
}

// SelCase is one case of a select statement.
type SelCase struct {
	p    unsafe.Pointer
	cap  int
	keep any
	send bool
	v    any
}

// Select performs a select; idx is -1 for default.
func Select(hasDefault bool, cases ...SelCase) (int, any, bool) {
	r := R
	if r == nil {
		panic("select outside a run")
	}
	if r.aborted {
		r.abort("")
	}
	r.syncPoint()
	ready := 0
	for i := range cases {
		if cases[i].ready(r) {
			ready++
		}
	}
	if ready > 0 {
		k := r.sched0(ready)
		for i := range cases {
			if !cases[i].ready(r) {
				continue
			}
			if k > 0 {
				k--
				continue
			}
			c := r.chanOf(cases[i].p, cases[i].cap, cases[i].keep)
			if cases[i].send {
				c.trySend(r, cases[i].v)
				return i, nil, true
			}
			v, ok, _ := c.tryRecv(r)
			return i, v, ok
		}
	}
	if hasDefault {
		return -1, nil, false
	}
	st := &selState{}
	ws := make([]*chanWaiter, len(cases))
	for i := range cases {
		if cases[i].p == nil {
			continue
		}
		c := r.chanOf(cases[i].p, cases[i].cap, cases[i].keep)
		w := &chanWaiter{g: r.cur, sel: st, idx: i, v: cases[i].v}
		ws[i] = w
		if cases[i].send {
			raceReleaseMerge(unsafe.Pointer(&w.race))
			c.sendq = append(c.sendq, w)
		} else {
			raceReleaseMerge(unsafe.Pointer(&c.raceU))
			c.recvq = append(c.recvq, w)
		}
	}
	for !st.fired {
		r.block(unsafe.Pointer(st), "select")
	}
	if cases[st.idx].send && !st.ok {
		panic(plainError("send on closed channel"))
	}
	raceAcquire(unsafe.Pointer(&ws[st.idx].race))
	if !st.ok {
		raceAcquire(unsafe.Pointer(&r.chanOf(cases[st.idx].p, cases[st.idx].cap, cases[st.idx].keep).raceC))
	}
	return st.idx, st.v, st.ok
}

// sched0 draws a choice that does not depend on whether decisions are replayed.
func (r *Run) sched0(n int) int { return r.mapr.Intn(n) }

func (s *SelCase) ready(r *Run) bool {
	if s.p == nil {
		return false
	}
	c := r.chanOf(s.p, s.cap, s.keep)
	if s.send {
		return c.closed || len(c.buf) < c.cap || c.hasRecv()
	}
	return len(c.buf) > 0 || c.closed || c.hasSend()
}

var _ = fmt.Sprint
var _ = os.Exit
