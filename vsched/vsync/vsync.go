// Package vsync is a drop-in for sync whose blocking is decided by the controlled scheduler.
package vsync

import (
	"sync"

	"vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type state struct {
	ep uint64
}

func (s *state) fresh() bool {
	if e := vsched.Epoch(); s.ep != e {
		s.ep = e
		return true
	}
	return false
}

// Mutex is a controlled sync.Mutex.
type Mutex struct {
	st     state
	locked bool
	vc     vsched.VC
}

func (m *Mutex) sync() {
	if m.st.fresh() {
		m.locked, m.vc = false, nil
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	m.sync()
	vsched.Point("Lock")
	if m.locked {
		vsched.Block("Mutex.Lock", func() bool { return !m.locked })
	}
	m.locked = true
	vsched.Acquire(m.vc)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	m.sync()
	vsched.Point("TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Acquire(m.vc)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.sync()
	if vsched.Aborting() {
		m.locked = false
		return
	}
	if !m.locked {
		vsched.Fatal("sync: unlock of unlocked mutex")
	}
	vsched.Release(&m.vc)
	m.locked = false
	vsched.After("Unlock")
}

// RWMutex is a controlled sync.RWMutex; a waiting writer blocks new readers, as in the real one.
type RWMutex struct {
	st      state
	writer  bool
	readers int
	pending int
	vc      vsched.VC // writers
	rvc     vsched.VC // readers
}

func (m *RWMutex) sync() {
	if m.st.fresh() {
		m.writer, m.readers, m.pending, m.vc, m.rvc = false, 0, 0, nil, nil
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	m.sync()
	vsched.Point("Lock")
	if m.writer || m.readers > 0 {
		m.pending++
		vsched.Block("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
		m.pending--
	}
	m.writer = true
	vsched.Acquire(m.vc)
	vsched.Acquire(m.rvc)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	m.sync()
	vsched.Point("TryLock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.Acquire(m.vc)
	vsched.Acquire(m.rvc)
	return true
}

// Unlock unlocks a writer.
func (m *RWMutex) Unlock() {
	m.sync()
	if vsched.Aborting() {
		m.writer = false
		return
	}
	if !m.writer {
		vsched.Fatal("sync: Unlock of unlocked RWMutex")
	}
	vsched.Release(&m.vc)
	m.writer = false
	vsched.After("Unlock")
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	m.sync()
	vsched.Point("RLock")
	if m.writer || m.pending > 0 {
		// A reader that arrives behind a writer is let in once that writer is done.
		gate := m.pending
		vsched.Block("RWMutex.RLock", func() bool { return !m.writer && (m.pending == 0 || m.pending < gate) })
	}
	m.readers++
	vsched.Acquire(m.vc)
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	m.sync()
	vsched.Point("TryRLock")
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	vsched.Acquire(m.vc)
	return true
}

// RUnlock unlocks a reader.
func (m *RWMutex) RUnlock() {
	m.sync()
	if vsched.Aborting() {
		if m.readers > 0 {
			m.readers--
		}
		return
	}
	if m.readers <= 0 {
		vsched.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	vsched.Release(&m.rvc)
	m.readers--
	vsched.After("RUnlock")
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a controlled sync.WaitGroup.
type WaitGroup struct {
	st      state
	n       int
	waiters []*bool
	vc      vsched.VC
}

func (w *WaitGroup) sync() {
	if w.st.fresh() {
		w.n, w.waiters, w.vc = 0, nil, nil
	}
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	w.sync()
	if vsched.Aborting() {
		w.n += delta
		return
	}
	vsched.Point("WaitGroup.Add")
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if delta < 0 {
		vsched.Release(&w.vc)
	}
	if w.n == 0 {
		for _, x := range w.waiters {
			*x = true
		}
		w.waiters = nil
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits until the counter is zero.
func (w *WaitGroup) Wait() {
	w.sync()
	vsched.Point("WaitGroup.Wait")
	if w.n == 0 {
		vsched.Acquire(w.vc)
		return
	}
	released := false
	w.waiters = append(w.waiters, &released)
	vsched.Block("WaitGroup.Wait", func() bool { return released })
	vsched.Acquire(w.vc)
	if w.n != 0 || len(w.waiters) != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a controlled sync.Once.
type Once struct {
	st      state
	done    bool
	running bool
	vc      vsched.VC
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if o.st.fresh() {
		// An object that lives across executions keeps having run (its effects persist too), unless it was cut off.
		o.running, o.vc = false, nil
	}
	vsched.Point("Once.Do")
	if o.running {
		vsched.Block("Once.Do", func() bool { return !o.running })
	}
	if o.done {
		vsched.Acquire(o.vc)
		return
	}
	o.running = true
	defer func() {
		o.running = false
		o.done = true
		if !vsched.Aborting() {
			vsched.Release(&o.vc)
		}
	}()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is a controlled sync.Cond.
type Cond struct {
	L       Locker
	st      state
	waiters []*bool
	vc      vsched.VC
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) sync() {
	if c.st.fresh() {
		c.waiters, c.vc = nil, nil
	}
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	c.sync()
	woken := false
	c.waiters = append(c.waiters, &woken)
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return woken })
	vsched.Acquire(c.vc)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	c.sync()
	vsched.Point("Cond.Signal")
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
		vsched.Release(&c.vc)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	c.sync()
	vsched.Point("Cond.Broadcast")
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	vsched.Release(&c.vc)
}

// Pool is a deterministic sync.Pool: a plain LIFO list, emptied between executions.
type Pool struct {
	New   func() any
	st    state
	items []any
}

// Get takes an item.
func (p *Pool) Get() any {
	if p.st.fresh() {
		p.items = nil
	}
	vsched.Point("Pool.Get")
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil || vsched.Aborting() {
		return
	}
	if p.st.fresh() {
		p.items = nil
	}
	vsched.Point("Pool.Put")
	p.items = append(p.items, x)
}

// Map is a controlled sync.Map: every call is one atomic step.
type Map struct {
	m    map[any]any
	keys []any
	vc   vsched.VC
}

func (m *Map) step(what string) {
	if vsched.Aborting() {
		return
	}
	vsched.Point(what)
	vsched.Acquire(m.vc)
	vsched.Release(&m.vc)
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(key any) (value any, ok bool) {
	m.step("Map.Load")
	value, ok = m.m[key]
	return
}

func (m *Map) Store(key, value any) {
	m.step("Map.Store")
	m.set(key, value)
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.step("Map.LoadOrStore")
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.set(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.step("Map.LoadAndDelete")
	value, loaded = m.m[key]
	m.del(key)
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.step("Map.Swap")
	previous, loaded = m.m[key]
	m.set(key, value)
	return
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.step("Map.CompareAndSwap")
	if v, ok := m.m[key]; ok && v == old {
		m.set(key, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.step("Map.CompareAndDelete")
	if v, ok := m.m[key]; ok && v == old {
		m.del(key)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.step("Map.Clear")
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(key, value any) bool) {
	keys := append([]any(nil), m.keys...)
	for _, k := range keys {
		m.step("Map.Range")
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
