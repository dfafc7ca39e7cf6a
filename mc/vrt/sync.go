package vrt

import (
	"runtime"
	"sync"
)

// block makes the thread wait until another thread readies it.
func (x *Exec) block(t *Thread, d opDesc) {
	x.step(d, func() bool { return t.ready })
	t.ready = false
}

// readyThread releases a blocked thread, ordering it after the releaser.
func (x *Exec) readyThread(w *Thread) {
	w.ready = true
	if r := x.running; r != nil {
		joinClock(&w.wakeClk, r.clock)
		joinClock(&w.wakeRv, r.rvc)
		if r.id < len(r.rvc) {
			r.rvc[r.id]++
		}
	}
}

func exitIfGone() {
	if gone() {
		runtime.Goexit()
	}
}

// tryLockSeen makes Unlock a scheduling point: only TryLock can observe the
// difference between a lock released now and a lock released later.
var tryLockSeen bool

// Mutex is the controlled sync.Mutex.
type Mutex struct {
	ref    objRef
	locked bool
	real   sync.Mutex
}

func (m *Mutex) sync(x *Exec) int32 {
	if m.ref.epoch != x.epoch {
		m.locked = false
	}
	return x.obj(&m.ref, "mutex")
}

func (m *Mutex) Lock() {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		m.real.Lock()
		return
	}
	o := m.sync(x)
	t := x.step(opDesc{obj: o, kind: opLock}, func() bool { return !m.locked })
	m.locked = true
	x.acquire(t, o)
}

func (m *Mutex) TryLock() bool {
	x := live()
	if x == nil {
		if gone() {
			return true
		}
		return m.real.TryLock()
	}
	tryLockSeen = true
	o := m.sync(x)
	t := x.step(opDesc{obj: o, kind: opTryLock}, nil)
	if m.locked {
		return false
	}
	m.locked = true
	x.acquire(t, o)
	return true
}

func (m *Mutex) Unlock() {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		m.real.Unlock()
		return
	}
	o := m.sync(x)
	if tryLockSeen {
		x.step(opDesc{obj: o, kind: opTryLock}, nil)
	}
	if !m.locked {
		x.failNow("panic", "fatal error: sync: unlock of unlocked mutex", stackHere())
	}
	m.locked = false
	t := x.running
	x.joinLock(o, t, true)
	x.release(t, o)
}

// joinLock records, for partial-order purposes, what a released lock orders
// before its next acquisition.
func (x *Exec) joinLock(o int32, t *Thread, writer bool) {
	c := x.lockClk[o]
	joinClock(&c, t.clock)
	x.lockClk[o] = c
	if writer {
		c := x.lockClkW[o]
		joinClock(&c, t.clock)
		x.lockClkW[o] = c
	}
}

// RWMutex is the controlled sync.RWMutex, with the real one's preference for a
// waiting writer.
type RWMutex struct {
	ref      objRef
	w        bool
	readers  int
	waiting  int
	anyR, wR []int32
	real     sync.RWMutex
}

func (m *RWMutex) sync(x *Exec) int32 {
	if m.ref.epoch != x.epoch {
		m.w, m.readers, m.waiting = false, 0, 0
		m.anyR, m.wR = nil, nil
	}
	return x.obj(&m.ref, "rwmutex")
}

func (m *RWMutex) Lock() {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		m.real.Lock()
		return
	}
	o := m.sync(x)
	x.step(opDesc{obj: o, kind: opLock}, nil) // announce: stops new readers
	m.waiting++
	t := x.step(opDesc{obj: o, kind: opLock}, func() bool { return !m.w && m.readers == 0 })
	m.waiting--
	m.w = true
	m.acq(t, true)
}

func (m *RWMutex) Unlock() {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		m.real.Unlock()
		return
	}
	o := m.sync(x)
	if tryLockSeen {
		x.step(opDesc{obj: o, kind: opTryLock}, nil)
	}
	if !m.w {
		x.failNow("panic", "fatal error: sync: Unlock of unlocked RWMutex", stackHere())
	}
	m.w = false
	m.rel(x, o, true)
}

// Readers release to writers only, writers to both: two read sections commute.
func (m *RWMutex) rel(x *Exec, o int32, writer bool) {
	t := x.running
	x.joinLock(o, t, writer)
	joinClock(&m.anyR, t.rvc)
	if writer {
		joinClock(&m.wR, t.rvc)
	}
	t.rvc[t.id]++
}

func (m *RWMutex) acq(t *Thread, writer bool) {
	if writer {
		joinClock(&t.rvc, m.anyR)
	} else {
		joinClock(&t.rvc, m.wR)
	}
}

func (m *RWMutex) RLock() {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		m.real.RLock()
		return
	}
	o := m.sync(x)
	t := x.step(opDesc{obj: o, kind: opRLock}, func() bool { return !m.w && m.waiting == 0 })
	m.readers++
	m.acq(t, false)
}

func (m *RWMutex) RUnlock() {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		m.real.RUnlock()
		return
	}
	o := m.sync(x)
	if tryLockSeen {
		x.step(opDesc{obj: o, kind: opTryLock}, nil)
	}
	if m.readers <= 0 {
		x.failNow("panic", "fatal error: sync: RUnlock of unlocked RWMutex", stackHere())
	}
	m.readers--
	m.rel(x, o, false)
}

func (m *RWMutex) TryLock() bool {
	x := live()
	if x == nil {
		if gone() {
			return true
		}
		return m.real.TryLock()
	}
	tryLockSeen = true
	o := m.sync(x)
	t := x.step(opDesc{obj: o, kind: opTryLock}, nil)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.acq(t, true)
	return true
}

func (m *RWMutex) TryRLock() bool {
	x := live()
	if x == nil {
		if gone() {
			return true
		}
		return m.real.TryRLock()
	}
	tryLockSeen = true
	o := m.sync(x)
	t := x.step(opDesc{obj: o, kind: opTryLock}, nil)
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	m.acq(t, false)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup is the controlled sync.WaitGroup, including its panics.
type WaitGroup struct {
	ref     objRef
	n       int
	waiters []*Thread
	real    sync.WaitGroup
}

func (w *WaitGroup) sync(x *Exec) int32 {
	if w.ref.epoch != x.epoch {
		w.n, w.waiters = 0, nil
	}
	return x.obj(&w.ref, "waitgroup")
}

func (w *WaitGroup) Add(delta int) {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		w.real.Add(delta)
		return
	}
	o := w.sync(x)
	k := opWgAdd
	if delta < 0 {
		k = opWgDone
	}
	t := x.step(opDesc{obj: o, kind: k}, nil)
	x.release(t, o)
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if len(w.waiters) > 0 && delta > 0 && w.n == delta {
		panic("sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	if w.n == 0 {
		for _, th := range w.waiters {
			x.readyThread(th)
		}
		w.waiters = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		w.real.Wait()
		return
	}
	o := w.sync(x)
	if !x.ex.WgReuse {
		t := x.step(opDesc{obj: o, kind: opWgWait}, func() bool { return w.n == 0 })
		x.acquire(t, o)
		return
	}
	t := x.step(opDesc{obj: o, kind: opWgReg}, nil)
	if w.n == 0 {
		x.acquire(t, o)
		return
	}
	w.waiters = append(w.waiters, t)
	x.block(t, opDesc{obj: o, kind: opWgWake})
	if w.n != 0 || len(w.waiters) != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
	x.acquire(t, o)
}

// Go mirrors sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is the controlled sync.Once.
type Once struct {
	ref     objRef
	running bool
	done    bool
	real    sync.Once
}

func (c *Once) sync(x *Exec) int32 {
	if c.ref.epoch != x.epoch {
		c.running, c.done = false, false
	}
	return x.obj(&c.ref, "once")
}

func (c *Once) Do(f func()) {
	x := live()
	if x == nil {
		if gone() {
			runtime.Goexit()
		}
		c.real.Do(f)
		return
	}
	o := c.sync(x)
	t := x.step(opDesc{obj: o, kind: opLock}, func() bool { return !c.running })
	x.acquire(t, o)
	if c.done {
		return
	}
	c.running = true
	defer func() {
		if gone() {
			return
		}
		c.running = false
		c.done = true
		x.joinLock(o, t, true)
		x.release(t, o)
	}()
	f()
}

// OnceFunc mirrors sync.OnceFunc (without its panic replay).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool is the controlled sync.Pool: last in first out, and with PoolMiss the
// explorer decides which item (or none) a Get returns.
type Pool struct {
	New   func() any
	ref   objRef
	items []any
	real  sync.Pool
}

func (p *Pool) sync(x *Exec) int32 {
	if p.ref.epoch != x.epoch {
		p.items = nil
	}
	return x.obj(&p.ref, "pool")
}

func (p *Pool) Get() any {
	x := live()
	if x == nil {
		exitIfGone()
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	o := p.sync(x)
	t := x.step(opDesc{obj: o, kind: opWrite}, nil)
	x.acquire(t, o)
	if n := len(p.items); n > 0 {
		k := 0
		if x.ex.PoolMiss {
			k = Choose(n+1, "pool")
		}
		if k < n {
			i := n - 1 - k
			v := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		p.real.Put(v)
		return
	}
	if v == nil {
		return
	}
	o := p.sync(x)
	t := x.step(opDesc{obj: o, kind: opWrite}, nil)
	x.release(t, o)
	p.items = append(p.items, v)
}

// Map is the controlled sync.Map.
type Map struct {
	ref  objRef
	m    map[any]any
	keys []any
	real sync.Map
}

func (m *Map) op(k opKind) (*Exec, bool) {
	x := live()
	if x == nil {
		exitIfGone()
		return nil, false
	}
	if m.ref.epoch != x.epoch {
		m.m, m.keys = nil, nil
	}
	o := x.obj(&m.ref, "syncmap")
	t := x.step(opDesc{obj: o, kind: k}, nil)
	if k == opRead {
		x.acquire(t, o)
	} else {
		x.acqRel(t, o)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	return x, true
}

func (m *Map) Load(k any) (any, bool) {
	if _, ok := m.op(opRead); !ok {
		return m.real.Load(k)
	}
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, q := range m.keys {
			if q == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v any) {
	if _, ok := m.op(opWrite); !ok {
		m.real.Store(k, v)
		return
	}
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if _, ok := m.op(opWrite); !ok {
		return m.real.LoadOrStore(k, v)
	}
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	if _, ok := m.op(opWrite); !ok {
		return m.real.LoadAndDelete(k)
	}
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	if _, ok := m.op(opWrite); !ok {
		return m.real.Swap(k, v)
	}
	o, had := m.m[k]
	m.set(k, v)
	return o, had
}

func (m *Map) CompareAndSwap(k, old, nw any) bool {
	if _, ok := m.op(opWrite); !ok {
		return m.real.CompareAndSwap(k, old, nw)
	}
	if v, ok := m.m[k]; ok && v == old {
		m.set(k, nw)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	if _, ok := m.op(opWrite); !ok {
		return m.real.CompareAndDelete(k, old)
	}
	if v, ok := m.m[k]; ok && v == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	if _, ok := m.op(opWrite); !ok {
		m.real.Clear()
		return
	}
	m.m, m.keys = map[any]any{}, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	if _, ok := m.op(opRead); !ok {
		m.real.Range(f)
		return
	}
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

// Cond is the controlled sync.Cond.
type Cond struct {
	L       sync.Locker
	ref     objRef
	waiters []*Thread
	real    *sync.Cond
}

// NewCond mirrors sync.NewCond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	if c.real == nil {
		c.real = sync.NewCond(c.L)
	}
	return c.real
}

func (c *Cond) Wait() {
	x := live()
	if x == nil {
		exitIfGone()
		c.r().Wait()
		return
	}
	if c.ref.epoch != x.epoch {
		c.waiters = nil
	}
	o := x.obj(&c.ref, "cond")
	t := x.step(opDesc{obj: o, kind: opWrite}, nil)
	c.waiters = append(c.waiters, t)
	c.L.Unlock()
	x.block(t, opDesc{kind: opLocal})
	c.L.Lock()
}

func (c *Cond) wakeN(all bool) {
	x := live()
	if x == nil {
		if gone() {
			return
		}
		if all {
			c.r().Broadcast()
		} else {
			c.r().Signal()
		}
		return
	}
	if c.ref.epoch != x.epoch {
		c.waiters = nil
	}
	o := x.obj(&c.ref, "cond")
	x.step(opDesc{obj: o, kind: opWrite}, nil)
	for len(c.waiters) > 0 {
		x.readyThread(c.waiters[0])
		c.waiters = c.waiters[1:]
		if !all {
			break
		}
	}
}

func (c *Cond) Signal()    { c.wakeN(false) }
func (c *Cond) Broadcast() { c.wakeN(true) }
