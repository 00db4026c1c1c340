// Package vsync mirrors package sync on top of the controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

type Locker = sync.Locker

type Mutex struct {
	real sync.Mutex
	held bool
	syn  byte
}

//go:norace
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point()
	if m.held {
		vsched.Block("Mutex.Lock", func() bool { return !m.held })
	}
	m.held = true
	vsched.RaceAcquire(unsafe.Pointer(&m.syn))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point()
	if m.held {
		return false
	}
	m.held = true
	vsched.RaceAcquire(unsafe.Pointer(&m.syn))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Killed() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.syn))
	m.held = false
}

type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int // writers waiting: later readers queue behind them
	syn     byte
	rsyn    byte
}

//go:norace
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point()
	if m.writer || m.readers > 0 {
		m.waiting++
		vsched.Block("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
	}
	m.writer = true
	vsched.RaceAcquire(unsafe.Pointer(&m.syn))
	vsched.RaceAcquire(unsafe.Pointer(&m.rsyn))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsched.RaceAcquire(unsafe.Pointer(&m.syn))
	vsched.RaceAcquire(unsafe.Pointer(&m.rsyn))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	if vsched.Killed() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.syn))
	m.writer = false
}

//go:norace
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	vsched.Point()
	if m.writer || m.waiting > 0 {
		vsched.Block("RWMutex.RLock", func() bool { return !m.writer })
	}
	m.readers++
	vsched.RaceAcquire(unsafe.Pointer(&m.syn))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	vsched.Point()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsched.RaceAcquire(unsafe.Pointer(&m.syn))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	if vsched.Killed() {
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.rsyn))
	m.readers--
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	real sync.WaitGroup
	n    int
	syn  byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	if vsched.Killed() {
		return
	}
	if d < 0 {
		vsched.RaceRelease(unsafe.Pointer(&w.syn))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	vsched.Point()
	if w.n > 0 {
		vsched.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	}
	vsched.RaceAcquire(unsafe.Pointer(&w.syn))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	real    sync.Once
	done    bool
	running bool
	syn     byte
}

//go:norace
func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.real.Do(func() {
			defer func() { o.done = true }()
			f()
		})
		return
	}
	vsched.Point()
	if o.running {
		vsched.Block("Once.Do", func() bool { return !o.running })
	}
	if o.done {
		vsched.RaceAcquire(unsafe.Pointer(&o.syn))
		return
	}
	o.running = true
	defer o.finish()
	f()
}

//go:norace
func (o *Once) finish() {
	vsched.RaceRelease(unsafe.Pointer(&o.syn))
	o.running, o.done = false, true
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var (
		o Once
		a A
		b B
	)
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L       Locker
	real    *sync.Cond
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	woken := false
	c.waiters = append(c.waiters, &woken)
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	vsched.Point()
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	vsched.Point()
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool keeps every value and returns the most recently stored one, which is
// the reuse a correct user must expect at any time.
type Pool struct {
	New func() any

	items [64]any
	n     int
	gen   int
	syn   byte
	real  sync.Pool
}

//go:norace
func (p *Pool) Get() any {
	if !vsched.Active() {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	p.fresh()
	if p.n > 0 {
		p.n--
		v := p.items[p.n]
		p.items[p.n] = nil
		vsched.RaceAcquire(unsafe.Pointer(&p.syn))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v any) {
	if !vsched.Active() {
		p.real.Put(v)
		return
	}
	if vsched.Killed() || v == nil {
		return
	}
	p.fresh()
	if p.n < len(p.items) {
		vsched.RaceRelease(unsafe.Pointer(&p.syn))
		p.items[p.n] = v
		p.n++
	}
}

// fresh empties a package-level pool between executions.
//
//go:norace
func (p *Pool) fresh() {
	if g := vsched.Generation(); p.gen != g {
		p.gen = g
		for i := 0; i < p.n; i++ {
			p.items[i] = nil
		}
		p.n = 0
	}
}

// Map iterates in insertion order.
type Map struct {
	mu   sync.Mutex
	keys []any
	m    map[any]any
	syn  byte
}

func (m *Map) enter(write bool) {
	vsched.PointIfActive()
	m.mu.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	_ = write
}

func (m *Map) Load(key any) (any, bool) {
	m.enter(false)
	defer m.mu.Unlock()
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) Store(key, value any) {
	m.Swap(key, value)
}

func (m *Map) Swap(key, value any) (any, bool) {
	m.enter(true)
	defer m.mu.Unlock()
	v, ok := m.m[key]
	if !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
	return v, ok
}

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.enter(true)
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.keys = append(m.keys, key)
	m.m[key] = value
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.enter(true)
	defer m.mu.Unlock()
	return m.del(key)
}

func (m *Map) del(key any) (any, bool) {
	v, ok := m.m[key]
	if ok {
		delete(m.m, key)
		for i, k := range m.keys {
			if k == key {
				m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, value any) bool {
	m.enter(true)
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		m.m[key] = value
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.enter(true)
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		m.del(key)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.enter(true)
	defer m.mu.Unlock()
	m.keys, m.m = nil, map[any]any{}
}

func (m *Map) Range(f func(key, value any) bool) {
	m.enter(false)
	keys := append([]any{}, m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
