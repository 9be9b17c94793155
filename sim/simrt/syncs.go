//go:build go1.22

package simrt

import "runtime"

func gate() *Sim {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	return s
}

// Mutex replaces sync.Mutex.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	Y(0)
	s := gate()
	_ = s
	if m.locked {
		Stat("lock_contention")
		Block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	gate()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	gate()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	Y(0)
}

// RWMutex replaces sync.RWMutex (a waiting writer blocks new readers, as in Go).
type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	Y(0)
	gate()
	if m.w || m.readers > 0 {
		Stat("lock_contention")
		m.waiting++
		Block("rwmutex lock", func() bool { return !m.w && m.readers == 0 })
		m.waiting--
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	gate()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	gate()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	Y(0)
}
func (m *RWMutex) RLock() {
	Y(0)
	gate()
	if m.w || m.waiting > 0 {
		Stat("lock_contention")
		Block("rwmutex rlock", func() bool { return !m.w && m.waiting == 0 })
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	gate()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	gate()
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in sync.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	gate()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	Y(0)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Y(0)
	gate()
	if w.n > 0 {
		Block("waitgroup", func() bool { return w.n == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(0, func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	Y(0)
	gate()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as in sync.
func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

// OnceValue as in sync.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues as in sync.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool replaces sync.Pool: a deterministic LIFO, the reuse order that exposes aliasing soonest.
type Pool struct {
	New func() any
	xs  []any
}

func (p *Pool) Get() any {
	Y(0)
	gate()
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		Stat("pool_reuse")
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	gate()
	if x != nil {
		p.xs = append(p.xs, x)
	}
	Y(0)
}

// Cond replaces sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*bool
}

func NewCond(l interface {
	Lock()
	Unlock()
}) *Cond {
	return &Cond{L: l}
}
func (c *Cond) Wait() {
	gate()
	f := new(bool)
	c.q = append(c.q, f)
	c.L.Unlock()
	Block("cond", func() bool { return *f })
	c.L.Lock()
}
func (c *Cond) Signal() {
	gate()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	Y(0)
}
func (c *Cond) Broadcast() {
	gate()
	for _, f := range c.q {
		*f = true
	}
	c.q = nil
	Y(0)
}

// Map replaces sync.Map, iterating in insertion order from a chosen offset.
type Map struct {
	m map[any]any
	k []any
}

func (m *Map) Load(k any) (any, bool) { Y(0); gate(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	Y(0)
	gate()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Y(0)
	gate()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.k = append(m.k, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	Y(0)
	gate()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.k {
			if x == k {
				m.k = append(m.k[:i:i], m.k[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	Y(0)
	gate()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	Y(0)
	gate()
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Clear() { Y(0); gate(); m.m, m.k = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	Y(0)
	gate()
	ks := append([]any(nil), m.k...)
	off := 0
	if len(ks) > 1 {
		off = Choose(len(ks))
	}
	for i := range ks {
		k := ks[(i+off)%len(ks)]
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
