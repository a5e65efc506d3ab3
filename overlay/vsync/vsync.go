//go:build go1.21

// Package vsync stands in for sync: one operation runs at a time.
package vsync

// Locker is something to lock.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a lock.
type Mutex struct{ n int }

func (m *Mutex) Lock()         {}
func (m *Mutex) Unlock()       {}
func (m *Mutex) TryLock() bool { return true }

// RWMutex is a lock.
type RWMutex struct{ n int }

func (m *RWMutex) Lock()          {}
func (m *RWMutex) Unlock()        {}
func (m *RWMutex) TryLock() bool  { return true }
func (m *RWMutex) RLock()         {}
func (m *RWMutex) RUnlock()       {}
func (m *RWMutex) TryRLock() bool { return true }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   {}
func (r *rlocker) Unlock() {}

// Once runs a function once.
type Once struct{ done bool }

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// WaitGroup counts what is not finished.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) { w.n += d }
func (w *WaitGroup) Done()     { w.n-- }
func (w *WaitGroup) Wait()     {}

// Pool gives back what was put into it last.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.l = append(p.l, x)
	}
}

type entry struct{ k, v interface{} }

// Map is a map, kept as a list: its keys may be symbolic.
type Map struct{ l []entry }

func (m *Map) find(k interface{}) int {
	for i := range m.l {
		if m.l[i].k == k {
			return i
		}
	}
	return -1
}

func (m *Map) Load(key interface{}) (interface{}, bool) {
	if i := m.find(key); i >= 0 {
		return m.l[i].v, true
	}
	return nil, false
}

func (m *Map) Store(key, value interface{}) { m.Swap(key, value) }

func (m *Map) Clear() { m.l = nil }

func (m *Map) LoadOrStore(key, value interface{}) (interface{}, bool) {
	if i := m.find(key); i >= 0 {
		return m.l[i].v, true
	}
	m.l = append(m.l, entry{key, value})
	return value, false
}

func (m *Map) LoadAndDelete(key interface{}) (interface{}, bool) {
	i := m.find(key)
	if i < 0 {
		return nil, false
	}
	v := m.l[i].v
	m.l = append(m.l[:i:i], m.l[i+1:]...)
	return v, true
}

func (m *Map) Delete(key interface{}) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value interface{}) (interface{}, bool) {
	if i := m.find(key); i >= 0 {
		v := m.l[i].v
		m.l[i].v = value
		return v, true
	}
	m.l = append(m.l, entry{key, value})
	return nil, false
}

func (m *Map) CompareAndSwap(key, old, value interface{}) bool {
	i := m.find(key)
	if i < 0 || m.l[i].v != old {
		return false
	}
	m.l[i].v = value
	return true
}

func (m *Map) CompareAndDelete(key, old interface{}) bool {
	i := m.find(key)
	if i < 0 || m.l[i].v != old {
		return false
	}
	m.Delete(key)
	return true
}

func (m *Map) Range(f func(key, value interface{}) bool) {
	for _, e := range append([]entry(nil), m.l...) {
		if !f(e.k, e.v) {
			return
		}
	}
}

// Cond never has to wait.
type Cond struct{ L Locker }

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        {}
func (c *Cond) Signal()      {}
func (c *Cond) Broadcast()   {}
