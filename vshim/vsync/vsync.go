// Package vsync stands in for sync under the cooperative scheduler.
package vsync

import "vshim/vsched"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	vsched.Atomic()
	vsched.Block(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vsched.Atomic()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	vsched.Atomic()
	if !m.locked {
		panic(vsched.Bug{Msg: "unlock of an unlocked mutex"})
	}
	m.locked = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	vsched.Atomic()
	vsched.Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	vsched.Atomic()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	vsched.Atomic()
	if !m.w {
		panic(vsched.Bug{Msg: "unlock of an unlocked mutex"})
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	vsched.Atomic()
	vsched.Block(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	vsched.Atomic()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.Atomic()
	if m.r == 0 {
		panic(vsched.Bug{Msg: "unlock of an unlocked mutex"})
	}
	m.r--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.Atomic()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	vsched.Global(&o)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	vsched.Global(&o)
	vsched.Global(&v)
	return func() T { o.Do(func() { v = f() }); return v }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vsched.Atomic()
	w.n += d
	if w.n < 0 {
		panic(vsched.Bug{Msg: "negative WaitGroup counter"})
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Atomic()
	vsched.Block(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Pool hands out any pooled object, or a new one, at the explorer's choice.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vsched.Atomic()
	n := len(p.items)
	k := n
	if vsched.Choose != nil && !vsched.LastPooled {
		m := n
		if p.New != nil {
			m++
		}
		if m > 1 {
			// alternative 0: the object freed last
			k = vsched.Choose(m)
			if k < n {
				k = n - 1 - k
			}
		} else {
			k = 0
		}
	} else if n > 0 {
		k = n - 1
	}
	if k < n {
		x := p.items[k]
		p.items = append(append([]any{}, p.items[:k]...), p.items[k+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vsched.Atomic()
	if x == nil {
		return
	}
	p.items = append(append([]any{}, p.items...), x)
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	vsched.Atomic()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	vsched.Atomic()
	m.put(k, v)
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Atomic()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.Atomic()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Delete(k any) { vsched.Atomic(); m.del(k) }

func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any{}, m.keys...) {
		vsched.Atomic()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L   Locker
	gen int
	n   int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	my := c.gen
	c.n++
	c.L.Unlock()
	vsched.Block(func() bool { return c.gen > my })
	c.L.Lock()
}
func (c *Cond) Signal()    { c.Broadcast() } // spurious wakeups are tolerated by correct users
func (c *Cond) Broadcast() { vsched.Atomic(); c.gen++ }
