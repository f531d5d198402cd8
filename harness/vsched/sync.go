package vsched

// Mutex etc. are used by the vsync shim as type aliases.

type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "lock", enabled: func() bool { return !m.locked }})
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "unlock"})
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	readers int
	writer  bool
	waiting int
}

func (m *RWMutex) Lock() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "announce lock"})
	m.waiting++
	r.block(&op{what: "lock", enabled: func() bool { return !m.writer && m.readers == 0 }})
	m.waiting--
	m.writer = true
}
func (m *RWMutex) Unlock() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "unlock"})
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
}
func (m *RWMutex) RLock() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "rlock", enabled: func() bool { return !m.writer && m.waiting == 0 }})
	m.readers++
}
func (m *RWMutex) RUnlock() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "runlock"})
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}
func (m *RWMutex) TryLock() bool {
	Point("trylock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	Point("tryrlock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return rlocker{m}
}

type WaitGroup struct {
	n int
}

func (w *WaitGroup) Add(d int) {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "wg.Add"})
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "wg.Wait", enabled: func() bool { return w.n == 0 }})
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Once struct {
	done, busy bool
}

func (o *Once) Do(f func()) {
	r := live()
	if r == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	r.block(&op{what: "once", enabled: func() bool { return !o.busy }})
	if o.done {
		return
	}
	o.busy = true
	defer func() { o.busy = false; o.done = true }()
	f()
}

type Locker interface {
	Lock()
	Unlock()
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	r := live()
	if r == nil {
		return
	}
	f := new(bool)
	c.waiters = append(c.waiters, f)
	c.L.Unlock()
	r.block(&op{what: "cond.Wait", enabled: func() bool { return *f }})
	c.L.Lock()
}
func (c *Cond) Signal() {
	Point("cond.Signal")
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}
func (c *Cond) Broadcast() {
	Point("cond.Broadcast")
	for _, f := range c.waiters {
		*f = true
	}
	c.waiters = nil
}

// Pool hands back the most recently put value first (the most adversarial legal behaviour).
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	Point("pool.Get")
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	Point("pool.Put")
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map is sync.Map with insertion-ordered iteration.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Load(k any) (any, bool) { Point("map.Load"); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { Point("map.Store"); m.set(k, v) }
func (m *Map) Clear()                 { Point("map.Clear"); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Point("map.LoadOrStore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	Point("map.LoadAndDelete")
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { Point("map.Delete"); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	Point("map.Swap")
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	Point("map.CAS")
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.set(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	Point("map.CAD")
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	Point("map.Range")
	for _, k := range append([]any{}, m.keys...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
