package zzsim

import (
	"sync"
	"unsafe"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	sync   byte
}

//go:norace
func (m *Mutex) Lock() {
	p := unsafe.Pointer(m)
	if !on {
		for m.locked {
			pause("lock of a locked mutex outside a concurrent phase")
		}
		m.locked = true
		raceAcquire(p)
		return
	}
	for m.locked {
		block(p, "Mutex")
	}
	m.locked = true
	cur.held++
	raceAcquire(p)
}

//go:norace
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	if on {
		cur.held++
	}
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	p := unsafe.Pointer(m)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceReleaseX(p)
	m.locked = false
	if on {
		cur.held--
		unblock(p)
	}
}

// RWMutex replaces sync.RWMutex. As in the original, a waiting writer keeps new readers out.
type RWMutex struct {
	w       bool
	readers int
	waiting int
	rs, ws  byte // addresses for the race detector
}

//go:norace
func (m *RWMutex) Lock() {
	p := unsafe.Pointer(m)
	if !on {
		for m.w || m.readers > 0 {
			pause("lock of a locked RWMutex outside a concurrent phase")
		}
	} else {
		m.waiting++
		for m.w || m.readers > 0 {
			block(p, "RWMutex.Lock")
		}
		m.waiting--
		cur.held++
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.rs))
	raceAcquire(unsafe.Pointer(&m.ws))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	if on {
		cur.held++
	}
	raceAcquire(unsafe.Pointer(&m.rs))
	raceAcquire(unsafe.Pointer(&m.ws))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceReleaseX(unsafe.Pointer(&m.rs))
	m.w = false
	if on {
		cur.held--
		unblock(unsafe.Pointer(m))
	}
}

//go:norace
func (m *RWMutex) RLock() {
	p := unsafe.Pointer(m)
	if !on {
		for m.w {
			pause("read lock of a locked RWMutex outside a concurrent phase")
		}
	} else {
		for m.w || m.waiting > 0 {
			block(p, "RWMutex.RLock")
		}
		cur.held++
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	if on {
		cur.held++
	}
	raceAcquire(unsafe.Pointer(&m.rs))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.ws))
	m.readers--
	if on {
		cur.held--
		if m.readers == 0 {
			unblock(unsafe.Pointer(m))
		}
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.isDone() {
		raceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() {
	raceReleaseX(unsafe.Pointer(o))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool replaces sync.Pool: last in, first out, with simulated evictions.
type Pool struct {
	New   func() any
	items []any
}

var (
	poolEvict bool
	auxRng    *RNG
	poolAddrs [128]byte
)

//go:norace
func (p *Pool) take() any {
	for n := len(p.items); n > 0; n = len(p.items) {
		v := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		if poolEvict && auxRng.P(0.3) {
			Stats.PoolEvict++
			continue
		}
		Stats.PoolReuse++
		return v
	}
	return nil
}

func (p *Pool) Get() any {
	if v := p.take(); v != nil {
		raceAcquire(poolAddr(v))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func poolAddr(v any) unsafe.Pointer {
	w := (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1]
	return unsafe.Pointer(&poolAddrs[serial(w)%128])
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	raceRelease(poolAddr(v))
	n := len(p.items)
	if n == cap(p.items) {
		ni := make([]any, n, 2*n+4)
		for i := range p.items {
			ni[i] = p.items[i]
		}
		p.items = ni
	}
	p.items = p.items[:n+1]
	p.items[n] = v
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	s byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		raceRelease(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && on {
		unblock(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	for w.n > 0 {
		if !on {
			pause("WaitGroup.Wait outside a concurrent phase")
			continue
		}
		block(unsafe.Pointer(w), "WaitGroup")
	}
	raceAcquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L sync.Locker
	q []*byte
	s byte
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	tok := c.enqueue()
	c.L.Unlock()
	c.await(tok)
	raceAcquire(unsafe.Pointer(&c.s))
	c.L.Lock()
}

//go:norace
func (c *Cond) enqueue() *byte {
	tok := new(byte)
	nq := make([]*byte, len(c.q)+1)
	for i := range c.q {
		nq[i] = c.q[i]
	}
	nq[len(c.q)] = tok
	c.q = nq
	return tok
}

//go:norace
func (c *Cond) await(tok *byte) {
	for *tok == 0 {
		if !on {
			pause("Cond.Wait outside a concurrent phase")
			continue
		}
		block(unsafe.Pointer(tok), "Cond")
	}
}

//go:norace
func (c *Cond) Signal() {
	raceRelease(unsafe.Pointer(&c.s))
	if len(c.q) > 0 {
		tok := c.q[0]
		c.q = c.q[1:]
		*tok = 1
		if on {
			unblock(unsafe.Pointer(tok))
		}
	}
}

//go:norace
func (c *Cond) Broadcast() {
	raceRelease(unsafe.Pointer(&c.s))
	for _, tok := range c.q {
		*tok = 1
		if on {
			unblock(unsafe.Pointer(tok))
		}
	}
	c.q = nil
}
