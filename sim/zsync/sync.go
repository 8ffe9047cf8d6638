// Package sync stands in for the standard package in the code under test: same
// API, but every blocking decision belongs to the simulator, pools are emptied
// when it says so, and race-detector edges are the ones the real package makes.
package sync

import (
	rsync "sync"
	"unsafe"

	"verifsim/rt"
)

type Locker = rsync.Locker

// Mutex.
type Mutex struct {
	locked bool
	hb     byte
}

//go:norace
func (m *Mutex) tryAcquire() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) release() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

func (m *Mutex) Lock() {
	rt.SyncOp()
	for !m.tryAcquire() {
		rt.Block()
	}
	rt.RaceAcquire(unsafe.Pointer(&m.hb))
}

func (m *Mutex) TryLock() bool {
	rt.SyncOp()
	if m.tryAcquire() {
		rt.RaceAcquire(unsafe.Pointer(&m.hb))
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	rt.RaceRelease(unsafe.Pointer(&m.hb))
	m.release()
	rt.Wakeup()
	rt.SyncOp()
}

// RWMutex, with Go's rules: a writer that waits holds back new readers, and
// readers that were held back get in before the next writer.
type RWMutex struct {
	pending bool // a writer waits for readers, or writes
	w       bool
	readers int
	waiting int    // readers held back
	epoch   uint64 // counts writers that are done
	hbw     byte   // writers release here
	hbr     byte   // readers release here
}

//go:norace
func (m *RWMutex) announce() bool {
	if m.pending {
		return false
	}
	m.pending = true
	return true
}

//go:norace
func (m *RWMutex) tryW() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.pending {
		return false
	}
	m.readers++
	return true
}

// wait queues a reader behind the writer; over says that the writer let it in.
//
//go:norace
func (m *RWMutex) wait() uint64 { m.waiting++; return m.epoch }

//go:norace
func (m *RWMutex) over(e uint64) bool { return m.epoch != e }

//go:norace
func (m *RWMutex) relW() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w, m.pending = false, false
	m.readers += m.waiting
	m.waiting = 0
	m.epoch++
}

//go:norace
func (m *RWMutex) relR() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) Lock() {
	rt.SyncOp()
	for !m.announce() {
		rt.Block()
	}
	for !m.tryW() {
		rt.Block()
	}
	rt.RaceAcquire(unsafe.Pointer(&m.hbw))
	rt.RaceAcquire(unsafe.Pointer(&m.hbr))
}

//go:norace
func (m *RWMutex) tryBoth() bool {
	if m.pending || m.readers > 0 {
		return false
	}
	m.pending, m.w = true, true
	return true
}

func (m *RWMutex) TryLock() bool {
	rt.SyncOp()
	if !m.tryBoth() {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(&m.hbw))
	rt.RaceAcquire(unsafe.Pointer(&m.hbr))
	return true
}

func (m *RWMutex) Unlock() {
	rt.RaceRelease(unsafe.Pointer(&m.hbw))
	m.relW()
	rt.Wakeup()
	rt.SyncOp()
}

func (m *RWMutex) RLock() {
	rt.SyncOp()
	if !m.tryR() {
		for e := m.wait(); !m.over(e); {
			rt.Block()
		}
	}
	rt.RaceAcquire(unsafe.Pointer(&m.hbw))
}

func (m *RWMutex) TryRLock() bool {
	rt.SyncOp()
	if !m.tryR() {
		return false
	}
	rt.RaceAcquire(unsafe.Pointer(&m.hbw))
	return true
}

func (m *RWMutex) RUnlock() {
	rt.RaceReleaseMerge(unsafe.Pointer(&m.hbr))
	m.relR()
	rt.Wakeup()
	rt.SyncOp()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once.
type Once struct {
	m    Mutex
	done bool
	hb   byte
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	rt.SyncOp()
	if o.isDone() {
		rt.RaceAcquire(unsafe.Pointer(&o.hb))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.isDone() {
		return
	}
	defer func() {
		rt.RaceRelease(unsafe.Pointer(&o.hb))
		o.setDone()
	}()
	f()
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

// WaitGroup.
type WaitGroup struct {
	n  int
	hb byte
}

//go:norace
func (wg *WaitGroup) add(d int) int {
	wg.n += d
	return wg.n
}

func (wg *WaitGroup) Add(d int) {
	rt.SyncOp()
	if d < 0 {
		rt.RaceReleaseMerge(unsafe.Pointer(&wg.hb))
	}
	n := wg.add(d)
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		rt.Wakeup()
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	rt.SyncOp()
	for wg.add(0) > 0 {
		rt.Block()
	}
	rt.RaceAcquire(unsafe.Pointer(&wg.hb))
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	t := rt.Spawn()
	go func() {
		rt.Adopt(t)
		defer rt.Exit(t)
		defer wg.Done()
		f()
	}()
}

// Cond.
type Cond struct {
	L   Locker
	seq uint64
	sig uint64
	hb  byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() uint64 { c.seq++; return c.seq }

//go:norace
func (c *Cond) signalled(t uint64) bool { return t <= c.sig }

//go:norace
func (c *Cond) bump(all bool) {
	if all {
		c.sig = c.seq
	} else if c.sig < c.seq {
		c.sig++
	}
}

func (c *Cond) Wait() {
	t := c.ticket()
	c.L.Unlock()
	for !c.signalled(t) {
		rt.Block()
	}
	rt.RaceAcquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

func (c *Cond) Signal() {
	rt.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	c.bump(false)
	rt.Wakeup()
	rt.SyncOp()
}

func (c *Cond) Broadcast() {
	rt.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	c.bump(true)
	rt.Wakeup()
	rt.SyncOp()
}

// Pool keeps everything that is put back, and hands out what the simulator
// picks: the item last put, any item, or a new one as after a garbage
// collection.
type Pool struct {
	New   func() any
	items [64]any
	hbs   [64]*byte
	n     int
}

//go:norace
func (p *Pool) push(x any, hb *byte) {
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.hbs[p.n] = hb
		p.n++
	}
}

//go:norace
func (p *Pool) take() (any, *byte) {
	i := rt.PoolPick(p.n)
	if i < 0 {
		return nil, nil
	}
	x, hb := p.items[i], p.hbs[i]
	p.n--
	p.items[i], p.hbs[i] = p.items[p.n], p.hbs[p.n]
	p.items[p.n], p.hbs[p.n] = nil, nil
	return x, hb
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	hb := new(byte)
	rt.RaceRelease(unsafe.Pointer(hb))
	p.push(x, hb)
	rt.SyncOp()
}

func (p *Pool) Get() any {
	rt.SyncOp()
	x, hb := p.take()
	if hb != nil {
		rt.RaceAcquire(unsafe.Pointer(hb))
	}
	if x == nil && p.New != nil {
		return p.New()
	}
	return x
}

// Map: the real one, with an iteration order chosen by the simulator.
type Map struct {
	m rsync.Map
}

func (m *Map) Load(k any) (any, bool)           { rt.SyncOp(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.SyncOp(); m.m.Store(k, v) }
func (m *Map) Clear()                           { rt.SyncOp(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.SyncOp(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.SyncOp(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.SyncOp(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.SyncOp(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.SyncOp(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.SyncOp(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool) {
	rt.SyncOp()
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for k, v := range rt.MapSeq2(all) {
		if !f(k, v) {
			return
		}
	}
}
