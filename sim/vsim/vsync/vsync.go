// Package sync stands in for the standard sync package in the code under
// test: same API, but blocking is decided by the simulator. It tells the race
// detector exactly what the real primitives would.
package sync

import (
	"sync"
	"unsafe"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
)

type Locker = sync.Locker

// --------------------------------------------------------------------- Mutex

type Mutex struct {
	locked bool
	_      byte
}

type mutexWait struct{ m *Mutex }

//go:norace
func (w mutexWait) Ready() bool { return !w.m.locked }

func (m *Mutex) Lock() {
	vsim.YS()
	m.lock()
	vsim.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) lock() {
	for m.locked {
		vsim.Block(mutexWait{m}, "waiting for a Mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vsim.YS()
	if !m.try() {
		return false
	}
	vsim.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) try() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	vsim.Release(unsafe.Pointer(m))
	m.unlock()
	vsim.YS()
}

//go:norace
func (m *Mutex) unlock() {
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

// ------------------------------------------------------------------- RWMutex

// RWMutex follows the algorithm of the real one: a writer that has announced
// itself makes later readers wait until it has unlocked.
type RWMutex struct {
	wm        bool // held by the announced writer
	announced bool
	readers   int
	waiting   int
	gen       uint64
	readerSem byte
	writerSem byte
}

type rwWaitRead struct {
	m *RWMutex
	g uint64
}

//go:norace
func (w rwWaitRead) Ready() bool { return w.m.gen != w.g }

type rwWaitWM struct{ m *RWMutex }

//go:norace
func (w rwWaitWM) Ready() bool { return !w.m.wm }

type rwWaitReaders struct{ m *RWMutex }

//go:norace
func (w rwWaitReaders) Ready() bool { return w.m.readers == 0 }

func (m *RWMutex) RLock() {
	vsim.YS()
	m.rlock()
	vsim.Acquire(unsafe.Pointer(&m.readerSem))
}

//go:norace
func (m *RWMutex) rlock() {
	if !m.announced {
		m.readers++
		return
	}
	m.waiting++
	vsim.Block(rwWaitRead{m, m.gen}, "waiting for RLock behind a writer")
}

func (m *RWMutex) TryRLock() bool {
	vsim.YS()
	if !m.tryR() {
		return false
	}
	vsim.Acquire(unsafe.Pointer(&m.readerSem))
	return true
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.announced {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	vsim.ReleaseMerge(unsafe.Pointer(&m.writerSem))
	m.runlock()
	vsim.YS()
}

//go:norace
func (m *RWMutex) runlock() {
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

func (m *RWMutex) Lock() {
	vsim.YS()
	m.lock()
	vsim.Acquire(unsafe.Pointer(&m.readerSem))
	vsim.Acquire(unsafe.Pointer(&m.writerSem))
}

//go:norace
func (m *RWMutex) lock() {
	for m.wm {
		vsim.Block(rwWaitWM{m}, "waiting for Lock behind a writer")
	}
	m.wm = true
	m.announced = true
	if m.readers > 0 {
		vsim.Block(rwWaitReaders{m}, "waiting for Lock behind readers")
	}
}

func (m *RWMutex) TryLock() bool {
	vsim.YS()
	if !m.tryW() {
		return false
	}
	vsim.Acquire(unsafe.Pointer(&m.readerSem))
	vsim.Acquire(unsafe.Pointer(&m.writerSem))
	return true
}

//go:norace
func (m *RWMutex) tryW() bool {
	if m.wm || m.readers > 0 {
		return false
	}
	m.wm, m.announced = true, true
	return true
}

func (m *RWMutex) Unlock() {
	vsim.Release(unsafe.Pointer(&m.readerSem))
	m.unlock()
	vsim.YS()
}

//go:norace
func (m *RWMutex) unlock() {
	if !m.announced {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.announced, m.wm = false, false
	m.gen++
	m.readers += m.waiting
	m.waiting = 0
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---------------------------------------------------------------------- Once

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	vsim.YS()
	if o.isDone() {
		vsim.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			vsim.Release(unsafe.Pointer(o))
			o.setDone()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// ----------------------------------------------------------------- WaitGroup

type WaitGroup struct{ n int }

type wgWait struct{ w *WaitGroup }

//go:norace
func (w wgWait) Ready() bool { return w.w.n == 0 }

func (w *WaitGroup) Add(delta int) {
	if delta < 0 {
		vsim.ReleaseMerge(unsafe.Pointer(w))
	}
	w.add(delta)
	vsim.YS()
}

//go:norace
func (w *WaitGroup) add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	vsim.YS()
	vsim.Block(wgWait{w}, "waiting for a WaitGroup")
	vsim.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

// ---------------------------------------------------------------------- Cond

type Cond struct {
	L    Locker
	seq  uint64 // tickets handed out
	wake uint64 // tickets woken
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type condWait struct {
	c *Cond
	n uint64
}

//go:norace
func (w condWait) Ready() bool { return w.c.wake > w.n }

//go:norace
func (c *Cond) ticket() uint64 { c.seq++; return c.seq - 1 }

//go:norace
func (c *Cond) signal(all bool) {
	if all {
		c.wake = c.seq
	} else if c.wake < c.seq {
		c.wake++
	}
}

func (c *Cond) Wait() {
	n := c.ticket()
	c.L.Unlock()
	vsim.Block(condWait{c, n}, "waiting for a Cond")
	c.L.Lock()
}
func (c *Cond) Signal()    { c.signal(false); vsim.YS() }
func (c *Cond) Broadcast() { c.signal(true); vsim.YS() }

// ---------------------------------------------------------------------- Pool

// Pool hands out the most recently returned value first, to any task: the
// most aggressive reuse the real one allows. PoolDrop empties pools now and
// then, as the garbage collector does.
type Pool struct {
	New   func() any
	items []*poolItem
}

type poolItem struct{ x any }

// PoolDrop: every n-th Get finds the pool empty (0: never).
var PoolDrop int

// PoolHits counts values handed out again.
var PoolHits int
var poolGets int

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := &poolItem{x}
	vsim.Release(unsafe.Pointer(it))
	p.push(it)
	vsim.YS()
}

//go:norace
func (p *Pool) push(it *poolItem) {
	if len(p.items) < 64 {
		p.items = append(p.items, it)
	}
}

//go:norace
func (p *Pool) pop() *poolItem {
	poolGets++
	if PoolDrop > 0 && poolGets%PoolDrop == 0 {
		p.items = nil
	}
	if len(p.items) == 0 {
		return nil
	}
	it := p.items[len(p.items)-1]
	p.items = p.items[:len(p.items)-1]
	PoolHits++
	return it
}

func (p *Pool) Get() any {
	vsim.YS()
	if it := p.pop(); it != nil {
		vsim.Acquire(unsafe.Pointer(it))
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// ----------------------------------------------------------------------- Map

// Map is the real one with a scheduling point before every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsim.YS(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsim.YS(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsim.YS(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsim.YS(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsim.YS(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsim.YS(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsim.YS(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsim.YS(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { vsim.YS(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool)      { vsim.YS(); m.m.Range(f) }
