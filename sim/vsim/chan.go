package vsim

import (
	"time"
	"unsafe"
)

// Channels, select, Sleep and After of the code under test, as the simulator
// runs them. Buffered channels and close are the real ones, polled; a
// rendezvous on an unbuffered channel goes through a queue of its own.

type pend struct {
	v     any
	taken bool
	sel   *selState // the send is a case of this select
	cas   int
}

type chanState struct {
	key     unsafe.Pointer
	senders []*pend
	stash   []any // taken from a real sender while looking
	waiting int   // tasks blocked in a plain receive
	closed  bool
}

// A hash table of our own: the runtime shows the accesses to a map to the
// race detector.
var (
	chans   [256][]*chanState
	chansOf *Sim
)

//go:norace
func stateOf(k unsafe.Pointer) *chanState {
	if chansOf != cs {
		chansOf = cs
		for i := range chans {
			chans[i] = nil
		}
	}
	b := &chans[uintptr(k)>>5%256]
	for _, st := range *b {
		if st.key == k {
			return st
		}
	}
	st := &chanState{key: k}
	*b = append(*b, st)
	return st
}

// realChan is the typed part: a real channel.
type realChan interface {
	key() unsafe.Pointer
	caplen() (int, int)
	recv() (v any, ok, got bool) // without waiting
	send(v any) bool             // without waiting
}

type recvChan[T any] struct{ ch <-chan T }

//go:norace
func (c recvChan[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

//go:norace
func (c recvChan[T]) caplen() (int, int) { return cap(c.ch), len(c.ch) }

//go:norace
func (c recvChan[T]) recv() (any, bool, bool) {
	select {
	case v, ok := <-c.ch:
		return v, ok, true
	default:
		return nil, false, false
	}
}

func (c recvChan[T]) send(v any) bool { panic("receive only") }

type sendChan[T any] struct{ ch chan<- T }

//go:norace
func (c sendChan[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

//go:norace
func (c sendChan[T]) caplen() (int, int) { return cap(c.ch), len(c.ch) }

func (c sendChan[T]) recv() (any, bool, bool) { panic("send only") }

//go:norace
func (c sendChan[T]) send(v any) bool {
	x, _ := v.(T)
	select {
	case c.ch <- x:
		return true
	default:
		return false
	}
}

type never struct{}

func (never) Ready() bool { return false }

// Forever blocks the task for good.
func Forever() {
	if current() == nil {
		select {}
	}
	Block(never{}, "waiting forever")
}

// selState makes sure that exactly one case of a select happens.
type selState struct {
	done bool
	i    int
	v    any
	ok   bool
}

//go:norace
func (st *chanState) sender(me *selState) *pend {
	for _, p := range st.senders {
		if !p.taken && (p.sel == nil || !p.sel.done && p.sel != me) {
			return p
		}
	}
	return nil
}

//go:norace
func canRecv(c realChan, me *selState) bool {
	if c.key() == nil {
		return false
	}
	st := stateOf(c.key())
	if len(st.stash) > 0 || st.sender(me) != nil {
		return true
	}
	if cp, n := c.caplen(); cp > 0 && n > 0 {
		return true
	}
	v, ok, got := c.recv()
	if ok {
		st.stash = append(st.stash, v)
	}
	return got
}

//go:norace
func tryRecv(c realChan, me *selState) (v any, ok, got bool) {
	if c.key() == nil {
		return
	}
	st := stateOf(c.key())
	if len(st.stash) > 0 {
		v = st.stash[0]
		st.stash = st.stash[1:]
		return v, true, true
	}
	if p := st.sender(me); p != nil {
		var keep []*pend
		for _, q := range st.senders {
			if q != p && !q.taken && (q.sel == nil || !q.sel.done) {
				keep = append(keep, q)
			}
		}
		st.senders = keep
		p.taken = true
		if p.sel != nil {
			p.sel.done, p.sel.i = true, p.cas
		}
		Acquire(unsafe.Pointer(p))
		v = p.v
		ReleaseMerge(unsafe.Pointer(p))
		return v, true, true
	}
	return c.recv()
}

type recvWait struct{ c realChan }

//go:norace
func (w recvWait) Ready() bool {
	raceDisable()
	ok := canRecv(w.c, nil)
	raceEnable()
	return ok
}

//go:norace
func receiving(k unsafe.Pointer, d int) {
	if k != nil {
		stateOf(k).waiting += d
	}
}

func recv(c realChan) (any, bool) {
	YS()
	for {
		if v, ok, got := tryRecv(c, nil); got {
			YS()
			return v, ok
		}
		receiving(c.key(), 1)
		Block(recvWait{c}, "waiting to receive from a channel")
		receiving(c.key(), -1)
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if current() == nil {
		v, ok := <-ch
		return v, ok
	}
	x, ok := recv(recvChan[T]{ch})
	v, _ := x.(T)
	return v, ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func isClosed(k unsafe.Pointer) bool { return k != nil && stateOf(k).closed }

//go:norace
func enqueue(k unsafe.Pointer, v any, sel *selState, i int) *pend {
	p := &pend{v: v, sel: sel, cas: i}
	Release(unsafe.Pointer(p))
	st := stateOf(k)
	st.senders = append(st.senders, p)
	return p
}

//go:norace
func (p *pend) isTaken() bool { return p.taken }

type roomWait struct{ c realChan }

//go:norace
func (w roomWait) Ready() bool {
	c, n := w.c.caplen()
	return n < c || isClosed(w.c.key())
}

type takenWait struct {
	p *pend
	k unsafe.Pointer
}

//go:norace
func (w takenWait) Ready() bool { return w.p.taken || isClosed(w.k) }

func send(c realChan, v any) {
	YS()
	k := c.key()
	if k == nil {
		Forever()
	}
	if n, _ := c.caplen(); n > 0 {
		for !c.send(v) {
			Block(roomWait{c}, "waiting to send to a channel")
		}
		YS()
		return
	}
	if c.send(v) { // a real receiver, or a panic: closed
		return
	}
	handOver(k, v)
}

func handOver(k unsafe.Pointer, v any) {
	p := enqueue(k, v, nil, 0)
	Block(takenWait{p, k}, "waiting to send to a channel")
	if !p.isTaken() {
		panic("send on closed channel")
	}
	Acquire(unsafe.Pointer(p))
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if current() == nil {
			ch <- v
			return
		}
		send(sendChan[T]{ch}, v)
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	close(ch)
	if current() != nil {
		markClosed(sendChan[T]{ch}.key())
		YS()
	}
}

//go:norace
func markClosed(k unsafe.Pointer) { stateOf(k).closed = true }

// ------------------------------------------------------------------- select

// Case is one case of a select.
type Case struct {
	c    realChan
	send bool
	v    any
}

// RecvCase is case ... <-ch.
func RecvCase[T any](ch <-chan T) Case { return Case{c: recvChan[T]{ch}} }

// SendCase is case ch <- v.
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{c: sendChan[T]{ch}, send: true, v: v} }
}

//go:norace
func (c Case) ready(me *selState) bool {
	if !c.send {
		return canRecv(c.c, me)
	}
	if c.c.key() == nil {
		return false
	}
	cp, n := c.c.caplen()
	return n < cp || isClosed(c.c.key())
}

//go:norace
func waitingFor(k unsafe.Pointer) bool {
	st := stateOf(k)
	return st.waiting > 0 && st.sender(nil) == nil
}

func (c Case) try(me *selState) (v any, ok, got bool) {
	k := c.c.key()
	switch {
	case k == nil:
		return
	case !c.send:
		return tryRecv(c.c, me)
	case c.c.send(c.v):
		return nil, false, true
	}
	if n, _ := c.c.caplen(); n == 0 && waitingFor(k) {
		handOver(k, c.v)
		return nil, false, true
	}
	return
}

// Sel is the result of a select.
type Sel struct {
	I  int
	v  any
	ok bool
}

type selWait struct {
	me    *selState
	cases []Case
}

//go:norace
func (w selWait) Ready() bool {
	if w.me.done {
		return true
	}
	raceDisable()
	ok := false
	for _, c := range w.cases {
		if c.ready(w.me) {
			ok = true
			break
		}
	}
	raceEnable()
	return ok
}

// settle ends a wait: what happened, or nothing and the queued sends are withdrawn.
//
//go:norace
func (me *selState) settle() (int, bool) {
	if me.done {
		return me.i, true
	}
	me.done, me.i = true, -2
	return 0, false
}

// Select runs a select statement; I is -1 for the default case.
func Select(hasDefault bool, cases ...Case) *Sel {
	sim := current() != nil
	if sim {
		YS()
	}
	n := len(cases)
	for {
		me := &selState{}
		o := 0
		if sim && n > 0 {
			o = choice(n)
		}
		for j := 0; j < n; j++ {
			i := (o + j) % n
			if v, ok, got := cases[i].try(me); got {
				return &Sel{i, v, ok}
			}
		}
		if hasDefault {
			return &Sel{I: -1}
		}
		if !sim {
			time.Sleep(50 * time.Microsecond)
			continue
		}
		ps := make([]*pend, n)
		for i, c := range cases {
			if cp, _ := c.c.caplen(); c.send && c.c.key() != nil && cp == 0 {
				ps[i] = enqueue(c.c.key(), c.v, me, i)
			}
		}
		Block(selWait{me, cases}, "waiting in a select")
		if i, fired := me.settle(); fired {
			Acquire(unsafe.Pointer(ps[i]))
			return &Sel{I: i}
		}
	}
}

// choice draws a number below n. It depends on the task and its progress
// only, so that a replay repeats it.
//
//go:norace
func choice(n int) int {
	c := cs.cur
	z := uint64(c.ID+1)<<32 ^ uint64(c.local)*0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return int((z ^ z>>31) % uint64(n))
}

// Got is the value a receive case received.
func Got[T any](_ <-chan T, s *Sel) T {
	v, _ := s.v.(T)
	return v
}

// Got2 is the value and whether the channel was open.
func Got2[T any](_ <-chan T, s *Sel) (T, bool) {
	v, _ := s.v.(T)
	return v, s.ok
}
