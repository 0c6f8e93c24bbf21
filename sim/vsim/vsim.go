// Package vsim is a deterministic scheduler for simulated tasks.
//
// Every task is a goroutine, but only one of them runs at any time: the
// scheduler hands control from one to the next at scheduling points (Y, put
// before every statement of the code under test; YS at synchronisation
// operations and harness callbacks). The choice of the next task comes from
// one seeded generator, or from a recorded trace. The hand-over itself is
// hidden from the race detector, so it sees exactly the synchronisation the
// code under test does.
package vsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

type siteInfo struct {
	File string
	Func string
	Line int
}

var sites []siteInfo

// NumSites is the number of scheduling points in the instrumented code.
func NumSites() int { return len(sites) }

// SiteString names a scheduling point.
func SiteString(id int32) string {
	if id >= 0 && int(id) < len(sites) {
		s := sites[id]
		return fmt.Sprintf("%s:%d (%s)", s.File, s.Line, s.Func)
	}
	return "harness or sync"
}

// SiteFunc returns file and function of a scheduling point.
func SiteFunc(id int32) string {
	if id >= 0 && int(id) < len(sites) {
		return sites[id].File + ":" + sites[id].Func
	}
	return ""
}

// Waiter is what a blocked task waits for.
type Waiter interface{ Ready() bool }

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is one simulated thread of execution.
type Task struct {
	ID       int
	Name     string
	Proc     any // the simulated process it belongs to, if any
	Panicked bool
	PanicVal any
	Stack    string
	Finished bool // returned normally or by panic (not killed, not stuck)
	Exited   bool // ended by runtime.Goexit

	goid     uint64
	wake     chan struct{}
	state    int
	w        Waiter
	what     string
	local    uint32
	lastSite int32
	fn       func()
	prio     int
	ri       int    // replay index
	stall    uint64 // held back up to this step while others can run
	timer    bool   // a timer of the simulated clock
	daemon   bool   // does not keep the run alive
}

// Goid returns the id of the goroutine behind the task.
func (t *Task) Goid() uint64 { return t.goid }

// Local returns how many scheduling points the task has passed.
//
//go:norace
func (t *Task) Local() uint32 { return t.local }

// Where returns the last scheduling point passed.
func (t *Task) Where() string { return SiteString(t.lastSite) }

// Switch is one recorded scheduling decision: at scheduling point number At
// of task T control went to task To (-1: the clock moved to the next timer).
type Switch struct {
	T  int    `json:"t"`
	At uint32 `json:"at"`
	To int    `json:"to"`
}

// Strategy says how the scheduler chooses.
type Strategy struct {
	Kind    string   `json:"kind"` // "rand", "pct", "hot", "sync", "replay", "seq"
	Gap     int      `json:"gap,omitempty"`
	Depth   int      `json:"depth,omitempty"`
	Est     int      `json:"est,omitempty"`
	Hot     []int32  `json:"-"`
	HotFns  []string `json:"hot,omitempty"`
	Seed    uint64   `json:"seed,omitempty"`
	Max     uint64   `json:"max,omitempty"`
	Trace   []Switch `json:"trace,omitempty"`
	Hurry   bool     `json:"hurry,omitempty"`
	Stalls  int      `json:"stalls,omitempty"`  // how many times a task is held back for a long time
	StallBy int      `json:"stallby,omitempty"` // at most this many steps
	Skew    uint64   `json:"skew,omitempty"`    // seed of the jumps the clock makes between two looks at it; 0: none
	KeepLog bool     `json:"-"`
}

// Sim is one simulated run.
type Sim struct {
	cleanups []cleanup
	Tasks    []*Task
	Trace    []Switch
	Steps    uint64
	Switches uint64
	Preempts uint64
	Jumps    uint64 // the clock moved although somebody could run
	Stalls   uint64 // tasks held back
	Hash     uint64
	Deadlock bool
	Stuck    bool
	Races    int
	Seen     []bool // scheduling points passed

	st     Strategy
	cur    *Task
	rng    uint64
	next   uint64
	hot    []bool
	points []uint64
	rtrace [][]Switch
	stamp  int64
	clock  int64 // simulated nanoseconds
	looks  uint64
	over   bool
	end    chan struct{}
	wg     sync.WaitGroup
}

var cs *Sim // the running simulation, nil outside

// Running reports whether a simulation is running.
//
//go:norace
func Running() bool { return cs != nil }

// Cur returns the running task.
//
//go:norace
func Cur() *Task {
	if cs == nil {
		return nil
	}
	return cs.cur
}

//go:norace
func (s *Sim) rand() uint64 {
	s.rng += 0x9E3779B97F4A7C15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (s *Sim) randn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.rand() % uint64(n))
}

// New prepares a run.
func New(st Strategy) *Sim {
	s := &Sim{st: st, rng: st.Seed, end: make(chan struct{}, 1), Seen: make([]bool, len(sites))}
	if s.st.Max == 0 {
		s.st.Max = 50_000_000
	}
	if len(st.HotFns) > 0 {
		m := map[string]bool{}
		for _, f := range st.HotFns {
			m[f] = true
		}
		s.hot = make([]bool, len(sites))
		for i := range sites {
			if m[sites[i].File+":"+sites[i].Func] {
				s.hot[i] = true
			}
		}
	}
	return s
}

// Add registers a task before Run, or from a running task.
func (s *Sim) Add(name string, proc any, fn func()) *Task {
	t := &Task{ID: len(s.Tasks), Name: name, Proc: proc, fn: fn, wake: make(chan struct{}, 1), lastSite: -1}
	s.addTask(t)
	return t
}

//go:norace
func (s *Sim) addTask(t *Task) { s.Tasks = append(s.Tasks, t) }

// Run executes all tasks to the end.
func (s *Sim) Run() {
	if s.st.Kind == "replay" {
		s.rtrace = make([][]Switch, len(s.Tasks)+64)
		for _, x := range s.st.Trace {
			if x.T+1 >= 0 && x.T+1 < len(s.rtrace) {
				s.rtrace[x.T+1] = append(s.rtrace[x.T+1], x)
			}
		}
	}
	for i, t := range s.Tasks {
		t.prio = 1000 + i
	}
	s.plan()
	for _, t := range s.Tasks {
		s.start(t)
	}
	r0 := raceErrors()
	if len(s.Tasks) > 0 {
		s.begin()
		<-s.end
	}
	setCS(nil)
	if !s.Deadlock && !s.Stuck {
		s.wg.Wait()
	}
	s.Races = raceErrors() - r0
}

// Aside runs f outside the running simulation, which notices nothing.
func Aside(f func()) {
	old := current()
	setCS(nil)
	defer setCS(old)
	f()
}

//go:norace
func setCS(s *Sim) { cs = s }

//go:norace
func (s *Sim) begin() {
	first := 0
	if s.st.Kind == "replay" {
		for _, x := range s.rtrace[0] {
			first = x.To
		}
		if first >= len(s.Tasks) {
			first = 0
		}
	} else if s.st.Kind != "seq" {
		first = s.randn(len(s.Tasks))
		if s.st.Kind == "pct" {
			first = s.best().ID
		}
	}
	s.Trace = append(s.Trace, Switch{-1, 0, first})
	t := s.Tasks[first]
	s.cur = t
	cs = s
	s.mix(uint64(first))
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sim) plan() {
	switch s.st.Kind {
	case "rand", "sync":
		s.gap()
	case "hot":
		s.gap()
	case "pct":
		// random priorities, Depth change points
		for i := len(s.Tasks) - 1; i > 0; i-- {
			j := s.randn(i + 1)
			s.Tasks[i].prio, s.Tasks[j].prio = s.Tasks[j].prio, s.Tasks[i].prio
		}
		est := s.st.Est
		if est < 100 {
			est = 2000
		}
		for i := 0; i < s.st.Depth; i++ {
			s.points = append(s.points, uint64(s.randn(est))+1)
		}
		for i := range s.points {
			for j := i + 1; j < len(s.points); j++ {
				if s.points[j] < s.points[i] {
					s.points[i], s.points[j] = s.points[j], s.points[i]
				}
			}
		}
		s.popPoint()
	default:
		s.next = s.st.Max + 1
	}
}

//go:norace
func (s *Sim) popPoint() {
	s.next = s.Steps + fair
	if len(s.points) > 0 && s.points[0] < s.next {
		s.next = s.points[0]
		s.points = s.points[1:]
	}
}

// fair bounds how long one task runs without a decision, in every strategy.
const fair = 50_000

//go:norace
func (s *Sim) gap() {
	switch s.st.Kind {
	case "hot", "sync":
		s.next = s.Steps + fair
		return
	case "rand":
	default:
		s.next = s.st.Max + 1
		return
	}
	g := s.st.Gap
	if g <= 1 {
		s.next = s.Steps + 1
		return
	}
	s.next = s.Steps + 1 + uint64(s.randn(2*g-1))
}

func (s *Sim) start(t *Task) {
	s.wg.Add(1)
	go func() {
		defer s.finish(t)
		t.await()
		t.setGoid()
		ok := false
		defer func() {
			if !ok {
				if r := recover(); r != nil {
					t.Panicked, t.PanicVal, t.Finished = true, r, true
					t.Stack = string(debug.Stack())
				} else {
					t.Exited = true
				}
			}
		}()
		t.fn()
		ok = true
		t.Finished = true
	}()
}

//go:norace
func (t *Task) setGoid() { t.goid = runtime.VerifGoid() }

//go:norace
func (t *Task) await() {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func (s *Sim) finish(t *Task) {
	ReleaseMerge(unsafe.Pointer(&doneSync))
	s.wg.Done()
	t.state = stDone
	t.local++
	if !s.alive() {
		for _, x := range s.Tasks {
			if x.state != stDone { // a ticker
				x.state = stDone
				s.wg.Done()
			}
		}
		s.stop()
		return
	}
	n := s.choose(true)
	if n == nil {
		s.Deadlock = true
		s.stop()
		return
	}
	s.pass(t, n)
}

//go:norace
func (s *Sim) stop() {
	if s.over {
		return
	}
	s.over = true
	raceDisable()
	s.end <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sim) pass(from, to *Task) {
	s.Switches++
	s.mix(uint64(from.ID)<<40 ^ uint64(to.ID)<<32 ^ uint64(uint32(from.lastSite)) ^ uint64(uint32(to.lastSite))<<16)
	s.cur = to
	if OnSwitch != nil {
		OnSwitch(to)
	}
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sim) mix(x uint64) {
	s.Hash = (s.Hash ^ x) * 0x100000001B3
	s.Hash ^= s.Hash >> 29
}

// runnable refreshes blocked tasks and reports whether t can run.
//
//go:norace
func (t *Task) runnable() bool {
	if t.state == stBlocked && t.w.Ready() {
		return true
	}
	return t.state == stRunnable
}

//go:norace
func (s *Sim) best() *Task {
	var b *Task
	for _, t := range s.Tasks {
		if t.runnable() && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

// idle: nobody can run.
//
//go:norace
func (s *Sim) idle() bool {
	for _, t := range s.Tasks {
		if t.runnable() {
			return false
		}
	}
	return true
}

// candidates counts who can run now and is not held back.
//
//go:norace
func (s *Sim) candidates() int {
	k := 0
	for _, t := range s.Tasks {
		if t.runnable() && t.stall <= s.Steps {
			k++
		}
	}
	return k
}

// choose picks the task to run next; forced: the current one cannot go on.
// In a replay a choice without an entry is the lowest runnable task.
//
//go:norace
func (s *Sim) choose(forced bool) *Task {
	c := s.cur
	var n *Task
	if forced {
		for s.idle() && (s.settled() || s.advance()) {
		}
	}
	switch s.st.Kind {
	case "replay":
		to := s.replayed(c)
		for to == -1 {
			s.hurry()
			to = s.replayed(c)
		}
		if to >= 0 && s.Tasks[to].runnable() {
			n = s.Tasks[to]
		} else if !forced {
			return c
		}
	case "pct":
		if s.st.Hurry && !forced && s.sleepers() && s.hurry() {
			s.Trace = append(s.Trace, Switch{c.ID, c.local, -1})
		}
		n = s.best()
	case "seq":
		if !forced {
			return c
		}
	default:
		k := s.candidates()
		if s.st.Hurry && !forced && s.sleepers() && s.randn(8) == 0 && s.hurry() {
			s.Trace = append(s.Trace, Switch{c.ID, c.local, -1})
			k = s.candidates()
		}
		if k > 0 {
			k = s.randn(k)
			for _, t := range s.Tasks {
				if t.runnable() && t.stall <= s.Steps {
					if k == 0 {
						n = t
						break
					}
					k--
				}
			}
		}
	}
	if n == nil {
		for _, t := range s.Tasks {
			if t.runnable() {
				n = t
				break
			}
		}
	}
	if n == nil {
		return nil
	}
	if n != c {
		if !forced {
			s.Preempts++
		}
		s.Trace = append(s.Trace, Switch{c.ID, c.local, n.ID})
	}
	return n
}

// hurry moves the clock although somebody could run.
//
//go:norace
func (s *Sim) hurry() bool {
	if !s.advance() {
		return false
	}
	s.Jumps++
	s.mix(uint64(s.clock))
	return true
}

//go:norace
func (s *Sim) sleepers() bool {
	for _, t := range s.Tasks {
		if t.state == stBlocked {
			if w, ok := t.w.(timed); ok {
				if at, on := w.wakeAt(); on && at > s.clock {
					return true
				}
			}
		}
	}
	return false
}

// replayed: the recorded choice here, -2 if there is none.
//
//go:norace
func (s *Sim) replayed(c *Task) int {
	if c.ID+1 >= len(s.rtrace) {
		return -2
	}
	l := s.rtrace[c.ID+1]
	for c.ri < len(l) && l[c.ri].At < c.local {
		c.ri++
	}
	if c.ri < len(l) && l[c.ri].At == c.local {
		to := l[c.ri].To
		c.ri++
		if to < len(s.Tasks) {
			return to
		}
	}
	return -2
}

// Y is a scheduling point before a statement of the code under test.
//
//go:norace
func Y(id int32) {
	s := cs
	if s == nil {
		return
	}
	c := s.cur
	s.Seen[id] = true
	s.Steps++
	c.local++
	c.lastSite = id
	if s.Steps < s.next {
		if s.rtrace != nil {
			l := s.rtrace[min(c.ID+1, len(s.rtrace)-1)]
			if c.ri < len(l) && l[c.ri].At <= c.local {
				s.decide(c, 60)
			}
			return
		}
		if s.hot == nil || !s.hot[id] || s.rand()&1 == 0 {
			return
		}
	}
	s.decide(c, 60)
}

// YS is a scheduling point at a synchronisation operation or callback.
//
//go:norace
func YS() {
	s := cs
	if s == nil {
		return
	}
	c := s.cur
	s.Steps++
	c.local++
	switch s.st.Kind {
	case "replay":
		s.decide(c, 6)
	case "rand", "sync", "hot":
		if s.st.Kind == "sync" && s.st.Gap > 1 {
			if s.randn(s.st.Gap) == 0 {
				s.decide(c, 6)
			}
			return
		}
		if s.rand()&1 == 0 {
			s.decide(c, 6)
		}
	case "pct":
		if s.Steps >= s.next {
			s.decide(c, 6)
		}
	}
}

//go:norace
func (s *Sim) decide(c *Task, odds int) {
	if s.Steps > s.st.Max {
		s.Stuck = true
		s.stop()
		forever()
	}
	if s.st.Kind == "pct" {
		c.prio = -int(s.Steps)
		s.popPoint()
	} else {
		s.gap()
		if s.st.Stalls > 0 && s.st.Kind != "replay" && s.st.Kind != "seq" && s.randn(odds) == 0 {
			s.st.Stalls--
			s.Stalls++
			c.stall = s.Steps + 1 + uint64(s.randn(s.st.StallBy+1))
		}
	}
	n := s.choose(false)
	if n != c {
		s.pass(c, n)
		c.await()
	}
}

func forever() { select {} }

// Block suspends the running task until w is ready. It returns at once when
// it already is. Outside a simulation a wait that would block panics.
//
//go:norace
func Block(w Waiter, what string) {
	if w.Ready() {
		return
	}
	s := cs
	if s == nil {
		panic("vsim: blocked outside a simulation: " + what)
	}
	c := s.cur
	c.state, c.w, c.what = stBlocked, w, what
	for !w.Ready() {
		c.local++
		n := s.choose(true)
		if n == nil {
			s.Deadlock = true
			s.stop()
			forever()
		}
		if n == c {
			break
		}
		s.pass(c, n)
		c.await()
	}
	c.state, c.w = stRunnable, nil
}

type doneWait struct{ ts []*Task }

//go:norace
func (w doneWait) Ready() bool {
	for _, t := range w.ts {
		if t.state != stDone {
			return false
		}
	}
	return true
}

var doneSync int64

// WaitDone suspends the running task until the given ones have ended.
func WaitDone(ts ...*Task) {
	Block(doneWait{ts}, "waiting for tasks to end")
	Acquire(unsafe.Pointer(&doneSync))
}

// Spawn starts fn as a new task of a running simulation.
func Spawn(name string, proc any, fn func()) *Task {
	s := current()
	t := s.Add(name, proc, fn)
	t.prio = Cur().prio - 1
	s.start(t)
	return t
}

// Go runs fn as a new simulated task (a plain goroutine outside a simulation).
func Go(fn func()) {
	s := current()
	if s == nil {
		go fn()
		return
	}
	parent := Cur()
	t := s.Add(parent.Name+".go", parent.Proc, fn)
	t.prio = parent.prio - 1
	s.start(t)
	YS()
}

//go:norace
func current() *Sim { return cs }

// Clock is the simulated time passed, in nanoseconds.
//
//go:norace
func (s *Sim) Clock() int64 { return s.clock }

// Now stamps events with a global sequence number, invisible to the race detector.
//
//go:norace
func Now() int64 {
	s := cs
	if s == nil {
		return 0
	}
	s.stamp++
	return s.stamp
}

// Describe lists what unfinished tasks are doing.
//
//go:norace
func (s *Sim) Describe() string {
	out := ""
	for _, t := range s.Tasks {
		if t.state == stDone {
			continue
		}
		if out != "" {
			out += "; "
		}
		what := t.what
		if t.state != stBlocked {
			what = "running"
		}
		out += fmt.Sprintf("task %d (%s) %s at %s", t.ID, t.Name, what, SiteString(t.lastSite))
	}
	return out
}

// SetMax changes the step bound of a run that has not started.
func (s *Sim) SetMax(n uint64) { s.st.Max = n }

// KillProc ends every other task of a simulated process at once: they never run again.
//
//go:norace
func (s *Sim) KillProc(proc any) {
	for _, t := range s.Tasks {
		if t.Proc == proc && t != s.cur && t.state != stDone {
			t.state = stDone
			t.Exited = true
			s.wg.Done()
		}
	}
}
