package vsim

import (
	"time"
)

// Clocks and timers of the code under test on simulated time. The clock moves
// when nobody can run; under a hurried schedule also earlier (to the next
// timer only: the others were slow).

var epoch = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

type timed interface{ wakeAt() (int64, bool) }

type sleepWait struct{ at int64 }

//go:norace
func (w sleepWait) Ready() bool { return cs != nil && cs.clock >= w.at }

//go:norace
func (w sleepWait) wakeAt() (int64, bool) { return w.at, true }

//go:norace
func clock() int64 { return cs.clock }

// look is the clock as the program sees it: some time may have passed since it
// looked last.
//
//go:norace
func look() int64 {
	s := cs
	if s.st.Skew != 0 {
		s.looks++
		h := s.st.Skew + s.looks*0x9E3779B97F4A7C15
		h = (h ^ h>>30) * 0xBF58476D1CE4E5B9
		h = (h ^ h>>27) * 0x94D049BB133111EB
		h ^= h >> 31
		if h&3 == 0 {
			s.clock += int64(1) << (h >> 8 % 41)
			s.Jumps++
			s.mix(uint64(s.clock))
		}
	}
	return s.clock
}

// Sleep is time.Sleep on simulated time: the clock jumps when nobody can run.
func Sleep(d time.Duration) {
	if current() == nil {
		time.Sleep(d)
		return
	}
	YS()
	if d > 0 {
		Block(sleepWait{clock() + int64(d)}, "sleeping")
	}
}

// WallNow, Since and Until are those of package time.
func WallNow() time.Time {
	if current() == nil {
		return time.Now()
	}
	now := look()
	return epoch.AddDate(0, 0, int(chance(1)%10_000)).Add(time.Duration(now))
}

func Since(t time.Time) time.Duration { return WallNow().Sub(t) }

func Until(t time.Time) time.Duration { return t.Sub(WallNow()) }

// Timer is time.Timer: a task that waits for its time or to be stopped.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	real *time.Timer
	run  *timerRun
}

type timerRun struct {
	at      int64
	stopped bool
	fired   bool
}

//go:norace
func (w *timerRun) Ready() bool { return w.stopped || cs != nil && cs.clock >= w.at }

//go:norace
func (w *timerRun) wakeAt() (int64, bool) { return w.at, !w.stopped }

//go:norace
func (w *timerRun) fire() bool {
	if w.stopped {
		return false
	}
	w.fired = true
	return true
}

//go:norace
func (w *timerRun) stop() bool {
	was := !w.stopped && !w.fired
	w.stopped = true
	return was
}

func (t *Timer) begin(d time.Duration) {
	r := &timerRun{at: clock() + int64(max(d, 0))}
	t.run = r
	spawnTimer("timer", func() {
		Block(r, "waiting for a timer")
		if !r.fire() {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- epoch.Add(time.Duration(clock())):
		default:
		}
	}, false)
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if current() == nil {
		r := time.NewTimer(d)
		return &Timer{real: r, C: r.C}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.begin(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if current() == nil {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.begin(d)
	return t
}

// Stop is that of time.Timer.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	YS()
	was := t.run.stop()
	t.drain()
	return was
}

// drain: a stopped or reset timer's channel holds nothing.
func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

// Reset is that of time.Timer.
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	if current() != nil {
		t.begin(d)
	}
	return was
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	real *time.Ticker
	run  *timerRun
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if current() == nil {
		r := time.NewTicker(d)
		return &Ticker{real: r, C: r.C}
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.begin(d)
	return t
}

func (t *Ticker) begin(d time.Duration) {
	r := &timerRun{at: clock() + int64(d)}
	t.run = r
	spawnTimer("ticker", func() {
		for {
			Block(r, "waiting for a ticker")
			if r.isStopped() {
				return
			}
			select {
			case t.c <- epoch.Add(time.Duration(clock())):
			default:
			}
			r.again(d)
			YS()
		}
	}, true)
}

//go:norace
func (w *timerRun) isStopped() bool { return w.stopped }

//go:norace
func (w *timerRun) again(d time.Duration) { w.at = cs.clock + int64(d) }

// Stop is that of time.Ticker.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.run.stop()
	YS()
}

// Reset is that of time.Ticker.
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.Stop()
	if current() != nil {
		t.begin(d)
	}
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func spawnTimer(name string, fn func(), daemon bool) {
	s := current()
	parent := Cur()
	t := s.Add(parent.Name+"."+name, parent.Proc, fn)
	t.timer, t.daemon = true, daemon
	t.prio = parent.prio + 1
	s.start(t)
}

// advance moves the clock to the next sleeper; false: there is none.
//
//go:norace
func (s *Sim) advance() bool {
	next := int64(-1)
	for _, t := range s.Tasks {
		if t.state != stBlocked {
			continue
		}
		if w, ok := t.w.(timed); ok {
			if at, on := w.wakeAt(); on && at > s.clock && (next < 0 || at < next) {
				next = at
			}
		}
	}
	if next <= s.clock {
		return false
	}
	s.clock = next
	return true
}

// alive: somebody other than a ticker has not ended.
//
//go:norace
func (s *Sim) alive() bool {
	for _, t := range s.Tasks {
		if t.state != stDone && !t.daemon {
			return true
		}
	}
	return false
}

type quietWait struct{ ok bool }

//go:norace
func (w *quietWait) Ready() bool { return w.ok }

// Quiesce suspends the running task until nobody else can run.
func Quiesce() {
	if current() != nil {
		Block(&quietWait{}, "waiting for the others to come to rest")
	}
}

// settled wakes those who wait for everybody to come to rest.
//
//go:norace
func (s *Sim) settled() bool {
	any := false
	for _, t := range s.Tasks {
		if t.state == stBlocked {
			if w, ok := t.w.(*quietWait); ok && !w.ok {
				w.ok, any = true, true
			}
		}
	}
	return any
}
