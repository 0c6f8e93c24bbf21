package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
)

// Op is one step of a simulated client.
type Op struct {
	K   string `json:"k"`
	C   int    `json:"c,omitempty"`
	E   int    `json:"e,omitempty"`
	Via string `json:"via,omitempty"`
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
	S   string `json:"s,omitempty"`
	L   []int  `json:"l,omitempty"`
	Tok int    `json:"tok,omitempty"`
	N   int    `json:"n,omitempty"` // repetitions
	rep int
	Sub []Op `json:"sub,omitempty"`
}

// Ep is one simulated run: a scenario and how it is scheduled.
type Ep struct {
	Prop    string         `json:"prop"`
	Idx     int            `json:"idx"`
	MapSeed uint64         `json:"mapseed"`
	Strat   vsim.Strategy  `json:"strategy"`
	Specs   []Spec         `json:"specs,omitempty"`
	Entries []Entry        `json:"entries,omitempty"`
	Setup   []Op           `json:"setup,omitempty"` // before the tasks start
	Tasks   [][]Op         `json:"tasks,omitempty"`
	Final   []Op           `json:"final,omitempty"`
	P       map[string]int `json:"p,omitempty"`
	Cli     *CliEp         `json:"cli,omitempty"`
}

// Outcome is what one run gave.
type Outcome struct {
	Class  string // empty: no violation
	Viol   string
	Steps  uint64
	Pre    uint64
	Key    uint64 // identity of the interleaving / fault sequence
	Triv   bool
	Trace  []vsim.Switch
	Probes map[string]int
	Faults map[string]int
	Sample any
	Seen   []bool
	SimNS  int64
	Calls  [][]callInfo // per simulated process
	// Nontriv overrides the rule "at least one preemption".
	Nontriv bool
}

type propDef struct {
	id     string
	race   bool
	gen    func(r *R, p *Pool) *Ep
	run    func(x *run)
	shrink func(ep *Ep) []*Ep
	vary   func(ep *Ep, r *R, base *Outcome) // makes run k>0 of a scenario
	strat  func(r *R, base *Outcome) vsim.Strategy
	sched  int    // schedules per scenario
	batch  []int  // scenarios per process, drawn from
	quick  int    // seconds
	rule   string // for the evidence
	real   []string
	stub   []string
	pool   [3]int // specs, docs per spec, max size
}

var props = map[string]*propDef{}

func define(p *propDef) { props[p.id] = p }

// run is the state of one run.
type run struct {
	ep      *Ep
	sim     *vsim.Sim
	out     *Outcome
	solo    uint64     // steps of the conversions of the run, each of them alone
	notes   [][]string // per task, written by it only: violations found on the way
	probes  map[string]int
	faults  map[string]int
	after   []func()
	tasks   []*vsim.Task
	keep    []any
	okPanic func(t *vsim.Task) bool
	opts    map[string][]converter.ConvertOptionFunc // lists of options that conversions share
}

func (x *run) violate(class, format string, a ...any) {
	if x.out.Class == "" {
		x.out.Class = class
		x.out.Viol = fmt.Sprintf(format, a...)
	}
}

func (x *run) probe(name string) { x.probes[name]++ }

// note records a violation seen by a running task.
func (x *run) note(class, format string, a ...any) {
	id := vsim.Cur().ID
	if id < len(x.notes) {
		x.notes[id] = append(x.notes[id], class+"|"+fmt.Sprintf(format, a...))
	}
}

// final adds a task that runs when all tasks added so far have ended.
func (x *run) final(fn func()) {
	ts := append([]*vsim.Task(nil), x.tasks...)
	x.task("final", nil, func() {
		vsim.WaitDone(ts...)
		fn()
	})
}

func (x *run) task(name string, proc any, fn func()) *vsim.Task {
	t := x.sim.Add(name, proc, fn)
	x.tasks = append(x.tasks, t)
	return t
}

// tok makes the token of an operation: unique per run of the process.
var runSerial int

func (x *run) tok(task, op int) int { return (runSerial*64+task)*64 + op + 1 }

var repoFrame = regexp.MustCompile(`html-to-markdown/v2[^\s(]*\S*\n\s+(\S+:\d+)`)

func stackTop(stack string) string {
	// the frame below panic()
	i := strings.LastIndex(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, m := range repoFrame.FindAllStringSubmatch(stack, -1) {
		if !strings.Contains(m[1], "/vsim/") {
			return relPath(m[1])
		}
	}
	return "?"
}

func relPath(s string) string {
	return strings.TrimPrefix(s, "/repo/")
}

// execute runs an episode in this process.
func execute(ep *Ep) (o *Outcome) {
	o = &Outcome{Probes: map[string]int{}, Faults: map[string]int{}}
	runSerial++
	runtime.VerifSetMapSeed(ep.MapSeed)
	runtime.VerifSetRand(ep.MapSeed * 0xBF58476D1CE4E5B9)
	d := props[ep.Prop]
	x := &run{ep: ep, out: o, sim: vsim.New(ep.Strat), probes: o.Probes, faults: o.Faults}
	x.notes = make([][]string, 64)
	raceMark := raceLogSize()
	if ep.Strat.Max == 0 { // by the size of the documents and what they cost alone
		n, solo := 0, uint64(0)
		for _, l := range append(ep.Tasks, ep.Final) {
			for _, op := range l {
				if op.E >= 0 && op.E < len(ep.Entries) {
					n += max(1, op.N) * len(ep.Entries[op.E].Doc)
					solo += uint64(max(1, op.N)) * ep.Entries[op.E].Steps
				}
			}
		}
		if c := ep.Cli; c != nil {
			procs, all := 0, 0
			size := func(b []byte) { // a large one is mostly padding
				n += min(len(b), 100_000)
				all += len(b)
			}
			for _, f := range c.Files {
				size(f.Data)
			}
			for _, ph := range c.Phases {
				procs += len(ph.Procs)
			}
			n, all = n*procs, all*procs
			for _, ph := range c.Phases {
				for _, q := range ph.Procs {
					size(q.Stdin)
				}
			}
			x.sim.SetMax(50_000_000 + uint64(n)*20_000 + uint64(all)*100)
		} else {
			x.sim.SetMax(50_000_000 + uint64(n)*20_000 + 20*solo)
		}
		x.solo = solo
	}
	d.run(x)
	s := x.sim
	var before map[string]bool
	if ep.Prop == "C18" {
		before = strays()
	}
	if len(s.Tasks) > 0 {
		s.Run()
	}
	if before != nil && !s.Deadlock && !s.Stuck {
		x.leftOver(before)
	}
	o.Steps, o.Pre, o.Key, o.Trace, o.Seen, o.SimNS = s.Steps, s.Preempts, s.Hash, s.Trace, s.Seen, s.Clock()
	if s.Jumps > 0 {
		x.faults["clock jump"] += int(s.Jumps)
	}
	if s.Stalls > 0 {
		x.faults["task stalled"] += int(s.Stalls)
	}
	switch {
	case s.Deadlock:
		x.violate("deadlock", "deadlock: %s", s.Describe())
		return
	case s.Stuck:
		x.violate("stuck", "no progress within %d steps: %s", s.Steps, s.Describe())
		return
	}
	for i, t := range s.Tasks {
		if t.Panicked && (x.okPanic == nil || !x.okPanic(t)) {
			x.violate("panic", "task %d (%s) panicked: %v at %s", i, t.Name, t.PanicVal, stackTop(t.Stack))
		}
	}
	for _, f := range x.after {
		f()
	}
	for _, l := range x.notes {
		for _, v := range l {
			class, rest, _ := strings.Cut(v, "|")
			x.violate(class, "%s", rest)
		}
	}
	if s.Races > 0 {
		x.violate("race", "data race: %s", raceLog(raceMark))
	}
	return
}

// ------------------------------------------------------------- race reports

func raceLogFile() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(kv, "log_path="); ok {
			m, _ := filepath.Glob(v + ".*")
			if len(m) > 0 {
				sort.Strings(m)
				return v + "." + fmt.Sprint(os.Getpid())
			}
			return v + "." + fmt.Sprint(os.Getpid())
		}
	}
	return ""
}

func raceLogSize() int64 {
	if !vsim.RaceBuild {
		return 0
	}
	st, err := os.Stat(raceLogFile())
	if err != nil {
		return 0
	}
	return st.Size()
}

var raceAccess = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) at .*\n((?:  .*\n)+)`)
var raceFrame = regexp.MustCompile(`\s+(\S+:\d+) `)

// raceLog summarises the first report written after mark.
func raceLog(mark int64) string {
	b, err := os.ReadFile(raceLogFile())
	if err != nil || int64(len(b)) <= mark {
		return "(no report text)"
	}
	txt := string(b[mark:])
	if i := strings.Index(txt, "\n=================="); i > 0 {
		txt = txt[:i+1]
	}
	var parts []string
	for _, m := range raceAccess.FindAllStringSubmatch(txt, 2) {
		where := ""
		for _, f := range raceFrame.FindAllStringSubmatch(m[2], -1) {
			p := relPath(f[1])
			if strings.HasPrefix(f[1], "/repo/") && !strings.Contains(p, "internal/vsim/") {
				where = p
				break
			}
			if where == "" {
				where = f[1]
			}
		}
		parts = append(parts, strings.ToLower(m[1])+" at "+where)
	}
	return strings.Join(parts, ", ")
}

// ------------------------------------------------------------------ strategy

// pickStrategy chooses how the next run of a scenario is scheduled.
func pickStrategy(r *R, lastSteps uint64, seen []bool) vsim.Strategy {
	st := vsim.Strategy{Seed: r.U()}
	st.Hurry = st.Seed>>9&1 == 1
	if st.Seed>>10&3 == 3 {
		st.Skew = st.Seed | 1
	}
	switch k := r.N(100); {
	case k < 45 || lastSteps == 0:
		st.Kind, st.Gap = "rand", r.PickI(1, 2, 4, 8, 20, 60, 200)
	case k < 68:
		st.Kind, st.Depth, st.Est = "pct", r.In(1, 4), int(lastSteps)
	case k < 92:
		st.Kind = "hot"
		fns := map[string]bool{}
		for i, ok := range seen {
			if ok {
				fns[vsim.SiteFunc(int32(i))] = true
			}
		}
		var l []string
		for f := range fns {
			l = append(l, f)
		}
		sort.Strings(l)
		for i := r.In(1, 3); i > 0 && len(l) > 0; i-- {
			st.HotFns = append(st.HotFns, l[r.N(len(l))])
		}
	default:
		st.Kind = "sync"
	}
	if r.P(40) && lastSteps > 0 {
		st.Stalls, st.StallBy = r.In(1, 3), int(lastSteps)/r.PickI(1, 2, 6)
	}
	return st
}

// ------------------------------------------------------------------ shrinking

func cloneEp(ep *Ep) *Ep {
	c := *ep
	c.Tasks = make([][]Op, len(ep.Tasks))
	for i, t := range ep.Tasks {
		c.Tasks[i] = append([]Op(nil), t...)
	}
	c.Setup = append([]Op(nil), ep.Setup...)
	c.Final = append([]Op(nil), ep.Final...)
	c.P = map[string]int{}
	for k, v := range ep.P {
		c.P[k] = v
	}
	return &c
}

// shrinkOps drops tasks and operations.
func shrinkOps(ep *Ep) []*Ep {
	var out []*Ep
	if len(ep.Tasks) > 1 {
		for i := range ep.Tasks {
			c := cloneEp(ep)
			c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...)
			out = append(out, c)
		}
	}
	for i := range ep.Tasks {
		if len(ep.Tasks[i]) < 2 {
			continue
		}
		for j := range ep.Tasks[i] {
			c := cloneEp(ep)
			c.Tasks[i] = append(c.Tasks[i][:j], c.Tasks[i][j+1:]...)
			out = append(out, c)
		}
	}
	for i := range ep.Tasks {
		for j, op := range ep.Tasks[i] {
			for _, n := range []int{0, op.N / 2, op.N * 3 / 4, op.N - 1} {
				if op.N > 1 && n != op.N {
					c := cloneEp(ep)
					c.Tasks[i][j].N = n
					out = append(out, c)
				}
			}
		}
	}
	for j := range ep.Setup {
		c := cloneEp(ep)
		c.Setup = append(c.Setup[:j], c.Setup[j+1:]...)
		out = append(out, c)
	}
	if len(ep.Final) > 1 {
		for j := range ep.Final {
			c := cloneEp(ep)
			c.Final = append(c.Final[:j], c.Final[j+1:]...)
			out = append(out, c)
		}
	}
	return out
}

// build makes the converters of an episode.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-20)
	cut := func(s string) string {
		hi := min(len(s), i+40)
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("lengths %d and %d, first difference at byte %d: got %q, want %q", len(a), len(b), i, cut(a), cut(b))
}
