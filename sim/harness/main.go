package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
)

// fail ends the process as broken (neither held nor violated).
func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: vsim check|work|replay|ref|selftest ...")
	}
	mode := os.Args[1]
	os.Args = os.Args[1:]
	switch mode {
	case "ref":
		refMain()
	case "work":
		workMain()
	case "replay":
		replayMain()
	case "exec":
		execMain()
	case "check":
		checkMain()
	default:
		fail("unknown mode %s", mode)
	}
}

// Msg is what a worker reports, one JSON line each.
type Msg struct {
	T      string         `json:"t"` // sum, viol, done, result
	Runs   int            `json:"runs,omitempty"`
	Scens  int            `json:"scens,omitempty"`
	Steps  uint64         `json:"steps,omitempty"`
	Pre    uint64         `json:"pre,omitempty"`
	SimNS  int64          `json:"simns,omitempty"`
	Keys   []uint64       `json:"keys,omitempty"`
	Probes map[string]int `json:"probes,omitempty"`
	Faults map[string]int `json:"faults,omitempty"`
	Sample any            `json:"sample,omitempty"`
	Sites  []int          `json:"sites,omitempty"`
	Strats map[string]int `json:"strats,omitempty"`
	// Digs: scenario number and digest of everything its runs did.
	Digs [][2]uint64 `json:"digs,omitempty"`

	Class string        `json:"class,omitempty"`
	Viol  string        `json:"viol,omitempty"`
	At    int           `json:"at,omitempty"` // index of the run that violated
	Trace []vsim.Switch `json:"trace,omitempty"`
	Hash  uint64        `json:"hash,omitempty"`
	Strat int           `json:"strat,omitempty"`
}

// logLine is one line of a worker's log of what it is about to run.
type logLine struct {
	Scen    *Ep            `json:"scen,omitempty"`
	Strat   *vsim.Strategy `json:"strat,omitempty"`
	MapSeed uint64         `json:"mapseed,omitempty"`
}

func newEmitter() func(m Msg) {
	f := os.NewFile(3, "report")
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	return func(m Msg) {
		if err := enc.Encode(m); err != nil {
			fail("report: %v", err)
		}
	}
}

func mix64(a, b uint64) uint64 {
	x := a ^ b*0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	return x ^ (x >> 29)
}

func epHash(ep *Ep) uint64 {
	c := *ep
	c.Idx = 0
	c.Strat = vsim.Strategy{}
	b, _ := json.Marshal(c)
	return hashStr(string(b))
}

func workMain() {
	prop := flag.String("prop", "", "")
	poolFile := flag.String("pool", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	n := flag.Int("n", 1, "")
	logFile := flag.String("log", "", "")
	until := flag.Int64("until", 0, "unix ms")
	flag.Parse()
	emit := newEmitter()
	d := props[*prop]
	if d == nil {
		fail("unknown property %s", *prop)
	}
	loadPoolCorpus()
	pool := loadPool(*poolFile)
	lf, err := os.Create(*logFile)
	if err != nil {
		fail("%v", err)
	}
	logEnc := json.NewEncoder(lf)
	logEnc.SetEscapeHTML(false)
	acc := newAcc()
	last := time.Now()
	flush := func() {
		for i, s := range acc.seen {
			if s {
				acc.m.Sites = append(acc.m.Sites, i)
			}
		}
		emit(acc.m)
		acc = newAcc()
		last = time.Now()
	}
	for i := *from; i < *from+*n; i++ {
		if *until > 0 && time.Now().UnixMilli() > *until {
			break
		}
		r := NewR(*seed, hashStr(*prop), uint64(i))
		ep := d.gen(r, pool)
		ep.Prop, ep.Idx = *prop, i
		logEnc.Encode(logLine{Scen: ep})
		h := epHash(ep)
		var lastSteps uint64
		var seen []bool
		var base *Outcome
		acc.m.Scens++
		dig := uint64(i)
		cut := false
		for k := 0; k < d.sched; k++ {
			if k > 0 && *until > 0 && time.Now().UnixMilli() > *until {
				cut = true
				break
			}
			rr := NewR(*seed, hashStr(*prop), uint64(i), uint64(k)+1)
			e := *ep
			if d.sched > 1 || k > 0 {
				e.Strat = pickStrategy(rr, lastSteps, seen)
			} else {
				e.Strat.Kind, e.Strat.Gap, e.Strat.Seed = "rand", 20, rr.U()
			}
			if k > 0 && d.strat != nil {
				e.Strat = d.strat(rr, base)
			}
			if k > 0 && d.vary != nil {
				c := *e.Cli
				e.Cli = &c
				d.vary(&e, rr, base)
				h = epHash(&e)
			}
			e.MapSeed = rr.U()
			logEnc.Encode(logLine{Strat: &e.Strat, MapSeed: e.MapSeed})
			if e.Cli != nil {
				logEnc.Encode(logLine{Scen: &e})
			}
			o := execute(&e)
			acc.add(&e, o, h)
			dig = mix64(mix64(dig, o.Key), mix64(o.Steps, uint64(len(o.Trace))))
			if o.Class != "" {
				flush()
				emit(Msg{T: "viol", Class: o.Class, Viol: o.Viol, Trace: o.Trace, Hash: o.Key})
				lf.Close()
				os.Exit(0)
			}
			lastSteps, seen = o.Steps, o.Seen
			if k == 0 {
				base = o
			}
			if time.Since(last) > time.Second {
				flush()
			}
		}
		if cut {
			break
		}
		acc.m.Digs = append(acc.m.Digs, [2]uint64{uint64(i), dig})
	}
	flush()
	emit(Msg{T: "done"})
}

type accum struct {
	m    Msg
	seen []bool
}

func newAcc() *accum {
	return &accum{m: Msg{T: "sum", Probes: map[string]int{}, Faults: map[string]int{}, Strats: map[string]int{}}, seen: make([]bool, vsim.NumSites())}
}

func (a *accum) add(ep *Ep, o *Outcome, h uint64) {
	m := &a.m
	m.Runs++
	m.Steps += o.Steps
	m.Pre += o.Pre
	m.SimNS += o.SimNS
	m.Strats[ep.Strat.Kind]++
	if !o.Triv && (o.Pre > 0 || o.Nontriv) {
		m.Keys = append(m.Keys, mix64(o.Key, h))
	}
	for k, v := range o.Probes {
		m.Probes[k] += v
	}
	for k, v := range o.Faults {
		m.Faults[k] += v
	}
	for i, s := range o.Seen {
		if s {
			a.seen[i] = true
		}
	}
	if m.Sample == nil && !o.Triv && (o.Pre > 0 || o.Nontriv) {
		tr := o.Trace
		if len(tr) > 12 {
			tr = tr[:12]
		}
		if ep.Cli != nil {
			m.Sample = map[string]any{"scenario": ep.Idx, "strategy": ep.Strat, "cli": cliSample(ep, o), "first_switches": tr, "steps": o.Steps}
			return
		}
		m.Sample = map[string]any{"scenario": ep.Idx, "strategy": ep.Strat, "tasks": ep.Tasks, "first_switches": tr, "steps": o.Steps, "note": o.Sample}
	}
}

// ProcSpec is everything one process runs, in order.
type ProcSpec struct {
	Prop string `json:"prop"`
	Runs []*Ep  `json:"runs"`
	// Alt: schedules to try for the last run, stopping at the first violation.
	Alt []vsim.Strategy `json:"alt,omitempty"`
}

// execMain runs a ProcSpec from stdin and reports the first violation.
func execMain() {
	emit := newEmitter()
	loadPoolCorpus()
	var sp ProcSpec
	if err := json.NewDecoder(os.Stdin).Decode(&sp); err != nil {
		fail("exec: %v", err)
	}
	var o *Outcome
	for i, ep := range sp.Runs {
		if i == len(sp.Runs)-1 && len(sp.Alt) > 0 {
			for k, st := range sp.Alt {
				e := *ep
				e.Strat = st
				o = execute(&e)
				if o.Class != "" {
					emit(Msg{T: "result", Class: o.Class, Viol: o.Viol, At: i, Strat: k, Trace: o.Trace, Hash: o.Key, Steps: o.Steps})
					os.Exit(0)
				}
			}
			break
		}
		o = execute(ep)
		if o.Class != "" {
			emit(Msg{T: "result", Class: o.Class, Viol: o.Viol, At: i, Trace: o.Trace, Hash: o.Key, Steps: o.Steps})
			os.Exit(0)
		}
	}
	m := Msg{T: "result", At: -1}
	if o != nil {
		m.Trace, m.Hash, m.Steps = o.Trace, o.Key, o.Steps
	}
	emit(m)
	os.Exit(0)
}

func loadPoolCorpus() {
	if d := os.Getenv("VSIM_CORPUS"); d != "" {
		loadCorpus(d)
	}
}

var _ = runtime.GC
