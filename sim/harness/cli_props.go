package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

var cliReal = []string{
	"cli/html2markdown: main (40 % of the runs with one process), cmd (flag parsing, globbing, reading, converting, writing), from its Run function on",
	"converter and plugins, doublestar, cascadia, termenv, the Go os, io and flag packages",
	"files: real ones on a memory file system, in a directory of the run's own",
}
var cliStub = []string{
	"main.go in 60 % of the runs with one process (and all with several), which start at its Run function",
	"system calls that the simulator makes fail, shortens or interrupts (hooks in an overlay of the standard library)",
	"stdin, stdout, stderr (fakes behind the program's own interface, or behind the file descriptors 0, 1 and 2 for os.Stdin, os.Stdout and os.Stderr)",
	"processes: simulated tasks of one process; os.Exit and kill end the task and suppress every later call",
}

const cliRule = " A run's distinctness is the hash of its files, commands, fault plan and of the sequence of system calls, effects and schedule that followed. Non-trivial: a fault plan that is not empty, or a preemption."

func init() {
	mk := func(id string, quick, sched int, rule string, gen func(r *R, p *Pool) *Ep, run func(x *run), vary func(ep *Ep, r *R, base *Outcome)) {
		define(&propDef{id: id, sched: sched, batch: []int{2, 6, 20}, quick: quick, gen: func(r *R, p *Pool) *Ep {
			ep := gen(r, p)
			ep.Cli.SamePids, ep.Cli.TmpFS = r.P(40), r.P(50)
			return ep
		}, run: run, vary: vary, strat: cliStrat, shrink: shrinkCli, rule: rule + cliRule, real: cliReal, stub: cliStub})
	}
	mk("C12", 25, 40, "A run is one CLI invocation (file, glob or stdin to a file or directory, mostly without --output-overwrite) over a seeded tree in which some outputs already exist as files, links or links to nowhere, while other programs create files at its output paths just before a seeded system call of it, calls fail or are interrupted, or it is killed.", genC12, runC12, varyC12)
	mk("C13", 25, 60, "A run is one CLI invocation over a seeded tree; the first run of a scenario is fault-free and must succeed, the others fail, shorten or interrupt seeded system calls and stream operations of it (one, several, soft ones only, disk full from a seeded byte on).", genC13, runC13, varyC13)
	mk("C14", 25, 60, "A run is one CLI invocation over a seeded tree, killed at a seeded point (before or after a system call, or within a write) or with failing system calls.", genC14, runC14, varyC14)
	mk("C15", 25, 40, "A run is a history of up to four invocations that are killed, fail, run into a full disk or lose power (part of what was written lately is lost), over outputs that other programs left, followed by one healthy run of the same command with --output-overwrite.", genC15, runC15, varyC15)
	mk("C16", 25, 60, "A run is two to four CLI processes at once over one tree, with outputs of their own (in shared, partly missing directories) or competing for the same files without --output-overwrite, interleaved at system calls, with interrupted and short calls.", genC16, runC16, varyC16)
	mk("C17", 25, 60, "A run is one CLI invocation reading a simulated pipe in seeded pieces, next to files it could mistake for its input, writing to a simulated stdout, a file or a directory; stdin or stdout fails at a seeded byte, or calls fail or are interrupted.", genC17, runC17, varyC17)
}

func one(g *cliGen, p CProc) *Ep {
	p.Main = g.r.P(40)
	return &Ep{P: map[string]int{}, Cli: &CliEp{Files: g.files, Phases: []CPhase{{Procs: []CProc{p}}}}}
}

func addFaults(ep *Ep, r *R, base *Outcome, n int, mode func() string, skip func(callInfo) bool) {
	for ; n > 0; n-- {
		if len(base.Calls) == 0 {
			return
		}
		p := r.N(len(base.Calls))
		l := base.Calls[p]
		if len(l) == 0 {
			continue
		}
		at := pickCall(r, l, skip)
		m := mode()
		if at+3 >= len(l) && r.P(5) {
			at += r.In(1, 3)
		}
		ep.Cli.Faults = append(ep.Cli.Faults, pickFault(r, p, at, l[min(at, len(l)-1)], m))
	}
}

func nFaults(r *R) int { return r.PickI(1, 1, 1, 2, 2, 3, 5) }

// --------------------------------------------------------- C12: never clobbers

// allTaken: each of the many outputs of one process already exists.
func allTaken(r *R) *Ep {
	g := &cliGen{r: r, have: map[string]bool{}}
	n := 256
	if r.P(50) {
		n = 1 + dictInt(r, 600)
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%03d", i)
		g.file("in/"+name+".html", []byte("<p>"+name+"</p>"))
		g.file("out/"+name+".md", []byte("OLD"))
	}
	return one(g, CProc{In: "in/*.html", Out: "out/"})
}

func genC12(r *R, _ *Pool) *Ep {
	if r.N(150) == 0 {
		return allTaken(r)
	}
	g := newCliGen(r)
	p := g.proc("out")
	for p.Out == "" {
		p = g.proc("out")
	}
	p.Over = r.P(12)
	if !p.Over && r.P(10) { // writing over its own input
		p.In = g.input(false)
		p.Out = strings.TrimPrefix(p.In, "{ROOT}/")
	} else if !p.Over && r.P(5) {
		p.In, p.Out = "in/*", "in/"
	}
	outs, data := g.outputsOf(p)
	if r.P(4) {
		g.inTheWay(outs)
	}
	if r.P(45) {
		g.existing(outs, data)
		if len(outs) > 0 && r.P(25) {
			o := outs[r.N(len(outs))]
			t := r.Pick("notes.txt", "out/target.md", "out/nowhere.md", "no/where.md")
			if !g.have[o] {
				if r.P(60) {
					g.file(t, junk(r, 30))
				}
				rel, err := filepath.Rel(filepath.Dir(o), t)
				if err == nil && g.free(o) {
					g.have[o] = true
					g.files = append(g.files, CFile{Path: o, Link: rel})
				}
			}
		}
	}
	g.odd(&p)
	g.modes()
	ep := one(g, p)
	return ep
}

func varyC12(ep *Ep, r *R, base *Outcome) {
	c := ep.Cli
	p := c.Phases[0].Procs[0]
	g := &cliGen{r: r, files: c.Files, have: map[string]bool{}}
	outs, data := g.outputsOf(p)
	if len(outs) > 0 && len(base.Calls[0]) > 0 && r.P(70) {
		for i := r.PickI(1, 1, 2); i > 0; i-- {
			o := outs[r.N(len(outs))]
			d := junk(r, r.PickI(0, 5, 50, 3000))
			if r.P(20) {
				d = []byte(data[o])
			}
			at := pickCall(r, base.Calls[0], nil)
			if r.P(30) { // just before a file is opened or created
				for j := len(base.Calls[0]) - 1; j >= 0; j-- {
					if ci := base.Calls[0][j]; ci.op == "open" && strings.HasSuffix(ci.path, filepath.Base(o)) {
						at = j
						break
					}
				}
			}
			c.Faults = append(c.Faults, CFault{P: 0, At: at, K: "env", Path: o, Data: d})
		}
	}
	if len(c.Faults) == 0 || r.P(45) {
		addFaults(ep, r, base, r.PickI(1, 1, 2), func() string { return r.Pick("err", "err", "soft", "kill") }, nil)
	}
}

func runC12(x *run) {
	c := newCrun(x)
	defer func() { x.after = append(x.after, c.close) }()
	c.onEv = func(p *cproc, ev fsEvent) {
		if ev.kind == "created" || ev.before.kind == 'd' {
			return
		}
		if !p.spec.Over && ev.owner != p.idx {
			x.violate("clobber", "a file that already existed was %s without --output-overwrite: %q, by %s of process %d (%s)", ev.kind, ev.path, p.last(), p.idx, strings.Join(p.spec.brief(), " "))
		}
		if p.spec.Over && p.exp.isInput(ev.path) && p.exp.out(ev.path) == nil {
			x.violate("clobber-input", "the input file %q was %s by %s of process %d (%s)", ev.path, ev.kind, p.last(), p.idx, strings.Join(p.spec.brief(), " "))
		}
	}
	c.runPhases(func(_ int, ps []*cproc) {
		p := ps[0]
		if p.killed() {
			return
		}
		// what was there before, or came while it ran, at an output path
		conflict := ""
		for _, o := range p.exp.outs {
			e, now := c.snap[o.path]
			if now && c.ownerOf(e) != p.idx {
				conflict = o.path
			}
		}
		if conflict == "" || p.spec.Over {
			x.probe("no conflict")
			return
		}
		x.probe("conflict met")
		if p.exit == 0 && len(p.hard)+len(p.anyf) == 0 {
			x.violate("silent", "a file existed at the output path %q, without --output-overwrite, but %s", conflict, p.describe())
			return
		}
		if p.exit != 0 && len(p.stderr) == 0 && !p.errLost {
			x.violate("unreported", "a file existed at the output path %q: nothing on stderr: %s", conflict, p.describe())
			return
		}
		if _, was := p.pre[conflict]; !was && strings.ContainsAny(p.spec.In, "*?[{") {
			return // what came may have been taken for one more input
		}
		if len(p.hard)+len(p.anyf) == 0 && p.exp.ok && !strings.Contains(strings.ToLower(string(p.stderr)), "exist") {
			x.violate("unreported", "a file existed at the output path %q: stderr does not say so: %s", conflict, p.describe())
		}
	})
}

func (c *crun) ownerOf(e fent) int {
	if o, ok := c.owner[e.ino]; ok {
		return o
	}
	return -1
}

func (p *cproc) last() string {
	if len(p.calls) == 0 {
		return "nothing"
	}
	ci := p.calls[len(p.calls)-1]
	return fmt.Sprintf("system call %d (%s %s)", len(p.calls)-1, ci.op, ci.path)
}

func (s CProc) brief() []string {
	in := s.In
	if in == "" {
		in = "stdin"
	}
	l := []string{"input " + in, "output " + s.Out}
	if s.Over {
		l = append(l, "overwrite")
	}
	return l
}

// ------------------------------------------- C13: exit 0 means done and right

func genC13(r *R, _ *Pool) *Ep {
	if r.N(200) == 0 {
		return allTaken(r)
	}
	g := newCliGen(r)
	p := g.proc("out")
	if r.P(3) {
		outs, _ := g.outputsOf(p)
		g.inTheWay(outs)
	}
	if p.Over && r.P(50) {
		outs, data := g.outputsOf(p)
		g.existing(outs, data)
	}
	g.odd(&p)
	g.modes()
	return one(g, p)
}

func varyC13(ep *Ep, r *R, base *Outcome) {
	mode := "err"
	if r.P(20) {
		mode = "soft"
	}
	n := nFaults(r)
	if mode == "soft" {
		n = r.In(1, 8)
	}
	addFaults(ep, r, base, n, func() string {
		if mode == "err" && r.P(15) {
			return "soft"
		}
		return mode
	}, nil)
}

// complete says what is wrong with the outputs of a process that claims success.
func (c *crun) complete(p *cproc) string {
	if p.exp.kind == "stdout" {
		if string(p.stdout) != p.exp.stdout {
			return "stdout is wrong: " + diffAt(string(p.stdout), p.exp.stdout)
		}
		return ""
	}
	if len(p.stdout) > 0 && len(p.exp.outs) > 0 {
		return fmt.Sprintf("it also wrote %d bytes to stdout", len(p.stdout))
	}
	for _, o := range p.exp.outs {
		e, ok := c.snap[o.path]
		switch {
		case !ok:
			return fmt.Sprintf("the output %q of input %q is missing", o.path, o.in)
		case e.kind != 'f':
			return fmt.Sprintf("the output %q is not a file", o.path)
		case e.data != o.data:
			return fmt.Sprintf("the output %q of input %q is wrong: %s", o.path, o.in, diffAt(e.data, o.data))
		}
	}
	return ""
}

// conflicts: an output path was taken before the run and may not be replaced.
func (p *cproc) conflicts() string {
	if p.spec.Over {
		return ""
	}
	for _, o := range p.exp.outs {
		if _, ok := p.pre[o.path]; ok {
			return o.path
		}
	}
	return ""
}

// blocked: an existing file or directory stands in the way.
func (p *cproc) blocked() bool {
	for _, o := range p.exp.outs {
		if e, ok := p.pre[o.path]; ok && e.kind == 'd' {
			return true
		}
		for d := filepath.Dir(o.path); d != "."; d = filepath.Dir(d) {
			if e, ok := p.pre[d]; ok && e.kind == 'f' {
				return true
			}
		}
	}
	return false
}

func (c *crun) checkExit(p *cproc) {
	x := c.x
	if p.killed() || p.exp.kind == "info" {
		return
	}
	should := p.exp.ok && p.conflicts() == "" && !p.blocked()
	if p.exit == 0 {
		if !p.exp.ok {
			x.violate("false-success", "the command cannot succeed (%s), but %s", p.exp.why, p.describe())
			return
		}
		if w := c.complete(p); w != "" {
			x.violate("false-success", "%s; faults met: %v %v; %s", w, p.hard, p.anyf, p.describe())
			return
		}
		if len(p.hard) > 0 {
			x.violate("ignored-failure", "a call failed (%s) and the run still reports success: %s", strings.Join(p.hard, "; "), p.describe())
			return
		}
		x.probe("complete and correct")
		return
	}
	if len(p.stderr) == 0 && !p.errLost {
		x.violate("silent-failure", "nothing on stderr: faults met: %v %v; %s", p.hard, p.anyf, p.describe())
		return
	}
	if should && len(p.hard)+len(p.anyf) == 0 {
		x.violate("false-failure", "no call failed (only %d interrupted or short ones), but %s", p.soft, p.describe())
		return
	}
	if len(p.hard) > 0 {
		x.probe("failure reported")
	}
}

func runC13(x *run) {
	c := newCrun(x)
	defer func() { x.after = append(x.after, c.close) }()
	c.runPhases(func(_ int, ps []*cproc) {
		for _, p := range ps {
			c.checkExit(p)
		}
	})
}

// --------------------------------------------- C14: no damage beyond one output

func genC14(r *R, _ *Pool) *Ep {
	g := newCliGen(r)
	p := g.proc("out")
	p.Over = r.P(65)
	outs, data := g.outputsOf(p)
	if r.P(4) {
		g.inTheWay(outs)
	}
	if r.P(75) {
		if p.Over {
			g.existing(outs, data)
		} else if len(outs) > 0 && r.P(30) {
			g.existing(outs[len(outs)-1:], data)
		}
	}
	if p.Out != "" && r.P(50) { // others in the output directory
		_ = g.file("out/keep.md", junk(r, 20)) && g.file("out/output.html", junk(r, 20))
		g.file("out/a.md.bak", junk(r, 10))
	}
	g.odd(&p)
	g.modes()
	return one(g, p)
}

func varyC14(ep *Ep, r *R, base *Outcome) {
	switch k := r.N(100); {
	case k < 50:
		addFaults(ep, r, base, 1, func() string { return "kill" }, nil)
		if r.P(20) {
			addFaults(ep, r, base, 1, func() string { return "err" }, nil)
		}
	default:
		addFaults(ep, r, base, nFaults(r), func() string { return r.Pick("err", "err", "err", "soft") }, nil)
	}
}

func within(path, dir string) bool {
	return dir == "." || path == dir || strings.HasPrefix(path, dir+"/")
}

func runC14(x *run) {
	c := newCrun(x)
	defer func() { x.after = append(x.after, c.close) }()
	c.onEv = func(p *cproc, ev fsEvent) {
		o := p.exp.out(ev.path)
		who := fmt.Sprintf("by %s of process %d (%s)", p.last(), p.idx, strings.Join(p.spec.brief(), " "))
		if ev.after.kind == 'd' || ev.before.kind == 'd' {
			if ev.kind == "created" && p.exp.mk[ev.path] {
				return
			}
			if ev.kind == "removed" && ev.owner == p.idx {
				return
			}
			x.violate("directory", "the directory %q was %s %s", ev.path, ev.kind, who)
			return
		}
		if o == nil {
			if ev.owner == p.idx { // its own temporary file
				return
			}
			if ev.kind == "created" {
				if p.exp.kind == "stdout" || p.exp.kind == "info" || !within(ev.path, p.exp.loc) || (p.exp.kind == "file" && filepath.Dir(ev.path) != p.exp.loc) {
					x.violate("outside", "%q was created, outside the output location, %s", ev.path, who)
				}
				return
			}
			x.violate("damage", "%q is not an output but was %s %s", ev.path, ev.kind, who)
			return
		}
		if ev.kind != "created" && ev.owner != p.idx && !p.inputDone(o) {
			x.violate("early", "the existing output %q was %s before its input %q had been read and converted, %s", ev.path, ev.kind, o.in, who)
			return
		}
		if ev.kind != "removed" && ev.after.kind == 'f' && ev.after.data == o.data {
			p.made[o.path] = true
		} else if p.made[o.path] {
			x.violate("undone", "the output %q was complete and then %s again %s", ev.path, ev.kind, who)
		}
	}
	c.onEnd = func(p *cproc) {
		if p.ok() {
			return
		}
		var bad []string
		for _, o := range p.exp.outs {
			b, was := p.pre[o.path]
			a, is := c.snap[o.path]
			same := was == is && b.data == a.data && b.kind == a.kind && b.mode == a.mode
			if !same && !(is && a.kind == 'f' && a.data == o.data) {
				bad = append(bad, o.path)
			}
		}
		if len(bad) > 1 {
			x.violate("several", "a failed run left %d outputs incomplete (%s): %s", len(bad), strings.Join(bad, ", "), p.describe())
		}
		if len(bad) == 1 {
			x.probe("one incomplete output")
		} else {
			x.probe("no incomplete output")
		}
	}
	c.runPhases(func(_ int, ps []*cproc) {
		for _, p := range ps {
			p.c.untouched(p)
		}
	})
}

// untouched compares the final tree with the first: the backstop for changes
// that no system call of the process explained.
func (c *crun) untouched(p *cproc) {
	now := c.scan()
	var l []string
	for k := range p.pre {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		if p.exp.out(k) != nil {
			continue
		}
		b := p.pre[k]
		a, ok := now[k]
		if !ok || a.kind != b.kind || a.data != b.data && a.kind != 'd' {
			c.x.violate("damage", "%q is not an output but changed; %s", k, p.describe())
		}
	}
}

// inputDone: the input of this output has been read to its end and converts.
func (p *cproc) inputDone(o *expOut) bool {
	if !p.exp.ok && strings.HasPrefix(p.exp.why, "conversion") {
		if _, e := refConvert(p.spec, p.inputData(o)); e != "" {
			return false
		}
	}
	if o.in == "" {
		return p.sinPos == len(p.spec.Stdin) && p.sinEOF
	}
	path := o.in
	if e := p.pre[path]; e.kind == 'l' {
		path = filepath.Clean(filepath.Join(filepath.Dir(path), e.data))
	}
	for _, k := range []string{o.in, path} {
		if p.eof[k] || p.got[k] > 0 && p.got[k] >= int64(len(p.pre[path].data)) {
			return true
		}
	}
	return false
}

func (p *cproc) inputData(o *expOut) []byte {
	if o.in == "" {
		return p.spec.Stdin
	}
	e := p.pre[o.in]
	if e.kind == 'l' {
		e = p.pre[filepath.Clean(filepath.Join(filepath.Dir(o.in), e.data))]
	}
	return []byte(e.data)
}

// ------------------------------------------------------ C15: a rerun converges

func genC15(r *R, _ *Pool) *Ep {
	g := newCliGen(r)
	p := g.proc("out")
	for p.Out == "" || p.Strong == "*" || p.Strong == "x" || p.Strong == "***" {
		p = g.proc("out")
	}
	outs, data := g.outputsOf(p)
	g.readOnly(outs)
	if r.P(40) {
		g.existing(outs, data)
	}
	ep := one(g, p)
	ep.Cli.Phases = nil
	for i := r.In(1, 4); i > 0; i-- {
		q := p
		q.Over = r.P(75)
		q.Form = r.N(1 << 20)
		q.Main = r.P(40)
		ep.Cli.Phases = append(ep.Cli.Phases, CPhase{Procs: []CProc{q}})
	}
	p.Over = true
	ep.Cli.Phases = append(ep.Cli.Phases, CPhase{Procs: []CProc{p}, Healthy: true})
	return ep
}

func varyC15(ep *Ep, r *R, base *Outcome) {
	c := ep.Cli
	n := len(c.Phases) - 1
	for i := 0; i < n && i < len(base.Calls); i++ {
		l := base.Calls[i]
		if len(l) == 0 || r.P(10) {
			continue
		}
		for k := r.PickI(1, 1, 2); k > 0; k-- {
			at := pickCall(r, l, nil)
			mode := r.Pick("kill", "kill", "err", "err", "power")
			if r.P(35) { // around the writing
				for j := 0; j < 10; j++ {
					if o := l[at].op; o == "write" || o == "close" || o == "mkdir" || o == "rename" || o == "link" {
						break
					}
					at = r.N(len(l))
				}
			}
			c.Faults = append(c.Faults, pickFault(r, i, at, l[at], mode))
		}
	}
	if r.P(20) { // another program's leftovers
		g := &cliGen{r: r, files: c.Files, have: map[string]bool{}}
		outs, data := g.outputsOf(c.Phases[0].Procs[0])
		if len(outs) > 0 {
			o := outs[r.N(len(outs))]
			pi := r.N(n)
			if pi < len(base.Calls) && len(base.Calls[pi]) > 0 {
				c.Faults = append(c.Faults, CFault{P: pi, At: pickCall(r, base.Calls[pi], nil), K: "env", Path: o, Data: junk(r, len(data[o])+r.N(400))})
			}
		}
	}
}

// overReadOnly: the process met a file of the user's that is write-protected.
func (c *crun) overReadOnly(p *cproc) bool {
	for _, f := range c.ep.Files {
		if f.Mode == 0o444 && slices.Contains(p.anyf, "open "+filepath.Clean(f.Path)+": no permission") {
			return true
		}
	}
	return false
}

func runC15(x *run) {
	c := newCrun(x)
	defer func() { x.after = append(x.after, c.close) }()
	last := len(c.ep.Phases) - 1
	c.runPhases(func(i int, ps []*cproc) {
		if i != last {
			return
		}
		p := ps[0]
		if !p.exp.ok || p.blockedFirst() {
			x.probe("command cannot succeed")
			return
		}
		if c.overReadOnly(p) {
			x.probe("command cannot succeed")
			return
		}
		if p.exit != 0 || p.killed() {
			x.violate("stuck-retry", "after %s the healthy rerun fails: %s", c.history(), p.describe())
			return
		}
		if w := c.complete(p); w != "" {
			x.violate("not-converged", "after %s the healthy rerun leaves a wrong result: %s; %s", c.history(), w, p.describe())
			return
		}
		var extra []string
		for k, e := range c.snap {
			if e.kind == 'd' || k == "tmp" {
				continue
			}
			if _, ok := c.first[k]; ok || p.exp.out(k) != nil {
				continue
			}
			if _, ok := c.envMk[k]; ok {
				continue
			}
			extra = append(extra, k)
		}
		if len(extra) > 0 {
			sort.Strings(extra)
			x.violate("leftover", "after %s and a healthy rerun there are leftover files: %s", c.history(), strings.Join(extra, ", "))
			return
		}
		x.probe("converged")
	})
}

func (p *cproc) blockedFirst() bool {
	q := *p
	q.pre = p.c.first
	return q.blocked()
}

func (c *crun) history() string {
	var l []string
	for _, p := range c.procs[:len(c.procs)-1] {
		s := fmt.Sprintf("exit %d", p.exit)
		if p.killed() {
			s = "killed (" + p.how + ")"
		}
		l = append(l, s)
	}
	return "runs that ended with " + strings.Join(l, ", ")
}

// ------------------------------------------------- C16: concurrent processes

func genC16(r *R, _ *Pool) *Ep {
	g := newCliGen(r)
	n := r.In(2, 4)
	var ps []CProc
	ep := &Ep{P: map[string]int{}}
	if r.P(50) { // outputs of their own
		shared := r.Pick("out", "out/new", "o/u/t", "dist")
		ep.P["disjoint"] = 1
		for i := 0; i < n; i++ {
			p := g.proc("out")
			for p.Strong == "*" || p.Strong == "x" || p.Strong == "***" {
				p = g.proc("out")
			}
			if p.Out != "" {
				if strings.HasSuffix(p.Out, "/") {
					p.Out = fmt.Sprintf("%s/p%d%s", shared, i, r.Pick("/", "/x/"))
				} else {
					p.Out = fmt.Sprintf("%s/%sp%d.md", shared, r.Pick("", "deep/"), i)
				}
			}
			ps = append(ps, p)
		}
	} else {
		ep.P["disjoint"] = 0
		target := r.Pick("out/", "out/new/", "dist/x/y/")
		for i := 0; i < n; i++ {
			p := g.proc("out")
			p.Over = false
			if p.In == "" {
				p.Out = target + r.Pick("", "a.md", "page.md")
			} else if strings.ContainsAny(p.In, metaChars) {
				p.Out = target
			} else {
				p.Out = target + r.Pick("", "a.md", "page.md", "output.md")
			}
			ps = append(ps, p)
		}
		if r.P(50) { // all after one file
			f := target + "one.md"
			for i := range ps {
				if strings.ContainsAny(ps[i].In, metaChars) {
					ps[i].In = g.input(false)
				}
				ps[i].Out = f
			}
		}
	}
	g.readOnly(nil)
	ep.Cli = &CliEp{Files: g.files, Phases: []CPhase{{Procs: ps}}}
	return ep
}

func varyC16(ep *Ep, r *R, base *Outcome) {
	if r.P(30) {
		addFaults(ep, r, base, r.In(1, 4), func() string { return "soft" }, nil)
	}
}

func runC16(x *run) {
	c := newCrun(x)
	defer func() { x.after = append(x.after, c.close) }()
	c.onEv = func(p *cproc, ev fsEvent) {
		if ev.kind == "created" || ev.before.kind == 'd' || p.spec.Over {
			return
		}
		if ev.owner != p.idx {
			x.violate("clobber", "process %d %s %q, made by process %d, by %s", p.idx, ev.kind, ev.path, ev.owner, p.last())
		}
	}
	c.runPhases(func(_ int, ps []*cproc) {
		if x.ep.P["disjoint"] == 1 {
			for _, p := range ps {
				c.checkExit(p)
			}
			x.probe("disjoint outputs")
			return
		}
		// competing: every output belongs to exactly one process and is complete
		x.probe("competing for outputs")
		made := map[int]map[string]bool{}
		aim := map[string][]*cproc{}
		var paths []string
		for _, p := range ps {
			made[p.idx] = map[string]bool{}
			for _, o := range p.exp.outs {
				if aim[o.path] == nil {
					paths = append(paths, o.path)
				}
				aim[o.path] = append(aim[o.path], p)
			}
		}
		sort.Strings(paths)
		for _, path := range paths {
			e, ok := c.snap[path]
			if _, was := c.first[path]; was {
				continue
			}
			if !ok {
				continue
			}
			o := c.ownerOf(e)
			if o < 0 || o >= len(c.procs) {
				continue
			}
			w := c.procs[o].exp.out(path)
			if w == nil {
				x.violate("mixed", "%q was made by process %d, which has no such output", path, o)
				return
			}
			if e.data != w.data {
				x.violate("mixed", "%q, made by process %d, does not hold its markdown: %s", path, o, diffAt(e.data, w.data))
				return
			}
			made[o][path] = true
		}
		for _, p := range ps {
			all := true
			for _, o := range p.exp.outs {
				if !made[p.idx][o.path] {
					all = false
				}
			}
			switch {
			case p.exp.kind == "stdout" || len(p.exp.outs) == 0 || !p.exp.ok:
				c.checkExit(p)
			case all && p.exit != 0 && p.exp.ok:
				x.violate("winner-fails", "process %d made all its outputs, but %s", p.idx, p.describe())
			case !all && p.exit == 0:
				x.violate("two-winners", "process %d did not make all its outputs, but %s", p.idx, p.describe())
			case p.exit != 0 && len(p.stderr) == 0:
				x.violate("silent-failure", "nothing on stderr: %s", p.describe())
			}
			if p.exit == 0 {
				x.probe("winners")
			} else {
				x.probe("losers")
			}
		}
		for _, path := range paths {
			if len(aim[path]) < 2 {
				continue
			}
			x.probe("contended output")
			// with single-output processes exactly one must win
			single := true
			for _, p := range aim[path] {
				if len(p.exp.outs) != 1 || !p.exp.ok || p.conflicts() != "" || p.blocked() {
					single = false
				}
			}
			if !single {
				continue
			}
			n := 0
			for _, p := range aim[path] {
				if p.exit == 0 {
					n++
				}
			}
			if n != 1 {
				x.violate("winners", "%d of %d processes aiming at %q exited 0", n, len(aim[path]), path)
			}
		}
	})
}

// ------------------------------------------------------------- C17: streams

func genC17(r *R, _ *Pool) *Ep {
	g := newCliGen(r)
	var p CProc
	g.flags(&p)
	p.Over = r.P(50)
	g.stdin(&p)
	switch r.N(5) {
	case 0, 1:
	case 2:
		p.Out = r.Pick("out/", "new/er/", "./")
	case 3:
		p.Out = r.Pick("out.md", "out/x.md", "out/plain")
	case 4: // no pipe in, a file to stdout
		p.In = g.input(false)
		p.Piped = r.P(50)
	}
	// files it could take for its input
	for _, d := range []string{"output", "output.html", "-", "stdin", "output.htm", "out/output"} {
		if r.P(40) {
			g.file(d, []byte("<h1>WRONG FILE</h1>"))
		}
	}
	if p.Over && r.P(60) {
		outs, data := g.outputsOf(p)
		g.existing(outs, data)
	}
	g.odd(&p)
	return one(g, p)
}

func varyC17(ep *Ep, r *R, base *Outcome) {
	c := ep.Cli
	// another delivery
	p := c.Phases[0].Procs[0]
	if r.P(50) {
		q := p
		g := &cliGen{r: r}
		g.stdin(&q)
		p.Chunks, p.Late = q.Chunks, q.Late
		if len(p.Stdin) > 3000 {
			for i, v := range p.Chunks {
				if v > 0 && v < 200 {
					p.Chunks[i] = v + 300
				}
			}
		}
		c.Phases = []CPhase{{Procs: []CProc{p}}}
	}
	l := base.Calls[0]
	if len(l) == 0 {
		return
	}
	switch k := r.N(100); {
	case k < 70:
		op := r.Pick("stdin", "stdout")
		var at []int
		for i, ci := range l {
			if ci.op == op {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[r.N(len(at))]
			c.Faults = append(c.Faults, pickFault(r, 0, i, l[i], r.Pick("err", "err", "err", "soft")))
			return
		}
		fallthrough
	case k < 90:
		addFaults(ep, r, base, r.PickI(1, 2), func() string { return r.Pick("err", "soft") }, nil)
	}
}

func runC17(x *run) {
	c := newCrun(x)
	defer func() { x.after = append(x.after, c.close) }()
	c.onEv = func(p *cproc, ev fsEvent) {
		if p.spec.In == "" && p.spec.Piped && !p.sinEOF && ev.after.kind != 'd' && ev.path != "tmp" {
			x.violate("early", "%q was %s before stdin had been read to its end, by %s", ev.path, ev.kind, p.last())
		}
	}
	c.runPhases(func(_ int, ps []*cproc) {
		p := ps[0]
		if p.killed() || p.exp.kind == "info" {
			return
		}
		c.checkExit(p)
		failedIn := false
		for _, h := range p.hard {
			if strings.HasPrefix(h, "stdin:") {
				failedIn = true
			}
		}
		if failedIn {
			x.probe("stdin failed")
			if p.exit == 0 {
				x.violate("ignored-failure", "stdin failed but %s", p.describe())
			}
			if len(p.stdout) > 0 {
				x.violate("partial", "stdin failed, but %d bytes of markdown were written to stdout: %s", len(p.stdout), p.describe())
			}
			for _, o := range p.exp.outs {
				b, was := p.pre[o.path]
				a, is := c.snap[o.path]
				if was != is || a.data != b.data {
					x.violate("partial", "stdin failed, but the output file %q was written: %s", o.path, p.describe())
				}
			}
		} else if p.spec.In == "" && p.spec.Piped && p.exit == 0 && p.sinPos != len(p.spec.Stdin) {
			x.violate("unread", "%d of %d bytes of stdin were read, but %s", p.sinPos, len(p.spec.Stdin), p.describe())
		}
		if p.exit != 0 && !strings.HasPrefix(p.exp.stdout, string(p.stdout)) {
			x.violate("garbage", "stdout of a failed run is not a prefix of the markdown: %s; %s", diffAt(string(p.stdout), p.exp.stdout), p.describe())
		}
	})
}

var _ = os.Getpid
