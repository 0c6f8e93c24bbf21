package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
)

const hangAfter = 120 * time.Second

type driver struct {
	prop  string
	d     *propDef
	seed  uint64
	tier  string
	verif string
	work  string
	pools []*Pool // the last ones are more recent
	self  string
	t0    time.Time

	mu       sync.Mutex
	agg      Msg
	keys     map[uint64]bool
	sites    map[int]bool
	samples  []any
	procs    int
	ndir     int
	batches  int
	workWall time.Duration

	digs   map[uint64]uint64
	again  int   // scenarios run a second time
	differ []int // of these, the ones that went another way
}

// Replay is the replay file of a violation.
type Replay struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Message  string    `json:"message"`
	Seed     uint64    `json:"seed"`
	Replayed bool      `json:"replayed_exactly"`
	Note     string    `json:"note,omitempty"`
	Switches int       `json:"switches"`
	Where    []string  `json:"where,omitempty"`
	Spec     *ProcSpec `json:"spec"`
}

func (dr *driver) env(dir string) []string {
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "VSIM_START", "GOMAXPROCS", "GORACE", "GODEBUG", "GOGC", "GOTRACEBACK", "NO_COLOR", "TERM":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOMAXPROCS=1", "NO_COLOR=1", "GOTRACEBACK=single", "VSIM_CORPUS="+filepath.Join(dr.verif, "sim/corpus"),
		"GORACE=log_path="+filepath.Join(dir, "race")+" halt_on_error=0 atexit_sleep_ms=0 suppress_equal_stacks=0 history_size=3")
}

// proc runs this binary in another mode in a directory of its own and hands
// every report line to on. It returns "hang" or "crash" with the end of stderr
// when the process did not end properly.
func (dr *driver) proc(in []byte, quiet time.Duration, on func(m Msg), args ...string) (trouble, text, dir string) {
	dr.mu.Lock()
	dr.ndir++
	dir = filepath.Join(dr.work, fmt.Sprintf("p%06d", dr.ndir))
	dr.mu.Unlock()
	if err := os.Mkdir(dir, 0o755); err != nil {
		fail("%v", err)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	cmd := exec.Command(dr.self, args...)
	cmd.Dir = dir
	cmd.Env = dr.env(dir)
	cmd.Stdin = bytes.NewReader(in)
	errFile, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stderr = errFile
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		fail("%v", err)
	}
	pw.Close()
	beat := make(chan struct{}, 1024)
	eof := make(chan struct{})
	go func() {
		br := bufio.NewReaderSize(pr, 1<<20)
		for {
			line, err := br.ReadBytes('\n')
			if len(line) > 0 {
				var m Msg
				if json.Unmarshal(line, &m) == nil {
					on(m)
				}
				select {
				case beat <- struct{}{}:
				default:
				}
			}
			if err != nil {
				break
			}
		}
		close(eof)
	}()
	hung := false
	timer := time.NewTimer(quiet)
loop:
	for {
		select {
		case <-beat:
			timer.Reset(quiet)
		case <-timer.C:
			hung = true
			cmd.Process.Kill()
			<-eof
			break loop
		case <-eof:
			break loop
		}
	}
	err = cmd.Wait()
	pr.Close()
	errFile.Close()
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	if len(b) > 3000 {
		b = b[:3000]
	}
	switch {
	case hung:
		return "hang", string(b), dir
	case err != nil && cmd.ProcessState.ExitCode() == 66 && vsim.RaceBuild:
		// races reported at exit; already in the report
		return "", "", dir
	case err != nil:
		return "crash", err.Error() + "\n" + string(b), dir
	}
	return "", "", dir
}

func (dr *driver) ref(q RefReq) RefRes {
	b, _ := json.Marshal(q)
	pr, pw, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	cmd := exec.Command(dr.self, "ref")
	cmd.Env = append(dr.env(dr.work), fmt.Sprintf("VSIM_START=%d", hashStr(string(b))))
	cmd.Dir = dr.work
	cmd.Stdin = bytes.NewReader(b)
	cmd.ExtraFiles = []*os.File{pw}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		fail("%v", err)
	}
	pw.Close()
	kill := time.AfterFunc(hangAfter, func() { cmd.Process.Kill() })
	var res RefRes
	derr := json.NewDecoder(pr).Decode(&res)
	err = cmd.Wait()
	kill.Stop()
	pr.Close()
	if derr != nil {
		if _, ok := err.(*exec.ExitError); ok {
			return RefRes{Err: "process died: " + firstLine(eb.String())}
		}
		fail("reference process: %v %v", derr, err)
	}
	return res
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(strings.TrimSpace(s), "\n")
	return s
}

func parallel(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (dr *driver) fillRefs(specs []Spec, es []Entry) {
	parallel(len(es), 8, func(i int) {
		e := &es[i]
		r := dr.ref(RefReq{specs[e.Spec], e.Doc, e.Domain})
		e.Out, e.Err, e.Steps = r.Out, r.Err, r.Steps
		if e.Err == "" && (!utf8.ValidString(e.Out) || !utf8.ValidString(e.Doc)) {
			e.Err = "not UTF-8"
		}
	})
}

func checkMain() {
	prop := flag.String("prop", "", "")
	verif := flag.String("verif", "/verif", "")
	work := flag.String("work", "", "")
	secs := flag.Int("secs", 0, "")
	workers := flag.Int("workers", 8, "")
	flag.Parse()
	dr := &driver{prop: *prop, d: props[*prop], verif: *verif, work: *work, t0: time.Now(), keys: map[uint64]bool{}, sites: map[int]bool{}, digs: map[uint64]uint64{}}
	if dr.d == nil {
		fail("unknown property %q", *prop)
	}
	dr.agg = Msg{Probes: map[string]int{}, Faults: map[string]int{}, Strats: map[string]int{}}
	dr.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		dr.seed = uint64(s)
	}
	dr.tier = "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		dr.tier = "thorough"
	}
	budget := dr.d.quick
	if dr.tier == "thorough" {
		budget *= 12
	}
	if *secs > 0 {
		budget = *secs
	}
	var err error
	if dr.self, err = os.Executable(); err != nil {
		fail("%v", err)
	}
	// inputs and their reference results
	loadCorpus(filepath.Join(*verif, "sim/corpus"))
	mul := 1
	if dr.tier == "thorough" {
		mul = 3
	}
	t := time.Now()
	good := dr.addPool(0, mul)
	if n := len(dr.pools[0].Entries); good*2 < n {
		why := map[string]int{}
		for _, e := range dr.pools[0].Entries {
			if e.Err != "" {
				why[firstLine(e.Err)]++
			}
		}
		fmt.Fprintln(os.Stderr, why)
		fail("only %d of %d reference conversions succeed", good, n)
	}
	poolTime := time.Since(t)

	var next int
	var stop bool
	var found *Msg
	var foundSpec *ProcSpec
	until := time.Now().Add(time.Duration(budget) * time.Second)
	br := NewR(dr.seed, hashStr("batches"))
	searchStart := time.Now()
	var wg sync.WaitGroup
	cur := 0 // the pool that new runs draw from; the number of a run says which it was
	quit := make(chan struct{})
	pooling := make(chan struct{})
	go func() {
		defer close(pooling)
		for k := 1; len(dr.pools[0].Entries) > 0; k++ {
			select {
			case <-quit:
				return
			case <-time.After(max(3*time.Second, 3*poolTime)):
			}
			if time.Until(until) < 3*poolTime {
				return
			}
			t := time.Now()
			if good := dr.addPool(k, mul); good*2 >= len(dr.pools[0].Entries) {
				dr.mu.Lock()
				cur = k
				dr.mu.Unlock()
			}
			poolTime = time.Since(t)
		}
	}()
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				dr.mu.Lock()
				if stop || time.Now().After(until) {
					dr.mu.Unlock()
					return
				}
				n := dr.d.batch[br.N(len(dr.d.batch))]
				from := cur<<poolShift + next
				next += n
				poolFile := dr.poolFile(cur)
				dr.procs++
				dr.mu.Unlock()
				var viol *Msg
				ended := false
				logFile := filepath.Join(*work, fmt.Sprintf("log%d", from))
				trouble, text, dir := dr.proc(nil, hangAfter, func(m Msg) {
					switch m.T {
					case "sum":
						dr.addSum(m)
					case "viol":
						v := m
						viol = &v
					case "done":
						ended = true
					}
				}, "work", "-prop", *prop, "-pool", poolFile, "-seed", fmt.Sprint(dr.seed), "-from", fmt.Sprint(from), "-n", fmt.Sprint(n),
					"-log", logFile, "-until", fmt.Sprint(until.UnixMilli()))
				if trouble == "hang" {
					fail("a worker made no progress for %v: %s", hangAfter, text)
				}
				if viol == nil && trouble != "" {
					viol = &Msg{Class: trouble, Viol: describeTrouble(trouble, text)}
				}
				if viol == nil && !ended {
					fail("a worker ended without a report (see %s): %s", dir, text)
				}
				if viol != nil {
					dr.mu.Lock()
					if !stop {
						stop = true
						found = viol
						foundSpec = readLog(*prop, logFile)
					}
					dr.mu.Unlock()
					return
				}
				os.Remove(logFile)
				os.RemoveAll(dir)
			}
		}()
	}
	wg.Wait()
	close(quit)
	dr.workWall = time.Since(searchStart)
	<-pooling
	if found == nil {
		dr.recheck()
		dr.evidence(0)
		fmt.Printf("held property=%s runs=%d distinct=%d steps=%d wall=%.1fs\n", *prop, dr.agg.Runs, len(dr.keys), dr.agg.Steps, time.Since(dr.t0).Seconds())
		os.Exit(0)
	}
	if foundSpec == nil || len(foundSpec.Runs) == 0 {
		fail("violation without a log: %s %s", found.Class, found.Viol)
	}
	path := dr.report(found, foundSpec)
	dr.evidence(1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	os.Exit(1)
}

// recheck runs a sample of the scenarios again, each in a process of its own,
// and compares everything that happened in them.
func (dr *driver) recheck() {
	limit := 3 * time.Second
	if dr.tier == "thorough" {
		limit = 30 * time.Second
	}
	end := time.Now().Add(limit)
	var all []uint64
	for i := range dr.digs {
		all = append(all, i)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	r := NewR(dr.seed, hashStr("recheck"))
	for i := len(all) - 1; i > 0; i-- {
		j := r.N(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	if len(all) > 400 {
		all = all[:400]
	}
	parallel(len(all), 8, func(n int) {
		if time.Now().After(end) {
			return
		}
		i := all[n]
		got := uint64(0)
		ok := false
		_, _, dir := dr.proc(nil, hangAfter, func(m Msg) {
			for _, d := range m.Digs {
				if d[0] == i {
					got, ok = d[1], true
				}
			}
		}, "work", "-prop", dr.prop, "-pool", dr.poolFile(int(i>>poolShift)), "-seed", fmt.Sprint(dr.seed), "-from", fmt.Sprint(i), "-n", "1", "-log", filepath.Join(dr.work, fmt.Sprintf("relog%d", i)))
		os.RemoveAll(dir)
		dr.mu.Lock()
		defer dr.mu.Unlock()
		dr.again++
		if !ok || got != dr.digs[i] {
			dr.differ = append(dr.differ, int(i))
		}
	})
	sort.Ints(dr.differ)
}

// A run of number n takes its work from pool n>>poolShift.
const poolShift = 32

func (dr *driver) poolFile(k int) string {
	return filepath.Join(dr.work, fmt.Sprintf("pool%d.json", k))
}

// addPool makes the pool of that number with its reference results and returns
// how many of these conversions succeed.
func (dr *driver) addPool(k, mul int) (good int) {
	seed := dr.seed
	if k > 0 {
		seed = mix64(dr.seed, uint64(k))
	}
	pool := genPool(seed, dr.d.pool[0], dr.d.pool[1]*mul, dr.d.pool[2])
	dr.fillRefs(pool.Specs, pool.Entries)
	for _, e := range pool.Entries {
		if e.Err == "" {
			good++
		}
	}
	pb, _ := json.Marshal(pool)
	if err := os.WriteFile(dr.poolFile(k), pb, 0o644); err != nil {
		fail("%v", err)
	}
	if k > 0 {
		pool = &Pool{Specs: pool.Specs}
	}
	dr.pools = append(dr.pools, pool)
	return good
}

func describeTrouble(kind, text string) string {
	if strings.Contains(text, "signal: killed") || strings.Contains(text, "out of memory") {
		fail("a process ended for want of resources: %s", text)
	}
	return "the process died: " + text
}

func readLog(prop, file string) *ProcSpec {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	sp := &ProcSpec{Prop: prop}
	var scen *Ep
	for _, line := range bytes.Split(b, []byte("\n")) {
		var l logLine
		if len(line) == 0 || json.Unmarshal(line, &l) != nil {
			continue
		}
		if l.Scen != nil {
			scen = l.Scen
			if scen.Cli != nil && len(sp.Runs) > 0 && scen.Strat.Kind != "" {
				// the full episode of the run announced just before
				sp.Runs[len(sp.Runs)-1] = scen
			}
		} else if l.Strat != nil && scen != nil {
			e := *scen
			e.Strat, e.MapSeed = *l.Strat, l.MapSeed
			sp.Runs = append(sp.Runs, &e)
		}
	}
	return sp
}

func (dr *driver) addSum(m Msg) {
	dr.mu.Lock()
	defer dr.mu.Unlock()
	a := &dr.agg
	a.Runs += m.Runs
	a.Scens += m.Scens
	a.Steps += m.Steps
	a.Pre += m.Pre
	a.SimNS += m.SimNS
	for _, k := range m.Keys {
		dr.keys[k] = true
	}
	for _, d := range m.Digs {
		dr.digs[d[0]] = d[1]
	}
	for k, v := range m.Probes {
		a.Probes[k] += v
	}
	for k, v := range m.Faults {
		a.Faults[k] += v
	}
	for k, v := range m.Strats {
		a.Strats[k] += v
	}
	for _, s := range m.Sites {
		dr.sites[s] = true
	}
	if m.Sample != nil && len(dr.samples) < 3 {
		dr.samples = append(dr.samples, m.Sample)
	}
}

// --------------------------------------------------------------- minimising

func (dr *driver) exec(sp *ProcSpec) (res Msg) {
	b, err := json.Marshal(sp)
	if err != nil {
		fail("%v", err)
	}
	got := false
	trouble, text, dir := dr.proc(b, hangAfter, func(m Msg) {
		if m.T == "result" {
			res = m
			got = true
		}
	}, "exec")
	os.RemoveAll(dir)
	if trouble == "hang" {
		fail("a process made no progress for %v", hangAfter)
	}
	if trouble != "" && (!got || res.Class == "") {
		return Msg{T: "result", Class: trouble, Viol: describeTrouble(trouble, text), At: len(sp.Runs) - 1}
	}
	return res
}

func withLast(sp *ProcSpec, ep *Ep) *ProcSpec {
	c := *sp
	c.Runs = append(append([]*Ep(nil), sp.Runs[:len(sp.Runs)-1]...), ep)
	return &c
}

func lastOf(sp *ProcSpec) *Ep { return sp.Runs[len(sp.Runs)-1] }

func onTrace(ep *Ep, tr []vsim.Switch) *Ep {
	c := *ep
	c.Strat = vsim.Strategy{Kind: "replay", Trace: tr, Max: ep.Strat.Max, Skew: ep.Strat.Skew}
	return &c
}

func (dr *driver) report(m *Msg, sp *ProcSpec) string {
	fmt.Printf("violation of %s (%s): %s\nreproducing and minimising ...\n", dr.prop, m.Class, m.Viol)
	deadline := time.Now().Add(100 * time.Second)
	late := func() bool { return time.Now().After(deadline) }
	rep := &Replay{Property: dr.prop, Class: m.Class, Message: m.Viol, Seed: dr.seed, Spec: sp}

	same := func(r Msg, n int) bool { return r.Class == m.Class && r.At == n-1 }
	first := dr.exec(sp)
	if !same(first, len(sp.Runs)) {
		if first.Class != "" {
			rep.Class, rep.Message = first.Class, first.Viol
			m.Class = first.Class
			sp.Runs = sp.Runs[:first.At+1]
		} else if m.Class == "crash" {
			fail("a worker process had a %s that does not happen again: %s", m.Class, m.Viol)
		} else {
			rep.Note = "seen once; the same seeds did not reproduce it"
			return dr.write(rep)
		}
	} else {
		m.Viol = first.Viol
	}
	// history
	if one := (&ProcSpec{Prop: sp.Prop, Runs: sp.Runs[len(sp.Runs)-1:]}); len(sp.Runs) > 1 {
		if r := dr.exec(one); same(r, 1) {
			sp, m.Viol = one, r.Viol
		} else {
			for chunk := len(sp.Runs) / 2; chunk >= 1 && !late(); chunk /= 2 {
				for i := 0; i+chunk < len(sp.Runs) && !late(); {
					c := &ProcSpec{Prop: sp.Prop}
					c.Runs = append(append(c.Runs, sp.Runs[:i]...), sp.Runs[i+chunk:]...)
					if r := dr.exec(c); same(r, len(c.Runs)) {
						sp, m.Viol = c, r.Viol
					} else {
						i += chunk
					}
				}
			}
		}
	}
	// scenario
	if dr.d.shrink != nil {
		var alts []vsim.Strategy
		rr := NewR(dr.seed, hashStr("shrink"))
		for i := 0; i < 40; i++ {
			st := pickStrategy(rr, 3000, nil)
			if st.Kind == "hot" {
				st.Kind, st.Gap = "rand", 3
			}
			alts = append(alts, st)
		}
		for again := true; again && !late(); {
			again = false
			for _, c := range dr.d.shrink(lastOf(sp)) {
				if late() {
					break
				}
				try := withLast(sp, c)
				try.Alt = append([]vsim.Strategy{lastOf(sp).Strat}, alts...)
				if len(sp.Runs) > 3 {
					try.Alt = try.Alt[:1]
				}
				r := dr.exec(try)
				if r.Class == m.Class && r.At == len(sp.Runs)-1 {
					e := *c
					e.Strat = try.Alt[r.Strat]
					// the schedules tried before it may have mattered
					cand := withLast(sp, &e)
					cand.Alt = nil
					if r2 := dr.exec(cand); same(r2, len(cand.Runs)) {
						sp, m.Viol = cand, r2.Viol
						again = true
						break
					}
				}
			}
		}
	}
	// schedule
	r := dr.exec(sp)
	if same(r, len(sp.Runs)) && len(r.Trace) > 0 {
		full := r.Trace
		cur := withLast(sp, onTrace(lastOf(sp), full))
		if r2 := dr.exec(cur); same(r2, len(cur.Runs)) {
			tr := full
			for chunk := (len(tr) + 1) / 2; chunk >= 1 && !late(); {
				progress := false
				for i := 0; i < len(tr) && !late(); {
					j := min(i+chunk, len(tr))
					c := append(append([]vsim.Switch(nil), tr[:i]...), tr[j:]...)
					if rr := dr.exec(withLast(sp, onTrace(lastOf(sp), c))); same(rr, len(sp.Runs)) {
						tr = c
						m.Viol = rr.Viol
						progress = true
					} else {
						i = j
					}
				}
				if chunk == 1 && !progress {
					break
				}
				if chunk > 1 {
					chunk = (chunk + 1) / 2
				}
			}
			sp = withLast(sp, onTrace(lastOf(sp), tr))
			rep.Switches = len(tr)
		}
	}
	a, b := dr.exec(sp), dr.exec(sp)
	rep.Replayed = same(a, len(sp.Runs)) && a.Viol == b.Viol && a.Hash == b.Hash && same(b, len(sp.Runs))
	rep.Class, rep.Message, rep.Spec = m.Class, a.Viol, sp
	if a.Class == "" {
		rep.Message = m.Viol
	}
	return dr.write(rep)
}

func (dr *driver) write(rep *Replay) string {
	dir := filepath.Join(dr.verif, "replays")
	os.MkdirAll(dir, 0o755)
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(rep)
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", dr.prop, hashStr(buf.String())))
	if err := os.WriteFile(p, buf.Bytes(), 0o644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("%s: %s\n(%d runs in the replay, %d switches, replays exactly: %v)\n", rep.Class, rep.Message, len(rep.Spec.Runs), rep.Switches, rep.Replayed)
	return p
}

// replayMain runs a replay file again: exit 1 if it violates, 0 if it holds.
func replayMain() {
	verif := flag.String("verif", "/verif", "")
	work := flag.String("work", "", "")
	file := flag.String("file", "", "")
	flag.Parse()
	b, err := os.ReadFile(*file)
	if err != nil {
		fail("%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fail("%v", err)
	}
	dr := &driver{prop: rep.Property, d: props[rep.Property], verif: *verif, work: *work, seed: rep.Seed, t0: time.Now()}
	dr.self, _ = os.Executable()
	for _, ep := range rep.Spec.Runs {
		if len(ep.Entries) > 0 && len(ep.Specs) > 0 {
			dr.fillRefs(ep.Specs, ep.Entries)
		}
	}
	r := dr.exec(rep.Spec)
	if r.Class == "" {
		fmt.Printf("replay of %s: no violation\n", *file)
		os.Exit(0)
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.Class, r.Viol, rep.Property, *file)
	os.Exit(1)
}

// ----------------------------------------------------------------- evidence

func (dr *driver) evidence(violations int) {
	wall := time.Since(dr.t0).Seconds()
	hours := dr.workWall.Hours()
	a := dr.agg
	fns := map[string]bool{}
	allFns := map[string]bool{}
	for i := 0; i < vsim.NumSites(); i++ {
		allFns[vsim.SiteFunc(int32(i))] = true
	}
	for s := range dr.sites {
		fns[vsim.SiteFunc(int32(s))] = true
	}
	var missed []string
	for f := range allFns {
		if !fns[f] {
			missed = append(missed, f)
		}
	}
	sort.Strings(missed)
	if f := os.Getenv("VERIF_MISSED"); f != "" { // development: the scheduling points no run passed
		var b strings.Builder
		for i := 0; i < vsim.NumSites(); i++ {
			if !dr.sites[i] {
				fmt.Fprintln(&b, vsim.SiteString(int32(i)))
			}
		}
		os.WriteFile(f, []byte(b.String()), 0o644)
	}
	probesLeft := map[string]int{}
	for k, v := range a.Probes {
		probesLeft[k] = v
	}
	perHour := func(n int) int {
		if hours <= 0 {
			return 0
		}
		return int(float64(n) / hours)
	}
	cov := map[string]any{
		"evaluations":         a.Runs,
		"distinct_nontrivial": len(dr.keys),
		"rule":                dr.d.rule,
		"samples":             dr.samples,
		"scenarios":           a.Scens,
		"worker_processes":    dr.procs,
		"input_pools":         len(dr.pools),
		"runs_per_hour":       perHour(a.Runs),
		"seeds_per_hour":      perHour(a.Scens * dr.d.sched),
		"scheduling_points":   map[string]any{"passed": a.Steps, "sites_reached": len(dr.sites), "sites_total": vsim.NumSites()},
		"functions_not_run":   len(missed),
		"preemptions":         a.Pre,
		"simulated_time":      simTime(dr, a),
		"faults_injected":     a.Faults,
		"probes":              probesLeft,
		"strategies":          a.Strats,
		"determinism":         map[string]any{"scenarios_run_again_in_a_process_of_their_own": dr.again, "that_went_another_way": len(dr.differ), "first": first(dr.differ)},
		"real_components":     dr.d.realOr(),
		"stubbed_components":  dr.d.stubOr(),
	}
	if dr.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": dr.prop, "tier": dr.tier, "seed": int64(dr.seed),
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": []string{"A preemption can only be placed before statements of the repository's own packages and at synchronisation, reader and system calls; code of dependencies and the Go runtime runs atomically in between.", "Exploration is by seed; schedules and faults that no seed drew are not covered."},
		"wall_s":      wall,
		"violations":  violations,
	}
	dir := filepath.Join(dr.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, dr.prop+".json"), b, 0o644); err != nil {
		fail("evidence: %v", err)
	}
}

func first(l []int) []int {
	if len(l) > 5 {
		l = l[:5]
	}
	return append([]int{}, l...)
}

func simTime(dr *driver, a Msg) string {
	if a.SimNS > 0 {
		return fmt.Sprintf("%v of simulated clock, %d scheduling points", time.Duration(a.SimNS), a.Steps)
	}
	return fmt.Sprintf("logical: %d scheduling points (the code under test waits for no clock)", a.Steps)
}

func (d *propDef) realOr() []string {
	if d.real != nil {
		return d.real
	}
	return []string{"converter, plugins, collapse, escape and all other packages of the repository", "html parser (golang.org/x/net/html), dom, Go standard library"}
}
func (d *propDef) stubOr() []string {
	if d.stub != nil {
		return d.stub
	}
	return []string{"goroutine scheduling and package sync as the repository uses it (simulator)", "map seeds and sync.Pool retention of the standard library (seeded)", "caller code: handlers, readers, contexts, plugins (harness)"}
}

var _ = regexp.MustCompile
