package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/net/html"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
)

// ------------------------------------------------------------------------ C18

func init() {
	define(&propDef{
		id: "C18", sched: 14, batch: []int{1, 5, 60}, quick: 25, pool: [3]int{14, 10, 700},
		gen: genC18, run: runC18, shrink: shrinkOps,
		rule: "A run is 1-3 simulated goroutines converting through every entry point, their conversions ending normally, by a failing or slow reader, by a panic armed at the k-th call of a caller-supplied function, or with a context that another task ends at a seeded statement; registrations run in between. Every call of caller-supplied code is attributed to its conversion. Non-trivial: a conversion ended early (failure, panic, context) or a preemption happened; distinct: hash of scenario and switch sequence.",
	})
}

var c18Hooks = []string{"pre", "rend", "text", "post", "unesc", "upd", "ctxval", "reader", "opt"}

func genC18(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	convTasks(r, p, ep, r.In(1, 3), 3)
	k := 0
	var cancels []Op
	for t := range ep.Tasks {
		for i := range ep.Tasks[t] {
			op := &ep.Tasks[t][i]
			op.A = 0
			op.L = []int{k}
			op.Via = r.Pick("string", "reader", "reader", "node")
			switch r.N(4) {
			case 0:
				op.S, op.A = c18Hooks[r.N(len(c18Hooks))], r.PickI(1, 1, 2, 3, 8, 20)
			case 1: // reader fails after this many percent of the document, or first stalls for a while (100 more)
				op.Via = "reader"
				op.B = r.In(1, 100) + r.PickI(0, 0, 100)
			case 2:
				op.N = 1 // a context that is ended by another task
				cancels = append(cancels, Op{K: "cancel", A: k, B: r.N(40)})
			}
			k++
		}
		if r.P(30) {
			ep.Tasks[t] = append(ep.Tasks[t], Op{K: "reg", S: r.Pick("post", "text", "tag"), B: r.In(1, 900), C: r.N(len(ep.Specs))})
		}
	}
	ep.P["n"] = k
	if len(cancels) > 0 {
		ep.Tasks = append(ep.Tasks, cancels)
	}
	ep.Final = []Op{{K: "conv", C: ep.Tasks[0][0].C, E: ep.Tasks[0][0].E, Via: "reader", L: []int{k}}}
	return ep
}

// life is one conversion as the caller sees it.
type life struct {
	x      *run
	op     Op
	who    string
	over   bool
	busy   *vsim.Task // inside a caller-supplied function
	busyIn string
	count  map[string]int
	fired  bool
	late   string
	par    string
	src    []byte
	bufs   [][]byte
}

type c18Key struct{}
type c18Panic struct{ l *life }

// curLife finds the conversion a caller-supplied function is called for.
func curLife(ctx context.Context) *life {
	if ctx != nil {
		if l, ok := ctx.Value(c18Key{}).(*life); ok {
			return l
		}
	}
	if t := vsim.Cur(); t != nil {
		l, _ := t.Proc.(*life)
		return l
	}
	return nil
}

// enter is called at the start of every caller-supplied function.
func (l *life) enter(name string) func() {
	if l == nil {
		return func() {}
	}
	t := vsim.Cur()
	if l.over && l.late == "" {
		l.late = fmt.Sprintf("its %s was called after the conversion had ended", name)
	}
	old, oldIn := l.busy, l.busyIn
	if old != nil && old != t && l.par == "" {
		l.par = fmt.Sprintf("its %s was called by one goroutine while another was in its %s", name, l.busyIn)
	}
	l.busy, l.busyIn = t, name
	vsim.YS()
	l.count[name]++
	if !l.fired && l.op.S == name && l.count[name] == l.op.A {
		l.fired = true
		l.busy, l.busyIn = old, oldIn
		panic(c18Panic{l})
	}
	return func() {
		vsim.YS()
		l.busy, l.busyIn = old, oldIn
	}
}

type lifeReader struct {
	l     *life
	fail  int // fails after so many bytes; -1: not
	stall int // after so many empty reads
	i     int
}

var errC18 = errors.New("the connection broke")

func (r *lifeReader) Read(p []byte) (int, error) {
	defer r.l.enter("reader")()
	if !r.l.over && len(r.l.bufs) < 200 {
		r.l.bufs = append(r.l.bufs, p)
	}
	r.i++
	if r.fail == 0 {
		if r.stall > 0 {
			r.stall--
			return 0, nil
		}
		return 0, errC18
	}
	if len(r.l.src) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), []int{300, 40, 2000}[r.i%3])
	if r.fail > 0 {
		n = min(n, r.fail)
	}
	n = copy(p[:n], r.l.src)
	r.l.src = r.l.src[n:]
	if r.fail > 0 {
		r.fail -= n
	}
	return n, nil
}

// lifeCloser is a reader that can be closed too.
type lifeCloser struct{ *lifeReader }

func (r lifeCloser) Close() error {
	defer r.l.enter("reader's Close")()
	return nil
}

func (r *lifeReader) asReader() io.Reader {
	if r.l.op.E%2 == 0 {
		return lifeCloser{r}
	}
	return r
}

type lifeCtx struct {
	context.Context
	l *life
}

func (c *lifeCtx) Value(k any) any {
	if _, ok := k.(c18Key); ok {
		return c.l
	}
	if _, ok := k.(*int); ok { // package context looks for a context of its own
		return c.Context.Value(k)
	}
	defer c.l.enter("ctxval")()
	return c.Context.Value(k)
}

func addLifeHooks(conv *converter.Converter) {
	conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) { defer curLife(ctx).enter("pre")() }, 30)
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
		defer curLife(ctx).enter("rend")()
		return converter.RenderTryNext
	}, 30)
	conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
		defer curLife(ctx).enter("text")()
		return s
	}, 30)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { defer curLife(ctx).enter("post")(); return b }, 30)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
		defer curLife(ctx).enter("post")()
		return b
	}, converter.PriorityLate+400)
	conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) {
		converter.UpdateState(ctx, "verif18", func(v int) int { defer curLife(nil).enter("upd")(); return v + 1 })
	}, 31)
	conv.Register.UnEscaper(func(b []byte, i int) int { defer curLife(nil).enter("unesc")(); return -1 }, 30)
}

func runC18(x *run) {
	convs := x.convs()
	for _, c := range convs {
		if c != nil {
			addLifeHooks(c)
		}
	}
	n := x.ep.P["n"]
	ctxs := make([]*simCtx, n+1)
	for i := range ctxs {
		ctxs[i] = &simCtx{done: make(chan struct{}), id: fmt.Sprint(i), end: context.Canceled}
		if i%3 == 1 {
			ctxs[i].end = context.DeadlineExceeded
			ctxs[i].deadline, ctxs[i].hasDL = time.Date(2030, 1, 1, 0, 0, i, 0, time.UTC), true
		}
	}
	var lives [64][]*life
	do := func(ti, oi int, op Op) {
		switch op.K {
		case "cancel":
			for i := 0; i < op.B; i++ {
				vsim.YS()
			}
			if op.A < len(ctxs) {
				ctxs[op.A].cancel()
			}
			return
		case "reg":
			if c := convs[op.C%len(convs)]; c != nil {
				regIdentity(c, op.S, op.B)
			}
			return
		}
		e := x.ep.Entries[op.E]
		tok := x.opTok(ti, oi, op)
		doc, want := fill(e.Doc, tok), fill(e.Out, tok)
		l := &life{x: x, op: op, who: fmt.Sprintf("conversion %d of task %d (%s)", oi, ti, op.Via), count: map[string]int{}, src: []byte(doc)}
		lives[ti%64] = append(lives[ti%64], l)
		opts := domainOpts(fill(e.Domain, tok), -1)
		sc := ctxs[op.L[0]%len(ctxs)]
		if op.N == 0 {
			sc = ctxs[n]
		}
		opts = append(opts, converter.WithContext(&lifeCtx{sc, l}))
		opts = append(opts, lifeOption(opts[0], l))
		failAt, stall := -1, 0
		if op.B > 0 {
			failAt = len(doc) * ((op.B-1)%100 + 1) / 101
			if op.B > 100 {
				stall = 300
			}
		}
		var out string
		var b []byte
		var err error
		var pv any
		var stack string
		t := vsim.Cur()
		old := t.Proc
		t.Proc = l
		pv, stack = safely(func() {
			switch op.Via {
			case "string":
				out, err = callString(convs[op.C], doc, opts...)
			case "node":
				var node *html.Node
				if node, err = html.Parse(strings.NewReader(doc)); err == nil {
					b, err = callNode(convs[op.C], node, opts...)
				}
				out = string(b)
			default:
				b, err = callReader(convs[op.C], (&lifeReader{l: l, fail: failAt, stall: stall}).asReader(), opts...)
				out = string(b)
			}
		})
		l.over = true
		t.Proc = old
		if l.busy == nil {
			// what the reader was given to fill is scratch memory from now on
			for _, p := range l.bufs {
				for i := range p {
					p[i] = '!'
				}
			}
		}
		ended := sc.err != nil
		switch {
		case l.fired:
			x.faultNote("panic in caller code")
			if pv == nil && (err == nil || op.S != "reader") {
				x.note("swallowed", "%s: %s panicked, but the conversion returned (error %v)", l.who, op.S, err)
			}
		case pv != nil:
			x.note("panic", "%s panicked: %v at %s", l.who, pv, stackTop(stack))
		case failAt >= 0:
			x.faultNote("failing reader")
			if err == nil {
				x.note("truncated", "%s: its reader failed, but it returned no error", l.who)
			}
		case err != nil:
			if !ended || !errors.Is(err, sc.err) {
				x.note("error", "%s failed: %v", l.who, err)
			}
		case out != want:
			x.note("output", "%s differs from its solo result: %s", l.who, diffAt(out, want))
		}
	}
	for ti, ops := range x.ep.Tasks {
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				do(ti, oi, op)
			}
		})
	}
	x.final(func() {
		for oi, op := range x.ep.Final {
			do(62, oi, op)
		}
		// everything the conversions have left is garbage now
		l := &life{x: x, who: "a finalizer", over: true, count: map[string]int{}}
		lives[63] = append(lives[63], l)
		t := vsim.Cur()
		old := t.Proc
		t.Proc = l
		safely(func() {
			if n := vsim.RunCleanups(); n > 0 {
				x.probe("finalizers run")
			}
		})
		t.Proc = old
	})
	x.after = append(x.after, func() {
		early := 0
		for _, ls := range lives {
			for _, l := range ls {
				if l.late != "" {
					x.violate("late", "%s: %s", l.who, l.late)
				}
				if l.par != "" {
					x.violate("parallel", "%s: %s", l.who, l.par)
				}
				if l.fired || l.op.B > 0 || l.op.N > 0 {
					early++
				}
				x.probe("conversions")
			}
		}
		for _, s := range ctxs[:n] {
			if s.err != nil {
				x.faults["context ended"]++
			}
		}
		x.probes["conversions that met a fault"] += early
		x.out.Triv = early == 0 && x.sim.Preempts == 0
	})
}

// faultNote counts a fault that a running task met (no map is written by two of them at once:
// only one task runs).
func (x *run) faultNote(name string) { x.faults[name]++ }

func lifeOption(like converter.ConvertOptionFunc, l *life) converter.ConvertOptionFunc {
	return lifeOptionOf(like, l)
}

func lifeOptionOf[T any, F ~func(T)](like F, l *life) F {
	return func(o T) { defer l.enter("opt")() }
}

var goroutineHead = regexp.MustCompile(`^goroutine (\d+)`)

// strays are the goroutines that are no simulated tasks, by id.
func strays() map[string]bool {
	m := map[string]bool{}
	for id := range strayStacks() {
		m[id] = true
	}
	return m
}

func strayStacks() map[string]string {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[string]string{}
	for i, g := range strings.Split(string(buf), "\n\n") {
		h := goroutineHead.FindStringSubmatch(g)
		if i == 0 || h == nil || strings.Contains(g, "vsim.(*Task).await") || strings.Contains(g, "vsim.(*Sim).start") {
			continue
		}
		m[h[1]] = g
	}
	return m
}

// leftOver reports goroutines the library started behind the simulation's
// back, as iter.Pull does, and left when all conversions had ended.
func (x *run) leftOver(before map[string]bool) {
	for try := 0; ; try++ {
		var left []string
		if runtime.NumGoroutine() <= len(before)+1 {
			return
		}
		for id, g := range strayStacks() {
			if !before[id] {
				left = append(left, g)
			}
		}
		if len(left) == 0 {
			return
		}
		if try < 50 {
			runtime.Gosched()
			time.Sleep(time.Millisecond)
			continue
		}
		sort.Strings(left)
		l := strings.Split(left[0], "\n")
		where := ""
		for _, s := range l[1:] {
			if i := strings.Index(s, "created by "); i >= 0 {
				where = strings.Fields(s[i+11:])[0]
			}
		}
		x.violate("goroutine", "%d goroutines that the conversions started are still there when all of them have ended (created by %s)", len(left), where)
		return
	}
}
