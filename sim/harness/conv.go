package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"unsafe"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
	vsync "github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim/vsync"
	"golang.org/x/net/html"
)

// sched puts a scheduling point before and after a client operation.
func sched() { vsim.YS() }

// safely runs f and returns what it panicked with.
func safely(f func()) (val any, stack string) {
	done := false
	defer func() {
		if !done {
			val = recover()
			if val == nil {
				val = "panic(nil) or Goexit"
			}
			b := make([]byte, 8192)
			stack = string(b[:runtime.Stack(b, false)])
		}
	}()
	f()
	done = true
	return nil, ""
}

func guard(n *int, max int) bool { *n++; return *n <= max }

// addEntry copies a pool entry into an episode.
func addEntry(ep *Ep, p *Pool, spec, pe int) int {
	e := p.Entries[pe]
	for i, x := range ep.Entries {
		if x.Doc == e.Doc && x.Domain == e.Domain && x.Spec == spec {
			return i
		}
	}
	e.Spec = spec
	ep.Entries = append(ep.Entries, e)
	return len(ep.Entries) - 1
}

var vias = []string{"string", "reader", "chunks", "node", "bytes"}

// convTasks makes clients that convert documents with shared or own converters.
func convTasks(r *R, p *Pool, ep *Ep, ntask, nops int) {
	ns := r.PickI(1, 1, 1, 2)
	for i := 0; i < ns; i++ {
		ps := p.pickSpec(r)
		ep.Specs = append(ep.Specs, p.Specs[ps])
		if r.P(25) { // a second converter of the same configuration
			ep.Specs = append(ep.Specs, p.Specs[ps])
		}
	}
	find := func(c int) int {
		for i := range p.Specs {
			if fmt.Sprint(p.Specs[i]) == fmt.Sprint(ep.Specs[c]) && len(p.bySpec[i]) > 0 {
				return i
			}
		}
		return 0
	}
	same := r.P(45)
	c0 := r.N(len(ep.Specs))
	e0 := addEntry(ep, p, c0, p.pick(r, find(c0)))
	for t := 0; t < ntask; t++ {
		var ops []Op
		for k := r.In(1, nops); k > 0; k-- {
			op := Op{K: "conv", C: c0, E: e0, Via: vias[r.N(len(vias))]}
			if !same || r.P(15) {
				op.C = r.N(len(ep.Specs))
				op.E = addEntry(ep, p, op.C, p.pick(r, find(op.C)))
			}
			if r.P(15) {
				op.A = 1 // a converter of its own
			}
			if r.P(20) {
				op.Tok = r.In(1, 2) // document shared with other tasks to the byte
			}
			ops = append(ops, op)
		}
		ep.Tasks = append(ep.Tasks, ops)
	}
}

// badTasks adds conversions with converters that are not usable.
func badTasks(r *R, p *Pool, ep *Ep) {
	if len(p.bad) == 0 || !r.P(8) {
		return
	}
	pe := p.bad[r.N(len(p.bad))]
	ep.Specs = append(ep.Specs, p.Specs[p.Entries[pe].Spec])
	c := len(ep.Specs) - 1
	e := addEntry(ep, p, c, pe)
	for t := range ep.Tasks {
		for k := r.In(0, 2); k > 0; k-- {
			i := r.N(len(ep.Tasks[t]) + 1)
			ep.Tasks[t] = append(ep.Tasks[t][:i:i], append([]Op{{K: "conv", C: c, E: e, A: r.N(2), Via: vias[r.N(len(vias))]}}, ep.Tasks[t][i:]...)...)
		}
	}
}

func (x *run) convs() []*converter.Converter {
	var l []*converter.Converter
	for _, s := range x.ep.Specs {
		l = append(l, s.Build())
	}
	return l
}

func (x *run) opTok(ti, oi int, op Op) int {
	if op.Tok > 0 {
		return x.tok(63, op.Tok)
	}
	return x.tok(ti, oi)
}

// ------------------------------------------------------------------------ C01

func init() {
	define(&propDef{
		id: "C01", race: true, sched: 10, batch: []int{1, 1, 4, 30}, quick: 40, pool: [3]int{22, 16, 1500},
		gen: func(r *R, p *Pool) *Ep {
			ep := &Ep{P: map[string]int{"opts": r.N(2)}}
			convTasks(r, p, ep, r.In(2, 4), 3)
			badTasks(r, p, ep)
			return ep
		},
		run:    runC01,
		shrink: shrinkOps,
		rule:   "A run is 2-4 simulated goroutines converting pool documents (same or different, string/reader/chunked/node, shared, own or package-level converters) under one seeded schedule that can preempt before every statement of the library; the race detector sees only the library's own synchronisation. Non-trivial: at least one preemption; distinct: hash over the whole sequence of (task, point, next task) switches.",
	})
}

func runC01(x *run) {
	convs := x.convs()
	x.opts = map[string][]converter.ConvertOptionFunc{}
	if x.ep.P["opts"] == 1 {
		// conversions of the same domain are given the same list of options
		for ti, ops := range x.ep.Tasks {
			for oi, op := range ops {
				d := fill(x.ep.Entries[op.E].Domain, x.opTok(ti, oi, op))
				l := make([]converter.ConvertOptionFunc, 0, 6)
				if len(d)%2 == 0 {
					l = append(l, converter.WithContext(context.Background()))
				}
				x.opts[d] = append(l, domainOpts(d, -1)...)
			}
		}
	}
	for ti, ops := range x.ep.Tasks {
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				x.checkConv(convs[op.C], ti, oi, op)
			}
		})
	}
}

// checkConv runs one conversion and compares it with the solo result.
func (x *run) checkConv(conv *converter.Converter, ti, oi int, op Op) {
	e := x.ep.Entries[op.E]
	tok := x.opTok(ti, oi, op) + op.rep*1000003
	if op.A == 1 {
		conv = x.ep.Specs[op.C].Build()
	}
	opts, shared := x.opts[fill(e.Domain, tok)]
	if !shared {
		opts = domainOpts(fill(e.Domain, tok), -1)
	}
	out, _, err := convertVia(conv, op.Via, fill(e.Doc, tok), opts...)
	want := fill(e.Out, tok)
	switch {
	case e.Err != "":
		if err == nil || err.Error() != fill(e.Err, tok) || out != "" {
			x.note("error", "conversion %d of task %d (%s) ended with %v and %q; alone it fails: %s", oi, ti, op.Via, err, out, e.Err)
		}
	case err != nil:
		x.note("error", "conversion %d of task %d (%s) failed although it succeeds alone: %v", oi, ti, op.Via, err)
	case out != want:
		x.note("output", "conversion %d of task %d (%s) differs from its solo result: %s", oi, ti, op.Via, diffAt(out, want))
	}
}

// ------------------------------------------------------------------------ C02

var escChars = []rune("@%^?;:/,é€·\U0001F600")

func init() {
	define(&propDef{
		id: "C02", race: true, sched: 12, batch: []int{1, 4, 30}, quick: 40, pool: [3]int{1, 3, 200},
		gen: genC02, run: runC02, shrink: shrinkOps,
		rule: "A run is 2-4 simulated goroutines mixing registrations of every kind (unique ids and priorities) with conversions on one converter under one seeded schedule, followed by a final conversion; call/return stamps give for each conversion the registrations it must, may and must not show. Non-trivial: at least one preemption; distinct: hash of the switch sequence.",
	})
}

func genC02(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	s := Spec{Plugins: []string{"base", "commonmark"}}
	if r.P(30) {
		s.Plugins = append(s.Plugins, "table", "strikethrough")
	}
	ep.Specs = []Spec{s}
	id := 0
	prios := map[int]bool{}
	prio := func(lo, hi int) int {
		for {
			v := r.In(lo, hi)
			if r.P(12) { // far away
				v = r.PickI(0, -1, -100, -1000, -1<<31, -1<<31-5, -1<<32+3, -1<<62, -1<<63, -1<<63+1)
				if hi > 1000 && r.P(50) {
					v = r.PickI(32767, 65536, 65537, 100_000, 1<<31-1, 1<<31, 1<<32+7, 1<<62, 1<<63-1, 1<<63-2)
				}
			}
			if !prios[v] {
				prios[v] = true
				return v
			}
		}
	}
	kinds := []string{"pre", "post", "text", "rend", "rendfor", "esc", "unesc", "tag", "tags", "tags", "plugin"}
	if r.P(50) { // a few of them, so that they meet
		kinds = r.Distinct(kinds, r.In(2, 4))
	}
	reg := func() Op {
		id++
		op := Op{A: id}
		op.K = kinds[r.N(len(kinds))]
		switch op.K {
		case "rend":
			op.B = prio(1, 499)
		case "tag", "tags":
			op.B = prio(1, 1500)
			op.S = r.Pick("block", "inline", "remove")
		case "esc", "unesc":
			op.B = prio(1, 1500)
			op.A = r.N(len(escChars))
		default:
			op.B = prio(1, 2000)
		}
		return op
	}
	nt := r.In(2, 4)
	if r.P(6) {
		ep.P["fail"] = 1
	}
	if r.P(25) {
		// handlers of the same priority, often more than a dozen of a kind
		ep.P["same"] = 1
		kinds := r.Distinct([]string{"pre", "post", "text", "rend", "tags"}, r.In(1, 2))
		ps := []int{r.In(1, 499), 100, 500 - r.N(3)}[:r.In(1, 3)]
		one := func() Op {
			id++
			op := Op{A: id, K: kinds[r.N(len(kinds))], B: ps[r.N(len(ps))]}
			if op.K == "tags" {
				op.S = r.Pick("block", "inline", "remove")
			}
			return op
		}
		k := r.PickI(0, 5, 10, 14, 20, 30)
		if n := dictInt(r, 600); n > 0 && usesDict(r, 4, 40) {
			k = n * len(kinds)
		} else if r.P(2) {
			k = r.PickI(66, 130, 260)
		}
		for ; k > 0; k-- {
			ep.Setup = append(ep.Setup, one())
		}
		for t := 0; t < nt; t++ {
			var ops []Op
			for k := r.In(1, 6); k > 0; k-- {
				if r.P(60) {
					ops = append(ops, one())
				} else {
					ops = append(ops, Op{K: "conv", Via: r.Pick("string", "reader", "node")})
				}
			}
			ep.Tasks = append(ep.Tasks, ops)
		}
		ep.Final = []Op{{K: "conv", Via: r.Pick("string", "node")}}
		return ep
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := r.In(1, 4); k > 0; k-- {
			if id < 11 && r.P(60) {
				ops = append(ops, reg())
			} else {
				ops = append(ops, Op{K: "conv", Via: r.Pick("string", "reader", "node")})
			}
		}
		ep.Tasks = append(ep.Tasks, ops)
	}
	// at least one conversion and one registration
	ep.Tasks[0] = append(ep.Tasks[0], Op{K: "conv", Via: "string"})
	ep.Tasks[1] = append(ep.Tasks[1], reg())
	ep.Final = []Op{{K: "conv", Via: r.Pick("string", "node")}}
	if r.P(30) {
		ep.P["setup"] = 1 // the first registration of each task happens before the run
	}
	if r.P(30) {
		ep.P["plain"] = 1 // the same document, without options, over and over
	}
	return ep
}

type c02Rec struct {
	tok      string
	inv, ret int64
	pre      []int
	post     []int
	text     map[string][]int
	rend     map[string][]int
	typ      map[string]string // tag type seen in the probe
	out      string
	err      error
}

type c02Reg struct {
	op       Op
	inv, ret int64
}

type c02Key struct{}

func c02rec(ctx context.Context) *c02Rec {
	r, _ := ctx.Value(c02Key{}).(*c02Rec)
	return r
}

type simPlugin struct {
	name func() string
	init func(conv *converter.Converter) error
}

func (p *simPlugin) Name() string                         { return p.name() }
func (p *simPlugin) Init(conv *converter.Converter) error { return p.init(conv) }

func c02Register(conv *converter.Converter, op Op) {
	id := op.A
	switch op.K {
	case "pre":
		conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) {
			if r := c02rec(ctx); r != nil {
				r.pre = append(r.pre, id)
				return
			}
			doc.AppendChild(&html.Node{Type: html.ElementNode, Data: "x-log", Attr: []html.Attribute{{Key: "n", Val: fmt.Sprintf(" (E%d)", id)}}})
		}, op.B)
	case "post":
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
			if r := c02rec(ctx); r != nil {
				r.post = append(r.post, id)
				return b
			}
			return append(b, fmt.Sprintf(" (O%d)", id)...)
		}, op.B)
	case "text":
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			if c02rec(ctx) == nil {
				return c02Text.ReplaceAllString(s, fmt.Sprintf("${0}A%dz", id))
			}
			if i := strings.Index(s, "T1x"); i >= 0 {
				c02rec(ctx).text["T1x"] = append(c02rec(ctx).text["T1x"], id)
			}
			if i := strings.Index(s, "T2x"); i >= 0 {
				c02rec(ctx).text["T2x"] = append(c02rec(ctx).text["T2x"], id)
			}
			return s
		}, op.B)
	case "rend":
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
			if n.Data == "x-p1" || n.Data == "x-p2" {
				if r := c02rec(ctx); r != nil {
					r.rend[n.Data] = append(r.rend[n.Data], id)
				} else {
					n.Attr = append(n.Attr, html.Attribute{Key: "n", Val: fmt.Sprintf("(D%d)", id)})
				}
			}
			return converter.RenderTryNext
		}, op.B)
	case "rendfor":
		conv.Register.RendererFor(fmt.Sprintf("x-r%d", id), converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
			w.WriteString(fmt.Sprintf("(R%d)", id))
			return converter.RenderSuccess
		}, op.B)
	case "esc":
		conv.Register.EscapedChar(escChars[id])
	case "unesc":
		c := []byte(string(escChars[id]))
		conv.Register.UnEscaper(func(b []byte, i int) int {
			if bytes.HasPrefix(b[i:], c) {
				return 1
			}
			return -1
		}, op.B)
	case "tag":
		setTagType(conv, fmt.Sprintf("x-t%d", id), op.S, op.B)
	case "tags":
		setTagType(conv, "x-s", op.S, op.B)
	case "plugin":
		conv.Register.Plugin(&simPlugin{
			name: func() string {
				if id%2 == 0 { // another instance of the same plugin
					return "twin"
				}
				return fmt.Sprintf("p%d", id)
			},
			init: func(conv *converter.Converter) error {
				c02Register(conv, Op{K: "pre", A: id, B: op.B})
				for i := id % 4; i > 0; i-- {
					vsim.YS()
				}
				c02Register(conv, Op{K: "post", A: id, B: op.B})
				vsim.YS()
				return nil
			},
		})
	}
}

const c02Max = 16

var (
	c02Text  = regexp.MustCompile(`T[12]x(A\d+z)*`)
	c02Ids   = regexp.MustCompile(`\d+`)
	c02Marks = regexp.MustCompile(`(T1x|T2x|x-p1:|x-p2:|)((\(?(A|E|O|D)\d+[z)])+)`)
	c02Types = regexp.MustCompile(`(x-[a-z]\d*)=(\w+);`)
)

// c02Log has the elements that tell in the markdown what was registered.
func c02Log(conv *converter.Converter) {
	attrs := func(w converter.Writer, n *htmlNode) {
		for _, a := range n.Attr {
			w.WriteString(a.Val)
		}
	}
	conv.Register.RendererFor("x-log", converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
		attrs(w, n)
		return converter.RenderSuccess
	}, 600)
	conv.Register.RendererFor("x-typ", converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
		for i := 0; i < c02Max; i++ {
			for _, k := range []string{"x-t", "x-r", "x-s"} {
				if k != "x-s" {
					k = fmt.Sprintf("%s%d", k, i)
				}
				if t, ok := ctx.GetTagType(k); ok {
					fmt.Fprintf(w, "%s=%s;", k, t)
				}
			}
		}
		return converter.RenderSuccess
	}, 600)
	for _, k := range []string{"x-p1", "x-p2"} {
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
			if n.Data != k {
				return converter.RenderTryNext
			}
			w.WriteString(" " + k + ":")
			attrs(w, n)
			return converter.RenderSuccess
		}, 600)
	}
}

// read fills the record from the markdown.
func (r *c02Rec) read() {
	for _, m := range c02Types.FindAllStringSubmatch(r.out, -1) {
		r.typ[m[1]] = m[2]
	}
	for _, m := range c02Marks.FindAllStringSubmatch(r.out, -1) {
		for _, id := range c02Ids.FindAllString(m[2], -1) {
			n, _ := strconv.Atoi(id)
			switch {
			case m[1] == "T1x" || m[1] == "T2x":
				r.text[m[1]] = append(r.text[m[1]], n)
			case m[1] != "":
				k := strings.TrimSuffix(m[1], ":")
				r.rend[k] = append(r.rend[k], n)
			case m[4] == "E":
				r.pre = append(r.pre, n)
			case m[4] == "O":
				r.post = append(r.post, n)
			}
		}
	}
}

func c02Doc(tok string) string {
	var b strings.Builder
	b.WriteString("<p>" + tok + " T1x</p><x-p1>a</x-p1><blockquote>T2x</blockquote>")
	for i := 1; i < c02Max; i++ {
		fmt.Fprintf(&b, "<x-r%d>r%d.</x-r%d><x-t%d>gone%d.</x-t%d>", i, i, i, i, i, i)
	}
	b.WriteString("<x-s>shared.</x-s><p>")
	for _, c := range escChars {
		fmt.Fprintf(&b, "k%ck ", c)
	}
	b.WriteString("</p><x-p2>b</x-p2><x-typ></x-typ>")
	return b.String()
}

func runC02(x *run) {
	conv := x.ep.Specs[0].Build()
	var recs []*c02Rec
	var regs []*c02Reg
	look := func(ctx converter.Context, r *c02Rec) {
		for i := 1; i < c02Max; i++ {
			for _, k := range []string{"x-t", "x-r"} {
				t, ok := ctx.GetTagType(fmt.Sprintf("%s%d", k, i))
				if ok {
					r.typ[fmt.Sprintf("%s%d", k, i)] = string(t)
				}
			}
		}
		if t, ok := ctx.GetTagType("x-s"); ok {
			r.typ["x-s"] = string(t)
		}
	}
	conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) {
		if r := c02rec(ctx); r != nil {
			look(ctx, r)
		}
	}, 1000)
	plain := x.ep.P["plain"] == 1
	if plain {
		c02Log(conv)
	}
	doConv := func(rec *c02Rec, via string) {
		ctx := context.WithValue(context.Background(), c02Key{}, rec)
		rec.inv = vsim.Now()
		if plain {
			rec.out, _, rec.err = convertVia(conv, via, c02Doc(rec.tok))
			rec.ret = vsim.Now()
			rec.read()
			return
		}
		rec.out, _, rec.err = convertVia(conv, via, c02Doc(rec.tok), converter.WithContext(ctx))
		rec.ret = vsim.Now()
	}
	newRec := func(ti, oi int) *c02Rec {
		tok := token(x.tok(ti, oi))
		if plain {
			tok = "plain"
		}
		r := &c02Rec{tok: tok, text: map[string][]int{}, rend: map[string][]int{}, typ: map[string]string{}}
		recs = append(recs, r)
		return r
	}
	type job struct {
		op  Op
		rec *c02Rec
		reg *c02Reg
	}
	early := int64(-1 << 40)
	before := func(op Op) {
		regs = append(regs, &c02Reg{op: op, inv: early, ret: early + 1})
		early += 2
		c02Register(conv, op)
	}
	for _, op := range x.ep.Setup {
		before(op)
	}
	for ti, ops := range x.ep.Tasks {
		var jobs []job
		for oi, op := range ops {
			if op.K == "conv" {
				jobs = append(jobs, job{op: op, rec: newRec(ti, oi)})
				continue
			}
			if oi == 0 && x.ep.P["setup"] == 1 {
				before(op)
				continue
			}
			g := &c02Reg{op: op}
			regs = append(regs, g)
			jobs = append(jobs, job{op: op, reg: g})
		}
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for _, j := range jobs {
				sched()
				if x.ep.P["fail"] == 1 && j.op.B%3 == 0 { // only races, deadlocks and panics matter
					c02Fail(conv, j.op.B)
				}
				if j.rec != nil {
					doConv(j.rec, j.op.Via)
				} else {
					j.reg.inv = vsim.Now()
					c02Register(conv, j.op)
					j.reg.ret = vsim.Now()
				}
			}
		})
	}
	for oi, op := range x.ep.Final {
		rec := newRec(62, oi)
		x.final(func() { doConv(rec, op.Via) })
	}
	x.after = append(x.after, func() {
		for _, r := range recs {
			if x.ep.P["fail"] == 1 && r.err != nil {
				x.probe("failed configuration")
				continue
			}
			x.c02Check(r, regs)
		}
	})
}

// c02Fail registers something that fails.
func c02Fail(conv *converter.Converter, n int) {
	name, err := "failing", errors.New("init failed")
	if n&4 != 0 {
		name, err = "", nil
	}
	conv.Register.Plugin(&simPlugin{name: func() string { return name }, init: func(*converter.Converter) error { return err }})
}

func (x *run) c02Check(r *c02Rec, regs []*c02Reg) {
	if r.err != nil {
		x.violate("error", "a conversion concurrent with valid registrations failed: %v", r.err)
		return
	}
	if !strings.Contains(r.out, r.tok) {
		x.violate("output", "the text of the document is missing from the output")
	}
	prio := map[int]int{}
	var must, may []*c02Reg // may: overlapping
	for _, g := range regs {
		prio[g.op.A+100*kindNo(g.op.K)] = g.op.B
		switch {
		case g.ret < r.inv:
			must = append(must, g)
		case g.inv > r.ret:
		default:
			may = append(may, g)
		}
	}
	has := func(l []*c02Reg, id int, kinds ...string) bool {
		for _, g := range l {
			for _, k := range kinds {
				if g.op.A == id && g.op.K == k {
					return true
				}
			}
		}
		return false
	}
	seq := func(what string, got []int, kinds ...string) {
		last := -1 << 63
		var same []*c02Reg // of the priority last
		seen := map[int]int{}
		for _, id := range got {
			if seen[id]++; seen[id] > 1 {
				x.violate("twice", "%s: registration %d was applied twice in one conversion", what, id)
			}
			if !has(must, id, kinds...) && !has(may, id, kinds...) {
				x.violate("early", "%s: registration %d is used by a conversion that ended before it began", what, id)
			}
			p := 0
			var cur *c02Reg
			for _, g := range regs {
				for _, k := range kinds {
					if g.op.A == id && g.op.K == k {
						p, cur = g.op.B, g
					}
				}
			}
			if p < last {
				x.violate("order", "%s: handlers ran out of priority order (%d after %d)", what, p, last)
			}
			if p != last {
				same = same[:0]
			}
			last = p
			for _, g := range same {
				if cur != nil && cur.ret < g.inv {
					x.violate("order", "%s: registration %d ran before registration %d, which has the same priority and was made earlier", what, g.op.A, id)
				}
			}
			if cur != nil {
				same = append(same, cur)
			}
		}
		for _, g := range must {
			for _, k := range kinds {
				if g.op.K == k && seen[g.op.A] == 0 {
					x.violate("lost", "%s: registration %d (%s) returned before the conversion started but was not used", what, g.op.A, k)
				}
			}
		}
		if len(may) > 0 {
			x.probe("overlap")
		}
	}
	seq("PreRenderer", r.pre, "pre", "plugin")
	seq("PostRenderer", r.post, "post", "plugin")
	seq("TextTransformer", r.text["T1x"], "text")
	seq("TextTransformer", r.text["T2x"], "text")
	seq("Renderer", r.rend["x-p1"], "rend")
	seq("Renderer", r.rend["x-p2"], "rend")
	for _, g := range regs {
		if g.op.K == "rendfor" {
			on := strings.Contains(r.out, fmt.Sprintf("(R%d)", g.op.A))
			off := strings.Contains(r.out, fmt.Sprintf("r%d.", g.op.A))
			if on == off {
				x.violate("output", "RendererFor: element %d rendered neither by its handler nor by the fallback", g.op.A)
			}
			if has(must, g.op.A, "rendfor") && !on {
				x.violate("lost", "RendererFor: registration %d returned before the conversion started but was not used", g.op.A)
			}
			if on && !has(must, g.op.A, "rendfor") && !has(may, g.op.A, "rendfor") {
				x.violate("early", "RendererFor: registration %d used before it was made", g.op.A)
			}
			t := r.typ[fmt.Sprintf("x-r%d", g.op.A)]
			if has(must, g.op.A, "rendfor") && t != "block" {
				x.violate("lost", "RendererFor: tag type of registration %d not in effect (got %q)", g.op.A, t)
			}
		}
		if g.op.K == "tag" {
			t := r.typ[fmt.Sprintf("x-t%d", g.op.A)]
			m, y := has(must, g.op.A, "tag"), has(may, g.op.A, "tag")
			if m && t != g.op.S {
				x.violate("lost", "TagType: registration %d returned before the conversion started but the type is %q, not %q", g.op.A, t, g.op.S)
			}
			if t != "" && t != g.op.S || t != "" && !m && !y {
				x.violate("early", "TagType: element %d has type %q", g.op.A, t)
			}
			gone := !strings.Contains(r.out, fmt.Sprintf("gone%d.", g.op.A))
			if m && g.op.S == "remove" && !gone {
				x.violate("lost", "TagType: element %d must be removed but is in the output", g.op.A)
			}
			if gone && (g.op.S != "remove" || !m && !y) {
				x.violate("output", "element %d is missing from the output", g.op.A)
			}
		}
	}
	// the shared tag: the lowest priority number wins, then the first one made
	allowed := map[string]bool{}
	some := false
	for _, l := range [][]*c02Reg{must, may} {
		for _, g := range l {
			if g.op.K != "tags" {
				continue
			}
			first := true
			for _, h := range must {
				if h.op.K == "tags" {
					some = true
					if h.op.B < g.op.B || h.op.B == g.op.B && h.ret < g.inv {
						first = false
					}
				}
			}
			if first {
				allowed[g.op.S] = true
			}
		}
	}
	if !some {
		allowed[""] = true
	}
	if !allowed[r.typ["x-s"]] {
		x.violate("order", "TagType: a tag registered several times has type %q; the first registration of the earliest priority gives %v", r.typ["x-s"], allowed)
	}
	for i := range escChars {
		c := string(escChars[i])
		esc := strings.Contains(r.out, "k\\"+c+"k")
		raw := strings.Contains(r.out, "k"+c+"k")
		if esc == raw {
			x.violate("output", "the character %s is missing from the output", c)
			continue
		}
		mustEsc := has(must, i, "esc") && has(must, i, "unesc")
		canEsc := (has(must, i, "esc") || has(may, i, "esc")) && (has(must, i, "unesc") || has(may, i, "unesc"))
		if mustEsc && !esc {
			x.violate("lost", "EscapedChar/UnEscaper for %s were registered before the conversion started but not used", c)
		}
		if esc && !canEsc {
			x.violate("early", "%s is escaped without registration", c)
		}
	}
}

func kindNo(k string) int { return len(k) }

// ------------------------------------------------------------------------ C10

func init() {
	define(&propDef{
		id: "C10", race: true, sched: 8, batch: []int{1, 4, 30}, quick: 35, pool: [3]int{16, 14, 2500},
		gen: func(r *R, p *Pool) *Ep {
			ep := &Ep{P: map[string]int{"drop": r.PickI(0, 0, 3, 7)}}
			convTasks(r, p, ep, r.In(1, 3), 5)
			for t := range ep.Tasks {
				for i := range ep.Tasks[t] {
					op := &ep.Tasks[t][i]
					op.Via = r.Pick("reader", "node", "bytes", "chunks", "string", "mine", "buffer", "string+")
					op.S = r.Pick("keep", "keep", "mutate", "append")
					op.A = 0
				}
				if r.P(30) {
					ep.Tasks[t] = append(ep.Tasks[t], Op{K: "gc"})
				}
			}
			ep.Final = []Op{ep.Tasks[0][0]}
			return ep
		},
		run: runC10, shrink: shrinkOps,
		rule: "A run is 1-3 simulated goroutines converting pool documents and keeping, overwriting or appending to every byte of the results while others convert, with pools emptied and garbage collected at seeded points; all results are compared at the end and their memory ranges intersected. Non-trivial: at least two results alive and one preemption or mutation; distinct: hash of switch sequence and scenario.",
	})
}

type c10Key struct{}

type c10Res struct {
	b    []byte
	want string
	who  string
	kept bool
	str  bool // the bytes of a string: may be shared with another one
}

func runC10(x *run) {
	convs := x.convs()
	vsync.PoolDrop = x.ep.P["drop"]
	for i, conv := range convs {
		if conv != nil && !x.ep.Specs[i].Pkg { // a post-renderer may write to memory of its own
			conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
				if p, ok := ctx.Value(c10Key{}).(*[]byte); ok {
					*p = append(*p, b...)
					return *p
				}
				return b
			}, 1<<20)
		}
	}
	all := make([][]*c10Res, len(x.ep.Tasks)+len(x.ep.Final))
	do := func(slot, ti, oi int, op Op) {
		if op.K == "gc" {
			runtime.GC()
			return
		}
		e := x.ep.Entries[op.E]
		tok := x.opTok(ti, oi, op)
		opts := domainOpts(fill(e.Domain, tok), -1)
		var s string
		var b []byte
		var err error
		switch op.Via {
		case "mine", "buffer": // the input's memory is the caller's, and used again after the call
			src := []byte(fill(e.Doc, tok))
			var rd io.Reader = &chunkReader{data: src, sizes: []int{300, 2000}}
			if op.Via == "buffer" {
				rd = bytes.NewBuffer(src)
			}
			b, err = callReader(convs[op.C], rd, opts...)
			for i := range src {
				src[i] = 'R'
			}
		case "string+":
			own := make([]byte, 0, 64)
			opts = append(opts, converter.WithContext(context.WithValue(context.Background(), c10Key{}, &own)))
			s, b, err = convertVia(convs[op.C], "string", fill(e.Doc, tok), opts...)
			own = own[:cap(own)]
			for i := range own {
				own[i] = 'O'
			}
			op.Via = "string"
		default:
			s, b, err = convertVia(convs[op.C], op.Via, fill(e.Doc, tok), opts...)
		}
		if err != nil {
			x.note("error", "conversion failed: %v", err)
			return
		}
		if op.Via == "string" {
			b = unsafe.Slice(unsafe.StringData(s), len(s)) // only ever read
			op.S = "keep"
		}
		res := &c10Res{b: b, str: op.Via == "string", want: fill(e.Out, tok), who: fmt.Sprintf("result %d of task %d", oi, ti)}
		if string(b) != res.want {
			x.note("output", "%s differs from its solo result: %s", res.who, diffAt(string(b), res.want))
		}
		all[slot] = append(all[slot], res)
		switch op.S {
		case "keep":
			res.kept = true
		case "mutate":
			for i := range b {
				b[i] = 'M'
			}
			full := b[:cap(b)]
			for i := range full {
				full[i] = 'M'
			}
		case "append":
			_ = append(b, "appended by the caller, into spare capacity if there is any"...)
			n := min(cap(b)-len(b), 64)
			ext := b[:len(b)+n]
			for i := len(b); i < len(ext); i++ {
				ext[i] = 'A'
			}
			res.kept = true
		}
	}
	for ti, ops := range x.ep.Tasks {
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				do(ti, ti, oi, op)
			}
		})
	}
	for i, op := range x.ep.Final {
		x.final(func() { do(len(x.ep.Tasks)+i, 62, i, op) })
	}
	x.after = append(x.after, func() {
		vsync.PoolDrop = 0
		var l []*c10Res
		for _, a := range all {
			l = append(l, a...)
		}
		for i, a := range l {
			if a.kept && string(a.b) != a.want {
				x.violate("changed", "%s was changed after it had been returned: %s", a.who, diffAt(string(a.b), a.want))
			}
			if a.kept {
				x.probe("kept")
			} else {
				x.probe("overwritten")
			}
			for _, b := range l[:i] {
				if !(a.str && b.str) && overlap(a.b, b.b) {
					x.violate("shared", "%s and %s share memory", b.who, a.who)
				}
			}
		}
		x.out.Triv = len(l) < 2
		x.keep = append(x.keep, l)
	})
}

func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a0 := uintptr(unsafe.Pointer(unsafe.SliceData(a)))
	b0 := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return a0 < b0+uintptr(cap(b)) && b0 < a0+uintptr(cap(a))
}

// ------------------------------------------------------------------------ C11

func init() {
	define(&propDef{
		id: "C11", sched: 2, batch: []int{1, 5, 60}, quick: 30, pool: [3]int{22, 16, 2500},
		gen: func(r *R, p *Pool) *Ep {
			ep := &Ep{P: map[string]int{"drop": r.PickI(0, 0, 2, 5)}}
			convTasks(r, p, ep, r.PickI(1, 1, 2), 8)
			badTasks(r, p, ep)
			for t := range ep.Tasks {
				for i := range ep.Tasks[t] {
					op := &ep.Tasks[t][i]
					op.B = r.In(1, 1<<30) // map seed
					if r.P(30) {
						op.Tok = r.In(1, 2)
					}
					if r.P(25) && i > 0 {
						*op = ep.Tasks[t][r.N(i)]
						op.B = r.In(1, 1<<30)
						op.Tok = 1
					}
				}
				if r.P(4) {
					n := r.PickI(10, 40, 150)
					if k := dictInt(r, 400); k > 0 && usesDict(r, 10, 50) {
						n = k
					}
					ep.Tasks[t][r.N(len(ep.Tasks[t]))].N = n
				}
				if n := dictInt(r, 5000); n > 300 && usesDict(r, 3, 6) || r.N(300) == 0 {
					i := r.N(len(ep.Tasks[t]) + 1)
					nop := Op{K: "many", N: max(n, r.PickI(300, 1100)), B: r.In(1, 1<<30)}
					ep.Tasks[t] = append(ep.Tasks[t][:i:i], append([]Op{nop}, ep.Tasks[t][i:]...)...)
				}
				for k := r.N(3); k > 0; k-- {
					i := r.N(len(ep.Tasks[t]) + 1)
					nop := Op{K: r.Pick("gc", "fail", "panic", "junk"), B: r.In(1, 1<<30)}
					ep.Tasks[t] = append(ep.Tasks[t][:i:i], append([]Op{nop}, ep.Tasks[t][i:]...)...)
				}
			}
			return ep
		},
		run: runC11, shrink: shrinkOps,
		rule: "A run is a seeded history of conversions (repeats, failed and panicking ones in between, garbage collections, emptied pools, new and used converters) with a new seed for every map iteration before each operation; each result is compared with that of a pristine process. Non-trivial: at least two operations; distinct: hash of operations, map seeds and switches.",
	})
}

func runC11(x *run) {
	convs := x.convs()
	vsync.PoolDrop = x.ep.P["drop"]
	n := 0
	for ti, ops := range x.ep.Tasks {
		n += len(ops)
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				runtime.VerifSetMapSeed(uint64(op.B) * 0x9E3779B97F4A7C15)
				runtime.VerifSetRand(uint64(op.B) * 0xBF58476D1CE4E5B9)
				switch op.K {
				case "gc":
					runtime.GC()
				case "fail":
					_, err := callReader(convs[0], &failReader{data: []byte("<p>abc <b>" + token(x.tok(ti, oi))), err: errors.New("disk error")})
					if err == nil {
						x.note("error", "a failing reader was not reported")
					}
				case "panic":
					safely(func() {
						callString(convs[0], "<p>"+token(x.tok(ti, oi))+"</p>", func() converter.ConvertOptionFunc {
							return converter.WithContext(panicCtx{context.Background()})
						}())
					})
				case "many": // a converter that has been used for long
					c := convs[op.B%len(convs)]
					for n := op.N; n > 0; n-- {
						callString(c, "<p>a</p>")
					}
				case "junk":
					safely(func() {
						r := NewR(uint64(op.B))
						callString(convs[0], fill(genDoc(r, 200), x.tok(ti, oi)))
					})
				default:
					x.checkConv(convs[op.C], ti, oi, op)
					for n := 1; n < op.N; n++ {
						op.rep = n
						x.checkConv(convs[op.C], ti, oi, op)
					}
				}
			}
		})
	}
	x.after = append(x.after, func() { vsync.PoolDrop = 0; x.out.Triv = n < 2; x.out.Pre++ })
}

// panicCtx panics when its values are looked up.
type panicCtx struct{ context.Context }

func (panicCtx) Value(any) any { panic("ctx panics") }
