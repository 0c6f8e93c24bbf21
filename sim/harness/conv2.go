package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/JohannesKaufmann/dom"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim/vcontext"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// ------------------------------------------------------------------------ C03

func init() {
	define(&propDef{
		id: "C03", sched: 20, batch: []int{1, 5, 60}, quick: 30, pool: [3]int{1, 3, 200},
		gen: genC03, run: runC03, shrink: shrinkC03,
		rule: "A run is 1-4 simulated goroutines running conversions whose elements are a small program (set/update/get state, context values, links, domains, nested conversions, panics) interpreted both by registered handlers and by a reference model, under one seeded schedule. Non-trivial: at least one preemption or nested conversion; distinct: hash of scenario and switch sequence.",
	})
}

type c03CallerKey struct{}

// c03AbortKey: how many elements until the conversion is aborted by a panic.
type c03AbortKey struct{}
type c03Key string

func genC03Nodes(r *R, depth int, budget *int) []Op {
	var l []Op
	for n := r.In(1, 4); n > 0 && *budget > 0; n-- {
		*budget--
		k := r.Pick("set", "set", "upd", "upd", "get", "get", "with", "with", "out", "val", "val", "nest", "link", "dom", "a", "caller", "box", "sets", "gets", "app", "list", "any", "nil", "updp", "txt")
		if r.P(3) {
			k = "panic"
		}
		op := Op{K: k, S: r.Pick("a", "a", "b", "b", "A", "a.b", ""), A: r.In(1, 99)}
		switch k {
		case "link", "a":
			op.E = r.N(8)
		case "with", "box", "out":
			op.B = r.N(4)
			if depth < 3 {
				op.Sub = genC03Nodes(r, depth+1, budget)
			}
		case "nest":
			if depth >= 3 {
				op.K = "get"
				break
			}
			op.C = r.N(2)
			op.A = r.N(2) // 1: passes its own ctx on
			op.B = r.N(2) // 1: recovers panics
			op.Tok = c03PickDomain(r)
			op.E = r.N(3) // caller value when not inheriting
			op.Via = r.Pick("string", "reader", "node")
			op.Sub = genC03Nodes(r, depth+1, budget)
		}
		l = append(l, op)
	}
	return l
}

func c03PickDomain(r *R) int {
	if r.P(40) {
		return r.N(4)
	}
	return r.N(len(c03Domains))
}

func genC03(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	for t := r.In(1, 4); t > 0; t-- {
		var ops []Op
		for k := r.In(1, 3); k > 0; k-- {
			budget := 12
			ops = append(ops, Op{K: "conv", C: r.N(2), Tok: c03PickDomain(r), E: r.N(4), Via: r.Pick("string", "reader", "node", "chunks"), Sub: genC03Nodes(r, 0, &budget), B: max(0, r.In(-6, 3)), A: r.N(60)})
		}
		ep.Tasks = append(ep.Tasks, ops)
	}
	return ep
}

func shrinkC03(ep *Ep) []*Ep {
	out := shrinkOps(ep)
	for ti := range ep.Tasks {
		for oi := range ep.Tasks[ti] {
			for _, sub := range dropOne(ep.Tasks[ti][oi].Sub) {
				c := cloneEp(ep)
				c.Tasks[ti][oi].Sub = sub
				out = append(out, c)
			}
		}
	}
	return out
}

func dropOne(l []Op) [][]Op {
	var out [][]Op
	for i := range l {
		c := append([]Op(nil), l[:i]...)
		out = append(out, append(c, l[i+1:]...))
		for _, s := range dropOne(l[i].Sub) {
			c := append([]Op(nil), l...)
			c[i].Sub = s
			out = append(out, c)
		}
	}
	return out
}

func c03HTML(b *strings.Builder, l []Op) {
	for _, o := range l {
		if o.K == "a" {
			fmt.Fprintf(b, `<a href="%s">t</a>`, c03Href(o))
			continue
		}
		if o.K == "txt" {
			fmt.Fprintf(b, "QQ%sQQ", strings.Repeat("Q", len(o.S)%3)+"z")
			continue
		}
		fmt.Fprintf(b, `<x-op k="%s" s="%s" a="%d"`, o.K, o.S, o.A)
		if o.K == "with" || o.K == "box" || o.K == "out" {
			fmt.Fprintf(b, ` b="%d"`, o.B)
		}
		if o.K == "link" {
			fmt.Fprintf(b, ` u="%s"`, c03Href(o))
		}
		if o.K == "nest" {
			var d strings.Builder
			c03HTML(&d, o.Sub)
			fmt.Fprintf(b, ` c="%d" b="%d" t="%d" e="%d" via="%s" d="%s"></x-op>`, o.C, o.B, o.Tok, o.E, o.Via, html.EscapeString("<p>"+d.String()+"</p>"))
			continue
		}
		b.WriteString(">")
		c03HTML(b, o.Sub)
		b.WriteString("</x-op>")
	}
}

// c03Domains: several sites, and several spellings and directories of one.
var c03Domains = []string{"", "https://d1.example", "https://d2.example", "https://d3.example",
	"https://d1.example/dir/", "https://d1.example/dir", "https://d1.example/", "http://d1.example", "https://d1.example/dir/?q=1", "https://D1.example", "https://u:p@d1.example/dir/", "d1.example", "https://d1.example:80/dir/page.html", "//d1.example/dir/", "https://d1.example/Dir/", "https://d1.example/dir//", "https://d1.example/dir/#f"}

func c03Domain(n int) string { return c03Domains[n] }

func c03Href(o Op) string {
	return fmt.Sprintf([]string{"/p%d", "p%d", "../p%d", "?q=%d", "#f%d", "//h.example/%d", "https://h.example/%d", "./p%d/"}[o.E], o.A)
}

// c03URL resolves a reference as RFC 3986 has it.
func c03URL(domain string, o Op) string {
	ref, err := url.Parse(c03Href(o))
	if err != nil {
		panic(err)
	}
	if domain == "" {
		return ref.String()
	}
	base, err := url.Parse(domain)
	if err == nil && base.Host == "" {
		base, err = url.Parse("http://" + domain)
	}
	if err != nil {
		panic(err)
	}
	return base.ResolveReference(ref).String()
}

type c03Panic struct{ n int }

// c03Env is the state of one conversion in the model.
type c03Env struct {
	state  map[string]any
	domain string
	vals   map[string]string
	caller string
}

func (e *c03Env) int(k string) int {
	v, _ := e.state[k].(int)
	return v
}

func c03Model(l []Op, e *c03Env, vals map[string]string, b *strings.Builder) {
	for _, o := range l {
		switch o.K {
		case "set":
			e.state[o.S] = o.A
		case "upd":
			e.state[o.S] = e.int(o.S) + o.A
		case "get":
			fmt.Fprintf(b, "(g%s%d)", o.S, e.int(o.S))
		case "sets":
			e.state[o.S] = strconv.Itoa(o.A)
		case "gets":
			v, _ := e.state[o.S].(string)
			fmt.Fprintf(b, "(s%s%s)", o.S, v)
		case "app":
			v, _ := e.state[o.S].([]int)
			e.state[o.S] = append(v, o.A)
		case "list":
			v, _ := e.state[o.S].([]int)
			fmt.Fprintf(b, "(q%s%d)", o.S, v)
		case "any":
			fmt.Fprintf(b, "(y%s%d)", o.S, e.state[o.S])
		case "nil":
			e.state[o.S] = nil
		case "updp":
			b.WriteString("(u)")
		case "txt":
			fmt.Fprintf(b, "(t%d.%s.%s.%s)", e.int("a"), vals["a"], e.domain, e.caller)
		case "with":
			v := map[string]string{}
			for k, x := range vals {
				v[k] = x
			}
			v[o.S] = strconv.Itoa(o.A)
			c03Model(o.Sub, e, v, b)
		case "box", "out":
			c03Model(o.Sub, e, vals, b)
		case "val":
			fmt.Fprintf(b, "(v%s%s)", o.S, vals[o.S])
		case "link":
			fmt.Fprintf(b, "(l%s)", c03URL(e.domain, o))
		case "a":
			fmt.Fprintf(b, "[t](%s)", c03URL(e.domain, o))
		case "dom":
			fmt.Fprintf(b, "(d%s)", e.domain)
		case "caller":
			fmt.Fprintf(b, "(c%s)", e.caller)
		case "panic":
			panic(c03Panic{o.A})
		case "nest":
			func() {
				if o.B == 1 {
					defer func() {
						if r := recover(); r != nil {
							b.WriteString("(rec)")
						}
					}()
				}
				ne := &c03Env{state: map[string]any{}, domain: c03Domain(o.Tok)}
				nv := map[string]string{}
				if o.A == 1 {
					ne.caller = e.caller
					nv = vals
				} else if o.E > 0 {
					ne.caller = strconv.Itoa(o.E)
				}
				b.WriteString("(n" + c03Run(o.Sub, ne, nv) + ")")
			}()
		}
	}
}

func c03Run(l []Op, e *c03Env, vals map[string]string) string {
	var b strings.Builder
	e.state["pre"] = e.int("pre")*10 + 1
	c03Model(l, e, vals, &b)
	return b.String() + fmt.Sprintf("(post%d.%d.%d.%s.%s.%s)", e.int("pre"), e.int("a"), e.int("b"), e.domain, e.caller, vals["a"])
}

var c03Text = regexp.MustCompile("QQQ*zQQ")

// c03Render renders the children through the context rc, handing on ctx.
func c03Render(rc, ctx converter.Context, w converter.Writer, n *htmlNode, how int) {
	if how == 1 {
		rc.RenderNodes(ctx, w, dom.AllChildNodes(n)...)
		return
	}
	if how == 2 {
		for _, c := range dom.AllChildNodes(n) {
			rc.RenderNodes(ctx, w, c)
		}
		return
	}
	rc.RenderChildNodes(ctx, w, n)
}

func c03Conv(convs []*converter.Converter) *converter.Converter {
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) {
		v := converter.GetState[int](ctx, "pre")
		vsim.YS()
		converter.SetState(ctx, "pre", v*10+1)
	}, converter.PriorityEarly)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
		caller, _ := ctx.Value(c03CallerKey{}).(string)
		val, _ := ctx.Value(c03Key("a")).(string)
		return append(b, fmt.Sprintf("(post%d.%d.%d.%s.%s.%s)", converter.GetState[int](ctx, "pre"), converter.GetState[int](ctx, "a"), converter.GetState[int](ctx, "b"), converter.GetDomain(ctx), caller, val)...)
	}, converter.PriorityLate+500)
	conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
		vsim.YS()
		return c03Text.ReplaceAllStringFunc(s, func(string) string {
			caller, _ := ctx.Value(c03CallerKey{}).(string)
			val, _ := ctx.Value(c03Key("a")).(string)
			return fmt.Sprintf("(t%d.%s.%s.%s)", converter.GetState[int](ctx, "a"), val, converter.GetDomain(ctx), caller)
		})
	}, converter.PriorityLate+500)
	conv.Register.RendererFor("x-op", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
		at := func(k string) string { return dom.GetAttributeOr(n, k, "") }
		num := func(k string) int { v, _ := strconv.Atoi(at(k)); return v }
		s, a := at("s"), num("a")
		vsim.YS()
		if left, ok := ctx.Value(c03AbortKey{}).(*int); ok {
			if *left--; *left == 0 {
				panic(c03AbortKey{})
			}
		}
		switch at("k") {
		case "set":
			converter.SetState(ctx, s, a)
		case "upd":
			converter.UpdateState(ctx, s, func(v int) int { vsim.YS(); return v + a })
		case "get":
			fmt.Fprintf(w, "(g%s%d)", s, converter.GetState[int](ctx, s))
		case "with":
			ctx2 := ctx.WithValue(c03Key(s), strconv.Itoa(a))
			rc := ctx2
			if num("b")%2 == 1 {
				rc = ctx // what counts is the context that is passed
			}
			c03Render(rc, ctx2, w, n, num("b"))
		case "out":
			c03Render(ctx.WithValue(c03Key(s), "other"), ctx, w, n, num("b"))
		case "box":
			c03Render(ctx, ctx, w, n, num("b"))
		case "sets":
			converter.SetState(ctx, s, strconv.Itoa(a))
		case "gets":
			fmt.Fprintf(w, "(s%s%s)", s, converter.GetState[string](ctx, s))
		case "app":
			converter.UpdateState(ctx, s, func(v []int) []int { vsim.YS(); return append(v, a) })
		case "list":
			fmt.Fprintf(w, "(q%s%d)", s, converter.GetState[[]int](ctx, s))
		case "any":
			fmt.Fprintf(w, "(y%s%d)", s, converter.GetState[any](ctx, s))
		case "nil":
			converter.SetState[any](ctx, s, nil)
		case "updp":
			safely(func() { converter.UpdateState(ctx, s, func(int) int { vsim.YS(); panic(c03Panic{a}) }) })
			w.WriteString("(u)")
		case "val":
			v, _ := ctx.Value(c03Key(s)).(string)
			fmt.Fprintf(w, "(v%s%s)", s, v)
		case "link":
			fmt.Fprintf(w, "(l%s)", ctx.AssembleAbsoluteURL(ctx, "a", at("u")))
		case "dom":
			fmt.Fprintf(w, "(d%s)", converter.GetDomain(ctx))
		case "caller":
			v, _ := ctx.Value(c03CallerKey{}).(string)
			fmt.Fprintf(w, "(c%s)", v)
		case "panic":
			panic(c03Panic{a})
		case "nest":
			func() {
				if num("b") == 1 {
					defer func() {
						if r := recover(); r != nil {
							w.WriteString("(rec)")
						}
					}()
				}
				opts := c03Opts(num("t"), num("e"))
				if a == 1 {
					opts = append(c03Opts(num("t"), 0), converter.WithContext(ctx))
				}
				out, _, err := convertVia(convs[num("c")], at("via"), at("d"), opts...)
				if err != nil {
					fmt.Fprintf(w, "(err %v)", err)
					return
				}
				w.WriteString("(n" + out + ")")
			}()
		}
		return converter.RenderSuccess
	}, 50)
	return conv
}

func c03Opts(domain, caller int) []converter.ConvertOptionFunc {
	var o []converter.ConvertOptionFunc
	if domain > 0 {
		o = append(o, converter.WithDomain(c03Domain(domain)))
	}
	if caller > 0 {
		o = append(o, converter.WithContext(context.WithValue(context.Background(), c03CallerKey{}, strconv.Itoa(caller))))
	}
	return o
}

func runC03(x *run) {
	convs := make([]*converter.Converter, 2)
	convs[0], convs[1] = c03Conv(convs), c03Conv(convs)
	nest := false
	for ti, ops := range x.ep.Tasks {
		for _, o := range ops {
			nest = nest || hasNest(o.Sub)
		}
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				var b strings.Builder
				c03HTML(&b, op.Sub)
				want, wantPanic := "", any(nil)
				wantPanic, _ = safely(func() {
					e := &c03Env{state: map[string]any{}, domain: c03Domain(op.Tok)}
					if op.E > 0 {
						e.caller = strconv.Itoa(op.E)
					}
					want = c03Run(op.Sub, e, map[string]string{})
				})
				var out string
				var err error
				var doc *htmlNode
				if op.B > 0 { // the same nodes several times
					doc, _ = html.Parse(strings.NewReader("<p>" + b.String() + "</p>"))
				}
				for again := op.B; again > 1; again-- {
					sched()
					left := op.A % (4 * again)
					opts := append(c03Opts(op.Tok, 0), converter.WithContext(context.WithValue(context.Background(), c03AbortKey{}, &left)))
					safely(func() { convs[op.C].ConvertNode(doc, opts...) })
				}
				pv, stack := safely(func() {
					if doc != nil {
						var res []byte
						res, err = convs[op.C].ConvertNode(doc, c03Opts(op.Tok, op.E)...)
						out = string(res)
						return
					}
					out, _, err = convertVia(convs[op.C], op.Via, "<p>"+b.String()+"</p>", c03Opts(op.Tok, op.E)...)
				})
				if wantPanic != nil {
					x.probes["panicked"]++
					if pv != wantPanic {
						x.note("panic", "conversion %d of task %d: got panic %v, want %v", oi, ti, pv, wantPanic)
					}
					continue
				}
				if pv != nil {
					x.note("panic", "conversion %d of task %d panicked: %v at %s", oi, ti, pv, stackTop(stack))
					continue
				}
				if err != nil {
					x.note("error", "conversion %d of task %d failed: %v", oi, ti, err)
				} else if out != want {
					x.note("state", "conversion %d of task %d saw state, domain or values that are not its own: %s", oi, ti, diffAt(out, want))
				}
			}
		})
	}
	if nest {
		x.probe("nested")
		x.after = append(x.after, func() { x.out.Pre++ })
	}
}

func hasNest(l []Op) bool {
	for _, o := range l {
		if o.K == "nest" || hasNest(o.Sub) {
			return true
		}
	}
	return false
}

// -------------------------------------------------------- hooked converters

// cell is what the conversion or registration running in a task has armed.
type cell struct {
	x       *run
	op      *Op
	conv    *converter.Converter
	count   map[string]int
	fired   bool
	wrapped bool
	val     any // value of the armed panic
	seen    []int
	cids    []string
	ti      int
}

func curCell() *cell {
	t := vsim.Cur()
	if t == nil {
		return nil
	}
	c, _ := t.Proc.(*cell)
	return c
}

// hook is called from every caller-supplied function.
func hook(name string, ctx converter.Context) {
	vsim.YS()
	c := curCell()
	if c == nil || c.op == nil {
		return
	}
	if c.count == nil {
		c.count = map[string]int{}
	}
	c.count[name]++
	if c.fired || c.op.S != name || c.count[name] != max(1, c.op.A) {
		return
	}
	c.fired = true
	c.x.probe("hook " + name)
	if c.val != nil {
		panic(c.val)
	}
	c.actions(c.op.Sub, ctx)
}

// withCell runs f with the task's cell set.
func withCell(c *cell, f func()) {
	t := vsim.Cur()
	old := t.Proc
	t.Proc = c
	defer func() { t.Proc = old }()
	f()
}

// hookReader calls the hook before it delivers.
type hookReader struct{ r io.Reader }

func (h *hookReader) Read(p []byte) (int, error) {
	hook("reader", nil)
	return h.r.Read(p)
}

// hookCtx calls the hook when a value is looked up that the library did not set.
type hookCtx struct{ context.Context }

func (h hookCtx) Value(k any) any {
	hook("ctxval", nil)
	return h.Context.Value(k)
}

func (h hookCtx) Err() error {
	hook("ctxerr", nil)
	return h.Context.Err()
}

func (h hookCtx) Done() <-chan struct{} {
	hook("ctxdone", nil)
	return h.Context.Done()
}

func (h hookCtx) Deadline() (time.Time, bool) {
	hook("ctxdl", nil)
	return h.Context.Deadline()
}

// hookWriter is what a handler may render its children to.
type hookWriter struct{ converter.Writer }

func (h hookWriter) Write(b []byte) (int, error) {
	hook("write", nil)
	return h.Writer.Write(b)
}

func (h hookWriter) WriteString(s string) (int, error) {
	hook("write", nil)
	return h.Writer.WriteString(s)
}

func (h hookWriter) WriteByte(b byte) error {
	hook("write", nil)
	return h.Writer.WriteByte(b)
}

func (h hookWriter) WriteRune(r rune) (int, error) {
	hook("write", nil)
	return h.Writer.WriteRune(r)
}

// hookErr calls the hook when it is looked at.
type hookErr struct{ error }

func (h hookErr) Error() string {
	hook("errtext", nil)
	return h.error.Error()
}

func (h hookErr) Is(error) bool {
	hook("errtext", nil)
	return false
}

// addHooks registers handlers of every kind that do nothing but call the hook.
func addHooks(conv *converter.Converter) {
	conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) { hook("pre", ctx) }, 300)
	conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) { hook("pre2", ctx) }, converter.PriorityLate+300)
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
		hook("rend", ctx)
		if c := curCell(); n.Data == "body" && c != nil && c.op != nil && c.op.S == "write" && !c.wrapped {
			c.wrapped = true
			ctx.RenderNodes(ctx, hookWriter{w}, n)
			return converter.RenderSuccess
		}
		return converter.RenderTryNext
	}, 50)
	conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
		hook("text", ctx)
		return s
	}, 50)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
		hook("post", ctx)
		return b
	}, 300)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
		hook("post2", ctx)
		return b
	}, converter.PriorityLate+300)
	conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) {
		converter.UpdateState(ctx, "verif", func(v int) int { hook("upd", ctx); return v + 1 })
	}, 301)
	conv.Register.UnEscaper(func(b []byte, i int) int {
		hook("unesc", nil)
		return -1
	}, 50)
}

// hookedConvert converts with the option, context and reader hooks in place.
func hookedConvert(conv *converter.Converter, via, doc, domain string) (string, error) {
	opts := domainOpts(domain, -1)
	opts = append(opts, converter.WithContext(hookCtx{context.Background()}))
	mark := len(opts)
	opts = append(opts, nil)
	opts[mark] = hookOption(opts[0])
	var out string
	var err error
	switch via {
	case "reader", "chunks", "bytes":
		var b []byte
		b, err = callReader(conv, &hookReader{&chunkReader{data: []byte(doc), sizes: []int{50, 9, 300}}}, opts...)
		out = string(b)
		if err != nil && b != nil {
			out = "output together with an error: " + out
		}
	default:
		out, _, err = convertVia(conv, via, doc, opts...)
	}
	return out, err
}

// hookedNode is hookedConvert for a tree.
func hookedNode(conv *converter.Converter, n *html.Node, domain string) (string, error) {
	opts := domainOpts(domain, -1)
	opts = append(opts, converter.WithContext(hookCtx{context.Background()}))
	mark := len(opts)
	opts = append(opts, nil)
	opts[mark] = hookOption(opts[0])
	b, err := callNode(conv, n, opts...)
	return string(b), err
}

func hookOption(like converter.ConvertOptionFunc) converter.ConvertOptionFunc {
	return hookOptionOf(like)
}

// The options type is not exported; wrapping an option gives one with a hook.
func hookOptionOf[T any, F ~func(T)](like F) F {
	return func(o T) {
		hook("opt", nil)
	}
}

var hookNames = []string{"pre", "pre2", "rend", "text", "post", "post2", "upd", "unesc", "reader", "opt", "ctxval", "write", "ctxerr", "ctxdone", "ctxdl"}

// ------------------------------------------------------------------------ C04

func init() {
	define(&propDef{
		id: "C04", sched: 16, batch: []int{1, 5, 60}, quick: 30, pool: [3]int{6, 6, 300},
		gen: genC04, run: runC04, shrink: shrinkC03,
		rule: "A run is 2-4 simulated goroutines converting and registering on one converter, while handlers, unescapers, options, readers, context values and plugin Name/Init run scripted re-entrant actions: register, look up tag types, convert, wait for another goroutine's registration or conversion, panic. A run must end (deadlock: no task can continue; livelock: step bound under a fair scheduler). Non-trivial: a scripted action ran or a preemption happened; distinct: hash of scenario and switch sequence.",
	})
}

func genActions(r *R, depth int) []Op {
	var l []Op
	for n := r.In(1, 2); n > 0; n-- {
		op := Op{K: r.Pick("reg", "reg", "regawait", "regawait", "conv", "convawait", "tagtype", "escape", "state", "state", "panic", "plugin", "sleep")}
		op.S = r.Pick("pre", "post", "text", "rend", "rendfor", "esc", "unesc", "tag", "plugin")
		op.B = r.In(1, 900)
		op.Via = r.Pick("string", "reader", "node")
		if (op.K == "conv" || op.K == "plugin") && depth < 2 {
			op.Sub = genActions(r, depth+1)
			op.S = hookNames[r.N(len(hookNames))]
			if op.K == "plugin" {
				op.S = r.Pick("init", "name", "errtext")
			}
			op.A = r.In(1, 2)
		}
		l = append(l, op)
	}
	return l
}

func genC04(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	ps := p.pickSpec(r)
	for p.Specs[ps].Pkg {
		ps = p.pickSpec(r)
	}
	ep.Specs = []Spec{p.Specs[ps]}
	ep.P["slow"] = r.N(2)
	for t := r.In(2, 4); t > 0; t-- {
		var ops []Op
		for k := r.In(1, 3); k > 0; k-- {
			switch r.N(6) {
			case 0:
				ops = append(ops, Op{K: "reg", S: r.Pick("pre", "post", "text", "rend", "rendfor", "esc", "unesc", "tag"), B: r.In(1, 900)})
			case 1:
				ops = append(ops, Op{K: "plugin", S: r.Pick("init", "name", "init", "name", "errtext"), A: r.PickI(1, 1, 2), Sub: genActions(r, 0), B: r.N(8)})
			default:
				e := addEntry(ep, p, 0, p.pick(r, ps))
				ops = append(ops, Op{K: "conv", E: e, Via: vias[r.N(len(vias))], S: hookNames[r.N(len(hookNames))], A: r.PickI(1, 1, 1, 2, 5), Sub: genActions(r, 0)})
			}
		}
		ep.Tasks = append(ep.Tasks, ops)
	}
	if r.P(5) { // many at once, all of them in the middle of something
		n := r.PickI(5, 9, 17, 33, 65)
		if k := dictInt(r, 130); k > 0 && usesDict(r, 10, 50) {
			n = k
		}
		e := addEntry(ep, p, 0, p.pick(r, ps))
		at := r.Pick("pre", "rend", "text", "post", "opt", "reader", "ctxval")
		for i := 0; i < n; i++ {
			ep.Tasks = append(ep.Tasks, []Op{{K: "conv", E: e, Via: vias[r.N(len(vias))], S: at, A: 1, Sub: []Op{{K: "sleep", B: r.In(1, 100)}, {K: r.Pick("conv", "conv", "conv", "convawait", "reg", "plugin"), Via: "string", S: "pre", B: r.In(1, 900)}}}})
		}
	}
	return ep
}

type actPanic struct{}

func regIdentity(conv *converter.Converter, kind string, prio int) {
	switch kind {
	case "pre":
		conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) {}, prio)
	case "post":
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { return b }, prio)
	case "text":
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string { return s }, prio)
	case "rend":
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
			return converter.RenderTryNext
		}, prio)
	case "rendfor":
		conv.Register.RendererFor("x-none", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
			return converter.RenderTryNext
		}, prio)
	case "esc":
		conv.Register.EscapedChar('@')
	case "unesc":
		conv.Register.UnEscaper(func(b []byte, i int) int { return -1 }, prio)
	case "tag":
		setTagType(conv, "x-none", "inline", prio)
	case "plugin":
		conv.Register.Plugin(&simPlugin{
			name: func() string { return "identity" },
			init: func(conv *converter.Converter) error { regIdentity(conv, "pre", prio); return nil },
		})
	}
}

const c04Doc = "<p>nested * text <b>x</b> # y</p>"

func (c *cell) actions(l []Op, ctx converter.Context) {
	for i := range l {
		op := &l[i]
		sub := &cell{x: c.x, op: op, conv: c.conv}
		switch op.K {
		case "reg":
			regIdentity(c.conv, op.S, op.B)
		case "regawait":
			t := vsim.Spawn("helper", nil, func() { regIdentity(c.conv, op.S, op.B) })
			vsim.WaitDone(t)
		case "convawait":
			t := vsim.Spawn("helper", nil, func() {
				safely(func() { callString(c.conv, c04Doc) })
			})
			vsim.WaitDone(t)
		case "conv":
			withCell(sub, func() { hookedConvert(c.conv, op.Via, c04Doc, "") })
		case "plugin":
			withCell(sub, func() { c04Plugin(c.conv, op.S == "errtext") })
		case "tagtype":
			if ctx != nil {
				ctx.GetTagType("p")
				ctx.GetTagType("x-none")
			}
		case "escape":
			if ctx != nil {
				ctx.UnEscapeContent(ctx.EscapeContent([]byte("a * b _ c")))
			}
		case "state":
			if ctx != nil {
				k := []string{"verif", "other"}[op.B%2]
				converter.GetState[int](ctx, k)
				converter.SetState(ctx, k, op.B)
				converter.UpdateState(ctx, k, func(v int) int {
					return v + converter.GetState[int](ctx, "other")
				})
			}
		case "sleep": // a slow one
			vsim.Sleep(time.Duration(op.B) * time.Millisecond)
		case "panic":
			panic(actPanic{})
		}
	}
}

func c04Plugin(conv *converter.Converter, bad bool) {
	conv.Register.Plugin(&simPlugin{
		name: func() string { hook("name", nil); return "scripted" },
		init: func(conv *converter.Converter) error {
			hook("init", nil)
			if bad {
				return hookErr{errors.New("init failed")}
			}
			return nil
		},
	})
}

func runC04(x *run) {
	conv := x.ep.Specs[0].build()
	addHooks(conv)
	if x.ep.Strat.Max == 0 {
		x.sim.SetMax(6_000_000 + 20*x.solo)
	}
	for ti, ops := range x.ep.Tasks {
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi := range ops {
				op := &ops[oi]
				sched()
				c := &cell{x: x, op: op, conv: conv}
				pv, stack := safely(func() {
					withCell(c, func() {
						switch op.K {
						case "reg":
							regIdentity(conv, op.S, op.B)
						case "plugin":
							c04Plugin(conv, op.B == 0 || op.S == "errtext")
						case "conv":
							e := x.ep.Entries[op.E]
							tok := x.tok(ti, oi)
							hookedConvert(conv, op.Via, fill(e.Doc, tok), fill(e.Domain, tok))
						}
					})
				})
				if _, ok := pv.(actPanic); pv != nil && !ok {
					x.note("panic", "operation %d of task %d panicked: %v at %s", oi, ti, pv, stackTop(stack))
				}
			}
		})
	}
	x.final(func() {
		regIdentity(conv, "tag", 5)
		callString(conv, c04Doc)
	})
	x.after = append(x.after, func() {
		for k := range x.probes {
			if strings.HasPrefix(k, "hook ") {
				x.out.Pre++
				break
			}
		}
	})
}

// ------------------------------------------------------------------------ C05

func init() {
	define(&propDef{
		id: "C05", sched: 16, batch: []int{1, 5, 60}, quick: 30, pool: [3]int{8, 8, 300},
		gen: genC05, run: runC05, shrink: shrinkOps,
		rule: "A run is 2-4 simulated goroutines mixing conversions through every entry point with registrations that fail (plugin Init errors, invalid plugin options, nameless plugins, failing converter options, missing base or handlers) or succeed, under one seeded schedule; call/return stamps decide which conversions must report which error. Non-trivial: a failing configuration and a preemption; distinct: hash of scenario and switch sequence.",
	})
}

func genC05(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	ps := p.pickSpec(r)
	for p.Specs[ps].Pkg || !slices.Contains(p.Specs[ps].Plugins, "base") { // "commonmark" without "base" is an error of its own
		ps = p.pickSpec(r)
	}
	ep.Specs = []Spec{p.Specs[ps]}
	ep.P["kind"] = r.PickI(0, 0, 0, 0, 0, 1, 2, 3, 4) // 1: no handlers yet, 2: base missing, 3: failing option at construction, 4: handlers but no plugins
	e := addEntry(ep, p, 0, p.pick(r, ps))
	id := 0
	for t := r.In(2, 4); t > 0; t-- {
		var ops []Op
		for k := r.In(1, 4); k > 0; k-- {
			op := Op{K: "conv", E: e, Via: vias[r.N(len(vias))]}
			if r.P(40) {
				id++
				op = Op{K: r.Pick("fail", "fail", "failwrap", "bundled", "nameless", "ok", "ok"), A: id, B: r.N(8)}
				if r.P(40) {
					op.Via = failKinds[r.N(len(failKinds))]
				}
				switch ep.P["kind"] {
				case 1, 2:
					op.K = r.Pick("ok", "repair", "repair", "fail")
				case 4:
					op.K = r.Pick("cm", "cm", "cm", "repair", "ok", "fail")
				}
			}
			ops = append(ops, op)
		}
		ep.Tasks = append(ep.Tasks, ops)
	}
	ep.Final = []Op{{K: "conv", E: e, Via: r.Pick("string", "node", "reader")}, {K: "conv", E: e, Via: "string"}}
	return ep
}

type cfgErr struct{ id int }

func (e *cfgErr) Error() string { return fmt.Sprintf("configuration error %d", e.id) }

type c05Conv struct {
	inv, ret int64
	out      string
	raw      []byte
	err      error
	want     string
	who      string
}
type c05Reg struct {
	op       Op
	inv, ret int64
	err      error // the error raised, to be found with errors.Is
}

func runC05(x *run) {
	kind := x.ep.P["kind"]
	var regs []*c05Reg
	var convsDone []*c05Conv
	var conv *converter.Converter
	switch kind {
	case 1:
		conv = converter.NewConverter()
	case 2:
		conv = converter.NewConverter(converter.WithPlugins(commonmark.NewCommonmarkPlugin()))
	case 3:
		g := &c05Reg{op: Op{K: "fail"}, inv: -2, ret: -1, err: &cfgErr{0}}
		regs = append(regs, g)
		conv = converter.NewConverter(
			converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()),
			func(*converter.Converter) error { return fmt.Errorf("option: %w", g.err) },
			converter.WithPlugins(table.NewTablePlugin()),
		)
	case 4:
		conv = converter.NewConverter()
		if x.ep.Entries[0].Domain != "" {
			conv.Register.RendererFor("p", converter.TagTypeBlock, base.RenderAsHTML, 50)
		} else {
			conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
				return converter.RenderTryNext
			}, 900)
		}
	default:
		conv = x.ep.Specs[0].build()
	}
	do := func(g *c05Reg, c *c05Conv, ti, oi int, op Op) {
		if c == nil {
			g.inv = vsim.Now()
			switch op.K {
			case "fail", "failwrap":
				conv.Register.Plugin(&simPlugin{
					name: func() string {
						switch op.B {
						case 0, 1:
							return "identity" // the name of a plugin that may have been registered already
						case 2:
							return "bad"
						}
						return fmt.Sprintf("bad%d", op.A)
					},
					init: func(conv *converter.Converter) error {
						vsim.YS()
						if op.K == "fail" {
							return g.err
						}
						return fmt.Errorf("cannot start: %w", g.err)
					},
				})
			case "bundled":
				conv.Register.Plugin(badBundled(op.B))
			case "nameless":
				conv.Register.Plugin(&simPlugin{
					name: func() string { return "" },
					init: func(conv *converter.Converter) error { return nil },
				})
			case "ok":
				if op.B%2 == 0 {
					regIdentity(conv, "plugin", 700)
				} else {
					conv.Register.Plugin(strikethrough.NewStrikethroughPlugin())
				}
			case "cm":
				conv.Register.Plugin(commonmark.NewCommonmarkPlugin())
			case "repair":
				if kind == 1 {
					conv.Register.Plugin(base.NewBasePlugin())
					conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
						return converter.RenderTryNext
					}, 900)
				} else {
					conv.Register.Plugin(base.NewBasePlugin())
				}
			}
			g.ret = vsim.Now()
			return
		}
		e := x.ep.Entries[op.E]
		tok := x.tok(ti, oi)
		c.want = fill(e.Out, tok)
		c.inv = vsim.Now()
		c.out, c.raw, c.err = convertVia(conv, op.Via, fill(e.Doc, tok), domainOpts(fill(e.Domain, tok), -1)...)
		c.ret = vsim.Now()
	}
	mk := func(ti, oi int, op Op) (*c05Reg, *c05Conv) {
		if op.K == "conv" {
			c := &c05Conv{who: fmt.Sprintf("conversion %d of task %d (%s)", oi, ti, op.Via)}
			convsDone = append(convsDone, c)
			return nil, c
		}
		g := &c05Reg{op: op, inv: 1 << 60, ret: 1 << 60}
		if op.K == "fail" || op.K == "failwrap" {
			g.err = &cfgErr{op.A}
			if op.Via != "" { // one that has a meaning elsewhere
				g.err = failErr(op.Via)
			}
		}
		regs = append(regs, g)
		return g, nil
	}
	for ti, ops := range x.ep.Tasks {
		gs := make([]*c05Reg, len(ops))
		cs := make([]*c05Conv, len(ops))
		for oi, op := range ops {
			gs[oi], cs[oi] = mk(ti, oi, op)
		}
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				do(gs[oi], cs[oi], ti, oi, op)
			}
		})
	}
	var fin []func()
	for oi, op := range x.ep.Final {
		g, c := mk(62, oi, op)
		fin = append(fin, func() { do(g, c, 62, oi, op) })
	}
	x.final(func() {
		for _, f := range fin {
			f()
		}
	})
	x.after = append(x.after, func() { x.c05Check(kind, regs, convsDone) })
}

func badBundled(n int) converter.Plugin {
	switch n {
	case 0:
		return commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("x"))
	case 1:
		return commonmark.NewCommonmarkPlugin(commonmark.WithStrongDelimiter("*"))
	case 2:
		return commonmark.NewCommonmarkPlugin(commonmark.WithHorizontalRule("--"))
	case 3:
		return commonmark.NewCommonmarkPlugin(commonmark.WithBulletListMarker("x"))
	case 4:
		return commonmark.NewCommonmarkPlugin(commonmark.WithCodeBlockFence("`"))
	case 5:
		return commonmark.NewCommonmarkPlugin(commonmark.WithHeadingStyle("x"))
	case 6:
		return table.NewTablePlugin(table.WithSpanCellBehavior("x"))
	}
	return table.NewTablePlugin(table.WithNewlineBehavior("x"), table.WithHeaderPromotion(true))
}

func (x *run) c05Check(kind int, regs []*c05Reg, cs []*c05Conv) {
	for _, c := range cs {
		must, can := false, false
		anyErr := false // a failure without an identity of its own
		match := false
		repaired, repairing := kind != 1 && kind != 2, false
		broken, breaking := kind == 1 || kind == 2, false
		for _, g := range regs {
			before, overlaps := g.ret < c.inv, g.inv < c.ret
			switch g.op.K {
			case "fail", "failwrap", "bundled", "nameless":
				must = must || before
				if overlaps {
					can = true
					switch {
					case g.err == nil && g.op.K == "nameless":
						anyErr = true
					case g.err == nil:
						var v *commonmark.ValidateConfigError
						if g.op.B <= 5 {
							match = match || errors.As(c.err, &v)
						} else {
							anyErr = true
						}
					case c.err != nil:
						match = match || errors.Is(c.err, g.err)
					}
				}
			case "repair":
				if before {
					repaired = true
				}
				repairing = repairing || overlaps
			case "cm":
				broken = broken || before
				breaking = breaking || overlaps
			case "ok":
				// a renderer of any plugin makes the "no handlers" error go away
				if kind == 1 && overlaps {
					repairing = true
				}
			}
		}
		if c.err != nil && (c.out != "" || len(c.raw) > 0) {
			x.violate("both", "%s returned markdown together with an error", c.who)
		}
		if c.err == nil && must {
			x.violate("silent", "%s started after a configuration had failed, but returned no error (%d bytes)", c.who, len(c.out))
		}
		if kind == 4 {
			repaired = false
			for _, g := range regs {
				repaired = repaired || g.op.K == "repair" && g.ret < c.inv
			}
		}
		structural := !repaired && (broken || breaking) // may be the reason of an error
		if c.err == nil && !repaired && broken && !repairing {
			x.violate("silent", "%s reported no error although no handlers or no base plugin were registered (%d bytes)", c.who, len(c.out))
		}
		if c.err != nil {
			x.probe("reported")
			if !can && !structural {
				x.violate("spurious", "%s failed although its configuration is valid: %v", c.who, c.err)
			}
			if can && !structural && !anyErr && !match {
				x.violate("identity", "%s reported an error that wraps none of the configuration errors raised: %v", c.who, c.err)
			}
			if must && structural && !anyErr && !match {
				x.violate("identity", "%s reported an error that wraps none of the configuration errors raised: %v", c.who, c.err)
			}
		} else if kind == 0 && c.out != c.want && !hasOK(regs) {
			x.violate("output", "%s differs from its solo result: %s", c.who, diffAt(c.out, c.want))
		}
	}
}

func hasOK(regs []*c05Reg) bool {
	for _, g := range regs {
		if g.op.K == "ok" {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------------ C06

func init() {
	define(&propDef{
		id: "C06", sched: 14, batch: []int{1, 5, 60}, quick: 30, pool: [3]int{14, 10, 500},
		gen: genC06, run: runC06, shrink: shrinkOps,
		rule: "A run is 1-4 simulated goroutines converting and registering on shared converters; seeded conversions have a panic armed at the k-th call of one caller-supplied function (pre-renderer, renderer, text transformer, unescaper, post-renderer, state update, reader, option, context value, plugin Name/Init, table cell content). Non-trivial: a panic was raised; distinct: hash of scenario and switch sequence.",
	})
}

func c06Kind(r *R) int { return max(0, r.In(-5, 13)) }

func genC06(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	ps := p.pickSpec(r)
	ep.Specs = []Spec{p.Specs[ps]}
	ep.Specs[0].Pkg = false
	if len(ep.Specs[0].Plugins) == 0 {
		ep.Specs[0].Plugins = []string{"base", "commonmark"}
	}
	id := 0
	for t := r.In(1, 4); t > 0; t-- {
		var ops []Op
		for k := r.In(1, 4); k > 0; k-- {
			switch r.N(7) {
			case 0:
				id++
				ops = append(ops, Op{K: "reg", A: id, B: r.In(1, 900)})
			case 1:
				ops = append(ops, Op{K: "plugin", S: r.Pick("init", "name"), A: 1, B: r.N(1000), C: c06Kind(r)})
			default:
				op := Op{K: "conv", E: addEntry(ep, p, 0, p.pick(r, ps)), Via: vias[r.N(len(vias))]}
				if r.P(55) {
					op.S = hookNames[r.N(len(hookNames))]
					op.A = r.PickI(1, 1, 1, 2, 3, 5, 8, 13, 21)
					op.B, op.C = r.N(1000), c06Kind(r)
				}
				ops = append(ops, op)
			}
		}
		ep.Tasks = append(ep.Tasks, ops)
	}
	if r.P(4) {
		// a long row of panics, deep inside the document
		pe := p.deep(r, ps)
		if r.P(40) {
			pe = p.pick(r, ps)
		}
		op := Op{K: "conv", E: addEntry(ep, p, 0, pe), Via: vias[r.N(len(vias))], S: r.Pick("rend", "text", "text", "unesc", "upd", "reader", "post", "opt"), A: 1, N: r.PickI(20, 70, 140, 300, 500)}
		if n := dictInt(r, 500); n > 0 && usesDict(r, 10, 50) {
			op.N = n
		}
		if op.S == "rend" {
			op.A = r.In(5, 40)
		}
		t := r.N(len(ep.Tasks))
		ep.Tasks[t] = append(ep.Tasks[t], op)
	}
	ep.Final = []Op{{K: "conv", E: addEntry(ep, p, 0, p.pick(r, ps)), Via: vias[r.N(len(vias))]}}
	return ep
}

type c06Val struct{ n int }

// c06Err is an error that claims to be any other.
type c06Err struct{ n int }

func (c06Err) Error() string   { return "" }
func (c06Err) Is(error) bool   { return true }
func (c06Err) Timeout() bool   { return true }
func (c06Err) Temporary() bool { return true }

type c06Stringer struct{ s []string }

func (c06Stringer) String() string { panic("String of a panic value called") }

// c06Value is what a caller's code panics with.
func c06Value(kind, n int) any {
	switch kind {
	case 1:
		return fmt.Errorf("error %d", n)
	case 2: // a map that was never made, an index out of range, ...
		v, _ := safely(func() {
			var m map[string]int
			var p *c06Val
			l := []int{1}
			var a any = n
			switch n % 5 {
			case 0:
				m["a"] = n
			case 1:
				l[0] = l[n+1]
			case 2:
				p.n = n
			case 3:
				_ = a.(string)
			case 4:
				_ = n / (l[0] - 1)
			}
		})
		return v
	case 3:
		return fmt.Sprintf("text %d", n)
	case 4:
		return n
	case 5:
		return []error{io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, os.ErrClosed, io.ErrNoProgress, httpAbort}[n%7]
	case 6:
		if n%2 == 0 {
			return failErr(failKinds[n/2%len(failKinds)])
		}
		return fmt.Errorf("wrapped %d: %w", n, io.EOF)
	case 7:
		return []int{n, n}
	case 8:
		return c06Err{n}
	case 9:
		return &c06Stringer{}
	case 10:
		return converter.RenderSuccess
	case 11:
		return false
	case 12:
		return (*c06Err)(nil)
	case 13:
		return c06Val{n}
	}
	return &c06Val{n}
}

func c06Show(v any) string {
	if _, ok := v.(*c06Stringer); ok {
		return "a value that cannot be printed"
	}
	return fmt.Sprintf("%T %v", v, v)
}

// c06Same tells whether a caller got the very value of its panic.
func c06Same(got, want any) bool {
	if reflect.TypeOf(got) != reflect.TypeOf(want) {
		return false
	}
	if got == nil || reflect.TypeOf(got).Comparable() {
		return got == want
	}
	return reflect.DeepEqual(got, want)
}

// c06Again converts the tree that a panic has left half-way converted, and a copy of it.
func c06Again(x *run, conv *converter.Converter, tree *html.Node, domain, who string) {
	trees := []*html.Node{tree, cloneTree(tree)}
	var outs [2]string
	for i, t := range trees {
		var err error
		var pv any
		var stack string
		withCell(&cell{x: x, op: &Op{}, conv: conv}, func() {
			pv, stack = safely(func() { outs[i], err = hookedNode(conv, t, domain) })
		})
		if pv != nil {
			x.note("spread", "%s panicked; converting its tree again raised nothing itself but panicked: %v at %s", who, pv, stackTop(stack))
			return
		}
		if err != nil {
			x.note("error", "%s panicked; converting its tree again failed: %v", who, err)
			return
		}
	}
	x.probe("tree converted again")
	if outs[0] != outs[1] {
		x.note("output", "%s panicked; the tree it left converts differently from a copy of that tree: %s", who, diffAt(outs[0], outs[1]))
	}
}

func cloneTree(n *html.Node) *html.Node {
	m := &html.Node{Type: n.Type, DataAtom: n.DataAtom, Data: n.Data, Namespace: n.Namespace, Attr: slices.Clone(n.Attr)}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		m.AppendChild(cloneTree(c))
	}
	return m
}

func runC06(x *run) {
	conv := x.ep.Specs[0].build()
	addHooks(conv)
	var regs []*c02Reg
	do := func(ti, oi int, op *Op, g *c02Reg) {
		switch op.K {
		case "reg":
			g.inv = vsim.Now()
			conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
				if c := curCell(); c != nil {
					c.seen = append(c.seen, op.A)
				}
				return b
			}, op.B)
			g.ret = vsim.Now()
		case "plugin":
			c := &cell{x: x, op: op, conv: conv, val: c06Value(op.C, op.B+oi+7*ti)}
			var pv any
			withCell(c, func() { pv, _ = safely(func() { c04Plugin(conv, false) }) })
			if !c06Same(pv, c.val) {
				x.note("panic", "a panic in a plugin's %s reached the caller of Register.Plugin as %s", op.S, c06Show(pv))
			}
			x.probe("panicked")
		case "conv":
			e := x.ep.Entries[op.E]
			tok := x.tok(ti, oi)
			c := &cell{x: x, op: op, conv: conv, val: c06Value(op.C, op.B+oi+7*ti)}
			var out string
			var err error
			var pv any
			var stack string
			var tree *html.Node
			inv := vsim.Now()
			withCell(c, func() {
				pv, stack = safely(func() {
					if op.Via == "node" {
						if tree, err = html.Parse(strings.NewReader(fill(e.Doc, tok))); err == nil {
							out, err = hookedNode(conv, tree, fill(e.Domain, tok))
						}
						return
					}
					out, err = hookedConvert(conv, op.Via, fill(e.Doc, tok), fill(e.Domain, tok))
				})
			})
			who := fmt.Sprintf("conversion %d of task %d (%s)", oi, ti, op.Via)
			if c.fired {
				x.probe("panicked")
				if pv == nil && op.S == "reader" && err != nil && out == "" {
					// html.Parse reports a panic of its reader as an error
				} else if pv == nil {
					x.note("swallowed", "%s returned (%d bytes, error %v) although %s panicked", who, len(out), err, op.S)
				} else if !c06Same(pv, c.val) {
					x.note("panic", "%s: the panic of %s (%s) reached the caller as %s at %s", who, op.S, c06Show(c.val), c06Show(pv), stackTop(stack))
				}
				if tree != nil && op.N == 0 {
					c06Again(x, conv, tree, fill(e.Domain, tok), who)
				}
				return
			}
			want := fill(e.Out, tok)
			switch {
			case pv != nil:
				x.note("spread", "%s raised nothing itself but panicked: %v at %s", who, pv, stackTop(stack))
			case err != nil:
				x.note("error", "%s failed: %v", who, err)
			case out != want:
				x.note("output", "%s differs from its solo result: %s", who, diffAt(out, want))
			}
			for _, g := range regs {
				if g.ret != 0 && g.ret < inv {
					found := false
					for _, id := range c.seen {
						found = found || id == g.op.A
					}
					if !found {
						x.note("lost", "%s started after registration %d had returned but did not use it", who, g.op.A)
					}
				}
			}
		}
	}
	for ti, ops := range x.ep.Tasks {
		gs := make([]*c02Reg, len(ops))
		for oi := range ops {
			if ops[oi].K == "reg" {
				gs[oi] = &c02Reg{op: ops[oi]}
				regs = append(regs, gs[oi])
			}
		}
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi := range ops {
				sched()
				do(ti, oi, &ops[oi], gs[oi])
				for n := 1; n < ops[oi].N; n++ {
					do(ti, oi, &ops[oi], gs[oi])
				}
			}
		})
	}
	fin := x.ep.Final
	x.final(func() {
		for oi := range fin {
			do(62, oi, &fin[oi], nil)
		}
	})
	x.after = append(x.after, func() {
		x.out.Triv = x.probes["panicked"] == 0
		x.out.Pre++
		x.faults["panic in caller code"] += x.probes["panicked"]
	})
}

// ------------------------------------------------------------------------ C07

func init() {
	define(&propDef{
		id: "C07", sched: 20, batch: []int{1, 5, 60}, quick: 30, pool: [3]int{14, 10, 900},
		gen: genC07, run: runC07, shrink: shrinkOps,
		rule: "A run is 1-3 simulated goroutines converting with contexts of their own (none, cancellable, with deadline, already ended) and one that cancels or expires them, under one seeded schedule that can put the cancellation between any two statements of the library. Non-trivial: a context ended while its conversion ran; distinct: hash of scenario and switch sequence.",
	})
}

func genC07(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	convTasks(r, p, ep, r.In(1, 3), 2)
	var cancels []Op
	k := 0
	for t := range ep.Tasks {
		for i := range ep.Tasks[t] {
			op := &ep.Tasks[t][i]
			op.A = 0
			op.B = r.PickI(0, 1, 2, 2, 2, 3, 4, 5, 5, 6, 7) // none, std, sim, sim with deadline, already ended, timeout, with a cause, detached from an ended one
			op.L = []int{k}
			if d := dictDur(r); op.B == 5 && d > 0 && usesDict(r, 10, 60) {
				op.N = int(min(d, 1<<40)) // ends around a duration of the code
				op.N += op.N / 4 * r.In(-3, 3)
			}
			if op.B != 0 && r.P(75) && (op.B != 5 || r.P(30)) {
				cancels = append(cancels, Op{K: "cancel", A: k, B: r.N(30)})
			}
			k++
		}
	}
	for i := range cancels {
		j := r.N(i + 1)
		cancels[i], cancels[j] = cancels[j], cancels[i]
	}
	ep.P["n"] = k
	if len(cancels) > 0 {
		n := r.In(1, 2)
		for i := 0; i < n; i++ {
			var l []Op
			for j, c := range cancels {
				if j%n == i {
					l = append(l, c)
				}
			}
			if len(l) > 0 {
				ep.Tasks = append(ep.Tasks, l)
			}
		}
	}
	return ep
}

// simCtx is a context whose end is decided by the simulation.
type simCtx struct {
	done     chan struct{}
	err      error
	deadline time.Time
	hasDL    bool
	id       string
	end      error
	endAt    int64
}

type simCtxKey struct{}

func (c *simCtx) Deadline() (time.Time, bool) { return c.deadline, c.hasDL }
func (c *simCtx) Done() <-chan struct{}       { return c.done }
func (c *simCtx) Err() error                  { return c.err }
func (c *simCtx) Value(k any) any {
	if _, ok := k.(simCtxKey); ok {
		return c.id
	}
	return nil
}
func (c *simCtx) cancel() {
	if c.err == nil {
		c.endAt = vsim.Now()
		c.err = c.end
		close(c.done)
	}
}

type c07Ctx struct {
	ctx    context.Context
	id     string
	cancel func()
	begin  func()
	stop   func()
	endAt  int64
}

func runC07(x *run) {
	convs := x.convs()
	n := x.ep.P["n"]
	ctxs := make([]*c07Ctx, n)
	for _, ops := range x.ep.Tasks {
		for _, op := range ops {
			if op.K != "conv" || len(op.L) == 0 {
				continue
			}
			i := op.L[0]
			c := &c07Ctx{id: fmt.Sprintf("c%d", i), cancel: func() {}}
			ctxs[i] = c
			switch op.B {
			case 1:
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), simCtxKey{}, c.id))
				c.ctx = ctx
				c.cancel = func() {
					if c.endAt == 0 {
						c.endAt = vsim.Now()
					}
					cancel()
				}
			case 6:
				ctx, cancel := vcontext.WithCancelCause(vcontext.WithValue(vcontext.Background(), simCtxKey{}, c.id))
				c.ctx = ctx
				c.cancel = func() {
					if c.endAt == 0 {
						c.endAt = vsim.Now()
					}
					cancel(errors.New("the server shuts down"))
				}
			case 7: // never ends
				ctx, cancel := vcontext.WithCancel(vcontext.WithValue(vcontext.Background(), simCtxKey{}, c.id))
				cancel()
				c.ctx = vcontext.WithoutCancel(ctx)
			case 5: // begins with its conversion
				c.begin = func() {
					d := time.Duration(1+(i*7919)%2000) * time.Millisecond
					if op.N > 0 {
						d = time.Duration(op.N)
					}
					c.ctx, c.stop = vcontext.WithTimeout(vcontext.WithValue(vcontext.Background(), simCtxKey{}, c.id), d)
				}
				c.cancel = func() {
					if c.stop != nil {
						if c.endAt == 0 && c.ctx.Err() == nil {
							c.endAt = vsim.Now()
						}
						c.stop()
					}
				}
			case 2, 3, 4:
				s := &simCtx{done: make(chan struct{}), id: c.id, end: context.Canceled}
				if op.B == 3 {
					s.end = context.DeadlineExceeded
					s.deadline, s.hasDL = time.Date(2030, 1, 2, 3, 4, 5, i, time.UTC), true
				}
				c.ctx = s
				c.cancel = func() { s.cancel(); c.endAt = s.endAt }
				if op.B == 4 {
					c.endAt = -1
					s.err = s.end
					s.endAt = -1
					close(s.done)
				}
			}
		}
	}
	// handlers compare the ctx they get with the one their conversion was given
	watch := func(where string, ctx converter.Context) {
		c := curCell()
		if c == nil || c.ti >= n || ctxs[c.ti] == nil {
			return
		}
		own := ctxs[c.ti].ctx
		if own == nil {
			own = context.Background()
		}
		before := own.Err()
		got := ctx.Err()
		after := own.Err()
		if got == nil && before != nil && ctx.Done() != own.Done() {
			// a context derived from the caller's learns of its end from a goroutine
			vsim.Quiesce()
			got, after = ctx.Err(), own.Err()
			c.x.probe("derived context")
		}
		if got != before && got != after {
			c.x.note("ctx", "%s: ctx.Err() is %v, the conversion's own context says %v", where, got, after)
		}
		if got != nil {
			c.x.probe("handler saw the end")
		}
		if ctx.Done() != own.Done() {
			select {
			case <-ctx.Done():
				if own.Err() == nil {
					c.x.note("ctx", "%s: ctx.Done() is closed, the conversion's own context is not", where)
				}
			default:
				if got != nil || before != nil {
					c.x.note("ctx", "%s: ctx.Done() is open, the conversion's own context has ended", where)
				}
			}
		}
		d1, ok1 := ctx.Deadline()
		d2, ok2 := own.Deadline()
		if ok1 != ok2 || !d1.Equal(d2) {
			c.x.note("ctx", "%s: ctx.Deadline() is %v %v, want %v %v", where, d1, ok1, d2, ok2)
		}
		if v := ctx.Value(simCtxKey{}); v != own.Value(simCtxKey{}) {
			c.x.note("ctx", "%s: ctx.Value gives %v, want %v", where, v, own.Value(simCtxKey{}))
		}
	}
	for _, conv := range convs {
		if conv == nil {
			continue
		}
		conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) { watch("pre-renderer", ctx) }, 20)
		conv.Register.PreRenderer(func(ctx converter.Context, doc *htmlNode) { watch("pre-renderer", ctx) }, 2000)
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *htmlNode) converter.RenderStatus {
			watch("renderer", ctx)
			return converter.RenderTryNext
		}, 20)
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string { watch("text transformer", ctx); return s }, 20)
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { watch("post-renderer", ctx); return b }, 20)
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { watch("post-renderer", ctx); return b }, 2000)
	}
	for ti, ops := range x.ep.Tasks {
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				if op.K == "cancel" {
					for i := 0; i < op.B; i++ {
						vsim.YS()
					}
					if op.A < n && ctxs[op.A] != nil {
						ctxs[op.A].cancel()
					}
					continue
				}
				e := x.ep.Entries[op.E]
				tok := x.opTok(ti, oi, op)
				own := ctxs[op.L[0]]
				if own.begin != nil {
					own.begin()
				}
				opts := domainOpts(fill(e.Domain, tok), -1)
				if own.ctx != nil {
					opts = append(opts, converter.WithContext(own.ctx))
				}
				inv := vsim.Now()
				var out string
				var err error
				var raw []byte
				withCell(&cell{x: x, ti: op.L[0]}, func() {
					out, raw, err = convertVia(convs[op.C], op.Via, fill(e.Doc, tok), opts...)
				})
				ret := vsim.Now()
				ended := own.endAt != 0 && own.endAt < ret
				if own.begin != nil && own.ctx.Err() != nil {
					ended = true
					if own.endAt == 0 {
						own.endAt = inv + 1
						x.faults["timeout during a conversion"]++
					}
				}
				if ended && own.endAt > inv {
					x.probe("ended during the conversion")
				}
				want := fill(e.Out, tok)
				who := fmt.Sprintf("conversion %d of task %d (%s)", oi, ti, op.Via)
				switch {
				case err == nil && out != want:
					x.note("truncated", "%s returned altered markdown without an error (context ended: %v): %s", who, ended, diffAt(out, want))
				case err != nil && !ended:
					x.note("spurious", "%s failed although its context had not ended: %v", who, err)
				case err != nil && !errors.Is(err, own.ctx.Err()):
					x.note("identity", "%s failed with an error that does not match its context's: %v", who, err)
				case err != nil && (out != "" || len(raw) > 0):
					x.note("both", "%s returned markdown together with an error", who)
				}
			}
		})
	}
	x.after = append(x.after, func() {
		x.faults["context ended during a conversion"] += x.probes["ended during the conversion"]
		x.out.Triv = x.probes["ended during the conversion"] == 0
	})
}

var _ = io.EOF
