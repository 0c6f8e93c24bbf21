package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"unicode/utf8"

	md "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// Spec is a converter configuration (or the package-level functions).
type Spec struct {
	Pkg      bool     `json:"pkg,omitempty"`
	Plugins  []string `json:"plugins,omitempty"`
	Em       string   `json:"em,omitempty"`
	Strong   string   `json:"strong,omitempty"`
	HR       string   `json:"hr,omitempty"`
	Bullet   string   `json:"bullet,omitempty"`
	Fence    string   `json:"fence,omitempty"`
	Heading  string   `json:"heading,omitempty"`
	EmptyH   string   `json:"emptyhref,omitempty"`
	EmptyC   string   `json:"emptycontent,omitempty"`
	NoEnd    bool     `json:"nolistend,omitempty"`
	Strike   string   `json:"strike,omitempty"`
	TSpan    string   `json:"tspan,omitempty"`
	TNewline string   `json:"tnewline,omitempty"`
	TPad     string   `json:"tpad,omitempty"`
	TSkip    bool     `json:"tskip,omitempty"`
	TPromote bool     `json:"tpromote,omitempty"`
	TPres    bool     `json:"tpres,omitempty"`
	NoEscape bool     `json:"noescape,omitempty"`
	AsHTML   []string `json:"ashtml,omitempty"` // tag names rendered by the base renderers
	Types    []string `json:"types,omitempty"`  // extra tag types, "tag=type"
}

// bareSpecs have no base plugin, so that less happens to the output afterwards.
var bareSpecs = []Spec{
	{Plugins: []string{"strikethrough"}},
	{Plugins: []string{"table"}, NoEscape: true},
	{Plugins: []string{"dump"}},
	{Plugins: []string{"dump", "table", "strikethrough"}, NoEscape: true},
	{Plugins: []string{"base", "table"}, TNewline: "preserve"},
	{Plugins: []string{"base", "dump"}, NoEscape: true},
}

// wideSpecs reach the parts that random configurations rarely reach together.
var wideSpecs = []Spec{
	{Plugins: []string{"base", "commonmark", "table", "strikethrough", "notes"}, Heading: "setext", TPromote: true,
		AsHTML: []string{"u:html", "sub:wrap", "kbd:plain", "custom-block:html", "custom-el:wrap", "small:plain", "table:html"},
		Types:  []string{"custom-block=inline", "custom-block=block", "small=block", "u=block", "mark=remove"}},
	{Plugins: []string{"base", "commonmark", "notes"}, Fence: "~~~", EmptyH: "skip", EmptyC: "skip"},
}

// badSpecs make converters whose conversions all fail, each in its own way.
var badSpecs = []Spec{
	{}, {Plugins: []string{"base"}}, {Plugins: []string{"commonmark"}},
	{Plugins: []string{"base", "commonmark"}, Fence: "``"},
	{Plugins: []string{"base", "commonmark"}, Em: "__"},
	{Plugins: []string{"base", "commonmark"}, HR: "--", Bullet: "x"},
	{Plugins: []string{"base", "commonmark", "table"}, TSpan: "bogus"},
	{Plugins: []string{"base", "commonmark", "table"}, TNewline: "bogus", TPad: "bogus"},
	{Plugins: []string{"base", "commonmark", "noname"}},
	{Plugins: []string{"base", "failing", "commonmark", "noname"}},
}

type oddPlugin struct {
	name string
	err  error
}

func (p oddPlugin) Name() string                         { return p.name }
func (p oddPlugin) Init(conv *converter.Converter) error { return p.err }

// notesPlugin keeps what it needs in the state of the conversion: it numbers
// the links and lists the words in bold afterwards.
type notesPlugin struct{}

func (notesPlugin) Name() string { return "notes" }
func (notesPlugin) Init(conv *converter.Converter) error {
	conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
		converter.SetState(ctx, "notes.n", 0)
	}, converter.PriorityEarly)
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		if n.Type == html.ElementNode && (n.Data == "a" || n.Data == "strong" || n.Data == "b") {
			converter.UpdateState(ctx, "notes.n", func(i int) int { return i + 1 })
			converter.UpdateState(ctx, "notes.l", func(l []string) []string {
				return append(l, fmt.Sprintf("%s%d@%s", n.Data, converter.GetState[int](ctx, "notes.n"), converter.GetDomain(ctx)))
			})
			sub := ctx.WithValue(notesPlugin{}, n.Data)
			if v, _ := ctx.Value(notesPlugin{}).(string); v != "" {
				w.WriteString("{" + v + "}")
			}
			var buf bytes.Buffer
			if n.Data == "b" {
				buf.Write(ctx.EscapeContent([]byte("*\x00")))
			}
			sub.RenderChildNodes(sub, &buf, n)
			w.Write(bytes.TrimSpace(buf.Bytes()))
			return converter.RenderSuccess
		}
		return converter.RenderTryNext
	}, converter.PriorityEarly+50)
	conv.Register.EscapedChar('>', '%')
	conv.Register.UnEscaper(func(b []byte, i int) int {
		if b[i] == '%' {
			return 1
		}
		return -1
	}, converter.PriorityStandard)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
		l := converter.GetState[[]string](ctx, "notes.l")
		if converter.GetState[string](ctx, "notes.none") != "" || len(l) != converter.GetState[int](ctx, "notes.n") {
			return append(b, "\n\nSTATE"...)
		}
		return append(b, "\n\n"+strings.Join(l, " ")...)
	}, converter.PriorityLate)
	return nil
}

// dumpPlugin renders elements by their names and keeps the output as it is.
type dumpPlugin struct{}

func (dumpPlugin) Name() string { return "dump" }
func (dumpPlugin) Init(conv *converter.Converter) error {
	conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { collapse.Collapse(doc, nil) }, converter.PriorityLate+1)
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		if n.Type != html.ElementNode {
			return converter.RenderTryNext
		}
		w.WriteByte('(')
		w.WriteString(n.Data)
		w.WriteRune(' ')
		ctx.RenderChildNodes(ctx, w, n)
		w.Write([]byte(")"))
		return converter.RenderSuccess
	}, converter.PriorityLate)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { return b }, converter.PriorityStandard)
	return nil
}

func genSpec(r *R) Spec {
	if r.P(20) {
		return Spec{Pkg: true}
	}
	if r.P(12) {
		return bareSpecs[r.N(len(bareSpecs))]
	}
	s := Spec{Plugins: []string{"base", "commonmark"}}
	if r.P(10) {
		s.Plugins = []string{"commonmark", "base"}
	}
	if r.P(60) {
		s.Plugins = append(s.Plugins, "table")
	}
	if r.P(60) {
		s.Plugins = append(s.Plugins, "strikethrough")
	}
	s.Em = r.Pick("", "", "_", "*")
	s.Strong = r.Pick("", "", "__", "**")
	s.HR = r.Pick("", "", "---", "***", "_ _ _")
	s.Bullet = r.Pick("", "", "-", "+", "*")
	s.Fence = r.Pick("", "", "```", "~~~")
	s.Heading = r.Pick("", "", "atx", "setext")
	s.EmptyH = r.Pick("", "", "render", "skip")
	s.EmptyC = r.Pick("", "", "render", "skip")
	s.NoEnd = r.P(25)
	s.Strike = r.Pick("", "", "~~", "~", "==")
	s.TSpan = r.Pick("", "empty", "mirror", "mirror")
	s.TNewline = r.Pick("", "skip", "preserve", "preserve")
	s.TPad = r.Pick("", "aligned", "minimal", "none")
	s.TSkip = r.P(30)
	s.TPromote = r.P(40)
	s.TPres = r.P(30)
	s.NoEscape = r.P(12)
	if r.P(30) {
		s.AsHTML = append(s.AsHTML, r.Pick("u", "sub", "kbd", "table", "custom-el", "blockquote")+":"+r.Pick("html", "wrap", "plain"))
	}
	if r.P(30) {
		for i := r.In(1, 3); i > 0; i-- {
			s.Types = append(s.Types, r.Pick("custom-el", "custom-block", "tr", "button", "span")+"="+r.Pick("block", "inline", "remove"))
		}
	}
	return s
}

func (s Spec) plugins() []converter.Plugin {
	var ps []converter.Plugin
	for _, p := range s.Plugins {
		switch p {
		case "base":
			ps = append(ps, base.NewBasePlugin())
		case "commonmark":
			var o []commonmark.OptionFunc
			if s.Em != "" {
				o = append(o, commonmark.WithEmDelimiter(s.Em))
			}
			if s.Strong != "" {
				o = append(o, commonmark.WithStrongDelimiter(s.Strong))
			}
			if s.HR != "" {
				o = append(o, commonmark.WithHorizontalRule(s.HR))
			}
			if s.Bullet != "" {
				o = append(o, commonmark.WithBulletListMarker(s.Bullet))
			}
			if s.Fence != "" {
				o = append(o, commonmark.WithCodeBlockFence(s.Fence))
			}
			switch s.Heading {
			case "atx":
				o = append(o, commonmark.WithHeadingStyle(commonmark.HeadingStyleATX))
			case "setext":
				o = append(o, commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext))
			}
			switch s.EmptyH {
			case "render":
				o = append(o, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorRender))
			case "skip":
				o = append(o, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip))
			}
			switch s.EmptyC {
			case "render":
				o = append(o, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorRender))
			case "skip":
				o = append(o, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip))
			}
			if s.NoEnd {
				o = append(o, commonmark.WithListEndComment(false))
			}
			ps = append(ps, commonmark.NewCommonmarkPlugin(o...))
		case "dump":
			ps = append(ps, dumpPlugin{})
		case "notes":
			ps = append(ps, notesPlugin{})
		case "noname":
			ps = append(ps, oddPlugin{})
		case "failing":
			ps = append(ps, oddPlugin{"failing", errors.New("no such font")})
		case "strikethrough":
			if s.Strike != "" {
				ps = append(ps, strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(s.Strike)))
			} else {
				ps = append(ps, strikethrough.NewStrikethroughPlugin())
			}
		case "table":
			ps = append(ps, table.NewTablePlugin(
				table.WithSpanCellBehavior(table.SpanCellBehavior(s.TSpan)),
				table.WithNewlineBehavior(table.NewlineBehavior(s.TNewline)),
				table.WithCellPaddingBehavior(table.CellPaddingBehavior(s.TPad)),
				table.WithSkipEmptyRows(s.TSkip),
				table.WithHeaderPromotion(s.TPromote),
				table.WithPresentationTables(s.TPres),
			))
		}
	}
	return ps
}

// Build makes a converter (nil for the package-level functions).
func (s Spec) Build() *converter.Converter {
	if s.Pkg {
		return nil
	}
	return s.build()
}

func (s Spec) build() *converter.Converter {
	if s.Pkg {
		s.Plugins = []string{"base", "commonmark"}
	}
	var conv *converter.Converter
	if s.NoEscape {
		conv = converter.NewConverter(converter.WithEscapeMode(converter.EscapeModeDisabled), converter.WithPlugins(s.plugins()...))
	} else {
		conv = converter.NewConverter(converter.WithPlugins(s.plugins()...))
	}
	for _, a := range s.AsHTML {
		tag, kind, _ := strings.Cut(a, ":")
		fn := base.RenderAsHTML
		switch kind {
		case "wrap":
			fn = base.RenderAsHTMLWrapper
		case "plain":
			fn = base.RenderAsPlaintextWrapper
		}
		tt := converter.TagTypeInline
		if len(tag)%2 == 1 {
			tt = converter.TagTypeBlock
		}
		conv.Register.RendererFor(tag, tt, fn, converter.PriorityEarly)
	}
	for i, a := range s.Types {
		tag, kind, _ := strings.Cut(a, "=")
		switch kind {
		case "block":
			conv.Register.TagType(tag, converter.TagTypeBlock, 400-i)
		case "inline":
			conv.Register.TagType(tag, converter.TagTypeInline, 400-i)
		default:
			conv.Register.TagType(tag, converter.TagTypeRemove, 400-i)
		}
	}
	return conv
}

// Entry is a (configuration, document, domain) triple with the result of
// converting it alone in a process of its own.
type Entry struct {
	Spec   int    `json:"spec"`
	Doc    string `json:"doc"`
	Domain string `json:"domain,omitempty"`
	Out    string `json:"out"`
	Err    string `json:"err,omitempty"`
	Bad    bool   `json:"bad,omitempty"`   // of a configuration that is not usable
	Steps  uint64 `json:"steps,omitempty"` // that the conversion took
}

// Pool is what the runs draw their work from.
type Pool struct {
	Specs   []Spec  `json:"specs"`
	Entries []Entry `json:"entries"`
	bySpec  [][]int
	bad     []int // entries whose conversion fails by configuration
}

func (p *Pool) index() {
	p.bySpec = make([][]int, len(p.Specs))
	for i, e := range p.Entries {
		if e.Err == "" {
			p.bySpec[e.Spec] = append(p.bySpec[e.Spec], i)
		} else if e.Bad && !strings.HasPrefix(e.Err, "panic") && !strings.HasPrefix(e.Err, "does not return") {
			p.bad = append(p.bad, i)
		}
	}
}

func loadPool(file string) *Pool {
	b, err := os.ReadFile(file)
	if err != nil {
		fail("pool: %v", err)
	}
	p := &Pool{}
	if err := json.Unmarshal(b, p); err != nil {
		fail("pool: %v", err)
	}
	p.index()
	return p
}

// pick chooses an entry of a configuration.
func (p *Pool) pick(r *R, spec int) int {
	l := p.bySpec[spec]
	i := l[r.N(len(l))]
	if n := len(p.Entries[i].Doc); n > 3000 && r.P(60) || n > 10_000 && r.P(70) {
		i = l[r.N(len(l))]
	}
	return i
}

// deep chooses the deeply nested entry of a configuration.
func (p *Pool) deep(r *R, spec int) int {
	for _, i := range p.bySpec[spec] {
		if strings.HasPrefix(p.Entries[i].Doc, deepStart) {
			return i
		}
	}
	return p.pick(r, spec)
}

const deepStart = "<div><div><div>"

func deepDoc(r *R) string {
	var b strings.Builder
	b.WriteString(deepStart)
	var close []string
	for i := r.In(10, 40); i > 0; i-- {
		t := r.Pick("div", "div", "section", "span", "custom-el", "u", "main")
		b.WriteString("<" + t + ">")
		close = append(close, t)
	}
	b.WriteString("deep *" + placeholder + "* text")
	for i := len(close) - 1; i >= 0; i-- {
		b.WriteString("</" + close[i] + ">")
	}
	b.WriteString("</div></div></div><p>after " + placeholder + "</p>")
	return b.String()
}

func (p *Pool) pickSpec(r *R) int {
	for {
		i := r.N(len(p.Specs))
		if len(p.bySpec[i]) > 2 {
			return i
		}
	}
}

func genPool(seed uint64, nspec, ndoc, max int) *Pool {
	p := &Pool{}
	r := NewR(seed, hashStr("pool"))
	for i := 0; i < nspec; i++ {
		s := genSpec(r)
		if i == 0 {
			s = Spec{Pkg: true}
		}
		if i == 1 {
			s = Spec{Plugins: []string{"base", "commonmark", "table", "strikethrough"}, TSpan: "mirror", TNewline: "preserve", TPromote: true}
		}
		if i >= 2 && nspec > 8 && i < 2+len(bareSpecs) && i < nspec/2 {
			s = bareSpecs[i-2]
		}
		if k := nspec - 1 - i; nspec > 8 && k < len(wideSpecs) {
			s = wideSpecs[k]
		}
		p.Specs = append(p.Specs, s)
		for j := 0; j < ndoc; j++ {
			m := r.PickI(40, 120, 300, 300, 700)
			if j == 0 {
				m = max
			}
			doc := genDoc(r, m)
			if j == 1 {
				doc = deepDoc(r)
			}
			if nspec > 8 {
				switch j {
				case 2:
					doc = tableDoc(r)
				case 3:
					doc = proseDoc(r)
				case 4:
					doc = twin(r, p.Entries[len(p.Entries)-1].Doc)
				case 5:
					if i%3 == 0 {
						doc = bigDoc(r, r.PickI(4000, 8100, 8100, 20_000, 66_000))
					}
				case 6, 7:
					doc = atlasDoc(r, r.PickI(60, 300, 800))
				}
			}
			if j > 4 && r.P(25) {
				doc = twin(r, p.Entries[len(p.Entries)-r.In(1, 3)].Doc)
			}
			if j != 1 && usesDict(r, 12, 40) {
				doc = seasoned(r, doc)
			}
			if m := ""; j != 1 && r.P(3) {
				if m = magic(r); utf8.ValidString(m) {
					doc = m + doc
				}
			}
			p.Entries = append(p.Entries, Entry{Spec: i, Doc: doc, Domain: r.Pick("", "", "https://example.com/base/", "test.org", "http://[bad", "%zz", "example.com:8080/x?y#z", "https://"+placeholder+".example/a/b")})
		}
	}
	if nspec > 8 {
		for _, s := range badSpecs {
			p.Specs = append(p.Specs, s)
			p.Entries = append(p.Entries, Entry{Spec: len(p.Specs) - 1, Doc: genDoc(r, 100), Bad: true})
		}
	}
	return p
}

// RefReq is one conversion for a process of its own.
type RefReq struct {
	Spec   Spec   `json:"spec"`
	Doc    string `json:"doc"`
	Domain string `json:"domain"`
}
type RefRes struct {
	Out   string `json:"out"`
	Err   string `json:"err"`
	Steps uint64 `json:"steps"`
}

func refMain() {
	var q RefReq
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fail("ref: %v", err)
	}
	var res RefRes
	s := vsim.New(vsim.Strategy{Kind: "seq"})
	t := s.Add("ref", nil, func() {
		var opts []converter.ConvertOptionFunc
		if q.Domain != "" {
			opts = append(opts, converter.WithDomain(q.Domain))
		}
		conv := q.Spec.Build()
		out, err := callString(conv, q.Doc, opts...)
		res.Out = out
		if err != nil {
			res.Err = err.Error()
		}
	})
	s.Run()
	switch {
	case s.Deadlock || s.Stuck:
		res.Err = "does not return: " + s.Describe()
	case t.Panicked:
		res.Err = fmt.Sprintf("panic: %v", t.PanicVal)
	}
	res.Steps = s.Steps
	emit := json.NewEncoder(os.NewFile(3, "out"))
	emit.SetEscapeHTML(false)
	emit.Encode(res)
}

func callString(conv *converter.Converter, doc string, opts ...converter.ConvertOptionFunc) (string, error) {
	if conv == nil {
		return md.ConvertString(doc, opts...)
	}
	return conv.ConvertString(doc, opts...)
}

func callReader(conv *converter.Converter, r io.Reader, opts ...converter.ConvertOptionFunc) ([]byte, error) {
	if conv == nil {
		return md.ConvertReader(r, opts...)
	}
	return conv.ConvertReader(r, opts...)
}

func callNode(conv *converter.Converter, n *html.Node, opts ...converter.ConvertOptionFunc) ([]byte, error) {
	if conv == nil {
		return md.ConvertNode(n, opts...)
	}
	return conv.ConvertNode(n, opts...)
}

// chunkReader delivers data in scheduled pieces, with a scheduling point per read.
type chunkReader struct {
	data   []byte
	sizes  []int // cycled; 0 = empty read
	i      int
	eofNow bool // report io.EOF together with the last bytes
	reads  int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	vsim.YS()
	c.reads++
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if len(c.sizes) > 0 {
		n = c.sizes[c.i%len(c.sizes)]
		c.i++
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eofNow {
		return n, io.EOF
	}
	return n, nil
}

// convertVia runs one conversion through the given entry point.
func convertVia(conv *converter.Converter, entry string, doc string, opts ...converter.ConvertOptionFunc) (string, []byte, error) {
	switch entry {
	case "string":
		s, err := callString(conv, doc, opts...)
		return s, nil, err
	case "reader":
		b, err := callReader(conv, strings.NewReader(doc), opts...)
		return string(b), b, err
	case "chunks":
		b, err := callReader(conv, &chunkReader{data: []byte(doc), sizes: []int{7, 64, 1, 300}}, opts...)
		return string(b), b, err
	case "bytes":
		b, err := callReader(conv, bytes.NewReader([]byte(doc)), opts...)
		return string(b), b, err
	case "node":
		n, err := html.Parse(strings.NewReader(doc))
		if err != nil {
			return "", nil, err
		}
		b, err := callNode(conv, n, opts...)
		return string(b), b, err
	}
	panic("entry " + entry)
}

func domainOpts(d string, tok int) []converter.ConvertOptionFunc {
	if d == "" {
		return nil
	}
	return []converter.ConvertOptionFunc{converter.WithDomain(fill(d, tok))}
}

var _ = context.Background
