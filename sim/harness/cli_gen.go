package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/andybalholm/cascadia"
	"github.com/bmatcuk/doublestar/v4"
	"golang.org/x/net/html"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// ------------------------------------------------------------ reference model

type expOut struct {
	path string // relative to the root
	in   string // "" for stdin
	data string
}

// expect is what one invocation must do on a healthy system, conflicts with
// existing files aside.
type expect struct {
	ok     bool
	why    string
	kind   string // stdout, file, dir
	inputs []string
	outs   []expOut
	stdout string
	loc    string          // the directory that receives the outputs
	mk     map[string]bool // directories it may create
}

func (e *expect) out(path string) *expOut {
	for i := range e.outs {
		if e.outs[i].path == path {
			return &e.outs[i]
		}
	}
	return nil
}

func (e *expect) isInput(path string) bool {
	for _, in := range e.inputs {
		if in == path {
			return true
		}
	}
	return false
}

var convMemo = map[string][2]string{}

// refConvert converts with a converter of its own, through the library.
func refConvert(s CProc, data []byte) (string, string) {
	key := fmt.Sprintf("%q%v%q%q%q%q", s.Strong, s.Strike, s.Table, s.Domain, s.Incl, s.Excl) + string(data)
	if r, ok := convMemo[key]; ok {
		return r[0], r[1]
	}
	if len(convMemo) > 2000 {
		convMemo = map[string][2]string{}
	}
	var md []byte
	var err error
	inSim(func() { md, err = refConvert1(s, data) })
	e := ""
	if err != nil {
		e = err.Error()
	}
	convMemo[key] = [2]string{string(md), e}
	return string(md), e
}

// inSim runs f in a simulation of its own, which leaves a running one as it is.
func inSim(f func()) {
	s := vsim.New(vsim.Strategy{Kind: "seq"})
	t := s.Add("model", nil, f)
	vsim.Aside(s.Run)
	switch {
	case s.Deadlock || s.Stuck:
		fail("the model's conversion does not return: %s", s.Describe())
	case t.Panicked:
		panic(t.PanicVal)
	}
}

func refConvert1(s CProc, data []byte) (md []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	strong := s.Strong
	if strong == "" {
		strong = "**"
	}
	plugins := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithStrongDelimiter(strong))}
	if s.Strike {
		plugins = append(plugins, strikethrough.NewStrikethroughPlugin())
	}
	if len(s.Table) > 0 {
		opt := map[string]string{}
		for _, t := range s.Table {
			k, v, _ := strings.Cut(t, "=")
			opt[k] = v
		}
		_, skip := opt["opt-table-skip-empty-rows"]
		_, promo := opt["opt-table-header-promotion"]
		_, pres := opt["opt-table-presentation-tables"]
		plugins = append(plugins, table.NewTablePlugin(
			table.WithSkipEmptyRows(skip),
			table.WithHeaderPromotion(promo),
			table.WithPresentationTables(pres),
			table.WithSpanCellBehavior(table.SpanCellBehavior(opt["opt-table-span-cell-behavior"])),
			table.WithNewlineBehavior(table.NewlineBehavior(opt["opt-table-newline-behavior"])),
			table.WithCellPaddingBehavior(table.CellPaddingBehavior(opt["opt-table-cell-padding-behavior"])),
		))
	}
	conv := converter.NewConverter(converter.WithPlugins(plugins...))
	doc, err := html.Parse(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	if s.Incl != "" {
		sel, err := cascadia.ParseGroup(s.Incl)
		if err != nil {
			return nil, err
		}
		root := &html.Node{}
		for _, n := range cascadia.QueryAll(doc, sel) {
			if n.Parent != nil {
				n.Parent.RemoveChild(n)
			}
			root.AppendChild(n)
		}
		doc = root
	}
	if s.Excl != "" {
		sel, err := cascadia.ParseGroup(s.Excl)
		if err != nil {
			return nil, err
		}
		var l []*html.Node
		var walk func(n *html.Node)
		walk = func(n *html.Node) {
			if sel.Match(n) {
				l = append(l, n)
				return
			}
			for ch := n.FirstChild; ch != nil; ch = ch.NextSibling {
				walk(ch)
			}
		}
		walk(doc)
		for _, n := range l {
			if n.Parent != nil {
				n.Parent.RemoveChild(n)
			}
		}
	}
	var opts []converter.ConvertOptionFunc
	if s.Domain != "" {
		opts = append(opts, converter.WithDomain(s.Domain))
	}
	return conv.ConvertNode(doc, opts...)
}

// expect evaluates the model on the current tree.
func (c *crun) expect(s CProc) *expect {
	e := &expect{mk: map[string]bool{}, kind: "stdout"}
	in := strings.ReplaceAll(s.In, "{ROOT}", c.root)
	out := strings.ReplaceAll(s.Out, "{ROOT}", c.root)
	relOf := func(p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(c.root, p)
		}
		r, _ := c.rel(filepath.Clean(p))
		return r
	}
	bad := func(why string) *expect {
		e.ok, e.why = false, why
		return e
	}
	e.ok = true
	info := false
	if len(s.Usage) > 0 { // nothing is to be done
		u := strings.TrimLeft(s.Usage[0], "-")
		info = u == "help" || u == "h" || u == "version" || u == "v"
	}
	if info {
		e.kind = "info"
		return e
	}
	type item struct{ path, base string }
	var items []item
	var datas [][]byte
	if out != "" {
		e.kind = "file"
		e.loc = relOf(filepath.Dir(out))
		if strings.HasSuffix(out, "/") {
			e.kind = "dir"
			e.loc = relOf(out)
		}
		for d := e.loc; d != "." && d != "/"; d = filepath.Dir(d) {
			e.mk[d] = true
		}
	}
	if len(s.Usage) > 0 {
		return bad("the command line is wrong")
	}
	switch {
	case in != "":
		var matches []string
		var err error
		c.own(func() {
			matches, err = doublestar.FilepathGlob(in, doublestar.WithFilesOnly(), doublestar.WithNoFollow())
		})
		if err != nil {
			return bad("bad pattern")
		}
		if len(matches) == 0 {
			return bad("no input")
		}
		for _, m := range matches {
			items = append(items, item{m, filepath.Base(m)})
			r := relOf(m)
			e.inputs = append(e.inputs, r)
			f, ok := c.snap[r]
			if ok && f.kind == 'l' { // reads through links
				t := f.data
				if !filepath.IsAbs(t) {
					t = filepath.Join(filepath.Dir(r), t)
				}
				f, ok = c.snap[filepath.Clean(t)]
			}
			if !ok || f.kind != 'f' {
				bad("input is not a file")
				f.data = ""
			}
			datas = append(datas, []byte(f.data))
		}
	case s.Piped:
		items = []item{{"output", "output"}}
		datas = [][]byte{s.Stdin}
	default:
		return bad("no input given")
	}
	if e.kind != "dir" && len(items) > 1 {
		return bad("several inputs need a directory")
	}
	if e.kind == "file" {
		if f, ok := c.snap[relOf(out)]; ok && f.kind == 'd' {
			return bad("output is a directory")
		}
	}
	globBase, _ := doublestar.SplitPattern(filepath.ToSlash(filepath.Clean(in)))
	used, taken := map[string]bool{}, map[string]bool{}
	for i, it := range items {
		md, es := refConvert(s, datas[i])
		if es != "" {
			e.ok, e.why = false, "conversion: "+es
		}
		o := expOut{data: md}
		if in != "" {
			o.in = e.inputs[i]
		}
		switch e.kind {
		case "stdout":
			e.stdout = md + "\n"
			continue
		case "file":
			o.path = relOf(out)
		case "dir":
			name := strings.TrimSuffix(it.base, filepath.Ext(it.base))
			o.path = name + ".md"
			if used[name] || taken[o.path] {
				rel, _ := filepath.Rel(globBase, it.path)
				sum := fmt.Sprintf("%x", sha256.Sum256([]byte(filepath.ToSlash(rel))))
				for n := 10; n == 10 || taken[o.path]; n++ {
					o.path = name + "." + sum[:n] + ".md"
				}
			}
			used[name], taken[o.path] = true, true
			o.path = filepath.Join(e.loc, o.path)
		}
		e.outs = append(e.outs, o)
	}
	return e
}

// --------------------------------------------------------------- scenarios

func cliDoc(r *R) []byte {
	switch k := r.N(100); {
	case k < 8:
		return []byte{}
	case k < 14:
		return []byte(r.Pick("plain", "   ", "<!-- c -->", "<p></p>", "\x00", "<script>x</script>", "\xff\xfe<p>\x80</p>", "%PDF-1.4\n", "\xef\xbb\xbf<b>bom</b>", "<p>a\r\nb</p>\r\n"))
	case k < 19 && r.P(8): // a large file of which little is left
		n := r.PickI(1<<20, 2_100_000, 4<<20, 300_000) + r.In(-300, 300)
		pad := []string{"<!--" + strings.Repeat("c", n) + "-->", strings.Repeat(" ", n), "<script>" + strings.Repeat("/", n) + "</script>"}[r.N(3)]
		t := token(r.N(1_000_000))
		return []byte("<p>first " + t + "</p>\n" + pad + "<p>last " + t + "</p>")
	case k < 19:
		b := bigDoc(r, r.PickI(4000, 33_000, 70_000))
		return []byte(strings.ReplaceAll(b, placeholder, token(r.N(1_000_000))))
	}
	doc := genDoc(r, r.PickI(60, 200, 600))
	if r.P(2) {
		doc = magic(r) + doc
	}
	if usesDict(r, 8, 25) {
		doc = seasoned(r, doc)
	}
	return []byte(strings.ReplaceAll(doc, placeholder, token(r.N(1_000_000))))
}

func junk(r *R, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "OLD content of the file\n#*_ 0123456789"[r.N(38)]
	}
	return b
}

var cliNames = []string{"a", "b", "page", "index", "x y", "ünï", ".hidden", "a.b.c", "A", "c1", "c2"}
var cliExts = []string{".html", ".html", ".html", ".htm", ".txt", "", ".xhtml", ".md"}

type cliGen struct {
	r     *R
	files []CFile
	have  map[string]bool
	ins   []string // input files (relative)
	dirs  []string
}

func (g *cliGen) free(path string) bool {
	for d := path; d != "."; d = filepath.Dir(d) {
		if g.have[d] {
			return false
		}
	}
	return true
}

func (g *cliGen) file(path string, data []byte) bool {
	if !g.free(path) {
		return false
	}
	g.have[path] = true
	g.files = append(g.files, CFile{Path: path, Data: data})
	return true
}

// tree makes the inputs and files that are nobody's business.
func newCliGen(r *R) *cliGen {
	g := &cliGen{r: r, have: map[string]bool{}}
	g.dirs = []string{"in"}
	for i := r.N(3); i > 0; i-- {
		d := g.dirs[r.N(len(g.dirs))] + "/" + r.Pick("sub", "deep", "d.html", "n e")
		g.dirs = append(g.dirs, d)
	}
	n := r.In(1, 5)
	for i := 0; i < n; i++ {
		name := r.Pick(cliNames...)
		if usesDict(r, 2, 12) {
			if t := strings.Trim(dictText(r), "./ \n\t"); t != "" && !strings.ContainsAny(t, "/\x00\n%") && len(t) < 40 {
				name = r.Pick("", "a", "page") + t + r.Pick("", "1")
			}
		}
		p := g.dirs[r.N(len(g.dirs))] + "/" + name + r.Pick(cliExts...)
		if g.file(p, cliDoc(r)) {
			g.ins = append(g.ins, p)
			if r.P(8) {
				f := &g.files[len(g.files)-1]
				size := int64(r.PickI(0, 0, 1, len(f.Data)/2, len(f.Data)+1, len(f.Data)+600, 4096))
				f.Size = &size
			}
		}
	}
	if r.P(3) { // many files
		i := r.PickI(20, 40, 70, 130, 260)
		if n := dictInt(r, 300); n > 3 && usesDict(r, 10, 50) {
			i = n
		}
		for ; i > 0; i-- {
			p := g.dirs[r.N(len(g.dirs))] + "/" + fmt.Sprintf("f%03d", i) + r.Pick(".html", ".html", ".htm")
			if g.file(p, []byte("<p>"+token(r.N(1_000_000))+"</p>")) {
				g.ins = append(g.ins, p)
			}
		}
	}
	if r.P(8) { // the same name twice, and a file called like the second of them will be
		n, d := r.Pick("a", "page", "x y"), r.Pick("sub", "deep", "")
		e1, e2 := r.Pick(".html", ".htm", ".a"), r.Pick(".html", ".xhtml", ".z")
		for _, p := range []string{n + e1, filepath.Join(d, n+e2)} {
			sum := fmt.Sprintf("%x", sha256.Sum256([]byte(p)))
			for _, q := range []string{p, n + "." + sum[:10] + r.Pick(".html", ".htm"), r.Pick("d.html", "zoo", "") + "/" + n + "." + sum[:10] + ".html"} {
				q = filepath.Join("in", q)
				if (q == filepath.Join("in", p) || r.P(50)) && g.file(q, cliDoc(r)) {
					g.ins = append(g.ins, q)
				}
			}
		}
	}
	if len(g.ins) == 0 {
		g.file("in/first.html", cliDoc(r))
		g.ins = append(g.ins, "in/first.html")
	}
	if r.P(10) {
		g.files = append(g.files, CFile{Path: "in/link.html", Link: filepath.Base(g.ins[0])})
		g.have["in/link.html"] = true
	}
	// decoys: never to be read instead of stdin, never to be touched
	for _, p := range []string{"output", "output.html", "notes.txt", "-", "out.md.bak", "keep/other.md"} {
		if r.P(30) {
			g.file(p, junk(r, r.In(1, 60)))
		}
	}
	return g
}

var metaChars = "*?[{\\"

// input picks the --input of a process; multi: a pattern.
func (g *cliGen) input(multi bool) string {
	r := g.r
	if !multi {
		for i := 0; i < 10; i++ {
			p := g.ins[r.N(len(g.ins))]
			if !strings.ContainsAny(p, metaChars) {
				return r.Pick("", "", "", "./", "{ROOT}/") + p
			}
		}
	}
	pat := r.Pick("in/*.html", "in/**/*.html", "in/**", "in/**/*", "in/*", "in/**/*.{html,htm}", "in/{a,b,page,index}*", "in/**/[a-p]*.*", "in/**/{a,page,c1,index}.*", "in/sub/**", "i?/**/*.html")
	return r.Pick("", "", "", "./", "{ROOT}/") + pat
}

func (g *cliGen) flags(p *CProc) {
	r := g.r
	p.Form = r.N(1 << 20)
	if r.P(15) {
		p.Strong = r.Pick("**", "__")
	}
	if r.P(3) {
		p.Strong = r.Pick("*", "x", "***")
	}
	p.Strike = r.P(15)
	if r.P(25) {
		p.Table = []string{"on"}
		if r.P(40) {
			p.Table = append(p.Table, r.Pick("opt-table-skip-empty-rows", "opt-table-header-promotion", "opt-table-span-cell-behavior=mirror", "opt-table-newline-behavior=preserve", "opt-table-cell-padding-behavior=minimal", "opt-table-presentation-tables"))
		}
	}
	if r.P(20) {
		p.Domain = r.Pick("example.com", "https://example.org/a/", "http://x.test")
	}
	if r.P(6) {
		p.Incl = r.Pick("p", "body", "h1, h2", ".none")
	}
	if r.P(6) {
		p.Excl = r.Pick("p", "b", "img, a", "table")
	}
}

func (g *cliGen) stdin(p *CProc) {
	r := g.r
	p.Piped = true
	p.Stdin = cliDoc(r)
	p.Kind |= r.PickI(0, 0, 1, 1, 2, 3)
	p.Late = r.P(40)
	switch r.N(4) {
	case 0:
	case 1:
		p.Chunks = []int{r.PickI(1, 2, 3, 7)}
		if len(p.Stdin) > 3000 {
			p.Chunks = []int{r.PickI(511, 512, 513, 4096)}
		}
	case 2:
		for i := r.In(1, 4); i > 0; i-- {
			p.Chunks = append(p.Chunks, r.PickI(1, 5, 64, 511, 512, 513, 4096))
		}
	case 3:
		p.Chunks = []int{r.In(1, 600), 0}
	}
	if len(p.Stdin) > 3000 {
		for i, c := range p.Chunks {
			if c > 0 && c < 64 {
				p.Chunks[i] = c + 200
			}
		}
	}
}

// proc makes one invocation; dir is the name its outputs are under.
func (g *cliGen) proc(dir string) CProc {
	r := g.r
	var p CProc
	g.flags(&p)
	p.Over = r.P(40)
	p.Kind = r.PickI(0, 0, 1, 2, 4)<<4 | r.PickI(0, 0, 1, 4)<<8
	k := r.N(100)
	switch {
	case k < 20: // one file to one file
		p.In = g.input(false)
		p.Out = r.Pick("", "./", "{ROOT}/") + dir + r.Pick("", "/new", "/x/y") + "/" + r.Pick("res.md", "plain", "r.e.s.md", "page.html.md")
		if r.P(15) {
			p.Out = dir + ".md"
		}
	case k < 30:
		p.In = g.input(false)
		p.Out = r.Pick("", "{ROOT}/") + dir + r.Pick("/", "/x/", "/x/y/z/")
	case k < 75:
		p.In = g.input(true)
		p.Out = r.Pick("", "./", "{ROOT}/") + dir + r.Pick("/", "/", "/x/", "/new/er/")
	case k < 82:
		p.In = g.input(r.P(20))
	default:
		g.stdin(&p)
		switch r.N(3) {
		case 0:
		case 1:
			p.Out = dir + r.Pick("/", "/x/")
		case 2:
			p.Out = dir + r.Pick("/from-stdin.md", "/new/s")
		}
	}
	if p.In != "" && r.P(30) {
		g.stdin(&p) // piped as well: --input wins
	}
	return p
}

// odd makes an invocation one that cannot work, at times, or a question for help.
func (g *cliGen) odd(p *CProc) {
	r := g.r
	if r.P(94) {
		return
	}
	switch r.N(7) {
	case 6:
		p.Table = []string{"on", r.Pick("opt-table-newline-behavior=bogus", "opt-table-span-cell-behavior=bogus", "opt-table-cell-padding-behavior=bogus")}
	case 0, 1, 2:
		u := r.Pick("--bogus", "--inptu=x", "--outptu=x", "-o", "--overwrite", "-zz", "--domain", "--output=", "--input= ", "stray", "a.html", "--include-selector=p[", "--exclude-selector= ", "--plugin-table=maybe", "--help", "-h", "--version", "-v", "twice", "needs")
		switch {
		case u == "twice" && p.Out != "":
			u = "--output=out/second.md"
		case u == "twice" && p.In != "":
			u = "--input=in/*"
		case u == "needs" && len(p.Table) == 0:
			u = r.Pick("--opt-table-skip-empty-rows", "--opt-table-header-promotion", "--opt-table-span-cell-behavior=mirror", "--opt-table-newline-behavior=preserve", "--opt-table-cell-padding-behavior=minimal", "--opt-table-presentation-tables")
		case u == "twice" || u == "needs":
			u = "--bogus"
		}
		p.Usage = []string{u}
	case 3:
		p.In = r.Pick("in", "in/", "in/nothing*", "no/such.html", "in/[")
	case 4:
		p.In, p.Out = "in/**", r.Pick("out", "out.md", "in", "")
	case 5:
		p.Piped, p.In = false, ""
		p.Kind = p.Kind&^15 | 3
	}
}

// existing adds files where outputs will go. want: the outputs of the process.
func (g *cliGen) existing(outs []string, data map[string]string) {
	r := g.r
	for _, o := range outs {
		if !r.P(60) {
			continue
		}
		var d []byte
		switch r.N(8) {
		case 0:
			d = []byte{}
		case 1:
			d = junk(r, r.In(1, 20))
		case 2:
			d = junk(r, len(data[o])+r.In(1, 3000))
		case 3:
			d = []byte(data[o]) // already what it would become
		case 4:
			d = []byte(data[o] + "\nstale tail")
		case 5:
			d = []byte(data[o][:r.N(len(data[o])+1)])
		case 6, 7: // much like it, as after a small edit of the input
			d = []byte(data[o])
			if len(d) > 0 {
				k := r.N(len(d))
				d[k] ^= 1
				if r.P(50) {
					d = d[:r.In(k+1, len(d))]
				}
			}
		}
		g.file(o, d)
	}
}

// inTheWay puts a file where a directory for the outputs would be needed.
func (g *cliGen) inTheWay(outs []string) {
	if len(outs) == 0 {
		return
	}
	d := filepath.Dir(outs[g.r.N(len(outs))])
	for g.r.P(40) && filepath.Dir(d) != "." {
		d = filepath.Dir(d)
	}
	if d == "." {
		return
	}
	for p := range g.have {
		if strings.HasPrefix(p, d+"/") {
			return
		}
	}
	g.file(d, junk(g.r, g.r.PickI(0, 20, 300)))
}

// modes: files that are read-only, as after a checkout, and some that the user may not read.
func (g *cliGen) modes() {
	r := g.r
	if !r.P(20) {
		return
	}
	for i := range g.files {
		f := &g.files[i]
		if f.Dir || f.Link != "" || !r.P(30) {
			continue
		}
		f.Mode = 0o444
		if r.P(6) {
			f.Mode = 0o200
		}
	}
}

// readOnly: the inputs are read-only, which is no obstacle.
func (g *cliGen) readOnly(outs []string) {
	if !g.r.P(15) {
		return
	}
	for i := range g.files {
		f := &g.files[i]
		if !f.Dir && f.Link == "" && !slices.Contains(outs, filepath.Clean(f.Path)) {
			f.Mode = 0o444
		}
	}
}

// outputsOf guesses the outputs of a process without a file system, from the
// generator's own tree (used only to place existing files and foreign creations).
func (g *cliGen) outputsOf(p CProc) (outs []string, data map[string]string) {
	data = map[string]string{}
	clean := func(s string) string {
		return filepath.Clean(strings.TrimPrefix(strings.TrimPrefix(s, "{ROOT}/"), "./"))
	}
	if p.Out == "" {
		return
	}
	if !strings.HasSuffix(p.Out, "/") {
		o := clean(p.Out)
		src := p.Stdin
		if p.In != "" {
			for _, f := range g.files {
				if f.Path == clean(p.In) {
					src = f.Data
				}
			}
		}
		md, _ := refConvert(p, src)
		data[o] = md
		return []string{o}, data
	}
	if p.In == "" {
		o := clean(p.Out) + "/output.md"
		data[o], _ = refConvert(p, p.Stdin)
		return []string{o}, data
	}
	pat := clean(p.In)
	var fs []CFile
	for _, f := range g.files {
		if f.Link != "" || f.Dir {
			continue
		}
		if ok, _ := doublestar.Match(pat, f.Path); ok {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Path < fs[j].Path })
	for _, f := range fs {
		b := filepath.Base(f.Path)
		b = strings.TrimSuffix(b, filepath.Ext(b))
		o := clean(p.Out) + "/" + b + ".md"
		if _, ok := data[o]; ok {
			continue
		}
		data[o], _ = refConvert(p, f.Data)
		outs = append(outs, o)
	}
	return
}

// ------------------------------------------------------------------- faults

var errsFor = map[string][]string{
	"open-r": {"EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "EPERM"},
	"open-w": {"EIO", "EACCES", "ENOSPC", "EDQUOT", "EROFS", "EMFILE", "EPERM"},
	"read":   {"EIO"}, "getdents": {"EIO", "ENOMEM"},
	"write": {"EIO", "ENOSPC", "EDQUOT", "EFBIG"}, "close": {"EIO", "ENOSPC", "EDQUOT"},
	"mkdir": {"EIO", "ENOSPC", "EACCES", "EROFS"}, "stat": {"EIO", "EACCES", "ENOMEM"}, "fstat": {"EIO", "ENOMEM"},
	"stdin": {"EIO", "EACCES"}, "stdout": {"EPIPE", "ENOSPC", "EIO"}, "stderr": {"EPIPE", "EIO"},
}

// Less common ones: remote, overlay and user space file systems, device nodes.
var rareErrs = map[string][]string{
	"open":   {"EINVAL", "EOPNOTSUPP", "ENOSYS", "ESTALE", "EBUSY", "EAGAIN", "ETIMEDOUT", "ENXIO", "ENODEV", "ETXTBSY", "ELOOP", "ENAMETOOLONG"},
	"mkdir":  {"EINVAL", "EOPNOTSUPP", "ESTALE", "EDQUOT", "EPERM", "ENAMETOOLONG", "ELOOP"},
	"read":   {"EINVAL", "ESTALE", "EAGAIN", "ETIMEDOUT"},
	"write":  {"EINVAL", "ESTALE", "EAGAIN", "ETIMEDOUT", "EPERM", "ENODEV"},
	"close":  {"ESTALE", "EAGAIN", "ETIMEDOUT"},
	"stdin":  {"EAGAIN", "EINVAL", "EBADF", "EISDIR", "ECONNRESET", "ETIMEDOUT", "ENXIO", "ESTALE"},
	"stdout": {"EAGAIN", "EINVAL", "EBADF", "ECONNRESET", "ETIMEDOUT", "EFBIG", "EDQUOT", "EPERM", "ENXIO", "ENODEV"},
	"stderr": {"EAGAIN", "EBADF", "ENXIO"},
}

// freshErrs are those that the code under test asks for since it has changed.
func freshErrs(op string) (l []string) {
	rare := append(append([]string(nil), rareErrs[op]...), errsFor[op]...)
	if op == "open" {
		rare = append(append(rare, errsFor["open-r"]...), errsFor["open-w"]...)
	}
	names := map[string][]string{"ErrPermission": {"EACCES", "EPERM"}, "ErrInvalid": {"EINVAL"}, "ErrUnsupported": {"EOPNOTSUPP", "ENOSYS"}, "ErrDeadlineExceeded": {"ETIMEDOUT"}}
	for _, n := range vsim.Dict.Efresh {
		for _, e := range append(names[n], n) {
			if slices.Contains(rare, e) {
				l = append(l, e)
			}
		}
	}
	return
}

// pickFault chooses a fault for one call. mode: "err", "soft", "kill".
func pickFault(r *R, p, at int, ci callInfo, mode string) CFault {
	f := CFault{P: p, At: at}
	f.N = r.N(1 << 16)
	if ci.n > 0 && r.P(50) {
		f.N = r.PickI(0, 1, ci.n-1, ci.n/2)
	}
	switch mode {
	case "soft":
		f.K = r.Pick("intr", "short")
		if ci.op == "stdout" || ci.op == "stderr" {
			f.K = "intr"
		}
	case "kill":
		f.K = r.Pick("kill", "killafter")
	case "power":
		f.K = "power"
	default:
		f.K = "err"
		es := errsFor[ci.op]
		if ci.op == "open" {
			es = append(append([]string(nil), errsFor["open-r"]...), errsFor["open-w"]...)
		}
		if len(es) == 0 {
			es = []string{"EIO", "EACCES", "EPERM"}
		}
		f.E = r.Pick(es...)
		if rare := rareErrs[ci.op]; len(rare) > 0 && r.P(12) {
			f.E = r.Pick(rare...)
		}
		if rare := freshErrs(ci.op); len(rare) > 0 && r.P(40) {
			f.E = r.Pick(rare...)
		}
		if ci.op == "write" && r.P(45) {
			f.K = "full"
		}
		if ci.op == "close" && r.P(50) {
			f.K = "lose"
		}
		if ci.op == "stdout" && r.P(30) {
			f.K = "short"
		}
	}
	return f
}

// pickCall chooses a call of a process, each kind of call equally likely half of the time.
func pickCall(r *R, calls []callInfo, skip func(callInfo) bool) int {
	if len(calls) == 0 {
		return 0
	}
	ok := func(i int) bool { return skip == nil || !skip(calls[i]) }
	if r.P(50) {
		kinds := map[string][]int{}
		var names []string
		for i, c := range calls {
			if !ok(i) {
				continue
			}
			if kinds[c.op] == nil {
				names = append(names, c.op)
			}
			kinds[c.op] = append(kinds[c.op], i)
		}
		if len(names) > 0 {
			l := kinds[names[r.N(len(names))]]
			return l[r.N(len(l))]
		}
	}
	for i := 0; i < 20; i++ {
		if k := r.N(len(calls)); ok(k) {
			return k
		}
	}
	return r.N(len(calls))
}

func cliStrat(r *R, base *Outcome) vsim.Strategy {
	st := vsim.Strategy{Seed: r.U()}
	st.Hurry = st.Seed>>9&1 == 1
	if st.Seed>>10&3 == 3 {
		st.Skew = st.Seed | 1
	}
	switch k := r.N(100); {
	case k < 65:
		st.Kind, st.Gap = "sync", r.PickI(1, 2, 4, 8, 16)
	case k < 75:
		st.Kind, st.Gap = "rand", r.PickI(1, 8, 60, 400)
	default:
		st.Kind, st.Depth, st.Est = "pct", r.In(1, 4), 2000
		if base != nil {
			st.Est = int(base.Steps)
		}
	}
	if r.P(30) && base != nil {
		st.Stalls, st.StallBy = r.In(1, 3), int(base.Steps)/r.PickI(1, 2, 6)
	}
	return st
}

func shrinkCli(ep *Ep) []*Ep {
	var out []*Ep
	mut := func(f func(c *CliEp)) {
		e := *ep
		c := *ep.Cli
		c.Files = append([]CFile(nil), c.Files...)
		c.Faults = append([]CFault(nil), c.Faults...)
		c.Phases = append([]CPhase(nil), c.Phases...)
		for i := range c.Phases {
			c.Phases[i].Procs = append([]CProc(nil), c.Phases[i].Procs...)
		}
		e.Cli = &c
		f(&c)
		out = append(out, &e)
	}
	c := ep.Cli
	for i := range c.Faults {
		mut(func(c *CliEp) { c.Faults = append(c.Faults[:i], c.Faults[i+1:]...) })
	}
	base := 0
	for i := range c.Phases {
		np := len(c.Phases[i].Procs)
		b := base
		if len(c.Phases) > 1 && !c.Phases[i].Healthy {
			mut(func(c *CliEp) {
				c.Phases = append(c.Phases[:i], c.Phases[i+1:]...)
				c.Faults = dropProcs(c.Faults, b, np)
			})
		}
		if np > 1 {
			for j := 0; j < np; j++ {
				mut(func(c *CliEp) {
					c.Phases[i].Procs = append(c.Phases[i].Procs[:j], c.Phases[i].Procs[j+1:]...)
					c.Faults = dropProcs(c.Faults, b+j, 1)
				})
			}
		}
		base += np
	}
	for i := range c.Files {
		mut(func(c *CliEp) { c.Files = append(c.Files[:i], c.Files[i+1:]...) })
	}
	for i, f := range c.Files {
		if len(f.Data) > 20 {
			mut(func(c *CliEp) { c.Files[i].Data = []byte("<b>x</b>") })
		}
	}
	for i := range c.Phases {
		for j, p := range c.Phases[i].Procs {
			if p.Strong != "" || p.Strike || len(p.Table) > 0 || p.Domain != "" || p.Incl != "" || p.Excl != "" {
				mut(func(c *CliEp) {
					q := &c.Phases[i].Procs[j]
					q.Strong, q.Strike, q.Table, q.Domain, q.Incl, q.Excl = "", false, nil, "", "", ""
				})
			}
			if len(p.Stdin) > 20 {
				mut(func(c *CliEp) { c.Phases[i].Procs[j].Stdin = []byte("<b>x</b>") })
			}
			if len(p.Chunks) > 0 {
				mut(func(c *CliEp) { c.Phases[i].Procs[j].Chunks = nil })
			}
		}
	}
	return out
}

func dropProcs(fs []CFault, from, n int) []CFault {
	var out []CFault
	for _, f := range fs {
		switch {
		case f.P < from:
			out = append(out, f)
		case f.P >= from+n:
			f.P -= n
			out = append(out, f)
		}
	}
	return out
}

// cliSample describes a run for the evidence.
func cliSample(ep *Ep, o *Outcome) any {
	var cmds []string
	for _, ph := range ep.Cli.Phases {
		for _, p := range ph.Procs {
			in := p.In
			if in == "" {
				in = fmt.Sprintf("stdin of %d bytes", len(p.Stdin))
			}
			cmds = append(cmds, fmt.Sprintf("in=%s out=%s overwrite=%v healthy=%v", in, p.Out, p.Over, ph.Healthy))
		}
	}
	var files []string
	for _, f := range ep.Cli.Files {
		files = append(files, fmt.Sprintf("%s (%d bytes)", f.Path, len(f.Data)))
	}
	var calls []string
	for i, l := range o.Calls {
		for _, c := range l {
			if len(calls) < 25 {
				calls = append(calls, fmt.Sprintf("%d:%s %s", i, c.op, c.path))
			}
		}
	}
	var faults []string
	for _, f := range ep.Cli.Faults {
		faults = append(faults, fmt.Sprintf("process %d call %d: %s %s %s n=%d", f.P, f.At, f.K, f.E, f.Path, f.N))
	}
	return map[string]any{"commands": cmds, "files": files, "faults": faults, "first_calls": calls}
}
