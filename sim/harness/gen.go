package main

import (
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// R is a small deterministic generator (splitmix64).
type R struct{ s uint64 }

func NewR(parts ...uint64) *R {
	r := &R{0x243F6A8885A308D3}
	for _, p := range parts {
		r.s ^= p + 0x9E3779B97F4A7C15 + r.s<<6 + r.s>>2
		r.U()
	}
	return r
}

func (r *R) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In returns a number in [a,b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }
func (r *R) P(pct int) bool  { return r.N(100) < pct }
func (r *R) Pick(ss ...string) string {
	return ss[r.N(len(ss))]
}
func (r *R) PickI(is ...int) int { return is[r.N(len(is))] }

// Distinct picks n different strings.
func (r *R) Distinct(from []string, n int) []string {
	l := append([]string(nil), from...)
	for i := 0; i < n; i++ {
		j := i + r.N(len(l)-i)
		l[i], l[j] = l[j], l[i]
	}
	return l[:n]
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// placeholder in document templates; replaced by a unique word of the same
// length for every conversion, so that nothing can be remembered from earlier ones.
const placeholder = "qzqzqzqz"

func token(n int) string {
	b := []byte("q0000000")
	const al = "abcdefghijklmnopqrstuvwxyz"
	for i := len(b) - 1; i > 0; i-- {
		b[i] = al[n%26]
		n /= 26
	}
	return string(b)
}

func fill(tmpl string, tok int) string {
	if tok < 0 {
		return tmpl
	}
	return strings.ReplaceAll(tmpl, placeholder, token(tok))
}

// ------------------------------------------------------------------ documents

var words = []string{"alpha", "beta", "gamma", placeholder, placeholder, "Lorem", "ipsum", "x", "one two", "three  four", "ünïcödé", "日本語", "emoji 😀", "e.g."}
var specials = []string{
	"*", "**bold**", "_", "__x__", "# no", "#", "1. item", "12) x", "- dash", "+ plus", "> quote", "a > b", "&lt;div&gt;", "&amp;amp;", "|", "a | b", "~~x~~", "`code`", "``", "```",
	"[link](url)", "[x]", "![img](a.png)", "\\", "\\*", "---", "===", "***", "!", "$5", "&nbsp;", "&nbsp;&nbsp;", "\n", "\n\n", "  ", "\t", "&copy;", "2 * 3 * 4", "snake_case_name", "100%", "(x)", "\"q\"", "'s", "&#0;", "\u200b", "a\nb", "+\n", "1.\n",
}

var hrefs = []string{"", "#", "#frag", "/page", "/page.html?a=1&b=2", "page two.html", "https://example.org/x(y)z", "mailto:a@b.c?subject=Hi You", "data:image/png;base64,AAAA", "//cdn.example.com/x", "?q=%20a+b", "http://[::1", "/" + placeholder, "https://example.com/" + placeholder + "?k=" + placeholder, "../up", "tel:+123", "a\nb", "javascript:void(0)"}

var classParts = []string{"language-", "lang-", "language-", "lang-", "go", "js", "x", " ", " ", "\n", "highlight-source-", "brush: ", "code", "-", "LANG-", "é", "{.}", "`", "lang", "language"}
var hrefParts = []string{"http://", "https:", "//", "/", "/", "?", "#", "&amp;", "=", "%20", "%zz", " ", "é", "..", ".", "x", "a.b", "mailto:", "@", "data:,", ":", "(", ")", "&lt;", "&gt;", "&quot;", "[", "]", "\\", "\n", "+", ";", placeholder}
var numParts = []string{"1", "9", "0", "00", "+", "-", " ", ".", "e3", "x", "99999999", "１"}

// mash joins a few pieces, with a literal of the code now and then.
func mash(r *R, parts []string) string {
	s := ""
	for n := r.In(1, 5); n > 0; n-- {
		if usesDict(r, 8, 15) {
			if t := dictText(r); len(t) < 30 {
				s += strings.NewReplacer(`"`, "&quot;").Replace(t)
				continue
			}
		}
		s += parts[r.N(len(parts))]
	}
	return s
}

func href(r *R) string {
	if r.P(35) {
		return mash(r, hrefParts)
	}
	return hrefs[r.N(len(hrefs))]
}

type docGen struct {
	r     *R
	b     strings.Builder
	depth int
	max   int
	large bool // large tables with many spans
}

func (g *docGen) text() {
	r := g.r
	if r.P(3) { // a long text, mostly plain
		for i := r.In(20, 90); i > 0; i-- {
			g.b.WriteString(words[r.N(len(words))] + " ")
			if r.P(2) {
				g.b.WriteString(specials[r.N(len(specials))] + " ")
			}
		}
		return
	}
	for i := r.In(1, 3); i > 0; i-- {
		if r.P(40) {
			g.b.WriteString(specials[r.N(len(specials))])
		} else {
			g.b.WriteString(words[r.N(len(words))])
		}
		if r.P(60) {
			g.b.WriteString(" ")
		}
	}
}

func (g *docGen) attr() string {
	r := g.r
	switch r.N(10) {
	case 0:
		return ` title="` + r.Pick("t", `a &quot;b&quot;`, "line\none", "x\n\ny", placeholder, `it's`) + `"`
	case 1:
		return ` class="` + mash(r, classParts) + `"`
	case 2:
		return ` id="i` + strconv.Itoa(r.N(9)) + `"`
	}
	return ""
}

func (g *docGen) wrap(tag, attrs string, body func()) {
	g.b.WriteString("<" + tag + attrs + ">")
	g.depth++
	body()
	g.depth--
	g.b.WriteString("</" + tag + ">")
}

func (g *docGen) full() bool { return g.b.Len() >= g.max }

func (g *docGen) inlines(n int) {
	for i := 0; i < n; i++ {
		g.inline()
	}
}

func (g *docGen) inline() {
	r := g.r
	if g.full() || g.depth > 8 {
		g.b.WriteString(placeholder)
		return
	}
	body := func() { g.inlines(r.In(0, 3)) }
	switch r.N(24) {
	case 0, 1, 2, 3, 4, 5:
		g.text()
	case 6, 7:
		g.wrap(r.Pick("strong", "b"), g.attr(), body)
	case 8, 9:
		g.wrap(r.Pick("em", "i"), g.attr(), body)
	case 10, 11:
		g.wrap("a", ` href="`+href(r)+`"`+g.attr(), body)
	case 12:
		g.b.WriteString(`<img src="` + href(r) + `" alt="` + r.Pick("", "alt", "a]b", "two\nlines", placeholder) + `"` + g.attr() + `>`)
	case 13, 14:
		g.wrap(r.Pick("code", "kbd", "samp", "tt", "var"), g.attr(), func() {
			if r.P(70) {
				g.b.WriteString(r.Pick("x := 1", "`", "``a`", " a ", "a\nb", "&lt;p&gt;", placeholder, ""))
			} else {
				body()
			}
		})
	case 15:
		g.b.WriteString("<br>")
	case 16:
		g.wrap(r.Pick("del", "s", "strike"), "", body)
	case 17:
		g.wrap("span", ` style="font-weight: `+r.Pick("bold", "normal")+`"`, body)
	case 18:
		g.wrap(r.Pick("u", "mark", "small", "sub", "custom-el", "label", "button", "font"), "", body)
	case 19:
		g.b.WriteString("<!-- " + r.Pick("c", "THE END", placeholder) + " -->")
	case 20:
		g.b.WriteString(r.Pick("<script>var a = '<b>';</script>", "<style>p{}</style>", "<input value=x>", "<iframe src=x></iframe>", "<noscript>n</noscript>", "<textarea>t</textarea>"))
	case 21:
		g.wrap("span", "", body)
	default:
		g.text()
	}
}

func (g *docGen) blocks(n int) {
	for i := 0; i < n && !g.full(); i++ {
		g.block()
		if g.r.P(50) {
			g.b.WriteString("\n")
		}
	}
}

func (g *docGen) table() {
	r := g.r
	g.b.WriteString("<table" + r.Pick("", "", "", ` role="presentation"`) + ">")
	if r.P(20) {
		g.wrap("caption", "", func() { g.inlines(1) })
	}
	cols := r.In(1, 4)
	row := func(tag string) {
		g.b.WriteString("<tr>")
		n := cols
		if r.P(20) {
			n = r.In(0, cols+1)
		}
		for i := 0; i < n; i++ {
			at := ""
			if r.P(15) || g.large && r.P(30) {
				at += ` colspan="` + r.Pick("2", "3", "0", "x") + `"`
			}
			if r.P(15) || g.large && r.P(30) {
				at += ` rowspan="` + r.Pick("2", "3", "0") + `"`
			}
			if r.P(25) {
				at += ` align="` + r.Pick("left", "right", "center") + `"`
			}
			g.wrap(tag, at, func() {
				switch {
				case r.P(15):
				case r.P(12) && g.depth < 5:
					g.block()
				default:
					g.inlines(r.In(1, 2))
				}
			})
		}
		g.b.WriteString("</tr>")
	}
	if r.P(60) {
		g.b.WriteString("<thead>")
		row("th")
		g.b.WriteString("</thead>")
	}
	g.b.WriteString("<tbody>")
	n := r.In(0, 4)
	if g.large || r.P(8) {
		n = r.In(9, 14)
	}
	for i := n; i > 0; i-- {
		row(r.Pick("td", "td", "td", "th"))
	}
	g.b.WriteString("</tbody></table>")
}

func (g *docGen) list() {
	r := g.r
	tag := r.Pick("ul", "ol", "ol")
	at := ""
	if tag == "ol" && r.P(40) {
		at = ` start="` + r.Pick("0", "5", "9", "99", "x", "-1", mash(r, numParts)) + `"`
	}
	g.wrap(tag, at, func() {
		n := r.In(0, 4)
		if r.P(10) {
			n = 11
		}
		for i := 0; i < n; i++ {
			if r.P(8) {
				g.inline()
				continue
			}
			g.wrap("li", "", func() {
				if r.P(35) && g.depth < 7 {
					if r.P(50) {
						g.inline()
					}
					g.block()
					if r.P(30) {
						g.block()
					}
				} else {
					g.inlines(r.In(0, 2))
				}
			})
			if r.P(30) {
				g.b.WriteString("\n")
			}
		}
	})
}

func (g *docGen) block() {
	r := g.r
	if g.full() || g.depth > 8 {
		g.wrap("p", "", func() { g.b.WriteString(placeholder) })
		return
	}
	inl := func() { g.inlines(r.In(0, 4)) }
	switch r.N(22) {
	case 0, 1, 2, 3:
		g.wrap("p", g.attr(), inl)
	case 4, 5, 6:
		g.wrap("h"+strconv.Itoa(r.In(1, 6)), g.attr(), inl)
	case 7, 8, 9, 10:
		g.list()
	case 11, 12:
		g.wrap("blockquote", "", func() { g.blocks(r.In(0, 3)) })
	case 13, 14:
		g.wrap("pre", g.attr(), func() {
			code := func() {
				for i := r.In(0, 3); i > 0; i-- {
					g.b.WriteString(r.Pick("line "+placeholder, "\n", "```", "~~~~", "  indent", "\t&lt;b&gt;", "\n\n\n", "<b>x</b>", "<br>", "end"))
				}
			}
			if r.P(70) {
				g.wrap("code", r.Pick("", ` class="language-go"`, ` class="`+mash(r, classParts)+`"`), code)
			} else {
				code()
			}
		})
	case 15:
		g.b.WriteString("<hr>")
	case 16, 17, 18:
		g.table()
	case 19, 20:
		g.wrap(r.Pick("div", "section", "article", "main", "custom-block", "figure", "dl", "details"), g.attr(), func() {
			if r.P(50) {
				inl()
			} else {
				g.blocks(r.In(0, 3))
			}
		})
	default:
		g.inlines(r.In(1, 3))
	}
}

var corpus []string

func loadCorpus(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.html"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err == nil {
			corpus = append(corpus, string(b))
		}
	}
}

// genDoc makes one document template of roughly up to max bytes.
func genDoc(r *R, max int) string {
	if len(corpus) > 0 && r.P(15) {
		c := corpus[r.N(len(corpus))]
		parts := strings.Split(c, "\n\n")
		i := r.N(len(parts))
		out := ""
		for ; i < len(parts) && (out == "" || len(out)+len(parts[i]) < max); i++ {
			out += parts[i] + "\n\n"
		}
		if len(out) < 4*max+400 {
			return out + "<p>" + placeholder + "</p>"
		}
	}
	if r.P(12) {
		return atlasDoc(r, max)
	}
	g := &docGen{r: r, max: max}
	if r.P(10) {
		g.b.WriteString("<!doctype html><html><head><title>T</title></head><body>")
	}
	switch r.N(4) {
	case 0:
		g.inlines(r.In(1, 4))
	case 1:
		g.block()
	default:
		g.blocks(r.In(1, 8))
	}
	if r.P(50) {
		g.b.WriteString(placeholder)
	}
	return g.b.String()
}

// atlas holds small pieces, each reaching a branch that random documents rarely reach.
var atlas = []string{
	"<p>-</p>", "<p>- - -</p>", "<p>* * *</p>", "<p>_ _ _</p>", "<p>---</p>", "<p>-- -- x</p>", "<p>***x</p>", "<p> - - -x</p>", "a<br>- - -<br>b", "<p>_</p>",
	"<p>#</p>", "<p># a</p>", "<p>####### a</p>", "<p>a # b</p>", "<p>###a</p>", "a<br># b", "<p>&nbsp; ## b</p>", "<p>#\n</p>", "<p>-#-</p>", "<p>x\n# y</p>",
	"a<br>===", "a<br>= =", "a<br>=", "a<br>---", "a<br>-- -", "a<br>=x", "<p>===</p>", "<p>a\n===</p>",
	"<p>1. a</p>", "<p>1) a</p>", "<p>1.a</p>", "<p>123456789. a</p>", "<p>1234567890. a</p>", "<p>a 1. b</p>", "<p>1.</p>", "a<br>2. b", "<p>é1. a</p>",
	"<p>+ a</p>", "<p>* a</p>", "<p>+</p>", "<p>+a</p>", "a<br>+ b", "<p>-&nbsp;a</p>",
	"<p>&gt; a</p>", "<p>a &gt; b</p>", "a<br>&gt; b", "<p>&lt;div&gt;</p>", "<p>5%</p>",
	"<p>~~~</p>", "<p>~~~ a</p>", "<p>``` a</p>", "<p>~~</p>", "<p>a ``` b</p>", "<p>`a`</p>", "<p>`</p>", "<p>\\`a`</p>", "<p>a``</p>",
	"<p>[a](b)</p>", "<p>[a]</p>", "<p>[</p>", "<p>[]</p>", "<p>![a](b)</p>", "!<a href=/x>a</a>", "<p>!</p>", "<p>[a\n\nb]</p>", "[a <a href=/x>b</a> c]", "<p>!!</p>", "<p>![</p>", "<p>]</p>", "<p>[a\\]</p>",
	"<p>*a*</p>", "<p>* a *</p>", "<p>a*b</p>", "<p>_a_</p>", "<p>a_b</p>", "<p>**a**</p>", "<p>*</p>", "<p>a *</p>", "<p>_é</p>", "<p>\\*a\\*</p>", "<p>\\</p>", "<p>a\\</p>", "<p>\\\\</p>",
	"<h1>a<br>b</h1>", "<h2>a ##</h2>", "<h2>a \\##</h2>", "<h1>#</h1>", "<h2></h2>", "<h2>a<br>日本 longer</h2>", "<h3>a # </h3>", "<h1>a\nb</h1>", "<h6>a</h6>", "<h2>##</h2>", "<h1><img src=a alt='b c'></h1>", "<h2>   a&nbsp;</h2>", "<h1>a<br><br>b</h1>", "<h1><p>a</p><p>b</p></h1>",
	"<h2><blockquote>a</blockquote></h2>", "<h2><h3>a</h3></h2>", "<h2>a<hr>b</h2>", "<h2><pre>a</pre></h2>", "<h2><ul><li>a</li></ul></h2>", "<a href=/x><h2>a</h2></a>", "<a href=/x><blockquote>a</blockquote></a>", "<a href=/x><pre>a</pre></a>", "<a href=/x><hr></a>", "<a href=/x><ul><li>a</li></ul></a>", "<b><h2>a</h2>b</b>", "<span><h3>a</h3></span>", "<a href=/x><h2>a</h2>b<h2>c</h2></a>", "<em><blockquote><p>a</p></blockquote></em>",
	"<a href=/x><p>a</p><p>b</p></a>", "<a href=/x>a\n\nb</a>", "<a href=/x><img src=/y alt=z></a>", "<a>a</a>", "<a href>a</a>", "<a href=/x></a>", "<a href=''></a>", "<a href=/x title='a \"b\"'>a</a>", "<a href=/x title=\"it's\">a</a>", "<a href=/x title='&quot;it&apos;s&quot;'>a</a>", "<a href=/x title='a\n\nb'>a</a>", "<a href='/x y'>a</a>", "<a href='a(b'>a</a>", "<a href='&lt;a&gt;'>a</a>", "<li><a href=/x>a</a></li>", "<a href=/x> a </a>b", "a<a href=/x> b</a>", "<a href=/x>a<br>b</a>", "<a href=/x>\n<div>a</div>\n</a>", "<a href=/x>[b]</a>",
	"<a href='http://%zz/a'>a</a>", "<a href='/a?b=%zz&c'>a</a>", "<a href='/?a&b=&=c&d=e=f'>a</a>", "<a href='?'>a</a>", "<a href='#a b'>a</a>", "<a href='mailto:a@b?subject=x y&body=%20'>a</a>", "<a href='data:,a b'>a</a>", "<a href='https://a.b/c?d=e f&g=h+i#j k'>a</a>", "<a href='//a.b/c'>a</a>", "<a href='HTTP://A.B/../C'>a</a>", "<a href=' /x '>a</a>", "<a href='/\u00e9?\u00e9=\u00e9'>a</a>", "<a href=':x'>a</a>", "<img src=:x alt=a>", "<a href='./a/../b'>a</a>", "<a href='/a%20b%2Fc'>a</a>",
	"<img>", "<img src=''>", "<img src=/x>", "<img alt=a>", "<img src=/x alt='a]b'>", "<img src=/x alt='a\nb' title='c\nd'>", "<img src='/x y' title=t>", "<img src=/x alt='[a]' title='\"'>", "<img src='data:image/png;base64,AA=='>",
	"<b>a</b><b>b</b>", "<b>a</b><i>b</i>", "<b><i>a</i></b>", "<b> a </b>b", "a<b>b</b>c", "<b>a<br>b</b>", "<b>a<br><br>b</b>", "<b></b>", "<b> </b>", "<b><p>a</p><p>b</p></b>", "<i>a</i> <i>b</i>", "<i>a</i><!-- c --><i>b</i>", "<b><b>a</b></b>", "<b>a<b>b</b></b>", "<strong>a*b</strong>", "<em>_a_</em>", "<b>a</b>\n<b>b</b>", "<b>、a</b>b", "<i>\n</i>",
	"<code></code>", "<code> </code>", "<code>`</code>", "<code>``a`b</code>", "<code>a\nb</code>", "<code> a</code>", "<code>a <b>b</b></code>", "<code>a<br>b</code>", "<code>&lt;</code>", "<code>a</code><code>b</code>", "<kbd>a</kbd> + <kbd>b</kbd>", "<code>\n\na</code>", "<tt>a</tt><samp>b</samp><var>c</var>",
	"<pre>a</pre>", "<pre>```</pre>", "<pre>~~~</pre>", "<pre>````\n~~~~</pre>", "<pre></pre>", "<pre>\n\n\na\n\n\n\nb</pre>", "<pre><code class='language-go lang-x'>a</code></pre>", "<pre class=go><code>a</code></pre>", "<pre><code>a</code>b<code>c</code></pre>", "<pre>a<br>b</pre>", "<pre><span>a</span>\n<div>b</div></pre>", "<pre>a <img src=x> b</pre>", "<pre><!-- c -->a</pre>", "<pre><style>b</style>a</pre>", "<pre><code class='lang-\n'>a</code></pre>", "<pre>\ta\r\nb</pre>", "<li><pre>a\nb</pre></li>", "<blockquote><pre>a\n\nb</pre></blockquote>", "<pre><pre>a</pre></pre>", "<pre><code><code>a</code></code></pre>", "<pre><h2>a</h2></pre>",
	"<ul><li>a</li></ul><ul><li>b</li></ul>", "<ul><li>a</li></ul><ol><li>b</li></ol>", "<ol><li>a</li></ol><ol start=3><li>b</li></ol>", "<ul><li>a</li></ul>text<ul><li>b</li></ul>", "<ul><li>a</li></ul><div><ul><li>b</li></ul></div>", "<ul></ul><ul><li>a</li></ul>", "<ul><li></li><li>a</li></ul>", "<ul>a<li>b</li></ul>", "<ul><ul><li>a</li></ul></ul>", "<ul><li>a<ul><li>b<ol><li>c</li></ol></li></ul></li></ul>", "<ol start=9><li>a</li><li>b</li></ol>", "<ol start=-3><li>a</li></ol>", "<ol start=x><li>a</li></ol>", "<ol start=99999999999999999999><li>a</li></ol>", "<ol reversed><li>a</li></ol>", "<ul><li>a</li><p>b</p></ul>", "<ul><li><p>a</p><p>b</p></li></ul>", "<ul><li>a<blockquote>b</blockquote></li></ul>", "<li>a</li>", "<li>a</li><li>b</li>", "<ul><li><h2>a</h2></li></ul>", "<ul><li><table><tr><td>a</td></tr></table></li></ul>", "<ul><li>- a</li></ul>", "<ol><li>1. a</li></ol>", "<ul><li><hr></li></ul>", "<ul><li><input type=checkbox> a</li></ul>", "<ul><li>a<br>b</li></ul>", "<ol><li>a</li>" + "<li>b</li><li>c</li><li>d</li><li>e</li><li>f</li><li>g</li><li>h</li><li>i</li><li>j</li></ol>", "<ul><li><ul><li>a</li></ul></li></ul>", "<menu><li>a</li></menu>", "<dl><dt>a</dt><dd>b</dd></dl>",
	"<blockquote>a</blockquote><blockquote>b</blockquote>", "<blockquote></blockquote>", "<blockquote><blockquote>a</blockquote></blockquote>", "<blockquote>a<br>b</blockquote>", "<blockquote><ul><li>a</li></ul></blockquote>", "<blockquote><h2>a</h2><p>b</p></blockquote>", "<blockquote><table><tr><td>a</td></tr></table></blockquote>", "<blockquote>\n\n</blockquote>",
	"<table><tr><td>a</td></tr></table>", "<table></table>", "<table><tr></tr></table>", "<table><tr><th>a</th><th>b</th></tr><tr><td>c</td></tr></table>", "<table><tr><td colspan=2>a</td><td rowspan=2>b</td></tr><tr><td>c</td><td>d</td></tr></table>", "<table><tr><td>a|b</td></tr></table>", "<table><tr><td>a<br>b</td></tr></table>", "<table><tr><td><p>a</p><p>b</p></td></tr></table>", "<table><tr><td><ul><li>a</li></ul></td></tr></table>", "<table><tr><td><pre>a\nb</pre></td></tr></table>", "<table><tr><td><table><tr><td>a</td></tr></table></td></tr></table>", "<table><caption>a</caption><tr><td>b</td></tr></table>", "<table role=presentation><tr><td>a</td></tr></table>", "<a href=/x><table><tr><td>a</td></tr></table></a>", "<b><table><tr><td>a</td></tr></table></b>", "<table><tbody><tr><td></td><td></td></tr></tbody></table>", "<table><thead><tr><td align=left>a</td><td align=right>b</td><td align=center>c</td><td style='text-align:right'>d</td></tr></thead></table>", "<table><tr><td>`a|b`</td><td><code>c|d</code></td></tr></table>", "<table><tfoot><tr><td>f</td></tr></tfoot><tr><td>a</td></tr></table>", "<table><tr><td><h2>a</h2></td></tr></table>", "<table><tr><td><blockquote>a</blockquote></td></tr></table>", "<table><colgroup><col></colgroup><tr><td>日本語</td></tr><tr><td>e\u0301</td></tr></table>", "<table><tr><td><hr></td></tr></table>", "<table><tr><td><img src=x></td></tr></table>", "<table><tr><td rowspan=9 colspan=9>a</td></tr></table>", "<table>text<tr><td>a</td></tr></table>", "<ul><li>a<table><tr><td>b</td></tr></table></li></ul>",
	"<hr>", "<p>a</p><hr><p>b</p>", "<br>", "<br><br>", "a<br><br>b", "<p><br></p>", "<p>a<br></p>", "<p><br>a</p>", "a<br>\n<br>\n<br>b", "a  <br>  b",
	"<!-- a -->", "<!--THE END-->", "a<!-- b -->c", "<!-- a --><ul><li>b</li></ul>",
	"<del>a</del>", "<s>a</s><s>b</s>", "<del></del>", "<del>a<del>b</del></del>", "<strike> a </strike>b", "<del><p>a</p></del>", "<b><s>a</s></b>", "<s>a</s> <del>b</del>",
	"<u>a <b>b</b></u>", "<sub>a *b*</sub>", "<kbd>a <i>b</i></kbd>", "<custom-block id=1>a<p>b</p></custom-block>", "<custom-el>a</custom-el>", "<small>a</small>", "<mark>a</mark>", "<custom-block><pre>a\nb</pre></custom-block>", "a<custom-el></custom-el>b", "<u><table><tr><td>a</td></tr></table></u>",
	"a \n b", " a", "a ", "a\tb", "a\u00a0b", "\u00a0", "a\u200bb", "a\r\nb", "&#0;", "\u00ad", "\ufeffa", "e\u0301", "&copy; &amp; &bogus;", "a <span> b</span> c", "<span>a</span> <span>b</span>", "<div>a</div> b <div>c</div>", "<p> a <b> b </b> c </p>", "a<script>b</script>c", "a <style>b</style> c", "<p>a</p>\n\n\n\n<p>b</p>", "<div><div>a</div></div>", "<textarea>a\nb</textarea>", "a<input>b", "<select><option>a<option>b</select>", "<button>a</button>", "<iframe>a</iframe>b", "<noscript>a</noscript>b", "<svg><title>a</title></svg>", "<math><mi>a</mi></math>", "<template>a</template>", "<video src=a>b</video>", "<details><summary>a</summary>b</details>", "<ruby>a<rt>b</rt></ruby>", "<plaintext>a", "<title>a</title>", "<frameset>", "<body><head>a</head>",
}

// atlasDoc puts pieces of the atlas next to and into each other.
func atlasDoc(r *R, max int) string {
	var b strings.Builder
	for {
		f := atlas[r.N(len(atlas))]
		if strings.HasPrefix(f, "<plaintext") && r.P(90) {
			continue
		}
		f = atlasNames(r, f)
		if r.P(25) {
			t := r.Pick("div", "blockquote", "li", "a", "b", "h2", "td", "pre", "custom-block", "u", "span", "section")
			f = "<" + t + ">" + f + "</" + t + ">"
		}
		b.WriteString(f)
		if r.P(40) {
			b.WriteString(r.Pick("\n", " ", "<p>"+placeholder+"</p>", placeholder, "<br>"))
		}
		if b.Len() >= max {
			return b.String()
		}
	}
}

// atlasNames replaces a text of one letter by a longer one.
func atlasNames(r *R, f string) string {
	if r.P(50) {
		return f
	}
	if i := strings.Index(f, ">a<"); i >= 0 {
		return f[:i+1] + r.Pick(placeholder, "lorem ipsum", "日本語", "a\nb", "*x*") + f[i+2:]
	}
	return f
}

// twin changes a few characters inside the texts and attribute values of a
// document, keeping its length: what was remembered about the one must not be
// used for the other.
func twin(r *R, doc string) string {
	b := []byte(doc)
	var free, other []int // letters between letters: in text, in attribute values
	tag, quote := false, false
	for i := range b {
		switch {
		case b[i] == '<':
			tag, quote = true, false
		case b[i] == '>' && !quote:
			tag = false
		case b[i] == '"' && tag:
			quote = !quote
		case i > 0 && i+1 < len(b) && letter(b[i-1]) && letter(b[i]) && letter(b[i+1]) && !strings.Contains(string(b[max(0, i-8):min(len(b), i+9)]), placeholder[:4]):
			if j := strings.LastIndexByte(doc[:i], '&'); j >= 0 && i-j < 10 {
				continue // keep character references
			}
			if !tag {
				free = append(free, i)
			} else if quote {
				other = append(other, i)
			}
		}
	}
	for n := r.In(1, 3); n > 0; n-- {
		if len(free) > 0 && (r.P(75) || len(other) == 0) {
			b[free[r.N(len(free))]] = r.Pick("*", "_", "`", "[", "]", " ", "-", "1", ".", "|", "~", "\n", "X")[0]
		} else if len(other) > 0 {
			b[other[r.N(len(other))]] = r.Pick("X", "%", " ", "_", ")")[0]
		}
	}
	return string(b)
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func tableDoc(r *R) string {
	g := &docGen{r: r, max: 250, large: true}
	g.table()
	g.b.WriteString("<p>" + placeholder + "</p>")
	return g.b.String()
}

// proseDoc is mostly plain text.
func proseDoc(r *R) string {
	var b strings.Builder
	for i := r.In(1, 3); i > 0; i-- {
		b.WriteString(r.Pick("<p>", "<h2>", "<li>", "<blockquote>"))
		for j := r.In(5, 120); j > 0; j-- {
			b.WriteString(r.Pick("lorem", "ipsum", "dolor", "sit", "amet", "consectetur") + r.Pick(" ", " ", " ", "\n", ", "))
			if r.P(2) {
				b.WriteString(r.Pick("<br>", "<b>bold</b> ", "<i>it</i> "))
			}
		}
		b.WriteString("end\n")
	}
	return b.String()
}

// bigDoc makes a document of at least n bytes whose markdown has about the same size.
func bigDoc(r *R, n int) string {
	var b strings.Builder
	i := 0
	for b.Len() < n {
		if r.P(80) {
			b.WriteString("<p>para " + strconv.Itoa(i) + " " + placeholder + " ünï lorem ipsum dolor sit amet</p>\n")
		} else {
			b.WriteString(genDoc(r, 300))
			b.WriteString("</table></ul></ol></blockquote></pre></div>\n")
		}
		i++
	}
	return b.String()
}
