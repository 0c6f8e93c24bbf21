package main

import (
	"strings"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
)

// The literals of the code under test lead the search towards inputs that make
// a difference to it: texts, names and attribute values it compares with,
// amounts, sizes and durations it has limits at. They are used only where an
// episode is made, never while it runs.

// usesDict says whether to draw from the literals this time: rarely, or often
// when the code has literals that the harness has not seen before.
func usesDict(r *R, rare, often int) bool {
	if len(vsim.Dict.Sfresh)+len(vsim.Dict.Ifresh)+len(vsim.Dict.Dfresh) > 0 {
		return r.P(often)
	}
	return r.P(rare)
}

func dictText(r *R) string {
	l := vsim.Dict.Sall
	if f := vsim.Dict.Sfresh; len(f) > 0 && r.P(70) {
		l = f
	}
	if len(l) == 0 {
		return "x"
	}
	s := l[r.N(len(l))]
	if !utf8.ValidString(s) || strings.Contains(s, "\x00") {
		return "x"
	}
	return s
}

// dictInt returns an amount of the code that is at most max, or one next to it; 0 if there is none.
func dictInt(r *R, max int) int {
	pick := func(l []int64) int {
		var ok []int64
		for _, n := range l {
			if n <= int64(max) {
				ok = append(ok, n)
			}
		}
		if len(ok) == 0 {
			return 0
		}
		return int(ok[r.N(len(ok))])
	}
	n := 0
	if r.P(85) {
		n = pick(vsim.Dict.Ifresh)
	}
	if n == 0 {
		n = pick(vsim.Dict.Iall)
	}
	if n == 0 {
		return 0
	}
	return min(max, n+r.PickI(0, 0, 1, 1, 2, -1))
}

// dictDur returns a duration of the code in nanoseconds, or 0.
func dictDur(r *R) int64 {
	l := vsim.Dict.Dall
	if f := vsim.Dict.Dfresh; len(f) > 0 {
		l = f
	}
	if len(l) == 0 {
		return 0
	}
	return l[r.N(len(l))]
}

// magic is what files of other kinds begin with; bytes the code has learnt of, often.
func magic(r *R) string {
	var l []byte
	for _, n := range vsim.Dict.Ifresh {
		if n < 256 {
			l = append(l, byte(n))
		}
	}
	if len(l) >= 2 && r.P(60) {
		var b []byte
		for n := r.In(2, 4); n > 0; n-- {
			b = append(b, l[r.N(len(l))])
		}
		return string(b) + r.Pick("", "\x08\x00")
	}
	return r.Pick("\x1f\x8b\x08", "PK\x03\x04", "%PDF-1.7\n", "\x00\x01", "\xfe\xff", "\xff\xfe", "\xff\xfe\x00\x00", "\xef\xbb\xbf", "\xef\xbb\xbf\xef\xbb\xbf", "\x89PNG\r\n", "BZh9", "\x28\xb5\x2f\xfd", "#!/bin/sh\n", "---\n", "MIME-Version: 1.0\r\n", "From ", "HTTP/1.1 200 OK\r\n\r\n", "\x1a", "\x04", "\f", "{\"html\":\"", "<?xml version=\"1.0\" encoding=\"iso-8859-1\"?>", "<!DOCTYPE html><meta charset=\"utf-16\">", "data:text/html,", "\x7fELF")
}

var dictTags = []string{"p", "div", "span", "a", "b", "i", "code", "pre", "li", "ul", "ol", "h1", "h2", "blockquote", "td", "u", "table", "s", "custom-block", "img", "section"}

// seasoned puts literals of the code into a document, or has things in it in
// amounts that the code knows.
func seasoned(r *R, doc string) string {
	// a place between two tags or characters
	place := func() int {
		from := len(doc) * r.N(100) / 100
		if i := strings.IndexByte(doc[from:], '<'); i >= 0 && r.P(70) {
			return from + i
		}
		for i := len(doc) * r.N(101) / 100; i < len(doc); i++ {
			if utf8.RuneStart(doc[i]) {
				return i
			}
		}
		return len(doc)
	}
	put := func(s string) {
		i := place()
		if j := strings.LastIndex(doc[:i], placeholder[:1]); j >= 0 && i-j < len(placeholder) { // not into a placeholder
			i = len(doc)
		}
		doc = doc[:i] + s + doc[i:]
	}
	for n := r.In(1, 3); n > 0; n-- {
		t := dictText(r)
		tag := r.Pick(dictTags...)
		attr := strings.NewReplacer(`"`, "&quot;").Replace(t)
		switch r.N(13) {
		case 0, 1:
			put(t)
		case 2:
			put("<p>" + t + "</p>")
		case 3:
			put("<" + tag + ">" + t + r.Pick("", " "+placeholder, dictText(r)) + "</" + tag + ">")
		case 4, 5: // an attribute of a tag that is there
			at := r.Pick("class", "class", "href", "title", "id", "src", "alt", "role", "style", "start", "lang", "type", "align", "colspan", dictText(r))
			for k, i := r.N(6), 0; i < len(doc) && k >= 0; i++ {
				if doc[i] == '<' && i+1 < len(doc) && letter(doc[i+1]) {
					k--
					j := i + 1
					for j < len(doc) && (letter(doc[j]) || doc[j] >= '0' && doc[j] <= '9' || doc[j] == '-') {
						j++
					}
					if k < 0 && j < len(doc) {
						doc = doc[:j] + " " + at + `="` + attr + `"` + doc[j:]
					}
				}
			}
		case 6:
			put("<" + tag + " " + r.Pick("class", "href", "src", "title", "role", "id", "alt", "data-x") + `="` + r.Pick("", "a ", "/") + attr + r.Pick("", " b", dictText(r)) + `">` + placeholder + "</" + tag + ">")
		case 7: // a name of a tag
			if name := strings.Trim(t, "<>/ "); name != "" && letter(name[0]) && !strings.ContainsAny(name, " <>/\"'=&\n") {
				put("<" + name + ">" + placeholder + "</" + name + ">")
			}
		case 8:
			put(r.Pick("<!--"+t+"-->", "<!DOCTYPE "+t+">", "<meta "+r.Pick("charset", "name", "content")+`="`+attr+`">`, "<title>"+t+"</title>", "<script>"+t+"</script>"))
		case 9: // after each other
			if k := dictInt(r, 2000); k > 0 {
				f := r.Pick("<b>x</b>", "<li>x</li>", "<tr><td>x</td></tr>", "<td>x</td>", "<p>x</p>", "x ", "<br>", "*", "\n", "`", "#", "<hr>", "<a href=/x>x</a>", "<ol><li>x</li></ol>", "日", "x", " ", "<pre>x</pre>", "<img src=/x>", "<h2>x</h2>", "<i>x</i> ")
				put(strings.Repeat(f, k))
			}
		case 10: // inside each other
			if k := dictInt(r, 200); k > 0 {
				f := r.Pick("div", "b", "blockquote", "span", "ul", "ul><li", "section", "a", "i", "u", "table><tr><td")
				in := f[strings.LastIndexByte(f, '<')+1:]
				put(strings.Repeat("<"+f+">", k) + placeholder + strings.Repeat("</"+in+">", k))
			}
		case 11: // a value of that length, or that number
			if k := dictInt(r, 20_000); k > 0 {
				put(r.Pick("<p>"+strings.Repeat("x", k)+"</p>", "<a href=/"+strings.Repeat("x", k-1)+">x</a>", "<img src=/x alt='"+strings.Repeat("y", k)+"'>", "<code>"+strings.Repeat("z ", k/2)+"</code>", "<pre>"+strings.Repeat("v\n", k/2)+"</pre>", "<h1>"+strings.Repeat("x", k)+"</h1>"))
			}
		case 12: // a document of that size
			if k := dictInt(r, 70_000); k > len(doc) {
				doc += "<p>" + strings.Repeat("x", max(0, k-len(doc)-7)) + "</p>"
			}
		}
	}
	return doc
}
