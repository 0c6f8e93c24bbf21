package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
	"golang.org/x/net/html"
)

// scriptReader delivers data in pieces of scripted sizes; it may use all of
// the caller's buffer as scratch space, as io.Reader allows.
type scriptReader struct {
	data    []byte
	sizes   []int
	i       int
	withEOF bool
	scratch bool
	empties int // left: at most this many empty reads in a row are given
	run     int
	reads   int
	ended   int // reads after io.EOF was reported
	eof     bool
	slow    []time.Duration // simulated time before each read
}

func (s *scriptReader) Read(p []byte) (int, error) {
	vsim.YS()
	if len(s.slow) > 0 {
		vsim.Sleep(s.slow[s.reads%len(s.slow)])
	}
	s.reads++
	if s.eof {
		s.ended++
		return 0, io.EOF
	}
	if len(s.data) == 0 {
		s.eof = true
		return 0, io.EOF
	}
	n := len(p)
	if len(s.sizes) > 0 {
		n = s.sizes[s.i%len(s.sizes)]
		s.i++
	}
	if n == 0 {
		if s.run < 40 {
			s.run++
			return 0, nil
		}
		n = 1
	}
	s.run = 0
	n = min(n, len(p))
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	if s.scratch {
		for i := n; i < min(len(p), n+20_000); i++ {
			p[i] = "<b>&x;</b>"[i%10]
		}
	}
	if len(s.data) == 0 && s.withEOF {
		s.eof = true
		return n, io.EOF
	}
	return n, nil
}

// lenReader also offers Len, Seek, WriteTo, ReadByte and UnreadByte, like the readers of bytes and strings.
type lenReader struct{ *bytes.Reader }

// ------------------------------------------------------------------------ C08

func init() {
	define(&propDef{
		id: "C08", sched: 1, batch: []int{1, 10, 80}, quick: 35, pool: [3]int{14, 8, 1500},
		gen: genC08, run: runC08, shrink: shrinkC08,
		rule: "A run delivers one document (pool, corpus, hostile bytes, or sizes around 4 KiB, 64 KiB and 1 MiB with numbered paragraphs) to ConvertReader through several seeded delivery scripts: piece sizes, empty reads, data with io.EOF, dirty buffers, readers of other kinds, partly consumed readers. Non-trivial: a script with at least two reads; distinct: hash of document, configuration and script.",
	})
}

func genC08(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	ps := p.pickSpec(r)
	ep.Specs = []Spec{p.Specs[ps]}
	switch k := r.N(100); {
	case k < 55:
		ep.P["doc"] = addEntry(ep, p, 0, p.pick(r, ps))
		ep.P["kind"] = 0
	case k < 75:
		ep.P["kind"] = 1 // hostile bytes
		ep.P["seed"] = r.In(1, 1<<30)
	case k < 76 && r.P(70):
		ep.P["kind"] = 3 // a large document of which little is left
		ep.P["seed"] = r.In(1, 1<<30)
		ep.P["size"] = r.PickI(1<<20, 2<<20, 4<<20, 5_000_000, 8<<20, 10_000_000, 10<<20, 16<<20, 17_000_000, 33_600_000) + r.PickI(-300, 0, 300)
		if r.P(50) {
			ep.P["size"] = r.In(1_000_000, 12_000_000)
		}
	case k < 99:
		ep.P["kind"] = 2 // size around a boundary
		ep.P["seed"] = r.In(1, 1<<30)
		ep.P["size"] = r.PickI(4096, 4096, 8192, 16384, 32768, 65536) + r.PickI(0, 0, 1, -1, 2, -7, 100, 1000)
	default:
		ep.P["kind"] = 2
		ep.P["seed"] = r.In(1, 1<<30)
		ep.P["size"] = r.PickI(1<<20, 200_000, 300_000) + r.In(-2, 2)
	}
	if n := dictInt(r, 200_000); n > 100 && ep.P["kind"] == 2 && usesDict(r, 5, 50) {
		ep.P["size"] = n
	}
	var ops []Op
	for n := r.In(1, 3); n > 0; n-- {
		op := Op{K: "script", S: r.Pick("script", "script", "script", "script", "script", "bufio", "bytes", "used", "limited", "section", "pipe", "buffer", "tee", "file", "writer", "stat", "len", "bytewise", "ospipe", "readat")}
		for j := r.In(1, 6); j > 0; j-- {
			op.L = append(op.L, r.PickI(1, 1, 1, 2, 3, 7, 13, 64, 511, 512, 1000, 4095, 4096, 4097, 1<<20, 0))
		}
		if n := dictInt(r, 200_000); n > 0 && usesDict(r, 5, 15) {
			op.L = append([]int{n}, op.L...)
		}
		if r.P(15) {
			op.L = []int{1}
		}
		if ep.P["size"] > 100_000 {
			op.L = append(op.L, 5000, 70000, 1<<20)
		}
		if ep.P["kind"] == 3 {
			op.L = []int{r.PickI(4096, 65536, 1<<20), 70000, r.PickI(4096, 1<<20)}
		}
		op.A = r.N(4) // 1: data with EOF, 2: scratch, 3: both
		if r.P(15) {
			op.A += 4 // a slow one
		}
		op.B = r.In(0, 50)
		ops = append(ops, op)
	}
	ep.Tasks = [][]Op{ops}
	return ep
}

func shrinkC08(ep *Ep) []*Ep {
	out := shrinkOps(ep)
	for i, op := range ep.Tasks[0] {
		if len(op.L) > 1 {
			for j := range op.L {
				c := cloneEp(ep)
				c.Tasks[0][i].L = append(append([]int(nil), op.L[:j]...), op.L[j+1:]...)
				out = append(out, c)
			}
		}
		if op.A != 0 {
			c := cloneEp(ep)
			c.Tasks[0][i].A = 0
			out = append(out, c)
		}
	}
	return out
}

var hostile = []string{"\r\n", "\r", "\n", "\x00", "\xef\xbb\xbf", "\xff\xfe", "\xc3", "\xe2\x82", "é", "日本", "😀", "&am", "&amp;", "&#x26;", "&#", "<", "</", "<!--", "-->", "<!", "<p", "<p>", "</p>", "<b>", "</b", "<a href=\"", "\">", "<pre>", "</pre>", "<li>", "<table><tr><td>", "<title>", "</title>", "<script>", "</script>", "<textarea>", "x", " ", "word ", "<![CDATA[", "<plaintext>", "<svg>", "</svg>", "<br/>", "\t"}

func c08Doc(ep *Ep, tok int) (string, int) {
	r := NewR(uint64(ep.P["seed"]))
	switch ep.P["kind"] {
	case 0:
		return fill(ep.Entries[ep.P["doc"]].Doc, tok), 0
	case 1:
		var b strings.Builder
		if r.P(20) {
			b.WriteString(magic(r))
		}
		for n := r.In(3, 60); n > 0; n-- {
			b.WriteString(hostile[r.N(len(hostile))])
		}
		return b.String() + " " + token(tok), 0
	case 3:
		first := fmt.Sprintf("<p>n0 %s ünï &amp; x</p>\n", token(tok))
		last := fmt.Sprintf("<p>n1 %s ünï &amp; x</p>\n<p>n2 %s ünï &amp; x</p>\n", token(tok), token(tok))
		n := ep.P["size"] - len(first)
		k := r.N(4)
		if k == 1 && n > 6_000_000 {
			k = 0 // other bytes are walked through one by one
		}
		switch k {
		case 0:
			return first + "<!--" + strings.Repeat("c", n) + "-->" + last, 3
		case 1:
			return first + strings.Repeat(" ", n) + last, 3
		case 2:
			return first + "<script>" + strings.Repeat("/", n) + "</script>" + last, 3
		}
		return first + "<span title='" + strings.Repeat("t", n) + "'></span>" + last, 3
	}
	size := ep.P["size"]
	mixed := r.P(30) && size < 70_000
	var b strings.Builder
	i := 0
	for b.Len() < size-40 {
		if mixed && r.P(15) {
			b.WriteString(genDoc(r, 200))
			b.WriteString("</table></table></ul></ol></blockquote></code></pre></a></div>\n")
		}
		fmt.Fprintf(&b, "<p>n%d %s ünï &amp; x</p>\n", i, placeholder)
		i++
	}
	s := b.String()
	if len(s) < size-8 {
		s += "<p>" + strings.Repeat("y", size-7-len(s)) + "</p>"
	}
	if mixed {
		i = 0
	}
	return fill(s, tok), i
}

func runC08(x *run) {
	conv := x.ep.Specs[0].Build()
	x.sim.SetMax(1_000_000_000)
	x.task("client", nil, func() {
		tok := x.tok(0, 0)
		doc, paras := c08Doc(x.ep, tok)
		n, err := html.Parse(strings.NewReader(doc))
		if err != nil {
			return
		}
		var wb []byte
		pv, _ := safely(func() { wb, err = callNode(conv, n) })
		if pv != nil {
			x.probe("conversion panics whatever the delivery")
			return
		}
		if err != nil {
			x.note("error", "ConvertNode failed: %v", err)
			return
		}
		want := string(wb)
		if e := x.ep.P["kind"]; e == 0 && x.ep.Entries[x.ep.P["doc"]].Domain == "" {
			if w := fill(x.ep.Entries[x.ep.P["doc"]].Out, tok); w != want {
				x.note("output", "ConvertNode differs from its solo result: %s", diffAt(want, w))
			}
		}
		if out, err := callString(conv, doc); err != nil || out != want {
			x.note("string", "ConvertString and ConvertNode of the parsed document differ (error %v): %s", err, diffAt(out, want))
		}
		if paras > 0 {
			pos := 0
			for i := 0; i < paras; i++ {
				w := fmt.Sprintf("n%d %s ünï & x", i, token(tok))
				j := strings.Index(want[pos:], w)
				if j < 0 {
					x.note("incomplete", "paragraph %d of %d (document of %d bytes) is missing from the markdown (%d bytes)", i, paras, len(doc), len(want))
					break
				}
				pos += j + len(w)
			}
		}
		for oi, op := range x.ep.Tasks[0] {
			sched()
			r, sr := c08Reader(op, doc)
			var b []byte
			var err error
			pv, stack := safely(func() { b, err = callReader(conv, r) })
			if pv != nil {
				x.note("panic", "script %d: panic %v at %s", oi, pv, stackTop(stack))
				continue
			}
			if err != nil {
				x.note("error", "script %d (%s %v): ConvertReader failed: %v", oi, op.S, op.L, err)
			} else if string(b) != want {
				x.note("delivery", "script %d (%s %v, flags %d): the markdown depends on how the bytes are delivered: %s", oi, op.S, op.L, op.A, diffAt(string(b), want))
			}
			if f, ok := r.(*os.File); ok {
				if _, err := f.Stat(); err != nil {
					x.note("closed", "script %d: the caller's file was closed", oi)
				}
				f.Close()
			}
			if sr != nil {
				x.probes["reads"] += sr.reads
				if sr.reads < 2 {
					x.out.Triv = true
				}
			}
			x.faults["split "+op.S]++
		}
	})
	x.after = append(x.after, func() { x.out.Pre++ })
}

func slowness(k int) []time.Duration {
	d := []time.Duration{time.Millisecond, 0, time.Second, 31 * time.Second, 0, 0, 6 * time.Minute, 0, 2 * time.Hour}
	return d[k%5:]
}

// writerTo writes the bytes of a reader with one Write for each Read.
type writerTo struct{ r io.Reader }

func (t writerTo) WriteTo(w io.Writer) (int64, error) {
	buf := make([]byte, 700)
	var all int64
	empty := 0
	for {
		n, err := t.r.Read(buf)
		if empty++; n > 0 {
			empty = 0
		}
		if empty > 100 && err == nil {
			err = io.ErrNoProgress
		}
		if n > 0 {
			m, werr := w.Write(buf[:n])
			all += int64(m)
			if werr != nil {
				return all, werr
			}
		}
		if err == io.EOF {
			return all, nil
		}
		if err != nil {
			return all, err
		}
	}
}

// tempFile is an open file whose first part has been read. It is gone from its
// directory already.
func tempFile(read, rest string) *os.File {
	f, err := os.CreateTemp("/dev/shm", "vsim-reader")
	if err != nil {
		return nil
	}
	os.Remove(f.Name())
	f.WriteString(read + rest)
	f.Seek(int64(len(read)), io.SeekStart)
	return f
}

// pipeFile is the reading end of a pipe that holds the document.
func pipeFile(doc string) *os.File {
	if len(doc) > 60_000 {
		return nil
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil
	}
	w.WriteString(doc)
	w.Close()
	return r
}

// stater has a size that says nothing about how much can be read.
type stater struct{ n int64 }

func (s stater) Stat() (os.FileInfo, error) { return fileInfo(s), nil }
func (s stater) Size() int64                { return s.n }

type fileInfo struct{ n int64 }

func (f fileInfo) Name() string       { return "x" }
func (f fileInfo) Size() int64        { return f.n }
func (f fileInfo) Mode() os.FileMode  { return 0o444 }
func (f fileInfo) ModTime() time.Time { return time.Time{} }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() any           { return nil }

// partReader says how much it could give at once.
type partReader struct {
	*scriptReader
	n int
}

func (p partReader) Len() int { return min(p.n, len(p.data)/2) }

// byteReader also offers single bytes and runes.
type byteReader struct {
	io.Reader
	last []byte // at most one byte, read last
	back []byte
}

func (b *byteReader) Read(p []byte) (int, error) {
	if len(b.back) > 0 && len(p) > 0 {
		n := copy(p, b.back)
		b.back = b.back[n:]
		return n, nil
	}
	n, err := b.Reader.Read(p)
	if n > 0 {
		b.last = []byte{p[n-1]}
	}
	return n, err
}

func (b *byteReader) ReadByte() (byte, error) {
	p := make([]byte, 1)
	for i := 0; i < 100; i++ {
		n, err := b.Read(p)
		if n > 0 {
			b.last = []byte{p[0]}
			return p[0], nil // an error comes again
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (b *byteReader) UnreadByte() error {
	if b.last == nil {
		return bufio.ErrInvalidUnreadByte
	}
	b.back, b.last = append(b.last, b.back...), nil
	return nil
}

func c08Reader(op Op, doc string) (io.Reader, *scriptReader) {
	sr := &scriptReader{data: []byte(doc), sizes: op.L, withEOF: op.A&1 != 0, scratch: op.A&2 != 0}
	if op.A&4 != 0 {
		sr.slow = slowness(op.B)
	}
	switch op.S {
	case "buffer": // partly read
		junk := "<h1>already read</h1>" + strings.Repeat("z", op.B)
		b := bytes.NewBuffer([]byte(junk + doc))
		b.Next(len(junk))
		return b, nil
	case "tee":
		return io.TeeReader(sr, io.Discard), sr
	case "writer": // offers WriteTo
		return struct {
			io.Reader
			io.WriterTo
		}{sr, writerTo{sr}}, sr
	case "file":
		if f := tempFile("<h1>already read</h1>", doc); f != nil {
			return f, nil
		}
	case "ospipe": // a file whose size is said to be 0
		if f := pipeFile(doc); f != nil {
			return f, nil
		}
	case "stat": // of which the size is not known
		return struct {
			io.Reader
			stater
		}{sr, stater{min(int64(op.B), int64(len(doc)/2))}}, sr
	case "len": // of which only a part is there yet
		return partReader{sr, op.B}, sr
	case "readat": // ReadAt counts from the beginning of something larger
		return struct {
			io.Reader
			io.ReaderAt
		}{sr, strings.NewReader("<h1>before</h1>" + doc)}, sr
	case "bytewise":
		return &byteReader{Reader: sr}, sr
	case "bufio":
		return bufio.NewReaderSize(sr, 16+op.B), sr
	case "bytes":
		return lenReader{bytes.NewReader([]byte(doc))}, nil
	case "used":
		junk := "<h1>already read</h1>" + strings.Repeat("z", op.B)
		br := bytes.NewReader([]byte(junk + doc))
		io.CopyN(io.Discard, br, int64(len(junk)))
		if op.A&1 != 0 {
			sr := strings.NewReader(junk + doc)
			sr.Seek(int64(len(junk)), io.SeekStart)
			return sr, nil
		}
		return br, nil
	case "limited":
		sr.data = append(sr.data, "<p>beyond the limit</p>"...)
		return io.LimitReader(sr, int64(len(doc))), sr
	case "section":
		return io.NewSectionReader(strings.NewReader("<h1>before</h1>"+doc+"<p>after</p>"), 15, int64(len(doc))), nil
	case "pipe":
		h := len(doc) * min(op.B, 50) / 50
		return io.MultiReader(&scriptReader{data: []byte(doc[:h]), sizes: op.L}, &scriptReader{data: []byte(doc[h:]), sizes: op.L, withEOF: op.A&1 != 0}), nil
	}
	return sr, sr
}

// ------------------------------------------------------------------------ C09

func init() {
	define(&propDef{
		id: "C09", sched: 1, batch: []int{1, 10, 80}, quick: 30, pool: [3]int{14, 8, 1500},
		gen: genC09, run: runC09, shrink: shrinkOps,
		rule: "A run gives ConvertReader readers that fail at a seeded offset of a document in a seeded way (error alone or with data, io.ErrUnexpectedEOF, an error wrapping io.EOF, an error on the first read, endless empty reads, an error that a retry would get past), with healthy conversions in between. Non-trivial: the failure was delivered; distinct: hash of document, offset, piece sizes and kind of failure.",
	})
}

var failKinds = []string{"error", "unexpectedEOF", "wrapEOF", "noprogress", "canceled", "EOFlike", "closedpipe", "timeout", "shortbuffer", "ctxCanceled", "ctxDeadline", "deadline", "joinEOF", "uncomparable", "noprogressNow", "patherr", "osclosed", "epipe", "reset", "netclosed", "again", "checksum", "permission", "unsupported", "quiet", "nilptr", "toolong", "join", "shortwrite", "eofText", "deep", "exist", "notexist", "abort"}

// httpAbort is http.ErrAbortHandler if the code knows about it.
var httpAbort = errors.New("net/http: abort Handler")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// eofLike claims to be io.EOF when asked with errors.Is.
type eofLike struct{}

func (eofLike) Error() string        { return "connection reset (like EOF)" }
func (eofLike) Is(target error) bool { return target == io.EOF }

func failErr(kind string) error {
	switch kind {
	case "unexpectedEOF":
		return io.ErrUnexpectedEOF
	case "wrapEOF":
		return fmt.Errorf("connection lost: %w", io.EOF)
	case "canceled":
		return errors.New("context canceled")
	case "EOFlike":
		return eofLike{}
	case "closedpipe":
		return io.ErrClosedPipe
	case "timeout":
		return timeoutErr{}
	case "shortbuffer":
		return io.ErrShortBuffer
	}
	switch kind {
	case "ctxCanceled":
		return context.Canceled
	case "ctxDeadline":
		return fmt.Errorf("download: %w", context.DeadlineExceeded)
	case "deadline":
		return os.ErrDeadlineExceeded
	case "joinEOF":
		return errors.Join(io.EOF, errors.New("checksum mismatch"))
	case "uncomparable":
		return listErr{"a", "b"}
	case "noprogressNow":
		return io.ErrNoProgress
	case "patherr":
		return &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}
	case "osclosed":
		return &os.PathError{Op: "read", Path: "|0", Err: os.ErrClosed}
	case "epipe":
		return os.NewSyscallError("read", syscall.EPIPE)
	case "reset":
		return &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	case "netclosed":
		return &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	case "again":
		return os.NewSyscallError("read", syscall.EAGAIN)
	case "checksum":
		return gzip.ErrChecksum
	case "permission":
		return &os.PathError{Op: "read", Path: "x", Err: fs.ErrPermission}
	case "unsupported":
		return errors.ErrUnsupported
	case "quiet":
		return textErr("")
	case "nilptr":
		return (*ptrErr)(nil)
	case "toolong":
		return bufio.ErrTooLong
	case "join":
		return errors.Join(errors.New("first"), errors.New("second"))
	case "shortwrite":
		return io.ErrShortWrite
	case "eofText":
		return errors.New("EOF")
	case "exist":
		return &os.PathError{Op: "open", Path: "x", Err: fs.ErrExist}
	case "notexist":
		return os.ErrNotExist
	case "abort":
		return httpAbort
	case "deep":
		return fmt.Errorf("body: %w", fmt.Errorf("chunk: %w", io.ErrUnexpectedEOF))
	}
	return errors.New("disk error")
}

type textErr string

func (t textErr) Error() string { return string(t) }

// ptrErr is an error also as a nil pointer.
type ptrErr struct{}

func (*ptrErr) Error() string { return "no more" }

// listErr cannot be compared with ==.
type listErr []string

func (l listErr) Error() string { return strings.Join(l, ", ") }
func (l listErr) Is(target error) bool {
	t, ok := target.(listErr)
	return ok && l.Error() == t.Error()
}

// failReader delivers data and then fails.
type failReader struct {
	data    []byte
	sizes   []int
	i       int
	with    bool // the error comes together with the last bytes
	endless bool // no error: empty reads for ever
	scratch bool
	err     error
	rest    []byte // what a retry would get
	failed  bool
	after   int // reads after the failure
	empties int
	reads   int
	slow    []time.Duration
}

const endlessMax = 20_000

func (f *failReader) Read(p []byte) (int, error) {
	vsim.YS()
	if len(f.slow) > 0 {
		vsim.Sleep(f.slow[f.reads%len(f.slow)])
	}
	f.reads++
	if f.failed {
		f.after++
		n := copy(p, f.rest)
		f.rest = f.rest[n:]
		if n == 0 {
			return 0, io.EOF
		}
		return n, nil
	}
	if len(f.data) == 0 {
		if f.endless {
			f.empties++
			if f.empties > endlessMax {
				f.failed = true
				return 0, errors.New("gave up: the caller reads for ever without progress")
			}
			return 0, nil
		}
		f.failed = true
		return 0, f.err
	}
	n := len(p)
	if len(f.sizes) > 0 {
		n = max(1, f.sizes[f.i%len(f.sizes)])
		f.i++
	}
	n = min(n, len(p))
	n = copy(p[:n], f.data)
	f.data = f.data[n:]
	if f.scratch {
		for i := n; i < min(len(p), n+20_000); i++ {
			p[i] = "<b>&x;</b>"[i%10]
		}
	}
	if len(f.data) == 0 && f.with && !f.endless {
		f.failed = true
		return n, f.err
	}
	return n, nil
}

func genC09(r *R, p *Pool) *Ep {
	ep := &Ep{P: map[string]int{}}
	ps := p.pickSpec(r)
	ep.Specs = []Spec{p.Specs[ps]}
	nt := r.PickI(1, 1, 2)
	for t := 0; t < nt; t++ {
		var ops []Op
		for n := r.In(2, 5); n > 0; n-- {
			e := addEntry(ep, p, 0, p.pick(r, ps))
			if r.P(25) {
				ops = append(ops, Op{K: "conv", E: e, Via: vias[r.N(len(vias))]})
				continue
			}
			op := Op{K: "fail", E: e, S: failKinds[r.N(len(failKinds))], A: r.In(0, 1000), B: r.N(8)}
			if r.P(30) {
				op.Via = r.Pick("bufio", "tee", "multi", "limited", "writer", "chain")
			}
			if r.P(10) {
				op.C = r.In(1, 9) // slow
			}
			for j := r.In(0, 4); j > 0; j-- {
				op.L = append(op.L, r.PickI(1, 2, 7, 64, 512, 4096))
			}
			if r.P(15) {
				op.Tok = r.PickI(4096, 8192, 65536, 4095, 4097, 512, 1<<17) // document size
				if n := dictInt(r, 200_000); n > 64 && usesDict(r, 10, 50) {
					op.Tok = n
				}
			}
			if r.P(15) {
				op.A = r.PickI(0, 1000)
			}
			ops = append(ops, op)
		}
		ep.Tasks = append(ep.Tasks, ops)
	}
	e := addEntry(ep, p, 0, p.pick(r, ps))
	ep.Final = []Op{{K: "conv", E: e, Via: "reader"}}
	return ep
}

func runC09(x *run) {
	conv := x.ep.Specs[0].Build()
	do := func(ti, oi int, op Op) {
		if op.K == "conv" {
			o := op
			x.checkConv(conv, ti, oi, o)
			return
		}
		doc := fill(x.ep.Entries[op.E].Doc, x.tok(ti, oi))
		if op.Tok > 0 {
			doc = fill(bigDoc(NewR(uint64(op.Tok)), op.Tok), x.tok(ti, oi))[:op.Tok]
		}
		off := len(doc) * op.A / 1000
		f := &failReader{data: []byte(doc[:off]), rest: []byte(doc[off:]), sizes: op.L, with: op.B&1 != 0, scratch: op.B&4 != 0, err: failErr(op.S)}
		if op.B&2 != 0 {
			f.rest = nil
		}
		if op.S == "noprogress" {
			f.endless, f.err = true, io.ErrNoProgress
		}
		var b []byte
		var err error
		who := fmt.Sprintf("operation %d of task %d (%s at byte %d of %d)", oi, ti, op.S, off, len(doc))
		var r io.Reader = f
		if op.C > 0 {
			f.slow = slowness(op.C)
		}
		direct := true
		switch op.Via {
		case "bufio":
			r, direct = bufio.NewReaderSize(f, 16+op.B*100), false
		case "tee":
			r = io.TeeReader(f, io.Discard)
		case "multi":
			r = io.MultiReader(f, strings.NewReader("<p>beyond the failure</p>"))
		case "chain":
			r = io.MultiReader(strings.NewReader("<p>before</p>"), f)
		case "limited":
			r = io.LimitReader(f, int64(off)+1)
		case "writer":
			r = struct {
				io.Reader
				io.WriterTo
			}{f, writerTo{f}}
		}
		pv, stack := safely(func() { b, err = callReader(conv, r) })
		x.faults["reader: "+op.S]++
		switch {
		case pv != nil:
			x.note("panic", "%s: panic %v at %s", who, pv, stackTop(stack))
		case err == nil:
			x.note("silent", "%s: ConvertReader returned no error (%d bytes of markdown)", who, len(b))
		case !errors.Is(err, f.err):
			x.note("identity", "%s: the error returned does not match the reader's: %v", who, err)
		case len(b) > 0:
			x.note("both", "%s: markdown returned together with the error", who)
		}
		if f.after > 0 && direct {
			x.note("retry", "%s: the reader was read %d more times after it had failed", who, f.after)
		}
		x.probe("failed")
	}
	for ti, ops := range x.ep.Tasks {
		x.task(fmt.Sprintf("client%d", ti), nil, func() {
			for oi, op := range ops {
				sched()
				do(ti, oi, op)
			}
		})
	}
	for i, op := range x.ep.Final {
		x.final(func() {
			do(62, i, op)
			// a healthy reader is not read again after io.EOF
			for fl := 0; fl < 2; fl++ {
				s := &scriptReader{data: []byte("<p>a</p>"), sizes: []int{3}, withEOF: fl == 1}
				if _, err := callReader(conv, s); err != nil {
					x.note("error", "a healthy reader failed afterwards: %v", err)
				}
				if s.ended > 0 {
					x.note("retry", "a reader was read %d more times after io.EOF", s.ended)
				}
			}
		})
	}
	x.after = append(x.after, func() { x.out.Triv = x.probes["failed"] == 0; x.out.Pre++ })
}

var _ converter.Plugin
