// vinstr prepares an instrumented build of the repository under test without
// touching it: it writes rewritten copies of the repository's current source
// files and of a few Go standard library files to an output directory, plus
// overlay.json for "go build -overlay".
//
//	vinstr -repo /repo -goroot GOROOT -verif /verif -out DIR
//
// Rewrites of repository code (all on the same line, so line numbers in
// stacks and race reports stay those of the real file):
//   - a scheduling point vsim.Y(id) before every statement
//   - import "sync" -> vsync, the simulator's primitives of the same API
//   - "go f(x)" -> vsim.Go, so goroutines become simulated tasks
//   - channel operations, select, clocks and timers of time -> vsim's
//   - import "context" -> a copy of it that is instrumented the same way
//
// Exit status 2 on any trouble.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// cliDir holds the command line program's main package.
const cliDir = "cli/html2markdown"

const module = "github.com/JohannesKaufmann/html-to-markdown/v2"

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vinstr: "+format+"\n", a...)
	os.Exit(2)
}

type site struct {
	file string
	fn   string
	line int
}

var (
	sites   []site
	overlay = map[string]string{}
	outDir  string
	// the literals of the code as it was when the harness was written
	dictBase, dictOut string
	nfile             int
	mains             int
	stats             struct{ files, sync, gos, chans int }
	// chanRange holds "file:offset" of the range statements over channels.
	chanRange = map[string]bool{}
)

func put(target string, content []byte) {
	nfile++
	name := fmt.Sprintf("%04d_%s", nfile, filepath.Base(target))
	p := filepath.Join(outDir, name)
	if err := os.WriteFile(p, content, 0o644); err != nil {
		die("%v", err)
	}
	overlay[target] = p
}

func main() {
	repo := flag.String("repo", "/repo", "")
	goroot := flag.String("goroot", "", "")
	verif := flag.String("verif", "/verif", "")
	flag.StringVar(&outDir, "out", "", "")
	flag.StringVar(&dictOut, "dict", "", "write the literals to this file")
	flag.Parse()
	if outDir == "" || *goroot == "" {
		die("missing -out or -goroot")
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	abs, err := filepath.Abs(outDir)
	if err != nil {
		die("%v", err)
	}
	outDir = abs
	dictBase = filepath.Join(*verif, "sim/dict_base.txt")

	instrumentRepo(*repo)
	addSim(*repo, *verif)
	addContext(*repo, *goroot)
	addStd(*goroot, *verif)

	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("vinstr: %d files, %d scheduling points, %d sync imports, %d go statements, %d channel operations\n", stats.files, len(sites), stats.sync, stats.gos, stats.chans)
}

// ---------------------------------------------------------------- repository

type edit struct {
	off, end int // replace [off,end) by text
	text     string
	seq      int
}

func instrumentRepo(repo string) {
	var files []string
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if info.IsDir() {
			switch {
			case strings.HasPrefix(filepath.Base(p), ".") && rel != ".",
				filepath.Base(p) == "testdata", filepath.Base(p) == "vendor",
				rel == "examples", rel == "internal/tester", rel == "internal/vsim":
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil && rel != "." {
				return filepath.SkipDir // a nested module
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	findChanRanges(repo, files)
	for _, f := range files {
		instrumentFile(repo, f)
	}
	if mains != 1 {
		die("%d main functions in %s", mains, cliDir)
	}
	putDict(repo)
	var b bytes.Buffer
	b.WriteString("package vsim\n\nfunc init() {\n\tsites = []siteInfo{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t{%q, %q, %d},\n", s.file, s.fn, s.line)
	}
	b.WriteString("\t}\n}\n")
	put(filepath.Join(repo, "internal/vsim/zsites.go"), b.Bytes())
}

// findChanRanges type-checks the packages that use channels at all.
func findChanRanges(repo string, files []string) {
	dirs := map[string]bool{}
	for _, f := range files {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		ranges, chans := false, false
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.RangeStmt:
				ranges = true
			case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
				chans = true
			case *ast.UnaryExpr:
				chans = chans || n.Op == token.ARROW
			}
			return true
		})
		_ = ranges
		if chans {
			dirs[filepath.Dir(f)] = true
		}
	}
	if len(dirs) == 0 {
		return
	}
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=ImportPath,Export,Dir,GoFiles", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	type pkg struct {
		ImportPath, Export, Dir string
		GoFiles                 []string
	}
	export := map[string]string{}
	byDir := map[string]pkg{}
	for dec := json.NewDecoder(bytes.NewReader(out)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		export[p.ImportPath] = p.Export
		byDir[p.Dir] = p
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if export[path] == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(export[path])
	})
	for d := range dirs {
		p, ok := byDir[d]
		if !ok {
			continue
		}
		var afs []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(d, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			afs = append(afs, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, afs, info)
		for _, af := range afs {
			ast.Inspect(af, func(n ast.Node) bool {
				if r, ok := n.(*ast.RangeStmt); ok {
					if t := info.Types[r.X].Type; t != nil {
						if _, ok := t.Underlying().(*types.Chan); ok {
							pos := fset.Position(r.Pos())
							chanRange[fmt.Sprintf("%s:%d", pos.Filename, pos.Offset)] = true
						}
					}
				}
				return true
			})
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// timeNames are the names of package time that have a simulated counterpart.
var timeNames = map[string]string{"Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "Timer": "Timer",
	"NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "Tick", "Now": "WallNow", "Since": "Since", "Until": "Until"}

// procNames are the names of packages os and runtime by which the library could
// tell one process or machine from another. (The CLI may look at these.)
var procNames = map[string]map[string]string{
	"os":      {"Getenv": "Getenv", "LookupEnv": "LookupEnv"},
	"runtime": {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine", "AddCleanup": "AddCleanup", "SetFinalizer": "SetFinalizer"},
}

func instrumentFile(repo, path string) {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	rel, _ := filepath.Rel(repo, path)
	instrument(repo, path, rel, src, true)
	literals(rel, src)
}

// ---------------------------------------------------------------- dictionary

// lits counts the literals of every file: the generators of the harness draw
// texts, names, amounts and durations from them. Those that dict_base.txt does
// not have (the code has changed) are drawn more often.
var lits = map[string]int{} // "file\tkind\tliteral"

func literals(rel string, src []byte) {
	f, err := parser.ParseFile(token.NewFileSet(), rel, src, parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	var num func(e ast.Expr) (int64, bool)
	num = func(e ast.Expr) (int64, bool) {
		switch e := unparen(e).(type) {
		case *ast.BasicLit:
			if e.Kind == token.INT {
				n, err := strconv.ParseInt(strings.ReplaceAll(e.Value, "_", ""), 0, 64)
				return n, err == nil
			}
		case *ast.SelectorExpr:
			if x, ok := e.X.(*ast.Ident); ok && x.Name == "time" {
				n, ok := map[string]int64{"Nanosecond": 1, "Microsecond": 1e3, "Millisecond": 1e6, "Second": 1e9, "Minute": 60e9, "Hour": 3600e9}[e.Sel.Name]
				return n, ok
			}
		case *ast.BinaryExpr:
			a, ok1 := num(e.X)
			b, ok2 := num(e.Y)
			if !ok1 || !ok2 {
				return 0, false
			}
			switch e.Op {
			case token.MUL:
				return a * b, true
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			case token.SHL:
				return a << (b & 63), true
			}
		}
		return 0, false
	}
	clock := false // the expression has a unit of time
	hasTime := func(e ast.Expr) bool {
		clock = false
		ast.Inspect(e, func(n ast.Node) bool {
			if x, ok := n.(*ast.Ident); ok && x.Name == "time" {
				clock = true
			}
			return true
		})
		return clock
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			if n.Tag != nil {
				ast.Inspect(n.Type, func(ast.Node) bool { return true })
				return false
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.STRING, token.CHAR:
				v, err := strconv.Unquote(n.Value)
				if err == nil && v != "" && len(v) <= 60 {
					lits[rel+"\ts\t"+strconv.Quote(v)]++
				}
			case token.INT:
				if v, ok := num(n); ok && v >= 2 {
					lits[rel+"\ti\t"+strconv.FormatInt(v, 10)]++
				}
			}
		case ast.Expr:
			if s, ok := n.(*ast.SelectorExpr); ok && errName(s.Sel.Name) {
				lits[rel+"\te\t"+strconv.Quote(s.Sel.Name)]++
			}
			if v, ok := num(n); ok {
				if hasTime(n) {
					lits[rel+"\td\t"+strconv.FormatInt(v, 10)]++
				} else if v >= 2 {
					lits[rel+"\ti\t"+strconv.FormatInt(v, 10)]++
				}
				return false
			}
		}
		return true
	})
}

// errName: EINVAL, ErrClosed
func errName(s string) bool {
	if strings.HasPrefix(s, "Err") && len(s) > 4 {
		return true
	}
	return len(s) > 3 && s[0] == 'E' && strings.ToUpper(s) == s
}

func putDict(repo string) {
	keys := make([]string, 0, len(lits))
	for k := range lits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if dictOut != "" {
		var b bytes.Buffer
		for _, k := range keys {
			fmt.Fprintf(&b, "%s\t%d\n", k, lits[k])
		}
		if err := os.WriteFile(dictOut, b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	base := map[string]int{}
	if b, err := os.ReadFile(dictBase); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if i := strings.LastIndexByte(l, '\t'); i > 0 {
				base[l[:i]], _ = strconv.Atoi(l[i+1:])
			}
		}
	}
	all, fresh := map[string]map[string]bool{}, map[string]map[string]bool{}
	for _, k := range []string{"s", "i", "d", "e"} {
		all[k], fresh[k] = map[string]bool{}, map[string]bool{}
	}
	for _, k := range keys {
		p := strings.SplitN(k, "\t", 3)
		all[p[1]][p[2]] = true
		if lits[k] > base[k] {
			fresh[p[1]][p[2]] = true
		}
	}
	var b bytes.Buffer
	b.WriteString("package vsim\n\nfunc init() {\n")
	for _, k := range []string{"s", "i", "d", "e"} {
		for _, name := range []string{"all", "fresh"} {
			m := all[k]
			if name == "fresh" {
				m = fresh[k]
			}
			var l []string
			for v := range m {
				l = append(l, v)
			}
			sort.Strings(l)
			typ := "[]int64"
			if k == "s" || k == "e" {
				typ = "[]string"
			}
			b.WriteString("\tDict." + strings.ToUpper(k) + name + " = " + typ + "{" + strings.Join(l, ", ") + "}\n")
		}
	}
	b.WriteString("}\n")
	put(filepath.Join(repo, "internal/vsim/zdict.go"), b.Bytes())
}

func instrument(repo, path, rel string, src []byte, points bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("%v", err) // does not compile
	}
	target := path
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(o, e int, text string) { edits = append(edits, edit{o, e, text, len(edits)}) }

	used := false
	curFn := ""
	var sub func(n ast.Node) string // the instrumented text of a node that moves
	point := func(pos token.Pos, inEmpty bool) {
		if !points {
			return
		}
		id := len(sites)
		sites = append(sites, site{rel, curFn, fset.Position(pos).Line})
		used = true
		if inEmpty {
			add(off(pos), off(pos), fmt.Sprintf(" vsim.Y(%d) ", id))
			return
		}
		add(off(pos), off(pos), fmt.Sprintf("vsim.Y(%d); ", id))
	}
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			point(s.Pos(), false)
		}
	}

	text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
	two := map[*ast.UnaryExpr]bool{} // v, ok := <-ch
	timeName := ""
	timeUsed := false
	proc := map[string]string{} // local name to package
	procUsed := map[string]bool{}
	for _, im := range f.Imports {
		if p := strings.Trim(im.Path.Value, `"`); procNames[p] != nil && !strings.HasPrefix(rel, "cli/") {
			proc[p] = p
			if im.Name != nil {
				delete(proc, p)
				proc[im.Name.Name] = p
			}
		}
		if im.Path.Value == `"time"` {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
	}

	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := arrow(n.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := arrow(n.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				stats.chans++
				used = true
				fn := "vsim.Recv("
				if two[n] {
					fn = "vsim.Recv2("
				}
				add(off(n.Pos()), off(n.Pos())+2, fn)
				ast.Inspect(n.X, visit)
				add(off(n.X.End()), off(n.X.End()), ")")
				return false
			}
		case *ast.SendStmt:
			stats.chans++
			used = true
			add(off(n.Chan.Pos()), off(n.Chan.Pos()), "vsim.SendTo(")
			ast.Inspect(n.Chan, visit)
			add(off(n.Chan.End()), off(n.Arrow)+2, ")(")
			ast.Inspect(n.Value, visit)
			add(off(n.Value.End()), off(n.Value.End()), ")")
			return false
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				stats.chans++
				used = true
				add(off(id.Pos()), off(id.End()), "vsim.Close")
				ast.Inspect(n.Args[0], visit)
				return false
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName && timeNames[n.Sel.Name] != "" {
				used, timeUsed = true, true
				add(off(n.Pos()), off(n.End()), "vsim."+timeNames[n.Sel.Name])
				return false
			}
			if id, ok := n.X.(*ast.Ident); ok && proc[id.Name] != "" {
				if to := procNames[proc[id.Name]][n.Sel.Name]; to != "" {
					used = true
					procUsed[id.Name] = true
					add(off(n.Pos()), off(n.End()), "vsim."+to)
					return false
				}
			}
		case *ast.RangeStmt:
			if chanRange[fmt.Sprintf("%s:%d", path, off(n.Pos()))] {
				stats.chans++
				used = true
				// for v := range ch {  ->  for vsimC := ch; ; { v, vsimOk := ...
				head := "for vsimC := (" + sub(n.X) + "); ; { "
				switch {
				case n.Key == nil || n.Tok == token.DEFINE && text(n.Key.Pos(), n.Key.End()) == "_":
					head += "if _, vsimOk := vsim.Recv2(vsimC); !vsimOk { break }; "
				case n.Tok == token.DEFINE:
					head += text(n.Key.Pos(), n.Key.End()) + ", vsimOk := vsim.Recv2(vsimC); if !vsimOk { break }; "
				default:
					head += "vsimV, vsimOk := vsim.Recv2(vsimC); if !vsimOk { break }; " + text(n.Key.Pos(), n.Key.End()) + " = vsimV; "
				}
				add(off(n.For), off(n.Body.Lbrace)+1, head)
				for _, s := range n.Body.List {
					if _, ok := s.(*ast.EmptyStmt); !ok {
						point(s.Pos(), false)
					}
					ast.Inspect(s, visit)
				}
				return false
			}
		case *ast.FuncDecl:
			if n.Body == nil {
				return false
			}
			old := curFn
			curFn = n.Name.Name
			if n.Recv != nil && len(n.Recv.List) == 1 {
				t := n.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if ix, ok := t.(*ast.IndexExpr); ok {
					t = ix.X
				}
				if id, ok := t.(*ast.Ident); ok {
					curFn = id.Name + "." + curFn
				}
			}
			ast.Inspect(n.Body, visit)
			curFn = old
			return false
		case *ast.SwitchStmt:
			if n.Init != nil {
				ast.Inspect(n.Init, visit)
			}
			if n.Tag != nil {
				ast.Inspect(n.Tag, visit)
			}
			for _, c := range n.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.TypeSwitchStmt:
			if n.Init != nil {
				ast.Inspect(n.Init, visit)
			}
			ast.Inspect(n.Assign, visit)
			for _, c := range n.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.SelectStmt:
			stats.chans++
			used = true
			if len(n.Body.List) == 0 {
				add(off(n.Pos()), off(n.End()), `vsim.Forever(); panic("unreachable")`)
				return false
			}
			// select {  ->  switch vsimS := vsim.Select(...); vsimS.I {
			var cases []string
			hasDefault := false
			for _, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				head := fmt.Sprintf("case %d:", len(cases))
				switch s := cc.Comm.(type) {
				case nil:
					hasDefault = true
					head = "default:"
				case *ast.SendStmt:
					cases = append(cases, "vsim.SendCase("+sub(s.Chan)+")("+sub(s.Value)+")")
				case *ast.ExprStmt:
					u := arrow(s.X)
					cases = append(cases, "vsim.RecvCase("+sub(u.X)+")")
				case *ast.AssignStmt:
					u := arrow(s.Rhs[0])
					ch := text(u.X.Pos(), u.X.End())
					cases = append(cases, "vsim.RecvCase("+sub(u.X)+")")
					got := "vsim.Got("
					if len(s.Lhs) == 2 {
						got = "vsim.Got2("
					}
					head += " " + text(s.Lhs[0].Pos(), s.Lhs[len(s.Lhs)-1].End()) + " " + s.Tok.String() + " " + got + ch + ", vsimS);"
				}
				add(off(cc.Case), off(cc.Colon)+1, head)
			}
			add(off(n.Pos()), off(n.Body.Lbrace)+1, fmt.Sprintf("switch vsimS := vsim.Select(%v, %s); vsimS.I {", hasDefault, strings.Join(cases, ", ")))
			for _, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				for _, s := range cc.Body {
					if _, ok := s.(*ast.EmptyStmt); !ok {
						point(s.Pos(), false)
					}
					ast.Inspect(s, visit)
				}
			}
			if !hasDefault {
				add(off(n.Body.Rbrace), off(n.Body.Rbrace), `default: panic("unreachable") `)
			}
			return false
		case *ast.BlockStmt:
			if len(n.List) == 0 {
				point(n.Lbrace+1, true)
			} else {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.LabeledStmt:
			// the label's own statement already got its point before the label;
			// for loops the body has its own
		case *ast.GoStmt:
			stats.gos++
			used = true
			call := n.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				add(off(n.Pos()), off(fl.Pos()), "vsim.Go(")
				add(off(fl.End()), off(call.End()), ")")
				return true
			}
			// go f(a, b...)  ->  { vf, va0 := f, a; vsim.Go(func() { vf(va0...) }) }
			var names, vals []string
			fnText, isLit := "vsimF", false
			if _, isLit = call.Fun.(*ast.FuncLit); isLit {
				fnText = sub(call.Fun)
			} else {
				names, vals = append(names, "vsimF"), append(vals, sub(call.Fun))
			}
			var args []string
			for i, a := range call.Args {
				switch x := a.(type) {
				case *ast.BasicLit:
					args = append(args, x.Value)
					continue
				case *ast.Ident:
					if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
						args = append(args, x.Name)
						continue
					}
				}
				nm := "vsimA" + strconv.Itoa(i)
				names, vals = append(names, nm), append(vals, sub(a))
				args = append(args, nm)
			}
			ell := ""
			if call.Ellipsis.IsValid() {
				ell = "..."
			}
			bind := ""
			if len(names) > 0 {
				bind = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			add(off(n.Pos()), off(n.End()), "{ "+bind+"vsim.Go(func() { "+fnText+"("+strings.Join(args, ", ")+ell+") }) }")
			return false
		case *ast.FuncLit:
			old := curFn
			curFn += ".func"
			ast.Inspect(n.Body, visit)
			curFn = old
			return false
		}
		return true
	}
	sub = func(n ast.Node) string {
		saved := edits
		edits = nil
		ast.Inspect(n, visit)
		out := apply(path, src, edits, off(n.Pos()), off(n.End()))
		edits = saved
		return string(out)
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, visit)
	}

	for _, im := range f.Imports {
		to := map[string]string{`"sync"`: "sync", `"context"`: "context"}[im.Path.Value]
		if to == "" || to == "context" && !points {
			continue
		}
		name := ""
		if im.Name == nil {
			name = to + " "
		}
		if to == "sync" {
			stats.sync++
		}
		add(off(im.Path.Pos()), off(im.Path.End()), name+strconv.Quote(module+"/internal/vsim/v"+to))
	}
	if timeUsed {
		add(len(src), len(src), "\nvar _ "+timeName+".Duration\n")
	}
	names := make([]string, 0, len(procUsed))
	for name := range procUsed {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names { // the import stays used
		any := map[string]string{"os": "Environ", "runtime": "GC"}[proc[name]]
		add(len(src), len(src), "\nvar _ = "+name+"."+any+"\n")
	}
	if strings.HasPrefix(rel, cliDir+"/") {
		if t := globals(f, text, sub, path); t != "" {
			add(len(src), len(src), t)
			used = true
		}
	}
	if filepath.Dir(rel) == cliDir && f.Name.Name == "main" {
		// the program's main package, as one that the harness can import
		target = filepath.Join(repo, "internal/vsim/climain", filepath.Base(rel))
		add(off(f.Name.Pos()), off(f.Name.End()), "climain")
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				add(off(fd.Name.Pos()), off(fd.Name.End()), "Main")
				mains++
			}
		}
	}
	if used {
		add(off(f.Name.End()), off(f.Name.End()), "; import vsim "+strconv.Quote(module+"/internal/vsim"))
	}
	if len(edits) == 0 && points {
		return
	}
	stats.files++
	put(target, apply(path, src, edits, 0, len(src)))
}

// globals writes, for a file of the command line program, the code that gives
// the simulator its package variables: every simulated process has its own.
func globals(f *ast.File, text func(a, b token.Pos) string, sub func(ast.Node) string, path string) string {
	var b strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			embed := g.Doc != nil && strings.Contains(docText(g.Doc), "go:embed") || v.Doc != nil && strings.Contains(docText(v.Doc), "go:embed")
			if embed {
				continue
			}
			var names []string
			blank := true
			for _, n := range v.Names {
				names = append(names, n.Name)
				if n.Name != "_" {
					blank = false
					fmt.Fprintf(&b, "var _ = vsim.RegVar(&%s)\n", n.Name)
				}
			}
			if blank || len(v.Values) == 0 {
				continue
			}
			var vals []string
			for _, e := range v.Values {
				vals = append(vals, sub(e))
			}
			fmt.Fprintf(&b, "var _ = vsim.RegInit(func() { %s = %s })\n", strings.Join(names, ", "), strings.Join(vals, ", "))
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return "\n" + b.String()
}

func docText(c *ast.CommentGroup) string {
	s := ""
	for _, l := range c.List {
		s += l.Text + "\n"
	}
	return s
}

func apply(path string, src []byte, edits []edit, from, to int) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b bytes.Buffer
	last := from
	for _, e := range edits {
		if e.off < last || e.end > to {
			die("%s: overlapping edits", path)
		}
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:to])
	return b.Bytes()
}

// ----------------------------------------------------------------- simulator

func addTree(srcDir, dstDir string) {
	n := 0
	filepath.Walk(srcDir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			die("%v", err)
		}
		if !info.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(srcDir, p)
			overlay[filepath.Join(dstDir, rel)] = p
			n++
		}
		return nil
	})
	if n == 0 {
		die("no files in %s", srcDir)
	}
}

func addSim(repo, verif string) {
	addTree(filepath.Join(verif, "sim/vsim"), filepath.Join(repo, "internal/vsim"))
	addTree(filepath.Join(verif, "sim/harness"), filepath.Join(repo, "internal/vsim/cmd/vsim"))
}

// addContext makes a copy of package context whose timers, goroutines, locks
// and channels are simulated. Its interface and errors are the real ones.
func addContext(repo, goroot string) {
	p := filepath.Join(goroot, "src/context/context.go")
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, r := range []repl{
		{"\npackage context\n", "\npackage vcontext\n"},
		{"\t\"internal/reflectlite\"\n", "\tstd \"context\"\n\treflectlite \"reflect\"\n"},
		{"\t\"errors\"\n", ""},
		{"type Context interface {", "type Context = std.Context\n\ntype context interface {"},
		{"var Canceled = errors.New(\"context canceled\")", "var Canceled = std.Canceled"},
		{"var DeadlineExceeded error = deadlineExceededError{}", "var DeadlineExceeded = std.DeadlineExceeded"},
		{"type CancelFunc func()", "type CancelFunc = std.CancelFunc"},
		{"type CancelCauseFunc func(cause error)", "type CancelCauseFunc = std.CancelCauseFunc"},
	} {
		if !strings.Contains(s, r.old) {
			die("context.go: pattern not found: %q", r.old)
		}
		s = strings.Replace(s, r.old, r.new, 1)
	}
	rel := "internal/vsim/vcontext/context.go"
	before := stats
	instrument(repo, filepath.Join(repo, rel), rel, []byte(s), false)
	stats = before
}

// ---------------------------------------------------------- standard library

type repl struct{ old, new string }

func patch(goroot, file string, rs ...repl) {
	p := filepath.Join(goroot, "src", file)
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, r := range rs {
		if !strings.Contains(s, r.old) {
			die("%s: pattern not found: %q", file, r.old)
		}
		s = strings.ReplaceAll(s, r.old, r.new)
	}
	put(p, []byte(s))
}

func addStd(goroot, verif string) {
	// Constant process-start randomness, so that hash keys are the same in every process.
	patch(goroot, "runtime/rand.go", repl{
		"\tif len(startupRand) >= 16 &&\n",
		"\tif verifFixSeed(seed) {\n\t} else if len(startupRand) >= 16 &&\n"})
	// Map seeds and iteration offsets come from one settable value.
	patch(goroot, "internal/runtime/maps/map.go", repl{"rand()", "verifRand()"})
	patch(goroot, "internal/runtime/maps/table.go", repl{"= rand()", "= verifRand()"})
	// sync.Pool of the standard library never retains (deterministic, adds no ordering).
	patch(goroot, "sync/pool.go",
		repl{"func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif true {\n\t\treturn\n\t}\n"},
		repl{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif true {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"})
	patch(goroot, "os/proc.go", repl{
		"func Exit(code int) {\n", "func Exit(code int) {\n\tif syscall.VerifExit != nil {\n\t\tsyscall.VerifExit(code)\n\t}\n"})
	patch(goroot, "os/tempfile.go", repl{
		"uint64(uint32(runtime_rand()))", "uint64(syscall.VerifTemp())"},
		repl{"\t_ \"unsafe\" // for go:linkname\n", "\t\"syscall\"\n\t_ \"unsafe\" // for go:linkname\n"})
	// The random numbers of the library come from one settable value, too.
	for _, f := range []string{"math/rand/rand.go", "math/rand/v2/rand.go", "hash/maphash/maphash.go"} {
		patch(goroot, f, repl{"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.VerifRand\n"})
	}
	patch(goroot, "crypto/internal/sysrand/rand.go", repl{"func Read(b []byte) {\n", "func Read(b []byte) {\n\tif verifRead(b) {\n\t\treturn\n\t}\n"})
	var rs []repl
	for _, f := range []string{"read", "write", "pread", "pwrite", "openat", "Close", "Fstat", "fstatat", "Mkdirat", "unlinkat",
		"Renameat", "linkat", "symlinkat", "readlinkat", "Ftruncate", "Truncate", "Fsync", "Fdatasync", "Fchmod", "fchmodat",
		"fchmodat2", "Getdents", "faccessat", "faccessat2", "Chdir", "sendfile", "Fallocate", "utimensat", "Mknodat", "Flock"} {
		rs = append(rs, repl{"\nfunc " + f + "(", "\nfunc verifReal_" + f + "("})
	}
	rs = append(rs, repl{"\nfunc Getpid(", "\nfunc verifReal_Getpid("})
	patch(goroot, "syscall/zsyscall_linux_amd64.go", rs...)
	rs = nil
	for _, f := range []string{"Unlinkat", "Openat", "Readlinkat", "Mkdirat", "Renameat", "Linkat", "Symlinkat"} {
		rs = append(rs, repl{"\nfunc " + f + "(", "\nfunc verifReal_" + f + "("})
	}
	patch(goroot, "internal/syscall/unix/at.go", rs...)
	patch(goroot, "internal/syscall/unix/at_fstatat.go", repl{"\nfunc Fstatat(", "\nfunc verifReal_Fstatat("})
	patch(goroot, "internal/syscall/unix/fchmodat_linux.go", repl{"\nfunc Fchmodat(", "\nfunc verifReal_Fchmodat("})
	patch(goroot, "internal/syscall/unix/copy_file_range_unix.go", repl{"\nfunc CopyFileRange(", "\nfunc verifReal_CopyFileRange("})

	std := filepath.Join(verif, "sim/std")
	for _, x := range []struct{ src, dst string }{
		{"runtime.go", "runtime/verif_sim.go"},
		{"sysrand.go", "crypto/internal/sysrand/verif_sim.go"},
		{"maps.go", "internal/runtime/maps/verif_sim.go"},
		{"syscall.go", "syscall/verif_sim.go"},
		{"unix.go", "internal/syscall/unix/verif_sim.go"},
	} {
		b, err := os.ReadFile(filepath.Join(std, x.src+".txt"))
		if err != nil {
			die("%v", err)
		}
		put(filepath.Join(goroot, "src", x.dst), b)
	}
}
