package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/cli/html2markdown/cmd"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/vsim/climain"
)

// The command line program under simulation. Every simulated process is a
// task that calls the program's Run; its system calls (the hooks in the
// standard library overlay) and its stdin, stdout and stderr (fakes) go
// through call(), which is a scheduling point and applies the fault plan. The
// files are real ones on a memory file system, in a directory of the run's own.

// CliEp describes the CLI part of a run.
type CliEp struct {
	Files  []CFile  `json:"files,omitempty"`
	Phases []CPhase `json:"phases"`
	Faults []CFault `json:"faults,omitempty"`
	// SamePids: processes that do not run at the same time have the same pids,
	// as in containers.
	SamePids bool `json:"same_pids,omitempty"`
	// TmpFS: the directory for temporary files is a file system of its own.
	TmpFS bool `json:"tmpfs,omitempty"`
}

// CFile is a file, directory or link that exists at the start.
type CFile struct {
	Path string `json:"path"`
	Data []byte `json:"data,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
	Link string `json:"link,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
	Size *int64 `json:"size,omitempty"` // what stat says, as for files of /proc or with stale attributes
}

// CPhase is a group of processes that run concurrently.
type CPhase struct {
	Procs   []CProc `json:"procs"`
	Healthy bool    `json:"healthy,omitempty"` // no faults; the recovery run
}

// CProc is one invocation.
type CProc struct {
	In     string   `json:"in,omitempty"`
	Out    string   `json:"out,omitempty"`
	Over   bool     `json:"over,omitempty"`
	Strong string   `json:"strong,omitempty"`
	Strike bool     `json:"strike,omitempty"`
	Table  []string `json:"table,omitempty"`
	Domain string   `json:"domain,omitempty"`
	Incl   string   `json:"incl,omitempty"`
	Excl   string   `json:"excl,omitempty"`
	Form   int      `json:"form,omitempty"` // how the flags are spelled and ordered
	Piped  bool     `json:"piped,omitempty"`
	Stdin  []byte   `json:"stdin,omitempty"`
	Chunks []int    `json:"chunks,omitempty"` // sizes of the reads of stdin, repeated; 0: an empty read
	Late   bool     `json:"late,omitempty"`   // the last data comes with io.EOF
	Kind   int      `json:"kind,omitempty"`   // of stdin and stdout, see stdMode
	Usage  []string `json:"usage,omitempty"`  // arguments that make the command line wrong, or ask for help only
	Main   bool     `json:"main,omitempty"`   // start with main(), on the file descriptors 0, 1 and 2
}

// CFault is one planned fault: at call number At of process P (all phases counted).
type CFault struct {
	P    int    `json:"p"`
	At   int    `json:"at"`
	K    string `json:"k"` // err, intr, short, full, lose, kill, killafter, power, env
	E    string `json:"e,omitempty"`
	N    int    `json:"n,omitempty"`
	Path string `json:"path,omitempty"`
	Data []byte `json:"data,omitempty"`
}

type callInfo struct {
	op   string
	path string
	n    int
}

type fent struct {
	kind byte // 'f', 'd', 'l'
	mode uint32
	ino  uint64
	data string
}

type cfd struct {
	path  string
	write bool
}

type cproc struct {
	pid   int
	c     *crun
	idx   int
	phase int
	spec  CProc
	exp   *expect
	task  *vsim.Task

	n       int
	calls   []callInfo
	dead    bool
	how     string
	exit    int
	fds     map[int]*cfd
	got     map[string]int64
	eof     map[string]bool
	stdout  []byte
	stderr  []byte
	outOff  int
	sinPos  int
	sinRead int
	sinEOF  bool

	hard    []string // failed calls that must make the run fail
	anyf    []string // failed calls that may
	soft    int
	errLost bool            // stderr itself failed
	made    map[string]bool // outputs completed by this process
	pre     map[string]fent
	started bool
	pend    [3]syscall.Errno // what the next write to a file descriptor will meet
	globals []any
	noYield bool
}

func (p *cproc) killed() bool { return p.how == "kill" || p.how == "power" }

type crun struct {
	x       *run
	ep      *CliEp
	root    string
	in      bool // the harness itself is using the file system
	full    bool // the disk is full
	snap    map[string]fent
	owner   map[uint64]int // inode -> process that made it
	procs   []*cproc
	first   map[string]fent // at the start of the run
	dirty   map[string]bool // written in this phase
	envMk   map[string]string
	done    []*cproc // in order of ending
	hash    uint64
	plan    map[[2]int][]CFault
	flocks  []*flk
	sizes   map[string]int64
	touched string // the file whose times are being set
	loaded  *cproc // whose package variables are in place
	onEv    func(p *cproc, ev fsEvent)
	onEnd   func(p *cproc)
}

type fsEvent struct {
	kind   string // created, modified, removed, replaced
	path   string
	before fent
	after  fent
	owner  int // of what was there before; -1 none
}

var curCrun *crun

// onSwitch gives a process its package variables.
func onSwitch(to *vsim.Task) {
	p, _ := to.Proc.(*cproc)
	if p == nil {
		return
	}
	c := p.c
	if c.loaded == p {
		return
	}
	if c.loaded != nil {
		c.loaded.globals = vsim.SaveGlobals()
	}
	c.loaded = p
	vsim.LoadGlobals(p.globals)
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EINTR": syscall.EINTR, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE,
	"EINVAL": syscall.EINVAL, "EOPNOTSUPP": syscall.EOPNOTSUPP, "ENOSYS": syscall.ENOSYS, "ESTALE": syscall.ESTALE, "EBUSY": syscall.EBUSY, "EAGAIN": syscall.EAGAIN,
	"ETIMEDOUT": syscall.ETIMEDOUT, "ENXIO": syscall.ENXIO, "ENODEV": syscall.ENODEV, "ETXTBSY": syscall.ETXTBSY, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG,
	"EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "ENOMEM": syscall.ENOMEM, "EFBIG": syscall.EFBIG, "EPIPE": syscall.EPIPE, "EPERM": syscall.EPERM,
	"EBADF": syscall.EBADF, "EISDIR": syscall.EISDIR, "ECONNRESET": syscall.ECONNRESET,
}

func (c *crun) mix(parts ...string) {
	for _, s := range parts {
		c.hash = mix64(c.hash, hashStr(s))
	}
}

func (c *crun) current() *cproc {
	if c == nil || !vsim.Running() {
		return nil
	}
	t := vsim.Cur()
	if t == nil || t.Goid() != runtime.VerifGoid() {
		return nil
	}
	p, _ := t.Proc.(*cproc)
	return p
}

// own runs f with the hooks off.
func (c *crun) own(f func()) {
	old := c.in
	c.in = true
	f()
	c.in = old
}

func (p *cproc) die(how string) {
	p.dead, p.how = true, how
	if p.killed() {
		p.exit = -1
	}
	p.c.x.sim.KillProc(p)
	runtime.Goexit()
}

// call is the entry of every system call and stream operation of a process.
func (p *cproc) call(op, path string, n int) []CFault {
	c := p.c
	if !p.noYield {
		vsim.YS()
	}
	if p.dead { // everything went down while it waited
		runtime.Goexit()
	}
	i := p.n
	p.n++
	if p.n > 100_000 {
		c.x.violate("endless", "process %d made %d system calls and goes on", p.idx, p.n)
		p.die("kill")
	}
	p.calls = append(p.calls, callInfo{op, path, n})
	c.mix(fmt.Sprint(p.idx), op, path)
	fs := c.plan[[2]int{p.idx, i}]
	var rest []CFault
	for _, f := range fs {
		switch f.K {
		case "env":
			c.env(f)
		case "kill":
			c.x.faults["kill"]++
			c.mix("kill")
			p.die("kill")
		case "power":
			c.x.faults["power-loss"]++
			c.mix("power")
			c.power(f)
			p.die("power")
		default:
			rest = append(rest, f)
		}
	}
	return rest
}

// env: another program creates a file.
func (c *crun) env(f CFault) {
	c.own(func() {
		path := filepath.Join(c.root, f.Path)
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			return
		}
		fl, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o644)
		if err != nil {
			return
		}
		fl.Write(f.Data)
		fl.Close()
		c.envMk[f.Path] = string(f.Data)
	})
	c.x.faults["foreign-create"]++
	c.mix("env", f.Path)
	c.snap = c.scan()
}

// power: every process dies and what was written lately is partly lost.
func (c *crun) power(f CFault) {
	r := NewR(uint64(f.N))
	for _, q := range c.procs {
		if q.started && !q.dead {
			q.dead, q.how, q.exit = true, "power", -1
		}
	}
	var l []string
	for path := range c.dirty {
		l = append(l, path)
	}
	sort.Strings(l)
	c.own(func() {
		for _, path := range l {
			abs := filepath.Join(c.root, path)
			st, err := os.Lstat(abs)
			if err != nil || !st.Mode().IsRegular() {
				continue
			}
			n := int(st.Size())
			switch r.N(5) {
			case 1:
				os.Truncate(abs, 0)
			case 2:
				os.Truncate(abs, int64(r.N(n+1)))
			case 3:
				k := r.N(n + 1)
				os.Truncate(abs, int64(k))
				os.Truncate(abs, int64(n))
			case 4:
				k := r.N(n + 1)
				os.Truncate(abs, int64(k))
				os.Truncate(abs, int64(k+r.N(n-k+1)))
			}
		}
	})
	c.snap = c.scan()
}

func (c *crun) rel(abs string) (string, bool) {
	if abs == c.root {
		return ".", true
	}
	if s, ok := strings.CutPrefix(abs, c.root+"/"); ok {
		return s, true
	}
	if s, ok := strings.CutPrefix(abs, cliBaseDir); ok {
		return "{BASE}" + strings.TrimPrefix(s, "/"+filepath.Base(c.root)), false
	}
	return abs, false
}

// resolve gives the path of a call, links in the directory part followed.
func (c *crun) resolve(p *cproc, dirfd int, path string) (string, bool) {
	var abs string
	c.own(func() {
		switch {
		case filepath.IsAbs(path):
			abs = filepath.Clean(path)
		case dirfd < 0:
			abs = filepath.Join(c.root, path)
		default:
			base := ""
			if fd := p.fds[dirfd]; fd != nil {
				base = filepath.Join(c.root, fd.path)
			} else {
				base, _ = os.Readlink(fmt.Sprintf("/proc/self/fd/%d", dirfd))
			}
			abs = filepath.Join(base, path)
		}
		if d, err := filepath.EvalSymlinks(filepath.Dir(abs)); err == nil {
			abs = filepath.Join(d, filepath.Base(abs))
		}
	})
	return c.rel(abs)
}

var pathOps = map[string]bool{"open": true, "mkdir": true, "unlink": true, "rename": true, "link": true, "symlink": true, "mknod": true,
	"stat": true, "readlink": true, "access": true, "chmod": true, "truncate": true, "utimes": true}

// denied: a directory on the way, or the one to be changed, does not let its owner in.
func (c *crun) denied(path string, sc *syscall.VerifCall) (no bool) {
	c.own(func() {
		abs := filepath.Join(c.root, path)
		for d := filepath.Dir(abs); len(d) >= len(c.root) && len(d) > 1; d = filepath.Dir(d) {
			if st, err := os.Stat(d); err == nil && st.IsDir() && st.Mode()&0o100 == 0 {
				no = true
			}
		}
		switch sc.Op {
		case "mkdir", "unlink", "rename", "link", "symlink", "mknod":
		case "open":
			if st, err := os.Stat(abs); err == nil {
				if st.IsDir() && sc.Flags&3 == syscall.O_RDONLY && st.Mode()&0o400 == 0 {
					no = true
				}
				return
			} else if sc.Flags&syscall.O_CREAT == 0 {
				return
			}
		default:
			return
		}
		if st, err := os.Stat(filepath.Dir(abs)); err == nil && st.IsDir() && st.Mode()&0o200 == 0 {
			if _, err := os.Lstat(abs); sc.Op != "mkdir" || err != nil {
				no = true
			}
		}
	})
	return
}

func entOf(abs string) (e fent, ok bool) {
	st, err := os.Lstat(abs)
	if err != nil {
		return e, false
	}
	sys := st.Sys().(*syscall.Stat_t)
	e.ino, e.mode = sys.Ino, sys.Mode&0o7777
	switch {
	case st.Mode().IsRegular():
		e.kind = 'f'
		b, _ := os.ReadFile(abs)
		e.data = string(b)
	case st.IsDir():
		e.kind = 'd'
	default:
		e.kind = 'l'
		e.data, _ = os.Readlink(abs)
	}
	return e, true
}

// scan reads the whole tree.
func (c *crun) scan() map[string]fent {
	m := map[string]fent{}
	c.own(func() {
		var walk func(rel string)
		walk = func(rel string) {
			ents, _ := os.ReadDir(filepath.Join(c.root, rel))
			for _, d := range ents {
				r := filepath.Join(rel, d.Name())
				e, ok := entOf(filepath.Join(c.root, r))
				if !ok {
					continue
				}
				m[r] = e
				if e.kind == 'd' {
					walk(r)
				}
			}
		}
		walk("")
	})
	return m
}

// changed compares some paths (nil: all) with what they were and reports the differences as p's doing.
func (c *crun) changed(p *cproc, paths []string) {
	now := map[string]fent{}
	if paths == nil {
		now = c.scan()
		seen := map[string]bool{}
		for k := range now {
			seen[k] = true
		}
		for k := range c.snap {
			seen[k] = true
		}
		for k := range seen {
			paths = append(paths, k)
		}
	} else {
		c.own(func() {
			for _, k := range paths {
				if e, ok := entOf(filepath.Join(c.root, k)); ok {
					now[k] = e
				}
			}
		})
	}
	sort.Strings(paths)
	for _, k := range paths {
		if k == "." {
			continue
		}
		b, was := c.snap[k]
		a, is := now[k]
		ev := fsEvent{path: k, before: b, after: a, owner: -1}
		if was {
			if o, ok := c.owner[b.ino]; ok {
				ev.owner = o
			}
		}
		switch {
		case !was && !is:
			continue
		case !was:
			ev.kind = "created"
		case !is:
			ev.kind = "removed"
		case b.ino != a.ino || b.kind != a.kind:
			ev.kind = "replaced"
		case b.data != a.data || b.mode != a.mode || k == c.touched:
			ev.kind = "modified"
		default:
			continue
		}
		if is {
			c.snap[k] = a
			c.dirty[k] = true
		} else {
			delete(c.snap, k)
			delete(c.owner, b.ino)
		}
		if is && !was && p != nil {
			if _, ok := c.owner[a.ino]; !ok {
				c.owner[a.ino] = p.idx
			}
		}
		c.mix(ev.kind, k)
		if c.onEv != nil && p != nil {
			c.onEv(p, ev)
		}
	}
}

type callState struct {
	p      *cproc
	paths  []string
	path   string
	mutate bool
	all    bool
	kill   bool
	write  bool
}

const mutFlags = syscall.O_CREAT | syscall.O_TRUNC | syscall.O_WRONLY | syscall.O_RDWR | syscall.O_APPEND

func isScratchTmp(path string) bool { return path == "tmp" || strings.HasPrefix(path, "tmp/") }

func cliHook(sc *syscall.VerifCall) {
	c := curCrun
	p := c.current()
	if p == nil || c.in {
		sc.Skip = sc.Op == "close" && sc.Fd <= 2 // they are the harness's
		return
	}
	if sc.Fd >= 0 && sc.Fd <= 2 && p.fds[sc.Fd] == nil {
		switch sc.Op {
		case "read", "write", "close", "fstat":
			p.stdFd(sc)
			return
		case "ftruncate", "fsync", "fchmod", "getdents", "fallocate":
			sc.Errno = syscall.EINVAL
			return
		}
	}
	if p.dead {
		if sc.Op != "close" {
			sc.Errno = syscall.EIO
		}
		return
	}
	st := &callState{p: p}
	sc.State = st
	inside := true
	switch sc.Op {
	case "read", "write", "close", "fstat", "ftruncate", "fsync", "fchmod", "getdents", "fallocate", "flock":
		if fd := p.fds[sc.Fd]; fd != nil {
			st.path, st.write = fd.path, fd.write
		}
		st.mutate = sc.Op == "write" || sc.Op == "ftruncate" || sc.Op == "fchmod" || sc.Op == "fallocate"
	default:
		st.path, inside = c.resolve(p, sc.Fd, sc.Path)
		if sc.Op == "open" {
			st.write = sc.Flags&mutFlags != 0
			st.mutate = st.write
		} else {
			st.mutate = sc.Op != "stat" && sc.Op != "readlink" && sc.Op != "access"
		}
		if sc.Path2 != "" {
			p2, in2 := c.resolve(p, sc.Fd2, sc.Path2)
			st.paths = append(st.paths, p2)
			inside = inside && in2
		}
	}
	switch sc.Op {
	case "rename", "unlink", "link", "symlink", "mknod", "truncate", "chmod":
		st.all = true
	}
	if st.path != "" {
		st.paths = append(st.paths, st.path)
	}
	faults := p.call(sc.Op, st.path, sc.N)
	if !inside {
		if st.mutate {
			c.x.violate("outside", "process %d: %s of %q, outside the scenario's directory", p.idx, sc.Op, st.path)
			sc.Errno = syscall.EACCES
		}
		return
	}
	if sc.Op == "flock" {
		sc.Skip = true
		if err := p.flock(sc.Fd, sc.Flags); err != 0 {
			sc.Ret, sc.Err = -1, err
		}
		return
	}
	if sc.Op == "chdir" {
		sc.Errno = syscall.EACCES
		return
	}
	if c.ep.TmpFS && (sc.Op == "rename" || sc.Op == "link") && len(st.paths) == 2 && isScratchTmp(st.paths[0]) != isScratchTmp(st.paths[1]) {
		sc.Errno = syscall.EXDEV
		c.x.probes["across file systems"]++
	}
	// an unprivileged user
	if sc.Op == "open" {
		var e fent
		ok := false
		c.own(func() { e, ok = entOf(filepath.Join(c.root, st.path)) })
		if sc.Flags&syscall.O_EXCL != 0 && sc.Flags&syscall.O_CREAT != 0 {
			ok = false // EEXIST comes first
		}
		if ok && e.kind != 'l' && ((st.write && e.mode&0o200 == 0) || (sc.Flags&3 != syscall.O_WRONLY && e.mode&0o400 == 0)) {
			sc.Errno = syscall.EACCES
			c.mix("EACCES")
			// not a hard failure: it may find another way
			if slices.ContainsFunc(c.ep.Files, func(f CFile) bool { return f.Mode != 0 && filepath.Clean(f.Path) == st.path }) {
				p.anyf = append(p.anyf, "open "+st.path+": no permission")
			} // else the program has made it so
			c.x.faults["no permission"]++
		}
	}
	for _, path := range st.paths {
		if sc.Errno == 0 && path != "" && !strings.HasPrefix(path, "/") && pathOps[sc.Op] && c.denied(path, sc) {
			sc.Errno = syscall.EACCES
			c.mix("EACCES")
			// made by the program itself: no fault
			c.x.faults["no permission"]++
		}
	}
	if sc.Op == "write" && c.full {
		p.failed(sc, "ENOSPC", st, false)
	}
	for _, f := range faults {
		if sc.Errno != 0 && f.K != "killafter" {
			continue
		}
		switch f.K {
		case "err":
			if sc.Op == "close" {
				sc.DoFirst = true
			}
			p.failed(sc, f.E, st, true)
		case "intr":
			switch sc.Op {
			case "close", "fsync", "rename", "unlink", "link", "symlink", "mknod":
			default:
				sc.Errno = syscall.EINTR
				p.soft++
				c.x.faults["EINTR-"+sc.Op]++
				c.mix("EINTR")
			}
		case "short":
			if (sc.Op == "read" || sc.Op == "write") && sc.N > 1 {
				sc.Limit = 1 + f.N%(sc.N-1)
				p.soft++
				c.x.faults["short-"+sc.Op]++
				c.mix("short", fmt.Sprint(sc.Limit))
			}
		case "full":
			if sc.Op == "write" {
				c.full = true
				c.x.faults["disk-full"]++
				k := 0
				if sc.N > 0 {
					k = f.N % sc.N
				}
				c.mix("full", fmt.Sprint(k))
				if k == 0 {
					p.failed(sc, "ENOSPC", st, false)
				} else {
					sc.Limit = k
				}
			}
		case "lose":
			if sc.Op == "close" && st.write {
				c.own(func() {
					abs := filepath.Join(c.root, st.path)
					if s, err := os.Stat(abs); err == nil {
						os.Truncate(abs, int64(f.N)%(s.Size()+1))
					}
				})
				sc.DoFirst = true
				p.failed(sc, "EIO", st, true)
				c.own(func() { // the disk's doing, not the process's
					if e, ok := entOf(filepath.Join(c.root, st.path)); ok {
						c.snap[st.path] = e
					}
				})
				delete(p.made, st.path)
				c.x.faults["lost-write"]++
			}
		case "killafter":
			st.kill = true
			if sc.Op == "write" && f.N > 0 && sc.N > 1 {
				sc.Limit = 1 + f.N%(sc.N-1)
			}
		}
	}
}

// A lock of flock(2).
type flk struct {
	ino  uint64
	p    *cproc
	n    int
	fd   *cfd
	excl bool
}

func (l *flk) held() bool { return !l.p.dead && l.p.fds[l.n] == l.fd }

type flockWait struct {
	c  *crun
	me *flk
}

func (w flockWait) Ready() bool { return w.me.p.dead || !w.c.conflict(w.me) }

func (c *crun) conflict(me *flk) bool {
	for _, l := range c.flocks {
		if l.ino == me.ino && l.fd != me.fd && (l.excl || me.excl) && l.held() {
			return true
		}
	}
	return false
}

func (p *cproc) flock(fd, how int) syscall.Errno {
	c := p.c
	f := p.fds[fd]
	if f == nil {
		return syscall.EBADF
	}
	var st syscall.Stat_t
	c.own(func() { syscall.Fstat(fd, &st) })
	var rest []*flk
	for _, l := range c.flocks {
		if l.fd != f && l.held() {
			rest = append(rest, l)
		}
	}
	c.flocks = rest
	if how&syscall.LOCK_UN != 0 {
		return 0
	}
	me := &flk{st.Ino, p, fd, f, how&syscall.LOCK_EX != 0}
	for c.conflict(me) {
		if how&syscall.LOCK_NB != 0 {
			return syscall.EWOULDBLOCK
		}
		vsim.Block(flockWait{c, me}, "waiting for a file lock")
		if p.dead {
			runtime.Goexit()
		}
	}
	c.flocks = append(c.flocks, me)
	c.x.probes["file locks"]++
	return 0
}

// failed makes the call fail and notes what that must lead to.
func (p *cproc) failed(sc *syscall.VerifCall, e string, st *callState, count bool) {
	c := p.c
	en, ok := errnos[e]
	if !ok {
		en = syscall.EIO
	}
	sc.Errno = en
	if count {
		c.x.faults[e+"-"+sc.Op]++
	}
	c.mix("err", e)
	what := fmt.Sprintf("%s %s: %s", sc.Op, st.path, e)
	hard := false
	switch sc.Op {
	case "write":
		hard = e != "EAGAIN" // which one may try again
	case "getdents", "read":
		hard = p.needed(st.path)
	case "open":
		hard = p.needed(st.path) || st.write && !isScratchTmp(st.path)
	case "close":
		hard = st.write && !isScratchTmp(st.path)
	}
	if hard {
		p.hard = append(p.hard, what)
	} else {
		p.anyf = append(p.anyf, what)
	}
}

// needed: there are inputs to be found or read there. A program may look at
// its outputs as well, and get by when it cannot.
func (p *cproc) needed(path string) bool {
	if isScratchTmp(path) {
		return false
	}
	if p.exp == nil || p.exp.isInput(path) {
		return true
	}
	in := filepath.Clean(strings.TrimPrefix(p.spec.In, "{ROOT}/"))
	meta := strings.IndexAny(in, "*?[{\\")
	if p.spec.In == "" || meta < 0 || p.exp.out(path) != nil {
		return false
	}
	if p.exp.mk[path] || path == p.exp.loc { // where it may have reasons of its own to look
		return slices.ContainsFunc(p.exp.inputs, func(in string) bool { return strings.HasPrefix(in, path+"/") })
	}
	from := filepath.Dir(in[:meta] + "x")
	return from == "." || path == from || strings.HasPrefix(path, from+"/")
}

func cliAfter(sc *syscall.VerifCall) {
	st, _ := sc.State.(*callState)
	if st == nil {
		return
	}
	p := st.p
	c := p.c
	ok := sc.Err == nil
	switch sc.Op {
	case "open":
		if ok {
			path := st.path
			c.own(func() {
				if s, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", sc.Ret)); err == nil {
					path, _ = c.rel(s)
				}
			})
			p.fds[sc.Ret] = &cfd{path, st.write}
			if path != st.path {
				st.paths = append(st.paths, path)
			}
		}
	case "read":
		if ok && sc.Ret > 0 {
			p.got[st.path] += int64(sc.Ret)
		}
		if ok && sc.Ret == 0 && sc.N > 0 {
			p.eof[st.path] = true
		}
	case "close":
		delete(p.fds, sc.Fd)
	case "stat", "fstat":
		if s, faked := c.sizes[st.path]; faked && ok && sc.Stat != nil && sc.Stat.Mode&syscall.S_IFMT == syscall.S_IFREG {
			sc.Stat.Size = s
			c.x.probes["stat with a wrong size"]++
		}
	}
	if sc.Op == "utimes" && ok {
		c.touched = st.path
		defer func() { c.touched = "" }()
	}
	if st.mutate && (ok || sc.DoFirst) {
		if st.all {
			c.changed(p, nil)
		} else {
			c.changed(p, st.paths)
		}
	}
	if st.kill {
		c.x.faults["kill-after-"+sc.Op]++
		c.mix("killafter")
		if sc.Op == "open" && ok { // nobody will
			c.own(func() { syscall.Close(sc.Ret) })
		}
		p.die("kill")
	}
}

func cliExit(code int) {
	p := curCrun.current()
	if p == nil {
		return
	}
	if p.dead {
		runtime.Goexit()
	}
	vsim.YS()
	if p.dead {
		runtime.Goexit()
	}
	p.exit = code & 0xff // all that a parent gets to see
	p.die("exit")
}

// ------------------------------------------------------------------- streams

var stdNames = [3]string{"stdin", "stdout", "stderr"}

// stdFd does a system call on the file descriptors 0, 1 or 2. There is no
// scheduling point in it: the os package holds a lock on the file.
func (p *cproc) stdFd(sc *syscall.VerifCall) {
	sc.Skip = true
	if p.dead {
		sc.Ret, sc.Err = -1, syscall.EIO
		return
	}
	p.noYield = true
	defer func() { p.noYield = false }()
	kind := sc.Fd
	switch sc.Op {
	case "fstat":
		m, size := p.stdMode(kind)
		*sc.Stat = syscall.Stat_t{Mode: m, Size: size, Nlink: 1, Ino: uint64(7 + kind)}
		p.call("fstat", "", 0)
		return
	case "close":
		return
	case "read":
		if kind != 0 {
			sc.Ret, sc.Err = -1, syscall.EBADF
			return
		}
	case "write":
		if kind == 0 {
			sc.Ret, sc.Err = -1, syscall.EBADF
			return
		}
	}
	n := len(sc.Data)
	left := n
	if kind == 0 {
		left = len(p.spec.Stdin) - p.sinPos
		n = min(n, left)
		if l := len(p.spec.Chunks); l > 0 {
			n = min(n, max(1, p.spec.Chunks[p.sinRead%l]))
		}
		p.sinRead++
	}
	if e := p.pend[kind]; e != 0 {
		p.pend[kind] = 0
		p.stdErr(sc, kind, e)
		return
	}
	fs := p.call(stdNames[kind], "", left)
	kill := false
	for _, f := range fs {
		switch f.K {
		case "err", "full", "lose":
			e := errnos[f.E]
			if e == 0 {
				e = syscall.EIO
			}
			p.c.x.faults[stdNames[kind]+"-error"]++
			k := 0
			if n > 0 {
				k = f.N % n
			}
			p.c.mix("err", fmt.Sprint(k))
			if k == 0 || kind == 0 {
				p.stdErr(sc, kind, e)
				return
			}
			n, p.pend[kind] = k, e // the first part gets through
		case "short":
			if n > 1 {
				n = 1 + f.N%(n-1)
				p.soft++
				p.c.x.faults["short-"+stdNames[kind]]++
				p.c.mix("short", fmt.Sprint(n))
			}
		case "intr":
			p.soft++
			p.c.x.faults["EINTR-"+stdNames[kind]]++
			p.c.mix("EINTR")
			sc.Ret, sc.Err = -1, syscall.EINTR
			return
		case "killafter":
			kill = true
			if kind > 0 {
				n = min(f.N%(n+1), n)
			}
		}
	}
	switch kind {
	case 0:
		copy(sc.Data, p.spec.Stdin[p.sinPos:p.sinPos+n])
		p.sinPos += n
		if n == 0 && len(sc.Data) > 0 {
			p.sinEOF = true
		}
	case 1:
		p.stdout = append(p.stdout, sc.Data[:n]...)
	case 2:
		p.stderr = append(p.stderr, sc.Data[:n]...)
	}
	sc.Ret = n
	if kill {
		p.c.x.faults["kill"]++
		p.die("kill")
	}
}

func (p *cproc) stdErr(sc *syscall.VerifCall, kind int, e syscall.Errno) {
	if kind > 0 && e == syscall.EPIPE { // the signal comes first
		p.c.x.faults["SIGPIPE"]++
		p.c.mix("SIGPIPE")
		p.die("kill")
	}
	what := fmt.Sprintf("%s: %v", stdNames[kind], e)
	if kind == 2 {
		p.errLost = true
		p.anyf = append(p.anyf, what)
	} else if e == syscall.EAGAIN {
		p.anyf = append(p.anyf, what)
	} else {
		p.hard = append(p.hard, what)
	}
	sc.Ret, sc.Err = -1, e
}

type cstream struct {
	p    *cproc
	kind int // 0 stdin, 1 stdout, 2 stderr
}

// stdMode: what fstat says of stdin, stdout or stderr.
func (p *cproc) stdMode(kind int) (uint32, int64) {
	k := p.spec.Kind >> (kind * 4) & 15
	if kind == 0 && !p.spec.Piped {
		return syscall.S_IFCHR | 0o620, 0
	}
	switch k {
	case 1: // redirected
		if kind == 0 {
			return syscall.S_IFREG | 0o644, int64(len(p.spec.Stdin))
		}
		return syscall.S_IFREG | 0o644, 0
	case 2:
		return syscall.S_IFSOCK | 0o777, 0
	case 3: // a file that grows or one of /proc
		return syscall.S_IFREG | 0o444, int64(len(p.spec.Stdin) / 2)
	case 4: // a terminal
		if kind != 0 {
			return syscall.S_IFCHR | 0o620, 0
		}
	}
	return syscall.S_IFIFO | 0o660, 0
}

type cstat struct {
	mode fs.FileMode
	size int64
}

func (s cstat) Name() string       { return "" }
func (s cstat) Size() int64        { return s.size }
func (s cstat) Mode() fs.FileMode  { return s.mode }
func (s cstat) ModTime() time.Time { return time.Time{} }
func (s cstat) IsDir() bool        { return false }
func (s cstat) Sys() any           { return nil }

func (s *cstream) Stat() (fs.FileInfo, error) {
	m, size := s.p.stdMode(s.kind)
	f := fs.FileMode(m & 0o777)
	switch m & syscall.S_IFMT {
	case syscall.S_IFCHR:
		f |= fs.ModeDevice | fs.ModeCharDevice
	case syscall.S_IFIFO:
		f |= fs.ModeNamedPipe
	case syscall.S_IFSOCK:
		f |= fs.ModeSocket
	}
	return cstat{f, size}, nil
}

func (s *cstream) Read(b []byte) (int, error) {
	p := s.p
	if p.dead || s.kind != 0 || len(b) == 0 {
		if p.dead {
			return 0, io.ErrClosedPipe
		}
		return 0, nil
	}
	left := len(p.spec.Stdin) - p.sinPos
	fs := p.call("stdin", "", left)
	n := min(left, len(b))
	if l := len(p.spec.Chunks); l > 0 {
		n = min(n, p.spec.Chunks[p.sinRead%l])
		if n == 0 && p.sinRead > 4*l+100 {
			n = min(left, len(b))
		}
	}
	p.sinRead++
	kill := false
	var err error
	for _, f := range fs {
		switch f.K {
		case "err", "full", "lose":
			n = min(f.N%(n+1), n)
			err = &fs2PathError{"read", "/dev/stdin", errnos[f.E]}
			if errnos[f.E] == 0 {
				err = &fs2PathError{"read", "/dev/stdin", syscall.EIO}
			}
			if f.E == "EAGAIN" {
				p.anyf = append(p.anyf, "stdin: "+f.E)
			} else {
				p.hard = append(p.hard, "stdin: "+f.E)
			}
			p.c.x.faults["stdin-error"]++
			p.c.mix("err", fmt.Sprint(n))
		case "short", "intr":
			if n > 1 {
				n = 1 + f.N%(n-1)
				p.soft++
				p.c.x.faults["short-stdin"]++
			}
		case "killafter":
			kill = true
		}
	}
	copy(b, p.spec.Stdin[p.sinPos:p.sinPos+n])
	p.sinPos += n
	if kill {
		p.c.x.faults["kill"]++
		p.die("kill")
	}
	if err != nil {
		return n, err
	}
	if p.sinPos == len(p.spec.Stdin) && (n == 0 || p.spec.Late) {
		if n == 0 || p.spec.Late {
			p.sinEOF = true
			return n, io.EOF
		}
	}
	return n, nil
}

// fs2PathError looks like what *os.File returns.
type fs2PathError = fs.PathError

func (s *cstream) Write(b []byte) (int, error) {
	p := s.p
	if p.dead {
		return 0, io.ErrClosedPipe
	}
	if s.kind == 0 {
		return 0, &fs2PathError{"write", "/dev/stdin", syscall.EBADF}
	}
	name := "stdout"
	if s.kind == 2 {
		name = "stderr"
	}
	fs := p.call(name, "", len(b))
	n := len(b)
	var err error
	kill := false
	for _, f := range fs {
		switch f.K {
		case "err", "full", "lose":
			e := errnos[f.E]
			if e == 0 {
				e = syscall.ENOSPC
			}
			n = min(f.N%(n+1), n)
			if f.N < 0 {
				n = 0
			}
			err = &fs2PathError{"write", "/dev/" + name, e}
			p.c.x.faults[name+"-error"]++
			p.c.mix("err", fmt.Sprint(n))
			if s.kind == 1 {
				what := fmt.Sprintf("stdout took %d of %d bytes: %v", n, len(b), e)
				if e == syscall.EAGAIN {
					p.anyf = append(p.anyf, what)
				} else {
					p.hard = append(p.hard, what)
				}
			} else {
				p.errLost = true
				p.anyf = append(p.anyf, "stderr: "+f.E)
			}
		case "short":
			if s.kind == 1 && len(b) > 0 {
				n = f.N % n
				err = io.ErrShortWrite
				p.c.x.faults["stdout-short"]++
				p.hard = append(p.hard, fmt.Sprintf("stdout took %d of %d bytes: short write", n, len(b)))
				p.c.mix("short", fmt.Sprint(n))
			}
		case "killafter":
			kill = true
			n = min(f.N%(n+1), n)
		}
	}
	if s.kind == 1 {
		p.stdout = append(p.stdout, b[:n]...)
	} else {
		p.stderr = append(p.stderr, b[:n]...)
	}
	if kill {
		p.c.x.faults["kill"]++
		p.die("kill")
	}
	return n, err
}

// ------------------------------------------------------------------- running

var cliRoots int

// newCrun makes the directory of the run.
func newCrun(x *run) *crun {
	ep := x.ep.Cli
	c := &crun{x: x, ep: ep, owner: map[uint64]int{}, dirty: map[string]bool{}, envMk: map[string]string{}, sizes: map[string]int64{}, plan: map[[2]int][]CFault{}}
	wd := cliBase()
	cliRoots++
	c.root = filepath.Join(wd, fmt.Sprintf("r%06d", cliRoots))
	must(os.MkdirAll(filepath.Join(c.root, "tmp"), 0o755))
	must(os.Chdir(c.root))
	os.Setenv("TMPDIR", filepath.Join(c.root, "tmp"))
	os.Unsetenv("PWD")
	syscall.VerifResetTemp()
	for _, f := range ep.Files {
		abs := filepath.Join(c.root, f.Path)
		must(os.MkdirAll(filepath.Dir(abs), 0o755))
		switch {
		case f.Dir:
			must(os.MkdirAll(abs, 0o755))
		case f.Link != "":
			must(os.Symlink(f.Link, abs))
		default:
			must(os.WriteFile(abs, f.Data, 0o644))
			if f.Size != nil {
				c.sizes[f.Path] = *f.Size
			}
			if f.Mode != 0 {
				must(os.Chmod(abs, os.FileMode(f.Mode)))
			}
		}
	}
	for _, f := range ep.Faults {
		k := [2]int{f.P, f.At}
		c.plan[k] = append(c.plan[k], f)
	}
	c.snap = c.scan()
	c.first = copyTree(c.snap)
	curCrun = c
	return c
}

func copyTree(m map[string]fent) map[string]fent {
	n := make(map[string]fent, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func must(err error) {
	if err != nil {
		fail("%v", err)
	}
}

var cliBaseDir string

func cliBase() string {
	if cliBaseDir == "" {
		d, err := os.Getwd()
		must(err)
		cliBaseDir = d
		syscall.Umask(0o022)
		syscall.VerifHook, syscall.VerifAfter, syscall.VerifExit = cliHook, cliAfter, cliExit
		syscall.VerifPid = func() int {
			if p := curCrun.current(); p != nil {
				return p.pid
			}
			return 0
		}
		vsim.OnSwitch = onSwitch
	}
	return cliBaseDir
}

func (c *crun) close() {
	os.Chdir(cliBaseDir)
	// directories may have lost their permissions
	os.RemoveAll(c.root)
	curCrun = nil
}

func (p *cproc) main() {
	defer func() {
		if r := recover(); r != nil {
			if p.dead {
				return
			}
			p.stderr = append(p.stderr, fmt.Sprintf("panic: %v\n", r)...)
			p.dead, p.how, p.exit = true, "panic", 2
		}
		if !p.dead {
			p.dead, p.how = true, "goexit"
		}
		p.c.ended(p)
	}()
	p.started = true
	if p.spec.Main {
		os.Args = p.args()
		flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
		flag.Usage = nil
		os.Stdin, os.Stdout, os.Stderr = stdFile(0), stdFile(1), stdFile(2)
		p.c.x.probe("started with main()")
		climain.Main()
	} else {
		p.run()
	}
	if !p.dead {
		p.dead, p.how, p.exit = true, "return", 0
	}
}

// stdFiles keeps them: a file that nobody holds is closed.
var stdFiles []*os.File

func stdFile(fd int) *os.File {
	f := os.NewFile(uintptr(fd), "/dev/"+stdNames[fd])
	stdFiles = append(stdFiles, f)
	return f
}

func (p *cproc) run() {
	cmd.Run(&cstream{p, 0}, &cstream{p, 1}, &cstream{p, 2}, p.args(), cmd.Release{Version: "1", Commit: "c", Date: "d"})
}

func (c *crun) ended(p *cproc) {
	c.done = append(c.done, p)
	c.mix("end", fmt.Sprint(p.idx, p.exit))
	c.changed(p, nil)
	if c.onEnd != nil {
		c.onEnd(p)
	}
}

func (p *cproc) args() []string {
	s := p.spec
	root := p.c.root
	var fl [][2]string
	add := func(k, v string) {
		if v != "" {
			fl = append(fl, [2]string{k, strings.ReplaceAll(v, "{ROOT}", root)})
		}
	}
	add("input", s.In)
	add("output", s.Out)
	if s.Over {
		fl = append(fl, [2]string{"output-overwrite", ""})
	}
	add("opt-strong-delimiter", s.Strong)
	add("domain", s.Domain)
	add("include-selector", s.Incl)
	add("exclude-selector", s.Excl)
	if s.Strike {
		fl = append(fl, [2]string{"plugin-strikethrough", ""})
	}
	if len(s.Table) > 0 {
		fl = append(fl, [2]string{"plugin-table", ""})
		for _, t := range s.Table {
			k, v, _ := strings.Cut(t, "=")
			if k != "on" {
				fl = append(fl, [2]string{k, v})
			}
		}
	}
	r := NewR(uint64(s.Form))
	for i := len(fl) - 1; i > 0; i-- {
		j := r.N(i + 1)
		fl[i], fl[j] = fl[j], fl[i]
	}
	args := []string{"html2markdown"}
	for _, f := range fl {
		dash := r.Pick("-", "--")
		switch {
		case f[1] == "":
			args = append(args, dash+f[0]+r.Pick("", "=true"))
		case r.P(50):
			args = append(args, dash+f[0]+"="+f[1])
		default:
			args = append(args, dash+f[0], f[1])
		}
	}
	if len(s.Usage) > 0 && r.P(40) && s.Usage[0] != "stray" && strings.HasPrefix(s.Usage[0], "-") && s.Usage[0] != "--domain" {
		return append(append([]string{args[0]}, s.Usage...), args[1:]...)
	}
	return append(args, s.Usage...)
}

// runPhases is the controller task of a run.
func (c *crun) runPhases(check func(phase int, ps []*cproc)) {
	x := c.x
	x.task("control", nil, func() {
		for i, ph := range c.ep.Phases {
			c.full = false
			c.dirty = map[string]bool{}
			if ph.Healthy {
				c.plan = map[[2]int][]CFault{}
			}
			var ps []*cproc
			var ts []*vsim.Task
			c.snap = c.scan()
			for j, s := range ph.Procs {
				p := &cproc{c: c, idx: len(c.procs), phase: i, spec: s, fds: map[int]*cfd{}, got: map[string]int64{}, eof: map[string]bool{}, made: map[string]bool{}, pre: c.snap}
				p.exp = c.expect(s)
				p.pid = 1000 + j
				if !c.ep.SamePids {
					p.pid = 1000 + p.idx
				}
				c.procs = append(c.procs, p)
				ps = append(ps, p)
			}
			pre := copyTree(c.snap)
			c.loaded = nil
			for _, p := range ps {
				vsim.ResetGlobals()
				p.globals = vsim.SaveGlobals()
				p.pre = pre
				p.task = vsim.Spawn(fmt.Sprintf("process %d", p.idx), p, p.main)
				ts = append(ts, p.task)
			}
			vsim.WaitDone(ts...)
			for _, p := range ps {
				if !p.dead {
					p.dead, p.how = true, "power"
				}
			}
			check(i, ps)
		}
	})
	x.okPanic = func(t *vsim.Task) bool { _, ok := t.Proc.(*cproc); return ok }
	x.after = append(x.after, func() {
		x.out.Key = mix64(c.hash, x.sim.Hash)
		x.out.Calls = make([][]callInfo, len(c.procs))
		n := 0
		for i, p := range c.procs {
			x.out.Calls[i] = p.calls
			n += len(p.calls)
		}
		x.out.Nontriv = x.sim.Preempts > 0 || len(c.ep.Faults) > 0
		x.probes["system-calls"] += n
		for _, p := range c.procs {
			x.probes["processes"]++
			switch {
			case p.killed():
				x.probes["processes killed"]++
			case p.exit == 0:
				x.probes["processes that exited 0"]++
			default:
				x.probes["processes that exited nonzero"]++
			}
		}
	})
}

func (p *cproc) ok() bool { return !p.killed() && p.exit == 0 }

func (p *cproc) describe() string {
	how := fmt.Sprintf("exit status %d", p.exit)
	if p.killed() {
		how = "killed"
	}
	e := strings.TrimSpace(string(p.stderr))
	if len(e) > 200 {
		e = e[:200]
	}
	args := strings.ReplaceAll(strings.Join(p.args(), " "), p.c.root, "{ROOT}")
	return fmt.Sprintf("process %d (%s) ended with %s, stderr %q", p.idx, args, how, strings.ReplaceAll(e, p.c.root, "{ROOT}"))
}

var _ = bytes.Equal
