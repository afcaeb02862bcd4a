package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	lha "github.com/jeromelesaux/lha"
)

// Operations of a process which is interrupted by another one.
type shareOp struct {
	name  string
	arc   string
	out   string // archive it makes, "" if it makes none
	bak   bool
	files map[string][]byte
	srcs  []string
	run   func(l *lha.Lha) (string, error)
}

func shareOld() []byte {
	var es []*Ent
	for i, n := range []string{"a", "keep", "z"} {
		e := sample([]string{"-lh5-", "-lh1-", "-lh0-"}[i], i)
		e.Name, e.Level, e.Time, e.Mode = n, i, tMid, 0644
		es = append(es, e)
	}
	return archive(es, true)
}

func shareStub(arc []byte) []byte { return append(bytes.Repeat([]byte{0x4d, 0x5a, 0x90}, 40), arc...) }

func shareOps() []shareOp {
	text := bytes.Repeat([]byte("compressible content! "), 30)
	noise := unique(400, 250, 1)
	long := unique(5000, 250, 1)
	big := bytes.Repeat([]byte("0123456789abcdef, and more of it; "), 1200)
	old := shareOld()
	F := func(kv ...interface{}) map[string][]byte {
		m := map[string][]byte{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].([]byte)
		}
		return m
	}
	addTo := func(arc string, method, level int, set func(l *lha.Lha), n ...string) func(l *lha.Lha) (string, error) {
		return func(l *lha.Lha) (string, error) {
			l.CmdFilev, l.CmdFilec = n, len(n)
			l.CompressMethod, l.HeaderLevel = method, level
			if set != nil {
				set(l)
			}
			return "", lha.CommandAdd(arc, l)
		}
	}
	ops := []shareOp{
		{name: "add two files", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old, "s1", text, "a", noise), srcs: []string{"s1", "a"}, run: addTo("x.lzh", 5, 2, nil, "s1", "a")},
		{name: "add a file which does not shrink", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old, "s1", unique(1200, 250, 5)), srcs: []string{"s1"}, run: addTo("x.lzh", 1, 1, nil, "s1")},
		{name: "replace by a large file", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old, "a", big), srcs: []string{"a"}, run: addTo("x.lzh", 1, 0, nil, "a")},
		{name: "store a large file", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old, "keep", long), srcs: []string{"keep"}, run: addTo("x.lzh", 0, 2, nil, "keep")},
		{name: "add from memory", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old), run: func(l *lha.Lha) (string, error) { return "", l.CompressBytes("m", text, 6, 1) }},
		{name: "update newer files", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old, "a", text, "z", noise), srcs: []string{"a", "z"}, run: func(l *lha.Lha) (string, error) {
			l.CompressMethod, l.HeaderLevel = 5, 1
			l.UpdateIfNewer = true
			return "", lha.CommandAdd("x.lzh", l)
		}},
		{name: "add with a backup", arc: "x.lzh", out: "x.lzh", bak: true, files: F("x.lzh", old, "s1", text), srcs: []string{"s1"}, run: addTo("x.lzh", 5, 2, func(l *lha.Lha) { l.BackupOldArchive = true }, "s1")},
		{name: "add in order", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old, "b", text), srcs: []string{"b"}, run: addTo("x.lzh", 5, 0, func(l *lha.Lha) { l.SortContents = true }, "b")},
		{name: "create", arc: "x.lzh", out: "x.lzh", files: F("s1", noise, "s2", text), srcs: []string{"s1", "s2"}, run: addTo("x.lzh", 5, 2, nil, "s1", "s2")},
		{name: "create anew", arc: "x.lzh", out: "x.lzh", files: F("x.lzh", old, "s1", text), srcs: []string{"s1"}, run: addTo("x.lzh", 5, 2, func(l *lha.Lha) { l.NewArchive = true }, "s1")},
		{name: "update a self-extracting archive", arc: "x.exe", out: "x.lzh", files: F("x.exe", shareStub(old), "s1", text), srcs: []string{"s1"}, run: addTo("x.exe", 5, 2, nil, "s1")},
	}
	for _, arc := range []string{"x.lzh", "x.exe"} {
		arc := arc
		b := old
		if arc == "x.exe" {
			b = shareStub(old)
		}
		R := func(name string, run func(l *lha.Lha) (string, error)) {
			ops = append(ops, shareOp{name: name + " " + arc, arc: arc, files: F(arc, b), run: run})
		}
		R("headers of", func(l *lha.Lha) (string, error) {
			hs, err := l.Headers()
			s := ""
			for _, h := range hs {
				s += fmt.Sprintf("%q %s %d %d %x %o %d;", cname(h.Name), h.Method, h.OriginalSize, h.PackedSize, h.Crc, h.UnixMode, h.HeaderLevel)
			}
			return s, err
		})
		R("list", func(l *lha.Lha) (string, error) { l.VerboseListing = true; return "", lha.CommandList(arc, l) })
		R("test", func(l *lha.Lha) (string, error) { lha.VerifyMode = true; return "", lha.CommandExtract(arc, l) })
		R("print", func(l *lha.Lha) (string, error) {
			l.OutputToStdout = true
			return "", lha.CommandExtract(arc, l)
		})
		R("extract", func(l *lha.Lha) (string, error) {
			l.ExtractDirectory = "xo"
			return "", lha.CommandExtract(arc, l)
		})
		R("extract one of", func(l *lha.Lha) (string, error) {
			l.ExtractDirectory = "xo"
			return "", l.Decompress(namedHeader("a"))
		})
		R("to memory one of", func(l *lha.Lha) (string, error) {
			b, err := l.DecompresBytes(namedHeader("a"))
			return fmt.Sprintf("%x", sha256.Sum256(b)), err
		})
	}
	return ops
}

func (o *shareOp) setup(dir string) {
	fresh(dir)
	for n, b := range o.files {
		writeFile(filepath.Join(dir, n), b)
		tm := time.Unix(tLate, 0)
		must(os.Chtimes(filepath.Join(dir, n), tm, tm))
	}
}

// child share OP DIR PIDFILE OUT
func childShare(a []string) {
	bareChild = true
	runtime.LockOSThread()
	i, _ := strconv.Atoi(a[0])
	must(os.Chdir(a[1]))
	must(os.WriteFile(a[2], []byte(fmt.Sprint(os.Getpid())), 0644))
	report := os.Stdout
	keepFiles = append(keepFiles, os.Stdin, os.Stdout, os.Stderr)
	f, err := os.Create(a[3])
	must(err)
	os.Stdout = f
	os.Stdin, _ = os.Open(os.DevNull)
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	o := shareOps()[i]
	l := lha.NewLha(o.arc)
	os.Lstat("/operation-starts-here")
	ans, err := o.run(l)
	os.Lstat("/operation-ends-here")
	if err != nil {
		fmt.Fprintln(report, "error", err)
	} else {
		fmt.Fprintln(report, "ok", ans)
	}
	os.Exit(0)
}

// point is a place where a process is interrupted: after the n-th of its calls.
type point struct {
	call string
	n    int
}

func (p point) String() string { return fmt.Sprintf("call %d to %s", p.n, p.call) }

// sproc is a process that runs up to a point, waits there, and goes on.
type sproc struct {
	cmd       *exec.Cmd
	so        bytes.Buffer
	log, pidf string
	outf      string
	done      chan error
	stopped   bool
}

const shareCalls = "openat,read,pread64,write,pwrite64,lseek,close,renameat,renameat2,unlinkat,ftruncate,newfstatat,fstat,fchmod,fchmodat,mkdirat,symlinkat,copy_file_range,getdents64,readlinkat,linkat"

var lastStopped bool

// startStopped runs the operation up to the point, or to its end if there is none.
func startStopped(c *Ctx, id string, i int, dir string, p *point) *sproc {
	self, _ := os.Executable()
	s := &sproc{log: filepath.Join(c.Dir, "strace"+id), pidf: filepath.Join(c.Dir, "pid"+id), outf: filepath.Join(c.Dir, "out"+id), done: make(chan error, 1)}
	os.Remove(s.log)
	os.Remove(s.pidf)
	args := []string{"-y", "-o", s.log, "-qq"}
	if p == nil {
		args = append(args, "-e", "trace="+shareCalls)
	} else {
		args = append(args, "-e", "trace="+p.call, "-e", fmt.Sprintf("inject=%s:signal=SIGSTOP:when=%d", p.call, p.n))
	}
	s.cmd = exec.Command("strace", append(args, self, "child", "share", fmt.Sprint(i), dir, s.pidf, s.outf)...)
	s.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	s.cmd.Stdout = &s.so
	must(s.cmd.Start())
	go func() { s.done <- s.cmd.Wait() }()
	if p == nil {
		return s
	}
	lastStopped = false
	until := time.Now().Add(30 * time.Second)
	for {
		b, _ := os.ReadFile(s.log)
		if bytes.Contains(b, []byte("stopped by SIGSTOP")) {
			s.stopped, lastStopped = true, true
			return s
		}
		select {
		case err := <-s.done:
			s.done <- err
			return s
		case <-time.After(500 * time.Microsecond):
		}
		if time.Now().After(until) {
			return s
		}
	}
}

// finish lets it go on and returns what it answered.
func (s *sproc) finish() string {
	pid := 0
	if s.stopped {
		b, err := os.ReadFile(s.pidf)
		must(err)
		pid, err = strconv.Atoi(string(b))
		must(err)
	}
	for n := 0; n < 300; n++ {
		if pid != 0 {
			syscall.Kill(pid, syscall.SIGCONT)
		}
		select {
		case err := <-s.done:
			r := strings.TrimSpace(s.so.String())
			if r == "" {
				return fmt.Sprint("died ", err)
			}
			return r
		case <-time.After(200 * time.Millisecond):
		}
	}
	{
		if b, err := os.ReadFile(s.pidf); err == nil {
			if pid, err := strconv.Atoi(string(b)); err == nil {
				syscall.Kill(pid, syscall.SIGKILL)
			}
		}
		s.cmd.Process.Kill()
		<-s.done
		return "died no answer"
	}
}

// points of an operation: the system calls it makes on files. Calls on a file
// no other process knows (the temporary one, its messages) commute with all
// that others do: of several such calls in a row the last one is taken.
func (o *shareOp) points(c *Ctx, i int, dir string) (ps []point, res string) {
	s := startStopped(c, "p", i, dir, nil)
	res = s.finish()
	b, _ := os.ReadFile(s.log)
	n := map[string]int{}
	started, wasLocal := false, false
	for _, l := range strings.Split(string(b), "\n") {
		a := strings.Index(l, "(")
		if a < 0 {
			continue
		}
		n[l[:a]]++
		if strings.Contains(l, "operation-starts-here") {
			started = true
		}
		if strings.Contains(l, "operation-ends-here") {
			break
		}
		if !started {
			continue
		}
		local := o.local(l[:a], l[a:], dir)
		if local && wasLocal {
			ps = ps[:len(ps)-1]
		}
		wasLocal = local
		ps = append(ps, point{l[:a], n[l[:a]]})
	}
	return
}

func (o *shareOp) local(call, args, dir string) bool {
	switch call {
	case "write", "lseek", "pwrite64", "ftruncate", "fstat", "read":
	default:
		return false
	}
	a, b := strings.Index(args, "<"), strings.Index(args, ">")
	if a < 0 || b < a {
		return false
	}
	p := args[a+1 : b]
	if !strings.HasPrefix(p, dir+"/") {
		return true
	}
	n := filepath.Base(p)
	_, there := o.files[n]
	return filepath.Dir(p) == dir && !there && n != o.out && filepath.Ext(n) != ".bak"
}

// text of the archive, "none" if there is none, or what is wrong with it.
func shareText(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "none"
	}
	s, err := arcText(b)
	if err != nil {
		return "malformed: " + err.Error()
	}
	return s
}

func short(s string) string {
	s = strings.TrimSpace(s)
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, ":"); i > 0 && i < 60 && !strings.HasPrefix(l, "malformed") {
			l = l[:i]
		}
		out = append(out, l)
	}
	return tail(strings.Join(out, ", "), 300)
}

// what another process may do to the archive meanwhile.
type meanwhile struct {
	name string
	do   func(dir string)
}

func (o *shareOp) others() []meanwhile {
	// only its own process is stopped: here the library runs in this one
	mem := func(name, arc string, body []byte) meanwhile {
		return meanwhile{"adds " + name, func(dir string) {
			inDir(dir, func() {
				withStdout(func() { must(lha.NewLha(arc).CompressBytes(name, body, 5, 1)) })
			})
		}}
	}
	body := bytes.Repeat([]byte("of the other process; "), 40)
	arc := o.arc
	if arc == "x.exe" {
		arc = "x.lzh"
	}
	return []meanwhile{
		mem("g", arc, body),
		mem("keep", arc, body),
		mem("a", arc, unique(3000, 240, 3)),
		{"removes the archive", func(dir string) { os.Remove(filepath.Join(dir, arc)) }},
	}
}

func sourceChanges() []struct {
	name  string
	exact bool // it holds either the old or the new content
	do    func(p string)
} {
	other := bytes.Repeat([]byte("another file. "), 100)
	type ch = struct {
		name  string
		exact bool
		do    func(p string)
	}
	trunc := func(f func(n int64) int64) func(p string) {
		return func(p string) {
			fi, err := os.Stat(p)
			must(err)
			must(os.Truncate(p, f(fi.Size())))
		}
	}
	return []ch{
		{"is emptied", false, trunc(func(n int64) int64 { return 0 })},
		{"is cut to one byte", false, trunc(func(n int64) int64 { return 1 })},
		{"is cut by half", false, trunc(func(n int64) int64 { return n / 2 })},
		{"loses its last byte", false, trunc(func(n int64) int64 { return n - 1 })},
		{"grows by one byte", false, trunc(func(n int64) int64 { return n + 1 })},
		{"grows", false, func(p string) {
			f, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
			must(err)
			f.Write(unique(50000, 251, 7))
			f.Close()
		}},
		{"becomes compressible", false, func(p string) {
			f, err := os.OpenFile(p, os.O_WRONLY, 0)
			must(err)
			fi, _ := f.Stat()
			f.WriteAt(bytes.Repeat([]byte{'x'}, int(fi.Size())), 0)
			f.Close()
		}},
		{"becomes incompressible", false, func(p string) {
			f, err := os.OpenFile(p, os.O_WRONLY, 0)
			must(err)
			fi, _ := f.Stat()
			f.WriteAt(unique(int(fi.Size()), 249, 9), 0)
			f.Close()
		}},
		{"is removed", true, func(p string) { must(os.Remove(p)) }},
		{"is replaced by another file", true, func(p string) {
			writeFile(p+".new", other)
			must(os.Rename(p+".new", p))
		}},
		{"is replaced by a directory", true, func(p string) { must(os.Remove(p)); must(os.Mkdir(p, 0755)) }},
		{"is replaced by a link", true, func(p string) { must(os.Remove(p)); must(os.Symlink("nowhere", p)) }},
	}
}

func init() {
	register(&Prop{
		ID:        "C26",
		Technique: "schedule enumeration on the real code: a process is stopped after every system call it makes on files, another process acts there, the first goes on; every such schedule is judged",
		Level:     "model_checking",
		Rule:      "evaluation = one schedule: an operation stopped after one system call, what happens there, and the rest of the operation; distinct = distinct (operation, point, action, outcome)",
		StallSec:  120,
		Bounds: map[string]string{
			"quick":    "11 updates and 14 reading operations, stopped after each of their file system calls: the archive is looked at, updated in 3 ways or removed by another process there, and each source is changed in 12 ways (updates); the archive is replaced, updated or removed (reading); two updating processes, each stopped after each of its calls (schedules A B A B)",
			"thorough": "all 100 pairs of 10 updating operations as two processes",
		},
		Explore: exploreShare,
	})
}

func exploreShare(c *Ctx) {
	if exec.Command("strace", "-o", filepath.Join(c.Dir, "probe"), "-e", "trace=write", "-e", "inject=write:error=EIO:when=1", "true").Run() != nil {
		return
	}
	lha.Quiet = true
	dir := filepath.Join(c.Dir, "sh")
	ops := shareOps()
	const slices = 4
	for i := range ops {
		i := i
		o := &ops[i]
		// the points, found anew in each case
		points := func(t *T, s int) []point {
			o.setup(dir)
			ps, res := o.points(c, i, dir)
			if !strings.HasPrefix(res, "ok") {
				t.Fail("%s: alone: %s", o.name, res)
				return nil
			}
			var out []point
			for k := s; k < len(ps); k += slices {
				out = append(out, ps[k])
			}
			return out
		}
		ran := func(t *T, p point, what, res string) {
			if !lastStopped {
				t.Dim("place_not_reached", 1)
				return
			}
			t.Traces(1)
			t.Trans(1)
			t.Dim("schedules", 1)
			if len(res) > 10 {
				res = res[:10]
			}
			t.Distinct([]byte(fmt.Sprint(o.name, p, what, res)))
		}
		if o.out == "" {
			exploreShareRead(c, i, o, dir, slices, points, ran)
			continue
		}
		arc := filepath.Join(dir, o.out)
		alone := func(t *T) (old, new string) {
			o.setup(dir)
			old = shareText(arc)
			s := startStopped(c, "e", i, dir, nil)
			if res := s.finish(); !strings.HasPrefix(res, "ok") {
				t.Fail("%s: alone: %s", o.name, res)
			}
			return old, shareText(arc)
		}
		leftOver := func(dir string, also ...string) string {
			ds, _ := os.ReadDir(dir)
			for _, d := range ds {
				n := d.Name()
				if _, ok := o.files[n]; !ok && n != o.out && filepath.Ext(n) != ".bak" {
					return n
				}
			}
			return ""
		}
		for s := 0; s < slices; s++ {
			s := s
			c.Case(str("%s, looked at meanwhile, slice %d", o.name, s), func(t *T) {
				old, new := alone(t)
				for _, p := range points(t, s) {
					o.setup(dir)
					a := startStopped(c, "a", i, dir, &p)
					seen := shareText(arc)
					bad := ""
					if seen != "none" {
						withStdout(func() {
							l := lha.NewLha(arc)
							lha.VerifyMode = true
							if err := lha.CommandExtract(arc, l); err != nil {
								bad = "testing it fails: " + err.Error()
							}
							lha.VerifyMode = false
						})
					}
					if o.bak && seen == new {
						if b, err := os.ReadFile(filepath.Join(dir, "x.bak")); err != nil || !bytes.Equal(b, o.files[o.arc]) {
							bad = "there is no backup of the old one"
						}
					}
					res := a.finish()
					ran(t, p, "look", res)
					if seen != old && seen != new {
						t.Fail("%s: after %s the archive is neither the old nor the new one: %s", o.name, p, short(seen))
					} else if bad != "" {
						t.Fail("%s: archive after %s: %s", o.name, p, bad)
					} else if !strings.HasPrefix(res, "ok") || shareText(arc) != new {
						t.Fail("%s, looked at after %s: %s, %s", o.name, p, res, short(shareText(arc)))
					}
					if t.Failed() {
						return
					}
				}
			})
			for _, w := range o.others() {
				w := w
				c.Case(str("%s while another process %s, slice %d", o.name, w.name, s), func(t *T) {
					_, A := alone(t)
					o.setup(dir)
					w.do(dir)
					B := shareText(arc)
					// one after the other
					s1 := startStopped(c, "e", i, dir, nil)
					s1.finish()
					BA := shareText(arc)
					o.setup(dir)
					s1 = startStopped(c, "e", i, dir, nil)
					s1.finish()
					w.do(dir)
					AB := shareText(arc)
					for _, p := range points(t, s) {
						o.setup(dir)
						a := startStopped(c, "a", i, dir, &p)
						w.do(dir)
						res := a.finish()
						ran(t, p, w.name, res)
						got := shareText(arc)
						ok := got == A || got == B || got == AB || got == BA
						failed := strings.HasPrefix(res, "error") // only if the archive is gone
						if strings.HasPrefix(res, "died") || !ok || failed && (got != B || B != "none") {
							t.Fail("%s, after %s another process %s: %s; the archive: %s", o.name, p, w.name, res, short(got))
							return
						}
						if n := leftOver(dir); n != "" {
							t.Fail("%s, after %s another process %s: %s left behind", o.name, p, w.name, n)
							return
						}
					}
				})
			}
			for _, src := range o.srcs {
				for _, ch := range sourceChanges() {
					src, ch := src, ch
					c.Case(str("%s while %s %s, slice %d", o.name, src, ch.name, s), func(t *T) {
						oldMap := map[string]*arcEnt{}
						if b, ok := o.files[o.arc]; ok && !strings.HasPrefix(o.name, "create anew") {
							if o.arc == "x.exe" {
								b = b[120:]
							}
							m, _, err := arcMap(b)
							must(err)
							oldMap = m
						}
						for _, p := range points(t, s) {
							o.setup(dir)
							a := startStopped(c, "a", i, dir, &p)
							ch.do(filepath.Join(dir, src))
							var after []byte
							if ch.exact {
								after, _ = os.ReadFile(filepath.Join(dir, src))
							}
							res := a.finish()
							ran(t, p, src+ch.name, res)
							bad := func(f string, a ...interface{}) {
								t.Fail("%s, after %s %s %s: %s: %s", o.name, p, src, ch.name, res, fmt.Sprintf(f, a...))
							}
							b, err := os.ReadFile(arc)
							if n := leftOver(dir); n != "" {
								bad("%s left behind", n)
								return
							}
							if strings.HasPrefix(res, "died") {
								bad("")
								return
							}
							if strings.HasPrefix(res, "error") {
								prev, had := o.files[o.out]
								if had != (err == nil) || had && !bytes.Equal(prev, b) {
									bad("the archive is changed")
									return
								}
								continue
							}
							if err != nil {
								bad("no archive")
								return
							}
							m, _, perr := arcMap(b)
							if perr != nil {
								bad("the archive is malformed: %v", perr)
								return
							}
							for n, e := range oldMap {
								g, ok := m[n]
								if !ok {
									bad("%s is lost", n)
									return
								}
								if isOneOf(n, o.srcs) {
									continue
								}
								if !bytes.Equal(g.raw, e.raw) {
									bad("%s is changed", n)
									return
								}
							}
							for n := range m {
								if _, ok := oldMap[strings.TrimSuffix(n, "/")]; !ok && !isOneOf(strings.TrimSuffix(n, "/"), o.srcs) {
									bad("%s appears", n)
									return
								}
							}
							for _, n := range o.srcs {
								e, ok := m[n]
								if n != src {
									if !ok || !bytes.Equal(e.content, o.files[n]) {
										bad("%s is not archived as it is", n)
										return
									}
									continue
								}
								if !ch.exact || !ok {
									continue
								}
								was, had := oldMap[n]
								if !bytes.Equal(e.content, o.files[n]) && !bytes.Equal(e.content, after) && !(had && bytes.Equal(e.raw, was.raw)) && !(e.mode&0170000 == 0120000) {
									bad("%s is archived with content it never had", n)
									return
								}
							}
						}
					})
				}
			}
		}
	}
	pairs := [][2]int{{0, 4}}
	if c.Thorough {
		pairs = nil
		for a := 0; a < 10; a++ {
			for b := 0; b < 10; b++ {
				pairs = append(pairs, [2]int{a, b})
			}
		}
	}
	for _, p := range pairs {
		exploreSharePair(c, ops, p[0], p[1], dir)
	}
}

func isOneOf(n string, l []string) bool {
	for _, v := range l {
		if v == n {
			return true
		}
	}
	return false
}

// exploreShareRead: the archive is replaced or removed while it is read.
func exploreShareRead(c *Ctx, i int, o *shareOp, dir string, slices int, points func(t *T, s int) []point, ran func(t *T, p point, what, res string)) {
	arc := filepath.Join(dir, o.arc)
	newArc := func() []byte {
		e := sample("-lh1-", 7)
		e.Name, e.Level, e.Time, e.Mode = "a", 1, tMid, 0600
		f := sample("-lh5-", 8)
		f.Name, f.Level, f.Time, f.Mode = "more", 2, tMid, 0644
		g := sample("-lh7-", 9)
		g.Name, g.Level, g.Time, g.Mode = "keep", 2, tMid, 0644
		b := archive([]*Ent{f, e, g}, true)
		if o.arc == "x.exe" {
			b = append(bytes.Repeat([]byte{0}, 500), b...)
		}
		return b
	}
	acts := []meanwhile{
		{"replaces the archive", func(dir string) {
			writeFile(arc+".new", newArc())
			must(os.Rename(arc+".new", arc))
		}},
		{"removes the archive", func(dir string) { must(os.Remove(arc)) }},
	}
	if o.arc == "x.lzh" {
		acts = append(acts, meanwhile{"updates the archive", func(dir string) {
			inDir(dir, func() {
				withStdout(func() {
					l := lha.NewLha("x.lzh")
					must(l.CompressBytes("a", bytes.Repeat([]byte("new "), 90), 5, 1))
					must(lha.NewLha("x.lzh").CompressBytes("more", []byte("more"), 5, 2))
				})
			})
		}})
	}
	answer := func(s *sproc, res string) string {
		os.Remove(arc)
		b, _ := os.ReadFile(s.outf)
		if strings.HasPrefix(res, "error") {
			return "error"
		}
		return fmt.Sprint(res, " ", snapshot(dir, false), " ", string(b))
	}
	for s := 0; s < slices; s++ {
		for _, w := range acts {
			s, w := s, w
			c.Case(str("%s while another process %s, slice %d", o.name, w.name, s), func(t *T) {
				o.setup(dir)
				e := startStopped(c, "e", i, dir, nil)
				old := answer(e, e.finish())
				o.setup(dir)
				w.do(dir)
				e = startStopped(c, "e", i, dir, nil)
				new := answer(e, e.finish())
				for _, p := range points(t, s) {
					o.setup(dir)
					a := startStopped(c, "a", i, dir, &p)
					w.do(dir)
					res := a.finish()
					ran(t, p, w.name, res)
					if strings.HasPrefix(res, "died") {
						t.Fail("%s, after %s another process %s: %s", o.name, p, w.name, res)
						return
					}
					if got := answer(a, res); got != old && got != new {
						t.Fail("%s, after %s another process %s: the answer is neither that for the old nor for the new archive: %s", o.name, p, w.name, tail(got, 300))
						return
					}
				}
			})
		}
	}
}

// exploreSharePair: two updating processes: the first is stopped after each of
// its calls, the second runs up to each of its own, the first goes on to its
// end, then the second.
func exploreSharePair(c *Ctx, ops []shareOp, x, y int, dir string) {
	A, B := &ops[x], &ops[y]
	both := shareOp{name: "both", arc: A.arc, out: A.out, files: map[string][]byte{}}
	for _, o := range []*shareOp{B, A} {
		for n, b := range o.files {
			both.files[n] = b
		}
	}
	arc := filepath.Join(dir, "x.lzh")
	const slices = 16
	for s := 0; s < slices; s++ {
		s := s
		c.Case(str("two processes: %s / %s, slice %d", A.name, B.name, s), func(t *T) {
			var allowed []string
			for _, seq := range [][]int{{x}, {y}, {x, y}, {y, x}} {
				both.setup(dir)
				for _, i := range seq {
					if res := startStopped(c, "e", i, dir, nil).finish(); !strings.HasPrefix(res, "ok") {
						t.Fail("%s: alone: %s", ops[i].name, res)
						return
					}
				}
				allowed = append(allowed, shareText(arc))
			}
			both.setup(dir)
			ps, _ := both.points(c, x, dir)
			for k := s; k < len(ps); k += slices {
				both.setup(dir)
				a := startStopped(c, "a", x, dir, &ps[k])
				qs, _ := both.points(c, y, dir) // of the second, at that place
				a.finish()
				for _, q := range qs {
					both.setup(dir)
					a := startStopped(c, "a", x, dir, &ps[k])
					b := startStopped(c, "b", y, dir, &q)
					ra := a.finish()
					rb := b.finish()
					t.Traces(1)
					t.Trans(2)
					t.Dim("schedules_of_two", 1)
					t.Distinct([]byte(fmt.Sprint("pair", x, y, ps[k], q)))
					got := shareText(arc)
					if !strings.HasPrefix(ra, "ok") || !strings.HasPrefix(rb, "ok") || !isOneOf(got, allowed) {
						t.Fail("%s stopped after %s, %s up to %s, then the first (%s), then the second (%s); the archive: %s", A.name, ps[k], B.name, q, ra, rb, short(got))
						return
					}
					ds, _ := os.ReadDir(dir)
					for _, d := range ds {
						if _, ok := both.files[d.Name()]; !ok && d.Name() != "x.lzh" && d.Name() != "x.bak" {
							t.Fail("%s stopped after %s, %s up to %s: %s left behind", A.name, ps[k], B.name, q, d.Name())
							return
						}
					}
				}
			}
		})
	}
}
