package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	lha "github.com/jeromelesaux/lha"
)

// An operation that changes an archive, for fault and crash exploration.
type updOp struct {
	name  string
	arc   string            // archive given to the operation
	out   string            // archive it makes
	files map[string][]byte // files there before
	srcs  []string
	move  bool
	last  int  // only that many of the last writes are made to fail one by one
	bak   bool // with a backup of the old archive
	run   func(l *lha.Lha) error

	judgeBak func(bad func(f string, a ...interface{}), dir string)
}

func updOps() []updOp {
	x1 := []byte("some content that is stored")
	x2 := bytes.Repeat([]byte("compressible content! "), 30)
	x3 := unique(700, 250, 1)
	x4 := unique(6000, 250, 1) // stored in several pieces
	oldArc := func() []byte {
		var es []*Ent
		for i, n := range []string{"a", "keep", "z"} {
			e := sample([]string{"-lh5-", "-lh1-", "-lh0-"}[i], i)
			e.Name, e.Level, e.Time = n, i, tMid
			es = append(es, e)
		}
		return archive(es, true)
	}
	longArc := func() []byte { // entries which are copied in several pieces
		var es []*Ent
		for i, n := range []int{5000, 2300, 4200} {
			c := unique(n, 250, byte(i+2))
			e := &Ent{Name: []string{"a", "keep", "z"}[i], Method: "-lh0-", Level: i, Time: tMid, Packed: c, Content: c}
			es = append(es, e)
		}
		return archive(es, true)
	}
	sfx := append(bytes.Repeat([]byte{0x4d, 0x5a, 0x90}, 40), oldArc()...)
	files := func(l *lha.Lha, n ...string) {
		l.CmdFilev, l.CmdFilec = n, len(n)
		l.CompressMethod, l.HeaderLevel = 5, 2
	}
	return []updOp{
		{name: "create from memory", arc: "x.lzh", run: func(l *lha.Lha) error { return l.CompressBytes("m", x2, 5, 2) }},
		{name: "create from memory, stored", arc: "x.lzh", run: func(l *lha.Lha) error { return l.CompressBytes("m", x3, 5, 1) }},
		{name: "create from memory, stored in pieces", arc: "x.lzh", last: 30, run: func(l *lha.Lha) error { return l.CompressBytes("m", x4, 5, 1) }},
		{name: "create from a file, stored", arc: "x.lzh", files: map[string][]byte{"s1": x4}, srcs: []string{"s1"}, run: func(l *lha.Lha) error { return l.Compress("s1", 0, 2) }},
		{name: "replace from a file, stored in pieces", arc: "x.lzh", last: 30, files: map[string][]byte{"a": x4, "x.lzh": oldArc()}, srcs: []string{"a"}, run: func(l *lha.Lha) error { return l.Compress("a", 7, 2) }},
		{name: "create from a file", arc: "x.lzh", files: map[string][]byte{"s1": x2}, srcs: []string{"s1"}, run: func(l *lha.Lha) error { return l.Compress("s1", 7, 0) }},
		{name: "replace from memory", arc: "x.lzh", files: map[string][]byte{"x.lzh": oldArc()}, run: func(l *lha.Lha) error { return l.CompressBytes("a", x2, 1, 1) }},
		{name: "add two files", arc: "x.lzh", files: map[string][]byte{"x.lzh": oldArc(), "s1": x1, "s2": x3}, srcs: []string{"s1", "s2"},
			run: func(l *lha.Lha) error { files(l, "s1", "s2"); return lha.CommandAdd("x.lzh", l) }},
		{name: "add to long entries", arc: "x.lzh", last: 30, files: map[string][]byte{"x.lzh": longArc(), "s1": x1}, srcs: []string{"s1"},
			run: func(l *lha.Lha) error { files(l, "s1"); return lha.CommandAdd("x.lzh", l) }},
		{name: "move two files", arc: "x.lzh", move: true, files: map[string][]byte{"x.lzh": oldArc(), "s1": x2, "a": x3}, srcs: []string{"s1", "a"},
			run: func(l *lha.Lha) error {
				files(l, "s1", "a")
				l.DeleteAfterAppend = true
				return lha.CommandAdd("x.lzh", l)
			}},
		{name: "move into a new archive", arc: "x.lzh", move: true, files: map[string][]byte{"s1": x2, "s2": x1}, srcs: []string{"s1", "s2"},
			run: func(l *lha.Lha) error {
				files(l, "s1", "s2")
				l.DeleteAfterAppend = true
				return lha.CommandAdd("x.lzh", l)
			}},
		{name: "reconstruct over an existing archive", arc: "x.lzh", files: map[string][]byte{"x.lzh": oldArc(), "s1": x2}, srcs: []string{"s1"},
			run: func(l *lha.Lha) error { files(l, "s1"); l.NewArchive = true; return lha.CommandAdd("x.lzh", l) }},
		{name: "update with a backup", arc: "x.lzh", bak: true, files: map[string][]byte{"x.lzh": oldArc(), "s1": x2}, srcs: []string{"s1"},
			run: func(l *lha.Lha) error { files(l, "s1"); l.BackupOldArchive = true; return lha.CommandAdd("x.lzh", l) }},
		{name: "move with a backup over another", arc: "x.lzh", bak: true, move: true, files: map[string][]byte{"x.lzh": oldArc(), "a": x1, "x.bak": x4}, srcs: []string{"a"},
			run: func(l *lha.Lha) error {
				files(l, "a")
				l.BackupOldArchive, l.DeleteAfterAppend = true, true
				return lha.CommandAdd("x.lzh", l)
			}},
		{name: "update a self-extracting archive", arc: "x.exe", out: "x.lzh", files: map[string][]byte{"x.exe": sfx, "s1": x2}, srcs: []string{"s1"},
			run: func(l *lha.Lha) error { files(l, "s1"); return lha.CommandAdd("x.exe", l) }},
		{name: "update all newer files", arc: "x.lzh", files: map[string][]byte{"x.lzh": oldArc(), "a": x2, "z": x1}, srcs: []string{"a", "z"},
			run: func(l *lha.Lha) error {
				l.CompressMethod, l.HeaderLevel = 5, 1
				l.UpdateIfNewer = true
				return lha.CommandAdd("x.lzh", l)
			}},
	}
}

func (o *updOp) setup(dir string) {
	fresh(dir)
	for n, b := range o.files {
		writeFile(filepath.Join(dir, n), b)
		if n != o.arc {
			tm := time.Unix(tLate, 0)
			must(os.Chtimes(filepath.Join(dir, n), tm, tm))
		}
	}
}

// content of an archive as text, without the times of memory entries.
func arcText(b []byte) (string, error) {
	m, order, err := arcMap(b)
	if err != nil {
		return "", err
	}
	sort.Strings(order)
	s := ""
	for _, n := range order {
		e := m[n]
		tm := e.time
		if tm > 1700000000 && tm != tLate {
			tm = 0
		}
		s += fmt.Sprintf("%s %s %d %d %d:%q\n", n, e.method, e.level, tm, len(e.content), e.content)
	}
	return s, nil
}

// expected result of the operation run without faults.
func (o *updOp) expected(dir string) (string, string) {
	o.setup(dir)
	wd, _ := os.Getwd()
	must(os.Chdir(dir))
	err := o.run(lha.NewLha(o.arc))
	must(os.Chdir(wd))
	if err != nil {
		return "", "the operation fails without any fault: " + err.Error()
	}
	b, rerr := os.ReadFile(filepath.Join(dir, o.outName()))
	if rerr != nil {
		return "", rerr.Error()
	}
	s, perr := arcText(b)
	if perr != nil {
		return "", perr.Error()
	}
	if o.move {
		for _, n := range o.srcs {
			if _, err := os.Lstat(filepath.Join(dir, n)); err == nil {
				return "", n + " is not removed by move mode"
			}
		}
	}
	return s, ""
}

func (o *updOp) outName() string {
	if o.out != "" {
		return o.out
	}
	return o.arc
}

// judge the directory after a fault: res is "ok", "error" or "died".
func (o *updOp) judge(t *T, what, dir, want, res string) {
	bad := func(f string, a ...interface{}) { t.Fail("%s: %s: %s", o.name, what, fmt.Sprintf(f, a...)) }
	p := filepath.Join(dir, o.outName())
	b, err := os.ReadFile(p)
	isNew, isOld := false, false
	old, had := o.files[o.outName()]
	if err != nil {
		isOld = !had
	} else {
		isOld = had && bytes.Equal(b, old)
		if s, perr := arcText(b); perr == nil && s == want && b[len(b)-1] == 0 {
			isNew = true
		}
	}
	if !isNew && !isOld {
		if err != nil {
			bad("the archive is gone (%s)", res)
		} else {
			s, perr := arcText(b)
			bad("the archive is neither the old nor the new one (%s): %d bytes, %v %q", res, len(b), perr, tail(s, 200))
		}
		return
	}
	if o.bak && isNew && o.judgeBak != nil {
		o.judgeBak(bad, dir)
	}
	if res == "ok" && !isNew {
		bad("success reported but the archive is the old one")
	}
	if o.out != "" {
		if x, err := os.ReadFile(filepath.Join(dir, o.arc)); err != nil || !bytes.Equal(x, o.files[o.arc]) {
			bad("the self-extracting archive changed")
		}
	}
	for _, n := range o.srcs {
		x, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			if !o.move {
				bad("source %s is gone", n)
			} else if !isNew {
				bad("source %s is removed though the new archive is not in place", n)
			}
		} else if !bytes.Equal(x, o.files[n]) {
			bad("source %s is changed", n)
		}
	}
	for n, x := range o.files { // nothing else changes
		if n == o.outName() || n == o.arc || o.bak && n == "x.bak" {
			continue
		}
		isSrc := false
		for _, s := range o.srcs {
			isSrc = isSrc || s == n
		}
		if y, err := os.ReadFile(filepath.Join(dir, n)); !isSrc && (err != nil || !bytes.Equal(x, y)) {
			bad("%s changed", n)
		}
	}
}

// leftOver: after a failure there are only the files that were there, the
// archive and its backup.
func (o *updOp) leftOver(t *T, what, dir string) {
	ds, _ := os.ReadDir(dir)
	for _, d := range ds {
		n := d.Name()
		if _, ok := o.files[n]; !ok && n != o.outName() && filepath.Ext(n) != ".bak" {
			t.Fail("%s: %s: %s left behind", o.name, what, n)
			return
		}
	}
}

// judgeSkipped: a source could not be opened, which leaves it out with a warning.
// Everything else has to be there, and it is not removed.
func (o *updOp) judgeSkipped(t *T, what, dir, skipped string) {
	bad := func(f string, a ...interface{}) { t.Fail("%s: %s: %s", o.name, what, fmt.Sprintf(f, a...)) }
	b, err := os.ReadFile(filepath.Join(dir, o.outName()))
	if err != nil {
		bad("%v", err)
		return
	}
	m, _, perr := arcMap(b)
	if perr != nil {
		bad("the archive is malformed: %v", perr)
		return
	}
	for _, n := range o.srcs {
		e, there := m[n]
		x, err := os.ReadFile(filepath.Join(dir, n))
		if n == skipped {
			if err != nil || !bytes.Equal(x, o.files[n]) {
				bad("source %s, which could not be read, is removed or changed", n)
			}
		} else if !there || !bytes.Equal(e.content, o.files[n]) {
			bad("%s is not in the archive", n)
		}
	}
}

// injectedOn returns the source the failing call was about.
func (o *updOp) injectedOn(log string) string {
	for _, l := range strings.Split(log, "\n") {
		if strings.Contains(l, "(INJECTED)") {
			for _, n := range o.srcs {
				if strings.Contains(l, "\""+n+"\"") {
					return n
				}
			}
		}
	}
	return ""
}

// injectedIn: the failing call was about a file of the directory.
func injectedIn(log, dir string) bool {
	for _, l := range strings.Split(log, "\n") {
		if strings.Contains(l, "(INJECTED)") && strings.Contains(l, dir) {
			return true
		}
	}
	return false
}

// child add OP DIR : runs the operation, one thread, and reports.
func childAdd(a []string) {
	bareChild = true
	runtime.LockOSThread()
	i, _ := strconv.Atoi(a[0])
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	lha.Quiet = true
	if err := os.Chdir(a[1]); err != nil {
		os.Exit(3)
	}
	o := updOps()[i]
	// the start of the operation, for the tracer to see
	os.Lstat("/operation-starts-here")
	err := o.run(lha.NewLha(o.arc))
	if err != nil {
		fmt.Fprintln(out, "error", err)
	} else {
		fmt.Fprintln(out, "ok")
	}
	os.Exit(0)
}

var straceSets = "openat,read,pread64,write,pwrite64,lseek,close,renameat,renameat2,rename,unlinkat,unlink,ftruncate,newfstatat,fstat,fsync,copy_file_range,sendfile,splice,fchmod,fchmodat"

// traced runs the child under strace with an injection; the answer is what it
// printed, or died, and how many of the system calls matched.
func traced(c *Ctx, i int, dir, call, inject string) (res string, log string, err error) {
	self, _ := os.Executable()
	logf := filepath.Join(c.Dir, "strace.log")
	os.Remove(logf)
	args := []string{"-y", "-o", logf, "-e", "trace=" + withWrites(call) + ",newfstatat", "-qq"}
	if inject != "" {
		args = append(args, "-e", "inject="+call+":"+inject)
	}
	args = append(args, self, "child", "add", fmt.Sprint(i), dir)
	cmd := exec.Command("strace", args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return "", "", err
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		cmd.Process.Kill()
		<-done
		return "hung", "", nil
	}
	b, _ := os.ReadFile(logf)
	s := strings.TrimSpace(so.String())
	switch {
	case s == "ok":
		return "ok", string(b), nil
	case strings.HasPrefix(s, "error"):
		return "error", string(b), nil
	}
	return "died", string(b), nil
}

// callsFrom counts the calls before and after the operation starts.
func callsFrom(log, call string) (before, total int) {
	started := false
	for _, l := range strings.Split(log, "\n") {
		if strings.Contains(l, "operation-starts-here") {
			started = true
			if call == "newfstatat" {
				before++
				total++
			}
			continue
		}
		if i := strings.Index(l, "("); i > 0 && l[:i] == call {
			total++
			if !started {
				before++
			}
		}
	}
	return
}

func init() {
	register(&Prop{
		ID:        "C11",
		Technique: "exhaustive crash-point and write-fault exploration of the real code: the process is killed at every file system call of every operation, every such call is made to fail in turn, and writing is made to fail at every byte offset",
		Level:     "fault_enumeration",
		Rule:      "evaluation = one operation run with one fault (kill or error at one system call, or a file size limit at one byte); distinct = distinct (operation, fault point, outcome)",
		StallSec:  120,
		Bounds: map[string]string{
			"quick":    "16 operations (create, replace, add, move, reconstruct, backup, self-extracting, update): a kill before every open, read, write, seek, close, rename, unlink and stat call, an error from every open, read, write, seek, close, rename call, and a write failure at every byte offset (in steps of 3) of the files written",
			"thorough": "a write failure at every byte offset; every other matching system call (stat, truncate, sync) failing as well; every pair of consecutive failing write calls",
		},
		Explore: func(c *Ctx) {
			ops := updOps()
			exploreFaults(c, ops, func(o *updOp) bool { return true })
			// places that cannot be written
			for i := range ops {
				i := i
				o := &ops[i]
				c.Case(str("%s: in a directory that cannot be written", o.name), func(t *T) {
					dir := filepath.Join(c.Dir, "d")
					want, bad := o.expected(dir)
					if bad != "" {
						t.Fail("%s: %s", o.name, bad)
						return
					}
					o.setup(dir)
					must(os.Chdir(dir))
					must(os.Chmod(".", 0555))
					err := o.run(lha.NewLha(o.arc))
					must(os.Chmod(".", 0755))
					must(os.Chdir(c.Dir))
					t.Traces(1)
					t.Trans(1)
					t.Distinct([]byte(o.name), []byte("read-only"))
					res := "ok"
					if err != nil {
						res = "error"
					} else if os.Geteuid() != 0 {
						t.Fail("%s: success in a directory that cannot be written", o.name)
					}
					o.judge(t, "read-only directory", dir, want, res)
				})
				c.Case(str("%s: the archive is a directory", o.name), func(t *T) {
					dir := filepath.Join(c.Dir, "d")
					o.setup(dir)
					os.Remove(filepath.Join(dir, o.outName()))
					os.Mkdir(filepath.Join(dir, o.outName()), 0755)
					writeFile(filepath.Join(dir, o.outName(), "inside"), []byte("x"))
					must(os.Chdir(dir))
					err := o.run(lha.NewLha(o.arc))
					must(os.Chdir(c.Dir))
					t.Traces(1)
					t.Trans(1)
					t.Distinct([]byte(o.name), []byte("dir"))
					if err == nil {
						t.Fail("%s: success though a directory is in the place of the archive", o.name)
					}
					for _, n := range o.srcs {
						if x, err := os.ReadFile(filepath.Join(dir, n)); err != nil || !bytes.Equal(x, o.files[n]) {
							t.Fail("%s: source %s is gone or changed after a failure", o.name, n)
						}
					}
				})
			}
		},
	})
}

func exploreFaults(c *Ctx, ops []updOp, pick func(o *updOp) bool) {
	signal.Ignore(syscall.SIGXFSZ)
	have := exec.Command("strace", "-o", filepath.Join(c.Dir, "probe"), "-e", "trace=write", "-e", "inject=write:error=EIO:when=1", "true").Run() == nil
	for i := range ops {
		i := i
		o := &ops[i]
		if !pick(o) {
			continue
		}
		dir := filepath.Join(c.Dir, "d")
		// a limit on the size of files: writing fails from that byte on
		step := 3
		if c.Thorough {
			step = 1
		}
		for s := 0; s < 16; s++ {
			s := s
			c.Case(str("%s: write fails at byte offset, slice %d", o.name, s), func(t *T) {
				want, bad := o.expected(dir)
				if bad != "" {
					t.Fail("%s: %s", o.name, bad)
					return
				}
				top := 7000
				for lim := s * step; lim < top; lim += 16 * step {
					o.setup(dir)
					var rl, old syscall.Rlimit
					must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
					rl = old
					rl.Cur = uint64(lim)
					must(os.Chdir(dir))
					must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &rl))
					err := o.run(lha.NewLha(o.arc))
					must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
					must(os.Chdir(c.Dir))
					res := "ok"
					if err != nil {
						res = "error"
					}
					t.Traces(1)
					t.Trans(1)
					t.Distinct([]byte(o.name), []byte(fmt.Sprint("limit", lim, res)))
					o.judge(t, fmt.Sprintf("writing fails at byte %d", lim), dir, want, res)
					if res == "error" {
						o.leftOver(t, fmt.Sprintf("writing fails at byte %d", lim), dir)
					}
					if t.Failed() {
						return
					}
					if res == "ok" && lim > 100 {
						break
					}
				}
			})
		}
		if !have {
			continue
		}
		calls := []string{"openat", "read", "write", "lseek", "close", "renameat", "unlinkat", "newfstatat", "ftruncate", "fsync", "pwrite64", "rename", "renameat2", "unlink", "fstat", "pread64", "copy_file_range", "sendfile", "fchmod", "fchmodat"}
		for _, call := range calls {
			for _, fault := range []string{"signal=SIGKILL", "error=EIO", "error=ENOSPC"} {
				call, fault := call, fault
				if fault != "signal=SIGKILL" {
					switch call {
					case "newfstatat", "fstat", "fsync", "ftruncate", "fchmod", "fchmodat":
						if !c.Thorough {
							continue
						}
					}
					if fault == "error=ENOSPC" && call != "write" && call != "openat" && call != "pwrite64" {
						continue
					}
				}
				for s := 0; s < 4; s++ {
					s := s
					c.Case(str("%s: %s at every %s call, slice %d", o.name, fault, call, s), func(t *T) {
						want, bad := o.expected(dir)
						if bad != "" {
							t.Fail("%s: %s", o.name, bad)
							return
						}
						o.setup(dir)
						res, log, err := traced(c, i, dir, call, "")
						must(err)
						if res != "ok" {
							t.Fail("%s: under the tracer: %s", o.name, res)
							return
						}
						o.judge(t, "traced", dir, want, res)
						before, total := callsFrom(log, call)
						if o.last > 0 && before < total-o.last {
							before = total - o.last
						}
						for k := before + 1 + s; k <= total; k += 4 {
							last := call == "write" && k == total // the report of the child itself
							if last {
								continue
							}
							faults := []string{fmt.Sprintf("%s:when=%d", fault, k)}
							if c.Thorough && fault != "signal=SIGKILL" {
								faults = append(faults, fmt.Sprintf("%s:when=%d+", fault, k), fmt.Sprintf("%s:when=%d..%d", fault, k, k+1))
							}
							for _, f := range faults {
								if strings.HasSuffix(f, "+") && call == "write" {
									continue // it could not even report
								}
								o.setup(dir)
								res, flog, err := traced(c, i, dir, call, f)
								must(err)
								t.Traces(1)
								t.Trans(1)
								t.Dim("faults_"+call, 1)
								t.Distinct([]byte(o.name), []byte(call+f+res))
								what := fmt.Sprintf("%s of call %d of %d to %s", f, k, total, call)
								if res == "hung" {
									t.Fail("%s: %s: no answer", o.name, what)
									return
								}
								if n := o.injectedOn(flog); n != "" && res == "ok" && (call == "openat" || call == "newfstatat") {
									o.judgeSkipped(t, what, dir, n)
									t.Dim("source_left_out", 1)
									continue
								}
								o.judge(t, what, dir, want, res)
								if (call == "write" || call == "renameat" || call == "pwrite64" || call == "rename") && res == "ok" && fault != "signal=SIGKILL" && injectedIn(flog, dir) {
									t.Fail("%s: %s: not reported", o.name, what)
								}
								if call == "close" && res == "ok" && fault != "signal=SIGKILL" && closeOfWritten(flog, dir) {
									t.Fail("%s: %s: what was written may be lost, and success is reported", o.name, what)
								}
								if res == "error" && call != "unlinkat" && call != "unlink" && fault != "signal=SIGKILL" {
									o.leftOver(t, what, dir)
								}
								if t.Failed() {
									return
								}
							}
						}
					})
				}
			}
		}
	}
}
