package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	lha "github.com/jeromelesaux/lha"
)

// Operations that read archives, for faults of the system calls they make.

type readOp struct {
	name string
	out  bool // what it prints is the result
	run  func(l *lha.Lha, arc string) (string, error)
}

func readOps() []readOp {
	return []readOp{
		{"headers", false, func(l *lha.Lha, arc string) (string, error) {
			hs, err := l.Headers()
			s := ""
			for _, h := range hs {
				s += fmt.Sprintf("%q %s %d %d %x %o %d;", h.Name, h.Method, h.OriginalSize, h.PackedSize, h.Crc, h.UnixMode, h.UnixLastModifiedStamp)
			}
			return s, err
		}},
		{"list", false, func(l *lha.Lha, arc string) (string, error) { return "", lha.CommandList(arc, l) }},
		{"test", false, func(l *lha.Lha, arc string) (string, error) {
			lha.VerifyMode = true
			return "", lha.CommandExtract(arc, l)
		}},
		{"print", true, func(l *lha.Lha, arc string) (string, error) {
			l.OutputToStdout = true
			return "", lha.CommandExtract(arc, l)
		}},
		{"extract", false, func(l *lha.Lha, arc string) (string, error) {
			l.ExtractDirectory = "xo"
			return "", lha.CommandExtract(arc, l)
		}},
		{"extract over existing files", false, func(l *lha.Lha, arc string) (string, error) {
			l.Force = true
			l.ExtractDirectory = "there"
			return "", lha.CommandExtract(arc, l)
		}},
		{"extract one", false, func(l *lha.Lha, arc string) (string, error) {
			l.ExtractDirectory = "xo"
			return "", l.Decompress(namedHeader("big"))
		}},
		{"to memory", false, func(l *lha.Lha, arc string) (string, error) {
			b, err := l.DecompresBytes(namedHeader("big"))
			return fmt.Sprintf("%x", sha256.Sum256(b)), err
		}},
	}
}

// readEnts are the entries of the archive which is read.
func readEnts() []*Ent {
	one := sample("-lh1-", 1)
	one.Name, one.Level, one.Mode = "one", 0, 0644
	big := bigSample("-lh5-")
	big.Name, big.Level, big.Mode = "big", 1, 0600
	st := unique(9000, 251, 3)
	stored := &Ent{Method: "-lh0-", Name: "stored", Content: st, Packed: st, Level: 2, Mode: 0640, Time: 1000000000}
	dir1 := &Ent{Kind: 'd', Name: "sub/", Level: 2, Mode: 0755, Time: 1000000000}
	ln := &Ent{Kind: 'l', Name: "ln", Link: "one", Level: 1, Time: 1000000000}
	return []*Ent{one, dir1, big, ln, stored}
}

// printed tells whether the content of every file is in what was printed, in order.
func printed(path string) bool {
	out, _ := os.ReadFile(path)
	for _, e := range readEnts() {
		if e.Kind != 0 {
			continue
		}
		i := bytes.Index(out, e.Content)
		if i < 0 {
			return false
		}
		out = out[i+len(e.Content):]
	}
	return true
}

func readSetup(dir string) {
	fresh(dir)
	b := archive(readEnts(), true)
	writeFile(filepath.Join(dir, "a.lzh"), b)
	writeFile(filepath.Join(dir, "a.exe"), append(bytes.Repeat([]byte{0x4d, 0x5a, 0x90}, 40), b...))
	must(os.Mkdir(filepath.Join(dir, "there"), 0755))
	for _, n := range []string{"one", "big", "stored"} {
		writeFile(filepath.Join(dir, "there", n), []byte("old content of "+n))
	}
}

// childRead OP ARC DIR
func childRead(a []string) {
	runtime.LockOSThread()
	i, _ := strconv.Atoi(a[0])
	must(os.Chdir(a[2]))
	report := os.Stdout
	keepFiles = append(keepFiles, os.Stdin, os.Stdout, os.Stderr)
	f, err := os.Create("out.txt")
	must(err)
	os.Stdout = f
	os.Stdin, _ = os.Open(os.DevNull)
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	o := readOps()[i]
	l := lha.NewLha(a[1])
	os.Lstat("/operation-starts-here")
	ans, err := o.run(l, a[1])
	os.Lstat("/operation-ends-here")
	if err != nil {
		fmt.Fprintln(report, "error", err)
	} else {
		fmt.Fprintln(report, "ok", ans)
	}
	os.Exit(0)
}

func exploreReadFaults(c *Ctx) {
	if exec.Command("strace", "-o", filepath.Join(c.Dir, "probe"), "-e", "trace=write", "-e", "inject=write:error=EIO:when=1", "true").Run() != nil {
		return
	}
	self, _ := os.Executable()
	dir := filepath.Join(c.Dir, "rf")
	run := func(i int, arc, call, inject string) (string, string) {
		logf := filepath.Join(c.Dir, "strace.log")
		os.Remove(logf)
		args := []string{"-y", "-o", logf, "-e", "trace=" + withWrites(call) + ",newfstatat", "-qq"}
		if inject != "" {
			args = append(args, "-e", "inject="+call+":"+inject)
		}
		cmd := exec.Command("timeout", append(append([]string{"30", "strace"}, args...), self, "child", "read", fmt.Sprint(i), arc, dir)...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
		out, err := cmd.Output()
		b, _ := os.ReadFile(logf)
		s := strings.TrimSpace(string(out))
		if s == "" {
			s = fmt.Sprint("died ", err)
		}
		return s, string(b)
	}
	ops := readOps()
	for i := range ops {
		for _, arc := range []string{"a.lzh", "a.exe"} {
			for _, call := range []string{"openat", "read", "lseek", "write", "close", "mkdirat", "symlinkat", "unlinkat", "pread64", "copy_file_range", "newfstatat", "fstat"} {
				i, arc, call := i, arc, call
				o := ops[i]
				c.Case(str("%s of %s: every %s call fails", o.name, arc, call), func(t *T) {
					readSetup(dir)
					want, log := run(i, arc, call, "")
					if !strings.HasPrefix(want, "ok") {
						t.Fail("without any fault: %s", want)
						return
					}
					tree := snapshot(dir, false)
					n := 0
					var at []int
					started, ended := false, false
					for _, l := range strings.Split(log, "\n") {
						if strings.Contains(l, "operation-starts-here") {
							started = true
						}
						if strings.Contains(l, "operation-ends-here") {
							ended = true
						}
						if strings.HasPrefix(l, call+"(") {
							n++
							if started && !ended {
								if call == "write" && strings.Contains(l, "/out.txt>") && !o.out {
									continue // its messages
								}
								at = append(at, n)
							}
						}
					}
					for _, k := range at {
						readSetup(dir)
						res, flog := run(i, arc, call, fmt.Sprintf("error=EIO:when=%d", k))
						t.Traces(1)
						t.Trans(1)
						t.Dim("faults_"+call, 1)
						t.Distinct([]byte(fmt.Sprint("readfault", i, arc, call, k)))
						what := fmt.Sprintf("failure of call %d of %d to %s", k, n, call)
						if strings.HasPrefix(res, "died") {
							t.Fail("%s: %s", what, res)
							return
						}
						if !strings.HasPrefix(res, "ok") {
							continue
						}
						if res != want {
							t.Fail("%s: success, but another answer: %.200q instead of %.200q", what, res, want)
							return
						}
						if o.out && call == "write" && printed(filepath.Join(dir, "out.txt")) {
							continue // only a heading is missing
						}
						if d := snapDiff(tree, snapshot(dir, false)); d != "" {
							t.Fail("%s: success, but %s", what, d)
							return
						}
						if call == "close" && closeOfWritten(flog, dir) {
							t.Fail("%s: a file could not be completed, but success is reported", what)
							return
						}
					}
				})
			}
		}
	}
}

// withWrites: to judge a failing close, what was written has to be seen.
func withWrites(call string) string {
	if call == "close" {
		return "close,write,pwrite64,writev,pwritev,ftruncate,copy_file_range,sendfile,fsync,fdatasync"
	}
	return call
}

var copyArgs = regexp.MustCompile(`[( ]([0-9]+)<([^>]*)>`)

// closeOfWritten: the failing call closed a file in dir which was written and
// not brought to the disk before: what was written may be lost.
func closeOfWritten(log, dir string) bool {
	dirty := map[string]bool{} // by file descriptor
	for _, l := range strings.Split(log, "\n") {
		a, b := strings.Index(l, "("), strings.Index(l, "<")
		if a < 0 || b < a {
			continue
		}
		fd := l[a+1 : b]
		ok := !strings.Contains(l, " = -1 ")
		switch l[:a] {
		case "write", "pwrite64", "writev", "pwritev", "ftruncate":
			dirty[fd] = dirty[fd] || ok && strings.HasPrefix(l[b+1:], dir+"/")
		case "copy_file_range", "sendfile":
			if !ok {
				continue
			}
			m := copyArgs.FindAllStringSubmatch(l, 2)
			if len(m) != 2 {
				return false // the log is not understood
			}
			to := m[1]
			if l[:a] == "sendfile" {
				to = m[0]
			}
			dirty[to[1]] = dirty[to[1]] || strings.HasPrefix(to[2], dir+"/")
		case "fsync", "fdatasync":
			if ok {
				dirty[fd] = false
			}
		case "close":
			if strings.Contains(l, "(INJECTED)") {
				return dirty[fd]
			}
			dirty[fd] = false
		}
	}
	return false
}
