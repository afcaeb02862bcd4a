package main

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// withStdin runs f with the answers on standard input.
func withStdin(answers string, f func()) (left string) {
	p, err := os.CreateTemp(os.Getenv("TMPDIR"), "stdin")
	must(err)
	os.Remove(p.Name())
	_, err = p.WriteString(answers)
	must(err)
	_, err = p.Seek(0, 0)
	must(err)
	old := os.Stdin
	os.Stdin = p
	defer func() { os.Stdin = old; p.Close() }()
	f()
	pos, _ := p.Seek(0, 1)
	return answers[pos:]
}

// withStdout runs f and returns what it printed.
func withStdout(f func()) []byte {
	p, err := os.CreateTemp(os.Getenv("TMPDIR"), "stdout")
	must(err)
	os.Remove(p.Name())
	old := os.Stdout
	os.Stdout = p
	defer func() { os.Stdout = old; p.Close() }()
	f()
	os.Stdout = old
	n, _ := p.Seek(0, 2)
	b := make([]byte, n)
	p.ReadAt(b, 0)
	return b
}

// inDir runs f in another working directory.
func inDir(dir string, f func()) {
	old, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer func() { must(os.Chdir(old)) }()
	f()
}

type cliRes struct {
	code     int
	out, err string
	timeout  bool
}

// cli runs the built command in dir.
func cli(c *Ctx, dir, stdin string, args ...string) cliRes {
	cmd := exec.Command(filepath.Join(c.Bin, "lharc"), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	must(cmd.Start())
	tm := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	r := cliRes{out: o.String(), err: e.String()}
	if !tm.Stop() {
		r.timeout = true
	}
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
	}
	return r
}

func unix(t int64) time.Time { return time.Unix(t, 0) }
