package main

// The exploration framework. A property is a deterministic enumeration of
// cases; every case runs the real code of /repo and compares what it did with
// an independent model. Cases are dealt to worker processes by index; a worker
// that dies or stalls betrays the case it was running. Every violation is
// confirmed by running it again before it is reported.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Stats is what a worker covered.
type Stats struct {
	Cases       int64
	Transitions int64
	Traces      int64
	Dims        map[string]int64
	Samples     []string
}

// Violation of a property.
type Violation struct {
	Index int64
	Label string
	Msg   string
	Shard int
	Kind  string // "wrong", "died", "stalled"
}

// Ctx is one worker's view of an enumeration.
type Ctx struct {
	Tier     string
	Thorough bool
	Dir      string // scratch directory of the worker (its working directory)
	Bin      string // directory of built programs
	shard, n int64
	only     int64
	upto     int64
	group    string
	idx      int64
	st       Stats
	seen     map[uint64]struct{}
	viol     []Violation
	hb       *os.File
	maxViol  int
	hbBuf    [8]byte
	beats    uint64
}

// T is one running case.
type T struct {
	c      *Ctx
	fails  []string
	Index  int64
	Label  string
	failed bool
}

func (t *T) Fail(format string, a ...interface{}) {
	t.failed = true
	if len(t.fails) < 8 {
		t.fails = append(t.fails, fmt.Sprintf(format, a...))
	}
}
func (t *T) Failed() bool { return t.failed }
func (t *T) Trans(n int)  { t.c.st.Transitions += int64(n) }
func (t *T) Traces(n int) { t.c.st.Traces += int64(n) }

// Beat tells that a long case goes on.
func (t *T) Beat() {
	t.c.beats++
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], t.c.beats)
	t.c.hb.WriteAt(b[:], 8)
}
func (t *T) Dim(k string, n int) { t.c.st.Dims[k] += int64(n) }
func (t *T) Distinct(parts ...[]byte) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
		h.Write([]byte{0xff, 0})
	}
	t.c.seen[h.Sum64()] = struct{}{}
}

// Case enumerates one case; it runs only in the worker it is dealt to.
func (c *Ctx) Case(label func() string, run func(t *T)) {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if i%c.n != c.shard || (c.upto >= 0 && i > c.upto) {
		return
	}
	c.run(i, label, run)
}

// stopFile, if set, ends all workers after the first violation: for trying out
// changes, not for checking.
var stopFile = os.Getenv("MC_STOP")

// foundFile is made by the first worker that meets a violation; after a while
// the others end then: the verdict is settled, if it is confirmed.
var foundFile = strings.TrimPrefix(os.Getenv("MC_FOUND"), "-")
var began = time.Now()

const settleAfter = 45 * time.Second

func (c *Ctx) run(i int64, label func() string, run func(t *T)) {
	if foundFile != "" && c.only < 0 && c.upto < 0 && time.Since(began) > settleAfter {
		if _, err := os.Lstat(foundFile); err == nil {
			return
		}
	}
	if stopFile != "" {
		if _, err := os.Lstat(stopFile); err == nil {
			return
		}
	}
	binary.LittleEndian.PutUint64(c.hbBuf[:], uint64(i)+1)
	c.hb.WriteAt(c.hbBuf[:], 0)
	t := &T{c: c, Index: i}
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fail("panic: %v\n%s", r, firstFrames(debug.Stack()))
			}
		}()
		run(t)
	}()
	c.st.Cases++
	if len(c.st.Samples) < 3 && (c.st.Cases == 1 || c.st.Cases == 50 || c.st.Cases == 2000) {
		c.st.Samples = append(c.st.Samples, label())
	}
	if t.failed && stopFile != "" {
		os.WriteFile(stopFile, nil, 0666)
	}
	if t.failed && foundFile != "" {
		os.WriteFile(foundFile, nil, 0666)
	}
	if t.failed && len(c.viol) < c.maxViol {
		c.viol = append(c.viol, Violation{Index: i, Label: label(), Msg: strings.Join(t.fails, "; "), Shard: int(c.shard), Kind: "wrong"})
	}
}

func firstFrames(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Prop is a registered property.
type Prop struct {
	ID        string
	Technique string
	Level     string
	Rule      string
	Assume    []string
	Bounds    map[string]string // per tier
	Explore   func(c *Ctx)
	NeedsCLI  bool
	StallSec  int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

var keepFiles []*os.File

const confirmRuns = 2

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check|replay PROP TIER OUTDIR BINDIR | mc worker ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "child":
		child(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	case "replay":
		os.Exit(replay(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	default:
		os.Exit(2)
	}
}

// worker PROP TIER SHARD N ONLY UPTO DIR BINDIR
func worker(a []string) {
	p := props[a[0]]
	num := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
	syscall.Umask(022)
	c := &Ctx{Tier: a[1], Thorough: a[1] == "thorough", shard: num(a[2]), n: num(a[3]), only: num(a[4]), upto: num(a[5]), Dir: a[6], Bin: a[7],
		seen: map[uint64]struct{}{}, maxViol: 5}
	c.st.Dims = map[string]int64{}
	var err error
	out := os.Stdout
	// what the code under test prints goes nowhere
	devnull, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	// the originals stay referenced: collected, their descriptors would be reused
	keepFiles = append(keepFiles, os.Stdin, os.Stdout, os.Stderr)
	os.Stdout = devnull
	os.Stdin = devnull
	if os.Getenv("MC_DEBUG") == "" {
		os.Stderr = devnull
	}
	if err := os.Chdir(c.Dir); err != nil {
		panic(err)
	}
	if c.hb, err = os.OpenFile(filepath.Join(c.Dir, "..", fmt.Sprintf("hb.%d", c.shard)), os.O_RDWR|os.O_CREATE, 0666); err != nil {
		panic(err)
	}
	os.Setenv("TMPDIR", c.Dir)
	runtime.GOMAXPROCS(2)
	p.Explore(c)
	sf, err := os.Create(filepath.Join(c.Dir, "..", fmt.Sprintf("seen.%d", c.shard)))
	if err == nil {
		w := bufio.NewWriter(sf)
		var b [8]byte
		for h := range c.seen {
			binary.LittleEndian.PutUint64(b[:], h)
			w.Write(b[:])
		}
		w.Flush()
		sf.Close()
	}
	enc := json.NewEncoder(out)
	enc.Encode(map[string]interface{}{"stats": c.st, "violations": c.viol, "enumerated": c.idx})
}

type workerOut struct {
	Stats      Stats       `json:"stats"`
	Violations []Violation `json:"violations"`
	Enumerated int64       `json:"enumerated"`
	seen       []uint64
}

// runWorker runs one worker; a death or stall becomes a violation.
func runWorker(p *Prop, tier string, shard, n int, only, upto int64, bin string, stall time.Duration) (*workerOut, error) {
	top, err := os.MkdirTemp(scratchRoot(), "mcw")
	if err != nil {
		return nil, err
	}
	defer rmTree(top)
	os.Chmod(top, 0777)
	dir := filepath.Join(top, "w")
	if err := os.Mkdir(dir, 0777); err != nil {
		return nil, err
	}
	os.Chmod(dir, 0777)
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, "worker", p.ID, tier, fmt.Sprint(shard), fmt.Sprint(n), fmt.Sprint(only), fmt.Sprint(upto), dir, bin)
	cmd.Env = append(os.Environ(), "TZ=UTC", "HOME="+dir, "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "GOGC=400", "GODEBUG=madvdontneed=0")
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &limited{b: &se}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Geteuid() == 0 && os.Getenv("MC_ROOT") == "" {
		// an unprivileged user: what escapes can reach nothing real
		os.Chown(top, 65534, 65534)
		os.Chown(dir, 65534, 65534)
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}
	}
	if err := cmd.Start(); err != nil {
		if cmd.SysProcAttr.Credential == nil {
			return nil, err
		}
		return nil, fmt.Errorf("cannot start an unprivileged worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hbf := filepath.Join(top, fmt.Sprintf("hb.%d", shard))
	last := uint64(0)
	lastT := time.Now()
	var beats string
	readHB := func() uint64 {
		b, err := os.ReadFile(hbf)
		if err != nil || len(b) < 8 {
			return 0
		}
		beats = string(b[8:])
		return binary.LittleEndian.Uint64(b)
	}
	lastBeats := ""
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			// memory bound
			if rss(cmd.Process.Pid) > 3500<<20 {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return &workerOut{Stats: Stats{Dims: map[string]int64{}}, Violations: []Violation{{Index: int64(readHB()) - 1, Msg: "memory exhausted (over 3.5 GB)", Shard: shard, Kind: "died"}}}, nil
			}
			if h := readHB(); h != last || beats != lastBeats {
				if d := time.Since(lastT); os.Getenv("MC_GAPS") != "" && d > 5*time.Second {
					fmt.Fprintf(os.Stderr, "gap: case %d took %v\n", int64(last)-1, d)
				}
				last, lastBeats, lastT = h, beats, time.Now()
			} else if time.Since(lastT) > stall {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return &workerOut{Stats: Stats{Dims: map[string]int64{}}, Violations: []Violation{{Index: int64(last) - 1, Msg: fmt.Sprintf("no answer within %v", stall), Shard: shard, Kind: "stalled"}}}, nil
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // whatever it left behind
	if werr != nil {
		h := readHB()
		if h == 0 {
			return nil, fmt.Errorf("worker failed before any case: %v\n%s", werr, se.String())
		}
		return &workerOut{Stats: Stats{Dims: map[string]int64{}}, Violations: []Violation{{Index: int64(h) - 1, Msg: "process died: " + werr.Error() + ": " + tail(se.String(), 600), Shard: shard, Kind: "died"}}}, nil
	}
	o := &workerOut{}
	if err := json.Unmarshal([]byte(so.String()), o); err != nil {
		h := readHB()
		if h == 0 {
			return nil, fmt.Errorf("worker output: %v: %q", err, tail(so.String(), 300))
		}
		// the code under test ended the process
		return &workerOut{Stats: Stats{Dims: map[string]int64{}}, Violations: []Violation{{Index: int64(h) - 1, Msg: "process exited: " + tail(se.String(), 600), Shard: shard, Kind: "died"}}}, nil
	}
	if b, err := os.ReadFile(filepath.Join(top, fmt.Sprintf("seen.%d", shard))); err == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			o.seen = append(o.seen, binary.LittleEndian.Uint64(b[i:]))
		}
	}
	return o, nil
}

func rmTree(top string) {
	// entries may have been left without permissions
	filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0700)
		}
		return nil
	})
	os.RemoveAll(top)
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * int64(os.Getpagesize())
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func check(id, tier, outdir, bin string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	start := time.Now()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	found := ""
	if d, err := os.MkdirTemp(scratchRoot(), "mcf"); err == nil && os.Getenv("MC_FOUND") == "" {
		defer os.RemoveAll(d)
		os.Chmod(d, 0777)
		found = filepath.Join(d, "found")
		os.Setenv("MC_FOUND", found)
	}
	stall := time.Duration(p.StallSec) * time.Second
	if stall == 0 {
		stall = 60 * time.Second
	}
	type res struct {
		o   *workerOut
		err error
	}
	ch := make(chan res, n)
	for s := 0; s < n; s++ {
		go func(s int) {
			o, err := runWorker(p, tier, s, n, -1, -1, bin, stall)
			ch <- res{o, err}
		}(s)
	}
	tot := Stats{Dims: map[string]int64{}}
	var viol []Violation
	seen := map[uint64]struct{}{}
	var enumerated int64
	add := func(o *workerOut) {
		tot.Cases += o.Stats.Cases
		tot.Transitions += o.Stats.Transitions
		tot.Traces += o.Stats.Traces
		for k, v := range o.Stats.Dims {
			tot.Dims[k] += v
		}
		if len(tot.Samples) < 8 {
			tot.Samples = append(tot.Samples, o.Stats.Samples...)
		}
		viol = append(viol, o.Violations...)
		for _, h := range o.seen {
			seen[h] = struct{}{}
		}
		if o.Enumerated > enumerated {
			enumerated = o.Enumerated
		}
	}
	var confirmed []Violation
	var lost []Violation // workers which did not come to an end
	for s := 0; s < n; s++ {
		r := <-ch
		if r.err != nil {
			fmt.Fprintln(os.Stderr, "check broken:", r.err)
			return 2
		}
		if len(r.o.Violations) == 1 && r.o.Violations[0].Kind != "wrong" {
			if found != "" {
				os.WriteFile(found, nil, 0666)
			}
			lost = append(lost, r.o.Violations[0])
			continue
		}
		add(r.o)
	}
	if stopFile != "" && len(lost)+len(viol) > 0 {
		for _, v := range append(lost, viol...) {
			fmt.Printf("UNCONFIRMED %s case %d %s: %s\n", id, v.Index, v.Label, v.Msg)
		}
		return 1
	}
	os.Setenv("MC_FOUND", "")
	if _, err := os.Lstat(found); found != "" && err == nil && time.Since(start) > settleAfter {
		// workers may have ended early: the verdict rests on what they found
		for _, v := range append(append([]Violation{}, lost...), viol...) {
			if c, ok := confirm(p, tier, v, n, bin, stall); ok {
				confirmed = append(confirmed, c)
				break
			}
		}
		if len(confirmed) == 0 {
			os.Setenv("MC_FOUND", "-")
			foundFile = ""
			fmt.Fprintln(os.Stderr, "note: nothing found is reproduced, exploring again")
			return check(id, tier, outdir, bin)
		}
		lost, viol = nil, nil
	}
	for _, v := range lost {
		if c, ok := confirm(p, tier, v, n, bin, stall); ok {
			confirmed = append(confirmed, c)
			break
		}
		// not the code's doing: cover the shard again
		o, err := runWorker(p, tier, v.Shard, n, -1, -1, bin, 2*stall)
		if err != nil || (len(o.Violations) == 1 && o.Violations[0].Kind != "wrong") {
			fmt.Fprintf(os.Stderr, "check broken: worker %d fails now and then: %s\n", v.Shard, v.Msg)
			return 2
		}
		add(o)
	}
	sort.Slice(viol, func(i, j int) bool { return viol[i].Index < viol[j].Index })
	for _, v := range viol {
		if len(confirmed) >= 3 {
			break
		}
		if c, ok := confirm(p, tier, v, n, bin, stall); ok {
			confirmed = append(confirmed, c)
		} else {
			fmt.Fprintf(os.Stderr, "note: not reproduced, dropped: case %d %s: %s\n", v.Index, v.Label, v.Msg)
		}
	}
	wall := time.Since(start).Seconds()
	writeEvidence(p, tier, outdir, &tot, len(seen), enumerated, confirmed, wall)
	fmt.Printf("%s %s: %d cases, %d distinct states, %d transitions, %d traces, %d violations, %.1f s\n", id, tier, tot.Cases, len(seen), tot.Transitions, tot.Traces, len(confirmed), wall)
	if len(confirmed) == 0 {
		return 0
	}
	for i, v := range confirmed {
		path := filepath.Join(outdir, "replay", fmt.Sprintf("%s-%s-%d.json", id, tier, i))
		os.MkdirAll(filepath.Dir(path), 0777)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "case": v.Index, "shard": v.Shard, "shards": n, "kind": v.Kind, "label": v.Label, "observed": v.Msg,
			"how": "bash /verif/replay.sh " + path}, "", "  ")
		os.WriteFile(path, b, 0666)
		fmt.Printf("case %d: %s\n  %s\n", v.Index, v.Label, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	return 1
}

// confirm runs the case alone, then within its worker's history.
func confirm(p *Prop, tier string, v Violation, n int, bin string, stall time.Duration) (Violation, bool) {
	st := stall
	if v.Kind == "stalled" {
		st = 2 * stall
	}
	for try := 0; try < confirmRuns; try++ {
		o, err := runWorker(p, tier, 0, 1, v.Index, -1, bin, st)
		if err == nil && len(o.Violations) > 0 {
			r := o.Violations[0]
			r.Index = v.Index
			if r.Label == "" {
				r.Label = v.Label
			}
			r.Shard = -1
			return r, true
		}
	}
	o, err := runWorker(p, tier, v.Shard, n, -1, v.Index, bin, st)
	if err == nil {
		for _, r := range o.Violations {
			if r.Index == v.Index {
				r.Msg += " (only after the earlier cases of the worker)"
				return r, true
			}
		}
	}
	return v, false
}

func replay(id, file, outdir, bin string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Tier   string
		Case   int64
		Shard  int
		Shards int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[id]
	var o *workerOut
	if r.Shard < 0 {
		o, err = runWorker(p, r.Tier, 0, 1, r.Case, -1, bin, 120*time.Second)
	} else {
		o, err = runWorker(p, r.Tier, r.Shard, r.Shards, -1, r.Case, bin, 120*time.Second)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, v := range o.Violations {
		if v.Index == r.Case {
			fmt.Printf("case %d: %s\n  %s\nVIOLATION property=%s replay=%s\n", v.Index, v.Label, v.Msg, id, file)
			return 1
		}
	}
	fmt.Println("the case holds")
	return 0
}

func writeEvidence(p *Prop, tier, outdir string, st *Stats, distinct int, enumerated int64, viol []Violation, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := st.Samples
	if len(samples) > 8 {
		samples = samples[:8]
	}
	for i := range samples {
		samples[i] = tail(samples[i], 300)
	}
	cov := map[string]interface{}{
		"samples":    samples,
		"exhaustive": true,
		"dimensions": st.Dims,
		"bounds":     p.Bounds[tier],
		"rule":       p.Rule,
	}
	if p.Level == "model_checking" {
		cov["states"] = distinct
		cov["transitions"] = st.Transitions
		cov["traces_validated_against_impl"] = st.Traces
		cov["explored_cases"] = st.Cases
	} else {
		cov["evaluations"] = st.Traces
		cov["distinct_nontrivial"] = distinct
		cov["explored_cases"] = st.Cases
	}
	var vs []string
	for _, v := range viol {
		vs = append(vs, fmt.Sprintf("case %d: %s: %s", v.Index, v.Label, v.Msg))
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "technique": p.Technique,
		"coverage": cov, "wall_s": wall, "violations": len(viol), "violation_details": vs,
		"assumptions": p.Assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(outdir, 0777)
	os.WriteFile(filepath.Join(outdir, p.ID+".json"), append(b, '\n'), 0666)
}

// child runs a helper process of a property.
func child(a []string) {
	switch a[0] {
	case "add":
		childAdd(a[1:])
	case "op":
		childOp(a[1:])
	case "share":
		childShare(a[1:])
	case "read":
		childRead(a[1:])
	}
	os.Exit(2)
}

// scratchRoot prefers memory: the cases make and remove many small files.
func scratchRoot() string {
	var st syscall.Statfs_t
	if err := syscall.Statfs("/dev/shm", &st); err == nil && st.Type == 0x01021994 && int64(st.Bavail)*int64(st.Bsize) > 1<<30 {
		if d, err := os.MkdirTemp("/dev/shm", "mct"); err == nil {
			os.Remove(d)
			return "/dev/shm"
		}
	}
	return ""
}
