package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	lha "github.com/jeromelesaux/lha"
)

// withStderr gives what f writes to standard error.
func withStderr(f func()) []byte {
	p, err := os.CreateTemp(os.Getenv("TMPDIR"), "stderr")
	must(err)
	os.Remove(p.Name())
	old := os.Stderr
	os.Stderr = p
	defer func() { os.Stderr = old; p.Close() }()
	f()
	os.Stderr = old
	n, _ := p.Seek(0, 2)
	b := make([]byte, n)
	p.ReadAt(b, 0)
	return b
}

var (
	annAdd  = regexp.MustCompile(`(?m)(ADD|REPLACE) (\S+)$`)
	annExt  = regexp.MustCompile(`(?m)(EXTRACT|VERIFY) (\S+)( but file is exist)?$`)
	annDir  = regexp.MustCompile(`(?m)EXTRACT (\S+) \(directory\)$`)
	annAsks = regexp.MustCompile(`(out/[^\s/]+) OverWrite`)
)

type dryAdd struct {
	upd, fresh, rec, sorted, move bool
	excl                          string
	existing                      int
}

func (o dryAdd) setup() {
	fresh("w")
	must(os.MkdirAll("w/d/s", 0755))
	for i, n := range []string{"a", "b.c", "d/x", "d/y", "d/s/z", "e"} {
		writeFile("w/"+n, []byte(strings.Repeat("file "+n, i*3)))
		must(os.Chtimes("w/"+n, unix(tMid), unix(tMid)))
	}
	must(os.Symlink("a", "w/ln"))
	for _, n := range []string{"w/d/s", "w/d"} {
		must(os.Chtimes(n, unix(tMid), unix(tMid)))
	}
	var names []string
	times := []int64{tOld, tLate}
	switch o.existing {
	case 0:
		return
	case 1:
		names = []string{"a", "b.c", "q", "x"}
	case 2:
		names = []string{"a", "e", "x", "y", "zz"}
		times = []int64{tLate, tMid, tOld}
	}
	var es []*Ent
	for i, n := range names {
		e := sample([]string{"-lh5-", "-lh0-"}[i%2], i)
		e.Name, e.Level, e.Time = n, i%3, uint32(times[i%len(times)])
		es = append(es, e)
	}
	writeFile("w/arc.lzh", archive(es, true))
}

func (o dryAdd) many(n int) (ps []string) {
	o.setup()
	for i := 0; i < n; i++ {
		f := fmt.Sprintf("m%03d", (i*7+1)%n)
		if n%7 == 0 {
			f = fmt.Sprintf("m%03d", n-i)
		}
		writeFile("w/"+f, []byte(f))
		ps = append(ps, f)
	}
	return
}

func (o dryAdd) set(l *lha.Lha, ps []string) {
	l.CmdFilev, l.CmdFilec = append([]string{}, ps...), len(ps)
	l.UpdateIfNewer, l.NewArchive, l.RecursiveArchiving, l.SortContents, l.DeleteAfterAppend = o.upd, o.fresh, o.rec, o.sorted, o.move
	l.HeaderLevel = 1
	if o.excl != "" {
		l.ExcludeFiles = []string{o.excl}
	}
}

func init() {
	register(&Prop{
		ID:        "C27",
		Technique: "bounded exhaustive differential exploration: every operation in the bound is run dry and then for real on equal trees by the real code; what the dry run announced is compared with what the real run did",
		Level:     "model_checking",
		Rule:      "state = distinct (operation, options, tree, archive); transition = one run; trace = one dry run compared with its real run",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "adding every list of up to 3 of 8 sources (files, directories, a link, a missing file, the archive), x {plain, update, new archive, recursive, sorted, move, recursive update, 5 exclusions} x 3 archives; automatic update; 5 to 300 files; extracting, testing and printing every archive of up to 4 of 7 entries (files of 4 levels, in a directory, a directory, a link), whole or by each name, with every set of existing files, with and without force and ignored directories; the program with -n",
			"thorough": "every list of up to 4 sources; archives of up to 5 entries",
		},
		Explore: func(c *Ctx) {
			addCase := func(t *T, o dryAdd, ps []string, prog bool) {
				t.Trans(2)
				t.Traces(1)
				t.Distinct([]byte(fmt.Sprint(o, ps, prog)))
				what := fmt.Sprintf("adding %q, %+v", ps, o)
				var e1, e2 error
				if len(ps) > 4 {
					o.many(len(ps))
				} else {
					o.setup()
				}
				before := snapshot("w", true)
				var out string
				if prog {
					args := []string{"-archive", "arc.lzh", "-a", ps[0], "-n"}
					r := cli(c, "w", "", args...)
					out = r.out
					if r.code != 0 {
						e1 = fmt.Errorf("exit status %d: %s", r.code, r.err)
					}
				} else {
					out = string(withStdout(func() {
						inDir("w", func() {
							l := lha.NewLha("arc.lzh")
							o.set(l, ps)
							l.Noexec = true
							e1 = lha.CommandAdd("arc.lzh", l)
						})
					}))
				}
				if d := snapDiff(before, snapshot("w", true)); d != "" {
					t.Fail("%s: the dry run changed something: %s", what, d)
					return
				}
				old, new := map[string]*arcEnt{}, map[string]*arcEnt{}
				var order []string
				if b, err := os.ReadFile("w/arc.lzh"); err == nil {
					old, _, err = arcMap(b)
					must(err)
				}
				withStdout(func() {
					inDir("w", func() {
						l := lha.NewLha("arc.lzh")
						o.set(l, ps)
						e2 = lha.CommandAdd("arc.lzh", l)
					})
				})
				if (e1 == nil) != (e2 == nil) {
					t.Fail("%s: the dry run gives %v, the real one %v", what, e1, e2)
					return
				}
				if e2 != nil {
					return
				}
				if b, err := os.ReadFile("w/arc.lzh"); err == nil {
					if new, order, err = arcMap(b); err != nil {
						t.Fail("%s: %v", what, err)
						return
					}
				}
				var want, got []string
				for _, n := range order {
					e := old[n]
					switch {
					case e == nil || o.fresh:
						want = append(want, "ADD "+n)
					case string(e.raw) != string(new[n].raw):
						want = append(want, "REPLACE "+n)
					}
				}
				for _, m := range annAdd.FindAllStringSubmatch(out, -1) {
					n := filepath.Base(m[2])
					if n == "d" || n == "s" {
						n += "/"
					}
					got = append(got, m[1]+" "+n)
				}
				if fmt.Sprint(want) != fmt.Sprint(got) {
					t.Fail("%s: the dry run announces %q, the real one does %q", what, got, want)
				}
			}
			paths := []string{"a", "b.c", "d/x", "d", "ln", "missing", "arc.lzh", "e"}
			opts := []dryAdd{{}, {upd: true}, {fresh: true}, {rec: true}, {sorted: true}, {move: true}, {rec: true, upd: true}, {rec: true, sorted: true, move: true},
				{rec: true, excl: "X"}, {excl: "a"}, {rec: true, excl: "d"}, {excl: "B.C", upd: true}, {rec: true, fresh: true, excl: "S"}}
			deep, most := 2, 4
			if c.Thorough {
				deep, most = 3, 5
			}
			for ex := 0; ex < 3; ex++ {
				for oi, o := range opts {
					o.existing = ex
					o, oi := o, oi
					for first := range paths {
						first := first
						c.Case(str("adding %q, ..., %+v", paths[first], o), func(t *T) {
							seqs(len(paths), 0, deep, func(s []int) {
								if t.Failed() {
									return
								}
								ps := []string{paths[first]}
								for _, x := range s {
									ps = append(ps, paths[x])
								}
								addCase(t, o, ps, false)
							})
							if oi == 0 {
								addCase(t, o, []string{paths[first]}, true)
							}
						})
					}
					if o.upd && ex > 0 {
						c.Case(str("automatic update, %+v", o), func(t *T) { addCase(t, o, nil, false) })
					}
				}
			}
			for _, n := range []int{5, 9, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300} {
				for oi, o := range opts[:8] {
					for ex := 0; ex < 3; ex++ {
						if ex != oi%3 && !c.Thorough {
							continue
						}
						o.existing = ex
						n, o := n, o
						c.Case(str("adding %d files, %+v", n, o), func(t *T) { addCase(t, o, o.many(n), false) })
					}
				}
			}
			// extraction
			kinds := []*Ent{}
			for i, n := range []string{"one", "two", "sub/three", "four", "dir/", "lnk", "sub/deep/five"} {
				e := sample([]string{"-lh5-", "-lh0-", "-lh1-", "-lh7-"}[i%4], i)
				e.Name, e.Level, e.Mode = n, []int{0, 1, 2, 3, 2, 2, 1}[i], 0644
				switch n {
				case "dir/":
					e = &Ent{Kind: 'd', Name: n, Level: 2, Mode: 0755, Time: 1000000000}
				case "lnk":
					e = &Ent{Kind: 'l', Name: n, Link: "one", Level: 2, Mode: 0777, Time: 1000000000}
				}
				kinds = append(kinds, e)
			}
			seqs(len(kinds), 1, most, func(s []int) {
				used := map[int]bool{}
				for _, x := range s {
					if used[x] {
						return
					}
					used[x] = true
				}
				s = cp(s)
				var es []*Ent
				var names []string
				for _, x := range s {
					es = append(es, kinds[x])
					names = append(names, kinds[x].Name)
				}
				c.Case(str("extracting from %q", names), func(t *T) {
					data := archive(es, true)
					for sel := 0; sel <= len(es); sel++ {
						var ps []string
						if sel > 0 {
							ps = []string{names[sel-1]}
						}
						for there := 0; there < 1<<uint(len(es)); there++ {
							skip := false
							for i, e := range es {
								skip = skip || there>>uint(i)&1 == 1 && e.Kind != 0
							}
							if skip || there > 0 && sel > 1 && there != 1<<uint(sel-1) {
								continue
							}
							for _, m := range []string{"extract", "force", "ignore", "verify", "print", "program"} {
								if m == "program" && (there > 1 || len(es) > 2 || sel > 0) {
									continue
								}
								what := fmt.Sprintf("archive %q, names %q, existing %b, %s", names, ps, there, m)
								t.Trans(2)
								t.Traces(1)
								t.Distinct([]byte(what))
								setup := func() {
									fresh("w")
									must(os.Mkdir("w/out", 0755))
									writeFile("w/arc.lzh", data)
									for i, e := range es {
										if there>>uint(i)&1 == 1 {
											writeFile("w/out/"+filepath.Base(e.Name), []byte("there")[:(i+there)%2*5])
										}
									}
								}
								run := func(dry bool) (out, errs string, err error) {
									var ob []byte
									eb := withStderr(func() {
										ob = withStdout(func() {
											inDir("w", func() {
												l := lha.NewLha("arc.lzh")
												l.CmdFilev, l.CmdFilec = append([]string{}, ps...), len(ps)
												l.Noexec, l.ExtractDirectory = dry, "out"
												l.Force, l.IgnoreDirectory, l.OutputToStdout = m == "force", m == "ignore", m == "print"
												lha.VerifyMode = m == "verify"
												defer func() { lha.VerifyMode = false }()
												withStdin(strings.Repeat("n\n", 9), func() { err = lha.CommandExtract("arc.lzh", l) })
											})
										})
									})
									return string(ob), string(eb), err
								}
								setup()
								before := snapshot("w", true)
								var out, errs string
								var e1, e2 error
								if m == "program" {
									r := cli(c, "w/out", "", "-archive", "../arc.lzh", "-e", "-n")
									out, errs = strings.ReplaceAll(r.out, "EXTRACT ", "EXTRACT out/"), strings.ReplaceAll(r.err, "EXTRACT ", "EXTRACT out/")
									if r.code != 0 {
										e1 = fmt.Errorf("exit status %d: %s", r.code, r.err)
									}
								} else {
									out, errs, e1 = run(true)
								}
								if d := snapDiff(before, snapshot("w", true)); d != "" {
									t.Fail("%s: the dry run changed something: %s", what, d)
									return
								}
								real, _, e2 := run(false)
								if e1 != nil || e2 != nil {
									t.Fail("%s: %v, %v", what, e1, e2)
									return
								}
								after := snapshot("w", true)
								// what is announced
								files, marked, dirs := []string{}, []string{}, []string{}
								for _, x := range annExt.FindAllStringSubmatch(out, -1) {
									if (x[1] == "VERIFY") != (m == "verify") {
										t.Fail("%s: the dry run announces %q", what, x[0])
										return
									}
									if x[3] != "" {
										marked = append(marked, filepath.Clean(x[2]))
									} else {
										files = append(files, filepath.Clean(x[2]))
									}
								}
								for _, x := range annDir.FindAllStringSubmatch(errs+out, -1) {
									dirs = append(dirs, filepath.Clean(x[1]))
								}
								// what is done
								wantFiles, wantMarked, wantDirs := []string{}, []string{}, []string{}
								for _, e := range es {
									if sel > 0 && e.Name != ps[0] {
										continue
									}
									n := "out/" + filepath.Base(e.Name)
									if e.Kind != 0 {
										if m != "ignore" && m != "verify" && m != "print" {
											wantDirs = append(wantDirs, n)
										}
										continue
									}
									_, was := before[n]
									switch {
									case m == "verify" || m == "print":
										wantFiles = append(wantFiles, n)
									case was:
										wantMarked = append(wantMarked, n)
										if m != "force" && before[n] != after[n] {
											t.Fail("%s: %q was overwritten", what, n)
										}
									case after[n] != "":
										wantFiles = append(wantFiles, n)
									}
								}
								if m == "print" {
									// the names printed before the contents
									var p []string
									for _, x := range regexp.MustCompile(`::::::::\n(\S+)\n::::::::\n`).FindAllStringSubmatch(real, -1) {
										p = append(p, filepath.Clean(x[1]))
									}
									wantFiles = p
								}
								if m == "extract" || m == "ignore" {
									var asked []string
									for _, x := range annAsks.FindAllStringSubmatch(real, -1) {
										asked = append(asked, filepath.Clean(x[1]))
									}
									if fmt.Sprint(asked) != fmt.Sprint(marked) {
										t.Fail("%s: the dry run marks %q as there, the real one asks for %q", what, marked, asked)
									}
								}
								for k := range after {
									if _, ok := before[k]; !ok && after[k][0] == 'f' {
										found := false
										for _, f := range files {
											found = found || f == k
										}
										if !found {
											t.Fail("%s: %q is written, but the dry run announces %q", what, k, files)
										}
									}
								}
								sort.Strings(dirs)
								sort.Strings(wantDirs)
								if fmt.Sprint(files, marked, dirs) != fmt.Sprint(wantFiles, wantMarked, wantDirs) {
									t.Fail("%s: the dry run announces %q, %q as existing, %q as directories; the real one does %q, %q, %q", what, files, marked, dirs, wantFiles, wantMarked, wantDirs)
								}
								if t.Failed() {
									return
								}
							}
						}
					}
				})
			})
		},
	})
}
