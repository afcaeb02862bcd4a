package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	lha "github.com/jeromelesaux/lha"
)

// ordOp adds a set of names and knows the order the archive has afterwards.
type ordOp struct {
	names   []string // in the order given
	missing int      // index of a source that is not there, or -1
	exclude int
	upd     bool  // update, with sources of that time
	mtime   int64 // 0: from memory
}

func (o ordOp) String() string {
	return fmt.Sprintf("add %s (missing %d, excluded %d, update %v, time %d)", strings.Join(o.names, ","), o.missing, o.exclude, o.upd, o.mtime)
}

func (o ordOp) run(l *lha.Lha, arc string, sorted bool, step int) error {
	for _, n := range ordNames {
		os.Remove(n)
	}
	l.SortContents, l.UpdateIfNewer, l.ExcludeFiles = sorted, o.upd, nil
	if o.mtime == 0 {
		return l.CompressBytes(o.names[0], []byte(fmt.Sprint("memory ", step)), 0, 2)
	}
	for i, n := range o.names {
		if i == o.exclude {
			l.ExcludeFiles = []string{n}
		}
		if i != o.missing {
			writeFile(n, []byte(fmt.Sprint("file ", n, step)))
			tm := time.Unix(o.mtime, 0)
			must(os.Chtimes(n, tm, tm))
		}
	}
	l.CmdFilev, l.CmdFilec = append([]string{}, o.names...), len(o.names)
	l.CompressMethod, l.HeaderLevel = 5, step%3
	return lha.CommandAdd(arc, l)
}

// takes: every file given is archived.
func (o ordOp) takes(old map[string]*arcEnt) bool {
	if o.missing >= 0 || o.exclude >= 0 {
		return false
	}
	for _, n := range o.names {
		if e := old[n]; o.upd && e != nil && e.time >= o.mtime {
			return false
		}
	}
	return true
}

var ordNames = []string{"a", "b", "c", "d"}

func init() {
	register(&Prop{
		ID:        "C24",
		Technique: "explicit-state exploration: every history of add operations over sets of names up to the bound runs on the real code; after each step the order of the entries is compared with a model of the order",
		Level:     "model_checking",
		Rule:      "state = distinct sequence of names and times; transition = one add operation judged; trace = one history",
		Bounds: map[string]string{
			"quick":    "4 names, 15 sets of files each plain, as update with older and with newer sources, with any one missing or excluded, and each name from memory: every history of length 2, sorted; every ordered selection of 1 to 3 of the names, histories of length 2, unsorted; 2 initial archives; archives of 8 to 300 entries with 10 sets of files given",
			"thorough": "every history of length 3, sorted; unsorted selections of 1 to 4 names, length 2; 4 initial archives; archives of 8 to 300 entries with 10 sets of files given",
		},
		Explore: func(c *Ctx) {
			var sorted, unsorted []ordOp
			for s := 1; s < 1<<uint(len(ordNames)); s++ {
				var ns []string
				for i, n := range ordNames {
					if s>>uint(i)&1 == 1 {
						ns = append(ns, n)
					}
				}
				sorted = append(sorted, ordOp{ns, -1, -1, false, tMid}, ordOp{ns, -1, -1, true, tOld}, ordOp{ns, -1, -1, true, tLate})
				for i := range ns {
					sorted = append(sorted, ordOp{ns, i, -1, false, tMid}, ordOp{ns, -1, i, i%2 == 1, tMid})
				}
			}
			for _, n := range ordNames {
				sorted = append(sorted, ordOp{[]string{n}, -1, -1, false, 0})
				unsorted = append(unsorted, ordOp{[]string{n}, -1, -1, false, 0})
			}
			most := 3
			if c.Thorough {
				most = 4
			}
			seqs(len(ordNames), 1, most, func(s []int) {
				var ns []string
				used := map[int]bool{}
				for _, x := range s {
					if used[x] {
						return
					}
					used[x] = true
					ns = append(ns, ordNames[x])
				}
				unsorted = append(unsorted, ordOp{ns, -1, -1, false, tMid}, ordOp{ns, -1, -1, true, tLate})
			})
			initial := func(k int, srt bool) []byte {
				var names []string
				switch k {
				case 0:
					return nil
				case 1:
					names = []string{"A", "b", "bb", "d", "e"}
				case 2:
					names = []string{"B", "c"}
				case 3:
					names = []string{"a", "aa", "ab", "b", "c", "cc", "d"}
				}
				if !srt {
					for i := range names {
						j := (i * 3) % len(names)
						names[i], names[j] = names[j], names[i]
					}
				}
				var es []*Ent
				for i, n := range names {
					e := sample([]string{"-lh0-", "-lh5-"}[i%2], i)
					e.Name, e.Level, e.Time = n, i%4, tMid
					es = append(es, e)
				}
				return archive(es, true)
			}
			inits, depth := 2, 2
			if c.Thorough {
				inits, depth = 4, 3
			}
			explore := func(ops []ordOp, srt bool, depth int) {
				for init := 0; init < inits; init++ {
					for o1 := range ops {
						init, o1 := init, o1
						c.Case(str("initial archive %d, sorted %v, %v, ...", init, srt, ops[o1]), func(t *T) {
							seqs(len(ops), depth-1, depth-1, func(s []int) {
								if t.Failed() {
									return
								}
								hist := append([]int{o1}, s...)
								cur := initial(init, srt)
								os.Remove("o.lzh")
								if cur != nil {
									writeFile("o.lzh", cur)
								}
								for i, x := range hist {
									o := ops[x]
									old, before := map[string]*arcEnt{}, []string(nil)
									if cur != nil {
										var err error
										old, before, err = arcMap(cur)
										if err != nil {
											t.Fail("step %d: %v", i, err)
											return
										}
									}
									l := lha.NewLha("o.lzh")
									err := o.run(l, "o.lzh", srt, i)
									t.Trans(1)
									if err != nil {
										t.Fail("step %d, %v: %v", i, o, err)
										return
									}
									cur = readFile("o.lzh")
									_, after, err := arcMap(cur)
									if err != nil {
										t.Fail("step %d, %v: malformed: %v", i, o, err)
										return
									}
									t.Distinct([]byte(fmt.Sprint(srt, after)))
									if srt {
										if !sort.StringsAreSorted(after) {
											t.Fail("step %d, %v: sorted before (%q) but not afterwards: %q", i, o, before, after)
											return
										}
										continue
									}
									if !o.takes(old) {
										continue
									}
									var want []string
									for _, n := range before {
										given := false
										for _, m := range o.names {
											given = given || m == n
										}
										if !given {
											want = append(want, n)
										}
									}
									want = append(want, o.names...)
									if fmt.Sprint(want) != fmt.Sprint(after) {
										t.Fail("step %d, %v: the order is %q instead of %q", i, o, after, want)
										return
									}
								}
								t.Traces(1)
							})
						})
					}
				}
			}
			explore(sorted, true, depth)
			// many entries
			for _, n := range []int{8, 9, 12, 13, 16, 17, 33, 64, 65, 100, 101, 129, 200, 256, 257, 300} {
				for _, srt := range []bool{true, false} {
					n, srt := n, srt
					c.Case(str("%d entries, sorted %v", n, srt), func(t *T) {
						name := func(i int) string { return fmt.Sprintf("n%03d", i) }
						var es []*Ent
						var before []string
						for i := 0; i < n; i++ {
							k := i
							if !srt {
								k = (i*7 + 5) % n
							}
							if !srt && n%7 == 0 {
								return
							}
							e := sample("-lh0-", i)
							e.Name, e.Level, e.Time = name(2*k), k%3, tMid
							es = append(es, e)
							before = append(before, e.Name)
						}
						arc := archive(es, true)
						given := [][]string{{name(1)}, {name(2*n - 1)}, {name(0)}, {name(2*n - 2)}, {name(n)}, {name(2*n - 1), name(1)}}
						var all, odd []string
						for i := 0; i < n; i++ {
							all = append(all, name(2*((i*11+1)%n)))
							odd = append(odd, name(2*((i*11+1)%n)+1))
						}
						if n%11 != 0 {
							given = append(given, all, odd, all[:n/2], append(cpStr(all[n/2:]), odd[:n/2]...))
						}
						for _, g := range given {
							t.Trans(1)
							t.Beat()
							writeFile("o.lzh", arc)
							if srt {
								g = cpStr(g)
								sort.Strings(g)
							}
							is := map[string]bool{}
							for _, f := range g {
								is[f] = true
								writeFile(f, []byte("new "+f))
							}
							l := lha.NewLha("o.lzh")
							l.SortContents = srt
							l.CmdFilev, l.CmdFilec = append([]string{}, g...), len(g)
							l.HeaderLevel = 2
							err := lha.CommandAdd("o.lzh", l)
							for _, f := range g {
								os.Remove(f)
							}
							if err != nil {
								t.Fail("%d entries, %d files given: %v", n, len(g), err)
								return
							}
							_, after, err := arcMap(readFile("o.lzh"))
							if err != nil {
								t.Fail("%d entries, %d files given: malformed: %v", n, len(g), err)
								return
							}
							t.Distinct([]byte(fmt.Sprint(srt, after)))
							t.Traces(1)
							if srt && !sort.StringsAreSorted(after) {
								t.Fail("%d entries, %d files given: sorted before but not afterwards", n, len(g))
								return
							}
							if !srt {
								var want []string
								for _, b := range before {
									if !is[b] {
										want = append(want, b)
									}
								}
								if fmt.Sprint(append(want, g...)) != fmt.Sprint(after) {
									t.Fail("%d entries, %d files given: the order is %.300q", n, len(g), after)
									return
								}
							}
						}
					})
				}
			}
			explore(unsorted, false, 2)
		},
	})
}

func cpStr(s []string) []string { return append([]string{}, s...) }
