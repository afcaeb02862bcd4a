package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// what an entry has to become on disk
func checkExtracted(t *T, what, p string, e *Ent, m *ref.Entry) {
	fi, err := os.Lstat(p)
	if err != nil {
		t.Fail("%s: %q was not extracted", what, m.Name)
		return
	}
	unix := m.OS == 'U' || m.OS == 'K' || m.OS == 'X'
	switch {
	case e.Kind == 'l':
		if to, _ := os.Readlink(p); to != m.Link {
			t.Fail("%s: %q is %v to %q instead of a link to %q", what, m.Name, fi.Mode(), to, m.Link)
		}
		return
	case e.Kind == 'd':
		if !fi.IsDir() {
			t.Fail("%s: %q is %v instead of a directory", what, m.Name, fi.Mode())
			return
		}
	default:
		if !fi.Mode().IsRegular() {
			t.Fail("%s: %q is %v instead of a file", what, m.Name, fi.Mode())
			return
		}
	}
	if fi.ModTime().Unix() != int64(m.Time) {
		t.Fail("%s: %q has the time %d instead of %d", what, m.Name, fi.ModTime().Unix(), m.Time)
	}
	if unix && int(fi.Mode().Perm()) != int(m.Mode)&0777 {
		t.Fail("%s: %q has the permissions %o instead of %o", what, m.Name, fi.Mode().Perm(), int(m.Mode)&0777)
	}
	if e.Kind == 0 {
		os.Chmod(p, 0600)
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(b, e.Content) {
			t.Fail("%s: %q: %v %s", what, m.Name, err, diff(b, e.Content))
		}
	}
}

func init() {
	register(&Prop{
		ID:        "C15",
		Technique: "bounded exhaustive exploration: archives over entry kinds, methods, header levels, attribute values and selections are built by the model of the format, extracted by the real code through every route, and the resulting file tree is compared with the entries",
		Level:     "model_checking",
		Rule:      "state = distinct (archive, selection, route); transition = one entry compared on disk; trace = one extraction replayed against the code",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "13 methods x 4 header levels x small and large content x 4 routes (command, current directory, by header, program); every permission value 0000-0777 of files at 4 levels and of directories; 24 times from 1980 to 2099; 12 system identifiers; 3 file creation masks; every sequence of up to 3 entries over 8 kinds (files, directories, links, empty), every subset of requested names over archives of 4 entries, in every order for pairs; names with directories; missing destination; every link target of up to 4 characters over 5, and of up to 200 characters; directories which exist; pipes, devices and sockets",
			"thorough": "every sequence of 4 entries over the 8 kinds, every subset of 6 names, every permission value x mask x route",
		},
		Explore: func(c *Ctx) {
			// extract and compare: sel nil means everything
			doit := func(t *T, what string, es []*Ent, route int, sel []string, ignoreDir bool) {
				arc := archive(es, true)
				ms, _, err := ref.ParseArchive(arc)
				must(err)
				fresh("d")
				writeFile("a.lzh", arc)
				t.Traces(1)
				t.Distinct(arc, []byte{byte(route)}, []byte(strings.Join(sel, "\x01")), []byte(fmt.Sprint(sel == nil, ignoreDir)))
				mk := func(a string) *lha.Lha {
					l := lha.NewLha(a)
					l.IgnoreDirectory = ignoreDir
					if sel != nil {
						l.CmdFilev, l.CmdFilec = append([]string{}, sel...), len(sel)
					}
					return l
				}
				dest := "d"
				var fail error
				switch route {
				case 0:
					l := mk("a.lzh")
					l.ExtractDirectory = "d"
					fail = lha.CommandExtract("a.lzh", l)
				case 1:
					inDir("d", func() { fail = lha.CommandExtract("../a.lzh", mk("../a.lzh")) })
				case 2:
					for i := len(es) - 1; i >= 0; i-- {
						if sel == nil || contains(sel, ms[i].Name) {
							l := lha.NewLha("a.lzh")
							l.IgnoreDirectory = ignoreDir
							l.ExtractDirectory = "d"
							h := namedHeader(ms[i].Name)
							if err := l.Decompress(h); err != nil {
								fail = err
							}
						}
					}
				case 3:
					if sel != nil || ignoreDir {
						return
					}
					if r := cli(c, "d", "", "-e", "-archive", "../a.lzh"); r.code != 0 || r.timeout {
						fail = fmt.Errorf("exit status %d: %s", r.code, r.err)
					}
				case 4: // a destination which is not there yet
					dest = "d/new/deep"
					l := mk("a.lzh")
					l.ExtractDirectory = dest
					fail = lha.CommandExtract("a.lzh", l)
				case 5: // one object for all
					l := lha.NewLha("a.lzh")
					l.IgnoreDirectory = ignoreDir
					l.ExtractDirectory = "d"
					for i := range es {
						if sel == nil || contains(sel, ms[i].Name) {
							if err := l.Decompress(namedHeader(ms[i].Name)); err != nil {
								fail = err
							}
						}
					}
				}
				if fail != nil {
					t.Fail("%s: route %d: %v", what, route, fail)
					return
				}
				want := map[string]bool{}
				for i, e := range es {
					t.Trans(1)
					if sel != nil && !contains(sel, ms[i].Name) || ignoreDir && e.Kind != 0 {
						continue
					}
					want[base(ms[i].Name)] = true
					checkExtracted(t, fmt.Sprintf("%s: route %d", what, route), dest+"/"+base(ms[i].Name), e, ms[i])
				}
				ds, _ := os.ReadDir(dest)
				for _, d := range ds {
					if !want[d.Name()] {
						t.Fail("%s: route %d: %q was extracted too", what, route, d.Name())
					}
				}
				if dest != "d" {
					for _, d := range []string{"d", "d/new"} {
						if ds, _ := os.ReadDir(d); len(ds) > 1 {
							t.Fail("%s: route %d: %d files in %s", what, route, len(ds), d)
						}
					}
				}
			}
			const routes = 6
			for _, m := range allMethods {
				for lv := 0; lv < 4; lv++ {
					m, lv := m, lv
					c.Case(str("method %s level %d", m, lv), func(t *T) {
						for k, e := range []*Ent{sample(m, 4), bigSample(m), {Method: m, Time: 77777778}} {
							e.Name, e.Level, e.Mode = "f", lv, 0640
							for r := 0; r < routes; r++ {
								doit(t, fmt.Sprintf("content %d", k), []*Ent{e}, r, nil, false)
							}
							g := *e
							g.Mode = 0
							doit(t, "generic", []*Ent{&g}, k, nil, false)
						}
					})
				}
			}
			// large stored and compressed contents
			for _, m := range []string{"-lh0-", "-lh1-", "-lh5-", "-lh6-", "-lh7-"} {
				for _, n := range []int{4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 200000} {
					m, n := m, n
					c.Case(str("%s, %d bytes", m, n), func(t *T) {
						body := append(rep("abcdefgh", n/16), unique(n-8*(n/16)/1, 256, 5)...)
						if len(body) > n {
							body = body[:n]
						}
						e := &Ent{Name: "f", Method: m, Level: 2, Mode: 0600, Time: 900000000}
						if m == "-lh0-" {
							e.Content, e.Packed = body, body
						} else {
							x := encode(methodNum[m], body)
							if out, err := ref.Decode(m, x.packed, len(body)); x.err != nil || err != nil || !bytes.Equal(out, body) {
								return // C02's matter
							}
							e.Content, e.Packed = body, append([]byte{}, x.packed...)
						}
						for r := 0; r < routes; r++ {
							doit(t, "large", []*Ent{e}, r, nil, false)
						}
					})
				}
			}
			// permissions
			for lv := 0; lv < 4; lv++ {
				for hi := 0; hi < 8; hi++ {
					lv, hi := lv, hi
					c.Case(str("permissions %d00-%d77 level %d", hi, hi, lv), func(t *T) {
						old := syscall.Umask(022)
						defer syscall.Umask(old)
						for _, um := range []int{022, 0, 077} {
							syscall.Umask(um)
							for m := hi * 64; m < hi*64+64; m++ {
								if um != 022 && !c.Thorough && m%7 != hi%7 {
									continue
								}
								e := sample("-lh5-", 1)
								e.Name, e.Level, e.Mode = "f", lv, m
								g := &Ent{Kind: 'd', Name: "g/", Level: lv, Mode: m, Time: 1000000000 + uint32(m)*2}
								if m == 0 { // otherwise the shorthand of no mode
									e.OS, e.Type, g.Type = 'U', 0100000, 0040000
								}
								r := (m + hi) % routes
								if r == 3 && m%16 != 0 {
									r = 0
								}
								doit(t, fmt.Sprintf("mode %o, mask %o", m, um), []*Ent{e, g}, r, nil, false)
								if c.Thorough {
									for r := 0; r < routes; r++ {
										if r != 3 {
											doit(t, fmt.Sprintf("mode %o, mask %o", m, um), []*Ent{g, e}, r, nil, false)
										}
									}
								}
								if t.Failed() {
									return
								}
							}
						}
						syscall.Umask(022)
					})
				}
			}
			// times
			times := []uint32{315532800, 315532802, 347155198, 400000000, 536870912, 694224000, 883612798, 946684798, 946684800, 951782400, 951868798, 1000000000, 1077926400, 1234567890, 1709164800, 2145916798, 2147483646, 2147483648, 2500000000, 3000000000, 3999999998, 4000000000, 4070908798, 4086000000}
			for _, tm := range times {
				for lv := 0; lv < 4; lv++ {
					tm, lv := tm, lv
					c.Case(str("time %d level %d", tm, lv), func(t *T) {
						for r := 0; r < routes; r++ {
							for _, mode := range []int{0, 0644} {
								e := sample("-lh1-", 1)
								e.Name, e.Level, e.Mode, e.Time = "f", lv, mode, tm
								g := &Ent{Kind: 'd', Name: "g/", Level: lv, Mode: 0755, Time: tm}
								doit(t, "time", []*Ent{g, e}, r, nil, false)
								if lv >= 2 || mode != 0 {
									e.Time++
									doit(t, "odd time", []*Ent{e}, r, nil, false)
								}
							}
						}
					})
				}
			}
			// systems
			for _, id := range []byte{'U', 'K', 'X', 'M', '2', '9', 'm', 'w', 'W', 'H', 'J', 'C', 'F', 'R', 'T'} {
				id := id
				c.Case(str("system %q", id), func(t *T) {
					for lv := 0; lv < 4; lv++ {
						for _, m := range []int{0, 0640} {
							e := sample("-lh0-", 1)
							e.Name, e.Level, e.OS, e.Mode = "f", lv, id, m
							arc := archive([]*Ent{e}, true)
							if ms, _, err := ref.ParseArchive(arc); err != nil || ms[0].Name != "f" || int(ms[0].Mode)&0170000 != 0100000 {
								continue
							}
							doit(t, fmt.Sprintf("level %d", lv), []*Ent{e}, lv%routes, nil, false)
						}
					}
				})
			}
			// a directory which is there keeps what it holds, and gets the attributes
			for lv := 0; lv < 4; lv++ {
				for _, m := range []int{0700, 0755, 0500, 0511, 0777, 0050} {
					lv, m := lv, m
					c.Case(str("existing directory, mode %o level %d", m, lv), func(t *T) {
						for _, was := range []os.FileMode{0700, 0755, 0777, 0500} {
							for route := 0; route < 3; route++ {
								for _, more := range []bool{false, true} {
									fresh("d")
									must(os.Mkdir("d/g", 0700))
									writeFile("d/g/kept", []byte("kept"))
									must(os.Chtimes("d/g", unix(1500000000), unix(1500000000)))
									must(os.Chmod("d/g", was))
									g := &Ent{Kind: 'd', Name: "x/g/", Level: lv, Mode: m, Time: 1000000000 + uint32(m)*2}
									es := []*Ent{g}
									if more {
										f := sample("-lh5-", 1)
										f.Name, f.Level = "f", lv
										es = []*Ent{f, g, {Kind: 'd', Name: "h/", Level: lv, Mode: 0750, Time: 1200000000}}
									}
									arc := archive(es, true)
									ms, _, err := ref.ParseArchive(arc)
									must(err)
									writeFile("a.lzh", arc)
									t.Traces(1)
									t.Trans(1)
									t.Distinct(arc, []byte(fmt.Sprint("existing", was, route)))
									l := lha.NewLha("a.lzh")
									l.ExtractDirectory = "d"
									switch route {
									case 0:
										err = lha.CommandExtract("a.lzh", l)
									case 1:
										l.Force = true
										err = lha.CommandExtract("a.lzh", l)
									case 2:
										for _, e := range es {
											if err = l.Decompress(namedHeader(e.Name)); err != nil {
												break
											}
										}
									}
									what := fmt.Sprintf("directory of mode %o, route %d", was, route)
									if err != nil {
										t.Fail("%s: %v", what, err)
										return
									}
									for i, e := range es {
										checkExtracted(t, what, "d/"+base(ms[i].Name), e, ms[i])
									}
									os.Chmod("d/g", 0700)
									if b, err := os.ReadFile("d/g/kept"); err != nil || string(b) != "kept" {
										t.Fail("%s: the file in it is gone: %v", what, err)
									}
								}
							}
						}
					})
				}
			}
			// pipes, devices, sockets: not extracted, unless forced, and then as files
			for _, ft := range []int{0010000, 0020000, 0060000, 0140000} {
				for lv := 0; lv < 4; lv++ {
					ft, lv := ft, lv
					c.Case(str("file type %o level %d", ft, lv), func(t *T) {
						e := sample("-lh5-", 2)
						e.Name, e.Level, e.OS, e.Mode, e.Type = "special", lv, 'U', 0640, ft
						o := sample("-lh0-", 3)
						o.Name, o.Level = "plain", lv
						arc := archive([]*Ent{o, e}, true)
						ms, _, err := ref.ParseArchive(arc)
						must(err)
						writeFile("a.lzh", arc)
						for _, force := range []bool{false, true} {
							for route := 0; route < 2; route++ {
								fresh("d")
								l := lha.NewLha("a.lzh")
								l.ExtractDirectory, l.Force = "d", force
								var err error
								if route == 0 {
									err = lha.CommandExtract("a.lzh", l)
								} else {
									err = l.Decompress(namedHeader("special"))
								}
								t.Trans(1)
								t.Traces(1)
								t.Distinct(arc, []byte(fmt.Sprint(force, route)))
								if (err == nil) != force {
									t.Fail("force %v: %v", force, err)
								} else if force {
									checkExtracted(t, "forced", "d/special", e, ms[1])
								} else if _, err := os.Lstat("d/special"); err == nil {
									t.Fail("refused, but extracted")
								}
								if route == 0 {
									checkExtracted(t, "before it", "d/plain", o, ms[0])
								}
							}
						}
					})
				}
			}
			// sequences
			kind := func(k, i int) *Ent {
				n := fmt.Sprintf("n%d", i)
				e := sample(allMethods[(k*3+i)%len(allMethods)], i)
				switch k {
				case 0:
					e.Name, e.Mode = n, 0644
				case 1:
					e.Name = n
				case 2:
					e.Name, e.Mode = fmt.Sprintf("dir/sub%d/%s", i, n), 0600
				case 3:
					e = &Ent{Kind: 'd', Name: n + "/", Mode: 0750, Time: 1100000000}
				case 4:
					e = &Ent{Kind: 'd', Name: "dir/" + n + "/", Mode: 0700, Time: 1100000002}
				case 5:
					e = &Ent{Kind: 'l', Name: n, Link: "n0", Time: 1100000004}
				case 6:
					e = &Ent{Method: "-lh5-", Name: n, Time: 1100000006}
				case 7:
					e = &Ent{Method: "-lh0-", Name: "x/" + n, Mode: 0400, Time: 1100000008}
				}
				e.Level = (k + i) % 4
				if e.Kind != 0 && e.Level == 0 {
					e.Level = 2
				}
				return e
			}
			// where a link leads
			linkTop := 4
			if c.Thorough {
				linkTop = 5
			}
			var targets []string
			seqs(5, 1, linkTop, func(s []int) {
				b := ""
				for _, x := range s {
					b += string("a./ \xe9"[x])
				}
				targets = append(targets, b)
			})
			for _, n := range []int{15, 16, 31, 32, 63, 64, 100, 127, 128, 180, 200} {
				targets = append(targets, strings.Repeat("l", n), strings.Repeat("../", n/3)+"x", strings.Repeat("d/", n/2))
			}
			for lv := 1; lv < 4; lv++ {
				for k := 0; k < len(targets); k += 40 {
					lv, k := lv, k
					c.Case(str("link targets from %q, level %d", targets[k], lv), func(t *T) {
						for i := k; i < len(targets) && i < k+40 && !t.Failed(); i++ {
							es := []*Ent{{Kind: 'l', Name: "ln", Link: targets[i], Level: lv, Time: 1100000004}, sample("-lh5-", 1)}
							es[1].Name, es[1].Mode, es[1].Level = "after", 0640, 2
							doit(t, fmt.Sprintf("link to %q, level %d", targets[i], lv), es, []int{0, 1, 2, 4}[i%4], nil, false)
						}
					})
				}
			}
			top := 3
			if c.Thorough {
				top = 4
			}
			seqs(8, 1, top, func(s []int) {
				s = cp(s)
				c.Case(str("kinds %v", s), func(t *T) {
					var es []*Ent
					for i, k := range s {
						es = append(es, kind(k, i))
					}
					for r := 0; r < routes; r++ {
						if r == 3 && len(s) > 1 && (s[0]+s[1])%4 != 0 {
							continue
						}
						doit(t, "sequence", es, r, nil, false)
					}
					doit(t, "no directories", es, 0, nil, true)
				})
			})
			// selections
			n := 4
			if c.Thorough {
				n = 6
			}
			bases := [][]string{{"a", "b", "c", "d", "e", "f"}, {"a", "aa", "A", "a.", "a a", ".a"}, {"d/a", "d/b", "e/c", "d/", "d/e/f", "g"}, {"x/a", "y/b", "a/x", "b/y", "z", "x/y/w"}}
			for bi, names := range bases {
				for mask := 0; mask < 1<<uint(n); mask++ {
					bi, names, mask := bi, names, mask
					c.Case(str("names %q, subset %b", names[:n], mask), func(t *T) {
						var es []*Ent
						for i, nm := range names[:n] {
							e := sample(allMethods[(i*4+bi)%len(allMethods)], i)
							if strings.HasSuffix(nm, "/") {
								e = &Ent{Kind: 'd', Mode: 0755, Time: 1100000000}
							}
							e.Name, e.Level = nm, (i+mask)%4
							es = append(es, e)
						}
						var sel []string
						for i := 0; i < n; i++ {
							if mask>>uint(i)&1 == 1 {
								sel = append(sel, names[i])
							}
						}
						if mask == 0 {
							sel = nil
						}
						for _, r := range []int{0, 1, 2, 4, 5} {
							doit(t, "selection", es, r, sel, false)
						}
						// in another order, with repeats and names which are not there
						rev := append([]string{}, sel...)
						sort.Sort(sort.Reverse(sort.StringSlice(rev)))
						rev = append(rev, "nothere", "d", "x")
						for i := range es {
							if es[i].Name == "d" || es[i].Name == "x" {
								rev = rev[:len(rev)-2]
								break
							}
						}
						rev = append(rev, sel...)
						doit(t, "selection with others", es, 0, rev, false)
						doit(t, "no name of the archive", es, 0, []string{"nothere"}, false)
					})
				}
			}
		},
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
