package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"verif/mc/ref"
)

// arcVerdict: can the archive be listed, and can it be read in full.
func arcVerdict(b []byte) (list, read bool, ms []*ref.Entry, contents [][]byte) {
	ms, _, err := ref.ParseArchive(b)
	if err != nil {
		return false, false, nil, nil
	}
	read = true
	pos := 0
	for _, m := range ms {
		pos += m.HeaderSize
		var out []byte
		if m.Method != "-lhd-" {
			out, err = ref.Decode(m.Method, b[pos:pos+m.Packed], m.Orig)
			if k, ok := known[m.Method+string(b[pos:pos+m.Packed])]; ok && len(k) == m.Orig {
				out, err = k, nil
			}
			if err != nil || m.Crc >= 0 && int(ref.CRC16(out)) != m.Crc {
				read = false
			}
		}
		contents = append(contents, out)
		pos += m.Packed
	}
	return true, read, ms, contents
}

// ---- a model of the program's commands on two sources and an archive

type cliState struct {
	arc   map[string]string // nil: no archive
	times map[string]int64
	files map[string]string // in the directory
	ft    map[string]int64
}

func (s *cliState) copy() *cliState {
	n := &cliState{times: map[string]int64{}, files: map[string]string{}, ft: map[string]int64{}}
	if s.arc != nil {
		n.arc = map[string]string{}
	}
	for k, v := range s.arc {
		n.arc[k], n.times[k] = v, s.times[k]
	}
	for k, v := range s.files {
		n.files[k], n.ft[k] = v, s.ft[k]
	}
	return n
}

type cliCmd struct {
	args  []string
	stdin string
	// effect on the model; ok is the expected exit status
	apply func(s *cliState) (ok bool)
	// touch prepares the directory before the command
	touch func(dir string, s *cliState)
}

func cliCmds() []cliCmd {
	add := func(s *cliState, f string, fresh, upd, move bool) bool {
		if s.arc == nil || fresh {
			s.arc, s.times = map[string]string{}, map[string]int64{}
		}
		b, ok := s.files[f]
		if !ok {
			return true // only warned about
		}
		if _, in := s.arc[f]; in && upd && s.times[f] >= s.ft[f] {
			return true
		}
		s.arc[f], s.times[f] = b, s.ft[f]
		if move {
			delete(s.files, f)
		}
		return true
	}
	ext := func(answer byte, force bool) func(s *cliState) bool {
		return func(s *cliState) bool {
			if s.arc == nil {
				return false
			}
			var ns []string
			for n := range s.arc {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			m := &askModel{force: force}
			if answer != 0 {
				m.answers = []string{string(answer)}
			}
			for _, n := range ns {
				_, ex := s.files[n]
				if m.write(ex) {
					s.files[n], s.ft[n] = s.arc[n], s.times[n]
				}
			}
			return true
		}
	}
	same := func(s *cliState) bool { return s.arc != nil }
	newer := func(n, body string, t int64) func(dir string, s *cliState) {
		return func(dir string, s *cliState) {
			os.Remove(dir + "/" + n)
			writeFile(dir+"/"+n, []byte(body))
			must(os.Chtimes(dir+"/"+n, unix(t), unix(t)))
			s.files[n], s.ft[n] = body, t
		}
	}
	return []cliCmd{
		{args: []string{"-a", "f"}, apply: func(s *cliState) bool { return add(s, "f", false, false, false) }},
		{args: []string{"-a", "g", "-h", "1", "-o", "7"}, apply: func(s *cliState) bool { return add(s, "g", false, false, false) }},
		{args: []string{"-c", "g", "-h", "0"}, apply: func(s *cliState) bool { return add(s, "g", true, false, false) }},
		{args: []string{"-a", "f", "-m", "-g", "1"}, apply: func(s *cliState) bool { return add(s, "f", false, false, true) }},
		{args: []string{"-a", "f", "-u"}, apply: func(s *cliState) bool { return add(s, "f", false, true, false) },
			touch: newer("f", "newer content of f, newer content of f", 1900000000)},
		{args: []string{"-a", "g", "-u"}, apply: func(s *cliState) bool { return add(s, "g", false, true, false) },
			touch: newer("g", "older content of g", 1000000000)},
		{args: []string{"-e"}, stdin: "", apply: ext(0, false)},
		{args: []string{"-e"}, stdin: "y\n", apply: ext('y', false)},
		{args: []string{"-e", "-f"}, apply: ext(0, true)},
		{args: []string{"-e", "-n"}, apply: same},
		{args: []string{"-t"}, apply: same},
		{args: []string{"-l"}, apply: same},
		{args: []string{"-p"}, apply: same},
		{args: []string{"-d"}, apply: func(s *cliState) bool { return false }},
		{args: []string{"-a", "g", "-n"}, apply: func(s *cliState) bool { return true }},
		{args: []string{"-a", "f", "-h", "4"}, apply: func(s *cliState) bool { return false }},
		{args: []string{"-a", "f", "-o", "3"}, apply: func(s *cliState) bool { return false }},
		{args: nil, apply: func(s *cliState) bool { return false }},
	}
}

func init() {
	register(&Prop{
		ID:        "C20",
		Technique: "bounded exhaustive exploration: every sequence of commands of the built program up to the bound runs against a model of archive and directory; every combination of the option values and every damaged archive is run once; exit status, archive, directory and output are compared",
		Level:     "model_checking",
		Rule:      "state = distinct (command history) or (options, archive); transition = one run of the program; trace = one history replayed against the program",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "18 commands (add, reconstruct, move, update with newer and older sources, extract with answers, forced and dry, test, list, print, delete, refused options, none): every sequence of 1 to 3, and every sequence of 4 over 9 of them which starts with an addition; 7 x 7 x 6 values of -o, -h, -g; -x with every list of 1 to 4 out of 6 names; -l -lv -v -e -t -p on 23 well-formed, damaged and missing archives; contents of -p and -e of 13 methods",
			"thorough": "every sequence of 4 (18^4)",
		},
		Explore: func(c *Ctx) {
			cmds := cliCmds()
			start := func() *cliState {
				return &cliState{files: map[string]string{"f": "content of f, content of f, content of f", "g": strings.Repeat("g is longer; ", 50)}, ft: map[string]int64{"f": 1400000000, "g": 1500000000}, times: map[string]int64{}}
			}
			hist := func(t *T, s []int) {
				fresh("w")
				st := start()
				for n, b := range st.files {
					writeFile("w/"+n, []byte(b))
					must(os.Chtimes("w/"+n, unix(st.ft[n]), unix(st.ft[n])))
				}
				t.Traces(1)
				t.Distinct([]byte(fmt.Sprint(s)))
				for k, x := range s {
					cmd := cmds[x]
					if cmd.touch != nil {
						cmd.touch("w", st)
					}
					before, _ := os.ReadFile("w/x.lzh")
					want := st.copy()
					ok := cmd.apply(want)
					if !ok {
						want = st
					}
					r := cli(c, "w", cmd.stdin, append(append([]string{}, cmd.args...), "-archive", "x.lzh")...)
					t.Trans(1)
					what := fmt.Sprintf("command %d, %q", k, cmd.args)
					if r.timeout {
						t.Fail("%s: no answer", what)
						return
					}
					if (r.code == 0) != ok {
						t.Fail("%s: exit status %d, %s", what, r.code, r.err)
						return
					}
					now, err := os.ReadFile("w/x.lzh")
					if (err == nil) != (want.arc != nil) {
						t.Fail("%s: archive there: %v, expected %v", what, err == nil, want.arc != nil)
						return
					}
					if err == nil {
						m, _, err := arcMap(now)
						if err != nil {
							t.Fail("%s: %v", what, err)
							return
						}
						if len(m) != len(want.arc) {
							t.Fail("%s: %d entries instead of %d", what, len(m), len(want.arc))
							return
						}
						for n, b := range want.arc {
							if m[n] == nil || string(m[n].content) != b {
								t.Fail("%s: %q of the archive is not what was added last", what, n)
								return
							}
							if d := m[n].time - want.times[n]; d < -1 || d > 1 {
								t.Fail("%s: time of %q off by %d", what, n, d)
								return
							}
							// the generic format keeps even seconds
							want.times[n] = m[n].time
						}
						if !ok && !bytes.Equal(now, before) {
							t.Fail("%s: refused, but the archive changed", what)
							return
						}
					}
					ds, _ := os.ReadDir("w")
					for _, d := range ds {
						if d.Name() == "x.lzh" {
							continue
						}
						b, in := want.files[d.Name()]
						if !in {
							t.Fail("%s: %q appeared", what, d.Name())
						} else if g := readFile("w/" + d.Name()); string(g) != b {
							t.Fail("%s: %q holds %s instead of %s", what, d.Name(), q(g), q([]byte(b)))
						} else if fi, _ := os.Stat("w/" + d.Name()); fi.ModTime().Unix() != want.ft[d.Name()] && fi.ModTime().Unix() != want.times[d.Name()] {
							t.Fail("%s: time of %q is %d", what, d.Name(), fi.ModTime().Unix())
						}
					}
					for n := range want.files {
						fi, err := os.Stat("w/" + n)
						if err != nil {
							t.Fail("%s: %q is gone", what, n)
							continue
						}
						want.ft[n] = fi.ModTime().Unix()
					}
					if t.Failed() {
						return
					}
					if len(cmd.args) == 1 && cmd.args[0] == "-p" && ok {
						for n, b := range want.arc {
							if !strings.Contains(r.out, b) || !strings.Contains(r.out, n) {
								t.Fail("%s: %q is not printed", what, n)
							}
						}
					}
					if len(cmd.args) == 1 && cmd.args[0] == "-l" && ok {
						ms, _, _ := ref.ParseArchive(now)
						checkListing(t, what, r.out, ms, false, false, false)
					}
					st = want
				}
			}
			lab := func(s []int) func() string {
				s = cp(s)
				return func() string {
					var a []string
					for _, x := range s {
						a = append(a, strings.Join(cmds[x].args, " "))
					}
					return "commands " + strings.Join(a, "; ")
				}
			}
			seqs(len(cmds), 1, 2, func(s []int) {
				s = cp(s)
				c.Case(lab(s), func(t *T) { hist(t, s) })
			})
			seqs(len(cmds), 3, 3, func(s []int) {
				s = cp(s)
				c.Case(lab(s), func(t *T) { hist(t, s) })
			})
			seqs(len(cmds), 4, 4, func(s []int) {
				if !c.Thorough {
					if s[0] > 3 {
						return
					}
					for _, x := range s[1:] {
						if x == 6 || x > 8 && x != 14 {
							return
						}
					}
				}
				s = cp(s)
				c.Case(lab(s), func(t *T) { hist(t, s) })
			})
			// option values
			val := func(args []string, f, v string) []string {
				if v == "" {
					return args
				}
				return append(args, f, v)
			}
			for _, o := range []string{"", "5", "6", "7", "4", "8", "-1"} {
				for _, h := range []string{"", "0", "1", "2", "3", "-1", "7"} {
					for _, g := range []string{"", "0", "1", "2", "3", "-1"} {
						o, h, g := o, h, g
						c.Case(str("-o %s -h %s -g %s", o, h, g), func(t *T) {
							for _, kind := range []string{"-a", "-c", "-a -m"} {
								fresh("w")
								body := strings.Repeat("compressible text. ", 30)
								writeFile("w/f", []byte(body))
								must(os.Chtimes("w/f", unix(1400000000), unix(1400000000)))
								pre := sample("-lh5-", 3)
								pre.Name, pre.Level = "old", 1
								if kind == "-c" {
									writeFile("w/x.lzh", archive([]*Ent{pre}, true))
								}
								before := snapshot("w", false)
								f := strings.Fields(kind)
								args := append([]string{f[0], "f"}, f[1:]...)
								args = val(val(val(args, "-o", o), "-h", h), "-g", g)
								r := cli(c, "w", "", append(args, "-archive", "x.lzh")...)
								t.Trans(1)
								t.Traces(1)
								t.Distinct([]byte(strings.Join(args, " ")))
								lv := 2
								ok := true
								if h != "" {
									fmt.Sscan(h, &lv)
								}
								if g != "" {
									fmt.Sscan(g, &lv)
								}
								if lv < 0 || lv > 2 {
									ok = false
								}
								m := "-lh5-"
								switch o {
								case "5", "6", "7":
									m = "-lh" + o + "-"
								case "":
								default:
									ok = false
								}
								if (r.code == 0) != ok || r.timeout {
									t.Fail("%q: exit status %d: %s", args, r.code, r.err)
									return
								}
								if !ok {
									if d := snapDiff(before, snapshot("w", false)); d != "" {
										t.Fail("%q: refused, but %s", args, d)
									}
									continue
								}
								_, read, ms, cs := arcVerdict(readFile("w/x.lzh"))
								if !read || len(ms) != 1 || ms[0].Name != "f" || string(cs[0]) != body {
									t.Fail("%q: the archive does not hold f", args)
									return
								}
								if ms[0].Level != lv || ms[0].Method != m {
									t.Fail("%q: level %d, method %s instead of %d, %s", args, ms[0].Level, ms[0].Method, lv, m)
								}
								if gen := ms[0].OS != 'U'; gen != (g != "") {
									t.Fail("%q: system %q", args, ms[0].OS)
								}
								if _, err := os.Stat("w/f"); (err == nil) == (kind == "-a -m") {
									t.Fail("%q: source there: %v", args, err == nil)
								}
							}
						})
					}
				}
			}
			// exclusions
			excl := []string{"a.txt", "F", "", "ff", "G.b", " f"}
			seqs(len(excl), 1, 4, func(s []int) {
				s = cp(s)
				c.Case(str("-x %v", s), func(t *T) {
					var xs []string
					for _, k := range s {
						xs = append(xs, excl[k])
					}
					arg := strings.Join(xs, ",")
					for _, args := range [][]string{{"-a", "f"}, {"-c", "g.b", "-a", "f"}, {"-a", "sub/f", "-m"}} {
						fresh("w")
						fresh("w/sub")
						for _, n := range []string{"f", "g.b", "sub/f"} {
							writeFile("w/"+n, []byte("content of "+n))
						}
						pre := sample("-lh5-", 3)
						pre.Name, pre.Level = "f", 1
						writeFile("w/x.lzh", archive([]*Ent{pre}, true))
						all := append(append([]string{}, args...), "-x", arg, "-archive", "x.lzh")
						r := cli(c, "w", "", all...)
						t.Trans(1)
						t.Traces(1)
						t.Distinct([]byte(strings.Join(all, "|")))
						if r.code != 0 || r.timeout {
							t.Fail("%q: exit status %d: %s", all, r.code, r.err)
							return
						}
						want := map[string]string{"f": string(pre.Content)}
						if args[0] == "-c" {
							want = map[string]string{}
						}
						hit := func(n string) bool {
							for _, x := range xs {
								if strings.EqualFold(x, n) {
									return true
								}
							}
							return false
						}
						for _, src := range args {
							if _, err := os.Stat("w/" + src); src[0] != '-' && !hit(base(src)) && (err == nil || args[len(args)-1] == "-m") {
								want[base(src)] = "content of " + src
							}
						}
						_, read, ms, cs := arcVerdict(readFile("w/x.lzh"))
						if !read || len(ms) != len(want) {
							t.Fail("%q: %d entries instead of %d", all, len(ms), len(want))
							return
						}
						for i, m := range ms {
							if string(cs[i]) != want[m.Name] {
								t.Fail("%q: %q is %q instead of %q", all, m.Name, cs[i], want[m.Name])
							}
						}
						if _, err := os.Stat("w/sub/f"); (err != nil) != (len(args) == 3 && !hit("f")) {
							t.Fail("%q: source removed: %v", all, err != nil)
						}
					}
				})
			})
			// every command on every archive
			names, datas := rdArchives()
			for a := range names {
				for _, cmd := range []string{"-l", "-lv", "-l -v", "-lv -v", "-e", "-e -f", "-t", "-p", "-e -v", "-t -v", "-d", ""} {
					a, cmd := a, cmd
					c.Case(str("%q on %s", cmd, names[a]), func(t *T) {
						fresh("w")
						fresh("w/in")
						miss := names[a] == "missing"
						if !miss {
							writeFile("w/x.lzh", datas[a])
						}
						args := append(strings.Fields(cmd), "-archive", "../x.lzh")
						r := cli(c, "w/in", "", args...)
						t.Trans(1)
						t.Traces(1)
						t.Distinct(datas[a], []byte(cmd))
						list, read, ms, cs := arcVerdict(datas[a])
						ok := !miss
						switch cmd {
						case "-l", "-lv", "-l -v", "-lv -v":
							ok = ok && list
						case "-d", "":
							ok = false
						default:
							ok = ok && read
						}
						if (r.code == 0) != ok || r.timeout {
							t.Fail("exit status %d: %s", r.code, r.err)
							return
						}
						if !ok && r.code != 0 && r.err == "" {
							t.Fail("no message for the failure")
						}
						if !miss && !bytes.Equal(readFile("w/x.lzh"), datas[a]) {
							t.Fail("the archive changed")
						}
						if !ok {
							return
						}
						switch cmd {
						case "-p":
							rest := r.out
							for i, m := range ms {
								if m.Method == "-lhd-" {
									continue
								}
								k := strings.Index(rest, string(cs[i]))
								if k < 0 {
									t.Fail("the content of %q is not printed in its place", m.Name)
									return
								}
								if !strings.Contains(rest[:k], m.Name) {
									t.Fail("the name of %q is not printed before its content", m.Name)
								}
								rest = rest[k+len(cs[i]):]
							}
						case "-e", "-e -f", "-e -v":
							for i, m := range ms {
								if m.Method == "-lhd-" {
									continue
								}
								if b, err := os.ReadFile("w/in/" + base(m.Name)); err != nil || !bytes.Equal(b, cs[i]) {
									t.Fail("%q: %v %s", m.Name, err, diff(b, cs[i]))
								}
							}
						case "-l", "-lv", "-l -v", "-lv -v":
							checkListing(t, cmd, r.out, ms, strings.Contains(cmd, "-lv"), strings.Contains(cmd, "-v"), false)
						}
						if !strings.HasPrefix(cmd, "-e") {
							if ds, _ := os.ReadDir("w/in"); len(ds) != 0 {
								t.Fail("%s appeared", ds[0].Name())
							}
						}
					})
				}
			}
			for _, args := range [][]string{{"-zzz"}, {"-o", "x", "-a", "f"}, {"-a"}, {"-archive"}} {
				args := args
				c.Case(str("malformed %q", args), func(t *T) {
					fresh("w")
					writeFile("w/f", []byte("f"))
					r := cli(c, "w", "", append([]string{"-archive", "x.lzh"}, args...)...)
					t.Trans(1)
					t.Traces(1)
					t.Distinct([]byte(fmt.Sprint(args)))
					if r.code == 0 || r.timeout {
						t.Fail("exit status %d", r.code)
					}
					if _, err := os.Stat("w/x.lzh"); err == nil {
						t.Fail("an archive was made")
					}
				})
			}
			// without an archive named nothing is done, a link which cannot be
			// recorded is refused
			for _, args := range [][]string{{}, {"-a", "f"}, {"-c", "f"}, {"-a", "f", "-m"}, {"-e"}, {"-l"}, {"-d"}, {"-t"}, {"-archive", "x.lzh", "-a", "p|q"}, {"-archive", "x.lzh", "-c", "p|q"},
				{"-archive", "x.lzh", "-a", "p|q", "-m"}, {"-archive", "x.lzh", "-c", "a", "-a", "p|q", "-m"}} {
				args := args
				c.Case(str("nothing done by %q", args), func(t *T) {
					fresh("w")
					for _, n := range []string{"f", "a"} {
						writeFile("w/"+n, []byte("content of "+n))
					}
					must(os.Symlink("f", "w/p|q"))
					e := sample("-lh5-", 4)
					e.Name = "f"
					writeFile("w/x.lzh", archive([]*Ent{e}, true))
					before := snapshot("w", true)
					r := cli(c, "w", "", args...)
					t.Trans(1)
					t.Traces(1)
					t.Distinct([]byte(fmt.Sprint("nothing", args)))
					if r.timeout || len(args) > 2 && args[0] == "-archive" && r.code == 0 {
						t.Fail("exit status %d", r.code)
					}
					after := snapshot("w", true)
					delete(before, ".")
					delete(after, ".")
					if d := snapDiff(before, after); d != "" {
						t.Fail("%s", d)
					}
				})
			}
		},
	})
}
