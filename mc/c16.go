package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// A reading operation: what it answers is text, errors included.
type rdOp struct {
	name string
	run  func(l *lha.Lha) string // l is for a.lzh in the current directory
}

func hdrText(h *lha.LzHeader) string {
	return fmt.Sprintf("%d|%s|%d|%d|%q|%q|%v|%04x|%d|%d|%o|%d|%d|%q|%q", h.HeaderLevel, h.Method, h.PackedSize, h.OriginalSize, cname(h.Name), cname(h.Realname), h.HasCrc, h.Crc, h.ExtendType, h.UnixLastModifiedStamp, h.UnixMode, h.UnixUID, h.UnixGid, cname(h.User), cname(h.Group))
}

// with sets options of the object for one operation
func with(l *lha.Lha, set func(l *lha.Lha), f func() error) string {
	v, vl, n, st, fo, cv, cc, ui, da, na := l.Verbose, l.VerboseListing, l.Noexec, l.OutputToStdout, l.Force, l.CmdFilev, l.CmdFilec, l.UpdateIfNewer, l.DeleteAfterAppend, l.NewArchive
	set(l)
	var err error
	out := withStdout(func() { err = f() })
	l.Verbose, l.VerboseListing, l.Noexec, l.OutputToStdout, l.Force, l.CmdFilev, l.CmdFilec, l.UpdateIfNewer, l.DeleteAfterAppend, l.NewArchive = v, vl, n, st, fo, cv, cc, ui, da, na
	return fmt.Sprintf("%s/%v", out, err)
}

func rdOps() []rdOp {
	arc := "a.lzh"
	none := func(l *lha.Lha) {}
	verify := func(f func() error) func() error {
		return func() error {
			lha.VerifyMode = true
			defer func() { lha.VerifyMode = false }()
			return f()
		}
	}
	ops := []rdOp{
		{"headers", func(l *lha.Lha) string {
			hs, err := l.Headers()
			var s []string
			for _, h := range hs {
				s = append(s, hdrText(h))
			}
			return fmt.Sprintf("%s/%v", strings.Join(s, "\n"), err)
		}},
		{"list", func(l *lha.Lha) string {
			return with(l, none, func() error { return lha.CommandList(arc, l) })
		}},
		{"list -v", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Verbose = true }, func() error { return lha.CommandList(arc, l) })
		}},
		{"list -lv", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.VerboseListing = true }, func() error { return lha.CommandList(arc, l) })
		}},
		{"test", func(l *lha.Lha) string {
			return with(l, none, verify(func() error { return lha.CommandExtract(arc, l) }))
		}},
		{"print", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.OutputToStdout = true }, func() error { return lha.CommandExtract(arc, l) })
		}},
		{"extract -n", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Noexec = true }, func() error { return lha.CommandExtract(arc, l) })
		}},
		{"extract -n -f", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Noexec, l.Force = true, true }, func() error { return lha.CommandExtract(arc, l) })
		}},
		{"memory", func(l *lha.Lha) string {
			b, err := l.DecompresBytes(namedHeader("one"))
			return fmt.Sprintf("%x/%v", b, err)
		}},
	}
	for _, o := range []rdOp{ops[6], ops[7], ops[4], ops[1]} { // without messages
		run := o.run
		ops = append(ops, rdOp{o.name + ", quiet", func(l *lha.Lha) string {
			lha.Quiet = !lha.Quiet
			defer func() { lha.Quiet = !lha.Quiet }()
			return run(l)
		}})
	}
	add := func(name string, set func(l *lha.Lha)) {
		ops = append(ops, rdOp{name, func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) {
				l.Noexec = true
				l.CmdFilev, l.CmdFilec = []string{"one", "src", "other"}, 3
				set(l)
			}, func() error { return lha.CommandAdd(arc, l) })
		}})
	}
	add("add -n", func(l *lha.Lha) {})
	add("update -n", func(l *lha.Lha) { l.UpdateIfNewer = true })
	add("update -n, no files", func(l *lha.Lha) { l.UpdateIfNewer = true; l.CmdFilec = 0; l.CmdFilev = nil })
	add("move -n", func(l *lha.Lha) { l.DeleteAfterAppend = true })
	add("new -n", func(l *lha.Lha) { l.NewArchive = true })
	ops = append(ops,
		rdOp{"test -n", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Noexec = true }, verify(func() error { return lha.CommandExtract(arc, l) }))
		}},
		rdOp{"print -n", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Noexec, l.OutputToStdout = true, true }, func() error { return lha.CommandExtract(arc, l) })
		}},
		rdOp{"by header -n", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Noexec = true }, func() error { return l.Decompress(namedHeader("one")) })
		}},
		rdOp{"file -n", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Noexec = true; l.DeleteAfterAppend = true }, func() error { return l.Compress("src", 5, 1) })
		}},
		rdOp{"bytes -n", func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.Noexec = true }, func() error { return l.CompressBytes("src", []byte("some bytes"), 5, 1) })
		}},
	)
	return ops
}

// archives to read: every method and level, damaged ones, none at all
func rdArchives() (names []string, data [][]byte) {
	put := func(n string, b []byte) { names, data = append(names, n), append(data, b) }
	for i, m := range allMethods {
		e := sample(m, i)
		e.Name, e.Level = "one", i%4
		f := sample(allMethods[(i+4)%len(allMethods)], i+1)
		f.Name, f.Level, f.Mode = "two", (i+1)%4, 0600
		put("methods "+m, archive([]*Ent{e, f}, true))
	}
	dl := []*Ent{{Kind: 'd', Name: "sub/", Level: 2, Mode: 0700, Time: 1000000000}, {Kind: 'l', Name: "ln", Link: "one", Level: 2, Time: 1000000000}, sample("-lh5-", 2), {Kind: 'd', Name: "ed/", Level: 1, Mode: 0711, Time: 1000000000}}
	dl[2].Name, dl[2].Level, dl[2].Mode = "one", 1, 0640
	put("directories and links", archive(dl, true))
	good := data[5]
	put("no end mark", good[:len(good)-1])
	put("cut data", good[:len(good)-9])
	bad := append([]byte{}, good...)
	bad[len(bad)-4] ^= 0x10
	put("damaged data", bad)
	bad = append([]byte{}, good...)
	bad[3] ^= 1
	put("damaged header", bad)
	put("cut header", good[:10])
	put("empty", nil)
	put("end mark", []byte{0})
	unk := sample("-lh0-", 1)
	unk.Name = "one"
	h := unk.header()
	h.Method = "-lh9-"
	put("unknown method", append(append(h.Build(), unk.Packed...), 0))
	put("no archive", []byte(nil))
	names[len(names)-1] = "missing"
	_ = ref.ErrEnd
	return
}

func init() {
	register(&Prop{
		ID:        "C16",
		Technique: "bounded exhaustive exploration of operation histories: every sequence of reading operations and dry runs up to the bound, on well-formed and damaged archives, is run on the real code; the file tree is compared with a snapshot after every operation and every answer with the first one",
		Level:     "model_checking",
		Rule:      "state = distinct (archive, surroundings, operation sequence); transition = one operation; trace = one history replayed against the code",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "23 operations (headers, 3 listings, test, print, to memory, dry runs of extraction, test, print, add, update, move, new, compress, and quiet ones) x 23 archives (13 methods at 4 levels, directories and links, 9 damaged, empty or missing) x 3 surroundings (empty, files of the same names, other kinds in the way): every operation twice, every sequence of 2 on one object and on fresh ones; every sequence of 3 on 2 archives; 10 dry runs and 6 reading operations with every combination of 9 settings on 4 archives; the program with its reading and dry-run options",
			"thorough": "every sequence of 3 on 8 archives, every sequence of 2 with every surrounding",
		},
		Explore: func(c *Ctx) {
			ops := rdOps()
			names, datas := rdArchives()
			setup := func(a, sur int) {
				fresh("w")
				if names[a] != "missing" {
					writeFile("w/a.lzh", datas[a])
					must(os.Chtimes("w/a.lzh", unix(800000000), unix(800000000)))
				}
				writeFile("w/src", bytes.Repeat([]byte("source "), 20))
				switch sur {
				case 1:
					for _, n := range []string{"one", "two", "other", "ln"} {
						writeFile("w/"+n, []byte("mine: "+n))
						must(os.Chtimes("w/"+n, unix(1500000000), unix(1500000000)))
					}
					must(os.Mkdir("w/sub", 0755))
				case 2:
					must(os.Mkdir("w/one", 0755))
					must(os.Symlink("src", "w/two"))
					must(os.Symlink("nothing", "w/other"))
					writeFile("w/sub", []byte("a file"))
				}
				must(os.Chtimes("w/src", unix(1400000000), unix(1400000000)))
			}
			first := map[string]string{}
			// the answer of the operation on an archive nothing was done to
			answer := func(a, sur, op int) string {
				k := fmt.Sprint(a, sur, op)
				if s, ok := first[k]; ok {
					return s
				}
				setup(a, sur)
				inDir("w", func() { first[k] = ops[op].run(lha.NewLha("a.lzh")) })
				return first[k]
			}
			hist := func(t *T, a, sur int, s []int, one bool) {
				for _, o := range s {
					answer(a, sur, o)
				}
				setup(a, sur)
				before := snapshot("w", true)
				t.Traces(1)
				t.Distinct([]byte(fmt.Sprint(a, sur, s, one)))
				inDir("w", func() {
					l := lha.NewLha("a.lzh")
					for _, o := range s {
						if !one {
							l = lha.NewLha("a.lzh")
						}
						got := ops[o].run(l)
						t.Trans(1)
						if d := snapDiff(before, snapshot(".", true)); d != "" {
							t.Fail("%s, surroundings %d: %q changes: %s", names[a], sur, ops[o].name, d)
							return
						}
						if want := answer2(first, a, sur, o); got != want {
							t.Fail("%s, surroundings %d, history %v: %q answers %.300q instead of %.300q", names[a], sur, opNames(ops, s), ops[o].name, got, want)
							return
						}
						if lha.VerifyMode {
							t.Fail("%q leaves the verify mode on", ops[o].name)
							lha.VerifyMode = false
						}
					}
				})
			}
			for a := range names {
				for sur := 0; sur < 3; sur++ {
					for o := range ops {
						a, sur, o := a, sur, o
						c.Case(str("%s, surroundings %d, %s twice", names[a], sur, ops[o].name), func(t *T) {
							hist(t, a, sur, []int{o, o}, true)
							hist(t, a, sur, []int{o, o}, false)
						})
					}
				}
			}
			for a := range names {
				seqs(len(ops), 2, 2, func(s []int) {
					a, s := a, cp(s)
					c.Case(str("%s, %v", names[a], opNames(ops, s)), func(t *T) {
						for sur := 0; sur < 3; sur++ {
							if c.Thorough || sur == (a+s[0]+s[1])%3 {
								hist(t, a, sur, s, true)
								if c.Thorough {
									hist(t, a, sur, s, false)
								}
							}
						}
					})
				})
			}
			deep := []int{5, 13}
			if c.Thorough {
				deep = []int{0, 2, 4, 5, 12, 13, 15, 17}
			}
			for _, a := range deep {
				seqs(len(ops), 3, 3, func(s []int) {
					a, s := a, cp(s)
					c.Case(str("%s, %v", names[a], opNames(ops, s)), func(t *T) {
						hist(t, a, (s[0]+s[1]+s[2])%3, s, true)
					})
				})
			}
			// dry runs: every combination of the settings
			for set := 0; set < 512; set++ {
				set := set
				c.Case(str("dry runs with settings %09b", set), func(t *T) {
					for k, a := range []int{5, 13, 17, len(names) - 1} {
						sur := (set + k) % 3
						setup(a, sur)
						os.MkdirAll("w/tree/in", 0755)
						writeFile("w/tree/in/x", []byte("x"))
						before := snapshot("w", true)
						inDir("w", func() {
							mk := func(arc string) *lha.Lha {
								l := lha.NewLha(arc)
								l.Noexec = true
								l.NewArchive, l.UpdateIfNewer, l.DeleteAfterAppend = set&1 != 0, set&2 != 0, set&4 != 0
								l.BackupOldArchive, l.SortContents, l.RecursiveArchiving = set&8 != 0, set&16 != 0, set&32 != 0
								l.Force, l.Verbose, l.IgnoreDirectory = set&64 != 0, set&128 != 0, set&256 != 0
								l.CompressMethod, l.HeaderLevel = 5, set%3
								return l
							}
							add := func(arc string, files ...string) {
								l := mk(arc)
								l.CmdFilev, l.CmdFilec = files, len(files)
								lha.CommandAdd(arc, l)
							}
							out := withStdout(func() {
								withStdin("y\na\n", func() {
									add("a.lzh", "src", "one", "tree")
									add("a.lzh")
									add("new.lzh", "src", "tree", "missing")
									add("new.exe", "src")
									mk("a.lzh").Compress("src", 5, 1)
									mk("new.lzh").Compress("src", 0, 2)
									mk("a.lzh").CompressBytes("src", []byte("bytes"), 7, 0)
									mk("a.lzh").Decompress(namedHeader("one"))
									l := mk("a.lzh")
									lha.CommandExtract("a.lzh", l)
									l.ExtractDirectory = "made"
									lha.CommandExtract("a.lzh", l)
								})
							})
							_ = out
						})
						t.Traces(1)
						t.Trans(10)
						t.Distinct([]byte(fmt.Sprint("settings", a, sur, set)))
						if d := snapDiff(before, snapshot("w", true)); d != "" {
							t.Fail("%s, surroundings %d: %s", names[a], sur, d)
							return
						}
						// what only reads does so with any settings
						for op := 0; op < 6; op++ {
							inDir("w", func() {
								l := lha.NewLha("a.lzh")
								l.NewArchive, l.UpdateIfNewer, l.DeleteAfterAppend = set&1 != 0, set&2 != 0, set&4 != 0
								l.BackupOldArchive, l.SortContents, l.RecursiveArchiving = set&8 != 0, set&16 != 0, set&32 != 0
								l.Force, l.Verbose, l.IgnoreDirectory = set&64 != 0, set&128 != 0, set&256 != 0
								if (set+op)%2 == 1 {
									l.ExtractDirectory = "made"
								}
								withStdout(func() {
									withStdin("y\na\n", func() {
										switch op {
										case 0, 1:
											lha.VerifyMode = true
											lha.Quiet = op == 1
											lha.CommandExtract("a.lzh", l)
											lha.VerifyMode, lha.Quiet = false, false
										case 2:
											l.OutputToStdout = true
											lha.CommandExtract("a.lzh", l)
										case 3:
											lha.CommandList("a.lzh", l)
										case 4:
											l.Headers()
										case 5:
											l.DecompresBytes(namedHeader("one"))
										}
									})
								})
							})
							if d := snapDiff(before, snapshot("w", true)); d != "" {
								t.Fail("%s, surroundings %d, reading %d: %s", names[a], sur, op, d)
								return
							}
						}
						t.Trans(6)
					}
				})
			}
			// the program
			cmds := [][]string{{"-l"}, {"-lv"}, {"-l", "-v"}, {"-lv", "-v"}, {"-t"}, {"-p"}, {"-e", "-n"}, {"-e", "-n", "-f"}, {"-a", "src", "-n"}, {"-c", "src", "-n"}, {"-a", "src", "-m", "-n"}, {"-a", "src", "-u", "-n"}, {"-u", "-n"}, {"-t", "-n"}, {"-p", "-n"}, {"-t", "-f"}, {"-p", "-f"}, {"-lv", "-f"}, {"-a", "one", "-m", "-n", "-h", "1"}}
			for a := range names {
				for ci := range cmds {
					a, ci := a, ci
					c.Case(str("%s, program %v", names[a], cmds[ci]), func(t *T) {
						sur := (a + ci) % 3
						setup(a, sur)
						before := snapshot("w", true)
						args := append(append([]string{}, cmds[ci]...), "-archive", "a.lzh")
						r := cli(c, "w", "", args...)
						r2 := cli(c, "w", "", args...)
						t.Traces(2)
						t.Trans(2)
						t.Distinct([]byte(fmt.Sprint("program", a, sur, ci)))
						if d := snapDiff(before, snapshot("w", true)); d != "" {
							t.Fail("surroundings %d: %s", sur, d)
						}
						if r != r2 {
							t.Fail("surroundings %d: the second answer %d %q differs from the first %d %q", sur, r2.code, r2.out, r.code, r.out)
						}
					})
				}
			}
		},
	})
}

func answer2(m map[string]string, a, sur, op int) string { return m[fmt.Sprint(a, sur, op)] }

func opNames(ops []rdOp, s []int) (r []string) {
	for _, o := range s {
		r = append(r, ops[o].name)
	}
	return
}
