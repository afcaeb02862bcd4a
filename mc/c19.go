package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	lha "github.com/jeromelesaux/lha"
)

// the files to choose from, in w/
var c19files = map[string]string{
	"a": "content of a, content of a, content of a", "B.txt": "b", "c": "", "d/x": "x in d", "d/Y.txt": strings.Repeat("y", 300), "d/s/z": "deep",
	"d/.hid": "hidden", "d/x ": "a name which ends with a space",
}

func c19setup(existing bool, inner bool) {
	fresh("w")
	must(os.MkdirAll("w/d/s", 0755))
	must(os.Mkdir("w/ed", 0755))
	for n, s := range c19files {
		writeFile("w/"+n, []byte(s))
		must(os.Chtimes("w/"+n, unix(tMid), unix(tMid)))
	}
	must(os.Chmod("w/B.txt", 0400))
	must(os.Symlink("a", "w/ln"))
	must(os.Symlink(".", "w/here"))
	writeFile("w/locked", []byte("secret"))
	must(os.Chmod("w/locked", 0))
	must(syscall.Mkfifo("w/pipe", 0644))
	arc := "w/arc.lzh"
	if inner {
		arc = "w/d/arc.lzh"
	}
	if existing {
		o := sample("-lh5-", 1)
		o.Name, o.Level = "old", 2
		p := sample("-lh0-", 2)
		p.Name, p.Level, p.Mode, p.Time = "a", 1, 0644, tLate
		writeFile(arc, archive([]*Ent{o, p}, true))
		must(os.Link(arc, "w/hard")) // the archive under another name
	}
}

type c19src struct {
	path, name string
	kind       byte
	content    string
}

// c19want is what adding the paths has to archive.
func c19want(paths, excl []string, arc string, recursive bool) (want []c19src) {
	seen := map[string]bool{}
	excluded := func(p string) bool {
		for _, x := range excl {
			if strings.EqualFold(x, filepath.Base(p)) {
				return true
			}
		}
		return false
	}
	root, _ := os.Getwd()
	var add func(p string)
	add = func(p string) {
		if excluded(p) {
			return
		}
		q := p
		if filepath.IsAbs(q) {
			q, _ = filepath.Rel(root+"/w", q)
		}
		q = filepath.Clean(q)
		if q == arc || seen[q] {
			return
		}
		b := filepath.Base(q)
		switch {
		case q == "d" || q == "ed" || q == "d/s":
			seen[q] = true
			want = append(want, c19src{q, b + "/", 'd', ""})
			if recursive {
				for _, k := range map[string][]string{"d": {"d/.hid", "d/Y.txt", "d/s", "d/x", "d/x "}, "d/s": {"d/s/z"}}[q] {
					add(k)
				}
			}
		case q == "ln":
			seen[q] = true
			want = append(want, c19src{q, b, 'l', "a"})
		default:
			if s, ok := c19files[q]; ok {
				seen[q] = true
				want = append(want, c19src{q, b, 0, s})
			}
		}
	}
	for _, p := range paths {
		add(p)
	}
	return
}

func init() {
	register(&Prop{
		ID:        "C19",
		Technique: "bounded exhaustive exploration: every list of sources and every list of exclusions up to the bound, in plain and move mode, with and without recursion, on a new and on an existing archive, is added by the real code; archive and source tree are compared with a set model",
		Level:     "model_checking",
		Rule:      "state = distinct (sources, exclusions, modes, archive); transition = one add operation; trace = one add replayed against the code and compared",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "17 sources (plain, read-only, empty, unreadable, missing and nested files, directories, a link, a pipe, the archive under 6 names, hard link and linked directory among them) in every list of up to 2, with every list of up to 1 of 13 exclusions, and every list of up to 3 sources with rotating exclusion pairs; 150 exclusions which look like the name of a source; x {add, move} x {no archive, existing archive, archive replaced} x recursion; the archive inside the directory which is archived; update mode with move; directories after a move; 5 to 400 sources, 6 numbers of them excluded, given one by one and in a directory; the program with -a, -c, -m, -x",
			"thorough": "every list of up to 3 sources with every list of up to 2 exclusions",
		},
		Explore: func(c *Ctx) {
			root, err := filepath.Abs("w")
			must(err)
			paths := []string{"a", "B.txt", "c", "d/x", "d/Y.txt", "d", "ed", "ln", "locked", "pipe", "missing", "arc.lzh", "./arc.lzh", "d/../arc.lzh", root + "/arc.lzh", root + "/a", "d/s", "hard", "here/arc.lzh"}
			excl := []string{"a", "A", "b.TXT", "B.txt", "x", ".HID", "X ", "D", "d/x", "LN", "ARC.lzh", "zzz", "", ".txt", "y.txt", "Z", "missing"}
			type mode struct {
				move, existing, fresh, rec, upd, inner bool
			}
			run := func(t *T, ps, ex []string, m mode, prog bool) {
				c19setup(m.existing, m.inner)
				arc := "arc.lzh"
				if m.inner {
					arc = "d/arc.lzh"
				}
				var prev []byte
				if m.existing {
					prev = readFile("w/" + arc)
				}
				want := c19want(ps, ex, arc, m.rec)
				before := snapshot("w", true)
				t.Trans(1)
				t.Traces(1)
				t.Distinct([]byte(fmt.Sprintf("%q %q %v %v", ps, ex, m, prog)))
				what := fmt.Sprintf("sources %q, exclusions %q, %+v", ps, ex, m)
				var err error
				if prog {
					args := []string{"-archive", arc, "-a", ps[0]}
					if m.fresh {
						args[2] = "-c"
					}
					if m.move {
						args = append(args, "-m")
					}
					if len(ex) > 0 {
						args = append(args, "-x", strings.Join(ex, ","))
					}
					if r := cli(c, "w", "", args...); r.code != 0 || r.timeout {
						err = fmt.Errorf("exit status %d: %s", r.code, r.err)
					}
				} else {
					inDir("w", func() {
						l := lha.NewLha(arc)
						l.HeaderLevel = 1
						l.CmdFilev, l.CmdFilec = append([]string{}, ps...), len(ps)
						l.ExcludeFiles = append([]string{}, ex...)
						l.DeleteAfterAppend, l.NewArchive, l.RecursiveArchiving, l.UpdateIfNewer = m.move, m.fresh, m.rec, m.upd
						err = lha.CommandAdd(arc, l)
					})
				}
				// what is newer in the archive stays there in update mode
				if m.upd && m.existing && !m.fresh {
					var x []c19src
					for _, s := range want {
						if s.name != "a" {
							x = append(x, s)
						}
					}
					want = x
				}
				names := map[string]c19src{}
				clash := false
				for _, s := range want {
					if o, ok := names[s.name]; ok && o.path != s.path {
						clash = true
					}
					names[s.name] = s
				}
				after := snapshot("w", true)
				strip := func(m map[string]string) {
					for k, v := range m {
						if v[0] == 'd' { // the time of a directory tells of its entries
							m[k] = v[:strings.LastIndex(v, " ")]
						}
					}
					delete(m, arc)
				}
				strip(before)
				strip(after)
				if err != nil {
					twice := false // one file under two spellings may be refused
					sp := map[string]string{}
					for _, p := range ps {
						q := p
						if filepath.IsAbs(q) {
							q, _ = filepath.Rel(root, q)
						}
						q = filepath.Clean(q)
						if o, ok := sp[q]; ok && o != p {
							twice = true
						}
						sp[q] = p
					}
					if !clash && !twice {
						t.Fail("%s: %v", what, err)
						return
					}
					if d := snapDiff(before, after); d != "" {
						t.Fail("%s: refused, but %s", what, d)
					}
					now, _ := os.ReadFile("w/" + arc)
					if !bytes.Equal(now, prev) {
						t.Fail("%s: refused, but the archive changed", what)
					}
					return
				}
				if clash {
					t.Fail("%s: success though two sources have one name", what)
					return
				}
				got := map[string]*arcEnt{}
				if b, err := os.ReadFile("w/" + arc); err == nil {
					if got, _, err = arcMap(b); err != nil {
						t.Fail("%s: %v", what, err)
						return
					}
				} else if len(want) > 0 || m.existing {
					t.Fail("%s: no archive", what)
					return
				}
				if prev != nil && !m.fresh {
					om, _, _ := arcMap(prev)
					for n, e := range om {
						if _, ok := names[n]; !ok {
							if g := got[n]; g == nil || !bytes.Equal(g.raw, e.raw) {
								t.Fail("%s: %q of the archive is not as before", what, n)
							}
							delete(got, n)
						}
					}
				}
				for n, s := range names {
					g := got[n]
					if g == nil {
						t.Fail("%s: %q is not archived", what, s.path)
						continue
					}
					switch s.kind {
					case 'd':
						if g.mode&0170000 != 0040000 {
							t.Fail("%s: %q has mode %o", what, s.path, g.mode)
						}
					case 'l':
						if g.mode&0170000 != 0120000 {
							t.Fail("%s: %q has mode %o", what, s.path, g.mode)
						}
					default:
						if string(g.content) != s.content || g.time != tMid {
							t.Fail("%s: %q is archived as %s, time %d", what, s.path, q(g.content), g.time)
						}
					}
					delete(got, n)
				}
				for n := range got {
					t.Fail("%s: %q is archived", what, n)
				}
				// the sources: archived ones are gone after a move, everything else is as it was
				if m.move {
					for _, s := range want {
						_, there := after[s.path]
						if s.kind == 'd' { // it goes when nothing is left in it
							left := strings.HasPrefix(arc, s.path+"/")
							for k := range after {
								left = left || strings.HasPrefix(k, s.path+"/")
							}
							if there != left {
								t.Fail("%s: after the move, directory %q is there: %v, with something in it: %v", what, s.path, there, left)
							}
							if !there {
								delete(before, s.path)
							}
							continue
						}
						if there {
							t.Fail("%s: %q is still there after the move", what, s.path)
						}
						delete(before, s.path)
						delete(after, s.path)
					}
				}
				if d := snapDiff(before, after); d != "" {
					t.Fail("%s: %s", what, d)
				}
			}
			modes := []mode{{}, {move: true}, {existing: true}, {existing: true, move: true}, {existing: true, fresh: true}, {existing: true, fresh: true, move: true}, {rec: true}, {rec: true, move: true, existing: true}, {existing: true, upd: true, move: true}, {inner: true, rec: true}, {inner: true, existing: true, rec: true, move: true}}
			var el [][]string
			el = append(el, nil)
			for _, x := range excl {
				el = append(el, []string{x})
			}
			pick := func(s []int) (r []string) {
				for _, i := range s {
					r = append(r, paths[i])
				}
				return
			}
			seqs(len(paths), 1, 2, func(s []int) {
				s = cp(s)
				c.Case(str("sources %q, one exclusion", pick(s)), func(t *T) {
					for ei, e := range el {
						for mi, m := range modes {
							if c.Thorough || ei == 0 || len(s) == 1 || (ei+mi+s[0])%3 == 0 {
								run(t, pick(s), e, m, false)
							}
							if t.Failed() {
								return
							}
						}
					}
				})
			})
			var pairs [][]string
			for i := range excl {
				for j := range excl {
					pairs = append(pairs, []string{excl[i], excl[j]})
				}
			}
			seqs(len(paths), 3, 3, func(s []int) {
				s = cp(s)
				c.Case(str("sources %q, two exclusions", pick(s)), func(t *T) {
					for pi, e := range pairs {
						k := pi*7 + s[0]*5 + s[1]*3 + s[2]
						if !c.Thorough && k%25 != 0 {
							continue
						}
						run(t, pick(s), e, modes[k%len(modes)], false)
						if t.Failed() {
							return
						}
					}
				})
			})
			// what only looks like the name of a file
			var near []string
			for _, n := range []string{"a", "B.txt", "x", "d", "missing", "ln"} {
				near = append(near, " "+n, n+" ", "\t"+n, n+"\n", n+"*", "*"+n, n+"?", n+"/", "./"+n, "/"+n, n+".", "."+n, "["+n+"]", n+n, n[:len(n)-1], n[1:], "^"+n+"$", n+"|c", n+"\x00", strings.ToUpper(n), strings.ToLower(n), strings.Title(n))
			}
			near = append(near, "*", "?", ".*", ".", "..", "/", "*.*", "*.txt", "B.???", "[a-z]", "b_txt", "B-txt", "Btxt", "B\\.txt", "b.txt.", "?.TXT")
			for _, x := range near {
				x := x
				c.Case(str("exclusion %q", x), func(t *T) {
					for mi, m := range modes {
						for _, ps := range [][]string{{"a", "B.txt", "d/x", "ln", "missing", "d"}, {"d", "c"}, {"d/Y.txt", root + "/a", "ed"}} {
							run(t, ps, []string{x}, m, false)
							if mi < 2 {
								run(t, ps, []string{"zzz", x, "q"}, m, false)
								run(t, ps, []string{"zzz", "C", "", "yyy", x}, m, false)
							}
							if t.Failed() {
								return
							}
						}
					}
				})
			}
			for pi, p := range paths {
				for ei, e := range append(append([][]string{}, el...), pairs...) {
					if !c.Thorough && ei > len(excl) && (ei+pi)%9 != 0 {
						continue
					}
					if len(e) > 0 && contains(e, "") {
						continue
					}
					pi, ei, p, e := pi, ei, p, e
					c.Case(str("program, source %q, exclusions %q", p, e), func(t *T) {
						m := modes[(pi+ei)%6]
						run(t, []string{p}, e, m, true)
					})
				}
			}
			// many sources, many exclusions
			for _, n := range []int{5, 9, 16, 17, 33, 63, 64, 65, 100, 101, 129, 255, 256, 257, 400} {
				for k, m := range []mode{{}, {move: true}, {rec: true}, {rec: true, move: true}} {
					n, k, m := n, k, m
					c.Case(str("%d sources, %+v", n, m), func(t *T) {
						name := func(i int) string { return fmt.Sprintf("file%03d.x", (i*7+3)%n*2) }
						for _, cut := range []int{0, 1, 2, n / 2, n - 1, n} {
							// all, all but one, half, or one of them excluded; among names which are not there
							if n%7 == 0 {
								continue
							}
							t.Trans(1)
							t.Traces(1)
							t.Beat()
							t.Distinct([]byte(fmt.Sprint("many ", n, k, cut)))
							fresh("w")
							must(os.Mkdir("w/dir", 0755))
							var ex, ps []string
							for i := 0; i < n; i++ {
								f := name(i)
								writeFile("w/dir/"+f, []byte(f))
								ps = append(ps, "dir/"+f)
								if i >= cut && i%2 == 0 {
									ex = append(ex, "no"+f)
								}
								if i < cut {
									ex = append(ex, strings.ToUpper(f))
								}
							}
							if m.rec {
								ps = []string{"dir"}
							}
							var err error
							inDir("w", func() {
								l := lha.NewLha("arc.lzh")
								l.HeaderLevel = k % 3
								l.CmdFilev, l.CmdFilec = ps, len(ps)
								l.ExcludeFiles = ex
								l.DeleteAfterAppend, l.RecursiveArchiving = m.move, m.rec
								err = lha.CommandAdd("arc.lzh", l)
							})
							if err != nil {
								t.Fail("%d sources, %d of them excluded: %v", n, cut, err)
								return
							}
							got := map[string]*arcEnt{}
							if b, err := os.ReadFile("w/arc.lzh"); err == nil {
								if got, _, err = arcMap(b); err != nil {
									t.Fail("%d sources, %d of them excluded: %v", n, cut, err)
									return
								}
							}
							dirs := 0
							if m.rec {
								dirs = 1
							}
							for i := 0; i < n; i++ {
								f := name(i)
								g := got[f]
								if (g != nil) != (i >= cut) {
									t.Fail("%d sources, %d of them excluded: %q is archived: %v", n, cut, f, g != nil)
									return
								}
								if g != nil && string(g.content) != f {
									t.Fail("%d sources, %d of them excluded: %q is archived as %s", n, cut, f, q(g.content))
									return
								}
								b, err := os.ReadFile("w/dir/" + f)
								if (err == nil) != (i < cut || !m.move) || err == nil && string(b) != f {
									t.Fail("%d sources, %d of them excluded: afterwards %q is there: %v", n, cut, f, err == nil)
									return
								}
							}
							if len(got) != n-cut+dirs {
								t.Fail("%d sources, %d of them excluded: %d entries", n, cut, len(got))
								return
							}
						}
					})
				}
			}
			_ = sort.Strings
		},
	})
}
