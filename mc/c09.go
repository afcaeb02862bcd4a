package main

import (
	"bytes"
	"fmt"
	"os"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// checkEntries: the archive holds exactly these entries.
func checkEntries(t *T, what string, es []*Ent, b []byte, disk bool) {
	writeFile("a.lzh", b)
	t.Traces(1)
	t.Distinct(b)
	ms, _, err := ref.ParseArchive(b)
	if err != nil || len(ms) != len(es) {
		panic(fmt.Sprintf("harness: %v, %d entries", err, len(ms)))
	}
	hs, err := lha.NewLha("a.lzh").Headers()
	t.Trans(1)
	if err != nil {
		t.Fail("%s: header retrieval: %v", what, err)
		return
	}
	if len(hs) != len(es) {
		t.Fail("%s: %d entries listed instead of %d", what, len(hs), len(es))
		return
	}
	for i, h := range hs {
		if s := headerDiff(h, ms[i]); s != "" {
			t.Fail("%s: entry %d: %s", what, i, s)
			return
		}
	}
	// header retrieval lists all of them whatever is selected or not executed
	for k := 0; k < 4; k++ {
		x := lha.NewLha("a.lzh")
		x.Noexec = k&1 == 1
		if k >= 2 {
			n := es[len(b)%len(es)].Name
			x.CmdFilev, x.CmdFilec = []string{n}, 1
		}
		t.Trans(1)
		hk, err := x.Headers()
		if err != nil || len(hk) != len(es) {
			t.Fail("%s: header retrieval (no execution %v, selection %q): %d entries, %v", what, x.Noexec, x.CmdFilev, len(hk), err)
			return
		}
		for i, h := range hk {
			if s := headerDiff(h, ms[i]); s != "" {
				t.Fail("%s: header retrieval (no execution %v, selection %q): entry %d: %s", what, x.Noexec, x.CmdFilev, i, s)
				return
			}
		}
		if x.CmdFilec == 0 != (k < 2) {
			t.Fail("%s: header retrieval changes the selection", what)
		}
	}
	// in both orders, each with a reader of its own and with a common one
	l := lha.NewLha("a.lzh")
	for k := 0; k < 2*len(es); k++ {
		i := k
		if k >= len(es) {
			i = 2*len(es) - 1 - k
		}
		e := es[i]
		x := l
		if k%2 == 1 {
			x = lha.NewLha("a.lzh")
		}
		t.Trans(1)
		out, err := x.DecompresBytes(hs[i])
		if e.Kind == 'd' {
			continue // it has no content
		}
		if err != nil {
			t.Fail("%s: entry %d (%s %q level %d): %v", what, i, e.Method, e.Name, e.Level, err)
			return
		}
		if s := diff(out, e.Content); s != "" {
			t.Fail("%s: entry %d (%s %q level %d): %s", what, i, e.Method, e.Name, e.Level, s)
			return
		}
	}
	if disk || len(es) > 60 {
		checkSelected(t, what, es, b)
	}
	if disk {
		os.Mkdir("xo", 0755)
		for i, e := range es {
			if e.Kind == 'd' {
				continue
			}
			p := "xo/" + base(e.Name)
			os.Remove(p)
			x := lha.NewLha("a.lzh")
			x.ExtractDirectory = "xo"
			t.Trans(1)
			if err := x.Decompress(hs[i]); err != nil {
				t.Fail("%s: entry %d to disk: %v", what, i, err)
				return
			}
			lha.VerifyMode = true
			verr := x.Decompress(hs[i])
			lha.VerifyMode = false
			if verr != nil {
				t.Fail("%s: test of entry %d: %v", what, i, verr)
				return
			}
			out, err := os.ReadFile(p)
			if err != nil {
				t.Fail("%s: entry %d to disk: %v", what, i, err)
				return
			}
			if s := diff(out, e.Content); s != "" {
				t.Fail("%s: entry %d to disk: %s", what, i, s)
				return
			}
			os.Remove(p)
			if ds, _ := os.ReadDir("xo"); len(ds) != 0 {
				t.Fail("%s: extracting entry %d also leaves %s", what, i, ds[0].Name())
				rmTree("xo")
				return
			}
		}
	}
}

// checkSelected: extracting, testing and printing all entries or some of them.
func checkSelected(t *T, what string, es []*Ent, b []byte) {
	writeFile("a.lzh", b)
	saveQ, saveV := lha.Quiet, lha.VerifyMode
	defer func() { lha.Quiet, lha.VerifyMode = saveQ, saveV }()
	lha.Quiet = true
	all := make([]string, len(es))
	for i, e := range es {
		all[i] = e.Name
	}
	k := len(b) % len(es)
	for _, sel := range [][]string{nil, {all[k]}, append(append([]string{"none"}, all[:k]...), all[k+1:]...), all} {
		is := func(n string) bool {
			for _, x := range sel {
				if x == n {
					return true
				}
			}
			return sel == nil
		}
		run := func(set func(l *lha.Lha)) error {
			t.Trans(1)
			l := lha.NewLha("a.lzh")
			l.CmdFilev, l.CmdFilec = sel, len(sel)
			l.Force = true
			set(l)
			return lha.CommandExtract("a.lzh", l)
		}
		n := len(sel)
		if sel == nil {
			n = len(es)
		}
		lha.VerifyMode = true
		err := run(func(*lha.Lha) {})
		lha.VerifyMode = false
		if err != nil {
			t.Fail("%s: test of %d names: %v", what, n, err)
			return
		}
		var want []byte
		files := map[string]string{}
		for _, e := range es {
			if is(e.Name) {
				if e.Kind == 'd' {
					files[base(e.Name)] = "directory"
				} else {
					files[base(e.Name)] = string(e.Content)
					want = append(want, e.Content...)
				}
			}
		}
		out := withStdout(func() { err = run(func(l *lha.Lha) { l.OutputToStdout = true }) })
		if err != nil || !bytes.Equal(out, want) {
			t.Fail("%s: %d names printed: %v, %s", what, n, err, diff(out, want))
			return
		}
		fresh("xs")
		if err := run(func(l *lha.Lha) { l.ExtractDirectory = "xs" }); err != nil {
			t.Fail("%s: extraction of %d names: %v", what, n, err)
			return
		}
		ds, _ := os.ReadDir("xs")
		if len(ds) != len(files) {
			t.Fail("%s: %d names selected, %d extracted", what, len(files), len(ds))
			return
		}
		for f, w := range files {
			got := "directory"
			if fi, err := os.Lstat("xs/" + f); err != nil || !fi.IsDir() {
				got = string(readFile("xs/" + f))
			}
			if got != w {
				t.Fail("%s: %d names extracted, %q: %s", what, n, f, diff([]byte(got), []byte(w)))
				return
			}
		}
	}
}

func base(s string) string {
	for len(s) > 0 && s[len(s)-1] == '/' {
		s = s[:len(s)-1]
	}
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

func init() {
	// kinds of entries: every method, a directory, empty contents, one byte
	kind := func(k, seed int) *Ent {
		ms := append(append([]string{}, allMethods...), "-lhd-")
		if k < len(ms) {
			return sample(ms[k], seed)
		}
		switch k - len(ms) {
		case 0:
			return &Ent{Method: "-lh0-", Time: 1}
		case 1:
			return &Ent{Method: "-lh5-", Time: 1}
		case 2, 3, 4: // empty, although there is packed data
			return &Ent{Method: []string{"-lh5-", "-lh1-", "-lh0-"}[k-len(ms)-2], Packed: []byte{0, 0, 5, 3}[:k-len(ms)], Time: 1}
		default:
			return &Ent{Method: "-lh0-", Content: []byte{0}, Packed: []byte{0}, Time: 1}
		}
	}
	const nk = 20
	register(&Prop{
		ID:        "C09",
		Technique: "bounded exhaustive exploration: every sequence of entry kinds up to the bound is built by the model of the format and read through header retrieval, both decompression routes in both orders, and extraction, test and printing of all and of selected entries",
		Level:     "model_checking",
		Rule:      "state = distinct archive; transition = one header retrieval, decompression or command; trace = one archive replayed against the code",
		Bounds: map[string]string{
			"quick":    "20 kinds of entries (13 methods, directory, empty stored, empty compressed, empty with packed data, one zero byte) x 4 header levels: every archive of 1 and 2 entries; every archive of 3 entries with rotating levels; name sets sharing prefixes and base names; 1-3 bytes left over in the packed data of any of two entries; end mark, none, and trailing bytes after it; up to 400 entries; entries of 2 KB to 1.1 MB around buffer sizes, stored and compressed, at each position; commands on all entries, one, all but one, and all by name",
			"thorough": "every archive of 3 entries x 4 level rotations x end variants, every archive of 4 entries over 8 kinds",
		},
		Explore: func(c *Ctx) {
			ends := [][]byte{{0}, nil, {0, 1, 2, 3, 'x'}, {0, 0}, append([]byte{0}, sample("-lh5-", 1).Bytes()...)}
			build := func(ks []int, lv func(i int) int, names []string) []*Ent {
				var es []*Ent
				for i, k := range ks {
					e := kind(k, i*3+k)
					e.Level = lv(i)
					e.Name = names[i]
					if e.Kind == 'd' {
						e.Name += "/"
					}
					if (i+k)%3 == 0 {
						e.Mode, e.UID, e.GID = 0600+i, 7, 8
					}
					es = append(es, e)
				}
				return es
			}
			plain := []string{"one", "two", "three", "four", "five"}
			for k := 0; k < nk; k++ {
				for l := 0; l < 4; l++ {
					k, l := k, l
					c.Case(str("entry kind %d level %d", k, l), func(t *T) {
						es := build([]int{k}, func(int) int { return l }, plain)
						for _, end := range ends {
							checkEntries(t, "alone", es, append(archive(es, false), end...), true)
						}
					})
				}
			}
			for k := 0; k < nk; k++ {
				for l := 0; l < 4; l++ {
					for k2 := 0; k2 < nk; k2++ {
						k, l, k2 := k, l, k2
						c.Case(str("entry kinds %d,%d level %d,*", k, k2, l), func(t *T) {
							for l2 := 0; l2 < 4; l2++ {
								es := build([]int{k, k2}, func(i int) int { return []int{l, l2}[i] }, plain)
								checkEntries(t, fmt.Sprintf("level %d", l2), es, append(archive(es, false), ends[(k+k2+l2)%len(ends)]...), true)
							}
						})
					}
				}
			}
			// bytes left over at the end of the packed data
			for k := 0; k < nk; k++ {
				for k2 := 0; k2 < nk; k2++ {
					k, k2 := k, k2
					c.Case(str("entry kinds %d,%d with bytes left over", k, k2), func(t *T) {
						for slack := 1; slack < 4; slack++ {
							for at := 0; at < 2; at++ {
								l := (k + k2 + slack) % 4
								es := build([]int{k, k2, 5}, func(i int) int { return (l + i) % 4 }, plain)
								if e := es[at]; e.Kind == 0 && len(e.Content) > 0 {
									e.Packed = append(append([]byte{}, e.Packed...), []byte{0x2d, 0, 0xff}[:slack]...)
									checkEntries(t, fmt.Sprintf("%d bytes left over in entry %d", slack, at), es, archive(es, true), slack == 1)
								}
							}
						}
					})
				}
			}
			seqs(nk, 3, 3, func(s []int) {
				s = cp(s)
				c.Case(str("entry kinds %v", s), func(t *T) {
					rot := 1
					if c.Thorough {
						rot = 4
					}
					for r := 0; r < rot; r++ {
						es := build(s, func(i int) int { return (i + r + s[0]) % 4 }, plain)
						checkEntries(t, "three", es, append(archive(es, false), ends[(s[1]+r)%len(ends)]...), r == 0 && s[2]%4 == 0)
					}
				})
			})
			if c.Thorough {
				sub := []int{0, 1, 3, 5, 8, 12, 13, 15}
				seqs(len(sub), 4, 4, func(s []int) {
					s = cp(s)
					c.Case(str("entry kinds of 8: %v", s), func(t *T) {
						var ks []int
						for _, x := range s {
							ks = append(ks, sub[x])
						}
						es := build(ks, func(i int) int { return (i*3 + s[1]) % 4 }, plain)
						checkEntries(t, "four", es, archive(es, s[0]%2 == 0), false)
					})
				})
			}
			// names that are close to each other
			names := []string{"f", "F", "f.", "ff", "d/f", "d/ff", "e/f", "d/e/f", "f f", "g"}
			for i := range names {
				for j := range names {
					for k := range names {
						if i == j || j == k || i == k {
							continue
						}
						i, j, k := i, j, k
						c.Case(str("names %q %q %q", names[i], names[j], names[k]), func(t *T) {
							for l := 0; l < 4; l++ {
								es := build([]int{5, 0, 1}, func(x int) int { return (l + x) % 4 }, []string{names[i], names[j], names[k]})
								checkEntries(t, "names", es, archive(es, true), l == 0)
							}
						})
					}
				}
			}
			for _, n := range []int{10, 63, 64, 65, 255, 256, 257, 400} {
				n := n
				c.Case(str("%d entries", n), func(t *T) {
					var es []*Ent
					for i := 0; i < n; i++ {
						e := kind(i%nk, i)
						e.Level = i % 4
						e.Name = fmt.Sprintf("n%d", i)
						es = append(es, e)
					}
					checkEntries(t, "many", es, archive(es, true), n < 70)
				})
			}
			// large entries, around the sizes of the buffers, among others
			for i, n := range append(around(2048, 4096, 32768, 65536, 131072), 70000, 200000, 1100000) {
				i, n := i, n
				c.Case(str("entry of %d bytes", n), func(t *T) {
					for at := 0; at < 3; at++ {
						for v := 0; v < 2; v++ {
							es := build([]int{5, 1, 0}, func(x int) int { return (i + at + x) % 4 }, plain)
							if v == 0 {
								es[at].Method = []string{"-lh0-", "-lz4-", "-pm0-"}[(i+at)%3]
								es[at].Content = unique(n, 251, 3)
								es[at].Packed = es[at].Content
							} else {
								m := []string{"-lh5-", "-lh6-", "-lh7-", "-lh1-"}[(i+at)%4]
								if b := packWith(m, skew(n, 200, uint32(n+at))); b != nil {
									es[at].Method, es[at].Content, es[at].Packed = m, b.Content, b.Packed
								}
							}
							checkEntries(t, fmt.Sprintf("large entry %d", at), es, archive(es, at == 1), v == 0)
						}
					}
				})
			}
			// a name that is not there
			c.Case(str("missing names"), func(t *T) {
				es := build([]int{0, 5, 1}, func(i int) int { return i }, []string{"a", "b", "dir/c"})
				writeFile("a.lzh", archive(es, true))
				for _, n := range []string{"", "c", "A", "a ", "aa", "dir", "dir/", "dir/cc", "b\x01"} {
					t.Traces(1)
					t.Trans(2)
					t.Distinct([]byte(n), []byte("missing"))
					if b, err := lha.NewLha("a.lzh").DecompresBytes(namedHeader(n)); err == nil {
						t.Fail("%q: %d bytes for a name that is not there", n, len(b))
					}
					l := lha.NewLha("a.lzh")
					l.ExtractDirectory = fresh("xm")
					if err := l.Decompress(namedHeader(n)); err == nil {
						t.Fail("%q: extracted though not there", n)
					}
					if d, _ := os.ReadDir("xm"); len(d) != 0 {
						t.Fail("%q: extracting it leaves %s", n, d[0].Name())
					}
				}
			})
			_ = bytes.Equal
		},
	})
}
