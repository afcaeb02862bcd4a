package main

import (
	"fmt"
	"os"
	"strings"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

func ratio(packed, orig int) string {
	if orig == 0 {
		return "******"
	}
	return fmt.Sprintf("%.1f%%", float64(packed)*100/float64(orig))
}

func permText(mode int) string {
	b := []byte("-rwxrwxrwx")
	for i := 0; i < 9; i++ {
		if mode>>uint(8-i)&1 == 0 {
			b[1+i] = '-'
		}
	}
	if mode&04000 != 0 {
		b[3] = 's'
	}
	if mode&02000 != 0 {
		b[6] = 's'
	}
	if mode&01000 != 0 {
		b[9] = 't'
	}
	switch mode & 0170000 {
	case 0040000:
		b[0] = 'd'
	case 0120000:
		b[0] = 'l'
	}
	return string(b)
}

// oskText: permissions of OS-9/68K
func oskText(mode int) string {
	b := []byte("dsewrewr")
	for i := range b {
		if mode>>uint(7-i)&1 == 0 {
			b[i] = '-'
		}
	}
	return string(b)
}

var systems = map[byte]string{0: "[generic]", 'C': "[CP/M]", 'F': "[FLEX]", '9': "[OS-9]", 'M': "[MS-DOS]", 'm': "[Mac OS]", '2': "[OS/2]",
	'H': "[Human68K]", '3': "[OS-386]", 'R': "[Runser]", 'T': "[TownsOS]", 'J': "[JAVA]"}

func cut5(s string) string {
	if len(s) > 5 {
		return s[:5]
	}
	return s
}

// checkListing compares the printed lines with the entries: the words of each
// line count, not the spaces between them.
func checkListing(t *T, what, out string, ms []*ref.Entry, lv, v, quiet bool) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if out == "" {
		lines = nil
	}
	if !quiet {
		if len(lines) < 4 {
			t.Fail("%s: %d lines only", what, len(lines))
			return
		}
		lines = lines[2:] // titles
	}
	next := func() (string, bool) {
		if len(lines) == 0 {
			return "", false
		}
		l := lines[0]
		lines = lines[1:]
		return l, true
	}
	var np, no int
	for i, m := range ms {
		name := m.Name
		if m.Mode&0170000 == 0120000 {
			name += " -> " + m.Link
		}
		if v {
			l, ok := next()
			if !ok || l != name {
				t.Fail("%s: entry %d: name line %q instead of %q", what, i, l, name)
				return
			}
		}
		l, ok := next()
		if !ok {
			t.Fail("%s: entry %d is not listed", what, i)
			return
		}
		var want []string
		if lv {
			want = append(want, fmt.Sprint(m.Packed))
		}
		want = append(want, fmt.Sprint(m.Orig), ratio(int(m.Packed), int(m.Orig)))
		if lv {
			crc := "****"
			if m.Crc >= 0 {
				crc = fmt.Sprintf("%04x", m.Crc)
			}
			want = append(want, m.Method, crc)
		}
		rest := l
		if m.OS == 'U' || m.OS == 'K' || m.OS == 'X' {
			u, g := fmt.Sprint(m.UID), fmt.Sprint(m.GID)
			if m.User != "" {
				u = cut5(m.User)
			}
			if m.Group != "" {
				g = cut5(m.Group)
			}
			// blanks may separate the owner from what precedes it
			p := permText(int(m.Mode)) + " "
			if m.OS != 'U' {
				p = oskText(int(m.Mode)) + " "
			}
			if !strings.HasPrefix(rest, p) {
				t.Fail("%s: entry %d: %q does not start with the permissions %q", what, i, l, p)
				return
			}
			rest = strings.TrimLeft(rest[len(p):], " ")
			if !strings.HasPrefix(rest, u+"/"+g+" ") {
				t.Fail("%s: entry %d: %q does not show the owner %s/%s", what, i, l, u, g)
				return
			}
			rest = rest[len(u)+1+len(g):]
		} else {
			sys, ok := systems[m.OS]
			if !ok {
				sys = "[unknown]"
			}
			if !strings.HasPrefix(rest, sys+" ") {
				t.Fail("%s: entry %d: %q does not start with the system %q", what, i, l, sys)
				return
			}
			rest = rest[len(sys):]
		}
		for _, w := range want {
			rest = strings.TrimLeft(rest, " ")
			if !strings.HasPrefix(rest, w+" ") && rest != w {
				t.Fail("%s: entry %d: %q, expected the words %q", what, i, l, want)
				return
			}
			rest = rest[len(w):]
		}
		if v {
			if strings.TrimSpace(rest) != fmt.Sprintf("[%d]", m.Level) {
				t.Fail("%s: entry %d: %q does not end with the level %d", what, i, l, m.Level)
				return
			}
		} else if strings.TrimLeft(rest, " ") != strings.TrimLeft(name, " ") || !strings.HasSuffix(rest, " "+name) {
			t.Fail("%s: entry %d: %q does not end with the name %q", what, i, l, name)
			return
		}
		np += int(m.Packed)
		no += int(m.Orig)
	}
	if !quiet {
		if len(lines) != 2 {
			t.Fail("%s: %d lines after the entries: %q", what, len(lines), lines)
			return
		}
		f := strings.Fields(lines[1])
		want := []string{"Total", fmt.Sprint(len(ms)), "files"}
		if len(ms) == 1 {
			want[2] = "file"
		}
		if lv {
			want = append(want, fmt.Sprint(np))
		}
		want = append(want, fmt.Sprint(no), ratio(np, no))
		if fmt.Sprint(f) != fmt.Sprint(want) {
			t.Fail("%s: the last line is %q instead of %q", what, f, want)
		}
	} else if len(lines) != 0 {
		t.Fail("%s: %d lines too many", what, len(lines))
	}
}

func init() {
	register(&Prop{
		ID:        "C18",
		Technique: "bounded exhaustive exploration: archives over entry kinds, header levels and attribute values are built by the model of the format and listed by the real code under every listing option; every printed line and the totals are compared with the model",
		Level:     "model_checking",
		Rule:      "state = distinct (archive, options, selection); transition = one listing; trace = one listing compared line by line",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "4 listings (plain, verbose, with names apart, both) x quiet: 17 kinds of entries at 4 header levels, alone, every pair and every triple with rotating levels; every mode 0000-7777 of files, directories and links; 21 system identifiers; numeric and named owners; sizes of 1 to 9 digits; names with spaces, directories and up to 200 bytes; every subset of 4 selected names; many selected names; archives without end mark; damaged archives; the program",
			"thorough": "every triple x 4 level rotations, every quadruple of 8 kinds, every mode under every listing",
		},
		Explore: func(c *Ctx) {
			list := func(t *T, what string, arc []byte, sel []string) {
				ms, _, err := ref.ParseArchive(arc)
				must(err)
				writeFile("a.lzh", arc)
				if sel != nil {
					var x []*ref.Entry
					for _, m := range ms {
						if contains(sel, m.Name) {
							x = append(x, m)
						}
					}
					ms = x
				}
				for o := 0; o < 8; o++ {
					lv, v, quiet := o&1 != 0, o&2 != 0, o&4 != 0
					if quiet && len(arc)%3 != 0 {
						continue
					}
					l := lha.NewLha("a.lzh")
					l.VerboseListing, l.Verbose = lv, v
					lha.Quiet = quiet
					if sel != nil {
						l.CmdFilev, l.CmdFilec = sel, len(sel)
					}
					var err error
					out := withStdout(func() { err = lha.CommandList("a.lzh", l) })
					lha.Quiet = false
					t.Trans(1)
					t.Traces(1)
					t.Distinct(arc, []byte{byte(o)}, []byte(fmt.Sprint(sel)))
					if err != nil {
						t.Fail("%s: %v", what, err)
						return
					}
					checkListing(t, fmt.Sprintf("%s, verbose %v, names apart %v", what, lv, v), string(out), ms, lv, v, quiet)
					if t.Failed() {
						return
					}
				}
			}
			kind := func(k, seed int) *Ent {
				ms := append(append([]string{}, allMethods...), "-lhd-")
				if k < len(ms) {
					return sample(ms[k], seed)
				}
				switch k - len(ms) {
				case 0:
					return &Ent{Method: "-lh5-"}
				case 1:
					return &Ent{Kind: 'l', Link: "where it goes", Level: 2}
				default:
					return &Ent{Method: "-lh0-", Content: []byte{0}, Packed: []byte{0}}
				}
			}
			const nk = 17
			names := []string{"one", "two words", "d/e/three", "x"}
			build := func(s []int, rot int) []byte {
				var es []*Ent
				for i, k := range s {
					e := kind(k, i+k)
					e.Name, e.Level = names[i], (rot+i)%4
					if e.Kind == 'd' {
						e.Name += "/"
					}
					if (k+i)%2 == 0 {
						e.Mode, e.UID, e.GID = 0640+i, 500+i, 20
					}
					es = append(es, e)
				}
				return archive(es, (rot+len(s))%2 == 0)
			}
			for lv := 0; lv < 4; lv++ {
				lv := lv
				c.Case(str("empty archive %d", lv), func(t *T) { list(t, "empty", [][]byte{nil, {0}, {0, 0}, {0, 1, 2}}[lv], nil) })
			}
			seqs(nk, 1, 2, func(s []int) {
				s = cp(s)
				c.Case(str("kinds %v", s), func(t *T) {
					for r := 0; r < 4; r++ {
						list(t, fmt.Sprintf("rotation %d", r), build(s, r), nil)
					}
				})
			})
			seqs(nk, 3, 3, func(s []int) {
				s = cp(s)
				c.Case(str("kinds %v", s), func(t *T) {
					for r := 0; r < 4; r++ {
						if c.Thorough || r == (s[0]+s[1]+s[2])%4 {
							list(t, fmt.Sprintf("rotation %d", r), build(s, r), nil)
						}
					}
				})
			})
			if c.Thorough {
				sub := []int{0, 1, 5, 12, 13, 14, 15, 16}
				seqs(8, 4, 4, func(s []int) {
					s = cp(s)
					c.Case(str("kinds of 8 %v", s), func(t *T) {
						var ks []int
						for _, x := range s {
							ks = append(ks, sub[x])
						}
						list(t, "four", build(ks, s[0]), nil)
					})
				})
			}
			// modes
			for hi := 0; hi < 64; hi++ {
				hi := hi
				c.Case(str("modes %02o00-%02o77", hi, hi), func(t *T) {
					for m := hi * 64; m < hi*64+64; m++ {
						for _, k := range []byte{0, 'd', 'l'} {
							e := &Ent{Method: "-lh0-", Name: "f", Kind: k, Link: "to", Mode: m, OS: 'U', Level: m % 4, UID: m, GID: 65535 - m}
							if k == 'l' {
								e.Mode = m // 0777 is added
							}
							arc := archive([]*Ent{e}, true)
							if c.Thorough {
								list(t, fmt.Sprintf("mode %o kind %q", m, k), arc, nil)
								continue
							}
							ms, _, err := ref.ParseArchive(arc)
							must(err)
							writeFile("a.lzh", arc)
							l := lha.NewLha("a.lzh")
							l.VerboseListing = m%2 == 0
							out := withStdout(func() { err = lha.CommandList("a.lzh", l) })
							t.Trans(1)
							t.Traces(1)
							t.Distinct(arc)
							if err != nil {
								t.Fail("mode %o: %v", m, err)
							}
							checkListing(t, fmt.Sprintf("mode %o kind %q", m, k), string(out), ms, m%2 == 0, false, false)
						}
						if t.Failed() {
							return
						}
					}
				})
			}
			// owners
			users := []string{"", "a", "user", "fiver", "sixers", "a longer name"}
			for ui, u := range users {
				for gi, g := range users {
					for _, ids := range [][2]int{{0, 0}, {1, 2}, {501, 20}, {65535, 65535}, {9999, 12345}} {
						u, g, ids, n := u, g, ids, ui+gi
						c.Case(str("owner %q %q %v", u, g, ids), func(t *T) {
							for lv := 1; lv < 4; lv++ {
								e := sample("-lh5-", n)
								e.Name, e.Level, e.Mode, e.UID, e.GID = "f", lv, 0644, ids[0], ids[1]
								h := e.header()
								h.OS = []byte{'U', 'K', 'X'}[n%3]
								if g != "" {
									h.Exts = append(h.Exts, ref.Ext{Type: 0x52, Data: []byte(g)})
								}
								if u != "" {
									h.Exts = append(h.Exts, ref.Ext{Type: 0x53, Data: []byte(u)})
								}
								list(t, "owner", append(append(h.Build(), e.Packed...), 0), nil)
							}
						})
					}
				}
			}
			for _, id := range osIDs {
				id := id
				c.Case(str("system %q", id), func(t *T) {
					for lv := 0; lv < 4; lv++ {
						e := sample("-lh1-", 4)
						e.Name, e.Level, e.OS = "name", lv, id
						arc := archive([]*Ent{e, e}, true)
						if _, _, err := ref.ParseArchive(arc); err != nil {
							continue
						}
						list(t, fmt.Sprintf("level %d", lv), arc, nil)
					}
				})
			}
			for hi := 0; hi < 16; hi++ {
				hi := hi
				c.Case(str("OS-9/68K modes %02x0-%02xf", hi, hi), func(t *T) {
					for m := hi * 16; m < hi*16+16; m++ {
						for _, id := range []byte{'K', 'X'} {
							e := sample("-lh5-", 3)
							e.Name, e.Level, e.Mode, e.UID, e.GID = "osk", 1+m%3, m|1<<9, m, 3
							h := e.header()
							h.OS = id
							list(t, fmt.Sprintf("mode %x system %q", m, id), append(append(h.Build(), e.Packed...), 0), nil)
						}
					}
				})
			}
			// level 0 headers without a CRC
			for k := 0; k < 8; k++ {
				k := k
				c.Case(str("without CRC %d", k), func(t *T) {
					e := sample(allMethods[k], k)
					e.Name = "bare"
					f := sample("-lh5-", 3)
					f.Name, f.Level = "next", k%4
					h := e.header()
					h.NoCrc, h.Old = true, nil
					list(t, "no CRC", append(append(append(h.Build(), e.Packed...), f.Bytes()...), 0), nil)
				})
			}
			// large files: totals beyond 31 and 32 bits
			big := []uint32{1, 2147483647, 2147483648, 3000000000, 4294967295}
			seqs(len(big), 1, 3, func(s []int) {
				s = cp(s)
				c.Case(str("large files %v", s), func(t *T) {
					for lv := 0; lv < 4; lv++ {
						var arc []byte
						for i, k := range s {
							e := sample("-lh5-", i)
							e.Name, e.Level = names[i], lv
							h := e.header()
							h.Orig = big[k]
							arc = append(append(arc, h.Build()...), e.Packed...)
						}
						list(t, "large", append(arc, 0), nil)
						if len(s) > 1 {
							list(t, "large", append(arc, 0), []string{names[1]})
						}
					}
				})
			})
			// sizes: the data is a hole of the file
			for _, p := range []int{0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 10000000, 40000000} {
				for _, o := range []int{0, 1, 3, 9, 10, 99, 1000, 1001, 9999999, 10000000, 123456789, 2147483647, 2147483648, 4294967295} {
					p, o := p, o
					c.Case(str("sizes %d %d", p, o), func(t *T) {
						e := &Ent{Method: "-lh5-", Name: "f", Level: (p + o) % 4}
						h := e.header()
						h.Packed, h.Orig = uint32(p), uint32(o)
						e2 := sample("-lh0-", 5)
						e2.Name = "g"
						f, err := os.Create("a.lzh")
						must(err)
						f.Write(h.Build())
						f.Seek(int64(p), 1)
						f.Write(append(e2.Bytes(), 0))
						f.Close()
						hs := h.Build()
						m1, _, err := ref.ParseArchive(append(append([]byte{}, hs...), make([]byte, p)...))
						must(err)
						m2, _, err := ref.ParseArchive(append(e2.Bytes(), 0))
						must(err)
						for i := 0; i < 4; i++ {
							l := lha.NewLha("a.lzh")
							l.VerboseListing, l.Verbose = i&1 != 0, i&2 != 0
							out := withStdout(func() { err = lha.CommandList("a.lzh", l) })
							t.Trans(1)
							t.Traces(1)
							t.Distinct(hs, []byte{byte(i)})
							if err != nil {
								t.Fail("%v", err)
								return
							}
							checkListing(t, "sizes", string(out), append(m1, m2...), i&1 != 0, i&2 != 0, false)
						}
						os.Remove("a.lzh")
					})
				}
			}
			// names
			for _, n := range []string{"a", "name.ext", "with space", "  two  spaces  ", "dir/name", "a/b/c/d/e/f/g", "%d%s", "Ünïcode", strings.Repeat("n", 200), "12 34 56.7%", "[1]", "-lh5-", "x -> y", "\ttab"} {
				n := n
				c.Case(str("name %q", n), func(t *T) {
					for lv := 0; lv < 4; lv++ {
						for _, mode := range []int{0, 0644} {
							e := sample("-lh5-", 2)
							e.Name, e.Level, e.Mode = n, lv, mode
							f := sample("-lh0-", 3)
							f.Name = "second"
							list(t, fmt.Sprintf("level %d", lv), archive([]*Ent{e, f, e}, lv%2 == 0), nil)
						}
					}
				})
			}
			for _, n := range []int{2, 10, 100, 1000} {
				n := n
				c.Case(str("%d entries", n), func(t *T) {
					var es []*Ent
					for i := 0; i < n; i++ {
						e := sample(allMethods[i%len(allMethods)], i)
						e.Name, e.Level = fmt.Sprintf("n%d", i), i%4
						es = append(es, e)
					}
					list(t, "many", archive(es, true), nil)
					var sel []string
					for i := n - 1; i >= 0; i-- {
						sel = append(sel, es[i].Name)
					}
					list(t, "many by name", archive(es, true), sel)
					list(t, "many but one by name", archive(es, true), sel[:n-1])
					list(t, "the second half by name", archive(es, true), sel[:(n+1)/2])
				})
			}
			// selections
			for mask := 0; mask < 16; mask++ {
				mask := mask
				c.Case(str("selection %b", mask), func(t *T) {
					var sel []string
					for i, n := range names {
						if mask>>uint(i)&1 == 1 {
							sel = append(sel, n)
						}
					}
					if mask == 0 {
						sel = []string{"nothere"}
					}
					for r := 0; r < 4; r++ {
						list(t, "selection", build([]int{5, 0, 1, 8}, r), sel)
						list(t, "selection and others", build([]int{0, 7, 2, 12}, r), append([]string{"nothere", "three", "words"}, sel...))
					}
				})
			}
			// damaged archives are reported; the entries before the damage are shown
			good := build([]int{5, 0, 1}, 0)
			for n := 1; n < len(good); n++ {
				n := n
				c.Case(str("archive cut to %d bytes", n), func(t *T) {
					ms, _, err := ref.ParseArchive(good[:n])
					writeFile("a.lzh", good[:n])
					var lerr error
					out := withStdout(func() { lerr = lha.CommandList("a.lzh", lha.NewLha("a.lzh")) })
					t.Trans(1)
					t.Traces(1)
					t.Distinct(good[:n])
					if (err == nil) != (lerr == nil) {
						t.Fail("listing answers %v, the model %v", lerr, err)
					} else if err == nil {
						checkListing(t, "cut", string(out), ms, false, false, false)
					}
				})
			}
			// the program
			opts := [][]string{{"-l"}, {"-lv"}, {"-l", "-v"}, {"-lv", "-v"}}
			for k := 0; k < nk; k++ {
				for o := range opts {
					k, o := k, o
					c.Case(str("program %v, kind %d", opts[o], k), func(t *T) {
						arc := build([]int{k, (k + 5) % nk, (k + 11) % nk}, k)
						ms, _, err := ref.ParseArchive(arc)
						must(err)
						writeFile("a.lzh", arc)
						r := cli(c, ".", "", append(append([]string{}, opts[o]...), "-archive", "a.lzh")...)
						t.Trans(1)
						t.Traces(1)
						t.Distinct(arc, []byte{byte(o)}, []byte("program"))
						if r.code != 0 {
							t.Fail("exit status %d: %s", r.code, r.err)
						}
						checkListing(t, "program", r.out, ms, o&1 != 0, o&2 != 0, false)
					})
				}
			}
		},
	})
}
