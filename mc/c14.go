package main

import (
	"fmt"
	"os"
	"strings"

	lha "github.com/jeromelesaux/lha"
)

// The model of the overwrite dialogue. Each entry in order: a missing file is
// written; an existing one is written if force is set or was answered "all",
// left if "skip" was answered before; else the question is asked, again after
// an answer it does not know, and no input counts as no.
type askModel struct {
	force, skip bool
	answers     []string
}

func (m *askModel) next() string {
	if len(m.answers) == 0 {
		return ""
	}
	a := m.answers[0]
	m.answers = m.answers[1:]
	return a
}

func (m *askModel) write(exists bool) bool {
	if !exists || m.force {
		return true
	}
	if m.skip {
		return false
	}
	for {
		a := m.next()
		if a == "" {
			return false
		}
		switch a[0] {
		case 'y', 'Y':
			return true
		case 'n', 'N', '\n':
			return false
		case 'a', 'A':
			m.force = true
			return true
		case 's', 'S':
			m.skip = true
			return false
		}
	}
}

func init() {
	register(&Prop{
		ID:        "C14",
		Technique: "bounded exhaustive exploration of the dialogue: every sequence of answers up to the bound, every set of existing files and every option is run on the real extraction with scripted input and compared with a state-machine model, file by file",
		Level:     "model_checking",
		Rule:      "state = distinct (existing files, options, answers); transition = one entry met by the extraction; trace = one dialogue replayed against the code",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "archives of 3 entries x 8 sets of existing files x force x every answer sequence of length 0..3 over {y n a s empty ?}, and every single answer over 14 words in upper and lower case, with and without final end of line; every first byte of an answer; archives of 4 entries x 16 sets x every sequence of 4 answers over {y n a s}; links and empty files among the entries; read-only existing files; empty, long and identical existing files; two extractions in a row by one object; links and directories in the way, also after everything is skipped; through the extraction command, Decompress and the built program; dry runs",
			"thorough": "answer sequences of length 4 over the 6 answers for 4 entries with all 16 sets and both force settings; of length 5 over {y n a s} for 5 entries",
		},
		Explore: func(c *Ctx) {
			// entries: f0.. with a link among them if asked
			ents := func(n int, link int) []*Ent {
				var es []*Ent
				for i := 0; i < n; i++ {
					e := sample(allMethods[(i*5)%len(allMethods)], i)
					e.Name = fmt.Sprintf("f%d", i)
					e.Level = i % 3
					e.Mode = 0644
					if link == -2-i || link == -100 {
						e.Method, e.Content, e.Packed = "-lh0-", []byte{}, []byte{}
					}
					if i == link {
						e = &Ent{Name: e.Name, Kind: 'l', Link: fmt.Sprintf("target%d", i), Level: 2}
					}
					es = append(es, e)
				}
				return es
			}
			shape := 0 // of the existing files
			old := func(i int) string {
				switch {
				case shape == 0:
					return fmt.Sprintf("old content of f%d", i)
				case shape == 1: // nothing in it
					return ""
				case i%2 == 0: // what the archive holds, in an older file
					return string(ents(i+1, -1)[i].Content)
				}
				return strings.Repeat("x", 70000)
			}
			// dialogue extracts es and compares.
			dialogue := func(t *T, es []*Ent, mask int, force bool, answers []string, text string, route int, ro bool) {
				fresh("d")
				writeFile("a.lzh", archive(es, true))
				for i := range es {
					if mask>>uint(i)&1 == 1 {
						writeFile(fmt.Sprintf("d/f%d", i), []byte(old(i)))
						tm := int64(500000000 + i)
						must(os.Chtimes(fmt.Sprintf("d/f%d", i), unix(tm), unix(tm)))
						if ro {
							must(os.Chmod(fmt.Sprintf("d/f%d", i), 0400))
						}
					}
				}
				before := snapshot("d", true)
				m := &askModel{force: force, answers: append([]string{}, answers...)}
				t.Traces(1)
				t.Distinct([]byte(fmt.Sprint(len(es), mask, force, route, ro, es[0].Kind, es[1].Kind, shape)), []byte(text))
				var err error
				switch route {
				case 0:
					withStdin(text, func() {
						l := lha.NewLha("a.lzh")
						l.Force = force
						l.ExtractDirectory = "d"
						err = lha.CommandExtract("a.lzh", l)
						if l.Force != force {
							t.Fail("the force option is %v after the extraction", l.Force)
						}
					})
				case 1: // one by one: each a dialogue of its own
					withStdin(text, func() {
						for _, e := range es {
							l := lha.NewLha("a.lzh")
							l.Force = force
							l.ExtractDirectory = "d"
							if x := l.Decompress(namedHeader(e.Name)); x != nil && err == nil {
								err = x
							}
						}
					})
				case 2:
					args := []string{"-e", "-archive", "../a.lzh"}
					if force {
						args = append(args, "-f")
					}
					r := cli(c, "d", text, args...)
					if r.code != 0 || r.timeout {
						err = fmt.Errorf("exit status %d, timeout %v: %s", r.code, r.timeout, r.err)
					}
				}
				if err != nil {
					t.Fail("%v", err)
				}
				for i, e := range es {
					t.Trans(1)
					if route == 1 && i > 0 {
						m.force, m.skip = force, false
					}
					p := fmt.Sprintf("d/f%d", i)
					want := m.write(mask>>uint(i)&1 == 1)
					fi, lerr := os.Lstat(p)
					if lerr != nil {
						t.Fail("f%d is gone", i)
						continue
					}
					if !want {
						if now := snapshot(p, true)["."]; now != before[fmt.Sprintf("f%d", i)] {
							t.Fail("f%d was to be left alone, but %s became %s", i, before[fmt.Sprintf("f%d", i)], now)
						}
						continue
					}
					if e.Kind == 'l' {
						if to, _ := os.Readlink(p); to != e.Link {
							t.Fail("link f%d was to be made, but is %v %q", i, fi.Mode(), to)
						}
						continue
					}
					if b, err := os.ReadFile(p); err != nil || string(b) != string(e.Content) {
						t.Fail("f%d was to be extracted: %v %s", i, err, diff(b, e.Content))
					}
				}
			}
			words := []string{"y\n", "n\n", "a\n", "s\n", "\n", "?\n"}
			lab := func(n, mask int, force bool, s []int, ws []string) func() string {
				s = cp(s)
				return func() string {
					var a []string
					for _, x := range s {
						a = append(a, ws[x])
					}
					return fmt.Sprintf("%d entries, existing %b, force %v, answers %q", n, mask, force, a)
				}
			}
			pick := func(s []int, ws []string) (a []string) {
				for _, x := range s {
					a = append(a, ws[x])
				}
				return
			}
			run := func(n, lo, hi int, ws []string, both bool) {
				seqs(len(ws), lo, hi, func(s []int) {
					for mask := 0; mask < 1<<uint(n); mask++ {
						mask, s := mask, cp(s)
						c.Case(lab(n, mask, false, s, ws), func(t *T) {
							a := pick(s, ws)
							dialogue(t, ents(n, -1), mask, false, a, strings.Join(a, ""), 0, false)
							if both {
								dialogue(t, ents(n, -1), mask, true, a, strings.Join(a, ""), 0, false)
								dialogue(t, ents(n, (len(s)+mask)%n), mask, false, a, strings.Join(a, ""), 0, false)
								dialogue(t, ents(n, -2-(len(s)+mask+1)%n), mask, false, a, strings.Join(a, ""), 0, false)
								dialogue(t, ents(n, -100), mask, false, a, strings.Join(a, ""), len(s)%2, false)
								dialogue(t, ents(n, -1), mask, false, a, strings.Join(a, ""), 1, false)
								dialogue(t, ents(n, -1), mask, false, a, strings.Join(a, ""), 0, true)
								for shape = 1; shape <= 2; shape++ {
									dialogue(t, ents(n, -1), mask, false, a, strings.Join(a, ""), 0, false)
									dialogue(t, ents(n, (len(s)+mask)%n), mask, false, a, strings.Join(a, ""), 0, false)
								}
								shape = 0
							}
						})
					}
				})
			}
			run(3, 0, 3, words, true)
			run(4, 4, 4, words[:4], false)
			if c.Thorough {
				run(4, 0, 4, words, true)
				run(5, 5, 5, words[:4], false)
			}
			// the words for each answer, and the input ending anywhere
			single := []string{"y", "Y", "yes", "YES", "n", "N", "no", "No", "a", "A", "all", "ALL", "s", "S", "skip", "Skip", "", "x", "0", "\t", "?y", "nyes", "yn", "é"}
			for _, w := range single {
				w := w
				c.Case(str("answer %q", w), func(t *T) {
					for mask := 0; mask < 8; mask++ {
						for route := 0; route < 3; route++ {
							// ended by the end of the input
							var a []string
							if w != "" {
								a = []string{w}
							}
							dialogue(t, ents(3, -1), mask, false, a, w, route, false)
							dialogue(t, ents(3, -1), mask, false, []string{w + "\n", "y\n", "n\n"}, w+"\ny\nn\n", route, false)
							dialogue(t, ents(3, -1), mask, false, []string{"n\n", w + "\n", "y\n"}, "n\n"+w+"\ny\n", route, false)
							dialogue(t, ents(3, 1), mask, false, []string{"y\n", w + "\n"}, "y\n"+w+"\n", route, false)
						}
					}
				})
			}
			// every first byte: only y, Y, a and A are a yes
			for b := 0; b < 256; b++ {
				b := b
				c.Case(str("answer beginning with byte %02x", b), func(t *T) {
					for _, rest := range []string{"", "y", "yes", "a", " y"} {
						w := string([]byte{byte(b)}) + rest
						if b == '\n' {
							w = "\n"
						}
						a := []string{w}
						dialogue(t, ents(2, -1), 1, false, a, w, 0, false)
						dialogue(t, ents(2, -1), 3, false, a, w, 0, false)
						if b == '\n' {
							break
						}
						dialogue(t, ents(2, 1), 3, false, []string{w + "\n"}, w+"\n", 0, false)
						dialogue(t, ents(2, -1), 3, false, []string{w + "\n", "y\n"}, w+"\ny\n", b%2, false)
					}
				})
			}
			// the program
			seqs(4, 0, 2, func(s []int) {
				for mask := 1; mask < 8; mask++ {
					mask, s := mask, cp(s)
					c.Case(func() string { return "program: " + lab(3, mask, false, s, words)() }, func(t *T) {
						a := pick(s, words)
						dialogue(t, ents(3, -1), mask, false, a, strings.Join(a, ""), 2, false)
						dialogue(t, ents(3, mask%3), mask, true, a, strings.Join(a, ""), 2, true)
					})
				}
			})
			// the answers end with the extraction: one object, twice
			for _, w := range []string{"a\n", "s\n", "y\n", "n\n"} {
				for mask := 0; mask < 8; mask++ {
					w, mask := w, mask
					c.Case(str("two extractions by one object, first answered %q, existing %b", w, mask), func(t *T) {
						es := ents(3, -1)
						writeFile("a.lzh", archive(es, true))
						for _, second := range []string{"", "n\n", "y\n", "a\n", "s\n"} {
							fresh("d")
							for i := range es {
								writeFile(fmt.Sprintf("d/f%d", i), []byte(old(i)))
							}
							l := lha.NewLha("a.lzh")
							l.ExtractDirectory = "d"
							t.Traces(1)
							t.Trans(2)
							t.Distinct([]byte("twice"), []byte(w), []byte(second), []byte{byte(mask)})
							withStdin(w, func() { lha.CommandExtract("a.lzh", l) })
							fresh("e")
							for i := range es {
								if mask>>uint(i)&1 == 1 {
									writeFile(fmt.Sprintf("e/f%d", i), []byte(old(i)))
								}
							}
							l.ExtractDirectory = "e"
							var err error
							withStdin(second, func() { err = lha.CommandExtract("a.lzh", l) })
							if err != nil {
								t.Fail("second: %v", err)
							}
							m := &askModel{}
							if second != "" {
								m.answers = []string{second}
							}
							for i, e := range es {
								ex := mask>>uint(i)&1 == 1
								want := string(e.Content)
								if !m.write(ex) {
									want = old(i)
								}
								if b, err := os.ReadFile(fmt.Sprintf("e/f%d", i)); err != nil || string(b) != want {
									t.Fail("first %q, second %q: f%d is %v %s", w, second, i, err, q(b))
								}
							}
						}
					})
				}
			}
			// skipping everything leaves alone what is no regular file as well
			for kind := 0; kind < 3; kind++ {
				for at := 1; at < 4; at++ {
					for link := -1; link < 4; link++ {
						kind, at, link := kind, at, link
						c.Case(str("skip all, then %s before entry %d, link %d", []string{"directory", "link", "dangling link"}[kind], at, link), func(t *T) {
							for first := 0; first < at; first++ {
								for _, ans := range []string{"s\n", "S\n", "skip\n", "s", "s\ny\ny\ny\n", "s\na\n"} {
									fresh("d")
									fresh("out")
									writeFile("out/x", []byte("outside"))
									writeFile(fmt.Sprintf("d/f%d", first), []byte("there"))
									p := fmt.Sprintf("d/f%d", at)
									switch kind {
									case 0:
										must(os.Mkdir(p, 0755))
										writeFile(p+"/in", []byte("inside"))
									case 1:
										must(os.Symlink("../out/x", p))
									case 2:
										must(os.Symlink("../out/none", p))
									}
									before := snapshot("d", false)
									writeFile("a.lzh", archive(ents(4, link), true))
									t.Traces(1)
									t.Trans(1)
									t.Distinct([]byte("skipway"), []byte(ans), []byte{byte(kind), byte(link + 1), byte(at), byte(first)})
									withStdin(ans, func() {
										l := lha.NewLha("a.lzh")
										l.ExtractDirectory = "d"
										lha.CommandExtract("a.lzh", l)
									})
									after := snapshot("d", false)
									for k, v := range before {
										if after[k] != v {
											t.Fail("answers %q: %q was %s, is %s", ans, k, v, after[k])
										}
									}
									if string(readFile("out/x")) != "outside" {
										t.Fail("answers %q: written through the link", ans)
									}
									if _, err := os.Lstat("out/none"); err == nil {
										t.Fail("answers %q: created through the link", ans)
									}
									if t.Failed() {
										return
									}
								}
							}
						})
					}
				}
			}
			// what is in the way is not a regular file: never destroyed without force
			for kind := 0; kind < 3; kind++ {
				kind := kind
				c.Case(str("something else in the way: %s", []string{"directory", "link", "dangling link"}[kind]), func(t *T) {
					for _, ans := range []string{"", "y\n", "a\n", "n\n", "y\ny\ny\n"} {
						for _, link := range []int{-1, 0} {
							fresh("d")
							fresh("out")
							writeFile("out/x", []byte("outside"))
							switch kind {
							case 0:
								must(os.Mkdir("d/f0", 0755))
								writeFile("d/f0/in", []byte("inside"))
							case 1:
								must(os.Symlink("../out/x", "d/f0"))
							case 2:
								must(os.Symlink("../out/none", "d/f0"))
							}
							es := ents(2, link)
							writeFile("a.lzh", archive(es[:1], true))
							before := snapshot("d", false)
							t.Traces(1)
							t.Trans(1)
							t.Distinct([]byte("way"), []byte(ans), []byte{byte(kind), byte(link + 1)})
							withStdin(ans, func() {
								l := lha.NewLha("a.lzh")
								l.ExtractDirectory = "d"
								lha.CommandExtract("a.lzh", l)
							})
							if ans == "" || ans == "n\n" || kind == 0 {
								if d := snapDiff(before, snapshot("d", false)); d != "" {
									t.Fail("answers %q: %s", ans, d)
								}
							}
							if string(readFile("out/x")) != "outside" {
								t.Fail("answers %q: written through the link", ans)
							}
						}
					}
				})
			}
		},
	})
}
