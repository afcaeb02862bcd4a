package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	lha "github.com/jeromelesaux/lha"
)

// A place to extract to, with things around it which have to stay as they are:
//
//	area/file            area/sib/f  area/sib/d/  area/link -> sib
//	area/up/file         area/up/sib/f
//	area/up/dest/        (the destination)
func makeArea(destKind int) {
	fresh("area")
	for _, d := range []string{"area/sib/d", "area/up/sib", "area/secret"} {
		must(os.MkdirAll(d, 0755))
	}
	for _, f := range []string{"area/file", "area/sib/f", "area/up/file", "area/up/sib/f", "area/a", "area/up/a", "area/secret/a", "area/secret/f"} {
		writeFile(f, []byte("untouched "+f))
		must(os.Chmod(f, 0640))
	}
	must(os.Chmod("area/secret/f", 0755|os.ModeSetuid)) // which any change of its owner would clear
	must(os.Chmod("area/secret", 0700))
	must(os.Symlink("sib", "area/link"))
	d := "area/up/dest"
	if destKind == destMissing {
		return
	}
	must(os.Mkdir(d, 0755))
	switch destKind {
	case destLinks:
		must(os.Symlink("../../secret/f", d+"/a"))   // to a file outside
		must(os.Symlink("../../secret", d+"/b"))     // to a directory outside
		must(os.Symlink("../../secret/new", d+"/c")) // to nothing, outside
	case destHard:
		must(os.Link("area/secret/f", d+"/a"))
		must(os.Mkdir(d+"/b", 0755))
		must(os.Symlink("../../../secret/f", d+"/b/a"))
		writeFile(d+"/c", []byte("old"))
	case destSelf: // links back to itself and around
		must(os.Symlink(".", d+"/a"))
		must(os.Symlink("..", d+"/b"))
		must(os.Symlink("a/../../file", d+"/c"))
	}
}

const (
	destEmpty = iota
	destMissing
	destLinks
	destHard
	destSelf
	nDest
)

// around is everything but what lies in the destination.
func surroundings() map[string]string {
	m := snapshot("area", true)
	for k := range m {
		if strings.HasPrefix(k, "up/dest/") {
			delete(m, k)
		}
	}
	// creating an entry in a directory changes the time of the directory: for
	// the parent of the destination that is the destination's own creation
	strip := func(k string) {
		if v, ok := m[k]; ok {
			m[k] = v[:strings.LastIndex(v, " ")]
		}
	}
	strip("up")
	strip("up/dest")
	if fi, err := os.Lstat("area/up/dest"); err != nil || fi.IsDir() {
		delete(m, "up/dest") // the destination may be made
	}
	return m
}

// The hard link makes its file's link count a part of the destination; content,
// mode and time of the file outside have to stay.
type c13mode struct {
	name  string
	force bool
	how   int
}

func init() {
	register(&Prop{
		ID:        "C13",
		Technique: "bounded exhaustive exploration: every entry name over an alphabet of path pieces, every entry kind and every sequence of entries up to the bound is extracted by the real code (unprivileged, in a scratch area) for every prepared destination; the file tree around the destination is compared with a snapshot",
		Level:     "model_checking",
		Rule:      "state = distinct (archive, destination, mode); transition = one extraction call; trace = one extraction whose surroundings were compared",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "every name of up to 4 pieces over {.. . a (empty) absolute-prefix} joined by /, x 4 header levels x {file, directory, link} x 5 destinations (empty, missing, holding links out, hard links, link loops) x force; every sequence of 2 entries over 27 entries (links to outside directories and files, then files, directories and links through and over them) x 5 destinations x {force, yes to all, no}; through the extraction command, Decompress, the configured directory, the current directory and the built program",
			"thorough": "also every sequence of 3 entries over the 27, every name of 5 pieces",
		},
		Explore: func(c *Ctx) {
			root, err := filepath.Abs(".")
			must(err)
			nmodes := 0
			runOne := func(t *T, what string, arc []byte, dk, route int, force bool, answers string) {
				makeArea(dk)
				writeFile("area/x.lzh", arc)
				before := surroundings()
				t.Trans(1)
				t.Traces(1)
				t.Distinct(arc, []byte{byte(dk), byte(route)}, []byte(answers), []byte(fmt.Sprint(force)))
				withStdin(answers, func() {
					mk := func(arc string) *lha.Lha {
						l := lha.NewLha(arc)
						l.Force = force
						return l
					}
					switch route {
					case 0: // configured directory, relative
						l := mk("area/x.lzh")
						l.ExtractDirectory = "area/up/dest"
						lha.CommandExtract("area/x.lzh", l)
					case 1: // absolute
						l := mk("area/x.lzh")
						l.ExtractDirectory = root + "/area/up/dest"
						lha.CommandExtract("area/x.lzh", l)
					case 2: // current directory
						if dk == destMissing {
							return
						}
						inDir("area/up/dest", func() { lha.CommandExtract("../../x.lzh", mk("../../x.lzh")) })
					case 3: // each entry by its header
						hs, _ := mk("area/x.lzh").Headers()
						for _, h := range hs {
							l := mk("area/x.lzh")
							l.ExtractDirectory = "area/up/dest"
							l.Decompress(h)
						}
					case 4: // the built program
						if dk == destMissing {
							return
						}
						args := []string{"-e", "-archive", "../../x.lzh"}
						if force {
							args = append(args, "-f")
						}
						cli(c, "area/up/dest", answers, args...)
					}
				})
				if d := snapDiff(before, surroundings()); d != "" {
					t.Fail("%s (destination %d, route %d, force %v, answers %q): %s", what, dk, route, force, answers, d)
				}
				nmodes++
			}
			mkent := func(kind byte, name string, lv int) *Ent {
				e := sample("-lh0-", 3)
				e.Content = []byte("payload")
				e.Packed = e.Content
				e.Kind, e.Name, e.Level, e.Mode = kind, name, lv, 0666
				e.UID, e.GID = 65534, 65534
				return e
			}
			// single entries: every name
			pieces := []string{"..", ".", "a", ""}
			depth := 4
			if c.Thorough {
				depth = 5
			}
			var names []string
			seqs(len(pieces), 1, depth, func(s []int) {
				var p []string
				for _, x := range s {
					p = append(p, pieces[x])
				}
				names = append(names, strings.Join(p, "/"))
			})
			n0 := len(names)
			for _, s := range names[:n0] {
				if len(s) <= 6 && !strings.HasPrefix(s, "/") {
					names = append(names, root+"/area/secret/"+s, root+"/area/"+s)
				}
			}
			names = append(names, "...", "..a", "a..", ".. ", "..\\a", "..\\..\\a", "a\\..\\..\\a", "\\..\\a", root+"/area/up/new", "~/a", "a/../../../../../../../../.."+root+"/area/a", "../dest2", "../dest/../new", "\x01", "..\x00/a", "../../secret/f", "../../secret", "../../link/new", "../../secret/new", "b", "c", "b/a", "c/a", "b/..", "b/../a")
			for _, n := range names {
				for _, kind := range []byte{0, 'd', 'l'} {
					n, kind := n, kind
					c.Case(str("name %q kind %q", strings.Replace(n, root, "ROOT", 1), string(kind)), func(t *T) {
						for lv := 0; lv < 4; lv++ {
							e := mkent(kind, n, lv)
							e.Link = "../../secret"
							arc := archive([]*Ent{e}, true)
							for dk := 0; dk < nDest; dk++ {
								r := (dk + lv) % 4
								runOne(t, fmt.Sprintf("level %d", lv), arc, dk, r, lv%2 == 0, "")
								if lv == 0 || lv == 2 {
									runOne(t, fmt.Sprintf("level %d", lv), arc, dk, (r+1)%4, true, "")
									runOne(t, fmt.Sprintf("level %d", lv), arc, dk, (r+2)%4, false, "y\n")
								}
								if t.Failed() {
									return
								}
							}
						}
					})
				}
			}
			// sequences
			var al []*Ent
			lk := func(name, to string) {
				e := mkent('l', name, 2)
				e.Link = to
				al = append(al, e)
			}
			for _, n := range []string{"a", ".", "", "b"} {
				lk(n, "../../secret")
			}
			lk("a", "../../secret/f")
			lk("a", root+"/area/secret")
			lk("a/", "../../secret/")
			lk("a", "b")
			lk("b", "a")
			lk("c", "a/f")
			lk("..", "../../secret")
			for _, n := range []string{"a", "a/f", "a/new", "b", "b/f", "f", ".", "", "c", "../a"} {
				al = append(al, mkent(0, n, 2))
			}
			for _, n := range []string{"a", "a/", "a/d/", "b/", "../", "./"} {
				al = append(al, mkent('d', n, 1))
			}
			step := func(s []int, full bool) {
				s = cp(s)
				lab := func() string {
					var d []string
					for _, x := range s {
						d = append(d, fmt.Sprintf("%s%q->%q", string(al[x].Kind), al[x].Name, strings.Replace(al[x].Link, root, "ROOT", 1)))
					}
					return "entries " + strings.Join(d, ", ")
				}
				c.Case(lab, func(t *T) {
					var es []*Ent
					for _, x := range s {
						es = append(es, al[x])
					}
					arc := archive(es, true)
					for dk := 0; dk < nDest; dk++ {
						r := (s[0] + s[len(s)-1] + dk) % 4
						if full {
							for r := 0; r < 4; r++ {
								runOne(t, "sequence", arc, dk, r, true, "")
							}
						} else {
							runOne(t, "sequence", arc, dk, r, true, "")
						}
						runOne(t, "sequence", arc, dk, r, false, "a\n")
						if full {
							runOne(t, "sequence", arc, dk, (r+1)%4, false, "y\ny\ny\n")
							runOne(t, "sequence", arc, dk, (r+2)%4, false, "n\ns\n")
						}
						if t.Failed() {
							return
						}
					}
				})
			}
			seqs(len(al), 2, 2, func(s []int) { step(s, true) })
			if c.Thorough {
				seqs(len(al), 3, 3, func(s []int) { step(s, false) })
			}
			// the program itself
			for i := range al {
				for j := range al {
					if !c.Thorough && (i+j)%4 != 0 {
						continue
					}
					i, j := i, j
					c.Case(str("program, entries %q %q", al[i].Name, al[j].Name), func(t *T) {
						arc := archive([]*Ent{al[i], al[j]}, true)
						for dk := 0; dk < nDest; dk++ {
							runOne(t, "program", arc, dk, 4, true, "")
						}
					})
				}
			}
		},
	})
}
