package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	lha "github.com/jeromelesaux/lha"
)

// bakName is the name of the backup of an archive.
func bakName(arc string) string {
	return arc[:len(arc)-len(filepath.Ext(arc))] + ".bak"
}

func init() {
	// backup of arc after a step which gave now out of prev
	judge := func(t *T, what, arc string, on bool, prev, now, bakWas []byte) (bak []byte, ok bool) {
		bak, err := os.ReadFile(bakName(arc))
		if err != nil {
			bak = nil
		}
		same := func(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }
		switch {
		case prev == nil || !on:
			if !same(bak, bakWas) {
				t.Fail("%s: %s changed though there was nothing to back up or no backup asked for", what, bakName(arc))
				return bak, false
			}
		case bytes.Equal(prev, now): // nothing replaced
			if !same(bak, bakWas) && !same(bak, prev) {
				t.Fail("%s: the backup is neither what it was nor the archive", what)
				return bak, false
			}
		case !same(bak, prev):
			if bak == nil {
				t.Fail("%s: no backup", what)
			} else {
				t.Fail("%s: the backup is not the archive as it was before: %s", what, diff(bak, prev))
			}
			return bak, false
		}
		return bak, true
	}
	register(&Prop{
		ID:        "C22",
		Technique: "explicit-state exploration of update histories with backups switched on or off at every step, on the real code, against the model (archive, previous archive); crash and fault enumeration at every system call of updates with a backup",
		Level:     "model_checking",
		Rule:      "state = distinct (archive, backup) pair; transition = one add operation judged, or one operation run with a fault; trace = one history or one faulty run",
		StallSec:  120,
		Bounds: map[string]string{
			"quick":    "21 add operations: every history of length 2 x backup on or off at each step x 3 initial archives, rotating over 16 archive names and 3 earlier backups, fresh handles and one handle; a backup that cannot be written, or would overwrite the archive or a source; kill, error and file size limit at every system call and at byte offsets in steps of 3 of 2 updates with a backup",
			"thorough": "every history of length 3 x backup on or off x 4 initial archives x 16 names; faults at every byte offset",
		},
		Explore: func(c *Ctx) {
			ops := addOps()
			arcs := []string{"h.lzh", "h", "h.b.lzh", "sub.d/h.lzh", "./h.LZH", "h.exe.lha", "d.lzh/h.lzh", "h.lzh.lzh", "lzh.lzh", "d.lzh/h", "a.bak/h.lzh", "d.bak.d/h.bak.lzh", "h.l", "h lzh.lzh", "h..lzh", "h."}
			baks := [][]byte{nil, []byte("short"), unique(20000, 200, 4)}
			depth, inits := 2, 3
			if c.Thorough {
				depth, inits = 3, 4
			}
			for init := 0; init < inits; init++ {
				for o1 := range ops {
					for on := 0; on < 1<<uint(depth); on++ {
						init, o1, on := init, o1, on
						c.Case(str("initial archive %d, %s, ..., backups %b", init, ops[o1].name, on), func(t *T) {
							seqs(len(ops), depth-1, depth-1, func(s []int) {
								if t.Failed() {
									return
								}
								hist := append([]int{o1}, s...)
								k := init + o1 + on
								for _, x := range s {
									k += x
								}
								for n, arc := range arcs {
									if !c.Thorough && n != k%len(arcs) {
										continue
									}
									for _, d := range []string{"sub.d", "d.lzh", "a.bak", "d.bak.d"} {
										os.MkdirAll(d, 0755)
									}
									cur, bak := foreignArchive(init), baks[(k+n)%3]
									for p, b := range map[string][]byte{arc: cur, bakName(arc): bak} {
										os.RemoveAll(p)
										if b != nil {
											writeFile(p, b)
										}
									}
									l := lha.NewLha(arc)
									for i, x := range hist {
										if k%2 == 0 {
											l = lha.NewLha(arc)
										}
										o := &ops[x]
										l.BackupOldArchive = on>>uint(i)&1 == 1
										what := func() string { return fmt.Sprintf("archive %s, step %d of %v", arc, i, hist) }
										prev := cur
										now, ok := o.apply(t, l, arc, prev, what)
										if !ok {
											return
										}
										bak, ok = judge(t, what()+" "+o.name, arc, l.BackupOldArchive && !o.noex, prev, now, bak)
										if !ok {
											return
										}
										cur = now
										t.Distinct(stateKey(cur), bak)
									}
									t.Traces(1)
									os.Remove(arc)
									os.Remove(bakName(arc))
								}
							})
						})
					}
				}
			}
			// a backup that cannot be made
			for o := range ops {
				for init := 1; init < 3; init++ {
					for kind := 0; kind < 6; kind++ {
						o, init, kind := o, init, kind
						c.Case(str("%s, initial archive %d, a backup that cannot be made (%d)", ops[o].name, init, kind), func(t *T) {
							arc := "h.lzh"
							dir := fresh("bk")
							must(os.Chdir(dir))
							defer os.Chdir(c.Dir)
							cur := foreignArchive(init)
							switch kind {
							case 0:
								must(os.Mkdir("h.bak", 0755))
								writeFile("h.bak/inside", []byte("x"))
							case 1:
								writeFile("h.bak", []byte("protected"))
								must(os.Chmod("h.bak", 0444))
							case 2: // the archive itself
								arc = "h.bak"
							}
							if kind == 1 && os.Geteuid() == 0 {
								return
							}
							writeFile(arc, cur)
							switch kind { // the archive in the place of its backup
							case 3:
								must(os.Symlink(arc, "h.bak"))
							case 4:
								must(os.Link(arc, "h.bak"))
							case 5:
								must(os.Symlink("h.lnk", "h.bak"))
								must(os.Symlink(arc, "h.lnk"))
							}
							writeFile("a", []byte("newer a"))
							writeFile("z", []byte("newer z"))
							l := lha.NewLha(arc)
							l.BackupOldArchive = true
							l.CmdFilev, l.CmdFilec = []string{"a", "z"}, 2
							l.CompressMethod, l.HeaderLevel = ops[o].meth, ops[o].level
							l.SortContents, l.DeleteAfterAppend = o%2 == 0, o%3 == 0
							l.NewArchive, l.UpdateIfNewer = o%4 == 1, o%5 == 1
							before := snapshot(".", false)
							err := lha.CommandAdd(arc, l)
							t.Trans(1)
							t.Traces(1)
							t.Distinct([]byte(fmt.Sprint(o, init, kind)))
							if err == nil && kind > 2 {
								// put aside properly
								if !bytes.Equal(readFile("h.bak"), cur) {
									t.Fail("success, but the backup is not the old archive")
								}
								if _, _, err := arcMap(readFile(arc)); err != nil || l.UpdateIfNewer == false && bytes.Equal(readFile(arc), cur) {
									t.Fail("success, but the archive is not the new one: %v", err)
								}
								return
							}
							if err == nil {
								t.Fail("success without a backup")
							}
							if d := snapDiff(before, snapshot(".", false)); d != "" {
								t.Fail("the update without a backup left changes: %s", d)
							}
						})
					}
				}
			}
			// a source in the place of the backup
			for o := 0; o < 64; o++ {
				o := o
				c.Case(str("a source is in the place of the backup, variant %d", o), func(t *T) {
					dir := fresh("bk")
					must(os.Chdir(dir))
					defer os.Chdir(c.Dir)
					src := "h.bak"
					writeFile("h.bak", []byte("a source"))
					switch o % 4 {
					case 1:
						src = "./h.bak"
					case 2:
						src = "s"
						must(os.Link("h.bak", "s"))
					case 3:
						src = "s"
						must(os.Rename("h.bak", "s"))
						must(os.Symlink("s", "h.bak"))
					}
					there := o&4 != 0
					if there {
						writeFile("h.lzh", foreignArchive(1))
					}
					writeFile("b", []byte("another"))
					l := lha.NewLha("h.lzh")
					l.BackupOldArchive, l.NewArchive = true, o&8 != 0
					l.CmdFilev, l.CmdFilec = []string{"b", src}, 2
					if o&16 != 0 {
						l.CmdFilev = []string{src, "b"}
					}
					l.CompressMethod, l.HeaderLevel, l.DeleteAfterAppend = 5, o%3, o&32 != 0
					before := snapshot(".", false)
					err := lha.CommandAdd("h.lzh", l)
					t.Trans(1)
					t.Traces(1)
					t.Distinct([]byte(fmt.Sprint("source", o)))
					if there {
						if err == nil {
							t.Fail("the backup overwrites %s", src)
						}
						if d := snapDiff(before, snapshot(".", false)); d != "" {
							t.Fail("refused with changes: %s", d)
						}
						return
					}
					if err != nil {
						t.Fail("there is nothing to back up, but: %v", err)
						return
					}
					m, _, err := arcMap(readFile("h.lzh"))
					if err != nil || m[filepath.Base(src)] == nil || string(m[filepath.Base(src)].content) != "a source" {
						t.Fail("%s is not in the archive: %v", src, err)
					}
				})
			}
			fops := updOps()
			for i := range fops {
				o := &fops[i]
				o.judgeBak = func(bad func(f string, a ...interface{}), dir string) {
					b, err := os.ReadFile(filepath.Join(dir, "x.bak"))
					if err != nil || !bytes.Equal(b, o.files["x.lzh"]) {
						bad("the new archive is in place but the backup is not the old one (%d bytes, %v)", len(b), err)
					}
				}
			}
			exploreFaults(c, fops, func(o *updOp) bool { return o.bak })
		},
	})
}
