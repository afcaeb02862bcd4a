package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// checkSfx reads the file through every route: it has to give the entries.
func checkSfx(t *T, c *Ctx, what, file string, es []*Ent, ms []*ref.Entry, full bool) {
	hs, err := lha.NewLha(file).Headers()
	t.Trans(1)
	if err != nil || len(hs) != len(es) {
		t.Fail("%s: %d headers instead of %d: %v", what, len(hs), len(es), err)
		return
	}
	for i, h := range hs {
		if s := headerDiff(h, ms[i]); s != "" {
			t.Fail("%s: entry %d: %s", what, i, s)
			return
		}
		if es[i].Kind != 0 {
			continue
		}
		t.Trans(1)
		b, err := lha.NewLha(file).DecompresBytes(h)
		if err != nil || !bytes.Equal(b, es[i].Content) {
			t.Fail("%s: entry %d in memory: %v %s", what, i, err, diff(b, es[i].Content))
			return
		}
	}
	// a stream which cannot seek
	b := readFile(file)
	pr := &chunkReader{b: b, pat: []int{1 + len(b)%977}, failAt: -1}
	var r io.Reader = pr
	t.Trans(1)
	if err, found := lha.NewLzHeader().SeekLhaHeader(&r); err != nil || found != 0 {
		t.Fail("%s: header not found in the stream: %v %d", what, err, found)
		return
	}
	h := lha.NewLzHeader()
	if err, has := h.GetHeader(&r); err != nil || !has {
		t.Fail("%s: no header where the stream was left: %v %v", what, err, has)
		return
	} else if s := headerDiff(h, ms[0]); s != "" {
		t.Fail("%s: first header of the stream: %s", what, s)
		return
	}
	if rest, err := io.ReadAll(r); err != nil || !bytes.HasSuffix(b, rest) || len(rest) < ms[0].Packed {
		t.Fail("%s: the stream goes on with other bytes: %v", what, err)
		return
	}
	if !full {
		return
	}
	t.Trans(4)
	verify := func(how string, f func() error) {
		fresh("xo")
		if err := f(); err != nil {
			t.Fail("%s: %s: %v", what, how, err)
			return
		}
		for i, e := range es {
			if e.Kind != 0 {
				continue
			}
			if b, err := os.ReadFile("xo/" + base(e.Name)); err != nil || !bytes.Equal(b, e.Content) {
				t.Fail("%s: %s: entry %d: %v %s", what, how, i, err, diff(b, e.Content))
				return
			}
		}
	}
	verify("extraction", func() error {
		l := lha.NewLha(file)
		l.ExtractDirectory = "xo"
		return lha.CommandExtract(file, l)
	})
	verify("by header", func() error {
		for i, h := range hs {
			if es[i].Kind != 0 {
				continue
			}
			l := lha.NewLha(file)
			l.ExtractDirectory = "xo"
			if err := l.Decompress(h); err != nil {
				return err
			}
		}
		return nil
	})
	lha.VerifyMode = true
	if err := lha.CommandExtract(file, lha.NewLha(file)); err != nil {
		t.Fail("%s: test: %v", what, err)
	}
	lha.VerifyMode = false
	var lerr error
	out := withStdout(func() {
		l := lha.NewLha(file)
		l.VerboseListing = true
		lerr = lha.CommandList(file, l)
	})
	if lerr != nil {
		t.Fail("%s: list: %v", what, lerr)
	} else {
		checkListing(t, what, string(out), ms, true, false, false)
	}
}

func init() {
	register(&Prop{
		ID:        "C21",
		Technique: "bounded exhaustive exploration: every stub of a family (lengths, fillings, decoy fragments of headers at every distance) before archives of every header level and method is read by the real code through every route and compared with the plain archive",
		Level:     "model_checking",
		Rule:      "state = distinct (file name, stub, archive); transition = one reading call; trace = one executable archive replayed against the code",
		NeedsCLI:  true,
		Bounds: map[string]string{
			"quick":    "stub lengths 0-300, around every power of two to 64 KiB and every one of the last 80 before the header no longer fits into 64 KiB; fillings: zeros, 0xff, pseudo-code, text, repeated method names; 14 decoys (method names, cut headers, headers with wrong sum, CRC, size or level) at every distance 0-64 before the first header; 16 header kinds of 4 levels x 13 methods; 8 file names; 1 to 3 entries; the shortest headers at the end of the file and of the range; headers beyond 64 KiB are not taken; updates, with every combination of 6 settings and surroundings",
			"thorough": "every length to 4,200 with every filling, every pair of decoys at distances 0-40",
		},
		Explore: func(c *Ctx) {
			fill := func(k, n int) []byte {
				b := make([]byte, n)
				switch k {
				case 1:
					for i := range b {
						b[i] = 0xff
					}
				case 2:
					x := uint32(7)
					for i := range b {
						x = x*1664525 + 1013904223
						b[i] = byte(x >> 24)
					}
					// no header can be hidden in it
					for i := range b {
						if b[i] == '-' {
							b[i] = '+'
						}
					}
					copy(b, "MZ\x90\x00")
				case 3:
					for i := range b {
						b[i] = "This is a self extracting archive. LHA's SFX 2.13S (c) Yoshi "[i%61]
					}
				case 4:
					for i := range b {
						b[i] = "-lh5-"[i%5]
					}
				case 5:
					for i := range b {
						b[i] = '-'
					}
				}
				return b
			}
			ents := func(k int) []*Ent {
				hk := headerKinds()
				e := hk[k%len(hk)]
				if k%3 == 2 { // any method may come first
					e = sample(allMethods[k/3%len(allMethods)], k)
					e.Name, e.Level = "first", k/2%4
				}
				f := sample(allMethods[k%len(allMethods)], k)
				f.Name, f.Level = "second", (k+1)%4
				g := sample(allMethods[(k*5+3)%len(allMethods)], k+1)
				g.Name, g.Level = "third", (k+2)%4
				return []*Ent{e, f, g}[:1+k%3]
			}
			names := []string{"a.exe", "A.EXE", "a.com", "a.COM", "a.x", "a.X", "d.lzh.Exe", "a b.CoM"}
			// own: a header begins within the stub (by chance), that is the first one then
			own := func(whole []byte, n int) bool {
				for i := 0; i < n && i+7 <= len(whole); i++ {
					if whole[i+2] == '-' && whole[i+6] == '-' && (whole[i+3] == 'l' || whole[i+3] == 'p') {
						if _, err := ref.Parse(whole[i:]); err == nil || err == ref.ErrUnclear {
							return true
						}
					}
				}
				return false
			}
			runEnts := func(t *T, what string, stub []byte, es []*Ent, end bool, name string, full bool) {
				arc := archive(es, end)
				if own(append(append([]byte{}, stub...), arc...), len(stub)) {
					t.Dim("stubs holding a header of their own, left out", 1)
					return
				}
				ms, _, err := ref.ParseArchive(arc)
				must(err)
				writeFile(name, append(append([]byte{}, stub...), arc...))
				t.Traces(1)
				t.Distinct(stub, arc, []byte(name))
				checkSfx(t, c, what, name, es, ms, full)
				os.Remove(name)
			}
			run := func(t *T, what string, stub []byte, k int, name string, full bool) {
				runEnts(t, what, stub, ents(k), k%2 == 0, name, full)
			}
			// the shortest headers, at the end of the file and of the range
			for lv := 0; lv < 4; lv++ {
				for nl := 1; nl <= 6; nl++ {
					lv, nl := lv, nl
					c.Case(str("name of %d bytes, level %d, at the end", nl, lv), func(t *T) {
						for size := 0; size < 5; size++ {
							for v := 0; v < 4; v++ {
								e := &Ent{Name: "abcdef"[:nl], Level: lv, Method: "-lh0-", Content: []byte("12345")[:size], Packed: []byte("12345")[:size], Time: 1000000000}
								if v&1 == 1 {
									e.OS = 'M'
								}
								m, err := ref.Parse(archive([]*Ent{e}, true))
								must(err)
								for _, n := range []int{0, 1, 2, 7, 500, 65536 - m.HeaderSize, 65535 - m.HeaderSize, 65534 - m.HeaderSize, 65533 - m.HeaderSize} {
									runEnts(t, fmt.Sprintf("%d bytes behind %d, variant %d", size, n, v), fill((n+v)%6, n), []*Ent{e}, v&2 != 0, "a.exe", n == 7)
									if t.Failed() {
										return
									}
								}
							}
						}
					})
				}
			}
			lens := map[int]bool{}
			for n := 0; n <= 300; n++ {
				lens[n] = true
			}
			for p := 512; p <= 32768; p *= 2 {
				for d := -3; d <= 3; d++ {
					lens[p+d] = true
				}
			}
			if c.Thorough {
				for n := 300; n <= 4200; n++ {
					lens[n] = true
				}
			}
			for n := 0; n < 65536; n++ {
				if !lens[n] {
					continue
				}
				n := n
				c.Case(str("stub of %d bytes", n), func(t *T) {
					for k := 0; k < 6; k++ {
						run(t, fmt.Sprintf("filling %d", k), fill(k, n), n+k, names[(n+k)%len(names)], k == n%6)
						if t.Failed() {
							return
						}
					}
				})
			}
			// the end of the range: the first header lies within the first 64 KiB
			for k := 0; k < 16; k++ {
				k := k
				c.Case(str("header %d at the end of the first 64 KiB", k), func(t *T) {
					es := ents(k)
					m, err := ref.Parse(archive(es, true))
					must(err)
					for d := 0; d < 80; d++ {
						n := 65536 - m.HeaderSize - d
						run(t, fmt.Sprintf("header ends %d bytes before", d), fill(d%6, n), k, "a.exe", d < 3)
						if t.Failed() {
							return
						}
					}
					for _, n := range []int{65536, 65537, 70000, 131072} {
						for f := 0; f < 6; f++ {
							writeFile("a.exe", append(fill(f, n), archive(es, true)...))
							t.Traces(1)
							t.Trans(1)
							t.Distinct([]byte(fmt.Sprint(n, f, k)))
							hs, err := lha.NewLha("a.exe").Headers()
							if len(hs) != 0 {
								t.Fail("%d headers found behind %d bytes (%v)", len(hs), n, err)
							}
						}
					}
				})
			}
			// every header kind and method
			for k := 0; k < 48; k++ {
				k := k
				c.Case(str("archive %d", k), func(t *T) {
					for f := 0; f < 6; f++ {
						for i, nm := range names {
							run(t, fmt.Sprintf("filling %d, %q", f, nm), fill(f, 100+f*37+i), k, nm, true)
						}
					}
				})
			}
			// decoys
			var decoys [][]byte
			for _, s := range []string{"-lh5-", "-lh0-", "-lhd-", "-pm2-", "-lz4-", "-l", "-lh5", "\x16\x00-lh5-", "-lh", "--lh5--"} {
				decoys = append(decoys, []byte(s))
			}
			for lv := 0; lv < 4; lv++ {
				e := sample("-lh5-", lv)
				e.Name, e.Level = "decoy.txt", lv
				h := e.header().Build()
				decoys = append(decoys, h[:len(h)-2], h[:22])
				bad := append([]byte{}, h...)
				bad[15] ^= 1
				decoys = append(decoys, bad)
				bad = append([]byte{}, h...)
				bad[20] = 7
				decoys = append(decoys, bad)
			}
			for di := range decoys {
				di := di
				c.Case(str("decoy %d", di), func(t *T) {
					for gap := 0; gap <= 64; gap++ {
						for f := 0; f < 2; f++ {
							stub := append(append(fill(2+f, 50), decoys[di]...), fill(f, gap)...)
							k := di + gap
							run(t, fmt.Sprintf("decoy %q, distance %d", decoys[di], gap), stub, k, names[k%len(names)], gap%9 == 0)
							if t.Failed() {
								return
							}
						}
					}
				})
				for dj := range decoys {
					dj := dj
					if !c.Thorough && (di+dj)%5 != 0 {
						continue
					}
					c.Case(str("decoys %d and %d", di, dj), func(t *T) {
						for gap := 0; gap <= 40; gap++ {
							stub := append(append(append(fill(2, 30), decoys[di]...), fill(0, gap/7)...), decoys[dj]...)
							stub = append(stub, fill(0, gap)...)
							run(t, fmt.Sprintf("gap %d", gap), stub, gap, names[gap%len(names)], false)
							if t.Failed() {
								return
							}
						}
					})
				}
			}
			// the program
			for f := 0; f < 6; f++ {
				for k := 0; k < 6; k++ {
					f, k := f, k
					c.Case(str("program, filling %d, archive %d", f, k), func(t *T) {
						fresh("w")
						es := ents(k)
						arc := archive(es, true)
						ms, _, err := ref.ParseArchive(arc)
						must(err)
						name := names[(f+k)%len(names)]
						if own(append(fill(f, 500+f), arc...), 500+f) {
							return
						}
						writeFile("w/"+name, append(fill(f, 500+f), arc...))
						t.Traces(1)
						t.Trans(3)
						t.Distinct([]byte("program"), []byte{byte(f), byte(k)})
						fresh("w/in")
						if r := cli(c, "w/in", "", "-e", "-archive", "../"+name); r.code != 0 {
							t.Fail("-e: exit status %d: %s", r.code, r.err)
						}
						for _, e := range es {
							if e.Kind == 0 {
								if b, err := os.ReadFile("w/in/" + base(e.Name)); err != nil || !bytes.Equal(b, e.Content) {
									t.Fail("-e: %q: %v %s", e.Name, err, diff(b, e.Content))
								}
							}
						}
						if r := cli(c, "w/in", "", "-t", "-archive", "../"+name); r.code != 0 {
							t.Fail("-t: exit status %d: %s", r.code, r.err)
						}
						if r := cli(c, "w/in", "", "-l", "-archive", "../"+name); r.code != 0 {
							t.Fail("-l: exit status %d: %s", r.code, r.err)
						} else {
							checkListing(t, "-l", r.out, ms, false, false, false)
						}
					})
				}
			}
			// with every setting: what is written has the other name, and is not its own source
			for v := 0; v < 64; v++ {
				v := v
				c.Case(str("update with settings %06b", v), func(t *T) {
					fresh("w")
					fr, move, there, self, upd, bak := v&1 != 0, v&2 != 0, v&4 != 0, v&8 != 0, v&16 != 0, v&32 != 0
					for k, name := range names[:7] {
						t.Traces(1)
						t.Trans(1)
						t.Distinct([]byte("settings"), []byte{byte(v), byte(k)})
						os.RemoveAll("w")
						fresh("w")
						e := sample("-lh5-", k)
						e.Name, e.Level, e.Time = "old", k%3, tMid
						exe := append(fill(k%4, 100+k), archive([]*Ent{e}, true)...)
						writeFile("w/"+name, exe)
						plain := name[:strings.LastIndex(name, ".")] + ".lzh"
						if there {
							o := sample("-lh1-", k)
							o.Name = "other"
							writeFile("w/"+plain, archive([]*Ent{o}, true))
						}
						writeFile("w/src", []byte("added content"))
						var err error
						inDir("w", func() {
							l := lha.NewLha(name)
							l.NewArchive, l.DeleteAfterAppend, l.UpdateIfNewer, l.BackupOldArchive = fr, move, upd, bak
							l.CompressMethod, l.HeaderLevel = 5, k%3
							l.CmdFilev = []string{"src"}
							if self {
								l.CmdFilev = append(l.CmdFilev, plain, name)
							}
							l.CmdFilec = len(l.CmdFilev)
							err = lha.CommandAdd(name, l)
						})
						what := fmt.Sprintf("%q, new archive %v, move %v, %q there %v and given %v, update %v, backup %v", name, fr, move, plain, there, self, upd, bak)
						if err != nil {
							t.Fail("%s: %v", what, err)
							return
						}
						if b, err := os.ReadFile("w/" + name); err != nil || !bytes.Equal(b, exe) {
							t.Fail("%s: the executable changed: %v", what, err)
						}
						b, err := os.ReadFile("w/" + plain)
						if err != nil {
							t.Fail("%s: %v", what, err)
							return
						}
						m, _, err := arcMap(b)
						if err != nil {
							t.Fail("%s: %v", what, err)
							return
						}
						want := 2
						if fr {
							want = 1
						} else if m["old"] == nil || !bytes.Equal(m["old"].raw, e.Bytes()) {
							t.Fail("%s: the entry is not as before", what)
						}
						if len(m) != want || m["src"] == nil || string(m["src"].content) != "added content" {
							t.Fail("%s: %d entries instead of %d", what, len(m), want)
						}
						if _, err := os.Lstat("w/src"); (err != nil) != move {
							t.Fail("%s: source: %v", what, err)
						}
						if t.Failed() {
							return
						}
					}
				})
			}
			// updating one makes the plain archive; the program part is left alone
			for k := 0; k < 24; k++ {
				for f := 0; f < 6; f++ {
					k, f := k, f
					c.Case(str("update of archive %d behind filling %d", k, f), func(t *T) {
						fresh("w")
						es := ents(k)
						arc := archive(es, true)
						name := names[(f+k)%6]
						exe := append(fill(f, 200+f), arc...)
						if own(exe, 200+f) {
							return
						}
						writeFile("w/"+name, exe)
						var err error
						t.Traces(1)
						t.Trans(1)
						t.Distinct([]byte("update"), []byte{byte(f), byte(k)})
						inDir("w", func() { err = lha.NewLha(name).CompressBytes("added", []byte("added content"), 5, k%3) })
						if err != nil {
							t.Fail("%v", err)
							return
						}
						if !bytes.Equal(readFile("w/"+name), exe) {
							t.Fail("the executable changed")
						}
						b, err := os.ReadFile("w/" + name[:strings.LastIndex(name, ".")] + ".lzh")
						if err != nil {
							t.Fail("%v", err)
							return
						}
						m, _, err := arcMap(b)
						if err != nil {
							t.Fail("%v", err)
							return
						}
						om, _, _ := arcMap(arc)
						if len(m) != len(om)+1 || m["added"] == nil || string(m["added"].content) != "added content" {
							t.Fail("%d entries, added: %v", len(m), m["added"] != nil)
						}
						for n, e := range om {
							if m[n] == nil || !bytes.Equal(m[n].raw, e.raw) {
								t.Fail("entry %q is not as before", n)
							}
						}
					})
				}
			}
		},
	})
}
