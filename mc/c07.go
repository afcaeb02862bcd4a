package main

import (
	"bytes"
	"fmt"
	"os"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// headerKinds are intact entries whose headers get damaged.
func headerKinds() []*Ent {
	var es []*Ent
	for level := 0; level <= 3; level++ {
		a := sample("-lh5-", level)
		a.Level, a.Name = level, "plain"
		b := sample("-lh0-", level+10)
		b.Level, b.Name, b.Mode, b.UID, b.GID = level, "dir/sub/x.txt", 0640, 501, 20
		d := sample("-lhd-", level+20)
		d.Level, d.Name = level, "some/dir/"
		s := &Ent{Level: level, Name: "dir/lnk", Kind: 'l', Link: "target", Time: 1100000000, Method: "-lhd-"}
		es = append(es, a, b, d, s)
	}
	return es
}

// repair recomputes the checksum or CRC of a header starting at b[0], as far as
// it has one.
func repair(b []byte, n int) {
	switch b[20] {
	case 0, 1:
		k := int(b[0]) + 2
		if k > len(b) {
			return
		}
		var s byte
		for _, x := range b[2:k] {
			s += x
		}
		b[1] = s
	case 2, 3:
		// the CRC lies in the first extension header
		at := 24 + 3
		if b[20] == 3 {
			at = 28 + 5
		}
		if n > len(b) || at+2 > n {
			return
		}
		tot := int(b[0]) | int(b[1])<<8
		if b[20] == 3 {
			tot = int(b[24]) | int(b[25])<<8 | int(b[26])<<16 | int(b[27])<<24
		}
		if tot > len(b) || tot < at+2 {
			return
		}
		b[at], b[at+1] = 0, 0
		copy(b[at:], le2(int(ref.CRC16(b[:tot]))))
	}
}

// repairActual recomputes the CRC of a header whose size field is wrong over
// the bytes the header really has.
func repairActual(b []byte, n int) bool {
	at := 24 + 3
	if b[20] == 3 {
		at = 28 + 5
	}
	if b[20] < 2 || b[20] > 3 || at+2 > n || n > len(b) {
		return false
	}
	b[at], b[at+1] = 0, 0
	copy(b[at:], le2(int(ref.CRC16(b[:n]))))
	return true
}

// checkDamaged compares every reading of the archive with the model's.
func checkDamaged(t *T, what string, b []byte) {
	t.Traces(1)
	t.Distinct(b)
	es, _, merr := ref.ParseArchive(b)
	// the header reader, header by header
	rest := b
	for i := 0; ; i++ {
		t.Trans(1)
		e, err := ref.Parse(rest)
		h, gerr, has, pos := getHeader(rest)
		if err == ref.ErrUnclear {
			t.Dim("unclear_not_judged", 1)
			return
		}
		if err == ref.ErrEnd {
			if has || (gerr != nil && len(rest) > 0) {
				t.Fail("%s: end of the archive read as %v, header %v", what, gerr, has)
			}
			break
		}
		if err != nil {
			if has || gerr == nil {
				t.Fail("%s: header %d is damaged (%v) but accepted (%v, %v)", what, i, err, gerr, has)
			} else if gerr.Error() == "EOF" {
				t.Fail("%s: header %d is damaged (%v) but taken as the end of the archive", what, i, err)
			}
			break
		}
		if gerr != nil || !has {
			t.Fail("%s: header %d is well formed but rejected: %v %v", what, i, gerr, has)
			break
		}
		if s := headerDiff(h, e); s != "" {
			t.Fail("%s: header %d: %s", what, i, s)
			break
		}
		if pos != e.HeaderSize {
			t.Fail("%s: header %d: stream left at %d instead of %d", what, i, pos, e.HeaderSize)
			break
		}
		if e.HeaderSize+e.Packed > len(rest) {
			break
		}
		rest = rest[e.HeaderSize+e.Packed:]
	}
	if t.Failed() {
		return
	}
	// the commands
	writeFile("a.lzh", b)
	if err := lha.CommandList("a.lzh", lha.NewLha("a.lzh")); (err != nil) != (merr != nil) {
		t.Fail("%s: listing answers %v, the model %v", what, err, merr)
	}
	if merr == nil {
		return
	}
	if hs, err := lha.NewLha("a.lzh").Headers(); err == nil {
		t.Fail("%s: header retrieval succeeds with %d entries, the model says %v after %d", what, len(hs), merr, len(es))
	}
	os.Mkdir("xo", 0755)
	l := lha.NewLha("a.lzh")
	l.ExtractDirectory = "xo"
	l.Force = true
	if err := lha.CommandExtract("a.lzh", l); err == nil {
		t.Fail("%s: extraction succeeds, the model says %v", what, merr)
	}
	for _, sel := range []string{"zz", "nobody"} {
		pick := func() *lha.Lha {
			l := lha.NewLha("a.lzh")
			l.ExtractDirectory = "xo"
			l.Force = true
			l.CmdFilev, l.CmdFilec = []string{sel}, 1
			return l
		}
		if hs, err := pick().Headers(); err == nil {
			t.Fail("%s: header retrieval for %s succeeds with %d entries, the model says %v after %d", what, sel, len(hs), merr, len(es))
		}
		if err := lha.CommandExtract("a.lzh", pick()); err == nil {
			t.Fail("%s: extraction of %s succeeds, the model says %v", what, sel, merr)
		}
		if err := lha.CommandList("a.lzh", pick()); err == nil {
			t.Fail("%s: listing %s succeeds, the model says %v", what, sel, merr)
		}
	}
	if _, err := lha.NewLha("a.lzh").DecompresBytes(namedHeader("zz")); err == nil {
		t.Fail("%s: decompressing succeeds", what)
	}
	if err := lha.NewLha("a.lzh").CompressBytes("new", []byte("x"), 5, 2); err == nil {
		t.Fail("%s: updating the damaged archive succeeds", what)
	} else if !bytes.Equal(readFile("a.lzh"), b) {
		t.Fail("%s: updating the damaged archive changes it", what)
	}
	snap := snapshot(".", false)
	for k := range snap {
		if len(k) > 2 && k[:2] == "lh" {
			t.Fail("%s: %s left behind", what, k)
			os.Remove(k)
		}
	}
}

func init() {
	register(&Prop{
		ID:        "C07",
		Technique: "bounded exhaustive fault exploration: every alteration and truncation of archives covering every header level is read by the real code and by an independent parser; acceptance, values and end-of-archive decisions have to agree",
		Level:     "model_checking",
		Rule:      "state = distinct damaged archive; transition = one header read by the code and by the model; trace = one archive read by the header reader, listing, header retrieval, extraction and update",
		Bounds: map[string]string{
			"quick":    "16 kinds of entries (levels 0-3 x plain, Unix with directory, directory, link) at the first and the last position: every byte of the header set to every value (every 4th value through all commands), with and without repaired checksums, every truncation of the archive",
			"thorough": "every value through all commands, all pairs of header bytes set to 5 values each with and without repaired checksums",
		},
		Explore: func(c *Ctx) {
			good := sample("-lh5-", 50)
			good.Name, good.Level = "zz", 2
			kinds := headerKinds()
			for ki, e := range kinds {
				ki, e := ki, e
				for pos := 0; pos < 2; pos++ {
					pos := pos
					es := []*Ent{e, good}
					if pos == 1 {
						es = []*Ent{good, e}
					}
					at := 0
					if pos == 1 {
						at = len(good.Bytes())
					}
					n := len(e.header().Build())
					whole := archive(es, true)
					c.Case(str("intact kind %d (level %d %q) position %d", ki, e.Level, e.Name, pos), func(t *T) {
						checkDamaged(t, "with end mark", whole)
						checkDamaged(t, "without end mark", whole[:len(whole)-1])
						checkDamaged(t, "bytes after the end mark", append(append([]byte{}, whole...), 1, 2, 3))
						writeFile("a.lzh", whole)
						if hs, err := lha.NewLha("a.lzh").Headers(); err != nil || len(hs) != 2 {
							t.Fail("intact archive: %v %d", err, len(hs))
						}
					})
					for cut := 0; cut < len(whole); cut++ {
						cut := cut
						c.Case(str("level %d %q position %d cut at %d of %d", e.Level, e.Name, pos, cut, len(whole)), func(t *T) {
							checkDamaged(t, "cut", whole[:cut])
						})
					}
					for i := 0; i < n; i++ {
						i := i
						for slice := 0; slice < 4; slice++ {
							slice := slice
							c.Case(str("level %d %q position %d header byte %d of %d altered, slice %d", e.Level, e.Name, pos, i, n, slice), func(t *T) {
								for v := slice; v < 256; v += 4 {
									if !c.Thorough && v%4 != (i+ki)%4 && i > 28 {
										continue
									}
									if byte(v) == whole[at+i] {
										continue
									}
									b := append([]byte{}, whole...)
									b[at+i] = byte(v)
									checkDamaged(t, fmt.Sprintf("byte %d = %02x", i, v), b)
									repair(b[at:], n)
									checkDamaged(t, fmt.Sprintf("byte %d = %02x, sums repaired", i, v), b)
									if (i < 2 || i >= 24 && i < 28) && repairActual(b[at:], n) {
										checkDamaged(t, fmt.Sprintf("byte %d = %02x, CRC of the actual bytes", i, v), b)
									}
									if t.Failed() {
										return
									}
								}
							})
						}
					}
				}
				if c.Thorough {
					whole := archive([]*Ent{e, good}, true)
					n := len(e.header().Build())
					for i := 0; i < n; i++ {
						i := i
						c.Case(str("level %d %q header bytes %d and another altered", e.Level, e.Name, i), func(t *T) {
							vals := func(x byte) []byte { return []byte{0, 0xff, x + 1, x - 1, x ^ 0x10} }
							for j := i + 1; j < n; j++ {
								for _, v := range vals(whole[i]) {
									for _, w := range vals(whole[j]) {
										b := append([]byte{}, whole...)
										b[i], b[j] = v, w
										checkDamaged(t, fmt.Sprintf("bytes %d,%d = %02x,%02x", i, j, v, w), b)
										repair(b, n)
										checkDamaged(t, fmt.Sprintf("bytes %d,%d = %02x,%02x, sums repaired", i, j, v, w), b)
										if t.Failed() {
											return
										}
									}
								}
							}
						})
					}
				}
			}
			// padded level 2 headers: every cut
			for pad := 0; pad < 2; pad++ {
				for ext := 0; ext < 3; ext++ {
					pad, ext := pad, ext
					c.Case(str("level 2 header, padding %d, extensions %d: cut", pad, ext), func(t *T) {
						h := &ref.Header{Level: 2, Method: "-lh0-", Packed: 4, Orig: 4, Crc: ref.CRC16([]byte("data")), OS: 'U', UnixTime: 1000000000, Pad: pad,
							Exts: []ref.Ext{{Type: 0, Data: []byte{0, 0}}, {Type: 1, Data: []byte("p")}}}
						for i := 0; i < ext; i++ {
							h.Exts = append(h.Exts, ref.Ext{Type: 0x3f, Data: []byte("comment")})
						}
						b := append(append(h.Build(), "data"...), 0)
						for cut := 0; cut <= len(b); cut++ {
							checkDamaged(t, fmt.Sprintf("cut at %d of %d", cut, len(b)), b[:cut])
							checkDamaged(t, fmt.Sprintf("after another entry, cut at %d of %d", cut, len(b)), append(good.Bytes(), b[:cut]...))
							if cut > 0 && cut < len(b) {
								x := append([]byte{}, b...)
								x[cut] ^= 0x04
								checkDamaged(t, fmt.Sprintf("byte %d altered", cut), x)
							}
						}
					})
				}
			}
		},
	})
}
