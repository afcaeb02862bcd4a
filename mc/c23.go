package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// keepsCase: systems whose names are never converted.
func keepsCase(os byte) bool { return strings.IndexByte("UJHKXmA", os) >= 0 }

// readName is the name the model gives an entry whose unconverted name is s.
func readName(s string, os byte, convert bool) string {
	if !convert || keepsCase(os) {
		return s
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' && s[i] <= 'z' {
			return s
		}
	}
	return asciiMap(s, 'A', 'Z', 32)
}

func asciiMap(s string, lo, hi byte, add int) string {
	b := []byte(s)
	for i, x := range b {
		if x >= lo && x <= hi {
			b[i] = byte(int(x) + add)
		}
	}
	return string(b)
}

func init() {
	alpha := []byte{'a', 'Z', '/', '\\', 0xff, ':', 0xc3, '9'}
	// headers of the name at every level, with and without directory part
	forms := func(os byte, name []byte) []*ref.Header {
		mk := func(level int, n []byte, exts ...ref.Ext) *ref.Header {
			return &ref.Header{Level: level, Method: "-lh5-", Packed: 10, Orig: 30, DosTime: dosTime(1100000000), UnixTime: 1100000000, Attr: 0x20, Name: n, Crc: 0xbeef, OS: os, Exts: exts}
		}
		hs := []*ref.Header{mk(0, name), mk(1, name)}
		if os == 'U' {
			hs = hs[1:]
		}
		crc := ref.Ext{Type: 0, Data: []byte{0, 0}}
		for l := 1; l <= 3; l++ {
			hs = append(hs, mk(l, nil, crc, ref.Ext{Type: 1, Data: name}))
			hs = append(hs, mk(l, nil, ref.Ext{Type: 2, Data: []byte("D\xffeR\xff")}, ref.Ext{Type: 1, Data: name}, crc))
			hs = append(hs, mk(l, nil, crc, ref.Ext{Type: 1, Data: name}, ref.Ext{Type: 2, Data: []byte("DI\xff")}))
		}
		return hs
	}
	set := func(conv, gen bool) func() {
		a, b := lha.ConvertCase, lha.GenericFormat
		lha.ConvertCase, lha.GenericFormat = conv, gen
		return func() { lha.ConvertCase, lha.GenericFormat = a, b }
	}
	register(&Prop{
		ID:        "C23",
		Technique: "bounded exhaustive exploration: every name over an alphabet of letters, separators and other bytes up to the bound, for every system and header level, is read and written by the real code with case conversion off and on, against a model of the conversion",
		Level:     "model_checking",
		Rule:      "state = distinct (header bytes, switches); transition = one header read or written, or one entry extracted; trace = one header or archive replayed",
		Bounds: map[string]string{
			"quick":    "names of 1 to 4 bytes over {a,Z,/,\\,0xff,:,0xc3,9} x 21 systems x 11 header forms of levels 0-3 x conversion off/on; every single byte 1-255; written names of 1 to 5 bytes x levels 0-2 x generic format off/on x conversion off/on; archives of mixed-case names listed, retrieved and extracted",
			"thorough": "names of 1 to 5 bytes read, 1 to 6 written",
		},
		Explore: func(c *Ctx) {
			n := 4
			if c.Thorough {
				n = 5
			}
			read := func(t *T, os byte, name []byte) bool {
				for _, h := range forms(os, name) {
					b := h.Build()
					full := append(append([]byte{}, b...), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
					e, err := ref.Parse(full)
					if err != nil {
						panic("harness: " + err.Error())
					}
					raw := e.Name
					for _, conv := range []bool{false, true} {
						back := set(conv, false)
						g, err, has, _ := getHeader(full)
						back()
						t.Trans(1)
						t.Traces(1)
						t.Distinct(b, []byte{bb(conv)})
						if err != nil || !has {
							t.Fail("level %d, system %q, name %q: rejected: %v", h.Level, os, name, err)
							return false
						}
						e.Name = readName(raw, os, conv)
						if s := headerDiff(g, e); s != "" {
							t.Fail("level %d, system %q, name %q, conversion %v: %s", h.Level, os, name, conv, s)
							return false
						}
					}
				}
				return true
			}
			for _, sys := range osIDs {
				sys := sys
				seqs(len(alpha), 1, n-1, func(s []int) {
					s = cp(s)
					c.Case(str("system %q, names from %v", sys, s), func(t *T) {
						name := make([]byte, len(s))
						for i, x := range s {
							name[i] = alpha[x]
						}
						if !read(t, sys, name) {
							return
						}
						if len(s) == n-1 {
							for _, x := range alpha {
								if !read(t, sys, append(append([]byte{}, name...), x)) {
									return
								}
							}
						}
					})
				})
				c.Case(str("system %q, every byte", sys), func(t *T) {
					for x := 1; x < 256; x++ {
						if !read(t, sys, []byte{byte(x), 'Q'}) || !read(t, sys, []byte{'Q', byte(x), '.', 'E', 'x'}) {
							return
						}
					}
				})
			}
			// writing
			write := func(t *T, name []byte) bool {
				for level := 0; level < 3; level++ {
					for k := 0; k < 4; k++ {
						conv, gen := k&1 == 1, k&2 == 2
						h := lha.NewLzHeader()
						h.HeaderLevel = byte(level)
						h.Method = []byte("-lh0-")
						h.Name = append(append([]byte{}, name...), 0)
						h.ExtendType, h.HasCrc = 'U', true
						h.UnixMode = 0100644
						h.UnixLastModifiedStamp = 1100000000
						back := set(conv, gen)
						b, err := writeHeader(h)
						back()
						t.Trans(1)
						t.Traces(1)
						t.Distinct(b, []byte{bb(conv), bb(gen)})
						if err != nil {
							t.Fail("level %d, name %q, conversion %v, generic %v: not written: %v", level, name, conv, gen, err)
							return false
						}
						if string(h.Name) != string(name)+"\x00" {
							t.Fail("level %d, name %q, conversion %v, generic %v: the header now names %q", level, name, conv, gen, h.Name)
							return false
						}
						e, err := ref.Parse(append(append([]byte{}, b...), 0, 0, 0))
						if err != nil {
							t.Fail("level %d, name %q, conversion %v, generic %v: malformed: %v", level, name, conv, gen, err)
							return false
						}
						want := strings.NewReplacer("\xff", "/", "\\", "/").Replace(string(name))
						if conv && gen {
							want = asciiMap(want, 'a', 'z', -32)
						}
						if e.Name != want {
							t.Fail("level %d, name %q, conversion %v, generic %v: written as %q", level, name, conv, gen, e.Name)
							return false
						}
					}
				}
				return true
			}
			seqs(len(alpha), 1, n, func(s []int) {
				s = cp(s)
				c.Case(str("writing names from %v", s), func(t *T) {
					name := make([]byte, len(s))
					for i, x := range s {
						name[i] = alpha[x]
					}
					if !write(t, name) {
						return
					}
					if len(s) == n {
						for _, x := range alpha {
							if !write(t, append(append([]byte{}, name...), x)) {
								return
							}
						}
					}
				})
			})
			c.Case(str("writing every byte"), func(t *T) {
				for x := 1; x < 256; x++ {
					if !write(t, []byte{byte(x), 'Q'}) || !write(t, []byte{'d', '/', byte(x), '.', 'e', 'X'}) {
						return
					}
				}
			})
			// whole archives
			names := []string{"README.TXT", "Read.me", "DIR/FILE", "dir/FILE2", "low", "UP", "\xc3\x84B"}
			for _, sys := range osIDs {
				for conv := 0; conv < 2; conv++ {
					sys, conv := sys, conv == 1
					c.Case(str("archive of system %q, conversion %v", sys, conv), func(t *T) {
						var b []byte
						var want []string
						var es []*Ent
						for i, n := range names {
							e := sample([]string{"-lh5-", "-lh0-", "-lh1-"}[i%3], i)
							e.Name, e.Level = n, 1+i%3
							h := e.header()
							h.OS = sys
							if sys != 'U' {
								h.Old = nil
							}
							raw := append(h.Build(), e.Packed...)
							p, err := ref.Parse(raw)
							if err != nil {
								panic("harness: " + err.Error())
							}
							b = append(b, raw...)
							es = append(es, e)
							want = append(want, readName(p.Name, sys, conv))
						}
						b = append(b, 0)
						writeFile("n.lzh", b)
						t.Distinct(b, []byte{bb(conv)})
						t.Traces(1)
						defer set(conv, false)()
						hs, err := lha.NewLha("n.lzh").Headers()
						if err != nil || len(hs) != len(names) {
							t.Fail("%d entries, %v", len(hs), err)
							return
						}
						for i, h := range hs {
							t.Trans(3)
							if cname(h.Name) != want[i] {
								t.Fail("entry %d is named %q instead of %q", i, cname(h.Name), want[i])
								return
							}
							out, err := lha.NewLha("n.lzh").DecompresBytes(h)
							if err != nil || !bytes.Equal(out, es[i].Content) {
								t.Fail("entry %d (%q): %v %s", i, want[i], err, diff(out, es[i].Content))
								return
							}
							l := lha.NewLha("n.lzh")
							l.ExtractDirectory = fresh("no")
							if err := l.Decompress(h); err != nil {
								t.Fail("entry %d (%q) to disk: %v", i, want[i], err)
								return
							}
							ds, _ := os.ReadDir("no")
							if len(ds) != 1 || ds[0].Name() != base(want[i]) {
								t.Fail("entry %d (%q) to disk: %v", i, want[i], fmt.Sprint(ds))
								return
							}
							if out := readFile("no/" + base(want[i])); !bytes.Equal(out, es[i].Content) {
								t.Fail("entry %d (%q) to disk: %s", i, want[i], diff(out, es[i].Content))
								return
							}
						}
					})
				}
			}
		},
	})
}
