package main

import (
	"fmt"
	"os"
	"path/filepath"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

var writable = []int{0, 1, 5, 6, 7}

func dicOf(m int) (d, mm int) {
	switch m {
	case 1:
		return 4096, 60
	case 6:
		return 32768, 256
	case 7:
		return 65536, 256
	}
	return 8192, 256
}

// roundTrip archives content and gets it back.
func roundTrip(t *T, body []byte, method, level int, fromFile, toFile bool) {
	arc := "rt.lzh"
	os.Remove(arc)
	var err error
	l := lha.NewLha(arc)
	if fromFile {
		writeFile("f.bin", body)
		err = l.Compress("f.bin", method, level)
	} else {
		err = l.CompressBytes("f.bin", body, method, level)
	}
	t.Trans(2)
	t.Traces(1)
	if err != nil {
		t.Fail("compressing failed: %v", err)
		return
	}
	d := lha.NewLha(arc)
	hs, err := d.Headers()
	if err != nil || len(hs) != 1 {
		t.Fail("Headers gives %d entries, error %v", len(hs), err)
		return
	}
	h := hs[0]
	if cname(h.Name) != "f.bin" {
		t.Fail("name is %q", cname(h.Name))
	}
	if h.OriginalSize != len(body) {
		t.Fail("original size is %d instead of %d", h.OriginalSize, len(body))
	}
	if want := ref.CRC16(body); !h.HasCrc || h.Crc != uint(want) {
		t.Fail("CRC is %04x (%v) instead of %04x", h.Crc, h.HasCrc, want)
	}
	if int(h.HeaderLevel) != level {
		t.Fail("header level is %d instead of %d", h.HeaderLevel, level)
	}
	if m := cname(h.Method); m != "-lh0-" && m != fmt.Sprintf("-lh%d-", method) {
		t.Fail("method is %q", m)
	}
	if toFile {
		fresh("out")
		d.ExtractDirectory = "out"
		if err := d.Decompress(h); err != nil {
			t.Fail("decompressing to a file failed: %v", err)
			return
		}
		b, err := os.ReadFile(filepath.Join("out", "f.bin"))
		if err != nil {
			t.Fail("no file extracted: %v", err)
		} else if s := diff(b, body); s != "" {
			t.Fail("extracted file differs: %s", s)
		}
		return
	}
	b, err := d.DecompresBytes(h)
	if err != nil {
		t.Fail("decompressing failed: %v", err)
	} else if s := diff(b, body); s != "" {
		t.Fail("decompressed data differ: %s", s)
	}
}

func init() {
	register(&Prop{
		ID:        "C01",
		Technique: "bounded exhaustive exploration of the implementation: every content of the enumerated families x method x header level x route is archived and decompressed by the real code; the model is the identity",
		Level:     "model_checking",
		Rule:      "state = distinct (content, method, level, routes); transition = one archive or extract operation; trace = one archive+decompress history",
		Bounds: map[string]string{
			"quick":    "all strings over {a,b} to length 9 and {a,b,0xff} to length 5 x 5 methods x 3 levels; structured families (window, match, token-buffer, code-depth boundaries; contents to 16.7 MB) per method",
			"thorough": "all strings over {a,b} to length 13 and {a,b,0xff} to length 8 x 5 methods x 3 levels; denser structured families, all levels, all routes",
		},
		Explore: func(c *Ctx) {
			n2, n3 := 9, 5
			if c.Thorough {
				n2, n3 = 13, 8
			}
			one := func(label string, gen func() []byte, m, lv int, ff, tf bool) {
				c.Case(str("%s, method %d, level %d, from file %v, to file %v", label, m, lv, ff, tf), func(t *T) {
					b := gen()
					t.Distinct(b, []byte{byte(m), byte(lv), bb(ff), bb(tf)})
					roundTrip(t, b, m, lv, ff, tf)
				})
			}
			k := 0
			small := func(b []byte) {
				b = append([]byte{}, b...)
				for _, m := range writable {
					for lv := 0; lv <= 2; lv++ {
						k++
						one(fmt.Sprintf("%q", b), func() []byte { return b }, m, lv, k%7 == 0, k%5 == 0)
					}
				}
			}
			smallStrings("ab", 0, n2, small)
			smallStrings("ab\xff", 1, n3, small)
			for _, m := range writable {
				d, mm := dicOf(m)
				for i, s := range structured(d, mm, c.Thorough) {
					if c.Thorough {
						for r := 0; r < 4; r++ {
							one(s.name, s.gen, m, (i+r)%3, r&1 != 0, r&2 != 0)
						}
					} else {
						one(s.name, s.gen, m, i%3, i%4 == 1, i%4 >= 2)
					}
				}
			}
		},
	})
}

func bb(b bool) byte {
	if b {
		return 1
	}
	return 0
}
