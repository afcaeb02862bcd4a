package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"verif/mc/ref"
)

// checkParsed parses a well-formed header with the code and with the model.
func checkParsed(t *T, h *ref.Header) bool {
	b := h.Build()
	t.Traces(1)
	t.Trans(1 + len(h.Exts))
	t.Distinct(b)
	full := append(append([]byte{}, b...), bytes.Repeat([]byte{0x5a}, 40)...)
	e, err := ref.Parse(full)
	if err != nil || e.HeaderSize != len(b) {
		panic(fmt.Sprintf("harness: the model rejects its own header: %v %x", err, b))
	}
	g, err, has, pos := getHeader(full)
	if err != nil || !has {
		t.Fail("rejected: %v (header found: %v): %s", err, has, hdesc2(h))
		return false
	}
	if s := headerDiff(g, e); s != "" {
		t.Fail("%s: %s", s, hdesc2(h))
		return false
	}
	if w := undescribed(g.String(), e); w != "" {
		t.Fail("the description %q does not state %q: %s", g.String(), w, hdesc2(h))
		return false
	}
	if pos != len(b) {
		t.Fail("stream left at %d instead of %d: %s", pos, len(b), hdesc2(h))
		return false
	}
	return true
}

// undescribed: a value of the entry which the description does not state.
func undescribed(s string, e *ref.Entry) string {
	w := []string{"Name:" + e.Name, "\nRealname:" + e.Link, fmt.Sprintf("\nHeaderLevel:%d\n", e.Level), fmt.Sprintf("\nCompressLevel:%s\n", e.Method), fmt.Sprintf("\nHasCrc:%v\n", e.Crc >= 0),
		fmt.Sprintf("\nOriginal Size :%d bytes", e.Orig), fmt.Sprintf("\nPacked Size : %d bytes", e.Packed)}
	if e.Crc >= 0 {
		w = append(w, fmt.Sprintf("\nCrc:%.4x\n", e.Crc))
	}
	for _, x := range w {
		if !strings.Contains(s, x) {
			return x
		}
	}
	return ""
}

func hdesc2(h *ref.Header) string {
	s := fmt.Sprintf("level %d %s packed %d orig %d name %q OS %q old %x", h.Level, h.Method, h.Packed, h.Orig, h.Name, h.OS, h.Old)
	for _, e := range h.Exts {
		d := e.Data
		if len(d) > 20 {
			d = d[:20]
		}
		s += fmt.Sprintf(" [%02x %d:%q]", e.Type, len(e.Data), d)
	}
	return s
}

func le8(v uint64) []byte { return append(le4(uint32(v)), le4(uint32(v>>32))...) }

func wintime(u int64) []byte { return wintimeAt(u, 9999999) }

// wintimeAt: Windows times of the moment, with a fraction of a second (1e-7 s).
func wintimeAt(u, frac int64) []byte {
	b := le8(0x019db1ded53e8000 + 12345)
	b = append(b, le8(uint64(u)*10000000+0x019db1ded53e8000+uint64(frac))...)
	return append(b, le8(0x01d00000ffffffff)...)
}

var osIDs = []byte{0, 'M', '2', '9', 'K', '3', 'H', 'U', 'C', 'F', 'm', 'R', 'T', 'X', 'J', 'A', 'w', 'W', 1, 0x7f, 0xff}

func init() {
	crcExt := ref.Ext{Type: 0, Data: []byte{0, 0}}
	crcExt3 := ref.Ext{Type: 0, Data: []byte{0, 0, 7}}
	alphabet := []ref.Ext{
		{Type: 1, Data: []byte("name.ext")},
		{Type: 2, Data: []byte("dir\xffsub dir\xff")},
		{Type: 0x39, Data: []byte{1, 2, 3}},
		{Type: 0x3f, Data: []byte("a comment")},
		{Type: 0x40, Data: []byte{0x21, 0}},
		{Type: 0x41, Data: wintime(1234567890)},
		{Type: 0x50, Data: []byte{0xed, 0x81}},
		{Type: 0x51, Data: []byte{1, 2, 3, 4}},
		{Type: 0x52, Data: []byte("staff")},
		{Type: 0x53, Data: []byte("nobody")},
		{Type: 0x54, Data: le4(987654321)},
		{Type: 0x7f, Data: nil},
		{Type: 0xff, Data: []byte("\x00\x01\x02unknown")},
	}
	register(&Prop{
		ID:        "C05",
		Technique: "bounded exhaustive exploration of the header grammar: every header of the enumeration is generated by a model of the format and parsed by the real reader, whose answer is compared with the model parser",
		Level:     "model_checking",
		Rule:      "state = distinct header byte string; transition = base or extension header consumed; trace = one header replayed against the real parser",
		Bounds: map[string]string{
			"quick":    "levels 1-3: every ordered choice of up to 3 distinct extension headers out of 13 kinds and every one of up to 4 of the 8 kinds carrying a value, before and after the header CRC, x OS identifiers; every mode; each kind at every content length up to 300 and around 4 KiB; level 0: every name length x old-style extension length; DOS stamps over the whole range in 3 zones",
			"thorough": "every ordered choice of up to 5 extension headers; every content length to 4 KiB; every DOS day and every minute of a day",
		},
		Explore: func(c *Ctx) {
			mk := func(level int, os byte, exts ...ref.Ext) *ref.Header {
				return &ref.Header{Level: level, Method: "-lh5-", Packed: 1000, Orig: 3000, DosTime: dosTime(1100000000), UnixTime: 1100000000, Attr: 0x20, Name: []byte("base"), Crc: 0xbeef, OS: os, Exts: exts}
			}
			// every ordered choice of extension headers
			depth := 3
			deepKinds := 4
			if c.Thorough {
				depth, deepKinds = 4, 5
			}
			perm := func(kinds []ref.Ext, lo, hi int, f func(es []ref.Ext)) {
				used := make([]bool, len(kinds))
				var cur []ref.Ext
				var rec func()
				rec = func() {
					if len(cur) >= lo {
						f(cur)
					}
					if len(cur) == hi {
						return
					}
					for i := range kinds {
						if used[i] {
							continue
						}
						if kinds[i].Type == 0x41 || kinds[i].Type == 0x54 {
							both := false
							for j := range kinds {
								if used[j] && (kinds[j].Type == 0x41 || kinds[j].Type == 0x54) {
									both = true
								}
							}
							if both {
								continue // two times: which one counts is not prescribed
							}
						}
						used[i] = true
						cur = append(cur, kinds[i])
						rec()
						cur = cur[:len(cur)-1]
						used[i] = false
					}
				}
				rec()
			}
			seq := func(es []ref.Ext, oss []byte) {
				es = append([]ref.Ext{}, es...)
				c.Case(func() string { return "extensions " + hdesc2(mk(2, 'U', es...)) }, func(t *T) {
					for level := 1; level <= 3; level++ {
						for _, os := range oss {
							// the header CRC first, last and in the middle
							for at := 0; at <= len(es); at++ {
								if at > 0 && at < len(es) && at != len(es)/2 {
									continue
								}
								x := append(append(append([]ref.Ext{}, es[:at]...), crcExt), es[at:]...)
								if !checkParsed(t, mk(level, os, x...)) {
									return
								}
							}
							if level == 1 {
								if !checkParsed(t, mk(level, os, es...)) {
									return
								}
								h := mk(level, os, es...)
								h.Name = nil
								h.Old = []byte{1, 2, 3, 4, 5}
								if !checkParsed(t, h) {
									return
								}
							}
						}
					}
				})
			}
			perm(alphabet, 0, depth, func(es []ref.Ext) { seq(es, []byte{'U', 0}) })
			var carry []ref.Ext
			for _, e := range alphabet {
				switch e.Type {
				case 1, 2, 0x3f, 0x50, 0x51, 0x52, 0x53, 0x54:
					carry = append(carry, e)
				}
			}
			perm(carry, depth+1, deepKinds, func(es []ref.Ext) { seq(es, []byte{'U'}) })
			// every file type, every permission
			for ft := 0; ft < 16; ft++ {
				if ft&012 == 012 {
					continue // links, whose names have two parts, come below
				}
				ft := ft
				c.Case(str("modes of type %o", ft), func(t *T) {
					for pm := 0; pm < 4096; pm++ {
						if !c.Thorough && pm > 0777 && pm%37 != 0 {
							continue
						}
						mode := le2(ft<<12 | pm)
						for level := 0; level <= 3; level++ {
							h := mk(level, 'U', alphabet[0], crcExt, ref.Ext{Type: 0x50, Data: mode}, alphabet[7])
							if level == 0 {
								h.Exts = nil
								h.Old = append(append([]byte{0}, le4(1100000000)...), mode...)
								h.Old = append(h.Old, 1, 2, 3, 4)
							}
							if !checkParsed(t, h) {
								return
							}
						}
					}
				})
			}
			// repeated unknown extensions between the known ones
			for n := 0; n <= 40; n++ {
				n := n
				c.Case(str("%d unknown extension headers", n), func(t *T) {
					for level := 1; level <= 3; level++ {
						var x []ref.Ext
						x = append(x, alphabet[0], crcExt3)
						for i := 0; i < n; i++ {
							x = append(x, ref.Ext{Type: byte(0x80 + i), Data: bytes.Repeat([]byte{byte(i)}, i*7%200)})
						}
						x = append(x, alphabet[1], alphabet[6])
						if !checkParsed(t, mk(level, 'U', x...)) {
							return
						}
					}
				})
			}
			// every extension type byte that is not interpreted
			for ty := 0; ty < 256; ty++ {
				ty := ty
				switch ty {
				case 0, 1, 2, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54:
					continue
				}
				c.Case(str("extension type %02x", ty), func(t *T) {
					for level := 1; level <= 3; level++ {
						for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 24, 100} {
							x := ref.Ext{Type: byte(ty), Data: bytes.Repeat([]byte{0x11}, n)}
							if !checkParsed(t, mk(level, 'U', crcExt, alphabet[0], x, alphabet[1])) {
								return
							}
						}
					}
				})
			}
			// every content length of each kind (level 2 meets every padding)
			lens := func(f func(n int)) {
				for n := 0; n <= 4090; n++ {
					if !c.Thorough && n == 301 {
						n = 4060
					}
					f(n)
				}
			}
			min := map[byte]int{0: 2, 0x40: 2, 0x41: 24, 0x50: 2, 0x51: 4, 0x54: 4}
			for _, ty := range []byte{0, 1, 2, 0x3f, 0x40, 0x41, 0x50, 0x51, 0x52, 0x53, 0x54, 0xcc} {
				ty := ty
				lens(func(n int) {
					if n < min[ty] {
						return
					}
					c.Case(str("extension type %02x with %d bytes", ty, n), func(t *T) {
						d := bytes.Repeat([]byte("q"), n)
						switch ty {
						case 2:
							if n > 0 {
								d[n-1] = 0xff
							}
							if n > 9 {
								d[4] = 0xff
							}
						case 0:
							d[0], d[1] = 0, 0
						case 0x41:
							copy(d, wintime(1300000000))
						case 0x50:
							d[0], d[1] = 0xa4, 0x81
						}
						for level := 1; level <= 3; level++ {
							es := []ref.Ext{{Type: ty, Data: d}, {Type: 0x3f, Data: []byte("x")}}
							if ty != 0 {
								es = append([]ref.Ext{crcExt}, es...)
							}
							if ty != 1 {
								es = append(es, ref.Ext{Type: 1, Data: []byte("n")})
							}
							if !checkParsed(t, mk(level, 'U', es...)) {
								return
							}
							if level == 2 {
								h := mk(level, 'U', es...)
								h.Pad = 1
								if !checkParsed(t, h) {
									return
								}
							}
						}
					})
				})
			}
			// level 0: name length x what follows
			for n := 0; n <= 233; n++ {
				n := n
				c.Case(str("level 0, name of %d bytes", n), func(t *T) {
					name := bytes.Repeat([]byte("n"), n)
					for k := 2; k < n; k += 9 {
						name[k] = '\\'
					}
					for form := -3; form <= 40; form++ {
						for _, os := range osIDs {
							h := mk(0, os)
							h.Name = name
							switch {
							case form == -3:
								h.NoCrc = true
							case form == -2:
								h.NoOS = true
							default:
								old := make([]byte, form+1)
								for i := range old {
									old[i] = byte(i*37 + n)
								}
								if os == 'U' && len(old) >= 11 {
									old[5], old[6] = 0xa4, 0x81
								}
								h.Old = old
							}
							if 22+n+2+1+len(h.Old)-2 > 255 {
								continue
							}
							if !checkParsed(t, h) {
								return
							}
							if form < -1 {
								break
							}
						}
					}
				})
			}
			// level 1: name lengths x old-style bytes
			for n := 0; n <= 230; n++ {
				n := n
				c.Case(str("level 1, name of %d bytes", n), func(t *T) {
					for old := 0; n+old <= 230; old++ {
						if old > 12 && n+old < 225 && old%16 != 0 {
							continue
						}
						h := mk(1, 'M', alphabet[1], alphabet[3])
						h.Name = bytes.Repeat([]byte("m"), n)
						h.Old = bytes.Repeat([]byte{0xfe}, old)
						if !checkParsed(t, h) {
							return
						}
						h.Exts = nil
						if !checkParsed(t, h) {
							return
						}
					}
				})
			}
			// names, separators, systems
			smallStrings("aB.\xff\\/:|", 0, 3, func(b []byte) {
				b = append([]byte{}, b...)
				c.Case(str("name %q", b), func(t *T) {
					for _, os := range osIDs {
						for level := 0; level <= 3; level++ {
							for _, dir := range []string{"", "d\xff", "E\xfff\xff", "\xff"} {
								if level == 0 && dir != "" {
									continue
								}
								for _, m := range []string{"-lh5-", "-lh0-"} {
									h := mk(level, os)
									h.Method = m
									h.Name = b
									if level >= 2 {
										h.Name = nil
										h.Exts = []ref.Ext{crcExt, {Type: 1, Data: b}}
									}
									if dir != "" {
										h.Exts = append(h.Exts, ref.Ext{Type: 2, Data: []byte(dir)})
									}
									if !checkParsed(t, h) {
										return
									}
								}
							}
						}
					}
				})
			})
			// links
			for i, nm := range []string{"l|t", "link|/etc/x", "l|a|b", "l|", "|t", "d\xffl|..\xffx"} {
				nm := nm
				_ = i
				c.Case(str("link %q", nm), func(t *T) {
					for _, mode := range []int{0120777, 0120000, 0120755} {
						h := mk(0, 'U')
						h.Name = []byte(nm)
						h.Method = "-lhd-"
						h.Old = append([]byte{0, 1, 2, 3, 4}, append(le2(mode), 1, 0, 2, 0)...)
						checkParsed(t, h)
						for level := 1; level <= 3; level++ {
							h := mk(level, 'U', crcExt, ref.Ext{Type: 1, Data: []byte(nm)}, ref.Ext{Type: 0x50, Data: le2(mode)})
							h.Method = "-lhd-"
							checkParsed(t, h)
						}
					}
				})
			}
			// values
			var vals []uint32
			for s := uint(0); s < 32; s++ {
				vals = append(vals, 1<<s, 1<<s-1, 0x5b<<s)
			}
			vals = append(vals, 0xffffffff)
			for _, v := range vals {
				v := v
				c.Case(str("value %x", v), func(t *T) {
					for level := 0; level <= 3; level++ {
						for k := 0; k < 8; k++ {
							h := mk(level, 'U')
							if level > 0 {
								h.Exts = []ref.Ext{crcExt, {Type: 1, Data: []byte("v")}}
							}
							switch k {
							case 0:
								if level == 1 && v > 0xfffff000 {
									continue
								}
								h.Packed = v
							case 1:
								h.Orig = v
							case 2:
								h.Crc = uint16(v)
							case 3:
								h.UnixTime = v
							case 4:
								h.Attr = byte(v)
								if level >= 2 {
									continue
								}
							case 5:
								if level == 0 {
									h.Old = append(append([]byte{byte(v)}, le4(v)...), append(le2(0100644), append(le2(int(v&0xffff)), le2(int(^v&0xffff))...)...)...)
								} else {
									h.Exts = append(h.Exts, ref.Ext{Type: 0x54, Data: le4(v)}, ref.Ext{Type: 0x51, Data: append(le2(int(v&0xffff)), le2(int(^v&0xffff))...)})
								}
							case 6:
								if level == 0 {
									continue
								}
								h.Exts = append(h.Exts, ref.Ext{Type: 0x50, Data: le2(int(v)&07777 | 0100000)}, ref.Ext{Type: 0x40, Data: le2(int(v & 0xffff))})
							case 7:
								if level == 0 || v == 0 {
									continue
								}
								for _, frac := range []int64{0, 1, 5000000} {
									g := *h
									g.Exts = append(append([]ref.Ext{}, h.Exts...), ref.Ext{Type: 0x41, Data: wintimeAt(int64(v), frac)})
									if !checkParsed(t, &g) {
										return
									}
								}
								h.Exts = append(h.Exts, ref.Ext{Type: 0x41, Data: wintime(int64(v))})
							}
							if !checkParsed(t, h) {
								return
							}
						}
					}
				})
			}
			// DOS stamps in every zone
			dstep := 3
			if c.Thorough {
				dstep = 1
			}
			for zi := range zones {
				zi := zi
				for y := 0; y < 128; y++ {
					y := y
					c.Case(str("DOS stamps of year %d in zone %d", 1980+y, zi), func(t *T) {
						save := time.Local
						defer func() { time.Local = save }()
						time.Local = zones[zi]
						for m := 1; m <= 12; m++ {
							for d := 1; d <= 28; d += dstep {
								for _, tm := range []uint32{0, 23<<11 | 59<<5 | 29, 12<<11 | 30<<5 | 15} {
									for level := 0; level <= 1; level++ {
										h := mk(level, 0)
										h.DosTime = uint32(y)<<25 | uint32(m)<<21 | uint32(d)<<16 | tm
										if !checkParsed(t, h) {
											return
										}
									}
								}
							}
						}
						for s := 0; s < 86400; s += 2 {
							if !c.Thorough && (y != 30 || s%14 != 0) {
								continue
							}
							h := mk(s/2&1, 0)
							h.DosTime = uint32(y)<<25 | 2<<21 | 29<<16 | uint32(s/3600)<<11 | uint32(s/60%60)<<5 | uint32(s%60/2)
							if y%4 != 0 {
								h.DosTime -= 1 << 16
							}
							if !checkParsed(t, h) {
								return
							}
						}
					})
				}
			}
		},
	})
}
