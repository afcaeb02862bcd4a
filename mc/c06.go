package main

import (
	"bytes"
	"fmt"
	"os"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// The ways to get at the content of an entry.
type outcome struct {
	route string
	err   error
	data  []byte
	has   bool // the route gives data
}

func namedHeader(name string) *lha.LzHeader {
	h := lha.NewLzHeader()
	h.Name = append([]byte(name), 0)
	return h
}

// allRoutes reads the entry called name of an archive of one entry.
func allRoutes(arc, name string, full bool) []outcome {
	var rs []outcome
	b, err := lha.NewLha(arc).DecompresBytes(namedHeader(name))
	rs = append(rs, outcome{"memory", err, b, true})
	l := lha.NewLha(arc)
	lha.VerifyMode = true
	err = lha.CommandExtract(arc, l)
	lha.VerifyMode = false
	rs = append(rs, outcome{"test mode", err, nil, false})
	if !full {
		return rs
	}
	_, err = lha.NewLha(arc).Headers()
	rs = append(rs, outcome{"header retrieval", err, nil, false})
	file := func(route string, f func(l *lha.Lha) error) {
		os.Mkdir("xo", 0755)
		os.Remove("xo/" + name)
		l := lha.NewLha(arc)
		l.ExtractDirectory = "xo"
		err := f(l)
		d, rerr := os.ReadFile("xo/" + name)
		if err == nil && rerr != nil {
			err = nil
			d = []byte("no file: " + rerr.Error())
		}
		rs = append(rs, outcome{route, err, d, true})
		os.Remove("xo/" + name)
	}
	file("file", func(l *lha.Lha) error { return l.Decompress(namedHeader(name)) })
	file("extract command", func(l *lha.Lha) error { return lha.CommandExtract(arc, l) })
	l = lha.NewLha(arc)
	l.OutputToStdout = true
	so := os.Stdout
	p, err := os.Create("stdout")
	must(err)
	os.Stdout = p
	err = lha.CommandExtract(arc, l)
	os.Stdout = so
	p.Close()
	d := readFile("stdout")
	// the text around the data is not judged
	rs = append(rs, outcome{"standard output", err, d, false})
	return rs
}

// judge: success only with the recorded size and CRC.
func judge(t *T, what string, rs []outcome, orig, crc int) {
	memOK := rs[0].err == nil
	for _, r := range rs {
		t.Trans(1)
		if r.err == nil && r.has {
			if len(r.data) != orig {
				t.Fail("%s: %s reports success with %d bytes instead of %d", what, r.route, len(r.data), orig)
			} else if crc >= 0 && int(ref.CRC16(r.data)) != crc {
				t.Fail("%s: %s reports success with CRC %04x instead of %04x", what, r.route, ref.CRC16(r.data), crc)
			}
		}
		if (r.err == nil) != memOK {
			t.Fail("%s: %s answers %v but decompressing to memory %v", what, r.route, r.err, rs[0].err)
		}
	}
}

func init() {
	register(&Prop{
		ID:        "C06",
		Technique: "bounded exhaustive fault exploration: every enumerated alteration and truncation of the data, size and CRC of an entry of each method is read through every route of the real code; success is accepted only with the recorded size and CRC",
		Level:     "exploration",
		Rule:      "evaluation = one damaged archive read through the routes; distinct = distinct archive bytes; nontrivial = the archive differs from the intact one",
		Bounds: map[string]string{
			"quick":    "all 13 methods: every byte of the packed data of a small stream set to every other value, every bit of a larger stream flipped, every truncation (with the size field adjusted or the file cut), original and packed size off by -3..3 and huge, every single-bit and every byte-complement change of the CRC; entries with and without CRC",
			"thorough": "also every pair of bytes set to 6 values each, every bit of the larger streams through every route, every one of the 65,536 recorded CRCs",
		},
		Explore: func(c *Ctx) {
			one := func(e *Ent, mod func(h *ref.Header)) []byte {
				h := e.header()
				if mod != nil {
					mod(h)
				}
				return append(append(h.Build(), e.Packed...), 0)
			}
			run := func(t *T, what string, arc []byte, orig, crc int, full bool) {
				writeFile("a.lzh", arc)
				t.Distinct(arc)
				t.Traces(1)
				judge(t, what, allRoutes("a.lzh", "f", full), orig, crc)
			}
			for mi, m := range allMethods {
				m := m
				small := sample(m, 1)
				small.Name = "f"
				small.Level = mi % 3
				big := bigSample(m)
				big.Name = "f"
				big.Level = (mi + 1) % 3
				for _, e := range []*Ent{small, big} {
					e := e
					c.Case(str("%s intact", m), func(t *T) {
						writeFile("a.lzh", one(e, nil))
						t.Distinct(one(e, nil))
						t.Traces(1)
						for _, r := range allRoutes("a.lzh", "f", true) {
							if r.err != nil {
								t.Fail("%s: %v", r.route, r.err)
							} else if r.has && !bytes.Equal(r.data, e.Content) {
								t.Fail("%s: %s", r.route, diff(r.data, e.Content))
							}
							if r.route == "standard output" && !bytes.Contains(r.data, e.Content) {
								t.Fail("standard output lacks the content")
							}
						}
					})
				}
				alter := func(e *Ent, i int, vals []byte) {
					c.Case(str("%s byte %d of %d altered", m, i, len(e.Packed)), func(t *T) {
						for k, v := range vals {
							x := *e
							x.Packed = append([]byte{}, e.Packed...)
							if x.Packed[i] == v {
								continue
							}
							x.Packed[i] = v
							run(t, fmt.Sprintf("byte %d = %02x", i, v), one(&x, nil), len(e.Content), int(ref.CRC16(e.Content)), c.Thorough || k%8 == 0)
							if t.Failed() {
								return
							}
							if k%4 == 0 { // no CRC recorded: the size still has to be right
								x.Level = 0
								run(t, fmt.Sprintf("byte %d = %02x, no CRC", i, v), one(&x, func(h *ref.Header) { h.NoCrc = true }), len(e.Content), -1, false)
							}
							if t.Failed() {
								return
							}
						}
					})
				}
				all := make([]byte, 256)
				for i := range all {
					all[i] = byte(i)
				}
				for i := range small.Packed {
					alter(small, i, all)
				}
				for i := range big.Packed {
					if !c.Thorough && i >= 400 {
						break
					}
					var v []byte
					for b := uint(0); b < 8; b++ {
						v = append(v, big.Packed[i]^1<<b)
					}
					alter(big, i, v)
				}
				if c.Thorough {
					vals := []byte{0, 0xff, 0x80, 0x01, 0x55, 0xaa}
					for i := range small.Packed {
						i := i
						c.Case(str("%s byte %d and another altered", m, i), func(t *T) {
							for j := i + 1; j < len(small.Packed); j++ {
								for _, a := range vals {
									for _, b := range vals {
										x := *small
										x.Packed = append([]byte{}, small.Packed...)
										x.Packed[i], x.Packed[j] = a, b
										run(t, fmt.Sprintf("bytes %d,%d = %02x,%02x", i, j, a, b), one(&x, nil), len(small.Content), int(ref.CRC16(small.Content)), false)
										if t.Failed() {
											return
										}
									}
								}
							}
						})
					}
				}
				for _, e := range []*Ent{small, big} {
					e := e
					for n := 0; n < len(e.Packed); n++ {
						n := n
						if !c.Thorough && e == big && n > 60 && n < len(e.Packed)-60 && n%7 != 0 {
							continue
						}
						c.Case(str("%s data cut to %d of %d bytes", m, n, len(e.Packed)), func(t *T) {
							crc := int(ref.CRC16(e.Content))
							x := *e
							x.Packed = e.Packed[:n]
							run(t, "size field adjusted", one(&x, nil), len(e.Content), crc, true)
							b := one(e, nil)
							b = b[:len(b)-1-len(e.Packed)+n]
							run(t, "file cut", b, len(e.Content), crc, true)
							writeFile("a.lzh", b)
							if _, err := lha.NewLha("a.lzh").DecompresBytes(namedHeader("f")); err == nil {
								t.Fail("file cut inside the data: success")
							}
							x.Level = 0
							run(t, "size field adjusted, no CRC", one(&x, func(h *ref.Header) { h.NoCrc = true }), len(e.Content), -1, true)
							// the packed size claims more than there is
							run(t, "packed size too large", one(&x, func(h *ref.Header) { h.Packed = uint32(len(e.Packed)) }), len(e.Content), crc, true)
						})
					}
				}
				for _, d := range []int{-3, -2, -1, 1, 2, 3, 255, 256, 1000, 65536} {
					d := d
					c.Case(str("%s original size off by %d", m, d), func(t *T) {
						for _, e := range []*Ent{small, big} {
							n := len(e.Content) + d
							if n < 0 {
								continue
							}
							crc := int(ref.CRC16(e.Content))
							run(t, "with CRC", one(e, func(h *ref.Header) { h.Orig = uint32(n) }), n, crc, true)
							x := *e
							x.Level = 0
							run(t, "no CRC", one(&x, func(h *ref.Header) { h.Orig = uint32(n); h.NoCrc = true }), n, -1, true)
							if d < 0 {
								// a CRC of exactly the shorter data makes it right
								run(t, "CRC of the shorter data", one(e, func(h *ref.Header) { h.Orig = uint32(n); h.Crc = ref.CRC16(e.Content[:n]) }), n, int(ref.CRC16(e.Content[:n])), true)
							}
						}
					})
				}
				crcs := func(f func(x uint16)) {
					if c.Thorough {
						for x := 1; x < 65536; x++ {
							f(uint16(x))
						}
						return
					}
					for b := uint(0); b < 16; b++ {
						f(1 << b)
					}
					for _, x := range []uint16{0xff, 0xff00, 0xffff, 0x8001} {
						f(x)
					}
					f(ref.CRC16(small.Content)) // recorded as 0
				}
				crcs(func(x uint16) {
					c.Case(str("%s recorded CRC off by %04x", m, x), func(t *T) {
						crc := ref.CRC16(small.Content) ^ x
						run(t, "CRC", one(small, func(h *ref.Header) { h.Crc = crc }), len(small.Content), int(crc), true)
						if _, err := lha.NewLha("a.lzh").DecompresBytes(namedHeader("f")); err == nil {
							t.Fail("wrong CRC: success")
						}
					})
				})
			}
			// empty contents with a wrong CRC or with data
			for lv := 0; lv <= 3; lv++ {
				lv := lv
				c.Case(str("empty entries, level %d", lv), func(t *T) {
					for _, m := range allMethods {
						e := &Ent{Name: "f", Method: m, Level: lv}
						for _, crc := range []uint16{0, 1, 0x8000, 0xffff} {
							run(t, fmt.Sprintf("%s empty with CRC %04x", m, crc), one(e, func(h *ref.Header) { h.Crc = crc }), 0, int(crc), true)
						}
					}
				})
			}
			// damage in one entry of several is noticed by what reads them all
			for pos := 0; pos < 3; pos++ {
				for mi, m := range allMethods {
					pos, mi, m := pos, mi, m
					c.Case(str("%s damaged at position %d of 3", m, pos), func(t *T) {
						var es []*Ent
						for k := 0; k < 3; k++ {
							e := sample(allMethods[(mi+k*5)%len(allMethods)], k)
							if k == pos {
								e = sample(m, 9)
							}
							e.Name = fmt.Sprintf("f%d", k)
							e.Level = k
							es = append(es, e)
						}
						bad := *es[pos]
						for i := 0; i < len(bad.Packed); i++ {
							x := bad
							x.Packed = append([]byte{}, bad.Packed...)
							x.Packed[i] ^= 0x40
							es[pos] = &x
							writeFile("a.lzh", archive(es, i%2 == 0))
							t.Traces(1)
							t.Distinct(archive(es, true))
							b, err := lha.NewLha("a.lzh").DecompresBytes(namedHeader(x.Name))
							if err == nil {
								if len(b) != len(x.Content) || ref.CRC16(b) != ref.CRC16(x.Content) {
									t.Fail("byte %d: wrong data as success", i)
								}
								continue // undetectable or harmless
							}
							lha.VerifyMode = true
							err = lha.CommandExtract("a.lzh", lha.NewLha("a.lzh"))
							lha.VerifyMode = false
							if err == nil {
								t.Fail("byte %d: the test of the archive succeeds", i)
							}
							l := lha.NewLha("a.lzh")
							l.ExtractDirectory = fresh("xd")
							if err := lha.CommandExtract("a.lzh", l); err == nil {
								t.Fail("byte %d: the extraction succeeds", i)
							}
							if _, err := lha.NewLha("a.lzh").Headers(); err == nil {
								t.Fail("byte %d: the verification by header retrieval succeeds", i)
							}
							// the others are still whole
							for k, e := range es {
								if k != pos {
									if b, err := lha.NewLha("a.lzh").DecompresBytes(namedHeader(e.Name)); err != nil || !bytes.Equal(b, e.Content) {
										t.Fail("byte %d: entry %d: %v %s", i, k, err, diff(b, e.Content))
									}
								}
							}
							if t.Failed() {
								return
							}
						}
					})
				}
			}
		},
	})
}
