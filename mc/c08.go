package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"time"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// readAll puts the bytes through every reading operation. Panics, exits and
// stalls are noticed by the framework.
func readAll(t *T, name string, b []byte, disk bool) {
	t.Traces(1)
	t.Distinct(b)
	writeFile(name, b)
	t.Trans(3)
	hs, _ := lha.NewLha(name).Headers()
	lha.CommandList(name, lha.NewLha(name))
	lha.VerifyMode = true
	lha.CommandExtract(name, lha.NewLha(name))
	lha.VerifyMode = false
	for i, h := range hs {
		if i > 3 {
			break
		}
		t.Trans(1)
		lha.NewLha(name).DecompresBytes(h)
	}
	if disk {
		t.Trans(2)
		l := lha.NewLha(name)
		l.ExtractDirectory = fresh("xo")
		l.Force = true
		lha.CommandExtract(name, l)
		rmTree("xo")
		v := lha.NewLha(name)
		v.Verbose, v.VerboseListing = true, true
		lha.CommandList(name, v)
	}
}

// bounded runs f and checks the memory it took and the time.
func bounded(t *T, what string, in, out int, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	start := time.Now()
	f()
	d := time.Since(start)
	runtime.ReadMemStats(&b)
	alloc := int64(b.TotalAlloc - a.TotalAlloc)
	if limit := int64(64<<20) + 64*int64(in) + 16*int64(out); alloc > limit {
		t.Fail("%s: %d bytes of memory for %d bytes in and %d out", what, alloc, in, out)
	}
	if limit := 5*time.Second + time.Duration(in+out)*2*time.Microsecond; d > limit {
		t.Fail("%s: %v for %d bytes in and %d out", what, d, in, out)
	}
}

func init() {
	register(&Prop{
		ID:        "C08",
		Technique: "bounded exhaustive exploration of malformed inputs on the real readers and decoders, with monitors for panic, exit, stall, output beyond the announced size and memory",
		Level:     "exploration",
		Rule:      "evaluation = one byte sequence given to a decoder or as an archive; distinct = distinct (method, bytes) or archive; nontrivial = every one differs from a well-formed archive",
		StallSec:  20,
		Bounds: map[string]string{
			"quick":    "every byte string of up to 2 bytes as archive; per method: every packed string of up to 2 bytes (x 4 tails for the Huffman methods), every prefix of a valid stream followed by every byte and 4 tails; header fields: every (header size, name length) per level, every level 2 size and extension size word, level 3 size boundary values; size fields claiming up to 4 GiB",
			"thorough": "every prefix of a valid stream followed by every pair of bytes, per method; every packed string of 3 bytes for the table-driven methods",
		},
		Explore: func(c *Ctx) {
			lha.Quiet = true
			defer func() { lha.Quiet = false }()
			// sizes that promise far too much
			for _, m := range allMethods {
				m := m
				c.Case(str("%s claims of huge sizes", m), func(t *T) {
					e := sample(m, 4)
					for level := 0; level <= 3; level++ {
						for _, size := range []uint32{1 << 20, 1 << 28, 0x7fffffff, 0x80000000, 0xffffffff} {
							for _, packed := range []int{-1, 0, 1 << 20, 0x7ffffff0, 0xffff0000} {
								for _, keep := range []int{len(e.Packed), 0} {
									e.Level, e.Name = level, "f"
									h := e.header()
									h.Orig = size
									if packed >= 0 {
										h.Packed = uint32(packed)
									}
									b := append(h.Build(), e.Packed[:keep]...)
									bounded(t, fmt.Sprintf("level %d original size %d packed size %d", level, size, int64(packed)), len(b), 0, func() { readAll(t, "a.lzh", b, true) })
									if t.Failed() {
										return
									}
								}
							}
						}
					}
				})
			}
			// short archives
			for x := 0; x < 256; x++ {
				x := x
				c.Case(str("archives of 1 and 2 bytes starting with %02x", x), func(t *T) {
					readAll(t, "a.lzh", []byte{byte(x)}, false)
					for y := 0; y < 256; y++ {
						readAll(t, "a.lzh", []byte{byte(x), byte(y)}, false)
					}
					readAll(t, "a.lzh", bytes.Repeat([]byte{byte(x)}, 21), true)
					readAll(t, "a.lzh", bytes.Repeat([]byte{byte(x)}, 300), true)
					readAll(t, "a.lzh", bytes.Repeat([]byte{byte(x)}, 70000), true)
					readAll(t, "a.exe", bytes.Repeat([]byte{byte(x)}, 70000), true)
				})
			}
			c.Case(str("empty archive"), func(t *T) { readAll(t, "a.lzh", nil, true) })
			// decoders
			dec := func(t *T, m string, packed []byte, size int) {
				t.Traces(1)
				t.Trans(1)
				t.Distinct([]byte(m), packed, []byte{byte(size), byte(size >> 8), byte(size >> 16)})
				out, _, consumed, _ := decodeStream(m, packed, size)
				if len(out) > size+300 { // one match may overshoot, then it is an error
					t.Fail("%s %x: %d bytes out, announced %d", m, packed, len(out), size)
				}
				if consumed > len(packed) {
					t.Fail("%s %x: %d bytes consumed of %d", m, packed, consumed, len(packed))
				}
			}
			tails := [][]byte{nil, bytes.Repeat([]byte{0}, 60), bytes.Repeat([]byte{0xff}, 60), bytes.Repeat([]byte{0x5a, 0x13, 0xe7}, 20)}
			for _, m := range allMethods {
				m := m
				e := sample(m, 3)
				stored := m == "-lh0-" || m == "-lz4-" || m == "-pm0-"
				for x := 0; x < 256; x++ {
					x := x
					c.Case(str("%s streams of 1 and 2 bytes starting with %02x", m, x), func(t *T) {
						dec(t, m, nil, 10)
						for y := 0; y < 256; y++ {
							for k, tl := range tails {
								if k > 0 && (stored || (!c.Thorough && y%4 != k)) {
									continue
								}
								for _, size := range []int{1, 300, 70000} {
									if size == 300 && k == 0 {
										continue
									}
									dec(t, m, append([]byte{byte(x), byte(y)}, tl...), size)
								}
							}
							if t.Failed() {
								return
							}
						}
					})
					if c.Thorough && (m[2] == 'h' && m[3] >= '2' && m[3] <= '5' || m == "-pm2-") {
						c.Case(str("%s streams of 3 bytes starting with %02x", m, x), func(t *T) {
							for y := 0; y < 256; y++ {
								for z := 0; z < 256; z++ {
									dec(t, m, append([]byte{byte(x), byte(y), byte(z)}, tails[z&3]...), 300)
								}
							}
						})
					}
				}
				if stored {
					continue
				}
				for _, e := range []*Ent{e, bigSample(m)} {
					e := e
					for i := 0; i <= len(e.Packed); i++ {
						i := i
						if i > 120 && !c.Thorough && i%5 != 0 {
							continue
						}
						c.Case(str("%s valid prefix of %d of %d bytes, then any byte", m, i, len(e.Packed)), func(t *T) {
							for v := 0; v < 256; v++ {
								for k, tl := range tails {
									if !c.Thorough && i > 120 && v%4 != k {
										continue
									}
									dec(t, m, append(append(append([]byte{}, e.Packed[:i]...), byte(v)), tl...), len(e.Content)+500)
								}
								if i < len(e.Packed) {
									x := append([]byte{}, e.Packed...)
									x[i] = byte(v)
									dec(t, m, x, len(e.Content))
								}
								if t.Failed() {
									return
								}
							}
						})
						if c.Thorough && i <= 60 {
							for v := 0; v < 256; v++ {
								v := v
								c.Case(str("%s valid prefix of %d bytes, then %02x and any byte", m, i, v), func(t *T) {
									for w := 0; w < 256; w++ {
										dec(t, m, append(append(append([]byte{}, e.Packed[:i]...), byte(v), byte(w)), tails[(v+w)&3]...), len(e.Content)+500)
									}
								})
							}
						}
					}
				}
			}
			// streams that really expand a lot
			for _, m := range []int{4, 5, 6, 7} {
				m := m
				c.Case(str("-lh%d- tiny stream that expands", m), func(t *T) {
					w := ref.NewWindow(ref.Static[m].Dic, ' ')
					_ = w
					toks := []ref.Tok{{Len: 256, Dist: 1}}
					b := ref.Block{Toks: toks}
					b.AutoLens(m)
					enc := ref.EncodeStatic(m, []ref.Block{b})
					enc[0], enc[1] = 0xff, 0xff // as many of it as a block can hold
					n := 65535 * 256
					var out []byte
					bounded(t, "expansion", len(enc), n, func() { out, _, _, _ = decodeStream(fmt.Sprintf("-lh%d-", m), enc, n) })
					t.Traces(1)
					t.Trans(1)
					t.Distinct(enc, []byte{byte(m)})
					if len(out) != n {
						t.Fail("%d bytes instead of %d", len(out), n)
					}
				})
			}
			// header fields
			pat := func(n, seed int) []byte {
				b := make([]byte, n)
				for i := range b {
					switch seed {
					case 0:
					case 1:
						b[i] = 0xff
					default:
						b[i] = byte(i*7 + seed)
					}
				}
				return b
			}
			for level := 0; level <= 4; level++ {
				for size := 0; size < 256; size++ {
					level, size := level, size
					c.Case(str("level %d, header size %d, every name length", level, size), func(t *T) {
						for nl := 0; nl < 256; nl++ {
							for seed := 0; seed < 3; seed++ {
								b := pat(330, seed)
								copy(b, []byte{byte(size), 0, '-', 'l', 'h', '5', '-', 9, 0, 0, 0, 5, 0, 0, 0, 0, 0, 33, 33, 0x20, byte(level), byte(nl)})
								repair(b, 200)
								if seed == 2 && nl%8 == 0 {
									readAll(t, "a.lzh", b, nl%64 == 0)
									continue
								}
								t.Traces(1)
								t.Trans(1)
								t.Distinct(b)
								getHeader(b)
							}
						}
					})
				}
			}
			for hi := 0; hi < 256; hi++ {
				hi := hi
				c.Case(str("level 2 and 1 size words with high byte %02x", hi), func(t *T) {
					e := sample("-lh5-", 1)
					e.Name = "n"
					for lo := 0; lo < 256; lo++ {
						for level := 1; level <= 3; level++ {
							e.Level = level
							b := append(e.Bytes(), pat(5000, 2)...)
							for k := 0; k < 2; k++ {
								x := append([]byte{}, b...)
								at := 0
								if k == 1 {
									at = map[int]int{1: int(b[0]), 2: 24, 3: 28}[level]
								}
								x[at], x[at+1] = byte(lo), byte(hi)
								repair(x, 40)
								t.Traces(1)
								t.Trans(1)
								t.Distinct(x)
								getHeader(x)
							}
						}
					}
				})
			}
			c.Case(str("level 3 sizes"), func(t *T) {
				e := sample("-lh5-", 1)
				e.Name, e.Level = "n", 3
				for _, v := range []uint32{0, 1, 31, 32, 33, 4095, 4096, 4097, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff} {
					for _, w := range []uint32{0, 1, 4, 5, 6, 4095, 4096, 4097, 0x7fffffff, 0x80000000, 0xffffffff} {
						b := append(e.Bytes(), pat(9000, 3)...)
						copy(b[24:], le4(v))
						copy(b[28:], le4(w))
						repair(b, 60)
						bounded(t, "level 3 sizes", len(b), 0, func() { readAll(t, "a.lzh", b, true) })
					}
				}
			})
			// names
			for n := 0; n <= 12; n++ {
				n := n
				c.Case(str("odd names and kinds %d", n), func(t *T) {
					names := []string{"", "/", "//", ".", "..", "\xff", "\xff\xff", "|", "a|", "\x00", "a\x00b", "...", "a/\xff/b"}
					for _, os := range osIDs {
						for _, mode := range []int{0, 0100644, 0040755, 0120777, 0020666, 0060666, 0010666, 0140777, 0170000, 0xffff} {
							for _, m := range []string{"-lh0-", "-lh5-", "-lhd-", "-lhx-", "-lh9-", "-lz5-", "-pm1-", "\x00\x00\x00\x00\x00"} {
								for level := 1; level <= 2; level++ {
									h := &ref.Header{Level: level, Method: m, Packed: 3, Orig: 3, OS: os, Crc: 7, DosTime: 0, UnixTime: 0xffffffff,
										Exts: []ref.Ext{{Type: 0, Data: []byte{0, 0}}, {Type: 1, Data: []byte(names[n])}, {Type: 0x50, Data: le2(mode)}}}
									readAll(t, "a.lzh", append(append(h.Build(), "abc"...), 0), mode != 0120777)
								}
							}
						}
					}
				})
			}
			// self-extracting names with misleading stubs
			for k := 0; k < 6; k++ {
				k := k
				c.Case(str("misleading stub %d", k), func(t *T) {
					e := sample("-lh5-", 1)
					e.Name, e.Level = "n", 2
					u := [][]byte{[]byte("--lh5-"), []byte("-lh5-\x00\x00"), append([]byte{36, 0}, "-lh5-"...), e.Bytes()[:30], append([]byte{0xff, 0xff}, "-lh5-\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02\x02"...), []byte("-l-l-l")}[k]
					b := bytes.Repeat(u, 100000/len(u))
					start := time.Now()
					readAll(t, "a.exe", b, true)
					if d := time.Since(start); d > 15*time.Second {
						t.Fail("%v", d)
					}
				})
			}
			// many entries
			c.Case(str("20,000 entries"), func(t *T) {
				var buf bytes.Buffer
				for i := 0; i < 20000; i++ {
					e := &Ent{Name: fmt.Sprintf("f%d", i), Method: "-lh0-", Level: i % 3, Content: []byte("x"), Packed: []byte("x")}
					buf.Write(e.Bytes())
				}
				b := buf.Bytes()
				writeFile("a.lzh", b)
				t.Traces(1)
				t.Trans(3)
				t.Distinct([]byte("many"))
				start := time.Now()
				hs, err := lha.NewLha("a.lzh").Headers()
				if err != nil || len(hs) != 20000 {
					t.Fail("%v, %d headers", err, len(hs))
				}
				if err := lha.CommandList("a.lzh", lha.NewLha("a.lzh")); err != nil {
					t.Fail("%v", err)
				}
				if d := time.Since(start); d > 15*time.Second {
					t.Fail("%v", d)
				}
				os.Remove("a.lzh")
			})
		},
	})
}
