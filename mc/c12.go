package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"syscall"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

var errInjected = errors.New("injected fault")

// chunkReader gives the data in pieces of the given sizes, over and over.
type chunkReader struct {
	b      []byte
	pat    []int
	i      int
	failAt int // give an error at this offset; -1: never
	pos    int
	with   bool // the error or end comes together with the last bytes
	failed bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(c.b)
	var at error = io.EOF
	if c.failAt >= 0 && c.failAt <= end {
		end, at = c.failAt, errInjected
	}
	if c.pos >= end {
		c.failed = c.failed || at == errInjected
		return 0, at
	}
	n := c.pat[c.i%len(c.pat)]
	c.i++
	if n > len(p) {
		n = len(p)
	}
	if n > end-c.pos {
		n = end - c.pos
	}
	copy(p, c.b[c.pos:c.pos+n])
	c.pos += n
	if c.with && c.pos == end {
		c.failed = c.failed || at == errInjected
		return n, at
	}
	return n, nil
}

// limitWriter accepts a number of bytes, then fails.
type limitWriter struct {
	buf    bytes.Buffer
	left   int
	failed bool
	short  bool // takes what fits of the failing write
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		w.failed = true
		n := 0
		if w.short {
			n = w.left
			w.buf.Write(p[:n])
			w.left = 0
		}
		return n, errInjected
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

var patterns = [][]int{{1}, {2}, {3}, {7}, {1, 5}, {100, 1}, {255}, {256}, {257}, {1, 2048}, {2047}, {4096, 3}, {8191, 1, 1}}

func init() {
	register(&Prop{
		ID:        "C12",
		Technique: "exhaustive fault enumeration on the real code's stream interfaces: an error at every read offset, every write offset and, on disk, every file size limit; every read-splitting pattern of the set compared with the unsplit run",
		Level:     "fault_enumeration",
		Rule:      "evaluation = one run with one fault point or one splitting pattern; distinct = distinct (operation, input, fault point or pattern)",
		StallSec:  150,
		Bounds: map[string]string{
			"quick":    "encoder methods 0,1,5,6,7 on 6 contents up to 20 KiB, decoders of all 13 methods, header reader on levels 0-3 and header writer on levels 0-2: 13 splitting patterns (all 1..12-byte splits for headers); errors at every read and write offset (every 7th beyond 600); extraction to disk with writing failing at every byte; standard output that is full; 8 reading operations (headers, list, test, print, extract, over existing files, one entry, to memory) of an archive and a self-extracting archive with an error at every open, read, seek, write, close, stat, mkdir, symlink and unlink call",
			"thorough": "every offset; pieces of every size 1..300",
		},
		Explore: func(c *Ctx) {
			signal.Ignore(syscall.SIGXFSZ)
			conts := []content{
				{"text", func() []byte { return bytes.Repeat([]byte("some text to pack; "), 20) }},
				{"mixed", func() []byte { return append(skew(900, 60, 3), rep("abcab", 60)...) }},
				{"one byte", func() []byte { return []byte("x") }},
				{"repeats", func() []byte { return rep("a", 300) }},
				{"8 KiB and more", func() []byte { return skew(9000, 100, 5) }},
				{"incompressible", func() []byte { return unique(1500, 256, 3) }},
				{"20 KiB", func() []byte { return append(skew(16400, 30, 9), rep("xyz", 1400)...) }},
			}
			pats := patterns
			if c.Thorough {
				for n := 4; n <= 300; n++ {
					pats = append(pats, []int{n})
				}
			}
			offs := func(n int, f func(k int)) {
				for k := 0; k < n; k++ {
					if !c.Thorough && k > 600 && k%7 != 0 && k < n-20 && k%2048 > 2 && k%2048 < 2046 {
						continue
					}
					f(k)
				}
			}
			for _, m := range []int{0, 1, 5, 6, 7} {
				for _, ct := range conts {
					m, ct := m, ct
					for pi, pat := range pats {
						pi, pat := pi, pat
						c.Case(str("method %d, %s, read in pieces of %v", m, ct.name, pat), func(t *T) {
							b := ct.gen()
							want := encode(m, b)
							for _, with := range []bool{false, true} {
								got := encodeVia(m, &chunkReader{b: b, pat: pat, failAt: -1, with: with}, len(b), nil)
								t.Traces(1)
								t.Trans(1)
								t.Distinct([]byte(fmt.Sprint("enc", m, ct.name, pi, with)))
								if (got.err == nil) != (want.err == nil) || got.crc != want.crc || got.npack != want.npack || got.orig != want.orig || got.method != want.method || !bytes.Equal(got.packed, want.packed) {
									t.Fail("end with data %v: %v %04x %d/%d %s instead of %v %04x %d/%d: %s", with, got.err, got.crc, got.npack, got.orig, got.method, want.err, want.crc, want.npack, want.orig, diff(got.packed, want.packed))
									return
								}
							}
						})
					}
					for s := 0; s < 8; s++ {
						s := s
						c.Case(str("method %d, %s, read and write errors, slice %d", m, ct.name, s), func(t *T) {
							b := ct.gen()
							i := 0
							offs(len(b)+1, func(k int) {
								i++
								if i%8 != s || t.Failed() {
									return
								}
								r := &chunkReader{b: b, pat: []int{4096}, failAt: k, with: k%2 == 1}
								got := encodeVia(m, r, len(b), nil)
								t.Traces(1)
								t.Trans(1)
								t.Distinct([]byte(fmt.Sprint("encr", m, ct.name, k)))
								if got.err == nil && r.failed && k < len(b) {
									t.Fail("read error at byte %d not reported", k)
								}
								if got.err == nil && k < len(b) {
									t.Fail("success though only %d of %d bytes could be read", k, len(b))
								}
							})
							want := encode(m, b)
							offs(len(want.packed), func(k int) {
								i++
								if i%8 != s || t.Failed() {
									return
								}
								w := &limitWriter{left: k, short: k%2 == 0}
								got := encodeVia(m, bytes.NewReader(b), len(b), w)
								t.Traces(1)
								t.Trans(1)
								t.Distinct([]byte(fmt.Sprint("encw", m, ct.name, k)))
								if got.err == nil && w.failed {
									t.Fail("write error at byte %d not reported", k)
								}
								if got.err == nil && w.buf.Len() != len(want.packed) {
									t.Fail("success with %d of %d bytes written", w.buf.Len(), len(want.packed))
								}
							})
						})
					}
				}
			}
			// decoders
			for _, m := range allMethods {
				for bi := 0; bi < 2; bi++ {
					m, bi := m, bi
					for pi, pat := range pats {
						pi, pat := pi, pat
						c.Case(str("%s decoded in pieces of %v (%d)", m, pat, bi), func(t *T) {
							e := sample(m, 2)
							if bi == 1 {
								e = bigSample(m)
							}
							for _, with := range []bool{false, true} {
								var out bytes.Buffer
								var read int
								crc := lha.NewLha("none").DecodeLzhuf(&chunkReader{b: e.Packed, pat: pat, failAt: -1, with: with}, &out, len(e.Content), len(e.Packed), "f", methodNum[m], &read)
								t.Traces(1)
								t.Trans(1)
								t.Distinct([]byte(fmt.Sprint("dec", m, bi, pi, with)))
								if uint16(crc) != ref.CRC16(e.Content) || !bytes.Equal(out.Bytes(), e.Content) {
									t.Fail("CRC %04x instead of %04x; %s", crc, ref.CRC16(e.Content), diff(out.Bytes(), e.Content))
								}
							}
						})
					}
					c.Case(str("%s extracted while writing fails (%d)", m, bi), func(t *T) {
						e := sample(m, 2)
						if bi == 1 {
							e = bigSample(m)
						}
						e.Name, e.Level = "f", 2
						writeFile("a.lzh", archive([]*Ent{e}, true))
						os.Mkdir("xo", 0755)
						offs(len(e.Content)+1, func(k int) {
							if t.Failed() {
								return
							}
							for route := 0; route < 2; route++ {
								os.Remove("xo/f")
								l := lha.NewLha("a.lzh")
								l.ExtractDirectory = "xo"
								var rl, old syscall.Rlimit
								must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
								rl = old
								rl.Cur = uint64(k)
								must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &rl))
								var err error
								if route == 0 {
									err = l.Decompress(namedHeader("f"))
								} else {
									err = lha.CommandExtract("a.lzh", l)
								}
								must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
								t.Traces(1)
								t.Trans(1)
								t.Distinct([]byte(fmt.Sprint("ext", m, bi, k, route)))
								b, _ := os.ReadFile("xo/f")
								if err == nil && !bytes.Equal(b, e.Content) {
									t.Fail("writing fails at byte %d: success reported with %d of %d bytes", k, len(b), len(e.Content))
								}
								if err != nil && k == len(e.Content) {
									t.Fail("fails though nothing did: %v", err)
								}
							}
						})
						os.Remove("xo/f")
					})
					c.Case(str("%s printed to a full device (%d)", m, bi), func(t *T) {
						e := sample(m, 2)
						if bi == 1 {
							e = bigSample(m)
						}
						e.Name, e.Level = "f", 1
						writeFile("a.lzh", archive([]*Ent{e}, true))
						f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
						if err != nil {
							return
						}
						so := os.Stdout
						os.Stdout = f
						l := lha.NewLha("a.lzh")
						l.OutputToStdout = true
						err = lha.CommandExtract("a.lzh", l)
						os.Stdout = so
						f.Close()
						t.Traces(1)
						t.Trans(1)
						t.Distinct([]byte(fmt.Sprint("full", m, bi)))
						if err == nil {
							t.Fail("success though standard output is full")
						}
					})
				}
			}
			// headers
			for ki, e := range headerKinds() {
				ki, e := ki, e
				c.Case(str("header of level %d %q read in pieces and with errors", e.Level, e.Name), func(t *T) {
					b := append(e.Bytes(), 0xa5, 0xa5, 0xa5)
					n := len(e.header().Build())
					want, err, has, pos := getHeader(b)
					if err != nil || !has || pos != n {
						t.Fail("%v %v %d", err, has, pos)
						return
					}
					var ps [][]int
					ps = append(ps, patterns...)
					for k := 1; k <= n; k++ {
						ps = append(ps, []int{k}, []int{k, 1}, []int{1, k})
					}
					for _, p := range ps {
						cr := &chunkReader{b: b, pat: p, failAt: -1}
						var r io.Reader = cr
						h := lha.NewLzHeader()
						err, has := h.GetHeader(&r)
						t.Traces(1)
						t.Trans(1)
						t.Distinct([]byte(fmt.Sprint("hdr", ki, p)))
						if err != nil || !has || cr.pos != n || fmt.Sprintf("%+v", *h) != fmt.Sprintf("%+v", *want) {
							t.Fail("pieces of %v: %v %v at %d of %d: %+v instead of %+v", p, err, has, cr.pos, n, *h, *want)
							return
						}
					}
					for k := 0; k < n; k++ {
						for _, with := range []bool{false, true} {
							cr := &chunkReader{b: b, pat: []int{4096}, failAt: k, with: with}
							var r io.Reader = cr
							err, has := lha.NewLzHeader().GetHeader(&r)
							t.Traces(1)
							t.Trans(1)
							t.Distinct([]byte(fmt.Sprint("hdrr", ki, k, with)))
							if err == nil || has || err == io.EOF {
								t.Fail("read error at byte %d of %d: %v %v", k, n, err, has)
								return
							}
							// the data just ends there
							if k > 0 {
								cr = &chunkReader{b: b[:k], pat: []int{4096}, failAt: -1, with: with}
								r = cr
								err, has = lha.NewLzHeader().GetHeader(&r)
								if err == nil || has || err == io.EOF {
									t.Fail("end at byte %d of %d: %v %v", k, n, err, has)
									return
								}
							}
						}
					}
				})
			}
			for level := 0; level <= 2; level++ {
				level := level
				c.Case(str("header of level %d written with errors", level), func(t *T) {
					for _, nm := range []string{"n", "some/dir/name.txt", string(bytes.Repeat([]byte("x"), 200)), "dd/" + string(bytes.Repeat([]byte("y"), 190))} {
						h := lha.NewLzHeader()
						h.HeaderLevel = byte(level)
						h.Name = append([]byte(nm), 0)
						copy(h.Method, "-lh5-")
						h.UnixMode = 0100644
						b, err := writeHeader(h)
						if err != nil {
							t.Fail("%v", err)
							return
						}
						for k := 0; k <= len(b); k++ {
							for _, short := range []bool{false, true} {
								lw := &limitWriter{left: k, short: short}
								var w io.Writer = lw
								err := lha.WriteHeader(&w, h)
								t.Traces(1)
								t.Trans(1)
								t.Distinct([]byte(fmt.Sprint("hdrw", level, nm, k, short)))
								if (err == nil) != (k == len(b)) {
									t.Fail("%q: room for %d of %d bytes: %v", nm, k, len(b), err)
									return
								}
							}
						}
					}
				})
			}
			exploreReadFaults(c)
			// an archive that cannot be read
			c.Case(str("a directory as archive"), func(t *T) {
				fresh("adir")
				t.Traces(1)
				t.Trans(4)
				t.Distinct([]byte("adir"))
				if _, err := lha.NewLha("adir").Headers(); err == nil {
					t.Fail("header retrieval succeeds")
				}
				if err := lha.CommandList("adir", lha.NewLha("adir")); err == nil {
					t.Fail("listing succeeds")
				}
				if err := lha.CommandExtract("adir", lha.NewLha("adir")); err == nil {
					t.Fail("extraction succeeds")
				}
				if _, err := lha.NewLha("adir").DecompresBytes(namedHeader("f")); err == nil {
					t.Fail("decompression succeeds")
				}
			})
		},
	})
}
