package main

import (
	"fmt"
	"os"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// checkStream checks what EncodeLzhuf gave for a content.
func checkStream(t *T, method int, body []byte) {
	r := encode(method, body)
	t.Traces(1)
	if r.err != nil {
		t.Fail("encoding failed: %v", r.err)
		return
	}
	if len(r.packed) != r.npack {
		t.Fail("%d bytes written but %d reported", len(r.packed), r.npack)
	}
	if len(r.packed) > len(body) {
		t.Fail("%d bytes for %d", len(r.packed), len(body))
	}
	if uint16(r.crc) != ref.CRC16(body) && r.npack < len(body) {
		t.Fail("CRC %04x instead of %04x", r.crc, ref.CRC16(body))
	}
	want := "-lh0-"
	switch method {
	case 1, 5, 6, 7:
		want = fmt.Sprintf("-lh%d-", method)
	}
	if r.method != want {
		t.Fail("announced as %q instead of %q", r.method, want)
	}
	if r.npack >= len(body) && want != "-lh0-" {
		t.Dim("not_packable", 1)
		return // the caller stores it
	}
	if r.orig != len(body) {
		t.Fail("original size %d instead of %d", r.orig, len(body))
	}
	out, err := ref.Decode(r.method, r.packed, len(body))
	if err != nil {
		t.Fail("the independent decoder rejects the stream: %v (%d of %d bytes)", err, len(out), len(body))
		return
	}
	if s := diff(out, body); s != "" {
		t.Fail("the independent decoder gets something else: %s", s)
	}
	t.Dim("streams_decoded_independently", 1)
	t.Trans(len(body))
}

// checkArchived checks the archive made of a content, byte by byte.
func checkArchived(t *T, method, level int, body []byte) {
	os.Remove("c2.lzh")
	if err := lha.NewLha("c2.lzh").CompressBytes("n", body, method, level); err != nil {
		t.Fail("compressing failed: %v", err)
		return
	}
	t.Traces(1)
	b := readFile("c2.lzh")
	es, data, err := ref.ParseArchive(b)
	if err != nil || len(es) != 1 {
		t.Fail("not a well formed archive of one entry: %v (%d)", err, len(es))
		return
	}
	e := es[0]
	if e.HeaderSize+e.Packed+1 != len(b) || b[len(b)-1] != 0 {
		t.Fail("%d bytes of archive instead of %d + %d + end mark", len(b), e.HeaderSize, e.Packed)
	}
	if e.Packed > len(body) {
		t.Fail("entry of %d bytes for a content of %d", e.Packed, len(body))
	}
	if e.Orig != len(body) || e.Crc != int(ref.CRC16(body)) {
		t.Fail("recorded size %d CRC %04x instead of %d %04x", e.Orig, e.Crc, len(body), ref.CRC16(body))
	}
	ok := e.Method == "-lh0-"
	switch method {
	case 1, 5, 6, 7:
		ok = ok || e.Method == fmt.Sprintf("-lh%d-", method)
	}
	if !ok {
		t.Fail("method %q", e.Method)
	}
	if e.Method != "-lh0-" && e.Packed >= len(body) {
		t.Fail("content that does not shrink is not stored")
	}
	out, err := ref.Decode(e.Method, data[0], len(body))
	if err != nil {
		t.Fail("independent decoder: %v", err)
	} else if s := diff(out, body); s != "" {
		t.Fail("independent decoder: %s", s)
	}
}

func init() {
	register(&Prop{
		ID:        "C02",
		Technique: "bounded exhaustive exploration: every enumerated content is encoded by the real encoder and the stream is decoded by an independent model of the method (conformance of every trace)",
		Level:     "model_checking",
		Rule:      "state = distinct (content, method number); transition = byte of output reproduced by the model decoder; trace = one encoder run or archive judged by the model",
		Bounds: map[string]string{
			"quick":    "all strings over {a,b} to length 11 and {a,b,c} to length 7, x methods 1,5,6,7; method numbers -1..15 on small contents; structured boundary families per dictionary size, contents to 16.7 MB",
			"thorough": "all strings over {a,b} to length 15 and {a,b,c} to length 9; dense structured families",
		},
		Explore: func(c *Ctx) {
			n2, n3 := 11, 7
			if c.Thorough {
				n2, n3 = 15, 9
			}
			small := func(b []byte) {
				if len(b) == 0 {
					return
				}
				b = append([]byte{}, b...)
				c.Case(str("%q", b), func(t *T) {
					for _, m := range []int{1, 5, 6, 7} {
						// something compressible in front, so that what follows is packed
						body := append(rep("zy", 12), b...)
						body = append(body, rep("w", 6)...)
						t.Distinct(body, []byte{byte(m)})
						checkStream(t, m, body)
						if t.Failed() {
							t.Fail("method %d", m)
							return
						}
					}
				})
			}
			smallStrings("ab", 1, n2, small)
			smallStrings("abc", 1, n3, small)
			smallStrings("z\x00w", 1, n3, small)
			// every method number, tiny contents: what does not shrink is stored
			for m := -1; m <= 15; m++ {
				m := m
				for _, n := range []int{0, 1, 2, 3, 5, 8, 13, 20, 30, 40, 60, 100, 2047, 2048, 2049, 4097} {
					n := n
					for k, gen := range []func() []byte{func() []byte { return rep("a", n) }, func() []byte { return unique(n, 256, 0) }} {
						gen := gen
						c.Case(str("method number %d, %d bytes (%d)", m, n, k), func(t *T) {
							b := gen()
							t.Distinct(b, []byte{byte(m), 77})
							if n > 0 {
								checkStream(t, m, b)
							}
							for lv := 0; lv <= 2; lv++ {
								checkArchived(t, m, lv, b)
							}
						})
					}
				}
			}
			for _, m := range []int{1, 5, 6, 7} {
				m := m
				d, mm := dicOf(m)
				for i, s := range structured(d, mm, c.Thorough) {
					s := s
					i := i
					c.Case(str("%s, method %d", s.name, m), func(t *T) {
						b := s.gen()
						t.Distinct(b, []byte{byte(m)})
						checkStream(t, m, b)
						if i%3 == 0 || c.Thorough {
							checkArchived(t, m, i%3, b)
						}
					})
				}
			}
		},
	})
}
