package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

func cname(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func writeFile(name string, b []byte) { must(os.WriteFile(name, b, 0644)) }

func readFile(name string) []byte {
	b, err := os.ReadFile(name)
	must(err)
	return b
}

// fresh makes an empty directory.
func fresh(dir string) string {
	rmTree(dir)
	must(os.MkdirAll(dir, 0755))
	return dir
}

func q(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func diff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at %d", len(got), len(want), n)
}

// ---- the encoder and decoder of the code under test, on streams

type encRes struct {
	packed      []byte
	orig, npack int
	crc         uint
	method      string
	err         error
}

func encode(method int, content []byte) encRes {
	return encodeVia(method, bytes.NewReader(content), len(content), nil)
}

func encodeVia(method int, in io.Reader, size int, w io.Writer) encRes {
	l := lha.NewLha("none")
	l.CompressMethod = method
	var buf bytes.Buffer
	var out io.Writer = &buf
	if w != nil {
		out = w
	}
	var r encRes
	m := []byte("-lh0-")
	r.crc, r.err = l.EncodeLzhuf(&in, &out, size, &r.orig, &r.npack, []byte("f"), m)
	r.packed = buf.Bytes()
	r.method = string(m)
	return r
}

// countReader counts what is read; past the packed data lies other data.
type countReader struct {
	b   []byte
	pos int
}

func (c *countReader) Read(p []byte) (int, error) {
	if c.pos >= len(c.b) {
		return 0, io.EOF
	}
	n := copy(p, c.b[c.pos:])
	c.pos += n
	return n, nil
}

var methodNum = map[string]int{"-lh0-": 0, "-lh1-": 1, "-lh2-": 2, "-lh3-": 3, "-lh4-": 4, "-lh5-": 5, "-lh6-": 6, "-lh7-": 7,
	"-lzs-": 8, "-lz5-": 9, "-lz4-": 10, "-lhd-": 11, "-pm0-": 12, "-pm2-": 13}

func decodeStream(method string, packed []byte, size int) (out []byte, crc int, consumed, read int) {
	return decodeStreamAs(lha.NewLha("none"), method, packed, size)
}

func decodeStreamAs(l *lha.Lha, method string, packed []byte, size int) (out []byte, crc int, consumed, read int) {
	cr := &countReader{b: append(append([]byte{}, packed...), bytes.Repeat([]byte{0xa5}, 64)...)}
	var buf bytes.Buffer
	crc = l.DecodeLzhuf(cr, &buf, size, len(packed), "f", methodNum[method], &read)
	return buf.Bytes(), crc, cr.pos, read
}

// ---- entries and archives built independently

// Ent is an entry to put into an archive.
type Ent struct {
	Name     string
	Method   string
	Level    int
	Content  []byte
	Packed   []byte
	Time     uint32 // Unix
	Mode     int    // 0: none recorded
	OS       byte
	Kind     byte // 0 file, 'd' directory, 'l' symlink
	Link     string
	UID, GID int
	Type     int // Unix file type instead of a regular file's
}

// DosTime of a Unix time (UTC, the workers' zone).
func dosTime(u uint32) uint32 {
	y, m, d, hh, mm, ss := civil(int64(u))
	return uint32(y-1980)<<25 | uint32(m)<<21 | uint32(d)<<16 | uint32(hh)<<11 | uint32(mm)<<5 | uint32(ss/2)
}

func civil(u int64) (y, m, d, hh, mm, ss int) {
	days := u / 86400
	s := int(u % 86400)
	hh, mm, ss = s/3600, s/60%60, s%60
	y = 1970
	leap := func(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	for {
		n := int64(365)
		if leap(y) {
			n++
		}
		if days < n {
			break
		}
		days -= n
		y++
	}
	ml := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap(y) {
		ml[1] = 29
	}
	for m = 0; days >= int64(ml[m]); m++ {
		days -= int64(ml[m])
	}
	return y, m + 1, int(days) + 1, hh, mm, ss
}

// Header of the entry.
func (e *Ent) header() *ref.Header {
	h := &ref.Header{Level: e.Level, Method: e.Method, Packed: uint32(len(e.Packed)), Orig: uint32(len(e.Content)), Crc: ref.CRC16(e.Content), Attr: 0x20, OS: e.OS}
	if h.OS == 0 && e.Mode != 0 {
		h.OS = 'U'
	}
	mode := e.Mode
	name := e.Name
	switch e.Kind {
	case 'd':
		h.Method, h.Orig, h.Packed, h.Crc = "-lhd-", 0, 0, 0
		if mode == 0 && e.Type == 0 {
			mode = 0755
		}
		mode |= 0040000
		h.OS = 'U'
	case 'l':
		h.Method, h.Orig, h.Packed, h.Crc = "-lhd-", 0, 0, 0
		mode |= 0120777
		h.OS = 'U'
		name += "|" + e.Link
	default:
		if e.Type != 0 {
			mode |= e.Type
		} else if mode != 0 {
			mode |= 0100000
		}
	}
	h.UnixTime = e.Time
	h.DosTime = dosTime(e.Time)
	dir, base := "", name
	if i := strings.LastIndex(strings.SplitN(name, "|", 2)[0], "/"); i >= 0 {
		dir, base = name[:i+1], name[i+1:]
	}
	fix := func(s string, sep byte) []byte {
		b := []byte(s)
		for i := range b {
			if b[i] == '/' {
				b[i] = sep
			}
		}
		return b
	}
	switch e.Level {
	case 0:
		h.Name = fix(name, '\\')
		if h.OS == 'U' {
			h.Old = append([]byte{0}, le4(e.Time)...)
			h.Old = append(h.Old, le2(mode)...)
			h.Old = append(h.Old, le2(e.UID)...)
			h.Old = append(h.Old, le2(e.GID)...)
		}
	default:
		if e.Level == 1 {
			h.Name = fix(base, 0xff)
		} else {
			h.Exts = append(h.Exts, ref.Ext{Type: 0, Data: []byte{0, 0}}, ref.Ext{Type: 1, Data: fix(base, 0xff)})
		}
		if dir != "" {
			h.Exts = append(h.Exts, ref.Ext{Type: 2, Data: fix(dir, 0xff)})
		}
		if h.OS == 'U' {
			h.Exts = append(h.Exts, ref.Ext{Type: 0x50, Data: le2(mode)})
			h.Exts = append(h.Exts, ref.Ext{Type: 0x51, Data: append(le2(e.GID), le2(e.UID)...)})
			if e.Level == 1 {
				h.Exts = append(h.Exts, ref.Ext{Type: 0x54, Data: le4(e.Time)})
			}
		}
	}
	return h
}

func le2(v int) []byte { return []byte{byte(v), byte(v >> 8)} }
func le4(v uint32) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// Bytes of the entry: header and data.
func (e *Ent) Bytes() []byte {
	h := e.header()
	b := h.Build()
	if h.Method != "-lhd-" {
		b = append(b, e.Packed...)
	}
	return b
}

func archive(es []*Ent, end bool) []byte {
	var b []byte
	for _, e := range es {
		b = append(b, e.Bytes()...)
	}
	if end {
		b = append(b, 0)
	}
	return b
}

// bareChild: a child process which only runs an operation, on files that are there.
var bareChild bool

// sample returns an entry of the method with some content of its own.
func sample(method string, seed int) *Ent {
	e := &Ent{Method: method, Time: 1000000000 + uint32(seed)*2}
	if bareChild {
		return e
	}
	lit := func(s string) (t []ref.Tok) {
		for i := 0; i < len(s); i++ {
			t = append(t, ref.Tok{Lit: s[i]})
		}
		return
	}
	txt := fmt.Sprintf("hello %d world;", seed)
	toks := append(lit(txt), ref.Tok{Len: 5, Dist: 6}, ref.Tok{Lit: 'x'}, ref.Tok{Len: 12, Dist: 3}, ref.Tok{Lit: 'y'}, ref.Tok{Len: 4, Dist: 40})
	switch method {
	case "-lh0-", "-lz4-", "-pm0-":
		e.Content = []byte(txt + " stored")
		e.Packed = e.Content
	case "-lh1-":
		w := ref.NewWindow(12, ' ')
		for _, t := range toks {
			w.Apply(t)
		}
		e.Content = w.Out
		e.Packed = ref.EncodeLh1(toks)
	case "-lh2-":
		w := ref.NewWindow(13, ' ')
		lw := ref.NewLh2Writer()
		for _, t := range toks {
			if t.Dist > lw.MaxDist() {
				t.Dist = lw.MaxDist()
			}
			w.Apply(t)
			lw.Put(t)
		}
		e.Content = w.Out
		e.Packed = lw.W.Out
	case "-lh3-":
		w := ref.NewWindow(13, ' ')
		for _, t := range toks {
			w.Apply(t)
		}
		e.Content = w.Out
		b := ref.Block3{Toks: toks}
		b.AutoLens()
		e.Packed = ref.EncodeLh3([]ref.Block3{b})
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		m := int(method[3] - '0')
		w := ref.NewWindow(ref.Static[m].Dic, ' ')
		for _, t := range toks {
			w.Apply(t)
		}
		e.Content = w.Out
		b := ref.Block{Toks: toks}
		b.AutoLens(m)
		e.Packed = ref.EncodeStatic(m, []ref.Block{b})
	case "-lzs-":
		w := ref.NewWindow(11, ' ')
		for _, t := range toks {
			w.Apply(t)
		}
		e.Content = w.Out
		e.Packed = ref.EncodeLzs(toks)
	case "-lz5-":
		w := ref.NewLz5Window()
		for _, t := range toks {
			w.Apply(t)
		}
		e.Content = w.Out
		e.Packed = ref.EncodeLz5(toks)
	case "-pm2-":
		e.Content, e.Packed = pmSample(toks)
	case "-lhd-":
		e.Kind = 'd'
	default:
		panic("method " + method)
	}
	known[method+string(e.Packed)] = e.Content
	return e
}

// known maps the streams of the samples to their contents.
var known = map[string][]byte{}

var allMethods = []string{"-lh0-", "-lh1-", "-lh2-", "-lh3-", "-lh4-", "-lh5-", "-lh6-", "-lh7-", "-lzs-", "-lz5-", "-lz4-", "-pm0-", "-pm2-"}

// ---- the file system as a value

type fsEnt struct {
	mode os.FileMode
	time int64
	size int64
	data string // content hash or link target
}

// snapshot of a tree; with times it detects any rewriting.
func snapshot(root string, times bool) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		s := fi.Mode().String()
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			s += " -> " + l
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				s += " unreadable"
			} else if len(b) <= 64 {
				s += fmt.Sprintf(" %q", b)
			} else {
				s += fmt.Sprintf(" %d %x", len(b), sha256.Sum256(b))
			}
		}
		if times {
			s += fmt.Sprintf(" %d", fi.ModTime().UnixNano())
		}
		m[rel] = s
		return nil
	})
	return m
}

func snapDiff(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, "removed "+k)
		} else if w != v {
			d = append(d, fmt.Sprintf("changed %s: %s -> %s", k, v, w))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "created "+k+": "+v)
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

// seqs enumerates all sequences over n choices of lengths lo..hi.
func seqs(n, lo, hi int, f func(s []int)) {
	for k := lo; k <= hi; k++ {
		s := make([]int, k)
		var rec func(i int)
		rec = func(i int) {
			if i == k {
				f(s)
				return
			}
			for v := 0; v < n; v++ {
				s[i] = v
				rec(i + 1)
			}
		}
		rec(0)
	}
}

func cp(s []int) []int { return append([]int{}, s...) }

func str(f string, a ...interface{}) func() string {
	return func() string { return fmt.Sprintf(f, a...) }
}

// bigSample is an entry of the method with more of everything.
// packWith returns the body as the code packs it, if the model gets it back.
func packWith(method string, body []byte) *Ent {
	r := encode(methodNum[method], body)
	if r.err != nil {
		return nil
	}
	out, err := ref.Decode(method, r.packed, len(body))
	if err != nil || !bytes.Equal(out, body) {
		return nil
	}
	return &Ent{Content: body, Packed: append([]byte{}, r.packed...)}
}

func bigSample(method string) *Ent {
	e := &Ent{Method: method, Time: 1200000000}
	if bareChild {
		return e
	}
	body := append(skew(600, 60, 3), rep("abcabcab", 40)...)
	body = append(body, unique(300, 256, 7)...)
	switch method {
	case "-lh1-", "-lh5-", "-lh6-", "-lh7-":
		r := encode(methodNum[method], body)
		out, err := ref.Decode(method, r.packed, len(body))
		if r.err == nil && err == nil && bytes.Equal(out, body) {
			e.Content, e.Packed = body, append([]byte{}, r.packed...)
			return e
		}
	case "-lh0-", "-lz4-", "-pm0-":
		e.Content, e.Packed = body, body
		return e
	}
	s := sample(method, 77)
	e.Content, e.Packed = s.Content, s.Packed
	return e
}
