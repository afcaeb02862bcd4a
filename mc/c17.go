package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// An operation whose answer must not depend on what was done before. It runs in
// the directory prepared by prepare17 and leaves it as it was.
type histOp struct {
	name string
	core bool // among those whose triples are explored
	run  func(l *lha.Lha) string
}

func dig(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x", b)
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), h[:12])
}

func encOn(l *lha.Lha, method int, in io.Reader, size int, w io.Writer) string {
	var buf bytes.Buffer
	if w == nil {
		w = &buf
	}
	var orig, pack int
	old := l.CompressMethod
	l.CompressMethod = method
	defer func() { l.CompressMethod = old }()
	m := []byte("-lh0-")
	crc, err := l.EncodeLzhuf(&in, &w, size, &orig, &pack, []byte("f"), m)
	if err != nil {
		return fmt.Sprintf("error %s", dig(buf.Bytes()))
	}
	return fmt.Sprintf("%s %d %d %04x %s", m, orig, pack, crc, dig(buf.Bytes()))
}

func decOn(l *lha.Lha, method string, packed []byte, size int) string {
	var buf bytes.Buffer
	var read int
	crc := l.DecodeLzhuf(bytes.NewReader(packed), &buf, size, len(packed), "f", methodNum[method], &read)
	return fmt.Sprintf("%04x %d %s", crc, read, dig(buf.Bytes()))
}

// arcNoTime is the archive without the times, which are those of the run.
func arcNoTime(b []byte) string {
	ms, _, err := ref.ParseArchive(b)
	if err != nil {
		return err.Error()
	}
	var s []string
	pos := 0
	for _, m := range ms {
		pos += m.HeaderSize
		s = append(s, fmt.Sprintf("%d %s %d %d %q %04x %o %s", m.Level, m.Method, m.Packed, m.Orig, m.Name, m.Crc, m.Mode, dig(b[pos:pos+int(m.Packed)])))
		pos += int(m.Packed)
	}
	return strings.Join(s, ";")
}

// prepare17 fills the current directory.
func prepare17() {
	names, datas := rdArchives()
	for i := range names {
		if names[i] != "missing" {
			writeFile(fmt.Sprintf("r%d.lzh", i), datas[i])
		}
	}
	writeFile("src", bytes.Repeat([]byte("source text; "), 40))
	must(os.Chtimes("src", unix(1400000000), unix(1400000000)))
	must(os.Mkdir("out", 0755))
}

func histOps() []histOp {
	var ops []histOp
	add := func(core bool, name string, f func(l *lha.Lha) string) { ops = append(ops, histOp{name, core, f}) }
	contents := []struct {
		n string
		b []byte
	}{
		{"text", rep("the quick brown fox; ", 30)},
		{"skewed", skew(3000, 60, 9)},
		{"all bytes", append(unique(900, 256, 0), unique(900, 256, 0)...)},
		{"one byte repeated", rep("z", 9000)},
		{"incompressible", unique(2500, 256, 0)},
		{"short", []byte("abcabcabcabc")},
		{"one", []byte("q")},
		{"window", append(append(unique(300, 40, 50), rep("\x00\xff", 20000)...), unique(300, 40, 50)...)},
		{"many blocks", append(unique(17000, 64, 32), skew(4000, 60, 4)...)},
	}
	// two places where the end of the content goes on differently: what another
	// content has there must not decide which of them is taken
	twice := []byte(string(rep("some text before; ", 12)) + "abcdeX 0123456789 abcdeY 9876543210 abcde")
	for _, tail := range []string{"", "X 0123", "Y 9876", "Z", "X"} {
		contents = append(contents, struct {
			n string
			b []byte
		}{fmt.Sprintf("text ending with abcde%s", tail), append(append([]byte{}, twice...), tail...)})
	}
	for _, m := range []int{0, 1, 5, 6, 7} {
		for ci, ct := range contents {
			m, ct := m, ct
			add(ci == 1 || (ci == 2 && m != 0), fmt.Sprintf("encode -lh%d- %s", m, ct.n), func(l *lha.Lha) string {
				return encOn(l, m, bytes.NewReader(ct.b), len(ct.b), nil)
			})
		}
		m := m
		add(m == 5 || m == 1, fmt.Sprintf("encode -lh%d- to a failing writer", m), func(l *lha.Lha) string {
			return encOn(l, m, bytes.NewReader(contents[1].b), len(contents[1].b), &limitWriter{left: 100})
		})
		add(m == 7, fmt.Sprintf("encode -lh%d- from a failing reader", m), func(l *lha.Lha) string {
			return encOn(l, m, &chunkReader{b: contents[1].b, pat: []int{4096}, failAt: 1000}, len(contents[1].b), nil)
		})
	}
	// contents of many buffers, stored and compressed
	long := unique(150000, 256, 0)
	for _, m := range []int{0, 1, 5, 7} {
		for k, b := range [][]byte{long, append(skew(50000, 60, 9), long[:50000]...)} {
			m, b := m, b
			add(false, fmt.Sprintf("encode -lh%d- long %d", m, k), func(l *lha.Lha) string {
				return encOn(l, m, bytes.NewReader(b), len(b), nil)
			})
		}
	}
	for _, m := range []int{0, 5} {
		m := m
		add(false, fmt.Sprintf("archive a long file -lh%d-", m), func(l *lha.Lha) string {
			writeFile("long", long)
			defer os.Remove("long")
			must(os.Chtimes("long", unix(1400000000), unix(1400000000)))
			os.Remove("n.lzh")
			defer os.Remove("n.lzh")
			if err := lha.NewLha("n.lzh").Compress("long", m, 1); err != nil {
				return err.Error()
			}
			return arcNoTime(readFile("n.lzh"))
		})
	}
	add(true, "extract and test a long stored entry", func(l *lha.Lha) string {
		e := sample("-lh0-", 2)
		e.Content, e.Packed = long, long
		e.Name = "long"
		writeFile("n.lzh", archive([]*Ent{e}, true))
		defer os.Remove("n.lzh")
		l.ExtractDirectory = "out"
		defer func() { l.ExtractDirectory = "" }()
		err := lha.CommandExtract("n.lzh", l)
		s := fmt.Sprint(snapText("out"), err)
		fresh("out")
		lha.VerifyMode = true
		defer func() { lha.VerifyMode = false }()
		return s + fmt.Sprint(lha.CommandExtract("n.lzh", l))
	})
	for _, m := range allMethods {
		for k, e := range []*Ent{sample(m, 6), bigSample(m)} {
			m, k, e := m, k, e
			add(k == 1, fmt.Sprintf("decode %s %d", m, k), func(l *lha.Lha) string { return decOn(l, m, e.Packed, len(e.Content)) })
		}
		s := sample(m, 8)
		m := m
		n := len(s.Packed)
		add(false, fmt.Sprintf("decode %s cut", m), func(l *lha.Lha) string { return decOn(l, m, s.Packed[:n/2], len(s.Content)) })
		for _, i := range []int{0, 1, 2, n / 2} {
			for _, v := range []byte{0xff, 0x00} {
				if i >= n {
					continue
				}
				b := append([]byte{}, s.Packed...)
				b[i] = v
				add(i == 1 && v == 0xff, fmt.Sprintf("decode %s with byte %d = %02x", m, i, v), func(l *lha.Lha) string { return decOn(l, m, b, len(s.Content)) })
			}
		}
		add(false, fmt.Sprintf("decode %s for too many bytes", m), func(l *lha.Lha) string { return decOn(l, m, s.Packed, len(s.Content)+3000) })
	}
	// tokens which reach behind the data, where what was decoded before may lie
	for _, m := range []string{"-lh1-", "-lh4-", "-lh5-", "-lh6-", "-lh7-", "-lzs-", "-lz5-"} {
		toks := []ref.Tok{{Lit: 'a'}, {Len: 17, Dist: 1000}, {Lit: 'b'}, {Len: 9, Dist: 4}, {Len: 17, Dist: 2000}}
		var w *ref.Window
		var p []byte
		switch m {
		case "-lh1-":
			w, p = ref.NewWindow(12, ' '), ref.EncodeLh1(toks)
		case "-lzs-":
			w, p = ref.NewWindow(11, ' '), ref.EncodeLzs(toks)
		case "-lz5-":
			w, p = ref.NewLz5Window(), ref.EncodeLz5(toks)
		default:
			n := int(m[3] - '0')
			w = ref.NewWindow(ref.Static[n].Dic, ' ')
			b := ref.Block{Toks: toks}
			b.AutoLens(n)
			p = ref.EncodeStatic(n, []ref.Block{b})
		}
		for _, t := range toks {
			w.Apply(t)
		}
		m, size := m, len(w.Out)
		add(true, fmt.Sprintf("decode %s reaching before the start", m), func(l *lha.Lha) string { return decOn(l, m, p, size) })
	}
	// headers
	for k, e := range headerKinds() {
		k, b := k, e.Bytes()
		add(false, fmt.Sprintf("parse header %d", k), func(l *lha.Lha) string {
			h, err, has, n := getHeader(b)
			return fmt.Sprintf("%s %v %v %d", hdrText(h), err, has, n)
		})
	}
	// the archive and its files
	swap := func(l *lha.Lha, arc string, f func() string) string { return f() }
	_ = swap
	for i := 0; i < 23; i++ {
		arc := fmt.Sprintf("r%d.lzh", i)
		if i < 13 || i >= 18 {
			add(i == 5, "headers "+arc, func(*lha.Lha) string {
				hs, err := lha.NewLha(arc).Headers()
				var s []string
				for _, h := range hs {
					s = append(s, hdrText(h))
				}
				return fmt.Sprint(strings.Join(s, "\n"), err)
			})
		}
		add(i == 13, "test "+arc, func(l *lha.Lha) string {
			lha.VerifyMode = true
			defer func() { lha.VerifyMode = false }()
			return fmt.Sprint(lha.CommandExtract(arc, l))
		})
		add(i == 16 || i == 13, "extract "+arc, func(l *lha.Lha) string {
			l.ExtractDirectory = "out"
			defer func() { l.ExtractDirectory = "" }()
			err := lha.CommandExtract(arc, l)
			s := fmt.Sprint(snapText("out"), err)
			fresh("out")
			return s
		})
		add(i == 14, "list "+arc, func(l *lha.Lha) string {
			return with(l, func(l *lha.Lha) { l.VerboseListing = true }, func() error { return lha.CommandList(arc, l) })
		})
		add(i == 17, "memory "+arc, func(*lha.Lha) string {
			b, err := lha.NewLha(arc).DecompresBytes(namedHeader("one"))
			return fmt.Sprintf("%s %v", dig(b), err)
		})
	}
	for _, m := range []int{0, 1, 5, 7} {
		for lv := 0; lv < 3; lv++ {
			m, lv := m, lv
			add(m == 5 && lv == 1, fmt.Sprintf("archive bytes -lh%d- level %d", m, lv), func(*lha.Lha) string {
				os.Remove("n.lzh")
				err := lha.NewLha("n.lzh").CompressBytes("name", contents[lv].b, m, lv)
				if err != nil {
					return err.Error()
				}
				s := arcNoTime(readFile("n.lzh"))
				os.Remove("n.lzh")
				return s
			})
			add(m == 1 && lv == 2, fmt.Sprintf("archive a file -lh%d- level %d", m, lv), func(l *lha.Lha) string {
				writeFile("n.lzh", readFile("r5.lzh"))
				l.CmdFilev, l.CmdFilec = []string{"src"}, 1
				hl, cm := l.HeaderLevel, l.CompressMethod
				l.HeaderLevel, l.CompressMethod = lv, m
				err := lha.CommandAdd("n.lzh", l)
				l.CmdFilev, l.CmdFilec = nil, 0
				l.HeaderLevel, l.CompressMethod = hl, cm
				if err != nil {
					return err.Error()
				}
				b := readFile("n.lzh")
				os.Remove("n.lzh")
				return dig(b)
			})
		}
	}
	// with the settings of the object, which are those the caller made
	old := func(name string, t uint32) []byte {
		e, f := sample("-lh5-", 3), sample("-lh1-", 4)
		e.Name, e.Level, e.Time = name, 1, t
		f.Name, f.Level = "zz", 2
		return archive([]*Ent{e, f}, true)
	}
	made := func(l *lha.Lha, err error) string {
		if err != nil {
			return err.Error()
		}
		b := readFile("n.lzh")
		os.Remove("n.lzh")
		return dig(b)
	}
	files := func(l *lha.Lha, names ...string) func() {
		l.CmdFilev, l.CmdFilec = names, len(names)
		return func() { l.CmdFilev, l.CmdFilec = nil, 0 }
	}
	add(true, "add with the settings as they are", func(l *lha.Lha) string {
		writeFile("n.lzh", old("src", 1))
		defer files(l, "src")()
		return made(l, lha.CommandAdd("n.lzh", l))
	})
	add(true, "update what is there", func(l *lha.Lha) string {
		writeFile("n.lzh", old("src", 1))
		l.UpdateIfNewer = true
		defer func() { l.UpdateIfNewer = false }()
		return made(l, lha.CommandAdd("n.lzh", l))
	})
	add(false, "update what is newer", func(l *lha.Lha) string {
		writeFile("n.lzh", old("src", 1700000000))
		l.UpdateIfNewer = true
		defer func() { l.UpdateIfNewer = false }()
		return made(l, lha.CommandAdd("n.lzh", l))
	})
	add(true, "list with the settings as they are", func(l *lha.Lha) string {
		var err error
		out := withStdout(func() { err = lha.CommandList("r5.lzh", l) })
		return fmt.Sprintf("%s/%v", out, err)
	})
	add(true, "headers and contents on the object", func(l *lha.Lha) string {
		writeFile("n.lzh", old("src", 1))
		defer os.Remove("n.lzh")
		if err := lha.CommandList("n.lzh", l); err != nil {
			return err.Error()
		}
		hs, err := l.Headers()
		s := fmt.Sprint(len(hs), err)
		for _, h := range hs {
			b, err := l.DecompresBytes(h)
			s += fmt.Sprintf(" %s %v", dig(b), err)
		}
		_, err = l.DecompresBytes(namedHeader("none"))
		return s + fmt.Sprint(err != nil)
	})
	add(false, "decompress on the object", func(l *lha.Lha) string {
		writeFile("n.lzh", old("src", 1))
		defer os.Remove("n.lzh")
		if err := lha.CommandList("n.lzh", l); err != nil {
			return err.Error()
		}
		l.ExtractDirectory = "out"
		defer func() { l.ExtractDirectory = "" }()
		err := l.Decompress(namedHeader("zz"))
		s := fmt.Sprint(snapText("out"), err)
		fresh("out")
		return s
	})
	add(true, "compress on the object", func(l *lha.Lha) string {
		writeFile("n.lzh", old("src", 1))
		if err := lha.CommandList("n.lzh", l); err != nil {
			return err.Error()
		}
		return made(l, l.Compress("src", 7, 1))
	})
	add(false, "compress bytes on the object", func(l *lha.Lha) string {
		writeFile("n.lzh", old("src", 1))
		defer os.Remove("n.lzh")
		if err := lha.CommandList("n.lzh", l); err != nil {
			return err.Error()
		}
		if err := l.CompressBytes("name", contents[0].b, 1, 0); err != nil {
			return err.Error()
		}
		return arcNoTime(readFile("n.lzh"))
	})
	add(false, "print", func(l *lha.Lha) string {
		l.OutputToStdout = true
		defer func() { l.OutputToStdout = false }()
		defer files(l, "one")()
		var err error
		out := withStdout(func() { err = lha.CommandExtract("r5.lzh", l) })
		return fmt.Sprintf("%s/%v", out, err)
	})
	add(false, "dry runs", func(l *lha.Lha) string {
		l.Noexec = true
		defer func() { l.Noexec = false }()
		var e1, e2 error
		out := withStdout(func() {
			e1 = lha.CommandExtract("r5.lzh", l)
			defer files(l, "src")()
			e2 = lha.CommandAdd("r5.lzh", l)
		})
		return fmt.Sprintf("%s/%v%v", out, e1, e2)
	})
	add(true, "move a directory with a backup", func(l *lha.Lha) string {
		must(os.MkdirAll("mv/sub", 0755))
		writeFile("mv/zz", contents[0].b)
		writeFile("mv/sub/e", nil)
		for _, n := range []string{"mv/zz", "mv/sub/e", "mv/sub", "mv"} {
			must(os.Chtimes(n, unix(1400000000), unix(1400000000)))
		}
		writeFile("n.lzh", old("src", 1))
		defer os.Remove("n.bak")
		defer files(l, "mv")()
		l.RecursiveArchiving, l.BackupOldArchive, l.DeleteAfterAppend, l.SortContents, l.ExcludeFiles = true, true, true, true, []string{"x"}
		defer func() {
			l.RecursiveArchiving, l.BackupOldArchive, l.DeleteAfterAppend, l.SortContents, l.ExcludeFiles = false, false, false, false, nil
		}()
		s := made(l, lha.CommandAdd("n.lzh", l)) + dig(readFile("n.bak"))
		_, err := os.Lstat("mv/zz")
		s += fmt.Sprint(err != nil)
		must(os.RemoveAll("mv"))
		return s
	})
	add(true, "add two files of one name", func(l *lha.Lha) string {
		must(os.MkdirAll("tw", 0755))
		writeFile("tw/src", nil)
		defer os.RemoveAll("tw")
		defer files(l, "src", "tw/src")()
		writeFile("n.lzh", old("src", 1))
		b := readFile("n.lzh")
		err := lha.CommandAdd("n.lzh", l)
		s := fmt.Sprint(err != nil, bytes.Equal(b, readFile("n.lzh")))
		os.Remove("n.lzh")
		return s
	})
	add(false, "add to a self-extracting archive", func(l *lha.Lha) string {
		writeFile("n.exe", append([]byte("MZ stub stub stub stub stub stub"), old("src", 1)...))
		defer os.Remove("n.exe")
		defer files(l, "src")()
		return made(l, lha.CommandAdd("n.exe", l))
	})
	add(false, "parse with case conversion", func(l *lha.Lha) string {
		lha.ConvertCase = true
		defer func() { lha.ConvertCase = false }()
		e := sample("-lh0-", 1)
		h := e.header()
		h.Name, h.OS = []byte("LOUD"), 'M'
		x, err, _, _ := getHeader(h.Build())
		return fmt.Sprint(hdrText(x), err)
	})
	// refused ones
	add(true, "extract refused", func(l *lha.Lha) string {
		writeFile("out/one", []byte("mine"))
		l.ExtractDirectory = "out"
		defer func() { l.ExtractDirectory = "" }()
		var err error
		withStdin("s\n", func() { err = lha.CommandExtract("r5.lzh", l) })
		s := fmt.Sprint(snapText("out"), err)
		fresh("out")
		return s
	})
	add(true, "extract answered all", func(l *lha.Lha) string {
		writeFile("out/one", []byte("mine"))
		writeFile("out/two", []byte("mine"))
		l.ExtractDirectory = "out"
		defer func() { l.ExtractDirectory = "" }()
		var err error
		withStdin("a\n", func() { err = lha.CommandExtract("r5.lzh", l) })
		s := fmt.Sprint(snapText("out"), err)
		fresh("out")
		return s
	})
	add(true, "extract over existing files", func(l *lha.Lha) string {
		writeFile("out/one", []byte("mine"))
		writeFile("out/two", []byte("mine"))
		l.ExtractDirectory = "out"
		defer func() { l.ExtractDirectory = "" }()
		err := lha.CommandExtract("r5.lzh", l)
		s := fmt.Sprint(snapText("out"), err)
		fresh("out")
		return s
	})
	// a directory entry, then one which does not decode
	dirBad := func() []byte {
		d := &Ent{Kind: 'd', Name: "sub/", Level: 2, Mode: 0700, Time: 1000000000}
		e := sample("-lh5-", 5)
		e.Name = "bad"
		b := e.Bytes()
		b[len(b)-3] ^= 0x55
		return append(append(d.Bytes(), b...), 0)
	}()
	add(true, "extract a directory, then fail", func(l *lha.Lha) string {
		writeFile("n.lzh", dirBad)
		defer os.Remove("n.lzh")
		l.ExtractDirectory = "out"
		defer func() { l.ExtractDirectory = "" }()
		err := lha.CommandExtract("n.lzh", l)
		fresh("out")
		return fmt.Sprint(err != nil)
	})
	add(true, "extract next to a directory", func(l *lha.Lha) string {
		must(os.Mkdir("out/sub", 0755))
		must(os.Chtimes("out/sub", unix(1234567890), unix(1234567890)))
		l.ExtractDirectory = "out"
		defer func() { l.ExtractDirectory = "" }()
		err := lha.CommandExtract("r5.lzh", l)
		fi, e := os.Lstat("out/sub")
		must(e)
		s := fmt.Sprint(fi.ModTime().Unix(), snapText("out"), err)
		fresh("out")
		return s
	})
	add(true, "archive nothing", func(l *lha.Lha) string {
		return fmt.Sprint(lha.CommandAdd("nothing.lzh", l))
	})
	add(true, "archive into a missing directory", func(l *lha.Lha) string {
		return fmt.Sprint(lha.NewLha("no/such/n.lzh").CompressBytes("x", []byte("abc"), 5, 2) != nil)
	})
	add(true, "update a damaged archive", func(l *lha.Lha) string {
		err := lha.NewLha("r17.lzh").CompressBytes("x", []byte("abc"), 5, 2)
		return fmt.Sprint(err != nil, dig(readFile("r17.lzh")))
	})
	return ops
}

// snapText is the tree without the times of what is not extracted.
func snapText(dir string) string {
	m := snapshot(dir, false)
	var s []string
	for k, v := range m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// childOp prints the answer of an operation in a fresh process.
func childOp(a []string) {
	must(os.Chdir(a[0]))
	i, _ := strconv.Atoi(a[1])
	out := os.Stdout
	dn, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	os.Stdout, os.Stdin = dn, dn
	r := histOps()[i].run(lha.NewLha("r0.lzh"))
	fmt.Fprintf(out, "answer:%q", r)
	os.Exit(0)
}

func init() {
	register(&Prop{
		ID:        "C17",
		Technique: "bounded exhaustive exploration of operation histories in one process: every sequence of operations up to the bound (encoders, decoders, headers, extraction, listing, updates; succeeding and failing) is run on the real code and every answer compared with the answer of a fresh process",
		Level:     "model_checking",
		Rule:      "state = distinct history; transition = one operation; trace = one history whose answers were compared with those of fresh processes",
		Bounds: map[string]string{
			"quick":    "about 400 operations: 5 writable methods x 14 contents and failing streams, contents of 150000 bytes, 13 methods decoded whole, cut, altered in 8 ways and beyond their end, references before the start, every header kind, 23 archives tested, extracted, listed, read; archives made; operations with the settings as the object has them (add, automatic update, list, compress, decompress, move, backup, dry run, print, conversion); refused operations: every pair on one object; every triple of 4/5 of 60 of them",
			"thorough": "every pair also on fresh objects; every triple of about 60 operations",
		},
		StallSec: 120,
		Explore: func(c *Ctx) {
			ops := histOps()
			fresh("w")
			inDir("w", prepare17)
			self, err := os.Executable()
			must(err)
			base := make([]string, len(ops))
			// the answers of fresh processes
			cache := c.Bin + "/answers" // of all workers
			want := func(i int) string {
				if base[i] == "" {
					if b, err := os.ReadFile(fmt.Sprint(cache, "/", i)); err == nil {
						base[i] = string(b)
						return base[i]
					}
					d := c.Dir + "/f"
					fresh(d)
					inDir(d, prepare17)
					out, err := exec.Command(self, "child", "op", d, fmt.Sprint(i)).Output()
					s := string(out)
					if err != nil || !strings.HasPrefix(s, "answer:") {
						base[i] = fmt.Sprintf("died: %v %q", err, s)
						return base[i]
					}
					r, err := strconv.Unquote(s[7:])
					must(err)
					base[i] = "ok" + r
					tmp := fmt.Sprintf("%s/%d.%d", cache, i, os.Getpid())
					if os.WriteFile(tmp, []byte(base[i]), 0666) == nil {
						os.Rename(tmp, fmt.Sprint(cache, "/", i))
					}
				}
				return base[i]
			}
			// each worker asks for its part first
			answers := func(t *T) {
				for i := range ops {
					want((i + int(t.Index)*len(ops)/8) % len(ops))
					t.Beat()
				}
			}
			hist := func(t *T, s []int, one bool) {
				t.Traces(1)
				t.Beat()
				t.Distinct([]byte(fmt.Sprint(s, one)))
				for _, o := range s {
					want(o)
				}
				inDir("w", func() {
					l := lha.NewLha("r0.lzh")
					for k, o := range s {
						if !one {
							l = lha.NewLha("r0.lzh")
						}
						t.Trans(1)
						if got := "ok" + ops[o].run(l); got != want(o) {
							var h []string
							for _, x := range s[:k] {
								h = append(h, ops[x].name)
							}
							t.Fail("after %q, %q answers %.200q instead of %.200q", h, ops[o].name, got, want(o))
							return
						}
					}
				})
			}
			lab := func(s []int) func() string {
				s = cp(s)
				return func() string {
					var h []string
					for _, x := range s {
						h = append(h, ops[x].name)
					}
					return strings.Join(h, ", then ")
				}
			}
			for i := range ops {
				i := i
				// one case per first operation keeps the answers of few fresh processes per worker
				c.Case(func() string { return ops[i].name + ", then each operation" }, func(t *T) {
					answers(t)
					for j := range ops {
						hist(t, []int{i, j}, true)
						if c.Thorough {
							hist(t, []int{i, j}, false)
						}
						if t.Failed() {
							return
						}
					}
				})
			}
			var core []int
			for i, o := range ops {
				if o.core {
					core = append(core, i)
				}
			}
			sub := core
			if !c.Thorough {
				sub = nil
				for k := 0; k < len(core); k++ {
					if k%5 < 4 {
						sub = append(sub, core[k])
					}
				}
			}
			seqs(len(sub), 2, 2, func(s []int) {
				x := []int{sub[s[0]], sub[s[1]]}
				c.Case(func() string { return lab(x)() + ", then each of the core" }, func(t *T) {
					for _, y := range sub {
						hist(t, append(cp(x), y), true)
						if t.Failed() {
							return
						}
					}
				})
			})
		},
	})
}
