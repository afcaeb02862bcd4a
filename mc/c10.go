package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"time"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// arcState is an archive as a map of names; raw is header and data.
type arcEnt struct {
	raw     []byte
	content []byte
	method  string
	time    int64
	level   int
	mode    int
}

// arcMap parses the archive with the model; every entry must decode.
func arcMap(b []byte) (map[string]*arcEnt, []string, error) {
	m := map[string]*arcEnt{}
	var order []string
	rest := b
	for {
		e, err := ref.Parse(rest)
		if err == ref.ErrEnd {
			return m, order, nil
		}
		if err != nil {
			return nil, nil, err
		}
		n := e.HeaderSize + e.Packed
		if n > len(rest) {
			return nil, nil, fmt.Errorf("truncated data of %q", e.Name)
		}
		if _, ok := m[e.Name]; ok {
			return nil, nil, fmt.Errorf("%q is there twice", e.Name)
		}
		a := &arcEnt{raw: rest[:n], method: e.Method, time: e.Time, level: e.Level, mode: e.Mode}
		if e.Orig > 0 {
			out, err := ref.Decode(e.Method, rest[e.HeaderSize:n], e.Orig)
			if k, ok := known[e.Method+string(rest[e.HeaderSize:n])]; ok && len(k) == e.Orig {
				out, err = k, nil
			}
			if err == nil {
				if int(ref.CRC16(out)) != e.Crc {
					return nil, nil, fmt.Errorf("CRC of %q", e.Name)
				}
				a.content = out
			} else if len(e.Method) == 5 && (e.Method[1] == 'l' && e.Method[2] == 'h') {
				return nil, nil, fmt.Errorf("%q: %v", e.Name, err)
			}
		}
		m[e.Name] = a
		order = append(order, e.Name)
		rest = rest[n:]
	}
}

// addOp is one add operation and what it does to the map.
type addOp struct {
	name  string
	files []string // base names added, in the current directory
	from  string   // directory of the sources ("" or "sub/")
	body  []byte   // what the sources hold; nil: they do not exist
	mtime int64    // 0: given from memory
	upd   bool
	all   bool // update with no file given
	fresh bool
	noex  bool
	sort  bool
	dup   bool // two sources of one base name: refused
	ref   bool // to be refused
	meth  int
	level int
	kind  byte // 'd', 'l'
}

// putFile writes a file that may be there write protected.
func putFile(name string, b []byte) {
	os.Remove(name)
	writeFile(name, b)
}

const (
	tOld  = 1000000000
	tMid  = 1400000000
	tLate = 2000000000
)

func addOps() []addOp {
	x1 := []byte("first content of it")
	x2 := bytes.Repeat([]byte("second content, compressible. "), 9)
	x3 := []byte("third")
	return []addOp{
		{name: "bytes a x1 lh5 l2", files: []string{"a"}, body: x1, meth: 5, level: 2},
		{name: "bytes b x2 lh5 l1", files: []string{"b"}, body: x2, meth: 5, level: 1},
		{name: "bytes a empty l0", files: []string{"a"}, body: []byte{}, meth: 5, level: 0},
		{name: "bytes c x2 lh1 l0", files: []string{"c"}, body: x2, meth: 1, level: 0},
		{name: "bytes dir/a x2 stored l2", files: []string{"a"}, from: "dir/", body: x2, meth: 0, level: 2},
		{name: "file a x2 mid lh7 l1", files: []string{"a"}, body: x2, mtime: tMid, meth: 7, level: 1},
		{name: "file b x3 old l0", files: []string{"b"}, body: x3, mtime: tOld, meth: 5, level: 0},
		{name: "files c,a x1 old l2", files: []string{"c", "a"}, body: x1, mtime: tOld, meth: 6, level: 2},
		{name: "sorted files c,b x2 mid l2", files: []string{"c", "b"}, body: x2, mtime: tMid, sort: true, meth: 5, level: 2},
		{name: "file sub/a x1 late l1", files: []string{"a"}, from: "sub/", body: x1, mtime: tLate, meth: 5, level: 1},
		{name: "update a x3 old", files: []string{"a"}, body: x3, mtime: tOld, upd: true, meth: 5, level: 2},
		{name: "update a x3 mid", files: []string{"a"}, body: x3, mtime: tMid, upd: true, meth: 5, level: 1},
		{name: "update b,a x2 late", files: []string{"b", "a"}, body: x2, mtime: tLate, upd: true, meth: 5, level: 2},
		{name: "update all, sources x3 mid", files: []string{"a", "c"}, body: x3, mtime: tMid, upd: true, all: true, meth: 5, level: 2},
		{name: "new archive with b x1", files: []string{"b"}, body: x1, mtime: tMid, fresh: true, meth: 5, level: 2},
		{name: "missing source a", files: []string{"a"}, mtime: tMid, meth: 5, level: 2},
		{name: "no execution b x2 late", files: []string{"b"}, body: x2, mtime: tLate, noex: true, meth: 5, level: 2},
		{name: "a and sub/a at once", files: []string{"a"}, body: x1, mtime: tMid, dup: true, meth: 5, level: 2},
		{name: "directory sub l1", files: []string{"sub/"}, body: []byte{}, mtime: tMid, kind: 'd', meth: 5, level: 1},
		{name: "link c l2", files: []string{"c"}, body: []byte{}, mtime: 1, kind: 'l', meth: 5, level: 2},
		{name: "files sub/c,sub/a x3 late l2", files: []string{"c", "a"}, from: "sub/", body: x3, mtime: tLate, meth: 5, level: 2},
		{name: "the same file twice at once", files: []string{"b", "b"}, body: x3, mtime: tMid, meth: 5, level: 1},
	}
}

// apply runs the operation on arc and checks its effect; prev is nil if there
// was no archive.
func (o *addOp) apply(t *T, l *lha.Lha, arc string, prev []byte, what func() string) (now []byte, ok bool) {
	t.Trans(1)
	bad := func(f string, a ...interface{}) ([]byte, bool) {
		t.Fail("%s: %s: %s", what(), o.name, fmt.Sprintf(f, a...))
		return nil, false
	}
	for _, n := range []string{"a", "b", "c", "sub/a", "sub/c"} {
		os.Remove(n)
	}
	os.Mkdir("sub", 0755)
	srcs := []string{}
	for _, n := range o.files {
		srcs = append(srcs, o.from+n)
	}
	if o.dup {
		srcs = []string{"a", "sub/a"}
	}
	switch o.kind {
	case 'd':
		must(os.Chtimes("sub", time.Unix(o.mtime, 0), time.Unix(o.mtime, 0)))
	case 'l':
		must(os.Symlink("some/target", "c"))
	}
	if o.body != nil && o.mtime != 0 && o.kind == 0 {
		for _, n := range srcs {
			writeFile(n, o.body)
			tm := time.Unix(o.mtime, 0)
			must(os.Chtimes(n, tm, tm))
		}
	}
	before := map[string]*arcEnt{}
	if prev != nil {
		m, _, err := arcMap(prev)
		if err != nil {
			panic("harness: " + err.Error())
		}
		before = m
	}
	perm := func() os.FileMode {
		fi, err := os.Lstat(arc)
		if err != nil {
			return 0
		}
		return fi.Mode()
	}
	var mode os.FileMode
	if prev != nil {
		must(os.Chmod(arc, []os.FileMode{0644, 0600, 0664, 0640, 0755, 0606, 0444, 0400}[(len(prev)+len(o.name))%8]))
		mode = perm()
	}
	srcSnap := snapshot("sub", true)
	l.UpdateIfNewer, l.NewArchive, l.Noexec, l.SortContents = o.upd, o.fresh, o.noex, o.sort
	l.CmdFilev, l.CmdFilec = nil, 0
	start := time.Now().Unix()
	var err error
	switch {
	case o.mtime == 0:
		err = l.CompressBytes(o.from+o.files[0], o.body, o.meth, o.level)
	case len(srcs) == 1 && !o.all:
		err = l.Compress(srcs[0], o.meth, o.level)
	default:
		l.CompressMethod, l.HeaderLevel = o.meth, o.level
		if !o.all {
			l.CmdFilev, l.CmdFilec = srcs, len(srcs)
		}
		err = lha.CommandAdd(arc, l)
	}
	end := time.Now().Unix()
	if d := snapDiff(srcSnap, snapshot("sub", true)); d != "" {
		return bad("sources changed: %s", d)
	}
	if des, _ := os.ReadDir("."); true {
		for _, d := range des {
			if n := d.Name(); len(n) > 2 && n[:2] == "lh" {
				os.Remove(n)
				return bad("%s left behind", n)
			}
		}
	}
	if m := perm(); prev != nil && m != mode {
		return bad("the archive has mode %v instead of %v", m, mode)
	}
	nb, rerr := os.ReadFile(arc)
	if o.dup || o.ref {
		if err == nil {
			return bad("accepted")
		}
	} else if o.all && prev == nil {
		if err == nil {
			return bad("no archive to update, but no error")
		}
	} else if err != nil {
		return bad("%v", err)
	}
	if o.noex || err != nil {
		if prev == nil && rerr == nil {
			return bad("the archive appeared")
		}
		if prev != nil && !bytes.Equal(nb, prev) {
			return bad("the archive changed")
		}
		return prev, true
	}
	if rerr != nil {
		return bad("no archive: %v", rerr)
	}
	after, _, perr := arcMap(nb)
	if perr != nil {
		return bad("the archive is malformed: %v", perr)
	}
	want := map[string]*arcEnt{}
	if !o.fresh {
		for k, v := range before {
			want[k] = v
		}
	}
	touched := map[string]bool{}
	if o.body != nil {
		for _, n := range o.files {
			old, there := want[n]
			if o.all && !there {
				continue
			}
			if o.upd && there && old.time >= o.mtime {
				continue
			}
			touched[n] = true
			want[n] = nil
		}
	}
	for n := range want {
		g, ok := after[n]
		if !ok {
			return bad("%q is lost", n)
		}
		if o.all && n == "sub/" { // a directory that is there: its entry may be renewed
			if g.method != "-lhd-" {
				return bad("%q has method %s", n, g.method)
			}
			continue
		}
		if !touched[n] {
			if !bytes.Equal(g.raw, want[n].raw) {
				return bad("the entry of %q, which is not concerned, changed: %s", n, diff(g.raw, want[n].raw))
			}
			continue
		}
		if !bytes.Equal(g.content, o.body) {
			return bad("%q holds %s instead of %s", n, q(g.content), q(o.body))
		}
		if o.kind != 0 {
			if g.method != "-lhd-" || g.level != o.level {
				return bad("%q has method %s level %d", n, g.method, g.level)
			}
			if want := map[byte]int{'d': 0040755, 'l': 0120777}[o.kind]; g.mode != want {
				return bad("%q has mode %o instead of %o", n, g.mode, want)
			}
			continue
		}
		wm := fmt.Sprintf("-lh%d-", o.meth)
		if g.method != wm && !(g.method == "-lh0-" && (len(o.body) < 60 || o.meth == 0)) {
			return bad("%q has method %s instead of %s", n, g.method, wm)
		}
		if g.level != o.level {
			return bad("%q has header level %d instead of %d", n, g.level, o.level)
		}
		if o.mtime != 0 && g.time != o.mtime || o.mtime == 0 && (g.time < start-2 || g.time > end+2) {
			return bad("%q has time %d instead of %d", n, g.time, o.mtime)
		}
	}
	for n := range after {
		if _, ok := want[n]; !ok {
			return bad("%q appeared", n)
		}
	}
	return nb, true
}

// stateKey of an archive: what the map holds, not the times of memory entries.
func stateKey(b []byte) []byte {
	if b == nil {
		return []byte("none")
	}
	m, order, _ := arcMap(b)
	sort.Strings(order)
	var k []byte
	for _, n := range order {
		e := m[n]
		tm := e.time
		if tm != tOld && tm != tMid && tm != tLate {
			tm = 1
		}
		k = append(k, fmt.Sprintf("%s|%s|%d|%d|%x|", n, e.method, e.level, tm, ref.CRC16(e.content))...)
	}
	return k
}

func foreignArchive(k int) []byte {
	switch k {
	case 0:
		return nil
	case 1: // every level, no end mark
		var es []*Ent
		for i, n := range []string{"z", "a", "dir/x", "m"} {
			e := sample([]string{"-lh5-", "-lh0-", "-lzs-", "-lh1-"}[i], i)
			e.Name, e.Level = n, i
			e.Time = tMid
			es = append(es, e)
		}
		return archive(es, false)
	case 2: // a directory, a link, comment and unknown extensions, bytes after the end
		d := &Ent{Kind: 'd', Name: "sub/", Level: 2, Time: tOld}
		s := &Ent{Kind: 'l', Name: "c", Link: "a", Level: 1, Time: tOld}
		h := &ref.Header{Level: 2, Method: "-lh0-", Packed: 3, Orig: 3, Crc: ref.CRC16([]byte("abc")), UnixTime: tLate, OS: 'M', Pad: 1,
			Exts: []ref.Ext{{Type: 0x3f, Data: []byte("comment")}, {Type: 1, Data: []byte("b")}, {Type: 0, Data: []byte{0, 0, 9}}, {Type: 0xfe, Data: bytes.Repeat([]byte{7}, 400)}}}
		b := append(d.Bytes(), s.Bytes()...)
		b = append(b, h.Build()...)
		b = append(b, "abc"...)
		return append(b, 0, 'j', 'u', 'n', 'k')
	}
	return []byte{0}
}

func init() {
	register(&Prop{
		ID:        "C10",
		Technique: "explicit-state exploration of add histories: every sequence of add operations up to the bound is run on the real code and after every step the archive is compared, byte for byte outside the entries concerned, with a name-to-content map model",
		Level:     "model_checking",
		Rule:      "state = distinct archive content (names, methods, levels, times, CRCs); transition = one add operation run and compared with the model; trace = one complete history replayed",
		StallSec:  150,
		Bounds: map[string]string{
			"quick":    "22 operations (memory and file adds, directory, link, several files, sorted, same base name, update-if-newer with older, equal and newer sources, update of all, new archive, missing source, dry run): every history of length 3 from 4 initial archives (none, foreign archive of all levels, foreign with link, directory and extensions, empty), fresh and shared handles; entries of 1 byte to 1.1 MB around the buffer sizes, old and added, histories of length 2; archives of 9 to 1025 entries, 14 operations (all or half of them added, updated, reconstructed) in histories of length 2; about 1290 names (every length to 255, every byte at 3 places) at 3 levels in histories of length 4; update with sources up to 5 s older or newer; foreign archives holding a name several times, at every place and level; sources of 4 GiB and more",
			"thorough": "every history of length 4 from the 4 initial archives, length 3 with shared handles",
		},
		Explore: func(c *Ctx) {
			ops := addOps()
			// entries around the sizes of the buffers
			for i, n := range append(around(2048, 4096, 8192, 65536, 131072), 1, 3000, 1100000) {
				i, n := i, n
				c.Case(str("archive with an entry of %d bytes", n), func(t *T) {
					big := unique(n, 251, 2)
					for at := 0; at < 3; at++ {
						var es []*Ent
						for k, m := range []string{"a", "b", "z"} {
							e := sample([]string{"-lh5-", "-lh0-", "-lh1-"}[k], k+i)
							e.Name, e.Level, e.Time = m, (i+k+at)%3, tMid
							if k == at {
								e.Method, e.Content, e.Packed = "-lh0-", big, big
							}
							es = append(es, e)
						}
						first := archive(es, at != 1)
						for o1 := range ops {
							putFile("h.lzh", first)
							cur, ok := ops[o1].apply(t, lha.NewLha("h.lzh"), "h.lzh", first, func() string { return fmt.Sprintf("large entry %d", at) })
							if !ok {
								return
							}
							o2 := (o1*5 + at + i) % len(ops)
							cur, ok = ops[o2].apply(t, lha.NewLha("h.lzh"), "h.lzh", cur, func() string { return fmt.Sprintf("large entry %d, %s", at, ops[o1].name) })
							if !ok {
								return
							}
							t.Distinct(stateKey(cur), []byte(fmt.Sprint(n, at)))
							t.Traces(1)
						}
					}
				})
				c.Case(str("adding %d bytes", n), func(t *T) {
					for v, body := range [][]byte{unique(n, 251, 2), skew(n, 9, uint32(n))} {
						for k, f := range []int{0, 1, 3} {
							for o := 0; o < 4; o++ {
								add := addOp{name: fmt.Sprintf("add %d bytes to b (%d)", n, o), files: []string{"b"}, body: body, meth: []int{0, 5, 7, 1}[(o+v)%4], level: (o + k) % 3}
								if v == 0 {
									add.meth = 0
								}
								if o&1 == 1 {
									add.mtime = tLate
								}
								cur := foreignArchive(f)
								os.Remove("h.lzh")
								if cur != nil {
									putFile("h.lzh", cur)
								}
								cur, ok := add.apply(t, lha.NewLha("h.lzh"), "h.lzh", cur, func() string { return fmt.Sprint("archive ", f) })
								if !ok {
									return
								}
								cur, ok = ops[(o*3+v+k)%3].apply(t, lha.NewLha("h.lzh"), "h.lzh", cur, func() string { return fmt.Sprint("archive ", f, " ", add.name) })
								if !ok {
									return
								}
								t.Distinct(stateKey(cur), []byte(fmt.Sprint(n, f)))
								t.Traces(1)
							}
						}
					}
				})
			}
			// archives of many entries, and many files at once
			for i, n := range []int{9, 17, 33, 64, 65, 128, 129, 255, 256, 257, 513, 1025} {
				i, n := i, n
				c.Case(str("archive of %d entries", n), func(t *T) {
					var all []string
					for k := 0; k < n; k++ {
						all = append(all, fmt.Sprintf("file %d", k*7%n))
					}
					sort.Strings(all)
					if i%2 == 1 {
						all[0], all[n-1] = all[n-1], all[0]
					}
					defer func() {
						for _, f := range all {
							os.Remove(f)
						}
					}()
					first := func() []byte {
						var es []*Ent
						for k, f := range all {
							e := sample([]string{"-lh5-", "-lh0-", "-lh1-"}[k%3], k)
							e.Name, e.Level, e.Time = f, k%3, tMid
							es = append(es, e)
						}
						return archive(es, i%2 == 0)
					}()
					x := []byte("added later")
					many := []addOp{
						{name: "bytes a", files: []string{"a"}, body: x, meth: 5, level: 2},
						{name: "file a", files: []string{"a"}, body: x, mtime: tMid, meth: 5, level: 1},
						{name: "file z sorted", files: []string{"z"}, body: x, mtime: tMid, sort: true, meth: 5, level: 1},
						{name: "the first", files: all[:1], body: x, mtime: tMid, meth: 5, level: 0},
						{name: "the last", files: all[n-1:], body: x, meth: 5, level: 2},
						{name: "one in the middle, sorted", files: all[n/2 : n/2+1], body: x, mtime: tOld, sort: true, meth: 5, level: 2},
						{name: "all", files: all, body: x, mtime: tLate, meth: 5, level: 2},
						{name: "all but one, sorted", files: all[1:], body: x, mtime: tLate, sort: true, meth: 5, level: 1},
						{name: "update of all, newer", files: all, body: x, mtime: tLate, upd: true, all: true, meth: 5, level: 2},
						{name: "update of all, older", files: all, body: x, mtime: tOld, upd: true, all: true, meth: 5, level: 2},
						{name: "update of the second half", files: all[n/2:], body: x, mtime: tLate, upd: true, all: true, meth: 5, level: 0},
						{name: "update of the second half by name", files: all[n/2:], body: x, mtime: tLate, upd: true, meth: 5, level: 2},
						{name: "new archive of all", files: all, body: x, mtime: tMid, fresh: true, meth: 5, level: 1},
						{name: "no execution of all", files: all, body: x, mtime: tLate, noex: true, meth: 5, level: 2},
					}
					for o1 := range many {
						putFile("h.lzh", first)
						l := lha.NewLha("h.lzh")
						cur, ok := first, true
						for step := 0; step < 2 && ok; step++ {
							for _, f := range append([]string{"z"}, all...) {
								os.Remove(f)
							}
							o := many[(o1*(1+step*4)+step*(i+3))%len(many)]
							cur, ok = o.apply(t, l, "h.lzh", cur, func() string { return fmt.Sprintf("step %d", step) })
						}
						if !ok {
							return
						}
						t.Distinct(stateKey(cur))
						t.Traces(1)
					}
					os.Remove("z")
				})
			}
			// names: each is there once, with its latest content
			var names []string
			for n := 1; n <= 255; n++ {
				names = append(names, string(bytes.Repeat([]byte("n"), n)), string(unique(n, 26, 'a')))
			}
			for x := 1; x < 255; x++ {
				if x == '/' || x == '\\' {
					continue
				}
				names = append(names, "n"+string([]byte{byte(x)})+"m", string([]byte{byte(x)})+"n", "n"+string([]byte{byte(x)}))
			}
			names = append(names, "...", "..a", "a..", "lh", "n", "N", "nM", "Nm", "n.lzh", "n.bak", " ", "a b", "-lh5-", "\xe3\x81\x82\xe3\x81\x84", "\x83\x5b\x83\x5e"[:1]+"n")
			for i, n := range names {
				i, n := i, n
				c.Case(str("name %.40q of %d bytes", n, len(n)), func(t *T) {
					defer os.Remove(n)
					for level := 0; level < 3; level++ {
						for f := 0; f < 2; f++ {
							cur := foreignArchive(f)
							os.Remove("h.lzh")
							if cur != nil {
								putFile("h.lzh", cur)
							}
							l := lha.NewLha("h.lzh")
							for step := 0; step < 4; step++ {
								o := addOp{name: fmt.Sprintf("add it, step %d, level %d", step, level), files: []string{n}, body: []byte(fmt.Sprint("content ", step)), mtime: tOld + int64(step), meth: 5, level: level}
								if step == 3 {
									o.level = (level + 1) % 3
								}
								if (step+i)%2 == 1 && i%3 != 0 {
									o.mtime = 0
								}
								if step == 1 {
									o.files = []string{n[:len(n)-1] + "z"}
									if o.files[0] == n {
										o.files[0] = n[:len(n)-1] + "y"
									}
								}
								o.ref = len(n) > 221 && o.level == 0
								nb, ok := o.apply(t, l, "h.lzh", cur, func() string { return fmt.Sprintf("name %q", n) })
								os.Remove(o.files[0])
								if !ok {
									return
								}
								cur = nb
								t.Distinct(stateKey(cur))
							}
							t.Traces(1)
						}
					}
				})
			}
			// a foreign archive may hold a name several times: what is added
			// replaces them all, the others stay as they are
			for mask := 1; mask < 16; mask++ {
				for _, tail := range []int{0, 1} {
					mask, tail := mask, tail
					c.Case(str("entries %04b of 5 have the name added, end mark %d", mask, tail), func(t *T) {
						for k := 0; k < 12; k++ {
							var es []*Ent
							for i := 0; i < 5; i++ {
								e := sample([]string{"-lh5-", "-lh0-", "-lh1-"}[(i+k)%3], i)
								e.Name, e.Level, e.Time = "o", (i+k)%3, tOld
								if mask>>uint(i)&1 == 1 {
									e.Name = "a"
								} else if i > 2 {
									e.Name = "b"
								}
								es = append(es, e)
							}
							putFile("h.lzh", archive(es, tail == 1))
							body := []byte("content that is added")
							l := lha.NewLha("h.lzh")
							l.SortContents = k%2 == 1
							l.UpdateIfNewer = k%3 == 1
							var err error
							if k%4 < 2 {
								err = l.CompressBytes("a", body, 5, k%3)
							} else {
								writeFile("a", body)
								err = l.Compress("a", 5, k%3)
								os.Remove("a")
							}
							t.Trans(1)
							if err != nil {
								t.Fail("%d: %v", k, err)
								return
							}
							now, _ := os.ReadFile("h.lzh")
							left := map[string]int{}
							for _, e := range es {
								if e.Name != "a" {
									left[string(e.Bytes())]++
								}
							}
							n := 0
							for rest := now; ; {
								e, err := ref.Parse(rest)
								if err == ref.ErrEnd {
									break
								}
								if err != nil || e.HeaderSize+e.Packed > len(rest) {
									t.Fail("%d: malformed archive: %v", k, err)
									return
								}
								raw := rest[:e.HeaderSize+e.Packed]
								rest = rest[len(raw):]
								if e.Name != "a" {
									if left[string(raw)] == 0 {
										t.Fail("%d: an entry of %q changed or is there too often", k, e.Name)
									}
									left[string(raw)]--
									continue
								}
								n++
								if out, err := ref.Decode(e.Method, raw[e.HeaderSize:], e.Orig); err != nil || !bytes.Equal(out, body) {
									t.Fail("%d: the old content of %q is still there", k, e.Name)
								}
							}
							if n != 1 {
								t.Fail("%d: the name is there %d times", k, n)
							}
							for _, v := range left {
								if v != 0 {
									t.Fail("%d: an entry is lost", k)
								}
							}
							t.Distinct([]byte(fmt.Sprint(mask, tail, k)))
							t.Traces(1)
						}
					})
				}
			}
			// what no header can describe
			for _, over := range []int64{1, 2, 1 << 20, 1 << 32} {
				over := over
				c.Case(str("source of 4 GiB and %d bytes", over-1), func(t *T) {
					for f := 0; f < 2; f++ {
						for level := 0; level < 3; level++ {
							cur := foreignArchive(f)
							os.Remove("h.lzh")
							if cur != nil {
								putFile("h.lzh", cur)
							}
							os.Remove("huge")
							writeFile("huge", nil)
							must(os.Truncate("huge", 1<<32-1+over))
							l := lha.NewLha("h.lzh")
							l.DeleteAfterAppend = true
							err := l.Compress("huge", 5, level)
							t.Trans(1)
							if err == nil {
								t.Fail("level %d: accepted", level)
							}
							if _, e := os.Lstat("huge"); e != nil {
								t.Fail("level %d: removed, error %v", level, err)
							}
							now, _ := os.ReadFile("h.lzh")
							if !bytes.Equal(now, cur) {
								t.Fail("level %d: the archive changed, error %v", level, err)
							}
							os.Remove("huge")
							t.Traces(1)
						}
					}
				})
			}
			// a source as old as the entry, or a little older or newer
			for diff := int64(-5); diff <= 5; diff++ {
				for _, at := range []int64{tOld, tMid, tMid + 1, 1<<31 - 1, 1 << 31, 1<<32 - 10, 315536400, 100000} {
					diff, at := diff, at
					c.Case(str("update, source %d seconds newer than %d", diff, at), func(t *T) {
						for level := 0; level < 3; level++ {
							for k := 0; k < 3; k++ {
								a := sample("-lh5-", 1)
								a.Name, a.Level, a.Time = "a", level, uint32(at)
								b := sample("-lh0-", 2)
								b.Name, b.Level, b.Time = "b", (level+k)%3, tMid
								cur := archive([]*Ent{a, b}, true)
								if k == 2 {
									cur = archive([]*Ent{b, a}, false)
								}
								putFile("h.lzh", cur)
								o := addOp{name: "update", files: []string{"a"}, body: []byte("other content"), mtime: at + diff, upd: true, meth: 5, level: (level + k + 1) % 3}
								o.all = k == 1
								cur, ok := o.apply(t, lha.NewLha("h.lzh"), "h.lzh", cur, func() string { return fmt.Sprintf("entry of level %d", level) })
								if !ok {
									return
								}
								t.Distinct(stateKey(cur), []byte(fmt.Sprint(diff, at)))
								t.Traces(1)
							}
						}
					})
				}
			}
			depth := 3
			if c.Thorough {
				depth = 4
			}
			for init := 0; init < 4; init++ {
				for o1 := range ops {
					for o2 := range ops {
						init, o1, o2 := init, o1, o2
						// depth-first below the first two operations, a fresh handle each
						c.Case(str("initial archive %d, %s, %s, ...", init, ops[o1].name, ops[o2].name), func(t *T) {
							var path []string
							what := func() string { return fmt.Sprint("after ", path) }
							var rec func(k int, cur []byte)
							rec = func(k int, cur []byte) {
								t.Distinct(stateKey(cur))
								if k == depth {
									t.Traces(1)
									return
								}
								for i := range ops {
									if k == 0 && i != o1 || k == 1 && i != o2 {
										continue
									}
									if cur == nil {
										os.Remove("h.lzh")
									} else {
										putFile("h.lzh", cur)
									}
									nb, ok := ops[i].apply(t, lha.NewLha("h.lzh"), "h.lzh", cur, what)
									if !ok {
										return
									}
									path = append(path, ops[i].name)
									rec(k+1, nb)
									path = path[:len(path)-1]
									if t.Failed() {
										return
									}
								}
							}
							rec(0, foreignArchive(init))
						})
						// one handle through the whole history
						sd := 3
						c.Case(str("one handle: initial archive %d, %s, %s, ...", init, ops[o1].name, ops[o2].name), func(t *T) {
							if init > 1 && !c.Thorough {
								return
							}
							for o3 := range ops {
								cur := foreignArchive(init)
								if cur == nil {
									os.Remove("h.lzh")
								} else {
									putFile("h.lzh", cur)
								}
								l := lha.NewLha("h.lzh")
								hist := []int{o1, o2, o3}[:sd]
								for k, i := range hist {
									nb, ok := ops[i].apply(t, l, "h.lzh", cur, func() string { return fmt.Sprint("one handle, step ", k, " of ", hist) })
									if !ok {
										return
									}
									cur = nb
									t.Distinct(stateKey(cur))
								}
								t.Traces(1)
							}
						})
					}
				}
			}
		},
	})
}
