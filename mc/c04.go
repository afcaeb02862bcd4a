package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

type hdesc struct {
	level        int
	generic      bool
	method       string
	packed, orig int
	dir, base    string
	link         string
	crc          int
	time         int64
	mode         int
	uid, gid     int
	user, group  string
	attr         int // the MS-DOS attribute, level 0; 0: as usual
}

func (d hdesc) String() string {
	s := fmt.Sprintf("level %d generic %v %s packed %d orig %d dir %d:%q name %d:%q link %d:%q crc %04x time %d mode %o uid %d gid %d user %d:%q group %d:%q", d.level, d.generic, d.method, d.packed, d.orig,
		len(d.dir), d.dir, len(d.base), d.base, len(d.link), d.link, d.crc, d.time, d.mode, d.uid, d.gid, len(d.user), d.user, len(d.group), d.group)
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// fits: the description can be represented at the level.
func (d hdesc) fits() bool {
	if d.packed > 0xffffffff || d.orig > 0xffffffff {
		return false
	}
	n := len(d.dir) + len(d.base)
	if d.mode&0170000 == 0120000 {
		n += 1 + len(d.link)
	}
	if d.level == 0 {
		if d.generic {
			return n <= 233
		}
		return n <= 221
	}
	if d.level == 1 && d.packed+d.extSize() > 0xffffffff {
		return false
	}
	return n+len(d.user)+len(d.group)+100 <= 4096
}

// extSize is the size of the extension headers at level 1, which its packed size includes.
func (d hdesc) extSize() int {
	base, dir := d.base, d.dir
	if d.mode&0170000 == 0120000 {
		p := d.dir + d.base + "|" + d.link
		i := strings.LastIndexByte(p, '/') + 1
		dir, base = p[:i], p[i:]
	}
	n := 2
	if len(base) > 230 {
		n += 3 + len(base)
	}
	if len(dir) > 0 {
		n += 3 + len(dir)
	}
	n -= 2 // the first size is in the base header
	if !d.generic {
		n += 5 + 7 + 7
		if d.user != "" {
			n += 3 + len(d.user)
		}
		if d.group != "" {
			n += 3 + len(d.group)
		}
	}
	return n
}

// checkWritten writes the description and judges the bytes and their reading.
func checkWritten(t *T, d hdesc) bool {
	h := lha.NewLzHeader()
	h.HeaderLevel = byte(d.level)
	h.Method = []byte(d.method)
	h.PackedSize, h.OriginalSize = d.packed, d.orig
	h.Name = append([]byte(d.dir+d.base), 0)
	if d.link != "" {
		h.Realname = append([]byte(d.link), 0)
	}
	h.Crc, h.HasCrc = uint(d.crc), true
	h.ExtendType = 'U'
	h.Attribute = 0x20
	if d.attr > 0 {
		h.Attribute = byte(d.attr - 1)
	}
	h.UnixLastModifiedStamp = d.time
	h.UnixMode, h.UnixUID, h.UnixGid = uint16(d.mode), uint16(d.uid), uint16(d.gid)
	if d.user != "" {
		h.User = append([]byte(d.user), 0)
	}
	if d.group != "" {
		h.Group = append([]byte(d.group), 0)
	}
	before := *h
	save := lha.GenericFormat
	lha.GenericFormat = d.generic
	b, err := writeHeader(h)
	lha.GenericFormat = save
	t.Trans(1)
	if !d.fits() {
		t.Dim("does_not_fit", 1)
		// a level that cannot hold it: nothing is written
		if err == nil || len(b) > 0 {
			t.Fail("written though it does not fit, error %v, %d bytes; %v", err, len(b), d)
			return false
		}
		return true
	}
	if err != nil {
		t.Fail("not written: %v; %v", err, d)
		return false
	}
	if cname(before.Name) != cname(h.Name) || before.PackedSize != h.PackedSize || before.OriginalSize != h.OriginalSize || before.Crc != h.Crc || !bytes.Equal(before.Method, h.Method) || before.UnixLastModifiedStamp != h.UnixLastModifiedStamp {
		t.Fail("writing changed the description; %v", d)
		return false
	}
	e, err := ref.Parse(append(append([]byte{}, b...), 1, 2, 3))
	if err != nil {
		t.Fail("the independent parser rejects the header: %v; %v", err, d)
		return false
	}
	// what the level can represent
	w := &ref.Entry{HeaderSize: len(b), Level: d.level, Method: d.method, Packed: d.packed, Orig: d.orig, Crc: d.crc, OS: 'U', Name: d.dir + d.base, Link: d.link, Time: d.time,
		Mode: d.mode, UID: d.uid, GID: d.gid, User: d.user, Group: d.group, Attr: 0x20}
	if d.level == 0 {
		w.User, w.Group = "", ""
	}
	w.Attr = int(h.Attribute)
	if d.generic {
		w.OS, w.Mode, w.UID, w.GID, w.User, w.Group = 0, 0100666, 0, 0, "", ""
		if d.level < 2 {
			w.Time = d.time &^ 1
		}
		if d.link != "" { // no mode tells the link from a file
			w.Name, w.Link = d.dir+d.base+"|"+d.link, ""
		}
	}
	if *e != *w {
		t.Fail("the bytes say %+v instead of %+v; %v", *e, *w, d)
		return false
	}
	t.Trans(1)
	g, err, has, pos := getHeader(append(append([]byte{}, b...), 0xa5, 0xa5))
	if err != nil || !has {
		t.Fail("does not read back: %v %v; %v", err, has, d)
		return false
	}
	if pos != len(b) {
		t.Fail("reading back took %d bytes of %d; %v", pos, len(b), d)
		return false
	}
	if s := headerDiff(g, w); s != "" {
		t.Fail("reads back as %s; %v", s, d)
		return false
	}
	return true
}

var zones = []*time.Location{time.UTC, time.FixedZone("jst", 9*3600), time.FixedZone("west", -(4*3600 + 1800))}

func init() {
	register(&Prop{
		ID:        "C04",
		Technique: "bounded exhaustive exploration: every enumerated entry description is written by the real header writer, judged by an independent parser of the format and read back by the real reader",
		Level:     "model_checking",
		Rule:      "state = distinct entry description x level x format; transition = one header written or read by the code; trace = one written header judged by the independent parser and read back",
		Bounds: map[string]string{
			"quick":    "levels 0-2, Unix and generic, every base name length 1..240 and around 4 KiB, directories of 0..3 components to every length 0..240, every permission, every MS-DOS attribute (level 0), sizes/CRCs/ids at every byte boundary, sizes around and beyond 32 bits, user and group lengths, 3 time zones; full product of the representative values",
			"thorough": "every name length to the storage limit x directory lengths, time stamps every 20,000 s over the DOS and Unix ranges",
		},
		Explore: func(c *Ctx) {
			base := hdesc{method: "-lh5-", packed: 10, orig: 20, base: "file.txt", crc: 0x1234, time: 1000000000, mode: 0100644, uid: 1000, gid: 100}
			lv := func(name string, f func(d hdesc, yield func(hdesc))) {
				for level := 0; level <= 2; level++ {
					for _, g := range []bool{false, true} {
						level, g := level, g
						d := base
						d.level, d.generic = level, g
						// slices of the family, so that the workers share it
						for k := 0; k < 8; k++ {
							k := k
							c.Case(str("%s, level %d, generic %v, slice %d", name, level, g, k), func(t *T) {
								i := 0
								f(d, func(d hdesc) {
									i++
									if i%8 != k || t.Failed() {
										return
									}
									t.Traces(1)
									t.Distinct([]byte(d.String()), []byte(d.dir+"\x00"+d.base+"\x00"+d.user))
									checkWritten(t, d)
								})
							})
						}
					}
				}
			}
			nm := func(n int) string {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte('a' + i%26)
				}
				return string(b)
			}
			// product of the representative values
			lv("product", func(d hdesc, yield func(hdesc)) {
				for _, m := range []string{"-lh0-", "-lh5-", "-lhd-"} {
					for _, sz := range [][2]int{{0, 0}, {255, 256}, {0x10000, 0xffffff}, {0x7fffff00, 0xffffffff}} {
						for _, bs := range []string{"a", "file.txt", nm(100)} {
							for _, dir := range []string{"", "d/", "some/long dir/x/", "/abs/"} {
								for _, crc := range []int{0, 0xff, 0xff00} {
									for _, mode := range []int{0100644, 0104755, 0040755, 0120777, 0100000} {
										for _, u := range []string{"", "root"} {
											for _, g := range []string{"", "wheel"} {
												for _, id := range []int{0, 65535} {
													e := d
													e.method, e.packed, e.orig, e.base, e.dir, e.crc, e.mode, e.user, e.group, e.uid, e.gid = m, sz[0], sz[1], bs, dir, crc, mode, u, g, id, 65535-id
													if mode == 0120777 {
														e.link = "target/of link"
													}
													yield(e)
												}
											}
										}
									}
								}
							}
						}
					}
				}
			})
			top := 240
			if c.Thorough {
				top = 4100
			}
			lv("name lengths", func(d hdesc, yield func(hdesc)) {
				for n := 0; n <= 4100; n++ {
					if n == 241 && top == 240 {
						n = 480
					}
					if n == 530 && top == 240 {
						n = 3980
					}
					for _, dir := range []string{"", "d/", "a/b/c/"} {
						if n == 0 && dir == "" {
							continue
						}
						e := d
						e.base, e.dir = nm(n), dir
						yield(e)
						e.user, e.group = "u", "grp"
						yield(e)
					}
				}
			})
			lv("directory lengths", func(d hdesc, yield func(hdesc)) {
				for n := 0; n <= 3900; n++ {
					if n == 241 && top == 240 {
						n = 480
					}
					if n == 530 && top == 240 {
						n = 3840
					}
					for _, k := range []int{1, 2, 30} {
						e := d
						e.base = nm(k)
						e.dir = nm(n) + "/"
						yield(e)
						if n > 2 {
							e.dir = "/" + nm(n-2) + "/x/"
							yield(e)
						}
					}
				}
			})
			lv("owner lengths", func(d hdesc, yield func(hdesc)) {
				for u := 0; u <= 300; u++ {
					for _, g := range []int{0, 1, 5, 200, 255, 256, 300} {
						e := d
						e.user, e.group = nm(u), nm(g)
						yield(e)
						e.user, e.group = nm(g), nm(u)
						yield(e)
					}
				}
			})
			lv("link lengths", func(d hdesc, yield func(hdesc)) {
				for n := 1; n <= 600; n++ {
					for _, k := range []int{1, 9} {
						e := d
						e.method, e.mode, e.packed, e.orig = "-lhd-", 0120777, 0, 0
						e.base, e.link = nm(k), nm(n)
						yield(e)
						e.link = "/" + strings.Repeat("x/", n/2) + "y"
						yield(e)
						e.dir = "dir/"
						yield(e)
					}
				}
			})
			lv("bytes in names", func(d hdesc, yield func(hdesc)) {
				for x := 1; x < 255; x++ {
					if x == '/' || x == '\\' {
						continue
					}
					for _, p := range []int{0, 1, 2} {
						b := []byte("abc")
						b[p] = byte(x)
						e := d
						e.base = string(b)
						yield(e)
						e.dir = string(b) + "/"
						yield(e)
					}
				}
			})
			lv("modes", func(d hdesc, yield func(hdesc)) {
				for m := 0; m < 010000; m++ {
					for _, ty := range []int{0100000, 0040000} {
						e := d
						e.mode = ty | m
						yield(e)
					}
				}
			})
			lv("MS-DOS attributes", func(d hdesc, yield func(hdesc)) {
				for a := 0; a < 256 && d.level == 0; a++ {
					for _, m := range []string{"-lh0-", "-lh5-", "-lhd-"} {
						for _, mode := range []int{0100644, 0100444, 0040755} {
							e := d
							e.attr, e.method, e.mode = a+1, m, mode
							yield(e)
						}
					}
				}
			})
			lv("ids, sizes, CRCs", func(d hdesc, yield func(hdesc)) {
				var vals []int
				for s := 0; s < 32; s++ {
					vals = append(vals, 1<<uint(s), 1<<uint(s)-1, 1<<uint(s)+1, 0x5a<<uint(s)&0xffffffff)
				}
				vals = append(vals, 0xffffffff, 0xfffffffe, 0xfeff, 0xff00)
				for k := 0; k < 80; k++ { // around what level 1 can hold
					vals = append(vals, 0xffffffff-k)
				}
				for s := 32; s < 62; s++ {
					vals = append(vals, 1<<uint(s), 1<<uint(s)+1, 1<<uint(s)+0xffffffff)
				}
				for _, v := range vals {
					for k := 0; k < 6; k++ {
						e := d
						switch k {
						case 0:
							e.packed = v
							yield(e)
							e.dir, e.user, e.group = "some/dir/", "user", "group"
							yield(e)
							e.base = nm(235)
						case 1:
							e.orig = v
						case 2:
							e.crc = v & 0xffff
						case 3:
							e.uid = v & 0xffff
						case 4:
							e.gid = v & 0xffff
						case 5:
							if v > 0xffffffff-4*366*86400 || (d.level < 2 && d.generic && v < 86400*3660) {
								continue
							}
							e.time = int64(v)
						}
						yield(e)
					}
				}
			})
			lv("time stamps in every zone", func(d hdesc, yield func(hdesc)) {
				save := time.Local
				defer func() { time.Local = save }()
				step := int64(86400*3 + 7321)
				if c.Thorough {
					step = 20001
				}
				for _, z := range zones {
					time.Local = z
					from, to := int64(86400*3653), int64(4294967295)
					for tm := from; tm < to; tm += step {
						e := d
						e.time = tm
						yield(e)
					}
					for s := int64(0); s < 86400; s += 61 { // every time of a day
						e := d
						e.time = 1709164800 + s // a leap day
						yield(e)
					}
					for dd := int64(0); dd < 366*5; dd++ { // every day
						e := d
						e.time = 946684800 + dd*86400 + 86399
						yield(e)
					}
					if d.level == 2 || !d.generic {
						for tm := int64(0); tm < from; tm += step {
							e := d
							e.time = tm
							yield(e)
						}
					}
				}
			})
		},
	})
}
