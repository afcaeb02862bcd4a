package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"time"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// zones of the exploration: fixed offsets, and rules with summer time as far as
// the system knows them.
func allZones() (zs []*time.Location) {
	for h := -12; h <= 14; h++ {
		zs = append(zs, time.FixedZone(fmt.Sprintf("fixed%+dh", h), h*3600))
	}
	for _, m := range []int{-570, -210, 330, 345, 765} {
		zs = append(zs, time.FixedZone(fmt.Sprintf("fixed%+dmin", m), m*60))
	}
	for _, n := range []string{"Europe/Paris", "America/New_York", "Australia/Lord_Howe", "Asia/Tokyo", "America/Sao_Paulo"} {
		if z, err := time.LoadLocation(n); err == nil {
			zs = append(zs, z)
		}
	}
	return
}

// moments to record: ends of months and years, leap days, the last and first
// seconds, and every hour around the changes of the clock.
func moments(thorough bool) (us []int64) {
	for y := 1981; y <= 2105; y++ {
		if !thorough && y > 1990 && y < 2095 && y%7 != 0 && y != 2000 && y != 2037 && y != 2038 {
			continue
		}
		for m := time.January; m <= time.December; m++ {
			if !thorough && (y%4 != 0 && m != 2 && m != 3 && m != 12) {
				continue
			}
			u := time.Date(y, m, 1, 0, 0, 0, 0, time.UTC).Unix()
			us = append(us, u-2, u-1, u, u+1, u+86399-43200)
		}
	}
	for _, d := range []string{"2023-03-25", "2023-10-28", "2024-03-09", "2024-11-02", "2023-04-01", "2023-09-30", "2000-10-07"} {
		t, _ := time.Parse("2006-01-02", d)
		for h := 0; h < 72; h++ {
			us = append(us, t.Unix()+int64(h)*3600+1234)
		}
	}
	return
}

// twice: the local time of the moment occurs twice, or the offset changes close
// to it, so that the format cannot tell which moment is meant.
func twice(u int64, z *time.Location) bool {
	_, o := time.Unix(u, 0).In(z).Zone()
	for _, d := range []int64{-3 * 3600, 3 * 3600} {
		_, p := time.Unix(u+d, 0).In(z).Zone()
		if p != o && time.Unix(u+int64(o-p), 0).In(z).Format("2006-01-02 15:04:05") == time.Unix(u, 0).In(z).Format("2006-01-02 15:04:05") {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID:        "C25",
		Technique: "bounded exhaustive exploration: every combination of time zone, moment, header level and format is written, read and extracted by the real code and compared with an independent calendar",
		Level:     "model_checking",
		Rule:      "state = distinct (zone, moment, level, format); transition = one header written, read, or entry extracted; trace = one such combination",
		Bounds: map[string]string{
			"quick":    "32 fixed offsets from -12 h to +14 h and 5 zones with clock changes x about 1500 moments from 1981 to 2105 (month and year ends, leap days, every hour around clock changes) x levels 0-3 x generic and Unix, written and read; extracted and archived files for 18 moments per zone",
			"thorough": "every month of 1981 to 2105",
		},
		Explore: func(c *Ctx) {
			us := moments(c.Thorough)
			in := func(z *time.Location) func() {
				was := time.Local
				time.Local = z
				return func() { time.Local = was }
			}
			for _, z := range allZones() {
				z := z
				local := func(u int64) uint32 {
					_, off := time.Unix(u, 0).In(z).Zone()
					return dosTime(uint32(u + int64(off)))
				}
				for k := 0; k < 8; k++ {
					level, unix := k/2, k%2 == 1
					c.Case(str("zone %v, level %d, Unix %v", z, level, unix), func(t *T) {
						defer in(z)()
						for _, u := range us {
							y := time.Unix(u, 0).In(z).Year()
							if y < 1980 || y > 2107 {
								continue
							}
							t.Distinct([]byte(fmt.Sprint(z, u, k)))
							t.Traces(1)
							vague := twice(u, z) && level < 2
							// read
							h := &ref.Header{Level: level, Method: "-lh0-", DosTime: local(u), UnixTime: uint32(u), Attr: 0x20, Name: []byte("n"), OS: 'M'}
							if level >= 2 {
								h.Exts = []ref.Ext{{Type: 0, Data: []byte{0, 0}}, {Type: 1, Data: []byte("n")}}
							}
							want := u
							if unix {
								h.OS = 'U'
								switch level {
								case 0:
									h.Old = append([]byte{0}, append(le4(uint32(u)), 0xa4, 0x81, 1, 0, 2, 0)...)
								case 1:
									h.Exts = append(h.Exts, ref.Ext{Type: 0x54, Data: le4(uint32(u))})
								}
							} else if level < 2 {
								want = u &^ 1
							}
							t.Trans(1)
							g, err, has, _ := getHeader(append(h.Build(), 0))
							if err != nil || !has {
								t.Fail("%s: rejected: %v", time.Unix(u, 0).In(z), err)
								return
							}
							if g.UnixLastModifiedStamp != want && !(vague && !unix) {
								t.Fail("%s: read as %s", time.Unix(u, 0).In(z), time.Unix(g.UnixLastModifiedStamp, 0).In(z))
								return
							}
							if level == 3 {
								continue
							}
							// written
							w := lha.NewLzHeader()
							w.HeaderLevel = byte(level)
							w.Method = []byte("-lh0-")
							w.Name = []byte("n\x00")
							w.ExtendType, w.HasCrc, w.UnixMode = 'U', true, 0100644
							w.UnixLastModifiedStamp = u
							save := lha.GenericFormat
							lha.GenericFormat = !unix
							b, err := writeHeader(w)
							lha.GenericFormat = save
							t.Trans(1)
							if err != nil || len(b) < 21 {
								t.Fail("%s: not written: %v", time.Unix(u, 0).In(z), err)
								return
							}
							field := binary.LittleEndian.Uint32(b[15:])
							if level == 2 && field != uint32(u) || level < 2 && field != local(u) {
								t.Fail("%s: recorded as %08x", time.Unix(u, 0).In(z), field)
								return
							}
							e, err := ref.Parse(append(b, 0))
							if err != nil {
								t.Fail("%s: malformed: %v", time.Unix(u, 0).In(z), err)
								return
							}
							if unix && e.Time != u {
								t.Fail("%s: recorded as Unix time %d", time.Unix(u, 0).In(z), e.Time)
								return
							}
						}
					})
				}
				c.Case(str("zone %v, files", z), func(t *T) {
					defer in(z)()
					for i := 0; i < 18; i++ {
						u := us[(i*83+7)%len(us)]
						if y := time.Unix(u, 0).In(z).Year(); y < 1980 || y > 2037 || twice(u, z) {
							u = 1234567890
						}
						t.Distinct([]byte(fmt.Sprint(z, u, i)))
						t.Traces(1)
						t.Trans(2)
						level, gen := i%3, i&4 != 0
						want := u
						if gen && level < 2 {
							want = u &^ 1
						}
						os.Remove("t.lzh")
						writeFile("tf", []byte("content"))
						must(os.Chtimes("tf", time.Unix(u, 0), time.Unix(u, 0)))
						save := lha.GenericFormat
						lha.GenericFormat = gen
						err := lha.NewLha("t.lzh").Compress("tf", 5, level)
						lha.GenericFormat = save
						if err != nil {
							t.Fail("%v", err)
							return
						}
						hs, err := lha.NewLha("t.lzh").Headers()
						if err != nil || len(hs) != 1 {
							t.Fail("%d entries, %v", len(hs), err)
							return
						}
						l := lha.NewLha("t.lzh")
						l.ExtractDirectory = fresh("to")
						if err := l.Decompress(hs[0]); err != nil {
							t.Fail("%v", err)
							return
						}
						fi, err := os.Stat("to/tf")
						if err != nil || fi.ModTime().Unix() != want {
							t.Fail("level %d, generic %v: file of %s extracted with %v, %v", level, gen, time.Unix(u, 0), fi, err)
							return
						}
					}
				})
			}
		},
	})
}
