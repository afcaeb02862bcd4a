package ref

import (
	"errors"
	"fmt"
	"time"
)

// Ext is an extension header of levels 1 to 3.
type Ext struct {
	Type byte
	Data []byte
}

// Header describes a header to build.
type Header struct {
	Level        int
	Method       string
	Packed, Orig uint32
	DosTime      uint32 // levels 0, 1
	UnixTime     uint32 // levels 2, 3
	Attr         byte
	Name         []byte // raw name field, levels 0, 1
	NoCrc        bool   // level 0 without CRC field
	Crc          uint16
	NoOS         bool // level 0: nothing after the CRC
	OS           byte
	Old          []byte // levels 0, 1: bytes after the OS identifier
	Exts         []Ext
	NoHeaderCrc  bool // do not fill the CRC of a 0x00 extension
	Pad          int  // level 2: 1 forces a padding byte, -1 forbids
}

func le(v uint32, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte(v))
		v >>= 8
	}
	return b
}

func sum(b []byte) byte {
	var s byte
	for _, x := range b {
		s += x
	}
	return s
}

// Build returns the header bytes.
func (h *Header) Build() []byte {
	var exts []byte
	szl := 2
	if h.Level == 3 {
		szl = 4
	}
	crcAt := -1
	// chain: size of the next one precedes each
	chain := func() []byte {
		var b []byte
		for _, e := range h.Exts {
			b = append(b, le(uint32(1+len(e.Data)+szl), szl)...)
			if e.Type == 0 && len(e.Data) >= 2 {
				crcAt = len(b) + 1
			}
			b = append(b, e.Type)
			b = append(b, e.Data...)
		}
		return append(b, le(0, szl)...)
	}
	if h.Level > 0 {
		exts = chain()
	}
	body := []byte(h.Method)
	switch h.Level {
	case 0, 1:
		extSize := 0
		if h.Level == 1 {
			extSize = len(exts) - szl
		}
		body = append(body, le(h.Packed+uint32(extSize), 4)...)
		body = append(body, le(h.Orig, 4)...)
		body = append(body, le(h.DosTime, 4)...)
		body = append(body, h.Attr, byte(h.Level), byte(len(h.Name)))
		body = append(body, h.Name...)
		if h.Level == 0 {
			if !h.NoCrc {
				body = append(body, le(uint32(h.Crc), 2)...)
				if !h.NoOS {
					body = append(body, h.OS)
					body = append(body, h.Old...)
				}
			}
			return append([]byte{byte(len(body)), sum(body)}, body...)
		}
		body = append(body, le(uint32(h.Crc), 2)...)
		body = append(body, h.OS)
		body = append(body, h.Old...)
		body = append(body, exts[:2]...)
		out := append([]byte{byte(len(body)), sum(body)}, body...)
		return append(out, exts[2:]...)
	case 2:
		body = append(body, le(h.Packed, 4)...)
		body = append(body, le(h.Orig, 4)...)
		body = append(body, le(h.UnixTime, 4)...)
		body = append(body, 0x20, 2)
		body = append(body, le(uint32(h.Crc), 2)...)
		body = append(body, h.OS)
		n := 2 + len(body) + len(exts)
		pad := h.Pad == 1
		if (n&0xff) == 0 && h.Pad != -1 {
			pad = true
		}
		if ((n + 1) & 0xff) == 0 {
			pad = false
		}
		if pad {
			n++
		}
		out := append(le(uint32(n), 2), body...)
		at := len(out) + crcAt
		out = append(out, exts...)
		if pad {
			out = append(out, 0)
		}
		if crcAt >= 0 && !h.NoHeaderCrc {
			copy(out[at:], []byte{0, 0})
			copy(out[at:], le(uint32(CRC16(out)), 2))
		}
		return out
	case 3:
		body = append(body, le(h.Packed, 4)...)
		body = append(body, le(h.Orig, 4)...)
		body = append(body, le(h.UnixTime, 4)...)
		body = append(body, 0x20, 3)
		body = append(body, le(uint32(h.Crc), 2)...)
		body = append(body, h.OS)
		out := append(le(4, 2), body...)
		out = append(out, le(uint32(len(out)+4+len(exts)), 4)...)
		at := len(out) + crcAt
		out = append(out, exts...)
		if crcAt >= 0 && !h.NoHeaderCrc {
			copy(out[at:], []byte{0, 0})
			copy(out[at:], le(uint32(CRC16(out)), 2))
		}
		return out
	}
	panic("level")
}

// DosToUnix converts a DOS time stamp read in the local zone.
func DosToUnix(d uint32) int64 {
	return time.Date(int(d>>25)+1980, time.Month(d>>21&15), int(d>>16&31), int(d>>11&31), int(d>>5&63), int(d&31)*2, 0, time.Local).Unix()
}

// Entry is what a header says once parsed.
type Entry struct {
	HeaderSize   int
	Level        int
	Method       string
	Packed, Orig int
	Crc          int // -1: none
	OS           byte
	Name         string // with directory, '/' separated
	Link         string
	Time         int64
	Mode         int
	UID, GID     int
	User, Group  string
	Attr         int
}

// ErrEnd is returned at the end mark or at the exact end of the data.
var ErrEnd = errors.New("end of archive")

// ErrUnclear: the format does not say what this means (a NUL in the name of a link).
var ErrUnclear = errors.New("unclear")

func word(b []byte) int { return int(b[0]) | int(b[1])<<8 }
func long(b []byte) int { return word(b) | word(b[2:])<<16 }

func cstr(b []byte) string {
	for i, x := range b {
		if x == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

// Parse parses the header at the start of b, checking everything checkable.
func Parse(b []byte) (*Entry, error) {
	if len(b) == 0 || b[0] == 0 {
		return nil, ErrEnd
	}
	if len(b) < 21 {
		return nil, fmt.Errorf("short header")
	}
	e := &Entry{Level: int(b[20]), Crc: -1, Mode: 0100666}
	e.Method = string(b[2:7])
	e.Packed, e.Orig = long(b[7:]), long(b[11:])
	e.Attr = int(b[19])
	var name, dir []byte
	szl := 2
	next := 0 // position of the next-size field
	total := 0
	switch e.Level {
	case 0, 1:
		n := int(b[0]) + 2
		if n > len(b) || n < 22 {
			return nil, fmt.Errorf("header size")
		}
		if sum(b[2:n]) != b[1] {
			return nil, fmt.Errorf("checksum")
		}
		nl := int(b[21])
		e.Time = DosToUnix(uint32(long(b[15:])))
		p := 22 + nl
		if p > n {
			return nil, fmt.Errorf("name length")
		}
		name = b[22:p]
		if e.Level == 0 {
			e.HeaderSize = n
			switch {
			case p == n:
			case p+2 > n:
				return nil, fmt.Errorf("size")
			default:
				e.Crc = word(b[p:])
				if p+2 < n {
					e.OS = b[p+2]
					if e.OS == 'U' {
						if n-(p+3) >= 11 {
							q := b[p+3:]
							e.Time = int64(uint32(long(q[1:])))
							e.Mode = word(q[5:])
							e.UID, e.GID = word(q[7:]), word(q[9:])
						} else {
							e.OS = 0
						}
					}
				}
			}
			break
		}
		if p+5 > n {
			return nil, fmt.Errorf("size")
		}
		e.Crc = word(b[p:])
		e.OS = b[p+2]
		next = n - 2
		total = n
	case 2:
		e.Time = int64(uint32(long(b[15:])))
		total = word(b)
		if total > len(b) || total < 26 {
			return nil, fmt.Errorf("header size")
		}
		e.Crc, e.OS = word(b[21:]), b[23]
		next = 24
	case 3:
		e.Time = int64(uint32(long(b[15:])))
		if word(b) != 4 || len(b) < 32 {
			return nil, fmt.Errorf("size field")
		}
		total = long(b[24:])
		if total > len(b) || total < 32 {
			return nil, fmt.Errorf("header size")
		}
		e.Crc, e.OS = word(b[21:]), b[23]
		next = 28
		szl = 4
	default:
		return nil, fmt.Errorf("level %d", e.Level)
	}
	if e.Level > 0 {
		pos := next
		hcrc, hcrcAt := -1, 0
		for {
			if pos+szl > len(b) {
				return nil, fmt.Errorf("truncated")
			}
			sz := word(b[pos:])
			if szl == 4 {
				sz = long(b[pos:])
			}
			pos += szl
			if sz == 0 {
				break
			}
			if sz < 1+szl || pos+sz > len(b) {
				return nil, fmt.Errorf("extension size")
			}
			d := b[pos+1 : pos+sz-szl]
			if m := map[byte]int{0: 2, 0x40: 2, 0x41: 24, 0x50: 2, 0x51: 4, 0x54: 4}[b[pos]]; len(d) < m {
				return nil, fmt.Errorf("extension too short")
			}
			switch b[pos] {
			case 0:
				hcrc, hcrcAt = word(d), pos+1
			case 1:
				name = d
			case 2:
				dir = d
			case 0x40:
				e.Attr = int(d[0])
			case 0x41:
				if e.Level == 1 {
					var v uint64
					for i := 15; i >= 8; i-- {
						v = v<<8 | uint64(d[i])
					}
					e.Time = int64((v - 0x019db1ded53e8000) / 10000000)
				}
			case 0x50:
				e.Mode = word(d)
			case 0x51:
				e.GID, e.UID = word(d), word(d[2:])
			case 0x52:
				e.Group = cstr(d)
			case 0x53:
				e.User = cstr(d)
			case 0x54:
				e.Time = int64(uint32(long(d)))
			}
			pos += sz - szl
		}
		switch e.Level {
		case 1:
			e.HeaderSize = pos
			e.Packed -= pos - total
			if e.Packed < 0 {
				return nil, fmt.Errorf("skip size")
			}
		default:
			if pos != total && !(e.Level == 2 && pos+1 == total) {
				return nil, fmt.Errorf("total size %d != %d", total, pos)
			}
			e.HeaderSize = total
			c := append([]byte{}, b[:total]...)
			if hcrc < 0 {
				return nil, fmt.Errorf("no header crc")
			}
			c[hcrcAt], c[hcrcAt+1] = 0, 0
			if int(CRC16(c)) != hcrc {
				return nil, fmt.Errorf("header crc")
			}
		}
	}
	full := cstr(append(append([]byte{}, dir...), name...))
	if i := len(cstr(dir)); i < len(dir) {
		full = cstr(dir) + cstr(name)
	}
	if e.OS == 'A' && e.Method == "-lh0-" && len(full) > 0 && full[len(full)-1] == 0xff {
		e.Method = "-lhd-" // how Amiga archivers store directories
	}
	from, to := "\xff\\", "//"
	if e.OS == 'm' {
		from, to = "\xff/:\\", "/://"
	}
	nb := []byte(full)
	for i := range nb {
		for k := range []byte(from) {
			if nb[i] == from[k] {
				nb[i] = to[k]
				break
			}
		}
	}
	e.Name = string(nb)
	if e.Mode&0120000 == 0120000 {
		for _, x := range append(append([]byte{}, dir...), name...) {
			if x == 0 {
				return nil, ErrUnclear
			}
		}
		for i := range nb {
			if nb[i] == '|' {
				e.Name, e.Link = string(nb[:i]), string(nb[i+1:])
				return e, nil
			}
		}
		return nil, fmt.Errorf("link without target")
	}
	return e, nil
}

// ParseArchive parses a whole archive.
func ParseArchive(b []byte) (es []*Entry, data [][]byte, err error) {
	for {
		e, err := Parse(b)
		if err == ErrEnd {
			return es, data, nil
		}
		if err != nil {
			return es, data, err
		}
		if e.HeaderSize+e.Packed > len(b) {
			return es, data, fmt.Errorf("truncated data")
		}
		es = append(es, e)
		data = append(data, b[e.HeaderSize:e.HeaderSize+e.Packed])
		b = b[e.HeaderSize+e.Packed:]
	}
}

// Decode decodes the packed data of a method this package can decode.
func Decode(method string, in []byte, size int) ([]byte, error) {
	switch method {
	case "-lh0-", "-lz4-", "-pm0-":
		if len(in) < size {
			return in, ErrEOF
		}
		return in[:size], nil
	case "-lh1-":
		o, _, _, err := DecodeLh1(in, size)
		return o, err
	case "-lh2-":
		o, _, _, err := DecodeLh2(in, size)
		return o, err
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		o, _, _, err := DecodeStatic(int(method[3]-'0'), in, size)
		return o, err
	}
	return nil, fmt.Errorf("ref: method %q", method)
}
