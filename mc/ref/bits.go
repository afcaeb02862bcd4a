// Package ref is an independent implementation of the LHA formats: the oracle
// the explored executions of /repo are compared with. Nothing here is taken
// from /repo; it follows the published formats (LZHUF.C, ar002, LHa header
// notes, LArc, PMarc).
package ref

import "errors"

// CRC16 is CRC-16/ARC, bit by bit.
func CRC16(b []byte) uint16 { return CRC16From(0, b) }

func CRC16From(c uint16, b []byte) uint16 {
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

// BitWriter writes most significant bit first.
type BitWriter struct {
	Out []byte
	n   uint // free bits in the last byte
}

func (w *BitWriter) Bit(b int) {
	if w.n == 0 {
		w.Out = append(w.Out, 0)
		w.n = 8
	}
	w.n--
	if b != 0 {
		w.Out[len(w.Out)-1] |= 1 << w.n
	}
}

func (w *BitWriter) Bits(v, n int) {
	for i := n - 1; i >= 0; i-- {
		w.Bit(v >> uint(i) & 1)
	}
}

// Code writes the n low bits of v as a code of length n.
func (w *BitWriter) Code(c Code) { w.Bits(int(c.V), c.L) }

var ErrEOF = errors.New("ref: stream exhausted")
var ErrBad = errors.New("ref: malformed stream")

// BitReader reads most significant bit first; reading past the end fails.
type BitReader struct {
	In  []byte
	Pos int // bit position
	Err error
}

func (r *BitReader) Bit() int {
	if r.Pos >= 8*len(r.In) {
		r.Err = ErrEOF
		r.Pos++
		return 0
	}
	b := int(r.In[r.Pos>>3]>>(7-uint(r.Pos&7))) & 1
	r.Pos++
	return b
}

func (r *BitReader) Bits(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | r.Bit()
	}
	return v
}

// Code is a prefix code word: the low L bits of V.
type Code struct {
	V uint32
	L int
}

// Canonical assigns code words to code lengths: shorter first, then by symbol.
func Canonical(lens []int) []Code {
	out := make([]Code, len(lens))
	code := uint32(0)
	for l := 1; l <= 32; l++ {
		for s, n := range lens {
			if n == l {
				out[s] = Code{code, l}
				code++
			}
		}
		code <<= 1
	}
	return out
}

// Kraft returns the sum of 2^(32-len).
func Kraft(lens []int) uint64 {
	var t uint64
	for _, l := range lens {
		if l > 0 {
			t += 1 << uint(32-l)
		}
	}
	return t
}

// Complete says whether the lengths form a complete prefix code.
func Complete(lens []int) bool { return Kraft(lens) == 1<<32 }

// Decoder decodes canonical codes bit by bit.
type Decoder struct {
	Single int // >=0: constant symbol, no bits
	count  [33]int
	syms   []int
}

func NewDecoder(lens []int) (*Decoder, error) {
	d := &Decoder{Single: -1}
	if !Complete(lens) {
		return nil, ErrBad
	}
	for l := 1; l <= 32; l++ {
		for s, n := range lens {
			if n == l {
				d.count[l]++
				d.syms = append(d.syms, s)
			}
		}
	}
	return d, nil
}

func (d *Decoder) Get(r *BitReader) int {
	if d.Single >= 0 {
		return d.Single
	}
	code, first, idx := 0, 0, 0
	for l := 1; l <= 32; l++ {
		code |= r.Bit()
		if r.Err != nil {
			return 0
		}
		n := d.count[l]
		if code-first < n {
			return d.syms[idx+code-first]
		}
		idx += n
		first = (first + n) << 1
		code <<= 1
	}
	r.Err = ErrBad
	return 0
}

// Tok is a literal (Len 0) or a match of Len bytes at distance Dist >= 1.
type Tok struct {
	Lit  byte
	Len  int
	Dist int
}

// Window rebuilds the output of a token sequence.
type Window struct {
	buf  []byte
	mask int
	pos  int
	Out  []byte
}

func NewWindow(bits int, fill byte) *Window {
	w := &Window{buf: make([]byte, 1<<uint(bits)), mask: 1<<uint(bits) - 1}
	for i := range w.buf {
		w.buf[i] = fill
	}
	return w
}

// Fill sets what the dictionary holds before anything is decoded.
func (w *Window) Fill(b byte) {
	for i := range w.buf {
		w.buf[i] = b
	}
}

func (w *Window) Put(b byte) {
	w.buf[w.pos] = b
	w.pos = (w.pos + 1) & w.mask
	w.Out = append(w.Out, b)
}

func (w *Window) Apply(t Tok) {
	if t.Len == 0 {
		w.Put(t.Lit)
		return
	}
	src := (w.pos - t.Dist) & w.mask
	for i := 0; i < t.Len; i++ {
		w.Put(w.buf[(src+i)&w.mask])
	}
}

// HuffLens gives Huffman code lengths (limit bits at most) for frequencies.
// At least two symbols must have a non zero frequency.
func HuffLens(freq []int, limit int) []int {
	for {
		type node struct{ f, l, r, s int }
		var nodes []node
		var live []int
		for s, f := range freq {
			if f > 0 {
				nodes = append(nodes, node{f, -1, -1, s})
				live = append(live, len(nodes)-1)
			}
		}
		for len(live) > 1 {
			// take the two smallest
			take := func() int {
				m := 0
				for i := range live {
					if nodes[live[i]].f < nodes[live[m]].f {
						m = i
					}
				}
				v := live[m]
				live = append(live[:m], live[m+1:]...)
				return v
			}
			a := take()
			b := take()
			nodes = append(nodes, node{nodes[a].f + nodes[b].f, a, b, -1})
			live = append(live, len(nodes)-1)
		}
		lens := make([]int, len(freq))
		max := 0
		var walk func(n, d int)
		walk = func(n, d int) {
			if nodes[n].l < 0 {
				lens[nodes[n].s] = d
				if d > max {
					max = d
				}
				return
			}
			walk(nodes[n].l, d+1)
			walk(nodes[n].r, d+1)
		}
		walk(live[0], 0)
		if max <= limit {
			return lens
		}
		nf := make([]int, len(freq))
		for i, f := range freq {
			if f > 0 {
				nf[i] = f/2 + 1
			}
		}
		freq = nf
	}
}
