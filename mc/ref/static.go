package ref

// -lh4- to -lh7-: blocks of static Huffman codes (ar002).

const (
	NC = 510
	NT = 19
)

type StaticParam struct{ Dic, NP, PBit int }

var Static = map[int]StaticParam{
	4: {12, 14, 4},
	5: {13, 14, 4},
	6: {15, 16, 5},
	7: {16, 17, 5},
}

// Block is one block of a -lh4..7- stream. A nil length table with a single
// used symbol is written as a constant code.
type Block struct {
	Toks  []Tok
	CLens []int // NC lengths, or nil: constant code CConst
	PLens []int // NP lengths, or nil: constant code PConst
	TLens []int // NT lengths, or nil: chosen
	// constant symbols
	CConst, PConst int
	// TConst >= 0 writes the code length code as a constant (needs all C
	// lengths symbols equal)
	TruncP, TruncC bool // write the trailing zero lengths too
}

func posCode(d int) (code, extra, bits int) {
	p := d - 1
	for v := p; v != 0; v >>= 1 {
		code++
	}
	if code > 1 {
		bits = code - 1
		extra = p - 1<<uint(bits)
	}
	return
}

func CSym(t Tok) int {
	if t.Len == 0 {
		return int(t.Lit)
	}
	return t.Len - 3 + 256
}

func writePT(w *BitWriter, lens []int, constant int, nbit int, special int, full bool) {
	if lens == nil {
		w.Bits(0, nbit)
		w.Bits(constant, nbit)
		return
	}
	n := len(lens)
	if !full {
		for n > 0 && lens[n-1] == 0 {
			n--
		}
	}
	w.Bits(n, nbit)
	for i := 0; i < n; {
		k := lens[i]
		i++
		if k <= 6 {
			w.Bits(k, 3)
		} else {
			w.Bits(7, 3)
			for j := 7; j < k; j++ {
				w.Bit(1)
			}
			w.Bit(0)
		}
		if i == special {
			z := 0
			for z < 3 && i < len(lens) && i < 6 && lens[i] == 0 {
				i++
				z++
			}
			w.Bits(z, 2)
		}
	}
}

// cItem is one symbol of the code length code.
type cItem struct{ sym, extra, bits int }

func cItems(lens []int, full bool) (int, []cItem) {
	n := len(lens)
	if !full {
		for n > 0 && lens[n-1] == 0 {
			n--
		}
	}
	var out []cItem
	for i := 0; i < n; {
		if lens[i] != 0 {
			out = append(out, cItem{lens[i] + 2, 0, 0})
			i++
			continue
		}
		z := 0
		for i < n && lens[i] == 0 {
			i++
			z++
		}
		for z > 0 {
			switch {
			case z >= 20:
				k := z
				if k > 531 {
					k = 531
				}
				out = append(out, cItem{2, k - 20, 9})
				z -= k
			case z >= 3:
				k := z
				if k > 18 {
					k = 18
				}
				out = append(out, cItem{1, k - 3, 4})
				z -= k
			default:
				out = append(out, cItem{0, 0, 0})
				z--
			}
		}
	}
	return n, out
}

// AutoLens fills the code lengths of a block from its token frequencies.
func (b *Block) AutoLens(method int) {
	p := Static[method]
	cf := make([]int, NC)
	pf := make([]int, p.NP)
	for _, t := range b.Toks {
		cf[CSym(t)]++
		if t.Len > 0 {
			c, _, _ := posCode(t.Dist)
			pf[c]++
		}
	}
	b.CLens, b.CConst = lensOf(cf)
	b.PLens, b.PConst = lensOf(pf)
}

func lensOf(f []int) ([]int, int) {
	n, s := 0, 0
	for i, v := range f {
		if v > 0 {
			n++
			s = i
		}
	}
	if n < 2 {
		return nil, s
	}
	return HuffLens(f, 16), 0
}

// EncodeStatic writes the blocks as a -lh4..7- stream.
func EncodeStatic(method int, blocks []Block) []byte {
	p := Static[method]
	w := &BitWriter{}
	for _, b := range blocks {
		w.Bits(len(b.Toks)&0xffff, 16)
		if b.CLens == nil {
			writePT(w, nil, 0, 5, 3, false)
			w.Bits(0, 9)
			w.Bits(b.CConst, 9)
		} else {
			n, items := cItems(b.CLens, b.TruncC)
			tl := b.TLens
			tconst := 0
			if tl == nil {
				f := make([]int, NT)
				for _, it := range items {
					f[it.sym]++
				}
				tl, tconst = lensOf(f)
			}
			writePT(w, tl, tconst, 5, 3, false)
			var tc []Code
			if tl != nil {
				tc = Canonical(tl)
			}
			w.Bits(n, 9)
			for _, it := range items {
				if tc != nil {
					w.Code(tc[it.sym])
				}
				w.Bits(it.extra, it.bits)
			}
		}
		writePT(w, b.PLens, b.PConst, p.PBit, -1, b.TruncP)
		var cc, pc []Code
		if b.CLens != nil {
			cc = Canonical(b.CLens)
		}
		if b.PLens != nil {
			pc = Canonical(b.PLens)
		}
		for _, t := range b.Toks {
			if cc != nil {
				w.Code(cc[CSym(t)])
			}
			if t.Len > 0 {
				c, e, n := posCode(t.Dist)
				if pc != nil {
					w.Code(pc[c])
				}
				w.Bits(e, n)
			}
		}
	}
	return w.Out
}

func readPT(r *BitReader, nn, nbit, special int) (*Decoder, error) {
	n := r.Bits(nbit)
	if n == 0 {
		return &Decoder{Single: r.Bits(nbit)}, r.Err
	}
	if n > nn {
		return nil, ErrBad
	}
	lens := make([]int, nn)
	for i := 0; i < n; {
		k := r.Bits(3)
		if k == 7 {
			for r.Bit() == 1 {
				k++
				if k > 16 {
					return nil, ErrBad
				}
			}
		}
		if r.Err != nil {
			return nil, r.Err
		}
		lens[i] = k
		i++
		if i == special {
			i += r.Bits(2)
		}
	}
	return NewDecoder(lens)
}

// DecodeStatic decodes size bytes of a -lh4..7- stream. used is the number of
// bits consumed.
func DecodeStatic(method int, in []byte, size int) (out []byte, toks []Tok, used int, err error) {
	p := Static[method]
	r := &BitReader{In: in}
	w := NewWindow(p.Dic, ' ')
	left := 0
	var c, pd *Decoder
	for len(w.Out) < size {
		if left == 0 {
			left = r.Bits(16)
			if left == 0 {
				left = 65536
			}
			t, e := readPT(r, NT, 5, 3)
			if e != nil {
				return w.Out, toks, r.Pos, e
			}
			n := r.Bits(9)
			if n == 0 {
				c = &Decoder{Single: r.Bits(9)}
			} else {
				lens := make([]int, NC)
				for i := 0; i < n; {
					s := t.Get(r)
					if r.Err != nil {
						return w.Out, toks, r.Pos, r.Err
					}
					switch s {
					case 0:
						i++
					case 1:
						i += r.Bits(4) + 3
					case 2:
						i += r.Bits(9) + 20
					default:
						if i >= NC || s > 18 {
							return w.Out, toks, r.Pos, ErrBad
						}
						lens[i] = s - 2
						i++
					}
					if i > NC {
						return w.Out, toks, r.Pos, ErrBad
					}
				}
				if c, e = NewDecoder(lens); e != nil {
					return w.Out, toks, r.Pos, e
				}
			}
			if pd, e = readPT(r, p.NP, p.PBit, -1); e != nil {
				return w.Out, toks, r.Pos, e
			}
		}
		left--
		s := c.Get(r)
		var t Tok
		if s < 256 {
			t.Lit = byte(s)
		} else {
			if s >= NC {
				return w.Out, toks, r.Pos, ErrBad
			}
			t.Len = s - 256 + 3
			k := pd.Get(r)
			if k >= p.NP {
				return w.Out, toks, r.Pos, ErrBad
			}
			if k > 1 {
				k = 1<<uint(k-1) + r.Bits(k-1)
			}
			t.Dist = k + 1
		}
		if r.Err != nil {
			return w.Out, toks, r.Pos, r.Err
		}
		toks = append(toks, t)
		w.Apply(t)
	}
	if len(w.Out) != size {
		return w.Out, toks, r.Pos, ErrBad
	}
	return w.Out, toks, r.Pos, nil
}
