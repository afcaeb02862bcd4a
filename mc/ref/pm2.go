package ref

// -pm2-: move-to-front literals and copies, two Huffman trees.

// MTF is the byte history: index 0 is the byte output last.
type MTF struct{ L []byte }

func NewMTF() *MTF {
	m := &MTF{}
	add := func(a, b int) {
		for i := a; i <= b; i++ {
			m.L = append(m.L, byte(i))
		}
	}
	add(0x20, 0x7f)
	add(0x00, 0x1f)
	add(0xa0, 0xdf)
	add(0x80, 0x9f)
	add(0xe0, 0xff)
	return m
}

func (m *MTF) Index(b byte) int {
	for i, x := range m.L {
		if x == b {
			return i
		}
	}
	panic("mtf")
}

func (m *MTF) Front(b byte) {
	i := m.Index(b)
	copy(m.L[1:i+1], m.L[:i])
	m.L[0] = b
}

var pmHistBase = []int{0, 8, 16, 32, 64, 96, 128, 192}
var pmHistBits = []int{3, 3, 4, 5, 5, 5, 6, 6}
var pmLenBase = []int{17, 25, 33, 65, 129, 256}
var pmLenBits = []int{3, 3, 5, 6, 7, 0}

// PmTrees is one (re)definition of the trees.
type PmTrees struct {
	Lens    []int // lengths of the first tree (up to 31 codes); nil: constant
	Const   int   // constant code of the first tree
	OffLens []int // lengths (0..7) of the offset tree, 8 codes; nil: constant
	OffC    int
	// OffKeep announces an offset tree without any code: the previous one
	// stays in use.
	OffKeep bool
	// Min and Nb, if set, are the least length announced, not above the actual
	// one, and the number of bits of the lengths, not below what they need.
	Min, Nb int
}

func (t *PmTrees) needOff() bool {
	if t.Lens == nil {
		return t.Const+1 >= 10 && t.Const+1 != 29
	}
	return len(t.Lens) >= 10
}

func (t *PmTrees) write1(w *BitWriter) {
	if t.Lens == nil {
		w.Bits(t.Const+1, 5)
		w.Bits(0, 3)
		return
	}
	min, max := 99, 0
	for _, l := range t.Lens {
		if l > 0 && l < min {
			min = l
		}
		if l > max {
			max = l
		}
	}
	if min > 7 {
		min = 7
	}
	if t.Min > 0 && t.Min < min {
		min = t.Min
	}
	nb := t.Nb
	for 1<<uint(nb) <= max-min+1 {
		nb++
	}
	w.Bits(len(t.Lens), 5)
	w.Bits(min, 3)
	w.Bits(nb, 3)
	for _, l := range t.Lens {
		if l == 0 {
			w.Bits(0, nb)
		} else {
			w.Bits(l-min+1, nb)
		}
	}
}

func (t *PmTrees) write2(w *BitWriter, n int) {
	if !t.needOff() {
		return
	}
	for i := 0; i < n; i++ {
		switch {
		case t.OffKeep:
			w.Bits(0, 3)
		case t.OffLens != nil:
			w.Bits(t.OffLens[i], 3)
		case i == t.OffC:
			w.Bits(1, 3)
		default:
			w.Bits(0, 3)
		}
	}
}

// PmWriter encodes tokens (lengths 2..256). Trees(k) gives the trees to
// announce at rebuild point k (0: start, 1: 1024, 2: 2048, 3: 4096, then every
// 4096); announce says whether the optional announcement is made (points >= 3).
type PmWriter struct {
	W        BitWriter
	mtf      *MTF
	win      *Window
	next, k  int
	cur      PmTrees
	Trees    func(k int) (PmTrees, bool)
	c1, c2   []Code
	offCodes int
	offLens  []int // the offset tree in use
	offC     int
}

// CanOff says whether the offset tree in use has a code for a distance.
func (p *PmWriter) CanOff(dist int) bool {
	q := OffSym(dist)
	if p.offLens == nil {
		return q == p.offC
	}
	return q < len(p.offLens) && p.offLens[q] > 0
}

func NewPmWriter(trees func(k int) (PmTrees, bool)) *PmWriter {
	p := &PmWriter{mtf: NewMTF(), win: NewWindow(13, ' '), Trees: trees}
	p.W.Bit(0)
	return p
}

func (p *PmWriter) rebuild() {
	for len(p.win.Out) >= p.next {
		t, announce := p.Trees(p.k)
		sent := p.k < 4 || announce
		switch p.k {
		case 0:
			p.cur = t
			p.cur.write1(&p.W)
			p.cur.write2(&p.W, 5)
			p.offCodes = 5
			p.next = 1024
		case 1:
			p.cur.OffLens, p.cur.OffC, p.cur.OffKeep = t.OffLens, t.OffC, t.OffKeep
			p.cur.write2(&p.W, 6)
			p.offCodes = 6
			p.next = 2048
		case 2:
			p.cur.OffLens, p.cur.OffC, p.cur.OffKeep = t.OffLens, t.OffC, t.OffKeep
			p.cur.write2(&p.W, 7)
			p.offCodes = 7
			p.next = 4096
		case 3:
			if announce {
				p.W.Bit(1)
				p.cur = t
				p.cur.write1(&p.W)
			} else {
				p.W.Bit(0)
				p.cur.OffLens, p.cur.OffC, p.cur.OffKeep = t.OffLens, t.OffC, t.OffKeep
			}
			p.cur.write2(&p.W, 8)
			p.offCodes = 8
			p.next = 8192
		default:
			if announce {
				p.W.Bit(1)
				p.cur = t
				p.cur.write1(&p.W)
				p.cur.write2(&p.W, 8)
			} else {
				p.W.Bit(0)
			}
			p.next += 4096
		}
		p.k++
		p.c1 = nil
		if p.cur.Lens != nil {
			p.c1 = Canonical(p.cur.Lens)
		}
		if sent && p.cur.needOff() && !p.cur.OffKeep {
			p.c2, p.offLens, p.offC = nil, p.cur.OffLens, p.cur.OffC
			if p.offLens != nil {
				p.c2 = Canonical(p.offLens)
			}
		}
	}
}

func pmFind(v int, base, bits []int) int {
	for i := len(base) - 1; i >= 0; i-- {
		if v >= base[i] {
			return i
		}
	}
	return 0
}

// Sym gives the code of the first tree a token uses in the current state.
func (p *PmWriter) Sym(t Tok) int {
	if t.Len == 0 {
		return pmFind(p.mtf.Index(t.Lit), pmHistBase, pmHistBits)
	}
	switch {
	case t.Len <= 16:
		return 8 + t.Len - 2
	case t.Len == 256 && t.Dist > 1: // 129 and 7 bits
		return 27
	default:
		return 23 + pmFind(t.Len, pmLenBase, pmLenBits)
	}
}

// OffSym gives the offset code of a distance.
func OffSym(dist int) int {
	o := dist - 1
	s := 0
	for o>>6 >= 1<<uint(s) {
		s++
	}
	return s
}

// Trees1 is the number of codes of the first tree in use.
func (p *PmWriter) Trees1() int {
	if p.cur.Lens == nil {
		return p.cur.Const + 1
	}
	return len(p.cur.Lens)
}

// Begin announces the trees due before the next token.
func (p *PmWriter) Begin() { p.rebuild() }

func (p *PmWriter) Put(t Tok) {
	p.rebuild()
	s := p.Sym(t)
	if p.c1 != nil {
		p.W.Code(p.c1[s])
	}
	if t.Len == 0 {
		p.W.Bits(p.mtf.Index(t.Lit)-pmHistBase[s], pmHistBits[s])
	} else {
		if s >= 23 {
			p.W.Bits(t.Len-pmLenBase[s-23], pmLenBits[s-23])
		}
		o := t.Dist - 1
		switch {
		case s == 8:
			p.W.Bits(o, 6)
		case s < 28:
			q := OffSym(t.Dist)
			if p.c2 != nil {
				p.W.Code(p.c2[q])
			}
			if q == 0 {
				p.W.Bits(o, 6)
			} else {
				p.W.Bits(o-1<<uint(5+q), 5+q)
			}
		}
	}
	n := len(p.win.Out)
	p.win.Apply(t)
	for _, b := range p.win.Out[n:] {
		p.mtf.Front(b)
	}
}

// Out is what the tokens written so far decode to.
func (p *PmWriter) Out() []byte { return p.win.Out }
