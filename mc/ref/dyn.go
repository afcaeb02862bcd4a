package ref

// Adaptive Huffman coding of -lh1- and -lh2-.

const maxFreq = 0x8000

// Adaptive is the tree of LZHUF.C: nodes by increasing frequency, the root
// last, siblings adjacent.
type Adaptive struct {
	n, t, r int
	freq    []int
	prnt    []int // prnt[t+c] is the leaf of symbol c
	son     []int
}

func NewAdaptive(n int) *Adaptive {
	a := &Adaptive{n: n, t: 2*n - 1, r: 2*n - 2}
	a.freq = make([]int, a.t+1)
	a.prnt = make([]int, a.t+n)
	a.son = make([]int, a.t)
	for i := 0; i < n; i++ {
		a.freq[i] = 1
		a.son[i] = i + a.t
		a.prnt[i+a.t] = i
	}
	for i, j := 0, n; j <= a.r; i, j = i+2, j+1 {
		a.freq[j] = a.freq[i] + a.freq[i+1]
		a.son[j] = i
		a.prnt[i], a.prnt[i+1] = j, j
	}
	a.freq[a.t] = 1 << 30
	a.prnt[a.r] = -1
	return a
}

func (a *Adaptive) rebuild() {
	j := 0
	for i := 0; i < a.t; i++ {
		if a.son[i] >= a.t {
			a.freq[j] = (a.freq[i] + 1) / 2
			a.son[j] = a.son[i]
			j++
		}
	}
	for i := 0; j < a.t; i, j = i+2, j+1 {
		f := a.freq[i] + a.freq[i+1]
		k := j
		for k > 0 && f < a.freq[k-1] {
			k--
		}
		copy(a.freq[k+1:j+1], a.freq[k:j])
		copy(a.son[k+1:j+1], a.son[k:j])
		a.freq[k] = f
		a.son[k] = i
	}
	for i := 0; i < a.t; i++ {
		k := a.son[i]
		a.prnt[k] = i
		if k < a.t {
			a.prnt[k+1] = i
		}
	}
	a.prnt[a.r] = -1
}

func (a *Adaptive) Update(sym int) {
	if a.freq[a.r] == maxFreq {
		a.rebuild()
	}
	for c := a.prnt[sym+a.t]; c != -1; c = a.prnt[c] {
		a.freq[c]++
		k := a.freq[c]
		if k > a.freq[c+1] {
			l := c + 1
			for k > a.freq[l+1] {
				l++
			}
			a.freq[c], a.freq[l] = a.freq[l], k
			i, j := a.son[c], a.son[l]
			a.son[l], a.son[c] = i, j
			a.prnt[i] = l
			if i < a.t {
				a.prnt[i+1] = l
			}
			a.prnt[j] = c
			if j < a.t {
				a.prnt[j+1] = c
			}
			c = l
		}
	}
}

func (a *Adaptive) Put(w *BitWriter, sym int) int {
	var bits []int
	for k := a.prnt[sym+a.t]; k != a.r; k = a.prnt[k] {
		bits = append(bits, k&1)
	}
	for i := len(bits) - 1; i >= 0; i-- {
		w.Bit(bits[i])
	}
	a.Update(sym)
	return len(bits)
}

func (a *Adaptive) Get(r *BitReader) int {
	c := a.son[a.r]
	for c < a.t {
		c = a.son[c+r.Bit()]
		if r.Err != nil {
			return 0
		}
	}
	c -= a.t
	a.Update(c)
	return c
}

// lens of the fixed position codes: number of codes of each length
func fixedLens(runs ...[2]int) []int {
	var out []int
	for _, r := range runs {
		for i := 0; i < r[1]; i++ {
			out = append(out, r[0])
		}
	}
	return out
}

// PosLens1 is the position code of -lh1-, PosLens3 the ready made one of -lh3-.
var PosLens1 = fixedLens([2]int{3, 1}, [2]int{4, 3}, [2]int{5, 8}, [2]int{6, 12}, [2]int{7, 24}, [2]int{8, 16})
var PosLens3 = fixedLens([2]int{2, 1}, [2]int{4, 2}, [2]int{5, 3}, [2]int{6, 7}, [2]int{7, 18}, [2]int{8, 47}, [2]int{9, 50})

// Lh1Writer encodes tokens (distances 1..4096, lengths 3..60).
type Lh1Writer struct {
	W   BitWriter
	a   *Adaptive
	pc  []Code
	Max int // longest code used
}

func NewLh1Writer() *Lh1Writer {
	return &Lh1Writer{a: NewAdaptive(314), pc: Canonical(PosLens1)}
}

func (e *Lh1Writer) Put(t Tok) {
	if n := e.a.Put(&e.W, CSym(t)); n > e.Max {
		e.Max = n
	}
	if t.Len > 0 {
		p := t.Dist - 1
		e.W.Code(e.pc[p>>6])
		e.W.Bits(p&63, 6)
	}
}

func EncodeLh1(toks []Tok) []byte {
	e := NewLh1Writer()
	for _, t := range toks {
		e.Put(t)
	}
	return e.W.Out
}

func DecodeLh1(in []byte, size int) (out []byte, toks []Tok, used int, err error) {
	r := &BitReader{In: in}
	w := NewWindow(12, ' ')
	a := NewAdaptive(314)
	pd, _ := NewDecoder(PosLens1)
	for len(w.Out) < size {
		c := a.Get(r)
		var t Tok
		if c < 256 {
			t.Lit = byte(c)
		} else {
			t.Len = c - 256 + 3
			t.Dist = pd.Get(r)<<6 + r.Bits(6) + 1
		}
		if r.Err != nil {
			return w.Out, toks, r.Pos, r.Err
		}
		toks = append(toks, t)
		w.Apply(t)
	}
	if len(w.Out) != size {
		return w.Out, toks, r.Pos, ErrBad
	}
	return w.Out, toks, r.Pos, nil
}

// posTree is the growing position tree of -lh2-: nodes by decreasing weight,
// node 0 the root. Plain scans replace the block bookkeeping of dhuf.c.
type posTree struct {
	freq   []int
	child  []int // >= 0: index of the second (lighter) child; < 0: ^symbol
	parent []int
	leaf   map[int]int
	total  int
}

func newPosTree() *posTree {
	return &posTree{freq: []int{1}, child: []int{^0}, parent: []int{-1}, leaf: map[int]int{0: 0}}
}

func (p *posTree) link(n int) {
	c := p.child[n]
	if c < 0 {
		p.leaf[^c] = n
	} else {
		p.parent[c], p.parent[c-1] = n, n
	}
}

func (p *posTree) add(sym int) {
	last := len(p.freq) - 1
	p.freq = append(p.freq, p.freq[last], 0)
	p.child = append(p.child, p.child[last], ^sym)
	p.parent = append(p.parent, last, last)
	p.child[last] = last + 2
	p.link(last + 1)
	p.link(last + 2)
	if last == 0 {
		p.freq[0] = 0xffff
	}
	p.update(sym)
}

func (p *posTree) update(sym int) {
	if p.total == maxFreq {
		p.rebuild()
		p.total = p.freq[0]
		p.freq[0] = 0xffff
	}
	for q := p.leaf[sym]; q != 0; {
		l := q
		for l > 0 && p.freq[l-1] == p.freq[q] {
			l--
		}
		if l != q {
			p.child[l], p.child[q] = p.child[q], p.child[l]
			p.link(l)
			p.link(q)
		}
		p.freq[l]++
		q = p.parent[l]
	}
	p.total++
}

func (p *posTree) rebuild() {
	// leaves in order, halved; then pair the two lightest, inserting the
	// sum before the nodes that are not heavier
	n := len(p.freq)
	type nd struct{ f, c int }
	var leaves []nd
	for i := 0; i < n; i++ {
		if p.child[i] < 0 {
			leaves = append(leaves, nd{(p.freq[i] + 1) / 2, p.child[i]})
		}
	}
	// final array filled from the end
	out := make([]nd, n)
	i, j, l := n-1, len(leaves)-1, n-2
	tmp := make([]nd, n)
	copy(tmp, leaves)
	for i >= 0 {
		for i >= l {
			out[i] = tmp[j]
			i--
			j--
		}
		f := out[l].f + out[l+1].f
		k := 0
		for k <= j && f < tmp[k].f {
			k++
		}
		for j >= k {
			out[i] = tmp[j]
			i--
			j--
		}
		out[i] = nd{f, l + 1}
		i--
		l -= 2
	}
	for x := range out {
		p.freq[x], p.child[x] = out[x].f, out[x].c
	}
	for x := range out {
		p.link(x)
	}
	p.parent[0] = -1
}

func (p *posTree) put(w *BitWriter, sym int) {
	var bits []int
	for q := p.leaf[sym]; q != 0; q = p.parent[q] {
		b := 0
		if p.child[p.parent[q]] != q {
			b = 1
		}
		bits = append(bits, b)
	}
	for i := len(bits) - 1; i >= 0; i-- {
		w.Bit(bits[i])
	}
	p.update(sym)
}

func (p *posTree) get(r *BitReader) int {
	c := p.child[0]
	for c >= 0 {
		c = p.child[c-r.Bit()]
		if r.Err != nil {
			return 0
		}
	}
	p.update(^c)
	return ^c
}

// lh2 position tree growth: a new code for every 64 bytes output.
type lh2pos struct {
	*posTree
	next int
}

func (p *lh2pos) grow(count int) {
	for p.next < 8192 && count > p.next {
		p.add(p.next / 64)
		p.next += 64
	}
}

// Lh2Writer encodes tokens with distances up to the bytes output so far,
// rounded to the codes available; Lh2MaxDist gives the limit.
type Lh2Writer struct {
	W     BitWriter
	a     *Adaptive
	p     lh2pos
	count int
}

func NewLh2Writer() *Lh2Writer {
	return &Lh2Writer{a: NewAdaptive(286), p: lh2pos{newPosTree(), 64}}
}

// MaxDist is the largest distance the next match can use.
func (e *Lh2Writer) MaxDist() int {
	n := e.p.next
	for n < 8192 && e.count > n {
		n += 64
	}
	return n
}

func (e *Lh2Writer) Put(t Tok) {
	c := CSym(t)
	if c >= 285 {
		e.a.Put(&e.W, 285)
		e.W.Bits(c-285, 8)
	} else {
		e.a.Put(&e.W, c)
	}
	if t.Len > 0 {
		e.p.grow(e.count)
		d := t.Dist - 1
		e.p.put(&e.W, d>>6)
		e.W.Bits(d&63, 6)
		e.count += t.Len
	} else {
		e.count++
	}
}

func DecodeLh2(in []byte, size int) (out []byte, toks []Tok, used int, err error) {
	r := &BitReader{In: in}
	w := NewWindow(13, ' ')
	a := NewAdaptive(286)
	p := lh2pos{newPosTree(), 64}
	for len(w.Out) < size {
		c := a.Get(r)
		if c == 285 {
			c += r.Bits(8)
		}
		var t Tok
		if c < 256 {
			t.Lit = byte(c)
		} else {
			t.Len = c - 256 + 3
			p.grow(len(w.Out))
			t.Dist = p.get(r)<<6 + r.Bits(6) + 1
		}
		if r.Err != nil {
			return w.Out, toks, r.Pos, r.Err
		}
		toks = append(toks, t)
		w.Apply(t)
	}
	if len(w.Out) != size {
		return w.Out, toks, r.Pos, ErrBad
	}
	return w.Out, toks, r.Pos, nil
}

// -lh3-: static blocks with raw code lengths.

type Block3 struct {
	Toks   []Tok
	CLens  []int // 286 lengths 0..16, or nil: constant
	PLens  []int // 128 lengths 0..15, or nil
	PReady bool  // the ready made position code
	CConst int
	PConst int
}

func c3(t Tok) (sym, extra int, ext bool) {
	c := CSym(t)
	if c >= 285 {
		return 285, c - 285, true
	}
	return c, 0, false
}

func (b *Block3) AutoLens() {
	cf := make([]int, 286)
	pf := make([]int, 128)
	for _, t := range b.Toks {
		s, _, _ := c3(t)
		cf[s]++
		if t.Len > 0 {
			pf[(t.Dist-1)>>6]++
		}
	}
	b.CLens, b.CConst = lensOf(cf)
	if b.CLens != nil {
		b.CLens = HuffLens(cf, 16)
	}
	b.PLens, b.PConst = lensOf(pf)
	if b.PLens != nil {
		b.PLens = HuffLens(pf, 15)
	}
}

func EncodeLh3(blocks []Block3) []byte {
	w := &BitWriter{}
	for _, b := range blocks {
		w.Bits(len(b.Toks)&0xffff, 16)
		if b.CLens == nil {
			for i := 0; i < 3; i++ {
				w.Bits(1, 1)
				w.Bits(0, 4)
			}
			w.Bits(b.CConst, 9)
		} else {
			for _, l := range b.CLens {
				if l == 0 {
					w.Bit(0)
				} else {
					w.Bit(1)
					w.Bits(l-1, 4)
				}
			}
		}
		pl := b.PLens
		if b.PReady {
			w.Bit(0)
			pl = PosLens3
		} else {
			w.Bit(1)
			if pl == nil {
				for i := 0; i < 3; i++ {
					w.Bits(1, 4)
				}
				w.Bits(b.PConst, 7)
			} else {
				for _, l := range pl {
					w.Bits(l, 4)
				}
			}
		}
		var cc, pc []Code
		if b.CLens != nil {
			cc = Canonical(b.CLens)
		}
		if pl != nil {
			pc = Canonical(pl)
		}
		for _, t := range b.Toks {
			s, e, ext := c3(t)
			if cc != nil {
				w.Code(cc[s])
			}
			if ext {
				w.Bits(e, 8)
			}
			if t.Len > 0 {
				d := t.Dist - 1
				if pc != nil {
					w.Code(pc[d>>6])
				}
				w.Bits(d&63, 6)
			}
		}
	}
	return w.Out
}
