package main

import (
	"fmt"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// codec is the model of a method: what tokens it has, how they are written.
type codec struct {
	name           string
	minLen, maxLen int
	dist           int // largest distance
	win            func() *ref.Window
	enc            func(toks []ref.Tok) []byte
}

func staticCodec(m int) codec {
	return codec{fmt.Sprintf("-lh%d-", m), 3, 256, 1 << uint(ref.Static[m].Dic), func() *ref.Window { return ref.NewWindow(ref.Static[m].Dic, ' ') }, func(toks []ref.Tok) []byte {
		var bs []ref.Block
		for len(toks) > 0 {
			n := min(len(toks), 20000)
			b := ref.Block{Toks: toks[:n]}
			b.AutoLens(m)
			bs = append(bs, b)
			toks = toks[n:]
		}
		return ref.EncodeStatic(m, bs)
	}}
}

var codecs = []codec{
	{"-lh1-", 3, 60, 4096, func() *ref.Window { return ref.NewWindow(12, ' ') }, ref.EncodeLh1},
	{"-lh2-", 3, 256, 8192, func() *ref.Window { return ref.NewWindow(13, ' ') }, func(toks []ref.Tok) []byte {
		w := ref.NewLh2Writer()
		for _, t := range toks {
			w.Put(t)
		}
		return w.W.Out
	}},
	{"-lh3-", 3, 256, 8192, func() *ref.Window { return ref.NewWindow(13, ' ') }, func(toks []ref.Tok) []byte {
		var bs []ref.Block3
		for len(toks) > 0 {
			n := min(len(toks), 20000)
			b := ref.Block3{Toks: toks[:n]}
			b.AutoLens()
			b.PReady = len(toks)%2 == 1
			bs = append(bs, b)
			toks = toks[n:]
		}
		return ref.EncodeLh3(bs)
	}},
	staticCodec(4), staticCodec(5), staticCodec(6), staticCodec(7),
	{"-lzs-", 2, 17, 2048, func() *ref.Window { return ref.NewWindow(11, ' ') }, ref.EncodeLzs},
	{"-lz5-", 3, 18, 4096, ref.NewLz5Window, ref.EncodeLz5},
	{"-pm2-", 2, 256, 8192, func() *ref.Window { return ref.NewWindow(13, ' ') }, func(toks []ref.Tok) []byte {
		p := ref.NewPmWriter(pmTrees)
		p.Begin()
		for _, t := range toks {
			p.Put(t)
		}
		return p.W.Out
	}},
}

// legal adapts a token to what the method can express at this point.
func legalize(name string, toks []ref.Tok) []ref.Tok {
	out := make([]ref.Tok, 0, len(toks))
	switch name {
	case "-lh2-":
		w := ref.NewLh2Writer()
		for _, t := range toks {
			if t.Len > 0 && t.Dist > w.MaxDist() {
				t.Dist = w.MaxDist()
			}
			w.Put(t)
			out = append(out, t)
		}
	case "-pm2-":
		n := 0
		for _, t := range toks {
			if t.Len == 2 && t.Dist > 64 {
				t.Dist = 64
			}
			if t.Len == 256 {
				t.Dist = 1
			}
			lim := []int{1024, 2048, 4096, 8192}
			for i, at := range []int{1024, 2048, 4096, 1 << 30} {
				if n < at {
					if t.Dist > lim[i] {
						t.Dist = lim[i]
					}
					break
				}
			}
			if t.Len > 0 {
				n += t.Len
			} else {
				n++
			}
			out = append(out, t)
		}
	default:
		return toks
	}
	return out
}

// checkDecode decodes a stream with the real code.
func checkDecode(t *T, method string, packed, want []byte, toks int) {
	out, crc, consumed, read := decodeStream(method, packed, len(want))
	t.Distinct([]byte(method), packed, le4(uint32(len(want))))
	t.Trans(toks)
	t.Traces(1)
	if s := diff(out, want); s != "" {
		t.Fail("%s: %s (wanted %s, got %s)", method, s, q(want), q(out))
		return
	}
	if uint16(crc) != ref.CRC16(want) || crc>>16 != 0 {
		t.Fail("%s: CRC %04x instead of %04x", method, crc, ref.CRC16(want))
	}
	if consumed > len(packed) || read > len(packed) {
		t.Fail("%s: consumed %d (reported %d) of %d packed bytes", method, consumed, read, len(packed))
	}
}

func (cd *codec) run(t *T, toks []ref.Tok) {
	toks = legalize(cd.name, toks)
	w := cd.win()
	for _, k := range toks {
		w.Apply(k)
	}
	checkDecode(t, cd.name, cd.enc(toks), w.Out, len(toks))
}

// shapes enumerates the complete prefix code length vectors of k symbols.
func shapes(k, max int, f func(lens []int)) {
	lens := make([]int, k)
	var rec func(i int, left uint)
	rec = func(i int, left uint) {
		if i == k {
			if left == 0 {
				f(append([]int{}, lens...))
			}
			return
		}
		for l := 1; l <= max; l++ {
			c := uint(1) << uint(max-l)
			if c <= left {
				lens[i] = l
				rec(i+1, left-c)
			}
		}
	}
	rec(0, 1<<uint(max))
}

func litTok(b byte) ref.Tok { return ref.Tok{Lit: b} }

// symTok is a token with the given literal/length symbol.
func symTok(s, dist int) ref.Tok {
	if s < 256 {
		return litTok(byte(s))
	}
	return ref.Tok{Len: s - 256 + 3, Dist: dist}
}

// distOf gives distances of a position code.
func distOf(code, v int) int {
	if code < 2 {
		return code + 1
	}
	return 1<<uint(code-1) + v%(1<<uint(code-1)) + 1
}

func chainLens(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i + 1
	}
	l[n-1] = n - 1
	return l
}

// flatLens: n lengths of a code as even as possible.
func flatLens(n int) []int {
	b := 0
	for 1<<uint(b+1) <= n {
		b++
	}
	long := n - 1<<uint(b) // as many leaves are split
	l := make([]int, n)
	for i := range l {
		l[i] = b
		if i >= n-2*long {
			l[i] = b + 1
		}
	}
	return l
}

func rev(a []int) []int {
	b := make([]int, len(a))
	for i := range a {
		b[len(a)-1-i] = a[i]
	}
	return b
}

func place(n int, syms, lens []int) []int {
	l := make([]int, n)
	for i, s := range syms {
		l[s] = lens[i]
	}
	return l
}

func init() {
	register(&Prop{
		ID:        "C03",
		Technique: "bounded exhaustive exploration of token sequences and code tables of an independent model of every method; each model trace is written as a packed stream and replayed on the real decoder",
		Level:     "model_checking",
		Rule:      "state = distinct packed stream; transition = token of the model; trace = one stream decoded by the implementation and compared byte by byte",
		StallSec:  150,
		Bounds: map[string]string{
			"quick":    "13 methods; all token sequences to length 4 over 8 token kinds; all lengths x boundary distances; window wrap; all complete code shapes of 2..5 symbols and chains to 16 bits; block sequences to length 3; adaptive rebuilds, adaptive codes beyond 16 bits; outputs beyond 2^24 bytes; dictionary of broken archives and token dump on sequences to length 4 over 6 kinds",
			"thorough": "token sequences to length 5, all distances of every method, code shapes to 6 symbols, block sequences to length 4",
		},
		Explore: exploreC03,
	})
}

func exploreC03(c *Ctx) {
	depth := 4
	if c.Thorough {
		depth = 5
	}
	// stored methods
	for _, m := range []string{"-lh0-", "-lz4-", "-pm0-"} {
		for n := 0; n < 20; n++ {
			m, n := m, n
			c.Case(str("%s of %d bytes", m, n), func(t *T) { b := unique(n, 256, 0); checkDecode(t, m, b, b, n) })
		}
		for _, n := range append(around(2048, 4096, 65536), 1<<20+1, 1<<24+3) {
			m, n := m, n
			c.Case(str("%s of %d bytes", m, n), func(t *T) { b := unique(n, 256, 0); checkDecode(t, m, b, b, n) })
		}
	}
	for i := range codecs {
		cd := &codecs[i]
		m := cd.name
		alpha := []ref.Tok{litTok('a'), litTok(0xff), {Len: cd.minLen, Dist: 1}, {Len: cd.minLen + 1, Dist: 2}, {Len: cd.maxLen, Dist: 1},
			{Len: cd.minLen + 2, Dist: cd.dist}, {Len: cd.maxLen, Dist: cd.dist - 1}, {Len: cd.minLen, Dist: 65}}
		seqs(len(alpha), 1, depth, func(s []int) {
			s = cp(s)
			c.Case(str("%s tokens %v", m, s), func(t *T) {
				var toks []ref.Tok
				for _, v := range s {
					toks = append(toks, alpha[v])
				}
				cd.run(t, toks)
			})
		})
		// all literals
		c.Case(str("%s every literal", m), func(t *T) {
			var toks []ref.Tok
			for r := 0; r < 3; r++ {
				for b := 0; b < 256; b++ {
					toks = append(toks, litTok(byte(b*(2*r+1))))
				}
			}
			cd.run(t, toks)
		})
		var dists []int
		if c.Thorough && cd.dist <= 8192 {
			for d := 1; d <= cd.dist; d++ {
				dists = append(dists, d)
			}
		} else {
			mk := map[int]bool{}
			ad := func(d int) {
				if d >= 1 && d <= cd.dist && !mk[d] {
					mk[d] = true
					dists = append(dists, d)
				}
			}
			for d := 1; d <= 20; d++ {
				ad(d)
				ad(cd.dist - d + 1)
			}
			for k := 2; 1<<uint(k) <= cd.dist; k++ {
				for e := -1; e <= 2; e++ {
					ad(1<<uint(k) + e)
				}
			}
			for d := 37; d < cd.dist; d += cd.dist/64 + 1 {
				ad(d)
			}
		}
		prefix := []ref.Tok{litTok('p'), litTok('q'), litTok('r'), litTok('s'), litTok('t')}
		for _, d := range dists {
			d := d
			c.Case(str("%s distance %d, every length", m, d), func(t *T) {
				for l := cd.minLen; l <= cd.maxLen; l++ {
					if l > 40 && l < cd.maxLen-5 && l%13 != 0 && !(d < 3 || d == cd.dist) {
						continue
					}
					cd.run(t, append(append([]ref.Tok{}, prefix...), ref.Tok{Len: l, Dist: d}, litTok('z'), ref.Tok{Len: cd.minLen, Dist: 1}))
				}
			})
		}
		// the window wraps
		for _, lead := range []int{cd.dist - 4, cd.dist - 3, cd.dist - 1, cd.dist, cd.dist + 1, 2*cd.dist - 2, 2 * cd.dist} {
			for _, ml := range []int{cd.minLen, cd.minLen + 1, cd.maxLen} {
				for _, d := range []int{1, 2, 5, cd.dist / 2, cd.dist - cd.maxLen, cd.dist - 1, cd.dist} {
					if d < 1 {
						continue
					}
					lead, ml, d := lead, ml, d
					c.Case(str("%s wrap: %d literals, match %d at %d", m, lead, ml, d), func(t *T) {
						var toks []ref.Tok
						for _, b := range unique(lead, 100, 32) {
							toks = append(toks, litTok(b))
						}
						toks = append(toks, ref.Tok{Len: ml, Dist: d}, litTok('Z'), ref.Tok{Len: ml, Dist: d}, ref.Tok{Len: ml, Dist: cd.dist})
						cd.run(t, toks)
					})
				}
			}
		}
		// long mixtures: rebuilds, blocks, growth of the position code
		ns := []int{3000, 40000, 70000}
		if c.Thorough {
			ns = append(ns, 200000)
		}
		for _, n := range ns {
			for kind := 0; kind < 5; kind++ {
				n, kind := n, kind
				c.Case(str("%s mixture %d of %d tokens", m, kind, n), func(t *T) { cd.run(t, mixture(cd, n, kind)) })
			}
		}
	}
	// the dictionary of broken archives holds zeros; dumping changes nothing
	for i := range codecs {
		cd := &codecs[i]
		alpha := []ref.Tok{litTok('a'), litTok(0x80), {Len: cd.minLen, Dist: 1}, {Len: cd.minLen + 1, Dist: 3}, {Len: cd.maxLen, Dist: cd.dist / 2}, {Len: cd.minLen + 3, Dist: cd.dist}}
		seqs(len(alpha), 1, 4, func(s []int) {
			s = cp(s)
			c.Case(str("%s tokens of 6 %v, special modes", cd.name, s), func(t *T) {
				var toks []ref.Tok
				for _, v := range s {
					toks = append(toks, alpha[v])
				}
				toks = legalize(cd.name, toks)
				packed := cd.enc(toks)
				for mode := 1; mode < 4; mode++ {
					l := lha.NewLha("none")
					l.ExtractBrokenArchive, l.DumpLzss = mode&1 == 1, mode&2 == 2
					w := cd.win()
					if l.ExtractBrokenArchive {
						if cd.name == "-lz5-" || cd.name == "-pm2-" {
							continue // never were such archives
						}
						w.Fill(0)
					}
					for _, k := range toks {
						w.Apply(k)
					}
					out, crc, _, _ := decodeStreamAs(l, cd.name, packed, len(w.Out))
					t.Trans(len(toks))
					t.Traces(1)
					t.Distinct([]byte(cd.name), packed, []byte{byte(mode)})
					if d := diff(out, w.Out); d != "" || uint16(crc) != ref.CRC16(w.Out) {
						t.Fail("%s, broken archive %v, dump %v: %s (CRC %04x)", cd.name, l.ExtractBrokenArchive, l.DumpLzss, d, crc)
						return
					}
				}
			})
		})
	}
	// every length and distance of the method, up to several megabytes
	for i := range codecs {
		cd := &codecs[i]
		for _, n := range []int{9000, 20000} {
			n := n
			c.Case(str("%s any lengths, %d tokens", cd.name, n), func(t *T) { cd.run(t, mixture(cd, n, 5)) })
		}
		if cd.maxLen >= 250 {
			c.Case(str("%s more than 2^24 bytes", cd.name), func(t *T) {
				toks := []ref.Tok{litTok('m'), litTok('n')}
				for k := 0; k <= 1<<24/cd.maxLen; k++ {
					toks = append(toks, ref.Tok{Len: cd.maxLen, Dist: 1 + k%2})
				}
				cd.run(t, append(toks, litTok('o'), ref.Tok{Len: cd.minLen, Dist: 3}))
			})
		}
	}
	// adaptive codes deeper than 16 bits
	for _, m := range []string{"-lh1-", "-lh2-"} {
		for i := range codecs {
			if cd := &codecs[i]; cd.name == m {
				for _, first := range []int{64, 120, 135, 310, 325, 345} {
					for order := 0; order < 3; order++ {
						first, order := first, order
						c.Case(str("%s deep adaptive code from %d, order %d", m, first, order), func(t *T) {
							cd.run(t, deepTokens(cd, first, order, false))
							cd.run(t, deepTokens(cd, first, order, true))
						})
					}
				}
			}
		}
	}
	exploreStatic(c)
	exploreLh3(c)
	explorePm2(c)
}

// deepTokens makes symbols (or positions) occur with growing Fibonacci counts,
// the total staying below the limit at which counts are halved, and then every
// symbol (position) once.
func deepTokens(cd *codec, first, order int, positions bool) []ref.Tok {
	var counts []int
	total := 0
	for a, b := first, first+5; total+a < 31500; a, b = b, a+b {
		counts = append(counts, a)
		total += a
	}
	if order == 1 {
		counts = rev(counts)
	}
	var toks []ref.Tok
	if positions {
		for _, b := range unique(cd.dist, 100, 32) {
			toks = append(toks, litTok(b))
		}
	}
	put := func(s int) {
		if positions {
			toks = append(toks, ref.Tok{Len: cd.minLen + s%2, Dist: s*64%cd.dist + 1 + s%64})
		} else if s < 6 {
			toks = append(toks, ref.Tok{Len: cd.minLen + s, Dist: 1 + s})
		} else {
			toks = append(toks, litTok(byte(s*11)))
		}
	}
	if order == 2 {
		for left := true; left; {
			left = false
			for s := range counts {
				for k := 0; k < 8 && counts[s] > 0; k++ {
					counts[s]--
					left = true
					put(s)
				}
			}
		}
	} else {
		for s, n := range counts {
			for ; n > 0; n-- {
				put(s)
			}
		}
	}
	if positions {
		for s := cd.dist/64 - 1; s >= 0; s-- {
			put(s)
		}
		return append(toks, litTok('.'))
	}
	for b := 255; b >= 0; b-- {
		toks = append(toks, litTok(byte(b)))
	}
	for l := cd.minLen; l <= cd.maxLen; l += 1 + l/40 {
		toks = append(toks, ref.Tok{Len: l, Dist: 1})
	}
	return append(toks, litTok('.'))
}

func mixture(cd *codec, n, kind int) []ref.Tok {
	x := uint32(kind*77 + 1)
	rnd := func(k int) int {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		return int(x % uint32(k))
	}
	fib := []int{1}
	for a, b := 1, 2; len(fib) < 22; a, b = b, a+b {
		fib = append(fib, b)
	}
	var toks []ref.Tok
	for i := 0; i < n; i++ {
		switch kind {
		case 0: // uniform literals
			toks = append(toks, litTok(byte(rnd(256))))
		case 1: // mostly matches of any length and distance
			if rnd(8) == 0 {
				toks = append(toks, litTok(byte(rnd(256))))
			} else {
				toks = append(toks, ref.Tok{Len: cd.minLen + rnd(min(cd.maxLen-cd.minLen+1, 30)), Dist: 1 + rnd(cd.dist)})
			}
		case 2: // symbols with Fibonacci frequencies: the deepest adaptive trees
			r := rnd(28656)
			s := 0
			for s < 21 && r >= fib[s] {
				r -= fib[s]
				s++
			}
			if s%2 == 0 {
				toks = append(toks, litTok(byte(s)))
			} else {
				toks = append(toks, ref.Tok{Len: min(cd.minLen+s, cd.maxLen), Dist: 1 + fib[s]%cd.dist})
			}
		case 3: // positions with skewed frequencies
			d := 1
			for rnd(2) == 1 && d*2 < cd.dist {
				d *= 2
			}
			toks = append(toks, litTok(byte(rnd(4))), ref.Tok{Len: cd.minLen, Dist: d + rnd(d)%(cd.dist-d+1)})
		case 5: // any length, any distance
			if rnd(5) == 0 {
				toks = append(toks, litTok(byte(rnd(256))))
			} else {
				toks = append(toks, ref.Tok{Len: cd.minLen + rnd(cd.maxLen-cd.minLen+1), Dist: 1 + rnd(cd.dist)})
			}
		case 4: // phases: one symbol at a time, then the others
			switch {
			case i%9000 < 8000:
				toks = append(toks, litTok(byte(i/9000)))
			case rnd(2) == 0:
				toks = append(toks, litTok(byte(rnd(256))))
			default:
				toks = append(toks, ref.Tok{Len: cd.maxLen - rnd(2), Dist: 1 + rnd(cd.dist)})
			}
		}
	}
	return toks
}

// ---- -lh4- to -lh7-: code tables and blocks

func exploreStatic(c *Ctx) {
	kmax := 5
	if c.Thorough {
		kmax = 6
	}
	for m := 4; m <= 7; m++ {
		m := m
		name := fmt.Sprintf("-lh%d-", m)
		par := ref.Static[m]
		run := func(t *T, bs []ref.Block) {
			w := ref.NewWindow(par.Dic, ' ')
			n := 0
			for _, b := range bs {
				for _, k := range b.Toks {
					w.Apply(k)
					n++
				}
			}
			checkDecode(t, name, ref.EncodeStatic(m, bs), w.Out, n)
		}
		symSets := [][]int{{0, 1, 2, 3, 4, 5}, {97, 255, 256, 257, 508, 509}, {0, 100, 255, 300, 400, 509}, {256, 257, 258, 300, 301, 302}, {19, 20, 40, 60, 260, 509}}
		for k := 2; k <= kmax; k++ {
			shapes(k, k, func(lens []int) {
				for si, set := range symSets {
					set := set[:k]
					if si == 2 { // keep the extremes
						set = append(append([]int{}, set[:k-1]...), 509)
					}
					c.Case(str("%s code %v on %v", name, lens, set), func(t *T) {
						for v := 0; v < 4; v++ {
							b := ref.Block{CLens: place(ref.NC, set, lens), PConst: v % par.NP, TruncC: v == 2, TruncP: v == 3}
							if v == 1 {
								b.PLens, b.PConst = place(par.NP, []int{0, 1, par.NP - 1}, []int{2, 2, 1}), 0
							}
							for r := 0; r < 3; r++ {
								for i := range set {
									d := distOf(b.PConst, r*31+i)
									if v == 1 {
										d = distOf([]int{0, 1, par.NP - 1}[(r+i)%3], r*977+i)
									}
									b.Toks = append(b.Toks, symTok(set[i*(r+1)%k], d), symTok(set[i], d))
								}
							}
							run(t, []ref.Block{b})
						}
					})
				}
				// the same shapes as position codes
				for _, set := range [][]int{{0, 1, 2, 3, 4, 5}, {par.NP - 6, par.NP - 5, par.NP - 4, par.NP - 3, par.NP - 2, par.NP - 1}, {0, 2, 5, 7, 9, par.NP - 1}} {
					set := set[:k]
					c.Case(str("%s position code %v on %v", name, lens, set), func(t *T) {
						b := ref.Block{CConst: 256 + 4, PLens: place(par.NP, set, lens)}
						for r := 0; r < 4; r++ {
							for i := range set {
								b.Toks = append(b.Toks, ref.Tok{Len: 7, Dist: distOf(set[i*(r+1)%k], r*r*1237+i*17)})
							}
						}
						run(t, []ref.Block{b})
					})
				}
			})
		}
		// long codes: chains to 16 bits in both directions, dense subtrees below 12 bits
		for ci, cl := range [][]int{chainLens(17), rev(chainLens(17)), chainLens(13), rev(chainLens(14)), dense(11, 16), rev(dense(11, 16)), dense(3, 15), dense(12, 13)} {
			for _, base := range []int{0, 30, 240, 400} {
				cl, base, ci := cl, base, ci
				if base+len(cl) > 510 {
					continue
				}
				c.Case(str("%s long codes %d at %d", name, ci, base), func(t *T) {
					syms := make([]int, len(cl))
					for i := range syms {
						syms[i] = base + i*((509-base)/len(cl))
					}
					for v := 0; v < 3; v++ {
						b := ref.Block{CLens: place(ref.NC, syms, cl)}
						pc := []int{}
						switch v {
						case 0:
							b.PConst = 3
							pc = []int{3}
						case 1:
							n := par.NP
							b.PLens = chainLens(n)
							for i := 0; i < n; i++ {
								pc = append(pc, i)
							}
						case 2:
							b.PLens = rev(chainLens(par.NP))
							pc = []int{0, par.NP - 1, 1, 7}
						}
						for r := 0; r < 2; r++ {
							for i := range syms {
								b.Toks = append(b.Toks, symTok(syms[(i*5+r)%len(syms)], distOf(pc[i%len(pc)], i*r*331)))
							}
						}
						run(t, []ref.Block{b})
					}
				})
			}
		}
		// gaps between used symbols: every way to write runs of zero lengths
		for g := 0; g <= 60; g++ {
			g := g
			c.Case(str("%s gap of %d", name, g), func(t *T) {
				for _, base := range []int{0, 1, 97} {
					set := []int{base, base + g + 1, base + 2*g + 2, 509}
					b := ref.Block{CLens: place(ref.NC, set, []int{2, 2, 2, 2}), PConst: 1}
					for r := 0; r < 5; r++ {
						for i := range set {
							b.Toks = append(b.Toks, symTok(set[(i+r)%4], 2))
						}
					}
					run(t, []ref.Block{b})
					set = []int{base + g, 300 + g}
					b = ref.Block{CLens: place(ref.NC, set, []int{1, 1}), PConst: 2, TruncC: true}
					b.Toks = []ref.Tok{symTok(set[0], 3), symTok(set[1], 4), symTok(set[0], 3)}
					run(t, []ref.Block{b})
				}
			})
		}
		// other legal codes for the code lengths
		shapes(4, 4, func(tl []int) {
			c.Case(str("%s code length code %v", name, tl), func(t *T) {
				// lengths 1,2,2 at 65,66,67: items use symbols 2 (run), 3, 4
				for _, extra := range []int{0, 1, 5, 6, 7, 18} {
					T := make([]int, ref.NT)
					use := []int{2, 3, 4, extra}
					for i, s := range use {
						T[s] = tl[i]
					}
					b := ref.Block{CLens: place(ref.NC, []int{65, 66, 67}, []int{1, 2, 2}), TLens: T}
					b.Toks = []ref.Tok{litTok('A'), litTok('B'), litTok('C'), litTok('A')}
					run(t, []ref.Block{b})
				}
			})
		})
		c.Case(str("%s deep code length code", name), func(t *T) {
			// 17 different code lengths, the code of the code lengths is a chain to 16 bits
			syms := make([]int, 17)
			for i := range syms {
				syms[i] = 10 + i
			}
			T := make([]int, ref.NT)
			order := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}
			ch := chainLens(17)
			for i, s := range order {
				T[s] = ch[16-i]
			}
			b := ref.Block{CLens: place(ref.NC, syms, chainLens(17)), TLens: T}
			// symbols 1 and 2 are runs; the run of 10 zeros needs symbol 1 or 0
			T2 := make([]int, ref.NT)
			ch = chainLens(17)
			for i, s := range []int{1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18} {
				T2[s] = ch[i]
			}
			b.TLens = T2
			for i := range syms {
				b.Toks = append(b.Toks, litTok(byte(10+i)))
			}
			run(t, []ref.Block{b})
		})
		// sequences of blocks
		kinds := []func(k int) ref.Block{
			func(k int) ref.Block { // one literal
				b := ref.Block{CConst: 97 + k}
				for i := 0; i < 5+k; i++ {
					b.Toks = append(b.Toks, litTok(byte(97+k)))
				}
				return b
			},
			func(k int) ref.Block { // one match symbol
				b := ref.Block{CConst: 256 + k, PConst: 2 + k}
				for i := 0; i < 4; i++ {
					b.Toks = append(b.Toks, ref.Tok{Len: 3 + k, Dist: distOf(2+k, i)})
				}
				return b
			},
			func(k int) ref.Block {
				b := ref.Block{Toks: []ref.Tok{litTok('x'), litTok('y'), litTok('x'), {Len: 5, Dist: 2}, {Len: 9, Dist: 77 + k}, litTok(byte(k))}}
				b.AutoLens(m)
				return b
			},
			func(k int) ref.Block {
				cl := chainLens(17)
				if k%2 == 1 {
					cl = rev(cl)
				}
				syms := make([]int, 17)
				for i := range syms {
					syms[i] = i * 29
				}
				b := ref.Block{CLens: place(ref.NC, syms, cl), PLens: chainLens(par.NP)}
				for i := range syms {
					b.Toks = append(b.Toks, symTok(syms[16-i], distOf(i%par.NP, i)))
				}
				return b
			},
			func(k int) ref.Block { // one token only
				return ref.Block{CConst: 300, PConst: par.NP - 1, Toks: []ref.Tok{{Len: 47, Dist: distOf(par.NP-1, k)}}}
			},
		}
		bl := 3
		if c.Thorough {
			bl = 4
		}
		seqs(len(kinds), 1, bl, func(s []int) {
			s = cp(s)
			c.Case(str("%s blocks %v", name, s), func(t *T) {
				var bs []ref.Block
				for i, v := range s {
					bs = append(bs, kinds[v](i))
				}
				run(t, bs)
			})
		})
		// what one block codes, the next one need not
		other := func(k, base int) ref.Block {
			switch k {
			case 0:
				return ref.Block{CConst: 'q', Toks: []ref.Tok{litTok('q'), litTok('q')}}
			case 1:
				return ref.Block{CLens: place(ref.NC, []int{base, base + 1}, []int{1, 1}), PConst: 1, Toks: []ref.Tok{symTok(base, distOf(1, 0)), symTok(base+1, distOf(1, 0))}}
			}
			return ref.Block{CLens: place(ref.NC, []int{base, base + 2, base + 5, base + 6}, []int{2, 1, 3, 3}), PLens: place(par.NP, []int{0, 1, 2}, []int{1, 2, 2}),
				Toks: []ref.Tok{symTok(base+6, 1), symTok(base, 2), {Len: 3, Dist: 1}}[:2]}
		}
		for s := 0; s < ref.NC; s++ {
			s := s
			c.Case(str("%s symbol %d in one block and not in the next", name, s), func(t *T) {
				for _, x := range []int{0, 100, 255, 256, 300, 509} {
					if x == s {
						continue
					}
					for p := 0; p < par.NP; p++ {
						if p != s%par.NP && p != par.NP-1 && p != 0 {
							continue
						}
						pl := place(par.NP, []int{p, (p + 1) % par.NP}, []int{1, 1})
						b := ref.Block{CLens: place(ref.NC, []int{s, x}, []int{1, 1}), PLens: pl, Toks: []ref.Tok{symTok(s, distOf(p, 0)), symTok(x, distOf((p+1)%par.NP, 1)), symTok(s, distOf(p, 1))}}
						for k := 0; k < 3; k++ {
							run(t, []ref.Block{b, other(k, s/2), other((k+1)%3, s/3), b})
						}
					}
					t.Beat()
				}
			})
		}
		c.Case(str("%s blocks of 65535 tokens", name), func(t *T) {
			b := ref.Block{CConst: 'k'}
			for i := 0; i < 65535; i++ {
				b.Toks = append(b.Toks, litTok('k'))
			}
			run(t, []ref.Block{b, kinds[2](0)})
		})
	}
}

// dense: a chain of n lengths, then the rest all at length l.
func dense(n, l int) []int {
	var out []int
	for i := 1; i <= n; i++ {
		out = append(out, i)
	}
	for i := 0; i < 1<<uint(l-n); i++ {
		out = append(out, l)
	}
	if len(out) > 200 {
		out = out[:200]
		// complete it
		return completeTo(out)
	}
	return out
}

func completeTo(l []int) []int {
	var left uint64 = 1 << 32
	for _, v := range l {
		left -= 1 << uint(32-v)
	}
	for b := 1; b <= 16; b++ {
		for left >= 1<<uint(32-b) {
			l = append(l, b)
			left -= 1 << uint(32-b)
		}
	}
	return l
}

// ---- -lh3-

func exploreLh3(c *Ctx) {
	run := func(t *T, bs []ref.Block3) {
		w := ref.NewWindow(13, ' ')
		n := 0
		for _, b := range bs {
			for _, k := range b.Toks {
				w.Apply(k)
				n++
			}
		}
		checkDecode(t, "-lh3-", ref.EncodeLh3(bs), w.Out, n)
	}
	kmax := 5
	if c.Thorough {
		kmax = 6
	}
	for k := 2; k <= kmax; k++ {
		shapes(k, k, func(lens []int) {
			for _, set := range [][]int{{0, 1, 2, 3, 4, 5}, {97, 255, 256, 257, 284, 285}, {0, 100, 255, 270, 280, 285}, {280, 281, 282, 283, 284, 285}} {
				set := set[len(set)-k:]
				c.Case(str("-lh3- code %v on %v", lens, set), func(t *T) {
					for v := 0; v < 3; v++ {
						b := ref.Block3{CLens: place(286, set, lens)}
						pset := []int{0, 1, 64, 127}
						switch v {
						case 0:
							b.PReady = true
						case 1:
							b.PLens = place(128, pset, []int{2, 2, 2, 2})
						case 2:
							b.PConst = 77
							pset = []int{77}
						}
						for r := 0; r < 3; r++ {
							for i := range set {
								s := set[i*(r+1)%k]
								d := pset[(i+r)%len(pset)]*64 + (i*r*11)%64 + 1
								if s == 285 {
									s += (i*97 + r*55) % 225
								}
								b.Toks = append(b.Toks, symTok(s, d))
							}
						}
						run(t, []ref.Block3{b})
					}
				})
			}
			for _, set := range [][]int{{0, 1, 2, 3, 4, 5}, {122, 123, 124, 125, 126, 127}, {0, 9, 40, 64, 100, 127}} {
				set := set[:k]
				c.Case(str("-lh3- position code %v on %v", lens, set), func(t *T) {
					b := ref.Block3{CConst: 260, PLens: place(128, set, lens)}
					for r := 0; r < 3; r++ {
						for i := range set {
							b.Toks = append(b.Toks, ref.Tok{Len: 7, Dist: set[i*(r+1)%k]*64 + (i*r*17)%64 + 1})
						}
					}
					run(t, []ref.Block3{b})
				})
			}
		})
	}
	for ci, cl := range [][]int{chainLens(17), rev(chainLens(17)), dense(11, 16), dense(12, 13)} {
		for pi, pl := range [][]int{chainLens(16), rev(chainLens(16)), dense(7, 12), nil} {
			cl, pl := cl, pl
			c.Case(str("-lh3- long codes %d/%d", ci, pi), func(t *T) {
				cs := make([]int, len(cl))
				for i := range cs {
					cs[i] = 285 - i*(285/len(cl))
				}
				b := ref.Block3{CLens: place(286, cs, cl)}
				ps := []int{}
				if pl == nil {
					b.PReady = true
					ps = []int{0, 1, 2, 60, 127}
				} else {
					for i := range pl {
						ps = append(ps, i*(127/len(pl)))
					}
					b.PLens = place(128, ps, pl)
				}
				for i := range cs {
					s := cs[(i*5)%len(cs)]
					if s == 285 {
						s += i
					}
					b.Toks = append(b.Toks, symTok(s, ps[i%len(ps)]*64+i%64+1))
				}
				run(t, []ref.Block3{b, b})
			})
		}
	}
	kinds := []func(k int) ref.Block3{
		func(k int) ref.Block3 {
			return ref.Block3{CConst: 65 + k, PReady: k%2 == 0, Toks: []ref.Tok{litTok(byte(65 + k)), litTok(byte(65 + k))}}
		},
		func(k int) ref.Block3 {
			return ref.Block3{CConst: 256 + k, PConst: 5 + k, Toks: []ref.Tok{{Len: 3 + k, Dist: (5+k)*64 + 9}, {Len: 3 + k, Dist: (5+k)*64 + 1}}}
		},
		func(k int) ref.Block3 {
			b := ref.Block3{Toks: []ref.Tok{litTok('x'), litTok('y'), litTok('x'), {Len: 5, Dist: 2}, {Len: 200, Dist: 77 + k}, litTok(byte(k))}}
			b.AutoLens()
			b.PReady = k == 1
			return b
		},
		func(k int) ref.Block3 {
			return ref.Block3{CConst: 285, PReady: true, Toks: []ref.Tok{{Len: 32 + k, Dist: 5000}, {Len: 256, Dist: 1}}}
		},
	}
	seqs(len(kinds), 1, 3, func(s []int) {
		s = cp(s)
		c.Case(str("-lh3- blocks %v", s), func(t *T) {
			var bs []ref.Block3
			for i, v := range s {
				bs = append(bs, kinds[v](i))
			}
			run(t, bs)
		})
	})
}

// ---- -pm2-

func explorePm2(c *Ctx) {
	kmax := 5
	if c.Thorough {
		kmax = 6
	}
	runPm := func(t *T, trees func(k int) (ref.PmTrees, bool), gen func(p *ref.PmWriter, put func(ref.Tok))) {
		p := ref.NewPmWriter(trees)
		p.Begin()
		n := 0
		gen(p, func(k ref.Tok) { p.Put(k); n++ })
		checkDecode(t, "-pm2-", p.W.Out, p.Out(), n)
	}
	// tokOf gives a token using symbol s, whatever the history says
	tokOf := func(p *ref.PmWriter, s, v, dist int) (ref.Tok, bool) {
		switch {
		case s < 8:
			for b := 0; b < 256; b++ {
				tk := litTok(byte(b*7 + v))
				if p.Sym(tk) == s {
					return tk, true
				}
			}
			return ref.Tok{}, false
		case s < 23:
			tk := ref.Tok{Len: s - 8 + 2, Dist: dist}
			if s == 8 {
				tk.Dist = (dist-1)%64 + 1
			}
			return tk, true
		default:
			base := []int{17, 25, 33, 65, 129, 256}[s-23]
			bits := []int{3, 3, 5, 6, 7, 0}[s-23]
			tk := ref.Tok{Len: base + v%(1<<uint(bits)), Dist: dist}
			if s == 28 {
				tk.Dist = 1
			}
			return tk, true
		}
	}
	for k := 2; k <= kmax; k++ {
		shapes(k, k, func(lens []int) {
			for _, set := range [][]int{{0, 1, 2, 3, 4, 5}, {0, 4, 7, 8, 9, 22}, {0, 8, 23, 27, 28, 24}, {2, 3, 5, 6, 7, 26}} {
				set := append([]int{}, set[:k]...)
				for _, off := range [][]int{nil, {1, 1, 0, 0, 0, 0, 0, 0}, {2, 2, 2, 3, 3, 0, 0, 0}, {4, 4, 3, 2, 1, 0, 0, 0}} {
					off := off
					c.Case(str("-pm2- code %v on %v offsets %v", lens, set, off), func(t *T) {
						n := 0
						for _, s := range set {
							if s >= n {
								n = s + 1
							}
						}
						for _, pad := range []int{0, 1} {
							nn := n
							if pad == 1 {
								nn = 29
							}
							full := place(nn, set, lens)
							tr := ref.PmTrees{Lens: full, OffLens: off, OffC: 0}
							runPm(t, func(int) (ref.PmTrees, bool) { return tr, false }, func(p *ref.PmWriter, put func(ref.Tok)) {
								for r := 0; r < 4; r++ {
									for i := range set {
										s := set[i*(r+1)%k]
										d := 1 + (i*13+r*29)%64
										if off != nil && (i+r)%2 == 1 {
											d = 65 + (i*5+r)%60
										}
										if off == nil || s == 8 {
											d = (d-1)%64 + 1
										}
										if tk, ok := tokOf(p, s, i*31+r*3, d); ok && len(p.Out()) < 700 {
											put(tk)
										}
									}
								}
							})
						}
					})
				}
			}
		})
	}
	// long codes, and other ways to announce a code
	for k := 2; k <= 29; k++ {
		for order := 0; order < 4; order++ {
			k, order := k, order
			c.Case(str("-pm2- %d codes, one of each length, order %d", k, order), func(t *T) {
				set := make([]int, k)
				for i := range set {
					set[i] = i
					if order >= 2 {
						set[i] = 28 - i
					}
				}
				l := chainLens(k)
				if order%2 == 1 {
					l = rev(l)
				}
				n := k
				if order >= 2 {
					n = 29
				}
				for min := 0; min <= 1; min++ {
					for nb := 0; nb <= 7; nb++ {
						for _, lens := range [][]int{l, flatLens(k)} {
							tr := ref.PmTrees{Lens: place(n, set, lens), OffLens: []int{1, 2, 3, 4, 4, 0, 0, 0}, Min: min, Nb: nb}
							runPm(t, func(int) (ref.PmTrees, bool) { return tr, false }, func(p *ref.PmWriter, put func(ref.Tok)) {
								for r := 0; r < 2; r++ {
									for i := range set {
										d := 1 + (i*13+r*29)%64
										if tk, ok := tokOf(p, set[(i*(r*4+1))%k], i*31+r*3, d); ok && len(p.Out()) < 700 {
											put(tk)
										}
									}
								}
							})
						}
					}
				}
			})
		}
	}
	// single symbol trees
	for s := 0; s < 29; s++ {
		s := s
		c.Case(str("-pm2- only symbol %d", s), func(t *T) {
			for oc := 0; oc < 5; oc++ {
				tr := ref.PmTrees{Const: s, OffC: oc}
				runPm(t, func(int) (ref.PmTrees, bool) { return tr, false }, func(p *ref.PmWriter, put func(ref.Tok)) {
					for i := 0; i < 5 && len(p.Out()) < 700; i++ {
						d := 1 + i
						if oc > 0 && s != 8 {
							d = 1<<uint(5+oc) + 1 + i
						}
						if tk, ok := tokOf(p, s, i*11, d); ok {
							put(tk)
						}
					}
				})
			}
		})
	}
	explorePm2Keep(c)
	// every length, with the history looked at right after it
	for n := 2; n <= 256; n++ {
		n := n
		c.Case(str("-pm2- length %d, then a literal", n), func(t *T) {
			for _, d := range []int{1, 2, 3, 31, 63, 64} {
				for lit := 0; lit < 256; lit += 51 {
					runPm(t, pmTrees, func(p *ref.PmWriter, put func(ref.Tok)) {
						for i := 0; i < 70; i++ {
							put(litTok(byte(i*29 + i/9)))
						}
						for k := 0; k < 2; k++ {
							put(ref.Tok{Len: n, Dist: d})
							put(litTok(p.Out()[len(p.Out())-2]))
							put(litTok(byte(lit)))
						}
					})
					if t.Failed() {
						return
					}
				}
			}
		})
	}
	// every history position
	c.Case(str("-pm2- history"), func(t *T) {
		runPm(t, pmTrees, func(p *ref.PmWriter, put func(ref.Tok)) {
			for i := 0; i < 256; i++ {
				put(litTok(byte(i * 37)))
			}
			for i := 0; i < 256; i++ {
				put(litTok(byte(i*i + i/3)))
			}
			for i := 0; i < 300; i++ {
				put(litTok(byte(255 - i)))
			}
		})
	})
	// tree changes at 1024, 2048, 4096, 8192, ...: every way to announce them
	n := 6
	for bitsv := 0; bitsv < 1<<uint(n); bitsv++ {
		for _, over := range []int{0, 1, 5} {
			bitsv, over := bitsv, over
			c.Case(str("-pm2- rebuilds %06b overshoot %d", bitsv, over), func(t *T) {
				alt := ref.PmTrees{Lens: rotate(pmLens(), 5), OffLens: []int{3, 3, 3, 3, 3, 3, 3, 3}}
				trees := func(k int) (ref.PmTrees, bool) {
					tr, _ := pmTrees(k)
					ann := false
					if k >= 3 {
						ann = bitsv>>uint(k-3)&1 == 1
						if ann {
							tr.Lens = rotate(pmLens(), k)
							tr.OffLens = alt.OffLens
						}
					}
					return tr, ann
				}
				runPm(t, trees, func(p *ref.PmWriter, put func(ref.Tok)) {
					i := 0
					for len(p.Out()) < 4096*n {
						i++
						o := len(p.Out())
						lim := 8192
						for _, v := range []int{1024, 2048, 4096} {
							if o < v {
								lim = v
								break
							}
						}
						next := 4096 - o%4096
						if o < 4096 {
							next = lim - o
						}
						switch {
						case next < 300 && next > 3 && over > 0 && i%2 == 0:
							put(ref.Tok{Len: min(next+over-1, 255), Dist: 1 + i%64})
						case i%3 == 0:
							put(litTok(byte(i * 11)))
						case i%3 == 1:
							put(ref.Tok{Len: 3 + i%200, Dist: 1 + (i*733)%lim})
						default:
							put(ref.Tok{Len: 2 + i%15, Dist: 1 + i%64})
						}
					}
				})
			})
		}
	}
}

// explorePm2Keep: an offset tree may be announced without any code, or not at
// all with a first tree that needs none: the one before stays in use.
func explorePm2Keep(c *Ctx) {
	n := 5
	small := []int{2, 3, 3, 3, 3, 3, 3, 0, 0}
	for first := 0; first < 3; first++ {
		for keep := 0; keep < 1<<uint(n); keep++ {
			for ann := 0; ann < 4; ann++ {
				for sm := 0; sm < 3; sm++ {
					first, keep, ann, sm := first, keep, ann, sm
					c.Case(str("-pm2- offset trees kept %05b first %d announced %02b small %d", keep, first, ann, sm), func(t *T) {
						p := ref.NewPmWriter(func(k int) (ref.PmTrees, bool) {
							tr := ref.PmTrees{Lens: pmLens()}
							switch (first + k) % 3 {
							case 0:
								tr.OffLens = []int{1, 2, 3, 4, 4, 0, 0, 0}
							case 1:
								tr.OffC = k % 5
							case 2:
								tr.OffLens = []int{0, 1, 0, 1, 0, 0, 0, 0}
							}
							tr.OffKeep = k > 0 && keep>>uint(k-1)&1 == 1 && !(sm == 2 && k == 3)
							a := k >= 3 && k < 5 && ann>>uint(k-3)&1 == 1
							if a && k == 3 && sm > 0 || sm == 2 && k == 0 {
								tr.Lens = small
							}
							return tr, a
						})
						p.Begin()
						cnt := 0
						for i := 0; len(p.Out()) < 9300; i++ {
							tk := litTok(byte(i * 11))
							if i%3 != 0 && p.Trees1() > 9 {
								for d, tries := 1+(i*733)%2048, 0; tries < 12; tries++ {
									if p.CanOff(d) {
										tk = ref.Tok{Len: 3 + i%14, Dist: d}
										break
									}
									if d = d*2 + i%2; d > 2048 {
										d = 1 + i%64
									}
								}
							} else if p.Trees1() <= 9 {
								for b := 0; p.Sym(tk) >= 7; b++ {
									tk = litTok(byte(i*11 + b))
								}
							}
							p.Put(tk)
							p.Begin()
							cnt++
						}
						checkDecode(t, "-pm2-", p.W.Out, p.Out(), cnt)
					})
				}
			}
		}
	}
}

func rotate(l []int, k int) []int {
	k %= len(l)
	return append(append([]int{}, l[k:]...), l[:k]...)
}
