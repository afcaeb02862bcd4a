package main

import (
	"bytes"
	"fmt"

	"verif/mc/ref"
)

// Contents that drive an LZ77 encoder through its boundary conditions.

type content struct {
	name string
	gen  func() []byte
}

// unique returns n bytes over k symbols (from base) in which no three byte
// sequence occurs twice as long as that is possible.
func unique(n, k int, base byte) []byte {
	used := make(map[int]bool, n)
	out := make([]byte, 0, n)
	x := uint32(12345)
	for len(out) < n {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		s := int(x % uint32(k))
		if l := len(out); l >= 2 {
			p := (int(out[l-2]-base)*k + int(out[l-1]-base)) * k
			for i := 0; i < k; i++ {
				if !used[p+(s+i)%k] {
					s = (s + i) % k
					break
				}
			}
			used[p+s] = true
		}
		out = append(out, base+byte(s))
	}
	return out
}

// skew returns n bytes in which symbol i has a frequency of about 2^-(i+1).
func skew(n, k int, seed uint32) []byte {
	out := make([]byte, n)
	x := seed
	for i := range out {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		s := 0
		for v := x >> 4; v&1 == 1 && s < k-1; v >>= 1 {
			s++
		}
		out[i] = byte('A' + s)
	}
	return out
}

// deepMix makes tokens (a literal and copies of a few lengths) with Fibonacci
// frequencies out of a dictionary without repetitions: the code for literals
// and lengths becomes deeper than 16 bits.
func deepMix(tokens, dict, m, d int, ratio float64) []byte {
	var counts []int
	w := float64(tokens) * (1 - ratio)
	for w >= 1 {
		counts = append(counts, int(w))
		w *= ratio
	}
	return deepCounts(counts, dict, d, d/3)
}

// deepCounts: counts of the literal and of the matches of 4, 5, ... bytes.
func deepCounts(counts []int, dict, d, again int) []byte {
	b := unique(dict, dict, 10)
	seen := map[byte]bool{}
	for _, c := range b {
		seen[c] = true
	}
	sep := byte(255)
	x := uint32(99)
	rnd := func(n int) int {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		return int(x % uint32(n))
	}
	var lens []int
	for i, c := range counts[1:] {
		n := 4 + i
		if n > dict/2 {
			break
		}
		for j := 0; j < c; j++ {
			lens = append(lens, n)
		}
	}
	for i := len(lens) - 1; i > 0; i-- {
		j := rnd(i + 1)
		lens[i], lens[j] = lens[j], lens[i]
	}
	out := append([]byte{}, b...)
	last := len(out)
	tri := map[[3]byte]int{}
	note := func(from int) {
		for i := from; i+3 <= len(out); i++ {
			tri[[3]byte{out[i], out[i+1], out[i+2]}] = i + 1
		}
	}
	note(0)
	credit := 0.0
	per := float64(counts[0]) / float64(len(lens))
	for _, n := range lens {
		if len(out)-last > again {
			out = append(out, b...)
			last = len(out)
		}
		best, bestAge := 0, -1
		for try := 0; try < 40; try++ {
			p := rnd(len(b) - n)
			l := len(out)
			age := 1 << 30
			for _, g := range [][3]byte{{out[l-2], out[l-1], b[p]}, {out[l-1], b[p], b[p+1]}} {
				if at := tri[g]; at > 0 && l-at < age {
					age = l - at
				}
			}
			if age > bestAge {
				best, bestAge = p, age
			}
			if age > d {
				break
			}
		}
		from := len(out) - 2
		out = append(out, b[best:best+n]...)
		credit += per
		if credit >= 1 {
			credit--
			out = append(out, sep)
		}
		note(from)
	}
	return out
}

// deepAdaptive: the counts of the matches grow so that the unused literals, of
// weight w together, come to lie below all of them; then the literals.
func deepAdaptive(w, dict, d int) []byte {
	counts := []int{w + 10, w + 20}
	for len(counts) < 8 {
		l := len(counts)
		counts = append(counts, counts[l-1]+counts[l-2])
	}
	b := deepCounts(append([]int{1}, rev(counts)...), dict, d, d*3/4)
	for i := 0; i < 10; i++ {
		b = append(b, byte(i))
	}
	for i := 254; i > 80; i-- {
		b = append(b, byte(i))
	}
	return append(b, b[:40]...)
}

func rareLits(n, k int) []byte {
	out := unique(n, 150, '!')
	at := 100
	f := 1
	for i := 0; i < k; i++ {
		for j := 0; j < f; j++ {
			if at < n {
				out[at] = byte(200 + i)
			}
			at += 7
			if at >= n {
				at = at%n%7 + 3
			}
		}
		f = f*7/4 + 1
	}
	return out
}

var tripleBase []byte

// triples returns lead literals and the phrases, each of three bytes, followed
// by the phrases in an order in which no longer repetition occurs.
func triples(lead, n int) []byte {
	if tripleBase == nil {
		const np = 1000
		seen := map[[3]byte]bool{}
		phrase := func(i int) [3]byte {
			return [3]byte{byte(i % 85), byte(85 + (i/85*7+i)%85), byte(170 + (i/85*13+i*3)%85)}
		}
		var out []byte
		try := func(p [3]byte, force bool) bool {
			if l := len(out); l >= 3 {
				g := [3]byte{out[l-2], out[l-1], p[0]}
				h := [3]byte{out[l-1], p[0], p[1]}
				if !force && (seen[g] || seen[h]) {
					return false
				}
				seen[g], seen[h] = true, true
			}
			out = append(out, p[:]...)
			return true
		}
		for i := 0; i < np; i++ {
			try(phrase(i), true)
		}
		x := uint32(4711)
		for len(out) < 70000 {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			for i := 0; i < np; i++ {
				if try(phrase((int(x%np)+i)%np), i == np-1) {
					break
				}
			}
		}
		tripleBase = out
	}
	return append(unique(lead, 85, 0), tripleBase[:n]...)
}

func rep(s string, n int) []byte { return bytes.Repeat([]byte(s), n) }

func around(v ...int) []int {
	m := map[int]bool{}
	var out []int
	for _, x := range v {
		for d := -2; d <= 2; d++ {
			if x+d > 0 && !m[x+d] {
				m[x+d] = true
				out = append(out, x+d)
			}
		}
	}
	return out
}

// structured contents for a dictionary of d bytes and matches up to m.
func structured(d, m int, thorough bool) []content {
	var cs []content
	add := func(gen func() []byte, f string, a ...interface{}) {
		cs = append(cs, content{fmt.Sprintf(f, a...), gen})
	}
	// runs around every limit of the window and of the matches
	for _, n := range around(1, m, 2*m, d, d+m, 2*d, 2*d+m, 3*d, 3*d+m, 4*d) {
		n := n
		add(func() []byte { return rep("a", n) }, "run of %d", n)
	}
	// periodic data
	for _, p := range []int{2, 3, 4, 5, 7, m - 1, m, m + 1, d - 1, d, d + 1, d - m, d - m - 1} {
		p := p
		base := unique(p, min(p, 64)+1, 'A')
		for _, n := range []int{d + m + 1, 2*d + 3, 2*d + m + 5, 3*d + 1} {
			n := n
			add(func() []byte { return rep(string(base), n/p+1)[:n] }, "period %d to %d", p, n)
		}
	}
	// a match at a given distance and length, aligned anywhere in the window
	dists := []int{d - 2*m, d - m - 1, d - m, d - m + 1, d - 3, d - 2, d - 1, d, d + 1}
	mlens := []int{3, 4, m - 1, m, m + 1}
	leads := []int{0, 1, d - m, 2*d - 4, 2 * d, 2*d + m}
	if thorough {
		mlens = append(mlens, 5, 6, 2*m, m/2)
		leads = append(leads, d-1, d, d+1, 2*d-1, 2*d+m-1, 2*d+m+1, 3*d)
	}
	for _, ml := range mlens {
		for _, di := range dists {
			for _, lead := range leads {
				ml, di, lead := ml, di, lead
				if di <= ml {
					continue
				}
				add(func() []byte {
					u := unique(lead+di+3, 64, '!')
					pat := rep("0", 0)
					for i := 0; i < ml; i++ {
						pat = append(pat, byte(128+i%97), byte(230+i%5))
					}
					pat = pat[:ml]
					out := append([]byte{}, u[:lead]...)
					out = append(out, pat...)
					out = append(out, u[lead:lead+di-ml]...)
					out = append(out, pat...)
					return append(out, "tail"...)
				}, "match len %d dist %d after %d", ml, di, lead)
			}
		}
	}
	// numbers of distinct symbols and gaps between them
	for k := 1; k <= 256; k++ {
		if !thorough && k > 40 && k%9 != 0 && k < 250 {
			continue
		}
		k := k
		add(func() []byte {
			var b []byte
			for i := 0; i < k; i++ {
				b = append(b, byte(i), byte(i))
			}
			return append(b, rep("\x00", 3*k+8)...)
		}, "%d symbols", k)
		add(func() []byte {
			b := []byte{0, 1, 0}
			b = append(b, byte(k), byte(k-1), byte(k), 255, 0, 0, byte(k))
			return append(append(b, rep("\x00\x01", 40)...), byte(k))
		}, "gap %d", k)
	}
	// exactly two, three, four literals with skewed frequencies
	for k := 2; k <= 26; k += 2 {
		k := k
		for _, n := range []int{100, 3000, 70000} {
			n := n
			add(func() []byte { return skew(n, k, uint32(k*7+n)) }, "skew %d of %d", k, n)
		}
	}
	for _, n := range []int{2000, 12000, 19000} {
		for _, k := range []int{60, 150} {
			n, k := n, k
			add(func() []byte {
				b := deepMix(n, k, m, d, 0.618)
				if m < 100 { // a very frequent match, then the rarest symbols
					b = append(b, rep("\xfe", m*n*6/10)...)
				}
				return append(b, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
			}, "deep code %d/%d", n, k)
		}
	}
	if m < 100 {
		// an adaptive code deeper than 16 bits
		for _, w := range []int{500, 530, 560, 570, 580, 590} {
			w := w
			add(func() []byte { return deepAdaptive(w, 60, d) }, "deep adaptive code %d", w)
		}
	}
	// rare literals with Fibonacci frequencies among many equally frequent
	for k := 8; k <= 13; k++ {
		k := k
		add(func() []byte { return rareLits(57500, k) }, "%d rare literals", k)
	}
	// hash chains longer than the search limit, then a long repetition
	for _, n := range []int{200, 257, 300, 1200} {
		n := n
		add(func() []byte {
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, 'a', 'b', 'c', byte('0'+i%61), byte('0'+i/61))
			}
			return append(b, b...)
		}, "chain %d", n)
		add(func() []byte {
			b := rep("aaab", n)
			b = append(b, rep("aaac", n)...)
			return append(b, rep("aaab", n)...)
		}, "flood %d", n)
	}
	// incompressible data, alone and in the middle
	for _, n := range around(1, 16, 256, 4096, 8192, 20000) {
		n := n
		add(func() []byte { return unique(n, 256, 0) }, "dense %d", n)
		add(func() []byte { return append(unique(n, 256, 0), rep("q", 2*n)...) }, "dense %d then run", n)
	}
	// positions around multiples of the token buffer
	step := 7
	if thorough {
		step = 1
	}
	for n := 58200; n <= 58270; n += step {
		n := n
		add(func() []byte { return unique(n, 64, '!') }, "literals %d", n)
	}
	add(func() []byte { return unique(150000, 64, '!') }, "literals 150000")
	add(func() []byte { return unique(260000, 64, '!') }, "literals 260000")
	// many tokens: rebuilds of the adaptive code, several blocks
	add(func() []byte {
		b := unique(40000, 40, '0')
		return append(b, unique(40000, 41, '0')...)
	}, "repeated alphabet")
	add(func() []byte {
		var b []byte
		u := unique(4096, 100, 10)
		for i := 0; i < 30000; i++ {
			p := (i * 37) % 4000
			b = append(b, u[p:p+4+i%9]...)
			if len(b) > 300000 {
				break
			}
		}
		return b
	}, "many matches")
	// nothing but matches of three bytes, after every alignment of literals
	for k := 0; k < 25; k++ {
		k := k
		add(func() []byte { return triples(8*k+k%3, 62500) }, "triples after %d literals", 8*k+k%3)
	}
	// large contents: every stretch repeats, from afar, some of what was before
	for _, n := range []int{1<<20 - 1, 1<<20 + 1, 2200000} {
		n := n
		add(func() []byte {
			b := unique(d, 200, 20)
			for i := 0; len(b) < n; i++ {
				switch i % 5 {
				case 0:
					b = append(b, unique(3000+i, 64, byte(i))...)
				case 1:
					b = append(b, b[len(b)-d+m+1:len(b)-d+m+1+d/3]...)
				case 2:
					b = append(b, rep(string([]byte{byte(i)}), 2*m+i%m)...)
				case 3:
					b = append(b, skew(5000, 3+i%30, uint32(i+1))...)
				default:
					b = append(b, b[len(b)-d/2:]...)
				}
			}
			return b[:n]
		}, "mixture of %d", n)
	}
	for _, n := range []int{1<<20 + 1, 1<<24 + 3} {
		n := n
		add(func() []byte { return rep("r", n) }, "run of %d", n)
		add(func() []byte { return rep(string(unique(m+3, 100, 0)), n/(m+3)+1)[:n] }, "period %d to %d", m+3, n)
	}
	// all byte values
	add(func() []byte {
		var b []byte
		for i := 0; i < 256*20; i++ {
			b = append(b, byte(i*i>>3))
		}
		return b
	}, "all values")
	return cs
}

// strings over an alphabet up to a length.
func smallStrings(alpha string, lo, max int, f func(b []byte)) {
	seqs(len(alpha), lo, max, func(s []int) {
		b := make([]byte, len(s))
		for i, v := range s {
			b[i] = alpha[v]
		}
		f(b)
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// pm2 with complete codes over all symbols.
func pmLens() []int {
	l := make([]int, 29)
	for i := range l {
		l[i] = 5
	}
	l[0], l[3], l[8] = 4, 4, 4
	return l
}

var pmOff = [][]int{{2, 2, 2, 3, 3, 0, 0, 0}, {2, 2, 3, 3, 3, 3, 0, 0}, {2, 3, 3, 3, 3, 3, 3, 0}, {3, 3, 3, 3, 3, 3, 3, 3}}

func pmTrees(k int) (ref.PmTrees, bool) {
	o := k
	if o > 3 {
		o = 3
	}
	return ref.PmTrees{Lens: pmLens(), OffLens: pmOff[o]}, k%2 == 0
}

func pmSample(toks []ref.Tok) (content, packed []byte) {
	p := ref.NewPmWriter(pmTrees)
	p.Begin()
	for _, t := range toks {
		p.Put(t)
	}
	return p.Out(), p.W.Out
}
