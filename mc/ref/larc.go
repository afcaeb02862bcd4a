package ref

// EncodeLzs writes tokens (lengths 2..17, distances 1..2048) as -lzs-.
func EncodeLzs(toks []Tok) []byte {
	w := &BitWriter{}
	pos := 0
	for _, t := range toks {
		if t.Len == 0 {
			w.Bit(1)
			w.Bits(int(t.Lit), 8)
			pos++
			continue
		}
		w.Bit(0)
		// ring position of the source; writing starts at 2048-17
		w.Bits((2048-17+pos-t.Dist)&2047, 11)
		w.Bits(t.Len-2, 4)
		pos += t.Len
	}
	return w.Out
}

// EncodeLz5 writes tokens (lengths 3..18, distances 1..4096) as -lz5-.
func EncodeLz5(toks []Tok) []byte {
	var out []byte
	pos := 0
	for i := 0; i < len(toks); i += 8 {
		f := len(out)
		out = append(out, 0)
		for j := i; j < i+8 && j < len(toks); j++ {
			t := toks[j]
			if t.Len == 0 {
				out[f] |= 1 << uint(j-i)
				out = append(out, t.Lit)
				pos++
				continue
			}
			p := (4096 - 18 + pos - t.Dist) & 4095
			out = append(out, byte(p), byte(p>>4&0xf0)|byte(t.Len-3))
			pos += t.Len
		}
	}
	return out
}

// NewLz5Window is the 4K window with the -lz5- initial content.
func NewLz5Window() *Window {
	w := NewWindow(12, ' ')
	var init []byte
	for i := 0; i < 256; i++ {
		for j := 0; j < 13; j++ {
			init = append(init, byte(i))
		}
	}
	for i := 0; i < 256; i++ {
		init = append(init, byte(i))
	}
	for i := 255; i >= 0; i-- {
		init = append(init, byte(i))
	}
	for i := 0; i < 128; i++ {
		init = append(init, 0)
	}
	for len(init) < 4096 {
		init = append(init, ' ')
	}
	// ring position r is window index r+18; writing starts at ring 4096-18
	for r, b := range init {
		w.buf[(r+18)&4095] = b
	}
	// the last 18 ring positions are where writing starts: spaces
	for i := 0; i < 18; i++ {
		w.buf[i] = ' '
	}
	return w
}
