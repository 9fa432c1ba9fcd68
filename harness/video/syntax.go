package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// content is n symbolic bytes without a start code prefix.
func content(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for i := 0; i+2 < n; i++ {
		sym.Assume(sym.Or(b[i] != 0, b[i+1] != 0, b[i+2] != 1))
	}
	return b
}

func userData(w *hx.W, b []byte) {
	w.Start(0xb2)
	w.Bytes(b)
}

// small is a picture of 2x1 macroblocks with a symbolic level in the first.
func small(w *hx.W, p *pic, between func()) {
	p.put(w)
	between()
	smallData(w, p)
}

func smallData(w *hx.W, p *pic) {
	slice(w, 0, 8)
	smallMBs(w, p)
}

func smallMBs(w *hx.W, p *pic) {
	m := &mb{typ: mbIntra}
	if p.typ == 2 {
		m = &mb{typ: mbPattern, cbp: 40}
	}
	m.res = func(w *hx.W, i int) {
		if p.typ == 2 {
			w.Bits("1").Put(sym.Bits("s", 1), 1)
		} else if i == 0 || i == 4 {
			putDiff(w, i >= 4, 5, "dc")
		} else {
			putDC(w, i >= 4, 0)
		}
	}
	m.put(w, p)
	if p.typ == 2 {
		m = &mb{typ: mbFwd, mv: [2][2]int{{-3, 0}}}
	} else {
		m = &mb{typ: mbIntra}
	}
	m.put(w, p)
	w.Align()
}

// V03: user data.
// sym:bounds 0 to 4 symbolic bytes (8 in thorough) of user data, once or twice, at any of the places: after the sequence extension, the sequence display extension, the group header, the picture coding extension of an I or P picture, a quantiser matrix extension
// sym:timeout 300
func H_V03_user_data() {
	w := &hx.W{}
	place := sym.Choice("place", 6)
	n := 4
	if sym.Thorough() {
		n = 8
	}
	put := func(at int) {
		if at != place {
			return
		}
		userData(w, content("u", sym.Choice("n", n+1)))
		if sym.Choice("twice", 2) == 1 {
			userData(w, content("v", 2))
		}
	}
	(&seqHdr{w: 32, h: 16}).put(w)
	put(0)
	seqDisplay(w, place == 1)
	put(1)
	gop(w)
	put(2)
	small(w, &pic{typ: 1}, func() { put(3) })
	small(w, &pic{typ: 2, tref: 1, fcode: [2][2]uint64{{1, 1}}}, func() {
		put(4)
		if place == 5 {
			w.Start(0xb5).Put(3, 4).Put(0, 4).Align()
		}
		put(5)
	})
	finish(w)
}

// seqDisplay appends a sequence display extension of symbolic contents.
func seqDisplay(w *hx.W, on bool) {
	if !on {
		return
	}
	w.Start(0xb5).Put(2, 4).Put(sym.Bits("format", 3), 3)
	c := sym.Choice("colour", 2)
	w.Put(uint64(c), 1)
	if c == 1 {
		w.Put(sym.Bits("primaries", 24), 24)
	}
	w.Put(sym.Bits("width", 14), 14).Put(1, 1).Put(sym.Bits("height", 14), 14)
	w.Align()
}

// V03: zero stuffing and the sequence display extension.
// sym:bounds 0 to 3 zero bytes before each of the start codes of a sequence of two pictures (two adjacent ones at a time, independently); sequence display extension with every content, absent or present, after the first and a repeated sequence header
// sym:timeout 300
func H_V03_stuffing() {
	w := &hx.W{}
	again := sym.Choice("again", 2) == 1
	place := sym.Choice("place", 11)
	if again {
		place += 4
	}
	at := 0
	zero := func() {
		if at == place || at == place+1 {
			w.Bytes(make([]byte, sym.Choice("zeros", 4)))
		}
		at++
	}
	header := func() {
		zero()
		s := &seqHdr{w: 32, h: 16}
		s.putHeader(w)
		zero()
		w.Start(0xb5).Put(1, 4).Put(0x44, 8).Put(0, 1).Put(1, 2).Put(0, 4).Put(0, 12).Put(1, 1).Put(0, 16)
		w.Align()
		zero()
		seqDisplay(w, sym.Choice("display", 2) == 1)
		zero()
		gop(w)
	}
	picture := func(p *pic) {
		zero()
		p.putHeader(w)
		zero()
		p.putExt(w)
		zero()
		smallData(w, p)
	}
	header()
	picture(&pic{typ: 1})
	if again {
		header()
		picture(&pic{typ: 1})
	} else {
		picture(&pic{typ: 2, tref: 1, fcode: [2][2]uint64{{1, 1}}})
	}
	zero()
	finish(w)
}

// V03: extra information.
// sym:bounds 0 to 3 symbolic bytes of extra picture information and of extra slice information, any intra slice bit, in an I and a P picture; composite display fields present or not
// sym:timeout 300
func H_V03_extra() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 16}).put(w)
	gop(w)
	for i := 0; i < 2; i++ {
		p := &pic{typ: uint64(i + 1), tref: uint64(i), display: sym.Choice("display", 2) == 1}
		if i == 1 {
			p.fcode = [2][2]uint64{{1, 1}}
		}
		p.extra = sym.Bytes("x", sym.Choice("n", 4))
		p.put(w)
		w.Start(1)
		w.Put(8, 5)
		if sym.Choice("slice extra", 2) == 1 {
			w.Put(1, 1).Put(sym.Bits("intra", 1), 1).Put(0, 7)
			for n := sym.Choice("m", 4); n > 0; n-- {
				w.Put(1, 1).Put(sym.Bits("y", 8), 8)
			}
		}
		w.Put(0, 1)
		smallMBs(w, p)
	}
	finish(w)
}

// V03: long stuffing, user data and extra information.
// sym:bounds 100, 5000 or 20000 zero bytes, bytes of user data (the last three symbolic) or bytes of extra information (5000 at most) at any of the places of the other harnesses
// sym:timeout 300
// sym:steps 60000000
func H_V03_long() {
	w := &hx.W{}
	n := []int{100, 5000, 20000}[sym.Choice("n", 3)]
	what := sym.Choice("what", 3)
	place := sym.Choice("place", 7)
	at := 0
	put := func(user bool) {
		if at == place && what == 0 {
			w.Bytes(make([]byte, n))
		}
		if at == place && what == 1 && user {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i%251) | 1
			}
			userData(w, append(b, content("u", 3)...))
		}
		at++
	}
	(&seqHdr{w: 32, h: 16}).put(w)
	put(true)
	gop(w)
	put(true)
	for i := 0; i < 2; i++ {
		p := &pic{typ: uint64(i + 1), tref: uint64(i)}
		if i == 1 {
			p.fcode = [2][2]uint64{{1, 1}}
		}
		x := what == 2 && place == i && n <= 5000
		y := what == 2 && place == 2+i && n <= 5000
		if x {
			p.extra = make([]byte, n)
			for i := range p.extra {
				p.extra[i] = byte(i * 3)
			}
		}
		p.put(w)
		put(true)
		w.Start(1)
		w.Put(8, 5)
		if y {
			w.Put(1, 1).Put(0, 8)
			for j := 0; j < n; j++ {
				w.Put(1, 1).Put(uint64(j*3)&255, 8)
			}
		}
		w.Put(0, 1)
		smallMBs(w, p)
		put(false)
	}
	finish(w)
}

// V14: sizes.
// sym:bounds every width and every height from 1 to 63 (independently; all pairs up to 40x40 in thorough); the level of every macroblock symbolic
// sym:timeout 300
// sym:timeout-thorough 3000
func H_V14_size() {
	w := &hx.W{}
	x, y := 1, 1
	switch {
	case sym.Thorough():
		x, y = 1+sym.Choice("w", 40), 1+sym.Choice("h", 40)
	case sym.Choice("which", 2) == 0:
		x, y = 1+sym.Choice("w", 63), []int{1, 16, 17}[sym.Choice("h", 3)]
	default:
		x, y = []int{1, 16, 17}[sym.Choice("w", 3)], 1+sym.Choice("h", 63)
	}
	(&seqHdr{w: uint64(x), h: uint64(y)}).put(w)
	gop(w)
	p := &pic{typ: 1}
	p.put(w)
	for r := 0; r < (y+15)/16; r++ {
		slice(w, r, 8)
		for c := 0; c < (x+15)/16; c++ {
			w.Bits("11")
			for i := 0; i < 6; i++ {
				putDiff(w, i >= 4, 3, "dc")
				p.eob(w)
			}
		}
		w.Align()
	}
	finish(w)
}

// V14: order and grouping of slices.
// sym:bounds 3x3 macroblocks of symbolic level in an I picture, or of symbolic residual in a P picture: every split of each row into slices (the same for all rows), slices in any of the 6 orders of rows, and a row's slices forward or backward
// sym:steps 60000000
// sym:timeout 300
func H_V14_slices() {
	w := &hx.W{}
	(&seqHdr{w: 48, h: 48}).put(w)
	gop(w)
	p := &pic{typ: 1}
	if sym.Choice("p", 2) == 1 {
		flatPic(w, &pic{typ: 1}, 3, 3, [3]int{9, 4, -5})
		p = &pic{typ: 2, tref: 1, fcode: [2][2]uint64{{1, 1}}}
	}
	p.put(w)
	order := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choice("order", 6)]
	split := sym.Choice("split", 4)
	back := sym.Choice("backward", 2) == 1
	// the slices of a row
	var parts [][2]int
	from := 0
	for c := 0; c < 3; c++ {
		if c == 2 || split>>uint(c)&1 == 1 {
			parts = append(parts, [2]int{from, c + 1})
			from = c + 1
		}
	}
	if back {
		if len(parts) == 1 {
			sym.Stop()
		}
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	for _, r := range order {
		for _, pt := range parts {
			slice(w, r, uint64(4+r))
			for c := pt[0]; c < pt[1]; c++ {
				m := &mb{typ: mbIntra}
				if p.typ == 2 {
					m = &mb{typ: mbPattern | mbFwd, cbp: 32}
				}
				if c == pt[0] {
					m.inc = c + 1
				}
				m.res = func(w *hx.W, i int) {
					if p.typ == 2 {
						w.Bits("011").Put(sym.Bits("s", 1), 1)
					} else if i == 0 || i == 5 {
						putDiff(w, i >= 4, 4, "dc")
					} else {
						putDC(w, i >= 4, 0)
					}
				}
				m.put(w, p)
			}
			w.Align()
		}
	}
	finish(w)
}

// V14: tall pictures.
// sym:bounds one macroblock wide, 2784, 2800, 2801, 2816 or 4080 lines (slice vertical position extension above 2800): all rows coded in order, or the last ones first; symbolic levels in rows 0, 127, 128 and the last
// sym:steps 300000000
// sym:timeout 300
func H_V14_tall() {
	w := &hx.W{}
	h := []int{2784, 2800, 2801, 2816, 4080}[sym.Choice("h", 5)]
	(&seqHdr{w: 16, h: uint64(h)}).put(w)
	gop(w)
	p := &pic{typ: 1}
	p.put(w)
	rows := (h + 15) / 16
	rev := sym.Choice("reverse", 2) == 1
	for k := 0; k < rows; k++ {
		r := k
		if rev {
			r = rows - 1 - k
		}
		if h > 2800 {
			w.Start(r&127 + 1)
			w.Put(uint64(r>>7), 3)
		} else {
			w.Start(r + 1)
		}
		w.Put(8, 5).Put(0, 1).Bits("11")
		for i := 0; i < 6; i++ {
			if (r == 0 || r == 127 || r == 128 || r == rows-1) && i%2 == 0 {
				putDiff(w, i >= 4, 4, "dc")
			} else {
				putDC(w, i >= 4, r%7-3)
			}
			p.eob(w)
		}
		w.Align()
	}
	finish(w)
}
