package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// mixed is an I picture whose blocks have a symbolic level and, for texture, a
// few concrete coefficients that differ from block to block.
func mixed(w *hx.W, tref uint64, mbw, mbh, seed, bits int) {
	p := &pic{tref: tref, typ: 1}
	p.put(w)
	for y := 0; y < mbh; y++ {
		for x := 0; x < mbw; x++ {
			slice(w, y, 10)
			putInc(w, x+1)
			w.Bits("1")
			for i := 0; i < 6; i++ {
				putDiff(w, i >= 4, bits, "lv")
				k := 9*x + 7*y + i + seed
				w.Bits("11").Put(uint64(k&1), 1)
				w.Bits("0100").Put(uint64(k/2&1), 1)
				w.Bits("011").Put(uint64(k/3&1), 1)
				p.eob(w)
			}
			w.Align()
		}
	}
}

// directions of prediction
var dirTypes = [3]int{mbFwd, mbBwd, mbFwd | mbBwd}

// V09: displacement and rounding.
// sym:bounds pictures of 2x2 macroblocks, every 8x8 block of the references of a symbolic 4-bit level plus concrete texture; every macroblock predicted with a vector into the picture, of magnitudes 0, 1, 2, 3, 5, 16 and 31 half samples in each component (0 to 32 in thorough) and every sign pattern; forward, backward or both (with the components exchanged)
// sym:steps 60000000
// sym:timeout 300
// sym:timeout-thorough 3000
func H_V09_vectors() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 32}).put(w)
	gop(w)
	mixed(w, 0, 2, 2, 0, 4)
	dir := sym.Choice("dir", 3)
	p := &pic{tref: 1, typ: 2}
	if dir > 0 {
		mixed(w, 2, 2, 2, 5, 4)
		p.typ = 3
	}
	a, b := 0, 0
	if sym.Thorough() {
		a, b = sym.Choice("a", 33), sym.Choice("b", 33)
	} else {
		l := []int{0, 1, 2, 3, 5, 16, 31}
		a, b = l[sym.Choice("a", 7)], l[sym.Choice("b", 7)]
	}
	p.fcode = [2][2]uint64{{3, 3}, {3, 3}}
	p.put(w)
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			slice(w, y, 10)
			sx, sy := 1-2*x, 1-2*y
			m := &mb{inc: x + 1, typ: dirTypes[dir], mv: [2][2]int{{sx * a, sy * b}, {sx * b, sy * a}}}
			m.put(w, p)
			w.Align()
		}
	}
	finish(w)
}

// V09: residual and clipping.
// sym:bounds one macroblock predicted (forward, backward, both, or co-located) from references of symbolic level, plus a residual of symbolic 12-bit level in a luma or chroma block, at scan position 0 or 4
// sym:steps 60000000
// sym:timeout 200
func H_V09_residual() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 16}).put(w)
	gop(w)
	mixed(w, 0, 2, 1, 0, 5)
	dir := sym.Choice("dir", 4)
	p := &pic{tref: 1, typ: 2}
	if dir == 1 || dir == 2 {
		mixed(w, 2, 2, 1, 5, 5)
		p.typ = 3
	}
	p.fcode = [2][2]uint64{{3, 3}, {3, 3}}
	p.put(w)
	slice(w, 0, 10)
	m := &mb{typ: mbPattern, mv: [2][2]int{{5, 0}, {6, 0}}}
	if dir < 3 {
		m.typ |= dirTypes[dir]
	}
	blk := []int{1, 5}[sym.Choice("block", 2)]
	m.cbp = 32 >> uint(blk)
	run := uint64(4 * sym.Choice("run", 2))
	m.res = func(w *hx.W, i int) {
		w.Bits("000001").Put(run, 6).Put(sym.Bits("lv", 12), 12)
	}
	m.put(w, p)
	w.Align()
	slice(w, 0, 10)
	m = &mb{inc: 2, typ: mbFwd}
	m.put(w, p)
	finish(w)
}

// V09: field prediction in frame pictures.
// sym:bounds a macroblock of a P or B picture predicted by field: both field selections, vectors (3,1) and (-2,2)
// sym:steps 60000000
func H_V09_field() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 32}).put(w)
	gop(w)
	mixed(w, 0, 2, 2, 0, 4)
	p := &pic{tref: 1, typ: 2, fpfd0: true}
	if sym.Choice("b", 2) == 1 {
		mixed(w, 2, 2, 2, 5, 4)
		p.typ = 3
	}
	p.fcode = [2][2]uint64{{2, 2}, {2, 2}}
	p.put(w)
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			slice(w, y, 10)
			if x+y > 0 {
				m := &mb{inc: x + 1, typ: mbFwd}
				m.put(w, p)
				w.Align()
				continue
			}
			w.Bits("1")
			if p.typ == 2 {
				w.Bits("001")
			} else {
				w.Bits("0010")
			}
			w.Bits("01")
			for k := 0; k < 2; k++ {
				w.Put(sym.Bits("select", 1), 1)
				putMotion(w, 3+k, 2)
				putMotion(w, 1+2*k, 2)
			}
			w.Align()
		}
	}
	finish(w)
}

// V10: skipped macroblocks.
// sym:bounds pictures 6 macroblocks wide and one high: every set of skipped macroblocks between the first and the last, in P pictures and in B pictures after forward, backward and bidirectional macroblocks; each coded macroblock with a vector and, in P, coded with or without one; references of symbolic levels; the row in one slice or two
// sym:steps 100000000
// sym:timeout 300
func H_V10_skip() {
	w := &hx.W{}
	const n = 5
	(&seqHdr{w: 16 * n, h: 16}).put(w)
	gop(w)
	mixed(w, 0, n, 1, 0, 4)
	p := &pic{tref: 1, typ: uint64(2 + sym.Choice("b", 2))}
	if p.typ == 3 {
		mixed(w, 2, n, 1, 5, 4)
	}
	p.fcode = [2][2]uint64{{3, 3}, {3, 3}}
	p.put(w)
	slice(w, 0, 10)
	split := sym.Choice("split", n)
	inc := 1
	for x := 0; x < n; x++ {
		if x == split && x > 0 {
			if inc > 1 {
				sym.Stop()
			}
			w.Align()
			slice(w, 0, 10)
			inc = x + 1
		} else if x > 0 && x < n-1 && x != split-1 && sym.Choice("skip", 2) == 1 {
			inc++
			continue
		}
		m := &mb{inc: inc, typ: mbFwd}
		if p.typ == 3 {
			m.typ = dirTypes[x%3]
			if x < 3 {
				m.typ = dirTypes[sym.Choice("dir", 3)]
			}
			// one sample to the right, or left when at the right end
			m.mv = [2][2]int{{3, 0}, {2, 0}}
			if x > 0 {
				m.mv = [2][2]int{{-1, 0}, {-1, 0}}
			}
			if x == n-1 || x == split && x > 0 {
				m.mv = [2][2]int{{-4, 0}, {-3, 0}}
			}
		} else if sym.Choice("vector", 2) == 0 {
			m.typ, m.cbp = mbPattern, 2
		} else {
			m.mv[0][0] = []int{3, -2, 1, -1, -9}[x]
		}
		m.put(w, p)
		inc = 1
	}
	finish(w)
}

// V10: long increments.
// sym:bounds pictures of 36 to 70 macroblocks in a row: the first slice ends in or starts with an increment of 33, 34, 35, 66, 67 or 68 (escapes), skipped in P and B or left to another slice; references of symbolic level
// sym:steps 100000000
// sym:timeout 300
func H_V10_escape() {
	w := &hx.W{}
	inc := []int{33, 34, 35, 66, 67, 68}[sym.Choice("inc", 6)]
	n := inc + 2
	(&seqHdr{w: uint64(16 * n), h: 16}).put(w)
	gop(w)
	flatSym(w, &pic{typ: 1}, n)
	p := &pic{tref: 1, typ: uint64(2 + sym.Choice("b", 2))}
	if p.typ == 3 {
		flatSym(w, &pic{typ: 1, tref: 2}, n)
	}
	p.fcode = [2][2]uint64{{1, 1}, {1, 1}}
	p.put(w)
	slice(w, 0, 10)
	if sym.Choice("lead", 2) == 1 {
		// a slice for all before the increment
		for x := 0; x < inc-1; x++ {
			m := &mb{typ: mbFwd, mv: [2][2]int{{0, 0}}}
			m.put(w, p)
		}
		w.Align()
		slice(w, 0, 10)
	} else {
		m := &mb{typ: mbFwd | mbPattern, cbp: 63, mv: [2][2]int{{2, 0}}}
		m.put(w, p)
	}
	m := &mb{inc: inc, typ: mbFwd | mbPattern, cbp: 63, mv: [2][2]int{{-2, 0}}}
	m.put(w, p)
	m = &mb{typ: mbFwd, mv: [2][2]int{{0, 0}}}
	m.put(w, p)
	w.Align()
	finish(w)
}

// V11: coded block pattern and DCT type.
// sym:bounds one macroblock of a P picture, co-located or with a vector: all 63 patterns with frame and field DCT, residuals of symbolic sign at symbolic 2-bit levels; references of symbolic level; likewise intra
// sym:steps 60000000
// sym:timeout 300
func H_V11_pattern() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 16}).put(w)
	gop(w)
	mixed(w, 0, 2, 1, 0, 4)
	p := &pic{tref: 1, typ: 2, fpfd0: sym.Choice("frame only", 2) == 0}
	p.fcode = [2][2]uint64{{2, 2}, {2, 2}}
	p.put(w)
	slice(w, 0, 10)
	m := &mb{typ: []int{mbPattern, mbFwd | mbPattern, mbIntra}[sym.Choice("typ", 3)]}
	if p.fpfd0 {
		m.field = sym.Choice("field", 2) == 1
	}
	m.mv[0][0] = 3
	if m.typ != mbIntra {
		m.cbp = 1 + sym.Choice("cbp", 63)
	}
	m.res = func(w *hx.W, i int) {
		if m.typ == mbIntra {
			putDiff(w, i >= 4, 4, "dc")
			return
		}
		w.Bits("000001").Put(uint64(i%3), 6)
		s := sym.Bits("s", 1)
		for j := 0; j < 10; j++ {
			w.Put(s, 1)
		}
		w.Put(2|sym.Bits("l", 1), 2)
	}
	m.put(w, p)
	m = &mb{typ: mbFwd, mv: [2][2]int{{-7, 0}}}
	m.put(w, p)
	finish(w)
}

// V11: at every place.
// sym:bounds pictures of 9x3 and 67x1 macroblocks: one macroblock with all six blocks coded (symbolic signs and DC differences), intra in an I or P picture, co-located, or with a vector, frame or field DCT, at any column of the small pictures (column 8, 15, 16, 31, 32, 63, 64 or 66 of the wide ones) and any row
// sym:steps 100000000
// sym:timeout 300
func H_V11_place() {
	w := &hx.W{}
	mbw, mbh, x, y := 9, 3, 0, 0
	if sym.Choice("wide", 2) == 1 {
		mbw, mbh = 67, 1
		x = []int{8, 15, 16, 31, 32, 63, 64, 66}[sym.Choice("x", 8)]
	} else {
		x, y = sym.Choice("x", 9), sym.Choice("y", 3)
	}
	(&seqHdr{w: uint64(mbw * 16), h: uint64(mbh * 16)}).put(w)
	gop(w)
	m := &mb{inc: x + 1, typ: []int{mbPattern, mbFwd | mbPattern, mbIntra, mbIntra}[sym.Choice("typ", 4)], cbp: 63}
	p := &pic{typ: 1, fpfd0: true}
	// textured rows, the other pictures being copied from them
	ref := &pic{typ: 1, fpfd0: true}
	ref.put(w)
	for r := 0; r < mbh; r++ {
		slice(w, r, 4)
		for c := 0; c < mbw; c++ {
			putInc(w, 1)
			ref.flat(w, [3]int{[]int{17, -9, 30, -41, 5, 11}[(c+2*r)%6] - 2*(c&1), c%3 - 1, r - 1})
		}
		w.Align()
	}
	p.tref = 1
	if sym.Choice("p", 2) == 1 || m.typ != mbIntra {
		p.typ = 2
	}
	p.fcode = [2][2]uint64{{2, 2}, {15, 15}}
	p.put(w)
	m.field = sym.Choice("field", 2) == 1
	m.mv[0][0] = 6
	if x > 0 {
		m.mv[0][0] = -5
	}
	m.res = func(w *hx.W, i int) {
		if m.typ == mbIntra {
			putDiff(w, i >= 4, 4, "dc")
		}
		w.Bits("000001").Put(uint64(i%3), 6)
		s := sym.Bits("s", 1)
		for j := 0; j < 10; j++ {
			w.Put(s, 1)
		}
		w.Put(2|sym.Bits("l", 1), 2)
	}
	slice(w, y, 10)
	m.put(w, p)
	finish(w)
}

// V11: every kind of macroblock under every combination of coding options.
// sym:bounds the second macroblock of a picture of 3x1: each of the 2 + 7 + 11 macroblock types of I, P and B pictures, with frame prediction and DCT only or a choice of DCT type (both), with and without concealment vectors, four settings (eight in thorough) of scale type, intra table, scan and DC precision (together); a pattern of blocks 1, 2, 4, 5 (or all), with DC differences and coefficient signs (blocks 1 and 6) symbolic; the macroblocks before and after it plain (forward)
// sym:steps 60000000
// sym:timeout 300
func H_V11_options() {
	w := &hx.W{}
	typ := 1 + sym.Choice("pic", 3)
	p := &pic{typ: 1}
	if typ == 1 {
		(&seqHdr{w: 48, h: 16}).put(w)
		gop(w)
	} else {
		p = anchors(w, typ, 3, 1)
		p.fcode = [2][2]uint64{{2, 1}, {1, 2}}
	}
	p.conceal = sym.Choice("conceal", 2) == 1
	if p.conceal && typ == 1 {
		p.fcode[0] = [2]uint64{2, 1}
	}
	n := 4
	if sym.Thorough() {
		n = 8
	}
	o := uint64(sym.Choice("options", n) * 5 % 8)
	p.qtype, p.vlc, p.alt = o&1, o>>1&1, o>>2&1
	p.dcprec = (o + o>>2) & 3
	dct := sym.Choice("dct", 3)
	p.fpfd0 = dct > 0
	types := [][]vlc{vlcTypeI, vlcTypeP, vlcTypeB}[typ-1]
	p.put(w)
	slice(w, 0, 6)
	res := func(k int, m *mb) func(w *hx.W, i int) {
		return func(w *hx.W, i int) {
			if m.typ&mbIntra != 0 {
				if k == 1 {
					putDiff(w, i >= 4, 2, "dc")
				} else {
					putDC(w, i >= 4, 3*i-7)
				}
			}
			w.Bits("000001").Put(uint64(i%3), 6)
			s := uint64(i+k) & 1
			if k == 1 && (i == 0 || i == 5) {
				s = sym.Bits("s", 1)
			}
			for j := 0; j < 10; j++ {
				w.Put(s, 1)
			}
			w.Put(3, 2)
			w.Bits("000001").Put(uint64(4+k+5*i), 6).Put(9, 12)
		}
	}
	for k := 0; k < 3; k++ {
		m := &mb{typ: mbFwd, cbp: 54, field: dct == 2, mv: [2][2]int{{[]int{3, -8, -7}[k]}, {6}}}
		if typ == 1 {
			m.typ = mbIntra
		}
		if k == 1 {
			m.typ = types[sym.Choice("type", len(types))].val
			m.q = 10
		} else if typ > 1 && k == 2 {
			m.typ = mbFwd | mbPattern // at the scale then in force
		}
		m.res = res(k, m)
		m.put(w, p)
	}
	finish(w)
}

// flatSym is an I picture of one row, flat up to the mismatch control, of
// symbolic levels.
func flatSym(w *hx.W, p *pic, mbw int) {
	p.put(w)
	slice(w, 0, 10)
	for x := 0; x < mbw; x++ {
		w.Bits("11")
		for i := 0; i < 6; i++ {
			switch {
			case (x < 2 || x >= mbw-3) && (i == 0 || i >= 4):
				putDiff(w, i >= 4, 5, "lv")
			default:
				putDC(w, i >= 4, 0)
			}
			p.eob(w)
		}
	}
	w.Align()
}
