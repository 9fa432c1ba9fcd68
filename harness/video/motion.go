package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// anchors puts the references of a picture of the given type before it.
func anchors(w *hx.W, typ, mbw, mbh int) *pic {
	(&seqHdr{w: uint64(16 * mbw), h: uint64(16 * mbh)}).put(w)
	gop(w)
	ramp(w, 0, 1, mbw, mbh, 0)
	if typ == 2 {
		return &pic{tref: 1, typ: 2}
	}
	ramp(w, 2, 1, mbw, mbh, 5)
	return &pic{tref: 1, typ: 3}
}

// V08: range and wrap with f_code 1.
// sym:bounds P and B pictures of 3x3 macroblocks, two macroblocks in a row in the middle: the first vector -16, -5 or 15 half samples in a component, the second with every motion code in that component, forward or backward (all pairs of motion codes in thorough)
// sym:steps 60000000
// sym:timeout 300
// sym:timeout-thorough 3000
func H_V08_wrap() {
	w := &hx.W{}
	s := sym.Choice("dir", 2)
	p := anchors(w, 2+s, 4, 3)
	p.fcode = [2][2]uint64{{1, 1}, {1, 1}}
	p.put(w)
	slice(w, 1, 8)
	w.Bits("011") // the second column
	t := sym.Choice("comp", 2)
	typ := []string{"001", "010"}[s]
	for n := 0; n < 2; n++ {
		if n == 1 {
			w.Bits("1")
		}
		w.Bits(typ)
		if t == 1 {
			w.Bits("1")
		}
		if n == 0 && !sym.Thorough() {
			putMotion(w, []int{-16, -5, 15}[sym.Choice("first", 3)], 1)
		} else if _, ok := walk(w, treeMotion, "c"); !ok {
			sym.Stop()
		}
		if t == 0 {
			w.Bits("1")
		}
	}
	finish(w)
}

// V08: f_codes with residuals.
// sym:bounds f_code 2 and 3 with symbolic residual (1 and 2 bits) on every motion code, horizontally in pictures of 6x1 and vertically of 1x6 macroblocks; the first vector at either end of the range or 3, then the symbolic one
// sym:steps 60000000
// sym:timeout 300
func H_V08_residual() {
	w := &hx.W{}
	t := sym.Choice("comp", 2)
	f := 2 + sym.Choice("f", 2)
	mbw, mbh := 6, 1
	if t == 1 {
		mbw, mbh = 2, 5
	}
	p := anchors(w, 2, mbw, mbh)
	p.fcode = [2][2]uint64{{1, 1}, {15, 15}}
	p.fcode[0][t] = uint64(f)
	p.put(w)
	slice(w, 2*t, 8)
	if t == 0 {
		w.Bits("010")
	} else {
		w.Bits("1")
	}
	lim := 16 << uint(f-1)
	for n := 0; n < 2; n++ {
		if n == 1 {
			w.Bits("1")
		}
		w.Bits("001")
		if t == 1 {
			w.Bits("1")
		}
		if n == 0 {
			d := []int{-lim, lim - 1, 3}[sym.Choice("first", 3)]
			putMotion(w, d, uint(f))
		} else {
			c, ok := walk(w, treeMotion, "c")
			if !ok {
				sym.Stop()
			}
			if c != 0 {
				w.Put(sym.Bits("r", f-1), f-1)
			}
		}
		if t == 0 {
			w.Bits("1")
		}
	}
	finish(w)
}

// V08: wide f_codes.
// sym:bounds f_code 4 to 9 horizontally: a vector within 64 samples and a second of a small difference (one that wraps for f_code 4)
// sym:steps 60000000
// sym:timeout 300
func H_V08_wide() {
	w := &hx.W{}
	p := anchors(w, 2, 9, 1)
	f := 4 + sym.Choice("f", 6)
	p.fcode = [2][2]uint64{{uint64(f), 1}, {15, 15}}
	p.put(w)
	slice(w, 0, 8)
	w.Bits("0010") // the fifth column
	v := []int{1, 17, 63, 125}[sym.Choice("v", 4)]
	if sym.Choice("neg", 2) == 1 {
		v = -v
	}
	w.Bits("001")
	putMotion(w, v, uint(f))
	putMotion(w, 0, 1)
	w.Bits("1").Bits("001")
	d := -8
	if v < 0 {
		d = 8
	}
	if f == 4 && (v == 125 || v == -125) {
		d = v / 20 // 6: wraps to the other side
	}
	putMotion(w, d, uint(f))
	putMotion(w, 0, 1)
	finish(w)
}

// V08: prediction through a slice.
// sym:bounds pictures of 4x2 macroblocks, the three macroblocks after the first each of every kind (P: forward, not coded vector, intra, skipped; B: forward, backward, both, intra, skipped; the coded ones with a new quantiser scale too, in quick the second only), in one slice or two; f_codes 2, 1 forward and 3, 2 backward; concealment vectors or none; concrete vector differences, different everywhere
// sym:steps 100000000
// sym:timeout 300
func H_V08_kinds() {
	w := &hx.W{}
	typ := 2 + sym.Choice("b", 2)
	p := anchors(w, typ, 5, 2)
	p.fcode = [2][2]uint64{{2, 1}, {3, 2}}
	p.conceal = sym.Choice("conceal", 2) == 1
	p.put(w)
	slice(w, 0, 8)
	split := 2 + sym.Choice("split", 2)
	if sym.Thorough() {
		split = 1 + sym.Choice("split1", 3)
	}
	kinds := []int{mbFwd, mbPattern, mbIntra, 0, mbQuant | mbFwd | mbPattern, mbQuant | mbPattern, mbQuant | mbIntra}
	if typ == 3 {
		kinds = []int{mbFwd, mbBwd, mbFwd | mbBwd, mbIntra, 0, mbQuant | mbFwd | mbBwd | mbPattern, mbQuant | mbBwd | mbPattern, mbQuant | mbFwd | mbPattern, mbQuant | mbIntra}
	}
	plain := 2 + typ // without a new quantiser scale
	inc, prev := 1, 0
	first := &mb{typ: mbFwd, mv: [2][2]int{{7, 3}}}
	if typ == 3 {
		first.typ |= mbBwd
		first.mv[1] = [2]int{9, 2}
	}
	first.put(w, p)
	prev = first.typ
	for x := 1; x < 4; x++ {
		k := mbFwd
		if x < 4 {
			n := len(kinds)
			if x != 2 && !sym.Thorough() {
				n = plain
			}
			k = kinds[sym.Choice("kind", n)]
		}
		if split < 3 && x == split {
			if inc > 1 {
				sym.Stop() // the slice before ends in a coded macroblock
			}
			w.Align()
			slice(w, 0, 8)
			inc = x + 1
			if k == 0 {
				sym.Stop()
			}
		}
		if k == 0 {
			if prev&mbIntra != 0 && typ == 3 {
				sym.Stop()
			}
			inc++
			continue
		}
		m := &mb{inc: inc, typ: k, cbp: 32, q: 5, mv: [2][2]int{{2*x - 3, x}, {-x, 1}}}
		m.put(w, p)
		inc, prev = 1, k
	}
	m := &mb{inc: inc, typ: mbFwd, mv: [2][2]int{{-25, 1}, {-20, 1}}}
	if typ == 3 {
		m.typ |= mbBwd
	}
	m.put(w, p)
	finish(w)
}

// V08: an f_code of its own for every component.
// sym:bounds a B picture of 6x4 macroblocks: six assignments (all in thorough) of f_codes 1 to 3 to the four components, two bidirectional macroblocks in the middle with concrete differences in every component
// sym:steps 200000000
// sym:timeout 300
// sym:timeout-thorough 1500
func H_V08_components() {
	w := &hx.W{}
	p := anchors(w, 3, 6, 4)
	if sym.Thorough() {
		for s := 0; s < 2; s++ {
			for t := 0; t < 2; t++ {
				p.fcode[s][t] = uint64(1 + sym.Choice("f", 3))
			}
		}
	} else {
		a, d := sym.Choice("f", 3), 1+sym.Choice("d", 2)
		for k := 0; k < 4; k++ {
			p.fcode[k/2][k%2] = uint64(1 + (a+d*k)%3)
		}
	}
	p.put(w)
	slice(w, 1, 8)
	w.Bits("010") // the third column
	for n := 0; n < 2; n++ {
		if n == 1 {
			w.Bits("1")
		}
		w.Bits("10")
		for s := 0; s < 2; s++ {
			for t := 0; t < 2; t++ {
				d := []int{9, -13, 14, -7}[2*s+t]
				if n == 1 {
					d = []int{-15, 14, -16, 11}[2*s+t]
				}
				putMotion(w, d, uint(p.fcode[s][t]))
			}
		}
	}
	finish(w)
}

// V08: predictors after long skips.
// sym:bounds P and B pictures of one row: a macroblock with vector (2, 0), an increment of 2, 32, 33, 34, 40 or 67, a macroblock with a difference of (-2, 0) and a residual of symbolic sign, and one of a difference of 0 to -2; textured references
// sym:steps 100000000
// sym:timeout 300
func H_V08_long() {
	w := &hx.W{}
	inc := []int{2, 32, 33, 34, 40, 67}[sym.Choice("inc", 6)]
	n := inc + 2
	(&seqHdr{w: uint64(16 * n), h: 16}).put(w)
	gop(w)
	textured(w, 0, n, 1)
	p := &pic{tref: 1, typ: uint64(2 + sym.Choice("b", 2))}
	if p.typ == 3 {
		textured(w, 2, n, 1)
	}
	p.fcode = [2][2]uint64{{1, 1}, {1, 1}}
	p.put(w)
	slice(w, 0, 10)
	for _, m := range []*mb{{typ: mbFwd, mv: [2][2]int{{2, 0}}}, {inc: inc, typ: mbFwd | mbPattern, cbp: 32, mv: [2][2]int{{-2, 0}}, res: putResidual}, {typ: mbFwd, mv: [2][2]int{{-sym.Choice("d", 3), 0}}}} {
		m.put(w, p)
	}
	w.Align()
	finish(w)
}

// V05: DC predictors after long skips.
// sym:bounds a P picture of one row: an intra macroblock with symbolic DC differences, an increment of 2, 32, 33, 34, 40 or 67, another intra macroblock
// sym:steps 100000000
// sym:timeout 300
func H_V05_long() {
	w := &hx.W{}
	inc := []int{2, 32, 33, 34, 40, 67}[sym.Choice("inc", 6)]
	n := inc + 1
	(&seqHdr{w: uint64(16 * n), h: 16}).put(w)
	gop(w)
	flatSym(w, &pic{typ: 1}, n)
	p := &pic{tref: 1, typ: 2, fcode: [2][2]uint64{{1, 1}}}
	p.put(w)
	slice(w, 0, 10)
	for _, inc := range []int{1, inc} {
		m := &mb{inc: inc, typ: mbIntra, res: func(w *hx.W, i int) { putDiff(w, i >= 4, 4, "dc") }}
		m.put(w, p)
	}
	w.Align()
	finish(w)
}
