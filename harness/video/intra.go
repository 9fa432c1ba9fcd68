package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// putDiff codes a symbolic DC difference of n bits.
func putDiff(w *hx.W, chroma bool, n int, name string) {
	if chroma {
		w.Bits(dcChroma[n])
	} else {
		w.Bits(dcLuma[n])
	}
	w.Put(sym.Bits(name, n), n)
}

// V05: DC prediction within a slice and across its start.
// sym:bounds three intra macroblocks in one slice or two, with a symbolic 4-bit (plus precision) DC difference in two luma blocks and both chroma blocks of each; precision 8 to 11 bits; either intra VLC table
func H_V05_dc() {
	w := &hx.W{}
	(&seqHdr{w: 48, h: 16}).put(w)
	gop(w)
	p := &pic{typ: 1, dcprec: uint64(sym.Choice("precision", 4)), vlc: uint64(sym.Choice("vlc", 2))}
	p.put(w)
	n := 4 + int(p.dcprec)
	split := sym.Choice("split", 3) // a new slice from this macroblock on
	for x := 0; x < 3; x++ {
		if x == 0 || x == split {
			if x > 0 {
				w.Align()
			}
			slice(w, 0, 8)
			putInc(w, x+1)
		} else {
			putInc(w, 1)
		}
		w.Bits("1")
		for i := 0; i < 6; i++ {
			switch {
			case i == x || i >= 3:
				putDiff(w, i >= 4, n, "dc")
			default:
				putDC(w, i >= 4, 0)
			}
			p.eob(w)
		}
	}
	finish(w)
}

// V05: what resets the prediction.
// sym:bounds P and B pictures of four macroblocks (the last intra): every arrangement of intra, not coded, coded without vector and skipped macroblocks, forward and bidirectional ones among them; symbolic 4-bit DC differences in the first luma and both chroma blocks; with and without concealment vectors
// sym:steps 40000000
func H_V05_reset() {
	w := &hx.W{}
	(&seqHdr{w: 64, h: 16}).put(w)
	gop(w)
	b := sym.Choice("b", 2) == 1
	levelPic4(w, 0, 10)
	p := &pic{tref: 1, typ: 2, dcprec: uint64(sym.Choice("precision", 2)), conceal: sym.Choice("conceal", 2) == 1}
	p.fcode = [2][2]uint64{{1, 1}, {1, 1}}
	if b {
		levelPic4(w, 2, 50)
		p.typ = 3
	}
	p.put(w)
	slice(w, 0, 8)
	inc := 1
	prev := -1
	for x := 0; x < 4; x++ {
		kind := 0
		if x < 3 {
			kind = sym.Choice("kind", 4)
		}
		m := &mb{inc: inc}
		switch {
		case kind == 0:
			m.typ = mbIntra
			m.res = func(w *hx.W, i int) {
				if i == 0 || i >= 4 {
					putDiff(w, i >= 4, 4+int(p.dcprec), "dc")
				} else {
					putDC(w, false, 0)
				}
			}
		case kind == 1 && b:
			m.typ = mbBwd
		case kind == 1:
			m.typ = mbFwd
		case kind == 2 && b:
			m.typ, m.cbp = mbFwd|mbBwd|mbPattern, 32
		case kind == 2:
			m.typ, m.cbp = mbPattern, 32
		default: // skipped
			if x == 0 || b && prev == 0 {
				sym.Stop()
			}
			inc++
			continue
		}
		prev = kind
		m.put(w, p)
		inc = 1
	}
	finish(w)
}

// levelPic4 is a flat picture 4 macroblocks wide.
func levelPic4(w *hx.W, tref uint64, lv int) {
	flatPic(w, &pic{tref: tref, typ: 1}, 4, 1, [3]int{lv - 32, 5, -9})
}

// V05: coefficient placement.
// sym:bounds an intra or non-intra block, the first of its macroblock or after a block with coefficients, with two escaped coefficients, runs 0 to 62 (6 symbolic bits) before the first and 0 or 1 before the second (all pairs in thorough), each level +-4 by a symbolic sign; both scans
// sym:timeout 200
// sym:timeout-thorough 3000
func H_V05_scan() {
	w := &hx.W{}
	(&seqHdr{w: 16, h: 16}).put(w)
	gop(w)
	p := &pic{typ: 1, alt: uint64(sym.Choice("alt", 2))}
	m := &mb{typ: mbIntra}
	at := 4 * sym.Choice("at", 2)
	if sym.Choice("inter", 2) == 1 {
		flatPic(w, &pic{typ: 1}, 1, 1, [3]int{})
		p.typ, p.tref = 2, 1
		m.typ, m.cbp = mbPattern, 32
		if at > 0 {
			m.cbp = 8 | 2
		}
	}
	p.put(w)
	slice(w, 0, 8)
	m.res = func(w *hx.W, i int) {
		if m.typ == mbIntra {
			putDC(w, i >= 4, 0)
		}
		if i < at && i == 2 {
			dense(w, m.typ == mbIntra)
		}
		if i != at {
			return
		}
		for k := 0; k < 2; k++ {
			w.Bits("000001")
			if k == 0 || sym.Thorough() {
				w.Put(sym.Bits("run", 6), 6)
			} else {
				w.Put(uint64(sym.Choice("run1", 2)), 6)
			}
			s := sym.Bits("s", 1)
			w.Put(s, 1)
			for j := 0; j < 8; j++ {
				w.Put(s, 1)
			}
			w.Bits("100")
		}
	}
	m.put(w, p)
	finish(w)
}

// dense is a concrete level at every place of a block.
func dense(w *hx.W, intra bool) {
	for k := 0; k < 64; k++ {
		if k == 0 && intra {
			continue
		}
		w.Bits("000001").Put(0, 6).Put(uint64(5+k%7)&4095, 12)
	}
}

// V05: one block after another.
// sym:bounds six dense blocks followed in the next macroblock by blocks of one escaped coefficient after a run of 6 symbolic bits (intra or not, either scan) in any one of the six blocks, the others without coefficients
// sym:timeout 200
func H_V05_after() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 16}).put(w)
	gop(w)
	p := &pic{typ: 1, alt: uint64(sym.Choice("alt", 2))}
	m := &mb{typ: mbIntra}
	at := sym.Choice("at", 6)
	n := &mb{typ: mbIntra}
	if sym.Choice("inter", 2) == 1 {
		flatPic(w, &pic{typ: 1}, 2, 1, [3]int{})
		p.typ, p.tref = 2, 1
		m.typ, m.cbp = mbPattern, 63
		n.typ, n.cbp = mbPattern, 32>>uint(at)
	}
	p.put(w)
	slice(w, 0, 3)
	m.res = func(w *hx.W, i int) {
		if m.typ == mbIntra {
			putDC(w, i >= 4, 0)
		}
		dense(w, m.typ == mbIntra)
	}
	m.put(w, p)
	n.res = func(w *hx.W, i int) {
		if n.typ == mbIntra {
			putDC(w, i >= 4, 0)
		}
		if i == at {
			w.Bits("000001").Put(sym.Bits("run", 6), 6)
			s := sym.Bits("s", 1)
			for j := 0; j < 9; j++ {
				w.Put(s, 1)
			}
			w.Bits("100")
		}
	}
	n.put(w, p)
	finish(w)
}

// V05: a whole block.
// sym:bounds one intra block with a symbolic 6-bit DC difference and a coefficient of symbolic 12-bit level at run 0, 5 or 31 (0 to 62 in thorough), then one more of level +-1; both scans; symbolic quantiser scale code among 2, 9 and 31
// sym:timeout 200
// sym:timeout-thorough 3000
func H_V05_block() {
	w := &hx.W{}
	(&seqHdr{w: 16, h: 16}).put(w)
	gop(w)
	p := &pic{typ: 1, alt: uint64(sym.Choice("alt", 2))}
	p.put(w)
	slice(w, 0, []uint64{2, 9, 31}[sym.Choice("q", 3)])
	run := 0
	if sym.Thorough() {
		run = sym.Choice("run", 63)
	} else {
		run = []int{0, 5, 31}[sym.Choice("run", 3)]
	}
	m := &mb{typ: mbIntra}
	m.res = func(w *hx.W, i int) {
		if i > 0 {
			putDC(w, i >= 4, 0)
			return
		}
		putDiff(w, false, 6, "dc")
		w.Bits("000001").Put(uint64(run), 6).Put(sym.Bits("lv", 12), 12)
		if run < 62 {
			w.Bits("11").Put(sym.Bits("s", 1), 1)
		}
	}
	m.put(w, p)
	finish(w)
}
