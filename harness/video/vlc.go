package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// V04: DCT coefficients.
// sym:bounds every bit string in place of the first or second coefficient of a block: intra with table zero and one, and non-intra (either intra_vlc_format); symbolic sign; escapes are in H_V04_escape and H_V04_run
func H_V04_coef() { coef(0) }

// sym:bounds an escape with run 3 and symbolic 12-bit level, as second coefficient of an intra block with table zero and one, and of a non-intra block
func H_V04_escape() { coef(1) }

// sym:bounds an escape with every run (6 bits) and level +-1, as first and second coefficient of intra blocks (table zero and one) and non-intra blocks
func H_V04_run() { coef(2) }

func coef(esc int) {
	w := &hx.W{}
	(&seqHdr{w: 16, h: 16}).put(w)
	gop(w)
	at := 0
	if esc == 1 {
		at = 1 + 2*sym.Choice("at", 2)
	} else {
		at = sym.Choice("at", 4)
	}
	p := &pic{typ: 1, vlc: uint64(sym.Choice("vlc", 2))}
	if at >= 2 {
		flatPic(w, &pic{typ: 1}, 1, 1, [3]int{})
		p.typ, p.tref = 2, 1
	}
	p.put(w)
	slice(w, 0, 8)
	t := treeCoefNext
	if p.vlc == 1 && at < 2 {
		t = treeCoefOne
	}
	if at == 2 {
		t = treeCoefFirst
	}
	m := &mb{typ: mbIntra, cbp: 32}
	if at >= 2 {
		m.typ = mbPattern
	}
	stop := false
	m.res = func(w *hx.W, i int) {
		if at < 2 {
			putDC(w, i >= 4, 0)
			if i > 0 || stop {
				return
			}
		}
		if at == 1 {
			w.Bits(code([][]vlc{vlcCoefNext, vlcCoefOne}[p.vlc], 65)).Put(0, 1)
		}
		if at == 3 {
			w.Bits("11") // 0,1 negative
		}
		switch esc {
		case 1:
			w.Bits("000001").Put(3, 6).Put(sym.Bits("lv", 12), 12)
			return
		case 2:
			s := sym.Bits("s", 1)
			w.Bits("000001").Put(sym.Bits("run", 6), 6)
			for i := 0; i < 11; i++ {
				w.Put(s, 1)
			}
			w.Put(1, 1)
			return
		}
		v, ok := walk(w, t, "c")
		switch {
		case !ok:
			stop = true
		case v < 0: // end of block: other checks have it everywhere; escape
			sym.Stop()
		default:
			w.Put(sym.Bits("s", 1), 1)
		}
	}
	m.put(w, p)
	finish(w)
}

// V04: macroblock types.
// sym:bounds every bit string in place of a macroblock type, in I, P and B pictures; residual of one symbolic sign; new quantiser scale code symbolic in 1..4 for types that carry one; references of symbolic level
func H_V04_type() {
	w := &hx.W{}
	(&seqHdr{w: 16, h: 16}).put(w)
	gop(w)
	typ := 1 + sym.Choice("typ", 3)
	tref := uint64(0)
	if typ > 1 {
		levelPic(w, 0, 1, sym.Bits("lv", 6))
		tref = 1
	}
	if typ == 3 {
		levelPic(w, 2, 2, sym.Bits("lv", 6))
	}
	p := &pic{tref: tref, typ: uint64(typ), fcode: [2][2]uint64{{1, 1}, {1, 1}}}
	p.put(w)
	slice(w, 0, 8)
	w.Bits("1")
	t, ok := walk(w, treeType[typ], "c")
	if ok {
		m := &mb{typ: t, cbp: 32, q: 1 + sym.Bits("q", 2)}
		m.after(w, p)
	}
	finish(w)
}

// V04: coded block pattern.
// sym:bounds every bit string in place of the coded block pattern; every coded block a single coefficient of symbolic sign
func H_V04_cbp() {
	w := &hx.W{}
	(&seqHdr{w: 16, h: 16}).put(w)
	gop(w)
	flatPic(w, &pic{typ: 1}, 1, 1, [3]int{})
	p := &pic{tref: 1, typ: 2}
	p.put(w)
	slice(w, 0, 8)
	w.Bits("1").Bits("01")
	c, _ := walk(w, treeCBP, "c")
	for i := 0; i < 6; i++ {
		if c>>uint(5-i)&1 == 1 {
			w.Bits("1").Put(sym.Bits("s", 1), 1).Bits("10")
		}
	}
	finish(w)
}

// V04: macroblock address increments.
// sym:bounds every bit string in place of the increment of the first macroblock of a slice, after 0 or 1 escapes, in a picture 70 macroblocks wide
// sym:steps 60000000
// sym:timeout 120
func H_V04_increment() {
	w := &hx.W{}
	(&seqHdr{w: 70 * 16, h: 16}).put(w)
	gop(w)
	p := &pic{typ: 1}
	p.put(w)
	w2 := &hx.W{}
	esc := sym.Choice("escape", 2)
	if esc == 1 {
		w2.Bits("00000001000")
	}
	n, ok := walk(w2, treeIncr, "c")
	if ok && n == 0 { // one more escape
		w2.Bits("010")
		n = 36
	}
	n += 33 * esc
	slice(w, 0, 8)
	if n > 1 && ok {
		for i := 1; i < n; i++ {
			w.Bits("1")
			p.flat(w, [3]int{1 - i&2, 0, 0})
		}
		w.Align()
		slice(w, 0, 8)
	}
	for i := 0; i < w2.Len(); i++ {
		w.Flag(hx.Be(w2.B, i, 1) == 1)
	}
	p.level(w, 40)
	for i := n; i < 70; i++ {
		w.Bits("1")
		p.flat(w, [3]int{1 - i&2, 0, 0})
	}
	finish(w)
}

// V04: DC sizes and differences.
// sym:bounds every bit string in place of the DC size of a luma and of a chroma block, with its symbolic difference, at the highest precision (predictor 1024)
func H_V04_dc() {
	w := &hx.W{}
	(&seqHdr{w: 16, h: 16}).put(w)
	gop(w)
	p := &pic{typ: 1, dcprec: 3}
	p.put(w)
	slice(w, 0, 8)
	w.Bits("1").Bits("1")
	at := []int{0, 4, 5}[sym.Choice("at", 3)]
	for i := 0; i < 6; i++ {
		if i != at {
			putDC(w, i >= 4, 0)
			p.eob(w)
			continue
		}
		t := treeDCLuma
		if i >= 4 {
			t = treeDCChroma
		}
		n, ok := walk(w, t, "c")
		if !ok {
			break
		}
		if n > 0 {
			w.Put(sym.Bits("dc", n), n)
		}
		p.eob(w)
	}
	finish(w)
}

// V04: motion codes.
// sym:bounds every bit string in place of the horizontal or vertical motion code of a forward or backward vector; picture of 3x3 macroblocks of varied contents, f_code 1
// sym:steps 30000000
func H_V04_motion() {
	w := &hx.W{}
	(&seqHdr{w: 48, h: 48}).put(w)
	gop(w)
	ramp(w, 0, 1, 3, 3, 0)
	ramp(w, 2, 1, 3, 3, 5)
	p := &pic{tref: 1, typ: 3, fcode: [2][2]uint64{{1, 1}, {1, 1}}}
	p.put(w)
	slice(w, 1, 8)
	w.Bits("011") // the second
	s := sym.Choice("dir", 2)
	w.Bits([]string{"0010", "010"}[s])
	t := sym.Choice("comp", 2)
	if t == 1 {
		w.Bits("1")
	}
	walk(w, treeMotion, "c")
	if t == 0 {
		w.Bits("1")
	}
	finish(w)
}

// ramp is an I picture of concrete content that differs everywhere: in every
// block the DC and two coefficients.
func ramp(w *hx.W, tref, typ uint64, mbw, mbh, seed int) {
	p := &pic{tref: tref, typ: typ}
	p.put(w)
	for y := 0; y < mbh; y++ {
		slice(w, y, 10)
		for x := 0; x < mbw; x++ {
			w.Bits("1").Bits("1")
			for i := 0; i < 6; i++ {
				putDC(w, i >= 4, (7*x+11*y+5*i+seed)%9-4)
				k := 9*x + 7*y + i + seed
				w.Bits("11").Put(uint64(k&1), 1)
				w.Bits("0100").Put(uint64(k/2&1), 1)
				w.Bits("011").Put(uint64(k/3&1), 1)
				p.eob(w)
			}
		}
		w.Align()
	}
}
