package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// start begins a stream that ends in one picture of one macroblock, intra or
// not (predicted from a grey picture).
func start(w *hx.W, s *seqHdr, p *pic, inter bool) *mb {
	s.put(w)
	gop(w)
	p.typ = 1
	m := &mb{typ: mbIntra}
	if inter {
		flatPic(w, &pic{typ: 1}, int(s.w/16), 1, [3]int{})
		p.typ, p.tref = 2, 1
		m.typ, m.cbp = mbPattern, 32
	}
	p.put(w)
	return m
}

// V06: every level with every scale.
// sym:bounds one coefficient of symbolic 12-bit level at scan position 1 or 40 (intra) or 0 (non-intra); all 31 quantiser scale codes of both scale types; default matrices
// sym:timeout 200
func H_V06_level() {
	w := &hx.W{}
	p := &pic{qtype: uint64(sym.Choice("qtype", 2))}
	inter := sym.Choice("inter", 2) == 1
	run := 0
	if !inter {
		run = 39 * sym.Choice("far", 2)
	}
	m := start(w, &seqHdr{w: 16, h: 16}, p, inter)
	slice(w, 0, uint64(1+sym.Choice("q", 31)))
	m.res = func(w *hx.W, i int) {
		if !inter {
			putDC(w, i >= 4, 0)
		}
		if i == 0 {
			w.Bits("000001").Put(uint64(run), 6).Put(sym.Bits("lv", 12), 12)
		}
	}
	m.put(w, p)
	finish(w)
}

// symMatrix is a matrix with a symbolic nonzero entry at scan position k.
func symMatrix(k int, name string) []byte {
	m := make([]byte, 64)
	for i := range m {
		m[i] = byte(16 + i)
	}
	m[k] = sym.U8(name)
	sym.Assume(m[k] != 0)
	return m
}

// V06: mismatch control.
// sym:bounds a block, intra (matrix of 16s, symbolic 5-bit DC difference) or not, of two coefficients of symbolic levels -16 to 15 (one at scan position 1, or 0 in a non-intra block, one at the last position) at quantiser scale 1, where every coefficient is its level, or at scale 2
// sym:timeout 200
func H_V06_mismatch() {
	w := &hx.W{}
	inter := sym.Choice("inter", 2) == 1
	p := &pic{qtype: 1, dcprec: 3}
	s := &seqHdr{w: 16, h: 16, intra: make([]byte, 64)}
	for i := range s.intra {
		s.intra[i] = 16
	}
	m := start(w, s, p, inter)
	slice(w, 0, uint64(1+sym.Choice("q", 2)))
	level := func() {
		v := sym.Bits("lv", 5)
		w.Put(v>>4, 1)
		for i := 0; i < 6; i++ {
			w.Put(v>>4, 1)
		}
		w.Put(v, 5)
	}
	m.res = func(w *hx.W, i int) {
		if i > 0 {
			if !inter {
				putDC(w, i >= 4, 0)
			}
			return
		}
		run := 62
		if !inter {
			putDiff(w, false, 5, "dc")
			run = 61
		}
		w.Bits("000001").Put(0, 6)
		level()
		w.Bits("000001").Put(uint64(run), 6)
		level()
	}
	m.put(w, p)
	finish(w)
}

// V06: loaded matrices.
// sym:bounds intra and non-intra matrix loaded by the sequence header or a quantiser matrix extension, with a symbolic entry (1 to 255) at every scan position k, used by a luma or chroma coefficient of level +-5 at that place (either scan), quantiser scale 16
// sym:timeout 200
func H_V06_matrix() {
	w := &hx.W{}
	inter := sym.Choice("inter", 2) == 1
	k := 0
	if !inter {
		k = 1 + sym.Choice("k", 63)
	} else {
		k = sym.Choice("k", 64)
	}
	p := &pic{alt: uint64(sym.Choice("alt", 2))}
	m := symMatrix(k, "w")
	s := &seqHdr{w: 16, h: 16}
	load := sym.Choice("load", 2)
	if load == 0 {
		if inter {
			s.nonIntra = m
		} else {
			s.intra = m
		}
	}
	mac := start(w, s, p, inter)
	if load == 1 {
		w.Start(0xb5).Put(3, 4).Flag(!inter)
		if !inter {
			w.Bytes(m)
		}
		w.Flag(inter)
		if inter {
			w.Bytes(m)
		}
		w.Put(0, 2).Align()
	}
	// the scan position of the matrix entry
	n := k
	if p.alt == 1 {
		for i, at := range altscan {
			if at == zigzag[k] {
				n = i
			}
		}
	}
	blk := 4 * sym.Choice("chroma", 2)
	slice(w, 0, 8)
	mac.cbp = 32 >> uint(blk)
	mac.res = func(w *hx.W, i int) {
		if !inter {
			putDC(w, i >= 4, 0)
		}
		if i != blk {
			return
		}
		if !inter {
			n--
		}
		w.Bits("000001").Put(uint64(n), 6)
		sg := sym.Bits("s", 1)
		for j := 0; j < 9; j++ {
			w.Put(sg, 1)
		}
		w.Flag(true).Put(sg, 1).Put(1, 1) // 5 or -3
	}
	mac.put(w, p)
	finish(w)
}

// fullMatrix is a matrix of entries all of their own, one of them symbolic.
func fullMatrix(n int, name string) []byte {
	m := make([]byte, 64)
	for i := range m {
		m[i] = byte(8 + (i*37+n*53)%200)
	}
	m[1] = sym.U8(name)
	sym.Assume(m[1] != 0)
	return m
}

// V06: which matrix is in force.
// sym:bounds two or three pictures (each a new sequence header or not), every combination of loads of the intra and non-intra matrix in the sequence headers and in quantiser matrix extensions (sometimes two extensions); matrices of a symbolic entry and 63 others that differ from matrix to matrix, each used by a coefficient in one of the six blocks; pictures intra or predicted
// sym:timeout 300
// sym:timeout-thorough 3000
func H_V06_history() {
	w := &hx.W{}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	nth := 0
	full := func(name string) []byte {
		nth++
		return fullMatrix(nth, name)
	}
	tref := uint64(0)
	for i := 0; i < n; i++ {
		p := &pic{typ: 1}
		m := &mb{typ: mbIntra}
		if i > 0 && sym.Choice("typ", 2) == 1 {
			p.typ = 2
			m.typ, m.cbp = mbPattern, 63
		}
		if i == 0 || sym.Choice("header", 2) == 1 {
			s := &seqHdr{w: 16, h: 16}
			if sym.Choice("intra", 2) == 1 {
				s.intra = full("wi")
			}
			if sym.Choice("inter", 2) == 1 {
				s.nonIntra = full("wn")
			}
			s.put(w)
			if p.typ == 1 {
				gop(w)
				tref = 0
			}
		}
		p.tref = tref
		tref++
		p.put(w)
		for k := 0; k < 2; k++ {
			l := sym.Choice("ext", 4)
			if l > 0 {
				w.Start(0xb5).Put(3, 4)
				if l&1 == 1 {
					w.Flag(true).Bytes(full("xi"))
				} else {
					w.Flag(false)
				}
				if l&2 == 2 {
					w.Flag(true).Bytes(full("xn"))
				} else {
					w.Flag(false)
				}
				w.Put(0, 2).Align()
			}
			if l == 0 || i > 0 {
				break
			}
		}
		slice(w, 0, 2)
		m.res = func(w *hx.W, i int) {
			// every sixth place of the block is used
			at := 0
			if p.typ == 1 {
				putDC(w, i >= 4, 0)
				at = 1
			}
			for k := i; k < 64; k += 6 {
				if k >= at {
					w.Bits("000001").Put(uint64(k-at), 6).Put(9, 12)
					at = k + 1
				}
			}
		}
		m.put(w, p)
		w.Align()
	}
	finish(w)
}

// V06: quantiser scale changes.
// sym:bounds four macroblocks in two slices of an I or P picture, every subset of them with a new quantiser scale code; all codes symbolic (5 bits, nonzero), both scale types; a coefficient of level 3 in each
// sym:timeout 200
func H_V06_scale() {
	w := &hx.W{}
	p := &pic{qtype: uint64(sym.Choice("qtype", 2))}
	inter := sym.Choice("inter", 2) == 1
	start(w, &seqHdr{w: 48, h: 16}, p, inter)
	code := func() uint64 {
		q := sym.Bits("q", 5)
		sym.Assume(q != 0)
		return q
	}
	for x := 0; x < 3; x++ {
		m := &mb{typ: mbIntra}
		if inter {
			m.typ, m.cbp = mbPattern, 32
		}
		switch x {
		case 0:
			slice(w, 0, code())
		case 2:
			w.Align()
			slice(w, 0, code())
			m.inc = 3
		}
		if sym.Choice("quant", 2) == 1 {
			m.typ |= mbQuant
			m.q = code()
		}
		m.res = func(w *hx.W, i int) {
			if !inter {
				putDC(w, i >= 4, 0)
			}
			if i == 0 {
				w.Bits("00101").Put(0, 1)
			}
		}
		m.put(w, p)
	}
	finish(w)
}
