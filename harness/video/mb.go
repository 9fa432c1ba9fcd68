package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// code is the code word of a value.
func code(t []vlc, val int) string {
	for _, e := range t {
		if e.val == val {
			return e.code
		}
	}
	panic("no code")
}

// walk appends a code word of t chosen bit by bit, or the bits that show that
// there is none.
func walk(w *hx.W, t *tree, name string) (int, bool) {
	n := 0
	for {
		b := 0
		if sym.Bool(name) {
			b = 1
		}
		w.Put(uint64(b), 1)
		k := t.kid[n][b]
		if k == 0 {
			return 0, false
		}
		if k < 0 {
			return t.val[-k-1], true
		}
		n = k
	}
}

// putInc codes a macroblock address increment.
func putInc(w *hx.W, n int) {
	for ; n > 33; n -= 33 {
		w.Bits("00000001000")
	}
	w.Bits(code(vlcIncr, n))
}

// blocks of symbolic levels: every 8x8 block its own, in [66, 222].
func (p *pic) texture(w *hx.W) {
	sizes := dcLuma
	for i := 0; i < 6; i++ {
		if i == 4 {
			sizes = dcChroma
		}
		w.Bits(sizes[6]).Flag(i&1 == 0).Put(sym.Bits("lv", 5), 5)
		p.eob(w)
	}
}

// textured is an I picture of blocks of symbolic levels.
func textured(w *hx.W, tref uint64, mbw, mbh int) {
	p := &pic{tref: tref, typ: 1}
	p.put(w)
	for y := 0; y < mbh; y++ {
		for x := 0; x < mbw; x++ {
			slice(w, y, 4)
			putInc(w, x+1)
			w.Bits("1")
			p.texture(w)
			w.Align()
		}
	}
}

const (
	mbQuant = 1 << iota
	mbFwd
	mbBwd
	mbPattern
	mbIntra
)

// mb is a coded macroblock.
type mb struct {
	inc   int
	typ   int
	q     uint64
	mv    [2][2]int // coded differences in half samples
	field bool      // dct_type
	cbp   int
	res   func(w *hx.W, i int) // residual of block i, end of block excluded
}

func (m *mb) put(w *hx.W, p *pic) {
	if m.inc == 0 {
		m.inc = 1
	}
	putInc(w, m.inc)
	w.Bits(code([][]vlc{vlcTypeI, vlcTypeP, vlcTypeB}[p.typ-1], m.typ))
	m.after(w, p)
}

// after is what follows the macroblock type.
func (m *mb) after(w *hx.W, p *pic) {
	if m.typ&(mbFwd|mbBwd) != 0 && p.fpfd0 {
		w.Put(2, 2)
	}
	if m.typ&(mbIntra|mbPattern) != 0 && p.fpfd0 {
		w.Flag(m.field)
	}
	if m.typ&mbQuant != 0 {
		w.Put(m.q, 5)
	}
	for s := 0; s < 2; s++ {
		if m.typ&(mbFwd<<uint(s)) != 0 || s == 0 && m.typ&mbIntra != 0 && p.conceal {
			for t := 0; t < 2; t++ {
				putMotion(w, m.mv[s][t], uint(p.fcode[s][t]))
			}
		}
	}
	if m.typ&mbIntra != 0 && p.conceal {
		w.Put(1, 1)
	}
	cbp := m.cbp
	if m.typ&mbIntra != 0 {
		cbp = 63
	} else if m.typ&mbPattern == 0 {
		cbp = 0
	}
	if m.typ&mbPattern != 0 {
		w.Bits(code(vlcCBP, cbp))
	}
	for i := 0; i < 6; i++ {
		if cbp>>uint(5-i)&1 == 0 {
			continue
		}
		if m.res != nil {
			m.res(w, i)
		} else if m.typ&mbIntra != 0 {
			putDC(w, i >= 4, 0)
		} else {
			w.Bits("1").Put(sym.Bits("sign", 1), 1)
		}
		if m.typ&mbIntra != 0 {
			p.eob(w)
		} else {
			w.Bits("10")
		}
	}
}

// finish ends a stream, decodes it both ways and records that it got there.
func finish(w *hx.W) (why string, info *refInfo) {
	w.Align()
	seqEnd(w)
	why, info, f := agree(w.B)
	if len(f) > 0 {
		last := f[len(f)-1]
		sym.Observe("y", uint64(last.Y[0]))
		sym.Observe("cb", uint64(last.Cb[len(last.Cb)-1]))
	}
	if why == "" {
		sym.Reach("end")
	} else {
		sym.Reach(why)
	}
	return
}
