// Package videoh decides the properties of /repo/video: streams are assembled
// bit by bit, with symbolic fields, and decoded by the real decoder.
package videoh

import (
	"image"

	"github.com/32bitkid/mpeg/video"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// seqHdr are the fields of a sequence header and its extension.
type seqHdr struct {
	w, h     uint64 // 14 bits
	chroma   uint64
	intra    []byte // transmitted order
	nonIntra []byte
	noExt    bool
	qm       []byte // in an extension of the first picture (sequence only)
	rate     uint64
	prog     uint64
}

func (s *seqHdr) putHeader(w *hx.W) {
	w.Start(0xb3)
	w.Put(s.w, 12).Put(s.h, 12).Put(2, 4).Put(3, 4).Put(0x1234, 18).Put(1, 1).Put(20, 10).Put(0, 1)
	if s.intra != nil {
		w.Put(1, 1).Bytes(s.intra)
	} else {
		w.Put(0, 1)
	}
	if s.nonIntra != nil {
		w.Put(1, 1).Bytes(s.nonIntra)
	} else {
		w.Put(0, 1)
	}
	w.Align()
}

func (s *seqHdr) put(w *hx.W) {
	s.putHeader(w)
	if s.noExt {
		return
	}
	c := s.chroma
	if c == 0 {
		c = 1
	}
	w.Start(0xb5).Put(1, 4).Put(0x44, 8).Put(s.prog, 1).Put(c, 2).Put(s.w>>12, 2).Put(s.h>>12, 2).Put(0, 12).Put(1, 1).Put(0, 8).Put(0, 1).Put(0, 2).Put(0, 5)
	w.Align()
}

func putGop(w *hx.W, tc uint64, closed, broken bool) {
	w.Start(0xb8).Put(tc, 25).Flag(closed).Flag(broken)
	w.Align()
}

func gop(w *hx.W) { putGop(w, 1<<12, true, false) }

// pic are the fields of a picture header and its coding extension.
type pic struct {
	tref     uint64
	typ      uint64 // 1 I, 2 P, 3 B
	fcode    [2][2]uint64
	dcprec   uint64
	fpfd0    bool // frame_pred_frame_dct cleared
	conceal  bool
	qtype    uint64
	vlc      uint64
	alt      uint64
	extra    []byte
	display  bool
	noStruct uint64 // picture structure when not 3
}

func (p *pic) put(w *hx.W) {
	p.putHeader(w)
	p.putExt(w)
}

func (p *pic) putHeader(w *hx.W) {
	w.Start(0x00).Put(p.tref, 10).Put(p.typ, 3).Put(0xffff, 16)
	if p.typ >= 2 {
		w.Put(0, 1).Put(7, 3)
	}
	if p.typ == 3 {
		w.Put(0, 1).Put(7, 3)
	}
	for _, x := range p.extra {
		w.Put(1, 1).Put(uint64(x), 8)
	}
	w.Put(0, 1)
	w.Align()
}

func (p *pic) putExt(w *hx.W) {
	w.Start(0xb5).Put(8, 4)
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			f := p.fcode[s][t]
			if f == 0 {
				f = 15
			}
			w.Put(f, 4)
		}
	}
	st := p.noStruct
	if st == 0 {
		st = 3
	}
	w.Put(p.dcprec, 2).Put(st, 2).Put(0, 1).Flag(!p.fpfd0).Flag(p.conceal).Put(p.qtype, 1).Put(p.vlc, 1).Put(p.alt, 1)
	w.Put(0, 1).Put(1, 1).Put(1, 1)
	w.Flag(p.display)
	if p.display {
		w.Put(0x5a5a5, 20)
	}
	w.Align()
}

func slice(w *hx.W, row int, q uint64) {
	w.Start(row + 1)
	w.Put(q, 5).Put(0, 1)
}

func seqEnd(w *hx.W) { w.Start(0xb7) }

func decoder(b []byte) *video.VideoSequence { return video.NewVideoSequence(&hx.Src{B: b}) }

// grey is an intra macroblock of six flat blocks.
func (p *pic) flat(w *hx.W, diff [3]int) {
	switch p.typ {
	case 1:
		w.Bits("1")
	case 2:
		w.Bits("00011")
	case 3:
		w.Bits("00011")
	}
	if p.fpfd0 {
		w.Put(0, 1)
	}
	if p.conceal {
		w.Bits("1").Bits("1").Bits("1")
	}
	for i := 0; i < 6; i++ {
		switch {
		case i == 0:
			putDC(w, false, diff[0])
		case i < 4:
			putDC(w, false, 0)
		default:
			putDC(w, true, diff[i-3])
		}
		p.eob(w)
	}
}

func (p *pic) eob(w *hx.W) {
	if p.vlc == 1 {
		w.Bits("0110")
	} else {
		w.Bits("10")
	}
}

var dcLuma = [12]string{"100", "00", "01", "101", "110", "1110", "11110", "111110", "1111110", "11111110", "111111110", "111111111"}
var dcChroma = [12]string{"00", "01", "10", "110", "1110", "11110", "111110", "1111110", "11111110", "111111110", "1111111110", "1111111111"}

// putDC codes a concrete DC difference.
func putDC(w *hx.W, chroma bool, d int) {
	size, a := 0, d
	if a < 0 {
		a = -a
	}
	for a != 0 {
		size++
		a >>= 1
	}
	if chroma {
		w.Bits(dcChroma[size])
	} else {
		w.Bits(dcLuma[size])
	}
	if size > 0 {
		if d < 0 {
			d += 1<<uint(size) - 1
		}
		w.Put(uint64(d), size)
	}
}

func same(a, b []byte) bool { return sym.EqBytes(a, b) }

func sameImage(a, b *image.YCbCr) bool {
	return a.Rect == b.Rect && a.YStride == b.YStride && a.CStride == b.CStride &&
		sym.And(same(a.Y, b.Y), same(a.Cb, b.Cb), same(a.Cr, b.Cr))
}
