package videoh

import (
	"strings"

	"github.com/32bitkid/mpeg/video"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// unsupported lets the panics pass that are documented as unsupported.
func unsupported() {
	if r := recover(); r != nil {
		if s, ok := r.(string); ok && strings.HasPrefix(s, "unsupported: ") {
			sym.Reach("unsupported")
			return
		}
		panic(r)
	}
}

// survive decodes b until it ends, going on after up to two errors, and asserts
// that it does end. It returns the number of frames before the first error.
func survive(b []byte, w, h int) (n int) {
	defer unsupported()
	d := decoder(b)
	errs := 0
	for i := 0; i < 12; i++ {
		f, err := d.Next()
		sym.Assert((f == nil) == (err != nil), "a frame or an error")
		if err != nil {
			if errs++; errs == 3 {
				break
			}
			continue
		}
		sym.Assert(f.Rect.Dx() == w && f.Rect.Dy() == h, "frames have the size of the sequence")
		if errs == 0 {
			n++
		}
	}
	sym.Assert(errs > 0, "the stream comes to an end")
	sym.Reach("survived")
	sym.Observe("frames", uint64(n))
	return
}

// rubbish appends n symbolic bits and ends the stream at once, or goes on with
// something that is valid after most things (also a row of ones in thorough).
func rubbish(w *hx.W, n int) {
	w.Put(sym.Bits("x", n), n)
	switch sym.Choice("tail", width(2, 3)) {
	case 1:
		// code words of zero motion, ends of block, levels
		w.Bits("1010 1010 1010 1010 1010")
		slice(w, 1, 4)
		w.Bits("1 1").Align()
		seqEnd(w)
	case 2:
		w.Put(1<<40-1, 40)
	}
	w.Align()
}

func width(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// some is the start of a stream with a picture of the chosen type and options:
// 3x2 macroblocks and as many reference pictures as chosen.
func some(w *hx.W, codes ...uint64) *pic {
	p := &pic{typ: uint64(1 + sym.Choice("type", 3)), tref: 1}
	(&seqHdr{w: 48, h: 32}).put(w)
	gop(w)
	refs := int(p.typ) - 1
	if sym.Choice("missing", 2) == 1 {
		refs--
	}
	if refs < 0 {
		sym.Stop()
	}
	if refs > 0 {
		flatPic(w, &pic{typ: 1}, 3, 2, [3]int{3, 4, -5})
	}
	if refs > 1 {
		flatPic(w, &pic{typ: 1, tref: 2}, 3, 2, [3]int{-3, 4, 5})
	}
	switch sym.Choice("kind", 5) {
	case 4:
		p.fpfd0, p.noStruct = true, 1
	case 1:
		p.fpfd0 = true
	case 2:
		p.conceal = true
	case 3:
		p.fpfd0, p.conceal, p.vlc, p.qtype, p.alt, p.dcprec = true, true, 1, 1, 1, 3
	}
	f := codes[sym.Choice("f", len(codes))]
	p.fcode = [2][2]uint64{{f, f}, {f, f}}
	p.put(w)
	return p
}

// V15: rubbish for a slice header.
// sym:bounds I, P and B pictures of 3x2 macroblocks, all references or one missing, five combinations of coding options (one a field picture); the slice start code's last byte and the 11 bits (16 in thorough) after it symbolic; then the end or a continuation (or ones in thorough)
// sym:timeout 300
// sym:steps 30000000
// sym:timeout-thorough 3000
func H_V15_slice() {
	w := &hx.W{}
	some(w, 1)
	w.Put(1, 24)
	w.Bytes([]byte{sym.U8("code")})
	rubbish(w, width(11, 16))
	survive(w.B, 48, 32)
}

// V15: rubbish for a macroblock.
// sym:bounds I, P and B pictures of 3x2 macroblocks, all references or one missing, five combinations of coding options (one a field picture), f_code 1; the first macroblock, or the second after an intra or (P, B) predicted one, replaced by 8 symbolic bits (14 in thorough); then the end or a continuation (or ones in thorough)
// sym:timeout 300
// sym:steps 30000000
// sym:timeout-thorough 3000
func H_V15_macroblock() {
	w := &hx.W{}
	p := some(w, 1)
	slice(w, 1, 8)
	switch sym.Choice("after", 3) {
	case 1:
		(&mb{typ: mbIntra}).put(w, p)
	case 2:
		switch p.typ {
		case 1:
			sym.Stop()
		case 2:
			(&mb{typ: mbFwd}).put(w, p)
		case 3:
			(&mb{typ: mbFwd | mbBwd}).put(w, p)
		}
	}
	rubbish(w, width(8, 14))
	survive(w.B, 48, 32)
}

// V15: rubbish for motion vectors.
// sym:bounds P and B pictures of 2x1 macroblocks, frame prediction or a symbolic motion type, f_codes 1, 9, 0 or 10; forward, backward or both vectors replaced by 11 symbolic bits (16 in thorough); then the end or a continuation (or ones in thorough)
// sym:timeout 300
// sym:steps 30000000
// sym:timeout-thorough 3000
func H_V15_motion() {
	w := &hx.W{}
	p := &pic{typ: uint64(2 + sym.Choice("type", 2)), tref: 1}
	(&seqHdr{w: 32, h: 16}).put(w)
	gop(w)
	flatPic(w, &pic{typ: 1}, 2, 1, [3]int{3, 4, -5})
	flatPic(w, &pic{typ: 1, tref: 2}, 2, 1, [3]int{-3, 4, 5})
	p.fpfd0 = sym.Choice("motion type", 2) == 1
	f := []uint64{1, 9, 16, 10}[sym.Choice("f", 4)]
	p.fcode = [2][2]uint64{{f, f}, {f, f}}
	p.put(w)
	slice(w, 0, 8)
	w.Bits("1")
	if p.typ == 2 {
		w.Bits("001")
	} else {
		w.Bits([]string{"0010", "010", "10"}[sym.Choice("dirs", 3)])
	}
	rubbish(w, width(11, 16))
	survive(w.B, 32, 16)
}

// V15: rubbish for the coefficients of a block.
// sym:bounds intra blocks of I pictures (both coefficient tables) and residuals of P pictures, in the first luma or the last chroma block, at the start of the block or behind 32 to 63 coefficients: 10 symbolic bits (15 in thorough); then the end or a continuation (or ones in thorough)
// sym:timeout 300
// sym:steps 30000000
// sym:timeout-thorough 3000
func H_V15_block() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 32}).put(w)
	gop(w)
	p := &pic{typ: 1}
	switch sym.Choice("kind", 3) {
	case 1:
		p.vlc = 1
	case 2:
		flatPic(w, p, 2, 2, [3]int{3, 4, -5})
		p = &pic{typ: 2, tref: 1, fcode: [2][2]uint64{{1, 1}}}
	}
	p.put(w)
	slice(w, 1, 8)
	last := sym.Choice("last", 2) == 1
	w.Bits("1")
	if p.typ == 1 {
		w.Bits("1")
		if last {
			for i := 0; i < 5; i++ {
				putDC(w, i >= 4, 0)
				p.eob(w)
			}
		}
	} else {
		w.Bits("01")
		if last {
			w.Bits(code(vlcCBP, 1))
		} else {
			w.Bits(code(vlcCBP, 32))
		}
	}
	skip := []int{-1, 31, 60, 61, 62}[sym.Choice("run", 5)]
	if skip >= 0 {
		if p.typ == 1 {
			putDC(w, last, 0)
		}
		w.Bits("000001").Put(uint64(skip), 6).Put(5, 12)
	}
	rubbish(w, width(10, 15))
	survive(w.B, 32, 32)
}

// V15: references of another size.
// sym:bounds after one or two reference pictures of 2x2 macroblocks the sequence header is repeated with another size (16x16, 32x16, 16x32 or 48x48); a P or B picture of it without an I picture, its first macroblock 8 symbolic bits (12 in thorough), or a macroblock with zero vectors, a skipped one and another
// sym:timeout 300
func H_V15_resize() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 32}).put(w)
	gop(w)
	flatPic(w, &pic{typ: 1}, 2, 2, [3]int{3, 4, -5})
	if sym.Choice("refs", 2) == 1 {
		flatPic(w, &pic{typ: 1, tref: 1}, 2, 2, [3]int{3, 4, -5})
	}
	x, y := []int{16, 32, 16, 48}[sym.Choice("size", 4)], 16
	switch x {
	case 16:
		y = 16 * (1 + sym.Choice("h", 2))
	case 48:
		y = 48
	}
	(&seqHdr{w: uint64(x), h: uint64(y)}).put(w)
	p := &pic{typ: uint64(2 + sym.Choice("b", 2)), tref: uint64(1 + sym.Choice("tref", 2)), fcode: [2][2]uint64{{1, 1}, {1, 1}}}
	p.put(w)
	slice(w, y/16-1, 8)
	if sym.Choice("rubbish", 2) == 1 {
		rubbish(w, width(8, 12))
	} else {
		m := &mb{typ: mbFwd}
		if sym.Choice("intra", 2) == 1 {
			m.typ = mbIntra
		}
		m.put(w, p)
		if x > 32 {
			m.inc = 2
		}
		m.put(w, p)
		w.Align()
		seqEnd(w)
	}
	defer unsupported()
	d := decoder(w.B)
	errs := 0
	for i := 0; i < 8 && errs < 3; i++ {
		f, err := d.Next()
		sym.Assert((f == nil) == (err != nil), "a frame or an error")
		if err != nil {
			errs++
		}
	}
	sym.Assert(errs == 3, "the stream comes to an end")
	sym.Observe("errs", uint64(errs))
	sym.Reach("survived")
}

// V15: a stream that ends early.
// sym:bounds a stream of an I, a P and a B picture of 2x1 macroblocks with symbolic levels and vectors, cut after any byte, the last byte kept symbolic
// sym:timeout 300
func H_V15_cut() {
	w := &hx.W{}
	(&seqHdr{w: 32, h: 16}).put(w)
	gop(w)
	small(w, &pic{typ: 1}, func() {})
	small(w, &pic{typ: 2, tref: 2, fcode: [2][2]uint64{{1, 1}}}, func() {})
	p := &pic{typ: 3, tref: 1, fcode: [2][2]uint64{{1, 1}, {1, 1}}}
	p.put(w)
	slice(w, 0, 8)
	m := &mb{typ: mbFwd | mbBwd | mbPattern, cbp: 33}
	m.put(w, p)
	m.put(w, p)
	seqEnd(w)
	n := sym.Choice("cut", 160)
	if n >= len(w.B) {
		sym.Stop()
	}
	b := w.B[:n]
	if n > 0 {
		b[n-1] = sym.U8("last")
	}
	survive(b, 32, 16)
}

// full is a stream of an I and a P picture with everything in front of them
// that is supported. put is called before (and instead of, if it returns true)
// each element.
func full(w *hx.W, put func(n int) bool) {
	n := 0
	el := func(f func()) {
		if !put(n) {
			f()
		}
		n++
	}
	s := &seqHdr{w: 32, h: 16}
	el(func() { s.putHeader(w) })
	el(func() {
		w.Start(0xb5).Put(1, 4).Put(0x44, 8).Put(0, 1).Put(1, 2).Put(0, 4).Put(0, 12).Put(1, 1).Put(0, 16)
		w.Align()
	})
	el(func() { seqDisplay(w, true) })
	el(func() { gop(w) })
	p := &pic{typ: 1}
	el(func() { p.putHeader(w) })
	el(func() { p.putExt(w) })
	el(func() {
		w.Start(0xb5).Put(3, 4).Put(1, 1).Bytes(pattern(64, 3))
		w.Put(0, 3).Align()
	})
	el(func() { userData(w, []byte{1, 2, 3}) })
	flatData(w, p, 2, 1, [3]int{3, 4, -5})
	q := &pic{typ: 2, tref: 1, fcode: [2][2]uint64{{1, 1}}}
	el(func() { q.putHeader(w) })
	el(func() { q.putExt(w) })
	slice(w, 0, 8)
	(&mb{typ: mbFwd}).put(w, q)
	(&mb{typ: mbFwd}).put(w, q)
	w.Align()
	el(func() { seqEnd(w) })
}

const fullElements = 11

// again decodes b: after an error it goes on, either at once or from the next
// start code of some kind.
func again(b []byte, w, h int) {
	defer unsupported()
	d := decoder(b)
	how := sym.Choice("how", 4)
	errs := 0
	for i := 0; i < 16; i++ {
		f, err := d.Next()
		sym.Assert((f == nil) == (err != nil), "a frame or an error")
		if err == nil {
			sym.Assert(f.Rect.Dx() == w && f.Rect.Dy() == h, "frames have the size of the sequence")
			continue
		}
		if errs++; errs == 3 {
			break
		}
		if how > 0 {
			d.AlignTo([]video.StartCode{0, video.SequenceHeaderStartCode, video.PictureStartCode, video.GroupStartCode}[how])
		}
	}
	sym.Assert(errs == 3, "the stream comes to an end")
	sym.Reach("survived")
	sym.Observe("errs", uint64(errs))
}

// V16: rubbish for a start code.
// sym:bounds a stream of an I and a P picture with sequence display extension, group header, quantiser matrix extension and user data: any of its 11 headers preceded by, or replaced by, a start code of any last byte and 0 to 2 symbolic bytes (extension ids included); decoding goes on after errors, at once or from the next sequence, group or picture start code
// sym:timeout 300
// sym:steps 30000000
func H_V16_start() {
	w := &hx.W{}
	place := sym.Choice("place", fullElements)
	instead := sym.Choice("instead", 2) == 1
	full(w, func(n int) bool {
		if n != place {
			return false
		}
		w.Align()
		w.Put(1, 24).Bytes([]byte{sym.U8("code")})
		w.Bytes(sym.Bytes("b", sym.Choice("n", 3)))
		return instead
	})
	again(w.B, 32, 16)
}

// V16: rubbish in a header.
// sym:bounds the same stream with one header's contents symbolic behind its start code (extension id kept): group header, picture header of either picture, picture coding extension of either picture, sequence display extension, and the sequence extension without its size bits; 4 to 9 bytes; forward f_codes 0, 1, 2, 9, 10 or 15
// sym:timeout 300
// sym:steps 30000000
func H_V16_contents() {
	w := &hx.W{}
	place := []int{1, 2, 3, 4, 5, 8, 9}[sym.Choice("place", 7)]
	full(w, func(n int) bool {
		if n != place {
			return false
		}
		switch n {
		case 1:
			w.Start(0xb5).Put(1, 4).Put(sym.Bits("profile", 8), 8).Put(sym.Bits("x", 3), 3).Put(0, 4).Put(sym.Bits("y", 29), 29).Align()
		case 2:
			w.Start(0xb5).Put(2, 4).Bytes(sym.Bytes("x", sym.Choice("n", 10)))
		case 3:
			w.Start(0xb8).Bytes(sym.Bytes("x", sym.Choice("n", 5)))
		case 4, 8:
			w.Start(0x00).Bytes(sym.Bytes("x", 3+sym.Choice("n", 5)))
		case 5, 9:
			w.Start(0xb5).Put(8, 4)
			f := []uint64{0, 1, 2, 9, 10, 15}[sym.Choice("f", 6)]
			w.Put(f, 4).Put(f, 4).Put(1, 8)
			w.Put(uint64(sym.Concrete(int(sym.Bits("precision", 2)))), 2).Put(sym.Bits("x", 13), 13)
			c := sym.Choice("composite", 2)
			w.Put(uint64(c), 1)
			if c == 1 {
				w.Put(sym.Bits("y", 20), 20)
			}
		}
		w.Align()
		return true
	})
	again(w.B, 32, 16)
}

// V16: headers left out.
// sym:bounds the same stream without any subset of its headers (of at most two in quick), temporal references symbolic; decoding goes on after errors
// sym:timeout 300
// sym:timeout-thorough 3000
// sym:steps 30000000
func H_V16_missing() {
	w := &hx.W{}
	out := 0
	full(w, func(n int) bool {
		if (out < 2 || sym.Thorough()) && sym.Choice("out", 2) == 1 {
			out++
			return true
		}
		if n == 4 || n == 8 {
			p := &pic{typ: uint64(1 + n/8)}
			p.tref = uint64(sym.Bits("tref", 10))
			p.putHeader(w)
			return true
		}
		return false
	})
	again(w.B, 32, 16)
}

// V16: headers in any order.
// sym:bounds three (four in thorough) elements out of nine kinds (sequence header with and without extension, sequence display extension, quantiser matrix extension, group header, user data, picture header, picture coding extension, slice, sequence end) in any order and number, then a valid sequence of one picture
// sym:timeout 300
// sym:timeout-thorough 3000
// sym:steps 30000000
func H_V16_order() {
	w := &hx.W{}
	s := &seqHdr{w: 16, h: 16}
	p := &pic{typ: 1}
	for n := 0; n < width(3, 4); n++ {
		switch sym.Choice("element", 10) {
		case 0:
			s.putHeader(w)
		case 1:
			s.put(w)
		case 2:
			seqDisplay(w, true)
		case 3:
			w.Start(0xb5).Put(3, 4).Put(1, 1).Bytes(pattern(64, 3))
			w.Put(0, 3).Align()
		case 4:
			putGop(w, 1<<12, sym.Bool("closed"), sym.Bool("broken"))
		case 5:
			userData(w, []byte{1, 2, 3})
		case 6:
			p.typ, p.tref = uint64(1+sym.Choice("typ", 3)), sym.Bits("tref", 10)
			p.putHeader(w)
		case 7:
			p.putExt(w)
		case 8:
			flatData(w, p, 1, 1, [3]int{3, 4, -5})
		case 9:
			seqEnd(w)
		}
		w.Align()
	}
	s.put(w)
	gop(w)
	p.typ, p.tref = 1, 0
	p.put(w)
	flatData(w, p, 1, 1, [3]int{3, 4, -5})
	seqEnd(w)
	again(w.B, 16, 16)
}

// V16: a stream that ends within its headers.
// sym:bounds the same stream cut after any byte, the last byte symbolic
// sym:timeout 300
func H_V16_cut() {
	w := &hx.W{}
	full(w, func(n int) bool { return false })
	n := sym.Choice("cut", 220)
	if n >= len(w.B) {
		sym.Stop()
	}
	b := w.B[:n]
	if n > 0 {
		b[n-1] = sym.U8("last")
	}
	again(b, 32, 16)
}

// V16: any sequence header.
// sym:bounds 8 symbolic bytes behind the sequence header start code (every size and both matrix flags), the matrices of constant bytes, any sequence extension of 6 bytes behind it, cut after any byte
// sym:timeout 300
func H_V16_sequence() {
	w := &hx.W{}
	h := sym.Bytes("h", 8)
	w.Start(0xb3).Bytes(h)
	if h[7]&2 != 0 {
		w.Bytes(pattern(63, 1)).Bytes([]byte{sym.U8("flag")})
	}
	if w.B[len(w.B)-1]&1 != 0 {
		w.Bytes(pattern(64, 2))
	}
	w.Start(0xb5).Bytes(sym.Bytes("e", 6))
	n := len(w.B)
	k := sym.Choice("cut", 28)
	switch {
	case k < 14:
		n = k
	case k < 26:
		n -= k - 14
	}
	if n < 0 {
		sym.Stop()
	}
	if k == 27 {
		gop(w)
		seqEnd(w)
		n = len(w.B)
	}
	again(w.B[:n], 32, 16)
}
