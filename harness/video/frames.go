package videoh

import (
	"image"

	"github.com/32bitkid/mpeg/video"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// A flat intra picture: every macroblock of 16x16 (or wider) pictures has the
// level of one DC difference.
func flatPic(w *hx.W, p *pic, mbw, mbh int, diff [3]int) {
	p.put(w)
	flatData(w, p, mbw, mbh, diff)
}

func flatData(w *hx.W, p *pic, mbw, mbh int, diff [3]int) {
	for r := 0; r < mbh; r++ {
		slice(w, r, 4)
		for c := 0; c < mbw; c++ {
			w.Bits("1")
			d := diff
			if c > 0 {
				d = [3]int{}
			}
			p.flat(w, d)
		}
		w.Align()
	}
}

func isFlat(f *image.YCbCr, y, cb, cr byte) bool {
	ok := true
	for _, v := range f.Y {
		ok = sym.And(ok, v == y)
	}
	for _, v := range f.Cb {
		ok = sym.And(ok, v == cb)
	}
	for _, v := range f.Cr {
		ok = sym.And(ok, v == cr)
	}
	return ok
}

// level codes an intra macroblock that is flat: luma at the level the six
// symbolic bits lv stand for, chroma at 128.
func (p *pic) level(w *hx.W, lv uint64) {
	switch p.typ {
	case 1:
		w.Bits("1")
	default:
		w.Bits("00011")
	}
	for i := 0; i < 6; i++ {
		switch {
		case i == 0:
			w.Bits(dcLuma[6]).Put(lv, 6)
		case i < 4:
			w.Bits(dcLuma[0])
		default:
			w.Bits(dcChroma[0])
		}
		p.eob(w)
	}
}

// levelOf is the sample value coded by the six bits.
func levelOf(lv uint64) byte { return sym.Ite8(lv >= 32, byte(128+lv), byte(65+lv)) }

func levelPic(w *hx.W, tref, typ uint64, lv uint64) {
	p := &pic{tref: tref & 1023, typ: typ}
	p.put(w)
	slice(w, 0, 4)
	w.Bits("1")
	p.level(w, lv)
	w.Align()
}

func allEq(b []byte, v byte) bool {
	ok := true
	for _, x := range b {
		ok = sym.And(ok, x == v)
	}
	return ok
}

// coded is one coded picture of an arrangement.
type coded struct {
	gop  bool
	disp int // display position
	tref int
	typ  uint64
	lv   uint64
}

// arrange makes an arrangement of groups: each group has anchors (the first an
// I picture) with runs of B pictures displayed before them. It returns the
// pictures in coded order.
func arrange(groups, anchors, maxB int, gopHeaders, lead bool) []coded {
	var out []coded
	base, t := 0, 0
	for g := 0; g < groups; g++ {
		if gopHeaders {
			t = 0
		}
		na := 1 + sym.Choice("anchors", anchors)
		for a := 0; a < na; a++ {
			nb := 0
			if lead || g+a > 0 {
				nb = sym.Choice("b", maxB+1)
			}
			typ := uint64(2)
			if a == 0 {
				typ = 1
			} else if sym.Choice("typ", 2) == 1 {
				typ = 1
			}
			out = append(out, coded{gop: gopHeaders && a == 0, disp: base + nb, tref: t + nb, typ: typ})
			for i := 0; i < nb; i++ {
				out = append(out, coded{disp: base + i, tref: t + i, typ: 3})
			}
			base += nb + 1
			t += nb + 1
		}
	}
	return out
}

// repeat picks the picture a repeated sequence header goes before, or none.
func repeat(pics []coded) int {
	at := []int{-1}
	for i := range pics {
		if i > 0 && pics[i].typ != 3 {
			at = append(at, i)
		}
	}
	return at[sym.Choice("again", len(at))]
}

// leads tells whether B pictures are displayed before the I picture i.
func leads(pics []coded, i int) bool { return i+1 < len(pics) && pics[i+1].typ == 3 }

// group is a group header before picture i.
func group(w *hx.W, pics []coded, i int, closed uint64) {
	w.Start(0xb8).Put(0, 12).Put(1, 1).Put(sym.Bits("tc", 5), 12).Put(closed, 1)
	if leads(pics, i) {
		w.Put(0, 1)
	} else {
		w.Put(sym.Bits("broken", 1), 1)
	}
	w.Align()
}

// V12: every arrangement.
// sym:bounds up to 2 groups (3 in thorough) of 1 or 2 anchor pictures (I, or I or P after the first), each preceded by 0 to 2 B pictures (the first too) (0 or 1 in thorough with 3 groups); with group headers (symbolic closed flag, and broken flag where no B picture leads) before every group, or only for the first, or none; a repeated sequence header before any one of the I and P pictures (and its group header) or not; every picture of a symbolic level
func H_V12_order() {
	groups, maxB := 2, 2
	if sym.Thorough() {
		groups, maxB = 3, 1
	}
	hdrs := sym.Choice("headers", 3)
	pics := arrange(1+sym.Choice("groups", groups), 2, maxB, hdrs == 0, true)
	w := &hx.W{}
	s := &seqHdr{w: 16, h: 16}
	s.put(w)
	again := repeat(pics)
	want := make([]byte, len(pics))
	for i := range pics {
		p := &pics[i]
		if i == again {
			s.put(w)
		}
		if p.gop || (i == 0 && hdrs == 1) {
			group(w, pics, i, sym.Bits("closed", 1))
		}
		p.lv = sym.Bits("lv", 6)
		levelPic(w, uint64(p.tref), p.typ, p.lv)
		want[p.disp] = levelOf(p.lv)
	}
	seqEnd(w)
	d := decoder(w.B)
	var frames []*image.YCbCr
	for range want {
		f, err := d.Next()
		sym.Assert(err == nil && f != nil, "a frame for every picture")
		if f == nil {
			return
		}
		sym.Assert(allEq(f.Y, want[len(frames)]), "frames in display order")
		frames = append(frames, f)
	}
	_, err := d.Next()
	sym.Assert(err == video.EOS, "then the end of the sequence")
	for i, f := range frames {
		sym.Assert(len(f.Y) == 256 && len(f.Cb) == 64 && len(f.Cr) == 64, "complete frames")
		sym.Assert(allEq(f.Y, want[i]) && allEq(f.Cb, 128) && allEq(f.Cr, 128), "returned frames stay as they were returned")
	}
	sym.Reach("end")
}

// V12: temporal references that wrap.
// sym:bounds one group (with a header, or a sequence with none) of 1022 one-macroblock I pictures followed by two anchors preceded by 0 to 3 and 0 to 2 B pictures, so that the wrap at 1024 falls on or between any of them; symbolic levels after the first 1022
// sym:steps 200000000
// sym:timeout 400
func H_V12_wrap() {
	w := &hx.W{}
	s := &seqHdr{w: 16, h: 16}
	s.put(w)
	if sym.Choice("gop", 2) == 1 {
		gop(w)
	}
	const base = 1022
	for i := 0; i < base; i++ {
		p := &pic{tref: uint64(i), typ: 1}
		p.put(w)
		slice(w, 0, 4)
		w.Bits("1")
		p.flat(w, [3]int{i%64 - 32, 0, 0})
		w.Align()
	}
	pos := base
	want := map[int]byte{}
	add := func(at int, typ uint64) {
		lv := sym.Bits("lv", 6)
		levelPic(w, uint64(at), typ, lv)
		want[at] = levelOf(lv)
	}
	for a := 0; a < 2; a++ {
		nb := sym.Choice("b", 4-a)
		add(pos+nb, uint64(1+a))
		for i := 0; i < nb; i++ {
			add(pos+i, 3)
		}
		pos += nb + 1
	}
	seqEnd(w)
	d := decoder(w.B)
	var held []*image.YCbCr
	for i := 0; i < pos; i++ {
		f, err := d.Next()
		sym.Assert(err == nil && f != nil, "a frame for every picture")
		if f == nil {
			return
		}
		held = append(held, f)
		if i < base {
			sym.Assert(f.Y[0] == byte(128+i%64-32), "frames in display order")
		} else {
			sym.Assert(allEq(f.Y, want[i]), "frames in display order after the wrap")
		}
	}
	_, err := d.Next()
	sym.Assert(err == video.EOS, "then the end of the sequence")
	for i, f := range held {
		if i < base {
			sym.Assert(f.Y[0] == byte(128+i%64-32), "a frame returned before stays as it was")
		} else {
			sym.Assert(allEq(f.Y, want[i]), "a frame returned before stays as it was")
		}
	}
	sym.Reach("end")
}

// putMotion codes a concrete vector difference for an f_code.
func putMotion(w *hx.W, diff int, fcode uint) {
	r := fcode - 1
	if diff == 0 {
		w.Bits("1")
		return
	}
	a := diff
	if a < 0 {
		a = -a
	}
	a--
	w.Bits(motionCodes[a>>r+1])
	w.Flag(diff < 0)
	w.Put(uint64(a&(1<<r-1)), int(r))
}

// motionCodes without their sign bit, by magnitude.
var motionCodes = [17]string{"1", "01", "001", "0001", "000011", "0000101", "0000100", "0000011",
	"000001011", "000001010", "000001001", "0000010001", "0000010000", "0000001111", "0000001110", "0000001101", "0000001100"}

// refPic is a picture of three macroblocks: an intra one of its own level, and
// two that show, by zero residual and a vector to the left, the level of the
// picture they are predicted from.
func refPic(w *hx.W, c *coded, fwd bool) {
	p := &pic{tref: uint64(c.tref & 1023), typ: c.typ, fcode: [2][2]uint64{{3, 3}, {3, 3}}}
	if c.typ == 1 {
		p.fcode = [2][2]uint64{}
	}
	p.put(w)
	slice(w, 0, 4)
	w.Bits("1")
	p.level(w, c.lv)
	for i := 1; i < 3; i++ {
		w.Bits("1")
		switch {
		case c.typ == 1 || c.typ == 3 && i == 1 && !fwd:
			p.flat(w, [3]int{})
		case c.typ == 2:
			w.Bits("001")
			putMotion(w, -32, 3)
			putMotion(w, 0, 3)
		case i == 1:
			w.Bits("0010")
			putMotion(w, -32, 3)
			putMotion(w, 0, 3)
		default:
			w.Bits("010")
			putMotion(w, -64, 3)
			putMotion(w, 0, 3)
		}
	}
	w.Align()
}

// wantRef checks a picture of refPic.
func wantRef(f *image.YCbCr, c *coded, past, future *coded, fwd bool) {
	v := [3]byte{levelOf(c.lv)}
	if past != nil {
		v[1] = levelOf(past.lv)
	}
	switch c.typ {
	case 1:
		return
	case 2:
		v[2] = v[1]
	case 3:
		v[2] = levelOf(future.lv)
		if !fwd {
			v[1] = v[0] // not checked below
		}
	}
	ok := true
	for y := 0; y < 16; y++ {
		for x := 16; x < 48; x++ {
			if x < 32 && c.typ == 3 && !fwd {
				continue
			}
			ok = sym.And(ok, f.Y[y*f.YStride+x] == v[x/16])
		}
	}
	if c.typ == 2 {
		sym.Assert(ok, "a P picture predicts from the last decoded I or P picture")
	} else {
		sym.Assert(ok, "a B picture predicts forward from the earlier and backward from the later of the last two I or P pictures")
	}
}

// V13: every arrangement.
// sym:bounds the arrangements of V12 over pictures of three macroblocks: one of its own symbolic level, the others predicted by vectors of -16 or -32 samples; B pictures displayed before the first I picture, or in a closed group before its I picture, predict backward only
func H_V13_refs() {
	groups, maxB := 2, 2
	if sym.Thorough() {
		groups, maxB = 3, 1
	}
	hdrs := sym.Choice("headers", 3)
	pics := arrange(1+sym.Choice("groups", groups), 2, maxB, hdrs == 0, true)
	again := -1
	if sym.Thorough() {
		again = repeat(pics)
	} else if n := len(pics); sym.Choice("repeat", 2) == 1 {
		// before the last I or P picture
		for again = n - 1; pics[again].typ == 3; again-- {
		}
		if again == 0 {
			sym.Stop()
		}
	}
	checkRefs(nil, pics, func(w *hx.W, i int) (closed bool) {
		if i == again {
			(&seqHdr{w: 48, h: 16}).put(w)
		}
		if pics[i].gop || (i == 0 && hdrs == 1) {
			c := uint64(1)
			if i > 0 && !leads(pics, i) {
				c = sym.Bits("closed", 1)
			} else if i > 0 && sym.Choice("open", 2) == 1 {
				c = 0
			} else {
				closed = true
			}
			group(w, pics, i, c)
		}
		return
	}, 0)
}

func checkRefs(w *hx.W, pics []coded, before func(w *hx.W, i int) bool, skip int) {
	if w == nil {
		w = &hx.W{}
		s := &seqHdr{w: 48, h: 16}
		s.put(w)
	}
	past := make([]*coded, len(pics))
	future := make([]*coded, len(pics))
	at := make([]int, len(pics))
	var a, b *coded // last two anchors
	closed := false // B pictures predict backward only
	for i := range pics {
		p := &pics[i]
		if before(w, i) {
			closed = true
		}
		p.lv = sym.Bits("lv", 6)
		at[p.disp-skip] = i
		if p.typ == 3 {
			future[i] = b
			if !closed {
				past[i] = a
			}
			refPic(w, p, past[i] != nil)
			continue
		}
		if i > 0 && !pics[i].gop {
			closed = false
		}
		past[i] = b
		refPic(w, p, true)
		a, b = b, p
	}
	seqEnd(w)
	d := decoder(w.B)
	for i := 0; i < skip; i++ {
		_, err := d.Next()
		sym.Assert(err == nil, "decodes")
		if err != nil {
			return
		}
	}
	for _, i := range at {
		f, err := d.Next()
		sym.Assert(err == nil && f != nil, "decodes")
		if f == nil {
			return
		}
		wantRef(f, &pics[i], past[i], future[i], past[i] != nil)
		sym.Observe("y", uint64(f.Y[16]))
	}
	sym.Reach("end")
}

// V13: references on both sides of a wrap of the temporal reference.
// sym:bounds one group of 1022 pictures, then two anchors preceded by 0 to 3 and 0 to 2 B pictures
// sym:steps 400000000
// sym:timeout 400
func H_V13_wrap() {
	w := &hx.W{}
	s := &seqHdr{w: 48, h: 16}
	s.put(w)
	gop(w)
	const base = 1022
	for i := 0; i < base-1; i++ {
		p := &pic{tref: uint64(i), typ: 1}
		p.put(w)
		slice(w, 0, 4)
		w.Bits("1")
		p.flat(w, [3]int{i%64 - 32, 0, 0})
		w.Align()
	}
	pics := []coded{{disp: base - 1, tref: base - 1, typ: 1}}
	pos := base
	for a := 0; a < 2; a++ {
		nb := sym.Choice("b", 4-a)
		pics = append(pics, coded{disp: pos + nb, tref: pos + nb, typ: 2})
		for i := 0; i < nb; i++ {
			pics = append(pics, coded{disp: pos + i, tref: pos + i, typ: 3})
		}
		pos += nb + 1
	}
	checkRefs(w, pics, func(*hx.W, int) bool { return false }, base-1)
}

// V13: long runs of B pictures.
// sym:bounds two groups (the second open, closed or without a header), the first's I picture preceded by 0, 12 or 50 B pictures, the second's I picture preceded by 3 to 17 or 40 B pictures, then another two before a P picture
// sym:steps 200000000
func H_V13_many() {
	var pics []coded
	h := sym.Choice("header", 3)
	add := func(n int, typ uint64, g bool, t int) {
		base := len(pics)
		pics = append(pics, coded{gop: g, disp: base + n, tref: t + n, typ: typ})
		for i := 0; i < n; i++ {
			pics = append(pics, coded{disp: base + i, tref: t + i, typ: 3})
		}
	}
	n := 3 + sym.Choice("n", 16)
	if n == 18 {
		n = 40
	}
	// the first group, its I picture displayed last
	t := []int{0, 12, 50}[sym.Choice("first", 3)]
	add(t, 1, true, 0)
	t++
	if h < 2 {
		t = 0
	}
	add(n, 1, h < 2, t)
	add(2, 2, false, t+n+1)
	checkRefs(nil, pics, func(w *hx.W, i int) bool {
		if pics[i].gop {
			c := uint64(1)
			if i > 0 && h == 0 {
				c = 0
			}
			group(w, pics, i, c)
			return c == 1
		}
		return false
	}, 0)
}

// V13: the longest run of B pictures the temporal references can order.
// sym:bounds an I picture, then a P picture preceded by 510 B pictures (the longest run whose temporal references, of ten bits, tell the earlier reference from the later; beyond it the decoder takes the earlier reference for the later one)
// sym:steps 400000000
// sym:timeout 200
func H_V13_far() {
	const n = 510
	pics := []coded{{gop: true, typ: 1}, {disp: n + 1, tref: n + 1, typ: 2}}
	for i := 0; i < n; i++ {
		pics = append(pics, coded{disp: 1 + i, tref: 1 + i, typ: 3})
	}
	checkRefs(nil, pics, func(w *hx.W, i int) bool {
		if pics[i].gop {
			group(w, pics, i, 1)
		}
		return i == 0
	}, 0)
}
