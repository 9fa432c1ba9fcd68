package videoh

import (
	"errors"
	"image"
	"io"

	"github.com/32bitkid/mpeg/video"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// putResidual is a macroblock's residual of symbolic sign.
func putResidual(w *hx.W, i int) {
	w.Bits("000001").Put(uint64(i), 6)
	s := sym.Bits("s", 1)
	for j := 0; j < 10; j++ {
		w.Put(s, 1)
	}
	w.Put(3, 2)
}

// shot puts one picture of mbw x mbh macroblocks: an I picture of symbolic DC
// differences, or one predicted (forward, backward, both) with a residual.
func shot(w *hx.W, tref uint64, typ uint64, kind, mbw, mbh int, qm []byte) {
	p := &pic{tref: tref, typ: typ, fcode: [2][2]uint64{{1, 1}, {1, 1}}}
	if typ == 1 {
		p.fcode = [2][2]uint64{}
	}
	p.put(w)
	if qm != nil {
		w.Start(0xb5).Put(3, 4).Put(1, 1).Bytes(qm).Put(1, 1).Bytes(qm).Put(0, 2).Align()
	}
	for y := 0; y < mbh; y++ {
		slice(w, y, 5)
		for x := 0; x < mbw; x++ {
			m := &mb{typ: kind, cbp: 32, res: func(w *hx.W, i int) {
				if kind == mbIntra {
					if i == 0 || i == 5 {
						putDiff(w, i >= 4, 3, "dc")
					} else {
						putDC(w, i >= 4, 0)
					}
					if i != 0 {
						return
					}
				}
				putResidual(w, i)
			}}
			m.put(w, p)
		}
		w.Align()
	}
}

// sequence puts a whole sequence: one of four arrangements of up to four
// pictures, with or without a group header. It returns the number of pictures.
func sequence(w *hx.W, s *seqHdr, hdr bool, arr int) int {
	mbw, mbh := int(s.w+15)/16, int(s.h+15)/16
	s.put(w)
	if hdr {
		gop(w)
	}
	put := func(tref, typ uint64, kind int) { shot(w, tref, typ, kind, mbw, mbh, s.qm); s.qm = nil }
	n := 0
	switch arr {
	case 0:
		put(0, 1, mbIntra)
		n = 1
	case 1:
		put(0, 1, mbIntra)
		put(1, 2, mbFwd|mbPattern)
		n = 2
	case 2:
		put(0, 1, mbIntra)
		put(3, 2, mbFwd|mbPattern)
		put(1, 3, mbFwd|mbBwd|mbPattern)
		put(2, 3, mbBwd|mbPattern)
		n = 4
	case 3:
		put(1, 1, mbIntra)
		put(0, 3, mbBwd|mbPattern)
		put(2, 2, mbFwd|mbPattern)
		n = 3
	case 4:
		put(0, 1, mbIntra)
		put(1, 1, mbIntra)
		n = 2
	}
	seqEnd(w)
	return n
}

// all decodes until an error.
func all(d *video.VideoSequence, max int) (out []*image.YCbCr, err error) {
	for i := 0; i <= max; i++ {
		f, e := d.Next()
		if e != nil {
			return out, e
		}
		out = append(out, f)
	}
	return
}

// V17: many sequences.
// sym:bounds seven sequences of the five arrangements in two orders, of 1x1, 2x1 and 1x2 macroblocks, every second with a group header, every third with matrices of its own; 0 or 2 zero bytes between them
// sym:steps 100000000
// sym:timeout 300
func H_V17_many() {
	const n = 7
	w := &hx.W{}
	var parts [][]byte
	var count []int
	zeros := 2 * sym.Choice("zeros", 2)
	step := 1 + sym.Choice("step", 2)
	for k := 0; k < n; k++ {
		one := &hx.W{}
		s := &seqHdr{w: 16, h: 16}
		switch k * step % 4 {
		case 1:
			s.w = 32
		case 3:
			s.h = 32
		}
		if k%3 == 1 {
			s.intra, s.nonIntra = pattern(64, 3+k), pattern(64, 9+k)
		}
		count = append(count, sequence(one, s, k%2 == 1, k*step%5))
		parts = append(parts, one.B)
		if k > 0 {
			w.Bytes(make([]byte, zeros))
		}
		w.Bytes(one.B)
	}
	d := decoder(w.B)
	for k := 0; k < n; k++ {
		want, err := all(decoder(parts[k]), 8)
		sym.Assert(err == video.EOS && len(want) == count[k], "a sequence by itself: every picture, then its end")
		got, err := all(d, 8)
		sym.Assert(err == video.EOS, "the end of each sequence is reported")
		sym.Assert(len(got) == len(want), "every picture of every sequence")
		if len(got) != len(want) {
			return
		}
		for i := range got {
			sym.Assert(sameImage(got[i], want[i]), "a sequence decodes as if it were alone")
		}
	}
	sym.Reach("end")
}

// V17: one sequence after another.
// sym:bounds two sequences (three in thorough) of five arrangements of 1 to 4 pictures of 1x1, 2x1 or 1x2 macroblocks (I of symbolic DC differences, P and B with residuals of symbolic sign), each with or without a group header, the first with matrices loaded in its header, in an extension of its first picture, or not at all; 0 or 2 zero bytes between a sequence end code and the next sequence header
// sym:steps 100000000
// sym:timeout 300
func H_V17_sequences() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	w := &hx.W{}
	var parts [][]byte
	var count []int
	zeros := 2 * sym.Choice("zeros", 2)
	for k := 0; k < n; k++ {
		one := &hx.W{}
		s := &seqHdr{w: 16, h: 16}
		c := 0
		if k == 1 {
			c = sym.Choice("size", 3)
		} else {
			c = sym.Choice("matrix", 3) * 2
		}
		switch c {
		case 1:
			s.w = 32
		case 2:
			if k == 1 {
				s.h = 32
			} else {
				s.intra, s.nonIntra = pattern(64, 3), pattern(64, 9)
			}
		case 4:
			s.qm = pattern(64, 5)
		}
		hdr := sym.Choice("headers", 2) == 1
		m := 5
		if k == 2 {
			m = 3
		}
		count = append(count, sequence(one, s, hdr, sym.Choice("arrangement", m)))
		parts = append(parts, one.B)
		if k > 0 {
			for i := 0; i < zeros; i++ {
				w.Put(0, 8)
			}
		}
		w.Bytes(one.B)
	}
	wants := make([][]*image.YCbCr, n)
	for k := n - 1; k >= 0; k-- { // those with matrices of their own last
		want, err := all(decoder(parts[k]), 8)
		sym.Assert(err == video.EOS && len(want) == count[k], "a sequence by itself: every picture, then its end")
		wants[k] = want
	}
	d := decoder(w.B)
	for _, want := range wants {
		got, err := all(d, 8)
		sym.Assert(err == video.EOS, "the end of each sequence is reported")
		sym.Assert(len(got) == len(want), "every picture of every sequence")
		if len(got) != len(want) {
			return
		}
		for i := range got {
			sym.Assert(sameImage(got[i], want[i]), "a sequence decodes as if it were alone")
		}
		if len(got) > 0 {
			sym.Observe("y", uint64(got[len(got)-1].Y[0]))
		}
	}
	f, err := d.Next()
	sym.Assert(f == nil && err != nil && err != video.EOS, "nothing after the last sequence")
	sym.Reach("end")
}

// stutter hands out its bytes in chunks of the given sizes in turn (0: a read
// that returns nothing), then fails with err.
type stutter struct {
	b     []byte
	sizes []int
	i     int
	err   error
}

func (s *stutter) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := min(len(p), len(s.b), s.sizes[s.i%len(s.sizes)])
	s.i++
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

var errSource = errors.New("source failed")

// V18: the way the source hands out its bytes.
// sym:bounds sequences of five arrangements of 1 to 4 pictures with symbolic contents, with user data and loaded matrices or not; sources that hand out 1, 2, 3, 5 or 7 bytes at a time, or 1, 0 and 4 in turn
func H_V18_chunks() {
	w := &hx.W{}
	s := &seqHdr{w: 32, h: 16}
	if sym.Choice("matrix", 2) == 1 {
		s.intra = pattern(64, 3)
	}
	n := sequence(w, s, sym.Choice("headers", 2) == 1, sym.Choice("arrangement", 5))
	sizes := [][]int{{1}, {2}, {3}, {5}, {7}, {1, 0, 4}}[sym.Choice("sizes", 6)]
	want, err := all(decoder(w.B), 8)
	sym.Assert(err == video.EOS && len(want) == n, "decodes")
	got, err := all(video.NewVideoSequence(&stutter{b: w.B, sizes: sizes, err: io.EOF}), 8)
	sym.Assert(err == video.EOS && len(got) == len(want), "the same frames and end, however the source hands out its bytes")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		sym.Assert(sameImage(got[i], want[i]), "the same samples, however the source hands out its bytes")
	}
	sym.Observe("y", uint64(got[0].Y[0]))
	sym.Reach("end")
}

// V17: a sequence whose first pictures lack their references.
// sym:bounds a sequence of five arrangements of 16x16 pictures, then one that begins with a P picture, a B picture of any prediction, or an I picture followed by a B picture that predicts from a later one; macroblocks with vector and residual of symbolic sign, or skipped after the first; with or without a group header
// sym:timeout 300
func H_V17_dangling() {
	a, b := &hx.W{}, &hx.W{}
	sequence(a, &seqHdr{w: 32, h: 16}, sym.Choice("headers", 2) == 1, sym.Choice("arrangement", 5))
	(&seqHdr{w: 32, h: 16}).put(b)
	if sym.Choice("group", 2) == 1 {
		gop(b)
	}
	kind := sym.Choice("kind", 6)
	typ := uint64(3)
	dir := mbBwd
	switch kind {
	case 0, 1:
		typ, dir = 2, mbFwd
	case 2:
		dir = mbFwd
	case 4:
		dir = mbFwd | mbBwd
	case 5:
		shot(b, 0, 1, mbIntra, 2, 1, nil)
	}
	p := &pic{tref: 1, typ: typ, fcode: [2][2]uint64{{1, 1}, {1, 1}}}
	p.put(b)
	slice(b, 0, 5)
	m := &mb{typ: dir | mbPattern, cbp: 32, res: putResidual}
	m.put(b, p)
	m.put(b, p)
	b.Align()
	seqEnd(b)
	want, werr := all(decoder(b.B), 4)
	d := decoder(append(a.B, b.B...))
	_, err := all(d, 8)
	sym.Assert(err == video.EOS, "the first sequence decodes")
	got, gerr := all(d, 4)
	sym.Assert(gerr == werr, "decoding ends as if the sequence were alone")
	sym.Assert(len(got) == len(want), "the pictures of the sequence alone")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		sym.Assert(sameImage(got[i], want[i]), "a sequence decodes as if it were alone")
	}
	sym.Reach("end")
}

// V18: a source that fails.
// sym:bounds the same sequences of 16x16 pictures from a source that fails with an error of its own after any byte
// sym:timeout 300
func H_V18_fails() {
	w := &hx.W{}
	arr := 1 + sym.Choice("arrangement", 4)
	n := sequence(w, &seqHdr{w: 16, h: 16}, arr != 1, arr)
	want, err := all(decoder(w.B), 8)
	sym.Assert(err == video.EOS && len(want) == n, "decodes")
	cut := sym.Choice("cut", len(w.B))
	// the pictures that are complete, with the start code that follows
	whole := 0
	for i, seen := 0, -1; i+4 <= cut; i++ {
		if w.B[i] == 0 && w.B[i+1] == 0 && w.B[i+2] == 1 && (w.B[i+3] == 0 || w.B[i+3] == 0xb7) {
			seen++
			whole = seen
		}
	}
	// coded order to display order
	atleast := [][]int{nil, {0, 1, 2}, {0, 1, 1, 2, 4}, {0, 0, 2, 3}, {0, 1, 2}}[arr][max(whole, 0)]
	d := video.NewVideoSequence(&stutter{b: w.B[:cut], sizes: []int{1 + 63*sym.Choice("big", 2)}, err: errSource})
	got, err := all(d, 8)
	sym.Assert(errors.Is(err, errSource), "the source's error is passed on")
	sym.Assert(len(got) >= atleast, "the frames before a source's failure are delivered")
	sym.Assert(len(got) <= len(want), "no frames beyond the stream")
	for i := range got {
		if i < len(want) {
			sym.Assert(sameImage(got[i], want[i]), "the frames before a source's failure are the stream's")
		}
	}
	sym.Reach("end")
}

// V18: a source that fails after the end of a sequence, or within the next.
// sym:bounds two sequences of 16x16 pictures, the first of one picture, the second of two (symbolic contents); the source failing after any byte that follows the first
// sym:timeout 300
func H_V18_after() {
	w := &hx.W{}
	sequence(w, &seqHdr{w: 16, h: 16}, true, 0)
	n := len(w.B)
	sequence(w, &seqHdr{w: 16, h: 16}, sym.Choice("headers", 2) == 1, 1)
	d := video.NewVideoSequence(&stutter{b: w.B[:n+sym.Choice("cut", len(w.B)-n)], sizes: []int{1 + 63*sym.Choice("big", 2)}, err: errSource})
	got, err := all(d, 3)
	sym.Assert(len(got) == 1 && err == video.EOS, "the first sequence decodes")
	got, err = all(d, 3)
	sym.Assert(len(got) <= 2 && errors.Is(err, errSource), "the source's error is passed on")
	sym.Reach("end")
}

// V17: pictures of more than 4095 samples before or after small ones.
// sym:bounds a sequence of one flat grey picture of 16x16, 4112x16 or 32x4112 samples, then another of one of the other two sizes
// sym:steps 100000000
// sym:timeout 300
func H_V17_large() {
	size := [][2]int{{16, 16}, {4112, 16}, {32, 4112}}
	a := sym.Choice("a", 3)
	b := (a + 1 + sym.Choice("b", 2)) % 3
	w := &hx.W{}
	for _, k := range []int{a, b} {
		mbw, mbh := size[k][0]/16, size[k][1]/16
		(&seqHdr{w: uint64(size[k][0]), h: uint64(size[k][1])}).put(w)
		gop(w)
		p := &pic{typ: 1, noStruct: 3}
		p.put(w)
		for y := 0; y < mbh; y++ {
			if size[k][1] > 2800 {
				w.Start(y%128 + 1)
				w.Put(uint64(y/128), 3).Put(4, 5).Put(0, 1)
			} else {
				slice(w, y, 4)
			}
			for x := 0; x < mbw; x++ {
				w.Bits("1")
				p.flat(w, [3]int{})
			}
			w.Align()
		}
		seqEnd(w)
	}
	d := decoder(w.B)
	for _, k := range []int{a, b} {
		f, err := d.Next()
		sym.Assert(err == nil, "a picture of each sequence")
		if err != nil {
			return
		}
		sym.Assert(f.Rect.Dx() == size[k][0] && f.Rect.Dy() == size[k][1] && len(f.Y) == size[k][0]*size[k][1], "a picture has its own sequence's size")
		sym.Assert(f.Y[len(f.Y)-1] == 128 && f.Cr[len(f.Cr)-1] == 128, "the whole picture is decoded")
		_, err = d.Next()
		sym.Assert(err == video.EOS, "the end of each sequence")
	}
	sym.Reach("end")
}
