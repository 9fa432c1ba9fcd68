package videoh

import (
	"image"

	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// An independent decoder for the syntax and decoding process of ISO/IEC
// 13818-2 (frame pictures, 4:2:0, no scalability), used as the oracle. It works
// on symbolic bytes; what the standard does not allow ends in bad.

type vlc struct {
	code string
	val  int
}

// tree nodes: child index if > 0, leaf ^value-index otherwise, 0 missing.
type tree struct {
	kid [][2]int
	val []int
	max int
}

func newTree(t []vlc) *tree {
	r := &tree{kid: [][2]int{{}}}
	for _, e := range t {
		n := 0
		if len(e.code) > r.max {
			r.max = len(e.code)
		}
		for i := 0; i < len(e.code); i++ {
			b := int(e.code[i] - '0')
			if i == len(e.code)-1 {
				r.val = append(r.val, e.val)
				r.kid[n][b] = -len(r.val)
				break
			}
			if r.kid[n][b] == 0 {
				r.kid = append(r.kid, [2]int{})
				r.kid[n][b] = len(r.kid) - 1
			}
			n = r.kid[n][b]
		}
	}
	return r
}

var (
	treeCoefNext  = newTree(vlcCoefNext)
	treeCoefOne   = newTree(vlcCoefOne)
	treeCoefFirst = newTree(append([]vlc{{"1", 1}}, vlcCoefNext[2:]...))
	treeCBP       = newTree(vlcCBP)
	treeIncr      = newTree(vlcIncr)
	treeMotion    = newTree(vlcMotion)
	treeDCLuma    = newTree(vlcDCLuma)
	treeDCChroma  = newTree(vlcDCChroma)
	treeType      = [4]*tree{nil, newTree(vlcTypeI), newTree(vlcTypeP), newTree(vlcTypeB)}
)

type bad string

type refPicture struct {
	*image.YCbCr
	tref int
	typ  int
	gop  int
}

type refDec struct {
	b   []byte
	pos int

	w, h         int // macroblocks
	tall         bool
	W            [2][64]int32 // raster order: intra, non-intra
	past, future *refPicture  // last two anchors, future the newer
	gop          int
	out          []*refPicture

	cur     *refPicture
	fwd     *refPicture
	bwd     *refPicture
	fcode   [2][2]int
	dcprec  uint
	fpfd    bool
	conceal bool
	qtype   uint64
	vlc1    bool
	alt     int

	// slice state
	dc    [3]int32
	pmv   [2][2][2]int
	q     uint64
	mbrow int
	mbcol int
	vecs  [2][2]int // vectors of the previous macroblock
	dirs  int       // its prediction: forward 2, backward 4

	info *refInfo
}

// refInfo records what a decode met, for reach and bounds checks.
type refInfo struct {
	skipped, field, escapes, coded int
}

func (r *refDec) get(n int) uint64 {
	if r.pos+n > 8*len(r.b) {
		panic(bad("truncated"))
	}
	v := hx.Be(r.b, r.pos, n)
	r.pos += n
	return v
}

func (r *refDec) peek(n int) uint64 {
	if r.pos+n > 8*len(r.b) {
		panic(bad("truncated"))
	}
	return hx.Be(r.b, r.pos, n)
}

func (r *refDec) flag() bool { return r.get(1) == 1 }

func (r *refDec) vlc(t *tree) int {
	if r.pos+t.max > 8*len(r.b) {
		panic(bad("truncated"))
	}
	n := 0
	for {
		k := t.kid[n][0]
		if r.flag() {
			k = t.kid[n][1]
		}
		if k == 0 {
			panic(bad("code"))
		}
		if k < 0 {
			return t.val[-k-1]
		}
		n = k
	}
}

func (r *refDec) marker() {
	if !r.flag() {
		panic(bad("marker"))
	}
}

// next moves to the next start code over zero stuffing.
func (r *refDec) next() {
	for r.pos%8 != 0 {
		r.pos++
	}
	for r.peek(24) != 1 {
		if r.get(8) != 0 {
			panic(bad("garbage"))
		}
	}
}

func (r *refDec) startIs(code uint64) bool { return r.peek(32) == 0x100|code }

// refDecode decodes everything up to a sequence end code.
func refDecode(b []byte) (out []*refPicture, why string, info *refInfo) {
	r := &refDec{b: b, info: &refInfo{}}
	info = r.info
	defer func() {
		if e := recover(); e != nil {
			w, ok := e.(bad)
			if !ok {
				panic(e)
			}
			out, why = r.out, string(w)
		}
	}()
	r.sequence()
	return r.out, "", info
}

func (r *refDec) sequence() {
	r.next()
	for {
		r.header()
		r.extensions(0)
		for {
			if r.startIs(0xb8) {
				r.get(32)
				r.get(27)
				r.gop++
				r.next()
				r.extensions(1)
			}
			r.picture()
			if !r.startIs(0xb8) && !r.startIs(0) {
				break
			}
		}
		if r.startIs(0xb7) {
			return
		}
	}
}

func (r *refDec) header() {
	if r.get(32) != 0x1b3 {
		panic(bad("header"))
	}
	r.w, r.h = int(r.get(12)), int(r.get(12))
	r.get(4 + 4 + 18)
	r.marker()
	r.get(10 + 1)
	r.W[0], r.W[1] = defaultIntra, defaultInter
	for i := range r.W {
		if r.flag() {
			r.matrix(i)
		}
	}
	r.next()
	if r.get(32) != 0x1b5 || r.get(4) != 1 {
		panic(bad("no extension"))
	}
	r.get(9)
	if r.get(2) != 1 {
		panic(bad("chroma"))
	}
	r.w |= int(r.get(2)) << 12
	r.h |= int(r.get(2)) << 12
	r.tall = r.h > 2800
	r.w, r.h = (r.w+15)/16, (r.h+15)/16
	r.get(12)
	r.marker()
	r.get(16)
	r.next()
}

func (r *refDec) matrix(i int) {
	for n := 0; n < 64; n++ {
		r.W[i][zigzag[n]] = int32(r.get(8))
	}
}

func (r *refDec) extensions(at int) {
	for {
		switch {
		case r.startIs(0xb2):
			r.get(32)
			for r.peek(24) != 1 {
				r.get(8)
			}
		case r.startIs(0xb5) && at == 0:
			r.get(32)
			if r.get(4) != 2 {
				panic(bad("extension"))
			}
			r.get(3)
			if r.flag() {
				r.get(24)
			}
			r.get(14)
			r.marker()
			r.get(14)
			r.next()
		case r.startIs(0xb5) && at == 2:
			r.get(32)
			if r.get(4) != 3 {
				panic(bad("extension"))
			}
			for i := range r.W {
				if r.flag() {
					r.matrix(i)
				}
			}
			if r.flag() || r.flag() {
				panic(bad("chroma matrices"))
			}
			r.next()
		default:
			return
		}
	}
}

func (r *refDec) picture() {
	if r.get(32) != 0x100 {
		panic(bad("picture start"))
	}
	p := &refPicture{tref: int(r.get(10)), gop: r.gop}
	p.typ = sym.Concrete(int(r.get(3)))
	if p.typ < 1 || p.typ > 3 {
		panic(bad("picture type"))
	}
	r.get(16)
	r.get(4 * (p.typ - 1))
	for r.flag() {
		r.get(8)
	}
	r.next()
	if r.get(32) != 0x1b5 || r.get(4) != 8 {
		panic(bad("picture coding extension"))
	}
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			r.fcode[s][t] = int(r.get(4))
		}
	}
	r.dcprec = uint(r.get(2))
	if r.get(2) != 3 {
		panic(bad("field picture"))
	}
	r.get(1)
	r.fpfd = r.flag()
	r.conceal = r.flag()
	r.qtype = r.get(1)
	r.vlc1 = r.flag()
	r.alt = int(r.get(1))
	r.get(3)
	if r.flag() {
		r.get(20)
	}
	r.next()
	r.extensions(2)

	p.YCbCr = image.NewYCbCr(image.Rect(0, 0, 16*r.w, 16*r.h), image.YCbCrSubsampleRatio420)
	r.cur = p
	r.fwd, r.bwd = nil, nil
	switch p.typ {
	case 2:
		r.fwd = r.future
	case 3:
		r.fwd, r.bwd = r.past, r.future
	}
	for first := true; first || (r.peek(32) > 0x100 && r.peek(32) <= 0x1af); first = false {
		r.slice()
		r.next()
	}
	if p.typ < 3 {
		r.past, r.future = r.future, p
	}
	r.out = append(r.out, p)
}

func (r *refDec) slice() {
	code := r.get(32)
	if code < 0x101 || code > 0x1af {
		panic(bad("slice start"))
	}
	r.mbrow = int(code&0xff) - 1
	if r.tall {
		r.mbrow += int(r.get(3)) << 7
	}
	if r.mbrow >= r.h {
		panic(bad("slice row"))
	}
	r.mbrow = sym.Concrete(r.mbrow)
	r.q = r.get(5)
	if r.flag() {
		r.get(1)
		if r.get(7) != 0 {
			panic(bad("reserved"))
		}
		for r.flag() {
			r.get(8)
		}
	}
	r.resetDC()
	r.pmv = [2][2][2]int{}
	r.mbcol = -1
	for first := true; ; first = false {
		r.macroblock(first)
		if r.peek(23) == 0 {
			return
		}
	}
}

func (r *refDec) resetDC() {
	for i := range r.dc {
		r.dc[i] = 128 << r.dcprec
	}
}

func (r *refDec) macroblock(first bool) {
	inc := 0
	for {
		v := r.vlc(treeIncr)
		if v > 0 {
			inc += v
			break
		}
		inc += 33
		r.info.escapes++
	}
	if r.mbcol+inc >= r.w {
		panic(bad("column"))
	}
	if first {
		r.mbcol += inc
	} else {
		for i := 1; i < inc; i++ {
			r.mbcol++
			r.skip()
		}
		r.mbcol++
	}

	typ := r.vlc(treeType[r.cur.typ])
	intra, pattern := typ&16 != 0, typ&8 != 0
	motion, field := 2, false
	if typ&6 != 0 && !r.fpfd {
		motion = sym.Concrete(int(r.get(2)))
		if motion == 0 || motion == 3 {
			panic(bad("motion type"))
		}
		field = motion == 1
	}
	dctField := false
	if !r.fpfd && (intra || pattern) {
		dctField = r.flag()
	}
	if typ&1 != 0 {
		r.q = r.get(5)
	}
	if r.q == 0 {
		panic(bad("?quantiser scale"))
	}
	if intra && !r.conceal || r.cur.typ == 2 && typ&18 == 0 {
		r.pmv = [2][2][2]int{}
	}
	var fsel [2][2]int
	var fvec [2][2][2]int
	for s := 0; s < 2; s++ {
		if typ&(2<<uint(s)) == 0 && !(s == 0 && intra && r.conceal) {
			continue
		}
		if field {
			r.info.field++
			for k := 0; k < 2; k++ {
				fsel[k][s] = sym.Concrete(int(r.get(1)))
				r.vector(k, s, true)
				fvec[k][s] = [2]int{r.pmv[k][s][0], r.pmv[k][s][1] >> 1}
			}
		} else {
			r.vector(0, s, false)
			r.pmv[1][s] = r.pmv[0][s]
			r.vecs[s] = r.pmv[0][s]
		}
	}
	if intra && r.conceal {
		r.marker()
	}
	cbp := 0
	if intra {
		cbp = 63
	}
	if pattern {
		cbp = r.vlc(treeCBP)
	}

	// prediction
	r.dirs = 0
	var pred [6][64]int32
	if !intra {
		r.resetDC()
		r.dirs = typ & 6
		if r.cur.typ == 2 && r.dirs == 0 {
			r.vecs[0] = [2]int{}
			r.dirs = 2
		}
		if field {
			pred = r.predictField(fsel, fvec)
		} else {
			pred = r.predict()
		}
	}
	for i := 0; i < 6; i++ {
		var F [64]int32
		res := cbp>>uint(5-i)&1 == 1
		if res {
			F = r.block(i, intra)
			F = refIDCT(F)
			r.info.coded++
		}
		r.store(i, dctField, res, &F, &pred)
	}
}

// store adds a block's residual to the prediction and puts it in the picture.
func (r *refDec) store(i int, field, res bool, F *[64]int32, pred *[6][64]int32) {
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			v := F[8*y+x]
			if i >= 4 {
				v += pred[i][8*y+x]
				p := r.cur.Cb
				if i == 5 {
					p = r.cur.Cr
				}
				p[(8*r.mbrow+y)*r.cur.CStride+8*r.mbcol+x] = clip(v)
				continue
			}
			ly, lx := y+8*(i/2), x+8*(i%2)
			if field {
				ly = 2*y + i/2
			}
			v += pred[ly/8*2+lx/8][ly%8*8+lx%8]
			r.cur.Y[(16*r.mbrow+ly)*r.cur.YStride+16*r.mbcol+lx] = clip(v)
		}
	}
}

func clip(v int32) byte {
	if v > 255 {
		return 255
	}
	if v < 0 {
		return 0
	}
	return byte(v)
}

func (r *refDec) skip() {
	r.info.skipped++
	r.resetDC()
	switch r.cur.typ {
	case 1:
		panic(bad("skipped in I picture"))
	case 2:
		r.pmv = [2][2][2]int{}
		r.vecs = [2][2]int{}
		r.dirs = 2
	case 3:
		if r.dirs == 0 {
			panic(bad("skipped after intra"))
		}
		r.vecs = [2][2]int{r.pmv[0][0], r.pmv[0][1]}
	}
	pred := r.predict()
	var z [64]int32
	for i := 0; i < 6; i++ {
		r.store(i, false, false, &z, &pred)
	}
}

// vector decodes one motion vector into pmv[k][s].
func (r *refDec) vector(k, s int, field bool) {
	for t := 0; t < 2; t++ {
		f := r.fcode[s][t]
		if f < 1 || f > 9 {
			panic(bad("f_code"))
		}
		f = sym.Concrete(f)
		rsize := uint(f - 1)
		code := r.vlc(treeMotion)
		delta := 0
		if code != 0 {
			m := code
			if code < 0 {
				m = -code - 100
			}
			delta = (m-1)<<rsize + int(r.get(int(rsize))) + 1
			if code < 0 {
				delta = -delta
			}
		}
		p := r.pmv[k][s][t]
		if field && t == 1 {
			p >>= 1
		}
		lim := 16 << rsize
		v := p + delta
		v = sym.Ite(v < -lim, v+2*lim, sym.Ite(v >= lim, v-2*lim, v))
		if field && t == 1 {
			v *= 2
		}
		r.pmv[k][s][t] = v
	}
}

// plane c of a picture with its stride and height.
func plane(p *image.YCbCr, c int) ([]byte, int, int) {
	switch c {
	case 0:
		return p.Y, p.YStride, len(p.Y) / p.YStride
	case 1:
		return p.Cb, p.CStride, len(p.Cb) / p.CStride
	}
	return p.Cr, p.CStride, len(p.Cr) / p.CStride
}

// half is v/2 rounded toward zero.
func half(v int) int { return sym.Ite(v < 0, -(-v >> 1), v>>1) }

// fetch reads a w x h prediction at (x, y) displaced by (dx, dy) half samples.
func fetch(buf []byte, stride, height, x, y, w, h, dx, dy int) []int32 {
	hx, hy := sym.Concrete(dx&1), sym.Concrete(dy&1)
	px, py := sym.Concrete(dx>>1), sym.Concrete(dy>>1)
	x += px
	y += py
	if x < 0 || y < 0 || x+w+hx > stride || y+h+hy > height {
		panic(bad("vector"))
	}
	out := make([]int32, w*h)
	for j := 0; j < h; j++ {
		for i := 0; i < w; i++ {
			a := (y+j)*stride + x + i
			v := int32(buf[a])
			switch {
			case hx == 1 && hy == 1:
				v = (v + int32(buf[a+1]) + int32(buf[a+stride]) + int32(buf[a+stride+1]) + 2) >> 2
			case hx == 1:
				v = (v + int32(buf[a+1]) + 1) >> 1
			case hy == 1:
				v = (v + int32(buf[a+stride]) + 1) >> 1
			}
			out[j*w+i] = v
		}
	}
	return out
}

func (r *refDec) ref(s int) *image.YCbCr {
	p := r.fwd
	if s == 1 {
		p = r.bwd
	}
	if p == nil {
		panic(bad("missing reference"))
	}
	return p.YCbCr
}

// predict forms the frame prediction of the current macroblock.
func (r *refDec) predict() (pred [6][64]int32) {
	for c := 0; c < 3; c++ {
		var got [2][]int32
		n := 16
		if c > 0 {
			n = 8
		}
		for s := 0; s < 2; s++ {
			if r.dirs&(2<<uint(s)) == 0 {
				continue
			}
			dx, dy := r.vecs[s][0], r.vecs[s][1]
			if c > 0 {
				dx, dy = half(dx), half(dy)
			}
			buf, stride, height := plane(r.ref(s), c)
			got[s] = fetch(buf, stride, height, n*r.mbcol, n*r.mbrow, n, n, dx, dy)
		}
		r.combine(&pred, c, n, 0, 1, got)
	}
	return
}

// combine averages the predictions of a component into lines y0, y0+dy, ...
func (r *refDec) combine(pred *[6][64]int32, c, n, y0, dy int, got [2][]int32) {
	k := 0
	for y := y0; y < n; y += dy {
		for x := 0; x < n; x++ {
			var v int32
			switch {
			case got[1] == nil:
				v = got[0][k]
			case got[0] == nil:
				v = got[1][k]
			default:
				v = (got[0][k] + got[1][k] + 1) >> 1
			}
			k++
			if c == 0 {
				pred[y/8*2+x/8][y%8*8+x%8] = v
			} else {
				pred[3+c][y*8+x] = v
			}
		}
	}
}

// predictField forms field predictions in a frame picture.
func (r *refDec) predictField(sel [2][2]int, vec [2][2][2]int) (pred [6][64]int32) {
	for c := 0; c < 3; c++ {
		n := 16
		if c > 0 {
			n = 8
		}
		for k := 0; k < 2; k++ {
			var got [2][]int32
			for s := 0; s < 2; s++ {
				if r.dirs&(2<<uint(s)) == 0 {
					continue
				}
				dx, dy := vec[k][s][0], vec[k][s][1]
				if c > 0 {
					dx, dy = half(dx), half(dy)
				}
				buf, stride, height := plane(r.ref(s), c)
				field := make([]byte, 0, len(buf)/2)
				for y := sel[k][s]; y < height; y += 2 {
					field = append(field, buf[y*stride:(y+1)*stride]...)
				}
				got[s] = fetch(field, stride, height/2, n*r.mbcol, n/2*r.mbrow, n, n/2, dx, dy)
			}
			r.combine(&pred, c, n, k, 2, got)
		}
	}
	return
}

// block decodes the coefficients of block i and dequantises them.
func (r *refDec) block(i int, intra bool) (F [64]int32) {
	var qf [64]int32
	n := 0
	cc := 0
	if i >= 4 {
		cc = i - 3
	}
	t := treeCoefNext
	if intra {
		dt := treeDCLuma
		if cc > 0 {
			dt = treeDCChroma
		}
		size := r.vlc(dt)
		if size > 0 {
			d := int32(r.get(size))
			if d < 1<<uint(size-1) {
				d -= 1<<uint(size) - 1
			}
			r.dc[cc] += d
		}
		if r.dc[cc] < 0 || r.dc[cc] >= 256<<r.dcprec {
			panic(bad("?dc range"))
		}
		qf[0] = r.dc[cc]
		n = 1
		if r.vlc1 {
			t = treeCoefOne
		}
	}
	for {
		var v int
		if n == 0 && r.peek(1) == 1 {
			r.pos++
			v = 1 // first coefficient: run 0, level 1
		} else {
			v = r.vlc(t)
		}
		if v == -1 {
			break
		}
		var run int
		var level int32
		if v == -2 {
			run = sym.Concrete(int(r.get(6)))
			if r.flag() {
				level = -2048
			}
			level += int32(r.get(11))
			if level == 0 || level == -2048 {
				panic(bad("?escape level"))
			}
		} else {
			run, level = v/64, int32(v%64)
			s := r.flag()
			if s {
				level = -level
			}
		}
		n += run
		if n > 63 {
			panic(bad("run"))
		}
		qf[n] = level
		n++
	}
	// inverse scan and quantisation
	scale := r.scale()
	sum := int32(0)
	for n := 0; n < 64; n++ {
		at := zigzag[n]
		if r.alt == 1 {
			at = altscan[n]
		}
		v := qf[n]
		switch {
		case intra && n == 0:
			v *= 8 >> r.dcprec
		case intra:
			v = 2 * v * scale * r.W[0][at] / 32
		default:
			v = (2*v + sign(v)) * scale * r.W[1][at] / 32
		}
		v = saturate(v)
		F[at] = v
		sum += v
	}
	if sum&1 == 0 {
		if F[63]&1 != 0 {
			F[63]--
		} else {
			F[63]++
		}
	}
	return
}

func sign(v int32) int32 {
	if v > 0 {
		return 1
	}
	if v < 0 {
		return -1
	}
	return 0
}

func saturate(v int32) int32 {
	if v > 2047 {
		return 2047
	}
	if v < -2048 {
		return -2048
	}
	return v
}

func (r *refDec) scale() int32 {
	c := int32(r.q)
	if r.qtype == 0 {
		return 2 * c
	}
	switch {
	case c < 8:
		return c
	case c < 16:
		return 2*c - 8
	case c < 24:
		return 4*c - 40
	}
	return 8*c - 136
}

// refIDCT is the reference integer transform (fixed point, rows then columns).
func refIDCT(F [64]int32) [64]int32 {
	for y := 0; y < 8; y++ {
		f := F[8*y : 8*y+8]
		dc := f[0] << 3
		if f[1]|f[2]|f[3]|f[4]|f[5]|f[6]|f[7] == 0 {
			// the whole row is its DC
			for x := range f {
				f[x] = dc
			}
			continue
		}
		g := idct1(f, 11, 0, 128, 8)
		copy(f, g[:])
	}
	var col [8]int32
	for x := 0; x < 8; x++ {
		for y := range col {
			col[y] = F[8*y+x]
		}
		g := idct1(col[:], 8, 3, 8192, 14)
		for y := range col {
			F[8*y+x] = g[y]
		}
	}
	return F
}

// idct1 is one 8-point transform: inputs scaled by 1<<pre, the rotations
// rounded off by s bits, the result by post bits.
func idct1(b []int32, pre, s uint, round int32, post uint) (o [8]int32) {
	const c1, c2, c3, c5, c6, c7 = 2841, 2676, 2408, 1609, 1108, 565
	e0, e1 := b[0]<<pre+round, b[4]<<pre
	a, c := rot(s, b[1], b[7], c1-c7, c1+c7, c7)
	d, e := rot(s, b[5], b[3], -(c3 - c5), c3+c5, c3)
	g, h := rot(s, b[2], b[6], c2-c6, c2+c6, c6)
	p, q := e0+e1, e0-e1
	u, v := a+d, c+e
	a, c = a-d, c-e
	k, l := p+g, p-g
	m, n := q+h, q-h
	y, z := (181*(a+c)+128)>>8, (181*(a-c)+128)>>8
	return [8]int32{(k + u) >> post, (m + y) >> post, (n + z) >> post, (l + v) >> post,
		(l - v) >> post, (n - z) >> post, (m - y) >> post, (k - u) >> post}
}

func rot(s uint, a, b, ca, cb, cm int32) (int32, int32) {
	t := cm*(a+b) + int32(1)<<s>>1
	return (t + ca*a) >> s, (t - cb*b) >> s
}

var zigzag = [64]int{
	0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5,
	12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28,
	35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
	58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
}

var altscan = [64]int{
	0, 8, 16, 24, 1, 9, 2, 10, 17, 25, 32, 40, 48, 56, 57, 49,
	41, 33, 26, 18, 3, 11, 4, 12, 19, 27, 34, 42, 50, 58, 35, 43,
	51, 59, 20, 28, 5, 13, 6, 14, 21, 29, 36, 44, 52, 60, 37, 45,
	53, 61, 22, 30, 7, 15, 23, 31, 38, 46, 54, 62, 39, 47, 55, 63,
}

var defaultIntra = [64]int32{
	8, 16, 19, 22, 26, 27, 29, 34,
	16, 16, 22, 24, 27, 29, 34, 37,
	19, 22, 26, 27, 29, 34, 34, 38,
	22, 22, 26, 27, 29, 34, 37, 40,
	22, 26, 27, 29, 32, 35, 40, 48,
	26, 27, 29, 32, 35, 40, 48, 58,
	26, 27, 29, 34, 38, 46, 56, 69,
	27, 29, 35, 38, 46, 56, 69, 83,
}

var defaultInter = func() (m [64]int32) {
	for i := range m {
		m[i] = 16
	}
	return
}()
