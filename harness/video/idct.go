package videoh

import (
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// V07: accuracy of the transform.
// sym:bounds one luma block of a macroblock predicted as constant 128 (for blocks with every coefficient also 0 and 255, where the other half of the residuals shows); which coefficients are used: all, those of the first column, of the first row, of the upper left quarter, of the odd columns, of the even rows, the first alone, or of the first column and one other (the last one only with an odd sum), each of them free over 12 bits (levels 0 and -2048 cannot be coded); every residual of the exact transform within -256..256
// sym:timeout 300
func H_V07_accuracy() {
	w := &hx.W{}
	shape := sym.Choice("shape", 16)
	base := 128
	if shape == 7 {
		base, shape = 0, 0
	} else if shape == 8 {
		base, shape = 255, 0
	}
	used := func(y, x int) bool {
		switch shape {
		case 1:
			return x == 0
		case 2:
			return y == 0
		case 3:
			return x < 4 && y < 4
		case 4:
			return x&1 == 1
		case 5:
			return y&1 == 0
		case 6:
			return x == 0 && y == 0
		}
		if shape >= 9 {
			return x == 0 || x == shape-8
		}
		return true
	}
	(&seqHdr{w: 16, h: 16}).put(w)
	gop(w)
	flatPic(w, &pic{typ: 1}, 1, 1, [3]int{base - 128})
	p := &pic{typ: 2, tref: 1, qtype: 1}
	p.put(w)
	slice(w, 0, 1)
	m := &mb{typ: mbPattern, cbp: 32}
	F := make([]int32, 64)
	m.res = func(w *hx.W, i int) {
		run := uint64(0)
		for _, at := range zigzag {
			if !used(at/8, at%8) {
				run++
				continue
			}
			lv := sym.Bits("lv", 12)
			sym.Assume(lv != 0 && lv != 0x800)
			w.Bits("000001").Put(run, 6).Put(lv, 12)
			F[at] = int32(uint32(lv)<<20) >> 20
			run = 0
		}
	}
	m.put(w, p)
	w.Align()
	seqEnd(w)
	// mismatch control
	sum := int32(0)
	for _, f := range F {
		sum += f
	}
	if shape == 15 {
		sym.Assume(sum&1 == 1)
	} else if !used(7, 7) {
		even := sym.Choice("even", 2)
		sym.Assume(sum&1 == int32(1-even))
		F[63] = int32(even)
	} else {
		F[63] = sym.Ite32(sum&1 == 0, sym.Ite32(F[63]&1 == 0, F[63]+1, F[63]-1), F[63])
	}

	d := decoder(w.B)
	d.Next()
	f, err := d.Next()
	sym.Assert(err == nil, "the picture is decoded")
	if err != nil {
		return
	}
	got := make([]byte, 64)
	for y := 0; y < 8; y++ {
		copy(got[8*y:], f.Y[y*f.YStride:y*f.YStride+8])
	}
	sym.NearIDCT(got, F, base, 1000, "every sample is within 1 of the exact transform")
	sym.Reach("end")
}
