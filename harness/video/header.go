package videoh

import (
	"github.com/32bitkid/mpeg/video"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// V01: searching for a start code.
// sym:bounds 9 symbolic bytes, any start code value searched for, beginning 0, 3 or 8 bits into the stream; source chunks unlimited or of 2 bytes
func H_V01_align() {
	n := 9
	if sym.Thorough() {
		n = 12
	}
	b := sym.Bytes("b", n)
	code := 0x100 | uint32(sym.U8("code"))
	off := []int{0, 3, 8}[sym.Choice("off", 3)]
	d := video.NewVideoSequence(&hx.Src{B: b, Chunk: []int{0, 2}[sym.Choice("chunk", 2)]})
	if off > 0 {
		sym.Assume(d.Skip(uint(off)) == nil)
	}
	at := -1
	for i := (off + 7) / 8; i+4 <= n; i++ {
		if uint32(hx.Be(b, 8*i, 32)) == code {
			at = i
			break
		}
	}
	err := d.AlignTo(video.StartCode(code))
	if at < 0 {
		sym.Assert(err != nil, "error when the code never occurs")
		sym.Reach("absent")
		return
	}
	sym.Assert(err == nil, "found")
	if err != nil {
		return
	}
	rest := hx.Rest(d, n+1)
	sym.Assert(len(rest) == n-at, "positioned at the first occurrence")
	if len(rest) == n-at {
		sym.Assert(sym.EqBytes(rest, b[at:]), "nothing of it consumed")
	}
	sym.ObserveBytes("rest", rest)
	sym.Reach("found")
}

// V01: a start code far away.
// sym:bounds 100, 1020, 4094, 9000 or 20000 bytes (zeros, ones, or start codes of another value, each the first half or the whole of them) before 4 symbolic bytes, any start code value but the other's searched for
// sym:steps 60000000
func H_V01_far() {
	n := []int{100, 1020, 4094, 9000, 20000}[sym.Choice("n", 5)]
	other := byte(0xb2)
	b := make([]byte, n, n+4)
	kind := sym.Choice("kind", 3)
	end := n
	if sym.Choice("half", 2) == 1 {
		end = n / 2
	}
	for i := 0; i < end; i++ {
		switch kind {
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = []byte{0, 0, 1, other, 0x55}[i%5]
		}
	}
	t := sym.Bytes("b", 4)
	b = append(b, t...)
	code := 0x100 | uint32(sym.U8("code"))
	sym.Assume(code != 0x100|uint32(other))
	at := -1
	for i := n - 8; i+4 <= len(b); i++ {
		if uint32(hx.Be(b, 8*i, 32)) == code {
			at = i
			break
		}
	}
	d := video.NewVideoSequence(&hx.Src{B: b})
	err := d.AlignTo(video.StartCode(code))
	if at < 0 {
		sym.Assert(err != nil, "error when the code never occurs")
		sym.Reach("absent")
		return
	}
	sym.Assert(err == nil, "found")
	if err != nil {
		return
	}
	rest := hx.Rest(d, 16)
	sym.Assert(len(rest) == len(b)-at, "positioned at the first occurrence")
	sym.Reach("found")
}

// V01: checking and asserting start codes and extension ids.
// sym:bounds any expected start code value (32 bits) or extension id (4 bits), 0 to 6 symbolic bytes left in the stream, at bit offset 0 or 4
func H_V01_check() {
	n := sym.Choice("n", 7)
	b := sym.Bytes("b", n)
	off := []int{0, 4}[sym.Choice("off", 2)]
	br := hx.BR(b)
	if off > 0 {
		sym.Assume(n > 0)
		br.Skip(uint(off))
	}
	var ok, okE bool
	var err, aerr, mismatch error
	width := 32
	want := uint64(0)
	if sym.Choice("what", 2) == 0 {
		exp := sym.U32("exp")
		want = uint64(exp)
		ok, err = video.StartCode(exp).Check(br)
		okE, _ = video.StartCode(exp).Check(br)
		aerr = video.StartCode(exp).Assert(br)
		mismatch = video.ErrUnexpectedStartCode
	} else {
		width = 4
		exp := sym.Bits("id", 4)
		want = exp
		ok, err = video.ExtensionID(exp).Check(br)
		okE, _ = video.ExtensionID(exp).Check(br)
		aerr = video.ExtensionID(exp).Assert(br)
		mismatch = video.ErrUnexpectedExtensionID
	}
	left := 8*n - off
	if left < width {
		sym.Assert(!ok && err != nil, "an error when too few bits are left to check")
		sym.Assert(aerr != nil && aerr != mismatch, "the stream's error when too few bits are left to assert")
		sym.Reach("short")
		return
	}
	match := hx.Be(b, off, width) == want
	sym.Assert(err == nil, "check reports no error")
	sym.Assert(ok == match, "check tells whether the next bits match")
	sym.Assert(okE == ok, "checking twice gives the same answer")
	pos := off
	if match {
		sym.Assert(aerr == nil, "assert accepts a match")
		pos += width
		sym.Reach("match")
	} else {
		sym.Assert(aerr == mismatch, "assert reports the documented error")
		sym.Reach("mismatch")
	}
	for ; pos < 8*n; pos++ {
		v, e := br.Read1()
		sym.Assert(e == nil && v == (hx.Be(b, pos, 1) == 1), "exactly the matched bits are consumed")
	}
	_, e := br.Read1()
	sym.Assert(e != nil, "nothing else is left")
}

// V01: classification of codes.
// sym:bounds every 32-bit start code value and every 4-bit extension id but 11 (reserved or camera parameters, by edition)
func H_V01_classes() {
	c := sym.U32("c")
	sym.Assert(video.StartCode(c).IsSlice() == sym.And(c >= 0x101, c <= 0x1af), "slice start codes are 01 to AF")
	id := uint32(sym.Bits("id", 4))
	sym.Assume(id != 11) // camera parameters in later editions
	sym.Assert(video.ExtensionID(id).IsReserved() == sym.Or(id == 0, id == 6, id > 11), "reserved extension ids")
	sym.Reach("end")
}

// V02: picture size.
// sym:bounds every 14-bit width and height, every aspect, rate, bit rate and buffer field, with and without quantiser matrices; header and extension as the first thing in the stream
func H_V02_size() {
	d0 := video.NewVideoSequence(&hx.Src{})
	x, y := d0.Size()
	sym.Assert(x == -1 && y == -1, "size is undefined before a header was read")
	s := &seqHdr{w: sym.Bits("w", 14), h: sym.Bits("h", 14)}
	if sym.Choice("m", 2) == 1 {
		s.intra, s.nonIntra = pattern(64, 1), pattern(64, 9)
	}
	w := &hx.W{}
	zeros := sym.Choice("zeros", 3)
	w.Bytes(make([]byte, zeros))
	s.put(w)
	w.Start(0xb7)
	d := decoder(w.B)
	_, err := d.Next()
	sym.Assert(err != nil, "no frame in a stream without pictures")
	x, y = d.Size()
	sym.Assert(x == int(s.w) && y == int(s.h), "size is the 14-bit combination of header and extension")
	sym.Observe("x", uint64(x))
	sym.Observe("y", uint64(y))
	sym.Reach("end")
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + (i*7+seed*13)%250)
	}
	return b
}

// V02: group header.
// sym:bounds every time code, closed and broken flag, followed by 0 to 2 zero bytes and a symbolic start code
func H_V02_gop() {
	tc, cl, bk := sym.Bits("tc", 25), sym.Bool("closed"), sym.Bool("broken")
	w := &hx.W{}
	putGop(w, tc, cl, bk)
	w.Bytes(make([]byte, sym.Choice("zeros", 3)))
	at := len(w.B)
	w.Put(1, 24)
	w.Bytes([]byte{sym.U8("next")})
	br := hx.BR(w.B)
	g, err := video.ReadGOPHeader(br)
	sym.Assert(err == nil && g != nil, "accepted")
	if g == nil {
		return
	}
	t := g.TimeCode()
	sym.Assert(t.DropFrame == (tc>>24 == 1), "drop frame flag")
	sym.Assert(uint64(t.Hours) == tc>>19&31, "hours")
	sym.Assert(uint64(t.Minutes) == tc>>13&63, "minutes")
	sym.Assert(uint64(t.Seconds) == tc>>6&63, "seconds")
	sym.Assert(uint64(t.Pictures) == tc&63, "pictures")
	sym.Assert(g.ClosedGOP == cl, "closed")
	sym.Assert(g.BrokenLink == bk, "broken")
	sym.Assert(same(hx.Rest(br, 8), w.B[at:]), "left at the next start code")
	sym.Observe("h", uint64(t.Hours))
	sym.Reach("end")
}

// V02: group header, truncated or with another start code.
// sym:bounds 8 symbolic bytes cut after any byte
func H_V02_gop_bad() {
	b := sym.Bytes("b", 8)[:sym.Choice("cut", 9)]
	g, err := video.ReadGOPHeader(hx.BR(b))
	if len(b) < 4 {
		sym.Assert(err != nil && g == nil, "truncated start code is an error")
		return
	}
	if hx.Be(b, 0, 32) != 0x1b8 {
		sym.Assert(err == video.ErrUnexpectedStartCode, "another start code is rejected")
		sym.Reach("other")
		return
	}
	sym.Assert(err != nil, "no start code follows")
	sym.Reach("cut")
}

// V02: a cleared marker bit, a wrong start code, a missing sequence extension.
// sym:bounds every size, rate and buffer field; one of: cleared marker bit, any first start code but the sequence header's, any following start code but the extension's
func H_V02_reject() {
	w := &hx.W{}
	what := sym.Choice("what", 4)
	first, marker := uint64(0x1b3), uint64(1)
	switch what {
	case 0:
		marker = 0
	case 1:
		first = sym.Bits("first", 8) | 0x100
		sym.Assume(first != 0x1b3)
	}
	w.Put(first, 32).Put(sym.Bits("w", 12), 12).Put(sym.Bits("h", 12), 12).Put(sym.Bits("ar", 8), 8).Put(sym.Bits("rate", 18), 18).Put(marker, 1).Put(sym.Bits("vbv", 10), 10).Put(0, 3)
	w.Align()
	if what == 2 {
		c := sym.U8("c")
		sym.Assume(c != 0xb5)
		w.Put(1, 24).Bytes([]byte{c})
	} else {
		// a sequence extension, its marker cleared in the last case
		w.Start(0xb5).Put(1, 4).Put(0x44, 8).Put(0, 1).Put(1, 2).Put(0, 4).Put(0, 12).Put(hx.B2(what != 3), 1).Put(0, 16)
		w.Align()
	}
	w.Start(0xb7)
	_, err := decoder(w.B).Next()
	switch what {
	case 0, 3:
		sym.Assert(err == video.ErrMissingMarkerBit, "cleared marker bit")
	case 1:
		sym.Assert(err == video.ErrUnexpectedStartCode, "no sequence header")
	case 2:
		sym.Assert(err == video.ErrUnsupportedVideoStream_ISO_IEC_11172_2, "MPEG-1 stream")
	}
	if what < 2 {
		h, e := video.ReadSequenceHeader(hx.BR(w.B))
		sym.Assert(h == nil && e == err, "ReadSequenceHeader reports the same error")
	}
	sym.Reach("end")
}
