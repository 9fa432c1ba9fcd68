package tsh

import (
	"io"

	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// T02: every flag combination, values symbolic.
// sym:bounds adaptation_field_control 3; every combination of the five optional-field flags and the three extension flags; every coded value symbolic; private data of 0, 1 or 3 bytes; 0 or 2 reserved bytes at the end of the extension; 0, 1 or 4 stuffing bytes
func H_T02_fields() {
	flags := sym.Choice("flags", 32) // PCR OPCR splice private ext
	d, ra, es := sym.Bool("disc"), sym.Bool("rai"), sym.Bool("espi")
	w := &hx.W{}
	w.Flag(d).Flag(ra).Flag(es).Put(uint64(flags), 5)
	pcrB, pcrE := sym.Bits("pcrbase", 33), sym.Bits("pcrext", 9)
	opcrB, opcrE := sym.Bits("opcrbase", 33), sym.Bits("opcrext", 9)
	r1, r2 := sym.Bits("r1", 6), sym.Bits("r2", 6)
	splice := sym.U8("splice")
	if flags&16 != 0 {
		w.Put(pcrB, 33).Put(r1, 6).Put(pcrE, 9)
	}
	if flags&8 != 0 {
		w.Put(opcrB, 33).Put(r2, 6).Put(opcrE, 9)
	}
	if flags&4 != 0 {
		w.Put(uint64(splice), 8)
	}
	if flags&2 != 0 {
		pd := sym.Bytes("priv", []int{0, 1, 3}[sym.Choice("npriv", 3)])
		w.Put(uint64(len(pd)), 8).Bytes(pd)
	}
	ext := 0
	ltwv, ltw, pw, st, dts := sym.Bool("ltwvalid"), sym.Bits("ltw", 15), sym.Bits("pw", 22), sym.Bits("st", 4), sym.Bits("dts", 33)
	if flags&1 != 0 {
		ext = sym.Choice("extflags", 8)
		x := &hx.W{}
		x.Put(uint64(ext), 3).Put(sym.Bits("r3", 5), 5)
		if ext&4 != 0 {
			x.Flag(ltwv).Put(ltw, 15)
		}
		if ext&2 != 0 {
			x.Put(sym.Bits("r4", 2), 2).Put(pw, 22)
		}
		if ext&1 != 0 {
			x.Put(st, 4).Put(dts>>30, 3).Put(1, 1).Put(dts>>15&0x7fff, 15).Put(1, 1).Put(dts&0x7fff, 15).Put(1, 1)
		}
		x.Bytes(sym.Bytes("extres", 2*sym.Choice("nextres", 2)))
		w.Put(uint64(len(x.B)), 8).Bytes(x.B)
	}
	stuff := []int{0, 1, 4}[sym.Choice("nstuff", 3)]
	for i := 0; i < stuff; i++ {
		w.Put(0xff, 8)
	}
	raw := append([]byte{0x47, 0x12, 0x34, 0x35, byte(len(w.B))}, w.B...)
	start := len(raw)
	raw = append(raw, sym.Bytes("pay", 3)...)
	for len(raw) < 188 {
		raw = append(raw, byte(len(raw)*5))
	}
	last := sym.U8("last")
	raw[187] = last
	br := hx.BR(append(append([]byte{}, raw...), 0x47, 0x55))
	p, err := ts.NewPacket(br)
	sym.Assert(err == nil, "well-formed adaptation field rejected")
	a := p.AdaptationField
	sym.Assert(a != nil, "adaptation field present")
	sym.Assert(a.DiscontinuityIndicator == d, "discontinuity_indicator")
	sym.Assert(a.RandomAccessIndicator == ra, "random_access_indicator")
	sym.Assert(a.ElementaryStreamPriorityIndicator == es, "elementary_stream_priority_indicator")
	sym.Assert(a.PCRFlag == (flags&16 != 0), "PCR_flag")
	sym.Assert(a.OPCRFlag == (flags&8 != 0), "OPCR_flag")
	sym.Assert(a.SplicingPointFlag == (flags&4 != 0), "splicing_point_flag")
	sym.Assert(a.TransportPrivateDataFlag == (flags&2 != 0), "transport_private_data_flag")
	sym.Assert(a.AdaptationFieldExtensionFlag == (flags&1 != 0), "adaptation_field_extension_flag")
	if flags&16 != 0 {
		sym.Assert(a.PCR == pcrB*300+pcrE, "PCR")
		sym.Observe("pcr", a.PCR)
	}
	if flags&8 != 0 {
		sym.Assert(a.OPCR == opcrB*300+opcrE, "OPCR")
		sym.Observe("opcr", a.OPCR)
	}
	if flags&4 != 0 {
		sym.Assert(a.SpliceCountdown == splice, "splice_countdown")
	}
	sym.Assert((a.TransportPrivateData != nil) == (flags&2 != 0), "private data presence")
	x := a.AdapatationExtension
	sym.Assert((x != nil) == (flags&1 != 0), "extension presence")
	if x != nil {
		sym.Assert(x.LegalTimeWindowFlag == (ext&4 != 0), "ltw_flag")
		sym.Assert(x.PiecewiseRateFlag == (ext&2 != 0), "piecewise_rate_flag")
		sym.Assert(x.SeamlessSpliceFlag == (ext&1 != 0), "seamless_splice_flag")
		if ext&4 != 0 {
			sym.Assert(x.LTWValidFlag == ltwv, "ltw_valid_flag")
			sym.Assert(uint64(x.LTWOffset) == ltw, "ltw_offset")
		}
		if ext&2 != 0 {
			sym.Assert(uint64(x.PiecewiseRate) == pw, "piecewise_rate")
		}
		if ext&1 != 0 {
			sym.Assert(uint64(x.SpliceType) == st, "splice_type")
			sym.Assert(x.DTSNextAU == dts, "DTS_next_AU")
		}
		sym.Observe("dts", x.DTSNextAU)
		sym.Observe("pw", uint64(x.PiecewiseRate))
	}
	sym.Assert(sym.EqBytes(p.Payload, raw[start:]), "payload follows the adaptation field")
	rest := hx.Rest(br, 4)
	sym.Assert(sym.EqBytes(rest, []byte{0x47, 0x55}), "exactly 188 bytes are consumed")
	sym.Reach("end")
}

// T02: long parts.
// sym:bounds private data of 0, 4, 63, 64, 100, 127, 128, 149 or 160 bytes, an extension of 0, 30, 63, 64, 127, 128 or 155 reserved bytes, 0, 1, 63, 64, 127, 128 or 160 stuffing bytes, as far as they fit, each with or without a PCR; the values and two payload bytes symbolic
func H_T02_long() {
	pcr := sym.Choice("pcr", 2) == 1
	np := []int{0, 4, 63, 64, 100, 127, 128, 149, 160}[sym.Choice("npriv", 9)]
	nx := []int{0, 30, 63, 64, 127, 128, 155}[sym.Choice("nextres", 7)]
	ns := []int{0, 1, 63, 64, 127, 128, 160}[sym.Choice("nstuff", 7)]
	w := &hx.W{}
	pcrB, pcrE := sym.Bits("pcrbase", 33), sym.Bits("pcrext", 9)
	st, dts := sym.Bits("st", 4), sym.Bits("dts", 33)
	w.Put(0, 3).Flag(pcr).Put(0, 2).Put(1, 1).Put(1, 1)
	if pcr {
		w.Put(pcrB, 33).Put(63, 6).Put(pcrE, 9)
	}
	w.Put(uint64(np), 8)
	for i := 0; i < np; i++ {
		w.Put(uint64(i*7)&255, 8)
	}
	w.Put(uint64(6+nx), 8).Put(1, 3).Put(31, 5)
	w.Put(st, 4).Put(dts>>30, 3).Put(1, 1).Put(dts>>15&0x7fff, 15).Put(1, 1).Put(dts&0x7fff, 15).Put(1, 1)
	for i := 0; i < nx; i++ {
		w.Put(uint64(i*11)&255, 8)
	}
	for i := 0; i < ns; i++ {
		w.Put(0xff, 8)
	}
	sym.Assume(len(w.B) <= 181)
	raw := append([]byte{0x47, 0x12, 0x34, 0x35, byte(len(w.B))}, w.B...)
	start := len(raw)
	raw = append(raw, sym.Bytes("pay", 2)...)
	for len(raw) < 188 {
		raw = append(raw, byte(len(raw)*5))
	}
	br := hx.BR(append(append([]byte{}, raw...), 0x47, 0x55))
	p, err := ts.NewPacket(br)
	sym.Assert(err == nil, "well-formed adaptation field rejected")
	a := p.AdaptationField
	sym.Assert(a != nil && a.AdapatationExtension != nil, "adaptation field and extension present")
	if pcr {
		sym.Assert(a.PCR == pcrB*300+pcrE, "PCR")
	}
	sym.Assert(a.TransportPrivateData != nil, "private data presence")
	x := a.AdapatationExtension
	sym.Assert(uint64(x.SpliceType) == st && x.DTSNextAU == dts, "seamless splice")
	sym.Assert(sym.EqBytes(p.Payload, raw[start:]), "payload follows the adaptation field")
	sym.Assert(sym.EqBytes(hx.Rest(br, 4), []byte{0x47, 0x55}), "exactly 188 bytes are consumed")
	sym.Reach("end")
}

func sameAF(a, b *ts.AdaptationField) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if (a.TransportPrivateData == nil) != (b.TransportPrivateData == nil) || (a.AdapatationExtension == nil) != (b.AdapatationExtension == nil) {
		return false
	}
	ok := sym.And(a.DiscontinuityIndicator == b.DiscontinuityIndicator, a.RandomAccessIndicator == b.RandomAccessIndicator,
		a.ElementaryStreamPriorityIndicator == b.ElementaryStreamPriorityIndicator, a.PCRFlag == b.PCRFlag, a.OPCRFlag == b.OPCRFlag,
		a.SplicingPointFlag == b.SplicingPointFlag, a.TransportPrivateDataFlag == b.TransportPrivateDataFlag,
		a.AdaptationFieldExtensionFlag == b.AdaptationFieldExtensionFlag, a.PCR == b.PCR, a.OPCR == b.OPCR, a.SpliceCountdown == b.SpliceCountdown)
	if x, y := a.AdapatationExtension, b.AdapatationExtension; x != nil {
		ok = sym.And(ok, x.LegalTimeWindowFlag == y.LegalTimeWindowFlag, x.PiecewiseRateFlag == y.PiecewiseRateFlag, x.SeamlessSpliceFlag == y.SeamlessSpliceFlag,
			x.LTWValidFlag == y.LTWValidFlag, x.LTWOffset == y.LTWOffset, x.PiecewiseRate == y.PiecewiseRate, x.SpliceType == y.SpliceType, x.DTSNextAU == y.DTSNextAU)
	}
	return ok
}

// any packet whose adaptation field, if present, is short and well formed
func anyPacket(name string, kind int) []byte {
	h := sym.Bytes(name, 4)
	h[0] = 0x47
	h[3] = h[3]&0xcf | byte([]int{0, 1, 2, 3, 3, 3}[kind])<<4
	raw := h
	switch kind {
	case 2: // adaptation field only
		raw = append(raw, 183, sym.U8(name+"f")&0xe0)
	case 3: // PCR
		raw = append(raw, 9, sym.U8(name+"f")&0xe0|0x10)
		raw = append(raw, sym.Bytes(name+"pcr", 6)...)
		raw = append(raw, 0xff, 0xff)
	case 4: // no optional field
		raw = append(raw, 0)
	case 5: // splice, private, extension
		raw = append(raw, 12, sym.U8(name+"f")&0xe0|0x07, sym.U8(name+"splice"), 1, sym.U8(name+"priv"), 6, 0xc0)
		raw = append(raw, sym.Bytes(name+"ext", 5)...)
		raw = append(raw, 0xff)
	}
	raw = append(raw, sym.Bytes(name+"pay", 2)...)
	for len(raw) < 188 {
		raw = append(raw, byte(len(raw)*3)^h[1])
	}
	return raw
}

// T03: two packets into one value against a fresh value.
// sym:bounds ordered pairs of packets of six kinds (no adaptation field and no payload; payload only; field only; PCR; empty field; splice+private+extension), all header bits and coded values symbolic; and a third after both
func H_T03_reuse() {
	k1, k2 := sym.Choice("k1", 6), sym.Choice("k2", 6)
	a, b := anyPacket("a", k1), anyPacket("b", k2)
	p := new(ts.Packet)
	br := hx.BR(append(append([]byte{}, a...), b...))
	sym.Assert(p.Next(br) == nil, "first packet rejected")
	sym.Assert(p.Next(br) == nil, "second packet rejected")
	q, err := ts.NewPacket(hx.BR(b))
	sym.Assert(err == nil, "fresh packet rejected")
	sym.Assert(sym.And(p.TransportErrorIndicator == q.TransportErrorIndicator, p.PayloadUnitStartIndicator == q.PayloadUnitStartIndicator,
		p.TransportPriority == q.TransportPriority, p.PID == q.PID, p.TransportScramblingControl == q.TransportScramblingControl,
		p.AdaptationFieldControl == q.AdaptationFieldControl, p.ContinuityCounter == q.ContinuityCounter), "header fields of a reused packet")
	sym.Assert((p.AdaptationField == nil) == (q.AdaptationField == nil), "adaptation field presence in a reused packet")
	sym.Assert(sameAF(p.AdaptationField, q.AdaptationField), "adaptation field content in a reused packet")
	sym.Assert(sym.EqBytes(p.Payload, q.Payload), "payload of a reused packet")
	sym.Observe("pid", uint64(p.PID))
	sym.Observe("n", uint64(len(p.Payload)))
	sym.Reach("end")
}

func robust(raw []byte) error {
	sym.AllocLimit(1024)
	src := &hx.Src{B: raw}
	p := new(ts.Packet)
	err := p.Next(brOf(src))
	sym.Observe("ok", hx.B2(err == nil))
	if err == nil {
		sym.Assert(len(p.Payload) <= 184, "payload larger than a packet")
		sym.Reach("ok")
	} else {
		sym.Reach("error")
	}
	if len(raw) == 0 {
		sym.Assert(err == io.EOF, "clean end is io.EOF")
	} else if len(raw) < 188 {
		sym.Assert(err != nil, "a truncated packet is not accepted")
	}
	return err
}

// T04: short adaptation fields with arbitrary content.
// sym:bounds adaptation_field_length 0..9 (14 in thorough) with every byte of the packet's first 24 symbolic, payload arbitrary constants
func H_T04_short() {
	raw := sym.Bytes("p", 24)
	sym.Assume(raw[0] == 0x47)
	max := uint8(9)
	if sym.Thorough() {
		max = 14
	}
	sym.Assume(raw[4] <= max)
	sym.Concrete(int(raw[4]))
	sym.Concrete(int(raw[5] & 0x1f))
	if sym.Concrete(int(raw[3]>>5&1)) == 0 {
		sym.Stop() // without an adaptation field nothing is variable: T01
	}
	for len(raw) < 188 {
		raw = append(raw, 0xff)
	}
	robust(raw)
}

// T04: long and impossible adaptation fields.
// sym:bounds adaptation_field_length 15, 16, 181..185, 254 or 255; a private data or extension length of 0..2, 179..183, 254 or 255 that comes first, an extension length of 0, 1, 180..183 or 255 after private data; flags and the extension flags symbolic
func H_T04_long() {
	raw := sym.Bytes("p", 9)
	sym.Assume(raw[0] == 0x47)
	sym.Assume(raw[3]&0x20 != 0)
	sym.Assume(raw[4] > 14)
	// lengths near the ends of their range
	sym.Assume(sym.Or(raw[4] < 17, sym.And(raw[4] >= 181, raw[4] < 186), raw[4] >= 254))
	sym.Assume(sym.Or(raw[6] < 3, sym.And(raw[6] >= 179, raw[6] < 184), raw[6] >= 254))
	sym.Concrete(int(raw[4]))
	sym.Assume(raw[5]&0x1c == 0) // no PCR, OPCR, splice: private data or the extension comes first
	sym.Concrete(int(raw[3] >> 4 & 1))
	if sym.Concrete(int(raw[5]&3)) != 0 {
		sym.Concrete(int(raw[6]))
	}
	switch raw[5] & 3 {
	case 1:
		sym.Concrete(int(raw[7] >> 5))
	case 3:
		for i, n := 7, int(raw[6]); i < 9; i++ {
			if i != 7+n {
				continue
			}
			sym.Assume(sym.Or(raw[i] < 2, sym.And(raw[i] >= 180, raw[i] < 184), raw[i] == 255))
			sym.Concrete(int(raw[i]))
		}
		if raw[6] == 0 {
			sym.Concrete(int(raw[8] >> 5))
		}
	}
	l := int(raw[4])
	flags, n := raw[5], int(raw[6])
	for len(raw) < 188 {
		raw = append(raw, 0)
	}
	err := robust(raw)
	sym.Assert(sym.Implies(l > 183, err != nil), "adaptation field longer than the packet is an error")
	sym.Assert(sym.Implies(sym.And(l <= 183, flags&2 != 0, n > 181), err != nil), "private data beyond the packet is an error")
	sym.Assert(sym.Implies(sym.And(l <= 183, flags&3 == 1, n > 181), err != nil), "extension beyond the packet is an error")
	sym.Assert(sym.Implies(sym.And(l <= 183, flags&3 == 0), err == nil), "well-formed field accepted")
}

// T04: truncation at every point.
// sym:bounds packets of five kinds cut after 0..20 bytes or 100 or 187 bytes, header bits and values symbolic
func H_T04_truncated() {
	kind := sym.Choice("kind", 6)
	raw := anyPacket("a", kind)
	n := sym.Choice("cut", 23)
	if n == 21 {
		n = 100
	} else if n == 22 {
		n = 187
	}
	p := new(ts.Packet)
	err := p.Next(brOf(&hx.Src{B: raw[:n], Chunk: 5}))
	if n == 0 {
		sym.Assert(err == io.EOF, "clean end is io.EOF")
	} else {
		sym.Assert(err == io.ErrUnexpectedEOF, "an end inside a packet is io.ErrUnexpectedEOF")
	}
	sym.Reach("end")
}

// T04: arbitrary bytes with no sync byte assumed.
// sym:bounds any 6 bytes, stream ends there
func H_T04_bytes() {
	n := sym.Choice("n", 7)
	raw := sym.Bytes("p", n)
	robust(raw)
}

// T05: junk before the sync byte, starting on any bit position.
// sym:bounds 0..5, 186, 187 or 188 junk bytes (the first five symbolic, none equal to 0x47), after consuming 0..7 bits of a leading byte; every header bit of the packet symbolic
func H_T05_resync() {
	k := []int{0, 1, 2, 3, 5, 186, 187, 188, 189}[sym.Choice("junk", 9)]
	bits := sym.Choice("bits", 8)
	var all []byte
	if bits > 0 {
		all = append(all, sym.U8("lead"))
	}
	for i := 0; i < k; i++ {
		b := byte(0x11 + i)
		if i < 5 {
			b = sym.U8("junk")
		}
		if i >= 5 && b == 0x47 {
			b = 0x48
		}
		sym.Assume(b != 0x47)
		all = append(all, b)
	}
	raw := anyPacket("a", 1)
	all = append(all, raw...)
	all = append(all, 0x47, 0x12)
	br := hx.BR(all)
	if bits > 0 {
		br.Read32(uint(bits))
	}
	p, err := ts.NewPacket(br)
	if k >= 188 {
		sym.Assert(err == ts.ErrNoSyncByte, "no sync byte within 188 bytes is reported")
		sym.Reach("nosync")
		return
	}
	sym.Assert(err == nil, "packet after junk rejected")
	checkHeader(p, raw)
	sym.Assert(sym.EqBytes(p.Payload, raw[4:]), "payload after resynchronisation")
	sym.Assert(sym.EqBytes(hx.Rest(br, 4), []byte{0x47, 0x12}), "position after resynchronisation")
	sym.Reach("end")
}

// T05: junk between packets of one stream, and running out while searching.
// sym:bounds packet, 1..3 symbolic junk bytes, packet, 0..3 symbolic junk bytes, end of stream
func H_T05_between() {
	k := 1 + sym.Choice("k", 3)
	t := sym.Choice("t", 4)
	j := sym.Bytes("j", k)
	z := sym.Bytes("z", t)
	for _, b := range append(append([]byte{}, j...), z...) {
		sym.Assume(b != 0x47)
	}
	a, b := anyPacket("a", 1), anyPacket("b", 3)
	all := append(append(append(append([]byte{}, a...), j...), b...), z...)
	br := brOf(&hx.Src{B: all, Chunk: 3})
	p := new(ts.Packet)
	sym.Assert(p.Next(br) == nil, "first")
	checkHeader(p, a)
	sym.Assert(p.Next(br) == nil, "packet after junk rejected")
	checkHeader(p, b)
	sym.Assert(sym.EqBytes(p.Payload, b[14:]), "payload after resynchronisation")
	err := p.Next(br)
	sym.Assert(err != nil, "no packet left")
	sym.Reach("end")
}
