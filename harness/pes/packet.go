package pesh

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// unit is one PES packet and the payload it must yield.
type unit struct {
	raw, pay []byte
	hdr      *hdr
	id       uint8
}

// mk builds a packet of the given kind carrying payload.
// kinds: 0 bare header, 1 header with PTS and stuffing, 2 header with extension, 3 headerless, 4 padding, 5 private stream 2
func mk(kind int, pay []byte) unit {
	u := unit{pay: pay}
	switch kind {
	case 3, 5:
		u.id = 0xbf
		if kind == 3 {
			u.id = noHeaderIDs[[]int{0, 2, 3, 7}[sym.Choice("plainid", 4)]]
		}
		u.raw = append(lead(u.id, len(pay)), pay...)
		return u
	case 4:
		u.id = 0xbe
		u.raw = append(lead(u.id, len(pay)), pay...)
		u.pay = nil
		return u
	}
	h := someHdr()
	u.id = 0xe0
	switch kind {
	case 1:
		h.ptsdts, h.stuff = 2, 2
	case 2:
		h.x, h.xstd, h.stuff = true, true, 1
	}
	h.build()
	u.hdr = h
	u.raw = append(append(lead(u.id, len(h.raw)+len(pay)), h.raw...), pay...)
	return u
}

func (u unit) check(p *pes.Packet) {
	sym.Assert(p.StreamID == uint32(u.id), "stream_id")
	if u.hdr != nil {
		u.hdr.check2(p)
	} else {
		sym.Assert(p.Header == nil, "no optional header")
	}
	sym.Assert(sym.EqBytes(p.Payload, u.pay), "payload")
}

func (h *hdr) check2(p *pes.Packet) {
	g := p.Header
	sym.Assert(g != nil, "optional header present")
	sym.Assert(sym.And(uint64(g.ScramblingControl) == h.scr, g.Priority == h.prio, g.Copyright == h.copyr, uint64(g.PtsDtsFlags) == h.ptsdts, int(g.HeaderDataLength) == h.datalen), "header fields")
	if h.ptsdts < 2 {
		sym.Assert(g.PresentationTimeStamp == 0, "time stamp of another packet")
	} else {
		sym.Assert(uint64(uint32(g.PresentationTimeStamp)) == h.pts&0xffffffff, "PTS")
	}
	sym.Assert((g.Extension != nil) == h.x, "extension presence")
}

// P02: every stream id, exact payload and exact consumption.
// sym:bounds all 256 stream ids (symbolic); payloads of 0, 1, 4 or 300 bytes (the first four symbolic); bare optional header; 1 byte or unlimited source chunks; three following bytes
func H_P02_ids() {
	id := sym.U8("id")
	n := []int{0, 1, 4, 300}[sym.Choice("n", 4)]
	pay := sym.Bytes("pay", min(n, 4))
	for len(pay) < n {
		pay = append(pay, byte(len(pay)))
	}
	chunk := sym.Choice("chunk", 2)
	body := pay
	withHdr := carriesHeader(id)
	if withHdr {
		body = append([]byte{0x80, 0, 0}, pay...)
	}
	raw := append(append(lead(id, len(body)), body...), 0x12, 0x34, 0x56)
	if len(body) == 0 && withHdr {
		sym.Stop()
	}
	br := bitreader.NewReader(&hx.Src{B: raw, Chunk: chunk})
	p, err := pes.NewPacket(br)
	sym.Assert(err == nil, "well-formed packet rejected")
	sym.Assert(p.StreamID == uint32(id), "stream_id")
	sym.Assert(int(p.PacketLength) == len(body), "PES_packet_length")
	sym.Assert((p.Header != nil) == withHdr, "optional header exactly for the stream ids that carry one")
	if id == 0xbe {
		sym.Assert(len(p.Payload) == 0, "padding has no payload")
	} else {
		sym.Assert(sym.EqBytes(p.Payload, pay), "payload")
	}
	sym.Assert(sym.EqBytes(hx.Rest(br, 4), []byte{0x12, 0x34, 0x56}), "consumes the six leading bytes and the declared length")
	sym.Observe("n", uint64(len(p.Payload)))
	sym.Reach("end")
}

// P02: length zero takes the rest of the input.
// sym:bounds stream ids that carry the optional header; three header shapes; 0..3, 40, 511 or 3000 payload bytes; source chunks of 1, 3 or unlimited; the input ends with io.EOF or with the end of a payload unit
func H_P02_zero() {
	kind := sym.Choice("kind", 3)
	n := []int{0, 1, 2, 3, 40, 511, 3000}[sym.Choice("n", 7)]
	pay := sym.Bytes("pay", min(n, 4))
	for len(pay) < n {
		pay = append(pay, byte(len(pay)))
	}
	u := mk(kind, pay)
	u.raw[4], u.raw[5] = 0, 0
	src := &hx.Src{B: u.raw, Chunk: []int{0, 1, 3}[sym.Choice("chunk", 3)]}
	if sym.Choice("unit", 2) == 1 {
		src.Err = ts.EOP
	}
	br := bitreader.NewReader(src)
	p, err := pes.NewPacket(br)
	sym.Assert(err == nil, "well-formed packet rejected")
	sym.Assert(p.PacketLength == 0, "PES_packet_length")
	u.check(p)
	sym.Observe("n", uint64(len(p.Payload)))
	sym.Reach("end")
}

var sizes = []int{5, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 32769, 40000, 65280, 65532}

// P02: declared lengths of every magnitude.
// sym:bounds declared lengths around each power of two up to 65535, for a packet with optional header, one without, and padding, each followed by a second packet; the first two payload bytes, the bytes of the second packet and the header fields symbolic
func H_P02_large() {
	n := sizes[sym.Choice("n", len(sizes))]
	a := mk([]int{0, 3, 4}[sym.Choice("kind", 3)], filled("a", n))
	b := mk(0, sym.Bytes("b", 2))
	br := hx.BR(append(append([]byte{}, a.raw...), b.raw...))
	p := new(pes.Packet)
	sym.Assert(p.Next(br) == nil, "first packet rejected")
	a.check(p)
	sym.Assert(p.Next(br) == nil, "second packet rejected")
	b.check(p)
	sym.Reach("end")
}

// P02: a packet value reused for the next packet.
// sym:bounds ordered pairs of packets of five kinds (bare header, PTS and stuffing, extension, headerless, padding) with 0..2 payload bytes, all coded values symbolic
func H_P02_reuse() {
	a := mk(sym.Choice("k1", 5), sym.Bytes("a", 2))
	b := mk(sym.Choice("k2", 5), sym.Bytes("b", sym.Choice("n", 3)))
	br := hx.BR(append(append([]byte{}, a.raw...), b.raw...))
	p := new(pes.Packet)
	sym.Assert(p.Next(br) == nil, "first packet rejected")
	a.check(p)
	sym.Assert(p.Next(br) == nil, "second packet rejected")
	b.check(p)
	_, err := br.Peek32(8)
	sym.Assert(err == io.EOF, "both packets consumed exactly")
	sym.Observe("n", uint64(len(p.Payload)))
	sym.Reach("end")
}

func robust(raw []byte, declared int) error {
	sym.AllocLimit(1 << 17)
	br := bitreader.NewReader(&hx.Src{B: raw})
	p, err := pes.NewPacket(br)
	sym.Observe("ok", hx.B2(err == nil))
	if err == nil {
		sym.Assert(len(p.Payload) <= len(raw), "payload not larger than the input")
		sym.Reach("ok")
	} else {
		sym.Reach("error")
	}
	return err
}

// P03: arbitrary header bytes.
// sym:bounds PES_packet_length 0..3, 8, 9, 14, 30 or 65535; header data length 0..6, 10, 11 or 255; both flag bytes symbolic, the first 5 header data bytes symbolic when there is no extension, the others fixed; 40 bytes of input (enough or not for the declared length)
func H_P03_header() {
	raw := sym.Bytes("b", 14)
	sym.Assume(sym.And(raw[0] == 0, raw[1] == 0, raw[2] == 1))
	raw[3] = 0xe0
	n := []int{0, 1, 2, 3, 8, 9, 14, 30, 65535}[sym.Choice("n", 9)]
	raw[4], raw[5] = byte(n>>8), byte(n)
	dl := []int{0, 1, 2, 3, 4, 5, 6, 10, 11, 255}[sym.Choice("dl", 10)]
	raw[8] = byte(dl)
	f := sym.Concrete(int(raw[7])) // the flag byte decides the layout
	if f&1 != 0 {
		// the extension has a harness of its own
		for i := 9; i < 14; i++ {
			raw[i] = []byte{0x21, 0x01, 0x0f}[i%3]
		}
	}
	for len(raw) < 40 {
		raw = append(raw, []byte{0x11, 0xff, 0x01}[len(raw)%3])
	}
	err := robust(raw, n)
	sym.Assert(sym.Implies(n > 0 && n < 3, err != nil), "a length too small for the header is an error")
	sym.Assert(sym.Implies(n > 0 && n < 3+dl, err != nil), "a length too small for the header data is an error")
	sym.Assert(sym.Implies(n > 34, err != nil), "an input that ends early is an error")
	pd := raw[7] >> 6
	sym.Assert(sym.Implies(sym.And(pd == 2, dl < 5), err != nil), "header data too short for a time stamp is an error")
	sym.Assert(sym.Implies(sym.And(pd == 3, dl < 10), err != nil), "header data too short for both time stamps is an error")
}

// P03: header data lengths of every size.
// sym:bounds header data length 0..255 filled with stuffing bytes behind no or any optional part, declared length from two less to two more than the header or 65535, up to 300 bytes of input
func H_P03_stuffed() {
	dl := sym.Choice("dl", 256)
	d := sym.Choice("declared", 6)
	n := 3 + dl + d - 2
	if d == 5 {
		n = 65535
	}
	f := []int{0, 0x80, 0xc0, 0x3e}[sym.Choice("flags", 4)]
	raw := append(lead(0xe5, n), 0x80, byte(f), byte(dl))
	h := []byte{}
	switch f {
	case 0x80:
		h = []byte{0x21, 0, 1, 0, 1}
	case 0xc0:
		h = []byte{0x31, 0, 1, 0, 1, 0x11, 0, 1, 0, 1}
	}
	raw = append(raw, h...)
	for len(raw) < 9+dl {
		raw = append(raw, 0xff)
	}
	raw = append(raw, sym.Bytes("pay", 4)...)
	err := robust(raw, n)
	sym.Assert(sym.Implies(n < 3+dl, err != nil), "a length too small for the header data is an error")
	sym.Assert(sym.Implies(dl < len(h), err != nil), "header data too short for its parts is an error")
}

// P03: extension with arbitrary bytes.
// sym:bounds extension flag byte symbolic, header data length 0..4, 17..20 or 60, following 4 bytes symbolic
func H_P03_extension() {
	dl := []int{0, 1, 2, 3, 4, 17, 18, 19, 20, 60}[sym.Choice("dl", 10)]
	raw := append(lead(0xc1, 3+dl+4), 0x80, 0x01, byte(dl))
	x := sym.Bytes("x", 5)
	f := sym.Concrete(int(x[0] & 0xf1))
	at := 1
	if f&0x80 != 0 {
		at += 16
	}
	if f&0x40 != 0 && at < 5 {
		sym.Assume(sym.Or(x[at] < 4, x[at] == 20, x[at] == 255))
		at += 1 + sym.Concrete(int(x[at]))
	}
	at += f>>4&2 + f>>3&2
	if f&1 != 0 && at < 5 {
		sym.Assume(sym.Or(x[at]&0x7f < 4, x[at]&0x7f == 20, x[at]&0x7f == 127))
		sym.Concrete(int(x[at]))
	}
	raw = append(raw, x...)
	for len(raw) < 6+3+dl+4 {
		raw = append(raw, 0xff)
	}
	err := robust(raw, 3+dl+4)
	sym.Assert(sym.Implies(dl == 0, err != nil), "no room for the extension is an error")
	sym.Assert(sym.Implies(sym.And(dl < 17, x[0]&0x80 != 0), err != nil), "no room for private data is an error")
}

// P03: truncation at every point.
// sym:bounds packets of five kinds with 3 payload bytes, cut after every byte; all coded values symbolic
func H_P03_truncated() {
	u := mk(sym.Choice("kind", 5), sym.Bytes("pay", 3))
	cut := sym.Choice("cut", 28)
	if cut >= len(u.raw) {
		sym.Stop()
	}
	br := bitreader.NewReader(&hx.Src{B: u.raw[:cut], Chunk: 2})
	_, err := pes.NewPacket(br)
	sym.Assert(err != nil, "a truncated packet is not accepted")
	if cut == 0 {
		sym.Assert(err == io.EOF, "clean end is io.EOF")
	}
	sym.Reach("end")
}

// lengths bounds the length fields of a packet in b to values around the input size.
func lengths(b []byte) {
	if len(b) < 6 {
		return
	}
	sym.Assume(sym.Or(b[4] == 0, b[4] == 255))
	sym.Assume(sym.Or(b[5] < 6, b[5] == 255))
	sym.Concrete(int(b[4]))
	sym.Concrete(int(b[5]))
	if len(b) > 8 {
		sym.Assume(sym.Or(b[8] < 4, b[8] == 255))
		sym.Concrete(int(b[8]))
	}
}

// P03: arbitrary bytes.
// sym:bounds any 0..8 bytes (10 in thorough) with a length field of 0..5, 255, 65280..65285 or 65535, stream ends there
func H_P03_bytes() {
	k := 9
	if sym.Thorough() {
		k = 11
	}
	n := sym.Choice("n", k)
	b := sym.Bytes("b", n)
	lengths(b)
	err := robust(b, 0)
	if n < 6 {
		sym.Assert(err != nil, "too short for a packet")
	}
}

// P03: arbitrary bytes through the payload reader, read to the end.
// sym:bounds any 7 bytes (9 in thorough) after a start code prefix, length fields of 0..5, 255, 65280..65285 or 65535; payload reader read until an error with 2-byte buffers
func H_P03_reader() {
	n := 7
	if sym.Thorough() {
		n = 9
	}
	raw := append([]byte{0, 0, 1}, sym.Bytes("b", n)...)
	lengths(raw)
	r := pes.NewPayloadReader(&hx.Src{B: raw})
	buf := make([]byte, 2)
	total := 0
	for i := 0; ; i++ {
		k, err := r.Read(buf)
		sym.Assert(k >= 0 && k <= 2, "read count within the buffer")
		total += k
		if err != nil {
			sym.Reach("error")
			break
		}
		if i > len(raw) {
			sym.Assert(false, "reading ends")
			break
		}
	}
	sym.Assert(total <= len(raw), "no bytes invented")
}
