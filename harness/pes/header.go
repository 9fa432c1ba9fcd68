package pesh

import (
	"io"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

var noHeaderIDs = []uint8{0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xf2, 0xf8, 0xff}

func carriesHeader(id uint8) bool {
	c := make([]bool, 0, len(noHeaderIDs))
	for _, x := range noHeaderIDs {
		c = append(c, id == x)
	}
	return !sym.Or(c...)
}

func putStamp(w *hx.W, marker, v uint64) {
	w.Put(marker, 4).Put(v>>30, 3).Put(1, 1).Put(v>>15&0x7fff, 15).Put(1, 1).Put(v&0x7fff, 15).Put(1, 1)
}

type hdr struct {
	id                                   uint8
	scr, ptsdts                          uint64
	prio, align, copyr, orig             bool
	escr, esrate, trick, addcopy, crc, x bool
	pts, dts                             uint64
	xpriv, xpack, xseq, xstd, x2         bool
	priv                                 []byte
	scale, size                          uint64
	stuff                                int
	long                                 int
	raw                                  []byte // from the '10' bits on
	datalen                              int
}

// build assembles the optional header.
func (h *hdr) build() {
	o := &hx.W{}
	switch h.ptsdts {
	case 2:
		putStamp(o, 2, h.pts)
	case 3:
		putStamp(o, 3, h.pts)
		putStamp(o, 1, h.dts)
	}
	if h.escr {
		o.Bytes(sym.Bytes("escr", 6))
	}
	if h.esrate {
		o.Bytes(sym.Bytes("esrate", 3))
	}
	if h.trick {
		o.Bytes(sym.Bytes("trick", 1))
	}
	if h.addcopy {
		o.Bytes(sym.Bytes("addcopy", 1))
	}
	if h.crc {
		o.Bytes(sym.Bytes("crc", 2))
	}
	if h.x {
		o.Flag(h.xpriv).Flag(h.xpack).Flag(h.xseq).Flag(h.xstd).Put(sym.Bits("res", 3), 3).Flag(h.x2)
		if h.xpriv {
			o.Bytes(h.priv)
		}
		if h.xpack {
			n := 3
			if h.long > 0 {
				n = min(h.long, 255)
			}
			o.Put(uint64(n), 8).Bytes(filled("packhdr", n))
		}
		if h.xseq {
			o.Bytes(sym.Bytes("seq", 2))
		}
		if h.xstd {
			o.Put(1, 2).Put(h.scale, 1).Put(h.size, 13)
		}
		if h.x2 {
			n := 2
			if h.long > 0 {
				n = min(h.long, 127)
			}
			o.Put(0x80|uint64(n), 8).Bytes(filled("x2", n))
		}
	}
	for i := 0; i < h.stuff; i++ {
		o.Put(0xff, 8)
	}
	h.datalen = len(o.B)
	w := &hx.W{}
	w.Put(2, 2).Put(h.scr, 2).Flag(h.prio).Flag(h.align).Flag(h.copyr).Flag(h.orig)
	w.Put(h.ptsdts, 2).Flag(h.escr).Flag(h.esrate).Flag(h.trick).Flag(h.addcopy).Flag(h.crc).Flag(h.x)
	w.Put(uint64(h.datalen), 8)
	w.Bytes(o.B)
	h.raw = w.B
}

// filled is n bytes, the first two symbolic.
func filled(name string, n int) []byte {
	b := sym.Bytes(name, min(n, 2))
	for len(b) < n {
		b = append(b, byte(len(b)*5+0x80))
	}
	return b
}

func lead(id uint8, n int) []byte {
	return []byte{0, 0, 1, id, byte(n >> 8), byte(n)}
}

func someHdr() *hdr {
	return &hdr{id: 0xe0, scr: sym.Bits("scr", 2), prio: sym.Bool("prio"), align: sym.Bool("align"), copyr: sym.Bool("copyr"), orig: sym.Bool("orig"),
		pts: sym.Bits("pts", 33), dts: sym.Bits("dts", 33), scale: sym.Bits("scale", 1), size: sym.Bits("size", 13)}
}

func (h *hdr) check(p *pes.Packet) {
	g := p.Header
	sym.Assert(g != nil, "optional header present")
	sym.Assert(uint64(g.ScramblingControl) == h.scr, "PES_scrambling_control")
	sym.Assert(g.Priority == h.prio, "PES_priority")
	sym.Assert(g.DataAlignmentIndicator == h.align, "data_alignment_indicator")
	sym.Assert(g.Copyright == h.copyr, "copyright")
	sym.Assert(g.OrignalOrCopy == h.orig, "original_or_copy")
	sym.Assert(uint64(g.PtsDtsFlags) == h.ptsdts, "PTS_DTS_flags")
	sym.Assert(g.EscrFlag == h.escr, "ESCR_flag")
	sym.Assert(g.EsRateFlag == h.esrate, "ES_rate_flag")
	sym.Assert(g.DsmTrickModeFlag == h.trick, "DSM_trick_mode_flag")
	sym.Assert(g.AdditionalCopyInfoFlag == h.addcopy, "additional_copy_info_flag")
	sym.Assert(g.CrcFlag == h.crc, "PES_CRC_flag")
	sym.Assert(g.ExtensionFlag == h.x, "PES_extension_flag")
	sym.Assert(int(g.HeaderDataLength) == h.datalen, "PES_header_data_length")
	if h.ptsdts >= 2 {
		sym.Assert(uint64(g.PresentationTimeStamp)&0xffffffff == h.pts&0xffffffff, "PTS bits 31..0")
		sym.Assert(uint64(g.PresentationTimeStamp)>>32 == h.pts>>32, "PTS bit 32")
	}
	if h.ptsdts == 3 {
		sym.Assert(uint64(g.DecodingTimeStamp)&0xffffffff == h.dts&0xffffffff, "DTS bits 31..0")
		sym.Assert(uint64(g.DecodingTimeStamp)>>32 == h.dts>>32, "DTS bit 32")
	}
	sym.Assert((g.Extension != nil) == h.x, "extension presence")
	if h.x && g.Extension != nil {
		e := g.Extension
		sym.Assert(e.PrivateDataFlag == h.xpriv, "PES_private_data_flag")
		sym.Assert(e.PackHeaderFieldFlag == h.xpack, "pack_header_field_flag")
		sym.Assert(e.ProgramPacketSequenceCounterFlag == h.xseq, "program_packet_sequence_counter_flag")
		sym.Assert(e.P_STD_BufferFlag == h.xstd, "P-STD_buffer_flag")
		sym.Assert(e.ExtensionFlag2 == h.x2, "PES_extension_flag_2")
		if h.xpriv {
			sym.Assert(sym.EqBytes(e.PrivateData, h.priv), "PES_private_data")
		} else {
			sym.Assert(len(e.PrivateData) == 0, "no private data")
		}
		sym.Assert((e.P_STD_Buffer != nil) == h.xstd, "P-STD buffer presence")
		if e.P_STD_Buffer != nil {
			sym.Assert(uint64(e.P_STD_Buffer.Scale) == h.scale, "P-STD_buffer_scale")
			sym.Assert(uint64(e.P_STD_Buffer.Size) == h.size, "P-STD_buffer_size")
		}
	}
}

// P01: every combination of the parts the package decodes.
// sym:bounds stream ids 0xbd, 0xc0..0xef and 0xfd symbolic; all four PTS_DTS_flags values; no extension or an extension with any combination of private data and P-STD buffer; 0, 1 or 3 stuffing bytes; every coded value symbolic; two payload bytes; length declared or zero
func H_P01_fields() {
	h := someHdr()
	id := sym.U8("id")
	sym.Assume(sym.Or(id == 0xbd, id == 0xfd, sym.And(id >= 0xc0, id < 0xf0)))
	h.id = id
	h.ptsdts = uint64(sym.Choice("ptsdts", 4))
	if x := sym.Choice("ext", 5); x > 0 {
		h.x = true
		h.xpriv = (x-1)&1 != 0
		h.xstd = (x-1)&2 != 0
		if h.xpriv {
			h.priv = sym.Bytes("priv", 16)
		}
	}
	h.stuff = []int{0, 1, 3}[sym.Choice("stuff", 3)]
	h.build()
	pay := sym.Bytes("pay", 2)
	n := len(h.raw) + len(pay)
	if sym.Choice("zero", 2) == 1 {
		n = 0
	}
	raw := append(append(lead(id, n), h.raw...), pay...)
	p, err := pes.NewPacket(hx.BR(raw))
	sym.Assert(err == nil, "well-formed packet rejected")
	sym.Assert(p.StreamID == uint32(id), "stream_id")
	sym.Assert(int(p.PacketLength) == n, "PES_packet_length")
	h.check(p)
	sym.Assert(sym.EqBytes(p.Payload, pay), "payload")
	sym.Observe("pts", uint64(p.Header.PresentationTimeStamp))
	sym.Observe("dts", uint64(p.Header.DecodingTimeStamp))
	sym.ObserveBytes("pay", p.Payload)
	sym.Reach("end")
}

// P01: optional parts that are stepped over.
// sym:bounds any combination of ESCR, ES rate, trick mode, copy info, CRC, and in the extension a pack header field of 3 bytes, the sequence counter and a 2-byte second extension, with and without PTS, private data and P-STD buffer; all their bytes symbolic
func H_P01_skipped() {
	h := someHdr()
	h.ptsdts = uint64(2 * sym.Choice("pts", 2))
	f := sym.Choice("flags", 64)
	h.escr, h.esrate, h.trick, h.addcopy, h.crc, h.x = f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0, f&16 != 0, f&32 != 0
	if h.x {
		g := sym.Choice("xflags", 16)
		h.xpack, h.xseq, h.x2, h.xstd = g&1 != 0, g&2 != 0, g&4 != 0, g&8 != 0
	}
	h.stuff = sym.Choice("stuff", 2)
	h.build()
	pay := sym.Bytes("pay", 2)
	raw := append(append(lead(0xe3, len(h.raw)+len(pay)), h.raw...), pay...)
	p, err := pes.NewPacket(hx.BR(raw))
	sym.Assert(err == nil, "well-formed packet rejected")
	h.check(p)
	sym.Assert(sym.EqBytes(p.Payload, pay), "payload")
	sym.Reach("end")
}

// P01: marker bits.
// sym:bounds one or two time stamps with all their bits symbolic, and the two fixed bits that start the header symbolic
func H_P01_markers() {
	two := sym.Choice("two", 2)
	n := 5 + 5*two
	b := sym.Bytes("ts", n)
	m := sym.Bits("fixed", 2)
	w := &hx.W{}
	w.Bytes(lead(0xe0, 3+n+1)).Put(m, 2).Put(sym.Bits("rest", 6), 6).Put(uint64(2+two), 2).Put(0, 6).Put(uint64(n), 8).Bytes(b).Put(0x5a, 8)
	_, err := pes.NewPacket(hx.BR(w.B))
	good := sym.And(m == 2, b[0]>>4 == byte(2+two), b[0]&1 == 1, b[2]&1 == 1, b[4]&1 == 1)
	if two == 1 {
		good = sym.And(good, b[5]>>4 == 1, b[5]&1 == 1, b[7]&1 == 1, b[9]&1 == 1)
	}
	sym.Assert(sym.Implies(good, err == nil), "well-formed time stamps rejected")
	sym.Assert(sym.Implies(!good, err == pes.ErrMarkerNotFound), "a missing marker is a marker error")
	sym.Observe("ok", hx.B2(err == nil))
	if err == nil {
		sym.Reach("ok")
	} else {
		sym.Reach("marker")
	}
}

// P01: wrong start code prefix.
// sym:bounds any 24 leading bits other than 000001
func H_P01_prefix() {
	b := sym.Bytes("b", 3)
	sym.Assume(!sym.And(b[0] == 0, b[1] == 0, b[2] == 1))
	br := hx.BR(append(append([]byte{}, b...), 0xe0, 0, 4, 0x80, 0, 0, 0x33))
	_, err := pes.NewPacket(br)
	sym.Assert(err == pes.ErrStartCodePrefixNotFound, "missing prefix is reported")
	sym.Assert(sym.EqBytes(hx.Rest(br, 3), b), "nothing is consumed then")
	sym.Reach("end")
	_ = io.EOF
}

// P01: long headers.
// sym:bounds any number of stuffing bytes that fits (0..255) behind a bare header, a PTS, both time stamps or an extension with a P-STD buffer; or a pack header field of 1, 2, 63, 64, 127, 128 or 220 bytes, or a second extension of 1, 63, 64 or 127 bytes, in the extension; two payload bytes; every coded value symbolic
func H_P01_long() {
	h := someHdr()
	sym.Assume(sym.And(h.pts < 1<<32, h.dts < 1<<32))
	switch shape := sym.Choice("shape", 6); shape {
	case 4, 5:
		h.x, h.xstd = true, true
		h.xpack, h.x2 = shape == 4, shape == 5
		h.long = []int{1, 63, 127, 64, 2, 128, 220}[sym.Choice("long", 3+4*(5-shape))]
	default:
		h.ptsdts = []uint64{0, 2, 3, 0}[shape]
		h.x, h.xstd = shape == 3, shape == 3
		h.stuff = sym.Choice("stuff", 256-[]int{0, 5, 10, 3}[shape])
	}
	h.build()
	pay := sym.Bytes("pay", 2)
	raw := append(append(lead(0xe3, len(h.raw)+len(pay)), h.raw...), pay...)
	p, err := pes.NewPacket(hx.BR(raw))
	sym.Assert(err == nil, "well-formed packet rejected")
	h.check(p)
	sym.Assert(sym.EqBytes(p.Payload, pay), "payload")
	sym.Reach("end")
}
