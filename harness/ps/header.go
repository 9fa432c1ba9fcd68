package psh

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

type bound struct {
	id, scale, size uint64
}

type sys struct {
	length, rate, audio, video            uint64
	fixed, csps, alock, vlock, restricted bool
	streams                               []bound
}

func someSys(n int) *sys {
	s := &sys{rate: sym.Bits("rate", 22), audio: sym.Bits("audio", 6), video: sym.Bits("video", 5),
		fixed: sym.Bool("fixed"), csps: sym.Bool("csps"), alock: sym.Bool("alock"), vlock: sym.Bool("vlock"), restricted: sym.Bool("restr")}
	s.length = uint64(6 + 3*n)
	for i := 0; i < n; i++ {
		s.streams = append(s.streams, bound{0x80 | sym.Bits("sid", 7), sym.Bits("scale", 1), sym.Bits("size", 13)})
	}
	return s
}

// put writes the header, marks holding the marker bits (normally all ones).
func (s *sys) put(w *hx.W, m func(n int) uint64) {
	w.Start(0xbb).Put(s.length, 16).Put(m(1), 1).Put(s.rate, 22).Put(m(1), 1)
	w.Put(s.audio, 6).Flag(s.fixed).Flag(s.csps).Flag(s.alock).Flag(s.vlock).Put(m(1), 1).Put(s.video, 5).Flag(s.restricted).Put(0x7f, 7)
	for _, b := range s.streams {
		w.Put(b.id, 8).Put(m(2), 2).Put(b.scale, 1).Put(b.size, 13)
	}
}

func (s *sys) check(h *ps.SystemHeader) {
	sym.Assert(h != nil, "system header present")
	sym.Assert(uint64(h.HeaderLength) == s.length, "header_length")
	sym.Assert(uint64(h.RateBound) == s.rate, "rate_bound")
	sym.Assert(uint64(h.AudioBound) == s.audio, "audio_bound")
	sym.Assert(h.Fixed == s.fixed, "fixed_flag")
	sym.Assert(h.CSPS == s.csps, "CSPS_flag")
	sym.Assert(h.SystemAudioLock == s.alock, "system_audio_lock_flag")
	sym.Assert(h.SystemVideoLock == s.vlock, "system_video_lock_flag")
	sym.Assert(uint64(h.VideoBound) == s.video, "video_bound")
	sym.Assert(h.PacketRateRestriction == s.restricted, "packet_rate_restriction_flag")
	sym.Assert(len(h.Streams) == len(s.streams), "number of stream bounds")
	for i, b := range s.streams {
		x := h.Streams[i]
		sym.Assert(uint64(x.StreamID) == b.id, "stream_id")
		sym.Assert(hx.B2(x.P_STD_BufferBoundScale) == b.scale, "P-STD_buffer_bound_scale")
		sym.Assert(uint64(x.P_STD_BufferSizeBound) == b.size, "P-STD_buffer_size_bound")
	}
}

type pack struct {
	scr, ext, rate uint64
	stuff          int
	sys            *sys
}

func ones(n int) uint64 { return 1<<uint(n) - 1 }

func somePack(stuff int, s *sys) *pack {
	return &pack{sym.Bits("scr", 33), sym.Bits("ext", 9), sym.Bits("mux", 22), stuff, s}
}

func (p *pack) put(w *hx.W, m func(n int) uint64, prefix uint64) {
	w.Start(0xba).Put(prefix, 2)
	w.Put(p.scr>>30, 3).Put(m(1), 1).Put(p.scr>>15&0x7fff, 15).Put(m(1), 1).Put(p.scr&0x7fff, 15).Put(m(1), 1)
	w.Put(p.ext, 9).Put(m(1), 1).Put(p.rate, 22).Put(m(1), 1).Put(m(1), 1).Put(sym.Bits("res", 5), 5).Put(uint64(p.stuff), 3)
	for i := 0; i < p.stuff; i++ {
		w.Put(0xff, 8)
	}
	if p.sys != nil {
		p.sys.put(w, m)
	}
}

func (p *pack) check(h *ps.PackHeader) {
	sym.Assert(uint64(h.SystemClockReferenceBase)&0xffffffff == p.scr&0xffffffff, "system_clock_reference_base bits 31..0")
	sym.Assert(uint64(h.SystemClockReferenceBase)>>32 == p.scr>>32, "system_clock_reference_base bit 32")
	sym.Assert(uint64(h.SystemClockReferenceExtension) == p.ext, "system_clock_reference_extension")
	sym.Assert(uint64(h.ProgramMuxRate) == p.rate, "program_mux_rate")
	sym.Assert((h.SystemHeader != nil) == (p.sys != nil), "system header presence follows the stream")
	if p.sys != nil {
		p.sys.check(h.SystemHeader)
	}
}

var tail = []byte{0, 0, 1, 0xe0, 0x12}

// S01: values and position.
// sym:bounds every value of the fields, 0..7 stuffing bytes, with or without a system header; source chunks of 1, 3 or unlimited bytes
func H_S01_pack() {
	var s *sys
	if sym.Choice("sys", 2) == 1 {
		s = someSys(1)
	}
	p := somePack(sym.Choice("stuff", 8), s)
	w := &hx.W{}
	p.put(w, ones, 1)
	w.Bytes(tail[:sym.Choice("tail", 2)+4])
	raw := w.B
	// the byte after the header must not look like another stream bound
	br := bitreader.NewReader(&hx.Src{B: raw, Chunk: []int{0, 1, 3}[sym.Choice("chunk", 3)]})
	h, err := ps.NewPackHeader(br)
	sym.Assert(err == nil, "well-formed pack header rejected")
	p.check(h)
	rest := hx.Rest(br, 8)
	sym.Assert(len(rest) >= 4 && sym.EqBytes(rest, tail[:len(rest)]), "position after the header")
	sym.Observe("scr", uint64(h.SystemClockReferenceBase))
	sym.Observe("rate", uint64(h.ProgramMuxRate))
	sym.Reach("end")
}

// S01: start code and markers.
// sym:bounds all 32 start code bits symbolic, or the '01' bits and all six marker bits symbolic
func H_S01_markers() {
	if sym.Choice("what", 2) == 0 {
		b := sym.Bytes("code", 4)
		good := hx.Be(b, 0, 32) == 0x1ba
		w := &hx.W{}
		somePack(0, nil).put(w, ones, 1)
		copy(w.B, b)
		w.Bytes(tail)
		_, err := ps.NewPackHeader(hx.BR(w.B))
		sym.Assert(sym.Implies(good, err == nil), "pack start code accepted")
		sym.Assert(sym.Implies(!good, err == ps.ErrUnexpectedStartCode), "another start code is reported")
		sym.Reach("code")
		return
	}
	var ms []uint64
	m := func(n int) uint64 {
		v := sym.Bits("marker", n)
		ms = append(ms, v)
		return v
	}
	prefix := sym.Bits("prefix", 2)
	w := &hx.W{}
	somePack(0, nil).put(w, m, prefix)
	w.Bytes(tail)
	_, err := ps.NewPackHeader(hx.BR(w.B))
	good := prefix == 1
	for _, v := range ms {
		good = sym.And(good, v == 1)
	}
	sym.Assert(sym.Implies(good, err == nil), "well-formed pack header rejected")
	sym.Assert(sym.Implies(!good, err == ps.ErrMarkerNotFound), "a cleared marker is a marker error")
	sym.Observe("ok", hx.B2(err == nil))
	sym.Reach("markers")
}

// S02: values for any number of stream bounds.
// sym:bounds 0..3 stream bounds (8 in thorough) with every value symbolic, any header_length value
func H_S02_system() {
	k := 4
	if sym.Thorough() {
		k = 9
	}
	s := someSys(sym.Choice("n", k))
	if sym.Choice("len", 2) == 1 {
		s.length = sym.Bits("length", 16)
	}
	p := somePack(0, s)
	w := &hx.W{}
	p.put(w, ones, 1)
	w.Bytes(tail)
	br := hx.BR(w.B)
	h, err := ps.NewPackHeader(br)
	sym.Assert(err == nil, "well-formed system header rejected")
	sym.Assert(h.SystemHeader != nil, "system header present")
	s.check(h.SystemHeader)
	sym.Assert(sym.EqBytes(hx.Rest(br, 8), tail), "position after the system header")
	sym.Observe("video", uint64(h.SystemHeader.VideoBound))
	sym.Observe("audio", uint64(h.SystemHeader.AudioBound))
	sym.Reach("end")
}

// S02: long lists.
// sym:bounds 16, 17, 32, 33, 69 or 300 stream bounds, two of them symbolic, the others different from one another
func H_S02_many() {
	s := someSys(2)
	n := []int{16, 17, 32, 33, 69, 300}[sym.Choice("n", 6)]
	for i := 2; i < n; i++ {
		s.streams = append(s.streams, bound{0x80 | uint64(i*5%128), uint64(i & 1), uint64(i * 7)})
	}
	s.length = uint64(6 + 3*n)
	p := somePack(0, s)
	w := &hx.W{}
	p.put(w, ones, 1)
	w.Bytes(tail)
	br := hx.BR(w.B)
	h, err := ps.NewPackHeader(br)
	sym.Assert(err == nil, "well-formed system header rejected")
	s.check(h.SystemHeader)
	sym.Assert(sym.EqBytes(hx.Rest(br, 8), tail), "position after the system header")
	sym.Reach("end")
}

// S02: marker bits.
// sym:bounds the three marker bits and the '11' of each of two stream bounds symbolic
func H_S02_markers() {
	s := someSys(2)
	p := somePack(0, nil)
	w := &hx.W{}
	p.put(w, ones, 1)
	var ms []uint64
	good := true
	s.put(w, func(n int) uint64 {
		v := sym.Bits("marker", n)
		ms = append(ms, v)
		good = sym.And(good, v == ones(n))
		return v
	})
	w.Bytes(tail)
	_, err := ps.NewPackHeader(hx.BR(w.B))
	sym.Assert(sym.Implies(good, err == nil), "well-formed system header rejected")
	sym.Assert(sym.Implies(!good, err == ps.ErrMarkerNotFound), "a cleared marker is a marker error")
	sym.Observe("ok", hx.B2(err == nil))
	sym.Reach("end")
}

// S02: a start code other than the system header's after the pack header.
// sym:bounds any 32 bits after the pack header other than 000001BB
func H_S02_absent() {
	b := sym.Bytes("next", 4)
	sym.Assume(hx.Be(b, 0, 32) != 0x1bb)
	w := &hx.W{}
	somePack(1, nil).put(w, ones, 1)
	br := hx.BR(append(w.B, b...))
	h, err := ps.NewPackHeader(br)
	sym.Assert(err == nil, "pack header rejected")
	sym.Assert(h.SystemHeader == nil, "no system header where the stream has none")
	sym.Assert(sym.EqBytes(hx.Rest(br, 4), b), "what follows is not consumed")
	sym.Reach("end")
}
