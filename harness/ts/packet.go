package tsh

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

func checkHeader(p *ts.Packet, raw []byte) {
	sym.Assert(p.TransportErrorIndicator == (raw[1]&0x80 != 0), "transport_error_indicator")
	sym.Assert(p.PayloadUnitStartIndicator == (raw[1]&0x40 != 0), "payload_unit_start_indicator")
	sym.Assert(p.TransportPriority == (raw[1]&0x20 != 0), "transport_priority")
	sym.Assert(uint64(p.PID) == hx.Be(raw, 11, 13), "PID")
	sym.Assert(uint64(p.TransportScramblingControl) == hx.Be(raw, 24, 2), "transport_scrambling_control")
	sym.Assert(uint64(p.AdaptationFieldControl) == hx.Be(raw, 26, 2), "adaptation_field_control")
	sym.Assert(uint64(p.ContinuityCounter) == hx.Be(raw, 28, 4), "continuity_counter")
	sym.Observe("pid", uint64(p.PID))
	sym.Observe("cc", uint64(p.ContinuityCounter))
	sym.Observe("n", uint64(len(p.Payload)))
}

func observeHead(b []byte) {
	for i := 0; i < len(b) && i < 3; i++ {
		sym.Observe("pl", uint64(b[i]))
	}
}

// Every packet without optional adaptation data: any header bits, any payload,
// any amount of adaptation stuffing; two packets in a row, so that the second
// must start exactly at byte 188.
// sym:bounds two consecutive 188-byte packets, the first with every byte symbolic (adaptation_field_length 0..183, adaptation flags 0), the second with symbolic header
func H_T01_packet() {
	raw := sym.Bytes("p", 188)
	sym.Assume(raw[0] == 0x47)
	afc := sym.Concrete(int(raw[3] >> 4 & 3))
	start := 4
	if afc&2 != 0 {
		n := sym.Concrete(int(raw[4]))
		if n > 183 {
			sym.Stop()
		}
		start += 1 + n
		if n > 0 {
			sym.Assume(raw[5] == 0)
		}
	}
	second := sym.Bytes("q", 8)
	sym.Assume(second[0] == 0x47)
	sym.Assume(second[3]&0x30 == 0x10)
	all := append(append([]byte{}, raw...), second...)
	for len(all) < 376 {
		all = append(all, byte(len(all)))
	}
	br := hx.BR(all)
	p, err := ts.NewPacket(br)
	sym.Assert(err == nil, "well-formed packet rejected")
	checkHeader(p, raw)
	if afc&1 != 0 {
		sym.Assert(sym.EqBytes(p.Payload, raw[start:]), "payload is the bytes after the adaptation field")
	} else {
		sym.Assert(len(p.Payload) == 0, "payload although adaptation_field_control says none")
	}
	sym.Assert((p.AdaptationField != nil) == (afc&2 != 0), "adaptation field presence")
	observeHead(p.Payload)
	sym.Reach("first")
	q, err := ts.NewPacket(br)
	sym.Assert(err == nil, "second packet rejected")
	checkHeader(q, all[188:])
	sym.Assert(sym.EqBytes(q.Payload, all[192:]), "second packet's payload")
	_, err = ts.NewPacket(br)
	sym.Assert(err == io.EOF, "clean end is io.EOF")
	sym.Reach("second")
}

// The same bytes delivered one, two, three or seven at a time.
// sym:bounds one packet, header symbolic, payload only or 5-byte adaptation field, source chunks of 1, 2, 3, 7 or 8 bytes
func H_T01_chunks() {
	raw := sym.Bytes("p", 12)
	sym.Assume(raw[0] == 0x47)
	afc := sym.Concrete(int(raw[3] >> 4 & 3))
	start := 4
	if afc&2 != 0 {
		n := 4
		if afc == 2 {
			n = 183
		}
		sym.Assume(int(raw[4]) == n)
		sym.Assume(raw[5] == 0)
		start += 1 + n
	}
	for len(raw) < 188 {
		raw = append(raw, byte(7*len(raw)))
	}
	chunk := []int{1, 2, 3, 7, 8}[sym.Choice("chunk", 5)]
	all := append(append([]byte{}, raw...), 0x47, 0x1f, 0xff)
	br := bitreader.NewReader(&hx.Src{B: all, Chunk: chunk})
	p, err := ts.NewPacket(br)
	sym.Assert(err == nil, "well-formed packet rejected")
	checkHeader(p, raw)
	if afc&1 != 0 {
		sym.Assert(sym.EqBytes(p.Payload, raw[start:]), "payload is the bytes after the adaptation field")
	} else {
		sym.Assert(len(p.Payload) == 0, "payload although adaptation_field_control says none")
	}
	rest := hx.Rest(br, 10)
	sym.Assert(sym.EqBytes(rest, []byte{0x47, 0x1f, 0xff}), "exactly 188 bytes are consumed")
	sym.Reach("end")
}
