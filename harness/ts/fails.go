package tsh

import (
	"errors"

	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

var errSource = errors.New("source failed")

// T13: a source that fails within a packet.
// sym:bounds one packet of symbolic header and payload, every adaptation control, an adaptation field of length 0, 60 or the maximum with none, one or all of the flags (symbolic contents, 3 bytes of private data, an extension of 20 bytes), the source failing with its own error after any of the first 70 bytes or the last 5, handing out everything or 3 bytes at a time; the packet's value fresh or used before
func H_T13_packet() {
	b := sym.Bytes("b", 188)
	b[0] = 0x47
	afc := sym.Choice("afc", 4)
	b[3] = byte(afc)<<4 | b[3]&15
	if afc >= 2 {
		b[4] = []byte{60, byte(185 - afc), 0}[sym.Choice("length", 3)]
		if b[4] > 0 {
			b[5] = []byte{0, 0x10, 0x08, 0x04, 0x02, 0x01, 0x1f}[sym.Choice("flags", 7)]
			at := 6
			for k, n := range []int{6, 6, 1} {
				if b[5]>>uint(4-k)&1 == 1 {
					at += n
				}
			}
			if b[5]&2 != 0 {
				b[at] = 3
				at += 4
			}
			if b[5]&1 != 0 {
				b[at], b[at+1] = 20, 0xff
			}
		}
	}
	cut := sym.Choice("cut", 75)
	if cut >= 70 {
		cut += 188 - 75
	}
	s := &hx.Src{B: b[:cut], Err: errSource, Chunk: 3 * sym.Choice("chunk", 2)}
	var err error
	if sym.Choice("used", 2) == 1 {
		p, e := ts.NewPacket(brOf(&hx.Src{B: pkt(0x21, 1, 3, []byte{9})}))
		sym.Assert(e == nil, "packet")
		err = p.Next(brOf(s))
	} else {
		_, err = ts.NewPacket(brOf(s))
	}
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.Reach("end")
}

// failing gives packets of 0x21 (or 0x20) with two symbolic payload bytes and
// where the source fails, in bytes: at a packet boundary or inside a packet.
func failing(n int) (b []byte, in []bool, pays [][]byte, whole int) {
	b, in, _, pays = demuxStream(n, 0)
	whole = sym.Choice("whole", n+1)
	cut := 188 * whole
	if whole < n {
		cut += []int{0, 1, 3, 4, 100, 186, 187}[sym.Choice("in", 7)]
	}
	return b[:cut], in, pays, whole
}

// T13: the payload reader on a source that fails.
// sym:bounds three packets of symbolic PID, two symbolic payload bytes each, the source failing between any two or inside any of them (seven places); read buffers of 1, 2, 3 or 64 bytes; source chunks unlimited or 50 bytes
func H_T13_reader() {
	b, in, pays, whole := failing(3)
	r := ts.NewPayloadReader(&hx.Src{B: b, Err: errSource, Chunk: 50 * sym.Choice("chunk", 2)}, ts.IsPID(0x21))
	out, err, _ := drain(r, []int{[]int{1, 2, 3, 64}[sym.Choice("size", 4)]}, 20)
	var want []byte
	for i := 0; i < whole; i++ {
		if in[i] {
			want = append(want, pays[i]...)
		}
	}
	sym.Assert(sym.EqBytes(out, want), "the payloads before a source's failure are delivered, and nothing else")
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.ObserveBytes("out", out)
	sym.Reach("end")
}

// T13: the payload unit reader on a source that fails.
// sym:bounds three packets of one PID with symbolic unit start flags, two symbolic payload bytes each (any one of them without payload), the source failing between any two or inside any of them; read buffers of 1, 2, 3 or 64 bytes
func H_T13_units() {
	n := 3
	var b []byte
	var pays [][]byte
	var start []bool
	empty := sym.Choice("empty", n+1)
	for i := 0; i < n; i++ {
		st := sym.Bool("start")
		var p []byte
		if i != empty {
			p = sym.Bytes("b", 2)
		}
		b = append(b, pkt(0x21, hx.B2(st), uint64(i), p)...)
		start = append(start, st)
		pays = append(pays, p)
	}
	whole := sym.Choice("whole", n+1)
	cut := 188 * whole
	if whole < n {
		cut += []int{0, 1, 3, 4, 100, 186, 187}[sym.Choice("in", 7)]
	}
	r := ts.NewPayloadUnitReader(&hx.Src{B: b[:cut], Err: errSource}, ts.IsPID(0x21))
	sizes := []int{[]int{1, 2, 3, 64}[sym.Choice("size", 4)]}
	var out []byte
	var err error
	units := 0
	for i := 0; i < 8; i++ {
		var o []byte
		o, err, _ = drain(r, sizes, 20)
		out = append(out, o...)
		if err != ts.EOP {
			break
		}
		units++
	}
	var want []byte
	k := 0
	for i := 0; i < whole; i++ {
		if start[i] {
			k++
		}
		if k > 0 {
			want = append(want, pays[i]...)
		}
	}
	sym.Assert(sym.EqBytes(out, want), "the payloads before a source's failure are delivered, and nothing else")
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.Assert(units == k, "every unit ends with the end-of-unit signal")
	sym.ObserveBytes("out", out)
	sym.Reach("end")
}

// T13: the demultiplexer on a source that fails.
// sym:bounds two packets of symbolic PID, the source failing between any two or inside any of them; one consumer; every interleaving
func H_T13_demuxer() {
	b, in, pays, whole := failing(2)
	d := ts.NewDemuxer(&hx.Src{B: b, Err: errSource})
	c := d.Where(ts.IsPID(0x21))
	done := d.Go()
	k := 0
	for p := range c {
		for k < whole && !in[k] {
			k++
		}
		sym.Assert(k < whole, "only packets read before the failure")
		if k >= whole {
			return
		}
		sym.Assert(sym.EqBytes(p.Payload, pays[k]), "the packets before a source's failure are delivered")
		k++
	}
	for k < whole && !in[k] {
		k++
	}
	sym.Assert(k == whole, "every packet read before the failure")
	sym.Assert(<-done, "completion is signalled")
	sym.Assert(d.Err() == errSource, "the source's error is recorded")
	sym.Reach("end")
}
