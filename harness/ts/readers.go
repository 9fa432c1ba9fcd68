package tsh

import (
	"io"

	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

var bufPlans = [][]int{{400}, {1}, {2, 1}, {3}, {1, 5, 2}}

// T06: concatenation of the selected payloads.
// sym:bounds four packets, each with a symbolic PID and payload bytes, payload sizes drawn from {none, 1, 2, 184}; read buffers of 400, 1, 2+1, 3 or 1+5+2 bytes; source chunks whole, 1 or 7 bytes; stream ends at a packet boundary or inside a packet (in the header, in or behind the adaptation field, in the payload)
func H_T06_concat() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var all, want []byte
	sel := sym.Bits("sel", 13)
	for i := 0; i < n; i++ {
		pid := sym.Bits("pid", 13)
		var pay []byte
		switch sym.Choice("size", 4) {
		case 1:
			pay = sym.Bytes("b", 1)
		case 2:
			pay = sym.Bytes("b", 2)
		case 3:
			pay = sym.Bytes("b", 2)
			for len(pay) < 184 {
				pay = append(pay, byte(len(pay)+i))
			}
		}
		all = append(all, pkt(pid, sym.Bits("pusi", 1), sym.Bits("cc", 4), pay)...)
		if pid == sel {
			want = append(want, pay...)
		}
	}
	cut := sym.Choice("cut", len(cuts))
	all = append(all, cuts[cut]...)
	chunk := 7
	if cut < 2 {
		chunk = []int{0, 1, 7}[sym.Choice("chunk", 3)]
	}
	src := &hx.Src{B: all, Chunk: chunk}
	r := ts.NewPayloadReader(src, ts.IsPID(uint32(sel)))
	plan := bufPlans[sym.Choice("plan", len(bufPlans))]
	if len(want) > 100 {
		plan = []int{len(want) - 1, 1, 2}
	}
	got, err, _ := drain(r, plan, 3*len(want)+12)
	sym.Assert(err != nil, "the stream ends")
	sym.Assert(len(got) == len(want), "number of payload bytes delivered")
	sym.Assert(sym.EqBytes(got, want), "payload bytes delivered in order")
	if cut == 0 {
		sym.Assert(err == io.EOF, "ends with io.EOF at a packet boundary")
	} else {
		sym.Assert(err == io.ErrUnexpectedEOF, "an end inside a packet is io.ErrUnexpectedEOF")
	}
	k, err := r.Read(make([]byte, 4))
	sym.Assert(k == 0 && err != nil, "nothing is delivered after the end")
	sym.Observe("n", uint64(len(got)))
	observeHead(got)
	sym.Reach("end")
}

type win struct {
	s, t, w bool
	cc      uint64
}

func windowStream(n int, small bool) (all []byte, pays [][]byte, ps []win) {
	for i := 0; i < n; i++ {
		s, t, w := sym.Bool("s"), sym.Bool("t"), sym.Bool("w")
		pid := hx.B2(s)*4 + hx.B2(t)*2 + hx.B2(w)
		pay := sym.Bytes("b", 2)
		if !small {
			for len(pay) < 184 {
				pay = append(pay, byte(len(pay)+i))
			}
		}
		cc := sym.Bits("cc", 4)
		all = append(all, pkt(pid, sym.Bits("pusi", 1), cc, pay)...)
		pays = append(pays, pay)
		ps = append(ps, win{s, t, w, cc})
	}
	return
}

func isS(p *ts.Packet) bool { return p.PID&4 != 0 }
func isT(p *ts.Packet) bool { return p.PID&2 != 0 }
func isW(p *ts.Packet) bool { return p.PID&1 != 0 }

// window computes the delivered packet indices.
func window(ps []win, skip, take bool) (idx []int, ended bool) {
	i := 0
	if skip {
		for i < len(ps) && !ps[i].s {
			i++
		}
	}
	for ; i < len(ps); i++ {
		if take && !ps[i].t {
			return idx, true
		}
		if ps[i].w {
			idx = append(idx, i)
		}
	}
	return idx, false
}

// T07: payload reader.
// sym:bounds four packets (five in thorough), each with symbolic outcomes of the skip, take and select conditions and two symbolic payload bytes; conditions set or unset; read buffers of 400, 1, 2+1, 3 or 1+5+2 bytes
func H_T07_reader() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	all, pays, ps := windowStream(n, true)
	r := ts.NewPayloadReader(&hx.Src{B: all}, isW)
	set := sym.Choice("set", 4)
	if set&1 != 0 {
		r.SkipUntil(isS)
	}
	if set&2 != 0 {
		r.TakeWhile(isT)
	}
	idx, _ := window(ps, set&1 != 0, set&2 != 0)
	var want []byte
	for _, i := range idx {
		want = append(want, pays[i]...)
	}
	got, err, _ := drain(r, bufPlans[sym.Choice("plan", len(bufPlans))], 3*len(want)+12)
	sym.Assert(err == io.EOF, "the end of the window is io.EOF")
	sym.Assert(len(got) == len(want), "number of bytes in the window")
	sym.Assert(sym.EqBytes(got, want), "bytes of the window")
	sym.Observe("n", uint64(len(got)))
	k, err := r.Read(make([]byte, 4))
	sym.Assert(k == 0 && err == io.EOF, "nothing is delivered after the window")
	sym.Reach("end")
}

// T07: demultiplexer.
// sym:bounds four packets (five in thorough), each with symbolic outcomes of the skip, take and select conditions; conditions set or unset
func H_T07_demuxer() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	all, _, ps := windowStream(n, true)
	sym.Preempt(false)
	d := ts.NewDemuxer(&hx.Src{B: all})
	set := sym.Choice("set", 4)
	if set&1 != 0 {
		d.SkipUntil(isS)
	}
	if set&2 != 0 {
		d.TakeWhile(isT)
	}
	ch := d.Where(isW)
	idx, ended := window(ps, set&1 != 0, set&2 != 0)
	done := d.Go()
	var got []uint32
	for p := range ch {
		got = append(got, p.ContinuityCounter)
	}
	<-done
	sym.Assert(len(got) == len(idx), "number of packets in the window")
	for i := range got {
		sym.Assert(uint64(got[i]) == ps[idx[i]].cc, "packets of the window")
	}
	if ended {
		sym.Assert(d.Err() == nil, "no error when the take condition ended it")
	} else {
		sym.Assert(d.Err() == io.EOF, "end of stream recorded")
	}
	sym.Reach("end")
}

// T08: units.
// sym:bounds four packets (five in thorough) of a selected and another PID, symbolic unit-start flags, payloads of 0 (field only) or 2 (thorough: or 1) symbolic bytes; read buffers of 400, 1, 2+1, 3 or 1+5+2 bytes
func H_T08_units() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	var all []byte
	var units [][]byte
	started := false
	for i := 0; i < n; i++ {
		in, pusi := sym.Bool("in"), sym.Bool("pusi")
		pid := 0x100 + hx.B2(in)
		var pay []byte
		sizes := 2
		if sym.Thorough() && i < 3 {
			sizes = 3
		}
		if k := sym.Choice("size", sizes); k > 0 {
			pay = sym.Bytes("b", 3-k)
		}
		all = append(all, pkt(pid, hx.B2(pusi), sym.Bits("cc", 4), pay)...)
		if in && pusi {
			started = true
			units = append(units, nil)
		}
		if in && started {
			units[len(units)-1] = append(units[len(units)-1], pay...)
		}
	}
	r := ts.NewPayloadUnitReader(&hx.Src{B: all}, ts.IsPID(0x101))
	plan := bufPlans[sym.Choice("plan", len(bufPlans))]
	for _, u := range units {
		got, err, _ := drain(r, plan, 3*len(u)+12)
		sym.Assert(err == ts.EOP, "a unit ends with the end-of-unit signal")
		sym.Assert(len(got) == len(u), "unit length")
		sym.Assert(sym.EqBytes(got, u), "unit bytes")
		sym.Reach("unit")
	}
	got, err, _ := drain(r, plan, 12)
	sym.Assert(len(got) == 0, "nothing after the last unit")
	sym.Assert(err == io.EOF, "io.EOF after the last unit")
	sym.Reach("end")
}

// T06: many packets.
// sym:bounds 40 packets, every third of another PID, payloads of 184 bytes or none in a fixed order (the first two bytes and all other header bits symbolic); read buffers of 1, 100, 184, 500 or 4000 bytes, the first twenty of them at most 3 bytes
func H_T06_many() {
	var all, want []byte
	for i := 0; i < 40; i++ {
		var pay []byte
		if i*i%11 != 4 {
			pay = sym.Bytes("b", 2)
			for len(pay) < 184 {
				pay = append(pay, byte(len(pay)+i))
			}
		}
		pid := uint64(0x100)
		if i%3 == 1 {
			pid++
		} else {
			want = append(want, pay...)
		}
		all = append(all, pkt(pid, sym.Bits("pusi", 1), sym.Bits("cc", 4), pay)...)
	}
	r := ts.NewPayloadReader(&hx.Src{B: all}, ts.IsPID(0x100))
	size := []int{1, 100, 184, 500, 4000}[sym.Choice("size", 5)]
	var got []byte
	var err error
	for i := 0; i < 5000 && err == nil; i++ {
		n := size
		if i < 20 {
			n = min(size, 1+i%3)
		}
		buf := make([]byte, n)
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(sym.EqBytes(got, want), "payload bytes delivered in order")
	sym.Assert(err == io.EOF, "ends with io.EOF at a packet boundary")
	sym.Reach("end")
}

// T08: large units.
// sym:bounds 36 packets, every fifth of another PID and with a unit start, units of 1, 17 and 10 packets in any of three orders with 184 payload bytes each (the first symbolic); read buffers of 7, 184, 1000 or 5000 bytes
func H_T08_large() {
	var all []byte
	var units [][]byte
	sizes := [][]int{{1, 17, 10}, {17, 1, 10}, {10, 17, 1}}[sym.Choice("order", 3)]
	k := 0
	for _, n := range sizes {
		var u []byte
		for i := 0; i < n; i++ {
			if k%5 == 4 {
				all = append(all, pkt(0x102, 1, 0, sym.Bytes("o", 1))...)
				k++
			}
			pay := sym.Bytes("b", 1)
			for len(pay) < 184 {
				pay = append(pay, byte(len(pay)+k))
			}
			all = append(all, pkt(0x101, hx.B2(i == 0), sym.Bits("cc", 4), pay)...)
			u = append(u, pay...)
			k++
		}
		units = append(units, u)
	}
	r := ts.NewPayloadUnitReader(&hx.Src{B: all}, ts.IsPID(0x101))
	plan := []int{[]int{7, 184, 1000, 5000}[sym.Choice("size", 4)]}
	for _, u := range units {
		got, err, _ := drain(r, plan, 1000)
		sym.Assert(err == ts.EOP, "a unit ends with the end-of-unit signal")
		sym.Assert(sym.EqBytes(got, u), "unit bytes")
		sym.Reach("unit")
	}
	got, err, _ := drain(r, plan, 12)
	sym.Assert(len(got) == 0, "nothing after the last unit")
	sym.Assert(err == io.EOF, "io.EOF after the last unit")
	sym.Reach("end")
}
