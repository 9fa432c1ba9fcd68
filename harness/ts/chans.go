package tsh

import (
	"io"

	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

type rec struct {
	pid, cc uint32
	pay     []byte
}

// cuts are streams that end inside a packet (but the first): in the header, in
// the adaptation field, behind it, and in the payload.
var cuts = [][]byte{nil, {0x47, 0}, {0x47, 0x40, 0x21, 0x30, 0xb6, 0, 0xff}, append(append([]byte{0x47, 0x40, 0x21, 0x30, 0xb5, 0}, stuffing[:0xb4]...), 7), {0x47, 0x40, 0x21, 0x10}, {0x47, 0x40, 0x21, 0x10, 1, 2, 3}}

func demuxStream(n int, cut int) (all []byte, pids []bool, ccs []uint64, pays [][]byte) {
	for i := 0; i < n; i++ {
		in := sym.Bool("in")
		pay := sym.Bytes("b", 2)
		cc := sym.Bits("cc", 4)
		all = append(all, pkt(0x20+hx.B2(in), sym.Bits("pusi", 1), cc, pay)...)
		ccs = append(ccs, cc)
		pids = append(pids, in)
		pays = append(pays, pay)
	}
	all = append(all, cuts[cut]...)
	return
}

// T09: two channels, one consumer goroutine each, all schedules.
// sym:bounds two packets (three in thorough) with symbolic PIDs, two registered channels with complementary or overlapping conditions, one consumer goroutine per channel plus the completion waiter; every interleaving of channel operations
func H_T09_routing() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	cut := sym.Choice("cut", len(cuts))
	overlap := sym.Choice("overlap", 2) == 1
	all, in, ccs, pays := demuxStream(n, cut)
	d := ts.NewDemuxer(&hx.Src{B: all})
	condB := ts.IsPID(0x20)
	if overlap {
		condB = condB.Or(ts.IsPID(0x21))
	}
	a := d.Where(ts.IsPID(0x21))
	b := d.Where(condB)
	var gotA, gotB []rec
	fin := make(chan bool, 2)
	done := d.Go()
	collect := func(c ts.PacketChannel, out *[]rec) {
		for p := range c {
			*out = append(*out, rec{p.PID, p.ContinuityCounter, append([]byte(nil), p.Payload...)})
		}
		fin <- true
	}
	go collect(a, &gotA)
	go collect(b, &gotB)
	ok := <-done
	sym.Assert(ok, "completion is signalled")
	err := d.Err()
	<-fin
	<-fin
	if cut > 0 {
		sym.Assert(err == io.ErrUnexpectedEOF, "the error that ended parsing is recorded")
	} else {
		sym.Assert(err == io.EOF, "end of stream is recorded")
	}
	ia, ib := 0, 0
	for i := 0; i < n; i++ {
		if in[i] {
			sym.Assert(ia < len(gotA), "every accepted packet is delivered")
			sym.Assert(gotA[ia].pid == 0x21 && uint64(gotA[ia].cc) == ccs[i] && sym.EqBytes(gotA[ia].pay, pays[i]), "packet delivered to the first channel")
			ia++
		}
		if !in[i] || overlap {
			sym.Assert(ib < len(gotB), "every accepted packet is delivered")
			sym.Assert(uint64(gotB[ib].cc) == ccs[i] && sym.EqBytes(gotB[ib].pay, pays[i]), "packet delivered to the second channel")
			ib++
		}
	}
	sym.Assert(ia == len(gotA) && ib == len(gotB), "nothing else is delivered")
	sym.Observe("a", uint64(ia))
	sym.Observe("b", uint64(ib))
	sym.Reach("end")
}

// T09: one consumer serving both channels with select, and completion awaited last.
// sym:bounds three packets with symbolic PIDs, two channels with disjoint conditions, a single consumer using select; every interleaving
func H_T09_select() {
	n := 3
	all, in, ccs, _ := demuxStream(n, 0)
	d := ts.NewDemuxer(&hx.Src{B: all})
	a := d.Where(ts.IsPID(0x21))
	b := d.Where(ts.IsPID(0x21).Not())
	done := d.Go()
	var ca, cb []uint32
	for a != nil || b != nil {
		select {
		case p, ok := <-a:
			if !ok {
				a = nil
			} else {
				ca = append(ca, p.ContinuityCounter)
			}
		case p, ok := <-b:
			if !ok {
				b = nil
			} else {
				cb = append(cb, p.ContinuityCounter)
			}
		}
	}
	<-done
	sym.Assert(d.Err() == io.EOF, "end of stream is recorded")
	ia, ib := 0, 0
	for i := 0; i < n; i++ {
		if in[i] {
			sym.Assert(ia < len(ca) && uint64(ca[ia]) == ccs[i], "first channel in order")
			ia++
		} else {
			sym.Assert(ib < len(cb) && uint64(cb[ib]) == ccs[i], "second channel in order")
			ib++
		}
	}
	sym.Assert(ia == len(ca) && ib == len(cb), "nothing else is delivered")
	sym.Observe("a", uint64(ia))
	sym.Observe("b", uint64(ib))
	sym.Reach("end")
}

// T10: packets kept by the consumer.
// sym:bounds three packets of every kind (field only, PCR, payload only) with symbolic header bits and payload bytes; the consumer looks at what it holds after each further packet and at the end; every interleaving
func H_T10_stable() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var all []byte
	var raws [][]byte
	for i := 0; i < n; i++ {
		raw := anyPacket("p", 1+2*sym.Choice("kind", 2))
		raws = append(raws, raw)
		all = append(all, raw...)
	}
	d := ts.NewDemuxer(&hx.Src{B: all})
	ch := d.Where(func(*ts.Packet) bool { return true })
	done := d.Go()
	var held []*ts.Packet
	look := func() {
		for i, p := range held {
			raw := raws[i]
			sym.Assert(uint64(p.PID) == hx.Be(raw, 11, 13) && uint64(p.ContinuityCounter) == hx.Be(raw, 28, 4), "header of a held packet")
			start := 4
			if raw[3]&0x20 != 0 {
				start = 14
			}
			sym.Assert(len(p.Payload) == 188-start, "payload length of a held packet")
			sym.Assert(sym.EqBytes(p.Payload[:2], raw[start:start+2]), "payload of a held packet")
		}
	}
	for p := range ch {
		held = append(held, p)
		look()
	}
	<-done
	sym.Assert(len(held) == n, "all packets delivered")
	look()
	for _, p := range held {
		sym.Observe("pid", uint64(p.PID))
	}
	sym.Reach("end")
}

// T10: payload slices handed out by the payload-only adapter.
// sym:bounds three packets with two symbolic payload bytes each; every interleaving of demuxer, adapter and consumer
func H_T10_payloads() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	all, _, _, pays := demuxStream(n, 0)
	d := ts.NewDemuxer(&hx.Src{B: all})
	ch := d.Where(func(*ts.Packet) bool { return true }).PayloadOnly()
	done := d.Go()
	var held [][]byte
	for p := range ch {
		held = append(held, p)
		for i := range held {
			sym.Assert(sym.EqBytes(held[i], pays[i]), "payload slice already handed out")
		}
	}
	<-done
	sym.Assert(len(held) == n, "all payloads delivered")
	for i := range held {
		sym.Assert(sym.EqBytes(held[i], pays[i]), "payload slice already handed out")
		sym.ObserveBytes("held", held[i])
	}
	sym.Reach("end")
}

// T10: many packets held.
// sym:bounds 300 packets, alternately field only, with a field, and payload only (every fifth of them symbolic in its header and two payload bytes), kept as packets, as payloads of the payload-only adapter, or as units of three packets of the payload-unit adapter; one schedule
func H_T10_many() {
	sym.Preempt(false)
	const n = 300
	var all []byte
	var raws, pays [][]byte
	for i := 0; i < n; i++ {
		pay := []byte{byte(i), byte(i >> 8)}
		var raw []byte
		if i%5 == 0 {
			pay = sym.Bytes("b", 2)
			raw = pkt(0x20, hx.B2(i%3 == 0), sym.Bits("cc", 4), pay)
		} else {
			w := &hx.W{}
			w.Put(0x47, 8).Flag(false).Flag(i%3 == 0).Flag(false).Put(uint64(0x1000+i), 13).Put(0, 2)
			if i%2 == 0 {
				pay = make([]byte, 184)
				pay[0], pay[183] = byte(i), byte(i*3)
				w.Put(1, 2).Put(uint64(i&15), 4)
			} else {
				w.Put(3, 2).Put(uint64(i&15), 4).Put(181, 8).Put(0, 8).Bytes(stuffing[:180])
			}
			raw = w.Bytes(pay).B
		}
		all = append(all, raw...)
		raws = append(raws, raw)
		pays = append(pays, pay)
	}
	d := ts.NewDemuxer(&hx.Src{B: all})
	ch := d.Where(func(*ts.Packet) bool { return true })
	var held []*ts.Packet
	var heldPays [][]byte
	want := pays
	switch sym.Choice("what", 3) {
	case 0:
		done := d.Go()
		for p := range ch {
			held = append(held, p)
		}
		<-done
		sym.Assert(len(held) == n, "all packets delivered")
		for i, p := range held {
			sym.Assert(uint64(p.PID) == hx.Be(raws[i], 11, 13) && uint64(p.ContinuityCounter) == hx.Be(raws[i], 28, 4), "header of a held packet")
			heldPays = append(heldPays, p.Payload)
		}
	case 1:
		c := ch.PayloadOnly()
		done := d.Go()
		for p := range c {
			heldPays = append(heldPays, p)
		}
		<-done
	case 2:
		want = nil
		for i := 0; i < n; i += 3 {
			want = append(want, append(append(append([]byte{}, pays[i]...), pays[i+1]...), pays[i+2]...))
		}
		c := ch.PayloadUnit()
		done := d.Go()
		for p := range c {
			heldPays = append(heldPays, p)
		}
		<-done
	}
	sym.Assert(len(heldPays) == len(want), "all payloads delivered")
	for i := range heldPays {
		sym.Assert(sym.EqBytes(heldPays[i], want[i]), "payload already handed out")
	}
	sym.Reach("end")
}

// T11: payload-only adapter over a channel fed directly.
// sym:bounds three packets with payloads of 0..2 symbolic bytes, fed by a goroutine; every interleaving
func H_T11_only() {
	n := 3
	in := make(chan *ts.Packet)
	var pays [][]byte
	for i := 0; i < n; i++ {
		pays = append(pays, sym.Bytes("b", sym.Choice("n", 3)))
	}
	out := ts.PacketChannel(in).PayloadOnly()
	go func() {
		for _, p := range pays {
			in <- &ts.Packet{Payload: p}
		}
		close(in)
	}()
	i := 0
	for p := range out {
		sym.Assert(i < n, "no extra payload")
		sym.Assert(sym.EqBytes(p, pays[i]), "payload forwarded")
		i++
	}
	sym.Assert(i == n, "every payload forwarded")
	sym.Observe("n", uint64(i))
	sym.Reach("end")
}

// T11: payload-unit adapter.
// sym:bounds four packets (five in thorough) with symbolic unit-start flags and payloads of 0..2 symbolic bytes; units kept by the consumer to the end
func H_T11_units() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	sym.Preempt(false)
	in := make(chan *ts.Packet)
	var ps []*ts.Packet
	var units [][]byte
	for i := 0; i < n; i++ {
		pusi := sym.Bool("pusi")
		pay := sym.Bytes("b", sym.Choice("n", 3))
		ps = append(ps, &ts.Packet{Payload: pay, PayloadUnitStartIndicator: pusi})
		if pusi {
			units = append(units, nil)
		}
		if len(units) > 0 {
			units[len(units)-1] = append(units[len(units)-1], pay...)
		}
	}
	out := ts.PacketChannel(in).PayloadUnit()
	go func() {
		for _, p := range ps {
			in <- p
		}
		close(in)
	}()
	var got [][]byte
	for u := range out {
		got = append(got, u)
	}
	sym.Assert(len(got) == len(units), "number of units")
	for i := range got {
		sym.Assert(sym.EqBytes(got[i], units[i]), "unit content")
		sym.ObserveBytes("unit", got[i])
	}
	sym.Reach("end")
}

// T11: payload-unit adapter under every schedule.
// sym:bounds two packets, the first of which may start a unit; every interleaving
func H_T11_unitsched() {
	in := make(chan *ts.Packet)
	s0, s1 := sym.Bool("s0"), sym.Bool("s1")
	b0, b1 := sym.Bytes("b", 1), sym.Bytes("c", 1)
	out := ts.PacketChannel(in).PayloadUnit()
	go func() {
		in <- &ts.Packet{Payload: b0, PayloadUnitStartIndicator: s0}
		in <- &ts.Packet{Payload: b1, PayloadUnitStartIndicator: s1}
		close(in)
	}()
	var got []byte
	n := 0
	for u := range out {
		got = append(got, u...)
		n++
	}
	var want []byte
	if s0 {
		want = append(want, b0...)
	}
	if s0 || s1 {
		want = append(want, b1...)
	}
	sym.Assert(n == int(hx.B2(s0)+hx.B2(s1)), "number of units")
	sym.Assert(sym.EqBytes(got, want), "unit content")
	sym.ObserveBytes("units", got)
	sym.Reach("end")
}

// T09: many packets and channels.
// sym:bounds 40 packets of four PIDs in a fixed order (other header bits and two payload bytes symbolic), five channels with overlapping conditions, one of which accepts nothing, served by one goroutine each; one schedule
func H_T09_many() {
	sym.Preempt(false)
	var all []byte
	var ccs []uint64
	var pays [][]byte
	pid := func(i int) uint32 { return uint32(0x20 + i*i%7%4) }
	for i := 0; i < 40; i++ {
		cc, pay := sym.Bits("cc", 4), sym.Bytes("b", 2)
		all = append(all, pkt(uint64(pid(i)), uint64(i%2), cc, pay)...)
		ccs = append(ccs, cc)
		pays = append(pays, pay)
	}
	d := ts.NewDemuxer(&hx.Src{B: all})
	conds := []ts.PacketTester{ts.IsPID(0x21), ts.IsPID(0x20).Or(ts.IsPID(0x22)), ts.IsPID(0x30), ts.IsPayloadUnitStart, ts.IsPID(0x21).Not()}
	accept := []func(i int) bool{
		func(i int) bool { return pid(i) == 0x21 },
		func(i int) bool { return pid(i) == 0x20 || pid(i) == 0x22 },
		func(i int) bool { return false },
		func(i int) bool { return i%2 == 1 },
		func(i int) bool { return pid(i) != 0x21 },
	}
	got := make([][]*ts.Packet, len(conds))
	fin := make(chan bool, len(conds))
	for k := range conds {
		c := d.Where(conds[k])
		go func(k int) {
			for p := range c {
				got[k] = append(got[k], p)
			}
			fin <- true
		}(k)
	}
	<-d.Go()
	for range conds {
		<-fin
	}
	sym.Assert(d.Err() == io.EOF, "end of stream is recorded")
	for k := range conds {
		n := 0
		for i := 0; i < 40; i++ {
			if !accept[k](i) {
				continue
			}
			sym.Assert(n < len(got[k]), "every accepted packet is delivered")
			p := got[k][n]
			sym.Assert(p.PID == pid(i) && uint64(p.ContinuityCounter) == ccs[i], "packets in order")
			sym.Assert(sym.EqBytes(p.Payload, pays[i]), "payload of a packet kept to the end")
			n++
		}
		sym.Assert(n == len(got[k]), "nothing else is delivered")
	}
	sym.Reach("end")
}

// T11: long units.
// sym:bounds 30 packets of 184 payload bytes (the first two symbolic) in units of 1, 20 and 9 packets in any of three orders, units kept to the end; one schedule
func H_T11_long() {
	sym.Preempt(false)
	in := make(chan *ts.Packet)
	var ps []*ts.Packet
	var units [][]byte
	for _, n := range [][]int{{1, 20, 9}, {20, 9, 1}, {9, 1, 20}}[sym.Choice("order", 3)] {
		var u []byte
		for i := 0; i < n; i++ {
			pay := sym.Bytes("b", 2)
			for len(pay) < 184 {
				pay = append(pay, byte(len(pay)+i))
			}
			ps = append(ps, &ts.Packet{Payload: pay, PayloadUnitStartIndicator: i == 0})
			u = append(u, pay...)
		}
		units = append(units, u)
	}
	out := ts.PacketChannel(in).PayloadUnit()
	go func() {
		for _, p := range ps {
			in <- p
		}
		close(in)
	}()
	var got [][]byte
	for u := range out {
		got = append(got, u)
	}
	sym.Assert(len(got) == len(units), "number of units")
	for i := range got {
		sym.Assert(sym.EqBytes(got[i], units[i]), "unit content")
	}
	sym.Reach("end")
}
