package psh

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// put a packet: kinds 0 header, 1 header with PTS and stuffing, 2 headerless, 3 padding
func putPacket(w *hx.W, kind int, pay []byte) (want []byte, id uint32) {
	switch kind {
	case 0:
		w.Start(0xe0).Put(uint64(3+len(pay)), 16).Put(2, 2).Put(sym.Bits("flags", 6), 6).Put(0, 16).Bytes(pay)
		return pay, 0xe0
	case 1:
		w.Start(0xc0).Put(uint64(9+len(pay)), 16).Put(2, 2).Put(sym.Bits("flags", 6), 6).Put(0x8006, 16).Bytes([]byte{0x21, 0, 1, 0, 1, 0xff}).Bytes(pay)
		return pay, 0xc0
	case 2:
		w.Start(0xbf).Put(uint64(len(pay)), 16).Bytes(pay)
		return pay, 0xbf
	}
	w.Start(0xbe).Put(uint64(len(pay)), 16).Bytes(pay)
	return nil, 0xbe
}

func putPack(w *hx.W, withSys bool) {
	p := &pack{scr: sym.Bits("scr", 33), ext: sym.Bits("scrext", 9), rate: sym.Bits("muxrate", 22)}
	if withSys {
		p.sys = &sys{length: 9, rate: 1, audio: 2, video: 3, streams: []bound{{0xe0, 1, 7}}}
	}
	p.put(w, ones, 1)
}

func isEnd(w *hx.W) { w.Start(0xb9) }

// S03: payloads through the pack reader.
// sym:bounds 2 packets (3 in thorough) of three kinds with 0, 1 or 3 symbolic payload bytes, grouped into packs in every way, empty packs included; read buffers 1, 2, 3+1, 0+2 or 64; source chunks of 1, 5 or unlimited
func H_S03_reader() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	w := &hx.W{}
	putPack(w, sym.Choice("sys", 2) == 1)
	var want []byte
	for i := 0; i < n; i++ {
		switch sym.Choice("group", 3) {
		case 1:
			putPack(w, false)
		case 2:
			putPack(w, false)
			putPack(w, true)
		}
		pay := sym.Bytes("b", []int{0, 1, 3}[sym.Choice("len", 3)])
		p, _ := putPacket(w, []int{0, 2, 3}[sym.Choice("kind", 3)], pay)
		want = append(want, p...)
	}
	if sym.Choice("last", 2) == 1 {
		putPack(w, false)
	}
	isEnd(w)
	got, err := readAll(w.B, 60)
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.Assert(err == io.EOF, "io.EOF at the program end code")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

func readAll(all []byte, max int) (got []byte, err error) {
	sizes := [][]int{{1}, {2}, {3, 1}, {64}, {0, 2}}[sym.Choice("sizes", 5)]
	r := ps.NewPackReader(&hx.Src{B: all, Chunk: []int{0, 1, 5}[sym.Choice("chunk", 3)]})
	for i := 0; i < max && err == nil; i++ {
		buf := make([]byte, sizes[i%len(sizes)])
		var k int
		k, err = r.Read(buf)
		sym.Assert(k >= 0 && k <= len(buf), "read count within the buffer")
		got = append(got, buf[:k]...)
	}
	return
}

// S03: long payloads.
// sym:bounds packets of 600, 2 and 300 bytes (two symbolic bytes each) in one or two packs; buffers of 128, 512, 601 or 2000 bytes
func H_S03_long() {
	w := &hx.W{}
	putPack(w, true)
	var want []byte
	for i, n := range []int{600, 2, 300} {
		pay := sym.Bytes("b", 2)
		for len(pay) < n {
			pay = append(pay, byte(len(pay)*7+n))
		}
		if i == 1 && sym.Choice("split", 2) == 1 {
			putPack(w, false)
		}
		p, _ := putPacket(w, sym.Choice("kind", 2), pay)
		want = append(want, p...)
	}
	isEnd(w)
	size := []int{128, 512, 601, 2000}[sym.Choice("size", 4)]
	r := ps.NewPackReader(&hx.Src{B: w.B})
	var got []byte
	var err error
	for i := 0; i < 40 && err == nil; i++ {
		buf := make([]byte, size)
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.Assert(err == io.EOF, "io.EOF at the program end code")
	sym.Reach("end")
}

// S03: a payload far larger than the reads.
// sym:bounds a packet of 2000, 5000, 20000 or 65000 payload bytes (the first two symbolic) between small ones in three packs, read with 30 buffers of 1, 2, 100 or 600 bytes and then with buffers of 1500
func H_S03_deep() {
	w := &hx.W{}
	var want []byte
	for i := 0; i < 3; i++ {
		n := 3
		if i == 1 {
			n = []int{2000, 5000, 20000, 65000}[sym.Choice("n", 4)]
		}
		pay := sym.Bytes("b", 2)
		for len(pay) < n {
			pay = append(pay, byte(len(pay)*7+i))
		}
		putPack(w, i == 0)
		p, _ := putPacket(w, i, pay)
		want = append(want, p...)
	}
	isEnd(w)
	size := []int{1, 2, 100, 600}[sym.Choice("size", 4)]
	r := ps.NewPackReader(&hx.Src{B: w.B})
	var got []byte
	var err error
	for i := 0; i < 100 && err == nil; i++ {
		if i == 30 {
			size = 1500
		}
		buf := make([]byte, size)
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.Assert(err == io.EOF, "io.EOF at the program end code")
	sym.Reach("end")
}

// S03: many packs.
// sym:bounds 40 packets of the four kinds in a fixed order with 0..6 payload bytes (the first two symbolic), in 14 packs; read buffers of 1, 5, 64 or 3+1 bytes
func H_S03_many() {
	w := &hx.W{}
	var want []byte
	for i := 0; i < 40; i++ {
		if i%3 == 0 {
			putPack(w, i%2 == 0)
		}
		pay := sym.Bytes("b", min(2, i*3%7))
		for len(pay) < i*3%7 {
			pay = append(pay, byte(len(pay)*7+i))
		}
		p, _ := putPacket(w, i*i%7%4, pay)
		want = append(want, p...)
	}
	isEnd(w)
	sizes := [][]int{{1}, {5}, {64}, {3, 1}}[sym.Choice("sizes", 4)]
	r := ps.NewPackReader(&hx.Src{B: w.B})
	var got []byte
	var err error
	for i := 0; i < 400 && err == nil; i++ {
		buf := make([]byte, sizes[i%len(sizes)])
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.Assert(err == io.EOF, "io.EOF at the program end code")
	sym.Reach("end")
}

// S03: a consumer that reads bits.
// sym:bounds two packets of 1..3 symbolic payload bytes, consumed eight bits at a time through a bit reader
func H_S03_bits() {
	w := &hx.W{}
	putPack(w, false)
	var want []byte
	for i := 0; i < 2; i++ {
		p, _ := putPacket(w, sym.Choice("kind", 2), sym.Bytes("b", 1+sym.Choice("len", 3)))
		want = append(want, p...)
	}
	isEnd(w)
	br := bitreader.NewReader(ps.NewPackReader(&hx.Src{B: w.B}))
	got := hx.Rest(br, 16)
	sym.Assert(sym.EqBytes(got, want), "every payload byte reaches a bit reader")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

// S03: truncated or malformed streams end with an error.
// sym:bounds a pack with two packets cut after any byte, or with one of its bytes from the first packet on replaced by any value, without a program end code; every buffer size and chunking above
func H_S03_ends() {
	w := &hx.W{}
	putPack(w, false)
	head := len(w.B)
	a, b := sym.Bytes("a", 2), sym.Bytes("b", 1)
	putPacket(w, 0, a)
	p2 := len(w.B)
	putPacket(w, 2, b)
	raw := w.B
	var want []byte
	if sym.Choice("what", 2) == 0 {
		cut := sym.Choice("cut", 34)
		if cut > len(raw) {
			sym.Stop()
		}
		raw = raw[:cut]
		if cut >= p2 {
			want = append(want, a...)
		}
		if cut == len(w.B) {
			want = append(want, b...)
		}
		got, err := readAll(raw, 60)
		sym.Assert(err != nil, "reading ends")
		sym.Assert(len(got) >= len(want) && sym.EqBytes(got[:len(want)], want), "payloads before the end are delivered")
		sym.Reach("cut")
		return
	}
	at := head + []int{0, 1, 2, 3, 4, 5, 6, 8}[sym.Choice("at", 8)]
	raw[at] = sym.U8("bad")
	if at == head+4 || at == head+5 || at == head+8 {
		sym.Assume(sym.Or(raw[at] < 8, raw[at] == 255))
		sym.Concrete(int(raw[at]))
	}
	_, err := readAll(raw, 60)
	sym.Assert(err != nil, "reading ends")
	sym.Reach("bad")
}

type got struct {
	scr  uint32
	sys  bool
	pkts []*pes.Packet
}

// ends are the ways a program stream can end, the first the only good one:
// cut in a start code, garbage, a packet cut in its start code, its length, its
// header or its payload, a packet without its marker, with a broken time stamp,
// with a header longer than the packet, with a stuffing byte that is none, a
// pack header cut short and one without its marker.
var ends = [][]byte{
	{0, 0, 1, 0xb9},
	{0, 0},
	{1, 2, 3, 4, 5},
	{0, 0, 1},
	{0, 0, 1, 0xe0, 0},
	{0, 0, 1, 0xe0, 0, 9, 0x80},
	{0, 0, 1, 0xbf, 0, 9, 1, 2},
	{0, 0, 1, 0xe0, 0, 9, 0x10, 0, 0, 1},
	{0, 0, 1, 0xe0, 0, 9, 0x80, 0x80, 5, 0x31, 0, 1, 0, 1, 0},
	{0, 0, 1, 0xe0, 0, 4, 0x80, 0, 5, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0, 0, 1, 0xe0, 0, 9, 0x80, 0, 2, 0xff, 0x7f, 1, 2},
	{0, 0, 1, 0xba, 0x44},
	{0, 0, 1, 0xba, 0x04, 0, 0, 0},
}

// S04: decoder with one consumer, all schedules.
// sym:bounds one or two packs of 0..2 packets (symbolic payload byte each), ended by the program end code or in one of twelve other ways (cut in a start code, packet or pack header, garbage, malformed packet or pack); the consumer drains packs and packets; every interleaving
func H_S04_decoder() {
	np := 1 + sym.Choice("packs", 2)
	w := &hx.W{}
	var exp [][]byte
	var counts []int
	for i := 0; i < np; i++ {
		p := &pack{scr: uint64(100 + i), ext: 5, rate: 1000}
		if i == 0 {
			p.sys = &sys{length: 9, rate: 1, audio: 2, video: 3, streams: []bound{{0xe0, 1, 7}}}
		}
		p.put(w, ones, 1)
		n := sym.Choice("pkts", 3)
		counts = append(counts, n)
		for j := 0; j < n; j++ {
			pay := sym.Bytes("b", 1)
			putPacket(w, 0, pay)
			exp = append(exp, pay)
		}
	}
	end := sym.Choice("end", len(ends))
	w.Bytes(ends[end])
	d := ps.NewDecoder(hx.BR(w.B))
	done := d.Go()
	var have []got
	k := 0
	for p := range d.Packs() {
		g := got{scr: p.SystemClockReferenceBase, sys: p.SystemHeader != nil}
		for q := range p.Packets() {
			g.pkts = append(g.pkts, q)
		}
		have = append(have, g)
	}
	ok, open := <-done
	sym.Assert(open, "completion is signalled")
	err := d.Err()
	sym.Assert(ok == (end == 0), "success exactly when the program end code was reached")
	sym.Assert((err == nil) == (end == 0), "the error is available at completion")
	_, open = <-done
	sym.Assert(!open, "the completion channel is closed")
	complete := np
	if len(ends[end]) < 4 && counts[np-1] == 0 {
		// the header that runs into the end cannot be told from a truncated one
		complete = np - 1
	}
	sym.Assert(len(have) >= complete && len(have) <= np, "every pack is delivered once")
	for i, g := range have {
		sym.Assert(g.scr == uint32(100+i), "packs in stream order")
		sym.Assert(g.sys == (i == 0), "system header attached to the right pack")
		sym.Assert(len(g.pkts) == counts[i], "every packet of the pack")
		for _, q := range g.pkts {
			sym.Assert(sym.EqBytes(q.Payload, exp[k]), "packets in order with their payload")
			k++
		}
	}
	sym.Observe("packs", uint64(len(have)))
	sym.Observe("ok", hx.B2(ok))
	sym.Reach("end")
}

// S04: consumer goroutine per pack, held packets compared at the end.
// sym:bounds two packs of one packet each; packets of a pack are collected by another goroutine through the payload-only adapter; every interleaving
func H_S04_adapter() {
	w := &hx.W{}
	var exp []byte
	for i := 0; i < 2; i++ {
		p := &pack{scr: uint64(100 + i), ext: 5, rate: 1000}
		p.put(w, ones, 1)
		pay := sym.Bytes("b", 1)
		putPacket(w, 0, pay)
		exp = append(exp, pay...)
	}
	isEnd(w)
	d := ps.NewDecoder(hx.BR(w.B))
	done := d.Go()
	fin := make(chan []byte, 2)
	n := 0
	for p := range d.Packs() {
		n++
		go func(c <-chan []byte) {
			var all []byte
			for x := range c {
				all = append(all, x...)
			}
			fin <- all
		}(p.Packets().PayloadOnly())
	}
	sym.Assert(<-done, "completed at the program end code")
	sym.Assert(d.Err() == nil, "no error")
	sym.Assert(n == 2, "every pack is delivered")
	a, b := <-fin, <-fin
	// the collectors may finish in either order
	sym.Assert(len(a) == 1 && len(b) == 1, "every packet of the pack")
	sym.Assert(sym.Or(sym.And(a[0] == exp[0], b[0] == exp[1]), sym.And(a[0] == exp[1], b[0] == exp[0])), "packet payloads")
	sym.Observe("n", uint64(n))
	sym.Reach("end")
}

// S04: a stream that does not start with a pack.
// sym:bounds any 0..6 bytes
func H_S04_nopack() {
	raw := sym.Bytes("b", sym.Choice("n", 7))
	d := ps.NewDecoder(hx.BR(raw))
	done := d.Go()
	n := 0
	for range d.Packs() {
		n++
	}
	ok := <-done
	sym.Assert(n == 0, "no pack")
	sym.Assert(!ok, "not reported as success")
	sym.Assert(d.Err() != nil, "the error is available")
	sym.Observe("n", uint64(n))
	sym.Reach("end")
}

// S05: arbitrary bytes in the pack header and the system header.
// sym:bounds pack start code followed by 10 symbolic bytes (stuffing length any), then a system header start code with 8 symbolic bytes and up to two stream bounds, the stream ending anywhere
func H_S05_header() {
	raw := append([]byte{0, 0, 1, 0xba}, sym.Bytes("h", 10)...)
	st := sym.Concrete(int(raw[13] & 7))
	for i := 0; i < st; i++ {
		raw = append(raw, 0xff)
	}
	raw = append(raw, 0, 0, 1, 0xbb)
	raw = append(raw, sym.Bytes("s", 8+3*2)...)
	cut := sym.Choice("cut", 45)
	if cut > len(raw) {
		sym.Stop()
	}
	sym.AllocLimit(4096)
	h, err := ps.NewPackHeader(hx.BR(raw[:cut]))
	sym.Assert(err != nil || h != nil, "a header or an error")
	sym.Observe("ok", hx.B2(err == nil))
	if err == nil {
		sym.Reach("ok")
	} else {
		sym.Reach("error")
	}
}

// S05: arbitrary bytes through the pack reader.
// sym:bounds any 0..7 bytes (9 in thorough), or a pack header followed by any 5 bytes (8 in thorough); lengths limited to 0..3, 255 and 65535; 4-byte buffers
func H_S05_reader() {
	n, m := 7, 6
	if sym.Thorough() {
		n, m = 9, 9
	}
	var raw, b []byte
	if sym.Choice("header", 2) == 1 {
		w := &hx.W{}
		putPack(w, false)
		b = append([]byte{0, 0, 1}, sym.Bytes("b", sym.Choice("m", m))...)
		raw = append(w.B, b...)
	} else {
		b = sym.Bytes("b", sym.Choice("n", n+1))
		raw = b
	}
	if len(b) >= 6 {
		sym.Assume(sym.Or(b[4] == 0, b[4] == 255))
		sym.Assume(sym.Or(b[5] < 4, b[5] == 255))
		sym.Concrete(int(b[4]))
		sym.Concrete(int(b[5]))
	}
	if len(b) > 8 {
		sym.Assume(sym.Or(b[8] < 3, b[8] == 255))
		sym.Concrete(int(b[8]))
	}
	sym.AllocLimit(1 << 17)
	r := ps.NewPackReader(&hx.Src{B: raw})
	buf := make([]byte, 4)
	total := 0
	for i := 0; ; i++ {
		k, err := r.Read(buf)
		total += k
		if err != nil {
			sym.Reach("error")
			break
		}
		sym.Assert(i <= len(raw), "reading ends")
		if i > len(raw) {
			break
		}
	}
	sym.Assert(total <= len(raw), "no bytes invented")
}

// S05: the decoder on arbitrary bytes after a pack header.
// sym:bounds a pack header followed by any 0..6 bytes, one schedule
func H_S05_decoder() {
	sym.Preempt(false)
	w := &hx.W{}
	putPack(w, false)
	b := sym.Bytes("b", sym.Choice("n", 7))
	if len(b) >= 6 {
		sym.Assume(sym.Or(b[4] == 0, b[4] == 255))
		sym.Assume(sym.Or(b[5] < 4, b[5] == 255))
		sym.Concrete(int(b[4]))
		sym.Concrete(int(b[5]))
	}
	d := ps.NewDecoder(hx.BR(append(w.B, b...)))
	done := d.Go()
	for p := range d.Packs() {
		for range p.Packets() {
		}
	}
	ok := <-done
	sym.Assert(ok == (d.Err() == nil), "success and error agree")
	sym.Observe("ok", hx.B2(ok))
	sym.Reach("end")
}
