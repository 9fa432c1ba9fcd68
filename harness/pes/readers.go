package pesh

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// P04: payload reader over any sequence of packets.
// sym:bounds 3 packets (4 in thorough) of four kinds (bare header, PTS and stuffing, headerless, padding) with 0, 1 or 3 symbolic payload bytes; read buffers of 1, 2, 3+1 alternating, or 64 bytes; source chunks of 1, 5 or unlimited; the last packet's length may be zero
func H_P04_reader() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var all, want []byte
	for i := 0; i < n; i++ {
		k := []int{0, 1, 3, 4}[sym.Choice("kind", 4)]
		pay := sym.Bytes("b", []int{0, 1, 3}[sym.Choice("len", 3)])
		u := mk(k, pay)
		if i == n-1 && k < 3 && sym.Choice("zero", 2) == 1 {
			u.raw[4], u.raw[5] = 0, 0
		}
		all = append(all, u.raw...)
		want = append(want, u.pay...)
	}
	readAll(all, want)
}

func readAll(all, want []byte) {
	sizes := [][]int{{1}, {2}, {3, 1}, {64}, {0, 2}}[sym.Choice("sizes", 5)]
	r := pes.NewPayloadReader(&hx.Src{B: all, Chunk: []int{0, 1, 5}[sym.Choice("chunk", 3)]})
	var got []byte
	var err error
	for i := 0; i < 60 && err == nil; i++ {
		buf := make([]byte, sizes[i%len(sizes)])
		var k int
		k, err = r.Read(buf)
		sym.Assert(k >= 0 && k <= len(buf), "read count within the buffer")
		got = append(got, buf[:k]...)
	}
	sym.Assert(err == io.EOF, "io.EOF at a packet boundary")
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

// P04: long payloads and reads across packets.
// sym:bounds three packets with 700, 1 and 300 payload bytes (a few symbolic), read with buffers of 256, 512, 701 or 1200 bytes
func H_P04_long() {
	var all, want []byte
	for _, n := range []int{700, 1, 300} {
		pay := sym.Bytes("b", 1)
		for len(pay) < n {
			pay = append(pay, byte(len(pay)*7+len(all)))
		}
		u := mk(sym.Choice("kind", 2), pay)
		all = append(all, u.raw...)
		want = append(want, pay...)
	}
	size := []int{256, 512, 701, 1200}[sym.Choice("size", 4)]
	r := pes.NewPayloadReader(&hx.Src{B: all, Chunk: []int{0, 100}[sym.Choice("chunk", 2)]})
	var got []byte
	var err error
	for i := 0; i < 60 && err == nil; i++ {
		buf := make([]byte, size)
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(err == io.EOF, "io.EOF at a packet boundary")
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.Reach("end")
}

// P04: a payload far larger than the reads.
// sym:bounds a packet of 2000, 5000, 20000 or 65000 payload bytes (the first symbolic) between two small ones, read with 30 buffers of 1, 2, 100 or 600 bytes and then with buffers of 1500
func H_P04_deep() {
	var all, want []byte
	for i := 0; i < 3; i++ {
		n := 3
		if i == 1 {
			n = []int{2000, 5000, 20000, 65000}[sym.Choice("n", 4)]
		}
		u := mk([]int{0, 1, 5}[i], filled("b", n))
		all = append(all, u.raw...)
		want = append(want, u.pay...)
	}
	size := []int{1, 2, 100, 600}[sym.Choice("size", 4)]
	r := pes.NewPayloadReader(&hx.Src{B: all})
	var got []byte
	var err error
	for i := 0; i < 100 && err == nil; i++ {
		if i == 30 {
			size = 1500
		}
		buf := make([]byte, size)
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(err == io.EOF, "io.EOF at a packet boundary")
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.Reach("end")
}

// P04: many packets.
// sym:bounds 40 packets of four kinds in a fixed order with 0..6 payload bytes (the first two symbolic); read buffers of 1, 5, 64 or 3+1 bytes
func H_P04_many() {
	var all, want []byte
	for i := 0; i < 40; i++ {
		u := mk([]int{0, 5, 1, 4}[i*i%7%4], filled("b", i*3%7))
		all = append(all, u.raw...)
		want = append(want, u.pay...)
	}
	sizes := [][]int{{1}, {5}, {64}, {3, 1}}[sym.Choice("sizes", 4)]
	r := pes.NewPayloadReader(&hx.Src{B: all})
	var got []byte
	var err error
	for i := 0; i < 400 && err == nil; i++ {
		buf := make([]byte, sizes[i%len(sizes)])
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(err == io.EOF, "io.EOF at a packet boundary")
	sym.Assert(sym.EqBytes(got, want), "exactly the payload bytes in order")
	sym.Reach("end")
}

// P04: a consumer that reads bits.
// sym:bounds two packets with 1..3 symbolic payload bytes each, consumed eight bits at a time through the bit reader the decoders use
func H_P04_bits() {
	var all, want []byte
	for i := 0; i < 2; i++ {
		u := mk(sym.Choice("kind", 2), sym.Bytes("b", 1+sym.Choice("len", 3)))
		all = append(all, u.raw...)
		want = append(want, u.pay...)
	}
	br := bitreader.NewReader(pes.NewPayloadReader(&hx.Src{B: all}))
	got := hx.Rest(br, 16)
	sym.Assert(sym.EqBytes(got, want), "every payload byte reaches a bit reader")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

var ff = func() []byte {
	b := make([]byte, 184)
	for i := range b {
		b[i] = 0xff
	}
	return b
}()

func tspkt(pid uint64, pusi bool, cc int, pay []byte) []byte {
	w := &hx.W{}
	any := sym.Bits("any", 4)
	w.Put(0x47, 8).Put(0, 1).Flag(pusi).Put(any>>3, 1).Put(pid, 13).Put(0, 2)
	n := len(pay)
	if n == 184 {
		w.Put(1, 2)
	} else {
		w.Put(3, 2)
	}
	w.Put(uint64(cc), 4)
	if n < 184 {
		l := 183 - n
		w.Put(uint64(l), 8)
		if l > 0 {
			w.Put(any&7, 3).Put(0, 5)
			w.Bytes(ff[:l-1])
		}
	}
	w.Bytes(pay)
	return w.B
}

// P05: elementary stream through transport packets.
// sym:bounds two payload units (three in thorough), each one PES packet of declared or zero length with 1..3 elementary stream bytes (symbolic), split over one or two transport packets at any of five points, optionally with packets of another PID in between; reads of 1, 2 or 64 bytes
func H_P05_chain() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var all, want []byte
	cc := 0
	other := sym.Choice("other", 2) == 1
	for i := 0; i < n; i++ {
		pay := sym.Bytes("es", 1+2*sym.Choice("len", 2))
		u := mk(sym.Choice("kind", 2), pay)
		if sym.Choice("zero", 2) == 1 {
			u.raw[4], u.raw[5] = 0, 0
		}
		cut := []int{0, 2, 6, 8, len(u.raw) - 1}[sym.Choice("cut", 5)]
		first := u.raw
		if cut > 0 {
			first = u.raw[:cut]
		}
		all = append(all, tspkt(0x101, true, cc, first)...)
		if other {
			all = append(all, tspkt(0x102, true, 0, []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0, 0, 0x77})...)
		}
		if cut > 0 {
			all = append(all, tspkt(0x101, false, cc+1, u.raw[cut:])...)
		}
		cc += 2
		want = append(want, pay...)
	}
	size := []int{1, 2, 64}[sym.Choice("size", 3)]
	r := pes.NewPayloadReader(ts.NewPayloadUnitReader(&hx.Src{B: all}, ts.IsPID(0x101)))
	var got []byte
	var err error
	for i := 0; i < 60 && err == nil; i++ {
		buf := make([]byte, size)
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(sym.EqBytes(got, want), "exactly the elementary stream bytes before any error")
	sym.Assert(err == io.EOF, "then the end of the stream")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

// P05: payloads that span whole transport packets.
// sym:bounds two PES packets of 400 and 180 bytes (a few symbolic) over full transport packets, declared or zero length; reads of 64 or 1000 bytes
func H_P05_long() {
	var all, want []byte
	cc := 0
	for _, n := range []int{400, 180} {
		pay := sym.Bytes("es", 2)
		for len(pay) < n {
			pay = append(pay, byte(len(pay)*11))
		}
		u := mk(sym.Choice("kind", 2), pay)
		if sym.Choice("zero", 2) == 1 {
			u.raw[4], u.raw[5] = 0, 0
		}
		for off := 0; off < len(u.raw); off += 184 {
			end := min(off+184, len(u.raw))
			all = append(all, tspkt(0x101, off == 0, cc, u.raw[off:end])...)
			cc++
		}
		want = append(want, pay...)
	}
	size := []int{64, 1000}[sym.Choice("size", 2)]
	r := pes.NewPayloadReader(ts.NewPayloadUnitReader(&hx.Src{B: all}, ts.IsPID(0x101)))
	var got []byte
	var err error
	for i := 0; i < 60 && err == nil; i++ {
		buf := make([]byte, size)
		var k int
		k, err = r.Read(buf)
		got = append(got, buf[:k]...)
	}
	sym.Assert(sym.EqBytes(got, want), "exactly the elementary stream bytes before any error")
	sym.Assert(err == io.EOF, "then the end of the stream")
	sym.Reach("end")
}
