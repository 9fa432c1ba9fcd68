package pesh

import (
	"errors"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

var errSource = errors.New("source failed")

// P06: a source that fails within a packet.
// sym:bounds one packet of six kinds (bare header, time stamp and stuffing, extension, headerless, padding, private stream) with three symbolic payload bytes, its length declared or zero where allowed, the source failing with its own error after any of its bytes, or, for a packet of undeclared length, behind it
func H_P06_packet() {
	k := sym.Choice("kind", 6)
	u := mk(k, sym.Bytes("b", 3))
	n := len(u.raw)
	if k < 3 && sym.Choice("zero", 2) == 1 {
		u.raw[4], u.raw[5] = 0, 0
		n++
	}
	cut := sym.Choice("cut", n)
	s := &hx.Src{B: u.raw[:cut], Err: errSource, Chunk: 3 * sym.Choice("chunk", 2)}
	_, err := pes.NewPacket(bitreader.NewReader(s))
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.Reach("end")
}

// P06: the payload reader on a source that fails.
// sym:bounds three packets of four kinds with two symbolic payload bytes each, the source failing at a packet boundary or inside one (five places); read buffers of 1, 2, 3 or 64 bytes; source chunks unlimited or 5
func H_P06_reader() {
	whole := sym.Choice("whole", 4)
	var all, want []byte
	for i := 0; i < 3; i++ {
		u := mk([]int{0, 1, 3, 4}[sym.Choice("kind", 4)], sym.Bytes("b", 2))
		if i > whole {
			break
		}
		if i == whole {
			cut := []int{0, 2, 4, 7, len(u.raw) - 1}[sym.Choice("in", 5)]
			all = append(all, u.raw[:cut]...)
			break
		}
		all = append(all, u.raw...)
		want = append(want, u.pay...)
	}
	r := pes.NewPayloadReader(&hx.Src{B: all, Err: errSource, Chunk: 5 * sym.Choice("chunk", 2)})
	size := []int{1, 2, 3, 64}[sym.Choice("size", 4)]
	var got []byte
	var err error
	for i := 0; i < 20 && err == nil; i++ {
		buf := make([]byte, size)
		var n int
		n, err = r.Read(buf)
		got = append(got, buf[:n]...)
	}
	sym.Assert(sym.EqBytes(got, want), "the payloads before a source's failure are delivered, and nothing else")
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

// P06: a source that fails within a long packet.
// sym:bounds a packet of 2 payload bytes, then one of 600, 5000 or 65000 (two symbolic bytes each) with or without optional header, its length declared or, for the shortest, zero, the source failing after 1, 255, 512, 513, 4096, 64000 or all but one of its payload bytes; read buffers of 64 or 1000 bytes, source chunks unlimited or 1000
func H_P06_long() {
	first := mk(0, sym.Bytes("a", 2))
	n := []int{600, 5000, 65000}[sym.Choice("n", 3)]
	pay := make([]byte, n)
	copy(pay, sym.Bytes("b", 2))
	kind := []int{1, 5}[sym.Choice("kind", 2)]
	u := mk(kind, pay)
	if kind == 1 && n == 600 && sym.Choice("zero", 2) == 1 {
		u.raw[4], u.raw[5] = 0, 0
	}
	cut := []int{1, 255, 512, 513, 4096, 64000, n - 1}[sym.Choice("cut", 7)]
	sym.Assume(cut < n)
	all := append(append([]byte{}, first.raw...), u.raw[:len(u.raw)-n+cut]...)
	r := pes.NewPayloadReader(&hx.Src{B: all, Err: errSource, Chunk: 1000 * sym.Choice("chunk", 2)})
	size := []int{64, 1000}[sym.Choice("size", 2)]
	var got []byte
	var err error
	for i := 0; i < 20 && err == nil; i++ {
		buf := make([]byte, size)
		var m int
		m, err = r.Read(buf)
		got = append(got, buf[:m]...)
	}
	sym.Assert(sym.EqBytes(got, first.pay), "the payloads before a source's failure are delivered, and nothing else")
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}
