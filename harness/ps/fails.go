package psh

import (
	"errors"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

var errSource = errors.New("source failed")

// S06: a source that fails within a pack header.
// sym:bounds a pack header with symbolic fields and two stuffing bytes, with or without a system header of two streams; the source failing with its own error after any of its bytes, and, without a system header, up to 3 bytes behind it
func H_S06_header() {
	w := &hx.W{}
	p := &pack{scr: sym.Bits("scr", 33), ext: sym.Bits("scrext", 9), rate: sym.Bits("muxrate", 22)}
	if sym.Choice("sys", 2) == 1 {
		p.sys = &sys{length: 12, rate: 1, audio: 2, video: 3, streams: []bound{{0xe0, 1, 7}, {0xc0, 0, 9}}}
	}
	p.put(w, ones, 1)
	if p.sys == nil {
		// the next bits decide whether there is a system header
		w.Bytes([]byte{0, 0, 1})
	}
	cut := sym.Choice("cut", len(w.B)+1)
	_, err := ps.NewPackHeader(bitreader.NewReader(&hx.Src{B: w.B[:cut], Err: errSource, Chunk: 3 * sym.Choice("chunk", 2)}))
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.Reach("end")
}

// failing is a program stream of two packs of one packet each and where its
// source fails.
func failing() (b []byte, want [][]byte) {
	w := &hx.W{}
	var ends []int
	for i := 0; i < 2; i++ {
		putPack(w, i == 0 && sym.Choice("sys", 2) == 1)
		ends = append(ends, len(w.B))
		pay := sym.Bytes("b", 2)
		p, _ := putPacket(w, sym.Choice("kind", 3), pay)
		ends = append(ends, len(w.B))
		want = append(want, p)
	}
	isEnd(w)
	k := sym.Choice("whole", 5)
	cut := len(w.B) - 1
	if k < 4 {
		from := 0
		if k > 0 {
			from = ends[k-1]
		}
		cut = []int{from, from + 3, ends[k] - 1}[sym.Choice("in", 3)]
	}
	return w.B[:cut], want[:k/2]
}

// S06: the pack reader on a source that fails.
// sym:bounds two packs (the first with a system header or not) of one packet of three kinds with two symbolic payload bytes, the source failing at, 3 bytes into or one byte before the end of each pack header and packet, or in the end code; read buffers of 1, 2, 3 or 64 bytes
func H_S06_reader() {
	b, pays := failing()
	var want []byte
	for _, p := range pays {
		want = append(want, p...)
	}
	r := ps.NewPackReader(&hx.Src{B: b, Err: errSource, Chunk: 5 * sym.Choice("chunk", 2)})
	size := []int{1, 2, 3, 64}[sym.Choice("size", 4)]
	var got []byte
	var err error
	for i := 0; i < 20 && err == nil; i++ {
		buf := make([]byte, size)
		var n int
		n, err = r.Read(buf)
		got = append(got, buf[:n]...)
	}
	sym.Assert(sym.EqBytes(got, want), "the payloads before a source's failure are delivered, and nothing else")
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

// S06: the pack reader on a source that fails within a long packet.
// sym:bounds a pack with a packet of two symbolic payload bytes and one of 600, 5000 or 65000, the source failing after 1, 255, 512, 513, 4096, 64000 or all but one of its payload bytes; read buffers of 64 or 1000 bytes, source chunks unlimited or 1000
func H_S06_long() {
	w := &hx.W{}
	putPack(w, false)
	want, _ := putPacket(w, 0, sym.Bytes("a", 2))
	n := []int{600, 5000, 65000}[sym.Choice("n", 3)]
	pay := make([]byte, n)
	copy(pay, sym.Bytes("b", 2))
	putPacket(w, sym.Choice("kind", 2), pay)
	cut := []int{1, 255, 512, 513, 4096, 64000, n - 1}[sym.Choice("cut", 7)]
	sym.Assume(cut < n)
	r := ps.NewPackReader(&hx.Src{B: w.B[:len(w.B)-n+cut], Err: errSource, Chunk: 1000 * sym.Choice("chunk", 2)})
	size := []int{64, 1000}[sym.Choice("size", 2)]
	var got []byte
	var err error
	for i := 0; i < 20 && err == nil; i++ {
		buf := make([]byte, size)
		var m int
		m, err = r.Read(buf)
		got = append(got, buf[:m]...)
	}
	sym.Assert(sym.EqBytes(got, want), "the payloads before a source's failure are delivered, and nothing else")
	sym.Assert(err == errSource, "the source's error is passed on")
	sym.ObserveBytes("got", got)
	sym.Reach("end")
}

// S06: the decoder on a source that fails.
// sym:bounds the same streams; one consumer that drains packs and packets; every interleaving
func H_S06_decoder() {
	b, pays := failing()
	d := ps.NewDecoder(bitreader.NewReader(&hx.Src{B: b, Err: errSource}))
	done := d.Go()
	k := 0
	for p := range d.Packs() {
		for q := range p.Packets() {
			sym.Assert(k < len(pays), "only packets read before the failure")
			if k < len(pays) {
				sym.Assert(sym.EqBytes(q.Payload, pays[k]), "the packets before a source's failure are delivered")
			}
			k++
		}
	}
	sym.Assert(k == len(pays), "every packet read before the failure")
	sym.Assert(!<-done, "completion is signalled without success")
	sym.Assert(d.Err() == errSource, "the source's error is recorded")
	sym.Reach("end")
}
