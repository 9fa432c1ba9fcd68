package videoh

import (
	"image"
	"io"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// pesPacket wraps part of an elementary stream; undeclared leaves its length out.
func pesPacket(es []byte, undeclared bool, kind int) []byte {
	w := &hx.W{}
	n := 3 + len(es)
	head := []byte{0x80, 0, 0}
	if kind == 1 { // a time stamp and stuffing
		head = []byte{0x80, 0x80, 7, 0x21, 0, 1, 0, 1, 0xff, 0xff}
		n += 7
	}
	if undeclared {
		n = 0
	}
	w.Start(0xe0).Put(uint64(n), 16).Bytes(head).Bytes(es)
	return w.B
}

// tsPackets splits a unit over transport packets, with packets of another
// stream in between.
func tsPackets(unit []byte, cc *int, size int, other bool) (out []byte) {
	for off := 0; off < len(unit); off += size {
		b := unit[off:min(off+size, len(unit))]
		w := &hx.W{}
		w.Put(0x47, 8).Put(0, 1).Flag(off == 0).Put(0, 1).Put(0x21, 13).Put(0, 2)
		if n := 183 - len(b); n < 0 {
			w.Put(1, 2).Put(uint64(*cc&15), 4)
		} else {
			w.Put(3, 2).Put(uint64(*cc&15), 4).Put(uint64(n), 8)
			if n > 0 {
				w.Put(0, 8)
			}
			for i := 1; i < n; i++ {
				w.Put(0xff, 8)
			}
		}
		w.Bytes(b)
		*cc++
		out = append(out, w.B...)
		if other {
			o := &hx.W{}
			o.Put(0x47, 8).Put(2, 3).Put(0x31, 13).Put(1, 4).Put(uint64(*cc&15), 4)
			for i := 0; i < 184; i++ {
				o.Put(uint64([]int{0, 0, 1, 0xb7}[i%4]), 8)
			}
			out = append(out, o.B...)
		}
	}
	return
}

// X01: through all the layers.
// sym:bounds an elementary stream of one of five arrangements of 1 to 4 pictures (symbolic contents), in transport packets (full, or of 50 payload bytes; packets of another stream in between or not) through the payload unit reader, or the payload reader, and the PES payload reader, or in a program stream through the pack reader; PES packets of 30, 97 or all bytes, of declared or undeclared length, headers bare or with time stamp and stuffing; the beginning preceded or not by bytes of an earlier picture that are skipped by aligning to the sequence header; source chunks unlimited or 7 bytes
// sym:timeout 300
func H_X01_layers() {
	arr := sym.Choice("arrangement", 5)
	seq := &hx.W{}
	n := sequence(seq, &seqHdr{w: 16, h: 16}, true, arr)
	es := seq.B
	join := sym.Choice("join", 2) == 1
	if join {
		es = append([]byte{0x12, 0, 0, 1, 2, 0x33, 0, 0, 1, 0xb8, 0, 8, 0, 0}, es...)
	}
	way := sym.Choice("way", 3)
	size := []int{30, 97, len(es)}[sym.Choice("size", 3)]
	kind := sym.Choice("kind", 2)
	undeclared := way == 0 && sym.Choice("undeclared", 2) == 1
	full, other := 184, false
	if way < 2 {
		full = []int{184, 50}[sym.Choice("full", 2)]
		other = sym.Choice("other", 2) == 1
	}
	var all []byte
	cc := 3
	w := &hx.W{}
	for off := 0; off < len(es); off += size {
		p := pesPacket(es[off:min(off+size, len(es))], undeclared, kind)
		if way < 2 {
			all = append(all, tsPackets(p, &cc, full, other)...)
			continue
		}
		if off == 0 || off/size%3 == 2 { // several packets in a pack
			w.Start(0xba).Put(1, 2).Put(0, 3).Put(1, 1).Put(0, 15).Put(1, 1).Put(5, 15).Put(1, 1).Put(0, 9).Put(1, 1).Put(999, 22).Put(3, 2).Put(0x1f, 5).Put(0, 3)
		}
		w.Bytes(p)
	}
	if way == 2 {
		w.Start(0xb9)
		all = w.B
	}
	src := &hx.Src{B: all, Chunk: 7 * sym.Choice("chunk", 2)}
	var r io.Reader
	switch way {
	case 0:
		r = pes.NewPayloadReader(ts.NewPayloadUnitReader(src, ts.IsPID(0x21)))
	case 1:
		r = pes.NewPayloadReader(ts.NewPayloadReader(src, ts.IsPID(0x21)))
	case 2:
		r = ps.NewPackReader(src)
	}
	d := video.NewVideoSequence(r)
	if join {
		sym.Assert(d.AlignTo(video.SequenceHeaderStartCode) == nil, "the sequence header is found")
	}
	got, err := frames(d, 8)
	want, _ := frames(decoder(seq.B), 8)
	sym.Assert(err == video.EOS, "the end of the sequence is reported")
	sym.Assert(len(want) == n && len(got) == n, "every picture")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		sym.Assert(sameImage(got[i], want[i]), "the frames of the elementary stream")
	}
	sym.Observe("y", uint64(got[0].Y[0]))
	sym.Reach("end")
}

func frames(d *video.VideoSequence, max int) ([]*image.YCbCr, error) { return all(d, max) }

// X02: two decoders at work in turn.
// sym:bounds two streams of five arrangements of 1 to 4 pictures each (symbolic contents), of different sizes and matrices (loaded in a header or in an extension), decoded in turn: a frame of one, then one or two of the other
// sym:steps 100000000
// sym:timeout 300
func H_X02_turns() {
	a, b := &hx.W{}, &hx.W{}
	sa := &seqHdr{w: 32, h: 16, intra: pattern(64, 3), nonIntra: pattern(64, 9)}
	if sym.Choice("loaded", 2) == 1 {
		sa = &seqHdr{w: 32, h: 16, qm: pattern(64, 3)}
	}
	sequence(a, sa, true, sym.Choice("a", 5))
	sequence(b, &seqHdr{w: 16, h: 16}, sym.Choice("headers", 2) == 1, sym.Choice("b", 5))
	wantB, _ := all(decoder(b.B), 8) // the matrices of the other are not known yet
	wantA, _ := all(decoder(a.B), 8)
	da, db := decoder(a.B), decoder(b.B)
	var gotA, gotB []*image.YCbCr
	step := 1 + sym.Choice("step", 2)
	for i := 0; i < 8; i++ {
		if f, err := da.Next(); err == nil {
			gotA = append(gotA, f)
		}
		for j := 0; j < step; j++ {
			if f, err := db.Next(); err == nil {
				gotB = append(gotB, f)
			}
		}
	}
	sym.Assert(len(gotA) == len(wantA) && len(gotB) == len(wantB), "every picture of both")
	if len(gotA) != len(wantA) || len(gotB) != len(wantB) {
		return
	}
	for i := range gotA {
		sym.Assert(sameImage(gotA[i], wantA[i]), "the first decoder's frames do not depend on the second")
	}
	for i := range gotB {
		sym.Assert(sameImage(gotB[i], wantB[i]), "the second decoder's frames do not depend on the first")
	}
	sym.Reach("end")
}

// X02: two decoders in two goroutines.
// sym:bounds the same streams (three arrangements) decoded by two goroutines at once: every access to memory they share is a data race
// sym:steps 100000000
// sym:timeout 300
func H_X02_concurrent() {
	a, b := &hx.W{}, &hx.W{}
	sequence(a, &seqHdr{w: 32, h: 16, intra: pattern(64, 3), nonIntra: pattern(64, 9)}, true, 1+sym.Choice("a", 3))
	sequence(b, &seqHdr{w: 16, h: 16}, sym.Choice("headers", 2) == 1, 1+sym.Choice("b", 3))
	fin := make(chan int, 2)
	run := func(b []byte) {
		got, _ := all(decoder(b), 8)
		fin <- len(got)
	}
	go run(a.B)
	go run(b.B)
	n := <-fin
	m := <-fin
	sym.Assert(n > 1 && m > 1, "both decode")
	sym.Reach("end")
}

// X02: transport, PES and program stream readers in two goroutines.
// sym:bounds a transport stream with a PES stream and a program stream with concrete contents, the same reader of both kinds at work in two goroutines at once: every access to memory they share is a data race
// sym:timeout 300
func H_X02_readers() {
	kind := sym.Choice("kind", 4)
	es := pattern(64, 5)
	pad := &hx.W{}
	pad.Start(0xbe).Put(20, 16).Bytes(pattern(20, 1))
	pk := append(pesPacket(es, false, 1), pad.B...)
	pk = append(pk, pesPacket(es, false, 0)...)
	cc := 0
	b := tsPackets(pk, &cc, 100, true)
	switch kind {
	case 2:
		b = pk
	case 3:
		w := &hx.W{}
		w.Start(0xba).Put(1, 2).Put(0, 3).Put(1, 1).Put(0, 15).Put(1, 1).Put(5, 15).Put(1, 1).Put(0, 9).Put(1, 1).Put(999, 22).Put(3, 2).Put(0x1f, 5).Put(0, 3)
		w.Bytes(pk).Start(0xb9)
		b = w.B
	}
	fin := make(chan int, 2)
	run := func() {
		src := &hx.Src{B: b}
		var r io.Reader
		switch kind {
		case 0:
			r = pes.NewPayloadReader(ts.NewPayloadUnitReader(src, ts.IsPID(0x21)))
		case 1:
			r = pes.NewPayloadReader(ts.NewPayloadReader(src, ts.IsPID(0x21)))
		case 2:
			r = pes.NewPayloadReader(src)
		case 3:
			r = ps.NewPackReader(src)
		}
		p := make([]byte, 50)
		n := 0
		for i := 0; i < 9; i++ {
			k, err := r.Read(p)
			n += k
			if err != nil {
				break
			}
		}
		fin <- n
	}
	go run()
	go run()
	n := <-fin
	m := <-fin
	sym.Assert(n == m && n == 128, "both deliver their payload")
	sym.Reach("end")
}
