package tsh

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/zzverif/hx"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

func brOf(s *hx.Src) bitreader.BitReader { return bitreader.NewReader(s) }

var stuffing = func() []byte {
	b := make([]byte, 184)
	for i := range b {
		b[i] = 0xff
	}
	return b
}()

// pkt builds a packet carrying payload (at most 184 bytes; nil: none); the
// header bits that do not matter and the first adaptation field flags are
// symbolic.
func pkt(pid, pusi uint64, cc uint64, payload []byte) []byte {
	w := &hx.W{}
	any := sym.Bits("any", 7)
	w.Put(0x47, 8).Put(any>>6, 1).Put(pusi, 1).Put(any>>5&1, 1).Put(pid, 13).Put(any>>3&3, 2)
	n := len(payload)
	switch {
	case payload == nil:
		w.Put(2, 2)
		n = 0
	case n == 184:
		w.Put(1, 2)
	default:
		w.Put(3, 2)
	}
	w.Put(cc, 4)
	if n < 184 {
		l := 183 - n
		w.Put(uint64(l), 8)
		if l > 0 {
			w.Put(any&7, 3).Put(0, 5)
			w.Bytes(stuffing[:l-1])
		}
	}
	w.Bytes(payload)
	return w.B
}

// drain reads r with the given buffer sizes in turn until an error.
func drain(r io.Reader, sizes []int, maxCalls int) (out []byte, err error, calls int) {
	for calls < maxCalls {
		p := make([]byte, sizes[calls%len(sizes)])
		calls++
		n, e := r.Read(p)
		sym.Assert(n >= 0 && n <= len(p), "read count within the buffer")
		out = append(out, p[:n]...)
		if e != nil {
			return out, e, calls
		}
	}
	return out, nil, calls
}

// H_T12: selectors.
// sym:bounds every packet value (13-bit and wider PIDs, both flag values); all expressions of depth up to 3 over the selectors
func H_T12_algebra() {
	p := &ts.Packet{PID: sym.U32("pid"), PayloadUnitStartIndicator: sym.Bool("pusi"), TransportPriority: sym.Bool("prio"), ContinuityCounter: sym.U32("cc")}
	x, y := sym.U32("x"), sym.U32("y")
	var build func(d int) (ts.PacketTester, bool)
	build = func(d int) (ts.PacketTester, bool) {
		n := 6
		if d == 0 {
			n = 3
		}
		switch sym.Choice("op", n) {
		case 0:
			return ts.IsPID(x), p.PID == x
		case 1:
			return ts.IsPayloadUnitStart, p.PayloadUnitStartIndicator
		case 2:
			return ts.IsPID(y), p.PID == y
		case 3:
			t, v := build(d - 1)
			return t.Not(), !v
		case 4:
			a, va := build(d - 1)
			b, vb := build(d - 1)
			return a.And(b), sym.And(va, vb)
		}
		a, va := build(d - 1)
		b, vb := build(d - 1)
		return a.Or(b), sym.Or(va, vb)
	}
	t, v := build(2)
	got := t(p)
	sym.Assert(got == v, "selector is the Boolean combination")
	sym.Assert(t(p) == v, "selector is the same when asked again")
	sym.Observe("v", hx.B2(got))
	sym.Reach("end")
}
