// Package hx holds helpers shared by the harnesses: bit strings, byte sources
// with chosen chunking, and comparisons. It depends on nothing under test.
package hx

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// Be reads n bits at bit offset off of b, most significant bit first.
func Be(b []byte, off, n int) uint64 {
	v := uint64(0)
	for n > 0 {
		k := 8 - off%8
		if k > n {
			k = n
		}
		x := uint64(b[off/8]) >> uint(8-off%8-k) & (1<<uint(k) - 1)
		v = v<<uint(k) | x
		off += k
		n -= k
	}
	return v
}

// W assembles a bit string.
type W struct {
	B    []byte
	Fill uint // bits used in the last byte (0: full)
}

func (w *W) Put(v uint64, n int) *W {
	for n > 0 {
		if w.Fill == 0 {
			w.B = append(w.B, 0)
		}
		k := 8 - int(w.Fill)
		if k > n {
			k = n
		}
		x := uint8(v>>uint(n-k)) & uint8(1<<uint(k)-1)
		w.B[len(w.B)-1] |= x << uint(8-int(w.Fill)-k)
		w.Fill = (w.Fill + uint(k)) % 8
		n -= k
	}
	return w
}

// Bits appends a literal bit string ("0010 11").
func (w *W) Bits(s string) *W {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '0':
			w.Put(0, 1)
		case '1':
			w.Put(1, 1)
		}
	}
	return w
}

func (w *W) Flag(b bool) *W { return w.Put(B2(b), 1) }

func (w *W) Bytes(b []byte) *W {
	if w.Fill == 0 {
		w.B = append(w.B, b...)
		return w
	}
	for _, x := range b {
		w.Put(uint64(x), 8)
	}
	return w
}

// Align pads with zero bits to a byte boundary.
func (w *W) Align() *W {
	w.Fill = 0
	return w
}

func (w *W) Len() int {
	if w.Fill == 0 {
		return len(w.B) * 8
	}
	return len(w.B)*8 - 8 + int(w.Fill)
}

func (w *W) Start(code int) *W {
	w.Align()
	return w.Put(uint64(0x100|code), 32)
}

func B2(b bool) uint64 { return sym.Ite64(b, 1, 0) }

// Src is a reader over B handing out at most Chunk bytes per call (0: no
// limit), ending with Err (io.EOF when nil).
type Src struct {
	B     []byte
	Off   int
	Chunk int
	Err   error
	Calls int
}

func (s *Src) Read(p []byte) (int, error) {
	s.Calls++
	if len(p) == 0 {
		return 0, nil
	}
	n := len(s.B) - s.Off
	if n == 0 {
		if s.Err != nil {
			return 0, s.Err
		}
		return 0, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	if s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
	}
	copy(p, s.B[s.Off:s.Off+n])
	s.Off += n
	return n, nil
}

func BR(b []byte) bitreader.BitReader { return bitreader.NewReader(&Src{B: b}) }

// Rest reads everything left in br as bytes (br must be aligned).
func Rest(br bitreader.BitReader, max int) []byte {
	var out []byte
	for len(out) < max {
		v, err := br.Read32(8)
		if err != nil {
			break
		}
		out = append(out, byte(v))
	}
	return out
}
