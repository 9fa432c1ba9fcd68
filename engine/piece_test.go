package main

import (
	"math/rand"
	"testing"
)

// Every way of writing a clamp gives one term.
func TestClampForms(t *testing.T) {
	for _, narrow := range []bool{false, true} {
		tt := NewTT()
		var s *Term
		if narrow {
			s = tt.Sub(tt.ZExt(tt.Var("p", 8), 32), tt.ZExt(tt.Var("q", 11), 32))
		} else {
			s = tt.Var("s", 32)
		}
		k := func(v int32) *Term { return tt.Const(32, uint64(uint32(v))) }
		lo8 := func(x *Term) *Term { return tt.Extract(x, 7, 0) }
		mn := func(a, b *Term) *Term { return tt.Ite(tt.Slt(b, a), b, a) }
		mx := func(a, b *Term) *Term { return tt.Ite(tt.Slt(a, b), b, a) }
		forms := []*Term{
			tt.Ite(tt.Slt(k(255), s), tt.Const(8, 255), tt.Ite(tt.Slt(s, k(0)), tt.Const(8, 0), lo8(s))),
			tt.Ite(tt.Slt(s, k(0)), tt.Const(8, 0), tt.Ite(tt.Slt(k(255), s), tt.Const(8, 255), lo8(s))),
			tt.Ite(tt.Slt(s, k(1)), tt.Const(8, 0), tt.Ite(tt.Slt(k(254), s), tt.Const(8, 255), lo8(s))),
			lo8(mx(k(0), mn(k(255), s))),
			lo8(mx(mn(s, k(255)), k(0))),
			lo8(mn(mx(k(0), s), k(255))),
			lo8(mn(k(255), mx(s, k(0)))),
			tt.Ite(tt.Ult(k(255), s), tt.Ite(tt.Slt(s, k(0)), tt.Const(8, 0), tt.Const(8, 255)), lo8(s)),
		}
		for i, f := range forms {
			if !same(f, forms[0]) {
				t.Errorf("narrow %v: form %d: %s\nwant %s", narrow, i, f.String(), forms[0].String())
			}
		}
		forms = []*Term{
			mx(k(-2048), mn(k(2047), s)),
			mn(mx(s, k(-2048)), k(2047)),
			tt.Ite(tt.Slt(s, k(-2048)), k(-2048), tt.Ite(tt.Slt(k(2047), s), k(2047), s)),
			tt.Ite(tt.Slt(k(2047), s), k(2047), tt.Ite(tt.Slt(s, k(-2048)), k(-2048), s)),
		}
		for i, f := range forms {
			if !same(f, forms[0]) {
				t.Errorf("narrow %v: form %d: %s\nwant %s", narrow, i, f.String(), forms[0].String())
			}
		}
	}
}

// Random nests of comparisons mean what they say.
func TestPiecesRandom(t *testing.T) {
	rng := rand.New(rand.NewSource(2))
	for iter := 0; iter < 20000; iter++ {
		tt := NewTT()
		x := tt.Var("x", 5)
		bases := []struct {
			t *Term
			f func(uint64) uint64
		}{
			{x, func(v uint64) uint64 { return v }},
			{tt.SExt(x, 8), func(v uint64) uint64 { return uint64(sext64(v, 5)) & 255 }},
			{tt.ZExt(x, 8), func(v uint64) uint64 { return v }},
			{tt.Sub(tt.ZExt(x, 8), tt.Const(8, 9)), func(v uint64) uint64 { return (v - 9) & 255 }},
		}
		b := bases[rng.Intn(len(bases))]
		w := b.t.w
		type cf struct {
			t *Term
			f func(uint64) uint64
		}
		var cond func(d int) cf
		kk := func() uint64 { return (uint64(rng.Intn(40)) - 20) & mask(w) }
		cond = func(d int) cf {
			k := kk()
			c := tt.Const(w, k)
			switch n := rng.Intn(8); {
			case n < 2:
				return cf{tt.Slt(b.t, c), func(v uint64) uint64 { return bi(sext64(b.f(v), w) < sext64(k, w)) }}
			case n < 4:
				return cf{tt.Slt(c, b.t), func(v uint64) uint64 { return bi(sext64(b.f(v), w) > sext64(k, w)) }}
			case n == 4:
				return cf{tt.Ult(b.t, c), func(v uint64) uint64 { return bi(b.f(v) < k) }}
			case n == 5:
				return cf{tt.Slt(b.t, tt.Const(w, 0)), func(v uint64) uint64 { return bi(sext64(b.f(v), w) < 0) }}
			case d > 0 && n == 6:
				p, q := cond(d-1), cond(d-1)
				return cf{tt.BAnd(p.t, q.t), func(v uint64) uint64 { return p.f(v) & q.f(v) }}
			}
			if d == 0 {
				return cf{tt.Ult(c, b.t), func(v uint64) uint64 { return bi(b.f(v) > k) }}
			}
			p := cond(d - 1)
			return cf{tt.Not1(p.t), func(v uint64) uint64 { return 1 - p.f(v) }}
		}
		ow := []uint8{3, w, 12}[rng.Intn(3)]
		var term func(d int) cf
		term = func(d int) cf {
			if d == 0 || rng.Intn(4) == 0 {
				if rng.Intn(2) == 0 {
					k := (uint64(rng.Intn(40)) - 20) & mask(ow)
					return cf{tt.Const(ow, k), func(uint64) uint64 { return k }}
				}
				if ow <= w {
					return cf{tt.Extract(b.t, ow-1, 0), func(v uint64) uint64 { return b.f(v) & mask(ow) }}
				}
				if rng.Intn(2) == 0 {
					return cf{tt.ZExt(b.t, ow), b.f}
				}
				return cf{tt.SExt(b.t, ow), func(v uint64) uint64 { return uint64(sext64(b.f(v), w)) & mask(ow) }}
			}
			c, p, q := cond(1), term(d-1), term(d-1)
			return cf{tt.Ite(c.t, p.t, q.t), func(v uint64) uint64 {
				if c.f(v) != 0 {
					return p.f(v)
				}
				return q.f(v)
			}}
		}
		z := term(3)
		for v := uint64(0); v < 32; v++ {
			if g, h := tt.Eval(z.t, Model{"x": v}), z.f(v); g != h {
				t.Fatalf("iter %d x=%d: %s = %d, want %d", iter, v, z.t.String(), g, h)
			}
		}
	}
}

func bi(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
