package main

import (
	"math/rand"
	"testing"
)

// Random expression differential: canonicalised term vs direct evaluation.
func TestTermsRandom(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	tt := NewTT()
	type rt struct {
		t *Term
		f func(m Model) uint64
	}
	for iter := 0; iter < 20000; iter++ {
		if iter%500 == 0 {
			tt = NewTT()
		}
		ws := []uint8{1, 4, 8, 16, 32, 64}
		var pool []rt
		names := []string{"a", "b", "c", "d", "e"}
		vw := []uint8{8, 8, 16, 32, 1}
		for i, n := range names {
			n := n
			v := tt.Var(n, vw[i])
			pool = append(pool, rt{v, func(m Model) uint64 { return m[n] }})
		}
		conv := func(x rt, w uint8) rt {
			f := x.f
			ow := x.t.w
			if ow == w {
				return x
			}
			if ow == 0 {
				return rt{tt.Ite(x.t, tt.Const(w, 1), tt.Const(w, 0)), f}
			}
			if w > ow {
				if rng.Intn(2) == 0 {
					return rt{tt.ZExt(x.t, w), f}
				}
				return rt{tt.SExt(x.t, w), func(m Model) uint64 { return uint64(sext64(f(m), ow)) & mask(w) }}
			}
			lo := uint8(0)
			if rng.Intn(2) == 0 {
				lo = uint8(rng.Intn(int(ow-w) + 1))
			}
			return rt{tt.Extract(x.t, lo+w-1, lo), func(m Model) uint64 { return f(m) >> lo & mask(w) }}
		}
		for step := 0; step < 12; step++ {
			w := ws[rng.Intn(len(ws))]
			pick := func() rt {
				if rng.Intn(4) == 0 {
					var v uint64
					switch rng.Intn(4) {
					case 0:
						v = uint64(rng.Intn(8))
					case 1:
						v = 1 << uint(rng.Intn(64))
					case 2:
						v = ^uint64(rng.Intn(5))
					default:
						v = rng.Uint64()
					}
					v &= mask(w)
					return rt{tt.Const(w, v), func(Model) uint64 { return v }}
				}
				return conv(pool[rng.Intn(len(pool))], w)
			}
			x, y := pick(), pick()
			fx, fy := x.f, y.f
			var z rt
			switch rng.Intn(19) {
			case 0, 1:
				z = rt{tt.Add(x.t, y.t), func(m Model) uint64 { return (fx(m) + fy(m)) & mask(w) }}
			case 2:
				z = rt{tt.Sub(x.t, y.t), func(m Model) uint64 { return (fx(m) - fy(m)) & mask(w) }}
			case 3:
				z = rt{tt.Mul(x.t, y.t), func(m Model) uint64 { return (fx(m) * fy(m)) & mask(w) }}
			case 4:
				z = rt{tt.And(x.t, y.t), func(m Model) uint64 { return fx(m) & fy(m) }}
			case 5:
				z = rt{tt.Or(x.t, y.t), func(m Model) uint64 { return fx(m) | fy(m) }}
			case 6:
				z = rt{tt.Xor(x.t, y.t), func(m Model) uint64 { return fx(m) ^ fy(m) }}
			case 7:
				z = rt{tt.Not(x.t), func(m Model) uint64 { return ^fx(m) & mask(w) }}
			case 8:
				k := uint64(rng.Intn(int(w)))
				z = rt{tt.ShlC(x.t, k), func(m Model) uint64 { return fx(m) << k & mask(w) }}
			case 9:
				k := uint64(rng.Intn(int(w)))
				z = rt{tt.LShrC(x.t, k), func(m Model) uint64 { return fx(m) >> k }}
			case 10:
				k := uint64(rng.Intn(int(w)))
				z = rt{tt.AShrC(x.t, k), func(m Model) uint64 { return uint64(sext64(fx(m), w)>>k) & mask(w) }}
			case 11:
				z = rt{tt.Eq(x.t, y.t), func(m Model) uint64 { return b2(fx(m) == fy(m)) }}
			case 12:
				z = rt{tt.Ult(x.t, y.t), func(m Model) uint64 { return b2(fx(m) < fy(m)) }}
			case 13:
				z = rt{tt.Slt(x.t, y.t), func(m Model) uint64 { return b2(sext64(fx(m), w) < sext64(fy(m), w)) }}
			case 14:
				c := pool[rng.Intn(len(pool))]
				var ct *Term
				fc := c.f
				if c.t.w == 0 {
					ct = c.t
				} else {
					ct = tt.Not1(tt.Eq(c.t, tt.Const(c.t.w, 0)))
				}
				z = rt{tt.Ite(ct, x.t, y.t), func(m Model) uint64 {
					if fc(m) != 0 {
						return fx(m)
					}
					return fy(m)
				}}
			case 15:
				k := uint64(1 + rng.Intn(300))
				k &= mask(w)
				if k == 0 {
					k = 1
				}
				z = rt{tt.SDiv(x.t, tt.Const(w, k)), func(m Model) uint64 {
					d := sext64(k, w)
					if d == -1 {
						return -fx(m) & mask(w)
					}
					return uint64(sext64(fx(m), w)/d) & mask(w)
				}}
			case 16:
				k := uint64(1+rng.Intn(300)) & mask(w)
				if k == 0 {
					k = 1
				}
				z = rt{tt.URem(x.t, tt.Const(w, k)), func(m Model) uint64 { return fx(m) % k }}
			case 17:
				op := []Op{OpShl, OpLShr, OpAShr}[rng.Intn(3)]
				z = rt{tt.shift(op, x.t, y.t), func(m Model) uint64 {
					a, n := fx(m), fy(m)
					switch op {
					case OpShl:
						return a << n & mask(w)
					case OpLShr:
						return a >> n
					}
					return uint64(sext64(a, w)>>n) & mask(w)
				}}
			case 18:
				w2 := uint8(rng.Intn(int(64-w) + 1))
				if w2 == 0 {
					continue
				}
				y = conv(y, w2)
				fy = y.f
				z = rt{tt.Concat([]*Term{x.t, y.t}), func(m Model) uint64 { return fx(m)<<w2 | fy(m) }}
			}
			pool = append(pool, z)
		}
		for k := 0; k < 6; k++ {
			m := Model{}
			for i, n := range names {
				m[n] = rng.Uint64() & mask(vw[i])
				if rng.Intn(3) == 0 {
					m[n] = []uint64{0, 1, mask(vw[i]), mask(vw[i])/2 + 1}[rng.Intn(4)] & mask(vw[i])
				}
			}
			for _, p := range pool {
				want, got := p.f(m), tt.Eval(p.t, m)
				if want != got {
					t.Fatalf("iter %d: %s = %x, want %x, model %v", iter, p.t, got, want, m)
				}
				if p.t.w > 0 {
					if got&p.t.kz() != 0 || got < p.t.umin() || got > p.t.umax() || sext64(got, p.t.w) < p.t.smin() || sext64(got, p.t.w) > p.t.smax() {
						t.Fatalf("bounds %s = %x kz=%x u[%x,%x] s[%d,%d]", p.t, got, p.t.kz(), p.t.umin(), p.t.umax(), p.t.smin(), p.t.smax())
					}
				}
			}
		}
	}
}

func b2(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// The SMT printing agrees with eval.
func TestSolverAgrees(t *testing.T) {
	tt := NewTT()
	s := NewSolver(tt)
	defer s.Close()
	a, b := tt.Var("a", 8), tt.Var("b", 32)
	x := tt.Add(tt.MulC(tt.SExt(a, 32), 37), tt.Mul(b, tt.ZExt(a, 32)))
	y := tt.SDiv(x, tt.Const(32, 7))
	z := tt.AShrC(tt.Xor(y, b), 3)
	for i := 0; i < 20; i++ {
		m := Model{"a": uint64(i*29+200) & 255, "b": uint64(i) * 0x31415926 & 0xffffffff}
		v := tt.Eval(z, m)
		r, _ := s.Check([]*Term{tt.Eq(a, tt.Const(8, m["a"])), tt.Eq(b, tt.Const(32, m["b"])), tt.Not1(tt.Eq(z, tt.Const(32, v)))}, 1e10)
		if r != SatNo {
			t.Fatal(i, r)
		}
	}
	r, m := s.Check([]*Term{tt.Eq(z, tt.Const(32, 12345))}, 2e10)
	if r != SatYes || tt.Eval(z, m) != 12345 {
		t.Fatal(r, m)
	}
}
