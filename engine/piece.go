package main

// Piecewise terms: a nest of ites whose conditions all compare one term with
// constants is a function of where that term lies.  Clamps are written in many
// ways (if chains, min and max, either bound first, the bound itself on either
// side); they all come out as the same nest, from the lowest piece up.

type piece struct {
	lo, hi uint64 // in the order of the comparison (sign bit flipped when signed)
	leaf   *Term
}

const maxPieces = 6

var noLeaf = &Term{op: OpVar, x: &ext{}}

type pieceView struct {
	tt     *TT
	base   *Term
	signed bool
	lo, hi uint64
	fuel   int
}

func (v *pieceView) ord(x uint64) uint64 {
	if v.signed {
		return (x ^ 1<<(v.base.w-1)) & mask(v.base.w)
	}
	return x & mask(v.base.w)
}

// cmpBase finds a comparison of a term with a constant in a condition.
func cmpBase(c *Term) (base *Term, signed, sign bool) {
	switch c.op {
	case OpBNot:
		return cmpBase(c.x.args[0])
	case OpBAnd:
		if len(c.x.args) > 4 {
			return nil, false, false
		}
		for _, a := range c.x.args {
			b, s, sg := cmpBase(a)
			if b == nil {
				return nil, false, false
			}
			if !sg {
				return b, s, false
			}
			base, signed, sign = b, s, sg
		}
		return base, signed, sign
	case OpSlt:
		if c.x.args[1].IsConst() {
			return c.x.args[0], true, false
		}
	case OpUlt:
		if c.x.args[1].IsConst() {
			return c.x.args[0], false, false
		}
	case OpEq:
		if b := c.x.args[0]; b.w == 1 && b.op == OpExtract && c.x.args[1].IsConst() {
			return b, true, true
		}
	}
	return nil, false, false
}

func (v *pieceView) whole(t *Term) []piece { return []piece{{v.lo, v.hi, t}} }

// split gives the pieces below k and from k on.
func (v *pieceView) split(k uint64, below, from *Term) []piece {
	if k <= v.lo {
		return v.whole(from)
	}
	if k > v.hi {
		return v.whole(below)
	}
	return []piece{{v.lo, k - 1, below}, {k, v.hi, from}}
}

func overlay(a, b []piece, f func(x, y *Term) *Term) []piece {
	var out []piece
	for i, j := 0, 0; i < len(a) && j < len(b); {
		lo, hi := max(a[i].lo, b[j].lo), min(a[i].hi, b[j].hi)
		l := f(a[i].leaf, b[j].leaf)
		if n := len(out); n > 0 && same(out[n-1].leaf, l) {
			out[n-1].hi = hi
		} else {
			out = append(out, piece{lo, hi, l})
		}
		ea, eb := a[i].hi, b[j].hi
		if ea <= eb {
			i++
		}
		if eb <= ea {
			j++
		}
	}
	return out
}

func (v *pieceView) cond(c *Term) []piece {
	tt := v.tt
	v.fuel--
	if v.fuel < 0 {
		return nil
	}
	switch c.op {
	case OpConst:
		return v.whole(c)
	case OpBNot:
		ps := v.cond(c.x.args[0])
		for i := range ps {
			ps[i].leaf = tt.Not1(ps[i].leaf)
		}
		return ps
	case OpBAnd:
		r := v.whole(tt.True)
		for _, a := range c.x.args {
			p := v.cond(a)
			if p == nil {
				return nil
			}
			r = overlay(r, p, func(x, y *Term) *Term { return tt.Bool(x.val != 0 && y.val != 0) })
		}
		return r
	case OpSlt:
		if v.signed && same(c.x.args[0], v.base) && c.x.args[1].IsConst() {
			return v.split(v.ord(c.x.args[1].val), tt.True, tt.False)
		}
	case OpUlt:
		y := c.x.args[0]
		if !c.x.args[1].IsConst() || !same(y, v.base) && !(v.signed && y.w > v.base.w && v.isBase(y)) {
			return nil
		}
		k := c.x.args[1].val
		if !v.signed {
			return v.split(k, tt.True, tt.False)
		}
		if half := uint64(1) << (v.base.w - 1); k <= half {
			r := v.split(half, tt.False, tt.True)
			return overlay(r, v.split(v.ord(k-1)+1, tt.True, tt.False), func(x, y *Term) *Term { return tt.Bool(x.val != 0 && y.val != 0) })
		}
	case OpEq:
		if v.signed && c.x.args[1].IsConst() && c.x.args[0].w == 1 &&
			same(c.x.args[0], tt.Extract(v.base, v.base.w-1, v.base.w-1)) {
			half := uint64(1) << (v.base.w - 1)
			if c.x.args[1].val == 1 {
				return v.split(half, tt.True, tt.False)
			}
			return v.split(half, tt.False, tt.True)
		}
	}
	return nil
}

func (v *pieceView) term(t *Term) []piece {
	if t.op == OpIte {
		if p := v.ite(t.x.args[0], t.x.args[1], t.x.args[2]); p != nil {
			return p
		}
	}
	return v.whole(t)
}

func (v *pieceView) ite(c, a, b *Term) []piece {
	cp := v.cond(c)
	if cp == nil {
		return nil
	}
	ap, bp := v.term(a), v.term(b)
	// overlay of three
	sel := overlay(ap, cp, func(x, y *Term) *Term {
		if y.val != 0 {
			return x
		}
		return noLeaf
	})
	if len(sel) > maxPieces {
		return nil
	}
	out := overlay(sel, bp, func(x, y *Term) *Term {
		if x != noLeaf {
			return x
		}
		return y
	})
	if len(out) > maxPieces {
		return nil
	}
	return out
}

// isBase: the leaf is the base's value, truncated or extended.
func (v *pieceView) isBase(l *Term) bool {
	w := v.base.w
	switch {
	case l.w < w:
		return same(l, v.tt.Extract(v.base, l.w-1, 0))
	case l.w == w:
		return same(l, v.base)
	}
	if v.signed {
		return swidth(l) <= w && same(v.tt.Extract(l, w-1, 0), v.base)
	}
	return l.umax() <= mask(w) && same(v.tt.Extract(l, w-1, 0), v.base)
}

func (v *pieceView) at(p uint64, w uint8) uint64 {
	x := v.ord(p) // its own inverse
	if v.signed {
		x = uint64(sext64(x, v.base.w))
	}
	return x & mask(w)
}

// piecewise gives the canonical nest for ite(c, a, b), or nil when it is not
// a piecewise term worth a canonical form.
func (tt *TT) piecewise(c, a, b *Term) *Term {
	base, signed, sign := cmpBase(c)
	if base == nil {
		return nil
	}
	if sign || c.op == OpUlt || c.op == OpBNot || c.op == OpBAnd {
		// prefer the base of a comparison inside
		for _, t := range []*Term{a, b} {
			if t.op == OpIte {
				if b2, s2, sg2 := cmpBase(t.x.args[0]); b2 != nil && !sg2 && (sign || s2) {
					if sign && s2 || !sign && same(b2, base) {
						base, signed, sign = b2, s2, false
						break
					}
				}
			}
		}
	}
	if !signed && base.smin() < 0 {
		for _, t := range []*Term{a, b} {
			if t.op == OpIte && !signed {
				if b2, s2, sg2 := cmpBase(t.x.args[0]); b2 != nil && s2 {
					if n := tt.snarrow(base); same(n, b2) || sg2 && same(tt.Extract(n, n.w-1, n.w-1), b2) {
						base, signed = n, true
					}
				}
			}
		}
	}
	if sign {
		base = tt.Extract(base.x.args[0], uint8(base.val), 0)
	}
	if base.w < 2 || base.w > 63 {
		return nil
	}
	v := &pieceView{tt: tt, base: base, signed: signed, fuel: 24}
	if signed {
		v.lo, v.hi = v.ord(uint64(base.smin())), v.ord(uint64(base.smax()))
	} else {
		v.lo, v.hi = base.umin(), base.umax()
	}
	ps := v.ite(c, a, b)
	if ps == nil {
		return nil
	}
	bs := make([]bool, len(ps))
	any := false
	for i, p := range ps {
		bs[i] = v.isBase(p.leaf)
		any = any || bs[i]
	}
	if !any && len(ps) < 3 && c.op != OpBAnd {
		return nil
	}
	if any {
		for i := range ps {
			if !ps[i].leaf.IsConst() {
				continue
			}
			k := ps[i].leaf.val
			if i > 0 && bs[i-1] && v.at(ps[i].lo, ps[i].leaf.w) == k {
				ps[i-1].hi++
				ps[i].lo++
			}
			if i+1 < len(ps) && bs[i+1] && ps[i].lo <= ps[i].hi && v.at(ps[i].hi, ps[i].leaf.w) == k {
				ps[i+1].lo--
				ps[i].hi--
			}
		}
		var out []piece
		for _, p := range ps {
			if p.lo > p.hi {
				continue
			}
			if n := len(out); n > 0 && same(out[n-1].leaf, p.leaf) {
				out[n-1].hi = p.hi
				continue
			}
			out = append(out, p)
		}
		ps = out
	}
	r := ps[len(ps)-1].leaf
	for i := len(ps) - 2; i >= 0; i-- {
		k := tt.Const(base.w, v.ord(ps[i+1].lo))
		var cc *Term
		if signed {
			cc = tt.Slt(base, k)
		} else {
			cc = tt.Ult(base, k)
		}
		r = tt.rawIte(cc, ps[i].leaf, r)
	}
	return r
}

func (tt *TT) rawIte(c, a, b *Term) *Term {
	if c.op == OpBNot {
		c, a, b = c.x.args[0], b, a
	}
	if c.IsConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if r := tt.iteBit(c, a, b); r != nil {
		return r
	}
	return tt.intern(OpIte, a.w, 0, []*Term{c, a, b}, nil)
}
