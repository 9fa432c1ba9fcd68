package main

// Hash-consed bit-vector terms (width 1..64; width 0 is Bool) with a canonical
// form: linear sums over monomials for arithmetic, concatenations of slices
// for bit manipulation. Every simplification is an equivalence on bit-vectors.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpLin     // val + sum coef[i]*args[i]  (mod 2^w)
	OpMul     // product of args (>= 2, sorted)
	OpUDiv    // a / b   (b known non zero by the caller)
	OpURem    //
	OpSDiv    //
	OpSRem    //
	OpAnd     // bitwise
	OpOr      //
	OpXor     //
	OpNot     //
	OpShl     // variable shifts, both same width
	OpLShr    //
	OpAShr    //
	OpConcat  // args from high to low
	OpExtract // val = lo, width gives hi
	OpSExt    //
	OpIte     // cond, a, b
	OpEq      // Bool
	OpUlt     //
	OpSlt     //
	OpBAnd    // n-ary
	OpBNot    //
)

var opNames = [...]string{"const", "var", "lin", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "ite", "=", "bvult", "bvslt", "and", "not"}

type Term struct {
	op  Op
	w   uint8
	val uint64 // const value; lin constant; extract lo
	x   *ext
}

type ext struct {
	args       []*Term
	coef       []uint64
	id         int
	hash       uint64
	kz         uint64 // bits known to be zero
	umin, umax uint64
	smin, smax int64
	name       string
	printed    bool
	gen        int
	ev         uint64
	vars       *VarSet
	vcount     int
}

// VarSet is an immutable sorted set of variable indices.
type VarSet struct {
	ids []int32
	h   uint64
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

type TT struct {
	tab    map[uint64][]*Term
	n      int
	small  [65][]*Term
	True   *Term
	False  *Term
	vars   []*Term
	byName map[string]*Term
	gen    int
	memo   map[memoKey]*Term
	vsTab  map[uint64][]*VarSet
	empty  *VarSet
}

type memoKey struct {
	t    *Term
	hi   uint8
	lo   uint8
	kind uint8
}

var termTrue = &Term{op: OpConst, w: 0, val: 1}
var termFalse = &Term{op: OpConst, w: 0, val: 0}

func NewTT() *TT {
	tt := &TT{tab: map[uint64][]*Term{}, byName: map[string]*Term{}, memo: map[memoKey]*Term{}, vsTab: map[uint64][]*VarSet{}}
	tt.empty = &VarSet{}
	tt.True = termTrue
	tt.False = termFalse
	for w := 1; w <= 64; w++ {
		n := 256
		if w < 8 {
			n = 1 << w
		}
		tt.small[w] = make([]*Term, n)
		for i := range tt.small[w] {
			tt.small[w][i] = &Term{op: OpConst, w: uint8(w), val: uint64(i)}
		}
	}
	return tt
}

func (t *Term) IsConst() bool { return t.op == OpConst }

func (tt *TT) Const(w uint8, v uint64) *Term {
	if w == 0 {
		return tt.Bool(v&1 != 0)
	}
	v &= mask(w)
	if v < uint64(len(tt.small[w])) {
		return tt.small[w][v]
	}
	return &Term{op: OpConst, w: w, val: v}
}

func (tt *TT) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (t *Term) Hash() uint64 {
	if t.op == OpConst {
		return mix(mix(0x1234567, uint64(t.w)), t.val)
	}
	return t.x.hash
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func same(a, b *Term) bool {
	return a == b || (a.op == OpConst && b.op == OpConst && a.w == b.w && a.val == b.val)
}

func (t *Term) umin() uint64 {
	if t.op == OpConst {
		return t.val
	}
	return t.x.umin
}
func (t *Term) umax() uint64 {
	if t.op == OpConst {
		return t.val
	}
	return t.x.umax
}
func (t *Term) smin() int64 {
	if t.op == OpConst {
		return sext64(t.val, t.w)
	}
	return t.x.smin
}
func (t *Term) smax() int64 {
	if t.op == OpConst {
		return sext64(t.val, t.w)
	}
	return t.x.smax
}
func (t *Term) kz() uint64 {
	if t.op == OpConst {
		return ^t.val & mask(t.w)
	}
	return t.x.kz
}
func (t *Term) varset(tt *TT) *VarSet {
	if t.op == OpConst {
		return tt.empty
	}
	return t.x.vars
}

func (tt *TT) vsUnion(a, b *VarSet) *VarSet {
	if a == b || len(b.ids) == 0 {
		return a
	}
	if len(a.ids) == 0 {
		return b
	}
	out := make([]int32, 0, len(a.ids)+len(b.ids))
	i, j := 0, 0
	for i < len(a.ids) && j < len(b.ids) {
		switch {
		case a.ids[i] < b.ids[j]:
			out = append(out, a.ids[i])
			i++
		case a.ids[i] > b.ids[j]:
			out = append(out, b.ids[j])
			j++
		default:
			out = append(out, a.ids[i])
			i++
			j++
		}
	}
	out = append(out, a.ids[i:]...)
	out = append(out, b.ids[j:]...)
	if len(out) == len(a.ids) {
		return a
	}
	if len(out) == len(b.ids) {
		return b
	}
	return tt.vsIntern(out)
}

func (tt *TT) vsIntern(ids []int32) *VarSet {
	h := uint64(7)
	for _, v := range ids {
		h = mix(h, uint64(v))
	}
next:
	for _, c := range tt.vsTab[h] {
		if len(c.ids) != len(ids) {
			continue
		}
		for i := range ids {
			if c.ids[i] != ids[i] {
				continue next
			}
		}
		return c
	}
	v := &VarSet{ids: ids, h: h}
	tt.vsTab[h] = append(tt.vsTab[h], v)
	return v
}

// intern returns the canonical node.
func (tt *TT) intern(op Op, w uint8, val uint64, args []*Term, coef []uint64) *Term {
	h := mix(mix(uint64(op)*31+7, uint64(w)), val)
	for i, a := range args {
		h = mix(h, a.Hash())
		if coef != nil {
			h = mix(h, coef[i])
		}
	}
next:
	for _, c := range tt.tab[h] {
		if c.op != op || c.w != w || c.val != val || len(c.x.args) != len(args) {
			continue
		}
		for i := range args {
			if !same(c.x.args[i], args[i]) {
				continue next
			}
			if coef != nil && c.x.coef[i] != coef[i] {
				continue next
			}
		}
		return c
	}
	tt.n++
	t := &Term{op: op, w: w, val: val, x: &ext{args: args, coef: coef, id: tt.n, hash: h}}
	vs := tt.empty
	for _, a := range args {
		vs = tt.vsUnion(vs, a.varset(tt))
	}
	t.x.vars = vs
	tt.tab[h] = append(tt.tab[h], t)
	t.bounds()
	return t
}

func (tt *TT) Var(name string, w uint8) *Term {
	if t, ok := tt.byName[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, t.w))
		}
		return t
	}
	tt.n++
	t := &Term{op: OpVar, w: w, x: &ext{id: tt.n, name: name, hash: mix(strHash(name), uint64(w))}}
	t.x.vars = tt.vsIntern([]int32{int32(len(tt.vars))})
	t.bounds()
	tt.byName[name] = t
	tt.vars = append(tt.vars, t)
	return t
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(abs64(a), abs64(b))
	neg := (a < 0) != (b < 0)
	if hi != 0 {
		return 0, false
	}
	if neg {
		if lo > 1<<63 {
			return 0, false
		}
		return -int64(lo), true
	}
	if lo >= 1<<63 {
		return 0, false
	}
	return int64(lo), true
}

func abs64(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

func (t *Term) bounds() {
	x := t.x
	w := t.w
	m := mask(w)
	x.umin, x.umax = 0, m
	if w == 0 {
		return
	}
	smn, smx := sminW(w), smaxW(w)
	x.smin, x.smax = smn, smx
	sset := func(lo, hi int64) {
		if lo >= smn && hi <= smx && lo <= hi {
			if lo > x.smin {
				x.smin = lo
			}
			if hi < x.smax {
				x.smax = hi
			}
		}
	}
	uset := func(lo, hi uint64) {
		if lo > x.umin {
			x.umin = lo
		}
		if hi < x.umax {
			x.umax = hi
		}
	}
	a := x.args
	switch t.op {
	case OpLin:
		// signed
		lo, hi := sext64(t.val, w), sext64(t.val, w)
		ok := true
		tz := 64
		if t.val != 0 {
			tz = bits.TrailingZeros64(t.val)
		}
		for i, at := range a {
			c := sext64(x.coef[i], w)
			p, ok1 := mulOv(c, at.smin())
			q, ok2 := mulOv(c, at.smax())
			if !ok1 || !ok2 {
				ok = false
			}
			if p > q {
				p, q = q, p
			}
			var ok3, ok4 bool
			lo, ok3 = addOv(lo, p)
			hi, ok4 = addOv(hi, q)
			ok = ok && ok3 && ok4
			if z := bits.TrailingZeros64(x.coef[i]) + bits.TrailingZeros64(^at.kz()); z < tz {
				tz = z
			}
		}
		if ok {
			sset(lo, hi)
		}
		// unsigned, positive coefficients
		ul, uh := t.val, t.val
		uok := true
		for i, at := range a {
			h1, l1 := bits.Mul64(x.coef[i], at.umin())
			h2, l2 := bits.Mul64(x.coef[i], at.umax())
			var c1, c2 uint64
			ul, c1 = bits.Add64(ul, l1, 0)
			uh, c2 = bits.Add64(uh, l2, 0)
			if h1|h2|c1|c2 != 0 {
				uok = false
				break
			}
		}
		if uok && uh <= m {
			uset(ul, uh)
		}
		if tz > 0 && tz < 64 {
			x.kz |= (uint64(1)<<uint(tz) - 1) & m
		}
	case OpMul:
		ulo, uhi, uok := uint64(1), uint64(1), true
		slo, shi, sok := int64(1), int64(1), true
		tz := 0
		for _, at := range a {
			h1, l1 := bits.Mul64(ulo, at.umin())
			h2, l2 := bits.Mul64(uhi, at.umax())
			if h1|h2 != 0 {
				uok = false
			}
			ulo, uhi = l1, l2
			var c [4]int64
			var o [4]bool
			c[0], o[0] = mulOv(slo, at.smin())
			c[1], o[1] = mulOv(slo, at.smax())
			c[2], o[2] = mulOv(shi, at.smin())
			c[3], o[3] = mulOv(shi, at.smax())
			if !(o[0] && o[1] && o[2] && o[3]) {
				sok = false
			}
			slo, shi = min(min(c[0], c[1]), min(c[2], c[3])), max(max(c[0], c[1]), max(c[2], c[3]))
			tz += bits.TrailingZeros64(^at.kz())
		}
		if uok && uhi <= m {
			uset(ulo, uhi)
		}
		if sok {
			sset(slo, shi)
		}
		if tz > 0 {
			if tz > 63 {
				tz = 63
			}
			x.kz |= (uint64(1)<<uint(tz) - 1) & m
		}
	case OpUDiv:
		if d := a[1]; d.IsConst() && d.val != 0 {
			uset(a[0].umin()/d.val, a[0].umax()/d.val)
		} else {
			uset(0, a[0].umax())
		}
	case OpURem:
		if d := a[1]; d.IsConst() && d.val != 0 {
			uset(0, d.val-1)
		}
		uset(0, a[0].umax())
	case OpSDiv:
		if d := a[1]; d.IsConst() && d.val != 0 {
			dv := sext64(d.val, w)
			if dv > 0 {
				sset(a[0].smin()/dv, a[0].smax()/dv)
			} else if dv < -1 {
				sset(a[0].smax()/dv, a[0].smin()/dv)
			}
		}
	case OpSRem:
		if d := a[1]; d.IsConst() && d.val != 0 {
			dv := sext64(d.val, w)
			if dv < 0 {
				dv = -dv
			}
			if dv > 0 {
				lo, hi := -(dv - 1), dv-1
				if a[0].smin() >= 0 {
					lo = 0
				}
				if a[0].smax() <= 0 {
					hi = 0
				}
				sset(lo, hi)
			}
		}
	case OpAnd:
		x.kz = a[0].kz() | a[1].kz()
		uset(0, min(a[0].umax(), a[1].umax()))
	case OpOr:
		x.kz = a[0].kz() & a[1].kz()
		uset(max(a[0].umin(), a[1].umin()), m)
	case OpXor:
		x.kz = a[0].kz() & a[1].kz()
	case OpNot:
		uset(m-a[0].umax(), m-a[0].umin())
	case OpShl:
	case OpLShr:
		uset(0, a[0].umax())
	case OpAShr:
		sset(min(a[0].smin(), 0), max(a[0].smax(), 0))
	case OpConcat:
		var kz, lo, hi uint64
		for _, p := range a {
			kz = kz<<p.w | p.kz()
			lo = lo<<p.w | p.umin()
			hi = hi<<p.w | p.umax()
		}
		x.kz = kz
		uset(lo, hi)
	case OpExtract:
		x.kz = (a[0].kz() >> t.val) & m
		if t.val == 0 && a[0].umax() <= m {
			uset(a[0].umin(), a[0].umax())
		}
		if t.val == 0 {
			sset(a[0].smin(), a[0].smax())
		}
		if t.val > 0 && t.val+uint64(w) == uint64(a[0].w) {
			uset(a[0].umin()>>t.val, a[0].umax()>>t.val)
			sset(a[0].smin()>>t.val, a[0].smax()>>t.val)
		}
	case OpSExt:
		sset(a[0].smin(), a[0].smax())
	case OpIte:
		x.kz = a[1].kz() & a[2].kz()
		uset(min(a[1].umin(), a[2].umin()), max(a[1].umax(), a[2].umax()))
		sset(min(a[1].smin(), a[2].smin()), max(a[1].smax(), a[2].smax()))
	}
	// cross refinement
	x.umax = min(x.umax, m&^x.kz)
	if x.smin >= 0 {
		uset(uint64(x.smin), uint64(x.smax))
	}
	if x.umax <= uint64(smx) {
		sset(int64(x.umin), int64(x.umax))
	} else if x.umin > uint64(smx) {
		sset(sext64(x.umin, w), sext64(x.umax, w))
	}
	if x.umax != 0 {
		l := uint(bits.Len64(x.umax))
		if l < 64 {
			x.kz |= m &^ (uint64(1)<<l - 1)
		}
	} else {
		x.kz = m
	}
}

func sminW(w uint8) int64 {
	if w >= 64 {
		return -1 << 63
	}
	return -(int64(1) << (w - 1))
}
func smaxW(w uint8) int64 {
	if w >= 64 {
		return 1<<63 - 1
	}
	return int64(1)<<(w-1) - 1
}

func bitsy(t *Term) bool {
	switch t.op {
	case OpConst, OpVar, OpConcat, OpExtract, OpAnd, OpOr, OpXor:
		return true
	}
	return false
}

// ---------- concat / extract ----------

func (tt *TT) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		panic("zext narrower")
	}
	if t.IsConst() {
		return tt.Const(w, t.val)
	}
	return tt.Concat([]*Term{tt.Const(w-t.w, 0), t})
}

func (tt *TT) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		panic("sext narrower")
	}
	if t.IsConst() {
		return tt.Const(w, uint64(sext64(t.val, t.w)))
	}
	if t.smin() >= 0 {
		return tt.ZExt(t, w)
	}
	switch t.op {
	case OpSExt:
		return tt.SExt(t.x.args[0], w)
	case OpLin:
		// No signed overflow possible at the narrow width: distribute.
		if linExact(t) {
			l := newLin(w)
			l.c = uint64(sext64(t.val, t.w))
			for i, a := range t.x.args {
				l.collect(tt, tt.SExt(a, w), uint64(sext64(t.x.coef[i], t.w)))
			}
			return l.finish(tt)
		}
	case OpMul:
		sok := true
		slo, shi := int64(1), int64(1)
		for _, at := range t.x.args {
			var c [4]int64
			var o [4]bool
			c[0], o[0] = mulOv(slo, at.smin())
			c[1], o[1] = mulOv(slo, at.smax())
			c[2], o[2] = mulOv(shi, at.smin())
			c[3], o[3] = mulOv(shi, at.smax())
			if !(o[0] && o[1] && o[2] && o[3]) {
				sok = false
				break
			}
			slo, shi = min(min(c[0], c[1]), min(c[2], c[3])), max(max(c[0], c[1]), max(c[2], c[3]))
		}
		if sok && slo >= sminW(t.w) && shi <= smaxW(t.w) {
			r := tt.Const(w, 1)
			for _, at := range t.x.args {
				r = tt.Mul(r, tt.SExt(at, w))
			}
			return r
		}
	case OpIte:
		k := memoKey{t, w, 0, 1}
		if r, ok := tt.memo[k]; ok {
			return r
		}
		r := tt.Ite(t.x.args[0], tt.SExt(t.x.args[1], w), tt.SExt(t.x.args[2], w))
		tt.memo[k] = r
		return r
	case OpSDiv:
		if t.x.args[1].IsConst() && sext64(t.x.args[1].val, t.w) != -1 {
			return tt.SDiv(tt.SExt(t.x.args[0], w), tt.SExt(t.x.args[1], w))
		}
	case OpSRem:
		if t.x.args[1].IsConst() {
			return tt.SRem(tt.SExt(t.x.args[0], w), tt.SExt(t.x.args[1], w))
		}
	}
	return tt.intern(OpSExt, w, 0, []*Term{t}, nil)
}

// linExact reports whether the mathematical value of the signed linear sum
// stays inside the term's width (so that it did not wrap).
func linExact(t *Term) bool {
	lo, hi := sext64(t.val, t.w), sext64(t.val, t.w)
	for i, at := range t.x.args {
		c := sext64(t.x.coef[i], t.w)
		p, ok1 := mulOv(c, at.smin())
		q, ok2 := mulOv(c, at.smax())
		if !ok1 || !ok2 {
			return false
		}
		if p > q {
			p, q = q, p
		}
		var ok3, ok4 bool
		lo, ok3 = addOv(lo, p)
		hi, ok4 = addOv(hi, q)
		if !ok3 || !ok4 {
			return false
		}
	}
	return lo >= sminW(t.w) && hi <= smaxW(t.w)
}

// Concat joins pieces, high to low.
func (tt *TT) Concat(ps []*Term) *Term {
	out := make([]*Term, 0, len(ps))
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == OpConcat {
			for _, q := range p.x.args {
				push(q)
			}
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.IsConst() && p.IsConst() {
				out[n-1] = tt.Const(l.w+p.w, l.val<<p.w|p.val)
				return
			}
			lb, ll := l, uint64(0)
			if l.op == OpExtract {
				lb, ll = l.x.args[0], l.val
			}
			pb, pl := p, uint64(0)
			if p.op == OpExtract {
				pb, pl = p.x.args[0], p.val
			}
			if l.op == OpExtract && lb == pb && ll == pl+uint64(p.w) {
				out = out[:n-1]
				push(tt.Extract(lb, uint8(ll)+l.w-1, uint8(pl)))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		if p.w == 0 {
			panic("concat of bool")
		}
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	var w uint8
	for _, p := range out {
		w += p.w
	}
	return tt.intern(OpConcat, w, 0, out, nil)
}

func (tt *TT) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if hi < lo || hi >= t.w {
		panic(fmt.Sprintf("extract [%d:%d] of width %d", hi, lo, t.w))
	}
	if w == t.w {
		return t
	}
	if t.IsConst() {
		return tt.Const(w, t.val>>lo)
	}
	if (t.kz()>>lo)&mask(w) == mask(w) {
		return tt.Const(w, 0)
	}
	switch t.op {
	case OpExtract:
		return tt.Extract(t.x.args[0], hi+uint8(t.val), lo+uint8(t.val))
	case OpConcat:
		var ps []*Term
		pos := t.w
		for _, p := range t.x.args {
			ph := pos - 1
			pl := pos - p.w
			pos = pl
			if pl > hi || ph < lo {
				continue
			}
			h, l := ph, pl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			ps = append(ps, tt.Extract(p, h-pl, l-pl))
		}
		return tt.Concat(ps)
	case OpSExt:
		a := t.x.args[0]
		if hi < a.w {
			return tt.Extract(a, hi, lo)
		}
		if lo >= a.w {
			return tt.SExt(tt.Extract(a, a.w-1, a.w-1), w)
		}
		return tt.SExt(tt.Extract(a, a.w-1, lo), w)
	case OpLin:
		if b, k0, k1 := bitLin(t); w == 1 && b != nil {
			switch k0, k1 = k0>>lo&1, k1>>lo&1; {
			case k0 == k1:
				return tt.Const(1, k0)
			case k1 == 1:
				return b
			}
			return tt.Not(b)
		}
		k := memoKey{t, hi, lo, 0}
		if r, ok := tt.memo[k]; ok {
			return r
		}
		var r *Term
		if lo == 0 {
			l := newLin(w)
			l.c = t.val & mask(w)
			for i, a := range t.x.args {
				l.collect(tt, tt.Extract(a, w-1, 0), t.x.coef[i])
			}
			r = l.finish(tt)
		} else if c := tt.linConcat(t); c != nil {
			r = tt.Extract(c, hi, lo)
		} else if hi < t.w-1 {
			// upper bits cannot influence: extract from the low part first
			low := tt.Extract(t, hi, 0)
			if low.op == OpLin {
				r = tt.intern(OpExtract, w, uint64(lo), []*Term{low}, nil)
			} else {
				r = tt.Extract(low, hi, lo)
			}
		}
		if r == nil {
			r = tt.intern(OpExtract, w, uint64(lo), []*Term{t}, nil)
		}
		tt.memo[k] = r
		return r
	case OpIte:
		k := memoKey{t, hi, lo, 0}
		if r, ok := tt.memo[k]; ok {
			return r
		}
		r := tt.Ite(t.x.args[0], tt.Extract(t.x.args[1], hi, lo), tt.Extract(t.x.args[2], hi, lo))
		tt.memo[k] = r
		return r
	case OpAnd, OpOr, OpXor:
		return tt.bitwise(t.op, tt.Extract(t.x.args[0], hi, lo), tt.Extract(t.x.args[1], hi, lo))
	case OpNot:
		return tt.Not(tt.Extract(t.x.args[0], hi, lo))
	case OpMul:
		if lo == 0 {
			r := tt.Extract(t.x.args[0], hi, 0)
			for _, a := range t.x.args[1:] {
				r = tt.Mul(r, tt.Extract(a, hi, 0))
			}
			return r
		}
	}
	return tt.intern(OpExtract, w, uint64(lo), []*Term{t}, nil)
}

// linConcat rewrites a linear term whose summands occupy disjoint bits.
func (tt *TT) linConcat(t *Term) *Term {
	l := newLin(t.w)
	l.c = t.val
	for i, a := range t.x.args {
		l.m = append(l.m, mono{t.x.coef[i], a})
	}
	return l.disjoint(tt)
}

// ---------- linear ----------

type mono struct {
	c uint64
	a *Term
}

type lin struct {
	w uint8
	c uint64
	m []mono
}

func newLin(w uint8) *lin { return &lin{w: w} }

func (l *lin) add(c uint64, a *Term) {
	c &= mask(l.w)
	if c == 0 {
		return
	}
	for i := range l.m {
		if l.m[i].a == a {
			l.m[i].c = (l.m[i].c + c) & mask(l.w)
			return
		}
	}
	l.m = append(l.m, mono{c, a})
}

func (l *lin) collect(tt *TT, t *Term, c uint64) {
	c &= mask(l.w)
	if c == 0 {
		return
	}
	switch t.op {
	case OpConst:
		l.c += c * t.val
	case OpLin:
		l.c += c * t.val
		for i, a := range t.x.args {
			l.collect(tt, a, c*t.x.coef[i])
		}
	case OpNot:
		l.c -= c
		l.collect(tt, t.x.args[0], -c)
	case OpConcat:
		ps := t.x.args
		if len(ps) == 2 && ps[0].IsConst() && ps[0].val == 0 {
			if ps[1].op == OpConst {
				l.c += c * ps[1].val
				return
			}
			l.add(c, t)
			return
		}
		var sh uint8
		for i := len(ps) - 1; i >= 0; i-- {
			p := ps[i]
			cc := c << sh
			if p.IsConst() {
				l.c += cc * p.val
			} else if i == 0 && sh > 0 {
				// reaches the top: high bits are irrelevant
				switch {
				case p.op == OpExtract && p.val == 0 && p.x.args[0].w == l.w:
					l.collect(tt, p.x.args[0], cc)
				case p.op == OpSExt:
					l.collect(tt, tt.SExt(p.x.args[0], l.w), cc)
				default:
					l.collect(tt, tt.ZExt(p, l.w), cc)
				}
			} else if sh == 0 && i == 0 {
				l.add(cc, p)
			} else {
				l.collect(tt, tt.ZExt(p, l.w), cc)
			}
			sh += p.w
		}
	case OpIte:
		// a choice of two constants by a bit
		cd, p, q := t.x.args[0], t.x.args[1], t.x.args[2]
		if p.IsConst() && q.IsConst() && cd.op == OpEq && cd.x.args[0].w == 1 && cd.x.args[1].IsConst() && cd.x.args[1].val == 1 {
			l.c += c * q.val
			l.collect(tt, tt.ZExt(cd.x.args[0], l.w), c*(p.val-q.val))
			return
		}
		l.add(c, t)
	case OpSExt:
		if t.x.args[0].w == 1 {
			l.collect(tt, tt.ZExt(t.x.args[0], l.w), -c)
			return
		}
		if a := t.x.args[0]; a.op == OpConcat {
			// the top piece a sign bit: it counts against the rest
			p := a.x.args[0]
			if p.w == 1 || p.op == OpSExt && p.x.args[0].w == 1 {
				sh := a.w - p.w
				l.collect(tt, tt.ZExt(tt.Extract(p, 0, 0), l.w), -(c << sh))
				l.collect(tt, tt.ZExt(tt.Extract(a, sh-1, 0), l.w), c)
				return
			}
		}
		l.add(c, t)
	default:
		l.add(c, t)
	}
}

func (l *lin) disjoint(tt *TT) *Term {
	used := l.c & mask(l.w)
	type seg struct {
		sh uint8
		a  *Term
	}
	var segs []seg
	for _, m := range l.m {
		if bits.OnesCount64(m.c) != 1 {
			return nil
		}
		sh := uint(bits.TrailingZeros64(m.c))
		bm := (^m.a.kz() & mask(l.w)) << sh & mask(l.w)
		if used&bm != 0 {
			return nil
		}
		used |= bm
		segs = append(segs, seg{uint8(sh), m.a})
	}
	// build bit ranges
	type piece struct {
		hi, lo uint8
		t      *Term
	}
	var ps []piece
	for _, s := range segs {
		bm := (^s.a.kz() & mask(l.w)) << s.sh & mask(l.w)
		if bm == 0 {
			continue
		}
		lo := uint8(bits.TrailingZeros64(bm))
		hi := uint8(bits.Len64(bm) - 1)
		// the range [hi:lo] must not interleave with the others
		ps = append(ps, piece{hi, lo, tt.Extract(s.a, hi-s.sh, lo-s.sh)})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].hi > ps[j].hi })
	for i := 1; i < len(ps); i++ {
		if ps[i].hi >= ps[i-1].lo {
			return nil
		}
	}
	c := l.c & mask(l.w)
	for _, p := range ps {
		if (c>>p.lo)&mask(p.hi-p.lo+1) != 0 {
			return nil
		}
	}
	var out []*Term
	top := int(l.w) - 1
	for _, p := range ps {
		if int(p.hi) < top {
			out = append(out, tt.Const(uint8(top)-p.hi, c>>(p.hi+1)))
		}
		out = append(out, p.t)
		top = int(p.lo) - 1
	}
	if top >= 0 {
		out = append(out, tt.Const(uint8(top)+1, c))
	}
	return tt.Concat(out)
}

// zpiece is what an atom extends with zeros.
func zpiece(a *Term) *Term {
	if a.op == OpConcat && len(a.x.args) == 2 && a.x.args[0].IsConst() && a.x.args[0].val == 0 {
		return a.x.args[1]
	}
	return a
}

// joinSign puts a sign bit counted against the bits below it together with
// them: c*y[k-1:lo] - (c<<(k-lo))*y[k] is c times y[k:lo], sign extended.
func (l *lin) joinSign(tt *TT) {
	for i := range l.m {
		s := zpiece(l.m[i].a)
		if s.op != OpExtract || s.w != 1 || l.m[i].c == 0 {
			continue
		}
		for j := range l.m {
			p := zpiece(l.m[j].a)
			c := l.m[j].c
			if c == 0 || p.op != OpExtract || p.x.args[0] != s.x.args[0] || p.val+uint64(p.w) != s.val {
				continue
			}
			d := c << p.w & mask(l.w)
			if d<<1&mask(l.w) == 0 || l.m[i].c != -d&mask(l.w) {
				continue
			}
			l.m[i] = mono{0, l.m[i].a}
			l.m[j] = mono{c, tt.SExt(tt.Extract(s.x.args[0], uint8(s.val), uint8(p.val)), l.w)}
			break
		}
	}
}

func (l *lin) finish(tt *TT) *Term {
	l.c &= mask(l.w)
	l.joinSign(tt)
	n := 0
	for _, m := range l.m {
		if m.c != 0 {
			l.m[n] = m
			n++
		}
	}
	l.m = l.m[:n]
	if n == 0 {
		return tt.Const(l.w, l.c)
	}
	if n == 1 && l.m[0].c == 1 && l.c == 0 {
		return l.m[0].a
	}
	allBitsy := true
	for _, m := range l.m {
		if !bitsy(m.a) {
			allBitsy = false
			break
		}
	}
	if allBitsy {
		if r := l.disjoint(tt); r != nil {
			return r
		}
	}
	sort.Slice(l.m, func(i, j int) bool {
		hi, hj := l.m[i].a.Hash(), l.m[j].a.Hash()
		if hi != hj {
			return hi < hj
		}
		return l.m[i].a.x.id < l.m[j].a.x.id
	})
	args := make([]*Term, n)
	coef := make([]uint64, n)
	for i, m := range l.m {
		args[i] = m.a
		coef[i] = m.c
	}
	return tt.intern(OpLin, l.w, l.c, args, coef)
}

func (tt *TT) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Const(a.w, a.val+b.val)
	}
	l := newLin(a.w)
	l.collect(tt, a, 1)
	l.collect(tt, b, 1)
	return l.finish(tt)
}

func (tt *TT) Sub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Const(a.w, a.val-b.val)
	}
	l := newLin(a.w)
	l.collect(tt, a, 1)
	l.collect(tt, b, ^uint64(0))
	return l.finish(tt)
}

func (tt *TT) Neg(a *Term) *Term { return tt.Sub(tt.Const(a.w, 0), a) }

func (tt *TT) MulC(a *Term, c uint64) *Term {
	if a.IsConst() {
		return tt.Const(a.w, a.val*c)
	}
	l := newLin(a.w)
	l.collect(tt, a, c)
	return l.finish(tt)
}

func factors(t *Term) []*Term {
	if t.op == OpMul {
		return t.x.args
	}
	return []*Term{t}
}

func (tt *TT) Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		return tt.MulC(a, b.val)
	}
	la, lb := newLin(a.w), newLin(a.w)
	la.collect(tt, a, 1)
	lb.collect(tt, b, 1)
	if len(la.m)*len(lb.m) > 12 {
		la = &lin{w: a.w, m: []mono{{1, a}}}
		lb = &lin{w: a.w, m: []mono{{1, b}}}
	}
	r := newLin(a.w)
	r.c = la.c * lb.c
	for _, m := range la.m {
		r.add(m.c*lb.c, m.a)
		for _, n := range lb.m {
			r.add(m.c*n.c, tt.product(m.a, n.a))
		}
	}
	for _, n := range lb.m {
		r.add(n.c*la.c, n.a)
	}
	return r.finish(tt)
}

func (tt *TT) product(a, b *Term) *Term {
	fs := append(append([]*Term{}, factors(a)...), factors(b)...)
	sort.Slice(fs, func(i, j int) bool {
		hi, hj := fs[i].Hash(), fs[j].Hash()
		if hi != hj {
			return hi < hj
		}
		return fs[i].x.id < fs[j].x.id
	})
	out := fs[:1]
	for _, f := range fs[1:] {
		if f == out[len(out)-1] && f.umax() <= 1 {
			continue // the square of a bit
		}
		out = append(out, f)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.intern(OpMul, a.w, 0, out, nil)
}

// ---------- bitwise ----------

func cuts(t *Term) uint64 {
	// bit i set: a piece boundary below bit i (i > 0)
	switch t.op {
	case OpConst:
		return (t.val ^ (t.val << 1)) &^ 1 & mask(t.w)
	case OpConcat:
		var c uint64
		pos := uint8(0)
		for i := len(t.x.args) - 1; i >= 0; i-- {
			p := t.x.args[i]
			if pos > 0 {
				c |= 1 << pos
			}
			if p.IsConst() {
				c |= cuts(p) << pos
			}
			pos += p.w
		}
		return c
	}
	return 0
}

func (tt *TT) bitwise(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		switch op {
		case OpAnd:
			return tt.Const(a.w, a.val&b.val)
		case OpOr:
			return tt.Const(a.w, a.val|b.val)
		default:
			return tt.Const(a.w, a.val^b.val)
		}
	}
	w := a.w
	if same(a, b) {
		if op == OpXor {
			return tt.Const(w, 0)
		}
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if r := tt.bitConst(op, a, b); r != nil {
			return r
		}
	}
	// disjoint bits: or/xor is addition
	if op != OpAnd && (!bitsy(a) || !bitsy(b)) && ^a.kz()&^b.kz()&mask(w) == 0 {
		return tt.Add(a, b)
	}
	if op == OpAnd && ^a.kz()&^b.kz()&mask(w) == 0 {
		return tt.Const(w, 0)
	}
	c := cuts(a) | cuts(b)
	if c == 0 {
		if b.IsConst() {
			return tt.bitConst(op, a, b)
		}
		if a.Hash() > b.Hash() {
			a, b = b, a
		}
		return tt.intern(op, w, 0, []*Term{a, b}, nil)
	}
	var ps []*Term
	hi := int(w) - 1
	for hi >= 0 {
		lo := hi
		for lo > 0 && c>>uint(lo)&1 == 0 {
			lo--
		}
		ps = append(ps, tt.bitwise(op, tt.Extract(a, uint8(hi), uint8(lo)), tt.Extract(b, uint8(hi), uint8(lo))))
		hi = lo - 1
	}
	return tt.Concat(ps)
}

func (tt *TT) bitConst(op Op, a, b *Term) *Term {
	w := a.w
	switch {
	case b.val == 0:
		if op == OpAnd {
			return b
		}
		return a
	case b.val == mask(w):
		switch op {
		case OpAnd:
			return a
		case OpOr:
			return b
		default:
			return tt.Not(a)
		}
	}
	return nil
}

func (tt *TT) And(a, b *Term) *Term { return tt.bitwise(OpAnd, a, b) }
func (tt *TT) Or(a, b *Term) *Term  { return tt.bitwise(OpOr, a, b) }
func (tt *TT) Xor(a, b *Term) *Term { return tt.bitwise(OpXor, a, b) }
func (tt *TT) Not(a *Term) *Term {
	if a.IsConst() {
		return tt.Const(a.w, ^a.val)
	}
	if a.op == OpNot {
		return a.x.args[0]
	}
	if a.op == OpConcat {
		ps := make([]*Term, len(a.x.args))
		for i, p := range a.x.args {
			ps[i] = tt.Not(p)
		}
		return tt.Concat(ps)
	}
	if a.op == OpLin {
		return tt.Sub(tt.Const(a.w, mask(a.w)), a)
	}
	return tt.intern(OpNot, a.w, 0, []*Term{a}, nil)
}

// ---------- shifts ----------

func (tt *TT) ShlC(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.w) {
		return tt.Const(a.w, 0)
	}
	if a.IsConst() {
		return tt.Const(a.w, a.val<<k)
	}
	if bitsy(a) {
		return tt.Concat([]*Term{tt.Extract(a, a.w-1-uint8(k), 0), tt.Const(uint8(k), 0)})
	}
	return tt.MulC(a, 1<<k)
}

func (tt *TT) LShrC(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.w) {
		return tt.Const(a.w, 0)
	}
	return tt.ZExt(tt.Extract(a, a.w-1, uint8(k)), a.w)
}

func (tt *TT) AShrC(a *Term, k uint64) *Term {
	if k == 0 {
		return a
	}
	if k >= uint64(a.w) {
		k = uint64(a.w) - 1
	}
	return tt.SExt(tt.Extract(a, a.w-1, uint8(k)), a.w)
}

// Shl etc.: Go semantics, shift count is unsigned of any width (already
// checked non negative); counts >= width give 0 / sign.
func (tt *TT) shift(op Op, a, n *Term) *Term {
	if n.IsConst() {
		switch op {
		case OpShl:
			return tt.ShlC(a, n.val)
		case OpLShr:
			return tt.LShrC(a, n.val)
		default:
			return tt.AShrC(a, n.val)
		}
	}
	// Symbolic count with a small range: ite chain over constants keeps the
	// canonical form; otherwise the bit-vector operator.
	if n.umax()-n.umin() <= 16 {
		lo, hi := n.umin(), n.umax()
		r := tt.shift(op, a, tt.Const(n.w, hi))
		for v := int64(hi) - 1; v >= int64(lo); v-- {
			r = tt.Ite(tt.Eq(n, tt.Const(n.w, uint64(v))), tt.shift(op, a, tt.Const(n.w, uint64(v))), r)
		}
		return r
	}
	// normalise count to the width of a
	var cnt, big *Term
	if n.w > a.w {
		big = tt.Not1(tt.Ult(n, tt.Const(n.w, uint64(a.w))))
		cnt = tt.Extract(n, a.w-1, 0)
	} else {
		cnt = tt.ZExt(n, a.w)
		big = tt.False // SMT semantics already saturate
	}
	r := tt.intern(op, a.w, 0, []*Term{a, cnt}, nil)
	if big == tt.False {
		return r
	}
	var sat *Term
	if op == OpAShr {
		sat = tt.AShrC(a, uint64(a.w)-1)
	} else {
		sat = tt.Const(a.w, 0)
	}
	return tt.Ite(big, sat, r)
}

// ---------- division ----------

func (tt *TT) UDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		return tt.Const(a.w, a.val/b.val)
	}
	if b.IsConst() {
		if bits.OnesCount64(b.val) == 1 {
			return tt.LShrC(a, uint64(bits.TrailingZeros64(b.val)))
		}
		if b.val != 0 && a.umax() < b.val {
			return tt.Const(a.w, 0)
		}
	}
	return tt.intern(OpUDiv, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) URem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		return tt.Const(a.w, a.val%b.val)
	}
	if b.IsConst() {
		if bits.OnesCount64(b.val) == 1 {
			return tt.And(a, tt.Const(a.w, b.val-1))
		}
		if b.val != 0 && a.umax() < b.val {
			return a
		}
	}
	return tt.intern(OpURem, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) SDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return tt.Const(a.w, uint64(-x))
		}
		return tt.Const(a.w, uint64(x/y))
	}
	if a.smin() >= 0 && b.smin() > 0 {
		return tt.UDiv(a, b)
	}
	if b.IsConst() && b.val == 1 {
		return a
	}
	if b.IsConst() && b.val != 0 {
		// a choice of constants
		if a.op == OpIte && a.x.args[1].IsConst() && a.x.args[2].IsConst() {
			return tt.Ite(a.x.args[0], tt.SDiv(a.x.args[1], b), tt.SDiv(a.x.args[2], b))
		}
		if a.op == OpLin && len(a.x.args) == 1 {
			if x := a.x.args[0]; x.op == OpIte && x.x.args[1].IsConst() && x.x.args[2].IsConst() {
				f := func(y *Term) *Term { return tt.SDiv(tt.Const(a.w, a.val+y.val*a.x.coef[0]), b) }
				return tt.Ite(x.x.args[0], f(x.x.args[1]), f(x.x.args[2]))
			}
		}
	}
	return tt.intern(OpSDiv, a.w, 0, []*Term{a, b}, nil)
}

func (tt *TT) SRem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return tt.Const(a.w, 0)
		}
		return tt.Const(a.w, uint64(x%y))
	}
	if a.smin() >= 0 && b.smin() > 0 {
		return tt.URem(a, b)
	}
	return tt.intern(OpSRem, a.w, 0, []*Term{a, b}, nil)
}

// ---------- booleans ----------

func (tt *TT) Not1(a *Term) *Term {
	if a.IsConst() {
		return tt.Bool(a.val == 0)
	}
	if a.op == OpBNot {
		return a.x.args[0]
	}
	return tt.intern(OpBNot, 0, 0, []*Term{a}, nil)
}

func (tt *TT) BAnd(as ...*Term) *Term {
	var fs []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.IsConst() {
			return a.val != 0
		}
		if a.op == OpBAnd {
			for _, b := range a.x.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		for _, f := range fs {
			if f == a {
				return true
			}
			if (f.op == OpBNot && f.x.args[0] == a) || (a.op == OpBNot && a.x.args[0] == f) {
				return false
			}
		}
		fs = append(fs, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tt.False
		}
	}
	if len(fs) == 0 {
		return tt.True
	}
	if len(fs) == 1 {
		return fs[0]
	}
	sort.Slice(fs, func(i, j int) bool {
		hi, hj := fs[i].Hash(), fs[j].Hash()
		if hi != hj {
			return hi < hj
		}
		return fs[i].x.id < fs[j].x.id
	})
	return tt.intern(OpBAnd, 0, 0, fs, nil)
}

func (tt *TT) BOr(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = tt.Not1(a)
	}
	return tt.Not1(tt.BAnd(ns...))
}

func (tt *TT) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq of widths %d %d", a.w, b.w))
	}
	if same(a, b) {
		return tt.True
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	w := a.w
	if w == 0 {
		if b.IsConst() {
			if b.val != 0 {
				return a
			}
			return tt.Not1(a)
		}
		return tt.BOr(tt.BAnd(a, b), tt.BAnd(tt.Not1(a), tt.Not1(b)))
	}
	if a.umax() < b.umin() || b.umax() < a.umin() || a.smax() < b.smin() || b.smax() < a.smin() {
		return tt.False
	}
	if w == 1 && b.IsConst() && b.val == 0 {
		return tt.Not1(tt.Eq(a, tt.Const(1, 1)))
	}
	if b.IsConst() {
		if b.val&a.kz() != 0 {
			return tt.False
		}
		switch a.op {
		case OpConcat:
			var cs []*Term
			v := b.val
			for i := len(a.x.args) - 1; i >= 0; i-- {
				p := a.x.args[i]
				cs = append(cs, tt.Eq(p, tt.Const(p.w, v)))
				if p.w < 64 {
					v >>= p.w
				}
			}
			return tt.BAnd(cs...)
		case OpSExt:
			n := a.x.args[0]
			if sext64(b.val&mask(n.w), n.w) == sext64(b.val, w) {
				return tt.Eq(n, tt.Const(n.w, b.val))
			}
			return tt.False
		case OpIte:
			t, f := a.x.args[1], a.x.args[2]
			if t.IsConst() || f.IsConst() {
				k := memoKey{a, 0, 0, 2}
				_ = k
				return tt.Ite(a.x.args[0], tt.Eq(t, b), tt.Eq(f, b))
			}
		case OpLin:
			if len(a.x.args) == 1 && a.x.coef[0]&1 == 1 {
				inv := a.x.coef[0]
				for i := 0; i < 6; i++ {
					inv *= 2 - a.x.coef[0]*inv
				}
				return tt.Eq(a.x.args[0], tt.Const(w, (b.val-a.val)*inv))
			}
			if a.val != 0 {
				return tt.Eq(tt.Sub(a, tt.Const(w, a.val)), tt.Const(w, b.val-a.val))
			}
		case OpNot:
			return tt.Eq(a.x.args[0], tt.Const(w, ^b.val))
		case OpXor:
			if a.x.args[0].IsConst() {
				return tt.Eq(a.x.args[1], tt.Const(w, b.val^a.x.args[0].val))
			}
		}
		return tt.intern(OpEq, 0, 0, []*Term{a, b}, nil)
	}
	if a.op == OpSExt && b.op == OpSExt && a.x.args[0].w == b.x.args[0].w {
		return tt.Eq(a.x.args[0], b.x.args[0])
	}
	if a.op == OpConcat || b.op == OpConcat {
		if bitsy(a) && bitsy(b) {
			c := cuts(a) | cuts(b)
			var cs []*Term
			hi := int(w) - 1
			for hi >= 0 {
				lo := hi
				for lo > 0 && c>>uint(lo)&1 == 0 {
					lo--
				}
				cs = append(cs, tt.Eq(tt.Extract(a, uint8(hi), uint8(lo)), tt.Extract(b, uint8(hi), uint8(lo))))
				hi = lo - 1
			}
			return tt.BAnd(cs...)
		}
	}
	if b.IsConst() {
		if r := tt.byBit(a, func(v uint64) bool { return v == b.val }); r != nil {
			return r
		}
	}
	if a.op == OpLin || b.op == OpLin {
		d := tt.Sub(a, b)
		if d.IsConst() {
			return tt.Bool(d.val == 0)
		}
	}
	if a.Hash() > b.Hash() {
		a, b = b, a
	}
	return tt.intern(OpEq, 0, 0, []*Term{a, b}, nil)
}

// bitLin: t is k0 or k1 as one bit is 0 or 1.
func bitLin(t *Term) (b *Term, k0, k1 uint64) {
	if t.op == OpConcat {
		for _, p := range t.x.args {
			k0, k1 = k0<<p.w, k1<<p.w
			if p.IsConst() {
				k0, k1 = k0|p.val, k1|p.val
				continue
			}
			q := p
			if p.op == OpSExt {
				q = p.x.args[0]
			}
			if q.w != 1 || b != nil && q != b {
				return nil, 0, 0
			}
			b, k1 = q, k1|mask(p.w)
		}
		return b, k0, k1
	}
	if t.op != OpLin || len(t.x.args) != 1 {
		return nil, 0, 0
	}
	b = zpiece(t.x.args[0])
	if b.w != 1 {
		return nil, 0, 0
	}
	return b, t.val & mask(t.w), (t.val + t.x.coef[0]) & mask(t.w)
}

// byBit: a comparison with a constant that turns on one bit.
func (tt *TT) byBit(t *Term, f func(uint64) bool) *Term {
	b, k0, k1 := bitLin(t)
	if b == nil {
		return nil
	}
	r0, r1 := f(k0), f(k1)
	switch {
	case r0 == r1:
		return tt.Bool(r0)
	case r1:
		return tt.Eq(b, tt.Const(1, 1))
	}
	return tt.Not1(tt.Eq(b, tt.Const(1, 1)))
}

func (tt *TT) Ult(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Bool(a.val < b.val)
	}
	if b.IsConst() {
		if r := tt.byBit(a, func(v uint64) bool { return v < b.val }); r != nil {
			return r
		}
	} else if a.IsConst() {
		if r := tt.byBit(b, func(v uint64) bool { return a.val < v }); r != nil {
			return r
		}
	}
	if same(a, b) || a.umin() >= b.umax() {
		return tt.False
	}
	if a.umax() < b.umin() {
		return tt.True
	}
	if b.IsConst() && b.val == 1 {
		return tt.Eq(a, tt.Const(a.w, 0))
	}
	if a.IsConst() && a.val == 0 {
		return tt.Not1(tt.Eq(b, tt.Const(b.w, 0)))
	}
	if b.IsConst() && b.val == mask(b.w) {
		return tt.Not1(tt.Eq(a, b))
	}
	// narrow
	need := uint8(bits.Len64(a.umax() | b.umax()))
	if need < a.w && need > 0 {
		na, nb := tt.narrow(a, need), tt.narrow(b, need)
		if na != nil && nb != nil {
			return tt.Ult(na, nb)
		}
	}
	if a.op == OpIte && b.IsConst() && (a.x.args[1].IsConst() || a.x.args[2].IsConst()) {
		return tt.Ite(a.x.args[0], tt.Ult(a.x.args[1], b), tt.Ult(a.x.args[2], b))
	}
	if b.op == OpIte && a.IsConst() && (b.x.args[1].IsConst() || b.x.args[2].IsConst()) {
		return tt.Ite(b.x.args[0], tt.Ult(a, b.x.args[1]), tt.Ult(a, b.x.args[2]))
	}
	// c <u b with b <= c+1.. : a const, b in [a, a+1] etc. left to the solver
	if a.IsConst() {
		// a < b  <=>  !(b < a+1)
		return tt.Not1(tt.Ult(b, tt.Const(a.w, a.val+1)))
	}
	return tt.intern(OpUlt, 0, 0, []*Term{a, b}, nil)
}

// narrow gives the low n bits when a structurally simple zero extension.
func (tt *TT) narrow(a *Term, n uint8) *Term {
	return tt.Extract(a, n-1, 0)
}

func (tt *TT) Slt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if b.IsConst() {
		if r := tt.byBit(a, func(v uint64) bool { return sext64(v, a.w) < sext64(b.val, b.w) }); r != nil {
			return r
		}
	} else if a.IsConst() {
		if r := tt.byBit(b, func(v uint64) bool { return sext64(a.val, a.w) < sext64(v, b.w) }); r != nil {
			return r
		}
	}
	if same(a, b) || a.smin() >= b.smax() {
		return tt.False
	}
	if a.smax() < b.smin() {
		return tt.True
	}
	if a.smin() >= 0 && b.smin() >= 0 {
		return tt.Ult(a, b)
	}
	if b.IsConst() && b.val == 0 {
		if a.op == OpIte {
			return tt.Ite(a.x.args[0], tt.Slt(a.x.args[1], b), tt.Slt(a.x.args[2], b))
		}
		return tt.Eq(tt.Extract(tt.snarrow(a), tt.snarrow(a).w-1, tt.snarrow(a).w-1), tt.Const(1, 1))
	}
	if a.IsConst() && a.val == mask(a.w) {
		return tt.Not1(tt.Slt(b, tt.Const(b.w, 0)))
	}
	// narrow to the smallest width representing both
	need := max(swidth(a), swidth(b))
	if need < a.w {
		return tt.Slt(tt.Extract(a, need-1, 0), tt.Extract(b, need-1, 0))
	}
	if a.op == OpIte && b.IsConst() && (a.x.args[1].IsConst() || a.x.args[2].IsConst()) {
		return tt.Ite(a.x.args[0], tt.Slt(a.x.args[1], b), tt.Slt(a.x.args[2], b))
	}
	if b.op == OpIte && a.IsConst() && (b.x.args[1].IsConst() || b.x.args[2].IsConst()) {
		return tt.Ite(b.x.args[0], tt.Slt(a, b.x.args[1]), tt.Slt(a, b.x.args[2]))
	}
	if a.IsConst() {
		return tt.Not1(tt.Slt(b, tt.Const(a.w, a.val+1)))
	}
	return tt.intern(OpSlt, 0, 0, []*Term{a, b}, nil)
}

// swidth: bits needed to hold the term's signed range.
func swidth(a *Term) uint8 {
	lo, hi := a.smin(), a.smax()
	n := 1
	if hi >= 0 {
		n = max(n, bits.Len64(uint64(hi))+1)
	}
	if lo < 0 {
		n = max(n, bits.Len64(uint64(^lo))+1)
	}
	return uint8(min(n, int(a.w)))
}

func (tt *TT) snarrow(a *Term) *Term {
	n := swidth(a)
	if n < a.w {
		return tt.Extract(a, n-1, 0)
	}
	return a
}

func (tt *TT) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite of widths %d %d", a.w, b.w))
	}
	if c.op == OpBNot {
		return tt.Ite(c.x.args[0], b, a)
	}
	if a.w == 0 {
		if a.IsConst() {
			if a.val != 0 {
				return tt.BOr(c, b)
			}
			return tt.BAnd(tt.Not1(c), b)
		}
		if b.IsConst() {
			if b.val != 0 {
				return tt.BOr(tt.Not1(c), a)
			}
			return tt.BAnd(c, a)
		}
		if a == c {
			return tt.BOr(c, b)
		}
		if b == c {
			return tt.BAnd(c, a)
		}
		return tt.BOr(tt.BAnd(c, a), tt.BAnd(tt.Not1(c), b))
	}
	if a.op == OpIte && a.x.args[0] == c {
		a = a.x.args[1]
	}
	if b.op == OpIte && b.x.args[0] == c {
		b = b.x.args[2]
	}
	if same(a, b) {
		return a
	}
	if r := tt.iteBit(c, a, b); r != nil {
		return r
	}
	if c.op == OpEq && c.x.args[0].w == 1 && c.x.args[0].op == OpExtract && c.x.args[0].val == 0 && c.x.args[1].IsConst() && c.x.args[1].val == 1 && a.w > 1 && c.x.args[0].x.args[0].w == a.w {
		// the low bit is known in either branch
		x := c.x.args[0].x.args[0]
		na, nb := tt.lowBit(a, x, 1), tt.lowBit(b, x, 0)
		if na != a || nb != b {
			h := tt.Extract(na, a.w-1, 1)
			if same(h, tt.Extract(nb, a.w-1, 1)) {
				return tt.Concat([]*Term{h, tt.Ite(c, tt.Extract(na, 0, 0), tt.Extract(nb, 0, 0))})
			}
			return tt.Ite(c, na, nb)
		}
	}
	if r := tt.piecewise(c, a, b); r != nil {
		return r
	}
	// ite(x == k, k, x) = x
	if c.op == OpEq && ((same(c.x.args[0], a) && same(c.x.args[1], b)) || (same(c.x.args[0], b) && same(c.x.args[1], a))) {
		return b
	}
	return tt.intern(OpIte, a.w, 0, []*Term{c, a, b}, nil)
}

// lowBit rewrites t where x is known to be odd (bit 1) or even: the even
// number below or the odd one above only differ in the low bit.
func (tt *TT) lowBit(t, x *Term, bit uint64) *Term {
	known := func() *Term {
		return tt.Concat([]*Term{tt.Extract(x, x.w-1, 1), tt.Const(1, bit^1)})
	}
	switch t.op {
	case OpLin:
		if x.op == OpLin && len(x.x.args) != len(t.x.args) || x.op != OpLin && len(t.x.args) != 1 {
			return t
		}
		if d := tt.Sub(t, x); d.IsConst() && (bit == 0 && d.val == 1 || bit == 1 && d.val == mask(t.w)) {
			if k := known(); k.op == OpConcat {
				return k
			}
		}
	case OpConcat:
		ps := t.x.args
		last := ps[len(ps)-1]
		lo := tt.Extract(x, 0, 0)
		var v uint64
		switch {
		case last == lo:
			v = bit
		case last == tt.Not(lo):
			v = bit ^ 1
		default:
			return t
		}
		return tt.Concat(append(append([]*Term{}, ps[:len(ps)-1]...), tt.Const(1, v)))
	}
	return t
}

// iteBit: a choice between zero and a power of two by one bit is that bit.
func (tt *TT) iteBit(c, a, b *Term) *Term {
	if c.op == OpEq && c.x.args[0].w == 1 && c.x.args[1].IsConst() && c.x.args[1].val == 1 && a.IsConst() && b.IsConst() {
		bit := c.x.args[0]
		if b.val == 0 && bits.OnesCount64(a.val) == 1 {
			return tt.ShlC(tt.ZExt(bit, a.w), uint64(bits.TrailingZeros64(a.val)))
		}
		if a.val == 0 && bits.OnesCount64(b.val) == 1 {
			return tt.ShlC(tt.ZExt(tt.Not(bit), a.w), uint64(bits.TrailingZeros64(b.val)))
		}
	}
	return nil
}

// ---------- evaluation ----------

type Model map[string]uint64

func (tt *TT) Eval(t *Term, m Model) uint64 {
	tt.gen++
	return tt.eval(t, m)
}

func (tt *TT) EvalAll(ts []*Term, m Model) []uint64 {
	tt.gen++
	out := make([]uint64, len(ts))
	for i, t := range ts {
		out[i] = tt.eval(t, m)
	}
	return out
}

func (tt *TT) eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	x := t.x
	if x.gen == tt.gen {
		return x.ev
	}
	var r uint64
	w := t.w
	a := x.args
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpVar:
		r = m[x.name]
	case OpLin:
		r = t.val
		for i, p := range a {
			r += x.coef[i] * tt.eval(p, m)
		}
	case OpMul:
		r = 1
		for _, p := range a {
			r *= tt.eval(p, m)
		}
	case OpUDiv:
		p, q := tt.eval(a[0], m), tt.eval(a[1], m)
		if q == 0 {
			r = mask(w)
		} else {
			r = p / q
		}
	case OpURem:
		p, q := tt.eval(a[0], m), tt.eval(a[1], m)
		if q == 0 {
			r = p
		} else {
			r = p % q
		}
	case OpSDiv:
		p, q := sext64(tt.eval(a[0], m), w), sext64(tt.eval(a[1], m), w)
		if q == 0 {
			if p >= 0 {
				r = mask(w)
			} else {
				r = 1
			}
		} else if q == -1 {
			r = uint64(-p)
		} else {
			r = uint64(p / q)
		}
	case OpSRem:
		p, q := sext64(tt.eval(a[0], m), w), sext64(tt.eval(a[1], m), w)
		if q == 0 {
			r = uint64(p)
		} else if q == -1 {
			r = 0
		} else {
			r = uint64(p % q)
		}
	case OpAnd:
		r = tt.eval(a[0], m) & tt.eval(a[1], m)
	case OpOr:
		r = tt.eval(a[0], m) | tt.eval(a[1], m)
	case OpXor:
		r = tt.eval(a[0], m) ^ tt.eval(a[1], m)
	case OpNot:
		r = ^tt.eval(a[0], m)
	case OpShl:
		if n := tt.eval(a[1], m); n < uint64(w) {
			r = tt.eval(a[0], m) << n
		}
	case OpLShr:
		if n := tt.eval(a[1], m); n < uint64(w) {
			r = tt.eval(a[0], m) >> n
		}
	case OpAShr:
		n := tt.eval(a[1], m)
		if n >= uint64(w) {
			n = uint64(w) - 1
		}
		r = uint64(sext64(tt.eval(a[0], m), w) >> n)
	case OpConcat:
		for _, p := range a {
			r = r<<p.w | tt.eval(p, m)
		}
	case OpExtract:
		r = tt.eval(a[0], m) >> t.val
	case OpSExt:
		r = uint64(sext64(tt.eval(a[0], m), a[0].w))
	case OpIte:
		if tt.eval(a[0], m) != 0 {
			r = tt.eval(a[1], m)
		} else {
			r = tt.eval(a[2], m)
		}
	case OpEq:
		r = b2u(tt.eval(a[0], m) == tt.eval(a[1], m))
	case OpUlt:
		r = b2u(tt.eval(a[0], m) < tt.eval(a[1], m))
	case OpSlt:
		r = b2u(sext64(tt.eval(a[0], m), a[0].w) < sext64(tt.eval(a[1], m), a[1].w))
	case OpBAnd:
		r = 1
		for _, p := range a {
			if tt.eval(p, m) == 0 {
				r = 0
				break
			}
		}
	case OpBNot:
		r = tt.eval(a[0], m) ^ 1
	default:
		panic("eval op")
	}
	r &= mask(w)
	x.gen = tt.gen
	x.ev = r
	return r
}

// ---------- printing ----------

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OpConst:
		fmt.Fprintf(sb, "%d:%d", int64(sext64(t.val, t.w)), t.w)
		return
	case OpVar:
		sb.WriteString(t.x.name)
		return
	}
	if d == 0 {
		fmt.Fprintf(sb, "#%d", t.x.id)
		return
	}
	fmt.Fprintf(sb, "(%s", opNames[t.op])
	if t.op == OpExtract {
		fmt.Fprintf(sb, "[%d:%d]", t.val+uint64(t.w)-1, t.val)
	}
	if t.op == OpLin {
		fmt.Fprintf(sb, ":%d %d", t.w, sext64(t.val, t.w))
	}
	for i, a := range t.x.args {
		sb.WriteByte(' ')
		if t.op == OpLin {
			fmt.Fprintf(sb, "%d*", sext64(t.x.coef[i], t.w))
		}
		a.str(sb, d-1)
	}
	sb.WriteByte(')')
}
