package main

import (
	"fmt"
	"go/types"
	"sync"
)

// Value is one of: *Term (ints, bools), Ptr, Slice, Iface, string, *Closure,
// Agg (structs and arrays, flattened cells), Tuple, *MapObj, *ChanObj,
// float64, complex128, *Native (opaque host value), *rangeIter.
type Value interface{}

type Agg []Value
type Tuple []Value

type Obj struct {
	id    int
	cells []Value
	big   [][]Value // used instead of cells for large uniform objects
	n     int
	zero  Value // for big objects
	base  bool  // created before the harness started
	dirty bool
	what  string
}

const bigLimit = 1 << 14
const pageSize = 1 << 10

type SymIdx struct {
	t      *Term // 64 bit index
	n      int   // number of elements
	stride int
	next   *SymIdx
}

type Ptr struct {
	o   *Obj
	off int
	sym *SymIdx
}

type Slice struct {
	o             *Obj
	off, len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *CFunc
	free []Value
	nat  func(e *Engine, args []Value) Value // host implemented
	name string
}

type Native struct{ v interface{} }

type mapEnt struct {
	k, v Value
	dead bool
}

type MapObj struct {
	idx   map[string]int
	ents  []mapEnt
	n     int
	base  bool
	dirty bool
	vt    types.Type
}

type ChanObj struct {
	cap    int
	buf    []chanItem
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	cvc    VC // close clock
	id     int
	es     types.Type
}

type chanItem struct {
	v  Value
	vc VC
}

type rangeIter struct {
	m    *MapObj
	i    int
	str  string
	keys []int
}

// ---- layout ----

type layout struct {
	n    int
	zero []Value
	offs []int // struct field offsets
	elem *layout
}

var layouts sync.Map

func layoutOf(t types.Type) *layout {
	if l, ok := layouts.Load(t); ok {
		return l.(*layout)
	}
	l := computeLayout(t)
	layouts.Store(t, l)
	return l
}

func leaf(v Value) *layout { return &layout{n: 1, zero: []Value{v}} }

var nilMap *MapObj
var nilChan *ChanObj
var nilClosure *Closure

func computeLayout(t types.Type) *layout {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l := &layout{}
		for i := 0; i < u.NumFields(); i++ {
			f := layoutOf(u.Field(i).Type())
			l.offs = append(l.offs, l.n)
			l.n += f.n
			if l.n <= bigLimit {
				for j := 0; j < f.n; j++ {
					l.zero = append(l.zero, f.zeroAt(j))
				}
			}
		}
		return l
	case *types.Array:
		el := layoutOf(u.Elem())
		l := &layout{n: el.n * int(u.Len()), elem: el}
		if l.n <= bigLimit {
			for i := 0; i < int(u.Len()); i++ {
				l.zero = append(l.zero, el.zero...)
			}
		}
		return l
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return leaf(sharedTT.Const(w, 0))
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return leaf(sharedTT.False)
		case types.String, types.UntypedString:
			return leaf("")
		case types.Float32, types.Float64, types.UntypedFloat:
			return leaf(float64(0))
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return leaf(complex128(0))
		case types.UnsafePointer, types.UntypedNil:
			return leaf(Ptr{})
		}
	case *types.Pointer:
		return leaf(Ptr{})
	case *types.Slice:
		return leaf(Slice{})
	case *types.Interface:
		return leaf(Iface{})
	case *types.Signature:
		return leaf(nilClosure)
	case *types.Map:
		return leaf(nilMap)
	case *types.Chan:
		return leaf(nilChan)
	case *types.Tuple:
		return leaf(nil)
	case *types.TypeParam:
		panic(unsupported("type parameter layout"))
	}
	panic(unsupported("layout of " + t.String()))
}

func (l *layout) zeroAt(i int) Value {
	if l.zero != nil {
		return l.zero[i]
	}
	if l.elem != nil {
		return l.elem.zeroAt(i % l.elem.n)
	}
	panic(unsupported("huge struct"))
}

var sharedTT = NewTT() // constants only

// intInfo gives width and signedness of integer kinds.
func intInfo(b *types.Basic) (w uint8, signed, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func typeInt(t types.Type) (w uint8, signed, ok bool) {
	if b, isb := t.Underlying().(*types.Basic); isb {
		return intInfo(b)
	}
	return 0, false, false
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroValue(t types.Type) Value {
	if tup, ok := t.(*types.Tuple); ok {
		out := make(Tuple, tup.Len())
		for i := range out {
			out[i] = zeroValue(tup.At(i).Type())
		}
		return out
	}
	l := layoutOf(t)
	if isAgg(t) {
		out := make(Agg, l.n)
		for i := range out {
			out[i] = l.zeroAt(i)
		}
		return out
	}
	return l.zero[0]
}

// ---- objects ----

func (e *Engine) newObj(l *layout, what string) *Obj {
	e.objID++
	o := &Obj{id: e.objID, n: l.n, what: what, base: e.initing}
	if l.n > bigLimit {
		o.big = make([][]Value, (l.n+pageSize-1)/pageSize)
		el := l
		for el.elem != nil {
			el = el.elem
		}
		if el.n != 1 {
			panic(unsupported("large object of structs"))
		}
		o.zero = el.zero[0]
		return o
	}
	o.cells = make([]Value, l.n)
	copy(o.cells, l.zero)
	return o
}

func (e *Engine) newArrayObj(el *layout, n int, what string) *Obj {
	e.objID++
	total := el.n * n
	o := &Obj{id: e.objID, n: total, what: what, base: e.initing}
	if total > bigLimit {
		o.big = make([][]Value, (total+pageSize-1)/pageSize)
		if el.n != 1 {
			panic(unsupported("large array of structs"))
		}
		o.zero = el.zero[0]
		return o
	}
	o.cells = make([]Value, total)
	if el.n == 1 {
		z := el.zero[0]
		for i := range o.cells {
			o.cells[i] = z
		}
	} else {
		for i := 0; i < n; i++ {
			for j := 0; j < el.n; j++ {
				o.cells[i*el.n+j] = el.zeroAt(j)
			}
		}
	}
	return o
}

func (o *Obj) get(i int) Value {
	if o.big != nil {
		p := o.big[i/pageSize]
		if p == nil {
			return o.zero
		}
		return p[i%pageSize]
	}
	return o.cells[i]
}

func (o *Obj) rawSet(i int, v Value) {
	if o.big != nil {
		p := o.big[i/pageSize]
		if p == nil {
			p = make([]Value, pageSize)
			for j := range p {
				p[j] = o.zero
			}
			o.big[i/pageSize] = p
		}
		p[i%pageSize] = v
		return
	}
	o.cells[i] = v
}

type restoreRec struct {
	o     *Obj
	cells []Value
	big   [][]Value
	m     *MapObj
	ents  []mapEnt
	n     int
}

func (e *Engine) set(o *Obj, i int, v Value) {
	if o.base && !o.dirty && !e.initing {
		o.dirty = true
		r := restoreRec{o: o}
		if o.big != nil {
			r.big = make([][]Value, len(o.big))
			for k, p := range o.big {
				if p != nil {
					r.big[k] = append([]Value(nil), p...)
				}
			}
		} else {
			r.cells = append([]Value(nil), o.cells...)
		}
		e.restore = append(e.restore, r)
	}
	if n := len(e.spec); n > 0 {
		e.spec[n-1].log = append(e.spec[n-1].log, logEnt{o, i, o.get(i)})
	}
	o.rawSet(i, v)
}

func (e *Engine) touchMap(m *MapObj) {
	if len(e.spec) > 0 {
		panic(specAbort{"map write"})
	}
	if m.base && !m.dirty && !e.initing {
		m.dirty = true
		e.restore = append(e.restore, restoreRec{m: m, ents: append([]mapEnt(nil), m.ents...), n: m.n})
	}
}

func (e *Engine) restoreBase() {
	for _, r := range e.restore {
		if r.o != nil {
			r.o.cells, r.o.big = r.cells, r.big
			r.o.dirty = false
		} else {
			r.m.ents, r.m.n = r.ents, r.n
			r.m.idx = map[string]int{}
			for i, en := range r.m.ents {
				if !en.dead {
					r.m.idx[mapKey(en.k)] = i
				}
			}
			r.m.dirty = false
		}
	}
	e.restore = e.restore[:0]
}

func mapKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		if !x.IsConst() {
			panic(unsupported("symbolic map key"))
		}
		return fmt.Sprintf("i%d:%d", x.w, x.val)
	case string:
		return "s" + x
	case Ptr:
		if x.o == nil {
			return "p0"
		}
		return fmt.Sprintf("p%d.%d", x.o.id, x.off)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return "I" + types.TypeString(x.t, nil) + "|" + mapKey(x.v)
	case Agg:
		s := "a"
		for _, y := range x {
			k := mapKey(y)
			s += fmt.Sprintf("%d,%s", len(k), k)
		}
		return s
	case *ChanObj:
		return fmt.Sprintf("c%d", x.id)
	case float64:
		return fmt.Sprintf("f%v", x)
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

// ---- loads and stores ----

func (e *Engine) load(p Ptr, t types.Type, n int, agg bool) Value {
	if p.o == nil {
		e.goPanic("invalid memory address or nil pointer dereference")
	}
	if p.sym != nil {
		if agg {
			out := make(Agg, n)
			for i := range out {
				out[i] = e.loadCell(p, i)
			}
			return out
		}
		return e.loadCell(p, 0)
	}
	if agg {
		if e.raceOn {
			e.raceRead(p.o, p.off, n)
		}
		out := make(Agg, n)
		if p.o.big == nil {
			copy(out, p.o.cells[p.off:p.off+n])
		} else {
			for i := range out {
				out[i] = p.o.get(p.off + i)
			}
		}
		return out
	}
	if e.raceOn {
		e.raceRead(p.o, p.off, 1)
	}
	if p.o.big == nil {
		return p.o.cells[p.off]
	}
	return p.o.get(p.off)
}

// idxRange: the possible index interval.
func idxRange(s *SymIdx) (int, int) {
	lo, hi := 0, s.n-1
	if u := s.t.umax(); u < uint64(hi) {
		hi = int(u)
	}
	if u := s.t.umin(); u > uint64(lo) && u <= uint64(hi) {
		lo = int(u)
	}
	return lo, hi
}

func (e *Engine) loadCell(p Ptr, k int) Value {
	if p.sym == nil {
		if e.raceOn {
			e.raceRead(p.o, p.off+k, 1)
		}
		return p.o.get(p.off + k)
	}
	s := p.sym
	lo, hi := idxRange(s)
	vals := make([]Value, hi-lo+1)
	allTerm := true
	for i := lo; i <= hi; i++ {
		v := e.loadCell(Ptr{p.o, p.off + i*s.stride, s.next}, k)
		if _, ok := v.(*Term); !ok {
			allTerm = false
		}
		vals[i-lo] = v
	}
	if !allTerm {
		eq := true
		for _, v := range vals[1:] {
			if !sameValue(v, vals[0]) {
				eq = false
				break
			}
		}
		if eq {
			return vals[0]
		}
		c := e.concretize(s.t)
		return vals[int(c)-lo]
	}
	return e.selectTree(s.t, lo, vals)
}

func (e *Engine) selectTree(idx *Term, lo int, vals []Value) *Term {
	eq := true
	for _, v := range vals[1:] {
		if !same(v.(*Term), vals[0].(*Term)) {
			eq = false
			break
		}
	}
	if eq {
		return vals[0].(*Term)
	}
	// recursive on index bits
	hi := lo + len(vals) - 1
	var rec func(bit int, base int) *Term
	rec = func(bit int, base int) *Term {
		if bit < 0 {
			i := base
			if i < lo {
				i = lo
			}
			if i > hi {
				i = hi
			}
			return vals[i-lo].(*Term)
		}
		b0, b1 := base, base|1<<uint(bit)
		if b1 > hi {
			return rec(bit-1, b0)
		}
		if b1+(1<<uint(bit))-1 >= lo && b1-1 < lo {
			return rec(bit-1, b1)
		}
		return e.tt.Ite(e.tt.Eq(e.tt.Extract(idx, uint8(bit), uint8(bit)), e.tt.Const(1, 1)), rec(bit-1, b1), rec(bit-1, b0))
	}
	top := 0
	for hi>>uint(top+1) != 0 {
		top++
	}
	return rec(top, 0)
}

func (e *Engine) store(p Ptr, v Value) {
	if p.o == nil {
		e.goPanic("invalid memory address or nil pointer dereference")
	}
	if a, ok := v.(Agg); ok {
		for i, x := range a {
			e.storeCell(p, i, x)
		}
		return
	}
	e.storeCell(p, 0, v)
}

func (e *Engine) storeCell(p Ptr, k int, v Value) {
	if p.sym == nil {
		if e.raceOn {
			e.raceWrite(p.o, p.off+k)
		}
		e.set(p.o, p.off+k, v)
		return
	}
	e.storeSym(p, k, v, e.tt.True)
}

func (e *Engine) storeSym(p Ptr, k int, v Value, cond *Term) {
	if p.sym == nil {
		old := p.o.get(p.off + k)
		nv, ok := e.mergeVal(cond, v, old)
		if !ok {
			panic(unsupported("symbolic store of non scalar"))
		}
		if e.raceOn {
			e.raceWrite(p.o, p.off+k)
		}
		e.set(p.o, p.off+k, nv)
		return
	}
	s := p.sym
	if _, ok := v.(*Term); !ok {
		c := e.concretize(s.t)
		e.storeSym(Ptr{p.o, p.off + int(c)*s.stride, s.next}, k, v, cond)
		return
	}
	lo, hi := idxRange(s)
	for i := lo; i <= hi; i++ {
		c := e.tt.BAnd(cond, e.tt.Eq(s.t, e.tt.Const(64, uint64(i))))
		if c == e.tt.False {
			continue
		}
		e.storeSym(Ptr{p.o, p.off + i*s.stride, s.next}, k, v, c)
	}
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && same(x, y)
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.o == y.o && x.off == y.off && x.sym == y.sym
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameValue(x.v, y.v)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case *ChanObj:
		y, ok := b.(*ChanObj)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

// mergeVal is ite(c, a, b) when representable.
func (e *Engine) mergeVal(c *Term, a, b Value) (Value, bool) {
	if c == e.tt.True {
		return a, true
	}
	if sameValue(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return e.tt.Ite(c, x, y), true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Agg, len(x))
		for i := range x {
			v, ok := e.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := e.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	return nil, false
}

// mergeSoft refuses to turn two different concrete machine ints into a
// symbolic one (loop bounds, positions): forking is better there.
func (e *Engine) mergeSoft(c *Term, a, b Value) (Value, bool) {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 && x.w == 64 && x.IsConst() && y.IsConst() && x.val != y.val {
		return nil, false
	}
	switch x := a.(type) {
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Agg, len(x))
		for i := range x {
			v, ok := e.mergeSoft(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := e.mergeSoft(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	return e.mergeVal(c, a, b)
}
