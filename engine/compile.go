package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Operand struct {
	slot int32 // register, or -1 constant, -2 global
	v    Value
	g    *ssa.Global
}

type CInstr struct {
	ins    ssa.Instruction
	op     uint8
	dst    int32
	a      []Operand
	w      uint8 // integer width of operands
	signed bool
	tok    token.Token
	l      *layout
	n, m   int
	agg    bool
	t      types.Type
	t2     types.Type
	fn     *CFunc
	in     *intrinsic
	blocks []*CFunc
	kind   uint8
	w2     uint8
	name   string
	comma  bool
}

const (
	iNop uint8 = iota
	iBinOp
	iUnOp
	iLoad
	iStore
	iAlloc
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iSlice
	iCallStatic
	iCallInvoke
	iCallDyn
	iCallBuiltin
	iConvert
	iChangeType
	iMakeIface
	iChangeIface
	iTypeAssert
	iExtract
	iMakeSlice
	iMakeMap
	iMakeChan
	iMakeClosure
	iMapUpdate
	iLookup
	iRange
	iNext
	iSend
	iRecv
	iSelect
	iGo
	iDefer
	iRunDefers
	iPanic
	iSliceToArrayPtr
	iIf
	iJump
	iReturn
	iUnsupported
)

type CBlock struct {
	idx    int
	phis   []CInstr // a indexed by predecessor
	ins    []CInstr
	succs  []int
	predIx [2]int // index of this block in succ's preds
	preds  []int
	ipdom  int // -1: function exit, -2: unknown
	merge  int8 // 0 unknown, 1 yes, -1 no
	small  bool // the region is a few instructions without calls
}

type CFunc struct {
	fn        *ssa.Function
	nregs     int
	nparams   int
	nfree     int
	blocks    []*CBlock
	hasDefer  bool
	once      sync.Once
	pure      int8 // 0 unknown 1 yes -1 no
	err       string
	in        *intrinsic
	name      string
	nin       int
	retScalar bool
	prog      *Program
	repo      bool
}

type Program struct {
	prog  *ssa.Program
	funcs sync.Map // *ssa.Function -> *CFunc
	mu    sync.Mutex
	symT  map[string]types.Type
	pkgs  map[string]*ssa.Package
}

func (p *Program) Func(fn *ssa.Function) *CFunc {
	if f, ok := p.funcs.Load(fn); ok {
		return f.(*CFunc)
	}
	f := &CFunc{fn: fn, name: fn.String(), prog: p}
	f.in = findIntrinsic(p, fn)
	f.repo = isRepo(f)
	a, _ := p.funcs.LoadOrStore(fn, f)
	return a.(*CFunc)
}

func (f *CFunc) prep() {
	f.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupportedErr); ok {
					f.err = u.msg
					return
				}
				panic(r)
			}
		}()
		f.compile()
	})
	if f.err != "" {
		panic(unsupported(f.name + ": " + f.err))
	}
}

func (f *CFunc) compile() {
	fn := f.fn
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	slots := map[ssa.Value]int{}
	n := 0
	alloc := func(v ssa.Value) int {
		slots[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	f.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		alloc(p)
	}
	f.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	f.nregs = n
	opnd := func(v ssa.Value) Operand {
		switch x := v.(type) {
		case *ssa.Const:
			return Operand{slot: -1, v: constValue(x)}
		case *ssa.Global:
			return Operand{slot: -2, g: x}
		case *ssa.Function:
			return Operand{slot: -1, v: f.prog.closure(x)}
		case *ssa.Builtin:
			return Operand{slot: -1, v: x.Name()}
		}
		s, ok := slots[v]
		if !ok {
			panic(unsupported("operand " + v.String()))
		}
		return Operand{slot: int32(s)}
	}
	opnds := func(vs ...ssa.Value) []Operand {
		out := make([]Operand, len(vs))
		for i, v := range vs {
			if v == nil {
				out[i] = Operand{slot: -1, v: nil}
			} else {
				out[i] = opnd(v)
			}
		}
		return out
	}
	for _, b := range fn.Blocks {
		cb := &CBlock{idx: b.Index, ipdom: -2}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, in := range b.Instrs {
			c := CInstr{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = int32(slots[v])
			}
			if ph, ok := in.(*ssa.Phi); ok {
				c.a = opnds(ph.Edges...)
				cb.phis = append(cb.phis, c)
				continue
			}
			f.compileInstr(&c, in, opnds)
			if c.op != iNop {
				cb.ins = append(cb.ins, c)
				f.nin++
			}
		}
		f.blocks = append(f.blocks, cb)
	}
	// predecessor index for each successor edge; an If with both edges to the
	// same block has two entries in preds.
	for _, cb := range f.blocks {
		used := map[int]int{}
		for k, s := range cb.succs {
			if k > 1 {
				break
			}
			cnt := used[s]
			for pi, p := range f.blocks[s].preds {
				if p == cb.idx {
					if cnt == 0 {
						cb.predIx[k] = pi
						break
					}
					cnt--
				}
			}
			used[s]++
		}
	}
	f.postdom()
	f.retScalar = true
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		b, ok := res.At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			f.retScalar = false
		}
	}
}

func (p *Program) closure(fn *ssa.Function) *Closure {
	cf := p.Func(fn)
	p.mu.Lock()
	defer p.mu.Unlock()
	if c, ok := closures[cf]; ok {
		return c
	}
	c := &Closure{fn: cf}
	closures[cf] = c
	return c
}

var closures = map[*CFunc]*Closure{}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	if w, _, ok := intInfo(b); ok {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return sharedTT.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return sharedTT.Const(w, u)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return sharedTT.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		r, _ := constant.Float64Val(constant.Real(c.Value))
		i, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(r, i)
	}
	panic(unsupported("const " + c.String()))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

const (
	kInt uint8 = iota
	kBool
	kString
	kFloat
	kOther
	kComplex
)

func kindOf(t types.Type) uint8 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return kInt
		case b.Info()&types.IsBoolean != 0:
			return kBool
		case b.Info()&types.IsString != 0:
			return kString
		case b.Info()&types.IsFloat != 0:
			return kFloat
		case b.Info()&types.IsComplex != 0:
			return kComplex
		}
	}
	return kOther
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported("deref " + t.String()))
}

func (f *CFunc) compileInstr(c *CInstr, in ssa.Instruction, opnds func(...ssa.Value) []Operand) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		c.op = iNop
	case *ssa.BinOp:
		c.op = iBinOp
		c.tok = x.Op
		c.a = opnds(x.X, x.Y)
		c.kind = kindOf(x.X.Type())
		c.t = x.Type()
		if w, s, ok := typeInt(x.X.Type()); ok {
			c.w, c.signed = w, s
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			w2, s2, ok := typeInt(x.Y.Type())
			if !ok {
				panic(unsupported("shift count"))
			}
			c.w2 = w2
			c.comma = s2
		}
		if c.kind == kFloat {
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				c.w2 = 32
			}
		}
	case *ssa.UnOp:
		c.a = opnds(x.X)
		switch x.Op {
		case token.MUL:
			c.op = iLoad
			c.t = deref(x.X.Type())
			c.l = layoutOf(c.t)
			c.n = c.l.n
			c.agg = isAgg(c.t)
		case token.ARROW:
			c.op = iRecv
			c.comma = x.CommaOk
			c.t = x.X.Type().Underlying().(*types.Chan).Elem()
		default:
			c.op = iUnOp
			c.tok = x.Op
			c.kind = kindOf(x.X.Type())
			c.w, c.signed, _ = typeInt(x.X.Type())
		}
	case *ssa.Store:
		c.op = iStore
		c.a = opnds(x.Addr, x.Val)
	case *ssa.Alloc:
		c.op = iAlloc
		c.t = deref(x.Type())
		c.l = layoutOf(c.t)
		c.name = x.Comment
	case *ssa.FieldAddr:
		c.op = iFieldAddr
		c.a = opnds(x.X)
		c.n = layoutOf(deref(x.X.Type())).offs[x.Field]
	case *ssa.Field:
		c.op = iField
		c.a = opnds(x.X)
		c.n = layoutOf(x.X.Type()).offs[x.Field]
		c.m = layoutOf(x.Type()).n
		c.agg = isAgg(x.Type())
	case *ssa.IndexAddr:
		c.op = iIndexAddr
		c.a = opnds(x.X, x.Index)
		c.w, c.signed, _ = typeInt(x.Index.Type())
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			c.kind = 0
			c.m = layoutOf(t.Elem()).n
		case *types.Pointer:
			c.kind = 1
			at := t.Elem().Underlying().(*types.Array)
			c.n = int(at.Len())
			c.m = layoutOf(at.Elem()).n
		default:
			panic(unsupported("IndexAddr " + x.X.Type().String()))
		}
	case *ssa.Index:
		c.op = iIndex
		c.a = opnds(x.X, x.Index)
		c.w, c.signed, _ = typeInt(x.Index.Type())
		switch t := x.X.Type().Underlying().(type) {
		case *types.Array:
			c.kind = 0
			c.n = int(t.Len())
			c.m = layoutOf(t.Elem()).n
			c.agg = isAgg(t.Elem())
		case *types.Basic:
			c.kind = 1
		default:
			panic(unsupported("Index " + x.X.Type().String()))
		}
	case *ssa.Slice:
		c.op = iSlice
		c.a = opnds(x.X, x.Low, x.High, x.Max)
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			c.kind = 0
			c.m = layoutOf(t.Elem()).n
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			c.kind = 1
			c.n = int(at.Len())
			c.m = layoutOf(at.Elem()).n
		default:
			c.kind = 2
		}
		for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				if w, _, ok := typeInt(v.Type()); ok && w != 64 {
					c.w = w // converted when evaluated
				}
			}
		}
		c.name = ""
	case *ssa.Call:
		f.compileCall(c, &x.Call, opnds)
		c.t = x.Type()
	case *ssa.Go:
		f.compileCall(c, &x.Call, opnds)
		c.kind = c.op
		c.op = iGo
	case *ssa.Defer:
		f.compileCall(c, &x.Call, opnds)
		c.kind = c.op
		c.op = iDefer
	case *ssa.RunDefers:
		c.op = iRunDefers
	case *ssa.Panic:
		c.op = iPanic
		c.a = opnds(x.X)
	case *ssa.Convert:
		c.op = iConvert
		c.a = opnds(x.X)
		c.t, c.t2 = x.X.Type(), x.Type()
		f.convKind(c)
	case *ssa.ChangeType:
		c.op = iChangeType
		c.a = opnds(x.X)
	case *ssa.MultiConvert:
		c.op = iConvert
		c.a = opnds(x.X)
		c.t, c.t2 = x.X.Type(), x.Type()
		f.convKind(c)
	case *ssa.MakeInterface:
		c.op = iMakeIface
		c.a = opnds(x.X)
		c.t = x.X.Type()
	case *ssa.ChangeInterface:
		c.op = iChangeIface
		c.a = opnds(x.X)
	case *ssa.TypeAssert:
		c.op = iTypeAssert
		c.a = opnds(x.X)
		c.t = x.AssertedType
		c.comma = x.CommaOk
	case *ssa.Extract:
		c.op = iExtract
		c.a = opnds(x.Tuple)
		c.n = x.Index
	case *ssa.MakeSlice:
		c.op = iMakeSlice
		c.a = opnds(x.Len, x.Cap)
		c.l = layoutOf(x.Type().Underlying().(*types.Slice).Elem())
		c.w, c.signed, _ = typeInt(x.Len.Type())
		c.w2, _, _ = typeInt(x.Cap.Type())
	case *ssa.MakeMap:
		c.op = iMakeMap
		c.t = x.Type().Underlying().(*types.Map).Elem()
	case *ssa.MakeChan:
		c.op = iMakeChan
		c.a = opnds(x.Size)
		c.t = x.Type().Underlying().(*types.Chan).Elem()
	case *ssa.MakeClosure:
		c.op = iMakeClosure
		c.fn = f.prog.Func(x.Fn.(*ssa.Function))
		c.a = opnds(x.Bindings...)
	case *ssa.MapUpdate:
		c.op = iMapUpdate
		c.a = opnds(x.Map, x.Key, x.Value)
	case *ssa.Lookup:
		c.op = iLookup
		c.a = opnds(x.X, x.Index)
		c.comma = x.CommaOk
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			c.t = m.Elem()
		} else {
			c.kind = 1
			c.w, c.signed, _ = typeInt(x.Index.Type())
		}
	case *ssa.Range:
		c.op = iRange
		c.a = opnds(x.X)
	case *ssa.Next:
		c.op = iNext
		c.a = opnds(x.Iter)
		c.comma = x.IsString
		c.t = x.Type()
	case *ssa.Send:
		c.op = iSend
		c.a = opnds(x.Chan, x.X)
	case *ssa.Select:
		c.op = iSelect
		c.comma = x.Blocking
		var vs []ssa.Value
		for _, s := range x.States {
			vs = append(vs, s.Chan, s.Send)
		}
		c.a = opnds(vs...)
		c.t = x.Type()
	case *ssa.SliceToArrayPointer:
		c.op = iSliceToArrayPtr
		c.a = opnds(x.X)
		c.n = int(deref(x.Type()).Underlying().(*types.Array).Len())
	case *ssa.If:
		c.op = iIf
		c.a = opnds(x.Cond)
	case *ssa.Jump:
		c.op = iJump
	case *ssa.Return:
		c.op = iReturn
		c.a = opnds(x.Results...)
	default:
		c.op = iUnsupported
		c.name = in.String()
	}
}

func (f *CFunc) convKind(c *CInstr) {
	ow, os, oi := typeInt(c.t)
	nw, _, ni := typeInt(c.t2)
	switch {
	case oi && ni:
		c.kind = 1
		c.w, c.signed, c.w2 = ow, os, nw
	case oi && isFloat(c.t2):
		c.kind = 2
		c.w, c.signed = ow, os
		if c.t2.Underlying().(*types.Basic).Kind() == types.Float32 {
			c.w2 = 32
		}
	case isFloat(c.t) && ni:
		c.kind = 3
		c.w2 = nw
		_, c.signed, _ = typeInt(c.t2)
	case isFloat(c.t) && isFloat(c.t2):
		c.kind = 4
		if c.t2.Underlying().(*types.Basic).Kind() == types.Float32 {
			c.w2 = 32
		}
	case oi && isString(c.t2):
		c.kind = 5
	case isString(c.t) && isString(c.t2):
		c.kind = 6
	case isString(c.t):
		if s, ok := c.t2.Underlying().(*types.Slice); ok {
			if w, _, _ := typeInt(s.Elem()); w == 8 {
				c.kind = 7
			} else {
				c.kind = 8
			}
		}
	case isString(c.t2):
		if s, ok := c.t.Underlying().(*types.Slice); ok {
			if w, _, _ := typeInt(s.Elem()); w == 8 {
				c.kind = 9
			} else {
				c.kind = 10
			}
		}
	default:
		_, p1 := c.t.Underlying().(*types.Pointer)
		_, p2 := c.t2.Underlying().(*types.Pointer)
		b1, u1 := c.t.Underlying().(*types.Basic)
		b2, u2 := c.t2.Underlying().(*types.Basic)
		if (p1 || u1 && b1.Kind() == types.UnsafePointer) && (p2 || u2 && b2.Kind() == types.UnsafePointer) {
			c.kind = 6 // identity; type confusion is caught by value kinds
			return
		}
		c.op = iUnsupported
		c.name = "convert " + c.t.String() + " to " + c.t2.String()
	}
}

func (f *CFunc) compileCall(c *CInstr, call *ssa.CallCommon, opnds func(...ssa.Value) []Operand) {
	if call.IsInvoke() {
		c.op = iCallInvoke
		c.a = opnds(append([]ssa.Value{call.Value}, call.Args...)...)
		c.name = call.Method.Name()
		c.t2 = nil
		c.blocks = nil
		c.fn = nil
		c.ins = nilSafe(c.ins)
		return
	}
	switch v := call.Value.(type) {
	case *ssa.Builtin:
		c.op = iCallBuiltin
		c.name = v.Name()
		c.a = opnds(call.Args...)
		if len(call.Args) > 0 {
			c.t2 = call.Args[0].Type()
		}
	case *ssa.Function:
		c.op = iCallStatic
		c.fn = f.prog.Func(v)
		c.a = opnds(call.Args...)
	default:
		c.op = iCallDyn
		c.a = opnds(append([]ssa.Value{call.Value}, call.Args...)...)
	}
}

func nilSafe(i ssa.Instruction) ssa.Instruction { return i }

// ---- post-dominators, ignoring edges into blocks that end in panic ----

func (f *CFunc) postdom() {
	n := len(f.blocks)
	isPanic := make([]bool, n)
	for i, b := range f.blocks {
		if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == iPanic {
			isPanic[i] = true
		}
	}
	// exit = n
	succs := make([][]int, n+1)
	for i, b := range f.blocks {
		if isPanic[i] {
			continue
		}
		for _, s := range b.succs {
			if !isPanic[s] {
				succs[i] = append(succs[i], s)
			}
		}
		if len(b.succs) == 0 {
			succs[i] = append(succs[i], n)
		}
	}
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << uint(i%64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	ex := make([]uint64, words)
	ex[n/64] |= 1 << uint(n%64)
	pd[n] = ex
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if len(succs[i]) == 0 {
				continue
			}
			nw := append([]uint64(nil), full...)
			for _, s := range succs[i] {
				for k := range nw {
					nw[k] &= pd[s][k]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>uint(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	for i, b := range f.blocks {
		if len(succs[i]) == 0 || len(b.succs) != 2 {
			continue
		}
		// the immediate post-dominator is the strict one with most pdoms
		best, bc := -2, -1
		for j := 0; j <= n; j++ {
			if j == i || pd[i][j/64]>>uint(j%64)&1 == 0 {
				continue
			}
			if c := count(pd[j]); c > bc {
				bc = c
				best = j
			}
		}
		if best == n {
			best = -1
		}
		b.ipdom = best
	}
}

// pureFn: no calls through interfaces or closures, no concurrency, no
// defers; transitively through static callees.
func (f *CFunc) isPure(depth int) bool {
	f.prog.mu.Lock()
	p := f.pure
	f.prog.mu.Unlock()
	if p != 0 {
		return p > 0
	}
	r := f.computePure(depth)
	f.prog.mu.Lock()
	if r {
		f.pure = 1
	} else {
		f.pure = -1
	}
	f.prog.mu.Unlock()
	return r
}

func (f *CFunc) computePure(depth int) bool {
	if f.in != nil {
		return f.in.pure
	}
	if depth > 6 || f.fn.Blocks == nil {
		return false
	}
	func() {
		defer func() { recover() }()
		f.prep()
	}()
	if f.err != "" || f.hasDefer {
		return false
	}
	for _, b := range f.blocks {
		if !f.blockPure(b, depth) {
			return false
		}
	}
	return true
}

func (f *CFunc) blockPure(b *CBlock, depth int) bool {
	for i := range b.ins {
		c := &b.ins[i]
		switch c.op {
		case iCallInvoke, iCallDyn, iGo, iDefer, iRunDefers, iSend, iRecv, iSelect, iMapUpdate, iUnsupported, iMakeMap, iRange, iNext:
			return false
		case iCallStatic:
			if c.fn == f || !c.fn.isPure(depth+1) {
				return false
			}
		}
	}
	return true
}

// regionPure decides whether the blocks between b and its post-dominator are
// candidates for merging.
func (f *CFunc) regionPure(b *CBlock) bool {
	f.prog.mu.Lock()
	m := b.merge
	f.prog.mu.Unlock()
	if m != 0 {
		return m > 0
	}
	r := f.computeRegionPure(b)
	f.prog.mu.Lock()
	if r {
		b.merge = 1
	} else {
		b.merge = -1
	}
	f.prog.mu.Unlock()
	return r
}

func (f *CFunc) computeRegionPure(b *CBlock) bool {
	if b.ipdom == -2 {
		return false
	}
	if b.ipdom == -1 && (!f.retScalar || f.hasDefer) {
		return false
	}
	seen := map[int]bool{}
	size := 0
	var st []int
	st = append(st, b.succs...)
	for len(st) > 0 {
		i := st[len(st)-1]
		st = st[:len(st)-1]
		if i == b.ipdom || seen[i] {
			continue
		}
		if i == b.idx {
			return false // loop back to the branch
		}
		seen[i] = true
		if len(seen) > 40 {
			return false
		}
		cb := f.blocks[i]
		size += len(cb.ins)
		for k := range cb.ins {
			if op := cb.ins[k].op; op == iCallStatic || op == iCallBuiltin {
				size += 1000
			}
		}
		if n := len(cb.ins); n > 0 && cb.ins[n-1].op == iPanic {
			continue
		}
		if !f.blockPure(cb, 0) {
			return false
		}
		st = append(st, cb.succs...)
	}
	b.small = size <= 40
	return true
}

var _ = math.MaxInt64
