package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	f      *CFunc
	r      []Value
	defers []deferred
	caller *Frame
	panicv *GoPanic // panic in progress while deferred functions run
	recov  bool
	pos    token.Pos
}

type deferred struct {
	c    *CInstr
	args []Value
	cl   *Closure
	bi   string
}

// GoPanic is an interpreted panic unwinding the host stack.
type GoPanic struct {
	v     Value // interface value
	msg   string
	where string
	rt    bool // runtime error
}

type specAbort struct{ why string }
type killG struct{}

type logEnt struct {
	o   *Obj
	i   int
	old Value
}

type specFrame struct {
	log    []logEnt
	budget int
}

const (
	outReturn = iota
	outStop
)

type outcome struct {
	kind int
	val  Value   // return value (single, Tuple, or nil)
	phis []Value // for outStop: values for the stop block's phis
}

func (e *Engine) val(fr *Frame, o *Operand) Value {
	if o.slot >= 0 {
		return fr.r[o.slot]
	}
	if o.slot == -1 {
		return o.v
	}
	return Ptr{o: e.global(o.g)}
}

func (e *Engine) term(fr *Frame, o *Operand) *Term {
	v := e.val(fr, o)
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("expected integer, got %T in %s", v, fr.f.name)))
	}
	return t
}

func (e *Engine) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	// An uninitialised package's global: only zero-valued use is wrong, so
	// reading it is refused unless the package was initialised.
	guard := false
	if !e.initDone[g.Pkg] {
		guard = g.Name() == "init$guard"
		if !guard {
			panic(unsupported("global of uninitialised package: " + g.String()))
		}
	}
	save := e.initing
	e.initing = true
	o := e.newObj(layoutOf(deref(g.Type())), g.Name())
	if guard {
		o.rawSet(0, termTrue)
	}
	e.initing = save
	e.globals[g] = o
	return o
}

// callFn calls an interpreted (or intrinsic) function.
func (e *Engine) callFn(cf *CFunc, args []Value, free []Value) (ret Value) {
	if cf.in != nil {
		return cf.in.fn(e, args)
	}
	cf.prep()
	if cf.repo && !e.encoded[cf] {
		e.encoded[cf] = true
	}
	if e.depth > 400 {
		e.goPanicMsg("stack overflow", true)
	}
	e.depth++
	fr := &Frame{f: cf, r: make([]Value, cf.nregs), caller: e.cur.frame}
	copy(fr.r, args)
	copy(fr.r[cf.nparams:], free)
	saved := e.cur.frame
	e.cur.frame = fr
	depth := e.depth
	if cf.hasDefer {
		ret = e.runDeferring(fr, depth)
	} else {
		ret = e.run(fr, 0, -1, -1).val
	}
	e.cur.frame = saved
	e.depth = depth - 1
	return ret
}

func (e *Engine) runDeferring(fr *Frame, depth int) (ret Value) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*GoPanic)
		if !ok {
			panic(r)
		}
		// run the deferred calls with the panic in progress
		e.depth = depth
		e.cur.frame = fr
		fr.panicv = gp
		e.runDefers(fr)
		if fr.panicv != nil {
			panic(fr.panicv)
		}
		// recovered: return the named results via the recover block
		if rb := fr.f.fn.Recover; rb != nil {
			ret = e.run(fr, rb.Index, -1, -1).val
		} else {
			ret = zeroResults(fr.f.fn)
		}
	}()
	return e.run(fr, 0, -1, -1).val
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zeroValue(r.At(0).Type())
	}
	return zeroValue(r)
}

func (e *Engine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(*GoPanic); ok {
						e.cur.frame = fr
						fr.panicv = gp // a new panic replaces the old one
						return
					}
					panic(r)
				}
			}()
			e.invokeDeferred(fr, d)
		}()
	}
}

func (e *Engine) invokeDeferred(fr *Frame, d deferred) {
	if d.bi != "" {
		if d.bi == "recover" {
			return
		}
		e.builtin(fr, d.c, d.args)
		return
	}
	e.callClosure(d.cl, d.args)
}

func (e *Engine) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		e.goPanic("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(e, args)
	}
	return e.callFn(c.fn, args, c.free)
}

func (e *Engine) where() string {
	for fr := e.cur.frame; fr != nil; fr = fr.caller {
		if fr.f.repo {
			p := e.prog.prog.Fset.Position(fr.pos)
			return fmt.Sprintf("%s (%s:%d)", fr.f.name, shortFile(p.Filename), p.Line)
		}
	}
	if e.cur.frame != nil {
		return e.cur.frame.f.name
	}
	return "?"
}

// goPanic raises a Go runtime error.
func (e *Engine) goPanic(msg string) { e.goPanicMsg(msg, true) }

func (e *Engine) goPanicMsg(msg string, rt bool) {
	if len(e.spec) > 0 {
		panic(specAbort{"panic"})
	}
	v := e.runtimeError(msg)
	panic(&GoPanic{v: v, msg: "runtime error: " + msg, where: e.where(), rt: rt})
}

// require: cond must hold, otherwise the Go runtime panics with msg.
func (e *Engine) require(cond *Term, msg string) {
	if cond.IsConst() {
		if cond.val == 0 {
			e.goPanic(msg)
		}
		return
	}
	if !e.branch(cond, msg) {
		e.goPanic(msg)
	}
}

func (e *Engine) arrive(fr *Frame, to *CBlock, from int, edge int) []Value {
	if len(to.phis) == 0 {
		return nil
	}
	out := make([]Value, len(to.phis))
	for i := range to.phis {
		out[i] = e.val(fr, &to.phis[i].a[edge])
	}
	return out
}

// run executes from block b. phi values for b must already be set when
// b is not the entry (the caller passes them through `phis`).
func (e *Engine) run(fr *Frame, b int, stop int, _ int) outcome {
	return e.runFrom(fr, b, nil, stop)
}

func (e *Engine) runFrom(fr *Frame, b int, phis []Value, stop int) outcome {
	f := fr.f
	for {
		if b == stop {
			return outcome{kind: outStop, phis: phis}
		}
		blk := f.blocks[b]
		for i := range blk.phis {
			if phis == nil {
				break
			}
			fr.r[blk.phis[i].dst] = phis[i]
		}
		n := len(blk.ins)
		e.steps += n
		if e.steps > e.stepLimit {
			panic(stepLimitErr{e.where()})
		}
		if k := len(e.spec); k > 0 {
			e.spec[k-1].budget -= n
			if e.spec[k-1].budget < 0 {
				panic(specAbort{"budget"})
			}
		}
		var next, edge int
		jumped := false
		for i := 0; i < n; i++ {
			c := &blk.ins[i]
			switch c.op {
			case iJump:
				next, edge = blk.succs[0], blk.predIx[0]
				jumped = true
			case iIf:
				cond := e.term(fr, &c.a[0])
				if cond.IsConst() {
					if cond.val != 0 {
						next, edge = blk.succs[0], blk.predIx[0]
					} else {
						next, edge = blk.succs[1], blk.predIx[1]
					}
					jumped = true
					break
				}
				fr.pos = c.ins.(*ssa.If).Cond.Pos()
				if blk.succs[0] == blk.succs[1] && len(f.blocks[blk.succs[0]].phis) == 0 {
					next, edge = blk.succs[0], blk.predIx[0]
					jumped = true
					break
				}
				if e.mergeOn && f.regionPure(blk) {
					out, taken, merged := e.tryMerge(fr, blk, cond)
					if merged {
						if out.kind == outReturn {
							return out
						}
						b, phis = blk.ipdom, out.phis
						if phis == nil {
							phis = []Value{}
						}
						goto nextBlock
					}
					if taken >= 0 {
						next, edge = blk.succs[taken], blk.predIx[taken]
						jumped = true
						break
					}
				}
				if e.branch(cond, "if") {
					next, edge = blk.succs[0], blk.predIx[0]
				} else {
					next, edge = blk.succs[1], blk.predIx[1]
				}
				jumped = true
			case iReturn:
				var v Value
				switch len(c.a) {
				case 0:
				case 1:
					v = e.val(fr, &c.a[0])
				default:
					t := make(Tuple, len(c.a))
					for k := range c.a {
						t[k] = e.val(fr, &c.a[k])
					}
					v = t
				}
				return outcome{kind: outReturn, val: v}
			default:
				e.exec(fr, c)
			}
		}
		if !jumped {
			panic(unsupported("block without terminator in " + f.name))
		}
		phis = e.arrive(fr, f.blocks[next], b, edge)
		if phis == nil {
			phis = []Value{}
		}
		b = next
	nextBlock:
	}
}

func (e *Engine) exec(fr *Frame, c *CInstr) {
	switch c.op {
	case iBinOp:
		fr.r[c.dst] = e.binop(fr, c)
	case iUnOp:
		x := e.val(fr, &c.a[0])
		switch c.tok {
		case token.NOT:
			fr.r[c.dst] = e.tt.Not1(x.(*Term))
		case token.SUB:
			switch v := x.(type) {
			case *Term:
				fr.r[c.dst] = e.tt.Neg(v)
			case float64:
				fr.r[c.dst] = -v
			default:
				panic(unsupported("negation"))
			}
		case token.XOR:
			fr.r[c.dst] = e.tt.Not(x.(*Term))
		default:
			panic(unsupported("unop " + c.tok.String()))
		}
	case iLoad:
		fr.pos = c.ins.Pos()
		p, ok := e.val(fr, &c.a[0]).(Ptr)
		if !ok {
			panic(unsupported("load through non pointer"))
		}
		v := e.load(p, c.t, c.n, c.agg)
		fr.r[c.dst] = v
	case iStore:
		fr.pos = c.ins.Pos()
		e.store(e.val(fr, &c.a[0]).(Ptr), e.val(fr, &c.a[1]))
	case iAlloc:
		fr.r[c.dst] = Ptr{o: e.newObj(c.l, c.name)}
	case iFieldAddr:
		p := e.val(fr, &c.a[0]).(Ptr)
		if p.o == nil {
			fr.pos = c.ins.Pos()
			e.goPanic("invalid memory address or nil pointer dereference")
		}
		p.off += c.n
		fr.r[c.dst] = p
	case iField:
		a := e.val(fr, &c.a[0]).(Agg)
		if c.agg {
			fr.r[c.dst] = a[c.n : c.n+c.m : c.n+c.m]
		} else {
			fr.r[c.dst] = a[c.n]
		}
	case iIndexAddr:
		e.indexAddr(fr, c)
	case iIndex:
		e.index(fr, c)
	case iSlice:
		fr.pos = c.ins.Pos()
		e.slice(fr, c)
	case iCallStatic:
		fr.pos = c.ins.Pos()
		args := make([]Value, len(c.a))
		for i := range c.a {
			args[i] = e.val(fr, &c.a[i])
		}
		r := e.callFn(c.fn, args, nil)
		e.setRes(fr, c, r)
	case iCallInvoke:
		fr.pos = c.ins.Pos()
		cl, args := e.resolveInvoke(fr, c)
		e.setRes(fr, c, e.callClosure(cl, args))
	case iCallDyn:
		fr.pos = c.ins.Pos()
		cl, _ := e.val(fr, &c.a[0]).(*Closure)
		args := make([]Value, len(c.a)-1)
		for i := range args {
			args[i] = e.val(fr, &c.a[i+1])
		}
		e.setRes(fr, c, e.callClosure(cl, args))
	case iCallBuiltin:
		fr.pos = c.ins.Pos()
		args := make([]Value, len(c.a))
		for i := range c.a {
			args[i] = e.val(fr, &c.a[i])
		}
		e.setRes(fr, c, e.builtin(fr, c, args))
	case iConvert:
		fr.r[c.dst] = e.convert(c, e.val(fr, &c.a[0]))
	case iChangeType, iChangeIface:
		fr.r[c.dst] = e.val(fr, &c.a[0])
	case iMakeIface:
		fr.r[c.dst] = Iface{t: c.t, v: e.val(fr, &c.a[0])}
	case iTypeAssert:
		fr.pos = c.ins.Pos()
		e.typeAssert(fr, c)
	case iExtract:
		fr.r[c.dst] = e.val(fr, &c.a[0]).(Tuple)[c.n]
	case iMakeSlice:
		fr.pos = c.ins.Pos()
		e.makeSlice(fr, c)
	case iMakeMap:
		fr.r[c.dst] = &MapObj{idx: map[string]int{}, base: e.initing, vt: c.t}
	case iMakeChan:
		n := int(e.concretize(e.term(fr, &c.a[0])))
		e.chanID++
		fr.r[c.dst] = &ChanObj{cap: n, id: e.chanID, es: c.t}
	case iMakeClosure:
		free := make([]Value, len(c.a))
		for i := range c.a {
			free[i] = e.val(fr, &c.a[i])
		}
		fr.r[c.dst] = &Closure{fn: c.fn, free: free}
	case iMapUpdate:
		fr.pos = c.ins.Pos()
		m := e.val(fr, &c.a[0]).(*MapObj)
		if m == nil {
			e.goPanicMsg("assignment to entry in nil map", false)
		}
		e.mapSet(m, e.val(fr, &c.a[1]), e.val(fr, &c.a[2]))
	case iLookup:
		fr.pos = c.ins.Pos()
		e.lookup(fr, c)
	case iRange:
		switch x := e.val(fr, &c.a[0]).(type) {
		case string:
			fr.r[c.dst] = &rangeIter{str: x}
		case *MapObj:
			fr.r[c.dst] = &rangeIter{m: x}
		default:
			panic(unsupported("range"))
		}
	case iNext:
		it := e.val(fr, &c.a[0]).(*rangeIter)
		if c.comma {
			if it.i >= len(it.str) {
				fr.r[c.dst] = Tuple{e.tt.False, e.tt.Const(64, 0), e.tt.Const(32, 0)}
			} else {
				r, sz := utf8.DecodeRuneInString(it.str[it.i:])
				fr.r[c.dst] = Tuple{e.tt.True, e.tt.Const(64, uint64(it.i)), e.tt.Const(32, uint64(r))}
				it.i += sz
			}
			return
		}
		if it.m != nil {
			for it.i < len(it.m.ents) && it.m.ents[it.i].dead {
				it.i++
			}
		}
		tup := c.t.(*types.Tuple)
		if it.m == nil || it.i >= len(it.m.ents) {
			out := Tuple{e.tt.False, nil, nil}
			for i := 1; i < 3; i++ {
				if b, ok := tup.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					continue
				}
				out[i] = zeroValue(tup.At(i).Type())
			}
			fr.r[c.dst] = out
		} else {
			en := it.m.ents[it.i]
			fr.r[c.dst] = Tuple{e.tt.True, en.k, en.v}
			it.i++
		}
	case iSend:
		fr.pos = c.ins.Pos()
		ch := e.val(fr, &c.a[0]).(*ChanObj)
		e.chanSend(ch, e.val(fr, &c.a[1]))
	case iRecv:
		fr.pos = c.ins.Pos()
		ch := e.val(fr, &c.a[0]).(*ChanObj)
		v, ok := e.chanRecv(ch, c.t)
		if c.comma {
			fr.r[c.dst] = Tuple{v, e.tt.Bool(ok)}
		} else {
			fr.r[c.dst] = v
		}
	case iSelect:
		fr.pos = c.ins.Pos()
		e.selectStmt(fr, c)
	case iGo:
		e.spawn(fr, c)
	case iDefer:
		if len(e.spec) > 0 {
			panic(specAbort{"defer"})
		}
		d := deferred{c: c}
		switch c.kind {
		case iCallInvoke:
			d.cl, d.args = e.resolveInvoke(fr, c)
		case iCallStatic:
			d.cl = &Closure{fn: c.fn}
			for i := range c.a {
				d.args = append(d.args, e.val(fr, &c.a[i]))
			}
		case iCallDyn:
			d.cl, _ = e.val(fr, &c.a[0]).(*Closure)
			for i := 1; i < len(c.a); i++ {
				d.args = append(d.args, e.val(fr, &c.a[i]))
			}
		case iCallBuiltin:
			d.bi = c.name
			for i := range c.a {
				d.args = append(d.args, e.val(fr, &c.a[i]))
			}
		}
		fr.defers = append(fr.defers, d)
	case iRunDefers:
		e.runDefers(fr)
		if gp := fr.panicv; gp != nil {
			panic(gp)
		}
	case iPanic:
		fr.pos = c.ins.Pos()
		if len(e.spec) > 0 {
			panic(specAbort{"panic"})
		}
		v := e.val(fr, &c.a[0])
		panic(&GoPanic{v: v, msg: e.panicText(v), where: e.where()})
	case iSliceToArrayPtr:
		s := e.val(fr, &c.a[0]).(Slice)
		if s.len < c.n {
			e.goPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, c.n))
		}
		if s.o == nil {
			fr.r[c.dst] = Ptr{}
		} else {
			fr.r[c.dst] = Ptr{o: s.o, off: s.off}
		}
	case iUnsupported:
		panic(unsupported("instruction " + c.name + " in " + fr.f.name))
	default:
		panic(unsupported(fmt.Sprintf("op %d", c.op)))
	}
}

func (e *Engine) setRes(fr *Frame, c *CInstr, r Value) {
	if c.dst >= 0 {
		fr.r[c.dst] = r
	}
}

func (e *Engine) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case string:
		return x
	case *Term:
		if x.IsConst() {
			return fmt.Sprint(int64(sext64(x.val, x.w)))
		}
		return "symbolic"
	}
	if s, ok := e.errorText(i); ok {
		return s
	}
	return i.t.String()
}

// errorText calls Error() on an error value.
func (e *Engine) errorText(i Iface) (string, bool) {
	m := e.findMethod(i.t, "Error")
	if m == nil {
		return "", false
	}
	s, ok := e.callClosure(m, []Value{i.v}).(string)
	return s, ok
}

func (e *Engine) findMethod(t types.Type, name string) *Closure {
	ms := e.prog.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			fn := e.prog.prog.MethodValue(sel)
			if fn == nil {
				return nil
			}
			return e.prog.closure(fn)
		}
	}
	return nil
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) resolveInvoke(fr *Frame, c *CInstr) (*Closure, []Value) {
	iv, ok := e.val(fr, &c.a[0]).(Iface)
	if !ok {
		panic(unsupported("invoke on non interface"))
	}
	if iv.t == nil {
		e.goPanic("invalid memory address or nil pointer dereference")
	}
	args := make([]Value, len(c.a))
	args[0] = iv.v
	for i := 1; i < len(c.a); i++ {
		args[i] = e.val(fr, &c.a[i])
	}
	var m *types.Func
	switch x := c.ins.(type) {
	case *ssa.Call:
		m = x.Call.Method
	case *ssa.Go:
		m = x.Call.Method
	case *ssa.Defer:
		m = x.Call.Method
	}
	k := methKey{iv.t, m}
	if cl, ok := e.methods[k]; ok {
		return cl, args
	}
	fn := e.prog.prog.LookupMethod(iv.t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("method " + m.Name() + " of " + iv.t.String()))
	}
	cl := e.prog.closure(fn)
	e.methods[k] = cl
	return cl, args
}

func (e *Engine) idxTerm(t *Term, w uint8, signed bool) *Term {
	if t.w == 64 {
		return t
	}
	if signed {
		return e.tt.SExt(t, 64)
	}
	return e.tt.ZExt(t, 64)
}

func (e *Engine) indexAddr(fr *Frame, c *CInstr) {
	base := e.val(fr, &c.a[0])
	idx := e.idxTerm(e.term(fr, &c.a[1]), c.w, c.signed)
	var p Ptr
	n := c.n
	if c.kind == 0 {
		s := base.(Slice)
		n = s.len
		p = Ptr{o: s.o, off: s.off}
	} else {
		p = base.(Ptr)
	}
	if idx.IsConst() {
		i := int64(idx.val)
		if i < 0 || i >= int64(n) {
			fr.pos = c.ins.Pos()
			e.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		if c.kind == 1 && p.o == nil {
			e.goPanic("invalid memory address or nil pointer dereference")
		}
		if p.sym != nil {
			// constant element inside a symbolically addressed aggregate
			p.off += int(i) * c.m
			fr.r[c.dst] = p
			return
		}
		p.off += int(i) * c.m
		fr.r[c.dst] = p
		return
	}
	fr.pos = c.ins.Pos()
	e.require(e.tt.Ult(idx, e.tt.Const(64, uint64(n))), fmt.Sprintf("index out of range with length %d", n))
	lo, hi := idxRange(&SymIdx{t: idx, n: n})
	if hi-lo > 1024 || n == 0 {
		i := int(e.concretize(idx))
		p.off += i * c.m
		fr.r[c.dst] = p
		return
	}
	if p.o == nil {
		e.goPanic("invalid memory address or nil pointer dereference")
	}
	p.sym = &SymIdx{t: idx, n: n, stride: c.m, next: p.sym}
	fr.r[c.dst] = p
}

func (e *Engine) index(fr *Frame, c *CInstr) {
	idx := e.idxTerm(e.term(fr, &c.a[1]), c.w, c.signed)
	fr.pos = c.ins.Pos()
	if c.kind == 1 {
		s := e.val(fr, &c.a[0]).(string)
		fr.r[c.dst] = e.strIndex(s, idx)
		return
	}
	a := e.val(fr, &c.a[0]).(Agg)
	e.require(e.tt.Ult(idx, e.tt.Const(64, uint64(c.n))), fmt.Sprintf("index out of range with length %d", c.n))
	i := 0
	if idx.IsConst() {
		i = int(idx.val)
	} else if !c.agg {
		lo, hi := idxRange(&SymIdx{t: idx, n: c.n})
		ok := true
		for _, v := range a[lo : hi+1] {
			if _, isT := v.(*Term); !isT {
				ok = false
			}
		}
		if ok {
			fr.r[c.dst] = e.selectTree(idx, lo, a[lo:hi+1])
			return
		}
		i = int(e.concretize(idx))
	} else {
		i = int(e.concretize(idx))
	}
	if c.agg {
		fr.r[c.dst] = a[i*c.m : (i+1)*c.m]
	} else {
		fr.r[c.dst] = a[i]
	}
}

func (e *Engine) strIndex(s string, idx *Term) Value {
	e.require(e.tt.Ult(idx, e.tt.Const(64, uint64(len(s)))), fmt.Sprintf("index out of range with length %d", len(s)))
	if idx.IsConst() {
		return e.tt.Const(8, uint64(s[idx.val]))
	}
	lo, hi := idxRange(&SymIdx{t: idx, n: len(s)})
	vals := make([]Value, 0, hi-lo+1)
	for i := lo; i <= hi; i++ {
		vals = append(vals, e.tt.Const(8, uint64(s[i])))
	}
	return e.selectTree(idx, lo, vals)
}

func (e *Engine) slice(fr *Frame, c *CInstr) {
	base := e.val(fr, &c.a[0])
	var o *Obj
	var off, ln, cp int
	str := ""
	switch c.kind {
	case 0:
		s := base.(Slice)
		o, off, ln, cp = s.o, s.off, s.len, s.cap
	case 1:
		p := base.(Ptr)
		if p.o == nil {
			e.goPanic("invalid memory address or nil pointer dereference")
		}
		if p.sym != nil {
			p = e.concretePtr(p)
		}
		o, off, ln, cp = p.o, p.off, c.n, c.n
	default:
		str = base.(string)
		ln, cp = len(str), len(str)
	}
	x := c.ins.(*ssa.Slice)
	get := func(k int, v ssa.Value, def int) *Term {
		if v == nil {
			return e.tt.Const(64, uint64(def))
		}
		w, s, _ := typeInt(v.Type())
		return e.idxTerm(e.term(fr, &c.a[k]), w, s)
	}
	lo := get(1, x.Low, 0)
	hi := get(2, x.High, ln)
	mx := get(3, x.Max, cp)
	limit := cp
	if c.kind == 2 {
		limit = ln
	}
	ule := func(a, b *Term) *Term { return e.tt.Not1(e.tt.Ult(b, a)) }
	e.require(ule(mx, e.tt.Const(64, uint64(cp))), fmt.Sprintf("slice bounds out of range with capacity %d", cp))
	if x.Max != nil {
		e.require(ule(hi, mx), "slice bounds out of range")
	} else if hi.IsConst() && hi.val > uint64(limit) {
		e.goPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", int64(hi.val), limit))
	} else {
		e.require(ule(hi, e.tt.Const(64, uint64(limit))), fmt.Sprintf("slice bounds out of range with capacity %d", limit))
	}
	e.require(ule(lo, hi), "slice bounds out of range [low > high]")
	l, h, m := int(e.concretize(lo)), int(e.concretize(hi)), int(e.concretize(mx))
	if c.kind == 2 {
		fr.r[c.dst] = str[l:h]
		return
	}
	if o == nil {
		fr.r[c.dst] = Slice{}
		return
	}
	fr.r[c.dst] = Slice{o: o, off: off + l*c.m, len: h - l, cap: m - l}
}

func (e *Engine) concretePtr(p Ptr) Ptr {
	off := p.off
	for s := p.sym; s != nil; s = s.next {
		off += int(e.concretize(s.t)) * s.stride
	}
	return Ptr{o: p.o, off: off}
}

func (e *Engine) makeSlice(fr *Frame, c *CInstr) {
	l := e.idxTerm(e.term(fr, &c.a[0]), c.w, c.signed)
	cp := e.idxTerm(e.term(fr, &c.a[1]), c.w2, true)
	elsz := max(1, c.l.n)
	e.require(e.tt.Ult(l, e.tt.Const(64, uint64(1<<47/elsz))), "makeslice: len out of range")
	e.require(e.tt.Not1(e.tt.Ult(cp, l)), "makeslice: cap out of range")
	// allocation accounting
	if lim := e.allocLimit; lim > 0 {
		small := e.tt.Ult(cp, e.tt.Const(64, uint64(lim)))
		ok := true
		if small.IsConst() {
			ok = small.val != 0
		} else {
			ok = e.branch(small, "alloc")
		}
		if !ok {
			e.violate("excessive allocation", "make allocates more than "+fmt.Sprint(lim)+" elements at "+e.where())
			panic(pathEnd{"excessive allocation"})
		}
	}
	n, k := int(e.concretize(l)), int(e.concretize(cp))
	if k*elsz > 1<<26 {
		panic(unsupported(fmt.Sprintf("make of %d elements", k)))
	}
	fr.r[c.dst] = Slice{o: e.newArrayObj(c.l, k, "make"), len: n, cap: k}
}

func (e *Engine) typeAssert(fr *Frame, c *CInstr) {
	iv := e.val(fr, &c.a[0]).(Iface)
	ok := false
	var res Value
	if it, isI := c.t.Underlying().(*types.Interface); isI {
		if iv.t != nil && e.implements(iv.t, it) {
			ok = true
			res = iv
		} else {
			res = Iface{}
		}
	} else {
		if iv.t != nil && types.Identical(iv.t, c.t) {
			ok = true
			res = iv.v
		} else {
			res = zeroValue(c.t)
		}
	}
	if c.comma {
		fr.r[c.dst] = Tuple{res, e.tt.Bool(ok)}
		return
	}
	if !ok {
		dyn := "nil"
		if iv.t != nil {
			dyn = iv.t.String()
		}
		if len(e.spec) > 0 {
			panic(specAbort{"panic"})
		}
		e.goPanic("interface conversion: interface is " + dyn + ", not " + c.t.String())
	}
	fr.r[c.dst] = res
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := e.impls[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	e.impls[k] = r
	return r
}

func (e *Engine) lookup(fr *Frame, c *CInstr) {
	if c.kind == 1 {
		s := e.val(fr, &c.a[0]).(string)
		fr.r[c.dst] = e.strIndex(s, e.idxTerm(e.term(fr, &c.a[1]), c.w, c.signed))
		return
	}
	m := e.val(fr, &c.a[0]).(*MapObj)
	k := e.concKey(e.val(fr, &c.a[1]), m)
	var v Value
	ok := false
	if m != nil && k != nil {
		if i, found := m.idx[mapKey(k)]; found {
			v, ok = m.ents[i].v, true
		}
	}
	if !ok {
		v = zeroValue(c.t)
	}
	if c.comma {
		fr.r[c.dst] = Tuple{v, e.tt.Bool(ok)}
	} else {
		fr.r[c.dst] = v
	}
}

// concKey decides which existing key a symbolic key equals (nil: none).
func (e *Engine) concKey(k Value, m *MapObj) Value {
	if t, ok := k.(*Term); ok && !t.IsConst() {
		if m == nil {
			return nil
		}
		for _, en := range m.ents {
			if en.dead {
				continue
			}
			kt := en.k.(*Term)
			eq := e.tt.Eq(t, kt)
			if eq.IsConst() {
				if eq.val != 0 {
					return kt
				}
				continue
			}
			if e.branch(eq, "map key") {
				return kt
			}
		}
		return nil
	}
	return k
}

func (e *Engine) mapSet(m *MapObj, k, v Value) {
	e.touchMap(m)
	if t, ok := k.(*Term); ok && !t.IsConst() {
		if kk := e.concKey(k, m); kk != nil {
			k = kk
		} else {
			k = e.tt.Const(t.w, e.concretize(t))
		}
	}
	ks := mapKey(k)
	if i, ok := m.idx[ks]; ok {
		m.ents[i].v = v
		return
	}
	m.idx[ks] = len(m.ents)
	m.ents = append(m.ents, mapEnt{k: k, v: v})
	m.n++
}

func (e *Engine) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	e.touchMap(m)
	k = e.concKey(k, m)
	if k == nil {
		return
	}
	ks := mapKey(k)
	if i, ok := m.idx[ks]; ok {
		m.ents[i].dead = true
		delete(m.idx, ks)
		m.n--
	}
}

// ---- operators ----

func (e *Engine) binop(fr *Frame, c *CInstr) Value {
	x, y := e.val(fr, &c.a[0]), e.val(fr, &c.a[1])
	tt := e.tt
	switch c.kind {
	case kInt:
		a, ok1 := x.(*Term)
		b, ok2 := y.(*Term)
		if !ok1 || !ok2 {
			panic(unsupported("integer operand"))
		}
		switch c.tok {
		case token.ADD:
			return tt.Add(a, b)
		case token.SUB:
			return tt.Sub(a, b)
		case token.MUL:
			return tt.Mul(a, b)
		case token.QUO, token.REM:
			fr.pos = c.ins.Pos()
			e.require(tt.Not1(tt.Eq(b, tt.Const(c.w, 0))), "integer divide by zero")
			switch {
			case c.tok == token.QUO && c.signed:
				return tt.SDiv(a, b)
			case c.tok == token.QUO:
				return tt.UDiv(a, b)
			case c.signed:
				return tt.SRem(a, b)
			default:
				return tt.URem(a, b)
			}
		case token.AND:
			return tt.And(a, b)
		case token.OR:
			return tt.Or(a, b)
		case token.XOR:
			return tt.Xor(a, b)
		case token.AND_NOT:
			return tt.And(a, tt.Not(b))
		case token.SHL, token.SHR:
			if c.comma { // signed count
				fr.pos = c.ins.Pos()
				e.require(tt.Not1(tt.Slt(b, tt.Const(c.w2, 0))), "negative shift amount")
			}
			op := OpShl
			if c.tok == token.SHR {
				op = OpLShr
				if c.signed {
					op = OpAShr
				}
			}
			return tt.shift(op, a, b)
		case token.EQL:
			return tt.Eq(a, b)
		case token.NEQ:
			return tt.Not1(tt.Eq(a, b))
		}
		lt := tt.Ult
		if c.signed {
			lt = tt.Slt
		}
		switch c.tok {
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return tt.Not1(lt(b, a))
		case token.GEQ:
			return tt.Not1(lt(a, b))
		}
	case kBool:
		a, b := x.(*Term), y.(*Term)
		switch c.tok {
		case token.EQL:
			return tt.Eq(a, b)
		case token.NEQ:
			return tt.Not1(tt.Eq(a, b))
		case token.AND:
			return tt.BAnd(a, b)
		case token.OR:
			return tt.BOr(a, b)
		}
	case kString:
		a, b := x.(string), y.(string)
		switch c.tok {
		case token.ADD:
			return a + b
		case token.EQL:
			return tt.Bool(a == b)
		case token.NEQ:
			return tt.Bool(a != b)
		case token.LSS:
			return tt.Bool(a < b)
		case token.LEQ:
			return tt.Bool(a <= b)
		case token.GTR:
			return tt.Bool(a > b)
		case token.GEQ:
			return tt.Bool(a >= b)
		}
	case kFloat:
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if !ok1 || !ok2 {
			panic(unsupported("symbolic float"))
		}
		r := func(f float64) Value {
			if c.w2 == 32 {
				return float64(float32(f))
			}
			return f
		}
		switch c.tok {
		case token.ADD:
			return r(a + b)
		case token.SUB:
			return r(a - b)
		case token.MUL:
			return r(a * b)
		case token.QUO:
			return r(a / b)
		case token.EQL:
			return tt.Bool(a == b)
		case token.NEQ:
			return tt.Bool(a != b)
		case token.LSS:
			return tt.Bool(a < b)
		case token.LEQ:
			return tt.Bool(a <= b)
		case token.GTR:
			return tt.Bool(a > b)
		case token.GEQ:
			return tt.Bool(a >= b)
		}
	default:
		switch c.tok {
		case token.EQL:
			return e.valueEq(x, y)
		case token.NEQ:
			return tt.Not1(e.valueEq(x, y))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s kind %d", c.tok, c.kind)))
}

func (e *Engine) valueEq(x, y Value) *Term {
	tt := e.tt
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok || a.w != b.w {
			return tt.False
		}
		return tt.Eq(a, b)
	case string:
		b, ok := y.(string)
		return tt.Bool(ok && a == b)
	case float64:
		b, ok := y.(float64)
		return tt.Bool(ok && a == b)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return tt.False
		}
		if a.sym != nil || b.sym != nil {
			a, b = e.concretePtr(a), e.concretePtr(b)
		}
		return tt.Bool(a.o == b.o && (a.o == nil || a.off == b.off))
	case Slice:
		b, ok := y.(Slice) // comparison with nil only
		return tt.Bool(ok && a.o == nil && b.o == nil)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return tt.False
		}
		if a.t == nil || b.t == nil {
			return tt.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tt.False
		}
		return e.valueEq(a.v, b.v)
	case Agg:
		b, ok := y.(Agg)
		if !ok || len(a) != len(b) {
			return tt.False
		}
		cs := make([]*Term, len(a))
		for i := range a {
			cs[i] = e.valueEq(a[i], b[i])
		}
		return tt.BAnd(cs...)
	case *Closure:
		b, ok := y.(*Closure)
		return tt.Bool(ok && a == b)
	case *MapObj:
		b, ok := y.(*MapObj)
		return tt.Bool(ok && a == b)
	case *ChanObj:
		b, ok := y.(*ChanObj)
		return tt.Bool(ok && a == b)
	case *Native:
		b, ok := y.(*Native)
		return tt.Bool(ok && a == b)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", x)))
}

func (e *Engine) convert(c *CInstr, v Value) Value {
	switch c.kind {
	case 1:
		t := v.(*Term)
		switch {
		case c.w2 == t.w:
			return t
		case c.w2 < t.w:
			return e.tt.Extract(t, c.w2-1, 0)
		case c.signed:
			return e.tt.SExt(t, c.w2)
		default:
			return e.tt.ZExt(t, c.w2)
		}
	case 2:
		t := v.(*Term)
		if !t.IsConst() {
			panic(unsupported("symbolic int to float"))
		}
		var f float64
		if c.signed {
			f = float64(sext64(t.val, t.w))
		} else {
			f = float64(t.val)
		}
		if c.w2 == 32 {
			f = float64(float32(f))
		}
		return f
	case 3:
		f := v.(float64)
		if c.signed {
			return e.tt.Const(c.w2, uint64(int64(f)))
		}
		return e.tt.Const(c.w2, uint64(f))
	case 4:
		f := v.(float64)
		if c.w2 == 32 {
			f = float64(float32(f))
		}
		return f
	case 5:
		t := v.(*Term)
		return string(rune(sext64(e.concretize(t), t.w)))
	case 6:
		return v
	case 7:
		s := v.(string)
		o := e.newArrayObj(byteLayout, len(s), "[]byte(string)")
		for i := 0; i < len(s); i++ {
			o.rawSet(i, e.tt.Const(8, uint64(s[i])))
		}
		return Slice{o: o, len: len(s), cap: len(s)}
	case 8:
		rs := []rune(v.(string))
		o := e.newArrayObj(runeLayout, len(rs), "[]rune(string)")
		for i, r := range rs {
			o.rawSet(i, e.tt.Const(32, uint64(r)))
		}
		return Slice{o: o, len: len(rs), cap: len(rs)}
	case 9:
		return e.bytesToString(v.(Slice))
	case 10:
		s := v.(Slice)
		rs := make([]rune, s.len)
		for i := range rs {
			rs[i] = rune(e.concretize(s.o.get(s.off + i).(*Term)))
		}
		return string(rs)
	}
	panic(unsupported("conversion"))
}

func (e *Engine) bytesToString(s Slice) string {
	b := make([]byte, s.len)
	for i := range b {
		if e.raceOn {
			e.raceRead(s.o, s.off+i, 1)
		}
		b[i] = byte(e.concretize(s.o.get(s.off + i).(*Term)))
	}
	return string(b)
}

var byteLayout = leaf(sharedTT.Const(8, 0))
var runeLayout = leaf(sharedTT.Const(32, 0))

// ---- builtins ----

func elemCells(t types.Type) *layout {
	return layoutOf(t.Underlying().(*types.Slice).Elem())
}

func (e *Engine) builtin(fr *Frame, c *CInstr, a []Value) Value {
	k := func(n int) Value { return e.tt.Const(64, uint64(n)) }
	switch c.name {
	case "len":
		switch x := a[0].(type) {
		case Slice:
			return k(x.len)
		case string:
			return k(len(x))
		case *MapObj:
			if x == nil {
				return k(0)
			}
			return k(x.n)
		case *ChanObj:
			if x == nil {
				return k(0)
			}
			return k(len(x.buf))
		case Agg:
			return k(int(c.t2.Underlying().(*types.Array).Len()))
		case Ptr:
			return k(int(deref(c.t2).Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := a[0].(type) {
		case Slice:
			return k(x.cap)
		case *ChanObj:
			if x == nil {
				return k(0)
			}
			return k(x.cap)
		case Agg:
			return k(int(c.t2.Underlying().(*types.Array).Len()))
		case Ptr:
			return k(int(deref(c.t2).Underlying().(*types.Array).Len()))
		}
	case "append":
		el := elemCells(c.t2)
		s := a[0].(Slice)
		var src Slice
		switch y := a[1].(type) {
		case Slice:
			src = y
		case string:
			src = e.convert(&CInstr{kind: 7}, y).(Slice)
		}
		if src.len == 0 {
			return s
		}
		need := s.len + src.len
		vals := e.readCells(src, src.len*el.n)
		if need > s.cap {
			nc := max(need, 2*s.cap)
			if s.cap > 256 {
				nc = max(need, s.cap+s.cap/4+192)
			}
			if el.n == 1 && nc < 8 {
				nc = 8
			}
			o := e.newArrayObj(el, nc, "append")
			old := e.readCells(s, s.len*el.n)
			for i, v := range old {
				o.rawSet(i, v)
			}
			s = Slice{o: o, len: s.len, cap: nc}
		}
		for i, v := range vals {
			e.writeCell(s.o, s.off+s.len*el.n+i, v)
		}
		s.len = need
		return s
	case "copy":
		el := elemCells(c.t2)
		d := a[0].(Slice)
		switch y := a[1].(type) {
		case Slice:
			n := min(d.len, y.len)
			vals := e.readCells(y, n*el.n)
			for i, v := range vals {
				e.writeCell(d.o, d.off+i, v)
			}
			return k(n)
		case string:
			n := min(d.len, len(y))
			for i := 0; i < n; i++ {
				e.writeCell(d.o, d.off+i, e.tt.Const(8, uint64(y[i])))
			}
			return k(n)
		}
	case "delete":
		e.mapDelete(a[0].(*MapObj), a[1])
		return nil
	case "clear":
		switch x := a[0].(type) {
		case *MapObj:
			if x != nil {
				e.touchMap(x)
				x.idx = map[string]int{}
				x.ents = nil
				x.n = 0
			}
		case Slice:
			el := elemCells(c.t2)
			for i := 0; i < x.len*el.n; i++ {
				e.writeCell(x.o, x.off+i, el.zeroAt(i%el.n))
			}
		}
		return nil
	case "min", "max":
		r := a[0]
		for _, y := range a[1:] {
			switch p := r.(type) {
			case *Term:
				q := y.(*Term)
				_, signed, _ := typeInt(c.t2)
				lt := e.tt.Ult
				if signed {
					lt = e.tt.Slt
				}
				if c.name == "min" {
					r = e.tt.Ite(lt(q, p), q, p)
				} else {
					r = e.tt.Ite(lt(p, q), q, p)
				}
			case float64:
				if c.name == "min" {
					r = math.Min(p, y.(float64))
				} else {
					r = math.Max(p, y.(float64))
				}
			case string:
				if c.name == "min" {
					r = min(p, y.(string))
				} else {
					r = max(p, y.(string))
				}
			}
		}
		return r
	case "close":
		e.chanClose(a[0].(*ChanObj))
		return nil
	case "panic":
		panic(&GoPanic{v: a[0], msg: e.panicText(a[0]), where: e.where()})
	case "recover":
		// called from a deferred function: its caller frame is panicking
		if p := fr.caller; p != nil && p.panicv != nil {
			v := p.panicv.v
			p.panicv = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := a[0].(Ptr); ok && p.o == nil {
			e.goPanic("value method called using nil pointer")
		}
		return a[0]
	case "real":
		return real(a[0].(complex128))
	case "imag":
		return imag(a[0].(complex128))
	case "String": // unsafe.String
		p, n := a[0].(Ptr), int(e.concretize(a[1].(*Term)))
		if n == 0 {
			return ""
		}
		return e.bytesToString(Slice{o: p.o, off: p.off, len: n, cap: n})
	case "SliceData":
		s := a[0].(Slice)
		return Ptr{o: s.o, off: s.off}
	}
	panic(unsupported("builtin " + c.name))
}

func (e *Engine) readCells(s Slice, n int) []Value {
	out := make([]Value, n)
	if n == 0 {
		return out
	}
	if e.raceOn {
		e.raceRead(s.o, s.off, n)
	}
	if s.o.big == nil {
		copy(out, s.o.cells[s.off:s.off+n])
		return out
	}
	for i := range out {
		out[i] = s.o.get(s.off + i)
	}
	return out
}

func (e *Engine) writeCell(o *Obj, i int, v Value) {
	if e.raceOn {
		e.raceWrite(o, i)
	}
	e.set(o, i, v)
}
