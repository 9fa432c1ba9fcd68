package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic struct {
	pure bool
	fn   func(e *Engine, a []Value) Value
}

const symPath = "github.com/32bitkid/mpeg/zzverif/sym"

func nop(fn *ssa.Function) *intrinsic {
	return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value { return zeroResults(fn) }}
}

func redirect(p *Program, name string) *intrinsic {
	return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value {
		return e.callFn(p.Func(p.pkgs[symPath].Func(name)), a, nil)
	}}
}

var redirects = map[string]string{
	"bytes.Equal":                      "StubBytesEqual",
	"internal/bytealg.Equal":           "StubBytesEqual",
	"bytes.IndexByte":                  "StubIndexByte",
	"internal/bytealg.IndexByte":       "StubIndexByte",
	"bytes.Compare":                    "StubBytesCompare",
	"internal/bytealg.Compare":         "StubBytesCompare",
	"bytes.Index":                      "StubBytesIndex",
	"internal/bytealg.Index":           "StubBytesIndex",
	"internal/bytealg.Count":           "StubCount",
	"errors.Is":                        "StubErrorsIs",
}

func findIntrinsic(p *Program, fn *ssa.Function) *intrinsic {
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		path = fn.Origin().Pkg.Pkg.Path()
	}
	name := fn.String()
	if path == symPath {
		if fn.Signature.Recv() == nil {
			return symIntrinsic(fn.Name())
		}
		return nil
	}
	if r, ok := redirects[name]; ok {
		return redirect(p, r)
	}
	switch {
	case strings.HasSuffix(path, "/clog"), path == "log", path == "log/slog":
		if strings.Contains(fn.Name(), "Panic") || strings.Contains(fn.Name(), "Fatal") {
			return &intrinsic{fn: func(e *Engine, a []Value) Value { e.goPanicMsg("log."+fn.Name(), false); return nil }}
		}
		return nop(fn)
	case path == "runtime" || path == "runtime/debug":
		switch fn.Name() {
		case "Gosched":
			return &intrinsic{fn: func(e *Engine, a []Value) Value { e.yield(); return nil }}
		case "GC", "KeepAlive", "SetFinalizer":
			return nop(fn)
		case "NumCPU", "GOMAXPROCS":
			return &intrinsic{fn: func(e *Engine, a []Value) Value { return e.tt.Const(64, 4) }}
		}
	case path == "sync" || path == "internal/sync":
		if f, ok := syncIntr[name]; ok {
			return &intrinsic{fn: f}
		}
	case path == "sync/atomic":
		if fn.Blocks == nil {
			return atomicIntr(fn)
		}
	case path == "fmt":
		if f, ok := fmtIntr[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return &intrinsic{fn: f}
		}
	case path == "math":
		if f := mathIntr(fn.Name()); f != nil {
			return f
		}
	}
	if f, ok := otherIntr[name]; ok {
		return &intrinsic{fn: f}
	}
	return nil
}

func (e *Engine) varName(name string) string {
	n := e.names[name]
	e.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func (e *Engine) input(name string, w uint8) *Term {
	if len(e.spec) > 0 {
		panic(specAbort{"input"})
	}
	k := e.varName(name)
	t := e.tt.Var(fmt.Sprintf("%s:%d", k, w), w)
	e.inputs = append(e.inputs, inputVar{k, t})
	return t
}

func symIntrinsic(name string) *intrinsic {
	im := func(f func(e *Engine, a []Value) Value) *intrinsic { return &intrinsic{fn: f} }
	pu := func(f func(e *Engine, a []Value) Value) *intrinsic { return &intrinsic{pure: true, fn: f} }
	str := func(v Value) string { return v.(string) }
	ite := pu(func(e *Engine, a []Value) Value { return e.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	switch name {
	case "U8":
		return im(func(e *Engine, a []Value) Value { return e.input(str(a[0]), 8) })
	case "U16":
		return im(func(e *Engine, a []Value) Value { return e.input(str(a[0]), 16) })
	case "U32":
		return im(func(e *Engine, a []Value) Value { return e.input(str(a[0]), 32) })
	case "U64":
		return im(func(e *Engine, a []Value) Value { return e.input(str(a[0]), 64) })
	case "Bool":
		return im(func(e *Engine, a []Value) Value { return e.tt.Eq(e.input(str(a[0]), 1), e.tt.Const(1, 1)) })
	case "Bits":
		return im(func(e *Engine, a []Value) Value {
			n := uint8(a[1].(*Term).val)
			return e.tt.ZExt(e.input(str(a[0]), n), 64)
		})
	case "Int":
		return im(func(e *Engine, a []Value) Value {
			lo, hi := a[1].(*Term), a[2].(*Term)
			l, h := int64(lo.val), int64(hi.val)
			if l == h {
				return lo
			}
			w := uint8(1)
			for int64(1)<<w <= max(h, -l-1) {
				w++
			}
			var t *Term
			if l >= 0 {
				t = e.tt.ZExt(e.input64(str(a[0]), w, false), 64)
			} else {
				t = e.tt.SExt(e.input64(str(a[0]), w+1, true), 64)
			}
			e.assume(e.tt.BAnd(e.tt.Not1(e.tt.Slt(t, lo)), e.tt.Not1(e.tt.Slt(hi, t))))
			return t
		})
	case "Bytes":
		return im(func(e *Engine, a []Value) Value {
			n := int(e.concretize(a[1].(*Term)))
			o := e.newArrayObj(byteLayout, n, str(a[0]))
			for i := 0; i < n; i++ {
				o.rawSet(i, e.input(str(a[0]), 8))
			}
			return Slice{o: o, len: n, cap: n}
		})
	case "Choice":
		return im(func(e *Engine, a []Value) Value {
			k := e.varName(str(a[0]))
			v := e.choose(int(e.concretize(a[1].(*Term))))
			e.choices[k] = uint64(v)
			return e.tt.Const(64, uint64(v))
		})
	case "Assume":
		return im(func(e *Engine, a []Value) Value { e.assume(a[0].(*Term)); return nil })
	case "Stop":
		return im(func(e *Engine, a []Value) Value { panic(pathEnd{"done: stop"}) })
	case "Assert":
		return im(func(e *Engine, a []Value) Value {
			if diffOn {
				diffCond(a[0].(*Term))
			}
			e.assert(a[0].(*Term), str(a[1]))
			return nil
		})
	case "NearIDCT":
		return im(func(e *Engine, a []Value) Value {
			cells := func(v Value) []*Term {
				s := v.(Slice)
				ts := make([]*Term, s.len)
				for i := range ts {
					ts[i] = s.o.get(s.off + i).(*Term)
				}
				return ts
			}
			e.nearIDCT(cells(a[0]), cells(a[1]), int(a[2].(*Term).val), int(a[3].(*Term).val), str(a[4]))
			return nil
		})
	case "Reach":
		return im(func(e *Engine, a []Value) Value { e.reached[str(a[0])] = true; return nil })
	case "Observe":
		return im(func(e *Engine, a []Value) Value {
			e.obs = append(e.obs, obsEnt{str(a[0]), a[1].(*Term)})
			return nil
		})
	case "ObserveBytes":
		return im(func(e *Engine, a []Value) Value {
			s := a[1].(Slice)
			for i := 0; i < s.len; i++ {
				e.obs = append(e.obs, obsEnt{fmt.Sprintf("%s[%d]", str(a[0]), i), s.o.get(s.off + i).(*Term)})
			}
			return nil
		})
	case "Ite", "Ite64", "Ite32", "Ite8":
		return ite
	case "And":
		return pu(func(e *Engine, a []Value) Value {
			s := a[0].(Slice)
			var cs []*Term
			for i := 0; i < s.len; i++ {
				cs = append(cs, s.o.get(s.off+i).(*Term))
			}
			return e.tt.BAnd(cs...)
		})
	case "Or":
		return pu(func(e *Engine, a []Value) Value {
			s := a[0].(Slice)
			var cs []*Term
			for i := 0; i < s.len; i++ {
				cs = append(cs, s.o.get(s.off+i).(*Term))
			}
			return e.tt.BOr(cs...)
		})
	case "Implies":
		return pu(func(e *Engine, a []Value) Value { return e.tt.BOr(e.tt.Not1(a[0].(*Term)), a[1].(*Term)) })
	case "Iff":
		return pu(func(e *Engine, a []Value) Value { return e.tt.Eq(a[0].(*Term), a[1].(*Term)) })
	case "EqBytes":
		return pu(func(e *Engine, a []Value) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			if x.len != y.len {
				return e.tt.False
			}
			cs := make([]*Term, x.len)
			vx, vy := e.readCells(x, x.len), e.readCells(y, y.len)
			for i := range cs {
				cs[i] = e.tt.Eq(vx[i].(*Term), vy[i].(*Term))
			}
			return e.tt.BAnd(cs...)
		})
	case "Concrete":
		return im(func(e *Engine, a []Value) Value {
			t := a[0].(*Term)
			return e.tt.Const(t.w, e.concretize(t))
		})
	case "Thorough":
		return pu(func(e *Engine, a []Value) Value { return e.tt.Bool(e.ex.cfg.Thorough) })
	case "AllocLimit":
		return im(func(e *Engine, a []Value) Value { e.allocLimit = int(a[0].(*Term).val); return nil })
	case "Preempt":
		return im(func(e *Engine, a []Value) Value { e.preempt = a[0].(*Term).val != 0; return nil })
	case "Symbolic":
		return pu(func(e *Engine, a []Value) Value { return e.tt.True })
	case "Steps":
		return im(func(e *Engine, a []Value) Value { e.stepLimit = e.steps + int(a[0].(*Term).val); return nil })
	case "Settle":
		return im(func(e *Engine, a []Value) Value {
			g := e.cur
			e.block(func() bool {
				for _, o := range e.gs {
					if o != g && !o.done && (o.ready == nil || o.ready()) {
						return false
					}
				}
				return true
			}, "settle")
			return nil
		})
	}
	return nil
}

func (e *Engine) input64(name string, w uint8, signed bool) *Term {
	// the native side reads the sign- or zero-extended 64-bit value
	k := e.varName(name)
	t := e.tt.Var(fmt.Sprintf("%s:%d", k, w), w)
	if signed {
		e.inputs = append(e.inputs, inputVar{k, e.tt.SExt(t, 64)})
	} else {
		e.inputs = append(e.inputs, inputVar{k, t})
	}
	return t
}

func (e *Engine) runtimeError(msg string) Value {
	t := e.prog.symT["RuntimeError"]
	return Iface{t: t, v: "runtime error: " + msg}
}

func (e *Engine) newError(msg string) Value {
	return e.callFn(e.prog.Func(e.prog.pkgs["errors"].Func("New")), []Value{msg}, nil)
}

func pkey(v Value) string {
	p := v.(Ptr)
	if p.o == nil {
		return "nil"
	}
	return fmt.Sprintf("%d.%d", p.o.id, p.off)
}

func (e *Engine) lock(v Value) *lockState {
	k := pkey(v)
	l := e.locks[k]
	if l == nil {
		l = &lockState{}
		e.locks[k] = l
	}
	return l
}

var syncIntr map[string]func(e *Engine, a []Value) Value
var fmtIntr map[string]func(e *Engine, a []Value) Value
var otherIntr map[string]func(e *Engine, a []Value) Value

func init() {
	acquire := func(e *Engine, l *lockState) { e.cur.vc = e.cur.vc.join(l.vc) }
	release := func(e *Engine, l *lockState) { e.cur.tick(); l.vc = l.vc.join(e.cur.vc) }
	lockW := func(e *Engine, a []Value) Value {
		l := e.lock(a[0])
		e.op('x', l)
		e.block(func() bool { return !l.w && l.r == 0 }, "lock")
		l.w = true
		acquire(e, l)
		return nil
	}
	unlockW := func(e *Engine, a []Value) Value {
		l := e.lock(a[0])
		if !l.w {
			e.goPanicMsg("sync: unlock of unlocked mutex", false)
		}
		l.w = false
		release(e, l)
		return nil
	}
	tryLock := func(e *Engine, a []Value) Value {
		l := e.lock(a[0])
		e.op('x', l)
		if l.w || l.r > 0 {
			return e.tt.False
		}
		l.w = true
		acquire(e, l)
		return e.tt.True
	}
	syncIntr = map[string]func(e *Engine, a []Value) Value{
		"(*sync.Mutex).Lock":       lockW,
		"(*sync.Mutex).Unlock":     unlockW,
		"(*sync.Mutex).TryLock":    tryLock,
		"(*sync.RWMutex).Lock":     lockW,
		"(*sync.RWMutex).Unlock":   unlockW,
		"(*sync.RWMutex).TryLock":  tryLock,
		"(*sync.RWMutex).RLock": func(e *Engine, a []Value) Value {
			l := e.lock(a[0])
			e.op('x', l)
			e.block(func() bool { return !l.w }, "rlock")
			l.r++
			acquire(e, l)
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(e *Engine, a []Value) Value {
			l := e.lock(a[0])
			l.r--
			release(e, l)
			return nil
		},
		"(*sync.WaitGroup).Add": func(e *Engine, a []Value) Value {
			w := e.wg(a[0])
			w.n += int(int64(a[1].(*Term).val))
			if w.n < 0 {
				e.goPanicMsg("sync: negative WaitGroup counter", false)
			}
			e.cur.tick()
			w.vc = w.vc.join(e.cur.vc)
			return nil
		},
		"(*sync.WaitGroup).Done": func(e *Engine, a []Value) Value {
			w := e.wg(a[0])
			e.op('x', w)
			w.n--
			if w.n < 0 {
				e.goPanicMsg("sync: negative WaitGroup counter", false)
			}
			e.cur.tick()
			w.vc = w.vc.join(e.cur.vc)
			return nil
		},
		"(*sync.WaitGroup).Wait": func(e *Engine, a []Value) Value {
			w := e.wg(a[0])
			e.block(func() bool { return w.n == 0 }, "WaitGroup.Wait")
			e.cur.vc = e.cur.vc.join(w.vc)
			return nil
		},
		"(*sync.WaitGroup).Go": func(e *Engine, a []Value) Value {
			w := e.wg(a[0])
			w.n++
			cl := a[1].(*Closure)
			e.goClosure(&Closure{nat: func(e *Engine, _ []Value) Value {
				e.callClosure(cl, nil)
				w.n--
				e.cur.tick()
				w.vc = w.vc.join(e.cur.vc)
				return nil
			}}, nil)
			return nil
		},
		"(*sync.Once).Do": func(e *Engine, a []Value) Value {
			k := pkey(a[0])
			l := e.lock(a[0])
			e.op('x', l)
			e.block(func() bool { return !l.w }, "once")
			acquire(e, l)
			if e.onces[k] {
				return nil
			}
			l.w = true
			e.onces[k] = true
			e.callClosure(a[1].(*Closure), nil)
			l.w = false
			release(e, l)
			return nil
		},
		"(*sync.Pool).Get": func(e *Engine, a []Value) Value {
			p := a[0].(Ptr)
			n := p.o.n
			for i := 0; i < n; i++ {
				if cl, ok := p.o.get(p.off + i).(*Closure); ok && cl != nil {
					return e.callClosure(cl, nil)
				}
			}
			return Iface{}
		},
		"(*sync.Pool).Put": func(e *Engine, a []Value) Value { return nil },
	}
	fmtIntr = map[string]func(e *Engine, a []Value) Value{
		"Sprintf":  func(e *Engine, a []Value) Value { return fmt.Sprintf(a[0].(string), e.goArgs(a[1])...) },
		"Sprint":   func(e *Engine, a []Value) Value { return fmt.Sprint(e.goArgs(a[0])...) },
		"Sprintln": func(e *Engine, a []Value) Value { return fmt.Sprintln(e.goArgs(a[0])...) },
		"Errorf": func(e *Engine, a []Value) Value {
			f := a[0].(string)
			args := a[1].(Slice)
			msg := fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), e.goArgs(a[1])...)
			if strings.Contains(f, "%w") {
				for i := 0; i < args.len; i++ {
					iv := args.o.get(args.off + i).(Iface)
					if iv.t != nil && e.findMethod(iv.t, "Error") != nil {
						return e.callFn(e.prog.Func(e.prog.pkgs[symPath].Func("MkWrap")), []Value{msg, iv}, nil)
					}
				}
			}
			return e.newError(msg)
		},
	}
	zero2 := func(e *Engine, a []Value) Value { return Tuple{e.tt.Const(64, 0), Iface{}} }
	for _, n := range []string{"Println", "Printf", "Print", "Fprintf", "Fprintln", "Fprint"} {
		fmtIntr[n] = zero2
	}
	otherIntr = map[string]func(e *Engine, a []Value) Value{
		"regexp.MustCompile": func(e *Engine, a []Value) Value {
			return Ptr{o: &Obj{id: -1, cells: []Value{&Native{regexp.MustCompile(a[0].(string))}}, n: 1}}
		},
		"(*regexp.Regexp).ReplaceAllString": func(e *Engine, a []Value) Value {
			re := a[0].(Ptr).o.cells[0].(*Native).v.(*regexp.Regexp)
			return re.ReplaceAllString(a[1].(string), a[2].(string))
		},
		"(*regexp.Regexp).MatchString": func(e *Engine, a []Value) Value {
			re := a[0].(Ptr).o.cells[0].(*Native).v.(*regexp.Regexp)
			return e.tt.Bool(re.MatchString(a[1].(string)))
		},
		"internal/abi.NoEscape": func(e *Engine, a []Value) Value { return a[0] },
		"time.Sleep":            func(e *Engine, a []Value) Value { e.yield(); return nil },
		"internal/bytealg.MakeNoZero": func(e *Engine, a []Value) Value {
			n := int(e.concretize(a[0].(*Term)))
			return Slice{o: e.newArrayObj(byteLayout, n, "make"), len: n, cap: n}
		},
		"internal/bytealg.IndexByteString": func(e *Engine, a []Value) Value {
			return e.tt.Const(64, uint64(strings.IndexByte(a[0].(string), byte(e.concretize(a[1].(*Term))))))
		},
		"internal/bytealg.CountString": func(e *Engine, a []Value) Value {
			return e.tt.Const(64, uint64(strings.Count(a[0].(string), string([]byte{byte(e.concretize(a[1].(*Term)))}))))
		},
		"internal/bytealg.IndexString": func(e *Engine, a []Value) Value {
			return e.tt.Const(64, uint64(strings.Index(a[0].(string), a[1].(string))))
		},
		"strings.Index":    func(e *Engine, a []Value) Value { return e.tt.Const(64, uint64(strings.Index(a[0].(string), a[1].(string)))) },
		"strings.Contains": func(e *Engine, a []Value) Value { return e.tt.Bool(strings.Contains(a[0].(string), a[1].(string))) },
		"strings.ReplaceAll": func(e *Engine, a []Value) Value {
			return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
		},
		"strings.Replace": func(e *Engine, a []Value) Value {
			return strings.Replace(a[0].(string), a[1].(string), a[2].(string), int(int64(a[3].(*Term).val)))
		},
		"strings.Repeat": func(e *Engine, a []Value) Value {
			return strings.Repeat(a[0].(string), int(e.concretize(a[1].(*Term))))
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"errors.As":        errorsAs,
		"unsafe.String":    nil,
	}
	delete(otherIntr, "unsafe.String")
}

func (e *Engine) wg(v Value) *wgState {
	k := pkey(v)
	w := e.wgs[k]
	if w == nil {
		w = &wgState{}
		e.wgs[k] = w
	}
	return w
}

func sortSlice(e *Engine, a []Value) Value {
	iv := a[0].(Iface)
	s := iv.v.(Slice)
	el := layoutOf(iv.t.Underlying().(*types.Slice).Elem())
	less := a[1].(*Closure)
	swap := func(i, j int) {
		for k := 0; k < el.n; k++ {
			x, y := s.o.get(s.off+i*el.n+k), s.o.get(s.off+j*el.n+k)
			e.writeCell(s.o, s.off+i*el.n+k, y)
			e.writeCell(s.o, s.off+j*el.n+k, x)
		}
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			r := e.callClosure(less, []Value{e.tt.Const(64, uint64(j)), e.tt.Const(64, uint64(j-1))}).(*Term)
			if !e.branch(r, "sort") {
				break
			}
			swap(j, j-1)
		}
	}
	return nil
}

func errorsAs(e *Engine, a []Value) Value {
	err := a[0].(Iface)
	tgt := a[1].(Iface)
	tt := deref(tgt.t)
	for err.t != nil {
		if it, ok := tt.Underlying().(*types.Interface); ok {
			if e.implements(err.t, it) {
				e.store(tgt.v.(Ptr), err)
				return e.tt.True
			}
		} else if types.Identical(err.t, tt) {
			e.store(tgt.v.(Ptr), err.v)
			return e.tt.True
		}
		m := e.findMethod(err.t, "Unwrap")
		if m == nil {
			break
		}
		n, ok := e.callClosure(m, []Value{err.v}).(Iface)
		if !ok {
			break
		}
		err = n
	}
	return e.tt.False
}

func (e *Engine) goArgs(v Value) []interface{} {
	s := v.(Slice)
	out := make([]interface{}, s.len)
	for i := range out {
		out[i] = e.goValue(s.o.get(s.off + i))
	}
	return out
}

func (e *Engine) goValue(v Value) interface{} {
	iv, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if iv.t == nil {
		return nil
	}
	if len(e.spec) == 0 {
		if m := e.findMethod(iv.t, "Error"); m != nil {
			if s, ok := e.callClosure(m, []Value{iv.v}).(string); ok {
				return s
			}
		} else if m := e.findMethod(iv.t, "String"); m != nil {
			if s, ok := e.callClosure(m, []Value{iv.v}).(string); ok {
				return s
			}
		}
	}
	switch x := iv.v.(type) {
	case string:
		return x
	case float64:
		return x
	case *Term:
		if x.w == 0 {
			return e.branch(x, "format")
		}
		_, signed, _ := typeInt(iv.t)
		c := e.concretize(x)
		if signed {
			switch x.w {
			case 8:
				return int8(c)
			case 16:
				return int16(c)
			case 32:
				return int32(c)
			}
			return int64(c)
		}
		switch x.w {
		case 8:
			return uint8(c)
		case 16:
			return uint16(c)
		case 32:
			return uint32(c)
		}
		return c
	}
	return iv.t.String()
}

func atomicIntr(fn *ssa.Function) *intrinsic {
	n := fn.Name()
	im := func(f func(e *Engine, a []Value) Value) *intrinsic {
		return &intrinsic{fn: func(e *Engine, a []Value) Value {
			l := e.lock(a[0])
			e.op('x', l)
			save := e.raceOn
			e.raceOn = false
			// sequentially consistent: synchronises through a lock
			e.cur.vc = e.cur.vc.join(l.vc)
			r := f(e, a)
			e.cur.tick()
			l.vc = l.vc.join(e.cur.vc)
			e.raceOn = save
			return r
		}}
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return im(func(e *Engine, a []Value) Value { return e.loadCell(a[0].(Ptr), 0) })
	case strings.HasPrefix(n, "Store"):
		return im(func(e *Engine, a []Value) Value { e.store(a[0].(Ptr), a[1]); return nil })
	case strings.HasPrefix(n, "Add"):
		return im(func(e *Engine, a []Value) Value {
			v := e.tt.Add(e.loadCell(a[0].(Ptr), 0).(*Term), a[1].(*Term))
			e.store(a[0].(Ptr), v)
			return v
		})
	case strings.HasPrefix(n, "Swap"):
		return im(func(e *Engine, a []Value) Value {
			v := e.loadCell(a[0].(Ptr), 0)
			e.store(a[0].(Ptr), a[1])
			return v
		})
	case strings.HasPrefix(n, "CompareAndSwap"):
		return im(func(e *Engine, a []Value) Value {
			v := e.loadCell(a[0].(Ptr), 0)
			if e.branch(e.valueEq(v, a[1]), "cas") {
				e.store(a[0].(Ptr), a[2])
				return e.tt.True
			}
			return e.tt.False
		})
	}
	return nil
}

func mathIntr(n string) *intrinsic {
	f1 := map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Abs": math.Abs, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "RoundToEven": math.RoundToEven}
	if f, ok := f1[n]; ok {
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(unsupported("symbolic float"))
			}
			return f(x)
		}}
	}
	switch n {
	case "Pow":
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) }}
	case "Max":
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value { return math.Max(a[0].(float64), a[1].(float64)) }}
	case "Min":
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value { return math.Min(a[0].(float64), a[1].(float64)) }}
	case "Mod":
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value { return math.Mod(a[0].(float64), a[1].(float64)) }}
	case "Float64bits":
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value { return e.tt.Const(64, math.Float64bits(a[0].(float64))) }}
	case "Float32bits":
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value {
			return e.tt.Const(32, uint64(math.Float32bits(float32(a[0].(float64)))))
		}}
	case "Float64frombits":
		return &intrinsic{pure: true, fn: func(e *Engine, a []Value) Value {
			t := a[0].(*Term)
			if !t.IsConst() {
				panic(unsupported("symbolic float"))
			}
			return math.Float64frombits(t.val)
		}}
	}
	return nil
}
