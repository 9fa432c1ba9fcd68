package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Interpreted goroutines are host goroutines passing a baton: exactly one
// runs at a time, and the scheduler's choices are explored like branches.

type VC []int

func (v VC) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) join(o VC) VC {
	n := max(len(v), len(o))
	r := make(VC, n)
	for i := range r {
		r[i] = max(v.at(i), o.at(i))
	}
	return r
}

func (v VC) copy() VC { return append(VC(nil), v...) }

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

type G struct {
	id    int
	wake  chan struct{}
	ready func() bool // nil: runnable
	done  bool
	frame *Frame
	depth int
	vc    VC
	what  string
}

type waiter struct {
	g    *G
	v    Value
	done bool
	ok   bool
	vc   VC
	sel  *selWait
	idx  int
}

type selWait struct {
	fired bool
	idx   int
	v     Value
	ok    bool
	vc    VC
}

func (w *waiter) live() bool { return w.sel == nil || !w.sel.fired }

type lockState struct {
	w  bool
	r  int
	vc VC
}
type wgState struct {
	n  int
	vc VC
}

func (e *Engine) runnable() []*G {
	var out []*G
	for _, g := range e.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	return out
}

func (e *Engine) spawn(fr *Frame, c *CInstr) {
	if len(e.spec) > 0 {
		panic(specAbort{"go"})
	}
	var cl *Closure
	var args []Value
	switch c.kind {
	case iCallInvoke:
		cl, args = e.resolveInvoke(fr, c)
	case iCallStatic:
		cl = &Closure{fn: c.fn}
		for i := range c.a {
			args = append(args, e.val(fr, &c.a[i]))
		}
	case iCallDyn:
		cl, _ = e.val(fr, &c.a[0]).(*Closure)
		for i := 1; i < len(c.a); i++ {
			args = append(args, e.val(fr, &c.a[i]))
		}
	default:
		panic(unsupported("go builtin"))
	}
	e.goClosure(cl, args)
}

func (e *Engine) goClosure(cl *Closure, args []Value) {
	if !e.raceOn {
		e.raceOn = true
		e.shadow = map[shadowKey]*shadowEnt{}
	}
	g := &G{id: len(e.gs), wake: make(chan struct{}, 1), vc: e.cur.vc.copy()}
	g.tick()
	e.cur.tick()
	e.gs = append(e.gs, g)
	if len(e.gs) > 16 {
		panic(unsupported("more than 16 goroutines"))
	}
	go func() {
		<-g.wake
		if e.killing {
			g.done = true
			e.killed <- struct{}{}
			return
		}
		r := func() (r interface{}) {
			defer func() { r = recover() }()
			e.callClosure(cl, args)
			return nil
		}()
		if _, ok := r.(killG); ok || e.killing {
			g.done = true
			e.killed <- struct{}{}
			return
		}
		g.done = true
		if r != nil {
			// hand the panic to the main goroutine: it ends the path
			e.pending = r
			e.cur = e.gs[0]
			e.gs[0].wake <- struct{}{}
			return
		}
		e.switchAway(g)
	}()
}

// switchAway picks the next goroutine after the current one blocked or ended.
func (e *Engine) switchAway(g *G) {
	self, wasDone := false, g.done
	r := func() (r interface{}) {
		defer func() { r = recover() }()
		rs := e.runnable()
		if len(rs) == 0 {
			panic(deadlock{})
		}
		n := e.pick(rs)
		if n == g {
			self = true
			return nil
		}
		e.saveG(g)
		e.resumeG(n)
		return nil
	}()
	if r != nil {
		if g.id == 0 {
			panic(r)
		}
		e.saveG(g)
		e.pending = r
		e.cur = e.gs[0]
		e.gs[0].wake <- struct{}{}
	}
	// from here on another goroutine may be running
	if wasDone || self {
		return
	}
	<-g.wake
	if e.killing {
		panic(killG{})
	}
	e.cur = g
	e.depth = g.depth
	if g.id == 0 && e.pending != nil {
		p := e.pending
		e.pending = nil
		panic(p)
	}
}

type deadlock struct{}

func (e *Engine) saveG(g *G) { g.depth = e.depth }
func (e *Engine) resumeG(n *G) {
	e.cur = n
	e.depth = n.depth
	n.ready = nil
	n.wake <- struct{}{}
}

// schedPoint is a place where the scheduler picked a goroutine.
type schedPoint struct {
	at       int    // decisions before it
	node     uint64 // hash of those decisions
	runnable []int
}

type opRec struct {
	g, clk int
	kind   byte
	sp     *schedPoint
}

// pick chooses the next goroutine: the first by default; the others are
// explored when a later operation turns out to depend on the order (dynamic
// partial-order reduction over happens-before).
func (e *Engine) pick(rs []*G) *G {
	if len(rs) == 1 {
		e.sp = &schedPoint{runnable: []int{rs[0].id}}
		return rs[0]
	}
	for ; e.hashLen < len(e.dec); e.hashLen++ {
		d := e.dec[e.hashLen]
		h := e.hash
		h = (h ^ uint64(d.k)) * 1099511628211
		h = (h ^ d.v) * 1099511628211
		if d.ok {
			h ^= 0x9e3779b97f4a7c15
		}
		h *= 1099511628211
		e.hash = h ^ h>>29
	}
	sp := &schedPoint{at: len(e.dec), node: e.hash}
	for _, g := range rs {
		sp.runnable = append(sp.runnable, g.id)
	}
	e.sp = sp
	n := rs[0]
	if d, ok := e.next(); ok {
		if d.k != 's' {
			panic(fmt.Sprintf("replay divergence: %c at schedule", d.k))
		}
		n = e.gs[d.v]
	} else {
		e.record(Decision{'s', true, uint64(n.id)})
	}
	e.ex.firstChoice(sp.node, n.id)
	return n
}

func (ex *Explorer) firstChoice(node uint64, g int) {
	ex.mu.Lock()
	if ex.nodes[node] == 0 {
		ex.nodes[node] |= 1 << uint(g)
	}
	ex.mu.Unlock()
}

// alternative schedules goroutine g instead at sp.
func (e *Engine) alternative(sp *schedPoint, g int) {
	if len(sp.runnable) < 2 {
		return
	}
	ex := e.ex
	ex.mu.Lock()
	seen := ex.nodes[sp.node]&(1<<uint(g)) != 0
	ex.nodes[sp.node] |= 1 << uint(g)
	ex.mu.Unlock()
	if seen {
		return
	}
	pre := append(append([]Decision(nil), e.dec[:sp.at]...), Decision{'s', true, uint64(g)})
	ex.push(Task{pre, e.model})
}

// op announces an operation on a shared object: a scheduling point, after
// which earlier unordered conflicting operations get their reversal scheduled.
// Kinds: s send, r receive, c close, x conflicts with everything.
func (e *Engine) op(kind byte, keys ...interface{}) {
	e.yield()
	if len(e.gs) <= 1 || !e.preempt {
		return
	}
	if e.ops == nil {
		e.ops = map[interface{}][]opRec{}
		e.opRoot = map[interface{}]interface{}{}
	}
	root := e.root(keys[0])
	for _, k := range keys[1:] {
		if r := e.root(k); r != root {
			e.opRoot[r] = root
			e.ops[root] = append(e.ops[root], e.ops[r]...)
			delete(e.ops, r)
			e.opMix[root] = true
		}
	}
	mixed := e.opMix[root]
	g := e.cur
	list := e.ops[root]
	for i := len(list) - 1; i >= 0; i-- {
		p := list[i]
		if p.g == g.id || p.sp == nil || !mixed && !conflicts(p.kind, kind) {
			continue
		}
		if g.vc.at(p.g) >= p.clk {
			continue // ordered
		}
		in := false
		for _, r := range p.sp.runnable {
			if r == g.id {
				in = true
			}
		}
		if in {
			e.alternative(p.sp, g.id)
		} else {
			for _, r := range p.sp.runnable {
				e.alternative(p.sp, r)
			}
		}
	}
	g.tick()
	e.ops[root] = append(list, opRec{g.id, g.vc.at(g.id), kind, e.sp})
}

func conflicts(a, b byte) bool {
	if a == 'x' || b == 'x' {
		return true
	}
	if a == 'r' && b == 'c' || a == 'c' && b == 'r' || a == 's' && b == 'r' || a == 'r' && b == 's' {
		return false
	}
	return true
}

func (e *Engine) root(k interface{}) interface{} {
	for {
		r, ok := e.opRoot[k]
		if !ok {
			return k
		}
		k = r
	}
}

// yield lets another runnable goroutine run first.
func (e *Engine) yield() {
	if len(e.gs) <= 1 || len(e.spec) > 0 {
		if len(e.spec) > 0 {
			panic(specAbort{"sync"})
		}
		return
	}
	if !e.preempt {
		return
	}
	g := e.cur
	// current first, so that "keep running" is the default
	ord := []*G{g}
	for _, x := range e.runnable() {
		if x != g {
			ord = append(ord, x)
		}
	}
	n := e.pick(ord)
	if n == g {
		return
	}
	e.saveG(g)
	e.resumeG(n)
	<-g.wake
	if e.killing {
		panic(killG{})
	}
	e.cur = g
	e.depth = g.depth
	if g.id == 0 && e.pending != nil {
		p := e.pending
		e.pending = nil
		panic(p)
	}
}

// block waits until ready() holds.
func (e *Engine) block(ready func() bool, what string) {
	if len(e.spec) > 0 {
		panic(specAbort{"sync"})
	}
	g := e.cur
	if ready() {
		return
	}
	g.ready = ready
	g.what = what
	e.switchAway(g)
	g.ready = nil
}

func (e *Engine) killAll() {
	e.killing = true
	for _, g := range e.gs[1:] {
		if g.done {
			continue
		}
		g.wake <- struct{}{}
		<-e.killed
	}
	e.killing = false
	e.pending = nil
}

// ---- channels ----

func firstLive(q []*waiter) (*waiter, []*waiter) {
	for len(q) > 0 {
		w := q[0]
		q = q[1:]
		if w.live() {
			return w, q
		}
	}
	return nil, q
}

func anyLive(q []*waiter) bool {
	for _, w := range q {
		if w.live() {
			return true
		}
	}
	return false
}

func (w *waiter) complete(v Value, ok bool, vc VC) {
	w.v, w.ok, w.vc, w.done = v, ok, vc, true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.v, w.sel.ok, w.sel.vc = v, ok, vc
	}
}

func (e *Engine) canSend(ch *ChanObj) bool {
	return ch.closed || anyLive(ch.recvq) || len(ch.buf) < ch.cap
}

func (e *Engine) canRecv(ch *ChanObj) bool {
	return ch.closed || len(ch.buf) > 0 || anyLive(ch.sendq)
}

func (e *Engine) chanGuard() {
	if len(e.spec) > 0 {
		panic(specAbort{"channel"})
	}
}

func (e *Engine) doSend(ch *ChanObj, v Value) bool {
	if ch.closed {
		e.goPanicMsg("send on closed channel", false)
	}
	if w, q := firstLive(ch.recvq); w != nil {
		ch.recvq = q
		e.cur.tick()
		vc := e.cur.vc.copy()
		if ch.cap == 0 {
			e.cur.vc = e.cur.vc.join(w.g.vc)
		}
		w.complete(v, true, vc)
		return true
	}
	if len(ch.buf) < ch.cap {
		e.cur.tick()
		ch.buf = append(ch.buf, chanItem{v, e.cur.vc.copy()})
		return true
	}
	return false
}

func (e *Engine) chanSend(ch *ChanObj, v Value) {
	e.chanGuard()
	if ch == nil {
		e.block(func() bool { return false }, "send on nil channel")
	}
	e.op('s', ch)
	if e.doSend(ch, v) {
		return
	}
	e.cur.tick()
	w := &waiter{g: e.cur, v: v}
	w.vc = e.cur.vc.copy()
	ch.sendq = append(ch.sendq, w)
	e.block(func() bool { return w.done || ch.closed }, "chan send")
	if !w.done {
		e.goPanicMsg("send on closed channel", false)
	}
	e.cur.vc = e.cur.vc.join(w.vc)
	e.cur.tick()
}

func (e *Engine) doRecv(ch *ChanObj, t types.Type) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = append([]chanItem(nil), ch.buf[1:]...)
		e.cur.vc = e.cur.vc.join(it.vc)
		e.cur.tick()
		if w, q := firstLive(ch.sendq); w != nil {
			ch.sendq = q
			ch.buf = append(ch.buf, chanItem{w.v, w.vc})
			w.complete(w.v, true, e.cur.vc.copy())
		}
		return it.v, true, true
	}
	if w, q := firstLive(ch.sendq); w != nil {
		ch.sendq = q
		v := w.v
		e.cur.vc = e.cur.vc.join(w.vc)
		e.cur.tick()
		w.complete(v, true, e.cur.vc.copy())
		return v, true, true
	}
	if ch.closed {
		e.cur.vc = e.cur.vc.join(ch.cvc)
		return zeroValue(t), false, true
	}
	return nil, false, false
}

func (e *Engine) chanRecv(ch *ChanObj, t types.Type) (Value, bool) {
	e.chanGuard()
	if ch == nil {
		e.block(func() bool { return false }, "receive from nil channel")
	}
	e.op('r', ch)
	if v, ok, done := e.doRecv(ch, t); done {
		return v, ok
	}
	e.cur.tick()
	w := &waiter{g: e.cur}
	ch.recvq = append(ch.recvq, w)
	e.block(func() bool { return w.done || ch.closed }, "chan receive")
	if !w.done {
		e.cur.vc = e.cur.vc.join(ch.cvc)
		return zeroValue(t), false
	}
	e.cur.vc = e.cur.vc.join(w.vc)
	e.cur.tick()
	return w.v, true
}

func (e *Engine) chanClose(ch *ChanObj) {
	e.chanGuard()
	if ch == nil {
		e.goPanicMsg("close of nil channel", false)
	}
	e.op('c', ch)
	if ch.closed {
		e.goPanicMsg("close of closed channel", false)
	}
	e.cur.tick()
	ch.closed = true
	ch.cvc = e.cur.vc.copy()
}

func (e *Engine) selectStmt(fr *Frame, c *CInstr) {
	e.chanGuard()
	x := c.ins.(*ssa.Select)
	type cs struct {
		ch   *ChanObj
		send bool
		v    Value
		t    types.Type
	}
	var cases []cs
	for i, s := range x.States {
		ch, _ := e.val(fr, &c.a[2*i]).(*ChanObj)
		k := cs{ch: ch, send: s.Dir == types.SendOnly, t: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if k.send {
			k.v = e.val(fr, &c.a[2*i+1])
		}
		cases = append(cases, k)
	}
	tup := c.t.(*types.Tuple)
	finish := func(idx int, v Value, ok bool) {
		out := make(Tuple, tup.Len())
		out[0] = e.tt.Const(64, uint64(idx))
		out[1] = e.tt.Bool(ok)
		j := 2
		for i := range cases {
			if cases[i].send {
				continue
			}
			if i == idx && v != nil {
				out[j] = v
			} else {
				out[j] = zeroValue(tup.At(j).Type())
			}
			j++
		}
		fr.r[c.dst] = out
	}
	var keys []interface{}
	for _, k := range cases {
		if k.ch != nil {
			keys = append(keys, k.ch)
		}
	}
	if len(keys) > 0 {
		e.op('x', keys...)
	}
	var rdy []int
	for i, k := range cases {
		if k.ch == nil {
			continue
		}
		if k.send && e.canSend(k.ch) || !k.send && e.canRecv(k.ch) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[e.choose(len(rdy))]
		k := cases[i]
		if k.send {
			e.doSend(k.ch, k.v)
			finish(i, nil, false)
		} else {
			v, ok, _ := e.doRecv(k.ch, k.t)
			finish(i, v, ok)
		}
		return
	}
	if !c.comma {
		finish(-1, nil, false)
		return
	}
	sw := &selWait{}
	e.cur.tick()
	for i, k := range cases {
		if k.ch == nil {
			continue
		}
		w := &waiter{g: e.cur, v: k.v, sel: sw, idx: i, vc: e.cur.vc.copy()}
		if k.send {
			k.ch.sendq = append(k.ch.sendq, w)
		} else {
			k.ch.recvq = append(k.ch.recvq, w)
		}
	}
	closedCase := func() int {
		for i, k := range cases {
			if k.ch != nil && k.ch.closed {
				return i
			}
		}
		return -1
	}
	e.block(func() bool { return sw.fired || closedCase() >= 0 }, "select")
	if !sw.fired {
		sw.fired = true
		i := closedCase()
		if cases[i].send {
			e.goPanicMsg("send on closed channel", false)
		}
		e.cur.vc = e.cur.vc.join(cases[i].ch.cvc)
		finish(i, zeroValue(cases[i].t), false)
		return
	}
	e.cur.vc = e.cur.vc.join(sw.vc)
	e.cur.tick()
	if cases[sw.idx].send {
		finish(sw.idx, nil, false)
	} else {
		finish(sw.idx, sw.v, sw.ok)
	}
}

// ---- race detection ----

type shadowKey struct {
	o *Obj
	i int
}
type shadowEnt struct {
	wg, wc int
	wpos   string
	reads  map[int]int
}

func (e *Engine) sh(o *Obj, i int) *shadowEnt {
	k := shadowKey{o, i}
	s := e.shadow[k]
	if s == nil {
		s = &shadowEnt{wg: -1}
		e.shadow[k] = s
	}
	return s
}

func (e *Engine) raceRead(o *Obj, off, n int) {
	if len(e.gs) < 2 || o == nil {
		return
	}
	g := e.cur
	for i := off; i < off+n; i++ {
		s := e.sh(o, i)
		if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
			e.race(o, i, "read", s.wpos)
		}
		if s.reads == nil {
			s.reads = map[int]int{}
		}
		s.reads[g.id] = g.vc.at(g.id)
	}
}

func (e *Engine) raceWrite(o *Obj, i int) {
	if len(e.gs) < 2 || o == nil {
		return
	}
	g := e.cur
	s := e.sh(o, i)
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		e.race(o, i, "write", s.wpos)
	}
	for r, c := range s.reads {
		if r != g.id && c > g.vc.at(r) {
			e.race(o, i, "write after read", "")
		}
	}
	s.wg, s.wc = g.id, g.vc.at(g.id)
	s.reads = nil
	if e.ex.cfg.Verbose > 0 {
		s.wpos = e.where()
	}
}

func (e *Engine) race(o *Obj, i int, what, pos string) {
	if len(e.spec) > 0 {
		panic(specAbort{"race"})
	}
	e.violate("race", "data race")
	panic(pathEnd{"race"})
}

var _ = fmt.Sprint
