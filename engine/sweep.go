package main

// Deciding large assertions: equalities between two big computations (a decoded
// sample and the reference's). Terms are simulated under models of the path
// condition; nodes that agree under all of them are proved equal bottom up by
// small solver queries in which shared subterms are cut, and merged; what is
// left of the assertion is then decided as usual. Every merge is a solver
// verdict, simulation only proposes them (or finds a counterexample).

import (
	"fmt"
	"os"
	"sort"
	"time"
)

const sweepModels = 48

// simModels returns models of the path condition.
func (e *Engine) simModels(vars *VarSet) []Model {
	if e.sims != nil && e.simPC == len(e.pc) && e.simVars == vars {
		return e.sims
	}
	ms := []Model{e.model}
	rng := uint64(0x9e3779b97f4a7c15)
	next := func() uint64 {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		return rng
	}
	cur := e.model
	for try := 0; try < 1000 && len(ms) < sweepModels; try++ {
		m := make(Model, len(cur)+len(vars.ids))
		for k, v := range cur {
			m[k] = v
		}
		hit := false
		for _, id := range vars.ids {
			v := e.tt.vars[id]
			// change few or many variables
			if try%3 != 0 && next()%uint64(1+len(vars.ids)/2) != 0 {
				continue
			}
			hit = true
			x := next() >> 7
			if next()%4 == 0 {
				x = m[v.x.name] ^ 1<<(x%uint64(v.w+1))
			}
			m[v.x.name] = x & mask(v.w)
		}
		if !hit || !e.holds(m) {
			continue
		}
		ms = append(ms, m)
		cur = m
	}
	e.sims, e.simPC, e.simVars = ms, len(e.pc), vars
	return ms
}

func (e *Engine) holds(m Model) bool {
	for _, v := range e.tt.EvalAll(e.pc, m) {
		if v == 0 {
			return false
		}
	}
	return true
}

// cone lists the non-constant nodes below ts, children first.
func cone(ts []*Term, limit int) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.IsConst() || seen[t] || len(out) > limit {
			return
		}
		seen[t] = true
		if t.op != OpVar {
			for _, a := range t.x.args {
				walk(a)
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// rebuild makes the term of t's operator over other arguments.
func (tt *TT) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpLin:
		l := newLin(t.w)
		l.c = t.val
		for i, x := range a {
			l.collect(tt, x, t.x.coef[i])
		}
		return l.finish(tt)
	case OpMul:
		r := a[0]
		for _, x := range a[1:] {
			r = tt.Mul(r, x)
		}
		return r
	case OpUDiv:
		return tt.UDiv(a[0], a[1])
	case OpURem:
		return tt.URem(a[0], a[1])
	case OpSDiv:
		return tt.SDiv(a[0], a[1])
	case OpSRem:
		return tt.SRem(a[0], a[1])
	case OpAnd, OpOr, OpXor:
		r := a[0]
		for _, x := range a[1:] {
			r = tt.bitwise(t.op, r, x)
		}
		return r
	case OpNot:
		return tt.Not(a[0])
	case OpShl, OpLShr, OpAShr:
		return tt.shift(t.op, a[0], a[1])
	case OpConcat:
		return tt.Concat(a)
	case OpExtract:
		return tt.Extract(a[0], uint8(t.val)+t.w-1, uint8(t.val))
	case OpSExt:
		return tt.SExt(a[0], t.w)
	case OpIte:
		return tt.Ite(a[0], a[1], a[2])
	case OpEq:
		return tt.Eq(a[0], a[1])
	case OpUlt:
		return tt.Ult(a[0], a[1])
	case OpSlt:
		return tt.Slt(a[0], a[1])
	case OpBAnd:
		return tt.BAnd(a...)
	case OpBNot:
		return tt.Not1(a[0])
	}
	panic("rebuild " + opNames[t.op])
}

// subst rewrites t with the replacements in rep.
func (tt *TT) subst(t *Term, rep map[*Term]*Term) *Term {
	if t.IsConst() {
		return t
	}
	if r, ok := rep[t]; ok {
		return r
	}
	if t.op == OpVar {
		return t
	}
	changed := false
	a := make([]*Term, len(t.x.args))
	for i, x := range t.x.args {
		a[i] = tt.subst(x, rep)
		if a[i] != x {
			changed = true
		}
	}
	r := t
	if changed {
		r = tt.rebuild(t, a)
	}
	rep[t] = r
	return r
}

// cutEqual tries to prove a == b with their shared subterms replaced by fresh
// variables that obey only the known bounds.
func (e *Engine) cutEqual(a, b *Term, to time.Duration) bool {
	ca, cb := cone([]*Term{a}, 4000), cone([]*Term{b}, 4000)
	inA := map[*Term]bool{}
	for _, t := range ca {
		inA[t] = true
	}
	rep := map[*Term]*Term{}
	var facts []*Term
	tt := e.tt
	for _, t := range cb {
		if t == b || t == a || !inA[t] {
			continue
		}
		if t.op == OpVar || t.op == OpConcat || t.op == OpExtract || t.op == OpSExt {
			continue // cheap for the solver, and they carry structure
		}
		if t.w == 0 {
			if t.op != OpBNot && t.op != OpBAnd {
				rep[t] = tt.Eq(tt.Var(fmt.Sprintf("cut!%d!b", t.x.id), 1), tt.Const(1, 1))
			}
			continue
		}
		v := tt.Var(fmt.Sprintf("cut!%d!%d", t.x.id, t.w), t.w)
		rep[t] = v
		if k := t.kz(); k != 0 && k != mask(t.w) {
			facts = append(facts, tt.Eq(tt.And(v, tt.Const(t.w, k)), tt.Const(t.w, 0)))
		}
		if t.umax() < mask(t.w) {
			facts = append(facts, tt.Not1(tt.Ult(tt.Const(t.w, t.umax()), v)))
		}
		if t.smin() > sminW(t.w) {
			facts = append(facts, tt.Not1(tt.Slt(v, tt.Const(t.w, uint64(t.smin())))))
		}
		if t.smax() < smaxW(t.w) {
			facts = append(facts, tt.Not1(tt.Slt(tt.Const(t.w, uint64(t.smax())), v)))
		}
	}
	if len(rep) == 0 {
		return false
	}
	x, y := tt.subst(a, rep), tt.subst(b, rep)
	d := tt.Not1(tt.Eq(x, y))
	if d.IsConst() {
		return d.val == 0
	}
	vs := d.varset(tt)
	has := map[int32]bool{}
	for _, id := range vs.ids {
		has[id] = true
	}
	q := []*Term{d}
	for _, f := range facts {
		if f.IsConst() {
			continue
		}
		if ids := f.varset(tt).ids; len(ids) > 0 && has[ids[0]] {
			q = append(q, f)
		}
	}
	r, _ := e.sol.Check(q, to)
	return r == SatNo
}

// decide decides pc => c for a big c: SatNo when c always holds, SatYes with a
// counterexample otherwise.
func (e *Engine) decide(c *Term) (Sat, Model) {
	nc := e.tt.Not1(c)
	nodes := cone([]*Term{c}, 60000)
	if len(nodes) < 60 {
		return e.sat(nc)
	}
	if r, m := e.split(c); r != Unknown {
		return r, m
	}
	deadline := time.Now().Add(60 * time.Second)
	models := e.simModels(c.varset(e.tt))
	for _, m := range models[1:] {
		if e.tt.Eval(c, m) == 0 {
			return SatYes, m
		}
	}
	// a cheap direct attempt
	if r, m := e.sol.Check(e.slicePC(nc), 300*time.Millisecond); r == SatNo {
		return r, nil
	} else if r == SatYes {
		return r, e.extend(m)
	}
	c2 := e.sweep(c, nodes, models, deadline)
	if c2.IsConst() {
		if c2.val != 0 {
			return SatNo, nil
		}
	}
	conj := []*Term{c2}
	if c2.op == OpBAnd {
		conj = c2.x.args
	}
	unknown := false
	for _, x := range conj {
		nx := e.tt.Not1(x)
		if x.op == OpEq && e.cutEqual(x.x.args[0], x.x.args[1], time.Second) {
			continue
		}
		to := e.ex.cfg.QueryTO
		if unknown {
			to = 500 * time.Millisecond
		}
		if time.Now().After(deadline) {
			unknown = true
			continue
		}
		switch r, m := e.sol.Check(e.slicePC(nx), to); r {
		case SatYes:
			return r, e.extend(m)
		case Unknown:
			unknown = true
		}
	}
	if unknown {
		e.noteIncomplete("solver timeout at " + e.where())
		return Unknown, nil
	}
	return SatNo, nil
}

func (e *Engine) extend(m Model) Model {
	full := make(Model, len(e.model)+len(m))
	for k, v := range e.model {
		full[k] = v
	}
	for k, v := range m {
		full[k] = v
	}
	return full
}

// sweep merges nodes of c proved equal and returns the rewritten c.
func (e *Engine) sweep(c *Term, nodes []*Term, models []Model, deadline time.Time) *Term {
	tt := e.tt
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].x.id < nodes[j].x.id })
	sig := make([]uint64, len(nodes))
	konst := make([]bool, len(nodes)) // same value under every model
	first := make([]uint64, len(nodes))
	for k, m := range models {
		for i, v := range tt.EvalAll(nodes, m) {
			sig[i] = mix(sig[i], v)
			if k == 0 {
				first[i], konst[i] = v, true
			} else if v != first[i] {
				konst[i] = false
			}
		}
	}
	if e.sweepRep == nil || e.sweepPC != len(e.pc) {
		e.sweepRep, e.sweepPC = map[*Term]*Term{}, len(e.pc)
		e.sweepCls = map[[2]uint64][]*Term{}
		e.sweepBad = map[[2]*Term]bool{}
	}
	rep := e.sweepRep
	cls := e.sweepCls
	// only a node of the one side and a node of the other are worth merging
	left, right := map[*Term]bool{}, map[*Term]bool{}
	conj := []*Term{c}
	if c.op == OpBAnd {
		conj = c.x.args
	}
	for _, x := range conj {
		if x.op != OpEq {
			continue
		}
		// which way round: operands are kept in no particular order
		ca, cb := cone(x.x.args[:1], 60000), cone(x.x.args[1:], 60000)
		score := 0
		for _, t := range ca {
			if left[t] && !right[t] {
				score++
			} else if right[t] && !left[t] {
				score--
			}
		}
		for _, t := range cb {
			if left[t] && !right[t] {
				score--
			} else if right[t] && !left[t] {
				score++
			}
		}
		if score < 0 {
			ca, cb = cb, ca
		}
		for _, t := range ca {
			left[t] = true
		}
		for _, t := range cb {
			right[t] = true
		}
	}
	e.sweepSide = func(t *Term) int {
		switch l, r := left[t], right[t]; {
		case l && !r:
			return 1
		case r && !l:
			return 2
		}
		return 0
	}
	side := map[*Term]int{}
	tries := 0
	for i, n := range nodes {
		if _, ok := rep[n]; ok {
			continue
		}
		r := n
		if n.op != OpVar {
			changed := false
			a := make([]*Term, len(n.x.args))
			for j, x := range n.x.args {
				a[j] = x
				if y, ok := rep[x]; ok {
					a[j] = y
				}
				changed = changed || a[j] != x
			}
			if changed {
				r = tt.rebuild(n, a)
			}
		}
		rep[n] = r
		if r.IsConst() || r.op == OpVar {
			continue
		}
		late := tries > 400 || time.Now().After(deadline)
		if r.w == 0 {
			if konst[i] && !late && r != c && e.sweepSide(n) != 0 {
				// a condition that the path decides
				tries++
				q := r
				if first[i] != 0 {
					q = tt.Not1(r)
				}
				s, _ := e.sol.Check(e.slicePC(q), 200*time.Millisecond)
				if diffOn {
					fmt.Fprintln(os.Stderr, "SWEEP bool", s, r)
				}
				if s == SatNo {
					rep[n] = tt.Bool(first[i] != 0)
				}
			}
			continue
		}
		if r.w < 4 || r.op == OpConcat || r.op == OpExtract || r.op == OpSExt {
			continue
		}
		k := [2]uint64{sig[i], uint64(r.w)}
		merged := false
		sd := e.sweepSide(n)
		side[r] = sd
		for _, o := range cls[k] {
			if o == r {
				merged = true
			}
		}
		for j := len(cls[k]) - 1; !merged && j >= 0 && j >= len(cls[k])-6; j-- {
			o := cls[k][j]
			if sd == 0 || side[o] == sd || side[o] == 0 {
				continue
			}
			if late || e.sweepBad[[2]*Term{r, o}] || konst[i] && first[i] == 0 {
				continue
			}
			tries++
			ok := e.cutEqual(r, o, 300*time.Millisecond)
			if !ok && r.op != OpConcat && r.op != OpExtract {
				d := tt.Not1(tt.Eq(r, o))
				s, _ := e.sol.Check(e.slicePC(d), 200*time.Millisecond)
				ok = s == SatNo
			}
			if diffOn {
				fmt.Fprintln(os.Stderr, "SWEEP eq", ok, "\n  ", r, "\n  ", o)
			}
			if ok {
				rep[n] = o
				merged = true
				break
			}
			e.sweepBad[[2]*Term{r, o}] = true
		}
		if !merged {
			cls[k] = append(cls[k], r)
		}
	}
	return rep[c]
}

// split decides c by cases when it depends on a few bits only: with every
// variable fixed, the term reduces to a constant.
func (e *Engine) split(c *Term) (Sat, Model) {
	vs := c.varset(e.tt)
	bits := 0
	for _, id := range vs.ids {
		w := int(e.tt.vars[id].w)
		if w == 0 {
			w = 1
		}
		if bits += w; bits > 4 {
			return Unknown, nil
		}
	}
	for n := uint64(0); n < 1<<uint(bits); n++ {
		m := Model{}
		at := uint(0)
		for _, id := range vs.ids {
			v := e.tt.vars[id]
			w := v.w
			if w == 0 {
				w = 1
			}
			m[v.x.name] = n >> at & mask(w)
			at += uint(w)
		}
		m = e.extend(m)
		if e.tt.Eval(c, m) != 0 {
			continue
		}
		if e.holds(m) {
			return SatYes, m
		}
		// not by itself a model of the path condition: is it part of one?
		q := []*Term{}
		for _, id := range vs.ids {
			v := e.tt.vars[id]
			q = append(q, e.tt.Eq(v, e.tt.Const(v.w, m[v.x.name])))
		}
		if r, m := e.sat(e.tt.BAnd(q...)); r != SatNo {
			return r, m
		}
	}
	return SatNo, nil
}
