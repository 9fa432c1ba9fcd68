package main

// Accuracy of the inverse DCT in linear real arithmetic. The samples' terms,
// as they come out of the real code, are read as real-valued affine forms
// over the coefficients; every bit dropped by a shift becomes an error variable
// with the exact bounds of what can be dropped, every choice an if-then-else.
// The coefficients are those of a block whose exact transform is bounded. z3
// decides whether a sample can be further from the exact transform than the
// bound; a solution is rounded to a block of integers and evaluated there.

import (
	"bytes"
	"fmt"
	"math"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// slack covers the rounding of the basis and of the float arithmetic here.
const realSlack = 1e-4

type affine struct {
	c  float64
	co map[int]float64
}

type realVar struct {
	lo, hi float64
	def    string // constraint, for choices
	deps   []int
}

type realEnc struct {
	e      *Engine
	n      int // coefficients
	basis  [][]float64
	lim    float64
	vars   []realVar
	memo   map[*Term]*affine
	coefOf map[*Term]int
	models []Model
	vals   [][]uint64 // coefficient values under the models
	coef   []*Term
	wraps  int
	fresh  int
	drops  map[string]int
	known  map[*Term]int
}

func constA(v float64) *affine { return &affine{v, nil} }

func (a *affine) plus(k float64, b *affine) *affine {
	r := &affine{a.c + k*b.c, make(map[int]float64, len(a.co)+len(b.co))}
	for i, x := range a.co {
		r.co[i] = x
	}
	for i, x := range b.co {
		if v := r.co[i] + k*x; v != 0 {
			r.co[i] = v
		} else {
			delete(r.co, i)
		}
	}
	return r
}

// over expresses the coefficients by the exact samples.
func (r *realEnc) over(a *affine) ([]float64, map[int]float64) {
	s := make([]float64, r.n)
	o := map[int]float64{}
	for i, x := range a.co {
		if i < r.n {
			for j := range s {
				s[j] += x * r.basis[j][i]
			}
		} else {
			o[i] = x
		}
	}
	return s, o
}

// key identifies a: the same value loses the same bits.
func (a *affine) key() string {
	var ids []int
	for i := range a.co {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	b := strconv.AppendUint(nil, math.Float64bits(a.c), 36)
	for _, i := range ids {
		b = append(b, ' ')
		b = strconv.AppendInt(b, int64(i), 36)
		b = append(b, ':')
		b = strconv.AppendUint(b, math.Float64bits(a.co[i]), 36)
	}
	return string(append(b, '/'))
}

func (r *realEnc) bounds(a *affine) (lo, hi float64) {
	s, o := r.over(a)
	lo, hi = a.c, a.c
	for _, x := range s {
		lo -= math.Abs(x) * r.lim
		hi += math.Abs(x) * r.lim
	}
	for i, x := range o {
		v := r.vars[i]
		lo += math.Min(x*v.lo, x*v.hi)
		hi += math.Max(x*v.lo, x*v.hi)
	}
	return lo - realSlack, hi + realSlack
}

func (r *realEnc) newVar(lo, hi float64) int {
	r.vars = append(r.vars, realVar{lo: lo, hi: hi})
	return len(r.vars) - 1
}

func (r *realEnc) one(i int) *affine { return &affine{0, map[int]float64{i: 1}} }

func (r *realEnc) free(t *Term) *affine {
	r.fresh++
	i := r.newVar(float64(t.smin()), float64(t.smax()))
	return r.one(i)
}

// fits tells whether the values of a are values of w signed bits.
func (r *realEnc) fits(a *affine, w uint8) bool {
	lo, hi := r.bounds(a)
	return lo > -math.Pow(2, float64(w-1))-0.5 && hi < math.Pow(2, float64(w-1))-0.5
}

// The reading of a term of w bits is an integer that is congruent to it modulo
// 2^w. Where its signed or unsigned value matters, the reading has to fit.

// signed is the signed value of t.
func (r *realEnc) signed(t *Term) *affine {
	a := r.read(t)
	if len(a.co) == 0 {
		return constA(float64(sext64(uint64(int64(math.Round(a.c)))&mask(t.w), t.w)))
	}
	if r.fits(a, t.w) {
		return a
	}
	half := math.Pow(2, float64(t.w-1)) - 0.5
	if r.within(a, -half, half) {
		return a
	}
	r.wraps++
	return r.free(t)
}

// unsigned is the unsigned value of t.
func (r *realEnc) unsigned(t *Term) *affine {
	a := r.read(t)
	if len(a.co) == 0 {
		return constA(float64(uint64(int64(math.Round(a.c))) & mask(t.w)))
	}
	if lo, hi := r.bounds(a); lo > -0.5 && hi < math.Pow(2, float64(t.w))-0.5 {
		return a
	}
	r.fresh++
	return r.one(r.newVar(float64(t.umin()), float64(t.umax())))
}

// within tells whether a stays between lo and hi, given that the coefficients
// that are not used are constant: any multiple of them can be added to a and
// taken off again, and the multiples are chosen so that little is left.
func (r *realEnc) within(a *affine, lo, hi float64) bool {
	var fix []int
	for k, c := range r.coef {
		if c.IsConst() {
			fix = append(fix, k)
		}
	}
	if len(fix) == 0 {
		return false
	}
	n := len(fix)
	wt := make([]float64, r.n)
	for j := range wt {
		wt[j] = 1
	}
	for round := 0; round < 40; round++ {
		s, o := r.over(a)
		// weighted least squares for s + sum of l[i]*basis of fix[i]
		m := make([][]float64, n)
		for i := range m {
			m[i] = make([]float64, n+1)
			for j := range s {
				bi := wt[j] * r.basis[j][fix[i]]
				for q := 0; q < n; q++ {
					m[i][q] += bi * r.basis[j][fix[q]]
				}
				m[i][n] -= bi * s[j]
			}
		}
		if !solveLinear(m) {
			return false
		}
		ce := a.c
		l := make([]float64, n)
		for i := range l {
			l[i] = m[i][n]
			ce -= l[i] * float64(sext64(r.coef[fix[i]].val, r.coef[fix[i]].w))
			for j := range s {
				s[j] += l[i] * r.basis[j][fix[i]]
			}
		}
		xl, xh := ce, ce
		for j, x := range s {
			xl -= math.Abs(x) * r.lim
			xh += math.Abs(x) * r.lim
			wt[j] = 1 / math.Max(math.Abs(x), 1e-3)
		}
		for i, x := range o {
			v := r.vars[i]
			xl += math.Min(x*v.lo, x*v.hi)
			xh += math.Max(x*v.lo, x*v.hi)
		}
		if xl-realSlack > lo && xh+realSlack < hi {
			return true
		}
	}
	return false
}

// solveLinear leaves the solution in the last column of m.
func solveLinear(m [][]float64) bool {
	n := len(m)
	for c := 0; c < n; c++ {
		p := c
		for i := c; i < n; i++ {
			if math.Abs(m[i][c]) > math.Abs(m[p][c]) {
				p = i
			}
		}
		if math.Abs(m[p][c]) < 1e-12 {
			return false
		}
		m[c], m[p] = m[p], m[c]
		for i := 0; i < n; i++ {
			if i != c {
				f := m[i][c] / m[c][c]
				for j := c; j <= n; j++ {
					m[i][j] -= f * m[c][j]
				}
			}
		}
	}
	for c := range m {
		m[c][n] /= m[c][c]
	}
	return true
}

// is says that variable g is the unsigned value of t, a choice of samples.
func (r *realEnc) is(g string, t *Term, deps map[int]bool) string {
	if t.op == OpIte {
		return fmt.Sprintf("(ite %s %s %s)", r.cond(t.x.args[0], deps), r.is(g, t.x.args[1], deps), r.is(g, t.x.args[2], deps))
	}
	if t.IsConst() {
		return fmt.Sprintf("(= %s %s)", g, num(float64(t.val)))
	}
	a := r.read(t)
	lo, hi := r.bounds(a)
	out := "(and true"
	// readings are whole numbers, whatever their relaxation says
	for k := math.Floor(lo / 256); k <= math.Floor(hi/256)+1; k++ {
		x := r.expr(a.plus(-256, constA(k)), deps)
		out += fmt.Sprintf(" (=> (and (< (- 1.0) %s) (< %s 256.0)) (= %s %s))", x, x, g, x)
	}
	return out + ")"
}

func (r *realEnc) read(t *Term) *affine {
	if t.IsConst() {
		return constA(float64(sext64(t.val, t.w)))
	}
	if a, ok := r.memo[t]; ok {
		return a
	}
	var a *affine
	if t.w == 1 {
		switch r.settled(r.e.tt.Eq(t, r.e.tt.Const(1, 1))) {
		case 0:
			a = constA(0)
		case 1:
			a = constA(-1)
		}
	}
	if a == nil {
		a = r.compute(t)
	}
	r.memo[t] = a
	return a
}

func (r *realEnc) isCoef(t *Term) (int, bool) {
	if k, ok := r.coefOf[t]; ok {
		return k, k >= 0
	}
	r.coefOf[t] = -1
	if t.w < 12 || t.w > 32 {
		return -1, false
	}
	tt := r.e.tt
	vs := t.varset(tt)
	var ev []uint64
	for k, c := range r.coef {
		if c.IsConst() || c.varset(tt) != vs {
			continue
		}
		if ev == nil {
			for _, m := range r.models {
				ev = append(ev, tt.Eval(tt.SExt(t, 32), m))
			}
		}
		ok := true
		for i := range ev {
			if ev[i] != r.vals[k][i] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		x := tt.SExt(t, 32)
		if x != c {
			d := tt.Not1(tt.Eq(x, c))
			if !(d.IsConst() && d.val == 0) {
				if s, _ := r.e.sol.Check(r.e.slicePC(d), 10*time.Second); s != SatNo {
					continue
				}
			}
		}
		r.coefOf[t] = k
		return k, true
	}
	return -1, false
}

func (r *realEnc) compute(t *Term) *affine {
	if k, ok := r.isCoef(t); ok {
		return r.one(k)
	}
	switch t.op {
	case OpLin:
		a := constA(float64(sext64(t.val, t.w)))
		for i, p := range t.x.args {
			a = a.plus(float64(sext64(t.x.coef[i], t.w)), r.read(p))
		}
		return a
	case OpSExt:
		return r.signed(t.x.args[0])
	case OpConcat:
		a := r.read(t.x.args[0])
		for _, p := range t.x.args[1:] {
			a = constA(0).plus(math.Pow(2, float64(p.w)), a).plus(1, r.unsigned(p))
		}
		return a
	case OpExtract:
		k := math.Pow(2, float64(t.val))
		a := constA(0).plus(1/k, r.read(t.x.args[0]))
		if len(a.co) == 0 {
			return constA(math.Floor(a.c))
		}
		if t.val > 0 {
			// what is dropped is a multiple of 1/k
			key := a.key() + strconv.Itoa(int(t.val))
			i, ok := r.drops[key]
			if !ok {
				i = r.newVar(0, (k-1)/k)
				r.drops[key] = i
			}
			a = a.plus(-1, r.one(i))
		}
		return a
	case OpIte:
		// one branch plus the difference of the other, which is often small
		c := t.x.args[0]
		switch r.settled(c) {
		case 1:
			return r.read(t.x.args[1])
		case 0:
			return r.read(t.x.args[2])
		}
		x, y := r.read(t.x.args[1]), r.read(t.x.args[2])
		d := x.plus(-1, y)
		fix := map[int]float64{}
		if c.op == OpBNot {
			r.fixed(c.x.args[0], fix)
			x, y, d = y, x, y.plus(-1, x)
		} else {
			r.fixed(c, fix)
		}
		lo, hi := r.bounds(d.with(fix))
		i := r.newVar(math.Min(lo, 0), math.Max(hi, 0))
		deps := map[int]bool{}
		v := "v" + strconv.Itoa(i)
		p, q := fmt.Sprintf("(= %s %s)", v, r.expr(d, deps)), fmt.Sprintf("(= %s 0.0)", v)
		if c.op == OpBNot {
			p, q = q, p
		}
		r.vars[i].def = fmt.Sprintf("(ite %s %s %s)", r.cond(c, deps), p, q)
		for d := range deps {
			r.vars[i].deps = append(r.vars[i].deps, d)
		}
		return y.plus(1, r.one(i))
	}
	return r.free(t)
}

// settled tells whether the path decides c.
func (r *realEnc) settled(c *Term) int {
	if v, ok := r.known[c]; ok {
		return v
	}
	v := -1
	n := r.e.tt.Not1(c)
	if s, _ := r.e.sol.Check(r.e.slicePC(n), 5*time.Second); s == SatNo {
		v = 1
	} else if s, _ := r.e.sol.Check(r.e.slicePC(c), 5*time.Second); s == SatNo {
		v = 0
	}
	r.known[c] = v
	return v
}

// fixed collects the coefficients that c fixes.
func (r *realEnc) fixed(c *Term, fix map[int]float64) {
	switch c.op {
	case OpBAnd:
		for _, p := range c.x.args {
			r.fixed(p, fix)
		}
	case OpEq:
		a, b := c.x.args[0], c.x.args[1]
		if a.IsConst() {
			a, b = b, a
		}
		if !b.IsConst() || a.w == 0 {
			return
		}
		if x := r.read(a); len(x.co) == 1 && x.c == 0 {
			for i, k := range x.co {
				if i < r.n && k == 1 {
					fix[i] = float64(sext64(b.val, b.w))
				}
			}
		}
	}
}

func (a *affine) with(fix map[int]float64) *affine {
	r := &affine{a.c, map[int]float64{}}
	for i, x := range a.co {
		if v, ok := fix[i]; ok {
			r.c += x * v
		} else {
			r.co[i] = x
		}
	}
	return r
}

// cond renders a condition; what cannot be read is left open.
func (r *realEnc) cond(t *Term, deps map[int]bool) string {
	if t.IsConst() {
		return bvc(t.val, 0)
	}
	switch t.op {
	case OpBNot:
		return "(not " + r.cond(t.x.args[0], deps) + ")"
	case OpBAnd:
		s := "(and"
		for _, p := range t.x.args {
			s += " " + r.cond(p, deps)
		}
		return s + ")"
	case OpSlt:
		return fmt.Sprintf("(< %s %s)", r.expr(r.signed(t.x.args[0]), deps), r.expr(r.signed(t.x.args[1]), deps))
	case OpEq:
		a, b := t.x.args[0], t.x.args[1]
		if a.IsConst() {
			a, b = b, a
		}
		if a.w == 0 {
			break
		}
		if a.w == 1 && a.op == OpExtract && b.IsConst() && uint8(a.val) == a.x.args[0].w-1 {
			// the sign
			c := fmt.Sprintf("(< %s 0.0)", r.expr(r.signed(a.x.args[0]), deps))
			if b.val == 0 {
				c = "(not " + c + ")"
			}
			return c
		}
		if a.w >= 8 {
			return fmt.Sprintf("(= %s %s)", r.expr(r.signed(a), deps), r.expr(r.signed(b), deps))
		}
	case OpUlt:
		return fmt.Sprintf("(< %s %s)", r.expr(r.unsigned(t.x.args[0]), deps), r.expr(r.unsigned(t.x.args[1]), deps))
	}
	i := r.newVar(0, 1)
	deps[i] = true
	return "(< v" + strconv.Itoa(i) + " 0.5)"
}

// num rounds to 32 fractional bits (covered by the slack).
func num(x float64) string {
	n := math.Round(x * (1 << 32))
	s := strconv.FormatFloat(math.Abs(n), 'f', 1, 64)
	if math.Mod(n, 1<<32) == 0 {
		s = strconv.FormatFloat(math.Abs(n)/(1<<32), 'f', 1, 64)
	} else {
		s = "(/ " + s + " 4294967296.0)"
	}
	if n < 0 {
		return "(- " + s + ")"
	}
	return s
}

func (r *realEnc) expr(a *affine, deps map[int]bool) string {
	s, o := r.over(a)
	var sb strings.Builder
	sb.WriteString("(+ " + num(a.c) + " 0.0")
	for j, x := range s {
		if x != 0 {
			fmt.Fprintf(&sb, " (* %s s%d)", num(x), j)
		}
	}
	var ids []int
	for i := range o {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&sb, " (* %s v%d)", num(o[i]), i)
		deps[i] = true
	}
	sb.WriteString(")")
	return sb.String()
}

func basisIDCT(j, k int) float64 {
	y, x, v, u := j/8, j%8, k/8, k%8
	b := math.Cos(float64((2*x+1)*u)*math.Pi/16) * math.Cos(float64((2*y+1)*v)*math.Pi/16) / 4
	if u == 0 {
		b *= math.Sqrt(0.5)
	}
	if v == 0 {
		b *= math.Sqrt(0.5)
	}
	return b
}

func (e *Engine) nearIDCT(got, coef []*Term, base, milli int, label string) {
	if len(e.spec) > 0 {
		panic(specAbort{"assert"})
	}
	e.asserts += len(got)
	if _, ok := e.next(); ok {
		return
	}
	defer e.record(Decision{'p', true, 0})
	tt := e.tt
	r := &realEnc{e: e, n: 64, lim: 256, memo: map[*Term]*affine{}, drops: map[string]int{}, known: map[*Term]int{}, coefOf: map[*Term]int{}, coef: coef}
	for j := 0; j < 64; j++ {
		row := make([]float64, 64)
		for k := range row {
			row[k] = basisIDCT(j, k)
		}
		r.basis = append(r.basis, row)
		r.newVar(-2048, 2048)
	}
	for k, c := range coef {
		if !c.IsConst() {
			r.coefOf[c] = k
		}
	}

	all := tt.empty
	for _, c := range coef {
		if !c.IsConst() {
			all = tt.vsUnion(all, c.varset(tt))
		}
	}
	e.sims = nil
	r.models = e.simModels(all)
	if len(r.models) > 12 {
		r.models = r.models[:12]
	}
	for _, c := range coef {
		var v []uint64
		for _, m := range r.models {
			v = append(v, tt.Eval(c, m))
		}
		r.vals = append(r.vals, v)
	}

	// one script, one query per sample
	bound := float64(milli)/1000 - realSlack
	var sb strings.Builder
	for j := 0; j < 64; j++ {
		fmt.Fprintf(&sb, "(declare-const s%d Real)(assert (and (<= %s s%d) (<= s%d %s)))\n", j, num(-r.lim), j, j, num(r.lim))
	}
	decl := 64
	for j, g := range got {
		deps := map[int]bool{}
		x := r.is(fmt.Sprintf("g%d", j), g, deps)
		// everything the sample depends on
		var need []int
		var visit func(i int)
		seen := map[int]bool{}
		visit = func(i int) {
			if seen[i] || i < 64 {
				return
			}
			seen[i] = true
			for _, d := range r.vars[i].deps {
				visit(d)
			}
			need = append(need, i)
		}
		for d := range deps {
			visit(d)
		}
		sort.Ints(need)
		for ; decl < len(r.vars); decl++ {
			fmt.Fprintf(&sb, "(declare-const v%d Real)\n", decl)
		}
		sb.WriteString("(push 1)\n")
		for _, i := range need {
			v := r.vars[i]
			fmt.Fprintf(&sb, "(assert (and (<= %s v%d) (<= v%d %s)))\n", num(v.lo), i, i, num(v.hi))
			if v.def != "" {
				sb.WriteString("(assert " + v.def + ")\n")
			}
		}
		fmt.Fprintf(&sb, "(declare-const x%d Real)(declare-const g%d Real)(assert (and (< (- 1.0) g%d) (< g%d 256.0) %s))\n", j, j, j, j, x)
		ex := fmt.Sprintf("y%d", j)
		fmt.Fprintf(&sb, "(declare-const y%d Real)(assert (= y%d %s))\n", j, j, r.expr(constA(float64(base)).plus(1, r.target(j)), map[int]bool{}))
		fmt.Fprintf(&sb, "(assert (= x%d (ite (< %s 0.0) 0.0 (ite (> %s 255.0) 255.0 %s))))\n", j, ex, ex, ex)
		fmt.Fprintf(&sb, "(assert (or (> (- g%d x%d) %s) (> (- x%d g%d) %s)))\n(check-sat)\n", j, j, num(bound), j, j, num(bound))
		sb.WriteString("(get-value (")
		for i := 0; i < 64; i++ {
			fmt.Fprintf(&sb, "s%d ", i)
		}
		sb.WriteString("))\n(echo \"--\")\n(pop 1)\n")
	}
	script := "(set-logic QF_LRA)\n(set-option :timeout 20000)\n(set-option :pp.decimal true)\n" + sb.String()
	start := time.Now()
	cmd := exec.Command("z3-new", "-in", "-smt2")
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	timer := time.AfterFunc(400*time.Second, func() { cmd.Process.Kill() })
	cmd.Run()
	timer.Stop()
	e.sol.time += time.Since(start)
	parts := strings.Split(out.String(), "--")
	undecided := 0
	for j := range got {
		e.sol.queries++
		txt := ""
		if j < len(parts) {
			txt = strings.TrimSpace(parts[j])
		}
		switch {
		case strings.HasPrefix(txt, "unsat"):
			e.sol.unsats++
		case strings.HasPrefix(txt, "sat"):
			e.sol.sats++
			if m := r.concrete(txt, base, milli, got); m != nil {
				old := e.model
				e.model = m
				e.violate("assert", label)
				e.model = old
				panic(pathEnd{"assert false"})
			}
			undecided++
		default:
			e.sol.unk++
			undecided++
		}
	}
	if undecided > 0 {
		e.noteIncomplete(fmt.Sprintf("accuracy of %d samples not decided (%d terms could wrap, %d not read)", undecided, r.wraps, r.fresh))
	}
}

// target is the exact transform's sample.
func (r *realEnc) target(j int) *affine {
	a := &affine{0, map[int]float64{}}
	for k, c := range r.coef {
		if c.IsConst() {
			a.c += r.basis[j][k] * float64(sext64(c.val, c.w))
		} else {
			a.co[k] = r.basis[j][k]
		}
	}
	return a
}

// concrete rounds a solution to coefficients and finds a model of the path
// under which a sample really is too far off.
func (r *realEnc) concrete(txt string, base, milli int, got []*Term) Model {
	s := make([]float64, 64)
	f := strings.FieldsFunc(txt, func(c rune) bool { return c == '(' || c == ')' || c == ' ' || c == '\n' })
	for i := 0; i+1 < len(f); i++ {
		if len(f[i]) > 1 && f[i][0] == 's' {
			if j, err := strconv.Atoi(f[i][1:]); err == nil && j < 64 {
				neg := f[i+1] == "-"
				k := i + 1
				if neg {
					k++
				}
				v, _ := strconv.ParseFloat(strings.TrimSuffix(f[k], "?"), 64)
				if neg {
					v = -v
				}
				s[j] = v
			}
		}
	}
	e, tt := r.e, r.e.tt
	// stay a little inside so that rounding does not leave the range
	for _, scale := range []float64{1, 0.99, 0.97} {
		for drop := 0; drop < 2; drop++ {
			var cs []*Term
			for k, c := range r.coef {
				if c.IsConst() || (k == 63 && drop == 1) {
					continue
				}
				v := 0.0
				for j := range s {
					v += s[j] * r.basis[j][k] * scale
				}
				n := int64(math.Round(v))
				if n == 0 {
					n = 1
				}
				if n > 2047 {
					n = 2047
				}
				if n < -2047 {
					n = -2047
				}
				cs = append(cs, tt.Eq(c, tt.Const(c.w, uint64(n)&mask(c.w))))
			}
			eq := tt.BAnd(cs...)
			res, m := e.sol.Check(append(e.slicePC(eq)), 10*time.Second)
			if res != SatYes {
				continue
			}
			full := e.extend(m)
			F := make([]float64, 64)
			for k, c := range r.coef {
				F[k] = float64(sext64(tt.Eval(c, full), c.w))
			}
			ok, off := true, false
			for j, g := range got {
				x := 0.0
				for k := range F {
					x += r.basis[j][k] * F[k]
				}
				if math.Abs(x) > r.lim {
					ok = false
				}
				x = math.Max(0, math.Min(255, x+float64(base)))
				if math.Abs(x-float64(tt.Eval(g, full))) > float64(milli)/1000 {
					off = true
				}
			}
			if ok && off {
				return full
			}
		}
	}
	return nil
}
