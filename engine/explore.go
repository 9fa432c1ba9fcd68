package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one replayable choice.
//
//	b: branch (val = side)          f: forced branch (val = side)
//	m: merge performed              a: merge attempt abandoned
//	c: concretisation (val; ok tells whether the term equals val)
//	n: enumerated choice (val)      p: assertion proved / assumption holds
type Decision struct {
	k  byte
	ok bool
	v  uint64
}

type Task struct {
	prefix []Decision
	model  Model
}

type specialEnd struct{}

type pathEnd struct{ why string }
type stepLimitErr struct{ where string }

type Violation struct {
	Harness   string            `json:"harness"`
	Kind      string            `json:"kind"` // assert, panic, nontermination, deadlock, race, excessive allocation
	Label     string            `json:"label"`
	Where     string            `json:"where"`
	Assign    map[string]uint64 `json:"assign"`
	Choices   map[string]uint64 `json:"choices"`
	Thorough  bool              `json:"thorough"`
	known     string
	multi     bool
	confirmed bool
	nativeOut string
}

type obsEnt struct {
	label string
	t     *Term
}

type Engine struct {
	prog *Program
	ex   *Explorer
	tt   *TT
	sol  *Solver

	globals  map[*ssa.Global]*Obj
	initDone map[*ssa.Package]bool
	initing  bool
	methods  map[methKey]*Closure
	impls    map[implKey]bool
	encoded  map[*CFunc]bool
	objID    int
	chanID   int
	baseObj  int
	baseChan int
	restore  []restoreRec

	// path state
	cur      *G
	gs       []*G
	prefix   []Decision
	dec      []Decision
	pc       []*Term
	model    Model
	modelBad bool
	spec     []*specFrame
	mergeOn  bool

	// assertion sweeping
	sims       []Model
	simPC      int
	simVars    *VarSet
	sweepRep   map[*Term]*Term
	sweepCls   map[[2]uint64][]*Term
	sweepBad   map[[2]*Term]bool
	sweepPC    int
	sweepSide  func(*Term) int
	depth      int
	steps      int
	stepLimit  int
	raceOn     bool
	shadow     map[shadowKey]*shadowEnt
	names      map[string]int
	inputs     []inputVar
	choices    map[string]uint64
	obs        []obsEnt
	reached    map[string]bool
	wgs        map[string]*wgState
	locks      map[string]*lockState
	onces      map[string]bool
	viol       *Violation
	incompl    string
	allocLimit int
	killing    bool
	killed     chan struct{}
	pending    interface{}
	preempt    bool
	asserts    int

	sp      *schedPoint
	hash    uint64
	hashLen int
	ops     map[interface{}][]opRec
	opRoot  map[interface{}]interface{}
	opMix   map[interface{}]bool

	// totals
	totalSteps int64
	mergeOK    int
	mergeFail  int
	abortWhy   map[string]int
	nfork      map[string]int
}

type inputVar struct {
	name string
	t    *Term
}

type Explorer struct {
	prog    *Program
	harness *CFunc
	hname   string
	pkg     *ssa.Package
	cfg     Config

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Task
	nodes    map[uint64]uint32
	active   int
	stop     bool
	deadline time.Time

	paths      int
	pruned     int
	unsupp     map[string]int
	incomplete map[string]int
	violations []*Violation
	pathModels []PathModel
	reached    map[string]int
	steps      int64
	queries    int
	solverTime time.Duration
	slowest    time.Duration
	sats       int
	unsats     int
	unknowns   int
	encoded    map[string]bool
	asserts    int
	terms      int
	mergeOK    int
	mergeFail  int
	timedOut   bool
	maxDec     int
	abortWhy   map[string]int
	nfork      map[string]int
	solverErrs []string
}

type PathModel struct {
	Assign  map[string]uint64
	Choices map[string]uint64
	Obs     []string
	Multi   bool // several goroutines ran
}

type Config struct {
	Workers       int
	StepLimit     int
	Timeout       time.Duration // wall for this harness
	QueryTO       time.Duration
	AllocLimit    int
	MaxPaths      int
	Thorough      bool
	Verbose       int
	KeepModels    int
	Known         func(v *Violation) string
	Confirm       func(v *Violation) bool
	ContinueAfter bool
}

func newEngine(ex *Explorer) *Engine {
	e := &Engine{prog: ex.prog, ex: ex, tt: NewTT(), globals: map[*ssa.Global]*Obj{}, initDone: map[*ssa.Package]bool{},
		methods: map[methKey]*Closure{}, impls: map[implKey]bool{}, encoded: map[*CFunc]bool{}, abortWhy: map[string]int{}, nfork: map[string]int{}, killed: make(chan struct{})}
	e.sol = NewSolver(e.tt)
	return e
}

func isRepo(cf *CFunc) bool {
	if cf.fn == nil {
		return false
	}
	p := cf.fn.Pkg
	if p == nil {
		return strings.Contains(cf.name, "32bitkid/mpeg") && !strings.Contains(cf.name, "zzverif")
	}
	path := p.Pkg.Path()
	return strings.HasPrefix(path, "github.com/32bitkid/mpeg") && !strings.Contains(path, "zzverif")
}

// ---- decisions ----

func (e *Engine) next() (Decision, bool) {
	if i := len(e.dec); i < len(e.prefix) {
		d := e.prefix[i]
		e.dec = append(e.dec, d)
		return d, true
	}
	return Decision{}, false
}

func (e *Engine) record(d Decision) { e.dec = append(e.dec, d) }

func (e *Engine) addPC(c *Term) {
	if c.IsConst() {
		return
	}
	e.pc = append(e.pc, c)
}

// slice keeps the constraints connected to the variables of c.
func (e *Engine) slicePC(c *Term) []*Term {
	vs := map[int32]bool{}
	for _, v := range c.varset(e.tt).ids {
		vs[v] = true
	}
	used := make([]bool, len(e.pc))
	out := []*Term{c}
	for changed := true; changed; {
		changed = false
		for i, p := range e.pc {
			if used[i] {
				continue
			}
			ids := p.varset(e.tt).ids
			hit := false
			for _, v := range ids {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range ids {
					vs[v] = true
				}
			}
		}
	}
	seen := map[*Term]bool{c: true}
	for i, p := range e.pc {
		if used[i] && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	sort.Slice(out[1:], func(i, j int) bool { return out[1+i].x.id < out[1+j].x.id })
	return out
}

// sat decides pc ∧ c; the returned model extends the current one.
func (e *Engine) sat(c *Term) (Sat, Model) {
	if c.IsConst() {
		if c.val == 0 {
			return SatNo, nil
		}
		return SatYes, e.model
	}
	for _, p := range e.pc {
		if p == c {
			return SatYes, e.model
		}
	}
	nc := e.tt.Not1(c)
	for _, p := range e.pc {
		if p == nc {
			return SatNo, nil
		}
	}
	t0 := time.Now()
	r, m := e.sol.Check(e.slicePC(c), e.ex.cfg.QueryTO)
	if diffOn {
		if d := time.Since(t0); d > 50*time.Millisecond {
			fmt.Fprintln(os.Stderr, "SLOW", d, r, e.where(), c)
		}
	}
	if r == SatYes {
		full := make(Model, len(e.model)+len(m))
		for k, v := range e.model {
			full[k] = v
		}
		for k, v := range m {
			full[k] = v
		}
		return r, full
	}
	if r == Unknown {
		e.noteIncomplete("solver timeout at " + e.where())
	}
	return r, nil
}

func (e *Engine) noteIncomplete(s string) {
	e.ex.mu.Lock()
	e.ex.incomplete[s]++
	e.ex.mu.Unlock()
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (e *Engine) branch(c *Term, why string) bool {
	if c.IsConst() {
		return c.val != 0
	}
	if d, ok := e.next(); ok {
		switch d.k {
		case 'f':
			return d.ok
		case 'b':
			if d.ok {
				e.addPC(c)
			} else {
				e.addPC(e.tt.Not1(c))
			}
			return d.ok
		}
		panic(fmt.Sprintf("replay divergence: %c at branch", d.k))
	}
	side := e.tt.Eval(c, e.model) != 0
	take, other := c, e.tt.Not1(c)
	if !side {
		take, other = other, take
	}
	r, m := e.sat(other)
	if r == SatNo {
		e.record(Decision{'f', side, 0})
		return side
	}
	if len(e.spec) > 0 {
		panic(specAbort{"fork"})
	}
	if r == SatYes {
		pre := append(append([]Decision(nil), e.dec...), Decision{'b', !side, 0})
		e.ex.push(Task{pre, m})
		if e.ex.cfg.Verbose > 1 {
			e.nfork[e.where()+" "+why]++
		}
	}
	e.record(Decision{'b', side, 0})
	e.addPC(take)
	return side
}

// concretize picks every feasible value of t, one per path.
func (e *Engine) concretize(t *Term) uint64 {
	if t.IsConst() {
		return t.val
	}
	for {
		if d, ok := e.next(); ok {
			if d.k != 'c' {
				panic(fmt.Sprintf("replay divergence: %c at concretize", d.k))
			}
			eq := e.tt.Eq(t, e.tt.Const(t.w, d.v))
			if d.ok {
				e.addPC(eq)
				return d.v
			}
			e.addPC(e.tt.Not1(eq))
			continue
		}
		v := e.tt.Eval(t, e.model)
		eq := e.tt.Eq(t, e.tt.Const(t.w, v))
		r, m := e.sat(e.tt.Not1(eq))
		if r != SatNo && len(e.spec) > 0 {
			panic(specAbort{"concretize"})
		}
		if r == SatYes {
			pre := append(append([]Decision(nil), e.dec...), Decision{'c', false, v})
			e.ex.push(Task{pre, m})
			if e.ex.cfg.Verbose > 1 {
				e.nfork[e.where()+" concretize"]++
			}
		}
		e.record(Decision{'c', true, v})
		if r != SatNo {
			e.addPC(eq)
		}
		return v
	}
}

// choose enumerates 0..n-1 without constraints.
func (e *Engine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if len(e.spec) > 0 {
		panic(specAbort{"choice"})
	}
	if d, ok := e.next(); ok {
		if d.k != 'n' {
			panic(fmt.Sprintf("replay divergence: %c at choice", d.k))
		}
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		pre := append(append([]Decision(nil), e.dec...), Decision{'n', true, uint64(i)})
		e.ex.push(Task{pre, e.model})
	}
	e.record(Decision{'n', true, 0})
	return 0
}

func (e *Engine) assume(c *Term) {
	if c.IsConst() {
		if c.val == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if _, ok := e.next(); ok {
		e.addPC(c)
		return
	}
	if len(e.spec) > 0 {
		panic(specAbort{"assume"})
	}
	if e.tt.Eval(c, e.model) == 0 {
		r, m := e.sat(c)
		if r != SatYes {
			if r == Unknown {
				panic(pathEnd{"assumption undecided"})
			}
			panic(pathEnd{"assume"})
		}
		e.model = m
	}
	e.record(Decision{'p', true, 0})
	e.addPC(c)
}

func (e *Engine) assert(c *Term, label string) {
	if len(e.spec) > 0 {
		panic(specAbort{"assert"})
	}
	e.asserts++
	if c.IsConst() && c.val != 0 {
		return
	}
	if d, ok := e.next(); ok && !c.IsConst() {
		if d.k == 'q' { // violated (known finding) and continued under the assumption
			e.addPC(c)
		}
		return
	} else if ok {
		panic(pathEnd{"assert false"})
	}
	if e.tt.Eval(c, e.model) != 0 {
		r, m := e.decide(c)
		if r == SatNo {
			e.record(Decision{'p', true, 0})
			return
		}
		if r == Unknown {
			e.record(Decision{'p', true, 0})
			return
		}
		old := e.model
		e.model = m
		e.violate("assert", label)
		e.model = old
	} else {
		e.violate("assert", label)
	}
	// listed finding: go on where the assertion holds
	if c.IsConst() {
		panic(pathEnd{"assert false"})
	}
	r, m := e.sat(c)
	if r != SatYes {
		panic(pathEnd{"assert false"})
	}
	e.model = m
	e.record(Decision{'q', true, 0})
	e.addPC(c)
}

// violate reports a violation under the current model. It returns only when
// exploration continues.
func (e *Engine) violate(kind, label string) {
	v := e.newViol(kind, label, e.where())
	e.ex.report(v)
}

func (e *Engine) assignment() map[string]uint64 {
	out := map[string]uint64{}
	ts := make([]*Term, len(e.inputs))
	for i, iv := range e.inputs {
		ts[i] = iv.t
	}
	for i, v := range e.tt.EvalAll(ts, e.model) {
		out[e.inputs[i].name] = v
	}
	return out
}

func (e *Engine) choiceCopy() map[string]uint64 {
	out := map[string]uint64{}
	for k, v := range e.choices {
		out[k] = v
	}
	return out
}

// ---- merging ----

const specBudget = 4000

// tryMerge executes both sides of blk's branch up to its post-dominator and
// joins the results. taken >= 0 means only that side is feasible.
func (e *Engine) tryMerge(fr *Frame, blk *CBlock, cond *Term) (out outcome, taken int, merged bool) {
	taken = -1
	d, replay := e.next()
	side := 0
	var otherModel Model
	at := len(e.dec)
	if replay {
		switch d.k {
		case 'a':
			return outcome{}, -1, false
		case 'f':
			if d.ok {
				return outcome{}, 0, false
			}
			return outcome{}, 1, false
		case 'm':
			at--
		default:
			panic(fmt.Sprintf("replay divergence: %c at merge", d.k))
		}
	} else {
		if e.tt.Eval(cond, e.model) == 0 {
			side = 1
		}
		oc := cond
		if side == 0 {
			oc = e.tt.Not1(cond)
		}
		var r Sat
		var m Model
		if blk.small && len(cone([]*Term{cond}, 30)) > 14 {
			// cheaper to join than to ask whether the other side is possible
			r = SatYes
		} else {
			r, m = e.sat(oc)
		}
		if r == SatNo {
			e.record(Decision{'f', side == 0, 0})
			return outcome{}, side, false
		}
		if r == Unknown {
			e.record(Decision{'a', true, 0})
			return outcome{}, -1, false
		}
		otherModel = m
		e.record(Decision{'m', true, 0})
	}
	savedModel, savedPC, savedDepth, savedFrame, nspec := e.model, len(e.pc), e.depth, e.cur.frame, len(e.spec)
	ok, why := false, ""
	var res [2]outcome
	var writes [2]map[cellKey]Value
	var order []cellKey
	func() {
		defer func() {
			if r := recover(); r != nil {
				sa, is := r.(specAbort)
				// roll back everything written in the abandoned frames
				for len(e.spec) > nspec {
					e.popSpec(true)
				}
				e.pc = e.pc[:savedPC]
				e.depth, e.cur.frame, e.model = savedDepth, savedFrame, savedModel
				if !is {
					panic(r)
				}
				why = sa.why
			}
		}()
		budget := specBudget
		if nspec > 0 {
			budget = e.spec[nspec-1].budget
		}
		for s := 0; s < 2; s++ {
			c := cond
			if s == 1 {
				c = e.tt.Not1(cond)
			}
			if s == side {
				e.model = savedModel
			} else if otherModel != nil {
				e.model = otherModel
			}
			e.spec = append(e.spec, &specFrame{budget: budget})
			e.addPC(c)
			b, edge := blk.succs[s], blk.predIx[s]
			phis := e.arrive(fr, fr.f.blocks[b], blk.idx, edge)
			if phis == nil {
				phis = []Value{}
			}
			res[s] = e.runFrom(fr, b, phis, blk.ipdom)
			e.pc = e.pc[:savedPC]
			e.model = savedModel
			w := map[cellKey]Value{}
			sp := e.spec[len(e.spec)-1]
			for _, l := range sp.log {
				k := cellKey{l.o, l.i}
				if _, seen := w[k]; !seen {
					w[k] = l.o.get(l.i)
					order = append(order, k)
				}
			}
			writes[s] = w
			e.popSpec(true)
		}
		if res[0].kind != res[1].kind {
			panic(specAbort{"different exits"})
		}
		// join
		if res[0].kind == outReturn {
			v, mok := e.mergeSoft(cond, res[0].val, res[1].val)
			if !mok {
				panic(specAbort{"unmergeable result"})
			}
			out = outcome{kind: outReturn, val: v}
		} else {
			phis := make([]Value, len(res[0].phis))
			for i := range phis {
				v, mok := e.mergeSoft(cond, res[0].phis[i], res[1].phis[i])
				if !mok {
					panic(specAbort{"unmergeable phi"})
				}
				phis[i] = v
			}
			out = outcome{kind: outStop, phis: phis}
		}
		type wr struct {
			k cellKey
			v Value
		}
		var ws []wr
		done := map[cellKey]bool{}
		for _, k := range order {
			if done[k] {
				continue
			}
			done[k] = true
			old := k.o.get(k.i)
			a, b := old, old
			if v, has := writes[0][k]; has {
				a = v
			}
			if v, has := writes[1][k]; has {
				b = v
			}
			v, mok := e.mergeSoft(cond, a, b)
			if !mok {
				panic(specAbort{"unmergeable memory"})
			}
			ws = append(ws, wr{k, v})
		}
		for _, w := range ws {
			e.set(w.k.o, w.k.i, w.v)
		}
		ok = true
	}()
	if ok {
		e.mergeOK++
		return out, -1, true
	}
	if replay {
		panic("replay divergence: merge failed: " + why)
	}
	e.mergeFail++
	e.abortWhy[why]++
	e.dec = append(e.dec[:at-0], e.dec[len(e.dec):]...)
	e.dec = e.dec[:at]
	e.record(Decision{'a', true, 0})
	if len(e.spec) > 0 {
		// an enclosing speculation would have to fork
	}
	return outcome{}, -1, false
}

type cellKey struct {
	o *Obj
	i int
}

func (e *Engine) popSpec(rollback bool) {
	n := len(e.spec) - 1
	sp := e.spec[n]
	e.spec = e.spec[:n]
	if rollback {
		for i := len(sp.log) - 1; i >= 0; i-- {
			l := sp.log[i]
			l.o.rawSet(l.i, l.old)
		}
	}
}

// ---- the explorer ----

func (ex *Explorer) push(t Task) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, t)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) report(v *Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.cfg.Known != nil {
		v.known = ex.cfg.Known(v)
	}
	for _, o := range ex.violations {
		if o.Kind == v.Kind && o.Label == v.Label && o.Where == v.Where {
			return
		}
	}
	if ex.stop && v.known == "" {
		panic(pathEnd{"stopped"})
	}
	ex.violations = append(ex.violations, v)
	if v.known == "" {
		// stop at the first that reproduces natively
		v.confirmed = ex.cfg.Confirm == nil || ex.cfg.Confirm(v)
		if v.confirmed && !ex.cfg.ContinueAfter {
			ex.stop = true
			ex.cond.Broadcast()
			panic(pathEnd{"violation"})
		}
	}
}

func NewExplorer(prog *Program, h *CFunc, name string, cfg Config) *Explorer {
	ex := &Explorer{prog: prog, harness: h, hname: name, cfg: cfg, nodes: map[uint64]uint32{}, unsupp: map[string]int{}, incomplete: map[string]int{}, reached: map[string]int{}, encoded: map[string]bool{}, abortWhy: map[string]int{}, nfork: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.pkg = h.fn.Pkg
	return ex
}

func (ex *Explorer) Run() {
	ex.queue = []Task{{nil, Model{}}}
	ex.deadline = time.Now().Add(ex.cfg.Timeout)
	var wg sync.WaitGroup
	stopTimer := time.AfterFunc(ex.cfg.Timeout, func() {
		ex.mu.Lock()
		if len(ex.queue) > 0 || ex.active > 0 {
			ex.timedOut = true
		}
		ex.stop = true
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	defer stopTimer.Stop()
	for i := 0; i < ex.cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.worker(i)
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) worker(id int) {
	// lazily create: most harnesses have few paths
	var e *Engine
	defer func() {
		if e == nil {
			return
		}
		ex.mu.Lock()
		ex.steps += e.totalSteps
		ex.queries += e.sol.queries
		ex.sats += e.sol.sats
		ex.unsats += e.sol.unsats
		ex.unknowns += e.sol.unk
		ex.solverTime += e.sol.time
		ex.asserts += e.asserts
		ex.terms += e.tt.n
		ex.mergeOK += e.mergeOK
		ex.mergeFail += e.mergeFail
		ex.solverErrs = append(ex.solverErrs, e.sol.errs...)
		for k, v := range e.abortWhy {
			ex.abortWhy[k] += v
		}
		for k, v := range e.nfork {
			ex.nfork[k] += v
		}
		if e.sol.slow > ex.slowest {
			ex.slowest = e.sol.slow
		}
		for f := range e.encoded {
			ex.encoded[f.name] = true
		}
		ex.mu.Unlock()
		e.sol.Close()
	}()
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && ex.active > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || (len(ex.queue) == 0 && ex.active == 0) {
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		t := ex.queue[len(ex.queue)-1]
		ex.queue = ex.queue[:len(ex.queue)-1]
		ex.active++
		ex.mu.Unlock()
		if e == nil {
			e = newEngine(ex)
			e.initPackages(ex.pkg)
		}
		if e.tt.n > 3000000 {
			e.resetTerms()
		}
		e.runPath(t)
		ex.mu.Lock()
		ex.active--
		if ex.cfg.MaxPaths > 0 && ex.paths >= ex.cfg.MaxPaths && !ex.stop {
			ex.stop = true
			if len(ex.queue) > 0 || ex.active > 0 {
				ex.incomplete["path limit"]++
			}
		}
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}
}

func (e *Engine) resetTerms() {
	// counters survive; tables do not
	q, s, u, k, t, sl, er := e.sol.queries, e.sol.sats, e.sol.unsats, e.sol.unk, e.sol.time, e.sol.slow, e.sol.errs
	e.sol.Close()
	e.tt = NewTT()
	e.sol = NewSolver(e.tt)
	e.sol.queries, e.sol.sats, e.sol.unsats, e.sol.unk, e.sol.time, e.sol.slow, e.sol.errs = q, s, u, k, t, sl, er
}

func (e *Engine) runPath(t Task) {
	e.prefix, e.dec, e.pc = t.prefix, nil, nil
	e.model = t.model
	e.spec = nil
	e.sims, e.sweepRep = nil, nil
	e.mergeOn = true
	e.depth, e.steps = 0, 0
	e.stepLimit = e.ex.cfg.StepLimit
	e.allocLimit = e.ex.cfg.AllocLimit
	e.raceOn = false
	e.shadow = nil
	e.names = map[string]int{}
	e.inputs = nil
	e.choices = map[string]uint64{}
	e.obs = nil
	e.reached = map[string]bool{}
	e.wgs, e.locks, e.onces = map[string]*wgState{}, map[string]*lockState{}, map[string]bool{}
	e.killing = false
	e.pending = nil
	e.preempt = true
	e.sp, e.hash, e.hashLen, e.ops, e.opRoot, e.opMix = nil, 14695981039346656037, 0, nil, nil, map[interface{}]bool{}
	e.objID, e.chanID = e.baseObj, e.baseChan
	g := &G{id: 0, wake: make(chan struct{}, 1), vc: VC{1}}
	e.cur = g
	e.gs = []*G{g}

	why := e.protect(func() {
		e.callFn(e.ex.harness, nil, nil)
	})
	e.killAll()
	e.restoreBase()
	e.totalSteps += int64(e.steps)
	ex := e.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.paths++
	if len(e.dec) > ex.maxDec {
		ex.maxDec = len(e.dec)
	}
	switch {
	case why == "" || strings.HasPrefix(why, "done"):
		for k := range e.reached {
			ex.reached[k]++
		}
		if len(ex.pathModels) < ex.cfg.KeepModels {
			pm := PathModel{Assign: e.assignment(), Choices: e.choiceCopy(), Multi: len(e.gs) > 1}
			ts := make([]*Term, len(e.obs))
			for i, o := range e.obs {
				ts[i] = o.t
			}
			for i, v := range e.tt.EvalAll(ts, e.model) {
				pm.Obs = append(pm.Obs, fmt.Sprintf("%s=%d", e.obs[i].label, v))
			}
			ex.pathModels = append(ex.pathModels, pm)
		}
	case strings.HasPrefix(why, "unsupported"):
		ex.unsupp[why]++
	default:
		ex.pruned++
	}
}

// protect runs f as (part of) a path and classifies how it ended.
func (e *Engine) protect(f func()) (why string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		func() {
			defer func() {
				if r2 := recover(); r2 != nil {
					if pe, ok := r2.(pathEnd); ok {
						why = pe.why
						return
					}
					panic(r2)
				}
			}()
			why = e.classify(r)
		}()
	}()
	f()
	return "done"
}

func (e *Engine) classify(r interface{}) string {
	switch x := r.(type) {
	case pathEnd:
		return x.why
	case unsupportedErr:
		return "unsupported: " + x.msg + " at " + e.where()
	case *GoPanic:
		e.spec = nil
		v := e.newViol("panic", x.msg, x.where)
		e.ex.report(v)
		return "panic"
	case stepLimitErr:
		v := e.newViol("nontermination", "no progress within the step bound", x.where)
		e.ex.report(v)
		return "step limit"
	case deadlock:
		v := e.newViol("deadlock", "all goroutines blocked", e.where())
		e.ex.report(v)
		return "deadlock"
	case specAbort:
		return "unsupported: stray speculation abort " + x.why
	case killG:
		return "killed"
	}
	if e.ex.cfg.Verbose > 0 {
		fmt.Fprintf(os.Stderr, "internal error: %v\n%s\n", r, debug.Stack())
	}
	return fmt.Sprintf("unsupported: internal: %v at %s", r, e.where())
}

// ---- package initialisation ----

var initAllow = map[string]bool{
	"errors": false, "io": true, "bytes": true, "bufio": true, "image": true, "image/color": true,
	"strings": true, "strconv": true, "unicode/utf8": true, "math/bits": true, "encoding/binary": true,
	"io/ioutil": true, "io/fs": true, "sort": true, "slices": true, "math": false, "context": true, "hash/crc32": false,
	"internal/oserror": true, "iter": true, "maps": true, "cmp": true, "sync": false, "internal/bytealg": false, "unicode": false,
	"errors_": true, "container/list": true, "container/ring": true, "encoding/hex": true, "encoding/base64": true, "sync/atomic": false,
	"container/heap": true, "hash": true, "unique": false, "internal/itoa": true, "internal/byteorder": true, "syscall": false,
}

func (e *Engine) initPackages(pkg *ssa.Package) {
	e.initing = true
	e.stepLimit = 1 << 40
	e.mergeOn = false
	g := &G{id: 0, wake: make(chan struct{}, 1), vc: VC{1}}
	e.cur = g
	e.gs = []*G{g}
	e.names = map[string]int{}
	e.model = Model{}
	e.wgs, e.locks, e.onces = map[string]*wgState{}, map[string]*lockState{}, map[string]bool{}
	seen := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		imps := p.Pkg.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, im := range imps {
			visit(e.prog.prog.Package(im))
		}
		path := p.Pkg.Path()
		if !initAllow[path] && !strings.HasPrefix(path, "github.com/32bitkid/") {
			return
		}
		if strings.Contains(path, "/clog") {
			return
		}
		e.initDone[p] = true
		fn := p.Func("init")
		if fn == nil {
			return
		}
		e.runInit(p, fn)
	}
	visit(pkg)
	e.initing = false
	e.baseObj, e.baseChan = e.objID, e.chanID
	e.pc, e.dec = nil, nil
}

// runInit interprets a package initialiser. Calls to the initialisers of
// imported packages inside it are skipped by the init guard (already true).
func (e *Engine) runInit(p *ssa.Package, fn *ssa.Function) {
	why := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				why = fmt.Sprint(r)
				if gp, ok := r.(*GoPanic); ok {
					why = gp.msg
				}
				if u, ok := r.(unsupportedErr); ok {
					why = u.msg
				}
				if _, isrt := r.(runtime.Error); isrt && e.ex.cfg.Verbose > 2 {
					debug.PrintStack()
				}
			}
		}()
		e.callFn(e.prog.Func(fn), nil, nil)
	}()
	if why != "" {
		// its globals are unusable: reading one is unsupported
		for g := range e.globals {
			if g.Pkg == p {
				delete(e.globals, g)
			}
		}
		delete(e.initDone, p)
		if e.ex.cfg.Verbose > 0 || strings.Contains(p.Pkg.Path(), "32bitkid") {
			fmt.Fprintln(os.Stderr, "init of "+p.Pkg.Path()+": "+why)
		}
	}
	if why != "" && strings.Contains(p.Pkg.Path(), "32bitkid") {
		e.noteIncomplete("init of " + p.Pkg.Path() + ": " + why)
	}
}

var _ = types.Identical

func (e *Engine) newViol(kind, label, where string) *Violation {
	return &Violation{Harness: e.ex.hname, Kind: kind, Label: label, Where: where, Assign: e.assignment(), Choices: e.choiceCopy(), multi: len(e.gs) > 1}
}
