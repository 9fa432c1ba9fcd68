package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Sat int

const (
	Unknown Sat = iota
	SatYes
	SatNo
)

// Solver is one z3 process fed with definitions incrementally.
type Solver struct {
	tt      *TT
	cmd     *exec.Cmd
	in      io.WriteCloser
	w       *bufio.Writer
	out     *bufio.Reader
	nvars   int
	printed map[*Term]bool
	queries int
	sats    int
	unsats  int
	unk     int
	time    time.Duration
	cache   map[string]cacheEnt
	slow    time.Duration
	dead    bool
	errs    []string
	dump    io.Writer
	nprint  int
}

type cacheEnt struct {
	r Sat
	m Model
}

func NewSolver(tt *TT) *Solver {
	s := &Solver{tt: tt, cache: map[string]cacheEnt{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.printed = map[*Term]bool{}
	s.nprint = 0
	s.emit("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) emit(x string) {
	if s.dump != nil {
		io.WriteString(s.dump, x)
	}
	s.w.WriteString(x)
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func bvc(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		return bvc(t.val, t.w)
	}
	return "t" + strconv.Itoa(t.x.id)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || s.printed[t] {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.x.args) {
			a := f.t.x.args[f.i]
			f.i++
			if a.op != OpConst && !s.printed[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		u := f.t
		st = st[:len(st)-1]
		if s.printed[u] {
			continue
		}
		s.printed[u] = true
		s.nprint++
		if u.op == OpVar {
			s.emit("(declare-const t" + strconv.Itoa(u.x.id) + " " + sortOf(u.w) + ")\n")
			continue
		}
		s.emit("(define-fun t" + strconv.Itoa(u.x.id) + " () " + sortOf(u.w) + " " + s.expr(u) + ")\n")
	}
}

func (s *Solver) expr(u *Term) string {
	a := u.x.args
	var sb strings.Builder
	switch u.op {
	case OpLin:
		n := len(a)
		if u.val != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(bvadd")
		}
		for i, p := range a {
			if n > 1 {
				sb.WriteByte(' ')
			}
			c := u.x.coef[i]
			switch {
			case c == 1:
				sb.WriteString(s.ref(p))
			case c == mask(u.w):
				sb.WriteString("(bvneg " + s.ref(p) + ")")
			default:
				sb.WriteString("(bvmul " + bvc(c, u.w) + " " + s.ref(p) + ")")
			}
		}
		if u.val != 0 {
			if n > 1 {
				sb.WriteByte(' ')
			}
			sb.WriteString(bvc(u.val, u.w))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", u.val+uint64(u.w)-1, u.val, s.ref(a[0]))
	case OpSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", u.w-a[0].w, s.ref(a[0]))
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[u.op])
		for _, p := range a {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(p))
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

// Check decides the conjunction of cs. The model covers the variables in cs.
func (s *Solver) Check(cs []*Term, timeout time.Duration) (Sat, Model) {
	for _, c := range cs {
		if c.IsConst() && c.val == 0 {
			return SatNo, nil
		}
	}
	if s.nprint > 400000 {
		s.restart()
	}
	key := make([]byte, 0, len(cs)*4)
	for _, c := range cs {
		if !c.IsConst() {
			id := c.x.id
			key = append(key, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
		}
	}
	if e, ok := s.cache[string(key)]; ok {
		return e.r, e.m
	}
	r, m := s.check(cs, timeout)
	if r != Unknown {
		s.cache[string(key)] = cacheEnt{r, m}
	}
	return r, m
}

func (s *Solver) check(cs []*Term, timeout time.Duration) (Sat, Model) {
	start := time.Now()
	defer func() {
		d := time.Since(start)
		s.time += d
		if d > s.slow {
			s.slow = d
		}
	}()
	s.queries++
	vs := s.tt.empty
	for _, c := range cs {
		s.define(c)
		vs = s.tt.vsUnion(vs, c.varset(s.tt))
	}
	fmt.Fprintf(s.w, "(set-option :timeout %d)\n", timeout.Milliseconds())
	s.emit("(push 1)\n")
	for _, c := range cs {
		if !c.IsConst() {
			s.emit("(assert " + s.ref(c) + ")\n")
		}
	}
	s.emit("(check-sat)\n(echo \"--\")\n")
	s.w.Flush()
	lines, ok := s.readUntil(timeout + 20*time.Second)
	res := Unknown
	for _, l := range lines {
		switch {
		case l == "sat":
			res = SatYes
		case l == "unsat":
			res = SatNo
		case strings.HasPrefix(l, "(error"):
			s.errs = append(s.errs, l)
			res = Unknown
			ok = false
		}
	}
	if !ok {
		s.unk++
		s.restart()
		return Unknown, nil
	}
	var m Model
	if res == SatYes {
		m = Model{}
		if len(vs.ids) > 0 {
			s.w.WriteString("(get-value (")
			for _, id := range vs.ids {
				s.w.WriteString(" " + s.ref(s.tt.vars[id]))
			}
			s.w.WriteString("))\n(echo \"--\")\n")
			s.w.Flush()
			ls, ok := s.readUntil(30 * time.Second)
			if !ok {
				s.unk++
				s.restart()
				return Unknown, nil
			}
			byRef := map[string]string{}
			for _, id := range vs.ids {
				v := s.tt.vars[id]
				byRef[s.ref(v)] = v.x.name
			}
			parseValues(strings.Join(ls, " "), byRef, m)
		}
	}
	s.emit("(pop 1)\n")
	switch res {
	case SatYes:
		s.sats++
	case SatNo:
		s.unsats++
	default:
		s.unk++
	}
	return res, m
}

func parseValues(txt string, byRef map[string]string, m Model) {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i < len(f); i++ {
		name, ok := byRef[f[i]]
		if !ok || i+1 >= len(f) {
			continue
		}
		v := f[i+1]
		switch {
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = x
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case v == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			x, _ := strconv.ParseUint(f[i+2][2:], 10, 64)
			m[name] = x
		}
		i++
	}
}

func (s *Solver) readUntil(d time.Duration) ([]string, bool) {
	timer := time.AfterFunc(d, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	var lines []string
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l == "--" {
			return lines, true
		}
		if l != "" {
			lines = append(lines, l)
		}
		if err != nil {
			return lines, false
		}
	}
}
