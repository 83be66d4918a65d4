package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Verdict int

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

func (v Verdict) String() string { return [...]string{"unknown", "sat", "unsat"}[v] }

// Model assigns exact values to leaves (variables and UF applications).
type Model struct {
	iv map[int]*big.Int
	bv map[int]bool
	rv map[int]*big.Rat
}

func NewModel() *Model {
	return &Model{map[int]*big.Int{}, map[int]bool{}, map[int]*big.Rat{}}
}

// ---- exact evaluation under a model

type evalr struct {
	c     *Ctx
	m     *Model
	iv    map[int]*big.Int
	bv    map[int]int8
	rv    map[int]*big.Rat
	exact bool // use true functions for UFs where available
	bad   bool // something could not be evaluated
}

func (c *Ctx) evaluator(m *Model, exact bool) *evalr {
	return &evalr{c: c, m: m, iv: map[int]*big.Int{}, bv: map[int]int8{}, rv: map[int]*big.Rat{}, exact: exact}
}

func (e *evalr) Int(t *Term) *big.Int {
	if t.op == OConst {
		return t.c
	}
	if v, ok := e.iv[t.id]; ok {
		return v
	}
	var v *big.Int
	switch t.op {
	case OVar:
		v = e.m.iv[t.id]
		if v == nil {
			v = bi0
			if t.lo != nil && v.Cmp(t.lo) < 0 {
				v = t.lo
			} else if t.hi != nil && v.Cmp(t.hi) > 0 {
				v = t.hi
			}
		}
	case OUF:
		if f, ok := e.c.trueUF[t.name]; ok && e.exact {
			var as []*big.Int
			for _, a := range t.args {
				as = append(as, e.Int(a))
			}
			v = f(as)
		}
		if v == nil {
			v = e.m.iv[t.id]
		}
		if v == nil {
			if f, ok := e.c.trueUF[t.name]; ok {
				var as []*big.Int
				for _, a := range t.args {
					as = append(as, e.Int(a))
				}
				v = f(as)
			}
		}
		if v == nil {
			v = bi0
			if t.lo != nil {
				v = t.lo
			}
			e.bad = true
		}
	case OPoly:
		s := new(big.Int).Set(t.c)
		for _, m := range t.monos {
			p := new(big.Int).Set(m.c)
			for _, a := range m.a {
				p.Mul(p, e.Int(a))
			}
			s.Add(s, p)
		}
		v = s
	case ODiv:
		n, d := e.Int(t.args[0]), e.Int(t.args[1])
		if d.Sign() <= 0 {
			v = bi0
		} else {
			v = bfdiv(n, d)
		}
	case OIte:
		if e.Bool(t.args[0]) {
			v = e.Int(t.args[1])
		} else {
			v = e.Int(t.args[2])
		}
	case OBAnd, OBOr, OBXor:
		a, b := e.Int(t.args[0]), e.Int(t.args[1])
		v = new(big.Int)
		switch t.op {
		case OBAnd:
			v.And(a, b)
		case OBOr:
			v.Or(a, b)
		default:
			v.Xor(a, b)
		}
	case OPow2:
		s := e.Int(t.args[0])
		if s.Sign() < 0 || s.BitLen() > 16 {
			v = bi1
		} else {
			v = pow2(int(s.Int64()))
		}
	case OFloor:
		r := e.Real(t.args[0])
		v = bfdiv(r.Num(), r.Denom())
	default:
		panic("evalInt op " + t.String())
	}
	e.iv[t.id] = v
	return v
}

func (e *evalr) Real(t *Term) *big.Rat {
	if v, ok := e.rv[t.id]; ok {
		return v
	}
	var v *big.Rat
	switch t.op {
	case ORConst:
		v = t.r
	case OToReal:
		v = new(big.Rat).SetInt(e.Int(t.args[0]))
	case ORAdd:
		v = new(big.Rat).Add(e.Real(t.args[0]), e.Real(t.args[1]))
	case ORMul:
		v = new(big.Rat).Mul(e.Real(t.args[0]), e.Real(t.args[1]))
	case ORDiv:
		d := e.Real(t.args[1])
		if d.Sign() == 0 {
			v = new(big.Rat)
		} else {
			v = new(big.Rat).Quo(e.Real(t.args[0]), d)
		}
	case OIte:
		if e.Bool(t.args[0]) {
			v = e.Real(t.args[1])
		} else {
			v = e.Real(t.args[2])
		}
	default:
		if t.op == OUF && t.name == "rnd" && (e.exact || e.m.rv[t.id] == nil) {
			v = roundRat(e.Real(t.args[0]))
			break
		}
		if t.op == OUF && e.exact {
			if v = e.floatFn(t); v != nil {
				break
			}
		}
		v = e.m.rv[t.id]
		if v == nil {
			v = new(big.Rat)
		}
	}
	e.rv[t.id] = v
	return v
}

func (e *evalr) Bool(t *Term) bool {
	switch t.op {
	case OTrue:
		return true
	case OFalse:
		return false
	}
	if v, ok := e.bv[t.id]; ok {
		return v == 1
	}
	var v bool
	switch t.op {
	case OVar, OUF:
		v = e.m.bv[t.id]
	case ONot:
		v = !e.Bool(t.args[0])
	case OAnd:
		v = true
		for _, a := range t.args {
			if !e.Bool(a) {
				v = false
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if e.Bool(a) {
				v = true
				break
			}
		}
	case OGe0:
		v = e.Int(t.args[0]).Sign() >= 0
	case OEq0:
		v = e.Int(t.args[0]).Sign() == 0
	case ORLe:
		v = e.Real(t.args[0]).Cmp(e.Real(t.args[1])) <= 0
	case ORLt:
		v = e.Real(t.args[0]).Cmp(e.Real(t.args[1])) < 0
	case OREq:
		v = e.Real(t.args[0]).Cmp(e.Real(t.args[1])) == 0
	default:
		panic("evalBool op " + t.String())
	}
	if v {
		e.bv[t.id] = 1
	} else {
		e.bv[t.id] = 0
	}
	return v
}

// ---- SMT-LIB emission

type emitOpt struct {
	eqDiv   bool // q*d + r = n form instead of inequalities
	noRange bool
}

type emitter struct {
	c     *Ctx
	out   strings.Builder
	done  map[int]bool
	leafs []*Term
	ufs   map[string][]*Term
	pows  []*Term
	bits  []*Term
	opt   emitOpt
	real  bool
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}
func smtRat(r *big.Rat) string {
	n := smtInt(r.Num())
	if strings.HasPrefix(n, "(") {
		n = "(- " + new(big.Int).Neg(r.Num()).String() + ".0)"
	} else {
		n += ".0"
	}
	return "(/ " + n + " " + r.Denom().String() + ".0)"
}

func (e *emitter) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtInt(t.c)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ORConst:
		return smtRat(t.r)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (e *emitter) bounds(t *Term, guard string) {
	w := func(s string) {
		if guard != "" {
			fmt.Fprintf(&e.out, "(assert (=> %s %s))\n", guard, s)
		} else {
			fmt.Fprintf(&e.out, "(assert %s)\n", s)
		}
	}
	if t.lo != nil {
		w(fmt.Sprintf("(<= %s t%d)", smtInt(t.lo), t.id))
	}
	if t.hi != nil {
		w(fmt.Sprintf("(<= t%d %s)", t.id, smtInt(t.hi)))
	}
}

func (e *emitter) emit(t *Term) {
	if e.done[t.id] || t.op == OConst || t.op == OTrue || t.op == OFalse || t.op == ORConst {
		return
	}
	e.done[t.id] = true
	for _, a := range t.args {
		e.emit(a)
	}
	for _, m := range t.monos {
		for _, a := range m.a {
			e.emit(a)
		}
	}
	sn := [...]string{"Int", "Bool", "Real"}[t.sort]
	if t.sort == SReal {
		e.real = true
	}
	def := func(body string) {
		fmt.Fprintf(&e.out, "(define-fun t%d () %s %s)\n", t.id, sn, body)
	}
	switch t.op {
	case OVar:
		fmt.Fprintf(&e.out, "(declare-const t%d %s)\n", t.id, sn)
		if t.sort == SInt {
			e.bounds(t, "")
		}
		e.leafs = append(e.leafs, t)
	case OUF:
		fmt.Fprintf(&e.out, "(declare-const t%d %s)\n", t.id, sn)
		if t.sort == SInt {
			e.bounds(t, "")
		}
		e.leafs = append(e.leafs, t)
		e.ufs[t.name] = append(e.ufs[t.name], t)
	case OPoly:
		var parts []string
		for _, m := range t.monos {
			var fs []string
			if m.c.Cmp(bi1) != 0 {
				fs = append(fs, smtInt(m.c))
			}
			for _, a := range m.a {
				fs = append(fs, e.ref(a))
			}
			if len(fs) == 1 {
				parts = append(parts, fs[0])
			} else {
				parts = append(parts, "(* "+strings.Join(fs, " ")+")")
			}
		}
		if t.c.Sign() != 0 {
			parts = append(parts, smtInt(t.c))
		}
		if len(parts) == 1 {
			def(parts[0])
		} else {
			def("(+ " + strings.Join(parts, " ") + ")")
		}
	case ODiv:
		n, d := t.args[0], t.args[1]
		fmt.Fprintf(&e.out, "(declare-const t%d Int)\n", t.id)
		guard := ""
		if !d.pos() {
			guard = fmt.Sprintf("(> %s 0)", e.ref(d))
		}
		w := func(s string) {
			if guard != "" {
				fmt.Fprintf(&e.out, "(assert (=> %s %s))\n", guard, s)
			} else {
				fmt.Fprintf(&e.out, "(assert %s)\n", s)
			}
		}
		if e.opt.eqDiv {
			fmt.Fprintf(&e.out, "(declare-const r%d Int)\n(assert (<= 0 r%d))\n", t.id, t.id)
			w(fmt.Sprintf("(= %s (+ (* %s t%d) r%d))", e.ref(n), e.ref(d), t.id, t.id))
			w(fmt.Sprintf("(< r%d %s)", t.id, e.ref(d)))
		} else {
			w(fmt.Sprintf("(<= (* %s t%d) %s)", e.ref(d), t.id, e.ref(n)))
			w(fmt.Sprintf("(< %s (+ (* %s t%d) %s))", e.ref(n), e.ref(d), t.id, e.ref(d)))
		}
		e.bounds(t, guard)
	case OIte:
		def(fmt.Sprintf("(ite %s %s %s)", e.ref(t.args[0]), e.ref(t.args[1]), e.ref(t.args[2])))
	case OBAnd, OBOr, OBXor:
		fmt.Fprintf(&e.out, "(declare-const t%d Int)\n", t.id)
		e.bounds(t, "")
		x, y := e.ref(t.args[0]), e.ref(t.args[1])
		switch t.op {
		case OBAnd:
			fmt.Fprintf(&e.out, "(assert (<= t%d %s))\n(assert (<= t%d %s))\n", t.id, x, t.id, y)
		case OBOr:
			fmt.Fprintf(&e.out, "(assert (>= t%d %s))\n(assert (>= t%d %s))\n(assert (<= t%d (+ %s %s)))\n", t.id, x, t.id, y, t.id, x, y)
		case OBXor:
			fmt.Fprintf(&e.out, "(assert (<= t%d (+ %s %s)))\n(assert (= (= t%d 0) (= %s %s)))\n", t.id, x, y, t.id, x, y)
		}
		e.bits = append(e.bits, t)
	case OPow2:
		fmt.Fprintf(&e.out, "(declare-const t%d Int)\n", t.id)
		e.bounds(t, "")
		e.pows = append(e.pows, t)
	case OFloor:
		def(fmt.Sprintf("(to_int %s)", e.ref(t.args[0])))
	case OToReal:
		def(fmt.Sprintf("(to_real %s)", e.ref(t.args[0])))
	case ORAdd:
		def(fmt.Sprintf("(+ %s %s)", e.ref(t.args[0]), e.ref(t.args[1])))
	case ORMul:
		def(fmt.Sprintf("(* %s %s)", e.ref(t.args[0]), e.ref(t.args[1])))
	case ORDiv:
		def(fmt.Sprintf("(/ %s %s)", e.ref(t.args[0]), e.ref(t.args[1])))
	case ONot:
		def(fmt.Sprintf("(not %s)", e.ref(t.args[0])))
	case OAnd, OOr:
		var p []string
		for _, a := range t.args {
			p = append(p, e.ref(a))
		}
		op := "and"
		if t.op == OOr {
			op = "or"
		}
		def("(" + op + " " + strings.Join(p, " ") + ")")
	case OGe0:
		def(fmt.Sprintf("(>= %s 0)", e.ref(t.args[0])))
	case OEq0:
		def(fmt.Sprintf("(= %s 0)", e.ref(t.args[0])))
	case ORLe, ORLt, OREq:
		op := map[Op]string{ORLe: "<=", ORLt: "<", OREq: "="}[t.op]
		def(fmt.Sprintf("(%s %s %s)", op, e.ref(t.args[0]), e.ref(t.args[1])))
	default:
		panic("emit op")
	}
}

// Axiom generators for named functions: called with all applications that
// occur in a query, return extra assertions (as terms) about them.
type axiomGen func(c *Ctx, apps []*Term) []*Term

func (c *Ctx) query(asserts []*Term, axioms map[string]axiomGen, opt emitOpt) (string, []*Term) {
	e := &emitter{c: c, done: map[int]bool{}, ufs: map[string][]*Term{}, opt: opt}
	for _, a := range asserts {
		e.emit(a)
	}
	var extra []*Term
	var names []string
	for n := range e.ufs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		apps := append([]*Term(nil), e.ufs[n]...)
		if g, ok := axioms[n]; ok {
			extra = append(extra, g(c, apps)...)
			continue
		}
		// functional congruence
		for i := range apps {
			for j := 0; j < i; j++ {
				var eqs []*Term
				for k := range apps[i].args {
					eqs = append(eqs, c.Eq(apps[i].args[k], apps[j].args[k]))
				}
				extra = append(extra, c.Implies(c.And(eqs...), c.Eq(apps[i], apps[j])))
			}
		}
	}
	for i, p := range e.pows {
		for j := 0; j < i; j++ {
			q := e.pows[j]
			extra = append(extra, c.Iff(c.Lt(p.args[0], q.args[0]), c.Lt(p, q)), c.Iff(c.Eq(p.args[0], q.args[0]), c.Eq(p, q)),
				c.Implies(c.Lt(p.args[0], q.args[0]), c.Le(c.Scale(p, bi(2)), q)),
				c.Implies(c.Lt(q.args[0], p.args[0]), c.Le(c.Scale(q, bi(2)), p)))
		}
		// case table for small exponent ranges
		s := p.args[0]
		if s.lo != nil && s.hi != nil && new(big.Int).Sub(s.hi, s.lo).Cmp(bi(300)) < 0 {
			var cs []*Term
			for v := s.lo.Int64(); v <= s.hi.Int64(); v++ {
				cs = append(cs, c.And(c.Eq(s, c.I(v)), c.Eq(p, c.Int(pow2(int(v))))))
			}
			extra = append(extra, c.Or(cs...))
		}
	}
	for _, x := range extra {
		e.emit(x)
	}
	for _, a := range asserts {
		fmt.Fprintf(&e.out, "(assert %s)\n", e.ref(a))
	}
	for _, a := range extra {
		if a.op != OTrue {
			fmt.Fprintf(&e.out, "(assert %s)\n", e.ref(a))
		}
	}
	return e.out.String(), e.leafs
}

// ---- solver processes

type solverProc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	kind string
	dead bool
}

func startSolver(kind string) (*solverProc, error) {
	var cmd *exec.Cmd
	switch kind {
	case "z3":
		cmd = exec.Command("z3", "-in", "-smt2", "memory_max_size=3000")
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", "-q")
	default:
		cmd = exec.Command("z3-new", "-in", "-smt2", "memory_max_size=3000")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), kind: kind}, nil
}

func (s *solverProc) kill() {
	s.dead = true
	s.in.Close()
	s.cmd.Process.Kill()
	go s.cmd.Wait()
}

type strategyT struct {
	name  string
	kind  string
	pre   string // options after reset
	check string
	opt   emitOpt
}

var strategies = []strategyT{
	{"z3", "z3n", "", "(check-sat)", emitOpt{}},
	{"z3eq", "z3n", "(set-option :smt.random_seed 7)\n", "(check-sat)", emitOpt{eqDiv: true}},
	{"z3s", "z3n", "(set-option :smt.random_seed 3)\n(set-option :smt.arith.nl.order true)\n", "(check-sat-using smt)", emitOpt{eqDiv: true}},
	{"cvc5", "cvc5", "", "(check-sat)", emitOpt{eqDiv: true}},
	{"z3nra", "z3n", "(set-option :smt.random_seed 11)\n(set-option :smt.arith.nl.gr_q 20)\n", "(check-sat)", emitOpt{}},
	{"z3old", "z3", "", "(check-sat)", emitOpt{eqDiv: true}},
}

type Solver struct {
	trace    func() string
	c        *Ctx
	axioms   map[string]axiomGen
	procs    map[string]*solverProc
	mu       sync.Mutex
	stats    *Stats
	axver    int
	cache    map[string]cacheEnt
	dump     string
	deadline time.Time
}

type cacheEnt struct {
	v Verdict
	m *Model
}

type Stats struct {
	Queries, SatN, UnsatN, UnknownN int64
	Time                            int64 // ns
	ErrLines                        int64
}

func NewSolver(c *Ctx, ax map[string]axiomGen, st *Stats) *Solver {
	return &Solver{c: c, axioms: ax, procs: map[string]*solverProc{}, stats: st, cache: map[string]cacheEnt{}}
}

func (s *Solver) Close() {
	for _, p := range s.procs {
		p.kill()
	}
	s.procs = map[string]*solverProc{}
}

var globalSem = make(chan struct{}, 8)

// run one strategy; abort closes to cancel
func (s *Solver) run1(st strategyT, slot string, q string, leafs []*Term, timeout time.Duration, abort <-chan struct{}) (Verdict, *Model) {
	key := st.kind + slot
	select {
	case globalSem <- struct{}{}:
	case <-abort:
		return Unknown, nil
	}
	defer func() { <-globalSem }()
	s.mu.Lock()
	p := s.procs[key]
	if p == nil || p.dead {
		var err error
		p, err = startSolver(st.kind)
		if err != nil {
			s.mu.Unlock()
			return Unknown, nil
		}
		s.procs[key] = p
	}
	s.mu.Unlock()
	var b strings.Builder
	b.WriteString("(reset)\n")
	if st.kind == "cvc5" {
		fmt.Fprintf(&b, "(set-option :tlimit-per %d)\n(set-logic ALL)\n", timeout.Milliseconds())
	} else {
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeout.Milliseconds())
		b.WriteString(st.pre)
	}
	b.WriteString(q)
	b.WriteString(st.check + "\n")
	b.WriteString("(echo \"@@\")\n")
	start := time.Now()
	type res struct {
		lines []string
		err   error
	}
	ch := make(chan res, 1)
	readUntil := func() {
		var ls []string
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{ls, err}
				return
			}
			l = strings.TrimSpace(l)
			if l == "@@" || l == "\"@@\"" {
				ch <- res{ls, nil}
				return
			}
			ls = append(ls, l)
		}
	}
	go func() {
		io.WriteString(p.in, b.String())
		readUntil()
	}()
	var r res
	select {
	case r = <-ch:
	case <-abort:
		p.kill()
		return Unknown, nil
	case <-time.After(timeout + 1500*time.Millisecond):
		p.kill()
		atomic.AddInt64(&s.stats.Time, int64(time.Since(start)))
		return Unknown, nil
	}
	atomic.AddInt64(&s.stats.Time, int64(time.Since(start)))
	if r.err != nil {
		p.kill()
		return Unknown, nil
	}
	v := Unknown
	for _, l := range r.lines {
		if strings.Contains(l, "(error") {
			atomic.AddInt64(&s.stats.ErrLines, 1)
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", st.name, l)
				os.WriteFile("/tmp/gosym_err.smt2", []byte(b.String()), 0644)
			}
			p.kill()
			return Unknown, nil
		}
		switch l {
		case "sat":
			v = Sat
		case "unsat":
			v = Unsat
		}
	}
	if v != Sat {
		return v, nil
	}
	m := NewModel()
	if len(leafs) == 0 {
		return Sat, m
	}
	var g strings.Builder
	g.WriteString("(get-value (")
	for _, l := range leafs {
		fmt.Fprintf(&g, "t%d ", l.id)
	}
	g.WriteString("))\n(echo \"@@\")\n")
	go func() {
		io.WriteString(p.in, g.String())
		readUntil()
	}()
	select {
	case r = <-ch:
	case <-time.After(5 * time.Second):
		p.kill()
		return Unknown, nil
	}
	if r.err != nil || !parseModel(strings.Join(r.lines, " "), leafs, m) {
		p.kill()
		return Unknown, nil
	}
	return Sat, m
}

func parseModel(s string, leafs []*Term, m *Model) bool {
	// ((t1 v) (t2 v) ...)
	toks := tokenize(s)
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return nil
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	top, ok := parse().([]interface{})
	if !ok {
		return false
	}
	byName := map[string]*Term{}
	for _, l := range leafs {
		byName[fmt.Sprintf("t%d", l.id)] = l
	}
	for _, e := range top {
		p, ok := e.([]interface{})
		if !ok || len(p) != 2 {
			return false
		}
		n, _ := p[0].(string)
		l := byName[n]
		if l == nil {
			return false
		}
		switch l.sort {
		case SBool:
			m.bv[l.id] = p[1] == "true"
		case SInt:
			r := sval(p[1])
			if r == nil || !r.IsInt() {
				return false
			}
			m.iv[l.id] = new(big.Int).Set(r.Num())
		case SReal:
			r := sval(p[1])
			if r == nil {
				return false
			}
			m.rv[l.id] = r
		}
	}
	return true
}

func sval(x interface{}) *big.Rat {
	switch v := x.(type) {
	case string:
		r, ok := new(big.Rat).SetString(v)
		if !ok {
			return nil
		}
		return r
	case []interface{}:
		if len(v) == 2 && v[0] == "-" {
			r := sval(v[1])
			if r == nil {
				return nil
			}
			return new(big.Rat).Neg(r)
		}
		if len(v) == 3 && v[0] == "/" {
			a, b := sval(v[1]), sval(v[2])
			if a == nil || b == nil || b.Sign() == 0 {
				return nil
			}
			return new(big.Rat).Quo(a, b)
		}
	}
	return nil
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func keyOf(as []*Term) string {
	ids := make([]int, 0, len(as))
	for _, a := range as {
		ids = append(ids, a.id)
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

// slice keeps the assertions transitively sharing leaves with the roots.
func slice(hyps []*Term, roots []*Term) []*Term {
	need := map[int]bool{}
	for _, r := range roots {
		for k := range r.leafSet() {
			need[k] = true
		}
	}
	used := make([]bool, len(hyps))
	for ch := true; ch; {
		ch = false
		for i, h := range hyps {
			if used[i] {
				continue
			}
			ls := h.leafSet()
			hit := len(ls) == 0
			for k := range ls {
				if need[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for k := range ls {
					need[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, h := range hyps {
		if used[i] {
			out = append(out, h)
		}
	}
	return out
}

var xcheck = os.Getenv("GOSYM_XCHECK") != ""
var xagree int64

// Check decides satisfiability of hyps ∧ goals.  quick: first strategy only.
func (s *Solver) Check(hyps, goals []*Term, timeout time.Duration, quick bool) (Verdict, *Model) {
	for _, g := range goals {
		if g.op == OFalse {
			return Unsat, nil
		}
	}
	var as []*Term
	seen := map[int]bool{}
	for _, t := range append(append([]*Term(nil), goals...), slice(hyps, goals)...) {
		if t.op == OTrue || seen[t.id] {
			continue
		}
		seen[t.id] = true
		as = append(as, t)
	}
	if len(as) == 0 {
		return Sat, NewModel()
	}
	k := fmt.Sprint(s.axver) + keyOf(as)
	if e, ok := s.cache[k]; ok && (e.v != Unknown || quick) {
		return e.v, e.m
	}
	atomic.AddInt64(&s.stats.Queries, 1)
	var v Verdict
	var m *Model
	if s.trace != nil {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintf(os.Stderr, "SLOW %.1fs %v quick=%v n=%d %s goal %.300s\n", d.Seconds(), v, quick, len(as), s.trace(), goals[0].String())
			}
		}()
	}
	ps := s.c.presolve(as)
	if xcheck && (ps.unsat || len(ps.subs) > 0) {
		// self-check: the reduced and the original assertions agree
		q, l := s.c.query(as, s.axioms, strategies[0].opt)
		ov, _ := s.run1(strategies[0], "x", q, l, 2*time.Second, nil)
		nv := Unsat
		if !ps.unsat {
			q, l = s.c.query(ps.as, s.axioms, strategies[0].opt)
			nv, _ = s.run1(strategies[0], "x", q, l, 2*time.Second, nil)
		}
		if ov != Unknown && nv != Unknown && ov != nv {
			fmt.Fprintln(os.Stderr, "XCHECK MISMATCH original", ov, "reduced", nv)
			for _, a := range as {
				fmt.Fprintln(os.Stderr, "   ", a)
			}
		} else if ov == nv {
			atomic.AddInt64(&xagree, 1)
		}
	}
	if ps.unsat {
		atomic.AddInt64(&s.stats.UnsatN, 1)
		s.cache[k] = cacheEnt{Unsat, nil}
		return Unsat, nil
	}
	as = ps.as
	q0, l0 := s.c.query(as, s.axioms, strategies[0].opt)
	if len(as) == 0 {
		v, m = Sat, NewModel()
	} else if quick {
		v, m = s.run1(strategies[0], "", q0, l0, timeout, nil)
	} else {
		// staged: quick attempt, then portfolio
		t0 := timeout
		if t0 > 3*time.Second {
			t0 = 3 * time.Second
		}
		v, m = s.run1(strategies[0], "", q0, l0, t0, nil)
		if v == Unknown && timeout > t0 {
			type rr struct {
				v Verdict
				m *Model
			}
			abort := make(chan struct{})
			ch := make(chan rr, len(strategies))
			q1, l1 := s.c.query(as, s.axioms, emitOpt{eqDiv: true})
			for i, st := range strategies {
				go func(i int, st strategyT) {
					q, l := q0, l0
					if st.opt.eqDiv {
						q, l = q1, l1
					}
					v, m := s.run1(st, fmt.Sprintf("#%d", i), q, l, timeout, abort)
					ch <- rr{v, m}
				}(i, st)
			}
			for range strategies {
				r := <-ch
				if r.v != Unknown {
					v, m = r.v, r.m
					break
				}
			}
			close(abort)
		}
	}
	m = ps.back(s.c, m)
	switch v {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
		if d := os.Getenv("GOSYM_DUMP"); d != "" {
			q, _ := s.c.query(as, s.axioms, emitOpt{})
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, atomic.LoadInt64(&s.stats.Queries)), []byte(q+"(check-sat)\n"), 0644)
		}
	}
	s.cache[k] = cacheEnt{v, m}
	return v, m
}
