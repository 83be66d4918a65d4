package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- state

type fnInfo struct {
	slot map[ssa.Value]int
	n    int
}

type deferRec struct {
	fn   FuncV
	args []Value
	inv  *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	ret    ssa.Instruction // call instruction in the caller's frame (nil: top)
	try    bool
	budget int // >0: abort the call after this many steps
	start  int // step counter at entry
	minobj int
	forks  map[ssa.Instruction]int
	defers []deferRec
	cut    *cutFrame
	loop   *loopFrame
	fill   *fillFrame
}

// cutFrame is the loop-cut bookkeeping of one activation.
type cutFrame struct {
	uid   int
	hdr   *ssa.BasicBlock
	phase int // 0 idle, 1 arrived, 2 invariant asserted, 3 havocked
	back  bool
	npc   int
	heap  map[int]Value
	mod   map[int]bool
	entry map[int]Value
}

type inputRec struct {
	name string
	t    *Term
}

type State struct {
	heap   map[int]Value
	frames []*Frame
	pc     []*Term
	pcset  map[int]bool
	model  *Model
	ev     *evalr
	inputs []inputRec
	probes []inputRec
	names  map[string]int
	cons   map[string]bool
	steps  int
	done   bool
	status string
	unwind int
	merge  bool
	cutFns map[string]FuncV
	loops  map[string]loopReg
	fillK  *Term
	repl   map[string]FuncV
	file   *JsonV // contents of the file the program reads
	outs   []outFile
	dirs   []string
	depth  int // forks on this path
	id     int
}

func (st *State) clone() *State {
	o := &State{heap: make(map[int]Value, len(st.heap)+8), pcset: make(map[int]bool, len(st.pcset)+4), names: map[string]int{}, cons: map[string]bool{},
		model: st.model, ev: st.ev, steps: st.steps, unwind: st.unwind, merge: st.merge, cutFns: st.cutFns, loops: st.loops, fillK: st.fillK, repl: st.repl, file: st.file, outs: st.outs, dirs: st.dirs, depth: st.depth, status: st.status}
	for k, v := range st.heap {
		o.heap[k] = v
	}
	for k, v := range st.pcset {
		o.pcset[k] = v
	}
	for k, v := range st.names {
		o.names[k] = v
	}
	for k, v := range st.cons {
		o.cons[k] = v
	}
	o.pc = append([]*Term(nil), st.pc...)
	o.inputs = append([]inputRec(nil), st.inputs...)
	o.probes = append([]inputRec(nil), st.probes...)
	for _, f := range st.frames {
		g := *f
		g.env = append([]Value(nil), f.env...)
		g.forks = map[ssa.Instruction]int{}
		for k, v := range f.forks {
			g.forks[k] = v
		}
		g.defers = append([]deferRec(nil), f.defers...)
		if f.cut != nil {
			x := *f.cut
			g.cut = &x
		}
		if f.loop != nil {
			x := *f.loop
			g.loop = &x
		}
		if f.fill != nil {
			x := *f.fill
			g.fill = &x
		}
		o.frames = append(o.frames, &g)
	}
	return o
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// ---- engine

type Failure struct {
	Label   string
	Kind    string // assert | panic | confirmed...
	Inputs  map[string]string
	Order   []string
	Verdict string
	Path    string
	Note    string
}

type Witness struct {
	Label  string
	Inputs map[string]string
	Probes map[string]string
}

type AssertStat struct {
	Label                               string
	Syntactic, Solver, Failed, Unknown_ int
}

type Engine struct {
	size       int64 // terms built, for the memory guard
	kill       int32 // set by the memory guard
	c          *Ctx
	p          *Program
	sol        *Solver
	stats      *Stats
	exactF     bool          // floats are exact reals
	base       map[int]Value // initialised global memory
	globals    map[*ssa.Global]int
	inited     map[*ssa.Package]bool
	infos      map[*ssa.Function]*fnInfo
	nobj       int
	work       []*State
	later      []laterState
	funcs      map[string]int // module functions executed
	contr      map[string]int // contracts used
	asserts    map[string]*AssertStat
	aorder     []string
	reach      map[string]*Witness
	reachWant  map[string]bool
	cands      []*Failure
	errs       map[string]int
	cuts       map[string]int
	bounds     map[string]string
	paths      int
	nforks     int
	pruned     int
	nstate     int
	shard      int
	nshard     int // discovered
	dead       time.Time
	assertTO   time.Duration
	maxSteps   int
	stop       bool
	cegar      *cegarState
	tickUsed   bool
	axioms     map[string]axiomGen
	replay     func(inputs map[string]string) (string, error)
	harness    string
	maxCand    int
	perLabel   map[string]int
	known      map[string]bool
	instrs     int64
	fine       bool
	sideTO     time.Duration
	noReach    bool
	hintsTried int
	curDesc    string
	symDivPre  bool
	ncut       int
	cutSeen    map[string]bool
	noFork     int
	retries    int
	lamOn      bool
	nmerge     int
	ipd        map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
}

func NewEngine(p *Program) *Engine {
	e := &Engine{c: NewCtx(), p: p, stats: &Stats{}, base: map[int]Value{}, globals: map[*ssa.Global]int{}, inited: map[*ssa.Package]bool{},
		infos: map[*ssa.Function]*fnInfo{}, funcs: map[string]int{}, contr: map[string]int{}, asserts: map[string]*AssertStat{}, reach: map[string]*Witness{},
		reachWant: map[string]bool{}, errs: map[string]int{}, cuts: map[string]int{}, bounds: map[string]string{}, shard: -1, assertTO: 20 * time.Second,
		maxSteps: 400000, axioms: map[string]axiomGen{}, maxCand: 6, perLabel: map[string]int{}, sideTO: 1500 * time.Millisecond}
	e.setupUF()
	e.sol = NewSolver(e.c, e.axioms, e.stats)
	return e
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	if pk := fnPkg(fn); pk != nil {
		pk.Build() // waits for a build in progress
	}
	i := &fnInfo{slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.slot[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	e.infos[fn] = i
	return i
}

// ---- heap

func (e *Engine) alloc(st *State, v Value) int {
	e.nobj++
	st.heap[e.nobj] = v
	return e.nobj
}

func (e *Engine) getObj(st *State, id int) Value {
	if v, ok := st.heap[id]; ok {
		return v
	}
	if v, ok := e.base[id]; ok {
		return v
	}
	fail("dangling object %d", id)
	return nil
}

func (e *Engine) loadPtr(st *State, p Ptr) Value {
	v := e.getObj(st, p.obj)
	for _, i := range pathIdx(p.path) {
		v = e.elemOf(v, i)
	}
	if p.wlen > 0 {
		a := &Agg{make([]Value, p.wlen)}
		for i := range a.e {
			a.e[i] = e.elemOf(v, p.woff+i)
		}
		return a
	}
	return v
}

func (e *Engine) storePtr(st *State, p Ptr, nv Value) {
	old := e.getObj(st, p.obj)
	if _, ok := old.(Opaque); ok {
		return
	}
	if p.wlen > 0 {
		q := Ptr{obj: p.obj, path: p.path}
		for i := 0; i < p.wlen; i++ {
			e.storePtr(st, q.elem(p.woff+i), e.elemOf(nv, i))
		}
		return
	}
	if p.path == "" {
		st.heap[p.obj] = nv
		return
	}
	st.heap[p.obj] = e.setElem(old, pathIdx(p.path), nv)
}

// load through any pointer value; branches on nil
func (e *Engine) load(st *State, pv Value) Value {
	switch p := pv.(type) {
	case Ptr:
		if p.obj == 0 {
			e.gopanic(st, "nil dereference")
		}
		return e.loadPtr(st, p)
	case GPtr:
		q := e.resolve(st, p)
		return e.load(st, q)
	case MPtr:
		return e.loadM(st, p)
	case LamPtr:
		return e.lamLoad(st, p)
	case LamBox:
		return e.lamBoxLoad(st, p)
	case Opaque:
		return p
	}
	fail("load through %T", pv)
	return nil
}

// resolve a guarded pointer union to one alternative by branching
func (e *Engine) resolve(st *State, p GPtr) Ptr {
	for i, a := range p.alts {
		if i == len(p.alts)-1 {
			return a.p
		}
		if e.branch(st, a.g) {
			return a.p
		}
	}
	fail("empty pointer union")
	return Ptr{}
}

func (e *Engine) store(st *State, pv Value, v Value) {
	switch p := pv.(type) {
	case Ptr:
		if p.obj == 0 {
			e.gopanic(st, "nil dereference")
		}
		e.storePtr(st, p, v)
		return
	case GPtr:
		e.storePtr(st, e.resolve(st, p), v)
		return
	case MPtr:
		e.storeM(st, p, v)
		return
	case LamPtr:
		e.lamStore(st, p, v)
		return
	case LamBox:
		e.lamBoxStore(st, p, v)
		return
	case Opaque:
		return
	}
	fail("store through %T", pv)
}

// ---- control signals (Go panics used internally)

type goPanic struct {
	msg string
	val Value
}
type pathEnd struct{ why string }

func (e *Engine) gopanic(st *State, msg string) { panic(goPanic{msg, nil}) }

// ---- path condition

func (e *Engine) assume(st *State, cond *Term) {
	if cond.op == OAnd {
		for _, a := range cond.args {
			e.assume(st, a)
		}
		return
	}
	if cond.op == OTrue || st.pcset[cond.id] {
		return
	}
	st.pc = append(st.pc, cond)
	st.pcset[cond.id] = true
}

func (e *Engine) evl(st *State) *evalr {
	if st.model == nil {
		return nil
	}
	if st.ev == nil || st.ev.m != st.model {
		st.ev = e.c.evaluator(st.model, false)
	}
	return st.ev
}

// merge a partial model (for a slice) over an old one
func mergeModel(old, nw *Model) *Model {
	if old == nil {
		return nw
	}
	m := NewModel()
	for k, v := range old.iv {
		m.iv[k] = v
	}
	for k, v := range old.bv {
		m.bv[k] = v
	}
	for k, v := range old.rv {
		m.rv[k] = v
	}
	for k, v := range nw.iv {
		m.iv[k] = v
	}
	for k, v := range nw.bv {
		m.bv[k] = v
	}
	for k, v := range nw.rv {
		m.rv[k] = v
	}
	return m
}

// feasible: can cond hold together with the path condition?
func (e *Engine) feasible(st *State, cond *Term) (bool, *Model) {
	if cond.op == OFalse || st.pcset[e.c.Not(cond).id] {
		return false, nil
	}
	if cond.op == OTrue || st.pcset[cond.id] {
		return true, st.model
	}
	if ev := e.evl(st); ev != nil {
		ev.bad = false
		if ev.Bool(cond) && !ev.bad {
			return true, st.model
		}
	}
	v, m := e.sol.Check(st.pc, []*Term{cond}, e.sideTO, true)
	switch v {
	case Unsat:
		return false, nil
	case Sat:
		return true, mergeModel(st.model, m)
	}
	return true, nil
}

// implied: does the path condition imply cond (quick attempt)?
func (e *Engine) implied(st *State, cond *Term) bool {
	if cond.op == OTrue || st.pcset[cond.id] {
		return true
	}
	if cond.op == OFalse {
		return false
	}
	if ev := e.evl(st); ev != nil {
		ev.bad = false
		if !ev.Bool(cond) && !ev.bad {
			return false
		}
	}
	v, _ := e.sol.Check(st.pc, []*Term{e.c.Not(cond)}, 400*time.Millisecond, true)
	return v == Unsat
}

func (e *Engine) checkDeadline() {
	atomic.StoreInt64(&e.size, int64(len(e.c.terms))+1)
	if atomic.LoadInt32(&e.kill) != 0 {
		e.errs["memory budget exhausted"]++
		e.stop = true
		panic(pathEnd{"memory"})
	}
	if !e.dead.IsZero() && time.Now().After(e.dead) {
		e.errs["time budget exhausted"]++
		e.stop = true
		panic(pathEnd{"deadline"})
	}
}

// branch decides cond on this path, forking the state (which then re-executes
// the current instruction) when both outcomes are possible.
func (e *Engine) where(st *State) string {
	s := ""
	for i := len(st.frames) - 1; i >= 0 && i >= len(st.frames)-3; i-- {
		f := st.frames[i]
		s += " " + fnName(f.fn)
		if f.ip < len(f.blk.Instrs) {
			s += fmt.Sprintf(":%d", f.fn.Prog.Fset.Position(f.blk.Instrs[f.ip].Pos()).Line)
		}
	}
	return s
}

func (e *Engine) branch(st *State, cond *Term) bool {
	if cond.op == OTrue {
		return true
	}
	if cond.op == OFalse {
		return false
	}
	if cond.sort != SBool {
		fail("branch on non-bool %s", cond)
	}
	if st.pcset[cond.id] {
		return true
	}
	nc := e.c.Not(cond)
	if st.pcset[nc.id] {
		return false
	}
	e.checkDeadline()
	ct, mt := e.feasible(st, cond)
	if traceForks {
		defer func(c *Term) {
			fmt.Printf("BRANCH %d pc=%d %s taken=%v %.900s\n", st.id, len(st.pc), e.where(st), st.pcset[c.id], c)
		}(cond)
	}
	if !ct {
		e.pruned++
		e.assume(st, nc)
		return false
	}
	cf, mf := e.feasible(st, nc)
	if !cf {
		e.pruned++
		e.assume(st, cond)
		return true
	}
	rounds := 0
	if len(st.frames) > 0 {
		f := st.top()
		if f.ip < len(f.blk.Instrs) {
			in := f.blk.Instrs[f.ip]
			f.forks[in]++
			rounds = f.forks[in]
			if f.forks[in] > st.unwind {
				e.cuts[fmt.Sprintf("%s: more than %d symbolic iterations", fnName(f.fn), st.unwind)]++
				e.candidate(st, "hang", "the code returns", nil, e.c.True)
				panic(pathEnd{"cut"})
			}
		}
	}
	e.nforks++
	o := st.clone()
	o.depth++
	st.depth++
	e.assume(o, nc)
	o.model, o.ev = mf, nil
	if rounds > 3 && e.noFork == 0 && st.status != "init" && len(e.later) < 400 && !ours(fnName(st.top().fn)) {
		// a loop that splits again and again: everything else first
		s := st.clone()
		e.assume(s, cond)
		if mt != s.model {
			s.model, s.ev = mt, nil
		}
		e.nstate += 2
		o.id, s.id = e.nstate-1, e.nstate
		e.later = append(e.later, laterState{rounds, o}, laterState{rounds, s})
		panic(pathEnd{"deferred"})
	}
	e.push(o)
	e.assume(st, cond)
	if mt != st.model {
		st.model, st.ev = mt, nil
	}
	return true
}

var traceForks = os.Getenv("GOSYM_FORKS") != ""

func (e *Engine) push(st *State) {
	if e.noFork > 0 {
		panic(mergeAbort{"case split"})
	}
	e.pushAny(st)
}

func (e *Engine) pushAny(st *State) { e.nstate++; st.id = e.nstate; e.work = append(e.work, st) }

// concretize a term by forking over its feasible values
func (e *Engine) concretize(st *State, t *Term, max int) *big.Int {
	if t.isConst() {
		return t.c
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) == 0 {
		return t.lo
	}
	// small ranges: deterministic enumeration
	if t.lo != nil && t.hi != nil && bsub(t.hi, t.lo).Cmp(bi(int64(max))) <= 0 {
		for v := t.lo; v.Cmp(t.hi) <= 0; v = badd(v, bi1) {
			if v.Cmp(t.hi) == 0 || e.branch(st, e.c.Eq(t, e.c.Int(v))) {
				return v
			}
		}
	}
	for i := 0; i <= max; i++ {
		var v *big.Int
		if ev := e.evl(st); ev != nil {
			ev.bad = false
			v = ev.Int(t)
			if ev.bad {
				v = nil
			}
		}
		if v == nil {
			x := e.c.Fresh("conc", SInt, t.lo, t.hi)
			vd, m := e.sol.Check(st.pc, []*Term{e.c.Eq(x, t)}, 5*time.Second, false)
			if vd != Sat {
				fail("cannot concretize %s", t)
			}
			v = m.iv[x.id]
			if v == nil {
				fail("cannot concretize")
			}
		}
		if e.branch(st, e.c.Eq(t, e.c.Int(v))) {
			return v
		}
		if st.model != nil {
			// continue with a different value
		}
	}
	fail("too many values for %s", t)
	return nil
}

func (e *Engine) cInt(st *State, v Value, max int) int {
	t, ok := v.(*Term)
	if !ok {
		fail("cInt %T", v)
	}
	return int(e.concretize(st, t, max).Int64())
}

// ---- arithmetic helpers

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.UntypedRune:
		return 32, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, false, true
}

// wrap reduces an exact integer to a machine type, proving absence of overflow
// under the path condition first when that is cheap.
func (e *Engine) wrap(st *State, n *Term, bits int, signed bool) *Term {
	c := e.c
	var lo, hi *big.Int
	if signed {
		lo, hi = bneg(pow2(bits-1)), bsub(pow2(bits-1), bi1)
	} else {
		lo, hi = bi0, bsub(pow2(bits), bi1)
	}
	if n.inRange(lo, hi) {
		return n
	}
	if m := c.dropMult(n, pow2(bits)); m != n {
		n = m
		if n.inRange(lo, hi) {
			return n
		}
	}
	if !e.fine {
		ok := true
		if n.lo == nil || n.lo.Cmp(lo) < 0 {
			ok = e.implied(st, c.Le(c.Int(lo), n))
			if ok {
				e.assume(st, c.Le(c.Int(lo), n))
			}
		}
		if ok && (n.hi == nil || n.hi.Cmp(hi) > 0) {
			ok = e.implied(st, c.Le(n, c.Int(hi)))
			if ok {
				e.assume(st, c.Le(n, c.Int(hi)))
			}
		}
		if ok {
			return n
		}
		// one modulus below or above
		M := pow2(bits)
		if n.lo != nil && n.lo.Cmp(bsub(lo, M)) >= 0 && (n.hi == nil || n.hi.Cmp(lo) >= 0) {
			if k := c.Lt(n, c.Int(lo)); e.implied(st, k) {
				e.assume(st, k)
				return c.Add(n, c.Int(M))
			}
		}
		if n.hi != nil && n.hi.Cmp(badd(hi, M)) <= 0 && (n.lo == nil || n.lo.Cmp(hi) <= 0) {
			if k := c.Lt(c.Int(hi), n); e.implied(st, k) {
				e.assume(st, k)
				return c.Sub(n, c.Int(M))
			}
		}
	}
	if signed {
		return c.WrapS(n, bits)
	}
	return c.WrapU(n, bits)
}

func (e *Engine) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		fail("expected scalar, got %T", v)
	}
	return t
}

// truncated division
func (e *Engine) truncDiv(st *State, n, d *Term) *Term {
	c := e.c
	if n.isConst() && d.isConst() {
		return c.Int(new(big.Int).Quo(n.c, d.c))
	}
	nonneg := func(t *Term) (bool, bool) { // known sign: (>=0, <=0)
		return t.nonneg(), t.hi != nil && t.hi.Sign() <= 0
	}
	absDiv := func(n, d *Term) *Term { // both >= 0
		return c.Div(n, d)
	}
	dp, dn := nonneg(d)
	if !dp && !dn {
		if e.branch(st, c.Lt(c.I(0), d)) {
			dp = true
		} else {
			dn = true
		}
	}
	np, nn := nonneg(n)
	if !np && !nn {
		if k := c.Le(c.I(0), n); e.implied(st, k) {
			e.assume(st, k)
			np = true
			if dp {
				// follows from the signs; kept out of the solver's way
				st.pcset[c.Le(c.I(0), c.Div(n, d)).id] = true
			}
		} else if k := c.Le(n, c.I(0)); e.implied(st, k) {
			e.assume(st, k)
			nn = true
		}
	}
	ad := d
	if dn && !dp {
		ad = c.Neg(d)
	}
	neg := func(x *Term, b bool) *Term {
		if b {
			return c.Neg(x)
		}
		return x
	}
	flip := dn && !dp
	switch {
	case np:
		return neg(absDiv(n, ad), flip)
	case nn:
		return neg(absDiv(c.Neg(n), ad), !flip)
	}
	return c.Ite(c.Le(c.I(0), n), neg(absDiv(n, ad), flip), neg(absDiv(c.Neg(n), ad), !flip))
}

func (e *Engine) binop(st *State, op token.Token, x, y Value, t types.Type, yt types.Type) Value {
	c := e.c
	switch op {
	case token.EQL:
		return e.valEq(st, x, y)
	case token.NEQ:
		return c.Not(e.valEq(st, x, y))
	}
	if sx, ok := x.(StrV); ok {
		sy := y.(StrV)
		switch op {
		case token.ADD:
			return sx.cat(sy)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			a, ok1 := sx.concrete()
			b, ok2 := sy.concrete()
			if !ok1 || !ok2 {
				fail("symbolic string order")
			}
			switch op {
			case token.LSS:
				return c.Bool(a < b)
			case token.LEQ:
				return c.Bool(a <= b)
			case token.GTR:
				return c.Bool(a > b)
			default:
				return c.Bool(a >= b)
			}
		}
		fail("string op %s", op)
	}
	a, b := e.term(x), e.term(y)
	if a.sort == SReal || b.sort == SReal {
		return e.floatOp(st, op, a, b)
	}
	if a.sort == SBool {
		switch op {
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
		fail("bool op %s", op)
	}
	switch op {
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	}
	bits, signed, ok := intInfo(t)
	if !ok {
		fail("binop type %s", t)
	}
	switch op {
	case token.ADD:
		return e.wrap(st, c.Add(a, b), bits, signed)
	case token.SUB:
		return e.wrap(st, c.Sub(a, b), bits, signed)
	case token.MUL:
		return e.wrap(st, c.Mul(a, b), bits, signed)
	case token.QUO, token.REM:
		if !(b.lo != nil && b.lo.Sign() > 0 || b.hi != nil && b.hi.Sign() < 0) {
			if e.branch(st, c.Eq(b, c.I(0))) {
				e.gopanic(st, "integer divide by zero")
			}
		}
		var q *Term
		if signed {
			q = e.truncDiv(st, a, b)
		} else {
			q = c.Div(a, b)
		}
		if op == token.QUO {
			return e.wrap(st, q, bits, signed)
		}
		r := c.Sub(a, c.Mul(q, b))
		if a.nonneg() && b.lo != nil && b.lo.Sign() > 0 {
			var hi *big.Int
			if b.hi != nil {
				hi = bsub(b.hi, bi1)
			}
			c.refine(r, bi0, hi)
			if a.hi != nil {
				c.refine(r, bi0, a.hi)
			}
		} else if signed && b.isConst() {
			m := bsub(new(big.Int).Abs(b.c), bi1)
			c.refine(r, bneg(m), m)
		}
		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		ua, ub := a, b
		if signed {
			ua, ub = c.WrapU(a, bits), c.WrapU(b, bits)
		}
		var r *Term
		switch op {
		case token.AND:
			r = c.BAnd(ua, ub)
		case token.OR:
			r = c.BOr(ua, ub)
		case token.XOR:
			r = c.BXor(ua, ub)
		default:
			r = c.BAnd(ua, c.Sub(c.Int(bsub(pow2(bits), bi1)), ub))
		}
		if signed {
			return c.WrapS(r, bits)
		}
		return r
	case token.SHL, token.SHR:
		if _, ysig, _ := intInfo(yt); ysig && !b.nonneg() {
			if e.branch(st, c.Lt(b, c.I(0))) {
				e.gopanic(st, "negative shift amount")
			}
		}
		if !b.isConst() {
			if op == token.SHR && !signed && st.cons["symshift"] {
				// a >> (bits - s) == (a * 2^s) / 2^bits, for 0 <= s <= bits
				s := c.Sub(c.I(int64(bits)), b)
				if b.op == OPoly && b.c.Cmp(bi(int64(bits))) == 0 && s.inRange(bi0, bi(int64(bits))) {
					return c.Div(c.Mul(a, c.Pow2(s)), c.Int(pow2(bits)))
				}
			}
			if b.hi == nil || b.hi.Cmp(bi(int64(bits))) >= 0 {
				if e.branch(st, c.Le(c.I(int64(bits)), b)) {
					if op == token.SHL || !signed || a.nonneg() {
						return c.I(0)
					}
					return c.Ite(c.Lt(a, c.I(0)), c.I(-1), c.I(0))
				}
			}
			return e.symShift(st, op, a, b, bits, signed)
		}
		if b.c.Cmp(bi(int64(bits))) >= 0 {
			if op == token.SHL || !signed || a.nonneg() {
				return c.I(0)
			}
			return c.Ite(c.Lt(a, c.I(0)), c.I(-1), c.I(0))
		}
		p := c.Int(pow2(int(b.c.Int64())))
		if op == token.SHL {
			if signed {
				return e.wrap(st, c.Mul(a, p), bits, true)
			}
			return c.WrapU(c.Mul(a, p), bits)
		}
		return c.Div(a, p)
	}
	fail("binop %s", op)
	return nil
}

// symbolic shift amount in [0,bits)
func (e *Engine) symShift(st *State, op token.Token, a, b *Term, bits int, signed bool) Value {
	c := e.c
	if e.cfgShiftFork(st) {
		v := e.concretize(st, b, bits)
		p := c.Int(pow2(int(v.Int64())))
		if op == token.SHL {
			if signed {
				return c.WrapS(c.Mul(a, p), bits)
			}
			return c.WrapU(c.Mul(a, p), bits)
		}
		return c.Div(a, p)
	}
	if op == token.SHR {
		return c.Div(a, c.Pow2(b))
	}
	n := c.Mul(a, c.Pow2(b))
	if signed {
		return c.WrapS(n, bits)
	}
	return c.WrapU(n, bits)
}

func (e *Engine) cfgShiftFork(st *State) bool { return !st.cons["symshift"] }

func (e *Engine) valEq(st *State, x, y Value) *Term {
	c := e.c
	switch a := x.(type) {
	case *Term:
		b := e.term(y)
		return c.Eq(a, b)
	case StrV:
		return e.strEq(a, y.(StrV))
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return c.Bool(a == b)
		case GPtr, MPtr:
			return e.valEq(st, y, x)
		case LamPtr, LamBox:
			return c.False
		}
	case GPtr:
		var r []*Term
		for _, g := range a.alts {
			r = append(r, c.And(g.g, e.valEq(st, g.p, y)))
		}
		return c.Or(r...)
	case MPtr:
		return c.Ite(a.c, e.valEq(st, a.a, y), e.valEq(st, a.b, y))
	case *Agg, *Pack:
		if p, ok := x.(*Pack); ok {
			return c.Eq(p.t, e.packOf(y))
		}
		if _, ok := y.(*Pack); ok {
			return e.valEq(st, y, x)
		}
		ax, ay := a.(*Agg), y.(*Agg)
		var r []*Term
		for i := range ax.e {
			r = append(r, e.valEq(st, ax.e[i], ay.e[i]))
		}
		return c.And(r...)
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			fail("iface eq %T", y)
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		return e.valEq(st, a.v, b.v)
	case SliceV:
		b := y.(SliceV)
		if a.p.obj == 0 || b.p.obj == 0 {
			return c.Bool(a.p.obj == 0 && b.p.obj == 0)
		}
	case MapV:
		b := y.(MapV)
		if a.obj == 0 || b.obj == 0 {
			return c.Bool(a.obj == b.obj)
		}
	case FuncV:
		b := y.(FuncV)
		if a.fn == nil && a.bi == "" || b.fn == nil && b.bi == "" {
			return c.Bool(a.fn == nil && b.fn == nil && a.bi == b.bi)
		}
	case LamPtr, LamBox:
		if b, ok := y.(Ptr); ok {
			return c.Bool(false && b.obj == 0)
		}
	}
	fail("equality of %T and %T", x, y)
	return nil
}

// ---- constants and operands

func (e *Engine) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.Bool(constant.BoolVal(k.Value))
		case u.Info()&types.IsString != 0:
			return lit(constant.StringVal(k.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				fail("const %s", k)
			}
			return e.c.Int(b)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			return e.c.Rat(new(big.Rat).SetFloat64(f))
		}
	}
	fail("const %s", k)
	return nil
}

func (e *Engine) globalPtr(st *State, g *ssa.Global) Value {
	id, ok := e.globals[g]
	if !ok {
		e.nobj++
		id = e.nobj
		e.globals[g] = id
		e.base[id] = e.zero(g.Type().(*types.Pointer).Elem())
	}
	e.initPkg(g.Pkg)
	return Ptr{obj: id}
}

// initPkg runs a package initialiser concretely, once, into base memory.
func (e *Engine) initPkg(pk *ssa.Package) {
	if pk == nil || e.inited[pk] {
		return
	}
	e.inited[pk] = true
	pk.Build()
	fn := pk.Func("init")
	if fn == nil {
		return
	}
	st := e.newState()
	st.status = "init"
	sv, se, nf := e.work, e.errs, e.noFork
	defer func() { e.noFork = nf }()
	e.noFork = 0
	e.work = nil
	e.errs = map[string]int{}
	e.pushFrame(st, fn, nil, nil, nil)
	e.run(st)
	if len(e.work) > 0 {
		se["symbolic initialiser of "+pk.Pkg.Path()]++
	}
	for k, v := range e.errs {
		if e.p.module != "" && strings.HasPrefix(pk.Pkg.Path(), e.p.module) {
			se[k+" (init "+pk.Pkg.Path()+")"] += v
		}
	}
	e.work, e.errs = sv, se
	for k, v := range st.heap {
		e.base[k] = v
	}
}

func (e *Engine) newState() *State {
	return &State{heap: map[int]Value{}, pcset: map[int]bool{}, names: map[string]int{}, cons: map[string]bool{}, unwind: 64, model: NewModel()}
}

func (e *Engine) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(st, x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{bi: x.Name()}
	}
	i, ok := f.info.slot[v]
	if !ok {
		fail("no slot for %s", v.Name())
	}
	r := f.env[i]
	if r == nil {
		fail("undefined value %s in %s", v.Name(), f.fn)
	}
	return r
}

func (e *Engine) pushFrame(st *State, fn *ssa.Function, args []Value, bind []Value, ret ssa.Instruction) *Frame {
	inf := e.info(fn)
	if len(fn.Blocks) == 0 {
		fail("no body: %s", fn)
	}
	if len(st.frames) > 200 {
		fail("call depth")
	}
	f := &Frame{fn: fn, info: inf, env: make([]Value, inf.n), blk: fn.Blocks[0], ret: ret, forks: map[ssa.Instruction]int{}, start: st.steps, minobj: e.nobj}
	if len(args) != len(fn.Params) {
		fail("arity of %s: %d/%d", fn, len(args), len(fn.Params))
	}
	copy(f.env, args)
	copy(f.env[len(fn.Params):], bind)
	st.frames = append(st.frames, f)
	if e.p.inModule(fn) && !ours(fnName(fn)) {
		e.funcs[fnName(fn)]++
	}
	return f
}

// laterState is a state set aside until the others have been explored.
type laterState struct {
	rounds int
	st     *State
}

// ---- main loop

func (e *Engine) explore(st *State) {
	e.push(st)
	for !e.stop {
		if len(e.work) == 0 {
			if len(e.later) == 0 {
				break
			}
			k := 0
			for i, l := range e.later {
				if l.rounds < e.later[k].rounds {
					k = i
				}
			}
			e.work = append(e.work, e.later[k].st)
			e.later = append(e.later[:k], e.later[k+1:]...)
		}
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.run(s)
		if s.status != "init" && s.status != "deferred" {
			e.paths++
		}
	}
}

func (e *Engine) run(st *State) {
	if os.Getenv("GOSYM_SLOW") != "" {
		e.sol.trace = func() string { return e.where(st) }
	}
	for !st.done {
		e.stepGuard(st)
	}
}

func (e *Engine) stepGuard(st *State) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case goPanic:
			e.unwindPanic(st, x)
		case pathEnd:
			st.done = true
			if st.status != "init" {
				st.status = x.why
			}
		case engErr:
			st.done = true
			where := ""
			if len(st.frames) > 0 {
				f := st.top()
				where = fnName(f.fn)
				if f.ip < len(f.blk.Instrs) {
					pos := f.fn.Prog.Fset.Position(f.blk.Instrs[f.ip].Pos())
					where += fmt.Sprintf(":%d", pos.Line)
				}
			}
			e.errs[x.msg+" @ "+where]++
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "ENGINE", x.msg, where)
				for _, f := range st.frames {
					fmt.Fprintln(os.Stderr, "   ", fnName(f.fn))
				}
			}
		default:
			if os.Getenv("GOSYM_DEBUG") == "2" {
				panic(r)
			}
			st.done = true
			where := ""
			if len(st.frames) > 0 {
				where = fnName(st.top().fn)
			}
			e.errs[fmt.Sprintf("internal: %v @ %s", r, where)]++
		}
	}()
	for !st.done {
		e.step(st)
	}
}

func (e *Engine) unwindPanic(st *State, p goPanic) {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if len(f.defers) > 0 {
			e.errs["panic with deferred calls in "+fnName(f.fn)]++
			st.done = true
			return
		}
		if f.try {
			st.frames = st.frames[:i]
			caller := st.top()
			if v, ok := f.ret.(ssa.Value); ok {
				caller.env[caller.info.slot[v]] = e.c.True
			}
			caller.ip++
			return
		}
	}
	st.done = true
	if st.status == "init" {
		e.errs["panic in initialiser: "+p.msg]++
		return
	}
	where := ""
	if len(st.frames) > 0 {
		for i := len(st.frames) - 1; i >= 0; i-- {
			n := fnName(st.frames[i].fn)
			if !strings.Contains(n, "/zzverif/sym") {
				where = n
				break
			}
		}
	}
	e.candidate(st, "no-panic", fmt.Sprintf("panic: %s in %s", p.msg, where), nil, e.c.True)
}

func (e *Engine) setRes(st *State, f *Frame, in ssa.Instruction, v Value) {
	if x, ok := in.(ssa.Value); ok {
		f.env[f.info.slot[x]] = v
	}
}

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	f.prev = f.blk
	// parallel phi evaluation
	var vals []Value
	n := 0
	idx := -1
	for i, p := range to.Preds {
		if p == f.blk {
			idx = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, f, ph.Edges[idx]))
		n++
	}
	for i := 0; i < n; i++ {
		e.setRes(st, f, to.Instrs[i], vals[i])
	}
	f.blk = to
	f.ip = n
	if len(st.cutFns) > 0 {
		e.arriveCut(st, f, to)
	}
	if len(st.loops) > 0 {
		e.arriveLoop(st, f, to)
	}
	if st.fillK != nil {
		e.arriveFill(st, f, to)
	}
}

func (e *Engine) abortCall(st *State, k int) {
	f := st.frames[k]
	res := Value(Opaque{"call aborted: " + fnName(f.fn)})
	caller := st.frames[k-1]
	for id := range st.heap {
		if id > f.minobj {
			st.heap[id] = Opaque{"aborted"}
		}
	}
	st.frames = st.frames[:k]
	e.setRes(st, caller, f.ret, res)
	caller.ip++
}

func (e *Engine) step(st *State) {
	f := st.top()
	if f.cut != nil && f.cut.phase > 0 && e.stepCut(st, f) {
		return
	}
	if f.loop != nil && f.loop.phase > 0 && e.stepLoop(st, f) {
		return
	}
	st.steps++
	e.instrs++
	if st.steps&0xfff == 0 {
		if st.status == "init" {
			for k := 1; k < len(st.frames); k++ {
				g := st.frames[k]
				if st.frames[k-1].fn.Name() == "init" && st.steps-g.start > 300000 {
					e.abortCall(st, k)
					return
				}
			}
		} else {
			e.checkDeadline()
		}
		if st.status != "init" && st.steps > e.maxSteps {
			// does the real code come back on an input of this path?
			e.candidate(st, "hang", "the code returns", nil, e.c.True)
			fail("step limit")
		}
	}
	if f.ip >= len(f.blk.Instrs) {
		fail("fell off block")
	}
	in := f.blk.Instrs[f.ip]
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.ip++
	case *ssa.Phi:
		f.ip++
	case *ssa.Alloc:
		id := e.alloc(st, e.zero(x.Type().(*types.Pointer).Elem()))
		e.setRes(st, f, x, Ptr{obj: id})
		f.ip++
	case *ssa.BinOp:
		v := e.binop(st, x.Op, e.val(st, f, x.X), e.val(st, f, x.Y), x.X.Type(), x.Y.Type())
		e.setRes(st, f, x, v)
		f.ip++
	case *ssa.UnOp:
		e.unop(st, f, x)
		f.ip++
	case *ssa.ChangeType:
		e.setRes(st, f, x, e.val(st, f, x.X))
		f.ip++
	case *ssa.ChangeInterface:
		e.setRes(st, f, x, e.val(st, f, x.X))
		f.ip++
	case *ssa.Convert:
		e.setRes(st, f, x, e.convert(st, e.val(st, f, x.X), x.X.Type(), x.Type()))
		f.ip++
	case *ssa.MakeInterface:
		e.setRes(st, f, x, IfaceV{x.X.Type(), e.val(st, f, x.X)})
		f.ip++
	case *ssa.Extract:
		tv := e.val(st, f, x.Tuple)
		if o, ok := tv.(Opaque); ok {
			e.setRes(st, f, x, o)
		} else {
			e.setRes(st, f, x, tv.(Tuple)[x.Index])
		}
		f.ip++
	case *ssa.Field:
		e.setRes(st, f, x, e.elemOf(e.val(st, f, x.X), x.Field))
		f.ip++
	case *ssa.FieldAddr:
		b := e.val(st, f, x.X)
		e.setRes(st, f, x, e.ptrElem(st, b, x.Field))
		f.ip++
	case *ssa.Index:
		e.setRes(st, f, x, e.indexVal(st, e.val(st, f, x.X), e.val(st, f, x.Index)))
		f.ip++
	case *ssa.IndexAddr:
		e.setRes(st, f, x, e.indexAddr(st, e.val(st, f, x.X), e.term(e.val(st, f, x.Index)), x.X.Type()))
		f.ip++
	case *ssa.Lookup:
		e.lookup(st, f, x)
		f.ip++
	case *ssa.MapUpdate:
		m := e.val(st, f, x.Map)
		mv, ok := m.(MapV)
		if !ok {
			fail("map update on %T", m)
		}
		if mv.obj == 0 {
			e.gopanic(st, "assignment to entry in nil map")
		}
		e.mapSet(st, mv, e.val(st, f, x.Key), e.val(st, f, x.Value))
		f.ip++
	case *ssa.MakeMap:
		e.setRes(st, f, x, MapV{e.alloc(st, &MapData{})})
		f.ip++
	case *ssa.MakeSlice:
		n := e.cInt(st, e.val(st, f, x.Len), 64)
		cp := n
		if ct := e.term(e.val(st, f, x.Cap)); n >= 0 && !ct.isConst() {
			// a spare capacity only decides whether append copies
			if k := e.c.Le(e.c.I(int64(n)), ct); !e.implied(st, k) && !e.branch(st, k) {
				cp = -1
			}
		} else {
			cp = e.cInt(st, ct, 64)
		}
		if n < 0 || cp < n {
			e.gopanic(st, "makeslice: len out of range")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		e.setRes(st, f, x, e.mkSlice(st, el, n, cp))
		f.ip++
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, e.val(st, f, v))
		}
		e.setRes(st, f, x, FuncV{fn: x.Fn.(*ssa.Function), bind: b})
		f.ip++
	case *ssa.Slice:
		e.sliceOp(st, f, x)
		f.ip++
	case *ssa.SliceToArrayPointer:
		s := e.val(st, f, x.X).(SliceV)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			e.gopanic(st, "slice to array pointer: length")
		}
		if s.p.obj == 0 {
			e.setRes(st, f, x, Ptr{})
		} else {
			e.setRes(st, f, x, e.window(st, s, n))
		}
		f.ip++
	case *ssa.TypeAssert:
		e.typeAssert(st, f, x)
		f.ip++
	case *ssa.Range:
		v := e.val(st, f, x.X)
		switch m := v.(type) {
		case MapV:
			it := &RangeIt{isM: true, obj: m.obj}
			if m.obj != 0 {
				it.ents = append([]MapEnt(nil), e.getObj(st, m.obj).(*MapData).ents...)
			}
			e.setRes(st, f, x, it)
		case StrV:
			e.setRes(st, f, x, &RangeIt{str: &m})
		default:
			fail("range over %T", v)
		}
		f.ip++
	case *ssa.Next:
		e.next(st, f, x)
		f.ip++
	case *ssa.Store:
		e.store(st, e.val(st, f, x.Addr), e.val(st, f, x.Val))
		f.ip++
	case *ssa.Jump:
		e.jump(st, f, f.blk.Succs[0])
	case *ssa.If:
		cv := e.val(st, f, x.Cond)
		ct, ok := cv.(*Term)
		if !ok {
			fail("branch on %T", cv)
		}
		if e.tryMerge(st, f, x, ct) {
			return
		}
		if e.branch(st, ct) {
			e.jump(st, f, f.blk.Succs[0])
		} else {
			e.jump(st, f, f.blk.Succs[1])
		}
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
			r = Tuple{}
		case 1:
			r = e.val(st, f, x.Results[0])
		default:
			var t Tuple
			for _, v := range x.Results {
				t = append(t, e.val(st, f, v))
			}
			r = t
		}
		e.doReturn(st, f, r)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			e.callValue(st, f, nil, d.fn, d.args, true)
			return
		}
		f.ip++
	case *ssa.Defer:
		fv, args := e.callTarget(st, f, &x.Call)
		f.defers = append(f.defers, deferRec{fn: fv, args: args})
		f.ip++
	case *ssa.Panic:
		v := e.val(st, f, x.X)
		msg := "panic"
		if iv, ok := v.(IfaceV); ok {
			if s, ok := iv.v.(StrV); ok {
				if cs, ok := s.concrete(); ok {
					msg = cs
				}
			}
		}
		panic(goPanic{msg, v})
	case *ssa.Call:
		fv, args := e.callTarget(st, f, &x.Call)
		e.callValue(st, f, x, fv, args, false)
	case *ssa.Go:
		// modelled as a synchronous call
		fv, args := e.callTarget(st, f, &x.Call)
		e.callValue(st, f, x, fv, args, false)
	default:
		fail("instruction %T", in)
	}
}

func (e *Engine) doReturn(st *State, f *Frame, r Value) {
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.done = true
		if st.status != "init" {
			st.status = "ok"
		}
		return
	}
	if f.try {
		r = e.c.False
	}
	c := st.top()
	if f.ret != nil {
		e.setRes(st, c, f.ret, r)
		c.ip++
	}
	// f.ret == nil: deferred call; RunDefers re-executes
}

func (e *Engine) callTarget(st *State, f *Frame, c *ssa.CallCommon) (FuncV, []Value) {
	var args []Value
	if c.IsInvoke() {
		rv := e.val(st, f, c.Value)
		iv, ok := rv.(IfaceV)
		if !ok {
			fail("invoke on %T", rv)
		}
		if iv.t == nil {
			e.gopanic(st, "nil interface method call")
		}
		m := e.p.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			fail("method %s of %s", c.Method.Name(), iv.t)
		}
		args = append(args, iv.v)
		for _, a := range c.Args {
			args = append(args, e.val(st, f, a))
		}
		return FuncV{fn: m}, args
	}
	v := e.val(st, f, c.Value)
	fv, ok := v.(FuncV)
	if !ok {
		fail("call of %T", v)
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, f, a))
	}
	return fv, args
}

// callValue dispatches a call: builtin, intrinsic, contract or body.
func (e *Engine) callValue(st *State, f *Frame, in ssa.Instruction, fv FuncV, args []Value, deferred bool) {
	fin := func(v Value) {
		if in != nil {
			e.setRes(st, f, in, v)
			f.ip++
		}
	}
	if fv.bi != "" {
		fin(e.builtin(st, f, in, fv.bi, args))
		return
	}
	if fv.fn == nil {
		e.gopanic(st, "call of nil function")
	}
	fn := fv.fn
	name := fnName(fn)
	if fn.Name() == "init" && fn.Parent() == nil && len(args) == 0 && fn.Synthetic != "" {
		// package initialisers run on demand
		fin(Tuple{})
		return
	}
	if v, ok := e.intrinsic(st, f, in, fn, name, args); ok {
		if v != nil {
			fin(v)
		}
		return
	}
	if g, ok := e.replacement(st, fn, name); ok && in != nil {
		e.contr[name]++
		e.pushFrame(st, g.fn, args, g.bind, in)
		return
	}
	if v, ok := e.contract(st, f, fn, name, args); ok {
		e.contr[name]++
		fin(v)
		return
	}
	if in == nil && !deferred {
		fail("call without instruction")
	}
	e.pushFrame(st, fn, args, fv.bind, in)
}

// ours reports that a name belongs to a harness; zzverif/app is the program.
func ours(name string) bool {
	return strings.Contains(name, "/zzverif/") && !strings.Contains(name, "/zzverif/app.")
}

// replacement finds the harness function registered for fn by sym.Replace;
// calls made from within that function reach the real code.
func (e *Engine) replacement(st *State, fn *ssa.Function, name string) (FuncV, bool) {
	for k, g := range st.repl {
		if fn.Pkg == nil || !e.p.inModule(fn) || ours(fn.Pkg.Pkg.Path()+".") || name != k && !strings.HasSuffix(name, "."+k) {
			continue
		}
		for _, f := range st.frames {
			if f.fn == g.fn {
				return FuncV{}, false
			}
		}
		return g, true
	}
	return FuncV{}, false
}

// ---- instruction helpers

func (e *Engine) unop(st *State, f *Frame, x *ssa.UnOp) {
	v := e.val(st, f, x.X)
	c := e.c
	var r Value
	switch x.Op {
	case token.MUL:
		r = e.load(st, v)
	case token.NOT:
		r = c.Not(e.term(v))
	case token.SUB:
		t := e.term(v)
		if t.sort == SReal {
			r = e.floatNeg(t)
		} else {
			bits, sg, _ := intInfo(x.Type())
			r = e.wrap(st, c.Neg(t), bits, sg)
		}
	case token.XOR:
		t := e.term(v)
		bits, sg, _ := intInfo(x.Type())
		if sg {
			r = c.Sub(c.I(-1), t)
		} else {
			r = c.Sub(c.Int(bsub(pow2(bits), bi1)), t)
		}
	default:
		fail("unop %s", x.Op)
	}
	e.setRes(st, f, x, r)
}

func (e *Engine) ptrElem(st *State, b Value, i int) Value {
	switch p := b.(type) {
	case Ptr:
		if p.obj == 0 {
			e.gopanic(st, "nil dereference")
		}
		return p.elem(i)
	case GPtr:
		var g GPtr
		for _, a := range p.alts {
			if a.p.obj == 0 {
				return e.resolve(st, p).elem(i)
			}
			g.alts = append(g.alts, GAlt{a.g, a.p.elem(i)})
		}
		return g
	case MPtr:
		return MPtr{p.c, e.ptrElem(st, p.a, i), e.ptrElem(st, p.b, i)}
	case LamBox:
		return LamBox{p.p, p.idx, i + 1}
	case Opaque:
		return p
	}
	fail("element address of %T", b)
	return nil
}

func (e *Engine) checkIdx(st *State, i *Term, n int) int {
	c := e.c
	if i.isConst() {
		if i.c.Sign() < 0 || i.c.Cmp(bi(int64(n))) >= 0 {
			e.gopanic(st, fmt.Sprintf("index out of range [%s] with length %d", i.c, n))
		}
		return int(i.c.Int64())
	}
	if !e.branch(st, c.And(c.Le(c.I(0), i), c.Lt(i, c.I(int64(n))))) {
		e.gopanic(st, fmt.Sprintf("index out of range with length %d", n))
	}
	// fork over the values in order
	for k := 0; k < n; k++ {
		if k == n-1 || e.branch(st, c.Eq(i, c.I(int64(k)))) {
			return k
		}
	}
	fail("index")
	return 0
}

func (e *Engine) indexAddr(st *State, b Value, i *Term, t types.Type) Value {
	switch p := b.(type) {
	case SliceV:
		k := e.checkIdx(st, i, p.len)
		return p.p.elem(p.off + k)
	case Ptr:
		if p.obj == 0 {
			e.gopanic(st, "nil dereference")
		}
		at := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if at.Len() > maxIdx {
			v := e.loadPtr(st, p)
			if _, ok := v.(*LamArr); ok {
				return e.lamIndex(st, p, i, int(at.Len()))
			}
			if o, ok := v.(Opaque); ok {
				return o
			}
		}
		k := e.checkIdx(st, i, int(at.Len()))
		return p.elem(k)
	case GPtr:
		return e.indexAddr(st, e.resolve(st, p), i, t)
	case MPtr:
		if i.isConst() {
			return MPtr{p.c, e.indexAddr(st, p.a, i, t), e.indexAddr(st, p.b, i, t)}
		}
		return e.indexAddr(st, e.resolveM(st, p), i, t)
	case Opaque:
		return p
	}
	fail("indexaddr of %T", b)
	return nil
}

func (e *Engine) indexVal(st *State, b Value, iv Value) Value {
	i := e.term(iv)
	switch a := b.(type) {
	case *Agg:
		return a.e[e.checkIdx(st, i, len(a.e))]
	case *Pack:
		return e.elemOf(a, e.checkIdx(st, i, 4))
	case StrV:
		bs, ok := e.strBytes(a)
		if !ok {
			fail("index of symbolic-length string")
		}
		if !i.isConst() {
			if t := e.tableAt(st, bs, i); t != nil {
				return t
			}
			if len(bs) > 40 {
				fail("symbolic index into long string")
			}
		}
		return bs[e.checkIdx(st, i, len(bs))]
	}
	fail("index of %T", b)
	return nil
}

// tableAt reads a constant table at a symbolic index, as a case split over the
// runs in which the entries are constant or advance with the index.
func (e *Engine) tableAt(st *State, bs []*Term, i *Term) *Term {
	c := e.c
	for _, b := range bs {
		if !b.isConst() {
			return nil
		}
	}
	if len(bs) == 0 {
		return nil
	}
	if !e.branch(st, c.And(c.Le(c.I(0), i), c.Lt(i, c.I(int64(len(bs)))))) {
		e.gopanic(st, "index out of range")
	}
	type run struct {
		end int
		t   *Term
	}
	var runs []run
	at := func(k int) int64 { return bs[k].c.Int64() }
	for k := 0; k < len(bs); {
		j := k + 1
		for j < len(bs) && at(j) == at(k) {
			j++
		}
		l := k + 1
		for l < len(bs) && at(l)-at(k) == int64(l-k) {
			l++
		}
		if l > j {
			runs = append(runs, run{l, c.Add(i, c.I(at(k)-int64(k)))})
			k = l
		} else {
			runs = append(runs, run{j, bs[k]})
			k = j
		}
	}
	r := runs[len(runs)-1].t
	for k := len(runs) - 2; k >= 0; k-- {
		r = c.Ite(c.Lt(i, c.I(int64(runs[k].end))), runs[k].t, r)
	}
	lo, hi := bs[0].c, bs[0].c
	for _, b := range bs {
		lo, hi = minB(lo, b.c), maxB(hi, b.c)
	}
	c.refine(r, lo, hi)
	return r
}

func (e *Engine) mkSlice(st *State, el types.Type, n, cp int) SliceV {
	if cp > maxIdx {
		fail("slice too large")
	}
	a := &Agg{make([]Value, cp)}
	if cp > 0 {
		z := e.zero(el)
		for i := range a.e {
			a.e[i] = z
		}
	}
	return SliceV{p: Ptr{obj: e.alloc(st, a)}, len: n, cap: cp}
}

func (e *Engine) window(st *State, s SliceV, n int) Ptr {
	if n == 0 {
		return Ptr{obj: s.p.obj, path: s.p.path}
	}
	v := e.loadPtr(st, Ptr{obj: s.p.obj, path: s.p.path})
	off := s.off
	if s.p.wlen > 0 {
		off += s.p.woff
	}
	size := 4
	if a, ok := v.(*Agg); ok {
		size = len(a.e)
	}
	if off == 0 && size == n {
		return Ptr{obj: s.p.obj, path: s.p.path}
	}
	return Ptr{obj: s.p.obj, path: s.p.path, wlen: n, woff: off}
}

func (e *Engine) sliceOp(st *State, f *Frame, x *ssa.Slice) {
	v := e.val(st, f, x.X)
	get := func(o ssa.Value, def int) int {
		if o == nil {
			return def
		}
		return e.cInt(st, e.val(st, f, o), 64)
	}
	switch s := v.(type) {
	case StrV:
		if x.Low == nil && x.High == nil {
			e.setRes(st, f, x, s)
			return
		}
		bs, ok := e.strBytes(s)
		if !ok {
			fail("slice of symbolic-length string")
		}
		lo, hi := get(x.Low, 0), get(x.High, len(bs))
		if lo < 0 || hi < lo || hi > len(bs) {
			e.gopanic(st, "slice bounds out of range")
		}
		e.setRes(st, f, x, e.bytesStr(bs[lo:hi]))
	case SliceV:
		lo, hi, mx := get(x.Low, 0), get(x.High, s.len), get(x.Max, s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			e.gopanic(st, "slice bounds out of range")
		}
		e.setRes(st, f, x, SliceV{p: s.p, off: s.off + lo, len: hi - lo, cap: mx - lo})
	case Ptr:
		if s.obj == 0 {
			e.gopanic(st, "nil dereference")
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, hi, mx := get(x.Low, 0), get(x.High, n), get(x.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			e.gopanic(st, "slice bounds out of range")
		}
		off := lo
		q := s
		if s.wlen > 0 {
			off += s.woff
			q = Ptr{obj: s.obj, path: s.path}
		}
		e.setRes(st, f, x, SliceV{p: q, off: off, len: hi - lo, cap: mx - lo})
	case GPtr:
		e.resolve(st, s) // forks; then re-executed below with the single alternative
		p := e.resolve(st, s)
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		e.setRes(st, f, x, SliceV{p: p, off: get(x.Low, 0), len: get(x.High, n) - get(x.Low, 0), cap: n - get(x.Low, 0)})
	default:
		fail("slice of %T", v)
	}
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	c := e.c
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case StrV:
			return x
		case *Term:
			return StrV{}.cat(StrV{[]Piece{{kind: 'r', t: x}}})
		case SliceV:
			var bs []*Term
			for i := 0; i < x.len; i++ {
				bs = append(bs, e.term(e.loadPtr(st, x.p.elem(x.off+i))))
			}
			if el, ok := from.Underlying().(*types.Slice); ok {
				if b, ok := el.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					var r StrV
					for _, t := range bs {
						r = r.cat(StrV{[]Piece{{kind: 'r', t: t}}})
					}
					return r
				}
			}
			return e.bytesStr(bs)
		}
		fail("convert %T to string", v)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(StrV); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				bs, ok := e.strBytes(s)
				if !ok {
					fail("[]byte of symbolic-length string")
				}
				out := e.mkSlice(st, sl.Elem(), len(bs), len(bs))
				a := &Agg{}
				for _, t := range bs {
					a.e = append(a.e, t)
				}
				st.heap[out.p.obj] = a
				return out
			}
			if cs, ok := s.concrete(); ok {
				a := &Agg{}
				for _, r := range cs {
					a.e = append(a.e, c.I(int64(r)))
				}
				out := e.mkSlice(st, sl.Elem(), len(a.e), len(a.e))
				st.heap[out.p.obj] = a
				return out
			}
		}
	}
	if tb != nil && tb.Kind() == types.UnsafePointer || fb != nil && fb.Kind() == types.UnsafePointer {
		fail("unsafe conversion")
	}
	if t, ok := v.(*Term); ok && tb != nil && fb != nil {
		switch {
		case tb.Info()&types.IsInteger != 0 && t.sort == SInt:
			bits, sg, _ := intInfo(to)
			return e.wrap(st, t, bits, sg)
		case tb.Info()&types.IsFloat != 0 && t.sort == SInt:
			return e.intToFloat(st, t)
		case tb.Info()&types.IsFloat != 0 && t.sort == SReal:
			return t
		case tb.Info()&types.IsInteger != 0 && t.sort == SReal:
			bits, sg, _ := intInfo(to)
			return e.floatToInt(st, t, bits, sg)
		}
	}
	fail("convert %s to %s", from, to)
	return nil
}

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) {
	v := e.val(st, f, x.X)
	iv, ok := v.(IfaceV)
	if !ok {
		fail("type assert on %T", v)
	}
	var good bool
	if iv.t != nil {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			good = types.Implements(iv.t, it)
		} else {
			good = types.Identical(iv.t, x.AssertedType)
		}
	}
	var r Value
	if good {
		if types.IsInterface(x.AssertedType) {
			r = iv
		} else {
			r = iv.v
		}
	} else {
		if !x.CommaOk {
			e.gopanic(st, "interface conversion")
		}
		r = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		r = Tuple{r, e.c.Bool(good)}
	}
	e.setRes(st, f, x, r)
}

func (e *Engine) mapFind(st *State, m MapV, k Value) (int, *MapData) {
	if m.obj == 0 {
		return -1, nil
	}
	d, ok := e.getObj(st, m.obj).(*MapData)
	if !ok {
		fail("opaque map")
	}
	for i, en := range d.ents {
		if e.branch(st, e.valEq(st, en.k, k)) {
			return i, d
		}
	}
	return -1, d
}

func (e *Engine) mapSet(st *State, m MapV, k, v Value) {
	i, d := e.mapFind(st, m, k)
	nd := &MapData{append([]MapEnt(nil), d.ents...)}
	if i >= 0 {
		nd.ents[i].v = v
	} else {
		nd.ents = append(nd.ents, MapEnt{k, v})
	}
	st.heap[m.obj] = nd
}

func (e *Engine) lookup(st *State, f *Frame, x *ssa.Lookup) {
	v := e.val(st, f, x.X)
	k := e.val(st, f, x.Index)
	if s, ok := v.(StrV); ok {
		e.setRes(st, f, x, e.indexVal(st, s, k))
		return
	}
	m, ok := v.(MapV)
	if !ok {
		fail("lookup in %T", v)
	}
	i, d := e.mapFind(st, m, k)
	var r Value
	if i >= 0 {
		r = d.ents[i].v
	} else {
		r = e.zero(x.X.Type().Underlying().(*types.Map).Elem())
	}
	if x.CommaOk {
		r = Tuple{r, e.c.Bool(i >= 0)}
	}
	e.setRes(st, f, x, r)
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) {
	it := e.val(st, f, x.Iter).(*RangeIt)
	if it.isM {
		n := *it
		// entries deleted meanwhile are not visited
		for n.i < len(n.ents) {
			en := n.ents[n.i]
			cur := e.getObj(st, n.obj).(*MapData)
			live := false
			for _, c := range cur.ents {
				if c.k == nil {
					continue
				}
				if q := e.valEq(st, c.k, en.k); q.op == OTrue {
					live = true
					en = c
				}
			}
			if live {
				break
			}
			n.i++
		}
		var r Tuple
		if n.i < len(n.ents) {
			en := n.ents[n.i]
			cur := e.getObj(st, n.obj).(*MapData)
			for _, c := range cur.ents {
				if q := e.valEq(st, c.k, en.k); q.op == OTrue {
					en = c
				}
			}
			n.i++
			r = Tuple{e.c.True, en.k, en.v}
		} else {
			tt := x.Type().(*types.Tuple)
			z := func(i int) Value {
				if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					return Tuple{}
				}
				return e.zero(tt.At(i).Type())
			}
			r = Tuple{e.c.False, z(1), z(2)}
		}
		// the iterator is a value in the frame: replace it
		f.env[f.info.slot[x.Iter]] = &n
		e.setRes(st, f, x, r)
		return
	}
	bs, ok := e.strBytes(*it.str)
	if !ok {
		fail("range over symbolic-length string")
	}
	n := *it
	if n.i >= len(bs) {
		e.setRes(st, f, x, Tuple{e.c.False, e.c.I(0), e.c.I(0)})
		return
	}
	b := bs[n.i]
	if !b.isConst() {
		if !e.branch(st, e.c.Lt(b, e.c.I(128))) {
			fail("range over non-ascii symbolic string")
		}
		r := Tuple{e.c.True, e.c.I(int64(n.i)), b}
		n.i++
		f.env[f.info.slot[x.Iter]] = &n
		e.setRes(st, f, x, r)
		return
	}
	s, ok2 := e.bytesStr(bs[n.i:]).concrete()
	if !ok2 && b.c.Int64() >= 128 {
		fail("range over mixed string")
	}
	w := 1
	ru := rune(b.c.Int64())
	if ok2 {
		for i, r := range s {
			if i > 0 {
				w = i
				break
			}
			ru = r
			w = len(s)
		}
	}
	r := Tuple{e.c.True, e.c.I(int64(n.i)), e.c.I(int64(ru))}
	n.i += w
	f.env[f.info.slot[x.Iter]] = &n
	e.setRes(st, f, x, r)
}

// ---- builtins

func growCap(old, need, elemSize int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	// malloc size classes for small objects
	sz := nc * elemSize
	classes := []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048}
	for _, k := range classes {
		if sz <= k {
			return k / elemSize
		}
	}
	return nc
}

func (e *Engine) sizeof(t types.Type) int {
	s := types.SizesFor("gc", "amd64").Sizeof(t)
	if s < 1 {
		s = 1
	}
	return int(s)
}

func (e *Engine) builtin(st *State, f *Frame, in ssa.Instruction, name string, args []Value) Value {
	c := e.c
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return c.I(int64(x.cap))
			}
			return c.I(int64(x.len))
		case StrV:
			if bs, ok := e.strBytes(x); ok {
				return c.I(int64(len(bs)))
			}
			fail("len of symbolic string")
		case MapV:
			if x.obj == 0 {
				return c.I(0)
			}
			return c.I(int64(len(e.getObj(st, x.obj).(*MapData).ents)))
		case *Agg:
			return c.I(int64(len(x.e)))
		case *Pack:
			return c.I(4)
		case Ptr:
			v := e.loadPtr(st, x)
			if a, ok := v.(*Agg); ok {
				return c.I(int64(len(a.e)))
			}
			if _, ok := v.(*Pack); ok {
				return c.I(4)
			}
		}
		fail("len of %T", args[0])
	case "append":
		s, ok := args[0].(SliceV)
		if !ok {
			fail("append to %T", args[0])
		}
		var els []Value
		switch y := args[1].(type) {
		case SliceV:
			for i := 0; i < y.len; i++ {
				els = append(els, e.loadPtr(st, y.p.elem(y.off+i)))
			}
		case StrV:
			bs, ok := e.strBytes(y)
			if !ok {
				fail("append symbolic string")
			}
			for _, b := range bs {
				els = append(els, b)
			}
		default:
			fail("append of %T", args[1])
		}
		if len(els) == 0 {
			return s
		}
		need := s.len + len(els)
		if need <= s.cap {
			for i, v := range els {
				e.storePtr(st, s.p.elem(s.off+s.len+i), v)
			}
			return SliceV{p: s.p, off: s.off, len: need, cap: s.cap}
		}
		el := in.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
		nc := growCap(s.cap, need, e.sizeof(el))
		out := e.mkSlice(st, el, need, nc)
		a := &Agg{append([]Value(nil), st.heap[out.p.obj].(*Agg).e...)}
		for i := 0; i < s.len; i++ {
			a.e[i] = e.loadPtr(st, s.p.elem(s.off+i))
		}
		copy(a.e[s.len:], els)
		st.heap[out.p.obj] = a
		return out
	case "copy":
		d := args[0].(SliceV)
		var els []Value
		switch y := args[1].(type) {
		case SliceV:
			for i := 0; i < y.len && i < d.len; i++ {
				els = append(els, e.loadPtr(st, y.p.elem(y.off+i)))
			}
		case StrV:
			bs, ok := e.strBytes(y)
			if !ok {
				fail("copy symbolic string")
			}
			for i := 0; i < len(bs) && i < d.len; i++ {
				els = append(els, bs[i])
			}
		}
		for i, v := range els {
			e.storePtr(st, d.p.elem(d.off+i), v)
		}
		return c.I(int64(len(els)))
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return Tuple{}
		}
		i, d := e.mapFind(st, m, args[1])
		if i >= 0 {
			nd := &MapData{}
			for j, en := range d.ents {
				if j != i {
					nd.ents = append(nd.ents, en)
				}
			}
			st.heap[m.obj] = nd
		}
		return Tuple{}
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := e.term(args[0])
		for _, a := range args[1:] {
			t := e.term(a)
			if r.sort == SReal {
				fail("float min/max")
			}
			if name == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(t, r), r, t)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			e.gopanic(st, "nil receiver")
		}
		return args[0]
	case "recover":
		return IfaceV{}
	case "clear":
		if m, ok := args[0].(MapV); ok && m.obj != 0 {
			st.heap[m.obj] = &MapData{}
			return Tuple{}
		}
		if s, ok := args[0].(SliceV); ok {
			cc := in.(*ssa.Call)
			el := cc.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < s.len; i++ {
				e.storePtr(st, s.p.elem(s.off+i), e.zero(el))
			}
			return Tuple{}
		}
	}
	fail("builtin %s", name)
	return nil
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
