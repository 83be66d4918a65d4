package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop invariants over the values a loop carries.  sym.Loop(fn, n, inv)
// registers an invariant for the outermost loop of fn, which must carry
// exactly n used values: integers, or pointers to 256-bit numbers (then what
// they point to).  inv(phase, old, now) is harness code: phase 0 states the
// invariant on entry, phase 1 assumes it for arbitrary values, phase 2 states
// it again after one pass through the body (old: before it) together with
// what must have decreased.  A path that comes back to the header ends there;
// a path that leaves the loop goes on from the arbitrary values.

type loopReg struct {
	n  int
	fn FuncV
}

type loopFrame struct {
	hdr   *ssa.BasicBlock
	phase int // 0 idle, 1 arrived first, 2 entry stated, 3 assumed, 4 arrived again, 5 stated again
	old   []*Term
	entry map[int]Value
	order []int
	fresh map[int]bool
}

func (e *Engine) loopClosure(st *State, f *Frame) (loopReg, bool) {
	n := fnName(f.fn)
	for k, v := range st.loops {
		if n == k || strings.HasSuffix(n, "."+k) {
			return v, true
		}
	}
	// a helper that holds the loop of a function without one
	if len(st.loops) == 0 || fnPkg(f.fn) == nil || !e.p.inModule(f.fn) || ours(n) || !hasLoop(f.fn) {
		return loopReg{}, false
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		g := st.frames[i]
		if g == f {
			continue
		}
		if fnPkg(g.fn) != fnPkg(f.fn) {
			break
		}
		m := fnName(g.fn)
		for k, v := range st.loops {
			if m == k || strings.HasSuffix(m, "."+k) {
				return v, !hasLoop(g.fn)
			}
		}
	}
	return loopReg{}, false
}

func usedPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		used := false
		for _, r := range *ph.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); !dbg && r != ssa.Instruction(ph) {
				used = true
			}
		}
		if used {
			out = append(out, ph)
		}
	}
	return out
}

func (e *Engine) arriveLoop(st *State, f *Frame, to *ssa.BasicBlock) {
	if _, ok := e.loopClosure(st, f); !ok || !domHeader(f.fn, to) {
		return
	}
	back := to.Dominates(f.prev)
	if f.loop == nil {
		if back {
			fail("loop entered before its invariant")
		}
		f.loop = &loopFrame{hdr: to, phase: 1}
		return
	}
	if f.loop.hdr != to {
		if f.loop.hdr.Dominates(to) {
			return // inner loop
		}
		fail("second loop in a function with a loop invariant")
	}
	if !back {
		fail("loop entered twice")
	}
	f.loop.phase = 4
}

func (e *Engine) loopVals(st *State, f *Frame, n int) []*Term {
	ps := usedPhis(f.loop.hdr)
	if len(ps) != n {
		fail("loop carries %d values, the invariant is about %d", len(ps), n)
	}
	var out []*Term
	seen := map[int]bool{}
	for _, p := range ps {
		switch v := f.env[f.info.slot[p]].(type) {
		case *Term:
			if v.sort != SInt {
				fail("loop carries a %s", p.Type())
			}
			out = append(out, v)
		case Ptr:
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if !ok || !isInt256(pt.Elem()) || v.path != "" || v.obj == 0 || seen[v.obj] {
				fail("loop carries a %s", p.Type())
			}
			seen[v.obj] = true
			out = append(out, e.u256(st, v))
		default:
			fail("loop carries a %s", p.Type())
		}
	}
	return out
}

func (e *Engine) stepLoop(st *State, f *Frame) bool {
	reg, _ := e.loopClosure(st, f)
	L := f.loop
	call := func(phase int, old, now []*Term) {
		sl := func(ts []*Term) Value {
			if ts == nil {
				return SliceV{}
			}
			a := &Agg{}
			for _, i := range L.order {
				a.e = append(a.e, ts[i])
			}
			return SliceV{p: Ptr{obj: e.alloc(st, a)}, len: len(a.e), cap: len(a.e)}
		}
		fr := e.pushFrame(st, reg.fn.fn, []Value{e.c.I(int64(phase)), sl(old), sl(now)}, reg.fn.bind, nil)
		fr.ret = nil
	}
	switch L.phase {
	case 1:
		now := e.loopVals(st, f, reg.n)
		// largest constant first, anything symbolic before
		L.order = nil
		for i := range now {
			L.order = append(L.order, i)
		}
		sort.SliceStable(L.order, func(a, b int) bool {
			x, y := now[L.order[a]], now[L.order[b]]
			if x.isConst() && y.isConst() {
				return x.c.Cmp(y.c) > 0
			}
			return !x.isConst() && y.isConst()
		})
		L.phase = 2
		call(0, nil, now)
		return true
	case 2:
		var vals []*Term
		L.fresh = map[int]bool{}
		for _, p := range usedPhis(L.hdr) {
			s := f.info.slot[p]
			switch v := f.env[s].(type) {
			case *Term:
				_, signed, _ := intInfo(p.Type())
				lo, hi := bi0, bsub(pow2(64), bi1)
				if signed {
					lo, hi = bneg(pow2(63)), bsub(pow2(63), bi1)
				}
				t := e.c.Fresh("lp", SInt, lo, hi)
				f.env[s] = t
				vals = append(vals, t)
			case Ptr:
				t := e.c.Fresh("lp", SInt, bi0, bsub(pow2(256), bi1))
				st.heap[v.obj] = Opaque{"changed by a loop"}
				np := e.newBoxed(st, &Pack{t})
				L.fresh[np.obj] = true
				f.env[s] = np
				vals = append(vals, t)
			}
		}
		st.model, st.ev = nil, nil
		L.old = vals
		L.phase = 3
		call(1, nil, vals)
		return true
	case 3:
		L.entry = map[int]Value{}
		for k, v := range st.heap {
			L.entry[k] = v
		}
		L.phase = 0
		return false
	case 4:
		for k, v := range L.entry {
			if !sameV(st.heap[k], v) && !L.fresh[k] {
				fail("the loop changes an object its invariant does not cover")
			}
		}
		now := e.loopVals(st, f, reg.n)
		L.phase = 5
		call(2, L.old, now)
		return true
	case 5:
		panic(pathEnd{"cut-merged"})
	}
	return false
}

// ---- large tables

// LamArr stands for an array too long to be kept element by element.
type LamArr struct {
	mode byte  // 'z' all nil, 'f' filled below k, 'F' filled (known at k only), 's' square-root price table
	k    *Term // 'f', 'F'
	sets []lamSet
	wr   []lamW
}
type lamSet struct {
	idx *Term
	v   Value
}
type lamW struct{ idx, v *Term }

// LamPtr is the address of an element; LamBox the element of the price table
// itself (a pointer to a number); w>0: its word w-1.
type LamPtr struct {
	p   Ptr
	idx *Term
}
type LamBox struct {
	p   Ptr
	idx *Term
	w   int
}

func (e *Engine) lamAt(st *State, p Ptr) *LamArr {
	l, _ := e.loadPtr(st, p).(*LamArr)
	return l
}

func (e *Engine) lamIndex(st *State, p Ptr, i *Term, n int) Value {
	c := e.c
	if !e.branch(st, c.And(c.Le(c.I(0), i), c.Lt(i, c.I(int64(n))))) {
		e.gopanic(st, fmt.Sprintf("index out of range with length %d", n))
	}
	return LamPtr{p, i}
}

func (e *Engine) lamLoad(st *State, p LamPtr) Value {
	l := e.lamAt(st, p.p)
	if l == nil {
		fail("large array")
	}
	c := e.c
	for i := len(l.sets) - 1; i >= 0; i-- {
		if e.branch(st, c.Eq(l.sets[i].idx, p.idx)) {
			return l.sets[i].v
		}
	}
	switch l.mode {
	case 'z':
		return Ptr{}
	case 'f':
		if !e.branch(st, c.Le(l.k, p.idx)) {
			fail("element filled in an earlier round")
		}
		return Ptr{}
	case 'F':
		fail("element filled in another round")
	}
	return LamBox{p.p, p.idx, 0}
}

func (e *Engine) lamStore(st *State, p LamPtr, v Value) {
	l := e.lamAt(st, p.p)
	if l == nil {
		fail("large array")
	}
	n := *l
	n.sets = append(append([]lamSet(nil), l.sets...), lamSet{p.idx, v})
	e.storePtr(st, p.p, &n)
}

func (e *Engine) lamVal(st *State, b LamBox) *Term {
	c := e.c
	l := e.lamAt(st, b.p)
	v := e.sqrtRatio(c.Sub(b.idx, c.I(maxTick)))
	for _, w := range l.wr {
		v = c.Ite(c.Eq(w.idx, b.idx), w.v, v)
	}
	return v
}

func (e *Engine) lamBoxLoad(st *State, b LamBox) Value {
	t := e.lamVal(st, b)
	if b.w > 0 {
		return e.c.Extract(t, 64*(b.w-1), 64)
	}
	return &Pack{t}
}

func (e *Engine) lamBoxStore(st *State, b LamBox, v Value) {
	var t *Term
	if b.w > 0 {
		t = e.packOf(e.setElem(&Pack{e.lamVal(st, b)}, []int{b.w - 1}, v))
	} else {
		t = e.packOf(v)
	}
	l := *e.lamAt(st, b.p)
	l.wr = append(append([]lamW(nil), l.wr...), lamW{b.idx, t})
	e.storePtr(st, b.p, &l)
}

// sym.Reinit(pkg, k): runs the initialiser of a package again; the loop in it
// that fills a large table is run once for an arbitrary round, the one that
// fills element k.

func touchesBig(fn *ssa.Function, from *ssa.BasicBlock, depth int) bool {
	for _, b := range fn.Blocks {
		if from != nil && !from.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				t := x.X.Type().Underlying()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem().Underlying()
				}
				if a, ok := t.(*types.Array); ok && a.Len() > maxIdx {
					return true
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && depth > 0 && g.Pkg == fn.Pkg && touchesBig(g, nil, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

func findLam(v Value, pre Ptr, out *[]Ptr) {
	switch x := v.(type) {
	case *LamArr:
		*out = append(*out, pre)
	case *Agg:
		if len(x.e) < 64 {
			for i, w := range x.e {
				findLam(w, pre.elem(i), out)
			}
		}
	}
}

func (e *Engine) arriveFill(st *State, f *Frame, to *ssa.BasicBlock) {
	if !domHeader(f.fn, to) {
		return
	}
	c := e.c
	back := to.Dominates(f.prev)
	if f.fill == nil && (back || !touchesBig(f.fn, to, 2)) {
		return
	}
	if f.fill != nil && f.fill.hdr != to {
		return
	}
	ps := usedPhis(to)
	if len(ps) != 1 {
		fail("fill loop carries %d values", len(ps))
	}
	slot := f.info.slot[ps[0]]
	v, ok := f.env[slot].(*Term)
	if !ok || v.sort != SInt {
		fail("fill loop carries a %s", ps[0].Type())
	}
	if !back {
		var ls []Ptr
		for id, o := range st.heap {
			findLam(o, Ptr{obj: id}, &ls)
		}
		if len(ls) != 1 || !v.isConst() {
			fail("fill loop: %d tables", len(ls))
		}
		l := e.lamAt(st, ls[0])
		if l.mode != 'z' || len(l.sets) > 0 {
			fail("fill loop over a table in use")
		}
		e.storePtr(st, ls[0], &LamArr{mode: 'f', k: st.fillK})
		f.fill = &fillFrame{hdr: to, e0: v, at: ls[0], entry: map[int]Value{}}
		for k, o := range st.heap {
			f.fill.entry[k] = o
		}
		f.env[slot] = c.Add(v, st.fillK)
		return
	}
	if !e.implied(st, c.Eq(v, c.Add(c.Add(f.fill.e0, st.fillK), c.I(1)))) {
		fail("fill loop: round %s", v)
	}
	for k, o := range f.fill.entry {
		if k != f.fill.at.obj && !sameV(st.heap[k], o) {
			fail("fill loop changes another object")
		}
	}
	l := e.lamAt(st, f.fill.at)
	if l == nil || len(l.sets) != 1 || len(l.wr) > 0 || !e.implied(st, c.Eq(l.sets[0].idx, st.fillK)) {
		fail("fill loop: writes of one round")
	}
	n := *l
	n.mode = 'F'
	e.storePtr(st, f.fill.at, &n)
	f.env[slot] = c.Add(f.fill.e0, c.I(2*maxTick+1))
	f.fill = nil
}

type fillFrame struct {
	hdr   *ssa.BasicBlock
	e0    *Term
	at    Ptr
	entry map[int]Value
}

func (e *Engine) reinit(st *State, in ssa.Instruction, path string, k *Term) {
	for _, pk := range e.p.prog.AllPackages() {
		if pk.Pkg.Path() != path && !strings.HasSuffix(pk.Pkg.Path(), "/"+path) || strings.Contains(pk.Pkg.Path(), "zzverif") {
			continue
		}
		pk.Build()
		fn := pk.Func("init")
		if fn == nil {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				p := e.globalPtr(st, g).(Ptr)
				st.heap[p.obj] = e.zero(g.Type().(*types.Pointer).Elem())
			}
		}
		e.lamOn = true
		st.fillK = k
		e.pushFrame(st, fn, nil, nil, in)
		return
	}
	fail("no package %s", path)
}

// tickTable replaces what the pointer variable at pv points to by a fresh
// object whose large array is the square-root price table.
func (e *Engine) tickTable(st *State, pv Value) {
	iv, ok := pv.(IfaceV)
	if !ok {
		fail("TickTable on %T", pv)
	}
	pt := iv.t.Underlying().(*types.Pointer).Elem()
	et, ok := pt.Underlying().(*types.Pointer)
	if !ok {
		fail("TickTable on a %s", pt)
	}
	e.lamOn = true
	id := e.alloc(st, e.zero(et.Elem()))
	var ls []Ptr
	findLam(st.heap[id], Ptr{obj: id}, &ls)
	if len(ls) != 1 {
		fail("TickTable: %d tables", len(ls))
	}
	e.storePtr(st, ls[0], &LamArr{mode: 's'})
	gp, ok := iv.v.(Ptr)
	if !ok || gp.path != "" {
		fail("TickTable needs a variable")
	}
	st.heap[gp.obj] = Ptr{obj: id}
}
