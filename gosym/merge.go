package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Joining of branches.  With sym.Merge(true) a conditional whose two sides
// meet again (at the block that post-dominates it, or by returning from the
// function) without a further unavoidable case split is executed on both
// sides and the two states are joined into one: values that differ become
// if-then-else terms, pointers that differ become MPtr, facts learned on one
// side are kept under that side's condition.

// MPtr points where a points if c holds and where b points otherwise.
type MPtr struct {
	c    *Term
	a, b Value // Ptr, GPtr, MPtr
}

type mergeAbort struct{ why string }

func (e *Engine) ipdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if e.ipd == nil {
		e.ipd = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	if m, ok := e.ipd[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	pd := make([][]bool, n) // pd[i][j]: j post-dominates i
	for i := range pd {
		pd[i] = make([]bool, n)
		for j := range pd[i] {
			pd[i][j] = len(fn.Blocks[i].Succs) > 0 || i == j
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				v := i == j
				if !v {
					v = true
					for _, s := range b.Succs {
						v = v && pd[s.Index][j]
					}
				}
				if v != pd[i][j] {
					pd[i][j] = v
					ch = true
				}
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := 0; i < n; i++ {
		// the closest strict post-dominator is post-dominated by all others
		for j := 0; j < n; j++ {
			if j == i || !pd[i][j] {
				continue
			}
			ok := true
			for k := 0; k < n; k++ {
				if k != i && k != j && pd[i][k] && !pd[j][k] {
					ok = false
				}
			}
			if ok {
				m[fn.Blocks[i]] = fn.Blocks[j]
			}
		}
	}
	e.ipd[fn] = m
	return m
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if domHeader(fn, b) {
			return true
		}
	}
	return false
}

func (e *Engine) tryMerge(st *State, f *Frame, x *ssa.If, cond *Term) bool {
	if !st.merge || cond.op == OTrue || cond.op == OFalse || st.pcset[cond.id] || st.pcset[e.c.Not(cond).id] {
		return false
	}
	if fnPkg(f.fn) == nil || !e.p.inModule(f.fn) || domHeader(f.fn, f.blk) || e.noFork > 40 {
		return false
	}
	pd := e.ipdom(f.fn)[f.blk]
	if pd == nil && (hasLoop(f.fn) || len(st.frames) < 2 || len(f.defers) > 0) {
		return false
	}
	if pd != nil && (f.cut != nil && f.cut.hdr == pd || f.loop != nil && f.loop.hdr == pd || f.fill != nil && f.fill.hdr == pd) {
		return false
	}
	d := len(st.frames)
	sub := func(k int, c *Term) (o *State) {
		o = st.clone()
		e.assume(o, c)
		if ev := e.evl(o); ev != nil {
			ev.bad = false
			if !ev.Bool(c) || ev.bad {
				o.model, o.ev = nil, nil
			}
		}
		e.noFork++
		defer func() {
			e.noFork--
			if r := recover(); r != nil {
				if e.stop {
					panic(r)
				}
				switch r.(type) {
				case goPanic, pathEnd, engErr, mergeAbort:
					if mergeTrace {
						println("merge abort", e.where(o), f.fn.String())
					}
					o = nil
				default:
					panic(r)
				}
			}
		}()
		e.jump(o, o.top(), f.blk.Succs[k])
		for {
			if len(o.frames) == d-1 && pd == nil {
				return o
			}
			if len(o.frames) < d || o.done {
				return nil
			}
			if len(o.frames) == d && pd != nil && o.top().blk == pd {
				return o
			}
			if o.steps-st.steps > 50000 {
				return nil
			}
			e.step(o)
		}
	}
	a := sub(0, cond)
	if a == nil {
		return false
	}
	b := sub(1, e.c.Not(cond))
	if b == nil {
		return false
	}
	m := e.joinStates(st, a, b, cond)
	if m == nil {
		if mergeTrace {
			println("merge join failed", e.where(st))
		}
		return false
	}
	e.nmerge++
	id := st.id
	*st = *m
	st.id = id
	return true
}

func (e *Engine) joinStates(st, a, b *State, cond *Term) (res *State) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, engErr:
				if mergeTrace {
					println("join:", fmt.Sprint(r))
				}
				res = nil
			default:
				panic(r)
			}
		}
	}()
	c := e.c
	m := a.clone()
	no := func(why string) *State {
		if mergeTrace {
			println("join:", why)
		}
		return nil
	}
	if len(a.inputs) != len(b.inputs) || len(a.probes) != len(b.probes) || len(a.frames) != len(b.frames) || len(a.cons) != len(b.cons) {
		return no("#1")
	}
	for k, v := range a.cons {
		if b.cons[k] != v {
			return no("#2")
		}
	}
	for k, v := range b.names {
		if v > m.names[k] {
			m.names[k] = v
		}
	}
	for i, f := range m.frames {
		g := b.frames[i]
		if f.fn != g.fn || f.blk != g.blk || f.ip != g.ip || len(f.defers) != len(g.defers) || f.ret != g.ret {
			return no("#3")
		}
		for k := range f.defers {
			if !sameV(f.defers[k].fn, g.defers[k].fn) {
				return no("#4")
			}
		}
		top := i == len(m.frames)-1
		for k := range f.env {
			if f.env[k] == nil || g.env[k] == nil {
				f.env[k] = nil
				continue
			}
			if sameV(f.env[k], g.env[k]) {
				continue
			}
			if !top {
				return no("#5")
			}
			v := e.joinV(cond, f.env[k], g.env[k], true)
			f.env[k] = v // nil: not usable afterwards
		}
		for k, v := range g.forks {
			if v > f.forks[k] {
				f.forks[k] = v
			}
		}
	}
	for id, v := range b.heap {
		av, ok := a.heap[id]
		if !ok {
			if bv, ok2 := e.base[id]; ok2 {
				av = bv
			} else {
				m.heap[id] = v
				continue
			}
		}
		if !sameV(av, v) {
			m.heap[id] = e.joinV(cond, av, v, false)
		}
	}
	for id, v := range a.heap {
		if _, ok := b.heap[id]; !ok {
			if bv, ok2 := e.base[id]; ok2 && !sameV(v, bv) {
				m.heap[id] = e.joinV(cond, v, bv, false)
			}
		}
	}
	n := len(st.pc)
	m.pc = append([]*Term(nil), st.pc...)
	m.pcset = map[int]bool{}
	for _, p := range m.pc {
		m.pcset[p.id] = true
	}
	nc := c.Not(cond)
	add := func(o *State, g *Term) {
		for _, p := range o.pc[n:] {
			if p != g {
				e.assume(m, c.Implies(g, p))
			}
		}
	}
	add(a, cond)
	add(b, nc)
	m.model, m.ev = a.model, nil
	if m.model == nil {
		m.model = b.model
	}
	if b.steps > m.steps {
		m.steps = b.steps
	}
	return m
}

// joinV is the value that is a if cond and b otherwise.
func (e *Engine) joinV(cond *Term, a, b Value, soft bool) Value {
	c := e.c
	bad := func(why string) Value {
		if soft {
			return nil
		}
		fail("join of different %s", why)
		return nil
	}
	if sameV(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return c.Ite(cond, x, y)
		}
	case *Pack:
		switch b.(type) {
		case *Pack, *Agg:
			return &Pack{c.Ite(cond, x.t, e.packOf(b))}
		}
	case *BigV:
		if y, ok := b.(*BigV); ok {
			return &BigV{c.Ite(cond, x.t, y.t)}
		}
	case *Agg:
		if y, ok := b.(*Pack); ok {
			return &Pack{c.Ite(cond, e.packOf(x), y.t)}
		}
		y, ok := b.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return bad("aggregates")
		}
		r := &Agg{make([]Value, len(x.e))}
		for i := range x.e {
			if r.e[i] = e.joinV(cond, x.e[i], y.e[i], soft); r.e[i] == nil {
				return nil
			}
		}
		return r
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return bad("tuples")
		}
		r := make(Tuple, len(x))
		for i := range x {
			if r[i] = e.joinV(cond, x[i], y[i], soft); r[i] == nil {
				return nil
			}
		}
		return r
	case Ptr, MPtr:
		if p, ok := a.(Ptr); ok && p.obj == 0 {
			return bad("nil")
		}
		switch y := b.(type) {
		case Ptr:
			if y.obj == 0 {
				return bad("nil")
			}
			return MPtr{cond, a, b}
		case MPtr:
			return MPtr{cond, a, b}
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok && x.t == y.t && x.t != nil {
			if v := e.joinV(cond, x.v, y.v, soft); v != nil {
				return IfaceV{x.t, v}
			}
			return nil
		}
	case StrV:
		if y, ok := b.(StrV); ok && e.strEq(x, y).op == OTrue {
			return a
		}
	}
	return bad("values")
}

// resolveM picks one side of a joined pointer by branching.
func (e *Engine) resolveM(st *State, p MPtr) Value {
	if e.branch(st, p.c) {
		return p.a
	}
	return p.b
}

// loadM reads through a joined pointer without branching when it can.
func (e *Engine) loadM(st *State, p MPtr) Value {
	get := func(q Value) Value {
		switch x := q.(type) {
		case MPtr:
			return e.loadM(st, x)
		case Ptr:
			return e.loadPtr(st, x)
		}
		fail("joined pointer %T", q)
		return nil
	}
	a, b := get(p.a), get(p.b)
	if v := e.joinV(p.c, a, b, true); v != nil {
		return v
	}
	return e.load(st, e.resolveM(st, p))
}

// storeM writes through a joined pointer: each target keeps its old value on
// the other side.
func (e *Engine) storeM(st *State, p MPtr, v Value) {
	var put func(q Value, g *Term)
	put = func(q Value, g *Term) {
		switch x := q.(type) {
		case MPtr:
			put(x.a, e.c.And(g, x.c))
			put(x.b, e.c.And(g, e.c.Not(x.c)))
		case Ptr:
			e.storePtr(st, x, e.joinV(g, v, e.loadPtr(st, x), false))
		default:
			fail("joined pointer %T", q)
		}
	}
	put(p, e.c.True)
}

var mergeTrace = os.Getenv("GOSYM_MERGE") != ""
