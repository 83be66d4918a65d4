package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop cuts.  sym.Cut(fn, inv) registers an invariant for the outermost loop
// of fn.  inv(assert bool, i int) is harness code: with assert it states the
// invariant with sym.Lemma, without it overwrites everything the loop changes
// with fresh values (sym.Havoc64) and assumes the invariant.  i is the loop's
// integer phi.  Every path that reaches the loop header again asserts the
// invariant and ends, except the first for each value of i, which continues
// from the overwritten state under the path condition of the loop's entry.

func domHeader(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (e *Engine) cutClosure(st *State, f *Frame) (FuncV, bool) {
	n := fnName(f.fn)
	for k, v := range st.cutFns {
		if n == k || strings.HasSuffix(n, "."+k) {
			return v, true
		}
	}
	return FuncV{}, false
}

func (e *Engine) arriveCut(st *State, f *Frame, to *ssa.BasicBlock) {
	if _, ok := e.cutClosure(st, f); !ok || !domHeader(f.fn, to) {
		return
	}
	back := to.Dominates(f.prev)
	if f.cut != nil && f.cut.hdr != to {
		if !back && !f.cut.hdr.Dominates(to) {
			fail("second loop in a cut function")
		}
		return // inner loop
	}
	if f.cut == nil {
		e.ncut++
		f.cut = &cutFrame{uid: e.ncut, hdr: to}
	}
	f.cut.phase = 1
	f.cut.back = back
}

// stepCut advances the cut protocol; true when it consumed the step.
func (e *Engine) stepCut(st *State, f *Frame) bool {
	fv, _ := e.cutClosure(st, f)
	key := fmt.Sprintf("%d", f.cut.uid)
	idx := e.c.I(0)
	for _, in := range f.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t, ok := f.env[f.info.slot[ph]].(*Term)
		if !ok || !t.isConst() {
			fail("cut: loop-carried value %s is not concrete", ph.Name())
		}
		key += "," + t.c.String()
		idx = t
	}
	call := func(assert bool) {
		a := []Value{e.c.Bool(assert), idx}
		fr := e.pushFrame(st, fv.fn, a, fv.bind, nil)
		fr.ret = nil
	}
	switch f.cut.phase {
	case 1:
		f.cut.phase = 2
		call(true)
		return true
	case 2:
		if !f.cut.back {
			f.cut.npc = len(st.pc)
			f.cut.entry = map[int]Value{}
			for k, v := range st.heap {
				f.cut.entry[k] = v
			}
			f.cut.phase = 0
			return false
		}
		if e.cutSeen == nil {
			e.cutSeen = map[string]bool{}
		}
		if e.cutSeen[key] {
			panic(pathEnd{"cut-merged"})
		}
		e.cutSeen[key] = true
		// what did the loop body change?
		mod := map[int]bool{}
		for k, v := range f.cut.entry {
			if !sameV(st.heap[k], v) {
				mod[k] = true
			}
		}
		f.cut.mod = mod
		st.pc = append([]*Term(nil), st.pc[:f.cut.npc]...)
		st.pcset = map[int]bool{}
		for _, p := range st.pc {
			st.pcset[p.id] = true
		}
		st.model, st.ev = nil, nil
		h := map[int]Value{}
		for k, v := range st.heap {
			h[k] = v
		}
		f.cut.heap = h
		f.cut.phase = 3
		call(false)
		return true
	case 3:
		for k := range f.cut.mod {
			if sameV(st.heap[k], f.cut.heap[k]) {
				fail("cut: the loop changes an object the invariant does not cover")
			}
		}
		f.cut.phase = 0
		f.cut.heap, f.cut.mod = nil, nil
		return false
	}
	return false
}

func sameV(a, b Value) (same bool) {
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	switch x := a.(type) {
	case StrV:
		y, ok := b.(StrV)
		return ok && len(x.ps) == len(y.ps) && (len(x.ps) == 0 || &x.ps[0] == &y.ps[0])
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.fn == y.fn && x.bi == y.bi && len(x.bind) == len(y.bind) && (len(x.bind) == 0 || &x.bind[0] == &y.bind[0])
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case GPtr:
		y, ok := b.(GPtr)
		return ok && len(x.alts) == len(y.alts) && (len(x.alts) == 0 || &x.alts[0] == &y.alts[0])
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.t == y.t && sameV(x.v, y.v)
	}
	return a == b
}
