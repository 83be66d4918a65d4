package main

import (
	"go/types"
)

// ---- deep snapshots

type SnapV struct{ n *snapNode }
type snapNode struct {
	kind string
	t    *Term
	s    StrV
	kids []*snapNode
	keys []Value
	tag  string
}

func (e *Engine) snap(st *State, v Value, seen map[Ptr]bool, depth int) *snapNode {
	if depth > 40 {
		fail("snapshot depth")
	}
	switch x := v.(type) {
	case *Term:
		return &snapNode{kind: "t", t: x}
	case *Pack:
		return &snapNode{kind: "u", t: x.t}
	case *BigV:
		return &snapNode{kind: "b", t: x.t}
	case StrV:
		return &snapNode{kind: "s", s: x}
	case *Agg:
		if len(x.e) == 4 {
			all := true
			for _, w := range x.e {
				if t, ok := w.(*Term); !ok || t.sort != SInt {
					all = false
				}
			}
			if all {
				return &snapNode{kind: "u", t: e.packOf(x)}
			}
		}
		n := &snapNode{kind: "a"}
		for _, w := range x.e {
			n.kids = append(n.kids, e.snap(st, w, seen, depth+1))
		}
		return n
	case Ptr:
		if x.obj == 0 {
			return &snapNode{kind: "nil"}
		}
		if seen[x] {
			return &snapNode{kind: "cycle"}
		}
		seen[x] = true
		n := &snapNode{kind: "p", kids: []*snapNode{e.snap(st, e.loadPtr(st, x), seen, depth+1)}}
		delete(seen, x)
		return n
	case GPtr:
		return e.snap(st, e.resolve(st, x), seen, depth)
	case MPtr:
		return e.snap(st, e.resolveM(st, x), seen, depth)
	case LamBox:
		return &snapNode{kind: "u", t: e.packOf(e.lamBoxLoad(st, x))}
	case SliceV:
		n := &snapNode{kind: "l"}
		for i := 0; i < x.len; i++ {
			n.kids = append(n.kids, e.snap(st, e.loadPtr(st, x.p.elem(x.off+i)), seen, depth+1))
		}
		return n
	case MapV:
		n := &snapNode{kind: "m"}
		if x.obj != 0 {
			for _, en := range e.getObj(st, x.obj).(*MapData).ents {
				n.keys = append(n.keys, en.k)
				n.kids = append(n.kids, e.snap(st, en.v, seen, depth+1))
			}
		}
		return n
	case IfaceV:
		if x.t == nil {
			return &snapNode{kind: "nil"}
		}
		return &snapNode{kind: "i", tag: x.t.String(), kids: []*snapNode{e.snap(st, x.v, seen, depth+1)}}
	case FuncV:
		return &snapNode{kind: "f"}
	case Opaque:
		return &snapNode{kind: "o"}
	}
	fail("snapshot of %T", v)
	return nil
}

func (e *Engine) same(st *State, a, b *snapNode) *Term {
	c := e.c
	if a.kind != b.kind || a.tag != b.tag || len(a.kids) != len(b.kids) {
		return c.False
	}
	switch a.kind {
	case "t", "u", "b":
		return c.Eq(a.t, b.t)
	case "s":
		return e.strEq(a.s, b.s)
	case "m":
		var out []*Term
		for i := range a.kids {
			// match keys
			var alts []*Term
			for j := range b.kids {
				k := e.valEq(st, a.keys[i], b.keys[j])
				if k.op == OFalse {
					continue
				}
				alts = append(alts, c.And(k, e.same(st, a.kids[i], b.kids[j])))
			}
			out = append(out, c.Or(alts...))
		}
		return c.And(out...)
	}
	var out []*Term
	for i := range a.kids {
		out = append(out, e.same(st, a.kids[i], b.kids[i]))
	}
	return c.And(out...)
}

func (e *Engine) snapCall(st *State, s string, args []Value) Value {
	if s == "Snap" {
		v := args[0]
		return SnapV{e.snap(st, v, map[Ptr]bool{}, 0)}
	}
	a, ok1 := args[0].(SnapV)
	b, ok2 := args[1].(SnapV)
	if !ok1 || !ok2 {
		fail("Same on %T/%T", args[0], args[1])
	}
	return e.same(st, a.n, b.n)
}

var _ = types.Typ
