package main

// Presolving of a query: equations that determine a variable and bounds on a
// single variable are substituted through the remaining assertions, which are
// rebuilt by the normalising constructors.  Everything here is an equivalence
// of assertion sets; models are translated back.

import "math/big"

type substT struct {
	c    *Ctx
	m    map[int]*Term // term id -> replacement (range contained in the term's)
	mm   map[int]*Term
	hit  map[int]bool // leaves of replaced terms
	divs bool         // some replaced term is not a variable
}

func (s *substT) set(t, r *Term) {
	s.m[t.id] = r
	for k := range t.leafSet() {
		s.hit[k] = true
	}
}

func (s *substT) term(t *Term) *Term {
	if r, ok := s.mm[t.id]; ok {
		return r
	}
	c := s.c
	r := t
	if r, ok := s.m[t.id]; ok {
		s.mm[t.id] = r
		return r
	}
	hit := false
	for k := range t.leafSet() {
		if s.hit[k] {
			hit = true
			break
		}
	}
	if !hit {
		// UF arguments are part of leafSet only through their own leaves
		s.mm[t.id] = t
		return t
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = s.term(a)
	}
	switch t.op {
	case OVar:
	case OPoly:
		r = c.Int(t.c)
		for _, m := range t.monos {
			p := c.Int(m.c)
			for _, a := range m.a {
				p = c.Mul(p, s.term(a))
			}
			r = c.Add(r, p)
		}
	case ODiv:
		if as[1].isConst() && as[1].c.Sign() <= 0 {
			r = c.I(0)
		} else {
			r = c.Div(as[0], as[1])
		}
	case OIte:
		r = c.Ite(as[0], as[1], as[2])
	case OUF:
		r = c.UF(t.name, t.sort, t.lo, t.hi, as...)
	case OBAnd:
		if as[0].nonneg() && as[1].nonneg() {
			r = c.BAnd(as[0], as[1])
		} else {
			r = c.bitop(OBAnd, as[0], as[1])
		}
	case OBOr:
		if as[0].nonneg() && as[1].nonneg() {
			r = c.BOr(as[0], as[1])
		} else {
			r = c.bitop(OBOr, as[0], as[1])
		}
	case OBXor:
		if as[0].nonneg() && as[1].nonneg() {
			r = c.BXor(as[0], as[1])
		} else {
			r = c.bitop(OBXor, as[0], as[1])
		}
	case OPow2:
		if as[0].isConst() && (as[0].c.Sign() < 0 || as[0].c.BitLen() > 16) {
			r = c.I(1)
		} else {
			r = c.Pow2(as[0])
		}
	case ONot:
		r = c.Not(as[0])
	case OAnd:
		r = c.And(as...)
	case OOr:
		r = c.Or(as...)
	case OGe0:
		r = c.ge0(as[0])
	case OEq0:
		r = c.eq0(as[0])
	case ORAdd, ORMul, ORDiv:
		r = c.rop(t.op, as[0], as[1])
	case OToReal:
		r = c.ToReal(as[0])
	case OFloor:
		r = c.Floor(as[0])
	case ORLe, ORLt, OREq:
		r = c.rcmp(t.op, as[0], as[1])
	default:
		panic("subst: " + t.String())
	}
	if t.sort == SInt && r.op != OConst && !s.divs {
		// an instance of a term with a universally valid range
		c.refine(r, t.lo, t.hi)
	}
	s.mm[t.id] = r
	return r
}

type presolved struct {
	as    []*Term
	subs  []*substT
	leafs []*Term // leaves of the original assertions
	unsat bool
}

func (c *Ctx) presolve(as []*Term) *presolved {
	ps := &presolved{as: as}
	orig := as
	for round := 0; round < 12; round++ {
		sub := &substT{c: c, m: map[int]*Term{}, mm: map[int]*Term{}, hit: map[int]bool{}}
		var add []*Term
		flat := flatAnd(ps.as)
		for _, a := range flat {
			if a.op == OFalse {
				ps.unsat = true
				return ps
			}
		}
		// facts about single variables
		type rg struct {
			v      *Term
			lo, hi *big.Int
		}
		rgs := map[int]*rg{}
		var order []int
		get := func(v *Term) *rg {
			r := rgs[v.id]
			if r == nil {
				r = &rg{v, v.lo, v.hi}
				rgs[v.id] = r
				order = append(order, v.id)
			}
			return r
		}
		done := map[int]bool{}
		busy := map[int]bool{}
		var bools []*Term
		for _, a := range flat {
			if a.op == OVar && a.sort == SBool {
				bools = append(bools, a)
				sub.set(a, c.True)
				done[a.id] = true
				continue
			}
			if a.op == ONot && a.args[0].op == OVar {
				bools = append(bools, a)
				sub.set(a.args[0], c.False)
				done[a.id] = true
				continue
			}
			ne := a.op == ONot && a.args[0].op == OEq0
			if a.op != OGe0 && a.op != OEq0 && !ne {
				continue
			}
			p := a.args[0]
			if ne {
				p = p.args[0]
			}
			ms, k := p.polyParts()
			if len(ms) == 1 && len(ms[0].a) == 1 && presolvable(ms[0].a[0]) && ms[0].c.CmpAbs(bi1) == 0 {
				r := get(ms[0].a[0])
				pos := ms[0].c.Sign() > 0
				vp := bneg(k)
				if !pos {
					vp = k
				}
				if ne {
					if r.lo != nil && vp.Cmp(r.lo) == 0 {
						r.lo = badd(r.lo, bi1)
					} else if r.hi != nil && vp.Cmp(r.hi) == 0 {
						r.hi = bsub(r.hi, bi1)
					}
					continue // kept: it folds away when implied
				}
				if (pos || a.op == OEq0) && (r.lo == nil || vp.Cmp(r.lo) > 0) {
					r.lo = vp
				}
				if (!pos || a.op == OEq0) && (r.hi == nil || vp.Cmp(r.hi) < 0) {
					r.hi = vp
				}
				if r.v.op == OVar {
					done[a.id] = true
				}
				continue
			}
			if ne {
				continue
			}
			// interval propagation through a linear constraint
			for i, m := range ms {
				if len(m.a) != 1 || m.a[0].op != OVar {
					continue
				}
				rest := make([]Mono, 0, len(ms))
				rest = append(rest, ms[:i]...)
				rest = append(rest, ms[i+1:]...)
				rl, rh := polyRange(rest, k)
				var r *rg
				// m.c*v + rest >= 0  (and <= 0 for an equation)
				bound := func(q *big.Int, ge bool) {
					// m.c*v >= -q (ge) or <= -q
					if q == nil {
						return
					}
					if r == nil {
						r = get(m.a[0])
					}
					n := bneg(q)
					if (m.c.Sign() > 0) == ge {
						v := bceil(n, m.c)
						if r.lo == nil || v.Cmp(r.lo) > 0 {
							r.lo = v
						}
					} else {
						v := bfdiv(n, m.c)
						if r.hi == nil || v.Cmp(r.hi) < 0 {
							r.hi = v
						}
					}
				}
				bound(rh, true)
				if a.op == OEq0 {
					bound(rl, false)
				}
			}
		}
		chg := len(bools) > 0
		var divc []*rg
		for _, id := range order {
			r := rgs[id]
			if r.lo != nil && r.hi != nil {
				k := r.lo.Cmp(r.hi)
				if k > 0 {
					ps.unsat = true
					return ps
				}
				if k == 0 {
					if r.v.op == ODiv {
						divc = append(divc, r)
						continue
					}
					sub.set(r.v, c.Int(r.lo))
					chg = true
					continue
				}
			}
			if r.v.op != OVar {
				continue
			}
			nl := r.lo != nil && (r.v.lo == nil || r.lo.Cmp(r.v.lo) != 0)
			nh := r.hi != nil && (r.v.hi == nil || r.hi.Cmp(r.v.hi) != 0)
			if nl || nh {
				nm := "~" + r.v.name
				key := nm
				if r.lo != nil {
					key += "[" + r.lo.Text(62)
				}
				key += ","
				if r.hi != nil {
					key += r.hi.Text(62) + "]"
				}
				sub.set(r.v, c.Var(key, SInt, r.lo, r.hi))
				chg = true
			}
		}
		// linear equations with a unit coefficient
		for _, a := range flat {
			if done[a.id] || a.op != OEq0 {
				continue
			}
			ms, _ := a.args[0].polyParts()
			skip := false
			for k := range a.leafSet() {
				if sub.hit[k] || busy[k] {
					skip = true
					break
				}
			}
			if skip {
				continue
			}
			for _, m := range ms {
				if len(m.a) != 1 || m.a[0].op != OVar || m.c.CmpAbs(bi1) != 0 {
					continue
				}
				v := m.a[0]
				// v = -(p - m)*sign
				rest := c.Sub(a.args[0], c.Scale(v, m.c))
				if rest.leafSet()[v.id] {
					continue
				}
				e := rest
				if m.c.Sign() > 0 {
					e = c.Neg(rest)
				}
				if (v.lo != nil && (e.lo == nil || e.lo.Cmp(v.lo) < 0)) || (v.hi != nil && (e.hi == nil || e.hi.Cmp(v.hi) > 0)) {
					continue
				}
				sub.set(v, e)
				busy[v.id] = true
				for k := range e.leafSet() {
					busy[k] = true
				}
				done[a.id] = true
				chg = true
				break
			}
		}
		if !chg {
			for _, r := range divc {
				sub.set(r.v, c.Int(r.lo))
				sub.divs = true
				n, d := r.v.args[0], r.v.args[1]
				x := c.Sub(n, c.Scale(d, r.lo))
				add = append(add, c.Le(c.I(0), x), c.Lt(x, d))
				chg = true
			}
		}
		if !chg {
			break
		}
		var next []*Term
		seen := map[int]bool{}
		for _, a := range append(flat, add...) {
			if done[a.id] {
				continue
			}
			t := sub.term(a)
			if t.op == OTrue || seen[t.id] {
				continue
			}
			if t.op == OFalse {
				ps.unsat = true
				return ps
			}
			seen[t.id] = true
			next = append(next, t)
		}
		ps.as = next
		ps.subs = append(ps.subs, sub)
	}
	if len(ps.subs) > 0 {
		ids := map[int]bool{}
		for _, a := range orig {
			for k := range a.leafSet() {
				ids[k] = true
			}
		}
		for k := range ids {
			ps.leafs = append(ps.leafs, c.terms[k])
		}
	}
	return ps
}

// presolvable: an atom whose value may be replaced by a constant.
func presolvable(t *Term) bool {
	return t.op == OVar && t.sort == SInt || t.op == ODiv && t.args[1].isConst() && t.args[1].c.Sign() > 0
}

func flatAnd(as []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OAnd {
			for _, a := range t.args {
				walk(a)
			}
			return
		}
		if t.op == OTrue || seen[t.id] {
			return
		}
		seen[t.id] = true
		out = append(out, t)
	}
	for _, a := range as {
		walk(a)
	}
	return out
}

// back translates a model of the reduced assertions.
func (ps *presolved) back(c *Ctx, m *Model) *Model {
	if len(ps.subs) == 0 || m == nil {
		return m
	}
	ev := c.evaluator(m, false)
	for _, l := range ps.leafs {
		t := l
		for _, s := range ps.subs {
			t = s.term(t)
		}
		if t == l {
			continue
		}
		switch l.sort {
		case SInt:
			if _, ok := m.iv[l.id]; !ok {
				m.iv[l.id] = ev.Int(t)
			}
		case SBool:
			m.bv[l.id] = ev.Bool(t)
		case SReal:
			m.rv[l.id] = ev.Real(t)
		}
	}
	return m
}
