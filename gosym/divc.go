package main

import (
	"math/big"
	"strings"
)

func (e *Engine) sliceGet(st *State, s SliceV, i int) *Term {
	return e.term(e.loadPtr(st, s.p.elem(s.off+i)))
}

func (e *Engine) sliceSet(st *State, s SliceV, i int, v Value) {
	e.storePtr(st, s.p.elem(s.off+i), v)
}

func (e *Engine) sliceVal(st *State, s SliceV) *Term {
	r := e.c.I(0)
	for i := 0; i < s.len; i++ {
		r = e.c.Add(r, e.c.Scale(e.sliceGet(st, s, i), pow2(64*i)))
	}
	return r
}

func (e *Engine) sliceZero(st *State, s SliceV) bool {
	for i := 0; i < s.len; i++ {
		if t := e.sliceGet(st, s, i); !t.isConst() || t.c.Sign() != 0 {
			return false
		}
	}
	return true
}

// contractDiv: the parts of the long division, each decided on the real code
// under the contract names umul, udivrem, knuth, by1.
func (e *Engine) contractDiv(st *State, name string, args []Value) (Value, bool) {
	c := e.c
	b64 := pow2(64)
	m64 := bsub(b64, bi1)
	top := c.Int(pow2(63))
	switch strings.TrimPrefix(name, "uint256.") {
	case "Umul":
		if !st.cons["umul"] || len(args) != 2 {
			return nil, false
		}
		p := c.Mul(e.u256(st, args[0]), e.u256(st, args[1]))
		a := &Agg{}
		for i := 0; i < 8; i++ {
			a.e = append(a.e, c.Extract(p, 64*i, 64))
		}
		return a, true
	case "reciprocal2by1":
		if !st.cons["by1"] || len(args) != 1 {
			return nil, false
		}
		d := e.term(args[0])
		if !e.branch(st, c.Le(top, d)) {
			return nil, false
		}
		return e.recip(d), true
	case "udivrem2by1":
		if !st.cons["by1"] || len(args) != 4 {
			return nil, false
		}
		uh, ul, d, v := e.term(args[0]), e.term(args[1]), e.term(args[2]), e.term(args[3])
		if !e.branch(st, c.And(c.Le(top, d), c.Lt(uh, d))) || !e.branch(st, c.Eq(v, e.recip(d))) {
			return nil, false
		}
		n := c.Add(c.Scale(uh, b64), ul)
		q, r := e.divmod(st, n, d)
		c.refine(q, bi0, m64)
		return Tuple{q, r}, true
	case "udivremBy1":
		if !st.cons["knuth"] || len(args) != 3 {
			return nil, false
		}
		quot, u := args[0].(SliceV), args[1].(SliceV)
		d := e.term(args[2])
		if u.len == 0 || quot.len < u.len-1 {
			return nil, false
		}
		if !e.branch(st, c.And(c.Le(top, d), c.Lt(e.sliceGet(st, u, u.len-1), d))) {
			return nil, false
		}
		n := e.sliceVal(st, u)
		q, r := e.divmod(st, n, d)
		c.refine(q, bi0, bsub(pow2(64*(u.len-1)), bi1))
		for i := 0; i < u.len-1; i++ {
			e.sliceSet(st, quot, i, c.Extract(q, 64*i, 64))
		}
		return r, true
	case "udivremKnuth":
		if !st.cons["knuth"] || len(args) != 3 {
			return nil, false
		}
		quot, u, dd := args[0].(SliceV), args[1].(SliceV), args[2].(SliceV)
		k := u.len - dd.len
		if dd.len < 2 || k <= 0 || quot.len < k {
			return nil, false
		}
		d, n := e.sliceVal(st, dd), e.sliceVal(st, u)
		if !e.branch(st, c.And(c.Le(top, e.sliceGet(st, dd, dd.len-1)), c.Lt(n, c.Scale(d, pow2(64*k))))) {
			return nil, false
		}
		q, r := e.divmod(st, n, d)
		c.refine(q, bi0, bsub(pow2(64*k), bi1))
		for i := 0; i < k; i++ {
			e.sliceSet(st, quot, i, c.Extract(q, 64*i, 64))
		}
		for i := 0; i < u.len; i++ {
			if i < dd.len {
				e.sliceSet(st, u, i, c.Extract(r, 64*i, 64))
			} else {
				e.sliceSet(st, u, i, c.I(0))
			}
		}
		return Tuple{}, true
	case "Udivrem":
		if !st.cons["udivrem"] || len(args) != 3 {
			return nil, false
		}
		quot, u := args[0].(SliceV), args[1].(SliceV)
		d := e.u256(st, args[2])
		if !e.branch(st, c.Lt(c.I(0), d)) || !e.sliceZero(st, quot) {
			return nil, false
		}
		n := e.sliceVal(st, u)
		if n.isConst() && d.isConst() {
			return nil, false
		}
		q, r := e.divmod(st, n, d)
		if quot.len < u.len {
			if !e.branch(st, c.Lt(n, c.Scale(d, pow2(64*(quot.len-1))))) {
				return nil, false
			}
			c.refine(q, bi0, bsub(pow2(64*(quot.len-1)), bi1))
		}
		if n.hi != nil {
			c.refine(q, bi0, n.hi)
		}
		whole := quot.off == 0 && quot.len == 4 && quot.p.wlen == 0
		if whole {
			if _, ok := e.loadPtr(st, quot.p).(*Pack); ok {
				e.storePtr(st, quot.p, &Pack{q})
				return &Pack{r}, true
			}
		}
		for i := 0; i < quot.len; i++ {
			e.sliceSet(st, quot, i, c.Extract(q, 64*i, 64))
		}
		return &Pack{r}, true
	}
	return nil, false
}

// recip is the reciprocal word of a normalised divisor.
func (e *Engine) recip(d *Term) *Term {
	c := e.c
	r := c.Sub(c.Div(c.Int(bsub(pow2(128), bi1)), d), c.Int(pow2(64)))
	c.refine(r, bi0, bsub(pow2(64), bi1))
	return r
}

// divmod for n >= 0, d > 0 (known on this path).
func (e *Engine) divmod(st *State, n, d *Term) (*Term, *Term) {
	c := e.c
	q := c.Div(n, d)
	r := c.Sub(n, c.Mul(q, d))
	var hi *big.Int
	if d.hi != nil {
		hi = bsub(d.hi, bi1)
	}
	c.refine(r, bi0, hi)
	if n.hi != nil {
		c.refine(r, bi0, n.hi)
	}
	return q, r
}
