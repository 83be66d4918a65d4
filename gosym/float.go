package main

import (
	"go/token"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Floats are exact reals. An operation whose exact result need not be a
// float64 is the function rnd of the exact result; rnd is any function with
// the properties of rounding to nearest that are listed as its axioms.

type FltV struct{ t *Term } // math/big.Float set from an integer

var maxExact = pow2(53)

func ratF(r *big.Rat) float64 { f, _ := r.Float64(); return f }

func roundRat(r *big.Rat) *big.Rat {
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return r
	}
	return new(big.Rat).SetFloat64(f)
}

func (e *Engine) setupFloat() {
	e.axioms["math.Sqrt"] = func(c *Ctx, apps []*Term) []*Term {
		var out []*Term
		for i, y := range apps {
			out = append(out, c.rcmp(ORLe, c.Rat(new(big.Rat)), y))
			for j := 0; j < i; j++ {
				out = append(out, c.Implies(c.rcmp(ORLe, y.args[0], apps[j].args[0]), c.rcmp(ORLe, y, apps[j])),
					c.Implies(c.rcmp(ORLe, apps[j].args[0], y.args[0]), c.rcmp(ORLe, apps[j], y)))
			}
		}
		return out
	}
	e.axioms["rnd"] = func(c *Ctx, apps []*Term) []*Term {
		var out []*Term
		rat := func(a, b int64) *Term { return c.Rat(big.NewRat(a, b)) }
		zero := rat(0, 1)
		ulp := c.Rat(new(big.Rat).SetFrac(bi1, maxExact))
		tiny := c.Rat(new(big.Rat).SetFrac(bi1, pow2(1074)))
		big52 := c.Rat(new(big.Rat).SetInt(pow2(52)))
		le := func(a, b *Term) *Term { return c.rcmp(ORLe, a, b) }
		for i, y := range apps {
			r := y.args[0]
			err := c.rop(ORAdd, c.rop(ORMul, ulp, r), tiny)
			ern := c.rop(ORAdd, c.rop(ORMul, c.RSub(zero, ulp), r), tiny)
			out = append(out,
				c.Implies(le(zero, r), c.And(le(zero, y), le(c.RSub(y, r), err), le(c.RSub(r, y), err))),
				c.Implies(le(r, zero), c.And(le(y, zero), le(c.RSub(y, r), ern), le(c.RSub(r, y), ern))))
			small := c.And(le(r, big52), le(c.RSub(zero, big52), r))
			two := c.rop(ORMul, rat(2, 1), r)
			fl := c.Floor(two)
			half := c.ToReal(fl)
			out = append(out, c.Implies(c.And(small, c.rcmp(OREq, half, two)), c.rcmp(OREq, y, r)))
			lo := c.rop(ORMul, rat(1, 2), half)
			out = append(out, c.Implies(small, c.And(le(lo, y), le(y, c.rop(ORAdd, lo, rat(1, 2))))))
			for j := 0; j < i; j++ {
				z := apps[j]
				out = append(out, c.Implies(le(r, z.args[0]), le(y, z)), c.Implies(le(z.args[0], r), le(z, y)))
			}
		}
		return out
	}
}

// floatFn evaluates the functions on floats; what is not a number counts as -1.
func (e *evalr) floatFn(t *Term) *big.Rat {
	num := func(f float64) *big.Rat {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = -1
		}
		return new(big.Rat).SetFloat64(f)
	}
	switch t.name {
	case "math.Sqrt":
		return num(math.Sqrt(ratF(e.Real(t.args[0]))))
	case "math.Log":
		return num(math.Log(ratF(e.Real(t.args[0]))))
	case "math.NaN":
		return num(-1)
	case "ord":
		var rs []*big.Rat
		for _, a := range t.args[1:] {
			rs = append(rs, e.Real(a))
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].Cmp(rs[j]) < 0 })
		return rs[e.Int(t.args[0]).Int64()]
	}
	return nil
}

// exactFloats takes float64 arithmetic as exact: the square root is the real
// one, the logarithm any function.
func (e *Engine) exactFloats() {
	e.exactF = true
	zero := e.c.Rat(new(big.Rat))
	e.axioms["math.Sqrt"] = func(c *Ctx, apps []*Term) []*Term {
		var out []*Term
		for _, y := range apps {
			out = append(out, c.rcmp(ORLe, zero, y), c.Implies(c.rcmp(ORLe, zero, y.args[0]), c.rcmp(OREq, c.rop(ORMul, y, y), y.args[0])))
		}
		return out
	}
	e.axioms["math.Log"] = func(c *Ctx, apps []*Term) []*Term {
		var out []*Term
		for i, y := range apps {
			for j := 0; j < i; j++ {
				out = append(out, c.Implies(c.rcmp(OREq, y.args[0], apps[j].args[0]), c.rcmp(OREq, y, apps[j])))
			}
		}
		return out
	}
	// ord(i, r...): the i-th smallest of the r
	e.axioms["ord"] = func(c *Ctx, apps []*Term) []*Term {
		var out []*Term
		for _, y := range apps {
			i, rs := y.args[0], y.args[1:]
			var is []*Term
			below, upto := c.I(0), c.I(0)
			for _, r := range rs {
				is = append(is, c.rcmp(OREq, y, r))
				below = c.Add(below, c.Ite(c.rcmp(ORLt, r, y), c.I(1), c.I(0)))
				upto = c.Add(upto, c.Ite(c.rcmp(ORLe, r, y), c.I(1), c.I(0)))
			}
			out = append(out, c.Or(is...), c.Le(below, i), c.Lt(i, upto))
		}
		return out
	}
}

// sortFloats is sort.Float64s.
func (e *Engine) sortFloats(st *State, v Value) {
	c := e.c
	s := v.(SliceV)
	var rs []*Term
	known := true
	for i := 0; i < s.len; i++ {
		t := e.sliceGet(st, s, i)
		known = known && t.op == ORConst
		rs = append(rs, t)
	}
	if known {
		sort.SliceStable(rs, func(a, b int) bool { return rs[a].r.Cmp(rs[b].r) < 0 })
		for i, t := range rs {
			e.sliceSet(st, s, i, t)
		}
		return
	}
	if !e.exactF {
		fail("sort of floats")
	}
	for i := range rs {
		e.sliceSet(st, s, i, c.UF("ord", SReal, nil, nil, append([]*Term{c.I(int64(i))}, rs...)...))
	}
}

func (e *Engine) fconst(f float64) *Term {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		fail("float special value")
	}
	return e.c.Rat(new(big.Rat).SetFloat64(f))
}

// intVal returns the integer a float term is known to be.
func (e *Engine) intVal(t *Term) (*Term, bool) {
	c := e.c
	switch t.op {
	case ORConst:
		if t.r.IsInt() {
			return c.Int(t.r.Num()), true
		}
	case OToReal:
		return t.args[0], true
	case ORAdd, ORMul:
		a, ok := e.intVal(t.args[0])
		if !ok {
			return nil, false
		}
		b, ok := e.intVal(t.args[1])
		if !ok {
			return nil, false
		}
		if t.op == ORAdd {
			return c.Add(a, b), true
		}
		return c.Mul(a, b), true
	}
	return nil, false
}

func (e *Engine) rnd(r *Term) *Term {
	c := e.c
	if e.exactF {
		return r
	}
	if r.op == ORConst {
		return c.Rat(roundRat(r.r))
	}
	if i, ok := e.intVal(r); ok {
		if i.lo != nil && i.hi != nil && i.lo.CmpAbs(maxExact) <= 0 && i.hi.CmpAbs(maxExact) <= 0 {
			return c.ToReal(i)
		}
		r = c.ToReal(i)
	}
	if r.op == OUF && r.name == "rnd" {
		return r
	}
	return c.UF("rnd", SReal, nil, nil, r)
}

func (e *Engine) floatOp(st *State, op token.Token, a, b *Term) Value {
	c := e.c
	switch op {
	case token.LSS:
		return c.rcmp(ORLt, a, b)
	case token.LEQ:
		return c.rcmp(ORLe, a, b)
	case token.GTR:
		return c.rcmp(ORLt, b, a)
	case token.GEQ:
		return c.rcmp(ORLe, b, a)
	case token.ADD:
		return e.rnd(c.rop(ORAdd, a, b))
	case token.SUB:
		return e.rnd(c.RSub(a, b))
	case token.MUL:
		return e.rnd(c.rop(ORMul, a, b))
	case token.QUO:
		if e.branch(st, c.rcmp(OREq, b, c.Rat(new(big.Rat)))) {
			fail("float division by zero")
		}
		if b.op == ORConst {
			return e.rnd(c.rop(ORMul, c.Rat(new(big.Rat).Inv(b.r)), a))
		}
		return e.rnd(c.rop(ORDiv, a, b))
	}
	fail("float %s", op)
	return nil
}

func (e *Engine) floatNeg(a *Term) *Term {
	if i, ok := e.intVal(a); ok {
		return e.c.ToReal(e.c.Neg(i))
	}
	return e.c.rop(ORMul, e.c.Rat(big.NewRat(-1, 1)), a)
}

func (e *Engine) intToFloat(st *State, t *Term) *Term { return e.rnd(e.c.ToReal(t)) }

// trunc towards zero, as an integer
func (e *Engine) ftrunc(t *Term) *Term {
	c := e.c
	if i, ok := e.intVal(t); ok {
		return i
	}
	zero := c.Rat(new(big.Rat))
	return c.Ite(c.rcmp(ORLe, zero, t), c.Floor(t), c.Neg(c.Floor(c.RSub(zero, t))))
}

func (e *Engine) floatToInt(st *State, t *Term, bits int, sg bool) *Term {
	c := e.c
	i := e.ftrunc(t)
	lo, hi := bi0, bsub(pow2(bits), bi1)
	if sg {
		lo, hi = bneg(pow2(bits-1)), bsub(pow2(bits-1), bi1)
	}
	if i.lo != nil && i.hi != nil && i.lo.Cmp(lo) >= 0 && i.hi.Cmp(hi) <= 0 {
		return i
	}
	if !e.branch(st, c.And(c.Le(c.Int(lo), i), c.Le(i, c.Int(hi)))) {
		fail("float out of range of the integer")
	}
	return i
}

func (e *Engine) floatInput(st *State, name string) *Term {
	return e.input(st, name, SReal, nil, nil)
}

func (e *Engine) mathCall(st *State, name string, args []Value) Value {
	c := e.c
	fn := strings.TrimPrefix(name, "math.")
	t, ok := args[0].(*Term)
	if !ok || t.sort != SReal {
		fail("symbolic %s", name)
	}
	zero := c.Rat(new(big.Rat))
	half := c.Rat(big.NewRat(1, 2))
	neg := func(x *Term) *Term { return c.Neg(x) }
	i, whole := e.intVal(t)
	switch fn {
	case "Floor":
		if whole {
			return t
		}
		return c.ToReal(c.Floor(t))
	case "Ceil":
		if whole {
			return t
		}
		return c.ToReal(neg(c.Floor(c.RSub(zero, t))))
	case "Trunc":
		return c.ToReal(e.ftrunc(t))
	case "Round":
		if whole {
			return t
		}
		return c.ToReal(c.Ite(c.rcmp(ORLe, zero, t), c.Floor(c.rop(ORAdd, t, half)), neg(c.Floor(c.rop(ORAdd, c.RSub(zero, t), half)))))
	case "RoundToEven":
		if whole {
			return t
		}
		k := c.Floor(c.rop(ORAdd, t, half))
		tie := c.rcmp(OREq, c.ToReal(k), c.rop(ORAdd, t, half))
		odd := c.Eq(c.Mod(k, c.I(2)), c.I(1))
		return c.ToReal(c.Ite(c.And(tie, odd), c.Sub(k, c.I(1)), k))
	case "Abs":
		if whole {
			return c.ToReal(c.Ite(c.Le(c.I(0), i), i, neg(i)))
		}
		return c.Ite(c.rcmp(ORLe, zero, t), t, c.RSub(zero, t))
	case "Max", "Min":
		u := e.term(args[1])
		if fn == "Max" {
			return c.Ite(c.rcmp(ORLe, t, u), u, t)
		}
		return c.Ite(c.rcmp(ORLe, t, u), t, u)
	case "IsNaN", "IsInf":
		return c.False
	case "Sqrt", "Log":
		if t.op == ORConst {
			x := ratF(t.r)
			if fn == "Log" {
				return e.fconst(math.Log(x))
			}
			return e.fconst(math.Sqrt(x))
		}
		if e.exactF {
			return c.UF("math."+fn, SReal, nil, nil, t)
		}
		if fn == "Sqrt" && e.branch(st, c.rcmp(ORLt, t, zero)) {
			// not a number: nothing is known about it
			return c.UF("math.NaN", SReal, nil, nil, t)
		}
		if fn == "Log" && e.branch(st, c.rcmp(ORLt, t, zero)) || fn == "Log" && e.branch(st, c.rcmp(OREq, t, zero)) {
			fail("%s of a negative number", name)
		}
		return c.UF("math."+fn, SReal, nil, nil, t)
	}
	fail("symbolic %s", name)
	return nil
}

// ---- math/big.Float, as far as it carries an integer to a float64

func (e *Engine) bigFloatCall(st *State, name string, args []Value) (Value, bool) {
	c := e.c
	m := strings.TrimPrefix(name, "(*math/big.Float).")
	dst := func() Ptr {
		p, ok := args[0].(Ptr)
		if !ok || p.obj == 0 {
			fail("big.Float receiver")
		}
		return p
	}
	get := func(v Value) *Term {
		p, ok := v.(Ptr)
		if !ok || p.obj == 0 {
			fail("big.Float pointer")
		}
		f, ok := e.loadPtr(st, p).(*FltV)
		if !ok {
			fail("big.Float value")
		}
		return f.t
	}
	switch m {
	case "SetInt":
		p := dst()
		e.storePtr(st, p, &FltV{c.ToReal(e.big(st, args[1]))})
		return p, true
	case "Set":
		p := dst()
		e.storePtr(st, p, &FltV{get(args[1])})
		return p, true
	case "Float64":
		return Tuple{e.rnd(get(args[0])), c.I(0)}, true
	case "Sign":
		t := get(args[0])
		zero := c.Rat(new(big.Rat))
		return c.Ite(c.rcmp(ORLt, t, zero), c.I(-1), c.Ite(c.rcmp(OREq, t, zero), c.I(0), c.I(1))), true
	}
	return nil, false
}

// near: |f*den - num| * 2^k <= |num| + |den|
func (e *Engine) near(f, num, den *Term, k int64) *Term {
	c := e.c
	abs := func(t *Term) *Term {
		if t.nonneg() {
			return t
		}
		return c.Ite(c.Le(c.I(0), t), t, c.Neg(t))
	}
	d := c.RSub(c.rop(ORMul, f, c.ToReal(den)), c.ToReal(num))
	lim := c.ToReal(c.Add(abs(num), abs(den)))
	s := c.Rat(new(big.Rat).SetInt(pow2(int(k))))
	zero := c.Rat(new(big.Rat))
	return c.And(c.rcmp(ORLe, c.rop(ORMul, s, d), lim), c.rcmp(ORLe, c.RSub(zero, lim), c.rop(ORMul, s, d)))
}

// apx describes a float term: within eps of n/d, and equal to it whenever n/d
// is a multiple of one half.
type apx struct {
	n   *Term
	d   *big.Int
	eps *big.Rat
}

func (c *Ctx) apx(t *Term) (apx, bool) {
	no := apx{}
	if r, ok := c.apxs[t.id]; ok {
		return r, r.n != nil
	}
	r, ok := c.apx1(t)
	if !ok || r.d.BitLen() > 200 {
		r, ok = no, false
	}
	c.apxs[t.id] = r
	return r, ok
}

func (c *Ctx) apx1(t *Term) (apx, bool) {
	no := apx{}
	switch t.op {
	case ORConst:
		return apx{c.Int(t.r.Num()), new(big.Int).Set(t.r.Denom()), new(big.Rat)}, true
	case OToReal:
		return apx{t.args[0], bi1, new(big.Rat)}, true
	case ORMul:
		k, u := t.args[0], t.args[1]
		if k.op != ORConst {
			k, u = u, k
		}
		if k.op != ORConst || k.r.Sign() == 0 {
			return no, false
		}
		a, ok := c.apx(u)
		if !ok || a.eps.Sign() != 0 && !(k.r.IsInt() && k.r.Num().CmpAbs(bi1) == 0) {
			return no, false
		}
		return apx{c.Scale(a.n, k.r.Num()), bmul(a.d, k.r.Denom()), a.eps}, true
	case ORAdd:
		a, ok := c.apx(t.args[0])
		if !ok {
			return no, false
		}
		b, ok := c.apx(t.args[1])
		if !ok {
			return no, false
		}
		// one side exact and a multiple of one half, or both exact
		half := func(x apx) bool {
			return x.eps.Sign() == 0 && (x.d.Cmp(bi1) == 0 || x.d.Cmp(bi(2)) == 0)
		}
		if !(a.eps.Sign() == 0 && b.eps.Sign() == 0 || half(a) || half(b)) {
			return no, false
		}
		return apx{c.Add(c.Scale(a.n, b.d), c.Scale(b.n, a.d)), bmul(a.d, b.d), new(big.Rat).Add(a.eps, b.eps)}, true
	case OUF:
		if t.name != "rnd" {
			return no, false
		}
		a, ok := c.apx(t.args[0])
		if !ok || a.n.lo == nil || a.n.hi == nil {
			return no, false
		}
		m := maxB(babs(a.n.lo), babs(a.n.hi))
		mag := new(big.Rat).SetFrac(m, a.d)
		mag.Add(mag, a.eps)
		if mag.Cmp(new(big.Rat).SetInt(pow2(51))) > 0 {
			return no, false
		}
		e := new(big.Rat).Mul(mag, new(big.Rat).SetFrac(bi1, maxExact))
		e.Add(e, new(big.Rat).SetFrac(bi1, pow2(1074)))
		return apx{a.n, a.d, e.Add(e, a.eps)}, true
	}
	return no, false
}

func babs(x *big.Int) *big.Int { return new(big.Int).Abs(x) }

// sharp reports that a is on the same side of every multiple of one half as
// its exact value.
func (a apx) sharp() bool {
	lim := new(big.Rat).SetFrac(bi1, bmul(bi(2), a.d))
	return a.eps.Cmp(lim) < 0
}

func (c *Ctx) apxCmp(op Op, x, y *Term) (*Term, bool) {
	a, ok := c.apx(x)
	if !ok {
		return nil, false
	}
	b, ok := c.apx(y)
	if !ok {
		return nil, false
	}
	exactHalf := func(v apx) bool {
		return v.eps.Sign() == 0 && (v.d.Cmp(bi1) == 0 || v.d.Cmp(bi(2)) == 0)
	}
	both := a.eps.Sign() == 0 && b.eps.Sign() == 0
	if !(both || exactHalf(a) && b.sharp() || exactHalf(b) && a.sharp()) {
		return nil, false
	}
	l, r := c.Scale(a.n, b.d), c.Scale(b.n, a.d)
	switch op {
	case ORLe:
		return c.Le(l, r), true
	case ORLt:
		return c.Lt(l, r), true
	}
	return c.Eq(l, r), true
}
