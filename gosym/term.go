package main

// Term language: hash-consed mathematical integers (polynomials in normal
// form over atoms), booleans and reals.  Machine arithmetic is expressed as an
// explicit reduction of the exact mathematical result (see Wrap); nothing here
// is specific to a code base.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SReal
)

type Op uint8

const (
	OConst Op = iota // Int constant
	OVar             // Int/Bool/Real variable
	OPoly            // sum of monomials plus constant
	ODiv             // floor division, divisor > 0
	OIte             // Int (or Real) if-then-else
	OUF              // application of a named function to Int args
	OBAnd            // bitwise ops on non-negative ints
	OBOr
	OBXor
	OPow2 // 2^arg, arg >= 0
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OGe0 // arg >= 0
	OEq0 // arg == 0
	ORConst
	ORAdd
	ORMul
	ORDiv
	OToReal
	OFloor // floor: Real -> Int
	ORLe
	ORLt
	OREq
)

type Mono struct {
	c *big.Int
	a []*Term // sorted by id
}

type Term struct {
	id     int
	op     Op
	sort   Sort
	args   []*Term
	c      *big.Int
	r      *big.Rat
	name   string
	monos  []Mono
	lo, hi *big.Int
	vars   map[int]bool // lazily computed set of leaf ids
	depth  int
}

type Ctx struct {
	tab   map[string]*Term
	terms []*Term
	True  *Term
	False *Term
	// trueUF gives the exact value of a named function at concrete points
	trueUF map[string]func(args []*big.Int) *big.Int
	apxs   map[int]apx
	nfresh int
	tzsym  map[int]map[int]bool // term id -> set of Pow2 exponent ids it is a multiple of
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, apxs: map[int]apx{}, trueUF: map[string]func([]*big.Int) *big.Int{}, tzsym: map[int]map[int]bool{}}
	c.True = c.intern("T", func() *Term { return &Term{op: OTrue, sort: SBool} })
	c.False = c.intern("F", func() *Term { return &Term{op: OFalse, sort: SBool} })
	return c
}

func (c *Ctx) intern(key string, mk func() *Term) *Term {
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := mk()
	t.id = len(c.terms)
	for _, a := range t.args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	for _, m := range t.monos {
		for _, a := range m.a {
			if a.depth >= t.depth {
				t.depth = a.depth + 1
			}
		}
	}
	c.terms = append(c.terms, t)
	c.tab[key] = t
	return t
}

var (
	bi0 = big.NewInt(0)
	bi1 = big.NewInt(1)
)

func bi(n int64) *big.Int         { return big.NewInt(n) }
func badd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func bneg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }
func pow2(k int) *big.Int         { return new(big.Int).Lsh(bi1, uint(k)) }

// floor division
func bfdiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	if b.Sign() < 0 {
		// Euclidean -> floor
		q2 := new(big.Int)
		r2 := new(big.Int)
		q2.QuoRem(a, b, r2)
		if r2.Sign() != 0 && (r2.Sign() < 0) != (b.Sign() < 0) {
			q2.Sub(q2, bi1)
		}
		return q2
	}
	return q
}

func (c *Ctx) Int(v *big.Int) *Term {
	return c.intern("i"+v.Text(62), func() *Term {
		w := new(big.Int).Set(v)
		return &Term{op: OConst, sort: SInt, c: w, lo: w, hi: w}
	})
}
func (c *Ctx) I(n int64) *Term { return c.Int(bi(n)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, s Sort, lo, hi *big.Int) *Term {
	t := c.intern("v"+name, func() *Term {
		return &Term{op: OVar, sort: s, name: name, lo: lo, hi: hi}
	})
	if !sameB(t.lo, lo) || !sameB(t.hi, hi) || t.sort != s {
		fail("variable %s declared twice with different ranges", name)
	}
	return t
}
func sameB(a, b *big.Int) bool {
	return a == nil && b == nil || a != nil && b != nil && a.Cmp(b) == 0
}
func (c *Ctx) Fresh(prefix string, s Sort, lo, hi *big.Int) *Term {
	c.nfresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.nfresh), s, lo, hi)
}

func (t *Term) isConst() bool { return t.op == OConst }

func (t *Term) polyParts() ([]Mono, *big.Int) {
	switch t.op {
	case OConst:
		return nil, t.c
	case OPoly:
		return t.monos, t.c
	default:
		return []Mono{{bi1, []*Term{t}}}, bi0
	}
}

func monoKey(a []*Term) string {
	var sb strings.Builder
	for _, x := range a {
		fmt.Fprintf(&sb, "%d.", x.id)
	}
	return sb.String()
}

func lessAtoms(a, b []*Term) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return len(a) < len(b)
}

// mkPoly builds the normal form; monos must have distinct atom lists and
// nonzero coefficients; it sorts them.
func (c *Ctx) mkPoly(monos []Mono, k *big.Int) *Term {
	if len(monos) == 0 {
		return c.Int(k)
	}
	if len(monos) == 1 && k.Sign() == 0 && monos[0].c.Cmp(bi1) == 0 && len(monos[0].a) == 1 {
		return monos[0].a[0]
	}
	sort.Slice(monos, func(i, j int) bool { return lessAtoms(monos[i].a, monos[j].a) })
	var sb strings.Builder
	sb.WriteByte('p')
	for _, m := range monos {
		sb.WriteString(m.c.Text(62))
		sb.WriteByte('*')
		sb.WriteString(monoKey(m.a))
		sb.WriteByte('+')
	}
	sb.WriteString(k.Text(62))
	return c.intern(sb.String(), func() *Term {
		t := &Term{op: OPoly, sort: SInt, monos: monos, c: k}
		t.lo, t.hi = polyRange(monos, k)
		return t
	})
}

// linear part: a*x + b*y
func (c *Ctx) lin(x *Term, a *big.Int, y *Term, b *big.Int) *Term {
	xm, xk := x.polyParts()
	ym, yk := y.polyParts()
	idx := map[string]int{}
	out := make([]Mono, 0, len(xm)+len(ym))
	add := func(ms []Mono, f *big.Int) {
		if f.Sign() == 0 {
			return
		}
		for _, m := range ms {
			k := monoKey(m.a)
			cc := bmul(m.c, f)
			if i, ok := idx[k]; ok {
				out[i].c = badd(out[i].c, cc)
			} else {
				idx[k] = len(out)
				out = append(out, Mono{cc, m.a})
			}
		}
	}
	add(xm, a)
	add(ym, b)
	res := out[:0:0]
	for _, m := range out {
		if m.c.Sign() != 0 {
			res = append(res, m)
		}
	}
	return c.mkPoly(res, badd(bmul(xk, a), bmul(yk, b)))
}

func (c *Ctx) Add(x, y *Term) *Term { return c.lin(x, bi1, y, bi1) }
func (c *Ctx) Sub(x, y *Term) *Term { return c.lin(x, bi1, y, bi(-1)) }
func (c *Ctx) Neg(x *Term) *Term    { return c.lin(x, bi(-1), c.I(0), bi0) }
func (c *Ctx) Scale(x *Term, k *big.Int) *Term {
	return c.lin(x, k, c.I(0), bi0)
}
func (c *Ctx) Sum(xs ...*Term) *Term {
	r := c.I(0)
	for _, x := range xs {
		r = c.Add(r, x)
	}
	return r
}

func mergeAtoms(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i].id <= b[j].id {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func (c *Ctx) Mul(x, y *Term) *Term {
	if x.isConst() {
		return c.Scale(y, x.c)
	}
	if y.isConst() {
		return c.Scale(x, y.c)
	}
	// 2^a * 2^b
	xm, xk := x.polyParts()
	ym, yk := y.polyParts()
	idx := map[string]int{}
	var out []Mono
	add := func(cc *big.Int, at []*Term) {
		if cc.Sign() == 0 {
			return
		}
		k := monoKey(at)
		if i, ok := idx[k]; ok {
			out[i].c = badd(out[i].c, cc)
		} else {
			idx[k] = len(out)
			out = append(out, Mono{cc, at})
		}
	}
	for _, a := range xm {
		for _, b := range ym {
			add(bmul(a.c, b.c), mergeAtoms(a.a, b.a))
		}
		add(bmul(a.c, yk), a.a)
	}
	for _, b := range ym {
		add(bmul(b.c, xk), b.a)
	}
	res := out[:0:0]
	for _, m := range out {
		if m.c.Sign() != 0 {
			res = append(res, m)
		}
	}
	r := c.mkPoly(res, bmul(xk, yk))
	lo, hi := mulRange(x.lo, x.hi, y.lo, y.hi)
	c.refine(r, lo, hi)
	return r
}

// refine intersects the (context independent) range of a term with [lo,hi].
func (c *Ctx) refine(t *Term, lo, hi *big.Int) {
	if t.op == OConst || t.sort != SInt {
		return
	}
	if lo != nil && (t.lo == nil || lo.Cmp(t.lo) > 0) {
		t.lo = lo
	}
	if hi != nil && (t.hi == nil || hi.Cmp(t.hi) < 0) {
		t.hi = hi
	}
}

// ---- ranges

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return badd(a, b)
}

// mulRange; nil = unbounded in that direction
func mulRange(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	if al != nil && ah != nil && bl != nil && bh != nil {
		ps := []*big.Int{bmul(al, bl), bmul(al, bh), bmul(ah, bl), bmul(ah, bh)}
		lo, hi = ps[0], ps[0]
		for _, p := range ps[1:] {
			if p.Cmp(lo) < 0 {
				lo = p
			}
			if p.Cmp(hi) > 0 {
				hi = p
			}
		}
		return
	}
	if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
		return bmul(al, bl), nil
	}
	return nil, nil
}

func scaleRange(lo, hi, k *big.Int) (*big.Int, *big.Int) {
	var a, b *big.Int
	if lo != nil {
		a = bmul(lo, k)
	}
	if hi != nil {
		b = bmul(hi, k)
	}
	if k.Sign() < 0 {
		return b, a
	}
	return a, b
}

func atomsRange(as []*Term) (lo, hi *big.Int) {
	lo, hi = bi1, bi1
	for i := 0; i < len(as); {
		j := i
		for j < len(as) && as[j] == as[i] {
			j++
		}
		n := j - i
		al, ah := as[i].lo, as[i].hi
		if n%2 == 0 {
			// even power: square of |x|
			nl, nh := bi0, (*big.Int)(nil)
			if al != nil && ah != nil {
				m := new(big.Int).Abs(al)
				if x := new(big.Int).Abs(ah); x.Cmp(m) > 0 {
					m = x
				}
				nh = new(big.Int).Exp(m, bi(int64(n)), nil)
			}
			if al != nil && al.Sign() > 0 {
				nl = new(big.Int).Exp(al, bi(int64(n)), nil)
			}
			lo, hi = mulRange(lo, hi, nl, nh)
		} else {
			for k := 0; k < n; k++ {
				lo, hi = mulRange(lo, hi, al, ah)
			}
		}
		i = j
	}
	return
}

func polyRange(ms []Mono, k *big.Int) (lo, hi *big.Int) {
	lo, hi = k, k
	for _, m := range ms {
		al, ah := atomsRange(m.a)
		al, ah = scaleRange(al, ah, m.c)
		lo, hi = addB(lo, al), addB(hi, ah)
	}
	return
}

func (t *Term) inRange(lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}
func (t *Term) nonneg() bool { return t.lo != nil && t.lo.Sign() >= 0 }
func (t *Term) pos() bool    { return t.lo != nil && t.lo.Sign() > 0 }

// ---- division

func (c *Ctx) Div(n, d *Term) *Term {
	if d.isConst() {
		if d.c.Sign() <= 0 {
			return c.rawDiv(n, d)
		}
		return c.divConst(n, d.c)
	}
	if n.isConst() && n.c.Sign() == 0 {
		return n
	}
	if n == d {
		return c.I(1)
	}
	if n.nonneg() && n.hi != nil && d.lo != nil && d.lo.Sign() > 0 && n.hi.Cmp(d.lo) < 0 {
		return c.I(0)
	}
	// extract multiples of a single-monomial divisor
	dm, dk := d.polyParts()
	nm, nk := n.polyParts()
	if len(dm) == 1 && dk.Sign() == 0 {
		var outq, rest []Mono
		for _, m := range nm {
			if q, ok := monoDiv(m, dm[0]); ok {
				outq = append(outq, q)
			} else {
				rest = append(rest, m)
			}
		}
		if len(outq) > 0 {
			q := c.polyFrom(outq, bi0)
			r := c.polyFrom(rest, nk)
			return c.Add(q, c.Div(r, d))
		}
	} else if len(dm) > 0 && len(nm) == len(dm) {
		// n == k*d ?
		if r, ok := constRatio(nm, nk, dm, dk); ok {
			return c.Int(r)
		}
	}
	return c.rawDiv(n, d)
}

func constRatio(nm []Mono, nk *big.Int, dm []Mono, dk *big.Int) (*big.Int, bool) {
	q, r := new(big.Int).QuoRem(nm[0].c, dm[0].c, new(big.Int))
	if r.Sign() != 0 {
		return nil, false
	}
	for i := range nm {
		if monoKey(nm[i].a) != monoKey(dm[i].a) || bmul(dm[i].c, q).Cmp(nm[i].c) != 0 {
			return nil, false
		}
	}
	if bmul(dk, q).Cmp(nk) != 0 {
		return nil, false
	}
	return q, true
}

func monoDiv(m, d Mono) (Mono, bool) {
	q, r := new(big.Int).QuoRem(m.c, d.c, new(big.Int))
	if r.Sign() != 0 {
		return Mono{}, false
	}
	rest := append([]*Term(nil), m.a...)
	for _, x := range d.a {
		found := -1
		for i, y := range rest {
			if x == y {
				found = i
				break
			}
		}
		if found < 0 {
			return Mono{}, false
		}
		rest = append(rest[:found:found], rest[found+1:]...)
	}
	return Mono{q, rest}, true
}

// polyFrom builds a poly from monomials whose atom list may be empty.
func (c *Ctx) polyFrom(ms []Mono, k *big.Int) *Term {
	kk := new(big.Int).Set(k)
	var out []Mono
	for _, m := range ms {
		if len(m.a) == 0 {
			kk.Add(kk, m.c)
		} else {
			out = append(out, m)
		}
	}
	return c.mkPoly(out, kk)
}

func (c *Ctx) divConst(n *Term, d *big.Int) *Term {
	if d.Cmp(bi1) == 0 {
		return n
	}
	if n.isConst() {
		return c.Int(bfdiv(n.c, d))
	}
	if n.lo != nil && n.hi != nil {
		ql, qh := bfdiv(n.lo, d), bfdiv(n.hi, d)
		if ql.Cmp(qh) == 0 {
			return c.Int(ql)
		}
	}
	ms, k := n.polyParts()
	var outq, rest []Mono
	for _, m := range ms {
		q, r := new(big.Int).QuoRem(m.c, d, new(big.Int))
		if q.Sign() != 0 {
			outq = append(outq, Mono{q, m.a})
		}
		if r.Sign() != 0 {
			rest = append(rest, Mono{r, m.a})
		}
	}
	kq, kr := new(big.Int).DivMod(k, d, new(big.Int))
	if len(outq) > 0 || kq.Sign() != 0 {
		a := c.polyFrom(outq, kq)
		b := c.polyFrom(rest, kr)
		// n = d*a + b; propagate knowledge of n's range onto b is not possible in general
		q := c.Add(a, c.divConst(b, d))
		if n.lo != nil && n.hi != nil {
			c.refine(q, bfdiv(n.lo, d), bfdiv(n.hi, d))
		}
		return q
	}
	// gcd reduction
	g := new(big.Int).Set(d)
	for _, m := range rest {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(bi1) > 0 {
		var r2 []Mono
		for _, m := range rest {
			r2 = append(r2, Mono{new(big.Int).Quo(m.c, g), m.a})
		}
		return c.divConst(c.polyFrom(r2, bfdiv(kr, g)), new(big.Int).Quo(d, g))
	}
	// nested constant divisions: floor((floor(x/a)+y)/d) = floor((x+a*y)/(a*d))
	for i, m := range rest {
		if m.c.Cmp(bi1) == 0 && len(m.a) == 1 {
			at := m.a[0]
			if at.op == ODiv && at.args[1].isConst() && at.args[1].c.Sign() > 0 {
				a := at.args[1].c
				others := append(append([]Mono(nil), rest[:i]...), rest[i+1:]...)
				y := c.polyFrom(others, kr)
				q := c.divConst(c.Add(at.args[0], c.Scale(y, a)), bmul(a, d))
				if n.lo != nil && n.hi != nil {
					c.refine(q, bfdiv(n.lo, d), bfdiv(n.hi, d))
				}
				return q
			}
		}
	}
	if len(rest) == 1 && rest[0].c.Cmp(bi1) == 0 && len(rest[0].a) == 1 {
		at := rest[0].a[0]
		if at.op == OIte {
			return c.Ite(at.args[0], c.divConst(c.Add(at.args[1], c.Int(kr)), d), c.divConst(c.Add(at.args[2], c.Int(kr)), d))
		}
	}
	return c.rawDiv(n, c.Int(d))
}

func (c *Ctx) rawDiv(n, d *Term) *Term {
	return c.intern(fmt.Sprintf("d%d/%d", n.id, d.id), func() *Term {
		t := &Term{op: ODiv, sort: SInt, args: []*Term{n, d}}
		// range (divisor assumed positive)
		dl, dh := d.lo, d.hi
		if dl == nil || dl.Sign() <= 0 {
			dl = bi1
		}
		if n.lo != nil {
			if n.lo.Sign() >= 0 {
				if dh != nil && dh.Sign() > 0 {
					t.lo = bfdiv(n.lo, dh)
				} else {
					t.lo = bi0
				}
			} else {
				t.lo = bfdiv(n.lo, dl)
			}
		}
		if n.hi != nil {
			if n.hi.Sign() >= 0 {
				t.hi = bfdiv(n.hi, dl)
			} else if dh != nil && dh.Sign() > 0 {
				t.hi = bfdiv(n.hi, dh)
			} else {
				t.hi = bi(-1)
			}
		}
		return t
	})
}

// dropMult removes the summands of n that are multiples of M.
func (c *Ctx) dropMult(n *Term, M *big.Int) *Term {
	ms, k := n.polyParts()
	var r []Mono
	for _, m := range ms {
		if new(big.Int).Rem(m.c, M).Sign() != 0 {
			r = append(r, m)
		}
	}
	h := new(big.Int).Rsh(M, 1)
	k2 := k
	if k2.CmpAbs(h) > 0 {
		k2 = new(big.Int).Mod(k, M)
		if k2.Cmp(h) > 0 {
			k2.Sub(k2, M)
		}
	}
	if len(r) == len(ms) && k2.Cmp(k) == 0 {
		return n
	}
	return c.polyFrom(r, k2)
}

// Mod: n mod d for d > 0, expressed as n - d*floor(n/d).
func (c *Ctx) Mod(n, d *Term) *Term {
	if d.isConst() && n.inRange(bi0, bsub(d.c, bi1)) {
		return n
	}
	q := c.Div(n, d)
	r := c.Sub(n, c.Mul(d, q))
	// Division terms are only built where d > 0 holds (a zero divisor panics
	// or is branched away first), so the range holds wherever r is used.
	var hi *big.Int
	if d.hi != nil {
		hi = bsub(d.hi, bi1)
	}
	c.refine(r, bi0, hi)
	return r
}

func (c *Ctx) WrapU(n *Term, bits int) *Term { return c.Mod(n, c.Int(pow2(bits))) }
func (c *Ctx) WrapS(n *Term, bits int) *Term {
	h := pow2(bits - 1)
	if n.inRange(bneg(h), bsub(h, bi1)) {
		return n
	}
	t := c.Sub(c.WrapU(c.Add(n, c.Int(h)), bits), c.Int(h))
	c.refine(t, bneg(h), bsub(h, bi1))
	return t
}

// ---- ite and friends

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b.op == OTrue || x == y {
		return x
	}
	if b.op == OFalse {
		return y
	}
	if b.op == ONot {
		return c.Ite(b.args[0], y, x)
	}
	if x.sort == SBool {
		return c.Or(c.And(b, x), c.And(c.Not(b), y))
	}
	if x.op == OIte && x.args[0] == b {
		return c.Ite(b, x.args[1], y)
	}
	if y.op == OIte && y.args[0] == b {
		return c.Ite(b, x, y.args[2])
	}
	if b.op == OEq0 && x.sort == SInt {
		// a choice by a quantity q in {0, 1} between values a constant apart
		if q := b.args[0]; q.lo != nil && q.hi != nil && q.lo.Sign() == 0 && q.hi.Cmp(bi1) == 0 {
			if d := c.Sub(y, x); d.isConst() {
				return c.lin(x, bi1, q, d.c)
			}
		}
	}
	return c.intern(fmt.Sprintf("?%d:%d:%d", b.id, x.id, y.id), func() *Term {
		t := &Term{op: OIte, sort: x.sort, args: []*Term{b, x, y}}
		if x.sort == SInt {
			if x.lo != nil && y.lo != nil {
				t.lo = minB(x.lo, y.lo)
			}
			if x.hi != nil && y.hi != nil {
				t.hi = maxB(x.hi, y.hi)
			}
		}
		return t
	})
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *Ctx) UF(name string, s Sort, lo, hi *big.Int, args ...*Term) *Term {
	if f, ok := c.trueUF[name]; ok {
		all := true
		var vs []*big.Int
		for _, a := range args {
			if !a.isConst() {
				all = false
				break
			}
			vs = append(vs, a.c)
		}
		if all {
			if v := f(vs); v != nil {
				return c.Int(v)
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("u" + name + "(")
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	return c.intern(sb.String(), func() *Term {
		return &Term{op: OUF, sort: s, name: name, args: args, lo: lo, hi: hi}
	})
}

// Pow2 of a symbolic exponent in [0, max]
func (c *Ctx) Pow2(s *Term) *Term {
	if s.isConst() {
		return c.Int(pow2(int(s.c.Int64())))
	}
	return c.intern(fmt.Sprintf("2^%d", s.id), func() *Term {
		t := &Term{op: OPow2, sort: SInt, args: []*Term{s}, lo: bi1}
		if s.lo != nil && s.lo.Sign() >= 0 {
			t.lo = pow2(int(s.lo.Int64()))
		}
		if s.hi != nil {
			t.hi = pow2(int(s.hi.Int64()))
		}
		return t
	})
}

// bit length bound of a non-negative term, -1 if unknown
func (t *Term) bitBound() int {
	if t.nonneg() && t.hi != nil {
		return t.hi.BitLen()
	}
	return -1
}

// number of known trailing zero bits
func (t *Term) tz() int {
	ms, k := t.polyParts()
	n := 1 << 20
	f := func(x *big.Int) {
		if x.Sign() == 0 {
			return
		}
		if z := int(x.TrailingZeroBits()); z < n {
			n = z
		}
	}
	for _, m := range ms {
		f(m.c)
	}
	f(k)
	return n
}

func (c *Ctx) bitop(op Op, x, y *Term) *Term {
	if x.id > y.id {
		x, y = y, x
	}
	return c.intern(fmt.Sprintf("b%d:%d:%d", op, x.id, y.id), func() *Term {
		t := &Term{op: op, sort: SInt, args: []*Term{x, y}, lo: bi0}
		switch op {
		case OBAnd:
			if x.hi != nil && y.hi != nil {
				t.hi = minB(x.hi, y.hi)
			}
		default:
			bx, by := x.bitBound(), y.bitBound()
			if bx >= 0 && by >= 0 {
				if by > bx {
					bx = by
				}
				t.hi = bsub(pow2(bx), bi1)
			}
			if op == OBOr {
				if x.lo != nil && y.lo != nil {
					t.lo = maxB(x.lo, y.lo)
				}
			}
		}
		return t
	})
}

func (c *Ctx) Extract(x *Term, lo, w int) *Term { // (x >> lo) mod 2^w, x >= 0
	return c.WrapU(c.divConst(x, pow2(lo)), w)
}

func (c *Ctx) BAnd(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return c.Int(new(big.Int).And(x.c, y.c))
		}
		m := y.c
		if m.Sign() == 0 {
			return y
		}
		// sum over runs of ones
		r := c.I(0)
		i := 0
		n := m.BitLen()
		runs := 0
		for i < n {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && m.Bit(j) == 1 {
				j++
			}
			runs++
			if runs > 4 {
				return c.bitop(OBAnd, x, y)
			}
			r = c.Add(r, c.Scale(c.Extract(x, i, j-i), pow2(i)))
			i = j
		}
		c.refine(r, bi0, m)
		return r
	}
	if x.op == OIte && x.args[1].isConst() && x.args[2].isConst() {
		return c.Ite(x.args[0], c.BAnd(x.args[1], y), c.BAnd(x.args[2], y))
	}
	if y.op == OIte && y.args[1].isConst() && y.args[2].isConst() {
		return c.Ite(y.args[0], c.BAnd(y.args[1], x), c.BAnd(y.args[2], x))
	}
	return c.bitop(OBAnd, x, y)
}

func (c *Ctx) disjoint(x, y *Term) bool {
	bx, by := x.bitBound(), y.bitBound()
	if by >= 0 && x.nonneg() && by <= x.tz() {
		return true
	}
	if bx >= 0 && y.nonneg() && bx <= y.tz() {
		return true
	}
	return c.disjointPow2(x, y) || c.disjointPow2(y, x)
}

func hasAtom(m Mono, p *Term) bool {
	for _, a := range m.a {
		if a == p {
			return true
		}
	}
	return false
}

// disjointPow2 recognises hi = (a*P) mod 2^w and lo = (b*P) div 2^w with
// b < 2^w and P a power of two dividing 2^w: hi is a multiple of P and lo < P.
func (c *Ctx) disjointPow2(hi, lo *Term) bool {
	if lo.op != ODiv || !lo.args[1].isConst() || !hi.nonneg() {
		return false
	}
	d := lo.args[1].c
	w := d.BitLen() - 1
	if d.Cmp(pow2(w)) != 0 {
		return false
	}
	ms, k := lo.args[0].polyParts()
	if len(ms) == 0 || k.Sign() != 0 {
		return false
	}
	var p *Term
	for _, a := range ms[0].a {
		if a.op == OPow2 {
			p = a
		}
	}
	if p == nil || p.args[0].lo == nil || p.args[0].lo.Sign() < 0 || p.args[0].hi == nil || p.args[0].hi.Cmp(bi(int64(w))) > 0 {
		return false
	}
	var qs []Mono
	for _, m := range ms {
		q, ok := monoDiv(m, Mono{bi1, []*Term{p}})
		if !ok {
			return false
		}
		qs = append(qs, q)
	}
	b := c.polyFrom(qs, bi0)
	if b.bitBound() < 0 || b.bitBound() > w {
		return false
	}
	hm, hk := hi.polyParts()
	if hk.Sign() != 0 {
		return false
	}
	for _, m := range hm {
		if hasAtom(m, p) {
			continue
		}
		if int(m.c.TrailingZeroBits()) >= w {
			continue // a multiple of 2^w, hence of P
		}
		return false
	}
	return true
}

func (c *Ctx) BOr(x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.isConst() && y.isConst() {
		return c.Int(new(big.Int).Or(x.c, y.c))
	}
	if c.disjoint(x, y) {
		return c.Add(x, y)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && x.nonneg() && y.nonneg() && runsOf(y.c) <= 4 {
		r := c.Add(c.Sub(x, c.BAnd(x, y)), y)
		c.refine(r, y.c, nil)
		if b := x.bitBound(); b >= 0 {
			if k := y.c.BitLen(); k > b {
				b = k
			}
			c.refine(r, bi0, bsub(pow2(b), bi1))
		}
		return r
	}
	return c.bitop(OBOr, x, y)
}
func (c *Ctx) BXor(x, y *Term) *Term {
	if x == y {
		return c.I(0)
	}
	if x.isConst() && y.isConst() {
		return c.Int(new(big.Int).Xor(x.c, y.c))
	}
	if c.disjoint(x, y) {
		return c.Add(x, y)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && x.bitBound() >= 0 {
		// xor with all ones of at least x's width
		n := y.c.BitLen()
		if y.c.Cmp(bsub(pow2(n), bi1)) == 0 && x.bitBound() <= n {
			return c.Sub(y, x)
		}
	}
	if y.isConst() && x.nonneg() && y.nonneg() && runsOf(y.c) <= 4 {
		r := c.Add(c.Sub(x, c.Scale(c.BAnd(x, y), bi(2))), y)
		b := y.c.BitLen()
		if k := x.bitBound(); k > b {
			b = k
		} else if k < 0 {
			return r
		}
		c.refine(r, bi0, bsub(pow2(b), bi1))
		return r
	}
	return c.bitop(OBXor, x, y)
}

// runs of ones in a non-negative number
func runsOf(m *big.Int) int {
	n := 0
	for i := 0; i < m.BitLen(); i++ {
		if m.Bit(i) == 1 && (i == 0 || m.Bit(i-1) == 0) {
			n++
		}
	}
	return n
}

// ---- booleans

func (c *Ctx) Not(b *Term) *Term {
	switch b.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return b.args[0]
	case OGe0:
		return c.ge0(c.Sub(c.I(-1), b.args[0]))
	case ORLe:
		return c.rcmp(ORLt, b.args[1], b.args[0])
	case ORLt:
		return c.rcmp(ORLe, b.args[1], b.args[0])
	}
	return c.intern(fmt.Sprintf("!%d", b.id), func() *Term {
		return &Term{op: ONot, sort: SBool, args: []*Term{b}}
	})
}

func (c *Ctx) nary(op Op, unit, zero *Term, bs []*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var walk func(b *Term) bool
	walk = func(b *Term) bool {
		if b == unit {
			return true
		}
		if b == zero {
			return false
		}
		if b.op == op {
			for _, a := range b.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if seen[b.id] {
			return true
		}
		if seen[c.Not(b).id] {
			return false
		}
		seen[b.id] = true
		out = append(out, b)
		return true
	}
	for _, b := range bs {
		if !walk(b) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	fmt.Fprintf(&sb, "n%d:", op)
	for _, o := range out {
		fmt.Fprintf(&sb, "%d,", o.id)
	}
	return c.intern(sb.String(), func() *Term {
		return &Term{op: op, sort: SBool, args: out}
	})
}
func (c *Ctx) And(bs ...*Term) *Term { return c.nary(OAnd, c.True, c.False, bs) }
func (c *Ctx) Or(bs ...*Term) *Term  { return c.nary(OOr, c.False, c.True, bs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}
func (c *Ctx) Iff(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	return c.And(c.Implies(a, b), c.Implies(b, a))
}

func gcdMonos(ms []Mono) *big.Int {
	g := new(big.Int)
	for _, m := range ms {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	return g
}

func (c *Ctx) ge0(p *Term) *Term {
	if p.isConst() {
		return c.Bool(p.c.Sign() >= 0)
	}
	if p.lo != nil && p.lo.Sign() >= 0 {
		return c.True
	}
	if p.hi != nil && p.hi.Sign() < 0 {
		return c.False
	}
	ms, k := p.polyParts()
	if g := gcdMonos(ms); g.Cmp(bi1) > 0 {
		var r []Mono
		for _, m := range ms {
			r = append(r, Mono{new(big.Int).Quo(m.c, g), m.a})
		}
		p2 := c.polyFrom(r, bfdiv(k, g))
		if p2.isConst() {
			return c.ge0(p2)
		}
		return c.ge0(p2)
	}
	// single ite: distribute when a leaf folds
	if len(ms) == 1 && len(ms[0].a) == 1 && ms[0].a[0].op == OIte {
		it := ms[0].a[0]
		a := c.ge0(c.lin(it.args[1], ms[0].c, c.Int(k), bi1))
		b := c.ge0(c.lin(it.args[2], ms[0].c, c.Int(k), bi1))
		if isTF(a) || isTF(b) {
			return c.Ite(it.args[0], a, b)
		}
	}
	return c.intern(fmt.Sprintf(">%d", p.id), func() *Term {
		return &Term{op: OGe0, sort: SBool, args: []*Term{p}}
	})
}

func isTF(t *Term) bool { return t.op == OTrue || t.op == OFalse }

func (c *Ctx) eq0(p *Term) *Term {
	if p.isConst() {
		return c.Bool(p.c.Sign() == 0)
	}
	if (p.lo != nil && p.lo.Sign() > 0) || (p.hi != nil && p.hi.Sign() < 0) {
		return c.False
	}
	ms, k := p.polyParts()
	// x mod M = 0 for |x| < M
	for _, m := range ms {
		if len(m.a) != 1 || m.a[0].op != ODiv || !m.a[0].args[1].isConst() || new(big.Int).Abs(m.c).Cmp(m.a[0].args[1].c) != 0 {
			continue
		}
		x, M := m.a[0].args[0], m.a[0].args[1].c
		sg := bi1
		if m.c.Sign() > 0 {
			sg = bi(-1)
		}
		if x.lo != nil && x.hi != nil && x.lo.Cmp(bneg(M)) > 0 && x.hi.Cmp(M) < 0 && c.lin(p, sg, m.a[0], M) == x {
			return c.eq0(x)
		}
	}
	g := gcdMonos(ms)
	if new(big.Int).Rem(k, g).Sign() != 0 {
		return c.False
	}
	neg := ms[0].c.Sign() < 0
	if g.Cmp(bi1) > 0 || neg {
		if neg {
			g = bneg(g)
		}
		var r []Mono
		for _, m := range ms {
			r = append(r, Mono{new(big.Int).Quo(m.c, g), m.a})
		}
		p = c.polyFrom(r, new(big.Int).Quo(k, g))
		ms, k = p.polyParts()
	}
	// a quantity that is 0 or 1: the test for 1 is the negated test for 0
	if p.lo != nil && p.hi != nil && k.Sign() != 0 {
		if k.Cmp(bi(-1)) == 0 && p.hi.Sign() == 0 && p.lo.Cmp(bi(-1)) == 0 {
			return c.Not(c.eq0(c.Add(p, c.Int(bi1))))
		}
		if k.Cmp(bi1) == 0 && p.lo.Sign() == 0 && p.hi.Cmp(bi1) == 0 {
			return c.Not(c.eq0(c.Sub(c.Int(bi1), p)))
		}
	}
	if k.Sign() == 0 && len(ms) == 1 {
		at := ms[0].a
		if len(at) > 1 { // product = 0
			var ds []*Term
			for _, a := range at {
				ds = append(ds, c.eq0(a))
			}
			return c.Or(ds...)
		}
		if at[0].op == OBOr {
			return c.And(c.eq0(at[0].args[0]), c.eq0(at[0].args[1]))
		}
		if at[0].op == OBXor {
			return c.Eq(at[0].args[0], at[0].args[1])
		}
	}
	if k.Sign() == 0 && len(ms) > 1 {
		// sum of non-negative things = 0
		all := true
		for _, m := range ms {
			al, _ := atomsRange(m.a)
			if m.c.Sign() <= 0 || al == nil || al.Sign() < 0 {
				all = false
				break
			}
		}
		if all {
			var cs []*Term
			for _, m := range ms {
				cs = append(cs, c.eq0(c.polyFrom([]Mono{{bi1, m.a}}, bi0)))
			}
			return c.And(cs...)
		}
	}
	if len(ms) == 1 && len(ms[0].a) == 1 && ms[0].a[0].op == OIte {
		it := ms[0].a[0]
		a := c.eq0(c.lin(it.args[1], ms[0].c, c.Int(k), bi1))
		b := c.eq0(c.lin(it.args[2], ms[0].c, c.Int(k), bi1))
		if isTF(a) || isTF(b) {
			return c.Ite(it.args[0], a, b)
		}
	}
	return c.intern(fmt.Sprintf("=%d", p.id), func() *Term {
		return &Term{op: OEq0, sort: SBool, args: []*Term{p}}
	})
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return c.True
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return c.False
	}
	return c.ge0(c.Sub(b, a))
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort == SBool {
		return c.Iff(a, b)
	}
	if a.sort == SReal {
		return c.rcmp(OREq, a, b)
	}
	if (a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0) || (a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0) {
		return c.False
	}
	return c.eq0(c.Sub(a, b))
}

// ---- reals

func (c *Ctx) Rat(r *big.Rat) *Term {
	return c.intern("r"+r.RatString(), func() *Term {
		return &Term{op: ORConst, sort: SReal, r: new(big.Rat).Set(r)}
	})
}
func (c *Ctx) ToReal(x *Term) *Term {
	if x.isConst() {
		return c.Rat(new(big.Rat).SetInt(x.c))
	}
	return c.intern(fmt.Sprintf("R%d", x.id), func() *Term { return &Term{op: OToReal, sort: SReal, args: []*Term{x}} })
}
func (c *Ctx) rop(op Op, x, y *Term) *Term {
	if x.op == ORConst && y.op == ORConst {
		switch op {
		case ORAdd:
			return c.Rat(new(big.Rat).Add(x.r, y.r))
		case ORMul:
			return c.Rat(new(big.Rat).Mul(x.r, y.r))
		case ORDiv:
			if y.r.Sign() != 0 {
				return c.Rat(new(big.Rat).Quo(x.r, y.r))
			}
		}
	}
	if (op == ORAdd || op == ORMul) && x.id > y.id {
		x, y = y, x
	}
	return c.intern(fmt.Sprintf("o%d:%d:%d", op, x.id, y.id), func() *Term { return &Term{op: op, sort: SReal, args: []*Term{x, y}} })
}
func (c *Ctx) RSub(x, y *Term) *Term {
	return c.rop(ORAdd, x, c.rop(ORMul, c.Rat(big.NewRat(-1, 1)), y))
}
func (c *Ctx) rcmp(op Op, x, y *Term) *Term {
	if x.op == ORConst && y.op == ORConst {
		k := x.r.Cmp(y.r)
		switch op {
		case ORLe:
			return c.Bool(k <= 0)
		case ORLt:
			return c.Bool(k < 0)
		case OREq:
			return c.Bool(k == 0)
		}
	}
	if x == y {
		return c.Bool(op != ORLt)
	}
	if b, ok := c.apxCmp(op, x, y); ok {
		return b
	}
	return c.intern(fmt.Sprintf("c%d:%d:%d", op, x.id, y.id), func() *Term { return &Term{op: op, sort: SBool, args: []*Term{x, y}} })
}

func (c *Ctx) Floor(x *Term) *Term {
	if x.op == ORConst {
		return c.Int(bfdiv(x.r.Num(), x.r.Denom()))
	}
	if x.op == OToReal {
		return x.args[0]
	}
	if a, ok := c.apx(x); ok && a.sharp() {
		return c.Div(a.n, c.Int(a.d))
	}
	return c.intern(fmt.Sprintf("f%d", x.id), func() *Term { return &Term{op: OFloor, sort: SInt, args: []*Term{x}} })
}

// leaves (variables and UF applications) a term depends on
func (t *Term) leafSet() map[int]bool {
	if t.vars != nil {
		return t.vars
	}
	s := map[int]bool{}
	switch t.op {
	case OVar:
		s[t.id] = true
	case OUF:
		s[t.id] = true
	}
	add := func(a *Term) {
		for k := range a.leafSet() {
			s[k] = true
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.monos {
		for _, a := range m.a {
			add(a)
		}
	}
	t.vars = s
	return s
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	cs := func(v *big.Int) string {
		s := v.String()
		if len(s) > 12 {
			if v.Sign() > 0 && new(big.Int).And(v, bsub(v, bi1)).Sign() == 0 {
				return fmt.Sprintf("2^%d", v.BitLen()-1)
			}
			return "0x" + v.Text(16)
		}
		return s
	}
	switch t.op {
	case OConst:
		return cs(t.c)
	case ORConst:
		return t.r.RatString()
	case OVar:
		return t.name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OPoly:
		var p []string
		for _, m := range t.monos {
			var q []string
			if m.c.Cmp(bi1) != 0 {
				q = append(q, cs(m.c))
			}
			for _, a := range m.a {
				q = append(q, a.str(d-1))
			}
			p = append(p, strings.Join(q, "*"))
		}
		if t.c.Sign() != 0 {
			p = append(p, cs(t.c))
		}
		return "(" + strings.Join(p, " + ") + ")"
	}
	names := map[Op]string{ODiv: "div", OIte: "ite", OBAnd: "band", OBOr: "bor", OBXor: "bxor", OPow2: "pow2", ONot: "not", OAnd: "and", OOr: "or", OGe0: "ge0", OEq0: "eq0", ORAdd: "radd", ORMul: "rmul", ORDiv: "rdiv", OToReal: "toreal", OFloor: "floor", ORLe: "rle", ORLt: "rlt", OREq: "req"}
	n := names[t.op]
	if t.op == OUF {
		n = t.name
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	return n + "(" + strings.Join(p, ",") + ")"
}
