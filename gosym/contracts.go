package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Specification functions used by the abstraction: exact values for concrete
// arguments.  They are used to check candidate counterexamples and to refine
// the abstraction; proofs use only the stated axioms.

var specMul = []string{
	"fff97272373d413259a46990580e213a", "fff2e50f5f656932ef12357cf3c7fdcc", "ffe5caca7e10e4e61c3624eaa0941cd0",
	"ffcb9843d60f6159c9db58835c926644", "ff973b41fa98c081472e6896dfb254c0", "ff2ea16466c96a3843ec78b326b52861",
	"fe5dee046a99a2a811c461f1969c3053", "fcbe86c7900a88aedcffc83b479aa3a4", "f987a7253ac413176f2b074cf7815e54",
	"f3392b0822b70005940c7a398e4b70f3", "e7159475a2c29b7443b29c7fa6e889d9", "d097f3bdfd2022b8845ad8f792aa5825",
	"a9f746462d870fdf8a65dc1f90e061e5", "70d869a156d2a1b890bb3df62baf32f7", "31be135f97d08fd981231505542fcfa6",
	"9aa508b5b7a84e1c677de54f3e99bc9", "5d6af8dedb81196699c329225ee604", "2216e584f5fa1ea926041bedfe98", "48a170391f7dc42444e8fa2",
}

const maxTick = 887272

var minRatio = big.NewInt(4295128739)
var maxRatio, _ = new(big.Int).SetString("1461446703485210103287273052203988822378723970342", 10)

var specCache = map[int64]*big.Int{}

func specSqrtRatio(tick int64) *big.Int {
	if tick < -maxTick || tick > maxTick {
		return nil
	}
	abs := tick
	if abs < 0 {
		abs = -abs
	}
	r := new(big.Int).Lsh(bi1, 128)
	if abs&1 != 0 {
		r.SetString("fffcb933bd6fad37aa2d162d1a594001", 16)
	}
	for i, h := range specMul {
		if abs&(2<<uint(i)) != 0 {
			m, _ := new(big.Int).SetString(h, 16)
			r.Mul(r, m)
			r.Rsh(r, 128)
		}
	}
	if tick > 0 {
		m := bsub(pow2(256), bi1)
		r.Quo(m, r)
	}
	q, rem := new(big.Int).QuoRem(r, pow2(32), new(big.Int))
	if rem.Sign() != 0 {
		q.Add(q, bi1)
	}
	return q
}

// ratioOrder checks the axiom that S strictly increases, at every tick.
func ratioOrder() bool {
	var ms []*big.Int
	for _, h := range specMul {
		m, _ := new(big.Int).SetString(h, 16)
		ms = append(ms, m)
	}
	first, _ := new(big.Int).SetString("fffcb933bd6fad37aa2d162d1a594001", 16)
	one, top := pow2(128), bsub(pow2(256), bi1)
	const parts = 8
	res := make(chan bool, parts)
	for g := int64(0); g < parts; g++ {
		go func(lo, hi int64) {
			if hi > maxTick {
				hi = maxTick
			}
			ok := true
			var prev *big.Int
			r, rem, lim := new(big.Int), new(big.Int), pow2(32)
			for t := lo; t <= hi; t++ {
				abs := t
				if abs < 0 {
					abs = -abs
				}
				r.Set(one)
				if abs&1 != 0 {
					r.Set(first)
				}
				for i, m := range ms {
					if abs&(2<<uint(i)) != 0 {
						r.Mul(r, m)
						r.Rsh(r, 128)
					}
				}
				if t > 0 {
					r.Quo(top, r)
				}
				q := new(big.Int)
				q.QuoRem(r, lim, rem)
				if rem.Sign() != 0 {
					q.Add(q, bi1)
				}
				if prev != nil && prev.Cmp(q) >= 0 {
					ok = false
				}
				prev = q
			}
			res <- ok
		}(-maxTick+g*(2*maxTick/parts), -maxTick+(g+1)*(2*maxTick/parts)+1)
	}
	all := true
	for g := 0; g < parts; g++ {
		all = <-res && all
	}
	return all
}

func specTick(p *big.Int) *big.Int {
	if p.Cmp(minRatio) < 0 || p.Cmp(maxRatio) >= 0 {
		return nil
	}
	lo, hi := int64(-maxTick), int64(maxTick)
	for lo < hi {
		mid := lo + (hi-lo+1)/2
		if specSqrtRatio(mid).Cmp(p) > 0 {
			hi = mid - 1
		} else {
			lo = mid
		}
	}
	return big.NewInt(lo)
}

type cegarState struct {
	sPts map[int64]bool
	tPts map[string]*big.Int
	pts  map[string][]cegPt
}
type cegPt struct {
	args []*big.Int
	v    *big.Int
}

func (e *Engine) setupUF() {
	e.setupFloat()
	c := e.c
	e.cegar = &cegarState{sPts: map[int64]bool{}, tPts: map[string]*big.Int{}, pts: map[string][]cegPt{}}
	for _, v := range []int64{-maxTick, maxTick, 0} {
		e.cegar.sPts[v] = true
	}
	c.trueUF["S"] = func(a []*big.Int) *big.Int {
		if !a[0].IsInt64() {
			return nil
		}
		return specSqrtRatio(a[0].Int64())
	}
	c.trueUF["isqrt"] = func(a []*big.Int) *big.Int {
		if a[0].Sign() < 0 {
			return nil
		}
		return new(big.Int).Sqrt(a[0])
	}
	c.trueUF["T"] = func(a []*big.Int) *big.Int { return specTick(a[0]) }
	e.axioms["S"] = func(c *Ctx, apps []*Term) []*Term {
		var out []*Term
		for i, x := range apps {
			for j := 0; j < i; j++ {
				y := apps[j]
				a, b := x.args[0], y.args[0]
				out = append(out, c.Iff(c.Lt(a, b), c.Lt(x, y)), c.Iff(c.Eq(a, b), c.Eq(x, y)))
			}
			for v := range e.cegar.sPts {
				sv := c.Int(specSqrtRatio(v))
				out = append(out, c.Iff(c.Lt(x.args[0], c.I(v)), c.Lt(x, sv)), c.Iff(c.Eq(x.args[0], c.I(v)), c.Eq(x, sv)))
			}
		}
		return out
	}
	for _, n := range []string{"T", "isqrt", "step.p", "step.in", "step.out", "step.fee"} {
		n := n
		e.axioms[n] = func(c *Ctx, apps []*Term) []*Term {
			var out []*Term
			for i, x := range apps {
				for j := 0; j < i; j++ {
					var eqs []*Term
					for k := range x.args {
						eqs = append(eqs, c.Eq(x.args[k], apps[j].args[k]))
					}
					out = append(out, c.Implies(c.And(eqs...), c.Eq(x, apps[j])))
				}
				for _, p := range e.cegar.pts[n] {
					var eqs []*Term
					for k := range x.args {
						eqs = append(eqs, c.Eq(x.args[k], c.Int(p.args[k])))
					}
					out = append(out, c.Implies(c.And(eqs...), c.Eq(x, c.Int(p.v))))
				}
			}
			return out
		}
	}
	step := func(k int) func(a []*big.Int) *big.Int {
		return func(a []*big.Int) *big.Int {
			r := specStep(a[0], a[1], a[2], a[3], a[4])
			if r == nil {
				return nil
			}
			return r[k]
		}
	}
	c.trueUF["step.p"] = step(0)
	c.trueUF["step.in"] = step(1)
	c.trueUF["step.out"] = step(2)
	c.trueUF["step.fee"] = step(3)
}

// ---- protocol step (used only to evaluate candidate counterexamples)

func bceil(a, b *big.Int) *big.Int { return bneg(bfdiv(bneg(a), b)) }

func specAmt0(a, b, l *big.Int, up bool) *big.Int {
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	if a.Sign() <= 0 {
		return nil
	}
	n1 := new(big.Int).Lsh(l, 96)
	x := bmul(n1, bsub(b, a))
	if up {
		return bceil(bceil(x, b), a)
	}
	return bfdiv(bfdiv(x, b), a)
}
func specAmt1(a, b, l *big.Int, up bool) *big.Int {
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	x := bmul(l, bsub(b, a))
	if up {
		return bceil(x, pow2(96))
	}
	return bfdiv(x, pow2(96))
}
func specNext0(p, l, amt *big.Int, add bool) *big.Int {
	if amt.Sign() == 0 {
		return p
	}
	n1 := new(big.Int).Lsh(l, 96)
	pr := bmul(amt, p)
	if add {
		d := badd(n1, pr)
		if pr.BitLen() <= 256 && d.BitLen() <= 256 {
			return bceil(bmul(n1, p), d)
		}
		return bceil(n1, badd(bfdiv(n1, p), amt))
	}
	d := bsub(n1, pr)
	if d.Sign() <= 0 {
		return nil
	}
	return bceil(bmul(n1, p), d)
}
func specNext1(p, l, amt *big.Int, add bool) *big.Int {
	if l.Sign() == 0 {
		return nil
	}
	n := new(big.Int).Lsh(amt, 96)
	if add {
		return badd(p, bfdiv(n, l))
	}
	return bsub(p, bceil(n, l))
}

func specStep(cur, tgt, l, rem, fee *big.Int) []*big.Int {
	zfo := cur.Cmp(tgt) >= 0
	r := rem
	if r.BitLen() == 256 {
		r = bsub(r, pow2(256))
	}
	mil := bi(1000000)
	var next, in, out *big.Int
	if cur.Sign() <= 0 || tgt.Sign() <= 0 || fee.Sign() < 0 || fee.Cmp(mil) >= 0 {
		return nil
	}
	exIn := r.Sign() >= 0
	if exIn {
		less := bfdiv(bmul(r, bsub(mil, fee)), mil)
		if zfo {
			in = specAmt0(tgt, cur, l, true)
		} else {
			in = specAmt1(cur, tgt, l, true)
		}
		if less.Cmp(in) >= 0 {
			next = tgt
		} else if zfo {
			next = specNext0(cur, l, less, true)
		} else {
			next = specNext1(cur, l, less, true)
		}
	} else {
		if zfo {
			out = specAmt1(tgt, cur, l, false)
		} else {
			out = specAmt0(cur, tgt, l, false)
		}
		if bneg(r).Cmp(out) >= 0 {
			next = tgt
		} else if zfo {
			next = specNext1(cur, l, bneg(r), false)
		} else {
			next = specNext0(cur, l, bneg(r), false)
		}
	}
	if next == nil || next.Sign() <= 0 {
		return nil
	}
	max := tgt.Cmp(next) == 0
	if zfo {
		if !(max && exIn) {
			in = specAmt0(next, cur, l, true)
		}
		if !(max && !exIn) {
			out = specAmt1(next, cur, l, false)
		}
	} else {
		if !(max && exIn) {
			in = specAmt1(cur, next, l, true)
		}
		if !(max && !exIn) {
			out = specAmt0(cur, next, l, false)
		}
	}
	if !exIn && out.Cmp(bneg(r)) > 0 {
		out = bneg(r)
	}
	var f *big.Int
	if exIn && next.Cmp(tgt) != 0 {
		f = bsub(r, in)
	} else {
		f = bceil(bmul(in, fee), bsub(mil, fee))
	}
	return []*big.Int{next, in, out, f}
}

// ---------------------------------------------------------------------------
// counterexample refinement

func ufApps(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OUF {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.monos {
			for _, a := range m.a {
				walk(a)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func (e *Engine) addPoint(name string, args []*big.Int) {
	f := e.c.trueUF[name]
	if f == nil {
		return
	}
	if name == "S" {
		if args[0].IsInt64() && specSqrtRatio(args[0].Int64()) != nil {
			e.cegar.sPts[args[0].Int64()] = true
		}
		return
	}
	v := f(args)
	if v == nil {
		return
	}
	for _, p := range e.cegar.pts[name] {
		same := true
		for i := range args {
			if p.args[i].Cmp(args[i]) != 0 {
				same = false
			}
		}
		if same {
			return
		}
	}
	e.cegar.pts[name] = append(e.cegar.pts[name], cegPt{args, v})
	if name == "T" {
		e.cegar.sPts[v.Int64()] = true
		if v.Int64() < maxTick {
			e.cegar.sPts[v.Int64()+1] = true
		}
	}
}

// refineCex turns a model of the abstraction into one that is exact, or shows
// that none exists (Unsat), or gives up (Unknown).
func (e *Engine) refineCex(st *State, goal *Term, m *Model) (Verdict, *Model) {
	c := e.c
	m = mergeModel(st.model, m)
	if e.pcHolds(st, m, goal) {
		return Sat, m
	}
	all := append(append([]*Term(nil), st.pc...), goal)
	apps := ufApps(all)
	svPts := map[int64]bool{}
	for k := range e.cegar.sPts {
		svPts[k] = true
	}
	svP := map[string][]cegPt{}
	for k, v := range e.cegar.pts {
		svP[k] = v
	}
	// point lemmas accumulate only during this refinement
	defer func() { e.cegar.sPts, e.cegar.pts = svPts, svP; e.sol.axver++ }()
	if st.model == nil || len(apps) == 0 {
		v, fm := e.fullModel(st, []*Term{goal}, e.assertTO)
		if v != Sat {
			return v, nil
		}
		m = fm
		if e.pcHolds(st, m, goal) {
			return Sat, m
		}
		if len(apps) == 0 {
			return Unknown, nil
		}
	}
	for round := 0; round < 6; round++ {
		ev := c.evaluator(m, false)
		var fix []*Term
		for _, a := range apps {
			var as []*big.Int
			for _, x := range a.args {
				v := ev.Int(x)
				as = append(as, v)
				fix = append(fix, c.Eq(x, c.Int(v)))
			}
			e.addPoint(a.name, as)
			if a.name == "S" {
				// also the tick nearest to the price the model wants
				if t := specTick(ev.Int(a)); t != nil {
					e.cegar.sPts[t.Int64()] = true
				}
			}
		}
		e.sol.axver++
		// exact functions at the model's own arguments
		ev2 := c.evaluator(m, true)
		var fixS []*Term
		for _, a := range apps {
			if a.name == "S" || a.name == "T" {
				x := a.args[0]
				fixS = append(fixS, c.Eq(x, c.Int(ev2.Int(x))))
			}
		}
		if len(fixS) > 0 {
			v, fm := e.fullModel(st, append([]*Term{goal}, fixS...), 4*time.Second)
			if v == Sat && e.pcHolds(st, fm, goal) {
				return Sat, fm
			}
		}
		v, fm := e.fullModel(st, []*Term{goal}, 8*time.Second)
		if v == Unsat {
			return Unsat, nil
		}
		if v != Sat {
			return Unknown, nil
		}
		m = fm
		if e.pcHolds(st, m, goal) {
			return Sat, m
		}
		e.checkDeadline()
	}
	return Unknown, nil
}

// huntCex looks for a counterexample of an undecided claim by fixing most
// inputs to values from a model of the path and solving for the rest.
func (e *Engine) huntCex(st *State, goal *Term, label string) bool {
	if e.perLabel["hunt:"+label] >= 2 {
		return false
	}
	e.perLabel["hunt:"+label]++
	c := e.c
	v, m := e.fullModel(st, nil, 3*time.Second)
	if v != Sat {
		return false
	}
	rng := rand.New(rand.NewSource(1))
	if e.guessCex(st, goal, label, m, rng) {
		return true
	}
	for try := 0; try < 12; try++ {
		e.checkDeadline()
		if e.pcHolds(st, m, goal) {
			e.candidate(st, "assert", label, m, goal)
			return true
		}
		ev := c.evaluator(m, true)
		var fix []*Term
		for _, in := range st.inputs {
			if in.t.sort == SInt && rng.Intn(3) != 0 {
				val := ev.Int(in.t)
				if rng.Intn(3) == 0 && in.t.hi != nil && in.t.lo != nil {
					w := bsub(in.t.hi, in.t.lo)
					if w.Sign() > 0 {
						val = badd(in.t.lo, new(big.Int).Rand(rng, badd(w, bi1)))
						if rng.Intn(2) == 0 {
							val = badd(in.t.lo, new(big.Int).Rsh(bsub(val, in.t.lo), uint(rng.Intn(w.BitLen()+1))))
						}
					}
				}
				fix = append(fix, c.Eq(in.t, c.Int(val)))
			}
		}
		v, hm := e.fullModel(st, append([]*Term{goal}, fix...), 2*time.Second)
		if v == Sat {
			if v, hm = e.refineCex(st, goal, hm); v == Sat {
				e.candidate(st, "assert", label, hm, goal)
				return true
			}
		}
		v, nm := e.fullModel(st, fix, 1*time.Second)
		if v == Sat {
			m = nm
		}
	}
	return false
}

// guessCex looks for a counterexample to an undecided claim by evaluating it
// at many inputs (what it finds is replayed like any other candidate).
func (e *Engine) guessCex(st *State, goal *Term, label string, m0 *Model, rng *rand.Rand) bool {
	stop := time.Now().Add(4 * time.Second)
	for n := 0; time.Now().Before(stop); n++ {
		m := NewModel()
		for k, v := range m0.iv {
			m.iv[k] = v
		}
		for k, v := range m0.bv {
			m.bv[k] = v
		}
		for k, v := range m0.rv {
			m.rv[k] = v
		}
		mode := rng.Intn(4)
		for _, in := range st.inputs {
			if in.t.sort != SInt || in.t.op != OVar || in.t.lo == nil || in.t.hi == nil || rng.Intn(4) == 0 && n > 0 && len(st.inputs) > 1 {
				continue
			}
			w := bsub(in.t.hi, in.t.lo)
			if w.Sign() == 0 {
				continue
			}
			x := new(big.Int).Rand(rng, badd(w, bi1))
			switch mode {
			case 0: // any size
				x.Rsh(x, uint(rng.Intn(w.BitLen()+1)))
			case 1: // few bits
				x = big.NewInt(0)
				for k := rng.Intn(4); k >= 0; k-- {
					x.SetBit(x, rng.Intn(w.BitLen()), 1)
				}
				if x.Cmp(w) > 0 {
					x.Mod(x, badd(w, bi1))
				}
			case 2: // near the other end
				x = bsub(w, x.Rsh(x, uint(rng.Intn(w.BitLen()+1))))
			}
			m.iv[in.t.id] = badd(in.t.lo, x)
		}
		if e.pcHolds(st, m, goal) {
			e.candidate(st, "assert", label, m, goal)
			return true
		}
	}
	return false
}

// candidate records (and natively confirms) a counterexample.
func (e *Engine) candidate(st *State, kind, label string, m *Model, goal *Term) {
	key := kind + ":" + label
	if e.perLabel[key] >= 2 {
		return
	}
	if m == nil {
		v, fm := e.fullModel(st, []*Term{goal}, e.assertTO)
		if v == Unsat {
			return
		}
		if v == Sat {
			v, fm = e.refineCex(st, goal, fm)
		}
		if v == Unsat {
			return
		}
		if v != Sat {
			e.errs["undecided path: "+label]++
			return
		}
		m = fm
	}
	if !e.pcHolds(st, m, goal) {
		// the query was about part of the path only
		if v, fm := e.fullModel(st, []*Term{goal}, e.assertTO); v == Sat {
			if v, fm = e.refineCex(st, goal, fm); v == Sat && e.pcHolds(st, fm, goal) {
				m = fm
			}
		}
	}
	e.perLabel[key]++
	fl := &Failure{Label: label, Kind: kind, Inputs: e.modelInputs(st, m), Verdict: "unconfirmed"}
	for _, in := range st.inputs {
		fl.Order = append(fl.Order, in.name)
	}
	if !e.pcHolds(st, m, goal) {
		fl.Note = "inexact model"
	}
	if e.replay != nil {
		out, err := e.replay(fl.Inputs)
		fl.Note += " " + strings.TrimSpace(out)
		if err == nil {
			fl.Verdict = classify(out, kind, label)
		} else {
			fl.Note += " " + err.Error()
		}
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "CANDIDATE", kind, label, fl.Verdict, fl.Inputs, fl.Note)
	}
	e.cands = append(e.cands, fl)
	n := 0
	for _, c := range e.cands {
		if c.Verdict == "confirmed" {
			n++
		}
	}
	if n >= e.maxCand {
		e.stop = true
	}
}

func classify(out, kind, label string) string {
	switch {
	case strings.Contains(out, "ASSERT-FAIL"), strings.Contains(out, "PANIC "):
		return "confirmed"
	case strings.Contains(out, "TIMEOUT") && (kind == "assert" || kind == "hang"):
		return "confirmed" // the real code does not come back
	case strings.Contains(out, "ASSUME-FAIL"):
		return "outside-precondition"
	}
	return "not-reproduced"
}

// ---------------------------------------------------------------------------
// contracts

func (e *Engine) sqrtRatio(t *Term) *Term {
	return e.c.UF("S", SInt, minRatio, maxRatio, t)
}

func (e *Engine) tickAt(st *State, p *Term) *Term {
	c := e.c
	t := c.UF("T", SInt, bi(-maxTick), bi(maxTick-1), p)
	if t.isConst() {
		return t
	}
	e.assume(st, c.And(c.Le(e.sqrtRatio(t), p), c.Lt(p, e.sqrtRatio(c.Add(t, c.I(1))))))
	// T(S(x)) == x
	if p.op == OUF && p.name == "S" {
		e.assume(st, c.Eq(t, p.args[0]))
	}
	return t
}

// isqrt is the integer square root of x >= 0.
func (e *Engine) isqrt(st *State, x *Term) *Term {
	c := e.c
	if x.isConst() {
		return c.Int(new(big.Int).Sqrt(x.c))
	}
	var hi *big.Int
	if x.hi != nil {
		hi = new(big.Int).Sqrt(x.hi)
	}
	r := c.UF("isqrt", SInt, bi0, hi, x)
	r1 := c.Add(r, c.I(1))
	e.assume(st, c.And(c.Le(c.Mul(r, r), x), c.Lt(x, c.Mul(r1, r1))))
	return r
}

func (e *Engine) setU256(st *State, dst Value, t *Term) Value {
	switch p := dst.(type) {
	case Ptr:
		if p.obj == 0 {
			e.gopanic(st, "nil *Int")
		}
		e.storePtr(st, p, &Pack{t})
		return p
	case GPtr:
		q := e.resolve(st, p)
		e.storePtr(st, q, &Pack{t})
		return q
	case MPtr:
		e.storeM(st, p, &Pack{t})
		return p
	case LamBox:
		e.lamBoxStore(st, p, &Pack{t})
		return p
	}
	fail("setU256 %T", dst)
	return nil
}

func (e *Engine) contract(st *State, f *Frame, fn *ssa.Function, name string, args []Value) (Value, bool) {
	if len(st.cons) == 0 {
		return nil, false
	}
	m := e.p.module
	short := strings.TrimPrefix(strings.TrimPrefix(name, "(*"), m+"/")
	switch {
	case strings.HasPrefix(short, "uint256."):
		if v, ok := e.contractDiv(st, short, args); ok {
			return v, true
		}
		if st.cons["uint256"] {
			return e.contractU256(st, short, args)
		}
	case strings.HasPrefix(short, "lib/fullmath."):
		if st.cons["fullmath"] {
			return e.contractFullmath(st, short, args)
		}
	case strings.HasPrefix(short, "lib/tickmath."):
		if st.cons["tick"] {
			return e.contractTick(st, short, args)
		}
	case strings.HasPrefix(short, "lib/swapmath."):
		if st.cons["step"] {
			return e.contractStep(st, short, args)
		}
	}
	return nil, false
}

func (e *Engine) contractU256(st *State, name string, args []Value) (Value, bool) {
	c := e.c
	nm := strings.TrimPrefix(name, "uint256.")
	if i := strings.Index(nm, ")."); i >= 0 {
		nm = nm[i+2:]
	} else {
		switch nm {
		case "NewInt":
			return e.newBoxed(st, &Pack{e.term(args[0])}), true
		}
		return nil, false
	}
	u := func(i int) *Term { return e.u256(st, args[i]) }
	w := func(n *Term) *Term { return e.wrap(st, n, 256, false) }
	half := c.Int(pow2(255))
	neg := func(x *Term) *Term {
		if x.hi != nil && x.hi.Cmp(pow2(255)) < 0 {
			return c.False
		}
		return c.Le(half, x)
	}
	switch nm {
	case "Add":
		return e.setU256(st, args[0], w(c.Add(u(1), u(2)))), true
	case "Sub":
		return e.setU256(st, args[0], w(c.Sub(u(1), u(2)))), true
	case "Mul":
		return e.setU256(st, args[0], w(c.Mul(u(1), u(2)))), true
	case "Neg":
		return e.setU256(st, args[0], w(c.Neg(u(1)))), true
	case "Div", "Mod":
		x, y := u(1), u(2)
		if !y.pos() {
			if e.branch(st, c.Eq(y, c.I(0))) {
				return e.setU256(st, args[0], c.I(0)), true
			}
		}
		if nm == "Div" {
			return e.setU256(st, args[0], c.Div(x, y)), true
		}
		return e.setU256(st, args[0], c.Mod(x, y)), true
	case "Set":
		return e.setU256(st, args[0], u(1)), true
	case "SetUint64":
		return e.setU256(st, args[0], e.term(args[1])), true
	case "SetOne":
		return e.setU256(st, args[0], c.I(1)), true
	case "Clear":
		return e.setU256(st, args[0], c.I(0)), true
	case "Clone":
		return e.newBoxed(st, &Pack{u(0)}), true
	case "IsZero":
		return c.Eq(u(0), c.I(0)), true
	case "Eq":
		return c.Eq(u(0), u(1)), true
	case "Lt":
		return c.Lt(u(0), u(1)), true
	case "Gt":
		return c.Lt(u(1), u(0)), true
	case "Slt":
		return c.Lt(e.signed256(u(0)), e.signed256(u(1))), true
	case "Sgt":
		return c.Lt(e.signed256(u(1)), e.signed256(u(0))), true
	case "Cmp":
		x, y := u(0), u(1)
		return c.Ite(c.Lt(x, y), c.I(-1), c.Ite(c.Eq(x, y), c.I(0), c.I(1))), true
	case "Sign":
		x := u(0)
		return c.Ite(c.Eq(x, c.I(0)), c.I(0), c.Ite(neg(x), c.I(-1), c.I(1))), true
	case "Sqrt":
		if !st.cons["sqrt"] {
			return nil, false
		}
		return e.setU256(st, args[0], e.isqrt(st, u(1))), true
	case "Abs":
		x := u(1)
		return e.setU256(st, args[0], c.Ite(neg(x), c.Sub(c.Int(pow2(256)), x), x)), true
	case "MulOverflow", "AddOverflow", "SubOverflow":
		var n *Term
		switch nm {
		case "MulOverflow":
			n = c.Mul(u(1), u(2))
		case "AddOverflow":
			n = c.Add(u(1), u(2))
		default:
			n = c.Sub(u(1), u(2))
		}
		ov := c.Not(c.And(c.Le(c.I(0), n), c.Lt(n, c.Int(pow2(256)))))
		return Tuple{e.setU256(st, args[0], w(n)), ov}, true
	case "Lsh", "Rsh":
		s := e.term(args[2])
		if !s.isConst() {
			return nil, false
		}
		k := s.c.Int64()
		if k >= 256 {
			return e.setU256(st, args[0], c.I(0)), true
		}
		if nm == "Lsh" {
			return e.setU256(st, args[0], w(c.Scale(u(1), pow2(int(k))))), true
		}
		return e.setU256(st, args[0], c.Div(u(1), c.Int(pow2(int(k))))), true
	case "Uint64":
		return c.WrapU(u(0), 64), true
	case "IsUint64":
		return c.Lt(u(0), c.Int(pow2(64))), true
	case "ToBig":
		return e.newBoxed(st, &BigV{u(0)}), true
	case "SetAllOne":
		return e.setU256(st, args[0], c.Int(bsub(pow2(256), bi1))), true
	}
	return nil, false
}

func (e *Engine) contractFullmath(st *State, name string, args []Value) (Value, bool) {
	c := e.c
	nm := strings.TrimPrefix(name, "lib/fullmath.")
	if nm != "MulDiv" && nm != "MulDivRoundingUp" || len(args) != 3 {
		return nil, false
	}
	a, b, d := e.u256(st, args[0]), e.u256(st, args[1]), e.u256(st, args[2])
	if !d.pos() {
		if e.branch(st, c.Eq(d, c.I(0))) {
			return nil, false // run the real body
		}
	}
	n := c.Mul(a, b)
	lim := bsub(pow2(256), bi1)
	if d.lo != nil && d.lo.Sign() > 0 && n.hi != nil && bceil(n.hi, d.lo).Cmp(lim) <= 0 {
		// quotient fits in four words
	} else if !e.branch(st, c.Le(n, c.Scale(d, lim))) {
		return nil, false
	}
	var q *Term
	if nm == "MulDiv" {
		q = c.Div(n, d)
	} else {
		q = c.Neg(c.Div(c.Neg(n), d))
	}
	if d.pos() {
		c.refine(q, bi0, nil)
		if n.hi != nil {
			c.refine(q, bi0, bceil(n.hi, d.lo))
		}
	}
	// in range under the path condition
	return e.newBoxed(st, &Pack{q}), true
}

func (e *Engine) contractTick(st *State, name string, args []Value) (Value, bool) {
	c := e.c
	nm := name
	if i := strings.Index(nm, ")."); i >= 0 {
		nm = nm[i+2:]
	} else {
		nm = strings.TrimPrefix(nm, "lib/tickmath.")
	}
	switch nm {
	case "GetSqrtRatioAtTick":
		t := e.term(args[len(args)-1])
		if !e.branch(st, c.And(c.Le(c.I(-maxTick), t), c.Le(t, c.I(maxTick)))) {
			e.gopanic(st, "index out of range: tick table")
		}
		return e.newBoxed(st, &Pack{e.sqrtRatio(t)}), true
	case "GetTickAtSqrtRatio":
		p := e.u256(st, args[len(args)-1])
		if !e.branch(st, c.And(c.Le(c.Int(minRatio), p), c.Lt(p, c.Int(maxRatio)))) {
			e.gopanic(st, "sqrtRatioX96 must be between MinSqrtRatio and MaxSqrtRatio")
		}
		return e.tickAt(st, p), true
	case "Floor", "Ceil", "Round":
		x, u := e.term(args[0]), e.term(args[1])
		if u.sort != SInt || !u.isConst() || u.c.Sign() <= 0 || !e.implied(st, c.And(c.Le(c.I(-1<<32), x), c.Le(x, c.I(1<<32)))) {
			return nil, false
		}
		switch nm {
		case "Floor":
			return c.Mul(u, c.Div(x, u)), true
		case "Ceil":
			return c.Neg(c.Mul(u, c.Div(c.Neg(x), u))), true
		default:
			// nearest, halves away from zero
			two := c.Scale(u, bi(2))
			pos := c.Mul(u, c.Div(c.Add(c.Scale(x, bi(2)), u), two))
			neg := c.Neg(c.Mul(u, c.Div(c.Add(c.Scale(c.Neg(x), bi(2)), u), two)))
			return c.Ite(c.Le(c.I(0), x), pos, neg), true
		}
	}
	return nil, false
}

func (e *Engine) contractStep(st *State, name string, args []Value) (Value, bool) {
	c := e.c
	if name != "lib/swapmath.ComputeSwapStep" || len(args) != 5 {
		return nil, false
	}
	cur, tgt, l, rem := e.u256(st, args[0]), e.u256(st, args[1]), e.u256(st, args[2]), e.u256(st, args[3])
	fee := e.term(args[4])
	// domain on which the step is proved to meet its specification
	pre := c.And(c.Le(c.Int(minRatio), cur), c.Le(cur, c.Int(maxRatio)), c.Le(c.Int(minRatio), tgt), c.Le(tgt, c.Int(maxRatio)),
		c.Lt(l, c.Int(pow2(128))), c.Le(c.I(0), fee), c.Lt(fee, c.I(1000000)),
		c.Or(c.Lt(rem, c.Int(pow2(127))), c.Lt(c.Int(bsub(pow2(256), pow2(127))), rem)))
	if !e.branch(st, pre) {
		return nil, false
	}
	m160 := bsub(pow2(161), bi1)
	p := c.UF("step.p", SInt, minRatio, m160, cur, tgt, l, rem, fee)
	in := c.UF("step.in", SInt, bi0, pow2(226), cur, tgt, l, rem, fee)
	out := c.UF("step.out", SInt, bi0, pow2(226), cur, tgt, l, rem, fee)
	ff := c.UF("step.fee", SInt, bi0, pow2(247), cur, tgt, l, rem, fee)
	srem := e.signed256(rem)
	exIn := c.Le(c.I(0), srem)
	if !p.isConst() {
		tot := c.Add(in, ff)
		e.assume(st, c.And(
			c.Implies(c.Le(tgt, cur), c.And(c.Le(tgt, p), c.Le(p, cur))),
			c.Implies(c.Lt(cur, tgt), c.And(c.Le(cur, p), c.Le(p, tgt))),
			c.Implies(exIn, c.Le(tot, srem)),
			c.Implies(c.And(exIn, c.Not(c.Eq(p, tgt))), c.Eq(tot, srem)),
			c.Implies(c.Not(exIn), c.Le(out, c.Neg(srem))),
			c.Implies(c.And(c.Not(exIn), c.Not(c.Eq(p, tgt))), c.Eq(out, c.Neg(srem))),
			c.Le(in, c.Int(pow2(226))), c.Le(out, c.Int(pow2(226))), c.Le(ff, c.Int(pow2(247))),
			c.Le(ff, c.Mul(l, c.Int(pow2(118)))),
			c.Implies(c.Eq(l, c.I(0)), c.And(c.Eq(p, tgt), c.Eq(in, c.I(0)), c.Eq(out, c.I(0)), c.Eq(ff, c.I(0)))),
		))
	}
	box := func(t *Term) Value { return e.newBoxed(st, &Pack{t}) }
	return Tuple{box(p), box(in), box(out), box(ff)}, true
}
