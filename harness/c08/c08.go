package c08

import (
	"uniswap-simulator/lib/swapmath"
	td "uniswap-simulator/lib/tickdata"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

var zero = sym.I(0)

// protocol runs the Uniswap V3 swap algorithm on the state w and asserts that
// the pool, already swapped, ended in the same state.
type state struct {
	rem, calc, sq, g, l sym.Z
	tick                int
	n                   int
}

type found struct {
	tick, next int
	lte, init  bool
}

// memo answers the pool's searches: with the reference's answer where the
// reference asked the same question, else from the definition.  C09 decides
// that the real search is this definition.
type memo struct {
	ts   []int
	sp   int
	asks []found
	k    int
}

func (m *memo) ask(tick int, lte bool) (int, bool) {
	n, f := world.Next(m.ts, m.sp, tick, lte)
	m.asks = append(m.asks, found{tick, n, lte, f})
	return n, f
}

func (m *memo) answer(_ *td.TickData, tick int, lte bool) (int, bool) {
	if m.k < len(m.asks) {
		a := m.asks[m.k]
		if a.tick == tick && a.lte == lte {
			m.k++
			return a.next, a.init
		}
	}
	return world.Next(m.ts, m.sp, tick, lte)
}

func protocol(m *memo, w *world.World, k, fee int, zfo bool, amt, lim sym.Z) (s state, recs []world.Rec) {
	s = state{rem: amt, calc: zero, sq: w.Sq, l: w.L, tick: w.Tick, g: w.G1}
	if zfo {
		s.g = w.G0
	}
	exIn := amt.Gt(zero)
	for _, r := range w.T {
		recs = append(recs, r)
	}
	for s.rem.Ne(zero) && s.sq.Ne(lim) {
		s.n++
		sym.Assume(s.n <= k)
		nt, init := m.ask(s.tick, zfo)
		if nt < -world.MaxT {
			nt = -world.MaxT
		} else if nt > world.MaxT {
			nt = world.MaxT
		}
		sn := sym.SqrtRatio(nt)
		tgt := sn
		if zfo && tgt.Lt(lim) || !zfo && tgt.Gt(lim) {
			tgt = lim
		}
		// the single step is the subject of C07
		p_, i_, o_, f_ := swapmath.ComputeSwapStep(sym.ToU256(s.sq), sym.ToU256(tgt), sym.ToU256(s.l), sym.ToU256(s.rem), fee)
		p, in, out, f := sym.Of(p_), sym.Of(i_), sym.Of(o_), sym.Of(f_)
		start := s.sq
		s.sq = p
		if exIn {
			s.rem = s.rem.Sub(in.Add(f))
			s.calc = s.calc.Sub(out)
		} else {
			s.rem = s.rem.Add(out)
			s.calc = s.calc.Add(in.Add(f))
		}
		if s.l.Gt(zero) {
			s.g = ref.W(s.g.Add(f.Mul(ref.Q128()).Div(s.l)))
		}
		if s.sq.Eq(sn) {
			if init {
				for i := range recs {
					if recs[i].I == nt {
						g0, g1 := s.g, w.G1
						if !zfo {
							g0, g1 = w.G0, s.g
						}
						recs[i].F0 = sym.ToU256(g0.Sub(sym.Of(recs[i].F0)))
						recs[i].F1 = sym.ToU256(g1.Sub(sym.Of(recs[i].F1)))
						if zfo {
							s.l = s.l.Sub(recs[i].Net())
						} else {
							s.l = s.l.Add(recs[i].Net())
						}
						sym.Lemma(sym.And(s.l.Ge(zero), s.l.Lt(sym.P2(128))), "consistent")
						break
					}
				}
			}
			s.tick = nt
			if zfo {
				s.tick = nt - 1
			}
		} else if s.sq.Ne(start) {
			s.tick = sym.TickAt(s.sq)
		}
	}
	return
}

func run(n, k, span int, fee int, zfo, exIn, nolim bool) {
	sym.Contracts("uint256 fullmath tick step")
	ts := world.Ticks(n, world.Spacing(fee))
	w := world.New(ts, fee)
	if span > 0 {
		sym.Assume(ts[n-1]-ts[0] <= span)
	}
	sym.Unwind(k)
	a := sym.ZR("amt", sym.I(1), sym.P2(100))
	amt := a
	if !exIn {
		amt = a.Neg()
	}
	var limArg *ui.Int
	lim := ref.MinR().Add(sym.I(1))
	if !zfo {
		lim = ref.MaxR().Sub(sym.I(1))
	}
	if nolim {
		limArg = ui.NewInt(0)
		sym.Assume(sym.And(w.Sq.Ne(lim), w.Sq.Lt(lim) == !zfo))
	} else {
		limArg = sym.U256R("limit", ref.MinR().Add(sym.I(1)), ref.MaxR().Sub(sym.I(1)))
		lim = sym.Of(limArg)
		sym.Assume(sym.And(w.Sq.Ne(lim), w.Sq.Lt(lim) == !zfo))
	}
	m := &memo{ts: ts, sp: world.Spacing(fee)}
	s, recs := protocol(m, w, k, fee, zfo, amt, lim)
	sym.Replace("NextInitializedTickWithinOneWord", m.answer)
	inTok, outTok := "B", "A"
	if zfo {
		inTok, outTok = "A", "B"
	}
	arg := sym.ToU256(a)
	var r0, r1 *ui.Int
	var pan bool
	if exIn {
		pan = sym.Try(func() { r0, r1 = w.P.ExactInputSwap(arg, inTok, limArg) })
	} else {
		pan = sym.Try(func() { r0, r1 = w.P.ExactOutputSwap(arg, outTok, limArg) })
	}
	sym.Assert(!pan, "completes")
	if pan {
		return
	}
	p := w.P
	sym.Assert(sym.Of(p.SqrtRatioX96).Eq(s.sq), "price")
	sym.Assert(p.TickCurrent == s.tick, "tick")
	sym.Assert(sym.Of(p.Liquidity).Eq(s.l), "liquidity")
	sym.Assert(s.l.Eq(w.Active(s.tick)), "liquidity-in-range")
	g0, g1 := s.g, w.G1
	if !zfo {
		g0, g1 = w.G0, s.g
	}
	sym.Assert(sym.And(sym.Of(p.FeeGrowthGlobal0X128).Eq(g0), sym.Of(p.FeeGrowthGlobal1X128).Eq(g1)), "fee-growth")
	for _, r := range recs {
		world.CheckTick(p, r, "tick")
	}
	spent := amt.Sub(s.rem)
	a0, a1 := spent, s.calc
	if zfo != exIn {
		a0, a1 = s.calc, spent
	}
	sym.Assert(sym.And(sym.OfS(r0).Eq(a0), sym.OfS(r1).Eq(a1)), "amounts")
	if exIn {
		sym.Assert(sym.And(spent.Ge(zero), spent.Le(a), s.calc.Le(zero)), "never-overcharges")
	} else {
		sym.Assert(sym.And(spent.Le(zero), spent.Neg().Le(a), s.calc.Ge(zero)), "never-overdelivers")
	}
	P := sym.Of(p.SqrtRatioX96)
	if zfo {
		sym.Assert(sym.And(lim.Le(P), P.Le(w.Sq)), "direction")
	} else {
		sym.Assert(sym.And(P.Le(lim), w.Sq.Le(P)), "direction")
	}
	sym.Reach("done")
}

func b(i, k int) bool { return i>>k&1 == 1 }

// H_one: up to two steps over one range.
func H_one() {
	i := sym.Shard(8)
	run(2, 2, 0, 3000, b(i, 0), b(i, 1), b(i, 2))
}

// T_tiers: the other fee tiers in use.
func T_tiers() {
	i := sym.Shard(8)
	fee := 500
	if b(i, 2) {
		fee = 10000
	}
	run(2, 2, 0, fee, b(i, 0), b(i, 1), true)
}

// T_three: ranges over three ticks, up to three steps.
func T_three() {
	i := sym.Shard(4)
	run(3, 3, 0, 3000, b(i, 0), b(i, 1), false)
}
