package c10

import (
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/tickdata"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

var zero = sym.I(0)

const maxT = world.MaxT

// expected amounts of a liquidity change
func amounts(w *world.World, lo, up int, l sym.Z, roundUp bool) (a0, a1 sym.Z) {
	sl, su := sym.SqrtRatio(lo), sym.SqrtRatio(up)
	if w.Tick < lo {
		return ref.Amt0(sl, su, l, roundUp), zero
	} else if w.Tick < up {
		return ref.Amt0(w.Sq, su, l, roundUp), ref.Amt1(sl, w.Sq, l, roundUp)
	}
	return zero, ref.Amt1(sl, su, l, roundUp)
}

// after a change dl on [lo,up)
func check(w *world.World, lo, up int, dl sym.Z) {
	p := w.P
	sym.Assert(sym.Of(p.Liquidity).Eq(w.L.Add(sym.Ite(sym.And(lo <= w.Tick, w.Tick < up), dl, zero))), "active-liquidity")
	sym.Assert(sym.And(p.TickCurrent == w.Tick, sym.Of(p.SqrtRatioX96).Eq(w.Sq)), "price-untouched")
	sym.Assert(sym.And(sym.Of(p.FeeGrowthGlobal0X128).Eq(w.G0), sym.Of(p.FeeGrowthGlobal1X128).Eq(w.G1)), "growth-untouched")
	recs := append([]world.Rec(nil), w.T...)
	fl, fu := false, false
	for i := range recs {
		if recs[i].I == lo {
			recs[i].Lo = recs[i].Lo.Add(dl)
			fl = true
		}
		if recs[i].I == up {
			recs[i].Up = recs[i].Up.Add(dl)
			fu = true
		}
	}
	fresh := func(i int, l, u sym.Z) world.Rec {
		if i <= w.Tick {
			return world.Rec{I: i, Lo: l, Up: u, F0: sym.ToU256(w.G0), F1: sym.ToU256(w.G1)}
		}
		return world.Rec{I: i, Lo: l, Up: u, F0: sym.ToU256(zero), F1: sym.ToU256(zero)}
	}
	if !fl {
		recs = append(recs, fresh(lo, dl, zero))
	}
	if !fu {
		recs = append(recs, fresh(up, zero, dl))
	}
	for _, r := range recs {
		if r.Gross().Eq(zero) {
			i := r.I
			sym.Assert(sym.Try(func() { p.TickData.GetTick(i) }), "tick-cleared")
		} else {
			world.CheckTick(p, r, "tick")
		}
	}
}

func setup(n int) (w *world.World, lo, up int) {
	sym.Contracts("uint256 fullmath tick")
	w = world.New(world.Ticks(n, 1), 3000)
	lo, up = sym.Int("lo", -maxT, maxT), sym.Int("up", -maxT, maxT)
	sym.Assume(lo < up)
	if n > 1 {
		switch sym.Shard(3) {
		case 0:
			sym.Assume(w.Tick < lo)
		case 1:
			sym.Assume(sym.And(lo <= w.Tick, w.Tick < up))
		default:
			sym.Assume(up <= w.Tick)
		}
	}
	return
}

// mint adds liquidity on any range to any consistent pool with n ticks.
func mint(n int) {
	w, lo, up := setup(n)
	amt := sym.U256R("amt", sym.I(1), sym.P2(120))
	A := sym.Of(amt)
	if sym.Bool("strategy") {
		a0, a1 := w.P.MintStrategy(lo, up, amt)
		e0, e1 := amounts(w, lo, up, A, true)
		sym.Assert(sym.Of(a0).Eq(e0), "charge0")
		sym.Assert(sym.Of(a1).Eq(e1), "charge1")
	} else {
		w.P.Mint(lo, up, amt)
	}
	sym.Assert(sym.Of(amt).Eq(A), "argument")
	check(w, lo, up, A)
	sym.Reach("done")
}

func H_mint0() { mint(0) }
func H_mint2() { mint(2) }
func T_mint3() { mint(3) }

// burn removes liquidity from one of the ranges of the pool.
func burn(n int) {
	sym.Contracts("uint256 fullmath tick")
	w := world.New(world.Ticks(n, 1), 3000)
	var pi, pj []int
	for x := 0; x < n; x++ {
		for y := x + 1; y < n; y++ {
			pi, pj = append(pi, x), append(pj, y)
		}
	}
	k := sym.Choose("pair", len(pi))
	i, j := pi[k], pj[k]
	lo, up := w.T[i].I, w.T[j].I
	amt := sym.U256R("amt", sym.I(1), sym.P2(120))
	A := sym.Of(amt)
	sym.Assume(A.Le(w.R[i][j]))
	if sym.Bool("strategy") {
		a0, a1 := w.P.BurnStrategy(lo, up, amt)
		e0, e1 := amounts(w, lo, up, A, false)
		sym.Assert(sym.Of(a0).Eq(e0), "credit0")
		sym.Assert(sym.Of(a1).Eq(e1), "credit1")
	} else {
		w.P.Burn(lo, up, amt)
	}
	sym.Assert(sym.Of(amt).Eq(A), "argument")
	check(w, lo, up, A.Neg())
	sym.Reach("done")
}

func H_burn2() { burn(2) }
func H_burn3() { burn(3) }

// roundtrip burns what was just minted.
func roundtrip(n int) {
	w, lo, up := setup(n)
	amt := sym.U256R("amt", sym.I(1), sym.P2(120))
	p := w.P
	before := sym.Snap(p.TickData)
	if sym.Bool("strategy") {
		a0, a1 := p.MintStrategy(lo, up, amt)
		b0, b1 := p.BurnStrategy(lo, up, amt)
		sym.Assert(sym.And(sym.Of(b0).Le(sym.Of(a0)), sym.Of(b1).Le(sym.Of(a1))), "credit-within-charge")
		c0, c1 := p.CollectStrategy(lo, up)
		sym.Assert(sym.And(sym.Of(c0).Eq(sym.Of(b0)), sym.Of(c1).Eq(sym.Of(b1))), "collects-credit")
	} else {
		p.Mint(lo, up, amt)
		p.Burn(lo, up, amt)
	}
	sym.Assert(sym.Of(p.Liquidity).Eq(w.L), "active-restored")
	sym.Assert(sym.Same(before, sym.Snap(p.TickData)), "ticks-restored")
	sym.Reach("done")
}

func H_round0() { roundtrip(0) }
func H_round2() { roundtrip(2) }

// H_reject: invalid ranges and amounts.
func H_reject() {
	sym.Contracts("uint256 fullmath tick")
	w := world.New(world.Ticks(2, 1), 3000)
	big := 1 << 40
	lo, up := sym.Int("lo", -big, big), sym.Int("up", -big, big)
	amt := sym.U256("amt")
	bad := sym.Or(lo >= up, lo < -maxT, up > maxT)
	nonpos := sym.OfS(amt).Le(zero)
	sym.Assume(sym.Or(bad, nonpos))
	p := w.P
	s := sym.Snap(p)
	sym.Assert(sym.Try(func() { p.Mint(lo, up, amt) }), "mint-refused")
	sym.Assert(sym.Try(func() { p.MintStrategy(lo, up, amt) }), "strategy-mint-refused")
	if bad {
		sym.Assert(sym.Try(func() { p.Burn(lo, up, amt) }), "burn-refused")
		sym.Assert(sym.Try(func() { p.BurnStrategy(lo, up, amt) }), "strategy-burn-refused")
	}
	sym.Assert(sym.Same(s, sym.Snap(p)), "refusal-changes-nothing")
	sym.Reach("done")
}

// H_new: a new pool is empty and knows the tick of its price.
func H_new() {
	sym.Contracts("uint256 fullmath tick")
	sq := sym.U256R("price", ref.MinR(), ref.MaxR().Sub(sym.I(1)))
	fee := []int{500, 3000, 10000}[sym.Choose("fee", 3)]
	p := pool.NewPool("x", "y", fee, sq)
	sym.Assert(sym.And(sym.Of(p.Liquidity).Eq(zero), sym.Of(p.FeeGrowthGlobal0X128).Eq(zero), sym.Of(p.FeeGrowthGlobal1X128).Eq(zero)), "empty")
	sym.Assert(sym.And(sym.SqrtRatio(p.TickCurrent).Le(sym.Of(sq)), sym.Of(sq).Lt(sym.SqrtRatio(p.TickCurrent+1))), "tick-of-price")
	sym.Assert(sym.And(sym.Of(p.SqrtRatioX96).Eq(sym.Of(sq)), p.Fee == fee, p.TickSpacing == world.Spacing(fee), len(p.Positions) == 0), "configuration")
	sym.Assert(sym.Same(sym.Snap(p.TickData), sym.Snap(tickdata.NewTickData(world.Spacing(fee)))), "no-ticks")
	sym.Reach("done")
}

var _ = ui.NewInt
