package c11

import (
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/position"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

var zero = sym.I(0)

const maxT = world.MaxT

func u(z sym.Z) *ui.Int { return sym.ToU256(z) }

// H_update: touching a position credits floor(L*growth/2^128) of the liquidity
// held before, and remembers the growth.
func H_update() {
	sym.Contracts("uint256 fullmath")
	L := sym.ZR("l", zero, sym.P2(128).Sub(sym.I(1)))
	f0, f1, g0, g1 := sym.U256("f0"), sym.U256("f1"), sym.U256("g0"), sym.U256("g1")
	o0, o1 := sym.U256("o0"), sym.U256("o1")
	d := sym.U256("d")
	F0, F1, G0, G1, O0, O1, D := sym.Of(f0), sym.Of(f1), sym.Of(g0), sym.Of(g1), sym.Of(o0), sym.Of(o1), sym.Of(d)
	p := &position.Info{Liquidity: u(L), FeeGrowthInside0LastX128: f0, FeeGrowthInside1LastX128: f1, TokensOwed0: o0, TokensOwed1: o1}
	p.Update(d, g0, g1)
	w0 := ref.W(G0.Sub(F0)).Mul(L).Div(ref.Q128())
	w1 := ref.W(G1.Sub(F1)).Mul(L).Div(ref.Q128())
	sym.Assert(sym.Of(p.TokensOwed0).Eq(ref.W(O0.Add(w0))), "owed0")
	sym.Assert(sym.Of(p.TokensOwed1).Eq(ref.W(O1.Add(w1))), "owed1")
	sym.Assert(sym.Of(p.Liquidity).Eq(ref.W(L.Add(D))), "liquidity")
	sym.Assert(sym.And(sym.Of(p.FeeGrowthInside0LastX128).Eq(G0), sym.Of(p.FeeGrowthInside1LastX128).Eq(G1)), "growth-remembered")
	sym.Assert(sym.And(sym.Of(g0).Eq(G0), sym.Of(g1).Eq(G1), sym.Of(d).Eq(D)), "arguments")
	sym.Reach("done")
}

func H_newpos() {
	p := position.NewPosition()
	for _, v := range []*ui.Int{p.Liquidity, p.FeeGrowthInside0LastX128, p.FeeGrowthInside1LastX128, p.TokensOwed0, p.TokensOwed1} {
		sym.Assert(sym.Of(v).Eq(zero), "empty")
	}
	sym.Reach("done")
}

func inside(p *pool.Pool, lo, up int) (sym.Z, sym.Z) {
	a, b := p.TickData.GetFeeGrowthInside(lo, up, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
	return sym.Of(a), sym.Of(b)
}

func pick(n int) (i, j int) {
	var pi, pj []int
	for x := 0; x < n; x++ {
		for y := x + 1; y < n; y++ {
			pi, pj = append(pi, x), append(pj, y)
		}
	}
	k := sym.Choose("pair", len(pi))
	return pi[k], pj[k]
}

// H_growth: a flash grows the fees of the ranges around the current tick by
// the global growth, and of no other range.
func H_growth() {
	sym.Contracts("uint256 fullmath tick")
	w := world.New(world.Ticks(3, 1), 3000)
	p := w.P
	sym.Assume(w.L.Gt(zero))
	i, j := pick(3)
	lo, up := w.T[i].I, w.T[j].I
	b0, b1 := inside(p, lo, up)
	sym.Assert(b0.Eq(world.Inside(w.Tick, lo, up, w.G0, sym.Of(w.T[i].F0), sym.Of(w.T[j].F0))), "definition0")
	sym.Assert(b1.Eq(world.Inside(w.Tick, lo, up, w.G1, sym.Of(w.T[i].F1), sym.Of(w.T[j].F1))), "definition1")
	p.Flash(sym.U256R("x0", zero, sym.P2(120)), sym.U256R("x1", zero, sym.P2(120)))
	d0, d1 := sym.Of(p.FeeGrowthGlobal0X128).Sub(w.G0), sym.Of(p.FeeGrowthGlobal1X128).Sub(w.G1)
	a0, a1 := inside(p, lo, up)
	in := sym.And(lo <= w.Tick, w.Tick < up)
	sym.Assert(a0.Eq(ref.W(b0.Add(sym.Ite(in, d0, zero)))), "growth0")
	sym.Assert(a1.Eq(ref.W(b1.Add(sym.Ite(in, d1, zero)))), "growth1")
	for _, r := range w.T {
		world.CheckTick(p, r, "tick")
	}
	sym.Reach("done")
}

// H_cross: crossing a tick in either direction leaves the growth inside every
// range unchanged and reports the tick's net liquidity.
func H_cross() {
	sym.Contracts("uint256 fullmath tick")
	w := world.New(world.Ticks(3, 1), 3000)
	p := w.P
	i, j := pick(3)
	k := sym.Choose("crossed", 3)
	lo, up := w.T[i].I, w.T[j].I
	t := w.T[k].I
	down := sym.Bool("down")
	if down {
		p.TickCurrent = t
	} else {
		p.TickCurrent = t - 1
	}
	b0, b1 := inside(p, lo, up)
	net := p.TickData.Cross(t, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
	sym.Assert(sym.OfS(net).Eq(w.T[k].Net()), "net")
	if down {
		p.TickCurrent = t - 1
	} else {
		p.TickCurrent = t
	}
	a0, a1 := inside(p, lo, up)
	sym.Assert(sym.And(a0.Eq(b0), a1.Eq(b1)), "crossing-keeps-growth-inside")
	sym.Assert(sym.And(sym.Of(p.FeeGrowthGlobal0X128).Eq(w.G0), sym.Of(p.FeeGrowthGlobal1X128).Eq(w.G1)), "global-untouched")
	for q, r := range w.T {
		if q == k {
			r.F0 = u(ref.W(w.G0.Sub(sym.Of(r.F0))))
			r.F1 = u(ref.W(w.G1.Sub(sym.Of(r.F1))))
		}
		world.CheckTick(p, r, "tick")
	}
	sym.Reach("done")
}

func rec(p *pool.Pool) *position.Info {
	for _, v := range p.Positions {
		return v
	}
	return nil
}

// H_touch: through the pool, a position earns its share of the growth inside
// its range once, on the liquidity held before the change, and collecting
// pays out exactly what is owed.
func H_touch() {
	sym.Contracts("uint256 fullmath tick")
	w := world.New(world.Ticks(2, 1), 3000)
	p := w.P
	lo, up := w.T[0].I, w.T[1].I
	L := sym.ZR("pl", sym.I(1), sym.P2(120))
	p.MintStrategy(lo, up, u(L))
	r := rec(p)
	i0, i1 := inside(p, lo, up)
	sym.Assert(sym.And(sym.Of(r.FeeGrowthInside0LastX128).Eq(i0), sym.Of(r.FeeGrowthInside1LastX128).Eq(i1)), "starts-at-growth-inside")
	sym.Assert(sym.And(sym.Of(r.TokensOwed0).Eq(zero), sym.Of(r.TokensOwed1).Eq(zero)), "new-position-owed-nothing")
	o0, o1 := sym.ZR("o0", zero, sym.P2(200)), sym.ZR("o1", zero, sym.P2(200))
	r.TokensOwed0.Set(u(o0))
	r.TokensOwed1.Set(u(o1))
	// any growth since
	n0, n1 := sym.U256("n0"), sym.U256("n1")
	p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128 = n0, n1
	p.TickCurrent = sym.Int("tick2", -maxT, maxT-1)
	j0, j1 := inside(p, lo, up)
	w0 := o0.Add(ref.W(j0.Sub(i0)).Mul(L).Div(ref.Q128()))
	w1 := o1.Add(ref.W(j1.Sub(i1)).Mul(L).Div(ref.Q128()))
	switch sym.Shard(3) {
	case 0: // poke
		p.BurnStrategy(lo, up, ui.NewInt(0))
		sym.Assert(sym.Of(r.Liquidity).Eq(L), "poke-keeps-liquidity")
	case 1: // more liquidity
		m := sym.ZR("more", sym.I(1), sym.P2(120))
		p.MintStrategy(lo, up, u(m))
		sym.Assert(sym.Of(r.Liquidity).Eq(L.Add(m)), "mint-adds-liquidity")
	case 2: // less liquidity, also credits the principal
		m := sym.ZR("less", sym.I(1), sym.P2(120))
		sym.Assume(m.Le(L))
		x0, x1 := p.BurnStrategy(lo, up, u(m))
		w0, w1 = w0.Add(sym.Of(x0)), w1.Add(sym.Of(x1))
		sym.Assert(sym.Of(r.Liquidity).Eq(L.Sub(m)), "burn-removes-liquidity")
		sym.Reach("burned")
	}
	sym.Assert(sym.And(sym.Of(r.TokensOwed0).Eq(ref.W(w0)), sym.Of(r.TokensOwed1).Eq(ref.W(w1))), "credit")
	if sym.Of(r.Liquidity).Gt(zero) {
		p.BurnStrategy(lo, up, ui.NewInt(0))
		sym.Assert(sym.And(sym.Of(r.TokensOwed0).Eq(ref.W(w0)), sym.Of(r.TokensOwed1).Eq(ref.W(w1))), "credited-once")
	}
	c0, c1 := p.CollectStrategy(lo, up)
	sym.Assert(sym.And(sym.Of(c0).Eq(ref.W(w0)), sym.Of(c1).Eq(ref.W(w1))), "collects-what-is-owed")
	sym.Assert(sym.And(sym.Of(r.TokensOwed0).Eq(zero), sym.Of(r.TokensOwed1).Eq(zero)), "nothing-left")
	c0, c1 = p.CollectStrategy(lo, up)
	sym.Assert(sym.And(sym.Of(c0).Eq(zero), sym.Of(c1).Eq(zero)), "paid-once")
	sym.Reach("done")
}
