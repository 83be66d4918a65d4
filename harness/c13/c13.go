package c13

import (
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/position"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
)

const maxT = 887272

// H_isolated: two arbitrary different ranges.
func H_isolated() {
	sym.Contracts("uint256 fullmath tick")
	a, b := sym.Int("a", -maxT, maxT), sym.Int("b", -maxT, maxT)
	c, d := sym.Int("c", -maxT, maxT), sym.Int("d", -maxT, maxT)
	sym.Assume(sym.And(a < b, c < d, sym.Or(a != c, b != d)))
	tick := sym.Int("tick", -maxT, maxT-1)
	p := mk(tick)
	L1 := sym.U256R("l1", sym.I(1), sym.P2(120))
	L2 := sym.U256R("l2", sym.I(1), sym.P2(120))
	m0, m1 := p.MintStrategy(a, b, L1)
	p.MintStrategy(c, d, L2)
	b0, b1 := p.BurnStrategy(a, b, L1)
	o0, o1 := p.CollectStrategy(c, d)
	sym.Assert(sym.And(sym.Of(o0).Eq(sym.I(0)), sym.Of(o1).Eq(sym.I(0))), "other-range-owes-nothing")
	r0, r1 := p.CollectStrategy(a, b)
	sym.Assert(sym.And(sym.Of(r0).Eq(sym.Of(b0)), sym.Of(r1).Eq(sym.Of(b1))), "own-range-pays")
	_, _ = m0, m1
	p.BurnStrategy(c, d, L2)
	q0, q1 := p.CollectStrategy(a, b)
	sym.Assert(sym.And(sym.Of(q0).Eq(sym.I(0)), sym.Of(q1).Eq(sym.I(0))), "first-range-owes-nothing")
	sym.Reach("done")
}

func mk(tick int) *pool.Pool {
	sq := sym.U256R("price", ref.MinR(), ref.MaxR().Sub(sym.I(1)))
	sym.Assume(sym.And(sym.SqrtRatio(tick).Le(sym.Of(sq)), sym.Of(sq).Le(sym.SqrtRatio(tick+1))))
	p := pool.NewPool("A", "B", 500, sq)
	p.TickCurrent = tick
	p.FeeGrowthGlobal0X128 = sym.U256("g0")
	p.FeeGrowthGlobal1X128 = sym.U256("g1")
	return p
}

func only(p *pool.Pool) *position.Info {
	for _, v := range p.Positions {
		return v
	}
	return nil
}

// H_record: no operation on another range touches a range's record.
func H_record() {
	sym.Contracts("uint256 fullmath tick")
	a, b := sym.Int("a", -maxT, maxT), sym.Int("b", -maxT, maxT)
	c, d := sym.Int("c", -maxT, maxT), sym.Int("d", -maxT, maxT)
	sym.Assume(sym.And(a < b, c < d, sym.Or(a != c, b != d)))
	tick := sym.Int("tick", -maxT, maxT-1)
	p := mk(tick)
	L1 := sym.U256R("l1", sym.I(1), sym.P2(120))
	L2 := sym.U256R("l2", sym.I(1), sym.P2(120))
	p.MintStrategy(a, b, L1)
	rec := only(p)
	rec.TokensOwed0.Set(sym.U256R("owed0", sym.I(0), sym.P2(200)))
	rec.TokensOwed1.Set(sym.U256R("owed1", sym.I(0), sym.P2(200)))
	before := sym.Snap(rec)
	sym.Assert(len(p.Positions) == 1, "one-record")
	p.MintStrategy(c, d, L2)
	sym.Assert(len(p.Positions) == 2, "own-record")
	sym.Assert(sym.Same(before, sym.Snap(rec)), "mint-elsewhere")
	p.FeeGrowthGlobal0X128 = sym.U256("g0b")
	p.FeeGrowthGlobal1X128 = sym.U256("g1b")
	p.BurnStrategy(c, d, ui.NewInt(0))
	sym.Assert(sym.Same(before, sym.Snap(rec)), "touch-elsewhere")
	p.CollectStrategy(c, d)
	sym.Assert(sym.Same(before, sym.Snap(rec)), "collect-elsewhere")
	p.BurnStrategy(c, d, L2)
	sym.Assert(sym.Same(before, sym.Snap(rec)), "burn-elsewhere")
	sym.Assert(len(p.Positions) == 2, "own-record")
	p.BurnStrategy(a, b, L1)
	sym.Assert(sym.Of(rec.Liquidity).Eq(sym.I(0)), "own-burn-acts-on-own-record")
	p.CollectStrategy(a, b)
	sym.Assert(sym.And(sym.Of(rec.TokensOwed0).Eq(sym.I(0)), sym.Of(rec.TokensOwed1).Eq(sym.I(0))), "own-collect-acts-on-own-record")
	sym.Reach("done")
}
