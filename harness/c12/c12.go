package c12

import (
	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

func ceilDiv(a, b sym.Z) sym.Z { return a.CeilDiv(b) }

// H_flash: for every fee, liquidity, pair of amounts and previous fee growth
// the flash grows fee growth by floor(ceil(amount*fee/1e6)*2^128/liquidity)
// modulo 2^256 and touches nothing else.
func H_flash() {
	sym.Contracts("uint256 fullmath tick")
	m256 := sym.P2(256).Sub(sym.I(1))
	fee := sym.Int("fee", 0, 1000000)
	p := &pool.Pool{}
	p.Fee = fee
	p.Token0 = "A"
	p.Token1 = "B"
	p.SqrtRatioX96 = sym.U256R("sqrtP", sym.I(4295128739), sym.P2(160))
	p.Liquidity = sym.U256R("liq", sym.I(0), sym.P2(128))
	p.FeeGrowthGlobal0X128 = sym.U256("g0")
	p.FeeGrowthGlobal1X128 = sym.U256("g1")
	p.TickCurrent = sym.Int("tick", -887272, 887272)
	p.TickSpacing = 60
	a0, a1 := sym.U256("a0"), sym.U256("a1")
	L := sym.Of(p.Liquidity)
	g0, g1 := sym.Of(p.FeeGrowthGlobal0X128), sym.Of(p.FeeGrowthGlobal1X128)
	A0, A1 := sym.Of(a0), sym.Of(a1)
	sq, tk := sym.Of(p.SqrtRatioX96), p.TickCurrent
	F := sym.OfInt(fee)
	mil := sym.I(1000000)
	f0 := ceilDiv(A0.Mul(F), mil)
	f1 := ceilDiv(A1.Mul(F), mil)
	// the growth of one flash fits in 256 bits, as the protocol requires
	sym.Assume(sym.And(f0.Lt(L.Mul(sym.P2(128))), f1.Lt(L.Mul(sym.P2(128)))) || L.Eq(sym.I(0)))
	pan := sym.Try(func() { p.Flash(a0, a1) })
	if pan {
		sym.Assert(L.Eq(sym.I(0)), "flash refuses only zero liquidity")
		sym.Reach("zero-liquidity")
		return
	}
	sym.Assert(L.Gt(sym.I(0)), "flash on zero liquidity is refused")
	e0 := g0.Add(f0.Mul(sym.P2(128)).Div(L)).Mod(m256.Add(sym.I(1)))
	e1 := g1.Add(f1.Mul(sym.P2(128)).Div(L)).Mod(m256.Add(sym.I(1)))
	sym.Assert(sym.Of(p.FeeGrowthGlobal0X128).Eq(e0), "fee growth token0")
	sym.Assert(sym.Of(p.FeeGrowthGlobal1X128).Eq(e1), "fee growth token1")
	sym.Assert(sym.And(sym.Of(p.Liquidity).Eq(L), sym.Of(p.SqrtRatioX96).Eq(sq), p.TickCurrent == tk, p.Fee == fee), "rest of the pool untouched")
	sym.Assert(sym.And(sym.Of(a0).Eq(A0), sym.Of(a1).Eq(A1)), "arguments untouched")
	sym.Probe("g0", sym.Of(p.FeeGrowthGlobal0X128))
	sym.Reach("done")
}

var _ = ui.NewInt
