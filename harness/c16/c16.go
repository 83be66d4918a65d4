package c16

import (
	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
)

func price(n string) *ui.Int { return sym.U256R(n, ref.MinR(), ref.MaxR().Sub(sym.I(1))) }

var maxL = sym.P2(128)

// liquidity0 and liquidity1 are LiquidityAmounts.getLiquidityForAmount0 and 1
// for a < b.
func liquidity0(a, b, amt sym.Z) sym.Z { return amt.Mul(a.Mul(b).Div(ref.Q96())).Div(b.Sub(a)) }
func liquidity1(a, b, amt sym.Z) sym.Z { return amt.Mul(ref.Q96()).Div(b.Sub(a)) }

type in struct {
	p, a, b *ui.Int // price, bounds in the order given
	P, A, B sym.Z   // bounds sorted
}

func bounds() in {
	sym.Contracts("uint256 fullmath")
	var x in
	x.p, x.a, x.b = price("price"), price("a"), price("b")
	x.P, x.A, x.B = sym.Of(x.p), sym.Of(x.a), sym.Of(x.b)
	if sym.Shard(2) == 1 {
		sym.Assume(x.A.Gt(x.B))
		x.A, x.B = x.B, x.A
	} else {
		sym.Assume(x.A.Lt(x.B))
	}
	return x
}

// H_sizing: the liquidity is the protocol's.
func H_sizing() {
	x := bounds()
	a0, a1 := sym.U256R("amt0", sym.I(0), sym.P2(128)), sym.U256R("amt1", sym.I(0), sym.P2(128))
	A0, A1 := sym.Of(a0), sym.Of(a1)
	var want sym.Z
	if x.P.Le(x.A) {
		want = liquidity0(x.A, x.B, A0)
		sym.Assume(want.Lt(maxL))
	} else if x.P.Lt(x.B) {
		l0, l1 := liquidity0(x.P, x.B, A0), liquidity1(x.A, x.P, A1)
		sym.Assume(sym.And(l0.Lt(maxL), l1.Lt(maxL)))
		want = sym.Min(l0, l1)
	} else {
		want = liquidity1(x.A, x.B, A1)
		sym.Assume(want.Lt(maxL))
	}
	l := la.GetLiquidityForAmount(x.p, x.a, x.b, a0, a1)
	sym.Assert(sym.Of(l).Eq(want), "protocol")
	sym.Reach("sized")
}

// H_worth: the amounts for a liquidity are the protocol's, rounded down.
func H_worth() {
	x := bounds()
	l := sym.U256R("liq", sym.I(0), maxL.Sub(sym.I(1)))
	L := sym.Of(l)
	w0, w1 := sym.I(0), sym.I(0)
	if x.P.Le(x.A) {
		w0 = ref.Amt0(x.A, x.B, L, false)
	} else if x.P.Lt(x.B) {
		w0, w1 = ref.Amt0(x.P, x.B, L, false), ref.Amt1(x.A, x.P, L, false)
	} else {
		w1 = ref.Amt1(x.A, x.B, L, false)
	}
	g0, g1 := la.GetAmountsForLiquidity(x.p, x.a, x.b, l)
	sym.Assert(sym.And(sym.Of(g0).Eq(w0), sym.Of(g1).Eq(w1)), "protocol")
	sym.Reach("valued")
}

// H_affordable0: what minting the sized liquidity charges of token0 between
// two prices is at most the amount it was sized from.
func H_affordable0() {
	sym.Contracts("uint256 fullmath")
	a, b := price("a"), price("b")
	A, B := sym.Of(a), sym.Of(b)
	sym.Assume(A.Lt(B))
	amt := sym.U256R("amt", sym.I(0), sym.P2(128))
	M := sym.Of(amt)
	i := A.Mul(B).Div(ref.Q96())
	l := M.Mul(i).Div(B.Sub(A))
	sym.Assume(sym.And(l.Lt(maxL), l.Gt(sym.I(0))))
	sym.Lemma(i.Mul(ref.Q96()).Le(A.Mul(B)), "ratio")
	sym.Lemma(l.Mul(B.Sub(A)).Le(M.Mul(i)), "spread")
	sym.Lemma(M.Mul(i).Mul(ref.Q96()).Le(M.Mul(A).Mul(B)), "scaled")
	sym.Lemma(l.Mul(ref.Q96()).Mul(B.Sub(A)).Le(M.Mul(A).Mul(B)), "product")
	sym.Lemma(l.Mul(ref.Q96()).Mul(B.Sub(A)).CeilDiv(B).Le(M.Mul(A)), "first")
	L := la.GetLiquidityForAmount(a, a, b, amt, ui.NewInt(0))
	sym.Assert(sym.Of(L).Eq(l), "sized")
	c := sqrtprice_math.GetAmount0DeltaRounded(a, b, L)
	sym.Assert(sym.Of(c).Le(M), "affordable")
	_, one := la.GetAmountsForLiquidity(a, a, b, L)
	sym.Assert(sym.Of(one).Eq(sym.I(0)), "one-sided")
	w, _ := la.GetAmountsForLiquidity(a, a, b, L)
	sym.Assert(sym.Of(w).Le(sym.Of(c)), "worth-at-most-charge")
	sym.Reach("done")
}

// H_affordable1: the same for token1.
func H_affordable1() {
	sym.Contracts("uint256 fullmath")
	a, b := price("a"), price("b")
	A, B := sym.Of(a), sym.Of(b)
	sym.Assume(A.Lt(B))
	amt := sym.U256R("amt", sym.I(0), sym.P2(128))
	M := sym.Of(amt)
	l := M.Mul(ref.Q96()).Div(B.Sub(A))
	sym.Assume(sym.And(l.Lt(maxL), l.Gt(sym.I(0))))
	sym.Lemma(l.Mul(B.Sub(A)).Le(M.Mul(ref.Q96())), "spread")
	L := la.GetLiquidityForAmount(b, a, b, ui.NewInt(0), amt)
	sym.Assert(sym.Of(L).Eq(l), "sized")
	c := sqrtprice_math.GetAmount1DeltaRounded(b, a, L)
	sym.Assert(sym.Of(c).Le(M), "affordable")
	one, w := la.GetAmountsForLiquidity(b, a, b, L)
	sym.Assert(sym.Of(one).Eq(sym.I(0)), "one-sided")
	sym.Assert(sym.Of(w).Le(sym.Of(c)), "worth-at-most-charge")
	sym.Reach("done")
}

// H_smaller: less liquidity never charges more of either token.
func H_smaller() {
	sym.Contracts("uint256 fullmath")
	a, b := price("a"), price("b")
	A, B := sym.Of(a), sym.Of(b)
	sym.Assume(A.Lt(B))
	l, m := sym.U256R("less", sym.I(1), maxL.Sub(sym.I(1))), sym.U256R("more", sym.I(1), maxL.Sub(sym.I(1)))
	sym.Assume(sym.Of(l).Le(sym.Of(m)))
	D := B.Sub(A).Mul(ref.Q96())
	sym.Lemma(sym.Of(l).Mul(D).Le(sym.Of(m).Mul(D)), "product")
	sym.Lemma(sym.Of(l).Mul(B.Sub(A)).Le(sym.Of(m).Mul(B.Sub(A))), "spread")
	sym.Lemma(sym.Of(l).Mul(D).CeilDiv(B).Le(sym.Of(m).Mul(D).CeilDiv(B)), "first")
	sym.Assert(sym.Of(sqrtprice_math.GetAmount0DeltaRounded(a, b, l)).Le(sym.Of(sqrtprice_math.GetAmount0DeltaRounded(a, b, m))), "token0")
	sym.Assert(sym.Of(sqrtprice_math.GetAmount1DeltaRounded(a, b, l)).Le(sym.Of(sqrtprice_math.GetAmount1DeltaRounded(a, b, m))), "token1")
	sym.Reach("done")
}

// afford0 states that liquidity l, sized from at least l between A and B, is
// charged at most M of token0 (and afford1 token1).
func afford0(A, B, l, M sym.Z) {
	i := A.Mul(B).Div(ref.Q96())
	sym.Lemma(i.Mul(ref.Q96()).Le(A.Mul(B)), "ratio")
	sym.Lemma(l.Mul(B.Sub(A)).Le(M.Mul(i)), "spread")
	sym.Lemma(M.Mul(i).Mul(ref.Q96()).Le(M.Mul(A).Mul(B)), "scaled")
	sym.Lemma(l.Mul(ref.Q96()).Mul(B.Sub(A)).Le(M.Mul(A).Mul(B)), "product")
	sym.Lemma(l.Mul(ref.Q96()).Mul(B.Sub(A)).CeilDiv(B).Le(M.Mul(A)), "first")
	sym.Lemma(ref.Amt0(A, B, l, true).Le(M), "charge")
}

func afford1(A, B, l, M sym.Z) {
	sym.Lemma(l.Mul(B.Sub(A)).Le(M.Mul(ref.Q96())), "spread")
	sym.Lemma(ref.Amt1(A, B, l, true).Le(M), "charge")
}

// H_mint: sizing and minting on a pool at any price, edges of the range
// included.
func H_mint() {
	sym.Contracts("uint256 fullmath tick")
	lo, up := sym.Int("lower", tickmath.MinTick, tickmath.MaxTick), sym.Int("upper", tickmath.MinTick, tickmath.MaxTick)
	tick := sym.Int("tick", tickmath.MinTick, tickmath.MaxTick-1)
	sym.Assume(lo < up)
	pr := price("price")
	P, A, B := sym.Of(pr), sym.SqrtRatio(lo), sym.SqrtRatio(up)
	sym.Assume(sym.And(sym.SqrtRatio(tick).Le(P), P.Le(sym.SqrtRatio(tick+1))))
	a0, a1 := sym.U256R("amt0", sym.I(0), sym.P2(128)), sym.U256R("amt1", sym.I(0), sym.P2(128))
	M0, M1 := sym.Of(a0), sym.Of(a1)
	sym.Lemma(A.Lt(B), "prices-rise")
	var l sym.Z
	switch sym.Shard(3) {
	case 0:
		sym.Assume(P.Le(A))
		l = liquidity0(A, B, M0)
		sym.Assume(sym.And(l.Lt(maxL), l.Gt(sym.I(0))))
		afford0(A, B, l, M0)
	case 1:
		sym.Assume(sym.And(A.Lt(P), P.Lt(B)))
		l0, l1 := liquidity0(P, B, M0), liquidity1(A, P, M1)
		sym.Assume(sym.And(l0.Lt(maxL), l1.Lt(maxL)))
		l = sym.Min(l0, l1)
		sym.Assume(l.Gt(sym.I(0)))
		afford0(P, B, l, M0)
		afford1(A, P, l, M1)
	case 2:
		sym.Assume(B.Le(P))
		l = liquidity1(A, B, M1)
		sym.Assume(sym.And(l.Lt(maxL), l.Gt(sym.I(0))))
		afford1(A, B, l, M1)
	}
	p := pool.NewPool("A", "B", 3000, pr.Clone())
	p.TickCurrent = tick
	x, y := tickmath.TM.GetSqrtRatioAtTick(lo), tickmath.TM.GetSqrtRatioAtTick(up)
	if sym.Choose("swapped", 2) == 1 {
		x, y = y, x
	}
	L := la.GetLiquidityForAmount(pr, x, y, a0, a1)
	sym.Assert(sym.Of(L).Eq(l), "sized")
	c0, c1 := p.MintStrategy(lo, up, L)
	sym.Assert(sym.Of(c0).Le(M0), "affordable-token0")
	sym.Assert(sym.Of(c1).Le(M1), "affordable-token1")
	w0, w1 := la.GetAmountsForLiquidity(pr, x, y, L)
	sym.Assert(sym.Of(w0).Le(sym.Of(c0)), "worth-token0")
	sym.Assert(sym.Of(w1).Le(sym.Of(c1)), "worth-token1")
	sym.Reach("done")
}
