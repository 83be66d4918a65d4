package c06

import (
	sp "uniswap-simulator/lib/sqrtprice_math"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
)

var zero = sym.I(0)

func price(n string) *ui.Int { return sym.U256R(n, sym.I(1), sym.P2(160).Sub(sym.I(1))) }
func liq(n string) *ui.Int   { return sym.U256R(n, sym.I(1), sym.P2(128).Sub(sym.I(1))) }

// H_amount: both amounts, both roundings, for prices in either order.
func H_amount() {
	sym.Contracts("uint256 fullmath")
	a, b := price("a"), price("b")
	l := sym.U256R("l", sym.I(0), sym.P2(128).Sub(sym.I(1)))
	A, B, L := sym.Of(a), sym.Of(b), sym.Of(l)
	lo, hi := A, B
	if A.Gt(B) {
		lo, hi = B, A
	}
	up := sym.Choose("up", 2) == 1
	tok := sym.Choose("tok", 2)
	var r *ui.Int
	var w, x sym.Z
	if tok == 0 {
		r = sp.GetAmount0Delta(a, b, l, up)
		w, x = ref.Amt0(lo, hi, L, up), ref.Amt0(lo, hi, L, !up)
	} else {
		r = sp.GetAmount1Delta(a, b, l, up)
		w, x = ref.Amt1(lo, hi, L, up), ref.Amt1(lo, hi, L, !up)
	}
	sym.Assert(sym.Of(r).Eq(w), "amount")
	if tok == 1 {
		if up {
			sym.Assert(sym.And(x.Le(w), w.Le(x.Add(sym.I(1)))), "rounding-direction")
		} else {
			sym.Assert(sym.And(w.Le(x), x.Le(w.Add(sym.I(1)))), "rounding-direction")
		}
	}
	sym.Assert(sym.And(sym.Of(a).Eq(A), sym.Of(b).Eq(B), sym.Of(l).Eq(L)), "arguments")
	sym.Probe("amount", sym.Of(r))
	sym.Reach("done")
}

// H_signed: negative liquidity gives the negated rounded-down amount.
func H_signed() {
	sym.Contracts("uint256 fullmath")
	a, b := price("a"), price("b")
	v := sym.ZR("l", sym.I(1).Sub(sym.P2(128)), sym.P2(128).Sub(sym.I(1)))
	l := sym.ToU256(v)
	A, B, L := sym.Of(a), sym.Of(b), sym.Of(l)
	lo, hi := A, B
	if A.Gt(B) {
		lo, hi = B, A
	}
	tok := sym.Choose("tok", 2)
	neg := v.Lt(zero)
	var r *ui.Int
	var w sym.Z
	if tok == 0 {
		r = sp.GetAmount0DeltaRounded(a, b, l)
		if neg {
			w = ref.Amt0(lo, hi, v.Neg(), false).Neg()
		} else {
			w = ref.Amt0(lo, hi, v, true)
		}
	} else {
		r = sp.GetAmount1DeltaRounded(a, b, l)
		if neg {
			w = ref.Amt1(lo, hi, v.Neg(), false).Neg()
		} else {
			w = ref.Amt1(lo, hi, v, true)
		}
	}
	sym.Assert(sym.Of(r).Eq(ref.W(w)), "signed-amount")
	sym.Assert(sym.And(sym.Of(a).Eq(A), sym.Of(b).Eq(B), sym.Of(l).Eq(L)), "arguments")
	sym.Probe("amount", sym.Of(r))
	sym.Reach("done")
}

func next(in, zfo bool) {
	sym.Contracts("uint256 fullmath")
	p, l := price("p"), liq("l")
	amt := sym.U256("amt")
	P, L, A := sym.Of(p), sym.Of(l), sym.Of(amt)
	var w sym.Z
	var ok bool
	if in == zfo {
		w, ok = ref.Next0(P, L, A, in)
	} else {
		w, ok = ref.Next1(P, L, A, in)
	}
	sym.Assume(ok)
	sym.Assume(w.Lt(sym.P2(160)))
	var r *ui.Int
	if in {
		r = sp.GetNextSqrtPriceFromInput(p, l, amt, zfo)
	} else {
		r = sp.GetNextSqrtPriceFromOutput(p, l, amt, zfo)
	}
	R := sym.Of(r)
	sym.Assert(R.Eq(w), "next-price")
	N := L.Mul(ref.Q96())
	if in == zfo && in {
		if A.Eq(zero) {
			sym.Assert(R.Eq(P), "no-move")
		} else {
			sym.Lemma(A.Mul(P).Ge(zero), "aux1")
			sym.Lemma(A.Mul(P).Mul(P).Ge(zero), "aux2")
			sym.Assert(R.Le(P), "token0-in-never-raises")
		}
	} else if in {
		sym.Assert(R.Ge(P), "token1-in-never-lowers")
	} else if zfo {
		sym.Assert(R.Le(P), "token1-out-never-raises")
	} else {
		if A.Ne(zero) {
			sym.Lemma(A.Mul(P).Mul(P).Ge(zero), "aux2")
		}
		sym.Assert(R.Ge(P), "token0-out-never-lowers")
	}
	sym.Assert(sym.And(sym.Of(p).Eq(P), sym.Of(l).Eq(L), sym.Of(amt).Eq(A)), "arguments")
	_ = N
	sym.Probe("next", R)
	sym.Reach("done")
}

func H_in0()  { next(true, true) }
func H_in1()  { next(true, false) }
func H_out0() { next(false, false) }
func H_out1() { next(false, true) }

// H_reject: a zero price or zero liquidity is refused.
func H_reject() {
	sym.Contracts("uint256 fullmath")
	p := sym.U256R("p", sym.I(0), sym.P2(160).Sub(sym.I(1)))
	l := sym.U256R("l", sym.I(0), sym.P2(128).Sub(sym.I(1)))
	amt := sym.U256("amt")
	zfo := sym.Bool("zfo")
	sym.Assume(sym.Or(sym.Of(p).Eq(zero), sym.Of(l).Eq(zero)))
	sym.Assert(sym.Try(func() { sp.GetNextSqrtPriceFromInput(p, l, amt, zfo) }), "input-refused")
	sym.Assert(sym.Try(func() { sp.GetNextSqrtPriceFromOutput(p, l, amt, zfo) }), "output-refused")
	sym.Reach("done")
}
