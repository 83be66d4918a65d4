package c07

import (
	"uniswap-simulator/lib/swapmath"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
)

var zero = sym.I(0)

// The whole domain a swap can reach: prices in the valid range, any liquidity
// below 2^128, any signed remaining amount within 2^127.
func H_in0()  { step(true, true) }
func H_in1()  { step(true, false) }
func H_out0() { step(false, false) }
func H_out1() { step(false, true) }

func step(exactIn, zfo bool) {
	sym.Contracts("uint256 fullmath")
	cur := sym.U256R("cur", ref.MinR(), ref.MaxR())
	tgt := sym.U256R("tgt", ref.MinR(), ref.MaxR())
	l := sym.U256R("l", sym.I(0), sym.P2(128).Sub(sym.I(1)))
	rem := sym.ZR("rem", zero, sym.P2(255).Sub(sym.I(1)))
	if !exactIn {
		sym.Assume(rem.Gt(zero))
		rem = rem.Neg()
	}
	fee := sym.Int("fee", 0, 999999)
	r := sym.ToU256(rem)
	C, T, L := sym.Of(cur), sym.Of(tgt), sym.Of(l)
	var next, in, out, ff *ui.Int
	sym.Assume(C.Ge(T) == zfo)
	guide(C, T, L, rem, sym.OfInt(fee), exactIn, zfo)
	s, ok := ref.Step(C, T, L, rem, sym.OfInt(fee))
	sym.Assert(ok, "protocol-defined")
	next, in, out, ff = swapmath.ComputeSwapStep(cur, tgt, l, r, fee)
	P, I, O, F := sym.Of(next), sym.Of(in), sym.Of(out), sym.Of(ff)
	sym.Assert(P.Eq(s.P), "next-price")
	sym.Assert(I.Eq(s.In), "amount-in")
	sym.Assert(O.Eq(s.Out), "amount-out")
	sym.Assert(F.Eq(s.Fee), "fee")
	if C.Ge(T) {
		sym.Assert(sym.And(T.Le(P), P.Le(C)), "between")
	} else {
		sym.Assert(sym.And(C.Le(P), P.Le(T)), "between")
	}
	if rem.Ge(zero) {
		sym.Assert(I.Add(F).Le(rem), "never-overcharges")
		if P.Ne(T) {
			sym.Assert(I.Add(F).Eq(rem), "uses-all-input")
		}
	} else {
		sym.Assert(O.Le(rem.Neg()), "never-overpays")
		if P.Ne(T) {
			sym.Assert(O.Eq(rem.Neg()), "delivers-all-output")
		}
	}
	sym.Assert(F.Mul(ref.Mil()).Ge(I.Add(F).Mul(sym.OfInt(fee))), "fee-rate")
	if L.Eq(zero) {
		sym.Assert(sym.And(P.Eq(T), I.Eq(zero), O.Eq(zero), F.Eq(zero)), "no-liquidity")
	}
	sym.Assert(sym.And(I.Le(sym.P2(226)), O.Le(sym.P2(226)), F.Le(sym.P2(247))), "sizes")
	if L.Gt(zero) {
		sym.Lemma(I.Le(N97(L)), "in-per-liquidity")
		sym.Assert(F.Le(L.Mul(sym.P2(118))), "fee-per-liquidity")
	}
	sym.Assert(sym.And(sym.Of(cur).Eq(C), sym.Of(tgt).Eq(T), sym.Of(l).Eq(L), sym.OfS(r).Eq(rem)), "arguments")
	sym.Probe("next", P)
	sym.Reach("done")
}

func N97(l sym.Z) sym.Z { return l.Mul(sym.P2(97)) }

// guide proves the intermediate inequalities about the protocol's formulas
// from which the bounds on the step follow.
func guide(C, T, L, rem, fee sym.Z, exactIn, zfo bool) {
	N := L.Mul(ref.Q96())
	less := rem.Mul(ref.Mil().Sub(fee)).Div(ref.Mil())
	A := rem.Neg()
	switch {
	case exactIn && zfo:
		x := N.Mul(C.Sub(T)).CeilDiv(C)
		if less.Ge(x.CeilDiv(T)) {
			return
		}
		sym.Lemma(x.Gt(less.Mul(T)), "in0-a")
		sym.Lemma(N.Mul(C.Sub(T)).Gt(less.Mul(T).Mul(C)), "in0-b")
		if less.Eq(zero) {
			return
		}
		p, ok := ref.Next0(C, L, less, true)
		sym.Assert(ok, "protocol-defined")
		sym.Lemma(p.Gt(T), "in0-c")
		sym.Lemma(p.Le(C), "in0-d")
		// p*(N+less*C) >= N*C, so N*(C-p) <= less*C*p
		sym.Lemma(N.Mul(C.Sub(p)).Le(less.Mul(C).Mul(p)), "in0-e")
		y := N.Mul(C.Sub(p)).CeilDiv(C)
		sym.Lemma(y.Le(less.Mul(p)), "in0-f")
		sym.Lemma(y.CeilDiv(p).Le(less), "in0-g")
		sym.Lemma(y.CeilDiv(p).Le(rem), "in0-h")
	case exactIn:
	case zfo:
	default:
		x := N.Mul(T.Sub(C)).Div(T)
		if A.Ge(x.Div(C)) {
			return
		}
		sym.Lemma(A.Mul(C).Lt(x), "out0-a")
		sym.Lemma(A.Mul(C).Mul(T).Lt(N.Mul(T.Sub(C))), "out0-b")
		sym.Lemma(A.Mul(C).Lt(N), "out0-c")
		p, ok := ref.Next0(C, L, A, false)
		sym.Assert(ok, "protocol-defined")
		sym.Lemma(p.Le(T), "out0-d")
		sym.Lemma(p.Ge(C), "out0-e")
		// p*(N-A*C) >= N*C, so N*(p-C) >= A*C*p
		sym.Lemma(N.Mul(p.Sub(C)).Ge(A.Mul(C).Mul(p)), "out0-f")
		y := N.Mul(p.Sub(C)).Div(p)
		sym.Lemma(y.Ge(A.Mul(C)), "out0-g")
		sym.Lemma(y.Div(C).Ge(A), "out0-h")
	}
}
