// Package ref states the protocol's formulas (Uniswap V3 core) over exact
// integers.
package ref

import "uniswap-simulator/zzverif/sym"

type Z = sym.Z

var (
	One = sym.I(1)
	Nil = sym.I(0)
)

func Q96() Z  { return sym.P2(96) }
func Q128() Z { return sym.P2(128) }
func M256() Z { return sym.P2(256) }
func Mil() Z  { return sym.I(1000000) }
func MinR() Z { return sym.Str("4295128739") }
func MaxR() Z { return sym.Str("1461446703485210103287273052203988822378723970342") }
func W(x Z) Z { return x.Mod(M256()) }

// Amt0 is SqrtPriceMath.getAmount0Delta for 0 < a <= b.
func Amt0(a, b, l Z, up bool) Z {
	n := l.Mul(Q96()).Mul(b.Sub(a))
	if up {
		return n.CeilDiv(b).CeilDiv(a)
	}
	return n.Div(b).Div(a)
}

// Amt1 is SqrtPriceMath.getAmount1Delta for a <= b.
func Amt1(a, b, l Z, up bool) Z {
	n := l.Mul(b.Sub(a))
	if up {
		return n.CeilDiv(Q96())
	}
	return n.Div(Q96())
}

// Next0 is getNextSqrtPriceFromAmount0RoundingUp; ok is false where the
// protocol reverts.
func Next0(p, l, amt Z, add bool) (r Z, ok bool) {
	if amt.Eq(Nil) {
		return p, true
	}
	n1 := l.Mul(Q96())
	pr := amt.Mul(p)
	if add {
		if pr.Lt(M256()) {
			d := n1.Add(pr)
			if d.Lt(M256()) {
				return n1.Mul(p).CeilDiv(d), true
			}
		}
		d := n1.Div(p).Add(amt)
		if d.Ge(M256()) {
			return Nil, false
		}
		return n1.CeilDiv(d), true
	}
	if pr.Ge(M256()) {
		return Nil, false
	}
	if n1.Le(pr) {
		return Nil, false
	}
	return n1.Mul(p).CeilDiv(n1.Sub(pr)), true
}

// Next1 is getNextSqrtPriceFromAmount1RoundingDown.
func Next1(p, l, amt Z, add bool) (r Z, ok bool) {
	if add {
		return p.Add(amt.Mul(Q96()).Div(l)), true
	}
	q := amt.Mul(Q96()).CeilDiv(l)
	if p.Le(q) {
		return Nil, false
	}
	return p.Sub(q), true
}

// StepOut is the outcome of SwapMath.computeSwapStep.
type StepOut struct{ P, In, Out, Fee Z }

// Step is SwapMath.computeSwapStep for a signed remaining amount.
func Step(cur, tgt, l, rem, fee Z) (s StepOut, ok bool) {
	zfo := cur.Ge(tgt)
	exIn := rem.Ge(Nil)
	less := rem.Mul(Mil().Sub(fee)).Div(Mil())
	var in, out, next Z
	ok = true
	if exIn {
		if zfo {
			in = Amt0(tgt, cur, l, true)
		} else {
			in = Amt1(cur, tgt, l, true)
		}
		if less.Ge(in) {
			next = tgt
		} else if zfo {
			next, ok = Next0(cur, l, less, true)
		} else {
			next, ok = Next1(cur, l, less, true)
		}
	} else {
		if zfo {
			out = Amt1(tgt, cur, l, false)
		} else {
			out = Amt0(cur, tgt, l, false)
		}
		if rem.Neg().Ge(out) {
			next = tgt
		} else if zfo {
			next, ok = Next1(cur, l, rem.Neg(), false)
		} else {
			next, ok = Next0(cur, l, rem.Neg(), false)
		}
	}
	if !ok {
		return s, false
	}
	max := next.Eq(tgt)
	if zfo {
		if !(max && exIn) {
			in = Amt0(next, cur, l, true)
		}
		if !(max && !exIn) {
			out = Amt1(next, cur, l, false)
		}
	} else {
		if !(max && exIn) {
			in = Amt1(cur, next, l, true)
		}
		if !(max && !exIn) {
			out = Amt0(cur, next, l, false)
		}
	}
	if !exIn && out.Gt(rem.Neg()) {
		out = rem.Neg()
	}
	var f Z
	if exIn && !max {
		f = rem.Sub(in)
	} else {
		f = in.Mul(fee).CeilDiv(Mil().Sub(fee))
	}
	return StepOut{next, in, out, f}, true
}
