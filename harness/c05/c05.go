package c05

import (
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

const maxT = 887272

var mults = []string{
	"fffcb933bd6fad37aa2d162d1a594001", "fff97272373d413259a46990580e213a", "fff2e50f5f656932ef12357cf3c7fdcc", "ffe5caca7e10e4e61c3624eaa0941cd0",
	"ffcb9843d60f6159c9db58835c926644", "ff973b41fa98c081472e6896dfb254c0", "ff2ea16466c96a3843ec78b326b52861", "fe5dee046a99a2a811c461f1969c3053",
	"fcbe86c7900a88aedcffc83b479aa3a4", "f987a7253ac413176f2b074cf7815e54", "f3392b0822b70005940c7a398e4b70f3", "e7159475a2c29b7443b29c7fa6e889d9",
	"d097f3bdfd2022b8845ad8f792aa5825", "a9f746462d870fdf8a65dc1f90e061e5", "70d869a156d2a1b890bb3df62baf32f7", "31be135f97d08fd981231505542fcfa6",
	"9aa508b5b7a84e1c677de54f3e99bc9", "5d6af8dedb81196699c329225ee604", "2216e584f5fa1ea926041bedfe98", "48a170391f7dc42444e8fa2",
}

// chain is TickMath.getSqrtRatioAtTick of the protocol, over integers.
func chain(tick int) sym.Z {
	abs := sym.OfInt(tick)
	if tick < 0 {
		abs = abs.Neg()
	}
	r := sym.P2(128)
	for i, h := range mults {
		m := sym.Str("0x" + h)
		n := r.Mul(m).Div(sym.P2(128))
		r = sym.Ite(abs.Bits(i, 1).Eq(sym.I(0)), r, n)
	}
	if tick > 0 {
		r = sym.P2(256).Sub(sym.I(1)).Div(r)
	}
	return sym.Ite(r.Mod(sym.P2(32)).Eq(sym.I(0)), r.Div(sym.P2(32)), r.Div(sym.P2(32)).Add(sym.I(1)))
}

func ratio(tick int) {
	sym.Contracts("uint256")
	sym.Merge(true)
	sym.Reinit("lib/tickmath", tick+maxT)
	got := tickmath.TM.GetSqrtRatioAtTick(tick)
	sym.Merge(false)
	want := chain(tick)
	sym.Assert(sym.Of(got).Eq(want), "ratio")
	sym.Reach("done")
}

// H_ratio_*: what the table built by the package initialiser holds.
func H_ratio_neg()  { ratio(sym.Int("tick", -maxT, -1)) }
func H_ratio_pos()  { ratio(sym.Int("tick", 1, maxT)) }
func H_ratio_zero() { ratio(0) }

// H_copy: a returned price is the caller's own.
func H_copy() {
	sym.Contracts("uint256")
	sym.TickTable(&tickmath.TM)
	tick := sym.Int("tick", -maxT, maxT)
	other := sym.Int("other", -maxT, maxT)
	a := tickmath.TM.GetSqrtRatioAtTick(tick)
	sym.Assert(sym.Of(a).Eq(sym.SqrtRatio(tick)), "table")
	b := tickmath.TM.GetSqrtRatioAtTick(other)
	a.Set(ui.NewInt(5))
	sym.Assert(sym.Of(b).Eq(sym.SqrtRatio(other)), "other-result")
	sym.Assert(sym.Of(tickmath.TM.GetSqrtRatioAtTick(tick)).Eq(sym.SqrtRatio(tick)), "table-kept")
	sym.Assert(sym.Of(tickmath.TM.GetSqrtRatioAtTick(other)).Eq(sym.SqrtRatio(other)), "table-kept-other")
	sym.Reach("done")
}

var minR, maxR = sym.Str("4295128739"), sym.Str("1461446703485210103287273052203988822378723970342")

// H_tick: the search, for every price in range.
func H_tick() {
	sym.Contracts("uint256")
	sym.TickTable(&tickmath.TM)
	p := sym.ZR("p", minR, maxR.Sub(sym.I(1)))
	total := sym.I(2*maxT + 1)
	at := func(i sym.Z) sym.Z { return sym.SqrtRatio(sym.ToInt(i) - maxT) }
	sym.Loop("GetTickAtSqrtRatio", 2, func(phase int, old, now []sym.Z) {
		r, l := now[0], now[1]
		inv := sym.And(sym.I(0).Le(l), l.Le(r), r.Lt(total))
		switch phase {
		case 1:
			sym.Assume(inv)
			sym.Assume(at(l).Le(p))
			sym.Assume(sym.Or(r.Eq(total.Sub(sym.I(1))), p.Lt(at(sym.Ite(r.Lt(total.Sub(sym.I(2))), r, total.Sub(sym.I(2))).Add(sym.I(1))))))
			return
		case 2:
			sym.Assert(r.Sub(l).Lt(old[0].Sub(old[1])), "search-ends")
		}
		sym.Lemma(inv, "search-range")
		sym.Lemma(at(l).Le(p), "search-low")
		sym.Lemma(sym.Or(r.Eq(total.Sub(sym.I(1))), p.Lt(at(sym.Ite(r.Lt(total.Sub(sym.I(2))), r, total.Sub(sym.I(2))).Add(sym.I(1))))), "search-high")
	})
	q := sym.ToU256(p)
	var t int
	if sym.Try(func() { t = tickmath.TM.GetTickAtSqrtRatio(q) }) {
		sym.Fail("in-range-panic")
		return
	}
	sym.Assert(sym.And(-maxT <= t, t < maxT), "tick-range")
	sym.Assert(sym.SqrtRatio(t).Le(p), "tick-low")
	sym.Assert(p.Lt(sym.SqrtRatio(t+1)), "tick-high")
	sym.Assert(sym.Of(q).Eq(p), "price-kept")
	sym.Reach("done")
}

// H_out: a price outside the range has no tick.
func H_out() {
	sym.Contracts("uint256")
	sym.TickTable(&tickmath.TM)
	p := sym.U256("p")
	v := sym.Of(p)
	sym.Assume(sym.Or(v.Lt(minR), v.Ge(maxR)))
	sym.Assert(sym.Try(func() { tickmath.TM.GetTickAtSqrtRatio(p) }), "out-of-range")
	sym.Reach("done")
}

// H_limits: the limits are the prices of the limit ticks.
func H_limits() {
	sym.Assert(sym.Of(tickmath.MinSqrtRatio).Eq(chain(-maxT)), "min")
	sym.Assert(sym.Of(tickmath.MaxSqrtRatio).Eq(chain(maxT)), "max")
	sym.Assert(sym.And(tickmath.MinTick == -maxT, tickmath.MaxTick == maxT), "ticks")
	sym.Reach("done")
}

// H_order: the prices strictly increase (an axiom of the encoding elsewhere).
func H_order() {
	sym.Assert(sym.RatioOrder(), "increasing")
	sym.Reach("done")
}

// H_msb: the position of the highest bit set.
func H_msb() {
	sym.Contracts("uint256")
	x := sym.U256R("x", sym.I(1), sym.P2(256).Sub(sym.I(1)))
	v := sym.Of(x)
	k := int(tickmath.MostSignificantBit(x))
	sym.Assert(sym.And(0 <= k, k < 256), "msb-range")
	sym.Assert(sym.And(sym.P2(k).Le(v), v.Lt(sym.P2(k+1))), "msb")
	sym.Assert(sym.Of(x).Eq(v), "msb-argument-kept")
	sym.Reach("done")
}
