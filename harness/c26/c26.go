package c26

import (
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/prices"
	strat "uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/desk"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

var zero = sym.I(0)

// near is the multiple of u nearest to x, ties away from zero.
func near(x, u sym.Z) sym.Z {
	n := x.Abs().Add(u.Div(sym.I(2))).Div(u).Mul(u)
	return sym.Ite(x.Ge(zero), n, n.Neg())
}

func down(x, u sym.Z) sym.Z { return x.Div(u).Mul(u) }
func up(x, u sym.Z) sym.Z   { return x.CeilDiv(u).Mul(u) }

type pair [2]sym.Z

// step is a position the strategy is to open when it may: when is told the
// holdings and what was left after the main position.
type step struct {
	lo, hi int
	half   bool
	when   func(h, left pair) bool
}

func always(h, left pair) bool { return true }

func around(at, w, u sym.Z) step {
	return step{sym.ToInt(near(at.Sub(w), u)), sym.ToInt(near(at.Add(w), u)), false, always}
}

// between is the range from root price a to b, cut off at the tick limits.
func between(a, b sym.Z) step {
	lo, hi := -desk.MaxT, desk.MaxT
	if a.Ge(ref.MinR()) {
		lo = sym.TickAt(a)
	}
	if b.Lt(ref.MaxR()) {
		hi = sym.TickAt(b)
	}
	return step{lo, hi, false, func(h, left pair) bool { return lo < hi }}
}

// plan is what the strategy is defined to open at the current market.
func plan(d *desk.Desk, rebalancing bool, tick int, price sym.Z) []step {
	u := sym.OfInt(world.Spacing(d.P.Fee))
	t, w := sym.OfInt(tick), sym.OfInt(d.W)
	ceil, floor := sym.ToInt(up(t, u)), sym.ToInt(down(t, u))
	spread := func() sym.Z {
		_, vol := d.History()
		return sym.Isqrt(vol.Mul(sym.OfInt(d.Mult)).Div(sym.I(1024)))
	}
	mean := func() sym.Z {
		avg, _ := d.History()
		return sym.Isqrt(avg)
	}
	// the leftover of one token on its side of the price, inside the range
	fill := func(m step, allowed bool) []step {
		return []step{m, {ceil, m.hi, false, func(h, left pair) bool {
			return sym.And(allowed, left[0].Ne(zero), ceil < m.hi)
		}}, {m.lo, floor, false, func(h, left pair) bool {
			return sym.And(allowed, left[0].Eq(zero), left[1].Ne(zero), m.lo < floor)
		}}}
	}
	// the leftovers on ranges of the given width next to the price
	sides := func(m step, width int, half bool) []step {
		return []step{m, {ceil, ceil + width, half, func(h, left pair) bool { return h[0].Ne(zero) }},
			{floor - width, floor, half, func(h, left pair) bool { return h[1].Ne(zero) }}}
	}
	switch d.Kind {
	case 0:
		return sides(around(t, w, u), d.B, false)
	case 1:
		return []step{between(mean().Sub(spread()), mean().Add(spread()))}
	case 2:
		m := between(mean().Sub(spread()), mean().Add(spread()))
		if !rebalancing {
			return []step{m}
		}
		return fill(m, sym.And(m.lo <= tick, tick <= m.hi))
	case 4:
		return fill(around(t, w, u), true)
	case 5:
		return []step{around(sym.OfInt(sym.TickAt(mean())), w, u)}
	case 7:
		return sides(around(t, w, u), 10, true)
	case 8:
		return nil
	case 10:
		return []step{{-887270, 887270, false, always}}
	case 11:
		return []step{between(price.Sub(spread()), price.Add(spread()))}
	}
	return []step{around(t, w, u)}
}

// follows reports that the positions opened are the plan's: each step's range
// with the liquidity the holdings allow at price p (half of it), left out only
// where it does not apply or nothing would be minted.
func follows(d *desk.Desk, p sym.Z, recs []*desk.Rec, steps []step, h pair) bool {
	var match func(i, j int, h, left pair) bool
	match = func(i, j int, h, left pair) bool {
		if i == len(steps) {
			return j == len(recs)
		}
		if len(recs)-j > len(steps)-i {
			return false
		}
		st := steps[i]
		when := st.when(h, left)
		none := d.Sized(p, st.lo, st.hi, h, func(l sym.Z) bool {
			return sym.Or(l.Eq(zero), sym.And(st.half, l.Eq(sym.I(1))))
		})
		if i == 0 {
			left = h
		}
		ok := sym.And(sym.Or(!when, none), match(i+1, j, h, left))
		if j < len(recs) {
			r := recs[j]
			after := pair{r.A0, r.A1}
			if i == 0 {
				left = after
			}
			full := d.Sized(p, st.lo, st.hi, h, func(l sym.Z) bool {
				if st.half {
					l = l.Div(sym.I(2))
				}
				return l.Eq(r.Liq)
			})
			ok = sym.Or(ok, sym.And(when, r.Lo == st.lo, r.Hi == st.hi, full, match(i+1, j+1, after, left)))
		}
		return ok
	}
	return match(0, 0, h, h)
}

// exchange checks the one swap of the strategy that swaps.
func exchange(d *desk.Desk, name string, m step, price sym.Z, h pair) {
	if d.Kind != 9 {
		sym.Assert(len(d.Swaps) == 0, name+"-no-swap")
		return
	}
	sym.Assert(len(d.Swaps) <= 1, name+"-one-swap")
	one, two := sym.I(1), sym.I(2)
	a, b := sym.SqrtRatio(m.lo), sym.SqrtRatio(m.hi)
	ok := d.Sized(price, m.lo, m.hi, h, func(l sym.Z) bool {
		w0, w1 := d.Worth(price, a, b, l)
		x, y := h[0].Sub(w0), h[1].Sub(w1)
		if len(d.Swaps) == 0 {
			return sym.And(sym.Or(x.Le(one), y.Gt(zero)), sym.Or(y.Le(one), x.Gt(zero)))
		}
		s := d.Swaps[0]
		if s.Token0 {
			return s.Amt.Eq(x.Div(two))
		}
		return s.Amt.Eq(y.Div(two))
	})
	sym.Assert(ok, name+"-swap")
}

type market struct {
	tick  int
	price sym.Z
}

func now(d *desk.Desk) market { return market{d.P.TickCurrent, sym.Of(d.P.SqrtRatioX96)} }

func check(d *desk.Desk, name string, at market, before int, steps []step) {
	h := pair(d.Opening())
	if len(steps) > 0 {
		exchange(d, name, steps[0], at.price, h)
	}
	if n := len(d.Swaps); n > 0 {
		h = pair{d.Swaps[n-1].A0, d.Swaps[n-1].A1}
	}
	sym.Assert(follows(d, sym.Of(d.P.SqrtRatioX96), d.Recs[before:], steps, h), name)
	sym.Reach(name)
}

// H_init: what is opened at the start.
func H_init() {
	d := desk.Open(sym.Shard(desk.Kinds), desk.Fee())
	at := now(d)
	if sym.Try(func() { d.S.Init() }) {
		return // C17
	}
	check(d, "init", at, 0, plan(d, false, at.tick, at.price))
}

func rebalanced(fee int) {
	k := sym.Shard(2 * desk.Kinds)
	d := desk.Open(k/2, fee)
	d.Half = 1 + k%2
	at := now(d)
	if sym.Try(func() { d.S.Init() }) {
		return
	}
	var steps []step
	if d.Kind == 3 {
		steps = plan(d, false, at.tick, at.price)
	}
	d.Move()
	at = now(d)
	n := len(d.Recs)
	d.Begin()
	if sym.Try(func() { d.S.Rebalance() }) {
		return
	}
	if d.Kind != 3 {
		steps = plan(d, true, at.tick, at.price)
	}
	check(d, "rebalance", at, n, steps)
}

// H_rebalance: what is opened after the market moved.
func H_rebalance() { rebalanced(3000) }

// T_tiers: the same for the other fee tiers.
func T_tiers() {
	if sym.Choose("tier", 2) == 0 {
		rebalanced(500)
	} else {
		rebalanced(10000)
	}
}

// H_snapshot: recording a price shows the current one to the statistics of the
// strategies that have them, and changes nothing else.
func H_snapshot() {
	sym.Contracts("uint256 fullmath tick sqrt")
	k := sym.Shard(5)
	hi := sym.P2(114)
	price := func() *ui.Int { return sym.U256R("price", ref.MinR(), hi) }
	p := pool.NewPool("A", "B", 3000, sym.ToU256(sym.P2(96)))
	a := sym.U256R("hold0", zero, sym.P2(100))
	c := sym.U256R("hold1", zero, sym.P2(100))
	open := make([]strat.Position, sym.Choose("open", 2))
	var s strat.Strategy
	var h func() *prices.Prices
	switch k {
	case 0:
		x := strat.NewBollingerBandsStrategy(a, c, p, 2, 7)
		x.Positions = open
		s, h = x, func() *prices.Prices { return x.PriceHistory }
	case 1:
		x := strat.NewBollingerBandsFillUpStrategy(a, c, p, 2, 7)
		x.Positions = open
		s, h = x, func() *prices.Prices { return x.PriceHistory }
	case 2:
		x := strat.NewIntervalAroundAverageStrategy(a, c, p, 600, 2)
		x.Positions = open
		s, h = x, func() *prices.Prices { return x.PriceHistory }
	case 3:
		x := strat.NewVolatilitySizedIntervalStrategy(a, c, p, 2, 7)
		x.Positions = open
		s, h = x, func() *prices.Prices { return x.PriceHistory }
	default:
		others(a, p)
		return
	}
	var seen []sym.Z
	for i := 0; i < 3; i++ {
		v := price()
		s.GetPool().SqrtRatioX96 = v
		keep := sym.Snap(s.GetPool())
		s.MakeSnapshot()
		sym.Assert(sym.Same(keep, sym.Snap(s.GetPool())), "market-kept")
		seen = append(seen, sym.Of(v).Mul(sym.Of(v)))
		// it must have been copied
		s.GetPool().SqrtRatioX96 = ui.NewInt(77)
	}
	avg := sym.Of(h().Average())
	sym.Assert(avg.Eq(seen[1].Add(seen[2]).Div(sym.I(2))), "recorded")
	sym.Reach("history")
}

func others(a *ui.Int, p *pool.Pool) {
	list := []strat.Strategy{
		strat.NewTwoIntervalAroundPriceStrategy(a, a, p, 600, 60),
		strat.NewConstantIntervalStrategy(a, a, p, 600),
		strat.NewFillUpStrategy(a, a, p, 600),
		strat.NewIntervalAroundPriceStrategy(a, a, p, 600),
		strat.NewLimitOrderStrategy(a, a, p, 600),
		strat.NewNoProvisionStrategy(a, a, p),
		strat.NewIntervalAroundPriceAndSwapStrategy(a, a, p, 600),
		strat.NewV2Strategy(a, a, p),
	}
	for _, s := range list {
		s.GetPool().SqrtRatioX96 = sym.U256R("price", ref.MinR(), sym.P2(114))
		keep := sym.Snap(s)
		s.MakeSnapshot()
		sym.Assert(sym.Same(keep, sym.Snap(s)), "kept")
	}
	sym.Reach("others")
}
