package c09

import (
	td "uniswap-simulator/lib/tickdata"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

const maxT = world.MaxT

var zero = sym.I(0)

// table builds a table with the given ticks, entered in increasing order.
func table(ts []int, spacing int) *td.TickData {
	d := td.NewTickData(spacing)
	one, z := ui.NewInt(1), ui.NewInt(0)
	for _, t := range ts {
		d.UpdateTick(t, t, one, z, z, false)
	}
	return d
}

func next(n, spacing int) {
	ts := world.Ticks(n, spacing)
	d := table(ts, spacing)
	tick := sym.Int("from", -maxT-1, maxT)
	lte := sym.Bool("lte")
	want, found := world.Next(ts, spacing, tick, lte)
	var got int
	var init bool
	if sym.Try(func() { got, init = d.NextInitializedTickWithinOneWord(tick, lte) }) {
		sym.Fail("next-panic")
		return
	}
	sym.Assert(got == want, "next-tick")
	sym.Assert(init == found, "next-flag")
	for _, t := range ts {
		sym.Assert(!sym.Try(func() { d.GetTick(t) }), "query-keeps-ticks")
	}
	sym.Reach("done")
}

var spacings = []int{1, 10, 60, 200}

// H_next1, 2 and 3: searches in a table of that many ticks.
func H_next1() { next(1, spacings[sym.Shard(4)]) }
func H_next2() { next(2, spacings[sym.Shard(4)]) }
func H_next3() { next(3, spacings[sym.Shard(4)]) }
func T_next4() { next(4, spacings[sym.Shard(4)]) }
func T_next5() { next(5, spacings[sym.Shard(4)]) }

// entry is what the table should hold.
type entry struct {
	i          int
	gross, net sym.Z
	f0, f1     sym.Z
	live       bool
}

func check(d *td.TickData, es []entry) {
	for _, e := range es {
		if !e.live {
			i := e.i
			sym.Assert(sym.Try(func() { d.GetTick(i) }), "absent")
			continue
		}
		var t td.Tick
		i := e.i
		if sym.Try(func() { t = d.GetTick(i) }) {
			sym.Fail("missing")
			continue
		}
		sym.Assert(t.Index == e.i, "index")
		sym.Assert(sym.Of(t.LiquidityGross).Eq(e.gross), "gross")
		sym.Assert(sym.OfS(t.LiquidityNet).Eq(e.net), "net")
		sym.Assert(sym.And(sym.Of(t.FeeGrowthOutside0X128).Eq(e.f0), sym.Of(t.FeeGrowthOutside1X128).Eq(e.f1)), "outside")
	}
}

// sequence applies n additions or removals at ticks from a pool of n ticks in
// any order, starting from the empty table.
func sequence(n int) {
	sym.Contracts("uint256 fullmath")
	nm := []string{"a", "b", "c", "d", "e"}
	d := td.NewTickData(1)
	var es []entry
	cur := sym.Int("cur", -maxT, maxT)
	for k := 0; k < n; k++ {
		t := sym.Int("t"+nm[k], -maxT, maxT)
		amt := sym.ZR("amt"+nm[k], sym.I(1), sym.P2(126))
		g0, g1 := sym.U256("g0"+nm[k]), sym.U256("g1"+nm[k])
		upper := sym.Bool("upper" + nm[k])
		at := -1
		for j := range es {
			if es[j].i == t {
				at = j
			}
		}
		rem := false
		if at >= 0 && es[at].live {
			rem = sym.Bool("rem" + nm[k])
			if rem {
				sym.Assume(amt.Le(es[at].gross))
			}
		}
		delta := amt
		if rem {
			delta = amt.Neg()
		}
		dl := sym.ToU256(delta)
		clear := d.UpdateTick(t, cur, dl, g0, g1, upper)
		sym.Assert(sym.Of(dl).Eq(ref.W(delta)), "delta-kept")
		net := delta
		if upper {
			net = delta.Neg()
		}
		if at < 0 || !es[at].live {
			e := entry{i: t, gross: delta, net: net, f0: zero, f1: zero, live: true}
			if t <= cur {
				e.f0, e.f1 = sym.Of(g0), sym.Of(g1)
			}
			if at < 0 {
				es = append(es, e)
				at = len(es) - 1
			} else {
				es[at] = e
			}
		} else {
			es[at].gross = es[at].gross.Add(delta)
			es[at].net = es[at].net.Add(net)
		}
		sym.Assert(clear == es[at].gross.Eq(zero), "clear-flag")
		if clear {
			d.ClearTick(t)
			es[at].live = false
		}
		any := false
		for _, e := range es {
			any = any || e.live
		}
		if any {
			check(d, es)
		}
	}
	sym.Reach("done")
}

func H_seq2() { sequence(2) }
func H_seq3() { sequence(3) }
func T_seq4() { sequence(4) }

// step is one addition or removal on a table of n ticks.
func step(n int) {
	sym.Contracts("uint256 fullmath")
	nm := []string{"a", "b", "c", "d", "e"}
	ts := world.Ticks(n, 1)
	d := td.NewTickData(1)
	var es []entry
	for k, t := range ts {
		up := sym.ZR("up"+nm[k], zero, sym.P2(126))
		lo := sym.ZR("lo"+nm[k], zero, sym.P2(126))
		sym.Assume(up.Add(lo).Gt(zero))
		f0, f1 := sym.U256("f0"+nm[k]), sym.U256("f1"+nm[k])
		d.UpdateTick(t, t, sym.ToU256(lo), f0, f1, false)
		d.UpdateTick(t, t, sym.ToU256(up), f0, f1, true)
		es = append(es, entry{t, lo.Add(up), lo.Sub(up), sym.Of(f0), sym.Of(f1), true})
	}
	cur := sym.Int("cur", -maxT, maxT)
	t := sym.Int("t", -maxT, maxT)
	amt := sym.ZR("amt", sym.I(1), sym.P2(126))
	g0, g1 := sym.U256("g0"), sym.U256("g1")
	upper := sym.Bool("upper")
	at := -1
	for j := range es {
		if es[j].i == t {
			at = j
		}
	}
	delta := amt
	if at >= 0 && sym.Bool("rem") {
		sym.Assume(amt.Le(es[at].gross))
		delta = amt.Neg()
	}
	clear := d.UpdateTick(t, cur, sym.ToU256(delta), g0, g1, upper)
	net := delta
	if upper {
		net = delta.Neg()
	}
	if at < 0 {
		e := entry{i: t, gross: delta, net: net, f0: zero, f1: zero, live: true}
		if t <= cur {
			e.f0, e.f1 = sym.Of(g0), sym.Of(g1)
		}
		es = append(es, e)
		at = len(es) - 1
	} else {
		es[at].gross = es[at].gross.Add(delta)
		es[at].net = es[at].net.Add(net)
	}
	sym.Assert(clear == es[at].gross.Eq(zero), "clear-flag")
	if clear {
		d.ClearTick(t)
		es[at].live = false
	}
	if n > 1 || !clear {
		check(d, es)
		// still sorted: a search from anywhere finds the nearest tick
		q := sym.Int("q", -maxT, maxT)
		best, ok := 0, false
		for _, e := range es {
			if e.live && e.i <= q && (!ok || e.i > best) {
				best, ok = e.i, true
			}
		}
		got, init := d.NextInitializedTickWithinOneWord(q, true)
		if ok && init {
			sym.Assert(got == best, "nearest")
		}
		sym.Assert(sym.Implies(init, ok), "nearest-flag")
	}
	sym.Reach("done")
}

func H_step1() { step(1) }
func H_step2() { step(2) }
func H_step3() { step(3) }
func T_step4() { step(4) }

// H_cross: crossing flips exactly the crossed tick's outside growth and
// reports its net liquidity.
func H_cross() {
	sym.Contracts("uint256 fullmath")
	nm := []string{"a", "b", "c"}
	ts := world.Ticks(3, 1)
	d := td.NewTickData(1)
	var es []entry
	for k, t := range ts {
		up := sym.ZR("up"+nm[k], zero, sym.P2(126))
		lo := sym.ZR("lo"+nm[k], sym.I(1), sym.P2(126))
		f0, f1 := sym.U256("f0"+nm[k]), sym.U256("f1"+nm[k])
		d.UpdateTick(t, t, sym.ToU256(lo), f0, f1, false)
		d.UpdateTick(t, t, sym.ToU256(up), f0, f1, true)
		es = append(es, entry{t, lo.Add(up), lo.Sub(up), sym.Of(f0), sym.Of(f1), true})
	}
	k := sym.Shard(3)
	g0, g1 := sym.U256("g0"), sym.U256("g1")
	s := sym.Snap([]*ui.Int{g0, g1})
	net := d.Cross(ts[k], g0, g1)
	sym.Assert(sym.Same(s, sym.Snap([]*ui.Int{g0, g1})), "growth-kept")
	sym.Assert(sym.OfS(net).Eq(es[k].net), "net-returned")
	es[k].f0 = ref.W(sym.Of(g0).Sub(es[k].f0))
	es[k].f1 = ref.W(sym.Of(g1).Sub(es[k].f1))
	check(d, es)
	sym.Reach("done")
}
