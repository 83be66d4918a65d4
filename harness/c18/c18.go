package c18

import (
	"uniswap-simulator/zzverif/desk"
	"uniswap-simulator/zzverif/sym"
)

// worth is idle holdings plus the rounded-down worth of every open position.
func worth(d *desk.Desk) (sym.Z, sym.Z) {
	a, b := d.H0, d.H1
	p := sym.Of(d.P.SqrtRatioX96)
	for _, r := range d.Recs {
		if r.Live {
			x, y := d.Worth(p, sym.SqrtRatio(r.Lo), sym.SqrtRatio(r.Hi), r.Liq)
			a, b = a.Add(x), b.Add(y)
		}
	}
	return a, b
}

// value asks the strategy for its worth: right, and nothing is touched.
func value(d *desk.Desk, name string) {
	h0, h1 := d.Held()
	keep, calls := sym.Snap(d.S), d.Calls
	k0, k1 := sym.Of(h0), sym.Of(h1)
	panicked := sym.Try(func() {
		x, y := d.S.GetAmounts()
		a, b := worth(d)
		sym.Assert(sym.And(sym.Of(x).Eq(a), sym.Of(y).Eq(b)), name+"-worth")
		sym.Assert(calls == d.Calls, name+"-acted")
		sym.Assert(sym.Same(keep, sym.Snap(d.S)), name+"-changed")
		x.SetAllOne()
		y.SetAllOne()
		h0, h1 = d.Held()
		sym.Assert(sym.And(sym.Of(h0).Eq(k0), sym.Of(h1).Eq(k1)), name+"-shared")
	})
	sym.Assert(!panicked, name+"-aborted")
}

// closed closes the strategy: everything withdrawn once and paid out.
func closed(d *desk.Desk, name string) bool {
	panicked := sym.Try(func() {
		x, y := d.S.BurnAll()
		sym.Assert(sym.And(sym.Of(x).Eq(d.H0), sym.Of(y).Eq(d.H1)), name+"-payout")
		sym.Assert(d.Balanced(), name+"-holdings")
		sym.Assert(!d.Alien, name+"-burnt-other")
		sym.Assert(d.Clear(), name+"-left-open")
		x.SetAllOne()
		y.SetAllOne()
		sym.Assert(d.Balanced(), name+"-shared")
	})
	sym.Assert(!panicked, name+"-aborted")
	return !panicked
}

func finish(d *desk.Desk) {
	value(d, "value")
	if !closed(d, "close") {
		return
	}
	value(d, "value-after")
	d.Move()
	closed(d, "again")
	value(d, "value-last")
	sym.Reach("closed")
}

// H_init: value and close an initialised strategy, then again.
func H_init() {
	d := desk.Open(sym.Shard(desk.Kinds), desk.Fee())
	if sym.Try(func() { d.S.Init() }) {
		return // C17
	}
	d.Move()
	finish(d)
}

func rounds(n, fee int) {
	k := sym.Shard(2 * desk.Kinds)
	d := desk.Open(k/2, fee)
	d.Half = 1 + k%2
	for i := 0; i <= n; i++ {
		if sym.Try(func() {
			if i == 0 {
				d.S.Init()
			} else {
				d.S.Rebalance()
			}
		}) {
			return // C17
		}
		d.Move()
	}
	finish(d)
}

// H_rebalance: the same after a rebalance.
func H_rebalance() { rounds(1, 3000) }

// T_twice: the same after two rebalances.
func T_twice() { rounds(2, 3000) }
