package c17

import (
	"uniswap-simulator/zzverif/desk"
	"uniswap-simulator/zzverif/sym"
)

func opened(d *desk.Desk, name string, f func()) bool {
	panicked := sym.Try(f)
	sym.Assert(!panicked, name+"-aborted")
	if panicked {
		return false
	}
	sym.Assert(d.Balanced(), name+"-holdings")
	sym.Assert(!d.Late, name+"-reinvested-early")
	sym.Assert(!d.Alien, name+"-burnt-other")
	return true
}

func recorded(d *desk.Desk, name string) {
	panicked := sym.Try(func() { d.S.BurnAll() })
	sym.Assert(!panicked, name+"-close")
	if panicked {
		return
	}
	sym.Assert(!d.Alien, name+"-recorded-other")
	sym.Assert(d.Clear(), name+"-unrecorded")
	sym.Reach(name)
}

// H_init: initialising, then closing to see what was recorded.
func H_init() {
	d := desk.Open(sym.Shard(desk.Kinds), desk.Fee())
	if opened(d, "init", func() { d.S.Init() }) {
		recorded(d, "init")
	}
}

func rounds(n, fee int) {
	k := sym.Shard(2 * desk.Kinds)
	d := desk.Open(k/2, fee)
	d.Half = 1 + k%2
	if sym.Try(func() { d.S.Init() }) {
		return // H_init
	}
	for i := 0; i < n; i++ {
		d.Move()
		before := len(d.Recs)
		d.Sweeping = true
		if !opened(d, "rebalance", func() { d.S.Rebalance() }) {
			return
		}
		if d.Kind != 8 {
			ok := true
			for _, r := range d.Recs[:before] {
				ok = sym.And(ok, !r.Live)
			}
			sym.Assert(ok, "left-open")
		}
	}
	recorded(d, "rebalance")
}

// H_rebalance: initialise, let the market move, rebalance.
func H_rebalance() { rounds(1, 3000) }

// T_tiers: the same for the other fee tiers.
func T_tiers() {
	if sym.Choose("tier", 2) == 0 {
		rounds(1, 500)
	} else {
		rounds(1, 10000)
	}
}

// T_twice: two rebalances.
func T_twice() { rounds(2, 3000) }
