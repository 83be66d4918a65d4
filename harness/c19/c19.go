package c19

import (
	"uniswap-simulator/lib/prices"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

var none = sym.I(0)

func stats(ring []sym.Z) (avg, vol sym.Z) {
	n := sym.OfInt(len(ring))
	sum := none
	for _, s := range ring {
		sum = sum.Add(s)
	}
	avg = sum.Div(n)
	dev := none
	for _, s := range ring {
		d := s.Sub(avg).Abs()
		dev = dev.Add(d.Mul(d))
	}
	vol = sym.Isqrt(dev.Div(n.Sub(sym.I(1))))
	return
}

// limit is the width in bits a recorded square may have.
const limit = 230

func check(p *prices.Prices, ring []sym.Z) {
	avg, vol := stats(ring)
	a := p.Average()
	sym.Assert(sym.Of(a).Eq(avg), "average")
	v := p.Volatility()
	sym.Assert(sym.Of(v).Eq(vol), "volatility")
	// the results are the caller's own
	a.Add(a, ui.NewInt(7))
	v.Add(v, ui.NewInt(7))
	sym.Assert(sym.Of(p.Average()).Eq(avg), "average-again")
	sym.Assert(sym.Of(p.Volatility()).Eq(vol), "volatility-again")
}

func run(n, k int) {
	sym.Contracts("uint256 sqrt")
	p := prices.NewPrices(n)
	ring := make([]sym.Z, n)
	for i := range ring {
		ring[i] = none
	}
	for i := 0; i < k; i++ {
		x := sym.U256R("price", none, sym.P2(limit/2).Sub(sym.I(1)))
		v := sym.Of(x)
		if sym.Try(func() { p.Add(x) }) {
			sym.Fail("accepts")
			return
		}
		sym.Assert(sym.Of(x).Eq(v), "argument")
		// the caller's number changes afterwards
		x.Add(x, ui.NewInt(12345))
		ring[i%n] = v.Mul(v)
	}
	check(p, ring)
	sym.Reach("done")
}

// H_ring: up to 2n+1 recordings in a history of n prices.
func H_ring() {
	i := sym.Shard(12)
	if i < 5 {
		run(2, i)
	} else {
		run(3, i-5)
	}
}

// T_ring: longer histories.
func T_ring() {
	i := sym.Shard(12)
	if i < 6 {
		run(4, i+3)
	} else {
		run(5, i)
	}
}

// H_reject: a price whose square does not fit is rejected and leaves the
// history as it was.
func H_reject() {
	sym.Contracts("uint256 sqrt")
	p := prices.NewPrices(2)
	x, y := sym.U256R("price", none, sym.P2(limit/2).Sub(sym.I(1))), sym.U256("wide")
	p.Add(x)
	v := sym.Of(x)
	w := sym.Of(y)
	pan := sym.Try(func() { p.Add(y) })
	fits := w.Mul(w).Lt(sym.P2(limit))
	sym.Assert(pan == !fits, "rejected")
	if pan {
		check(p, []sym.Z{v.Mul(v), none})
		p.Add(x)
		check(p, []sym.Z{v.Mul(v), v.Mul(v)})
	}
	sym.Reach("done")
}
