// Package c24: risk figures of a value series, on exact arithmetic.
package c24

import (
	"math"
	"math/big"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/app"
	"uniswap-simulator/zzverif/sym"
)

const tol = 1e-3

// given puts n arbitrary returns between -1 and 1 in the place of the
// logarithmic returns of n+1 values.
func given(n int) (rs []float64, ps []*ui.Int) {
	for i := 0; i < n; i++ {
		rs = append(rs, float64(sym.Int("r", -1024, 1024))/1024)
	}
	for i := 0; i <= n; i++ {
		ps = append(ps, ui.NewInt(uint64(i+1)))
	}
	sym.Stand("getReturns", func(prices []*ui.Int) []float64 {
		return append([]float64(nil), rs...)
	})
	return
}

// H_deviation: the sample standard deviation.
func H_deviation() {
	sym.Exact()
	n := 2 + sym.Shard(3)
	rs, ps := given(n)
	mean := 0.0
	for _, r := range rs {
		mean += r
	}
	mean /= float64(n)
	v := 0.0
	for _, r := range rs {
		v += (r - mean) * (r - mean)
	}
	v /= float64(n - 1)
	got := app.ZZDeviation(ps)
	sym.Assert(got >= 0, "deviation-sign")
	sym.Assert(sym.Close(got*got, v, tol), "deviation")
	sym.Reach("done")
}

// H_equal: equal returns have a deviation, whatever the rounding.
func H_equal() {
	n := 2 + sym.Shard(6)
	r := float64(sym.Int("r", -1000, 1000)) / 1000
	var ps []*ui.Int
	for i := 0; i <= n; i++ {
		ps = append(ps, ui.NewInt(uint64(i+1)))
	}
	sym.Stand("getReturns", func(prices []*ui.Int) []float64 {
		var rs []float64
		for i := 0; i < n; i++ {
			rs = append(rs, r)
		}
		return rs
	})
	sym.Assert(app.ZZDeviation(ps) >= 0, "deviation-number")
	sym.Reach("done")
}

// H_downward: root mean square of the negative returns, over all returns.
func H_downward() {
	sym.Exact()
	n := 2 + sym.Shard(4)
	rs, ps := given(n)
	v := 0.0
	for _, r := range rs {
		if r < 0 {
			v += r * r
		}
	}
	v /= float64(n)
	got := app.ZZDownward(ps)
	sym.Assert(got >= 0, "downward-sign")
	sym.Assert(sym.Close(got*got, v, tol), "downward")
	sym.Reach("done")
}

var counts = []int{2, 3, 19, 20, 21, 39, 40, 41}

// H_var: the return below which lie one in twenty returns.
func H_var() {
	sym.Exact()
	n := counts[sym.Shard(8)]
	rs, ps := given(n)
	got := app.ZZValueAtRisk(ps)
	below, upto := sym.I(0), sym.I(0)
	one, none := sym.I(1), sym.I(0)
	found := false
	for _, r := range rs {
		below = below.Add(sym.Ite(r < got, one, none))
		upto = upto.Add(sym.Ite(r <= got, one, none))
		found = sym.Or(found, sym.FEq(r, got))
	}
	k := sym.OfInt(n / 20)
	sym.Assert(found, "risk-observed")
	sym.Assert(below.Le(k), "risk-not-above")
	sym.Assert(upto.Gt(k), "risk-not-below")
	sym.Reach("done")
}

// H_short: fewer than two returns give no spread.
func H_short() {
	sym.Exact()
	n := sym.Shard(3)
	var ps []*ui.Int
	for i := 0; i < n; i++ {
		p := sym.U256("p")
		sym.Assume(sym.Of(p).Gt(sym.I(0)))
		ps = append(ps, p)
	}
	sym.Assert(sym.FEq(app.ZZDeviation(ps), 0), "short-deviation")
	sym.Assert(sym.FEq(app.ZZDownward(ps), 0), "short-downward")
	sym.Assert(sym.FEq(app.ZZValueAtRisk(ps), 0), "short-risk")
	if n < 2 {
		sym.Assert(sym.FEq(app.ZZDrawdown(ps), 0), "short-drawdown")
	}
	sym.Reach("done")
}

func real(p *ui.Int) float64 {
	f, _ := new(big.Float).SetInt(p.ToBig()).Float64()
	return f
}

// H_returns: logarithms of the ratios of neighbours.
func H_returns() {
	sym.Exact()
	n := 1 + sym.Shard(5)
	var ps []*ui.Int
	var vs []sym.Z
	for i := 0; i < n; i++ {
		p := sym.U256("p")
		sym.Assume(sym.Of(p).Gt(sym.I(0)))
		ps = append(ps, p)
		vs = append(vs, sym.Of(p))
	}
	got := app.ZZReturns(ps)
	sym.Assert(len(got) == n-1, "returns-count")
	for i := 0; i < len(got) && i < n-1; i++ {
		sym.Assert(sym.Close(got[i], math.Log(real(ps[i+1])/real(ps[i])), tol), "return")
	}
	for i := range ps {
		sym.Assert(sym.Of(ps[i]).Eq(vs[i]), "values-kept")
	}
	sym.Reach("done")
}

// H_drawdown: the largest relative loss against an earlier value.
func H_drawdown() {
	sym.Exact()
	n := 2 + sym.Shard(3)
	var ps []*ui.Int
	for i := 0; i < n; i++ {
		p := sym.U256("p")
		sym.Assume(sym.Of(p).Gt(sym.I(0)))
		ps = append(ps, p)
	}
	got := app.ZZDrawdown(ps)
	sym.Assert(got <= 0, "drawdown-sign")
	sym.Assert(got >= -1, "drawdown-size")
	hit := sym.Close(got, 0, tol)
	for j := range ps {
		for i := 0; i < j; i++ {
			d := (real(ps[j]) - real(ps[i])) / real(ps[i])
			sym.Assert(got <= d+tol, "drawdown-largest")
			hit = sym.Or(hit, sym.Close(got, d, tol))
		}
	}
	sym.Assert(hit, "drawdown-observed")
	sym.Reach("done")
}
