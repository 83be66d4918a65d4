// Package c23: the result of a run is assembled from that run's own values.
package c23

import (
	"sync"
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/result"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/app"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

// idle is a strategy that holds end of token0 and nothing else.
type idle struct {
	p   *pool.Pool
	end *ui.Int
}

func (s *idle) Init() (*ui.Int, *ui.Int)       { return s.end.Clone(), new(ui.Int) }
func (s *idle) Rebalance() (*ui.Int, *ui.Int)  { return s.end.Clone(), new(ui.Int) }
func (s *idle) BurnAll() (*ui.Int, *ui.Int)    { return s.end.Clone(), new(ui.Int) }
func (s *idle) GetAmounts() (*ui.Int, *ui.Int) { return s.end.Clone(), new(ui.Int) }
func (s *idle) GetPool() *pool.Pool            { return s.p }
func (s *idle) MakeSnapshot()                  {}

var lengths = []int{1, 2, 24, 25, 48, 49, 168, 169, 200, 337}

const (
	drawdown = iota
	deviation
	downward
	risk
)

// figure is what the stand-in of a risk figure returns for a series of n
// values: different for every figure and length.
func figure(kind, n int) float64 { return float64(10000*(kind+1) + n) }

// every keeps every k-th value, starting with the first.
func every(v []Z, k int) []Z {
	var r []Z
	for i := 0; i < len(v); i += k {
		r = append(r, v[i])
	}
	return r
}

func same(p []*ui.Int, v []Z) bool {
	if len(p) != len(v) {
		return false
	}
	ok := true
	for i := range p {
		ok = sym.And(ok, sym.Of(p[i]).Eq(v[i]))
	}
	return ok
}

// H_result: series of 1 to 337 values, any of four slots.
func H_result() {
	n := lengths[sym.Shard(10)]
	e := &executor.Execution{}
	var vs []Z
	for i := 0; i < n; i++ {
		x := sym.U256("value")
		if i == 0 {
			sym.Assume(sym.Of(x).Gt(sym.I(0)))
		}
		vs = append(vs, sym.Of(x))
		if i < n-1 {
			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, x)
		} else {
			pl := &pool.Pool{Token0: "A", Token1: "B", Fee: 500, SqrtRatioX96: new(ui.Int).Lsh(ui.NewInt(1), 96)}
			e.Strategy = &idle{pl, x}
		}
	}
	hourly, daily, weekly := vs, every(vs, 24), every(vs, 168)
	stand := func(kind int, only bool) func(prices []*ui.Int) float64 {
		return func(prices []*ui.Int) float64 {
			ok := same(prices, hourly)
			if !only {
				ok = sym.Or(ok, same(prices, daily), same(prices, weekly))
			}
			sym.Assert(ok, "sampling")
			return figure(kind, len(prices))
		}
	}
	sym.Stand("calculateMaximumDrawdown", stand(drawdown, true))
	sym.Stand("calculateStd", stand(deviation, false))
	sym.Stand("calculateDownDeviation", stand(downward, false))
	sym.Stand("calculateVar", stand(risk, false))

	mul, duration, interval := sym.Int("mul", 1, 1<<40), sym.Int("duration", 0, 1<<40), sym.Int("interval", 1, 1<<40)
	slot := sym.Choose("slot", 4)
	rs := make([]result.RunResult, 4)
	for i := range rs {
		rs[i] = result.RunResult{MultiplierX10: -7, EndAmount: "none", Return: 77, VaR95Daily: 78}
	}
	empty := rs[0]
	var wg sync.WaitGroup
	wg.Add(1)
	if sym.Try(func() { app.ZZRunAndAppend(&wg, e, slot, mul, duration, interval, rs) }) {
		sym.Fail("assembles")
		return
	}
	wg.Wait()
	for i := range rs {
		if i != slot {
			sym.Assert(rs[i] == empty, "other-slots")
		}
	}
	r := rs[slot]
	sym.Assert(sym.And(r.MultiplierX10 == mul, r.HistoryWindow == duration, r.UpdateInterval == interval), "parameters")
	sym.Assert(sym.StrEq(r.EndAmount, sym.Digits(vs[n-1])), "end-amount")
	sym.Assert(len(e.AmountUSDSnapshots) == n && same(e.AmountUSDSnapshots, vs), "series-kept")
	end, first := vs[n-1], vs[0]
	sym.Assert(sym.Near(r.Return, end.Sub(first), first, 44), "return")
	h, d, w := len(hourly), len(daily), len(weekly)
	sym.Assert(sym.FEq(r.MaxDrawdown, figure(drawdown, h)), "drawdown")
	sym.Assert(sym.FEq(r.StandardDeviationHourly, figure(deviation, h)), "deviation-hourly")
	sym.Assert(sym.FEq(r.StandardDeviationDaily, figure(deviation, d)), "deviation-daily")
	sym.Assert(sym.FEq(r.StandardDeviationWeekly, figure(deviation, w)), "deviation-weekly")
	sym.Assert(sym.FEq(r.DownwardDeviationHourly, figure(downward, h)), "downward-hourly")
	sym.Assert(sym.FEq(r.DownwardDeviationDaily, figure(downward, d)), "downward-daily")
	sym.Assert(sym.FEq(r.DownwardDeviationWeekly, figure(downward, w)), "downward-weekly")
	sym.Assert(sym.FEq(r.VaR95Hourly, figure(risk, h)), "risk-hourly")
	sym.Assert(sym.FEq(r.VaR95Daily, figure(risk, d)), "risk-daily")
	sym.Assert(sym.FEq(r.VaR95Weekly, figure(risk, w)), "risk-weekly")
	sym.Reach("done")
}
