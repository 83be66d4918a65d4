// Package c27: the results file holds every figure of every run.
package c27

import (
	"encoding/json"

	"uniswap-simulator/lib/result"
	"uniswap-simulator/zzverif/app"
	"uniswap-simulator/zzverif/sym"
)

// row is a result as the readers of the file know it.
type row struct {
	Update   int     `json:"update_interval"`
	Mul      int     `json:"multiplierX10"`
	Window   int     `json:"history_window"`
	Return   float64 `json:"return_on_investment"`
	End      string  `json:"end_amount"`
	Drawdown float64 `json:"max_draw_down"`
	SdH      float64 `json:"standard_deviation_hourly"`
	SdD      float64 `json:"standard_deviation_daily"`
	SdW      float64 `json:"standard_deviation_weekly"`
	DdH      float64 `json:"downward_deviation_hourly"`
	DdD      float64 `json:"downward_deviation_daily"`
	DdW      float64 `json:"downward_deviation_weekly"`
	VarH     float64 `json:"VaR95_hourly"`
	VarD     float64 `json:"VaR95_daily"`
	VarW     float64 `json:"VaR95_weekly"`
}

type file struct {
	Start   string `json:"start_amount"`
	From    int    `json:"start_time"`
	To      int    `json:"end_time"`
	Results []row  `json:"results"`
}

const far = 1 << 62

func (r row) same(o row) bool {
	return sym.And(r.Update == o.Update, r.Mul == o.Mul, r.Window == o.Window, sym.StrEq(r.End, o.End),
		sym.FEq(r.Return, o.Return), sym.FEq(r.Drawdown, o.Drawdown),
		sym.FEq(r.SdH, o.SdH), sym.FEq(r.SdD, o.SdD), sym.FEq(r.SdW, o.SdW),
		sym.FEq(r.DdH, o.DdH), sym.FEq(r.DdD, o.DdD), sym.FEq(r.DdW, o.DdW),
		sym.FEq(r.VarH, o.VarH), sym.FEq(r.VarD, o.VarD), sym.FEq(r.VarW, o.VarW))
}

func save(n int) {
	name := "run-1.json"
	if sym.Choose("again", 2) == 1 {
		// an earlier run left a longer file
		long := "x"
		for len(long) < 4096 {
			long += long
		}
		old, _ := json.Marshal(long)
		sym.Serve("results/"+name, old)
	} else {
		sym.Serve("none.json")
	}
	var rs []result.RunResult
	var want []row
	for i := 0; i < n; i++ {
		w := row{
			sym.Int("update", -far, far), sym.Int("mul", -far, far), sym.Int("window", -far, far),
			sym.Float("return"), sym.Digits(sym.ZR("end", sym.I(0), sym.P2(256))), sym.Float("drawdown"),
			sym.Float("sdh"), sym.Float("sdd"), sym.Float("sdw"),
			sym.Float("ddh"), sym.Float("ddd"), sym.Float("ddw"),
			sym.Float("varh"), sym.Float("vard"), sym.Float("varw"),
		}
		want = append(want, w)
		rs = append(rs, result.RunResult{UpdateInterval: w.Update, MultiplierX10: w.Mul, HistoryWindow: w.Window,
			Return: w.Return, EndAmount: w.End, MaxDrawdown: w.Drawdown,
			StandardDeviationHourly: w.SdH, StandardDeviationDaily: w.SdD, StandardDeviationWeekly: w.SdW,
			DownwardDeviationHourly: w.DdH, DownwardDeviationDaily: w.DdD, DownwardDeviationWeekly: w.DdW,
			VaR95Hourly: w.VarH, VaR95Daily: w.VarD, VaR95Weekly: w.VarW})
	}
	start := sym.Digits(sym.ZR("start", sym.I(0), sym.P2(256)))
	from, to := sym.Int("from", -far, far), sym.Int("to", -far, far)
	sym.Assert(!sym.Try(func() { app.ZZSave(start, rs, name, from, to) }), "aborted")
	raw, ok := sym.Written("results/" + name)
	sym.Assert(ok, "written")
	if !ok {
		return
	}
	var got file
	sym.Assert(json.Unmarshal(raw, &got) == nil, "readable")
	sym.Assert(sym.And(sym.StrEq(got.Start, start), got.From == from, got.To == to), "header")
	sym.Assert(len(got.Results) == n, "every-result")
	if len(got.Results) != n {
		return
	}
	for i := range want {
		sym.Assert(got.Results[i].same(want[i]), "figures")
		sym.Assert(sym.And(rs[i].UpdateInterval == want[i].Update, sym.FEq(rs[i].Return, want[i].Return)), "kept")
	}
	sym.Reach("saved")
}

// H_save: up to three results.
func H_save() { save(sym.Shard(4)) }

// T_save: up to twelve.
func T_save() { save(4 + sym.Shard(9)) }
