// Package world builds consistent pool states with symbolic contents.
package world

import (
	"uniswap-simulator/lib/pool"
	td "uniswap-simulator/lib/tickdata"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
)

// Rec is a tick as the protocol keeps it: Lo and Up are the liquidity of the
// ranges that start and end here.
type Rec struct {
	I      int
	Lo, Up sym.Z
	F0, F1 *ui.Int
}

func (r Rec) Gross() sym.Z { return r.Lo.Add(r.Up) }
func (r Rec) Net() sym.Z   { return r.Lo.Sub(r.Up) }

// World is a pool together with the state it was built from.
type World struct {
	P    *pool.Pool
	T    []Rec
	L    sym.Z     // active liquidity
	R    [][]sym.Z // liquidity of range [T[i],T[j])
	G0   sym.Z
	G1   sym.Z
	Tick int
	Sq   sym.Z
}

const MaxT = 887272

var names = []string{"a", "b", "c", "d", "e"}

// Ticks returns n increasing tick indexes, multiples of spacing.
func Ticks(n, spacing int) []int {
	var t []int
	k := MaxT / spacing
	for i := 0; i < n; i++ {
		v := sym.Int("tick."+names[i], -k, k) * spacing
		if i > 0 {
			sym.Assume(t[i-1] < v)
		}
		t = append(t, v)
	}
	return t
}

// Spacing of the fee tiers in use.
func Spacing(fee int) int {
	switch fee {
	case 500:
		return 10
	case 3000:
		return 60
	}
	return 200
}

// New builds a pool with the n initialised ticks ts (increasing), every
// consistent distribution of liquidity over the ranges between them, every
// fee growth and every price.
func New(ts []int, fee int) *World {
	n := len(ts)
	w := &World{}
	for i := 0; i < n; i++ {
		w.R = append(w.R, make([]sym.Z, n))
		for j := range w.R[i] {
			w.R[i][j] = sym.I(0)
			if j > i {
				w.R[i][j] = sym.ZR("liq."+names[i]+names[j], sym.I(0), sym.P2(120))
			}
		}
	}
	w.Tick = sym.Int("tick", -MaxT, MaxT-1)
	sq := sym.U256R("price", ref.MinR(), ref.MaxR().Sub(sym.I(1)))
	w.Sq = sym.Of(sq)
	// between the prices of the tick and the next one; the upper end is
	// reached when a swap stops exactly at a tick on its way down
	sym.Assume(sym.And(sym.SqrtRatio(w.Tick).Le(w.Sq), w.Sq.Le(sym.SqrtRatio(w.Tick+1))))
	p := pool.NewPool("A", "B", fee, sq)
	w.P = p
	d := p.TickData
	for i, t := range ts {
		r := Rec{I: t, Lo: sym.I(0), Up: sym.I(0)}
		for j := i + 1; j < n; j++ {
			r.Lo = r.Lo.Add(w.R[i][j])
		}
		for j := 0; j < i; j++ {
			r.Up = r.Up.Add(w.R[j][i])
		}
		sym.Assume(r.Gross().Gt(sym.I(0)))
		r.F0 = sym.U256("out0." + names[i])
		r.F1 = sym.U256("out1." + names[i])
		if i < n-1 {
			d.UpdateTick(t, t, sym.ToU256(r.Lo), r.F0, r.F1, false)
		}
		if i > 0 {
			d.UpdateTick(t, t, sym.ToU256(r.Up), r.F0, r.F1, true)
		}
		w.T = append(w.T, r)
	}
	w.L = w.active(w.Tick)
	sym.Lemma(sym.And(w.L.Ge(sym.I(0)), w.L.Lt(sym.P2(128))), "world-liquidity")
	g0, g1 := sym.U256("g0"), sym.U256("g1")
	w.G0, w.G1 = sym.Of(g0), sym.Of(g1)
	p.Liquidity = sym.ToU256(w.L)
	p.FeeGrowthGlobal0X128 = g0
	p.FeeGrowthGlobal1X128 = g1
	p.TickCurrent = w.Tick
	return w
}

func (w *World) active(tick int) sym.Z {
	l := sym.I(0)
	for _, r := range w.T {
		l = l.Add(sym.Ite(r.I <= tick, r.Net(), sym.I(0)))
	}
	return l
}

// Active is the liquidity in range at a tick, from the ranges.
func (w *World) Active(tick int) sym.Z { return w.active(tick) }

// CheckTick asserts that the pool's table holds exactly this record.
func CheckTick(p *pool.Pool, r Rec, label string) {
	var t td.Tick
	if sym.Try(func() { t = p.TickData.GetTick(r.I) }) {
		sym.Fail(label + "-missing")
		return
	}
	sym.Assert(sym.Of(t.LiquidityGross).Eq(r.Gross()), label+"-gross")
	sym.Assert(sym.OfS(t.LiquidityNet).Eq(r.Net()), label+"-net")
	sym.Assert(sym.And(sym.Of(t.FeeGrowthOutside0X128).Eq(sym.Of(r.F0)), sym.Of(t.FeeGrowthOutside1X128).Eq(sym.Of(r.F1))), label+"-outside")
}

// Inside is the protocol's fee growth inside [lo,up) modulo 2^256.
func Inside(tick int, lo, up int, g, fl, fu sym.Z) sym.Z {
	below := sym.Ite(tick >= lo, fl, g.Sub(fl))
	above := sym.Ite(tick < up, fu, g.Sub(fu))
	return ref.W(g.Sub(below).Sub(above))
}

func floorDiv(a, b int) int { return sym.ToInt(sym.OfInt(a).Div(sym.OfInt(b))) }

// Next is the protocol's search for the next initialised tick within one word
// of the tick bitmap.
func Next(ts []int, spacing, tick int, lte bool) (next int, found bool) {
	if lte {
		next = floorDiv(tick, 256*spacing) * 256 * spacing
		for _, t := range ts {
			if t <= tick && t >= next {
				next, found = t, true
			}
		}
		return
	}
	next = ((floorDiv(tick+spacing, 256*spacing)+1)*256 - 1) * spacing
	for i := len(ts) - 1; i >= 0; i-- {
		if ts[i] > tick && ts[i] <= next {
			next, found = ts[i], true
		}
	}
	return
}
