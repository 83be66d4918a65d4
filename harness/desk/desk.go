// Package desk sets strategies up over a ledger that stands in for the pool's
// liquidity operations, and keeps the books the strategies should agree with.
//
// The stand-ins state what the other properties establish: minting the sized
// liquidity (or less) never charges more than was offered (C16), burning and
// collecting pay what is recorded for exactly that range, once (C10, C11,
// C13), a swap takes at most its input and pays out (C08), rounding lands on
// multiples of the spacing (C22), statistics stay below 2^230 (C19).
package desk

import (
	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/prices"
	strat "uniswap-simulator/lib/strategy"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

const (
	MaxT = 887272
	midT = 600000
)

var (
	zero = sym.I(0)
	big  = sym.P2(126)
)

// Rec is one mint.
type Rec struct {
	Lo, Hi int
	Liq    sym.Z
	Live   bool
	O0, O1 sym.Z // owed after burning
	Age    int
	A0, A1 sym.Z // holdings after paying for it
}

// Swap is one exchange: the holdings around it and the price before it.
type Swap struct {
	Token0         bool
	Amt            sym.Z
	P              sym.Z
	B0, B1, A0, A1 sym.Z
}

// sizing is an answer of GetLiquidityForAmount: liq on [a,b] at price p is
// covered by a0 and a1.
type sizing struct {
	p, a, b, liq, a0, a1 sym.Z
}

// Sized reports whether ok holds of an answer given for [lo,hi] at price p and
// holdings h.
func (d *Desk) Sized(p sym.Z, lo, hi int, h [2]sym.Z, ok func(liq sym.Z) bool) bool {
	a, b := sym.SqrtRatio(lo), sym.SqrtRatio(hi)
	any := false
	for _, s := range d.sized {
		any = sym.Or(any, sym.And(s.p.Eq(p), s.a.Eq(a), s.b.Eq(b), s.a0.Eq(h[0]), s.a1.Eq(h[1]), ok(s.liq)))
	}
	return any
}

// History is the average and the spread the strategy is shown.
func (d *Desk) History() (avg, vol sym.Z) {
	if d.avg == nil || d.vol == nil {
		d.history()
	}
	return sym.Of(d.avg), sym.Of(d.vol)
}

// Begin forgets what happened so far; Opening is the holdings at the first
// mint or swap since, or the holdings now if there was none.
func (d *Desk) Begin() { d.opening, d.Swaps = nil, nil }

func (d *Desk) Opening() [2]sym.Z {
	if d.opening != nil {
		return *d.opening
	}
	return [2]sym.Z{d.H0, d.H1}
}

type worth struct {
	p, a, b, liq sym.Z
	w0, w1       sym.Z
}

// Desk is the ledger.
type Desk struct {
	P        *pool.Pool
	Src      *pool.Pool // what the strategy was given
	A0, A1   *ui.Int
	S        strat.Strategy
	Kind     int
	Held     func() (*ui.Int, *ui.Int)
	Recs     []*Rec
	H0, H1   sym.Z // what the holdings should be
	sized    []sizing
	worths   []worth
	avg, vol *ui.Int
	Sweeping bool // until the first mint or swap everything must be withdrawn
	Late     bool // a mint or swap came before the withdrawal was complete
	Alien    bool // a burn of something never minted there
	Calls    int  // pool operations
	loose    bool
	Swaps    []Swap
	opening  *[2]sym.Z
	W, B     int // width and second width
	Mult     int
	Half     int  // 1: the first sizing gives nothing, 2: something, 0: either
}

// Kinds is the number of strategies.
const Kinds = 12

// Fee is any fee tier.
func Fee() int { return fees[sym.Choose("fee", len(fees))] }

var fees = []int{500, 3000, 10000}

// Open creates strategy number kind with arbitrary holdings.
func Open(kind, fee int) *Desk { return open(kind, fee, false) }

// OpenLoose does not tie the answers of the stand-ins to each other: enough
// where only the identity of numbers matters.
func OpenLoose(kind, fee int) *Desk { return open(kind, fee, true) }

func open(kind, fee int, loose bool) *Desk {
	sym.Contracts("uint256 fullmath tick sqrt")
	d := &Desk{Kind: kind, loose: loose}
	sp := world.Spacing(fee)
	tick, price := d.spot()
	p := pool.NewPool("A", "B", fee, price)
	p.TickCurrent = tick
	d.Src = p
	a0, a1 := sym.U256R("hold0", zero, sym.P2(100)), sym.U256R("hold1", zero, sym.P2(100))
	d.H0, d.H1 = sym.Of(a0), sym.Of(a1)
	d.A0, d.A1 = a0, a1
	w := sym.Int("width", sp, 100000)
	mult := sym.Int("multiplier", 0, 1<<20)
	d.W, d.Mult = w, mult
	d.install()
	switch kind {
	case 0:
		b := sym.Int("second", 1, 100000)
		d.B = b
		s := strat.NewTwoIntervalAroundPriceStrategy(a0, a1, p, w, b)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 1:
		s := strat.NewBollingerBandsStrategy(a0, a1, p, 2, mult)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 2:
		s := strat.NewBollingerBandsFillUpStrategy(a0, a1, p, 2, mult)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 3:
		s := strat.NewConstantIntervalStrategy(a0, a1, p, w)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 4:
		s := strat.NewFillUpStrategy(a0, a1, p, w)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 5:
		s := strat.NewIntervalAroundAverageStrategy(a0, a1, p, w, 2)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 6:
		s := strat.NewIntervalAroundPriceStrategy(a0, a1, p, w)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 7:
		s := strat.NewLimitOrderStrategy(a0, a1, p, w)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 8:
		s := strat.NewNoProvisionStrategy(a0, a1, p)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 9:
		s := strat.NewIntervalAroundPriceAndSwapStrategy(a0, a1, p, w)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	case 10:
		s := strat.NewV2Strategy(a0, a1, p)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	default:
		s := strat.NewVolatilitySizedIntervalStrategy(a0, a1, p, 2, mult)
		d.S, d.Held = s, func() (*ui.Int, *ui.Int) { return s.Amount0, s.Amount1 }
	}
	d.P = d.S.GetPool()
	return d
}

// spot is any price in the middle of the range with its tick.
func (d *Desk) spot() (int, *ui.Int) {
	t := sym.Int("tick", -midT, midT)
	p := sym.U256R("price", ref.MinR(), ref.MaxR().Sub(sym.I(1)))
	if !d.loose {
		sym.Assume(sym.And(sym.SqrtRatio(t).Le(sym.Of(p)), sym.Of(p).Le(sym.SqrtRatio(t+1))))
	}
	return t, p
}

// Move lets the market move.
func (d *Desk) Move() {
	d.P.TickCurrent, d.P.SqrtRatioX96 = d.spot()
	d.avg, d.vol = nil, nil
}

func (d *Desk) touch() {
	d.Calls++
	if d.opening == nil {
		d.opening = &[2]sym.Z{d.H0, d.H1}
	}
	if d.Sweeping {
		d.Sweeping = false
		if !d.Clear() {
			d.Late = true
		}
	}
}

// Clear reports that nothing minted so far is open or owed.
func (d *Desk) Clear() bool {
	ok := true
	for _, r := range d.Recs {
		ok = sym.And(ok, !r.Live, r.O0.Eq(zero), r.O1.Eq(zero))
	}
	return ok
}

func (d *Desk) covered(p, a, b, liq, c0, c1 sym.Z) {
	if d.loose {
		return
	}
	for _, s := range d.sized {
		same := sym.And(s.p.Eq(p), s.a.Eq(a), s.b.Eq(b), liq.Le(s.liq))
		sym.Assume(sym.Implies(same, sym.And(c0.Le(s.a0), c1.Le(s.a1))))
	}
}

// Worth is the rounded-down value of liq on [a,b] at price p.
func (d *Desk) Worth(p, a, b, liq sym.Z) (sym.Z, sym.Z) {
	var ks []bool
	for _, o := range d.worths {
		same := sym.And(o.p.Eq(p), o.a.Eq(a), o.b.Eq(b), o.liq.Eq(liq))
		if sym.Known(same) {
			return o.w0, o.w1
		}
		ks = append(ks, same)
	}
	w0, w1 := sym.ZR("worth0", zero, big), sym.ZR("worth1", zero, big)
	for i, o := range d.worths {
		w0, w1 = sym.Ite(ks[i], o.w0, w0), sym.Ite(ks[i], o.w1, w1)
	}
	d.covered(p, a, b, liq, w0, w1)
	d.worths = append(d.worths, worth{p, a, b, liq, w0, w1})
	return w0, w1
}

func (d *Desk) install() {
	sym.Stand("MintStrategy", func(p *pool.Pool, lo, hi int, amt *ui.Int) (*ui.Int, *ui.Int) {
		d.touch()
		l := sym.Of(amt)
		if !d.loose && !sym.And(l.Gt(zero), l.Lt(sym.P2(255))) {
			panic("amount must be greater than zero")
		}
		if !d.loose && !sym.And(lo < hi, lo >= -MaxT, hi <= MaxT) {
			panic("tick range")
		}
		c0, c1 := sym.ZR("charge0", zero, big), sym.ZR("charge1", zero, big)
		d.covered(sym.Of(p.SqrtRatioX96), sym.SqrtRatio(lo), sym.SqrtRatio(hi), l, c0, c1)
		d.H0, d.H1 = d.H0.Sub(c0), d.H1.Sub(c1)
		d.Recs = append(d.Recs, &Rec{Lo: lo, Hi: hi, Liq: l, Live: true, O0: zero, O1: zero, A0: d.H0, A1: d.H1})
		return sym.ToU256(c0), sym.ToU256(c1)
	})
	sym.Stand("BurnStrategy", func(p *pool.Pool, lo, hi int, amt *ui.Int) (*ui.Int, *ui.Int) {
		d.Calls++
		l := sym.Of(amt)
		for _, r := range d.Recs {
			if r.Live && (d.loose || sym.And(r.Lo == lo, r.Hi == hi, r.Liq.Eq(l))) {
				p0, p1 := sym.ZR("paid0", zero, big), sym.ZR("paid1", zero, big)
				r.Live = false
				r.O0 = p0.Add(sym.ZR("earned0", zero, big))
				r.O1 = p1.Add(sym.ZR("earned1", zero, big))
				return sym.ToU256(p0), sym.ToU256(p1)
			}
		}
		d.Alien = true
		return ui.NewInt(0), ui.NewInt(0)
	})
	sym.Stand("CollectStrategy", func(p *pool.Pool, lo, hi int) (*ui.Int, *ui.Int) {
		d.Calls++
		o0, o1 := zero, zero
		known := false
		for _, r := range d.Recs {
			hit := sym.And(r.Lo == lo, r.Hi == hi)
			known = sym.Or(known, hit)
			o0, o1 = o0.Add(sym.Ite(hit, r.O0, zero)), o1.Add(sym.Ite(hit, r.O1, zero))
			r.O0, r.O1 = sym.Ite(hit, zero, r.O0), sym.Ite(hit, zero, r.O1)
		}
		if !d.loose && !known {
			panic("no such position")
		}
		d.H0, d.H1 = d.H0.Add(o0), d.H1.Add(o1)
		return sym.ToU256(o0), sym.ToU256(o1)
	})
	sym.Stand("ExactInputSwap", func(p *pool.Pool, amt *ui.Int, token string, limit *ui.Int) (*ui.Int, *ui.Int) {
		d.touch()
		a := sym.Of(amt)
		if !d.loose && !sym.And(a.Gt(zero), a.Lt(sym.P2(255))) {
			panic("amount must be positive")
		}
		in, out := sym.ZR("swapin", sym.I(1), sym.P2(255)), sym.ZR("swapout", zero, big)
		if !d.loose {
			sym.Assume(in.Le(a))
		}
		sw := Swap{Token0: token == p.Token0, Amt: a, P: sym.Of(p.SqrtRatioX96), B0: d.H0, B1: d.H1}
		p.TickCurrent, p.SqrtRatioX96 = d.spot()
		if token == p.Token0 {
			d.H0, d.H1 = d.H0.Sub(in), d.H1.Add(out)
			sw.A0, sw.A1 = d.H0, d.H1
			d.Swaps = append(d.Swaps, sw)
			return sym.ToU256(in), sym.ToU256(out.Neg())
		}
		d.H0, d.H1 = d.H0.Add(out), d.H1.Sub(in)
		sw.A0, sw.A1 = d.H0, d.H1
		d.Swaps = append(d.Swaps, sw)
		return sym.ToU256(out.Neg()), sym.ToU256(in)
	})
	sym.Stand("GetLiquidityForAmount", func(p, a, b, a0, a1 *ui.Int) *ui.Int {
		if d.loose {
			return sym.ToU256(sym.ZR("sized", zero, sym.P2(127)))
		}
		P, A, B, x, y := sym.Of(p), sym.Of(a), sym.Of(b), sym.Of(a0), sym.Of(a1)
		if A.Gt(B) {
			A, B = B, A
		}
		if A.Eq(B) {
			// an empty range divides by zero unless there is nothing to divide
			if !sym.Or(sym.And(P.Le(A), x.Eq(zero)), sym.And(P.Gt(A), y.Eq(zero))) {
				panic("empty range")
			}
			return ui.NewInt(0)
		}
		l := sym.ZR("sized", zero, sym.P2(127))
		if len(d.sized) == 0 && d.Half > 0 {
			sym.Assume(l.Eq(zero) == (d.Half == 1))
		}
		d.sized = append(d.sized, sizing{P, A, B, l, x, y})
		return sym.ToU256(l)
	})
	sym.Stand("GetAmountsForLiquidity", func(p, a, b, liq *ui.Int) (*ui.Int, *ui.Int) {
		P, A, B := sym.Of(p), sym.Of(a), sym.Of(b)
		if d.loose {
			return sym.ToU256(sym.ZR("worth0", zero, big)), sym.ToU256(sym.ZR("worth1", zero, big))
		}
		if A.Gt(B) {
			A, B = B, A
		}
		x, y := d.Worth(P, A, B, sym.Of(liq))
		return sym.ToU256(x), sym.ToU256(y)
	})
	sym.Stand("Average", func(h *prices.Prices) *ui.Int {
		if d.avg == nil {
			d.history()
		}
		return d.avg.Clone()
	})
	sym.Stand("Volatility", func(h *prices.Prices) *ui.Int {
		if d.vol == nil {
			d.history()
		}
		return d.vol.Clone()
	})
	if d.loose {
		sym.Stand("Sqrt", func(z, x *ui.Int) *ui.Int { return z.Set(sym.U256R("root", zero, sym.P2(115))) })
	}
	sym.Replace("Round", func(x, u int) int {
		r := sym.Int("round", -20000, 20000)
		if d.loose {
			return r * u
		}
		sym.Assume(r*u >= -MaxT)
		sym.Assume(r*u <= MaxT)
		e := 2 * (r*u - x)
		sym.Assume(sym.Or(sym.And(-u < e, e < u), sym.And(x > 0, e == u), sym.And(x < 0, e == -u)))
		return r * u
	})
	sym.Replace("Ceil", func(x, u int) int {
		r := sym.Int("ceil", -100000, 100000)
		if d.loose {
			return r * u
		}
		sym.Assume(sym.And(r*u >= x, r*u < x+u))
		return r * u
	})
	sym.Replace("Floor", func(x, u int) int {
		r := sym.Int("floor", -100000, 100000)
		if d.loose {
			return r * u
		}
		sym.Assume(sym.And(r*u <= x, r*u > x-u))
		return r * u
	})
}

// history is any price history whose average and spread leave a range that
// reaches the tick limits at most.
func (d *Desk) history() {
	hi := sym.P2(230).Sub(sym.I(1))
	d.avg, d.vol = sym.U256R("average", zero, hi), sym.U256R("volatility", zero, hi)
	sym.Assume(sym.Of(d.avg).Ge(ref.MinR().Mul(ref.MinR())))
	if d.Kind == 5 {
		sym.Assume(sym.And(sym.Of(d.avg).Ge(sym.SqrtRatio(-midT).Mul(sym.SqrtRatio(-midT)))))
	}
}

// Balanced reports that the holdings are what the books say.
func (d *Desk) Balanced() bool {
	a, b := d.Held()
	return sym.And(sym.Of(a).Eq(d.H0), sym.Of(b).Eq(d.H1))
}

var _ = la.GetAmountsForLiquidity
var _ = tickmath.MinTick
