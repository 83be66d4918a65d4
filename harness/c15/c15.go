package c15

import (
	cons "uniswap-simulator/lib/constants"
	"uniswap-simulator/lib/fullmath"
	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/prices"
	"uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/swapmath"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/desk"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

var zero = sym.I(0)

// constants are the numbers the packages share.
func constants() []*ui.Int {
	return []*ui.Int{cons.NegativeOne, cons.Zero, cons.One, cons.MaxUint256, cons.Q128, cons.Q96, cons.Q192, cons.E6, cons.E18,
		tickmath.Q32, tickmath.MinSqrtRatio, tickmath.MaxSqrtRatio, swapmath.MaxFee, sqrtprice_math.MaxUint160}
}

// purse holds numbers that belong to someone else, with their values.
type purse struct {
	x []*ui.Int
	v []sym.Z
}

func (p *purse) put(x *ui.Int) *ui.Int {
	p.x = append(p.x, x)
	p.v = append(p.v, sym.Of(x))
	return x
}

func lent() *purse {
	p := &purse{}
	for _, c := range constants() {
		p.put(c)
	}
	return p
}

func (p *purse) intact() bool {
	ok := true
	for i, x := range p.x {
		ok = sym.And(ok, sym.Of(x).Eq(p.v[i]))
	}
	return ok
}

var table = []int{500, 10, 3000, 60, 10000, 200}

func spacings() bool {
	ok := len(cons.TickSpaces) == len(table)/2
	for i := 0; i < len(table); i += 2 {
		ok = sym.And(ok, cons.TickSpaces[table[i]] == table[i+1])
	}
	return ok
}

// own overwrites results: nothing else may notice.
func own(rs ...*ui.Int) {
	for _, r := range rs {
		if r != nil {
			r.Set(sym.U256("overwrite"))
		}
	}
}

// bench is a pool grown from NewPool, and what it was given.
type bench struct {
	*purse
	p      *pool.Pool
	lo, up int
	l      sym.Z // liquidity of the position
	b      sym.Z // liquidity recorded without a position
}

func open(fee int, ts []int) *bench {
	x := &bench{purse: lent(), b: zero}
	t := sym.Int("tick", -world.MaxT, world.MaxT-1)
	sq := x.put(sym.U256R("price", ref.MinR(), ref.MaxR().Sub(sym.I(1))))
	sym.Assume(sym.And(sym.SqrtRatio(t).Le(sym.Of(sq)), sym.Of(sq).Lt(sym.SqrtRatio(t+1))))
	x.p = pool.NewPool("A", "B", fee, sq)
	x.p.TickCurrent = t
	x.lo, x.up = ts[0], ts[1]
	l := x.put(sym.U256R("liq", sym.I(1), sym.P2(100)))
	x.l = sym.Of(l)
	x.done(x.p.MintStrategy(x.lo, x.up, l))
	return x
}

// done checks after an operation that gave rs.
func (x *bench) done(rs ...*ui.Int) {
	sym.Assert(x.intact(), "intact")
	s := sym.Snap(x.p)
	own(rs...)
	sym.Assert(sym.Same(s, sym.Snap(x.p)), "result-shared")
	sym.Assert(x.intact(), "intact-result")
}

const ops = 6

func (x *bench) operate(op int) bool {
	p := x.p
	amt := x.put(sym.U256R("amt", sym.I(1), sym.P2(100)))
	switch op {
	case 0:
		x.done(p.MintStrategy(x.lo, x.up, amt))
		x.l = x.l.Add(sym.Of(amt))
	case 1:
		sym.Assume(sym.Of(amt).Le(x.l))
		x.done(p.BurnStrategy(x.lo, x.up, amt))
		x.l = x.l.Sub(sym.Of(amt))
	case 2:
		x.done(p.CollectStrategy(x.lo, x.up))
	case 3:
		p.Mint(x.lo, x.up, amt)
		x.b = x.b.Add(sym.Of(amt))
		x.done()
	case 4:
		sym.Assume(sym.Of(amt).Le(x.b))
		p.Burn(x.lo, x.up, amt)
		x.b = x.b.Sub(sym.Of(amt))
		x.done()
	case 5:
		sym.Assume(sym.And(x.lo <= p.TickCurrent, p.TickCurrent < x.up, x.l.Add(x.b).Gt(zero)))
		q, r := sym.Snap(p.Positions), sym.Snap(p.TickData)
		p.Flash(amt, x.put(sym.U256R("amt1", zero, sym.P2(100))))
		x.done()
		sym.Assert(sym.And(sym.Same(q, sym.Snap(p.Positions)), sym.Same(r, sym.Snap(p.TickData))), "records-shared")
	}
	return true
}

// H_books: two liquidity operations on a new pool with one position.
func H_books() {
	sym.Contracts("uint256 fullmath tick")
	i := sym.Shard(ops * ops)
	x := open(3000, world.Ticks(2, 60))
	x.operate(i / ops)
	x.operate(i % ops)
	sym.Reach("done")
}

// H_swap: a swap of either kind and direction, with and without a limit, and a
// liquidity operation afterwards.
func H_swap() {
	sym.Contracts("uint256 fullmath tick step")
	sym.Unwind(3)
	i := sym.Shard(8)
	// near the end of the range, where a swap without limit stops soon
	at := []int{887220 - 1200, 887220}
	if i&1 == 1 {
		at = []int{-887220, -887220 + 1200}
	}
	x := open(3000, at)
	sym.Assume(sym.And(x.lo <= x.p.TickCurrent, x.p.TickCurrent < x.up))
	var lim *ui.Int
	zfo := i&1 == 1
	if i&2 == 0 {
		lim = cons.Zero
	} else {
		lim = x.put(sym.U256R("limit", ref.MinR().Add(sym.I(1)), ref.MaxR().Sub(sym.I(1))))
		sym.Assume(sym.Of(lim).Ne(sym.Of(x.p.SqrtRatioX96)))
		sym.Assume(zfo == sym.Of(lim).Lt(sym.Of(x.p.SqrtRatioX96)))
	}
	amt := x.put(sym.U256R("given", sym.I(1), sym.P2(100)))
	var a, b *ui.Int
	if i&4 == 0 {
		tok := "B"
		if zfo {
			tok = "A"
		}
		a, b = x.p.ExactInputSwap(amt, tok, lim)
	} else {
		tok := "A"
		if zfo {
			tok = "B"
		}
		a, b = x.p.ExactOutputSwap(amt, tok, lim)
	}
	x.done(a, b)
	x.done(x.p.BurnStrategy(x.lo, x.up, x.put(sym.ToU256(x.l))))
	sym.Reach("done")
}

// H_math: the numeric helpers leave their arguments and the constants alone,
// and what they return is new.
func H_math() {
	sym.Contracts("uint256 fullmath")
	x := lent()
	hi := ref.MaxR().Sub(sym.I(1))
	p, a, b := x.put(sym.U256R("p", ref.MinR(), hi)), x.put(sym.U256R("a", ref.MinR(), hi)), x.put(sym.U256R("b", ref.MinR(), hi))
	l := x.put(sym.U256R("l", sym.I(1), sym.P2(100)))
	m, n := x.put(sym.U256R("m", zero, sym.P2(100))), x.put(sym.U256R("n", zero, sym.P2(100)))
	sym.Assume(sym.Of(a).Ne(sym.Of(b)))
	up := sym.Choose("up", 2) == 1
	k := sym.Shard(10)
	if k > 0 {
		// any quotient will do: only the identity of numbers matters here
		quotient := func(a, b, d *ui.Int) *ui.Int { return sym.U256R("quotient", zero, sym.P2(160).Sub(sym.I(1))) }
		sym.Stand("MulDiv", quotient)
		sym.Stand("MulDivRoundingUp", quotient)
	}
	var rs []*ui.Int
	add := func(r ...*ui.Int) { rs = append(rs, r...) }
	panicked := sym.Try(func() {
		switch k {
		case 0:
			add(fullmath.MulDiv(m, n, l), fullmath.MulDivRoundingUp(m, n, l))
		case 1:
			add(sqrtprice_math.GetAmount0Delta(a, b, l, up), sqrtprice_math.GetAmount1Delta(a, b, l, up))
		case 2:
			add(sqrtprice_math.GetAmount0DeltaRounded(a, b, l), sqrtprice_math.GetAmount1DeltaRounded(a, b, l))
			g := x.put(sym.ToU256(sym.Of(l).Neg()))
			add(sqrtprice_math.GetAmount0DeltaRounded(a, b, g), sqrtprice_math.GetAmount1DeltaRounded(a, b, g))
		case 3:
			sqrtprice_math.GetNextSqrtPriceFromInput(p, l, m, up)
		case 4:
			sqrtprice_math.GetNextSqrtPriceFromOutput(p, l, m, up)
		case 5, 6:
			v := m
			if k == 6 {
				v = x.put(sym.ToU256(sym.Of(m).Neg()))
			}
			q, i, o, f := swapmath.ComputeSwapStep(p, a, l, v, 3000)
			_ = q
			add(i, o, f)
		case 7:
			add(la.GetLiquidityForAmount(p, a, b, m, n))
		case 8:
			r, s := la.GetAmountsForLiquidity(p, a, b, l)
			add(r, s)
		case 9:
			h := prices.NewPrices(2)
			c := x.put(sym.U256R("c", zero, sym.P2(110)))
			h.Add(c)
			h.Add(c)
			v := h.Average()
			w := sym.Of(v)
			own(v)
			sym.Assert(sym.Of(h.Average()).Eq(w), "statistics-shared")
		}
	})
	if panicked {
		return // C06, C07, C16
	}
	sym.Assert(x.intact(), "intact")
	for i, r := range rs {
		keep := make([]sym.Z, len(rs))
		for j, s := range rs {
			keep[j] = sym.Of(s)
		}
		own(r)
		sym.Assert(x.intact(), "result-shared")
		for j, s := range rs {
			if j != i {
				sym.Assert(sym.Of(s).Eq(keep[j]), "results-shared")
			}
		}
	}
	sym.Reach("done")
}

// H_fresh: a new pool owes nothing to the constants and its price belongs to
// the caller.
func H_fresh() {
	sym.Contracts("uint256 fullmath tick")
	x := lent()
	sq := x.put(sym.U256R("price", ref.MinR(), ref.MaxR().Sub(sym.I(1))))
	p := pool.NewPool("A", "B", []int{500, 3000, 10000}[sym.Choose("fee", 3)], sq)
	sym.Assert(x.intact(), "intact")
	q := p.Clone()
	own(p.Liquidity, p.FeeGrowthGlobal0X128)
	own(p.FeeGrowthGlobal1X128)
	sym.Assert(x.intact(), "constant-shared")
	own(q.Liquidity, q.FeeGrowthGlobal0X128, q.FeeGrowthGlobal1X128, q.SqrtRatioX96)
	sym.Assert(x.intact(), "price-shared")
	sym.Assert(spacings(), "spacings")
	sym.Reach("done")
}

func strategy(kind int) {
	x := lent()
	d := desk.OpenLoose(kind, 3000)
	x.put(d.A0)
	x.put(d.A1)
	x.put(d.Src.SqrtRatioX96)
	src := sym.Snap(d.Src)
	done := func(a, b *ui.Int, name string) {
		sym.Assert(x.intact(), name+"-intact")
		s := sym.Snap(d.S)
		own(a, b)
		sym.Assert(sym.Same(s, sym.Snap(d.S)), name+"-result-shared")
		sym.Assert(x.intact(), name+"-shared")
	}
	sym.Try(func() {
		a, b := d.S.Init()
		done(a, b, "init")
		d.Move()
		if sym.Bool("skip") {
			a, b = d.S.GetAmounts()
			done(a, b, "value")
		} else {
			a, b = d.S.Rebalance()
			done(a, b, "rebalance")
		}
		a, b = d.S.BurnAll()
		done(a, b, "close")
	})
	sym.Assert(x.intact(), "intact")
	sym.Assert(sym.Same(src, sym.Snap(d.Src)), "source")
	sym.Assert(spacings(), "spacings")
	sym.Reach("done")
}

// H_strategy: a strategy works on copies of its starting amounts and of the
// pool, and hands out copies.
func H_strategy() { strategy(sym.Shard(desk.Kinds)) }
