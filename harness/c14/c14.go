package c14

import (
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/position"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/ref"
	"uniswap-simulator/zzverif/sym"
	"uniswap-simulator/zzverif/world"
)

const maxT = world.MaxT

// populated builds a pool with three ticks and two recorded positions.
func populated() *world.World {
	ts := world.Ticks(3, 1)
	w := world.New(ts, 3000)
	p := w.P
	l1 := sym.U256R("pl1", sym.I(1), sym.P2(120))
	l2 := sym.U256R("pl2", sym.I(1), sym.P2(120))
	p.MintStrategy(ts[0], ts[2], l1)
	p.MintStrategy(ts[0], ts[1], l2)
	i := 0
	for _, v := range p.Positions {
		n := []string{"x", "y"}[i]
		i++
		v.TokensOwed0.Set(sym.U256("owed0" + n))
		v.TokensOwed1.Set(sym.U256("owed1" + n))
		v.FeeGrowthInside0LastX128 = sym.U256("last0" + n)
		v.FeeGrowthInside1LastX128 = sym.U256("last1" + n)
	}
	return w
}

// H_position: a cloned position has every field of the original and shares
// nothing with it.
func H_position() {
	sym.Contracts("uint256 fullmath")
	i := &position.Info{Liquidity: sym.U256R("l", sym.I(0), sym.P2(128)), FeeGrowthInside0LastX128: sym.U256("f0"), FeeGrowthInside1LastX128: sym.U256("f1"),
		TokensOwed0: sym.U256("o0"), TokensOwed1: sym.U256("o1")}
	c := i.Clone()
	s := sym.Snap(i)
	sym.Assert(sym.Same(s, sym.Snap(c)), "equal")
	scramble := func(x *position.Info) {
		d := sym.U256("d")
		x.Update(d, sym.U256("g0"), sym.U256("g1"))
		for _, v := range []*ui.Int{x.Liquidity, x.FeeGrowthInside0LastX128, x.FeeGrowthInside1LastX128, x.TokensOwed0, x.TokensOwed1} {
			v.Set(sym.U256("z"))
		}
	}
	if sym.Bool("orig") {
		scramble(i)
		sym.Assert(sym.Same(s, sym.Snap(c)), "clone-unaffected")
	} else {
		scramble(c)
		sym.Assert(sym.Same(s, sym.Snap(i)), "original-unaffected")
	}
	sym.Reach("done")
}

func operate(p *pool.Pool, w *world.World, op int) {
	amt := sym.U256R("amt", sym.I(1), sym.P2(120))
	lo, up := w.T[0].I, w.T[2].I
	switch op {
	case 0:
		p.MintStrategy(lo, up, amt)
	case 1:
		sym.Assume(sym.Of(amt).Le(w.R[0][2]))
		p.BurnStrategy(lo, up, amt)
	case 2:
		sym.Assume(sym.Of(amt).Le(w.R[0][1]))
		p.Burn(lo, w.T[1].I, amt)
	case 3:
		p.Flash(amt, sym.U256R("amt1", sym.I(0), sym.P2(120)))
	case 4:
		p.CollectStrategy(lo, up)
	case 5:
		n := sym.Int("newtick", -maxT, maxT)
		sym.Assume(sym.And(lo < n, n < up))
		p.Mint(lo, n, amt)
	}
}

// H_ops: no operation on the pool or on its clone is visible in the other.
func H_ops() {
	sym.Contracts("uint256 fullmath tick")
	w := populated()
	p := w.P
	op := sym.Shard(6)
	s := sym.Snap(p)
	c := p.Clone()
	sym.Assert(sym.Same(s, sym.Snap(c)), "equal")
	sym.Assert(sym.Same(s, sym.Snap(p)), "original-untouched")
	if op == 3 {
		sym.Assume(w.L.Gt(sym.I(0)))
	}
	if sym.Bool("orig") {
		operate(p, w, op)
		sym.Assert(sym.Same(s, sym.Snap(c)), "clone-unaffected")
	} else {
		operate(c, w, op)
		sym.Assert(sym.Same(s, sym.Snap(p)), "original-unaffected")
	}
	sym.Reach("done")
}

// H_swap: a swap that crosses ticks.
func H_swap() {
	sym.Contracts("uint256 fullmath tick step")
	ts := world.Ticks(2, 60)
	sym.Assume(ts[1]-ts[0] < 60*256)
	w := world.New(ts, 3000)
	p := w.P
	sym.Unwind(3)
	zfo := sym.Shard(2) == 1
	s := sym.Snap(p)
	c := p.Clone()
	a := sym.ZR("amt", sym.I(1), sym.P2(100))
	lim := sym.U256R("limit", ref.MinR().Add(sym.I(1)), ref.MaxR().Sub(sym.I(1)))
	sym.Assume(zfo == sym.Of(lim).Lt(w.Sq))
	sym.Assume(sym.Of(lim).Ne(w.Sq))
	tok := "B"
	if zfo {
		tok = "A"
	}
	if sym.Bool("orig") {
		p.ExactInputSwap(sym.ToU256(a), tok, lim)
		sym.Assert(sym.Same(s, sym.Snap(c)), "clone-unaffected")
	} else {
		c.ExactInputSwap(sym.ToU256(a), tok, lim)
		sym.Assert(sym.Same(s, sym.Snap(p)), "original-unaffected")
	}
	sym.Reach("done")
}
