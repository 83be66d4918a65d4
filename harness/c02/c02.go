// Package c02: 256-bit arithmetic is exact modulo 2^256 under every aliasing
// of destination and operands.
package c02

import (
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

type op2 struct {
	z, x, y    *ui.Int
	X, Y       Z
	zx, zy, xy bool // z is x, z is y, x is y
}

// alias2 builds destination and operands in one of the five aliasing patterns.
func alias2() op2 {
	var o op2
	o.x = sym.U256W("x")
	switch sym.Choose("alias", 5) {
	case 0:
		o.y, o.z = sym.U256W("y"), sym.U256W("z")
	case 1:
		o.y, o.z, o.zx = sym.U256W("y"), o.x, true
	case 2:
		o.y = sym.U256W("y")
		o.z, o.zy = o.y, true
	case 3:
		o.y, o.z, o.xy = o.x, sym.U256W("z"), true
	default:
		o.y, o.z, o.zx, o.zy, o.xy = o.x, o.x, true, true, true
	}
	o.X, o.Y = sym.Of(o.x), sym.Of(o.y)
	return o
}

func (o op2) done(r *ui.Int, want Z, op string) {
	sym.Assert(sym.Of(o.z).Eq(want), op+".value")
	sym.Assert(r == o.z, op+".returns-destination")
	if !o.zx {
		sym.Assert(sym.Of(o.x).Eq(o.X), op+".x-unchanged")
	}
	if !o.zy {
		sym.Assert(sym.Of(o.y).Eq(o.Y), op+".y-unchanged")
	}
	sym.Probe("r", sym.Of(o.z))
	sym.Reach("done")
}

type op1 struct {
	z, x *ui.Int
	X    Z
	al   bool
}

func alias1() op1 {
	var o op1
	o.x = sym.U256W("x")
	if sym.Choose("alias", 2) == 0 {
		o.z = sym.U256W("z")
	} else {
		o.z, o.al = o.x, true
	}
	o.X = sym.Of(o.x)
	return o
}

func (o op1) done(r *ui.Int, want Z, op string) {
	sym.Assert(sym.Of(o.z).Eq(want), op+".value")
	sym.Assert(r == o.z, op+".returns-destination")
	if !o.al {
		sym.Assert(sym.Of(o.x).Eq(o.X), op+".x-unchanged")
	}
	sym.Probe("r", sym.Of(o.z))
	sym.Reach("done")
}

func m256(z Z) Z { return z.ModN(256) }

func H_add() {
	o := alias2()
	o.done(o.z.Add(o.x, o.y), m256(o.X.Add(o.Y)), "Add")
}

func H_sub() {
	o := alias2()
	o.done(o.z.Sub(o.x, o.y), m256(o.X.Sub(o.Y)), "Sub")
}

func H_addOverflow() {
	o := alias2()
	r, ov := o.z.AddOverflow(o.x, o.y)
	sym.Assert(sym.Iff(ov, o.X.Add(o.Y).Ge(sym.P2(256))), "AddOverflow.flag")
	o.done(r, m256(o.X.Add(o.Y)), "AddOverflow")
}

func H_subOverflow() {
	o := alias2()
	r, ov := o.z.SubOverflow(o.x, o.y)
	sym.Assert(sym.Iff(ov, o.X.Lt(o.Y)), "SubOverflow.flag")
	o.done(r, m256(o.X.Sub(o.Y)), "SubOverflow")
}

func H_addUint64() {
	o := alias1()
	y := sym.U64("y")
	o.done(o.z.AddUint64(o.x, y), m256(o.X.Add(sym.OfU64(y))), "AddUint64")
}

func H_subUint64() {
	o := alias1()
	y := sym.U64("y")
	o.done(o.z.SubUint64(o.x, y), m256(o.X.Sub(sym.OfU64(y))), "SubUint64")
}

func H_neg() {
	o := alias1()
	o.done(o.z.Neg(o.x), m256(o.X.Neg()), "Neg")
}

func H_abs() {
	o := alias1()
	o.done(o.z.Abs(o.x), sym.Ite(o.X.Lt(sym.P2(255)), o.X, sym.P2(256).Sub(o.X)), "Abs")
}

func H_mul() {
	o := alias2()
	o.done(o.z.Mul(o.x, o.y), m256(o.X.Mul(o.Y)), "Mul")
}

func H_mulOverflow() {
	o := alias2()
	r, ov := o.z.MulOverflow(o.x, o.y)
	p := o.X.Mul(o.Y)
	sym.Assert(sym.Iff(ov, p.Ge(sym.P2(256))), "MulOverflow.flag")
	o.done(r, m256(p), "MulOverflow")
}

func H_umul() {
	x := sym.U256W("x")
	y := x
	if sym.Choose("alias", 2) == 0 {
		y = sym.U256W("y")
	}
	X, Y := sym.Of(x), sym.Of(y)
	p := ui.Umul(x, y)
	s := sym.I(0)
	for i := 0; i < 8; i++ {
		s = s.Add(sym.OfU64(p[i]).Mul(sym.P2(64 * i)))
	}
	sym.Assert(s.Eq(X.Mul(Y)), "Umul.value")
	sym.Assert(sym.And(sym.Of(x).Eq(X), sym.Of(y).Eq(Y)), "Umul.operands-unchanged")
	sym.Reach("done")
}

func H_div() {
	sym.Contracts("udivrem")
	o := alias2()
	zero := sym.Split(o.Y.Eq(sym.I(0)))
	w := sym.I(0)
	if !zero {
		w = o.X.Div(o.Y)
	}
	o.done(o.z.Div(o.x, o.y), w, "Div")
}

func H_mod() {
	sym.Contracts("udivrem")
	o := alias2()
	zero := sym.Split(o.Y.Eq(sym.I(0)))
	w := sym.I(0)
	if !zero {
		w = o.X.Mod(o.Y)
	}
	o.done(o.z.Mod(o.x, o.y), w, "Mod")
}

func H_sdiv() {
	sym.Contracts("udivrem")
	o := alias2()
	x, y := sym.OfS(o.x), sym.OfS(o.y)
	xn, yn := sym.Split(x.Lt(sym.I(0))), sym.Split(y.Lt(sym.I(0)))
	zero := sym.Split(y.Eq(sym.I(0)))
	w := sym.I(0)
	if !zero {
		ax, ay := x, y
		if xn {
			ax = x.Neg()
		}
		if yn {
			ay = y.Neg()
		}
		w = ax.Div(ay)
		if xn != yn {
			w = w.Neg()
		}
	}
	o.done(o.z.SDiv(o.x, o.y), m256(w), "SDiv")
}

func H_smod() {
	sym.Contracts("udivrem")
	o := alias2()
	x, y := sym.OfS(o.x), sym.OfS(o.y)
	xn, yn := sym.Split(x.Lt(sym.I(0))), sym.Split(y.Lt(sym.I(0)))
	zero := sym.Split(y.Eq(sym.I(0)))
	w := sym.I(0)
	if !zero {
		ax, ay := x, y
		if xn {
			ax = x.Neg()
		}
		if yn {
			ay = y.Neg()
		}
		w = ax.Mod(ay)
		if xn {
			w = w.Neg()
		}
	}
	o.done(o.z.SMod(o.x, o.y), m256(w), "SMod")
}
