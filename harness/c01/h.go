// Package c01: full-precision multiply-then-divide is exact.
package c01

import (
	"uniswap-simulator/lib/fullmath"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

func val(w []uint64) Z {
	s := sym.I(0)
	for i := range w {
		s = s.Add(sym.OfU64(w[i]).Mul(sym.P2(64 * i)))
	}
	return s
}

// udivrem: dividends of n words by any divisor of dl significant words.
// Every number of significant dividend words and every normalisation shift is
// a separate path; the words themselves are symbolic.
func udivrem(n int, dl int) {
	sym.Contracts("knuth")
	m64 := sym.P2(64).Sub(sym.I(1))
	s := sym.Choose("shift", 64)
	d := new(ui.Int)
	for i := 0; i < dl-1; i++ {
		d[i] = sym.U64("d")
	}
	d[dl-1] = sym.ToU64(sym.ZR("dtop", sym.P2(63-s), sym.P2(64-s).Sub(sym.I(1))))
	ul := sym.Choose("ulen", n+1)
	u := make([]uint64, n)
	for i := 0; i < ul-1; i++ {
		u[i] = sym.U64("u")
	}
	if ul > 0 {
		u[ul-1] = sym.ToU64(sym.ZR("utop", sym.I(1), m64))
	}
	U, D := val(u), sym.Of(d)
	quot := make([]uint64, n)
	r := ui.Udivrem(quot, u, d)
	R := sym.Of(&r)
	sym.Assert(R.Lt(D), "udivrem.remainder-below-divisor")
	sym.Assert(val(quot).Mul(D).Add(R).Eq(U), "udivrem.identity")
	sym.Assert(sym.And(val(u).Eq(U), sym.Of(d).Eq(D)), "udivrem.operands-unchanged")
	sym.Reach("done")
}

func H_udivrem4() { udivrem(4, 1+sym.Shard(4)) }
func H_udivrem5() { udivrem(5, 1+sym.Shard(4)) }
func H_udivrem8() { udivrem(8, 1+sym.Shard(4)) }

// H_umul: the 512-bit product.
func H_umul() {
	x, y := sym.U256W("x"), sym.U256W("y")
	p := ui.Umul(x, y)
	sym.Assert(val(p[:]).Eq(sym.Of(x).Mul(sym.Of(y))), "umul")
	sym.Reach("done")
}

func args() (a, b, d *ui.Int, N, D Z) {
	sym.Contracts("umul udivrem")
	a, b, d = sym.U256("a"), sym.U256("b"), sym.U256R("d", sym.I(1), sym.P2(256).Sub(sym.I(1)))
	N, D = sym.Of(a).Mul(sym.Of(b)), sym.Of(d)
	return
}

func H_muldiv() {
	a, b, d, N, D := args()
	A, B := sym.Of(a), sym.Of(b)
	sym.Assume(N.Lt(D.Mul(sym.P2(256))))
	r := fullmath.MulDiv(a, b, d)
	sym.Assert(sym.Of(r).Eq(N.Div(D)), "muldiv.floor")
	sym.Assert(sym.And(sym.Of(a).Eq(A), sym.Of(b).Eq(B), sym.Of(d).Eq(D)), "muldiv.operands-unchanged")
	sym.Assert(sym.And(r != a, r != b, r != d), "muldiv.fresh-result")
	sym.Reach("done")
}

func H_muldivup() {
	a, b, d, N, D := args()
	A, B := sym.Of(a), sym.Of(b)
	sym.Assume(N.CeilDiv(D).Lt(sym.P2(256)))
	sym.Assume(N.Lt(D.Mul(sym.P2(256))))
	r := fullmath.MulDivRoundingUp(a, b, d)
	sym.Assert(sym.Of(r).Eq(N.CeilDiv(D)), "muldivup.ceil")
	sym.Assert(sym.And(sym.Of(a).Eq(A), sym.Of(b).Eq(B), sym.Of(d).Eq(D)), "muldivup.operands-unchanged")
	sym.Assert(sym.And(r != a, r != b, r != d), "muldivup.fresh-result")
	sym.Reach("done")
}

// H_alias: factors and denominator may be the same objects.
func H_alias() {
	sym.Contracts("umul udivrem")
	a, b := sym.U256R("a", sym.I(1), sym.P2(256).Sub(sym.I(1))), sym.U256("b")
	A, B := sym.Of(a), sym.Of(b)
	if sym.Choose("form", 2) == 0 {
		sym.Assert(sym.Of(fullmath.MulDiv(a, b, a)).Eq(B), "muldiv.a*b/a")
	} else {
		sym.Assert(sym.Of(fullmath.MulDivRoundingUp(a, a, a)).Eq(A), "muldivup.a*a/a")
	}
	sym.Assert(sym.And(sym.Of(a).Eq(A), sym.Of(b).Eq(B)), "alias.operands-unchanged")
	sym.Reach("done")
}
