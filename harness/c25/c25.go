// Package c25: square root, powers and modular operations are exact.
package c25

import (
	"math/big"

	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

var one, two = sym.I(1), sym.I(2)

// pick returns x, y, m and the destination under one of the ways they can
// share storage.
func pick(alias int, x, y, m *ui.Int) (z *ui.Int) {
	switch alias {
	case 1:
		return x
	case 2:
		return y
	case 3:
		return m
	}
	return new(ui.Int)
}

// H_sqrt: Newton's iteration, by the invariant that the estimate is never
// below the root.
func H_sqrt() {
	sym.Contracts("uint256")
	x := sym.U256("x")
	k := sym.Shard(8)
	X := sym.Of(x)
	lo, hi := sym.P2(32*k), sym.P2(32*k+32)
	if k == 0 {
		lo = sym.I(0)
	}
	sym.Assume(sym.And(lo.Le(X), X.Lt(hi)))
	sym.Loop("Sqrt", 2, func(phase int, old, now []Z) {
		e := now[0]
		up := e.Add(one).Mul(e.Add(one)).Gt(X)
		size := sym.And(one.Le(e), e.Le(sym.P2(128)))
		switch phase {
		case 0:
			sym.Lemma(size, "sqrt.start-size")
			sym.Lemma(up, "sqrt.start")
		case 1:
			sym.Assume(size)
			sym.Assume(up)
			// the quotient is near the estimate
			q := X.Div(e)
			sym.Lemma(q.Mul(e).Le(X), "sqrt.quotient")
			sym.Lemma(q.Mul(e).Lt(e.Add(one).Mul(e.Add(one))), "sqrt.quotient-small")
			sym.Lemma(q.Le(e.Add(sym.I(3))), "sqrt.quotient-near")
		case 2:
			o := old[0]
			q := X.Div(o)
			s := o.Add(q)
			sym.Lemma(e.Eq(s.Div(two)), "sqrt.step")
			sym.Assert(e.Lt(o), "sqrt-ends")
			sym.Lemma(size, "sqrt.size")
			d := o.Sub(q.Add(one))
			sym.Lemma(d.Mul(d).Ge(sym.I(0)), "sqrt.square")
			t := s.Add(one)
			sym.Lemma(t.Mul(t).Ge(sym.I(4).Mul(o.Mul(q.Add(one)))), "sqrt.mean")
			sym.Lemma(o.Mul(q.Add(one)).Gt(X), "sqrt.next-quotient")
			sym.Lemma(t.Le(two.Mul(e.Add(one))), "sqrt.half")
			f := two.Mul(e.Add(one))
			sym.Lemma(f.Mul(f).Ge(t.Mul(t)), "sqrt.half-square")
			sym.Lemma(up, "sqrt.above")
		}
	})
	z := new(ui.Int)
	r := z.Sqrt(x)
	sym.Assert(r == z, "sqrt.returns-receiver")
	R := sym.Of(z)
	sym.Assert(R.Mul(R).Le(X), "sqrt.low")
	sym.Assert(R.Add(one).Mul(R.Add(one)).Gt(X), "sqrt.high")
	sym.Assert(sym.Of(x).Eq(X), "sqrt.argument-kept")
	sym.Reach("done")
}

// H_addmod and H_mulmod: any operands; the destination may be any of them.
func H_addmod() {
	sym.Contracts("uint256 udivrem")
	x, y, m := sym.U256("x"), sym.U256("y"), sym.U256("m")
	z := pick(sym.Shard(4), x, y, m)
	X, Y, M := sym.Of(x), sym.Of(y), sym.Of(m)
	S := X.Add(Y)
	r := z.AddMod(x, y, m)
	sym.Assert(r == z, "addmod.returns-receiver")
	R := sym.Of(z)
	if M.Eq(sym.I(0)) {
		sym.Assert(R.Eq(sym.I(0)), "addmod.zero")
	} else {
		sym.Assert(R.Lt(M), "addmod.range")
		sym.Assert(sym.Or(R.Eq(S.Mod(M)), R.Eq(S), R.Eq(S.Sub(M)), R.Eq(S.Sub(M).Sub(M)), R.Eq(S.Sub(M.Mul(sym.I(3))))), "addmod.congruent")
	}
	sym.Reach("done")
}

func H_mulmod() {
	sym.Contracts("uint256 umul udivrem")
	x, y, m := sym.U256("x"), sym.U256("y"), sym.U256R("m", sym.I(0), sym.P2(192).Sub(one))
	z := pick(sym.Shard(4), x, y, m)
	X, Y, M := sym.Of(x), sym.Of(y), sym.Of(m)
	r := z.MulMod(x, y, m)
	sym.Assert(r == z, "mulmod.returns-receiver")
	R := sym.Of(z)
	if M.Eq(sym.I(0)) {
		sym.Assert(R.Eq(sym.I(0)), "mulmod.zero")
	} else {
		sym.Assert(R.Eq(X.Mul(Y).Mod(M)), "mulmod")
	}
	sym.Reach("done")
}

// H_square: raising to the second power.
func H_square() {
	x := sym.U256W("x")
	X := sym.Of(x)
	z := new(ui.Int).Exp(x, ui.NewInt(2))
	sym.Assert(sym.Of(z).Eq(X.Mul(X).Mod(sym.P2(256))), "exp.square")
	sym.Assert(sym.Of(x).Eq(X), "exp.argument-kept")
	sym.Reach("done")
}

// H_power: the result is the base multiplied by itself as often as the
// exponent says. Exp only multiplies, so the products are counted: a number
// stands for one more than its count, 2 for the base itself, and a
// multiplication adds the counts. Replayed on the real multiplication.
func H_power() {
	k := sym.Shard(8)
	E := sym.I(0)
	for i := 0; i < 32*k+32; i++ {
		E = E.Add(sym.OfInt(sym.Int("bit", 0, 1)).Mul(sym.P2(i)))
	}
	if k > 0 {
		sym.Assume(E.Ge(sym.P2(32 * k)))
	}
	e := sym.ToU256(E)
	sym.Merge(true)
	z := new(ui.Int)
	if sym.Native() {
		want := new(big.Int).Exp(big.NewInt(3), e.ToBig(), new(big.Int).Lsh(big.NewInt(1), 256))
		z.Exp(ui.NewInt(3), e)
		sym.Assert(sym.Of(z).Eq(sym.OfBig(want)), "exp.power")
	} else {
		count := func(z, x, y *ui.Int) *ui.Int {
			return z.Set(sym.ToU256(sym.Of(x).Add(sym.Of(y)).Sub(one)))
		}
		sym.Replace("(*uniswap-simulator/uint256.Int).Mul", count)
		sym.Replace("(*uniswap-simulator/uint256.Int).squared", func(z *ui.Int) { count(z, z, z) })
		z.Exp(ui.NewInt(2), e)
		sym.Assert(sym.Of(z).Eq(E.Add(one).Mod(sym.P2(256))), "exp.power")
	}
	sym.Assert(sym.Of(e).Eq(E), "exp.exponent-kept")
	sym.Reach("done")
}
