// Package c03: comparisons, shifts and bit operations on 256-bit numbers agree
// with their two's-complement definition under every aliasing.
package c03

import (
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

func pair() (x, y *ui.Int) {
	x = sym.U256W("x")
	y = x
	if sym.Choose("alias", 2) == 0 {
		y = sym.U256W("y")
	}
	return
}

// destination: fresh or the operand itself
func dest(x *ui.Int) *ui.Int {
	if sym.Choose("dst", 2) == 0 {
		return sym.U256W("z")
	}
	return x
}

func same(x *ui.Int, X Z, label string) { sym.Assert(sym.Of(x).Eq(X), label) }

func H_compare() {
	x, y := pair()
	X, Y := sym.Of(x), sym.Of(y)
	S, T := sym.OfS(x), sym.OfS(y)
	switch sym.Choose("op", 6) {
	case 0:
		sym.Assert(x.Lt(y) == X.Lt(Y), "Lt")
	case 1:
		sym.Assert(x.Gt(y) == X.Gt(Y), "Gt")
	case 2:
		sym.Assert(x.Slt(y) == S.Lt(T), "Slt")
	case 3:
		sym.Assert(x.Sgt(y) == S.Gt(T), "Sgt")
	case 4:
		sym.Assert(x.Eq(y) == X.Eq(Y), "Eq")
	default:
		r := x.Cmp(y)
		sym.Assert(sym.And(sym.Iff(r == -1, X.Lt(Y)), sym.Iff(r == 0, X.Eq(Y)), sym.Iff(r == 1, X.Gt(Y))), "Cmp")
	}
	same(x, X, "compare.x-unchanged")
	same(y, Y, "compare.y-unchanged")
	sym.Reach("done")
}

func H_small() {
	x := sym.U256W("x")
	n := sym.U64("n")
	X, N := sym.Of(x), sym.OfU64(n)
	sym.Assert(x.LtUint64(n) == X.Lt(N), "LtUint64")
	sym.Assert(x.GtUint64(n) == X.Gt(N), "GtUint64")
	sym.Assert(x.IsUint64() == X.Lt(sym.P2(64)), "IsUint64")
	sym.Assert(x.IsZero() == X.Eq(sym.I(0)), "IsZero")
	s := x.Sign()
	S := sym.OfS(x)
	sym.Assert(sym.And(sym.Iff(s == 1, S.Gt(sym.I(0))), sym.Iff(s == 0, S.Eq(sym.I(0))), sym.Iff(s == -1, S.Lt(sym.I(0)))), "Sign")
	v, of := x.Uint64WithOverflow()
	sym.Assert(sym.OfU64(v).Eq(X.ModN(64)), "Uint64WithOverflow.value")
	sym.Assert(of == X.Ge(sym.P2(64)), "Uint64WithOverflow.flag")
	sym.Assert(sym.OfU64(x.Uint64()).Eq(X.ModN(64)), "Uint64")
	same(x, X, "small.unchanged")
	c := x.Clone()
	same(c, X, "Clone")
	sym.Assert(c != x, "Clone.fresh")
	sym.Reach("done")
}

func H_set() {
	x := sym.U256W("x")
	z := dest(x)
	X := sym.Of(x)
	n := sym.U64("n")
	var r *ui.Int
	w := sym.I(0)
	switch sym.Choose("op", 6) {
	case 0:
		r, w = z.Set(x), X
	case 1:
		r, w = z.SetUint64(n), sym.OfU64(n)
	case 2:
		r = z.Clear()
	case 3:
		r, w = z.SetOne(), sym.I(1)
	case 4:
		r, w = z.SetAllOne(), sym.P2(256).Sub(sym.I(1))
	default:
		r, w = ui.NewInt(n), sym.OfU64(n)
		z = r
	}
	same(z, w, "set.value")
	sym.Assert(r == z, "set.returns-destination")
	if z != x {
		same(x, X, "set.source-unchanged")
	}
	sym.Reach("done")
}

func H_bitlen() {
	x := sym.U256W("x")
	X := sym.Of(x)
	l := x.BitLen()
	b := x.ByteLen()
	// l is a concrete number on every path: one path per length
	sym.Assert(l >= 0 && l <= 256, "BitLen.range")
	lo := sym.I(0)
	if l > 0 {
		lo = sym.P2(l - 1)
	}
	sym.Assert(sym.And(X.Ge(lo), X.Lt(sym.P2(l))), "BitLen")
	sym.Assert(b == (l+7)/8, "ByteLen")
	same(x, X, "BitLen.unchanged")
	sym.Reach("done")
}

const top = 257

func amount() (uint, Z, bool) {
	k := sym.Choose("n", top+1)
	if k < top {
		return uint(k), sym.P2(k), k >= 256
	}
	n := sym.U64("big")
	sym.Assume(n >= top)
	return uint(n), sym.I(1), true
}

func H_lsh() {
	x := sym.U256W("x")
	z := dest(x)
	X := sym.Of(x)
	n, p, over := amount()
	w := sym.I(0)
	if !over {
		w = X.Mul(p).ModN(256)
	}
	r := z.Lsh(x, n)
	same(z, w, "Lsh.value")
	sym.Assert(r == z, "Lsh.returns-destination")
	if z != x {
		same(x, X, "Lsh.source-unchanged")
	}
	sym.Reach("done")
}

func H_rsh() {
	x := sym.U256W("x")
	z := dest(x)
	X := sym.Of(x)
	n, p, over := amount()
	w := sym.I(0)
	if !over {
		w = X.Div(p)
	}
	r := z.Rsh(x, n)
	same(z, w, "Rsh.value")
	sym.Assert(r == z, "Rsh.returns-destination")
	if z != x {
		same(x, X, "Rsh.source-unchanged")
	}
	sym.Reach("done")
}

func H_srsh() {
	x := sym.U256W("x")
	z := dest(x)
	X := sym.Of(x)
	neg := sym.Split(X.Ge(sym.P2(255)))
	n, p, over := amount()
	w := sym.I(0)
	switch {
	case over && neg:
		w = sym.P2(256).Sub(sym.I(1))
	case over:
	case neg:
		w = X.Sub(sym.P2(256)).Div(p).Add(sym.P2(256))
	default:
		w = X.Div(p)
	}
	r := z.SRsh(x, n)
	same(z, w, "SRsh.value")
	sym.Assert(r == z, "SRsh.returns-destination")
	if z != x {
		same(x, X, "SRsh.source-unchanged")
	}
	sym.Reach("done")
}

func H_bitops() {
	x, y := pair()
	z := x
	switch sym.Choose("dst", 3) {
	case 0:
		z = sym.U256W("z")
	case 1:
		z = y
	}
	X, Y := sym.Of(x), sym.Of(y)
	var r *ui.Int
	var w [4]uint64
	op := sym.Choose("op", 4)
	for i := 0; i < 4; i++ {
		switch op {
		case 0:
			w[i] = x[i] & y[i]
		case 1:
			w[i] = x[i] | y[i]
		case 2:
			w[i] = x[i] ^ y[i]
		default:
			w[i] = ^x[i]
		}
	}
	name := "And"
	switch op {
	case 0:
		r = z.And(x, y)
	case 1:
		r, name = z.Or(x, y), "Or"
	case 2:
		r, name = z.Xor(x, y), "Xor"
	default:
		r, name = z.Not(x), "Not"
	}
	sym.Assert(sym.And(z[0] == w[0], z[1] == w[1], z[2] == w[2], z[3] == w[3]), name+".value")
	sym.Assert(r == z, name+".returns-destination")
	if z != x {
		same(x, X, name+".x-unchanged")
	}
	if z != y {
		same(y, Y, name+".y-unchanged")
	}
	sym.Reach("done")
}

// Byte n counts from the most significant byte.
func H_byte() {
	z := sym.U256W("z")
	Zv := sym.Of(z)
	k := sym.Choose("n", 34)
	var n *ui.Int
	w := sym.I(0)
	switch {
	case k < 32:
		n = ui.NewInt(uint64(k))
		w = Zv.Bits(8*(31-k), 8)
	case k == 32:
		n = sym.U256W("n")
		sym.Assume(sym.Of(n).Gt(sym.I(31)))
	default: // the index is the number itself
		n = z
		i := sym.Choose("self", 33)
		if i < 32 {
			sym.Assume(Zv.Eq(sym.I(i)))
			w = sym.I(i).Bits(8*(31-i), 8)
		} else {
			sym.Assume(Zv.Gt(sym.I(31)))
		}
	}
	N := sym.Of(n)
	r := z.Byte(n)
	same(z, w, "Byte.value")
	sym.Assert(r == z, "Byte.returns-destination")
	if n != z {
		same(n, N, "Byte.index-unchanged")
	}
	sym.Reach("done")
}

func H_extendSign() {
	x := sym.U256W("x")
	X := sym.Of(x)
	k := sym.Choose("byte", 33)
	var n *ui.Int
	w := X
	if k < 32 {
		n = ui.NewInt(uint64(k))
		low := X.ModN(8*k + 8)
		w = sym.Ite(low.Ge(sym.P2(8*k+7)), low.Sub(sym.P2(8*k+8)), low).ModN(256)
	} else {
		n = sym.U256W("n")
		sym.Assume(sym.Of(n).Gt(sym.I(31)))
	}
	N := sym.Of(n)
	z := x
	switch sym.Choose("dst", 3) {
	case 0:
		z = sym.U256W("z")
	case 1:
		z = n
	}
	r := z.ExtendSign(x, n)
	same(z, w, "ExtendSign.value")
	sym.Assert(r == z, "ExtendSign.returns-destination")
	if z != x {
		same(x, X, "ExtendSign.x-unchanged")
	}
	if z != n {
		same(n, N, "ExtendSign.byte-unchanged")
	}
	sym.Reach("done")
}
