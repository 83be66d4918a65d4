// Package c01_div: the internal steps of the long division, on the real code.
package c01_div

import (
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

func val(w []uint64) Z {
	s := sym.I(0)
	for i := range w {
		s = s.Add(sym.OfU64(w[i]).Mul(sym.P2(64 * i)))
	}
	return s
}

// H_reciprocal: for every normalised divisor word.
func H_reciprocal() {
	d := sym.U64("d")
	sym.Assume(sym.OfU64(d).Ge(sym.P2(63)))
	v := ui.ZZReciprocal(d)
	w := sym.P2(128).Sub(sym.I(1)).Div(sym.OfU64(d)).Sub(sym.P2(64))
	sym.Assert(sym.OfU64(v).Eq(w), "reciprocal")
	sym.Probe("v", sym.OfU64(v))
	sym.Reach("done")
}

// H_2by1: two words by one normalised word, using the reciprocal.
func H_2by1() {
	d, uh, ul := sym.U64("d"), sym.U64("uh"), sym.U64("ul")
	D := sym.OfU64(d)
	sym.Assume(D.Ge(sym.P2(63)))
	sym.Assume(sym.OfU64(uh).Lt(D))
	v := sym.U64("v")
	// v = floor((2^128-1)/d) - 2^64
	V := sym.OfU64(v).Add(sym.P2(64))
	N := sym.P2(128).Sub(sym.I(1))
	sym.Assume(V.Mul(D).Le(N))
	sym.Assume(N.Lt(V.Mul(D).Add(D)))
	q, r := ui.ZZDiv2by1(uh, ul, d, v)
	n := sym.OfU64(uh).Mul(sym.P2(64)).Add(sym.OfU64(ul))
	sym.Assert(sym.OfU64(r).Lt(D), "2by1.remainder-below-divisor")
	sym.Assert(sym.OfU64(q).Mul(D).Add(sym.OfU64(r)).Eq(n), "2by1.identity")
	sym.Reach("done")
}

// H_by1: dividends of 2..9 words by one normalised word.
func H_by1() {
	sym.Contracts("by1")
	n := 2 + sym.Choose("n", 8)
	u := sym.WordsN("u", n)
	d := sym.U64("d")
	D := sym.OfU64(d)
	sym.Assume(D.Ge(sym.P2(63)))
	sym.Assume(sym.OfU64(u[n-1]).Lt(D))
	U := val(u)
	quot := make([]uint64, n-1)
	r := ui.ZZBy1(quot, u, d)
	sym.Assert(sym.OfU64(r).Lt(D), "by1.remainder-below-divisor")
	sym.Assert(val(quot).Mul(D).Add(sym.OfU64(r)).Eq(U), "by1.identity")
	sym.Reach("done")
}

func knuth(m, k int) {
	sym.Contracts("by1")
	u := sym.WordsN("u", m+k)
	d := sym.WordsN("d", m)
	D := val(d)
	sym.Assume(sym.OfU64(d[m-1]).Ge(sym.P2(63)))
	U := val(u)
	sym.Assume(U.Lt(D.Mul(sym.P2(64 * k))))
	quot := make([]uint64, k)
	u0 := make([]uint64, m+k)
	copy(u0, u)
	sym.Cut("udivremKnuth", func(assert bool, j int) {
		if assert {
			// digits above j are done: what is left is below D*2^(64(j+1))
			w := val(u[:j+m+1])
			sym.Lemma(w.Lt(D.Mul(sym.P2(64*(j+1)))), "knuth.remainder-below-divisor")
			for i := 0; i <= j; i++ {
				sym.Lemma(u[i] == u0[i], "knuth.lower-words-untouched")
			}
			q := sym.I(0)
			for i := j + 1; i < k; i++ {
				q = q.Add(sym.OfU64(quot[i]).Mul(sym.P2(64 * i)))
			}
			sym.Lemma(q.Mul(D).Add(w).Eq(U), "knuth.identity")
			return
		}
		sym.Havoc64(u)
		sym.Havoc64(quot)
		for i := 0; i <= j; i++ {
			u[i] = u0[i]
		}
		w := val(u[:j+m+1])
		sym.Assume(w.Lt(D.Mul(sym.P2(64 * (j + 1)))))
		q := sym.I(0)
		for i := j + 1; i < k; i++ {
			q = q.Add(sym.OfU64(quot[i]).Mul(sym.P2(64 * i)))
		}
		sym.Assume(q.Mul(D).Add(w).Eq(U))
	})
	ui.ZZKnuth(quot, u, d)
	R := val(u[:m])
	sym.Assert(R.Lt(D), "knuth.final-remainder")
	sym.Assert(val(quot).Mul(D).Add(R).Eq(U), "knuth.final-identity")
	sym.Reach("done")
}

func H_knuth2() { knuth(2, 1+sym.Shard(7)) }
func H_knuth3() { knuth(3, 1+sym.Shard(6)) }
func H_knuth4() { knuth(4, 1+sym.Shard(5)) }
