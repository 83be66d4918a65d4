package c22

import (
	"uniswap-simulator/lib/tickmath"
	"uniswap-simulator/zzverif/sym"
)

var spacings = []int{1, 10, 60, 200, 7, 128, 3, 500}

const far = 2 * 887272

func tick(i int) (int, int) { return sym.Int("tick", -far, far), spacings[i] }

// multiple reports that r is a multiple of u.
func multiple(r, u int) bool { return sym.OfInt(r).Mod(sym.OfInt(u)).Eq(sym.I(0)) }

// H_round: the nearest multiple, halves away from zero.
func H_round() {
	x, u := tick(sym.Shard(8))
	r := tickmath.Round(x, u)
	sym.Assert(multiple(r, u), "multiple")
	e := 2 * (r - x)
	sym.Assert(sym.Or(sym.And(-u < e, e < u), sym.And(x > 0, e == u), sym.And(x < 0, e == -u)), "nearest")
	sym.Reach("done")
}

// H_ceil: the smallest multiple not below.
func H_ceil() {
	x, u := tick(sym.Shard(8))
	r := tickmath.Ceil(x, u)
	sym.Assert(multiple(r, u), "multiple")
	sym.Assert(sym.And(r >= x, r < x+u), "smallest-above")
	sym.Reach("done")
}

// H_floor: the largest multiple not above.
func H_floor() {
	x, u := tick(sym.Shard(8))
	r := tickmath.Floor(x, u)
	sym.Assert(multiple(r, u), "multiple")
	sym.Assert(sym.And(r <= x, r > x-u), "largest-below")
	sym.Reach("done")
}
