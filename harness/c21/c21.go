// Package c21: transactions written as JSON are read back unchanged.
package c21

import (
	"encoding/json"

	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/app"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

const far = 1 << 62

var kinds = []string{"Swap", "Mint", "Burn", "Flash"}

// free is the number that may have any value; -1: all of them. The others have
// four words and either sign.
var free, made int

func number() (*ui.Int, Z) {
	lo, hi := sym.I(0), sym.P2(256).Sub(sym.I(1))
	if free >= 0 && made != free {
		lo, hi = sym.P2(192), sym.P2(255).Sub(sym.I(1))
		if made%2 == 1 {
			lo, hi = sym.P2(255), sym.P2(256).Sub(sym.P2(192))
		}
	}
	made++
	x := sym.U256R("x", lo, hi)
	return x, sym.Of(x)
}

var numbers = []int{3, 3, 3, 2}

// spec is a transaction and its numbers at the time of writing.
type spec struct {
	t                ent.Transaction
	amt, a0, a1, sq  Z
	tick, lo, hi, at int
	x96              bool
}

func transaction(kind int, id string) (s spec) {
	s.t.Type = kinds[kind]
	s.t.ID = id
	s.t.Amount0, s.a0 = number()
	s.t.Amount1, s.a1 = number()
	s.at = sym.Int("time", -far, far)
	s.t.Timestamp = s.at
	switch kind {
	case 0:
		s.t.SqrtPriceX96, s.sq = number()
		s.tick = sym.Int("tick", -far, far)
		s.x96 = sym.Bool("x96")
		s.t.Tick, s.t.UseX96 = s.tick, s.x96
	case 1, 2:
		s.t.Amount, s.amt = number()
		s.lo, s.hi = sym.Int("lower", -far, far), sym.Int("upper", -far, far)
		s.t.TickLower, s.t.TickUpper = s.lo, s.hi
	}
	return
}

// signed is the two's complement value of a 256-bit number.
func signed(x Z) Z {
	if x.Lt(sym.P2(255)) {
		return x
	}
	return x.Sub(sym.P2(256))
}

func is(x *ui.Int, v Z) bool {
	if x == nil {
		return false
	}
	return sym.Of(x).Eq(v)
}

func (s spec) check(r ent.Transaction) {
	sym.Assert(r.Type == s.t.Type, "type")
	sym.Assert(r.ID == s.t.ID, "id")
	sym.Assert(r.Timestamp == s.at, "timestamp")
	sym.Assert(is(r.Amount0, s.a0), "amount0")
	sym.Assert(is(r.Amount1, s.a1), "amount1")
	switch s.t.Type {
	case "Swap":
		sym.Assert(is(r.SqrtPriceX96, s.sq), "price")
		sym.Assert(r.Tick == s.tick, "tick")
		sym.Assert(r.UseX96 == s.x96, "limit-flag")
	case "Mint", "Burn":
		sym.Assert(is(r.Amount, s.amt), "amount")
		sym.Assert(sym.And(r.TickLower == s.lo, r.TickUpper == s.hi), "range")
	}
}

// write returns the transaction's JSON.
func (s spec) write() []byte {
	var b []byte
	var err error
	if sym.Try(func() { b, err = s.t.MarshalJSON() }) || err != nil {
		sym.Fail("writes")
	}
	return b
}

// H_text: the numbers in the file.
func H_text() {
	kind := sym.Shard(4)
	free, made = -1, 0
	s := transaction(kind, "0xab#7")
	b := s.write()
	var in ent.TransactionInput
	sym.Assert(json.Unmarshal(b, &in) == nil, "readable")
	sym.Assert(sym.StrEq(in.Amount0, sym.Digits(signed(s.a0))), "amount0-text")
	sym.Assert(sym.StrEq(in.Amount1, sym.Digits(signed(s.a1))), "amount1-text")
	switch kind {
	case 0:
		sym.Assert(sym.StrEq(in.SqrtPriceX96, sym.Digits(signed(s.sq))), "price-text")
	case 1, 2:
		sym.Assert(sym.StrEq(in.Amount, sym.Digits(signed(s.amt))), "amount-text")
	}
	// the written transaction is as it was
	s.check(s.t)
	sym.Reach("done")
}

// H_file: a file of two transactions of any types.
func H_file() {
	k := sym.Shard(16)
	free, made = sym.Choose("free", numbers[k/4]+numbers[k%4]), 0
	s, t := transaction(k/4, "0xab#7"), transaction(k%4, "0x0123#19")
	sym.Serve("data/transactions_insample.json", s.write(), t.write())
	rs := app.ZZTransactions()
	sym.Assert(len(rs) == 2, "count")
	s.check(rs[0])
	t.check(rs[1])
	sym.Reach("done")
}

// H_unknown: any other type is refused.
func H_unknown() {
	free, made = -1, 0
	s := transaction(1, "1")
	s.t.Type = []string{"", "swap", "Collect", "Initialize", "Mint "}[sym.Shard(5)]
	s.t.SqrtPriceX96 = ui.NewInt(5)
	var err error
	if !sym.Try(func() { _, err = s.t.MarshalJSON() }) {
		sym.Assert(err != nil, "unknown-refused")
	}
	sym.Reach("done")
}
