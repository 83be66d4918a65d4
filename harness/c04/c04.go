// Package c04: byte, hex, RLP and big-integer conversions.
package c04

import (
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

type Z = sym.Z

func bz(b byte) Z { return sym.OfU64(uint64(b)) }

// be is the big-endian value of the last 32 bytes.
func be(b []byte) Z {
	if len(b) > 32 {
		b = b[len(b)-32:]
	}
	r := sym.I(0)
	for _, x := range b {
		r = r.Mul(sym.I(256)).Add(bz(x))
	}
	return r
}

func same(x *ui.Int, X Z, label string) { sym.Assert(sym.Of(x).Eq(X), label) }

// digits builds a number from its base-2^w digits, each of them arbitrary: every
// 256-bit number has exactly one such form.
func digits(w int) (*ui.Int, []Z) {
	n := 256 / w
	ds := make([]Z, n)
	r := sym.I(0)
	for i := range ds {
		ds[i] = sym.ZR("d", sym.I(0), sym.P2(w).Sub(sym.I(1)))
		r = r.Add(ds[i].Mul(sym.P2(w * i)))
	}
	return sym.ToU256(r), ds
}

func H_setBytes() {
	n := sym.Choose("len", 67)
	b := sym.BytesN("b", n)
	B := append([]byte(nil), b...)
	z := sym.U256W("z")
	r := z.SetBytes(b)
	same(z, be(B), "SetBytes.value")
	sym.Assert(r == z, "SetBytes.returns-destination")
	for i := range b {
		sym.Assert(b[i] == B[i], "SetBytes.input-unchanged")
	}
	sym.Reach("done")
}

// the fixed-length forms read exactly their first N bytes
func H_setBytesN() {
	n := 1 + sym.Choose("n", 32)
	b := sym.BytesN("b", n+sym.Choose("extra", 2))
	z := sym.U256W("z")
	fs := []func([]byte) *ui.Int{nil, z.SetBytes1, z.SetBytes2, z.SetBytes3, z.SetBytes4, z.SetBytes5, z.SetBytes6, z.SetBytes7,
		z.SetBytes8, z.SetBytes9, z.SetBytes10, z.SetBytes11, z.SetBytes12, z.SetBytes13, z.SetBytes14, z.SetBytes15, z.SetBytes16,
		z.SetBytes17, z.SetBytes18, z.SetBytes19, z.SetBytes20, z.SetBytes21, z.SetBytes22, z.SetBytes23, z.SetBytes24,
		z.SetBytes25, z.SetBytes26, z.SetBytes27, z.SetBytes28, z.SetBytes29, z.SetBytes30, z.SetBytes31, z.SetBytes32}
	r := fs[n](b)
	same(z, be(b[:n]), "SetBytesN.value")
	sym.Assert(r == z, "SetBytesN.returns-destination")
	sym.Reach("done")
}

func H_bytes() {
	x, ds := digits(8)
	X := sym.Of(x)
	switch sym.Choose("form", 4) {
	case 0:
		b := x.Bytes32()
		for i := 0; i < 32; i++ {
			sym.Assert(bz(b[31-i]).Eq(ds[i]), "Bytes32")
		}
		same(new(ui.Int).SetBytes(b[:]), X, "Bytes32.round-trip")
	case 1:
		b := x.Bytes20()
		for i := 0; i < 20; i++ {
			sym.Assert(bz(b[19-i]).Eq(ds[i]), "Bytes20")
		}
	case 2:
		var b [32]byte
		x.WriteToArray32(&b)
		for i := 0; i < 32; i++ {
			sym.Assert(bz(b[31-i]).Eq(ds[i]), "WriteToArray32")
		}
	default:
		var b [20]byte
		x.WriteToArray20(&b)
		for i := 0; i < 20; i++ {
			sym.Assert(bz(b[19-i]).Eq(ds[i]), "WriteToArray20")
		}
	}
	same(x, X, "bytes.unchanged")
	sym.Reach("done")
}

func H_minimalBytes() {
	x, ds := digits(8)
	X := sym.Of(x)
	b := x.Bytes()
	n := len(b)
	sym.Assert(n <= 32 && X.Lt(sym.P2(8*n)), "Bytes.holds-the-number")
	sym.Assert(n == 0 || X.Ge(sym.P2(8*n-8)), "Bytes.minimal")
	for i := 0; i < n; i++ {
		sym.Assert(bz(b[n-1-i]).Eq(ds[i]), "Bytes.value")
	}
	same(new(ui.Int).SetBytes(b), X, "Bytes.round-trip")
	same(x, X, "Bytes.unchanged")
	sym.Reach("done")
}

func H_writeToSlice() {
	x, ds := digits(8)
	X := sym.Of(x)
	n := sym.Choose("len", 41)
	d := sym.BytesN("d", n)
	D := append([]byte(nil), d...)
	x.WriteToSlice(d)
	m := n
	if m > 32 {
		m = 32
	}
	for i := 0; i < m; i++ {
		sym.Assert(bz(d[m-1-i]).Eq(ds[i]), "WriteToSlice.value")
	}
	for i := m; i < n; i++ {
		sym.Assert(d[i] == D[i], "WriteToSlice.rest-untouched")
	}
	sym.Assert(len(d) == n, "WriteToSlice.length")
	same(x, X, "WriteToSlice.unchanged")
	sym.Reach("done")
}

func H_paddedBytes() {
	x, ds := digits(8)
	X := sym.Of(x)
	n := sym.Choose("len", 41)
	b := x.PaddedBytes(n)
	sym.Assert(len(b) == n, "PaddedBytes.length")
	for i := 0; i < n; i++ {
		w := sym.I(0)
		if i < 32 {
			w = ds[i]
		}
		sym.Assert(bz(b[n-1-i]).Eq(w), "PaddedBytes.value")
	}
	same(x, X, "PaddedBytes.unchanged")
	sym.Reach("done")
}

func hexDigit(n Z) Z {
	return sym.Ite(n.Lt(sym.I(10)), n.Add(sym.I('0')), n.Add(sym.I('a'-10)))
}

func H_hex() {
	x, ds := digits(4)
	X := sym.Of(x)
	var s string
	switch sym.Choose("form", 3) {
	case 0:
		s = x.Hex()
	case 1:
		s = x.String()
	default:
		b, err := x.MarshalText()
		sym.Assert(err == nil, "MarshalText.error")
		s = string(b)
	}
	n := len(s) - 2
	sym.Assert(n >= 1 && n <= 64 && s[0] == '0' && s[1] == 'x', "Hex.prefix")
	sym.Assert(X.Lt(sym.P2(4*n)), "Hex.holds-the-number")
	sym.Assert(n == 1 || X.Ge(sym.P2(4*n-4)), "Hex.no-leading-zero")
	for i := 0; i < n; i++ {
		sym.Assert(bz(s[1+n-i]).Eq(hexDigit(ds[i])), "Hex.digit")
	}
	same(x, X, "Hex.unchanged")
	sym.Reach("done")
}

// nibble value of a hex character, and whether it is one
func nib(ch byte) (Z, bool) {
	c := bz(ch)
	in := func(a, b byte) bool { return sym.And(c.Ge(bz(a)), c.Le(bz(b))) }
	d, u, l := in('0', '9'), in('A', 'F'), in('a', 'f')
	return sym.Ite(d, c.Sub(sym.I('0')), sym.Ite(u, c.Sub(sym.I('A'-10)), c.Sub(sym.I('a'-10)))), sym.Or(d, u, l)
}

func fromHex(maxLen int) {
	n := sym.Choose("len", maxLen+1)
	b := sym.BytesN("s", n)
	B := append([]byte(nil), b...)
	// the specification
	ok := n >= 3 && n <= 66
	W := sym.I(0)
	if ok {
		ok = sym.And(b[0] == '0', sym.Or(b[1] == 'x', b[1] == 'X'))
		if n > 3 {
			ok = sym.And(ok, b[2] != '0')
		}
		for i := 2; i < n; i++ {
			v, good := nib(b[i])
			ok = sym.And(ok, good)
			W = W.Mul(sym.I(16)).Add(v)
		}
	}
	var z *ui.Int
	var err error
	switch sym.Choose("form", 3) {
	case 0:
		z, err = ui.FromHex(string(b))
	case 1:
		z = new(ui.Int)
		err = z.UnmarshalText(b)
	default:
		z = new(ui.Int)
		q := append(append([]byte{'"'}, b...), '"')
		err = z.UnmarshalJSON(q)
	}
	sym.Assert((err == nil) == ok, "FromHex.accepts-exactly-the-well-formed")
	if err == nil {
		same(z, W, "FromHex.value")
	}
	for i := range b {
		sym.Assert(b[i] == B[i], "FromHex.input-unchanged")
	}
	sym.Reach("done")
}

func H_fromHexShort() { fromHex(6) }

// long strings: one character is arbitrary, the others come from one class of
// hex digits
func H_fromHexLong() {
	lens := []int{18, 19, 34, 35, 50, 51, 65, 66, 67, 70}
	n := lens[sym.Shard(len(lens))]
	b := make([]byte, n)
	b[0], b[1] = '0', 'x'
	ok := n <= 66
	W := sym.I(0)
	bad := sym.Choose("any", n-2) + 2
	class := sym.Choose("class", 3)
	for i := 2; i < n; i++ {
		var v Z
		if i == bad {
			var good bool
			b[i] = sym.Byte("c")
			v, good = nib(b[i])
			ok = sym.And(ok, good)
			if i == 2 {
				ok = sym.And(ok, b[i] != '0')
			}
		} else {
			k := 0
			switch class {
			case 0:
				if i == 2 {
					k = sym.Int("first", 1, 9)
				} else {
					k = sym.Int("digit", 0, 9)
				}
				b[i] = byte('0' + k)
			case 1:
				k = sym.Int("upper", 10, 15)
				b[i] = byte('A' - 10 + k)
			default:
				k = sym.Int("lower", 10, 15)
				b[i] = byte('a' - 10 + k)
			}
			v = sym.OfInt(k)
		}
		W = W.Mul(sym.I(16)).Add(v)
	}
	z, err := ui.FromHex(string(b))
	sym.Assert((err == nil) == ok, "FromHex.accepts-exactly-the-well-formed")
	if err == nil {
		same(z, W, "FromHex.value")
	}
	sym.Reach("done")
}

func H_unmarshalJSON() {
	n := sym.Choose("len", 4)
	b := sym.BytesN("s", n)
	z := new(ui.Int)
	quoted := false
	if n >= 2 {
		quoted = sym.And(b[0] == '"', b[n-1] == '"')
	}
	err := z.UnmarshalJSON(b)
	sym.Assert(sym.Implies(!quoted, err != nil), "UnmarshalJSON.rejects-unquoted")
	sym.Reach("done")
}

type sink struct {
	b     []byte
	calls int
}

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	s.calls++
	return len(p), nil
}

func H_rlp() {
	x, ds := digits(8)
	X := sym.Of(x)
	s := &sink{}
	err := x.EncodeRLP(s)
	sym.Assert(err == nil, "EncodeRLP.error")
	n := len(s.b)
	sym.Assert(n >= 1 && n <= 33, "EncodeRLP.length")
	if n == 1 {
		c := bz(s.b[0])
		sym.Assert(sym.Or(sym.And(X.Eq(sym.I(0)), c.Eq(sym.I(0x80))), sym.And(X.Gt(sym.I(0)), X.Lt(sym.I(128)), c.Eq(X))), "EncodeRLP.single")
	} else {
		k := n - 1
		sym.Assert(bz(s.b[0]).Eq(sym.I(0x80+k)), "EncodeRLP.header")
		sym.Assert(sym.And(X.Ge(sym.I(128)), X.Lt(sym.P2(8*k)), X.Ge(sym.P2(8*k-8))), "EncodeRLP.minimal")
		for i := 0; i < k; i++ {
			sym.Assert(bz(s.b[n-1-i]).Eq(ds[i]), "EncodeRLP.value")
		}
	}
	same(x, X, "EncodeRLP.unchanged")
	var nilInt *ui.Int
	s2 := &sink{}
	err = nilInt.EncodeRLP(s2)
	sym.Assert(err == nil && len(s2.b) == 1 && s2.b[0] == 0x80, "EncodeRLP.nil")
	sym.Reach("done")
}

func H_toBig() {
	x := sym.U256W("x")
	X := sym.Of(x)
	b := x.ToBig()
	sym.Assert(sym.OfBig(b).Eq(X), "ToBig")
	s := x.SToBig()
	sym.Assert(sym.OfBig(s).Eq(sym.OfS(x)), "SToBig")
	same(x, X, "ToBig.unchanged")
	y, over := ui.FromBig(s)
	same(y, X, "SToBig.round-trip")
	sym.Assert(!over, "SToBig.round-trip-flag")
	sym.Reach("done")
}

func H_fromBig() {
	V := sym.ZR("v", sym.P2(330).Neg(), sym.P2(330))
	b := sym.ToBig(V)
	var z *ui.Int
	var over bool
	if sym.Choose("form", 2) == 0 {
		z, over = ui.FromBig(b)
	} else {
		z = sym.U256W("z")
		over = z.SetFromBig(b)
	}
	same(z, V.ModN(256), "FromBig.value")
	sym.Assert(over == V.Abs().Ge(sym.P2(256)), "FromBig.overflow")
	sym.Assert(sym.OfBig(b).Eq(V), "FromBig.input-unchanged")
	sym.Reach("done")
}
