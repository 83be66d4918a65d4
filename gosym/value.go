package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of
//
//	*Term                 integers, booleans, floats, sym.Z
//	Ptr, GPtr             pointers (GPtr: guarded union)
//	SliceV, StrV, *Agg, *Pack, *BigV, IfaceV, FuncV, MapV, Tuple, Opaque
type Value interface{}

type Ptr struct {
	obj  int
	path string // encoded element path, "" = whole object
	wlen int    // >0: pointer to the array window [woff, woff+wlen) of the array at path
	woff int
}

type GAlt struct {
	g *Term
	p Ptr
}

// GPtr: exactly one guard holds.
type GPtr struct{ alts []GAlt }

type SliceV struct {
	p             Ptr // pointer to backing array
	off, len, cap int
}

// Piece of a symbolic string.
type Piece struct {
	lit  string
	kind byte // 0 literal, 'b' byte term, 'r' rune term, 'd' decimal integer term
	t    *Term
}
type StrV struct{ ps []Piece }

type Agg struct{ e []Value }
type Pack struct{ t *Term } // [4]uint64, little endian
type BigV struct{ t *Term } // math/big.Int

type IfaceV struct {
	t types.Type
	v Value
}
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	bi   string // builtin / intrinsic name
}
type MapV struct{ obj int } // heap object holds *MapData
type MapEnt struct{ k, v Value }
type MapData struct{ ents []MapEnt }
type Tuple []Value
type Opaque struct{ why string }
type RangeIt struct {
	ents []MapEnt
	str  *StrV
	i    int
	isM  bool
	obj  int
}

type engErr struct{ msg string }

func fail(f string, a ...interface{}) { panic(engErr{fmt.Sprintf(f, a...)}) }

func (p Ptr) elem(i int) Ptr {
	if p.wlen > 0 {
		i += p.woff
	}
	return Ptr{obj: p.obj, path: p.path + string(rune(i+1))}
}

func pathIdx(s string) []int {
	var r []int
	for _, c := range s {
		r = append(r, int(c)-1)
	}
	return r
}

// note: surrogate code points cannot be encoded in a string, so indices are
// limited; arrays beyond this size are rejected when built.
const maxIdx = 50000

func isInt256(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() != 4 {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

func typeFull(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return t.String()
}

func isBigInt(t types.Type) bool { return typeFull(t) == "math/big.Int" }
func isZ(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.Named); !ok {
		return false
	}
	return strings.HasSuffix(typeFull(t), "/zzverif/sym.Z")
}

func (e *Engine) zero(t types.Type) Value {
	if isBigInt(t) {
		return &BigV{e.c.I(0)}
	}
	if isZ(t) {
		return e.c.I(0)
	}
	if typeFull(t) == "math/big.Float" {
		return &FltV{e.c.Rat(new(big.Rat))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.False
		case u.Info()&types.IsInteger != 0:
			return e.c.I(0)
		case u.Info()&types.IsFloat != 0:
			return e.c.Rat(new(big.Rat))
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return Opaque{"zero " + u.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{}
	case *types.Array:
		n := int(u.Len())
		if n > maxIdx {
			if e.lamOn {
				return &LamArr{mode: 'z'}
			}
			return Opaque{"huge array"}
		}
		a := &Agg{make([]Value, n)}
		if n > 0 {
			z := e.zero(u.Elem())
			for i := range a.e {
				a.e[i] = z
			}
		}
		return a
	case *types.Struct:
		a := &Agg{make([]Value, u.NumFields())}
		for i := range a.e {
			a.e[i] = e.zero(u.Field(i).Type())
		}
		return a
	case *types.Interface:
		return IfaceV{}
	case *types.Map:
		return MapV{}
	case *types.Signature:
		return FuncV{}
	case *types.Chan:
		return Opaque{"chan"}
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, e.zero(u.At(i).Type()))
		}
		return tp
	}
	return Opaque{"zero"}
}

func (e *Engine) packOf(v Value) *Term {
	switch x := v.(type) {
	case *Pack:
		return x.t
	case *Agg:
		if len(x.e) != 4 {
			fail("packOf agg len %d", len(x.e))
		}
		s := e.c.I(0)
		for i, w := range x.e {
			t, ok := w.(*Term)
			if !ok {
				fail("packOf word %T", w)
			}
			s = e.c.Add(s, e.c.Scale(t, pow2(64*i)))
		}
		return s
	}
	fail("packOf %T", v)
	return nil
}

func (e *Engine) elemOf(v Value, i int) Value {
	switch x := v.(type) {
	case *Agg:
		if i < 0 || i >= len(x.e) {
			fail("elem %d of %d", i, len(x.e))
		}
		return x.e[i]
	case *Pack:
		return e.c.Extract(x.t, 64*i, 64)
	case Opaque:
		return x
	}
	fail("elemOf %T", v)
	return nil
}

func (e *Engine) setElem(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	if p, ok := v.(*Pack); ok {
		a := &Agg{make([]Value, 4)}
		for i := range a.e {
			a.e[i] = e.c.Extract(p.t, 64*i, 64)
		}
		v = a
	}
	a, ok := v.(*Agg)
	if !ok {
		fail("setElem %T", v)
	}
	if path[0] >= len(a.e) {
		fail("setElem idx")
	}
	b := &Agg{append([]Value(nil), a.e...)}
	b.e[path[0]] = e.setElem(a.e[path[0]], path[1:], nv)
	return b
}

func lit(s string) StrV {
	if s == "" {
		return StrV{}
	}
	return StrV{[]Piece{{lit: s}}}
}

func (s StrV) concrete() (string, bool) {
	var b strings.Builder
	for _, p := range s.ps {
		switch p.kind {
		case 0:
			b.WriteString(p.lit)
		case 'b':
			if !p.t.isConst() {
				return "", false
			}
			b.WriteByte(byte(p.t.c.Int64()))
		case 'r':
			if !p.t.isConst() {
				return "", false
			}
			if !p.t.c.IsInt64() || p.t.c.Int64() > 0x10ffff || p.t.c.Int64() < 0 {
				b.WriteString("\uFFFD")
			} else {
				b.WriteString(string(rune(p.t.c.Int64())))
			}
		case 'd':
			if !p.t.isConst() {
				return "", false
			}
			b.WriteString(p.t.c.String())
		}
	}
	return b.String(), true
}

func (s StrV) cat(o StrV) StrV {
	var r []Piece
	for _, p := range append(append([]Piece(nil), s.ps...), o.ps...) {
		if p.kind == 0 && p.lit == "" {
			continue
		}
		if p.kind != 0 && p.t.isConst() {
			c, _ := StrV{[]Piece{p}}.concrete()
			p = Piece{lit: c}
		}
		if p.kind == 0 && len(r) > 0 && r[len(r)-1].kind == 0 {
			r[len(r)-1].lit += p.lit
			continue
		}
		r = append(r, p)
	}
	return StrV{r}
}

// bytes as terms, if the string has a concrete length
func (e *Engine) strBytes(s StrV) ([]*Term, bool) {
	var r []*Term
	for _, p := range s.ps {
		switch {
		case p.kind == 0:
			for i := 0; i < len(p.lit); i++ {
				r = append(r, e.c.I(int64(p.lit[i])))
			}
		case p.kind == 'b':
			r = append(r, p.t)
		case p.t.isConst():
			c, _ := StrV{[]Piece{p}}.concrete()
			for i := 0; i < len(c); i++ {
				r = append(r, e.c.I(int64(c[i])))
			}
		default:
			return nil, false
		}
	}
	return r, true
}

func (e *Engine) bytesStr(bs []*Term) StrV {
	var r StrV
	for _, b := range bs {
		r = r.cat(StrV{[]Piece{{kind: 'b', t: b}}})
	}
	return r
}

// normalised rune: invalid code points map to U+FFFD
func (e *Engine) normRune(t *Term) *Term {
	c := e.c
	valid := c.Or(c.And(c.Le(c.I(0), t), c.Lt(t, c.I(0xD800))), c.And(c.Le(c.I(0xE000), t), c.Le(t, c.I(0x10FFFF))))
	return c.Ite(valid, t, c.I(0xFFFD))
}

func digitStart(b byte) bool { return b >= '0' && b <= '9' || b == '-' }

// strEq builds the condition that two symbolic strings are equal.
func (e *Engine) strEq(a, b StrV) *Term {
	c := e.c
	if x, ok := a.concrete(); ok {
		if y, ok := b.concrete(); ok {
			return c.Bool(x == y)
		}
	}
	if x, ok := e.strBytes(a); ok {
		if y, ok := e.strBytes(b); ok {
			if len(x) != len(y) {
				return c.False
			}
			cs := []*Term{}
			for i := range x {
				cs = append(cs, c.Eq(x[i], y[i]))
			}
			return c.And(cs...)
		}
	}
	// general: consume pieces from the left
	pa, pb := append([]Piece(nil), a.ps...), append([]Piece(nil), b.ps...)
	var conds []*Term
	for {
		if len(pa) == 0 && len(pb) == 0 {
			return c.And(conds...)
		}
		if len(pa) == 0 || len(pb) == 0 {
			rest := pa
			if len(pa) == 0 {
				rest = pb
			}
			for _, p := range rest {
				if p.kind != 0 || p.lit != "" {
					return c.False // every symbolic piece is non-empty
				}
			}
			return c.And(conds...)
		}
		x, y := pa[0], pb[0]
		switch {
		case x.kind == 0 && y.kind == 0:
			n := len(x.lit)
			if len(y.lit) < n {
				n = len(y.lit)
			}
			if x.lit[:n] != y.lit[:n] {
				return c.False
			}
			pa[0].lit = x.lit[n:]
			pb[0].lit = y.lit[n:]
			if pa[0].lit == "" {
				pa = pa[1:]
			}
			if pb[0].lit == "" {
				pb = pb[1:]
			}
		case x.kind == 'r' && y.kind == 'r':
			conds = append(conds, c.Eq(e.normRune(x.t), e.normRune(y.t)))
			pa, pb = pa[1:], pb[1:]
		case x.kind == 'b' && y.kind == 'b':
			conds = append(conds, c.Eq(x.t, y.t))
			pa, pb = pa[1:], pb[1:]
		case x.kind == 'r' && y.kind == 0:
			rs := []rune(y.lit)
			conds = append(conds, c.Eq(e.normRune(x.t), c.I(int64(rs[0]))))
			pb[0].lit = string(rs[1:])
			if pb[0].lit == "" {
				pb = pb[1:]
			}
			pa = pa[1:]
		case y.kind == 'r' && x.kind == 0:
			pa, pb = pb, pa
		case x.kind == 'd' && y.kind == 'd':
			delim := func(ps []Piece) bool {
				return len(ps) == 1 || (ps[1].kind == 0 && ps[1].lit != "" && !(ps[1].lit[0] >= '0' && ps[1].lit[0] <= '9'))
			}
			if delim(pa) && delim(pb) {
				conds = append(conds, c.Eq(x.t, y.t))
				pa, pb = pa[1:], pb[1:]
				continue
			}
			// undelimited concatenation of decimals
			if len(pa) == 2 && len(pb) == 2 && pa[1].kind == 'd' && pb[1].kind == 'd' {
				conds = append(conds, e.decCatEq(pa, pb))
				return c.And(conds...)
			}
			fail("string comparison of adjacent decimals")
		case x.kind == 'd' && y.kind == 0:
			// literal decimal prefix
			n := 0
			if n < len(y.lit) && y.lit[n] == '-' {
				n++
			}
			for n < len(y.lit) && y.lit[n] >= '0' && y.lit[n] <= '9' {
				n++
			}
			if n == 0 {
				return c.False
			}
			if n == len(y.lit) && len(pb) > 1 || len(pa) > 1 && !(pa[1].kind == 0 && !(pa[1].lit[0] >= '0' && pa[1].lit[0] <= '9')) {
				fail("string comparison decimal/literal")
			}
			v, ok := new(big.Int).SetString(y.lit[:n], 10)
			if !ok || v.String() != y.lit[:n] {
				return c.False
			}
			conds = append(conds, c.Eq(x.t, c.Int(v)))
			pb[0].lit = y.lit[n:]
			if pb[0].lit == "" {
				pb = pb[1:]
			}
			pa = pa[1:]
		case y.kind == 'd' && x.kind == 0:
			pa, pb = pb, pa
		default:
			fail("string comparison %c/%c", x.kind, y.kind)
		}
	}
}

// decCatEq: text(a0)text(a1) == text(b0)text(b1) for integers below 10^8 in
// magnitude: encoded exactly through digit counts.
func (e *Engine) decCatEq(pa, pb []Piece) *Term {
	c := e.c
	const D = 8
	digits := func(t *Term, k int) *Term { // |t| has exactly k digits
		lo := bi(0)
		if k > 1 {
			lo = new(big.Int).Exp(bi(10), bi(int64(k-1)), nil)
		}
		hi := new(big.Int).Exp(bi(10), bi(int64(k)), nil)
		abs := c.Ite(c.Le(c.I(0), t), t, c.Neg(t))
		return c.And(c.Le(c.Int(lo), abs), c.Lt(abs, c.Int(hi)))
	}
	neg := func(t *Term) *Term { return c.Lt(t, c.I(0)) }
	abs := func(t *Term) *Term { return c.Ite(c.Le(c.I(0), t), t, c.Neg(t)) }
	for _, p := range []Piece{pa[0], pa[1], pb[0], pb[1]} {
		if p.t.hi == nil || p.t.lo == nil || p.t.hi.BitLen() > 26 || p.t.lo.BitLen() > 26 {
			fail("decimal concatenation range")
		}
	}
	same := c.And(c.Eq(pa[0].t, pb[0].t), c.Eq(pa[1].t, pb[1].t))
	// second negative: '-' delimits, so equality is componentwise; if exactly
	// one second is negative the texts differ in the position of '-'.
	bothNeg := c.And(neg(pa[1].t), neg(pb[1].t))
	bothPos := c.And(c.Not(neg(pa[1].t)), c.Not(neg(pb[1].t)))
	val := func(x, y *Term) *Term { // integer with digits |x| then y
		var r *Term = c.I(0)
		for k := D; k >= 1; k-- {
			p := new(big.Int).Exp(bi(10), bi(int64(k)), nil)
			r = c.Ite(digits(y, k), c.Add(c.Scale(abs(x), p), y), r)
		}
		return r
	}
	// equal digit sequence needs the same total length; leading zero only
	// occurs when the first number is 0.
	var lenEq []*Term
	for i := 1; i <= D; i++ {
		for j := 1; j <= D; j++ {
			for k := 1; k <= D; k++ {
				l := i + j - k
				if l < 1 || l > D {
					continue
				}
				lenEq = append(lenEq, c.And(digits(pa[0].t, i), digits(pa[1].t, j), digits(pb[0].t, k), digits(pb[1].t, l)))
			}
		}
	}
	pos := c.And(bothPos, c.Eq(neg(pa[0].t), neg(pb[0].t)), c.Or(lenEq...), c.Eq(val(pa[0].t, pa[1].t), val(pb[0].t, pb[1].t)))
	return c.Or(same, c.And(bothNeg, same), pos)
}
