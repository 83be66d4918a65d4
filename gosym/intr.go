package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"path"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "/zzverif/sym."

func isSym(name string) (string, bool) {
	if i := strings.Index(name, symPkg); i >= 0 {
		s := name[i+len(symPkg):]
		s = strings.TrimPrefix(s, "Z).")
		return s, true
	}
	return "", false
}

func (e *Engine) fnArgs(v Value, st *State) []Value {
	s, ok := v.(SliceV)
	if !ok {
		fail("variadic")
	}
	var r []Value
	for i := 0; i < s.len; i++ {
		r = append(r, e.loadPtr(st, s.p.elem(s.off+i)))
	}
	return r
}

func (e *Engine) str(v Value) string {
	s, ok := v.(StrV)
	if !ok {
		fail("expected string %T", v)
	}
	c, ok := s.concrete()
	if !ok {
		fail("expected concrete string")
	}
	return c
}

func (e *Engine) input(st *State, name string, s Sort, lo, hi *big.Int) *Term {
	n := st.names[name]
	st.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	// the same name may stand for different ranges on different paths
	key := full
	if lo != nil && hi != nil {
		key += "@" + lo.Text(62) + "," + hi.Text(62)
	}
	t := e.c.Var(key, s, lo, hi)
	st.inputs = append(st.inputs, inputRec{full, t})
	return t
}

func (e *Engine) newBoxed(st *State, v Value) Ptr { return Ptr{obj: e.alloc(st, v)} }

// intrinsic returns (value, true) when it handled the call.  A nil value means
// control was transferred by the intrinsic itself.
func (e *Engine) intrinsic(st *State, f *Frame, in ssa.Instruction, fn *ssa.Function, name string, args []Value) (Value, bool) {
	c := e.c
	if s, ok := isSym(name); ok {
		if v, ok := e.symCall(st, f, in, s, args); ok {
			return v, true
		}
		return nil, false
	}
	switch name {
	case "math/bits.Add64", "math/bits.Add":
		s := c.Sum(e.term(args[0]), e.term(args[1]), e.term(args[2]))
		q := c.divConst(s, pow2(64))
		return Tuple{c.WrapU(s, 64), q}, true
	case "math/bits.Sub64", "math/bits.Sub":
		s := c.Sub(c.Sub(e.term(args[0]), e.term(args[1])), e.term(args[2]))
		q := c.divConst(s, pow2(64))
		return Tuple{c.WrapU(s, 64), c.Neg(q)}, true
	case "math/bits.Mul64", "math/bits.Mul":
		s := c.Mul(e.term(args[0]), e.term(args[1]))
		return Tuple{c.divConst(s, pow2(64)), c.WrapU(s, 64)}, true
	case "math/bits.Div64", "math/bits.Div":
		hi, lo, d := e.term(args[0]), e.term(args[1]), e.term(args[2])
		if e.branch(st, c.Le(d, hi)) {
			e.gopanic(st, "bits.Div64: overflow or divide by zero")
		}
		n := c.Add(c.Scale(hi, pow2(64)), lo)
		q := c.Div(n, d)
		c.refine(q, bi0, bsub(pow2(64), bi1))
		r := c.Mod(n, d)
		return Tuple{q, r}, true
	case "math/bits.LeadingZeros64", "math/bits.LeadingZeros":
		l := e.bitLen(st, e.term(args[0]))
		return c.Sub(c.I(64), l), true
	case "math/bits.Len64", "math/bits.Len":
		return e.bitLen(st, e.term(args[0])), true
	case "math/bits.Div32":
		hi, lo, d := e.term(args[0]), e.term(args[1]), e.term(args[2])
		if e.branch(st, c.Le(d, hi)) {
			e.gopanic(st, "bits.Div32: overflow or divide by zero")
		}
		n := c.Add(c.Scale(hi, pow2(32)), lo)
		q := c.Div(n, d)
		c.refine(q, bi0, bsub(pow2(32), bi1))
		return Tuple{q, c.Mod(n, d)}, true
	case "sort.Float64s":
		e.sortFloats(st, args[0])
		return Tuple{}, true
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "log.Println", "log.Printf":
		return Tuple{c.I(0), IfaceV{}}, true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf", "fmt.Sprintln":
		return e.fmtCall(st, name, args)
	case "strconv.Itoa":
		return StrV{}.cat(StrV{[]Piece{{kind: 'd', t: e.term(args[0])}}}), true
	case "strconv.FormatInt", "strconv.FormatUint":
		if b := e.term(args[1]); b.isConst() && b.c.Cmp(bi(10)) == 0 {
			return StrV{}.cat(StrV{[]Piece{{kind: 'd', t: e.term(args[0])}}}), true
		}
	case "strings.Join":
		s := args[0].(SliceV)
		sep := args[1].(StrV)
		var r StrV
		for i := 0; i < s.len; i++ {
			if i > 0 {
				r = r.cat(sep)
			}
			r = r.cat(e.loadPtr(st, s.p.elem(s.off+i)).(StrV))
		}
		return r, true
	case "time.Now":
		return e.zero(fn.Signature.Results().At(0).Type()), true
	case "errors.New":
		return e.mkErr(st, args[0].(StrV)), true
	case "runtime.FuncForPC", "runtime.Caller":
		fail("runtime reflection")
	case "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.Log", "math.Sqrt", "math.Abs", "math.Max", "math.Min", "math.Float64bits", "math.Float64frombits", "math.Pow", "math.Exp", "math.IsNaN", "math.IsInf", "math.Inf", "math.NaN", "math.Mod", "math.RoundToEven":
		return e.mathCall(st, name, args), true
	case "sync/atomic.AddInt32", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return Tuple{}, true
	case "(*sync.Once).Do":
		p := args[0].(Ptr)
		_ = p
		fail("sync.Once")
	}
	if v, ok := e.jsonCall(st, name, args); ok {
		return v, true
	}
	if strings.HasPrefix(name, "(*math/big.Float).") {
		return e.bigFloatCall(st, name, args)
	}
	if strings.HasPrefix(name, "(*math/big.Int).") || strings.HasPrefix(name, "math/big.") {
		if v, ok := e.bigCall(st, name, args); ok {
			return v, true
		}
		fail("unmodelled %s", name)
	}
	return nil, false
}

func (e *Engine) mkErr(st *State, s StrV) IfaceV {
	pk := e.p.pkgs["errors"]
	if pk == nil {
		fail("errors package not loaded")
	}
	ty := pk.Type("errorString").Type()
	p := e.newBoxed(st, &Agg{[]Value{s}})
	return IfaceV{types.NewPointer(ty), p}
}

// bitLen: symbolic bit length of a 64-bit word through fresh s with
// 2^(s-1) <= x < 2^s, or by forking when shifts are forked.
func (e *Engine) bitLen(st *State, x *Term) *Term {
	c := e.c
	if x.isConst() {
		return c.I(int64(x.c.BitLen()))
	}
	if st.cons["symshift"] {
		if e.branch(st, c.Eq(x, c.I(0))) {
			return c.I(0)
		}
		// normalising shift s in [0,63]: 2^63 <= x*2^s < 2^64
		s := c.Var(fmt.Sprintf("clz!%d", x.id), SInt, bi0, bi(63))
		p := c.Mul(x, c.Pow2(s))
		e.assumeModel(st, c.And(c.Le(c.Int(pow2(63)), p), c.Lt(p, c.Int(pow2(64)))))
		c.refine(p, pow2(63), bsub(pow2(64), bi1))
		return c.Sub(c.I(64), s)
	}
	// fork over the length
	for k := 64; k >= 1; k-- {
		if x.hi != nil && x.hi.BitLen() < k {
			continue
		}
		if e.branch(st, c.Le(c.Int(pow2(k-1)), x)) {
			return c.I(int64(k))
		}
	}
	return c.I(0)
}

// assumeModel adds a definitional constraint and repairs the cached model.
func (e *Engine) assumeModel(st *State, cond *Term) {
	if cond.op == OFalse {
		panic(pathEnd{"infeasible"})
	}
	ok, m := e.feasible(st, cond)
	if !ok {
		panic(pathEnd{"infeasible"})
	}
	e.assume(st, cond)
	if m != st.model {
		st.model, st.ev = m, nil
	}
}

func (e *Engine) fmtCall(st *State, name string, args []Value) (Value, bool) {
	var r StrV
	if name == "fmt.Sprint" || name == "fmt.Sprintln" {
		vs := e.fnArgs(args[0], st)
		for i, v := range vs {
			if i > 0 && name == "fmt.Sprintln" {
				r = r.cat(lit(" "))
			}
			r = r.cat(e.fmtVal(st, v, 'v'))
		}
		if name == "fmt.Sprintln" {
			r = r.cat(lit("\n"))
		}
		return r, true
	}
	f := e.str(args[0])
	vs := e.fnArgs(args[1], st)
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = r.cat(lit(string(f[i])))
			continue
		}
		i++
		if i >= len(f) {
			break
		}
		switch f[i] {
		case '%':
			r = r.cat(lit("%"))
		case 'd', 'v', 's', 'w':
			if k < len(vs) {
				r = r.cat(e.fmtVal(st, vs[k], f[i]))
				k++
			}
		default:
			if name == "fmt.Errorf" {
				r = r.cat(lit("?"))
				continue
			}
			fail("format %%%c", f[i])
		}
	}
	if name == "fmt.Errorf" {
		return e.mkErr(st, r), true
	}
	return r, true
}

func (e *Engine) fmtVal(st *State, v Value, verb byte) StrV {
	if iv, ok := v.(IfaceV); ok {
		if iv.t == nil {
			return lit("<nil>")
		}
		if b, ok := iv.t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				return iv.v.(StrV)
			case b.Info()&types.IsInteger != 0:
				return StrV{}.cat(StrV{[]Piece{{kind: 'd', t: e.term(iv.v)}}})
			case b.Info()&types.IsBoolean != 0:
				t := e.term(iv.v)
				if e.branch(st, t) {
					return lit("true")
				}
				return lit("false")
			}
		}
		// opaque formatting
		return lit("<fmt>")
	}
	return lit("<fmt>")
}

// ---- math/big.Int as exact integers

func (e *Engine) big(st *State, v Value) *Term {
	p, ok := v.(Ptr)
	if !ok {
		if g, ok := v.(GPtr); ok {
			return e.big(st, e.resolve(st, g))
		}
		if m, ok := v.(MPtr); ok {
			return e.big(st, e.resolveM(st, m))
		}
		fail("big.Int pointer %T", v)
	}
	if p.obj == 0 {
		e.gopanic(st, "nil big.Int")
	}
	b, ok := e.loadPtr(st, p).(*BigV)
	if !ok {
		fail("big.Int value %T", e.loadPtr(st, p))
	}
	return b.t
}

func (e *Engine) bigCall(st *State, name string, args []Value) (Value, bool) {
	c := e.c
	if name == "math/big.NewInt" {
		return e.newBoxed(st, &BigV{e.term(args[0])}), true
	}
	if !strings.HasPrefix(name, "(*math/big.Int).") {
		return nil, false
	}
	m := strings.TrimPrefix(name, "(*math/big.Int).")
	b := func(i int) *Term { return e.big(st, args[i]) }
	set := func(t *Term) (Value, bool) {
		p, ok := args[0].(Ptr)
		if !ok {
			fail("big dest")
		}
		if p.obj == 0 {
			e.gopanic(st, "nil big.Int")
		}
		e.storePtr(st, p, &BigV{t})
		return p, true
	}
	cmp := func(x, y *Term) *Term {
		return c.Ite(c.Lt(x, y), c.I(-1), c.Ite(c.Eq(x, y), c.I(0), c.I(1)))
	}
	abs := func(x *Term) *Term {
		if x.nonneg() {
			return x
		}
		return c.Ite(c.Le(c.I(0), x), x, c.Neg(x))
	}
	switch m {
	case "Add":
		return set(c.Add(b(1), b(2)))
	case "Sub":
		return set(c.Sub(b(1), b(2)))
	case "Mul":
		return set(c.Mul(b(1), b(2)))
	case "Neg":
		return set(c.Neg(b(1)))
	case "Abs":
		return set(abs(b(1)))
	case "Sqrt":
		x := b(1)
		if !x.nonneg() && e.branch(st, c.Lt(x, c.I(0))) {
			e.gopanic(st, "square root of negative number")
		}
		return set(e.isqrt(st, x))
	case "Set":
		return set(b(1))
	case "SetInt64", "SetUint64":
		return set(e.term(args[1]))
	case "Quo", "Div", "Rem", "Mod":
		x, y := b(1), b(2)
		if e.branch(st, c.Eq(y, c.I(0))) {
			e.gopanic(st, "big: division by zero")
		}
		if (x.nonneg() || m == "Div" || m == "Mod") && y.pos() {
			switch m {
			case "Quo", "Div":
				return set(c.Div(x, y))
			default:
				return set(c.Mod(x, y))
			}
		}
		if m == "Quo" || m == "Rem" {
			q := e.truncDiv(st, x, y)
			if m == "Quo" {
				return set(q)
			}
			return set(c.Sub(x, c.Mul(q, y)))
		}
		ay := abs(y)
		if !ay.pos() {
			if e.branch(st, c.Lt(c.I(0), y)) {
				ay = y
			} else {
				ay = c.Neg(y)
			}
		}
		r := c.Mod(x, ay)
		if m == "Mod" {
			return set(r)
		}
		return set(c.Ite(c.Lt(c.I(0), y), c.Div(x, ay), c.Neg(c.Div(x, ay))))
	case "Cmp":
		return cmp(b(0), b(1)), true
	case "CmpAbs":
		return cmp(abs(b(0)), abs(b(1))), true
	case "Sign":
		return cmp(b(0), c.I(0)), true
	case "Lsh", "Rsh":
		s := e.term(args[2])
		if !s.isConst() {
			s = c.Int(e.concretize(st, s, 300))
		}
		p := c.Int(pow2(int(s.c.Int64())))
		if m == "Lsh" {
			return set(c.Mul(b(1), p))
		}
		return set(c.Div(b(1), p))
	case "Exp":
		x, y := b(1), b(2)
		var mod *Term
		if p, ok := args[3].(Ptr); ok && p.obj != 0 {
			mod = b(3)
		}
		if x.isConst() && y.isConst() && (mod == nil || mod.isConst()) {
			var mm *big.Int
			if mod != nil {
				mm = mod.c
			}
			return set(c.Int(new(big.Int).Exp(x.c, y.c, mm)))
		}
		fail("big Exp")
	case "String", "Text":
		if m == "Text" && (!e.term(args[1]).isConst() || e.term(args[1]).c.Cmp(bi(10)) != 0) {
			fail("big Text")
		}
		return StrV{}.cat(StrV{[]Piece{{kind: 'd', t: b(0)}}}), true
	case "SetString":
		s, ok := args[1].(StrV).concrete()
		if ps := args[1].(StrV).ps; !ok && len(ps) == 1 && ps[0].kind == 'd' && e.term(args[2]).isConst() && e.term(args[2]).c.Cmp(bi(10)) == 0 {
			r, _ := set(ps[0].t)
			return Tuple{r, c.True}, true
		}
		bs := e.term(args[2])
		if !ok || !bs.isConst() {
			fail("big SetString symbolic")
		}
		v, good := new(big.Int).SetString(s, int(bs.c.Int64()))
		if !good {
			return Tuple{Ptr{}, c.False}, true
		}
		r, _ := set(c.Int(v))
		return Tuple{r, c.True}, true
	case "IsUint64":
		return c.And(c.Le(c.I(0), b(0)), c.Lt(b(0), c.Int(pow2(64)))), true
	case "IsInt64":
		return c.And(c.Le(c.Int(bneg(pow2(63))), b(0)), c.Lt(b(0), c.Int(pow2(63)))), true
	case "Uint64":
		x := b(0)
		return c.WrapU(abs(x), 64), true // low bits of |x|; sign handled below
	case "Int64":
		x := b(0)
		return c.WrapS(x, 64), true
	case "Bits":
		x := abs(b(0))
		n := e.words(st, x)
		a := &Agg{}
		for i := 0; i < n; i++ {
			a.e = append(a.e, c.Extract(x, 64*i, 64))
		}
		if n == 0 {
			return SliceV{p: Ptr{obj: e.alloc(st, &Agg{})}}, true
		}
		return SliceV{p: Ptr{obj: e.alloc(st, a)}, len: n, cap: n}, true
	case "SetBits":
		s := args[1].(SliceV)
		t := c.I(0)
		for i := 0; i < s.len; i++ {
			t = c.Add(t, c.Scale(e.term(e.loadPtr(st, s.p.elem(s.off+i))), pow2(64*i)))
		}
		return set(t)
	case "Bytes":
		x := abs(b(0))
		n := 0
		for n = 0; n < 41; n++ {
			if e.branch(st, c.Lt(x, c.Int(pow2(8*n)))) {
				break
			}
		}
		a := &Agg{}
		for i := n - 1; i >= 0; i-- {
			a.e = append(a.e, c.Extract(x, 8*i, 8))
		}
		return SliceV{p: Ptr{obj: e.alloc(st, a)}, len: n, cap: n}, true
	case "SetBytes":
		s := args[1].(SliceV)
		t := c.I(0)
		for i := 0; i < s.len; i++ {
			t = c.Add(c.Scale(t, bi(256)), e.term(e.loadPtr(st, s.p.elem(s.off+i))))
		}
		return set(t)
	case "BitLen":
		x := abs(b(0))
		for k := 0; k <= 330; k++ {
			if e.branch(st, c.Lt(x, c.Int(pow2(k)))) {
				return c.I(int64(k)), true
			}
		}
		fail("BitLen")
	}
	return nil, false
}

func (e *Engine) words(st *State, x *Term) int {
	for k := 0; k <= 8; k++ {
		if e.branch(st, e.c.Lt(x, e.c.Int(pow2(64*k)))) {
			return k
		}
	}
	fail("big.Int too large")
	return 0
}

// ---- harness API

func (e *Engine) u256(st *State, v Value) *Term {
	switch p := v.(type) {
	case Ptr:
		if p.obj == 0 {
			e.gopanic(st, "nil *Int")
		}
		x := e.loadPtr(st, p)
		if o, ok := x.(Opaque); ok {
			fail("opaque 256-bit value: %s", o.why)
		}
		return e.packOf(x)
	case GPtr:
		var r *Term
		for i := len(p.alts) - 1; i >= 0; i-- {
			a := p.alts[i]
			if a.p.obj == 0 {
				return e.u256(st, e.resolve(st, p))
			}
			t := e.packOf(e.loadPtr(st, a.p))
			if r == nil {
				r = t
			} else {
				r = e.c.Ite(a.g, t, r)
			}
		}
		return r
	case MPtr:
		return e.c.Ite(p.c, e.u256(st, p.a), e.u256(st, p.b))
	case LamBox:
		return e.packOf(e.lamBoxLoad(st, p))
	}
	fail("256-bit pointer %T", v)
	return nil
}

func (e *Engine) signed256(t *Term) *Term {
	c := e.c
	if t.hi != nil && t.hi.Cmp(pow2(255)) < 0 {
		return t
	}
	return c.Sub(t, c.Ite(c.Le(c.Int(pow2(255)), t), c.Int(pow2(256)), c.I(0)))
}

func (e *Engine) symCall(st *State, f *Frame, in ssa.Instruction, s string, args []Value) (Value, bool) {
	c := e.c
	z := func(i int) *Term { return e.term(args[i]) }
	max256 := bsub(pow2(256), bi1)
	// method names arrive without the receiver prefix
	if e.noFork > 0 {
		switch s {
		case "U256", "U256R", "U256W", "U64", "Byte", "Int", "ZR", "Bool", "Choose", "Shard", "Float", "BytesN", "WordsN",
			"Assume", "Assert", "Lemma", "Fail", "Reach", "Probe", "Try", "Split", "Known":
			panic(mergeAbort{"harness call"})
		}
	}
	switch s {
	case "U256":
		return e.newBoxed(st, &Pack{e.input(st, e.str(args[0]), SInt, bi0, max256)}), true
	case "U256R":
		lo, hi := z(1), z(2)
		if !lo.isConst() || !hi.isConst() {
			fail("U256R bounds must be constant")
		}
		return e.newBoxed(st, &Pack{e.input(st, e.str(args[0]), SInt, lo.c, hi.c)}), true
	case "U256W":
		a := &Agg{}
		for i := 0; i < 4; i++ {
			a.e = append(a.e, e.input(st, fmt.Sprintf("%s.%d", e.str(args[0]), i), SInt, bi0, bsub(pow2(64), bi1)))
		}
		return e.newBoxed(st, a), true
	case "U64":
		return e.input(st, e.str(args[0]), SInt, bi0, bsub(pow2(64), bi1)), true
	case "Byte":
		return e.input(st, e.str(args[0]), SInt, bi0, bi(255)), true
	case "Int":
		lo, hi := z(1), z(2)
		if !lo.isConst() || !hi.isConst() {
			fail("Int bounds must be constant")
		}
		return e.input(st, e.str(args[0]), SInt, lo.c, hi.c), true
	case "ZR":
		lo, hi := z(1), z(2)
		if !lo.isConst() || !hi.isConst() {
			fail("ZR bounds must be constant")
		}
		return e.input(st, e.str(args[0]), SInt, lo.c, hi.c), true
	case "Bool":
		t := e.input(st, e.str(args[0]), SInt, bi0, bi1)
		return c.Eq(t, c.I(1)), true
	case "Choose":
		n := z(1)
		nm := e.str(args[0])
		if !n.isConst() {
			fail("Choose")
		}
		// re-execution on fork must see the same variable
		k := st.names[nm]
		full := nm
		if k > 0 {
			full = fmt.Sprintf("%s#%d", nm, k)
		}
		// (input below makes the same one)
		full += "@" + bi0.Text(62) + "," + bsub(n.c, bi1).Text(62)
		t := c.Var(full, SInt, bi0, bsub(n.c, bi1))
		var v int64
		for v = 0; v < n.c.Int64(); v++ {
			if v == n.c.Int64()-1 || e.chooseBranch(st, c.Eq(t, c.I(v))) {
				break
			}
		}
		e.assume(st, c.Eq(t, c.I(v)))
		e.setModelInt(st, t, bi(v))
		e.input(st, nm, SInt, bi0, bsub(n.c, bi1))
		return c.I(v), true
	case "Shard":
		n := z(0)
		if e.shard < 0 {
			e.nshard = int(n.c.Int64())
			e.stop = true
			panic(pathEnd{"shard probe"})
		}
		if int64(e.nshard) != n.c.Int64() {
			fail("sym.Shard(%v): the harness runs %d shards", n.c, e.nshard)
		}
		t := e.input(st, "shard", SInt, bi0, bi(1000))
		e.assume(st, c.Eq(t, c.I(int64(e.shard))))
		e.setModelInt(st, t, bi(int64(e.shard)))
		return c.I(int64(e.shard)), true
	case "Assume":
		t := z(0)
		if t.op == OFalse {
			panic(pathEnd{"assume"})
		}
		if t.op == OTrue {
			return Tuple{}, true
		}
		ok, m := e.feasible(st, t)
		if !ok {
			panic(pathEnd{"assume"})
		}
		e.assume(st, t)
		if m != st.model {
			st.model, st.ev = m, nil
		}
		return Tuple{}, true
	case "Assert":
		e.assertion(st, z(0), e.str(args[1]), false)
		return Tuple{}, true
	case "Lemma":
		e.assertion(st, z(0), e.str(args[1]), true)
		return Tuple{}, true
	case "Fail":
		e.assertion(st, c.False, e.str(args[0]), false)
		return Tuple{}, true
	case "Reach":
		e.reachLabel(st, e.str(args[0]))
		return Tuple{}, true
	case "Probe":
		st.probes = append(st.probes, inputRec{e.str(args[0]), z(1)})
		return Tuple{}, true
	case "Try":
		fv := args[0].(FuncV)
		fr := e.pushFrame(st, fv.fn, nil, fv.bind, in)
		fr.try = true
		return nil, true
	case "And", "Or":
		var ts []*Term
		for _, v := range e.fnArgs(args[0], st) {
			ts = append(ts, e.term(v))
		}
		if s == "And" {
			return c.And(ts...), true
		}
		return c.Or(ts...), true
	case "Not":
		return c.Not(z(0)), true
	case "Implies":
		return c.Implies(z(0), z(1)), true
	case "Iff":
		return c.Iff(z(0), z(1)), true
	case "Unwind":
		st.unwind = int(z(0).c.Int64())
		return Tuple{}, true
	case "Bound":
		e.bounds[e.str(args[0])] = e.str(args[1])
		return Tuple{}, true
	case "Contracts":
		for _, v := range e.fnArgs(args[0], st) {
			for _, w := range strings.Fields(e.str(v)) {
				if strings.HasPrefix(w, "-") {
					delete(st.cons, w[1:])
				} else {
					st.cons[w] = true
				}
			}
		}
		return Tuple{}, true
	case "Replace", "Stand":
		m := map[string]FuncV{}
		for k, v := range st.repl {
			m[k] = v
		}
		m[e.str(args[0])] = args[1].(IfaceV).v.(FuncV)
		st.repl = m
		return Tuple{}, true
	case "Cut":
		m := map[string]FuncV{}
		for k, v := range st.cutFns {
			m[k] = v
		}
		m[e.str(args[0])] = args[1].(FuncV)
		st.cutFns = m
		return Tuple{}, true
	case "Loop":
		m := map[string]loopReg{}
		for k, v := range st.loops {
			m[k] = v
		}
		m[e.str(args[0])] = loopReg{int(z(1).c.Int64()), args[2].(FuncV)}
		st.loops = m
		return Tuple{}, true
	case "Reinit":
		e.reinit(st, in, e.str(args[0]), z(1))
		return nil, true
	case "RatioOrder":
		return c.Bool(ratioOrder()), true
	case "TickTable":
		e.tickTable(st, args[0])
		return Tuple{}, true
	case "Havoc64":
		// overwrite every word of a slice with fresh unconstrained words
		sl := args[0].(SliceV)
		for i := 0; i < sl.len; i++ {
			e.sliceSet(st, sl, i, c.Fresh("hv", SInt, bi0, bsub(pow2(64), bi1)))
		}
		return Tuple{}, true
	case "Merge":
		st.merge = z(0).op == OTrue
		return Tuple{}, true
	case "Split":
		// force a case split on a condition (useful as a proof hint)
		return c.Bool(e.branch(st, z(0))), true
	case "Infeasible":
		// prunes a path when the solver can show it impossible (full effort)
		v, _ := e.sol.Check(st.pc, []*Term{c.True}, 1*time.Second, true)
		_ = v
		return Tuple{}, true
	case "Native":
		return c.False, true
	case "Known":
		// syntactically true: a hint for which of two equal forms to use
		return c.Bool(z(0).op == OTrue), true
	// ---- integers
	case "I":
		return z(0), true
	case "OfInt", "OfU64":
		return z(0), true
	case "Of":
		return e.u256(st, args[0]), true
	case "OfS":
		return e.signed256(e.u256(st, args[0])), true
	case "OfBig":
		return e.big(st, args[0]), true
	case "OfB":
		return c.Ite(z(0), c.I(1), c.I(0)), true
	case "Str":
		v, ok := new(big.Int).SetString(e.str(args[0]), 0)
		if !ok {
			fail("sym.Str %q", e.str(args[0]))
		}
		return c.Int(v), true
	case "P2":
		t := z(0)
		if t.isConst() {
			return c.Int(pow2(int(t.c.Int64()))), true
		}
		return c.Pow2(t), true
	case "ToU256":
		return e.newBoxed(st, &Pack{e.wrap(st, z(0), 256, false)}), true
	case "ToBig":
		return e.newBoxed(st, &BigV{z(0)}), true
	case "ToInt":
		return e.wrap(st, z(0), 64, true), true
	case "ToU64":
		return e.wrap(st, z(0), 64, false), true
	case "Add":
		return c.Add(z(0), z(1)), true
	case "Sub":
		return c.Sub(z(0), z(1)), true
	case "Mul":
		return c.Mul(z(0), z(1)), true
	case "Neg":
		return c.Neg(z(0)), true
	case "Div":
		return c.Div(z(0), z(1)), true
	case "Mod":
		return c.Mod(z(0), z(1)), true
	case "ModN":
		// representative modulo 2^k, syntactic form
		return c.WrapU(z(0), int(z(1).c.Int64())), true
	case "CeilDiv":
		return c.Neg(c.Div(c.Neg(z(0)), z(1))), true
	case "Le":
		return c.Le(z(0), z(1)), true
	case "Lt":
		return c.Lt(z(0), z(1)), true
	case "Ge":
		return c.Le(z(1), z(0)), true
	case "Gt":
		return c.Lt(z(1), z(0)), true
	case "Eq":
		return c.Eq(z(0), z(1)), true
	case "Ne":
		return c.Not(c.Eq(z(0), z(1))), true
	case "Ite":
		return c.Ite(z(0), z(1), z(2)), true
	case "IteB":
		return c.Ite(z(0), z(1), z(2)), true
	case "Min":
		return c.Ite(c.Le(z(0), z(1)), z(0), z(1)), true
	case "Max":
		return c.Ite(c.Le(z(0), z(1)), z(1), z(0)), true
	case "Abs":
		return c.Ite(c.Le(c.I(0), z(0)), z(0), c.Neg(z(0))), true
	case "BAnd":
		return c.BAnd(z(0), z(1)), true
	case "BOr":
		return c.BOr(z(0), z(1)), true
	case "BXor":
		return c.BXor(z(0), z(1)), true
	case "Bits":
		return c.Extract(z(0), int(z(1).c.Int64()), int(z(2).c.Int64())), true
	case "UF1":
		nm := e.str(args[0])
		return c.UF(nm, SInt, nil, nil, z(1)), true
	case "Isqrt":
		return e.isqrt(st, z(0)), true
	case "SqrtRatio":
		return e.sqrtRatio(z(0)), true
	case "TickAt":
		return e.tickAt(st, z(0)), true
	case "StrEq":
		return e.strEq(args[0].(StrV), args[1].(StrV)), true
	case "Digits":
		return StrV{}.cat(StrV{[]Piece{{kind: 'd', t: z(0)}}}), true
	case "BytesN":
		// fresh symbolic byte slice of concrete length
		n := int(z(1).c.Int64())
		el := types.Typ[types.Uint8]
		sl := e.mkSlice(st, el, n, n)
		a := &Agg{}
		for i := 0; i < n; i++ {
			a.e = append(a.e, e.input(st, fmt.Sprintf("%s.%d", e.str(args[0]), i), SInt, bi0, bi(255)))
		}
		if n > 0 {
			st.heap[sl.p.obj] = a
		}
		return sl, true
	case "WordsN":
		n := int(z(1).c.Int64())
		el := types.Typ[types.Uint64]
		sl := e.mkSlice(st, el, n, n)
		a := &Agg{}
		for i := 0; i < n; i++ {
			a.e = append(a.e, e.input(st, fmt.Sprintf("%s.%d", e.str(args[0]), i), SInt, bi0, bsub(pow2(64), bi1)))
		}
		if n > 0 {
			st.heap[sl.p.obj] = a
		}
		return sl, true
	case "Float":
		return e.floatInput(st, e.str(args[0])), true
	case "Serve":
		parts := args[1].(SliceV)
		j := &JsonV{kind: 'a'}
		for i := 0; i < parts.len; i++ {
			j.kids = append(j.kids, e.bytesJson(st, e.loadPtr(st, parts.p.elem(parts.off+i))))
		}
		st.file = j
		n := path.Clean(e.str(args[0]))
		st.dirs = append([]string(nil), st.dirs...)
		for d := path.Dir(n); d != "."; d = path.Dir(d) {
			st.dirs = append(st.dirs, d)
		}
		st.create(n)
		st.write(n, j)
		return Tuple{}, true
	case "Written":
		for _, f := range st.outs {
			if f.name == path.Clean(e.str(args[0])) && len(f.parts) == 1 {
				return Tuple{e.jsonBytes(st, f.parts[0]), c.True}, true
			}
		}
		return Tuple{e.jsonBytes(st, &JsonV{kind: '0'}), c.False}, true
	case "Exact":
		e.exactFloats()
		return Tuple{}, true
	case "Close":
		a, b, t := e.term(args[0]), e.term(args[1]), e.term(args[2])
		d := c.RSub(a, b)
		if a == b {
			return c.True, true
		}
		return c.Or(c.rcmp(OREq, a, b), c.And(c.rcmp(ORLe, d, t), c.rcmp(ORLe, c.RSub(c.Rat(new(big.Rat)), t), d))), true
	case "FEq":
		return e.binop(st, token.EQL, args[0], args[1], types.Typ[types.Float64], types.Typ[types.Float64]), true
	case "Near":
		return e.near(e.term(args[0]), e.term(args[1]), e.term(args[2]), e.term(args[3]).c.Int64()), true
	case "Snap", "Same":
		return e.snapCall(st, s, args), true
	}
	return nil, false
}

// chooseBranch forks without consulting the solver
func (e *Engine) chooseBranch(st *State, cond *Term) bool {
	if cond.op == OTrue {
		return true
	}
	if cond.op == OFalse {
		return false
	}
	if st.pcset[cond.id] {
		return true
	}
	nc := e.c.Not(cond)
	if st.pcset[nc.id] {
		return false
	}
	e.nforks++
	o := st.clone()
	e.assume(o, nc)
	e.push(o)
	e.assume(st, cond)
	return true
}

func (e *Engine) setModelInt(st *State, t *Term, v *big.Int) {
	if st.model == nil {
		return
	}
	m := mergeModel(st.model, NewModel())
	m.iv[t.id] = v
	st.model, st.ev = m, nil
}

// ---- assertions

func (e *Engine) astat(label string) *AssertStat {
	a := e.asserts[label]
	if a == nil {
		a = &AssertStat{Label: label}
		e.asserts[label] = a
		e.aorder = append(e.aorder, label)
	}
	return a
}

func (e *Engine) assertion(st *State, cond *Term, label string, lemma bool) {
	c := e.c
	a := e.astat(label)
	parts := []*Term{cond}
	if cond.op == OAnd {
		parts = cond.args
	}
	allSyn := true
	for _, p := range parts {
		if p.op == OTrue || st.pcset[p.id] {
			continue
		}
		allSyn = false
		e.checkDeadline()
		v, m := e.sol.Check(st.pc, []*Term{c.Not(p)}, e.assertTO, false)
		if v == Sat {
			// contract functions are abstract in the query: refine with exact
			// values until the counterexample is real or the claim is proved
			v, m = e.refineCex(st, c.Not(p), m)
		}
		switch v {
		case Unsat:
			a.Solver++
			e.assume(st, p)
		case Sat:
			a.Failed++
			e.candidate(st, "assert", label, mergeModel(st.model, m), c.Not(p))
			e.assumeOrEnd(st, p)
		default:
			if e.huntCex(st, c.Not(p), label) {
				a.Failed++
			} else if e.retries++; e.retries <= 2 {
				// once more, with more time
				switch v, m := e.sol.Check(st.pc, []*Term{c.Not(p)}, 5*e.assertTO/2, false); v {
				case Unsat:
					a.Solver++
					e.assume(st, p)
					continue
				case Sat:
					if v, m = e.refineCex(st, c.Not(p), m); v == Sat {
						a.Failed++
						e.candidate(st, "assert", label, mergeModel(st.model, m), c.Not(p))
					} else {
						a.Unknown_++
					}
				default:
					a.Unknown_++
				}
			} else {
				a.Unknown_++
			}
			e.assumeOrEnd(st, p)
		}
	}
	if allSyn {
		a.Syntactic++
	}
}

func (e *Engine) assumeOrEnd(st *State, p *Term) {
	ok, m := e.feasible(st, p)
	if !ok {
		panic(pathEnd{"after failed assertion"})
	}
	e.assume(st, p)
	if m != st.model {
		st.model, st.ev = m, nil
	}
}

func (e *Engine) modelInputs(st *State, m *Model) map[string]string {
	ev := e.c.evaluator(m, true)
	out := map[string]string{}
	for _, in := range st.inputs {
		switch in.t.sort {
		case SInt:
			out[in.name] = ev.Int(in.t).String()
		case SReal:
			r := ev.Real(in.t)
			fl, _ := r.Float64()
			out[in.name] = strconv.FormatFloat(fl, 'g', -1, 64)
		}
	}
	return out
}

func (e *Engine) reachLabel(st *State, label string) {
	if e.reach[label] != nil || e.noReach {
		e.reachWant[label] = true
		return
	}
	e.reachWant[label] = true
	m := st.model
	good := false
	if m != nil {
		good = e.pcHolds(st, m, nil)
	}
	if !good {
		v, nm := e.sol.Check(st.pc, []*Term{e.c.True}, 10*time.Second, false)
		_ = v
		v, nm = e.fullModel(st, nil, 10*time.Second)
		if v != Sat {
			return
		}
		m = nm
		if !e.pcHolds(st, m, nil) {
			v, m = e.refineCex(st, e.c.True, m)
			if v != Sat || !e.pcHolds(st, m, nil) {
				return
			}
		}
	}
	w := &Witness{Label: label, Inputs: e.modelInputs(st, m), Probes: map[string]string{}}
	ev := e.c.evaluator(m, true)
	for _, p := range st.probes {
		if p.t.sort == SBool {
			w.Probes[p.name] = fmt.Sprint(ev.Bool(p.t))
		} else {
			w.Probes[p.name] = ev.Int(p.t).String()
		}
	}
	if ev.bad {
		return
	}
	e.reach[label] = w
}

// fullModel solves the whole path condition (no slicing) with extra goals.
func (e *Engine) fullModel(st *State, goals []*Term, to time.Duration) (Verdict, *Model) {
	all := append(append([]*Term(nil), st.pc...), goals...)
	return e.sol.Check(nil, all, to, false)
}

// pcHolds evaluates the path condition (and extra) exactly under a model.
func (e *Engine) pcHolds(st *State, m *Model, extra *Term) bool {
	ev := e.c.evaluator(m, true)
	for _, p := range st.pc {
		if !ev.Bool(p) || ev.bad {
			return false
		}
	}
	if extra != nil && (!ev.Bool(extra) || ev.bad) {
		return false
	}
	return true
}
