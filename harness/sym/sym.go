// Package sym is the harness interface.  Under the checker every function
// here is interpreted symbolically; compiled natively it reads concrete inputs
// from a file so that counterexamples and witnesses are replayed against the
// real code.
package sym

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/hook"
)

// Z is an exact integer.
type Z struct{ v *big.Int }

type assumeFail struct{}
type AssertFail struct{ Label string }

var inputs map[string]string
var names map[string]int
var Strict = true

func reset() { names = map[string]int{} }

// LoadInputs reads "name value" lines.
func LoadInputs(path string) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	inputs = map[string]string{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		p := strings.SplitN(strings.TrimSpace(sc.Text()), " ", 2)
		if len(p) == 2 {
			inputs[p[0]] = p[1]
		}
	}
	reset()
	return sc.Err()
}

// Run executes one harness and prints its outcome.
func Run(f func()) {
	defer func() {
		for _, d := range scratch {
			os.RemoveAll(d)
		}
	}()
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			fmt.Println("DONE")
		case assumeFail:
			fmt.Println("ASSUME-FAIL")
		case AssertFail:
			fmt.Println("STOP after", x.Label)
		default:
			fmt.Printf("PANIC %v\n", r)
		}
	}()
	f()
}

func get(name string, def *big.Int) *big.Int {
	n := names[name]
	names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	s, ok := inputs[full]
	if !ok {
		return new(big.Int).Set(def)
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad input " + full + " " + s)
	}
	return v
}

var zero = big.NewInt(0)

func toU(v *big.Int) *ui.Int {
	var w [4]uint64
	x := new(big.Int).Set(v)
	m := new(big.Int).Lsh(big.NewInt(1), 256)
	x.Mod(x, m)
	mask := new(big.Int).SetUint64(^uint64(0))
	for i := 0; i < 4; i++ {
		w[i] = new(big.Int).And(x, mask).Uint64()
		x.Rsh(x, 64)
	}
	r := ui.Int(w)
	return &r
}

func fromU(x *ui.Int) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(x[i]))
	}
	return r
}

func U256(name string) *ui.Int { return toU(get(name, zero)) }
func U256R(name string, lo, hi Z) *ui.Int {
	v := get(name, lo.b())
	if v.Cmp(lo.b()) < 0 || v.Cmp(hi.b()) > 0 {
		panic(assumeFail{})
	}
	return toU(v)
}
func U256W(name string) *ui.Int {
	var w [4]uint64
	for i := range w {
		w[i] = get(fmt.Sprintf("%s.%d", name, i), zero).Uint64()
	}
	r := ui.Int(w)
	return &r
}
func U64(name string) uint64 { return get(name, zero).Uint64() }
func Byte(name string) byte  { return byte(get(name, zero).Uint64()) }
func Int(name string, lo, hi int) int {
	v := get(name, big.NewInt(int64(lo))).Int64()
	if v < int64(lo) || v > int64(hi) {
		panic(assumeFail{})
	}
	return int(v)
}
func ZR(name string, lo, hi Z) Z {
	v := get(name, lo.b())
	if v.Cmp(lo.b()) < 0 || v.Cmp(hi.b()) > 0 {
		panic(assumeFail{})
	}
	return Z{v}
}
func Bool(name string) bool { return get(name, zero).Sign() != 0 }
func Choose(name string, n int) int {
	v := int(get(name, zero).Int64())
	if v < 0 || v >= n {
		panic(assumeFail{})
	}
	return v
}
func Shard(n int) int { return int(get("shard", zero).Int64()) }
func BytesN(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(get(fmt.Sprintf("%s.%d", name, i), zero).Uint64())
	}
	return r
}
func WordsN(name string, n int) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = get(fmt.Sprintf("%s.%d", name, i), zero).Uint64()
	}
	return r
}
func Float(name string) float64 {
	s, ok := inputs[name]
	if !ok {
		return 0
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}
func Assert(b bool, label string) {
	if !b {
		fmt.Println("ASSERT-FAIL", label)
	}
}
func Lemma(b bool, label string) { Assert(b, label) }
func Fail(label string)          { Assert(false, label) }
func Reach(label string)         { fmt.Println("REACH", label) }
func Probe(name string, z Z)     { fmt.Println("PROBE", name, z.b().String()) }

// Try reports whether f panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFail); ok {
				panic(r)
			}
			fmt.Println("PANICKED", r)
			panicked = true
		}
	}()
	f()
	return false
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func Not(b bool) bool           { return !b }
func Implies(a, b bool) bool    { return !a || b }
func Iff(a, b bool) bool        { return a == b }
func Unwind(n int)              {}
func Bound(name, text string)   {}
func Contracts(names ...string) {}
func Merge(on bool)             {}

// Cut registers a loop invariant (checker only).
func Cut(fn string, inv func(assert bool, i int)) {}

// Havoc64 overwrites every word with a fresh value (checker only).
// Loop registers an invariant over the n values the outermost loop of fn
// carries (checker only): phase 0 states it on entry, 1 assumes it, 2 states
// it after one round that started from old.
func Loop(fn string, n int, inv func(phase int, old, now []Z)) {}

// Reinit runs a package's initialiser again, with the loop that fills a large
// table run once for an arbitrary round, the one for element k (checker only).
func Reinit(pkg string, k int) {}

// TickTable makes *v point to a fresh table of square-root prices (checker only).
func TickTable(v interface{}) {}

// Replace makes calls of fn reach f instead (f states what fn is known to do);
// without effect in native runs.
func Replace(fn string, f interface{}) {}

// Stand makes f stand in for fn in the checker and in native runs.
func Stand(fn string, f interface{}) { hook.Set(fn, f) }
func Havoc64(w []uint64)             {}
func Split(b bool) bool              { return b }
func Native() bool                   { return true }

// Known reports that b is plainly true without reasoning; a hint for choosing
// between equivalent forms.
func Known(b bool) bool { return b }

// ---- integers

func (z Z) b() *big.Int {
	if z.v == nil {
		return zero
	}
	return z.v
}
func I(v int) Z        { return Z{big.NewInt(int64(v))} }
func OfInt(v int) Z    { return Z{big.NewInt(int64(v))} }
func OfU64(v uint64) Z { return Z{new(big.Int).SetUint64(v)} }
func Of(x *ui.Int) Z   { return Z{fromU(x)} }
func OfS(x *ui.Int) Z {
	v := fromU(x)
	if v.Bit(255) == 1 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	return Z{v}
}
func OfBig(x *big.Int) Z { return Z{new(big.Int).Set(x)} }
func OfB(b bool) Z {
	if b {
		return I(1)
	}
	return I(0)
}
func Str(s string) Z {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("sym.Str " + s)
	}
	return Z{v}
}
func P2(k int) Z         { return Z{new(big.Int).Lsh(big.NewInt(1), uint(k))} }
func ToU256(z Z) *ui.Int { return toU(z.b()) }
func ToBig(z Z) *big.Int { return new(big.Int).Set(z.b()) }
func ToInt(z Z) int      { return int(z.b().Int64()) }
func ToU64(z Z) uint64   { return z.b().Uint64() }
func (x Z) Add(y Z) Z    { return Z{new(big.Int).Add(x.b(), y.b())} }
func (x Z) Sub(y Z) Z    { return Z{new(big.Int).Sub(x.b(), y.b())} }
func (x Z) Mul(y Z) Z    { return Z{new(big.Int).Mul(x.b(), y.b())} }
func (x Z) Neg() Z       { return Z{new(big.Int).Neg(x.b())} }
func fdiv(a, b *big.Int) *big.Int {
	if b.Sign() <= 0 {
		panic("sym: division by non-positive value")
	}
	q, _ := new(big.Int).DivMod(a, b, new(big.Int))
	return q
}
func (x Z) Div(y Z) Z     { return Z{fdiv(x.b(), y.b())} }
func (x Z) Mod(y Z) Z     { return x.Sub(x.Div(y).Mul(y)) }
func (x Z) ModN(k int) Z  { return x.Mod(P2(k)) }
func (x Z) CeilDiv(y Z) Z { return x.Neg().Div(y).Neg() }

// Isqrt is the largest integer whose square does not exceed x.
func Isqrt(x Z) Z { return Z{new(big.Int).Sqrt(x.b())} }

func (x Z) Le(y Z) bool { return x.b().Cmp(y.b()) <= 0 }
func (x Z) Lt(y Z) bool { return x.b().Cmp(y.b()) < 0 }
func (x Z) Ge(y Z) bool { return x.b().Cmp(y.b()) >= 0 }
func (x Z) Gt(y Z) bool { return x.b().Cmp(y.b()) > 0 }
func (x Z) Eq(y Z) bool { return x.b().Cmp(y.b()) == 0 }
func (x Z) Ne(y Z) bool { return x.b().Cmp(y.b()) != 0 }
func Ite(c bool, a, b Z) Z {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func Min(a, b Z) Z {
	if a.Le(b) {
		return a
	}
	return b
}
func Max(a, b Z) Z {
	if a.Le(b) {
		return b
	}
	return a
}
func (x Z) Abs() Z     { return Z{new(big.Int).Abs(x.b())} }
func (x Z) BAnd(y Z) Z { return Z{new(big.Int).And(x.b(), y.b())} }
func (x Z) BOr(y Z) Z  { return Z{new(big.Int).Or(x.b(), y.b())} }
func (x Z) BXor(y Z) Z { return Z{new(big.Int).Xor(x.b(), y.b())} }
func (x Z) Bits(lo, w int) Z {
	v := new(big.Int).Rsh(x.b(), uint(lo))
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return Z{v.Mod(v, m)}
}
func StrEq(a, b string) bool { return a == b }
func Digits(z Z) string      { return z.b().String() }

// Near: |f*den-num|*2^k <= |num|+|den|.
func Near(f float64, num, den Z, k int) bool {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return false
	}
	r := new(big.Rat).SetFloat64(f)
	d := new(big.Rat).SetInt(den.b())
	r.Mul(r, d).Sub(r, new(big.Rat).SetInt(num.b()))
	r.Abs(r).Mul(r, new(big.Rat).SetInt(P2(k).b()))
	return r.Cmp(new(big.Rat).SetInt(num.Abs().Add(den.Abs()).b())) <= 0
}

// Serve makes the array of the encoded values the contents of the named file,
// below a scratch directory that becomes the working directory.
func Serve(name string, parts ...[]byte) {
	dir, err := os.MkdirTemp("", "serve")
	if err != nil {
		panic(err)
	}
	scratch = append(scratch, dir)
	if err := os.MkdirAll(filepath.Join(dir, filepath.Dir(name)), 0755); err != nil {
		panic(err)
	}
	out := append([]byte("["), bytes.Join(parts, []byte(","))...)
	if err := os.WriteFile(filepath.Join(dir, name), append(out, ']'), 0644); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
}

// Written is the content of a file the code under test wrote; ok when it is
// one encoded value.
func Written(name string) (raw []byte, ok bool) {
	raw, err := os.ReadFile(name)
	return raw, err == nil && json.Valid(raw)
}

// scratch directories, removed when the harness ends
var scratch []string

// Exact: the harness reasons about exact arithmetic on floats.
func Exact() {}

// Close: a and b differ by at most tol.
func Close(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
func FEq(a, b float64) bool        { return a == b }

// ---- tick/price specification (Uniswap V3 TickMath)

var mults = []string{
	"fff97272373d413259a46990580e213a", "fff2e50f5f656932ef12357cf3c7fdcc", "ffe5caca7e10e4e61c3624eaa0941cd0",
	"ffcb9843d60f6159c9db58835c926644", "ff973b41fa98c081472e6896dfb254c0", "ff2ea16466c96a3843ec78b326b52861",
	"fe5dee046a99a2a811c461f1969c3053", "fcbe86c7900a88aedcffc83b479aa3a4", "f987a7253ac413176f2b074cf7815e54",
	"f3392b0822b70005940c7a398e4b70f3", "e7159475a2c29b7443b29c7fa6e889d9", "d097f3bdfd2022b8845ad8f792aa5825",
	"a9f746462d870fdf8a65dc1f90e061e5", "70d869a156d2a1b890bb3df62baf32f7", "31be135f97d08fd981231505542fcfa6",
	"9aa508b5b7a84e1c677de54f3e99bc9", "5d6af8dedb81196699c329225ee604", "2216e584f5fa1ea926041bedfe98", "48a170391f7dc42444e8fa2",
}

const MaxTick = 887272

// SqrtRatio is the protocol's square-root price at a tick.
func SqrtRatio(tick int) Z {
	abs := tick
	if abs < 0 {
		abs = -abs
	}
	if abs > MaxTick {
		panic("sym.SqrtRatio: tick out of range")
	}
	r := new(big.Int).Lsh(big.NewInt(1), 128)
	if abs&1 != 0 {
		r.SetString("fffcb933bd6fad37aa2d162d1a594001", 16)
	}
	for i, h := range mults {
		if abs&(2<<uint(i)) != 0 {
			m, _ := new(big.Int).SetString(h, 16)
			r.Mul(r, m)
			r.Rsh(r, 128)
		}
	}
	if tick > 0 {
		m := new(big.Int).Lsh(big.NewInt(1), 256)
		m.Sub(m, big.NewInt(1))
		r.Quo(m, r)
	}
	q, rem := new(big.Int).QuoRem(r, new(big.Int).Lsh(big.NewInt(1), 32), new(big.Int))
	if rem.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	return Z{q}
}

// RatioOrder evaluates SqrtRatio at every tick: does it strictly increase?
// (The encoding takes this as an axiom.)
func RatioOrder() bool { return true }

// TickAt is the greatest tick whose price does not exceed p.
func TickAt(p Z) int {
	lo, hi := -MaxTick, MaxTick
	for lo < hi {
		mid := lo + (hi-lo+1)/2
		if SqrtRatio(mid).Gt(p) {
			hi = mid - 1
		} else {
			lo = mid
		}
	}
	return lo
}

// ---- deep snapshots

// Snapshot is a deep copy of everything reachable from a value.
type Snapshot struct{ n interface{} }

type ptrNode struct{ v interface{} }

func Snap(x interface{}) Snapshot { return Snapshot{snapV(reflect.ValueOf(x), 0)} }
func Same(a, b Snapshot) bool     { return reflect.DeepEqual(a.n, b.n) }

func snapV(v reflect.Value, d int) interface{} {
	if d > 60 || !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return ptrNode{snapV(v.Elem(), d+1)}
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return []interface{}{v.Elem().Type().String(), snapV(v.Elem(), d+1)}
	case reflect.Struct, reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Struct && v.Type().String() == "big.Int" {
			return fmt.Sprint(v)
		}
		r := []interface{}{}
		n := 0
		if v.Kind() == reflect.Struct {
			n = v.NumField()
		} else {
			n = v.Len()
		}
		for i := 0; i < n; i++ {
			if v.Kind() == reflect.Struct {
				r = append(r, snapV(v.Field(i), d+1))
			} else {
				r = append(r, snapV(v.Index(i), d+1))
			}
		}
		return r
	case reflect.Map:
		r := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			r[fmt.Sprint(snapV(k, d+1))] = snapV(v.MapIndex(k), d+1)
		}
		return r
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint()
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.String:
		return v.String()
	case reflect.Func:
		return "func"
	}
	return nil
}
