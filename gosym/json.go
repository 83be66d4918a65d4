package main

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"reflect"
	"strings"
)

// encoding/json, as far as values of basic types, strings, structs, slices
// and string maps go: an encoded value is the tree of what was encoded.

type JsonV struct {
	kind byte // 's' string, 'n' integer, 'f' float, 'b' boolean, 'o' object, 'a' array, '0' null
	s    StrV
	t    *Term
	keys []string
	kids []*JsonV
}

// FileV is an open file (or a decoder on it) with an encoded value, or one
// being written (out).
type FileV struct {
	j   *JsonV
	out string
}

// outFile is what was written to a file since it was created.
type outFile struct {
	name  string
	parts []*JsonV
}

func (st *State) create(name string) {
	var o []outFile
	for _, f := range st.outs {
		if f.name != name {
			o = append(o, f)
		}
	}
	st.outs = append(o, outFile{name: name})
}

func (st *State) write(name string, j *JsonV) {
	o := append([]outFile(nil), st.outs...)
	for i := range o {
		if o[i].name == name {
			o[i].parts = append(append([]*JsonV(nil), o[i].parts...), j)
		}
	}
	st.outs = o
}

func (st *State) hasDir(d string) bool {
	if d == "." {
		return true
	}
	for _, x := range st.dirs {
		if x == d {
			return true
		}
	}
	return false
}

// jsonQuoted reports whether a struct field is encoded inside a string.
func jsonQuoted(s *types.Struct, i int) bool {
	for _, o := range strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[1:] {
		if o == "string" {
			return true
		}
	}
	return false
}

// jsonKeys are the keys of a struct's fields, "" for those not encoded: of
// fields with the same key the one that is tagged wins, if there is one only.
func jsonKeys(u *types.Struct) (keys []string, omits []bool) {
	n := map[string]int{}
	tagged := map[string]int{}
	for i := 0; i < u.NumFields(); i++ {
		k, omit := jsonField(u, i)
		keys, omits = append(keys, k), append(omits, omit)
		n[k]++
		if k != u.Field(i).Name() {
			tagged[k]++
		}
	}
	for i, k := range keys {
		if k == "" || n[k] == 1 || (tagged[k] == 1 && k != u.Field(i).Name()) {
			continue
		}
		keys[i] = ""
	}
	return
}

func (e *Engine) jsonBytes(st *State, j *JsonV) SliceV {
	return SliceV{p: Ptr{obj: e.alloc(st, &Agg{[]Value{j}})}, len: 1, cap: 1}
}

func (e *Engine) bytesJson(st *State, v Value) *JsonV {
	s, ok := v.(SliceV)
	if !ok || s.len != 1 {
		fail("json of other bytes")
	}
	j, ok := e.loadPtr(st, s.p.elem(s.off)).(*JsonV)
	if !ok {
		fail("json of other bytes")
	}
	return j
}

func hasMethod(t types.Type, names ...string) bool {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			for _, n := range names {
				if ms.At(i).Obj().Name() == n {
					return true
				}
			}
		}
	}
	return false
}

// jsonField is the key of a struct field, "" when it is not encoded.
func jsonField(s *types.Struct, i int) (key string, omit bool) {
	f := s.Field(i)
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if f.Embedded() {
		fail("json of an embedded field")
	}
	if !f.Exported() || tag == "-" {
		return "", false
	}
	ps := strings.Split(tag, ",")
	for _, o := range ps[1:] {
		if o == "omitempty" {
			omit = true
		} else if o != "string" {
			fail("json option %s", o)
		}
	}
	if ps[0] != "" {
		return ps[0], omit
	}
	return f.Name(), omit
}

func (e *Engine) jsonOf(st *State, t types.Type, v Value, top bool) *JsonV {
	if !top && hasMethod(t, "MarshalJSON", "MarshalText") {
		fail("json method of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		iv := v.(IfaceV)
		if iv.t == nil {
			return &JsonV{kind: '0'}
		}
		return e.jsonOf(st, iv.t, iv.v, top)
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			fail("json pointer")
		}
		if p.obj == 0 {
			return &JsonV{kind: '0'}
		}
		return e.jsonOf(st, u.Elem(), e.loadPtr(st, p), false)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &JsonV{kind: 's', s: v.(StrV)}
		case u.Info()&types.IsInteger != 0:
			return &JsonV{kind: 'n', t: e.term(v)}
		case u.Info()&types.IsBoolean != 0:
			return &JsonV{kind: 'b', t: e.term(v)}
		case u.Kind() == types.Float64:
			// the shortest text that reads back as the same number
			return &JsonV{kind: 'f', t: e.term(v)}
		}
	case *types.Struct:
		a := v.(*Agg)
		j := &JsonV{kind: 'o'}
		keys, omits := jsonKeys(u)
		for i := 0; i < u.NumFields(); i++ {
			k, omit := keys[i], omits[i]
			if k == "" {
				continue
			}
			kid := e.jsonOf(st, u.Field(i).Type(), a.e[i], false)
			if jsonQuoted(u, i) {
				if strings.IndexByte("nfb", kid.kind) < 0 {
					fail("json option string")
				}
				kid.kind = 'q'
			}
			if omit {
				// what is left out is read back as the zero value, so a
				// number that may be zero can stay
				if kid.kind == 's' {
					if s, ok := kid.s.concrete(); ok && s == "" {
						continue
					}
				} else if kid.kind == 'n' && kid.t.isConst() && kid.t.c.Sign() == 0 {
					continue
				}
			}
			j.keys = append(j.keys, k)
			j.kids = append(j.kids, kid)
		}
		return j
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			break
		}
		s := v.(SliceV)
		if s.p.obj == 0 {
			return &JsonV{kind: '0'}
		}
		j := &JsonV{kind: 'a'}
		for i := 0; i < s.len; i++ {
			j.kids = append(j.kids, e.jsonOf(st, u.Elem(), e.loadPtr(st, s.p.elem(s.off+i)), false))
		}
		return j
	case *types.Map:
		m, ok := v.(MapV)
		if !ok || m.obj == 0 {
			break
		}
		j := &JsonV{kind: 'o'}
		for _, en := range st.heap[m.obj].(*MapData).ents {
			k, ok := en.k.(StrV)
			if !ok {
				fail("json map key")
			}
			s, ok := k.concrete()
			if !ok {
				fail("json map key")
			}
			j.keys = append(j.keys, s)
			j.kids = append(j.kids, e.jsonOf(st, u.Elem(), en.v, false))
		}
		return j
	}
	fail("json of %s", t)
	return nil
}

// jsonTo is what decoding j into a fresh variable of type t gives.
func (e *Engine) jsonTo(st *State, t types.Type, j *JsonV, bad *bool) Value {
	if hasMethod(t, "UnmarshalJSON", "UnmarshalText") {
		fail("json method of %s", t)
	}
	if j.kind == '0' {
		return e.zero(t)
	}
	if j.kind == 'q' {
		// no type that reads numbers or booleans accepts it
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString != 0 {
			fail("json string of a number")
		}
		*bad = true
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if j.kind == 's' {
				return j.s
			}
		case u.Info()&types.IsInteger != 0:
			if j.kind == 'n' {
				bits, sg, _ := intInfo(u)
				lo, hi := bi0, bsub(pow2(bits), bi1)
				if sg {
					lo, hi = bneg(pow2(bits-1)), bsub(pow2(bits-1), bi1)
				}
				if e.branch(st, e.c.And(e.c.Le(e.c.Int(lo), j.t), e.c.Le(j.t, e.c.Int(hi)))) {
					return j.t
				}
			}
		case u.Info()&types.IsBoolean != 0:
			if j.kind == 'b' {
				return j.t
			}
		case u.Kind() == types.Float64 && j.kind != 'n':
			if j.kind == 'f' {
				return j.t
			}
		default:
			fail("json to %s", t)
		}
		*bad = true
		return e.zero(t)
	case *types.Struct:
		if j.kind != 'o' {
			*bad = true
			return e.zero(t)
		}
		z := e.zero(t).(*Agg)
		a := &Agg{append([]Value(nil), z.e...)}
		names, _ := jsonKeys(u)
		for n, k := range j.keys {
			at := -1
			for i := 0; i < u.NumFields(); i++ {
				f := names[i]
				if f == k {
					at = i
					break
				}
				if f != "" && at < 0 && strings.EqualFold(f, k) {
					at = i
				}
			}
			if at >= 0 {
				if jsonQuoted(u, at) {
					fail("json option string")
				}
				a.e[at] = e.jsonTo(st, u.Field(at).Type(), j.kids[n], bad)
			}
		}
		return a
	case *types.Slice:
		if j.kind != 'a' {
			*bad = true
			return e.zero(t)
		}
		a := &Agg{}
		for _, k := range j.kids {
			a.e = append(a.e, e.jsonTo(st, u.Elem(), k, bad))
		}
		n := len(a.e)
		return SliceV{p: Ptr{obj: e.alloc(st, a)}, len: n, cap: n}
	case *types.Pointer:
		return e.newBoxed(st, e.jsonTo(st, u.Elem(), j, bad))
	}
	fail("json to %s", t)
	return nil
}

func (e *Engine) jsonDecode(st *State, j *JsonV, dst Value) Value {
	iv, ok := dst.(IfaceV)
	if !ok || iv.t == nil {
		fail("json target")
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	p, ok2 := iv.v.(Ptr)
	if !ok || !ok2 || p.obj == 0 {
		fail("json target")
	}
	bad := false
	v := e.jsonTo(st, pt.Elem(), j, &bad)
	e.storePtr(st, p, v)
	if bad {
		return e.mkErr(st, lit("json: cannot unmarshal"))
	}
	return IfaceV{}
}

// jsonCall: the calls that move encoded values to and from files.
func (e *Engine) jsonCall(st *State, name string, args []Value) (Value, bool) {
	switch name {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		iv := args[0].(IfaceV)
		if iv.t == nil {
			return Tuple{e.jsonBytes(st, &JsonV{kind: '0'}), IfaceV{}}, true
		}
		return Tuple{e.jsonBytes(st, e.jsonOf(st, iv.t, iv.v, false)), IfaceV{}}, true
	case "encoding/json.Unmarshal":
		return e.jsonDecode(st, e.bytesJson(st, args[0]), args[1]), true
	case "os.Open":
		if st.file == nil {
			fail("os.Open")
		}
		return Tuple{e.newBoxed(st, &FileV{j: st.file}), IfaceV{}}, true
	case "os.ReadFile", "io/ioutil.ReadFile":
		if st.file == nil {
			fail("%s", name)
		}
		return Tuple{e.jsonBytes(st, st.file), IfaceV{}}, true
	case "io.ReadAll", "io/ioutil.ReadAll", "encoding/json.NewDecoder", "bufio.NewReader":
		f, ok := e.loadPtr(st, args[0].(IfaceV).v.(Ptr)).(*FileV)
		if !ok {
			fail("%s", name)
		}
		if strings.HasSuffix(name, "ReadAll") {
			return Tuple{e.jsonBytes(st, f.j), IfaceV{}}, true
		}
		return e.newBoxed(st, f), true
	case "(*encoding/json.Decoder).Decode":
		f, ok := e.loadPtr(st, args[0].(Ptr)).(*FileV)
		if !ok {
			fail("%s", name)
		}
		return e.jsonDecode(st, f.j, args[1]), true
	case "os.Mkdir", "os.MkdirAll":
		d := path.Clean(e.str(args[0]))
		if st.hasDir(d) {
			if name == "os.MkdirAll" {
				return IfaceV{}, true
			}
			return e.mkErr(st, lit("file exists")), true
		}
		if name == "os.Mkdir" && !st.hasDir(path.Dir(d)) {
			return e.mkErr(st, lit("no such file or directory")), true
		}
		o := append([]string(nil), st.dirs...)
		for ; d != "." && d != "/"; d = path.Dir(d) {
			o = append(o, d)
		}
		st.dirs = o
		return IfaceV{}, true
	case "os.Create":
		n := path.Clean(e.str(args[0]))
		if !st.hasDir(path.Dir(n)) {
			return Tuple{Ptr{}, e.mkErr(st, lit("no such file or directory"))}, true
		}
		st.create(n)
		return Tuple{e.newBoxed(st, &FileV{out: n}), IfaceV{}}, true
	case "os.OpenFile":
		n, fl := path.Clean(e.str(args[0])), e.term(args[1])
		if !fl.isConst() {
			fail("%s", name)
		}
		at, exists := int(fl.c.Int64()), false
		for _, f := range st.outs {
			exists = exists || f.name == n
		}
		if !st.hasDir(path.Dir(n)) || (!exists && at&os.O_CREATE == 0) {
			return Tuple{Ptr{}, e.mkErr(st, lit("no such file or directory"))}, true
		}
		if exists && at&os.O_EXCL != 0 {
			return Tuple{Ptr{}, e.mkErr(st, lit("file exists"))}, true
		}
		if at&3 == os.O_RDONLY {
			fail("%s", name)
		}
		if !exists || at&os.O_TRUNC != 0 {
			st.create(n) // else what was there stays, in part or whole
		}
		return Tuple{e.newBoxed(st, &FileV{out: n}), IfaceV{}}, true
	case "os.WriteFile", "io/ioutil.WriteFile":
		n := path.Clean(e.str(args[0]))
		if !st.hasDir(path.Dir(n)) {
			return e.mkErr(st, lit("no such file or directory")), true
		}
		j := e.bytesJson(st, args[1])
		st.create(n)
		st.write(n, j)
		return IfaceV{}, true
	case "(*os.File).Write":
		f, ok := e.loadPtr(st, args[0].(Ptr)).(*FileV)
		if !ok || f.out == "" {
			fail("%s", name)
		}
		st.write(f.out, e.bytesJson(st, args[1]))
		return Tuple{e.c.Int(bi1), IfaceV{}}, true
	case "encoding/json.NewEncoder":
		f, ok := e.loadPtr(st, args[0].(IfaceV).v.(Ptr)).(*FileV)
		if !ok || f.out == "" {
			fail("%s", name)
		}
		return e.newBoxed(st, f), true
	case "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML":
		return Tuple{}, true
	case "(*encoding/json.Encoder).Encode":
		f, ok := e.loadPtr(st, args[0].(Ptr)).(*FileV)
		if !ok || f.out == "" {
			fail("%s", name)
		}
		iv := args[1].(IfaceV)
		j := &JsonV{kind: '0'}
		if iv.t != nil {
			j = e.jsonOf(st, iv.t, iv.v, false)
		}
		st.write(f.out, j)
		return IfaceV{}, true
	case "(*os.File).Sync":
		return IfaceV{}, true
	case "(*os.File).Close":
		return IfaceV{}, true
	case "path.Join", "path/filepath.Join":
		s := args[0].(SliceV)
		var ps []string
		for i := 0; i < s.len; i++ {
			c, ok := e.loadPtr(st, s.p.elem(s.off+i)).(StrV).concrete()
			if !ok {
				fail("%s", name)
			}
			ps = append(ps, c)
		}
		return lit(path.Join(ps...)), true
	case "strconv.FormatBool":
		if e.branch(st, e.term(args[0])) {
			return lit("true"), true
		}
		return lit("false"), true
	case "strconv.ParseBool":
		s, ok := args[0].(StrV).concrete()
		if !ok {
			fail("%s", name)
		}
		switch s {
		case "1", "t", "T", "true", "TRUE", "True":
			return Tuple{e.c.True, IfaceV{}}, true
		case "0", "f", "F", "false", "FALSE", "False":
			return Tuple{e.c.False, IfaceV{}}, true
		}
		return Tuple{e.c.False, e.mkErr(st, lit(fmt.Sprintf("strconv.ParseBool: parsing %q: invalid syntax", s)))}, true
	}
	return nil, false
}
