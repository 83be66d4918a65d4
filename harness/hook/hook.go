// Package hook lets a native run of a harness put stand-ins in place of
// functions of the repository. The replayed copies of those functions ask Call
// first; see rewrite in gosym.
package hook

import "reflect"

type entry struct {
	f    reflect.Value
	busy bool
}

var table = map[string]*entry{}

// Set makes f stand in for the function called name.
func Set(name string, f interface{}) { table[name] = &entry{f: reflect.ValueOf(f)} }

// Reset removes all stand-ins.
func Reset() { table = map[string]*entry{} }

// Call runs the stand-in, unless there is none or it is itself the caller.
func Call(name string, args ...interface{}) ([]interface{}, bool) {
	e := table[name]
	if e == nil || e.busy {
		return nil, false
	}
	e.busy = true
	defer func() { e.busy = false }()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(e.f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var out []interface{}
	for _, v := range e.f.Call(in) {
		out = append(out, v.Interface())
	}
	return out, true
}
