package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/spec"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- Q06: typed storage

// StStep is one operation on the slices s0..s3 or the maps m0, m1.
type StStep struct {
	Op   string // make, host, let, append, index, get, set, sub, subfn, len, cap; mkmap, mlet, mset, mget, mindex, mdelete, mlen
	D, A int    // destination and operand
	Args []HVal
	Lo   bool `json:",omitempty"` // the bounds of sub that are given
	Hi   bool `json:",omitempty"`
}

// StCase is a history on slices of one type and maps of one type.
type StCase struct {
	Elem, Key, Val string // names of types of qlang
	Steps          []StStep
}

var stTypes = map[string]string{"int": "int", "float": "float64", "string": "string", "byte": "uint8", "bool": "bool", "var": "any"}
var stNames = sortedKeys(stTypes)

func stValue(t *rapid.T, typ string) HVal {
	if chance(t, 5) {
		v := hvAny(t)
		if v.T != "nil" && v.T != "undefined" {
			return v
		}
	}
	if typ == "var" {
		return hvScalar(t, pick(t, []string{"int", "float64", "string", "bool", "uint8"}))
	}
	if typ == "float" && chance(t, 25) {
		return hvScalar(t, pick(t, []string{"int", "float32"}))
	}
	return hvScalar(t, stTypes[typ])
}

func stIndex(t *rapid.T) HVal {
	switch weighted(t, 30, 1, 1, 1) {
	case 0:
		return HVal{T: "int", S: Text(fmt.Sprint(between(t, -1, 7)))}
	case 1:
		return hvScalar(t, "int")
	case 2:
		return hvFloatOf("float64", float64(intn(t, 3)))
	}
	return hvScalar(t, "string")
}

func genStore(t *rapid.T) StCase {
	c := StCase{Elem: pick(t, stNames), Key: pick(t, stNames), Val: pick(t, stNames)}
	size := func(t *rapid.T) HVal {
		if chance(t, 4) {
			return stIndex(t)
		}
		return HVal{T: "int", S: Text(fmt.Sprint(intn(t, 8)))}
	}
	keys := many(t, 1, 6, 3, func(t *rapid.T) HVal { return stValue(t, c.Key) })
	c.Steps = many(t, 2, 30, 12, func(t *rapid.T) StStep {
		s := StStep{D: intn(t, 4), A: intn(t, 4)}
		switch weighted(t, 5, 3, 1, 9, 3, 2, 9, 9, 3, 2, 2, 2, 1, 7, 3, 2, 2, 1) {
		case 0:
			s.Op = "make"
			s.Args = many(t, 0, 2, 1, size)
		case 1:
			s.Op = "host" // length and capacity, and the elements
			s.Args = []HVal{{T: "int", S: Text(fmt.Sprint(intn(t, 6)))}}
			s.Args = append(s.Args, many(t, 0, 6, 3, func(t *rapid.T) HVal { return stValue(t, c.Elem) })...)
		case 2:
			s.Op = "let"
		case 3:
			s.Op = "append"
			s.Args = many(t, 0, 5, 2, func(t *rapid.T) HVal { return stValue(t, c.Elem) })
		case 4:
			s.Op, s.Args = "index", []HVal{stIndex(t)}
		case 5:
			s.Op, s.Args = "get", []HVal{stIndex(t)}
		case 6:
			s.Op = "set"
			for n := 1 + intn(t, 2); n > 0; n-- {
				s.Args = append(s.Args, stIndex(t), stValue(t, c.Elem))
			}
			if chance(t, 3) {
				s.Args = s.Args[:len(s.Args)-1]
			}
		case 7:
			s.Op, s.Lo, s.Hi = "sub", chance(t, 70), chance(t, 60)
			s.Args = []HVal{stIndex(t), stIndex(t)}
		case 8:
			s.Op, s.Lo, s.Hi = "subfn", chance(t, 80), chance(t, 70)
			s.Args = []HVal{stIndex(t), stIndex(t)}
		case 9:
			s.Op = "len"
		case 10:
			s.Op = "cap"
		case 11:
			s.Op = "mkmap"
			if chance(t, 15) {
				s.Args = []HVal{size(t)}
			}
		case 12:
			s.Op = "mlet"
		case 13:
			s.Op = "mset"
			for n := 1 + intn(t, 2); n > 0; n-- {
				v := stValue(t, c.Val)
				if chance(t, 12) {
					v = HVal{T: "undefined"}
				}
				s.Args = append(s.Args, pick(t, keys), v)
			}
			if chance(t, 3) {
				s.Args = s.Args[:len(s.Args)-1]
			}
		case 14:
			s.Op, s.Args = "mget", []HVal{pick(t, keys)}
		case 15:
			s.Op, s.Args = "mindex", []HVal{pick(t, keys)}
		case 16:
			s.Op, s.Args = "mdelete", []HVal{pick(t, keys)}
		default:
			s.Op = "mlen"
		}
		return s
	})
	return c
}

// stBack is the storage of slices; what is behind its data is known only if exact.
type stBack struct {
	data  []interface{}
	exact bool // data is all there is
	fuzzy bool // it may be the same as another one
	grown bool // something was appended to it, maybe in place
}

type stSlice struct {
	b      *stBack
	lo, hi int
}

func (s *stSlice) vals() []interface{} { return s.b.data[s.lo:s.hi] }

type stStop struct{} // what follows isn't specified

func stFits(typ string, v interface{}) bool {
	return typ == "var" || reflect.TypeOf(v) == hvTypes[stTypes[typ]]
}

func stZero(typ string) interface{} {
	if typ == "var" {
		return nil
	}
	return reflect.Zero(hvTypes[stTypes[typ]]).Interface()
}

func stInt(v HVal) (int, bool) { n, ok := v.value().(int); return n, ok }

func checkStore(c StCase, x *Ctx) (err error) {
	ql, e := qlang.New(nil)
	if e != nil {
		return failf("New: %v", e)
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stStop); !ok {
				panic(p)
			}
			x.Class("history ends where storage isn't specified")
			err = nil
		}
	}()
	var ss [4]*stSlice
	type mp struct{ m map[interface{}]interface{} }
	var ms [2]*mp
	changed, shared := false, false
	for i, s := range c.Steps {
		isMap := s.Op[0] == 'm' && s.Op != "make"
		if isMap {
			s.D, s.A = s.D%2, s.A%2
			if ms[s.A] == nil && s.Op != "mkmap" {
				s.Op, s.D, s.Args = "mkmap", s.A, nil
			}
		} else if ss[s.A] == nil && s.Op != "make" && s.Op != "host" {
			s.Op, s.D, s.Args = "make", s.A, nil
		}
		var names []string
		for k, a := range s.Args {
			n := fmt.Sprintf("v%d", k)
			ql.SetVar(n, a.value())
			names = append(names, n)
		}
		ql.SetVar("x", "old")
		list := strings.Join(names, ", ")
		more := ""
		if list != "" {
			more = ", " + list
		}
		var prog string
		bad := false               // must fail
		var want interface{} = "?" // value of x
		var apply func()           // effect on the model
		switch s.Op {
		case "make":
			prog = fmt.Sprintf("s%d = slice(%q%s)", s.D, c.Elem, more)
			n, k := 0, 0
			for j, a := range s.Args {
				v, ok := stInt(a)
				if bad = bad || !ok || v < 0; bad {
					break
				}
				if j == 0 {
					n, k = v, v
				} else {
					k = v
				}
			}
			bad = bad || n > k
			if !bad && k > 1<<10 {
				if k > 1<<20 {
					continue // too big for a test
				}
			}
			apply = func() {
				b := &stBack{exact: true}
				for j := 0; j < k; j++ {
					b.data = append(b.data, stZero(c.Elem))
				}
				ss[s.D] = &stSlice{b, 0, n}
			}
		case "host":
			n, _ := stInt(s.Args[0])
			rt := hvTypes[stTypes[c.Elem]]
			b := &stBack{exact: true}
			for _, a := range s.Args[1:] {
				if v := a.value(); stFits(c.Elem, v) {
					b.data = append(b.data, v)
				}
			}
			n = min(n, len(b.data))
			r := reflect.MakeSlice(reflect.SliceOf(rt), len(b.data), len(b.data))
			for j, v := range b.data {
				r.Index(j).Set(reflect.ValueOf(v))
			}
			ql.SetVar("x", r.Slice(0, n).Interface())
			prog = fmt.Sprintf("s%d = x", s.D)
			apply = func() { ss[s.D] = &stSlice{b, 0, n} }
		case "let":
			prog = fmt.Sprintf("s%d = s%d", s.D, s.A)
			apply = func() { ss[s.D] = ss[s.A]; shared = true }
		case "append":
			a := ss[s.A]
			prog = fmt.Sprintf("s%d = append(s%d%s)", s.D, s.A, more)
			var vals []interface{}
			for _, v := range s.Args {
				v := v.value()
				if c.Elem == "float" {
					switch y := v.(type) {
					case int:
						v = float64(y)
					case float32:
						v = float64(y)
					}
				}
				bad = bad || !stFits(c.Elem, v)
				vals = append(vals, v)
			}
			if bad {
				if (!a.b.exact || a.hi < len(a.b.data)) && len(vals) > 1 {
					panic(stStop{}) // it may fail after storing some elements
				}
				break
			}
			apply = func() {
				end := a.hi + len(vals)
				switch {
				case len(vals) == 0:
					ss[s.D] = a
				case end <= len(a.b.data): // there is room
					if a.b.fuzzy {
						panic(stStop{})
					}
					copy(a.b.data[a.hi:], vals)
					ss[s.D] = &stSlice{a.b, a.lo, end}
					shared = true
					x.Class("append into shared storage")
				case a.b.exact: // a new storage
					ss[s.D] = &stSlice{&stBack{data: append(append([]interface{}{}, a.vals()...), vals...)}, 0, a.hi - a.lo + len(vals)}
					x.Class("append to a full slice")
				case a.hi < len(a.b.data) || a.b.grown: // in place or not?
					panic(stStop{})
				default:
					b := &stBack{data: append(append([]interface{}{}, a.vals()...), vals...), fuzzy: true}
					a.b.fuzzy, a.b.grown = true, true
					ss[s.D] = &stSlice{b, 0, len(b.data)}
				}
			}
		case "index", "get":
			a := ss[s.A]
			prog = fmt.Sprintf("x = s%d[v0]", s.A)
			if s.Op == "get" {
				prog = fmt.Sprintf("x = get(s%d, v0)", s.A)
			}
			n, ok := stInt(s.Args[0])
			if bad = !ok || n < 0 || n >= a.hi-a.lo; !bad {
				want = a.vals()[n]
			}
		case "set":
			a := ss[s.A]
			prog = fmt.Sprintf("set(s%d%s)", s.A, more)
			bad = len(s.Args)%2 != 0
			for j := 0; j+1 < len(s.Args) && !bad; j += 2 {
				n, ok := stInt(s.Args[j])
				bad = !ok || n < 0 || n >= a.hi-a.lo || !stFits(c.Elem, s.Args[j+1].value())
				if bad && j > 0 {
					panic(stStop{}) // the pairs before that
				}
			}
			if !bad && a.b.fuzzy {
				panic(stStop{})
			}
			apply = func() {
				for j := 0; j+1 < len(s.Args); j += 2 {
					n, _ := stInt(s.Args[j])
					a.vals()[n] = s.Args[j+1].value()
				}
				changed = true
			}
		case "sub", "subfn":
			a := ss[s.A]
			lo, hi := "", ""
			if s.Lo {
				lo = "v0"
			}
			if s.Hi {
				hi = "v1"
			}
			prog = fmt.Sprintf("s%d = s%d[%s:%s]", s.D, s.A, lo, hi)
			if s.Op == "subfn" {
				if lo == "" {
					lo = "nil"
				}
				if hi == "" {
					hi = "nil"
				}
				prog = fmt.Sprintf("s%d = sub(s%d, %s, %s)", s.D, s.A, lo, hi)
			}
			l, h := 0, a.hi-a.lo
			if s.Lo {
				n, ok := stInt(s.Args[0])
				bad = !ok || n < 0
				l = n
			}
			if s.Hi && !bad {
				n, ok := stInt(s.Args[1])
				bad = !ok || n < 0
				h = n
			}
			if bad = bad || l > h; !bad && (h > math.MaxInt-a.lo || a.lo+h > len(a.b.data)) {
				if !a.b.exact {
					panic(stStop{})
				}
				bad = true
			}
			apply = func() { ss[s.D] = &stSlice{a.b, a.lo + l, a.lo + h}; shared = true }
		case "len":
			prog = fmt.Sprintf("x = len(s%d)", s.A)
			want = ss[s.A].hi - ss[s.A].lo
		case "cap":
			prog = fmt.Sprintf("x = cap(s%d)", s.A)
			if a := ss[s.A]; a.b.exact {
				want = len(a.b.data) - a.lo
			}
		case "mkmap":
			prog = fmt.Sprintf("m%d = mkmap(mapOf(%q, %q)%s)", s.D, c.Key, c.Val, more)
			if c.Key == "string" && (c.Val == "int" || c.Val == "float" || c.Val == "string" || c.Val == "var") && i%2 == 0 {
				prog = fmt.Sprintf("m%d = mkmap(%q%s)", s.D, "string:"+c.Val, more)
			}
			if len(s.Args) > 0 {
				n, ok := stInt(s.Args[0])
				if bad = !ok; ok && (n < 0 || n > 1<<10) {
					continue // a hint that makes no sense
				}
			}
			apply = func() { ms[s.D] = &mp{map[interface{}]interface{}{}} }
		case "mlet":
			prog = fmt.Sprintf("m%d = m%d", s.D, s.A)
			apply = func() { ms[s.D] = ms[s.A]; shared = true }
		case "mset":
			prog = fmt.Sprintf("set(m%d%s)", s.A, more)
			bad = len(s.Args)%2 != 0
			for j := 0; j+1 < len(s.Args) && !bad; j += 2 {
				v := s.Args[j+1].value()
				bad = !stKey(c.Key, s.Args[j].value()) || v != spec.Undefined && !stFits(c.Val, v)
				if bad && j > 0 {
					panic(stStop{})
				}
			}
			apply = func() {
				for j := 0; j+1 < len(s.Args); j += 2 {
					k, v := s.Args[j].value(), s.Args[j+1].value()
					if v == spec.Undefined {
						delete(ms[s.A].m, k)
					} else {
						ms[s.A].m[k] = v
					}
				}
				changed = true
			}
		case "mget", "mindex":
			prog = fmt.Sprintf("x = get(m%d, v0)", s.A)
			if s.Op == "mindex" {
				prog = fmt.Sprintf("x = m%d[v0]", s.A)
			}
			k := s.Args[0].value()
			if bad = !stKey(c.Key, k); !bad {
				var ok bool
				if want, ok = ms[s.A].m[k]; !ok {
					want = spec.Undefined
				}
			}
		case "mdelete":
			prog = fmt.Sprintf("delete(m%d, v0)", s.A)
			k := s.Args[0].value()
			bad = !stKey(c.Key, k)
			apply = func() { delete(ms[s.A].m, k) }
		case "mlen":
			prog = fmt.Sprintf("x = len(m%d)", s.A)
			want = len(ms[s.A].m)
		}
		var shown []string
		for _, a := range s.Args {
			shown = append(shown, fmt.Sprintf("%T %s", a.value(), snapReal(a.value())))
		}
		where := fmt.Sprintf("step %d: %s for v = %v: ", i, prog, shown)
		err, p := safeEval(ql, prog)
		switch {
		case p != nil:
			return failf("%spanics with %v", where, p)
		case bad && err == nil:
			return failf("%ssucceeds, want a runtime error", where)
		case !bad && err != nil:
			return failf("%sfails: %v", where, err)
		}
		got, _ := ql.Var("x")
		if bad {
			want = "old"
			x.Class("refused " + s.Op)
		} else if apply != nil {
			apply()
		}
		if want != interface{}("?") && !sameGo(got, want) {
			return failf("%sgives %s (%T), want %s (%T)", where, snapReal(got), got, snapReal(want), want)
		}
		if s.Op == "cap" && want == interface{}("?") {
			if n, ok := got.(int); !ok || n < len(ss[s.A].b.data)-ss[s.A].lo {
				return failf("%sgives %s, which is too small", where, snapReal(got))
			}
		}
		for k, a := range ss {
			if a == nil {
				continue
			}
			v, _ := ql.Var(fmt.Sprintf("s%d", k))
			rv := reflect.ValueOf(v)
			if !rv.IsValid() || rv.Type() != reflect.SliceOf(hvTypes[stTypes[c.Elem]]) || rv.Len() != a.hi-a.lo {
				return failf("%ss%d is %s (%T), want %d elements of type %s", where, k, snapReal(v), v, a.hi-a.lo, c.Elem)
			}
			for j, w := range a.vals() {
				if !sameGo(rv.Index(j).Interface(), w) {
					return failf("%ss%d is %s, want %s", where, k, snapReal(v), snapReal(a.vals()))
				}
			}
		}
		for k, m := range ms {
			if m == nil {
				continue
			}
			v, _ := ql.Var(fmt.Sprintf("m%d", k))
			rv := reflect.ValueOf(v)
			if !rv.IsValid() || rv.Type() != reflect.MapOf(hvTypes[stTypes[c.Key]], hvTypes[stTypes[c.Val]]) || rv.Len() != len(m.m) {
				return failf("%sm%d is %s (%T), want %s", where, k, snapReal(v), v, snapReal(m.m))
			}
			for key, w := range m.m {
				e := rv.MapIndex(reflect.ValueOf(key))
				if !e.IsValid() || !sameGo(e.Interface(), w) {
					return failf("%sm%d is %s, want %s", where, k, snapReal(v), snapReal(m.m))
				}
			}
		}
		x.NonTrivialIf(changed && shared)
		x.Class("done " + s.Op)
	}
	return nil
}

func stKey(typ string, k interface{}) bool {
	if !stFits(typ, k) || !reflect.TypeOf(k).Comparable() {
		return false
	}
	if f, ok := k.(float64); ok && (f != f || f == 0) {
		panic(stStop{}) // NaN is never found again; two zeros are one key
	}
	if f, ok := k.(float32); ok && (f != f || f == 0) {
		panic(stStop{})
	}
	return true
}

func init() {
	reg("Q06", "storage", "histories on slices with given capacities and on maps of any type; non-trivial: something shared was changed", 16000, 700000, genStore, checkStore)
}
