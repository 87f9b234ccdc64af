package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/lib/builtin/types"
	"github.com/qiniu/text/tpl/qlang/spec"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- Q06: slices and maps of composed types

// KType is a type that a program can compose: a name of qlang, the type of a value, slice or map of something.
type KType struct {
	Of   string // int, ...; type; slice; map
	Expr string `json:",omitempty"` // for type
	Key  string `json:",omitempty"`
	Elem *KType `json:",omitempty"`
}

var kTypeOf = map[string]reflect.Type{
	"1": reflect.TypeOf(0), "1.5": reflect.TypeOf(0.0), `"a"`: reflect.TypeOf(""), "true": reflect.TypeOf(false), "[1, 2]": reflect.TypeOf([]int(nil)),
	`["a"]`: reflect.TypeOf([]string(nil)), "[1, 2.5]": reflect.TypeOf([]float64(nil)), `{"a": 1}`: reflect.TypeOf(map[string]int(nil)),
	`{1: "a"}`: reflect.TypeOf(map[int]string(nil)), `slice("byte", 2)`: reflect.TypeOf([]byte(nil)), `slice(sliceOf("int"), 1)`: reflect.TypeOf([][]int(nil)),
	`mkmap("string:float")`: reflect.TypeOf(map[string]float64(nil)), "byte(7)": reflect.TypeOf(byte(0)),
}

func genKType(t *rapid.T, depth int) *KType {
	switch weighted(t, 8, 2, 5*depth, 3*depth) {
	case 1:
		return &KType{Of: "type", Expr: pick(t, sortedKeys(kTypeOf))}
	case 2:
		return &KType{Of: "slice", Elem: genKType(t, depth-1)}
	case 3:
		return &KType{Of: "map", Key: pick(t, []string{"int", "string", "bool", "byte"}), Elem: genKType(t, depth-1)}
	}
	return &KType{Of: pick(t, stNames)}
}

func (k *KType) typ() reflect.Type {
	switch k.Of {
	case "type":
		return kTypeOf[k.Expr]
	case "slice":
		return reflect.SliceOf(k.Elem.typ())
	case "map":
		return reflect.MapOf(hvTypes[stTypes[k.Key]], k.Elem.typ())
	}
	return hvTypes[stTypes[k.Of]]
}

func (k *KType) src() string {
	switch k.Of {
	case "type":
		return "type(" + k.Expr + ")"
	case "slice":
		return "sliceOf(" + k.Elem.src() + ")"
	case "map":
		return fmt.Sprintf("mapOf(%q, %s)", k.Key, k.Elem.src())
	}
	return fmt.Sprintf("%q", k.Of)
}

// KVal is a value of some type, which says what is used of it.
type KVal struct {
	N int
	L []KVal `json:",omitempty"`
}

var kStrings = []string{"", "a", "b", "ab", "中", "\xff", "abc"}

func genKVal(t *rapid.T, depth int) KVal {
	v := KVal{N: intn(t, 300)}
	if depth > 0 {
		v.L = many(t, 0, 4, 2, func(t *rapid.T) KVal { return genKVal(t, depth-1) })
	}
	return v
}

func (v KVal) of(typ reflect.Type) reflect.Value {
	r := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Int:
		r.SetInt(int64(v.N) - 3)
	case reflect.Uint8:
		r.SetUint(uint64(v.N % 256))
	case reflect.Float64:
		r.SetFloat(float64(v.N) / 4)
	case reflect.String:
		r.SetString(kStrings[v.N%len(kStrings)])
	case reflect.Bool:
		r.SetBool(v.N%2 == 1)
	case reflect.Slice:
		r.Set(reflect.MakeSlice(typ, len(v.L), len(v.L)))
		for i, e := range v.L {
			r.Index(i).Set(e.of(typ.Elem()))
		}
	case reflect.Map:
		r.Set(reflect.MakeMap(typ))
		for _, e := range v.L {
			r.SetMapIndex(KVal{N: e.N % 5}.of(typ.Key()), e.of(typ.Elem()))
		}
	case reflect.Interface:
		scalars := []reflect.Type{hvTypes["int"], hvTypes["string"], hvTypes["bool"], hvTypes["float64"], hvTypes["[]int"], hvTypes["uint8"]}
		r.Set(v.of(scalars[v.N%len(scalars)]))
	default:
		panic("harness: no value of type " + typ.String())
	}
	return r
}

// KStep is an operation on the collection c, or, if In, on its element k.
type KStep struct {
	Op   string // set append read del sub len
	In   bool   `json:",omitempty"`
	K    KVal   // key or index
	K2   KVal
	V    KVal
	More []KVal `json:",omitempty"`
	Nil  bool   `json:",omitempty"` // store nil, if the type has one
}

// KCase is a history on a collection of a composed type.
type KCase struct {
	T     *KType // of the elements
	Key   string // empty for a slice
	N     int
	Cap   int // negative: not given
	Steps []KStep
}

func genKCase(t *rapid.T) KCase {
	c := KCase{T: genKType(t, 2), N: intn(t, 5), Cap: -1}
	if chance(t, 40) {
		c.Key = pick(t, []string{"int", "string", "bool", "byte"})
	}
	if chance(t, 30) {
		c.Cap = c.N + intn(t, 6)
	}
	c.Steps = many(t, 1, 16, 7, func(t *rapid.T) KStep {
		s := KStep{Op: pick(t, []string{"set", "set", "set", "append", "append", "read", "read", "del", "sub", "len"})}
		s.In = chance(t, 35)
		s.K, s.K2, s.V, s.Nil = KVal{N: intn(t, 6)}, KVal{N: intn(t, 6)}, genKVal(t, 3), chance(t, 8)
		if s.Op == "append" {
			s.More = many(t, 0, 3, 1, func(t *rapid.T) KVal { return genKVal(t, 3) })
		}
		return s
	})
	return c
}

// kClone copies slices and maps, nested ones as well.
func kClone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(kClone(v.Index(i)))
		}
		return r
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			r.SetMapIndex(k, kClone(v.MapIndex(k)))
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		r.Set(kClone(v.Elem()))
		return r
	}
	return v
}

func checkKCase(c KCase, x *Ctx) error {
	ql, err := qlang.New(nil)
	if err != nil {
		return failf("New: %v", err)
	}
	run := func(prog string) error {
		err, p := safeEval(ql, prog)
		if p != nil {
			return failf("%s panics: %v", prog, p)
		}
		if err != nil {
			return failf("%s fails: %v", prog, err)
		}
		return nil
	}
	var want reflect.Value
	et := c.T.typ()
	var prog string
	if c.Key == "" {
		n := c.N
		if c.Cap >= 0 {
			prog = fmt.Sprintf("c = slice(%s, %d, %d)", c.T.src(), c.N, c.Cap)
			n = c.Cap
		} else {
			prog = fmt.Sprintf("c = slice(%s, %d)", c.T.src(), c.N)
		}
		want = reflect.MakeSlice(reflect.SliceOf(et), c.N, n)
	} else {
		prog = fmt.Sprintf("c = mkmap(mapOf(%q, %s))", c.Key, c.T.src())
		want = reflect.MakeMap(reflect.MapOf(hvTypes[stTypes[c.Key]], et))
	}
	if err := run(prog); err != nil {
		return err
	}
	if c.Cap >= 0 && c.Key == "" {
		v, _ := ql.Var("c")
		if rv := reflect.ValueOf(v); rv.Kind() != reflect.Slice || rv.Cap() != c.Cap {
			return failf("%s gives %s with a wrong capacity", prog, snapReal(v))
		}
	}
	same := func(where string) error {
		got, _ := ql.Var("c")
		if !reflect.DeepEqual(kPlain(got), kPlain(want.Interface())) || reflect.TypeOf(got) != want.Type() {
			return failf("%s: c is %s (%T), want %s (%s)", where, snapReal(got), got, snapReal(want.Interface()), want.Type())
		}
		return nil
	}
	if err := same(prog); err != nil {
		return err
	}
	for i, s := range c.Steps {
		col, name := want, "c"
		if s.In { // the element itself is a collection
			k := s.K2.N
			var e reflect.Value
			if col.Kind() == reflect.Slice {
				if k >= col.Len() {
					continue
				}
				ql.SetVar("k2", k)
				e = col.Index(k)
			} else {
				key := KVal{N: k}.of(col.Type().Key())
				ql.SetVar("k2", key.Interface())
				e = col.MapIndex(key)
			}
			if e.IsValid() && e.Kind() == reflect.Interface {
				e = e.Elem()
			}
			if !e.IsValid() || e.Kind() != reflect.Slice && e.Kind() != reflect.Map || e.Kind() == reflect.Map && e.IsNil() {
				continue
			}
			col, name = e, "c[k2]"
			x.Class("in an element")
		}
		typ := col.Type()
		key := reflect.ValueOf(s.K.N)
		if col.Kind() == reflect.Map {
			key = s.K.of(typ.Key())
		}
		ql.SetVar("k", key.Interface())
		val := s.V.of(typ.Elem())
		if s.Nil && (typ.Elem().Kind() == reflect.Interface || typ.Elem().Kind() == reflect.Slice || typ.Elem().Kind() == reflect.Map) {
			val = reflect.Zero(typ.Elem())
			ql.SetVar("v", nil)
		} else {
			ql.SetVar("v", kClone(val).Interface())
		}
		inside := col.Kind() == reflect.Map || s.K.N < col.Len()
		var x1 interface{} = "?"
		switch s.Op {
		case "set":
			prog = fmt.Sprintf("set(%s, k, v)", name)
			if !inside {
				prog = "len(" + name + ")"
				break
			}
			if col.Kind() == reflect.Map {
				col.SetMapIndex(key, val)
			} else {
				col.Index(s.K.N).Set(val)
			}
		case "append":
			if s.In || col.Kind() == reflect.Map {
				continue
			}
			vals := []reflect.Value{val}
			prog = "c = append(c, v"
			for j, m := range s.More {
				w := m.of(typ.Elem())
				n := fmt.Sprintf("w%d", j)
				ql.SetVar(n, kClone(w).Interface())
				prog += ", " + n
				vals = append(vals, w)
			}
			prog += ")"
			want = reflect.Append(want, vals...)
		case "read":
			prog = fmt.Sprintf("x = %s[k]", name)
			if s.V.N%2 == 0 {
				prog = fmt.Sprintf("x = get(%s, k)", name)
			}
			if col.Kind() == reflect.Map {
				x1 = spec.Undefined
				if e := col.MapIndex(key); e.IsValid() {
					x1 = e.Interface()
				}
			} else {
				if !inside {
					continue
				}
				x1 = col.Index(s.K.N).Interface()
			}
		case "del":
			if col.Kind() != reflect.Map {
				continue
			}
			prog = fmt.Sprintf("delete(%s, k)", name)
			if s.V.N%2 == 0 {
				prog = fmt.Sprintf("set(%s, k, undefined)", name)
			}
			col.SetMapIndex(key, reflect.Value{})
		case "sub":
			if s.In || col.Kind() == reflect.Map || s.K.N > s.K2.N || s.K2.N > col.Len() {
				continue
			}
			prog = fmt.Sprintf("c = c[%d:%d]", s.K.N, s.K2.N)
			want = want.Slice(s.K.N, s.K2.N)
		case "len":
			prog = fmt.Sprintf("x = len(%s)", name)
			x1 = col.Len()
		}
		if err := run(prog); err != nil {
			return failf("step %d: c is %s (%s): %v", i, snapReal(want.Interface()), want.Type(), err)
		}
		where := fmt.Sprintf("step %d, %s", i, prog)
		if err := same(where); err != nil {
			return err
		}
		if x1 != interface{}("?") {
			got, _ := ql.Var("x")
			if !reflect.DeepEqual(kPlain(got), kPlain(x1)) || reflect.TypeOf(got) != reflect.TypeOf(x1) {
				return failf("%s: x is %s (%T), want %s (%T)", where, snapReal(got), got, snapReal(x1), x1)
			}
		}
		x.Class("done " + s.Op)
		x.NonTrivialIf(c.T.Elem != nil || c.T.Of == "type")
	}
	return nil
}

// kPlain makes the deep comparison tell undefined from other errors, and nil slices be like empty ones.
func kPlain(v interface{}) interface{} {
	if v == spec.Undefined {
		return "undefined!"
	}
	r := reflect.ValueOf(v)
	switch {
	case !r.IsValid():
		return nil
	case r.Kind() == reflect.Slice:
		l := []interface{}{r.Type().String()}
		for i := 0; i < r.Len(); i++ {
			l = append(l, kPlain(r.Index(i).Interface()))
		}
		return l
	case r.Kind() == reflect.Map:
		m := map[interface{}]interface{}{}
		for _, k := range r.MapKeys() {
			m[k.Interface()] = kPlain(r.MapIndex(k).Interface())
		}
		return m
	}
	return v
}

// ---------------------------------------------------------------- Q06: collections of the host

// HostColl asks for something of a value that the host has set.
type HostColl struct {
	Kind string
	V    KVal
	Op   string
	I, J int
	Lo   bool `json:",omitempty"`
	Hi   bool `json:",omitempty"`
}

var hostColls = map[string]func(v KVal) interface{}{
	"string":  func(v KVal) interface{} { return strings.Repeat(kStrings[v.N%len(kStrings)], 1+len(v.L)) },
	"nil":     func(v KVal) interface{} { return nil },
	"array":   func(v KVal) interface{} { return [3]int{v.N, v.N + 1, len(v.L)} },
	"strings": func(v KVal) interface{} { return v.of(reflect.TypeOf([]string(nil))).Interface() },
	"nested":  func(v KVal) interface{} { return v.of(reflect.TypeOf([][]int(nil))).Interface() },
	"int32s":  func(v KVal) interface{} { return []int32{int32(v.N), -1, int32(len(v.L))}[:len(v.L)%4] },
	"errors":  func(v KVal) interface{} { return []error{nil, fmt.Errorf("e%d", v.N)} },
	"named":   func(v KVal) interface{} { return kNamed{v.N, 2, 3}[:1+len(v.L)%3] },
	"map":     func(v KVal) interface{} { return v.of(reflect.TypeOf(map[int]string(nil))).Interface() },
	"boolmap": func(v KVal) interface{} { return v.of(reflect.TypeOf(map[int]bool(nil))).Interface() },
	"nilmap":  func(v KVal) interface{} { return map[int]int(nil) },
	"chan": func(v KVal) interface{} {
		c := make(chan int, 4+v.N%5)
		for range v.L {
			c <- 1
		}
		return &types.Chan{Data: reflect.ValueOf(c)}
	},
	"gochan": func(v KVal) interface{} {
		c := make(chan string, 5)
		for range v.L {
			c <- ""
		}
		return c
	},
	"int": func(v KVal) interface{} { return v.N },
}

type kNamed []int

func genHostColl(t *rapid.T) HostColl {
	return HostColl{Kind: pick(t, sortedKeys(hostColls)), V: genKVal(t, 2), Op: pick(t, []string{"len", "cap", "index", "get", "sub", "subfn", "type"}),
		I: between(t, -1, 6), J: between(t, -1, 6), Lo: chance(t, 60), Hi: chance(t, 60)}
}

func checkHostColl(c HostColl, x *Ctx) error {
	v := hostColls[c.Kind](c.V)
	ql, err := qlang.New(nil)
	if err != nil {
		return failf("New: %v", err)
	}
	ql.SetVar("c", v)
	ql.SetVar("i", c.I)
	ql.SetVar("j", c.J)
	r := reflect.ValueOf(v)
	if ch, ok := v.(*types.Chan); ok {
		r = ch.Data
	}
	kind := r.Kind()
	seq := kind == reflect.Slice || kind == reflect.String || kind == reflect.Array
	var prog string
	var want interface{}
	bad := false
	switch c.Op {
	case "len":
		prog = "x = len(c)"
		if v == nil {
			want = 0
		} else if bad = !seq && kind != reflect.Map && kind != reflect.Chan; !bad {
			want = r.Len()
		}
	case "cap":
		prog = "x = cap(c)"
		if v == nil {
			want = 0
		} else if bad = kind != reflect.Slice && kind != reflect.Array && kind != reflect.Chan; !bad {
			want = r.Cap()
		}
	case "index", "get":
		prog = "x = c[i]"
		if c.Op == "get" {
			prog = "x = get(c, i)"
		}
		switch {
		case v == nil, kind == reflect.Int, kind == reflect.Chan:
			return nil // members and the like
		case kind == reflect.Map:
			want = spec.Undefined
			if e := r.MapIndex(reflect.ValueOf(c.I)); e.IsValid() {
				want = e.Interface()
			}
		case c.I < 0 || c.I >= r.Len():
			bad = true
		default:
			want = r.Index(c.I).Interface()
		}
	case "sub", "subfn":
		if kind != reflect.Slice && kind != reflect.String {
			return nil
		}
		lo, hi, l, h := "", "", 0, r.Len()
		if c.Lo {
			lo, l = "i", c.I
		}
		if c.Hi {
			hi, h = "j", c.J
		}
		prog = "x = c[" + lo + ":" + hi + "]"
		if c.Op == "subfn" {
			if lo == "" {
				lo = "nil"
			}
			if hi == "" {
				hi = "nil"
			}
			prog = "x = sub(c, " + lo + ", " + hi + ")"
		}
		most := r.Len()
		if kind == reflect.Slice {
			most = r.Cap()
		}
		if bad = l < 0 || l > h || h > most; !bad {
			want = r.Slice(l, h).Interface()
		}
	case "type":
		prog = "x = type(c)"
		want = reflect.TypeOf(v)
	}
	err, p := safeEval(ql, prog)
	where := fmt.Sprintf("c is %s (%T), i is %d, j is %d: %s: ", snapReal(v), v, c.I, c.J, prog)
	switch {
	case p != nil:
		return failf("%spanics: %v", where, p)
	case bad && err == nil:
		got, _ := ql.Var("x")
		return failf("%sgives %s, must be refused", where, snapReal(got))
	case bad:
		x.Class("refused " + c.Op)
		return nil
	case err != nil:
		return failf("%sfails: %v", where, err)
	}
	got, _ := ql.Var("x")
	if reflect.TypeOf(got) != reflect.TypeOf(want) || !reflect.DeepEqual(kPlain(got), kPlain(want)) {
		return failf("%sgives %s (%T), want %s (%T)", where, snapReal(got), got, snapReal(want), want)
	}
	x.NonTrivial()
	x.Class(c.Op + " of " + c.Kind)
	return nil
}

func init() {
	reg("Q06", "types", "histories on slices and maps of composed types; non-trivial: of slices or maps, or of the type of a value", 12000, 500000, genKCase, checkKCase)
	reg("Q06", "hostcoll", "one question about a collection of the host; non-trivial: it has an answer", 6000, 100000, genHostColl, checkHostColl)
}
