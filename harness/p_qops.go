package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/spec"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- Go values as cases

// HVal is a Go value: its type and its text.
type HVal struct {
	T string
	S Text   `json:",omitempty"`
	L []HVal `json:",omitempty"` // elements of a slice
}

var hvIntKinds = map[string]int{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}

var hvTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float64": reflect.TypeOf(0.0), "float32": reflect.TypeOf(float32(0)), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(false), "any": reflect.TypeOf((*interface{})(nil)).Elem(),
	"[]int": reflect.TypeOf([]int(nil)), "[]uint8": reflect.TypeOf([]byte(nil)), "[]float64": reflect.TypeOf([]float64(nil)), "[]string": reflect.TypeOf([]string(nil)),
	"[]any": reflect.TypeOf([]interface{}(nil)), "[]bool": reflect.TypeOf([]bool(nil)),
}

func (v HVal) value() interface{} {
	s := string(v.S)
	switch v.T {
	case "nil":
		return nil
	case "undefined":
		return spec.Undefined
	case "string":
		return s
	case "bool":
		return s == "true"
	case "float64", "float32":
		bits, err := strconv.ParseUint(s, 16, 64)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if v.T == "float32" {
			return float32(math.Float64frombits(bits))
		}
		return math.Float64frombits(bits)
	}
	if strings.HasPrefix(v.T, "[]") {
		t := hvTypes[v.T]
		r := reflect.MakeSlice(t, len(v.L), len(v.L))
		for i, e := range v.L {
			if x := e.value(); x != nil {
				r.Index(i).Set(reflect.ValueOf(x))
			}
		}
		return r.Interface()
	}
	r := reflect.New(hvTypes[v.T]).Elem()
	if v.T[0] == 'u' {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			panic("harness: " + err.Error())
		}
		r.SetUint(n)
	} else {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic("harness: " + err.Error())
		}
		r.SetInt(n)
	}
	return r.Interface()
}

func hvInt(t *rapid.T, typ string) HVal {
	bits := hvIntKinds[typ]
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if typ[0] != 'u' {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	hi.Sub(hi, big.NewInt(1))
	var n *big.Int
	switch weighted(t, 6, 4, 3) {
	case 0:
		n = big.NewInt(int64(between(t, -3, 12)))
	case 1:
		n = pick(t, []*big.Int{lo, hi, new(big.Int).Add(lo, big.NewInt(1)), new(big.Int).Sub(hi, big.NewInt(1)), big.NewInt(1<<53 + 1), big.NewInt(1 << 53), big.NewInt(-1<<53 - 1),
			big.NewInt(1<<31 - 1), big.NewInt(1 << 31), big.NewInt(-1 << 31), big.NewInt(1<<32 + 1), big.NewInt(127), big.NewInt(128), big.NewInt(255), big.NewInt(256), big.NewInt(65), big.NewInt(0x4E2D), big.NewInt(0x10FFFF), big.NewInt(0x110000)})
	default:
		n = new(big.Int).Rsh(big.NewInt(rapid.Int64().Draw(t, "n")), uint(intn(t, 63)))
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		n = new(big.Int).Sub(n, lo)
		n.Mod(n, new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
		n.Add(n, lo)
	}
	return HVal{T: typ, S: Text(n.String())}
}

func hvFloatOf(typ string, f float64) HVal {
	return HVal{T: typ, S: Text(strconv.FormatUint(math.Float64bits(f), 16))}
}

func hvFloat(t *rapid.T, typ string) HVal {
	var f float64
	switch weighted(t, 5, 4, 2) {
	case 0:
		f = float64(between(t, -12, 30)) / pick(t, []float64{1, 2, 4, 10})
	case 1:
		f = pick(t, []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, 5e-324, -5e-324, 1 << 53, 1<<53 + 2, -1 << 63, 1 << 63, 1e308, -1e-308, 0.1, 4294967296, 255.9, -0.9})
	default:
		f = math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
	}
	if typ == "float32" {
		f = float64(float32(f))
	}
	return hvFloatOf(typ, f)
}

// hvScalar is a value without elements; the common types most of the time.
func hvScalar(t *rapid.T, typ string) HVal {
	switch typ {
	case "float64", "float32":
		return hvFloat(t, typ)
	case "string":
		return HVal{T: typ, S: Text(pick(t, []string{"", "a", "b", "ab", "abc", "B", "中", "\xff", "a\x00", "1", "é", "e\u0301", strings.Repeat("a", 40)}))}
	case "bool":
		return HVal{T: typ, S: Text(fmt.Sprint(chance(t, 50)))}
	case "nil", "undefined":
		return HVal{T: typ}
	}
	return hvInt(t, typ)
}

func hvScalarType(t *rapid.T) string {
	switch weighted(t, 30, 25, 10, 6, 8, 10, 3, 2) {
	case 0:
		return "int"
	case 1:
		return "float64"
	case 2:
		return "string"
	case 3:
		return "bool"
	case 4:
		return "uint8"
	case 5:
		return pick(t, []string{"int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float32"})
	case 6:
		return "nil"
	}
	return "undefined"
}

func hvSlice(t *rapid.T, typ string) HVal {
	elem := typ[2:]
	return HVal{T: typ, L: many(t, 0, 6, 2, func(t *rapid.T) HVal {
		e := elem
		if e == "any" {
			e = pick(t, []string{"int", "float64", "string", "bool", "nil"})
		}
		return hvScalar(t, e)
	})}
}

func hvAny(t *rapid.T) HVal {
	if chance(t, 8) {
		return hvSlice(t, pick(t, []string{"[]int", "[]uint8", "[]string", "[]any"}))
	}
	return hvScalar(t, hvScalarType(t))
}

func sameGo(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
		return va.IsValid() == vb.IsValid() && !va.IsValid()
	}
	switch va.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := va.Float(), vb.Float()
		return x != x && y != y || math.Float64bits(x) == math.Float64bits(y)
	case reflect.Slice:
		if va.Len() != vb.Len() {
			return false
		}
		for i := 0; i < va.Len(); i++ {
			if !sameGo(va.Index(i).Interface(), vb.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// ---------------------------------------------------------------- Q01: operators on any Go values

// OpStep is one operation on the variables a and b.
type OpStep struct {
	Form string // bin, assign, un, inc, conv, minmax
	Op   string
	A, B HVal
	More []HVal `json:",omitempty"`
}

type OpCase struct{ Steps []OpStep }

var opBins = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">="}

func genOps(t *rapid.T) OpCase {
	return OpCase{many(t, 1, 12, 4, func(t *rapid.T) OpStep {
		s := OpStep{A: hvAny(t)}
		switch intn(t, 4) {
		case 0:
			s.B = s.A
		case 1:
			if s.A.T == "int" || s.A.T == "float64" {
				s.B = hvScalar(t, pick(t, []string{"int", "float64"}))
			} else if strings.HasPrefix(s.A.T, "[]") {
				s.B = hvSlice(t, s.A.T)
			} else {
				s.B = hvScalar(t, s.A.T)
			}
		case 2:
			if f, ok := s.A.value().(float64); ok && math.Abs(f) < 1<<62 {
				s.B = HVal{T: "int", S: Text(fmt.Sprint(int64(f)))}
			} else if n, ok := s.A.value().(int); ok {
				s.B = hvFloatOf("float64", float64(n))
			} else {
				s.B = hvAny(t)
			}
		default:
			s.B = hvAny(t)
		}
		switch weighted(t, 12, 4, 2, 1, 3, 2) {
		case 0:
			s.Form, s.Op = "bin", pick(t, opBins)
		case 1:
			s.Form, s.Op = "assign", pick(t, opBins[:5])
		case 2:
			s.Form, s.Op = "un", pick(t, []string{"-", "!", "- -", "!!"})
		case 3:
			s.Form, s.Op = "inc", pick(t, []string{"++", "--"})
		case 4:
			s.Form, s.Op = "conv", pick(t, []string{"int", "float", "byte", "string"})
		default:
			s.Form, s.Op = "minmax", pick(t, []string{"min", "max"})
			s.More = many(t, 0, 6, 1, func(t *rapid.T) HVal {
				if chance(t, 90) {
					return hvScalar(t, pick(t, []string{"int", "float64"}))
				}
				return hvAny(t)
			})
		}
		return s
	})}
}

type opErr struct{} // a runtime error
type opAny struct{} // not specified

func opNum(a interface{}) (f float64, n int, isInt, ok bool) {
	switch x := a.(type) {
	case int:
		return float64(x), x, true, true
	case float64:
		return x, 0, false, true
	}
	return
}

func wrap64(z *big.Int) int {
	return int(int64(new(big.Int).And(z, new(big.Int).SetUint64(math.MaxUint64)).Uint64()))
}

func opBin(op string, a, b interface{}) interface{} {
	switch op {
	case "==", "!=":
		ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
		if ta == nil || tb == nil || ta != tb {
			return (ta == tb) == (op == "==")
		}
		if !ta.Comparable() {
			return opErr{}
		}
		same := false
		if x, ok := a.(float64); ok {
			y := b.(float64)
			same = x == y
		} else if x, ok := a.(float32); ok {
			same = x == b.(float32)
		} else {
			same = reflect.DeepEqual(a, b)
		}
		return same == (op == "==")
	case "<", ">", "<=", ">=":
		var c int
		if s, ok := a.(string); ok {
			u, ok := b.(string)
			if !ok {
				return opErr{}
			}
			c = strings.Compare(s, u)
		} else {
			if x, ok := a.(byte); ok {
				a = int(x)
			}
			if x, ok := b.(byte); ok {
				b = int(x)
			}
			x, i, ia, ok1 := opNum(a)
			y, j, ib, ok2 := opNum(b)
			if !ok1 || !ok2 {
				return opErr{}
			}
			switch {
			case ia && ib:
				c = big.NewInt(int64(i)).Cmp(big.NewInt(int64(j)))
			case x != x || y != y:
				return false
			default:
				c = func() int {
					switch {
					case x < y:
						return -1
					case x > y:
						return 1
					}
					return 0
				}()
			}
		}
		return op[0] == '<' && c < 0 || op[0] == '>' && c > 0 || len(op) == 2 && c == 0
	}
	if s, ok := a.(string); ok && op == "+" {
		if u, ok := b.(string); ok {
			return s + u
		}
		return opErr{}
	}
	x, i, ia, ok1 := opNum(a)
	y, j, ib, ok2 := opNum(b)
	if !ok1 || !ok2 {
		return opErr{}
	}
	if ia && ib {
		p, q, z := big.NewInt(int64(i)), big.NewInt(int64(j)), new(big.Int)
		switch op {
		case "+":
			z.Add(p, q)
		case "-":
			z.Sub(p, q)
		case "*":
			z.Mul(p, q)
		default:
			if j == 0 {
				return opErr{}
			}
			if op == "/" {
				z.Quo(p, q)
			} else {
				z.Rem(p, q)
			}
		}
		return wrap64(z)
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		return x / y
	}
	return opErr{}
}

func opOf(s OpStep) interface{} {
	a, b := s.A.value(), s.B.value()
	switch s.Form {
	case "bin", "assign":
		return opBin(s.Op, a, b)
	case "un":
		switch s.Op {
		case "-", "- -":
			if s.Op == "- -" {
				switch x := a.(type) {
				case int, float64:
					return x
				}
				return opErr{}
			}
			switch x := a.(type) {
			case int:
				return wrap64(new(big.Int).Neg(big.NewInt(int64(x))))
			case float64:
				return math.Copysign(x, map[bool]float64{true: 1, false: -1}[math.Signbit(x)])
			}
		default:
			if x, ok := a.(bool); ok {
				return x == (s.Op == "!!")
			}
		}
		return opErr{}
	case "inc":
		d := 1
		if s.Op == "--" {
			d = -1
		}
		switch x := a.(type) {
		case int:
			return wrap64(new(big.Int).Add(big.NewInt(int64(x)), big.NewInt(int64(d))))
		case byte:
			return byte(int(x) + d)
		}
		return opErr{}
	case "conv":
		switch s.Op {
		case "float":
			switch x := a.(type) {
			case int:
				return float64(x)
			case byte:
				return float64(x)
			case float64:
				return x
			}
		case "int":
			switch x := a.(type) {
			case int:
				return x
			case byte:
				return int(x)
			case float64:
				if !(math.Abs(x) < 1<<63) {
					return opAny{}
				}
				z, _ := big.NewFloat(x).Int(nil)
				return int(z.Int64())
			}
		case "byte":
			switch x := a.(type) {
			case int:
				return byte(((x % 256) + 256) % 256)
			case byte:
				return x
			case float64:
				if !(x > -1 && x < 256) {
					return opAny{}
				}
				return byte(math.Trunc(x))
			}
		case "string":
			switch x := a.(type) {
			case int:
				if x < 0 || x > 0x10FFFF {
					return "\uFFFD"
				}
				return string(rune(x))
			case byte:
				return string(rune(x))
			case []byte:
				return string(x)
			}
		}
		return opErr{}
	}
	all := append([]HVal{s.A, s.B}, s.More...)
	ints := true
	for _, v := range all {
		switch x := v.value().(type) {
		case int:
		case float64:
			ints = false
			if x != x {
				return opAny{}
			}
		default:
			return opErr{}
		}
	}
	var best interface{}
	for i, v := range all {
		x := v.value()
		if !ints {
			x, _, _, _ = opNum(x)
		}
		if i == 0 || opBin(map[string]string{"min": "<", "max": ">"}[s.Op], x, best) == true {
			best = x
		}
	}
	if best == 0.0 {
		return opAny{} // the sign of a zero
	}
	return best
}

func checkOps(c OpCase, x *Ctx) error {
	ql, err := qlang.New(nil)
	if err != nil {
		return failf("New: %v", err)
	}
	did := 0
	for i, s := range c.Steps {
		want := opOf(s)
		ql.SetVar("a", s.A.value())
		ql.SetVar("b", s.B.value())
		ql.SetVar("x", "old")
		var prog string
		old := interface{}("old")
		switch s.Form {
		case "bin":
			prog = "x = a " + s.Op + " b"
		case "assign":
			ql.SetVar("x", s.A.value())
			old = s.A.value()
			prog = "x " + s.Op + "= b"
		case "un":
			prog = "x = " + s.Op + "a"
		case "inc":
			ql.SetVar("x", s.A.value())
			old = s.A.value()
			prog = "x" + s.Op
		case "conv":
			prog = "x = " + s.Op + "(a)"
		default:
			prog = "x = " + s.Op + "(a, b"
			for k, v := range s.More {
				ql.SetVar(fmt.Sprintf("m%d", k), v.value())
				prog += fmt.Sprintf(", m%d", k)
			}
			prog += ")"
		}
		if _, ok := want.(opAny); ok {
			x.Class("not specified")
			continue
		}
		where := fmt.Sprintf("step %d: %s for a = %s, b = %s: ", i, prog, snapReal(s.A.value()), snapReal(s.B.value()))
		err, p := safeEval(ql, prog)
		if p != nil {
			return failf("%spanics with %v", where, p)
		}
		got, _ := ql.Var("x")
		for _, n := range []string{"a", "b"} {
			v := s.A
			if n == "b" {
				v = s.B
			}
			if now, _ := ql.Var(n); !sameGo(now, v.value()) {
				return failf("%s%s becomes %s", where, n, snapReal(now))
			}
		}
		did++
		if _, bad := want.(opErr); bad {
			if err == nil {
				return failf("%sgives %s, want a runtime error", where, snapReal(got))
			}
			if !sameGo(got, old) {
				return failf("%sfails, but x is %s afterwards", where, snapReal(got))
			}
			x.Class("error of " + s.Form)
			continue
		}
		if err != nil {
			return failf("%sfails: %v, want %s", where, err, snapReal(want))
		}
		if !sameGo(got, want) {
			return failf("%sgives %s (%T), want %s (%T)", where, snapReal(got), got, snapReal(want), want)
		}
		x.NonTrivial()
		x.Class("value of " + s.Form)
	}
	if did == 0 {
		return errSkip
	}
	return nil
}

// ---------------------------------------------------------------- Q10: Go functions of any signature

// GoFn is a Go function.
type GoFn struct {
	In       []string
	Variadic bool // the last parameter takes the rest
	Out      []HVal
	Static   []bool // the static type of the result isn't interface{}
	Panic    string `json:",omitempty"`
}

// FnCall is a call.
type FnCall struct {
	Fn     int
	Args   []HVal
	Spread bool
	How    int // 0 variable, 1 member of a map, 2 element of a slice, 3 argument of a qlang function
}

type FnCase struct {
	Fns   []GoFn
	Calls []FnCall
}

var fnParams = []string{"int", "float64", "string", "bool", "any", "[]int", "[]any", "uint8", "int64", "float32", "[]uint8"}

func genFns(t *rapid.T) FnCase {
	c := FnCase{}
	c.Fns = many(t, 1, 4, 2, func(t *rapid.T) GoFn {
		f := GoFn{In: many(t, 0, 6, 2, func(t *rapid.T) string { return pick(t, fnParams[:heavy(t, 5, len(fnParams))]) })}
		f.Variadic = len(f.In) > 0 && chance(t, 35)
		f.Out = many(t, 0, 4, 1, func(t *rapid.T) HVal {
			if chance(t, 15) {
				return hvSlice(t, pick(t, []string{"[]int", "[]string", "[]any", "[]float64"}))
			}
			return hvScalar(t, hvScalarType(t))
		})
		for _, o := range f.Out {
			f.Static = append(f.Static, o.T != "nil" && o.T != "undefined" && chance(t, 70))
		}
		if chance(t, 6) {
			f.Panic = pick(t, []string{"boom", "x y"})
		}
		return f
	})
	c.Calls = many(t, 1, 8, 3, func(t *rapid.T) FnCall {
		k := FnCall{Fn: intn(t, len(c.Fns)), How: intn(t, 4)}
		f := c.Fns[k.Fn]
		arg := func(typ string) HVal {
			if chance(t, 4) {
				return hvAny(t)
			}
			switch {
			case typ == "any":
				return hvAny(t)
			case typ == "float64" && chance(t, 40):
				return hvScalar(t, pick(t, []string{"int", "uint8", "int8", "int64", "uint64", "float32"}))
			case strings.HasPrefix(typ, "[]"):
				return hvSlice(t, typ)
			}
			return hvScalar(t, typ)
		}
		for i, typ := range f.In {
			if f.Variadic && i == len(f.In)-1 {
				k.Args = append(k.Args, many(t, 0, 5, 1, func(t *rapid.T) HVal { return arg(typ) })...)
				break
			}
			k.Args = append(k.Args, arg(typ))
		}
		switch intn(t, 12) {
		case 0:
			k.Args = append(k.Args, arg("int"))
		case 1:
			if len(k.Args) > 0 {
				k.Args = k.Args[:len(k.Args)-1]
			}
		}
		if chance(t, 25) {
			k.Spread = true
			n := len(k.Args)
			from := n - intn(t, n+1)
			typ := "[]any"
			if from < n {
				if s := "[]" + k.Args[from].T; hvTypes[s] != nil {
					typ = s
					for _, a := range k.Args[from:] {
						if "[]"+a.T != s {
							typ = "[]any"
						}
					}
				}
			}
			last := HVal{T: typ, L: append([]HVal{}, k.Args[from:]...)}
			for _, a := range last.L {
				if a.T == "undefined" || strings.HasPrefix(a.T, "[]") {
					last = HVal{T: "[]any"}
				}
			}
			k.Args = append(k.Args[:from:from], last)
			if chance(t, 4) {
				k.Args[from] = hvScalar(t, hvScalarType(t))
			}
		}
		return k
	})
	return c
}

// passes: what a parameter of this type gets for the argument.
func passes(typ string, v interface{}) (interface{}, bool) {
	if typ == "any" {
		return v, true
	}
	if v == nil {
		return nil, false
	}
	rv := reflect.ValueOf(v)
	if rv.Type() == hvTypes[typ] {
		return v, true
	}
	if typ == "float64" {
		switch k := rv.Kind(); {
		case k >= reflect.Int && k <= reflect.Int64:
			return float64(rv.Int()), true
		case k >= reflect.Uint && k <= reflect.Uint64:
			return float64(rv.Uint()), true
		case k == reflect.Float32:
			return rv.Float(), true
		}
	}
	return nil, false
}

func checkFns(c FnCase, x *Ctx) error {
	ql, err := qlang.New(nil)
	if err != nil {
		return failf("New: %v", err)
	}
	var got []interface{}
	calls := 0
	fns := make([]interface{}, len(c.Fns))
	table := map[string]interface{}{}
	for i, f := range c.Fns {
		f := f
		var in, out []reflect.Type
		for k, typ := range f.In {
			rt := hvTypes[typ]
			if f.Variadic && k == len(f.In)-1 {
				rt = reflect.SliceOf(rt)
			}
			in = append(in, rt)
		}
		for k, o := range f.Out {
			if f.Static[k] {
				out = append(out, reflect.TypeOf(o.value()))
			} else {
				out = append(out, hvTypes["any"])
			}
		}
		fns[i] = reflect.MakeFunc(reflect.FuncOf(in, out, f.Variadic), func(args []reflect.Value) (res []reflect.Value) {
			calls++
			got = nil
			for k, a := range args {
				if f.Variadic && k == len(args)-1 {
					for j := 0; j < a.Len(); j++ {
						got = append(got, a.Index(j).Interface())
					}
					break
				}
				got = append(got, a.Interface())
			}
			if f.Panic != "" {
				panic(f.Panic)
			}
			for k, o := range f.Out {
				r := reflect.New(out[k]).Elem()
				if v := o.value(); v != nil {
					r.Set(reflect.ValueOf(v))
				}
				res = append(res, r)
			}
			return
		}).Interface()
		table[fmt.Sprintf("f%d", i)] = fns[i]
		ql.SetVar(fmt.Sprintf("f%d", i), fns[i])
	}
	ql.SetVar("t", table)
	ql.SetVar("s", fns)
	if err, p := safeEval(ql, "app = fn(f, xs...) { return f(xs...) }"); err != nil || p != nil {
		return failf("definition of a function fails: %v %v", err, p)
	}
	for i, k := range c.Calls {
		f := c.Fns[k.Fn]
		ql.SetVar("x", "old")
		var names []string
		for j, a := range k.Args {
			n := fmt.Sprintf("a%d", j)
			ql.SetVar(n, a.value())
			names = append(names, n)
		}
		list := strings.Join(names, ", ")
		if k.Spread {
			list += "..."
		}
		var prog string
		switch k.How {
		case 0:
			prog = fmt.Sprintf("x = f%d(%s)", k.Fn, list)
		case 1:
			prog = fmt.Sprintf("x = t.f%d(%s)", k.Fn, list)
		case 2:
			prog = fmt.Sprintf("x = s[%d](%s)", k.Fn, list)
		default:
			sep := ", "
			if list == "" {
				sep = ""
			}
			prog = fmt.Sprintf("x = app(f%d%s%s)", k.Fn, sep, list)
		}
		// the arguments of the call
		var args []interface{}
		bad := false
		for j, a := range k.Args {
			if k.Spread && j == len(k.Args)-1 {
				if !strings.HasPrefix(a.T, "[]") {
					bad = true
				}
				for _, e := range a.L {
					args = append(args, e.value())
				}
				break
			}
			args = append(args, a.value())
		}
		n := len(f.In)
		bad = bad || len(args) != n && !(f.Variadic && len(args) >= n-1)
		var want []interface{}
		for j := 0; j < len(args) && !bad; j++ {
			typ := f.In[min(j, n-1)]
			v, ok := passes(typ, args[j])
			bad = !ok
			want = append(want, v)
		}
		calls, got = 0, nil
		err, p := safeEval(ql, prog)
		where := fmt.Sprintf("call %d, %s of %T with %s: ", i, prog, fns[k.Fn], snapReal(args))
		if p != nil {
			return failf("%spanics with %v", where, p)
		}
		res, _ := ql.Var("x")
		if bad {
			if err == nil || calls != 0 {
				return failf("%sisn't refused (%d calls, error %v)", where, calls, err)
			}
			if res != interface{}("old") {
				return failf("%sfails, but x is %s afterwards", where, snapReal(res))
			}
			x.Class("refused")
			continue
		}
		if calls != 1 {
			return failf("%s%d calls of the function (error %v)", where, calls, err)
		}
		if len(got) != len(want) {
			return failf("%sthe function gets %s, want %s", where, snapReal(got), snapReal(want))
		}
		for j := range got {
			if !sameGo(got[j], want[j]) {
				return failf("%sargument %d arrives as %s (%T), want %s (%T)", where, j, snapReal(got[j]), got[j], snapReal(want[j]), want[j])
			}
		}
		if f.Panic != "" {
			if err == nil || !strings.Contains(err.Error(), f.Panic) {
				return failf("%serror %v, want %q", where, err, f.Panic)
			}
			x.Class("panic of a Go function")
			continue
		}
		if err != nil {
			return failf("%sfails: %v", where, err)
		}
		x.NonTrivialIf(len(args) > 0 || len(f.Out) > 0)
		x.ClassIf(k.Spread, "spread arguments")
		x.ClassIf(f.Variadic, "variadic function")
		var vals []interface{}
		switch len(f.Out) {
		case 0:
			if res != nil {
				return failf("%sgives %s, want nil", where, snapReal(res))
			}
			continue
		case 1:
			vals = []interface{}{res}
		default:
			var ok bool
			if vals, ok = res.([]interface{}); !ok || len(vals) != len(f.Out) {
				return failf("%sgives %s, want a list of %d results", where, snapReal(res), len(f.Out))
			}
			x.Class("several results")
		}
		for j, o := range f.Out {
			if v := o.value(); !sameResult(v, vals[j], f.Static[j]) {
				return failf("%sresult %d is %s (%T), want %s (%T)", where, j, snapReal(vals[j]), vals[j], snapReal(v), v)
			}
		}
	}
	return nil
}

// sameResult: is got what a program sees for the result v of a Go function?
func sameResult(v, got interface{}, static bool) bool {
	if sameGo(v, got) {
		return true
	}
	if !static {
		return false
	}
	switch rv := reflect.ValueOf(v); rv.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return got == int(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return rv.Uint() > math.MaxInt64 || got == int(rv.Uint())
	case reflect.Float32:
		return sameGo(rv.Float(), got)
	}
	return false
}

func init() {
	reg("Q01", "ops", "operators and conversions on host values of any type, boundary numbers; non-trivial: one has a value", 30000, 1200000, genOps, checkOps)
	reg("Q10", "gofuncs", "Go functions of generated signatures, called with generated arguments; non-trivial: a call with arguments or results succeeds", 20000, 800000, genFns, checkFns)
}
