package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	cmplxcalc "github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"
	"pgregory.net/rapid"
)

// I04: functions that a host adds to the table of a calculator.

// HostFnCase is an expression that calls the function hvfn.
type HostFnCase struct {
	Calc     string
	Params   []string
	Variadic bool
	Ret      CallVal
	X        *X
	Text     Text
}

const hostFn = "hvfn"

var hostFnRets = map[string][]interface{}{
	"float64": {1.5, math.Copysign(0, -1), math.Inf(1), 1e-320},
	"float32": {float32(0.1), float32(16777216)},
	"int":     {0, -7, math.MaxInt64, 1<<53 + 1},
	"int8":    {int8(-128)},
	"int16":   {int16(-300)},
	"int32":   {int32(math.MinInt32)},
	"int64":   {int64(math.MinInt64), int64(1)},
	"uint":    {uint(7), uint(math.MaxUint)},
	"uint8":   {uint8(200)},
	"uint16":  {uint16(65535)},
	"uint32":  {uint32(math.MaxUint32)},
	"uint64":  {uint64(math.MaxUint64), uint64(1 << 63)},
	"uintptr": {uintptr(12)},
	"named":   {callNamed(2.5)},
	"complex": {complex(1.5, -2), complex(0, math.Inf(1))},
	"c64":     {complex64(complex(0.5, 0.1))},
	"rat":     {big.NewRat(-7, 3), big.NewRat(1, 1)},
	"string":  {"5"},
	"bool":    {true},
	"slice":   {[]float64{1}},
}

var hostFnParam = map[string]reflect.Type{
	"float64": reflect.TypeOf(0.0), "complex": reflect.TypeOf(complex(0, 0)), "rat": reflect.TypeOf((*big.Rat)(nil)),
	"any": tAny, "int": reflect.TypeOf(0), "string": reflect.TypeOf(""),
}

var calcValue = map[string]string{"number": "float64", "cmplx": "complex", "rat": "rat"}

// hostResult is the value a calculator makes of a function's result.
func hostResult(calc string, v interface{}) (interface{}, bool) {
	rv := reflect.ValueOf(v)
	switch k := rv.Kind(); {
	case calc == "rat":
		r, ok := v.(*big.Rat)
		return r, ok
	case k == reflect.Float64 || k == reflect.Float32:
		if calc == "cmplx" {
			return complex(rv.Float(), 0), true
		}
		return rv.Float(), true
	case k >= reflect.Int && k <= reflect.Int64:
		if calc == "cmplx" {
			return complex(float64(rv.Int()), 0), true
		}
		return float64(rv.Int()), true
	case k >= reflect.Uint && k <= reflect.Uintptr:
		if calc == "cmplx" {
			return complex(float64(rv.Uint()), 0), true
		}
		return float64(rv.Uint()), true
	case calc == "cmplx" && (k == reflect.Complex128 || k == reflect.Complex64):
		return rv.Complex(), true
	}
	return nil, false
}

// model extends the calculator by the function; called gets the arguments of each call.
func (c HostFnCase) model(called *[][]interface{}) *calc {
	cc := *calcs[c.Calc]
	cc.fns = map[string]xfn{}
	for n, f := range calcs[c.Calc].fns {
		cc.fns[n] = f
	}
	cc.fns[hostFn] = xfn{n: -1, f: func(a []interface{}) (interface{}, error) {
		n := len(c.Params)
		if c.Variadic && len(a) < n-1 || !c.Variadic && len(a) != n {
			return nil, failf("argument count")
		}
		for i := range a {
			if p := c.Params[min(i, n-1)]; p != "any" && p != calcValue[c.Calc] {
				return nil, failf("argument type")
			}
		}
		*called = append(*called, a)
		r, ok := hostResult(c.Calc, hostFnRets[c.Ret.T][c.Ret.I])
		if !ok {
			return nil, failf("result type")
		}
		return r, nil
	}}
	return &cc
}

func genHostFn(t *rapid.T) HostFnCase {
	c := HostFnCase{Calc: pick(t, []string{"number", "cmplx", "rat"})}
	own := calcValue[c.Calc]
	c.Params = many(t, 0, 5, 2, func(t *rapid.T) string {
		switch weighted(t, 8, 4, 1) {
		case 0:
			return own
		case 1:
			return "any"
		}
		return pick(t, sortedKeys(hostFnParam))
	})
	c.Variadic = len(c.Params) > 0 && chance(t, 35)
	c.Ret.T = pick(t, sortedKeys(hostFnRets))
	if chance(t, 30) {
		c.Ret.T = own
	}
	c.Ret.I = intn(t, len(hostFnRets[c.Ret.T]))
	var calls [][]interface{}
	cc := c.model(&calls)
	cc.fns = map[string]xfn{hostFn: cc.fns[hostFn]} // only this one
	g := newXGen(t, cc, 0)
	c.X = g.gen(t, 0)
	call := false
	c.X.walk(func(x *X) {
		if x.Op != "call" {
			return
		}
		call = true
		n := len(c.Params)
		if c.Variadic {
			n += intn(t, 4) - 1
			if chance(t, 12) {
				n += pick(t, []int{20, 60, 120, 250, 260, 300, 520}) + intn(t, 12)
			}
		}
		if chance(t, 8) {
			return // any number of arguments
		}
		for len(x.Kids) < n {
			if n > 20 {
				x.Kids = append(x.Kids, &X{Op: "num", Lit: fmt.Sprint(intn(t, 12))})
				continue
			}
			x.Kids = append(x.Kids, g.leaf(t))
		}
		x.Kids = x.Kids[:n]
	})
	if !call {
		x := &X{Op: "call", Lit: hostFn}
		for range c.Params {
			x.Kids = append(x.Kids, g.leaf(t))
		}
		if chance(t, 50) {
			x = &X{Op: pick(t, cc.ops), Kids: []*X{c.X, x}}
		}
		c.X = x
	}
	c.Text = Text(strings.Join(c.X.words(1), " "))
	return c
}

func checkHostFn(c HostFnCase, x *Ctx) error {
	var got, exp [][]interface{}
	m := c.model(&exp)
	tree, perr := m.parse(string(c.Text))
	if perr != nil {
		panic("harness: malformed: " + string(c.Text))
	}
	want, werr, either := m.refEval(tree)
	if either {
		return errSkip
	}
	ret := hostFnRets[c.Ret.T][c.Ret.I]
	if r, ok := ret.(*big.Rat); ok {
		ret = new(big.Rat).Set(r)
	}
	var in []reflect.Type
	for i, p := range c.Params {
		t := hostFnParam[p]
		if c.Variadic && i == len(c.Params)-1 {
			t = reflect.SliceOf(t)
		}
		in = append(in, t)
	}
	fn := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf(ret)}, c.Variadic), func(args []reflect.Value) []reflect.Value {
		a := []interface{}{}
		for i, v := range args {
			if c.Variadic && i == len(args)-1 {
				for k := 0; k < v.Len(); k++ {
					a = append(a, v.Index(k).Interface())
				}
				break
			}
			a = append(a, v.Interface())
		}
		got = append(got, a)
		return []reflect.Value{reflect.ValueOf(ret)}
	}).Interface()
	table := map[string]map[string]interface{}{"number": number.Fntable, "cmplx": cmplxcalc.Fntable, "rat": rat.Fntable}[c.Calc]
	table[hostFn] = fn
	defer delete(table, hostFn)
	v, err := m.fresh().eval(string(c.Text))
	if cerr := m.compare(string(c.Text), v, err, want, werr, false); cerr != nil {
		return cerr
	}
	if len(got) != len(exp) {
		return failf("%q: function is called %d times, want %d", string(c.Text), len(got), len(exp))
	}
	for i := range got {
		if len(got[i]) != len(exp[i]) {
			return failf("%q: call %d gets %d arguments, want %d", string(c.Text), i, len(got[i]), len(exp[i]))
		}
		for j := range got[i] {
			if reflect.TypeOf(got[i][j]) != reflect.TypeOf(exp[i][j]) || m.show(got[i][j]) != m.show(exp[i][j]) {
				return failf("%q: call %d gets %v, want %v", string(c.Text), i, m.show(got[i][j]), m.show(exp[i][j]))
			}
		}
	}
	x.NonTrivial()
	x.ClassIf(len(got) > 1, "several calls")
	x.ClassIf(werr != nil, "refused")
	x.ClassIf(werr == nil && c.Ret.T != calcValue[c.Calc], "result is converted")
	return nil
}

func init() {
	reg("I04", "hostfns", "expressions that call a function which the host added to a calculator; non-trivial: all", 16000, 500000, genHostFn, checkHostFn)
}

// CalcStackCase is a call of a function of a calculator with values that the host put on the stack.
type CalcStackCase struct {
	Calc   string
	Name   string
	Lits   []string // pushed values
	Arity  int      // pushed last, unless it is negative
	Repeat bool     // call again after the first one
}

func genCalcStack(t *rapid.T) CalcStackCase {
	c := CalcStackCase{Calc: pick(t, []string{"number", "cmplx", "rat"})}
	m := calcs[c.Calc]
	c.Name = pick(t, sortedKeys(m.fns))
	if chance(t, 12) && c.Calc != "cmplx" {
		c.Name = pick(t, []string{"max", "min"})
	}
	if chance(t, 6) {
		c.Name = pick(t, []string{"", "foo", "Sin", "arity", "MAX"})
	}
	f := m.fns[c.Name]
	c.Arity = f.n
	if f.n < 0 || chance(t, 10) {
		c.Arity = intn(t, 7)
		if chance(t, 6) {
			c.Arity = pick(t, []int{20, 60, 120, 250, 260, 300, 520}) + intn(t, 12)
		}
	}
	if chance(t, 4) {
		c.Arity = -1
	}
	n := c.Arity + intn(t, 4)
	if chance(t, 15) {
		n = intn(t, 4)
	}
	for i := 0; i < n; i++ {
		if n > 20 {
			c.Lits = append(c.Lits, fmt.Sprint(intn(t, 12)))
			continue
		}
		c.Lits = append(c.Lits, genNumLit(t, m))
	}
	c.Repeat = chance(t, 30)
	return c
}

func checkCalcStack(c CalcStackCase, x *Ctx) error {
	m := calcs[c.Calc]
	var vals []interface{}
	for _, l := range c.Lits {
		r := refLex(l, false)
		v, err, either := m.lit(r.Toks[0].Kind, l)
		if err != nil || either {
			return errSkip
		}
		vals = append(vals, v)
	}
	var call func(name string) error
	var all func() []interface{}
	var push func(v interface{})
	var arity func(n int)
	switch c.Calc {
	case "number":
		p := number.New()
		s := p.Stack().(*number.Stack)
		call, push, arity = p.Call, func(v interface{}) { s.Push(v.(float64)) }, func(n int) { number.Arity(s, n) }
		all = func() (r []interface{}) {
			for _, v := range *s {
				r = append(r, v)
			}
			return
		}
	case "cmplx":
		p := cmplxcalc.New()
		s := p.Stack().(*cmplxcalc.Stack)
		call, push, arity = p.Call, func(v interface{}) { s.Push(v.(complex128)) }, func(n int) { cmplxcalc.Arity(s, n) }
		all = func() (r []interface{}) {
			for _, v := range *s {
				r = append(r, v)
			}
			return
		}
	case "rat":
		p := rat.New()
		s := p.Stack().(*rat.Stack)
		call, push, arity = p.Call, func(v interface{}) { s.Push(new(big.Rat).Set(v.(*big.Rat))) }, func(n int) { rat.Arity(s, n) }
		all = func() (r []interface{}) {
			for _, v := range *s {
				r = append(r, v)
			}
			return
		}
	}
	for _, v := range vals {
		push(v)
	}
	times := 1
	if c.Repeat {
		times = 2
	}
	for i := 0; i < times; i++ {
		f, known := m.fns[c.Name]
		why := ""
		switch {
		case !known:
			why = "unknown function"
		case c.Arity < 0:
			if len(vals) > 0 {
				return nil // one of the values is taken for the number of arguments
			}
			why = "number of arguments is missing"
		case f.n >= 0 && c.Arity != f.n:
			why = "argument count"
		case len(vals) < c.Arity:
			why = "stack"
		}
		var want interface{}
		var werr error
		k := len(vals) - c.Arity
		if why == "" {
			if want, werr = f.call(vals[k:]); werr == errSlow {
				return errSkip
			}
		}
		if c.Arity >= 0 {
			arity(c.Arity)
		}
		err := safely(func() error { return call(c.Name) })
		if why != "" {
			x.Class("refused: " + why)
			x.NonTrivial()
			if err == nil {
				return failf("%s goes through, must be refused: %s", c.Name, why)
			}
			if err.Error() == "" {
				return failf("empty error")
			}
			return nil
		}
		if (werr != nil) != (err != nil) {
			return failf("%s: error is %v, want %v", c.Name, err, werr)
		}
		if werr != nil {
			x.Class("fails at run time")
			return nil
		}
		vals = append(vals[:k:k], want)
		got := all()
		if len(got) != len(vals) {
			return failf("%s leaves %d values, want %d", c.Name, len(got), len(vals))
		}
		for j := range got {
			if m.show(got[j]) != m.show(vals[j]) {
				return failf("%s: value %d is %s, want %s", c.Name, j, m.show(got[j]), m.show(vals[j]))
			}
		}
	}
	x.Class("passed")
	x.NonTrivialIf(c.Arity > 0)
	x.ClassIf(len(vals) > 1, "values below the arguments")
	return nil
}

func init() {
	reg("I04", "calcstack", "calls of calculator functions with values that the host put on the stack; non-trivial: refused, or with arguments", 16000, 500000, genCalcStack, checkCalcStack)
}
