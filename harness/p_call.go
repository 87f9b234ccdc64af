package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"

	iutil "github.com/qiniu/text/tpl/interpreter.util"
	"pgregory.net/rapid"
)

// I04: calls of arbitrary Go functions with values of a stack.

// CallVal is a value: the i-th of its type.
type CallVal struct {
	T string
	I int
}

// CallCase is a function and a stack; the last Arity values are the arguments.
type CallCase struct {
	Params   []string
	Variadic bool
	Rets     []string
	Stack    []CallVal
	Arity    int
	Via      string // Call: the function is given; VCall: it is on the stack, below the arguments; or an object with a Call method
	Missing  bool   // VCall: the stack ends above the function
	Refuse   bool   // the stack refuses results
}

type callNamed float64

type callStringer struct{ s string }

func (c callStringer) String() string { return c.s }

var callRats = []*big.Rat{big.NewRat(1, 2), big.NewRat(-3, 1)}
var callInts = []*int{new(int), new(int)}
var callSlices = [][]int{{1, 2}, {}}
var callMaps = []map[string]int{{"a": 1}, {}}

var callVals = map[string][]interface{}{
	"nil":      {nil},
	"float64":  {1.5, 0.0, math.Inf(-1), 1e300},
	"float32":  {float32(2.5), float32(0.1)},
	"int":      {0, -7, 1 << 53, math.MaxInt64},
	"int8":     {int8(-128), int8(5)},
	"int64":    {int64(3), int64(math.MinInt64)},
	"uint8":    {uint8(200), uint8(0)},
	"uint64":   {uint64(math.MaxUint64), uint64(9)},
	"uintptr":  {uintptr(12)},
	"string":   {"", "abc"},
	"bool":     {true, false},
	"complex":  {complex(1, 2), complex(3, 0)},
	"named":    {callNamed(2.5)},
	"rat":      {callRats[0], callRats[1], (*big.Rat)(nil)},
	"intptr":   {callInts[0], callInts[1]},
	"slice":    {callSlices[0], callSlices[1], []int(nil)},
	"map":      {callMaps[0], callMaps[1]},
	"stringer": {callStringer{"x"}},
	"error":    {errors.New("e")},
}

var callTypes = map[string]reflect.Type{"any": tAny, "error": tErr, "fmt.Stringer": reflect.TypeOf((*fmt.Stringer)(nil)).Elem()}

func init() {
	for n, vs := range callVals {
		if n != "nil" && callTypes[n] == nil {
			callTypes[n] = reflect.TypeOf(vs[0])
		}
	}
}

func (v CallVal) value() interface{} { return callVals[v.T][v.I%len(callVals[v.T])] }

func genCallVal(t *rapid.T) CallVal {
	n := pick(t, sortedKeys(callVals))
	return CallVal{n, intn(t, len(callVals[n]))}
}

func genCallCase(t *rapid.T) CallCase {
	c := CallCase{}
	types := sortedKeys(callTypes)
	c.Params = many(t, 0, 6, 2, func(t *rapid.T) string {
		if chance(t, 40) {
			return "float64"
		}
		if chance(t, 25) {
			return "any"
		}
		return pick(t, types)
	})
	c.Variadic = len(c.Params) > 0 && chance(t, 35)
	c.Rets = many(t, 0, 3, 1, func(t *rapid.T) string { return pick(t, types) })
	for i, n := 0, intn(t, 3); i < n; i++ {
		c.Stack = append(c.Stack, genCallVal(t))
	}
	n := len(c.Params)
	if c.Variadic {
		n += len(many(t, 0, 15, tail(t, 2, 6), func(t *rapid.T) int { return 0 })) - 1
	}
	if chance(t, 12) {
		n += pick(t, []int{1, -1, 2, -2})
		if n < 0 {
			n = 0
		}
	}
	c.Arity = n
	for i := 0; i < n; i++ {
		p := "any"
		if i < len(c.Params) {
			p = c.Params[i]
		} else if c.Variadic {
			p = c.Params[len(c.Params)-1]
		}
		v := genCallVal(t)
		switch {
		case chance(t, 4):
			// anything
		case p == "float64" && chance(t, 60):
			v.T = pick(t, []string{"int", "int8", "int64", "uint8", "uint64", "uintptr", "float32", "float64"})
		case p == "fmt.Stringer":
			v.T = pick(t, []string{"stringer", "rat", "nil"})
		case p == "error":
			v.T = pick(t, []string{"error", "error", "nil"})
		case p == "rat":
			v.T = pick(t, []string{"rat", "rat", "nil"})
		case p == "any":
		default:
			v.T = p
		}
		c.Stack = append(c.Stack, v)
	}
	if chance(t, 4) && len(c.Stack) > 0 {
		c.Stack = c.Stack[intn(t, len(c.Stack)+1):]
	}
	c.Via = pick(t, []string{"Call", "VCall", "Call method", "int", "string"}[:weightedTo(t)])
	if c.Via != "Call" {
		c.Missing = chance(t, 4)
	}
	c.Refuse = chance(t, 4)
	return c
}

func weightedTo(t *rapid.T) int { return []int{3, 5}[weighted(t, 9, 1)] }

// pass is the value a parameter of type p gets for the argument, or false if it must be refused.
func pass(v interface{}, p string) (interface{}, bool) {
	t := callTypes[p]
	if v == nil {
		switch t.Kind() {
		case reflect.Interface:
			return nil, true
		case reflect.Ptr:
			return reflect.Zero(t).Interface(), true
		}
		return nil, false
	}
	tv := reflect.TypeOf(v)
	switch {
	case t.Kind() == reflect.Interface:
		return v, tv.Implements(t)
	case tv == t:
		return v, true
	case p != "float64":
		return nil, false
	}
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int8:
		return float64(x), true
	case int64:
		return float64(x), true
	case uint8:
		return float64(x), true
	case uint64:
		return float64(x), true
	case uintptr:
		return float64(x), true
	case float32:
		return float64(x), true
	}
	return nil, false
}

type callStack struct {
	vals   []interface{}
	refuse bool
}

var errRefused = errors.New("results refused")

func (s *callStack) PopArgs(n int) ([]reflect.Value, bool) {
	if n > len(s.vals) {
		return nil, false
	}
	k := len(s.vals) - n
	args := make([]reflect.Value, n)
	for i := range args {
		args[i] = reflect.ValueOf(s.vals[k+i])
	}
	s.vals = s.vals[:k]
	return args, true
}

func (s *callStack) PushRet(ret []reflect.Value) error {
	if s.refuse {
		return errRefused
	}
	for _, v := range ret {
		s.vals = append(s.vals, v.Interface())
	}
	return nil
}

// callObj0.. are objects with a Call method.
type callObj struct {
	f func(args ...interface{}) interface{}
}

func (o *callObj) Call(args ...interface{}) interface{} { return o.f(args...) }

type callObj2 struct {
	f func(a float64, b string) float64
}

func (o callObj2) Call(a float64, b string) float64 { return o.f(a, b) }

func checkCall(c CallCase, x *Ctx) error {
	var got [][]interface{}
	var rets []interface{}
	for i, r := range c.Rets {
		if callTypes[r].Kind() == reflect.Interface {
			rets = append(rets, callVals[map[string]string{"any": "string", "error": "error", "fmt.Stringer": "stringer"}[r]][0])
		} else {
			rets = append(rets, callVals[r][i%len(callVals[r])])
		}
	}
	if c.Via == "Call method" { // of a fixed type
		if c.Variadic {
			c.Params, rets = []string{"any"}, []interface{}{"any result"}
		} else {
			c.Params, rets = []string{"float64", "string"}, []interface{}{42.5}
		}
	}
	var in, out []reflect.Type
	for i, p := range c.Params {
		t := callTypes[p]
		if c.Variadic && i == len(c.Params)-1 {
			t = reflect.SliceOf(t)
		}
		in = append(in, t)
	}
	for _, r := range c.Rets {
		out = append(out, callTypes[r])
	}
	var fn interface{}
	switch {
	case c.Via == "int":
		fn = 5
	case c.Via == "string":
		fn = "f"
	case c.Via != "Call method":
		fn = reflect.MakeFunc(reflect.FuncOf(in, out, c.Variadic), func(args []reflect.Value) []reflect.Value {
			var a []interface{}
			for i, v := range args {
				if c.Variadic && i == len(args)-1 {
					for k := 0; k < v.Len(); k++ {
						a = append(a, v.Index(k).Interface())
					}
					break
				}
				a = append(a, v.Interface())
			}
			got = append(got, a)
			var res []reflect.Value
			for i, r := range rets {
				v := reflect.New(out[i]).Elem()
				v.Set(reflect.ValueOf(r))
				res = append(res, v)
			}
			return res
		}).Interface()
	case c.Variadic:
		fn = &callObj{func(args ...interface{}) interface{} {
			got = append(got, append([]interface{}{}, args...))
			return rets[0]
		}}
	default:
		fn = callObj2{func(a float64, b string) float64 {
			got = append(got, []interface{}{a, b})
			return rets[0].(float64)
		}}
	}
	// the model
	stk := &callStack{refuse: c.Refuse}
	nargs := c.Arity
	have := len(c.Stack)
	var below []interface{}
	for i, v := range c.Stack {
		if c.Via != "Call" && i == have-nargs && !c.Missing {
			stk.vals = append(stk.vals, fn)
		}
		stk.vals = append(stk.vals, v.value())
		if i < have-nargs {
			below = append(below, v.value())
		}
	}
	if c.Via != "Call" && nargs == 0 && !c.Missing {
		stk.vals = append(stk.vals, fn)
	}
	if c.Missing && have > nargs && c.Stack[have-nargs-1].T != "" {
		return errSkip // some other value takes the function's place
	}
	if c.Via == "VCall" && have < nargs {
		c.Missing = true
	}
	if c.Via == "Call method" && have < nargs {
		c.Missing = true
	}
	why := ""
	mayPanic := false // reflect refuses the call
	n := len(c.Params)
	var want []interface{}
	switch {
	case c.Via == "int" || c.Via == "string":
		why = "not callable"
	case c.Missing && c.Via != "Call":
		why = "no function"
	case !c.Variadic && nargs != n || c.Variadic && nargs < n-1:
		why = "argument count"
	case have < nargs:
		why = "stack"
	default:
		for i := 0; i < nargs; i++ {
			p := c.Params[min(i, n-1)]
			v, ok := pass(c.Stack[have-nargs+i].value(), p)
			if !ok {
				why = "argument type"
				if k := callTypes[p].Kind(); k == reflect.Interface || k == reflect.Ptr || c.Stack[have-nargs+i].value() == nil {
					mayPanic = true
				}
			}
			want = append(want, v)
		}
	}
	var err error
	if perr := safely(func() error {
		if c.Via == "Call" {
			err = iutil.Call(stk, fn, nargs)
		} else {
			err = iutil.VCall(stk, nargs)
		}
		return nil
	}); perr != nil {
		if why != "not callable" && why != "no function" && !mayPanic {
			return failf("call panics with %v, must return an error (%s)", perr, why)
		}
		err = perr
	}
	if why != "" {
		x.Class("refused: " + why)
		x.NonTrivial()
		if err == nil {
			return failf("call goes through, must be refused: %s", why)
		}
		if len(got) > 0 {
			return failf("function is called with %v, must be refused: %s", got, why)
		}
		if err.Error() == "" {
			return failf("empty error")
		}
		if why == "stack" && err != iutil.ErrStackDamaged {
			return failf("error is %v, want %v", err, iutil.ErrStackDamaged)
		}
		return nil
	}
	x.NonTrivialIf(nargs > 0)
	x.Class("passed: " + c.Via)
	x.ClassIf(c.Variadic, "variadic")
	if c.Refuse {
		if err != errRefused {
			return failf("error of the stack is lost: %v", err)
		}
	} else if err != nil {
		return failf("refused: %v", err)
	}
	if len(got) != 1 {
		return failf("function is called %d times", len(got))
	}
	if !sameVals(got[0], want) {
		return failf("function gets %#v, want %#v", got[0], want)
	}
	if c.Refuse {
		rets = nil
	}
	if !sameVals(stk.vals, append(below, rets...)) {
		return failf("stack is %#v, want %#v and %#v", stk.vals, below, rets)
	}
	return nil
}

func sameVals(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if reflect.TypeOf(a[i]) != reflect.TypeOf(b[i]) {
			return false
		}
		if a[i] != nil && reflect.TypeOf(a[i]).Kind() == reflect.Ptr {
			if a[i] != b[i] {
				return false
			}
			continue
		}
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func init() {
	reg("I04", "functions", "Go functions of any signature called with values of a stack; non-trivial: refused, or with arguments", 60000, 2000000, genCallCase, checkCall)
}
