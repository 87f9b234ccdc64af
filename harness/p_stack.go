package main

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/number"
	qlangv1 "github.com/qiniu/text/tpl/qlang/cl"
	"github.com/qiniu/text/tpl/rat"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I04: the stacks

// StackStep is push, pop, args (take N of them), ret (the N results of a function) or clear.
type StackStep struct {
	Op string
	N  int
}

// StackCase is a history on one stack.
type StackCase struct {
	Stack string
	Steps []StackStep
}

func genStack(t *rapid.T) StackCase {
	c := StackCase{Stack: pick(t, []string{"number", "cmplx", "rat", "qlang"})}
	c.Steps = many(t, 1, 60, 15, func(t *rapid.T) StackStep {
		s := StackStep{Op: pick(t, []string{"push", "push", "push", "push", "pop", "args", "ret", "clear"})}
		switch s.Op {
		case "push":
			s.N = 1
			if chance(t, 10) {
				s.N = between(t, 2, 40)
			}
		case "args", "ret":
			s.N = size(t, 2, 20)
		}
		return s
	})
	return c
}

func checkStack(c StackCase, x *Ctx) error {
	type stack interface {
		PopArgs(int) ([]reflect.Value, bool)
		PushRet([]reflect.Value) error
	}
	var s stack
	var push func(n int)
	var pop func() (interface{}, bool)
	var all func() []interface{}
	var host func(n int) interface{}
	var clear func()
	show := func(v interface{}) string {
		if r, ok := v.(*big.Rat); ok {
			return r.RatString()
		}
		return fmt.Sprintf("%T %v", v, v)
	}
	switch c.Stack {
	case "number":
		k := number.NewStack()
		clear = k.Clear
		s, push, pop = k, func(n int) { k.Push(float64(n)) }, func() (interface{}, bool) { v, ok := k.Pop(); return v, ok }
		all = func() (r []interface{}) {
			for _, v := range *k {
				r = append(r, v)
			}
			return
		}
		host = func(n int) interface{} { return float64(n) }
	case "cmplx":
		k := cmplx.NewStack()
		clear = k.Clear
		s, push, pop = k, func(n int) { k.Push(complex(float64(n), 1)) }, func() (interface{}, bool) { v, ok := k.Pop(); return v, ok }
		all = func() (r []interface{}) {
			for _, v := range *k {
				r = append(r, v)
			}
			return
		}
		host = func(n int) interface{} { return complex(float64(n), 1) }
	case "rat":
		k := rat.NewStack()
		clear = k.Clear
		s, push, pop = k, func(n int) { k.Push(big.NewRat(int64(n), 2)) }, func() (interface{}, bool) { v, ok := k.Pop(); return v, ok }
		all = func() (r []interface{}) {
			for _, v := range *k {
				r = append(r, v)
			}
			return
		}
		host = func(n int) interface{} { return big.NewRat(int64(n), 2) }
	case "qlang":
		k := qlangv1.NewStack()
		clear = func() { k.SetFrame(0) }
		s, push, pop = k, func(n int) { k.Push(fmt.Sprint(n)) }, func() (interface{}, bool) { v, ok := k.Pop(); return v, ok }
		all = func() (r []interface{}) {
			for _, v := range *k {
				r = append(r, v)
			}
			return
		}
		host = func(n int) interface{} { return fmt.Sprint(n) }
	}
	var model []interface{}
	taken := false
	next := 0
	for i, st := range c.Steps {
		where := fmt.Sprintf("%s stack, step %d (%s %d)", c.Stack, i, st.Op, st.N)
		switch st.Op {
		case "push":
			for k := 0; k < st.N; k++ {
				next++
				push(next)
				model = append(model, host(next))
			}
		case "pop":
			v, ok := pop()
			if ok != (len(model) > 0) {
				return failf("%s: ok is %v with %d values", where, ok, len(model))
			}
			if ok {
				w := model[len(model)-1]
				model = model[: len(model)-1 : len(model)-1]
				if show(v) != show(w) {
					return failf("%s gives %s, want %s", where, show(v), show(w))
				}
			}
		case "args":
			args, ok := s.PopArgs(st.N)
			if ok != (len(model) >= st.N) {
				return failf("%s: ok is %v with %d values", where, ok, len(model))
			}
			if !ok {
				x.Class("too few values")
				break
			}
			if len(args) != st.N {
				return failf("%s gives %d values", where, len(args))
			}
			k := len(model) - st.N
			for j, w := range model[k:] {
				if g := args[j].Interface(); show(g) != show(w) {
					return failf("%s: argument %d is %s, want %s", where, j, show(g), show(w))
				}
			}
			taken = taken || st.N > 0
			model = model[:k:k]
		case "ret":
			var out []reflect.Value
			var vals []interface{}
			for k := 0; k < st.N; k++ {
				next++
				out = append(out, reflect.ValueOf(host(next)))
				vals = append(vals, host(next))
			}
			if err := s.PushRet(out); err != nil {
				return failf("%s: %v", where, err)
			}
			switch {
			case c.Stack != "qlang" || len(vals) == 1:
				model = append(model, vals...)
			case len(vals) == 0:
				model = append(model, nil)
			default:
				model = append(model, vals)
			}
		case "clear":
			clear()
			model = nil
		}
		got := all()
		if len(got) != len(model) {
			return failf("%s leaves %d values, want %d", where, len(got), len(model))
		}
		for k := range got {
			if show(got[k]) != show(model[k]) {
				return failf("%s: value %d is %s, want %s", where, k, show(got[k]), show(model[k]))
			}
		}
	}
	x.NonTrivialIf(taken)
	x.ClassIf(next > 16, "over 16 values")
	return nil
}

func init() {
	reg("I04", "stacks", "histories on the stacks of the calculators and of qlang; non-trivial: arguments were taken", 4000, 100000, genStack, checkStack)
}
