package main

import (
	"math/big"
	"strings"

	"github.com/qiniu/text/tpl/rat"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I01 - I03

// CalcCase is an expression for a calculator; X is nil for texts that need not be well-formed.
type CalcCase struct {
	Calc string
	X    *X `json:",omitempty"`
	Text Text
}

func genCalc(name string, bad int) func(t *rapid.T) CalcCase {
	return func(t *rapid.T) CalcCase {
		n := name
		if n == "" {
			n = pick(t, []string{"number", "cmplx", "rat"})
		}
		c := calcs[n]
		x := newXGen(t, c, bad).gen(t, 0)
		return CalcCase{n, x, Text(layoutWords(t, x.words(1), true))}
	}
}

func genCalcSoup(name string) func(t *rapid.T) CalcCase {
	return func(t *rapid.T) CalcCase {
		c := calcs[name]
		g := newXGen(t, c, 5)
		ws := g.gen(t, 0).words(1)
		junk := func() string {
			switch weighted(t, 4, 2, 2, 1) {
			case 0:
				return pick(t, []string{"(", ")", ",", "+", "-", "*", "/", "%", "e", "sin", "--", "++"})
			case 1:
				return genNumLit(t, c)
			case 2:
				return g.names[bucketN(t, len(g.names))]
			}
			return genLexeme(t).Text
		}
		for i, n := 0, 1+intn(t, 3); i < n && len(ws) > 0; i++ {
			k := intn(t, len(ws))
			switch intn(t, 5) {
			case 0: // missing
				ws = append(ws[:k:k], ws[k+1:]...)
			case 1: // inserted
				ws = append(append(ws[:k:k], junk()), ws[k:]...)
			case 2: // replaced
				ws = append(append(ws[:k:k], junk()), ws[k+1:]...)
			case 3: // cut off
				ws = ws[:k]
			case 4: // at the end
				ws = append(ws, junk())
			}
		}
		text := layoutWords(t, ws, true)
		if chance(t, 5) {
			k := intn(t, len(text)+1)
			text = text[:k] + pick(t, []string{"$", "\x00", `"`, "'", "/*", "\xff", "`", "\\", "08", "0x"}) + text[k:]
		}
		return CalcCase{Calc: name, Text: Text(text)}
	}
}

// genCalcLong are long chains and deep nestings.
func genCalcLong(name string) func(t *rapid.T) CalcCase {
	return func(t *rapid.T) CalcCase {
		c := calcs[name]
		n := pick(t, []int{10, 100, 1000, 3000})
		leaf := func(i int) *X {
			return &X{Op: "num", Lit: string("123456789"[i%9])}
		}
		x := leaf(intn(t, 9))
		shape := intn(t, 5)
		ops := many(t, 1, 9, 4, func(t *rapid.T) string { return pick(t, c.ops) })
		fn := pick(t, []string{"abs", "num", "conj", "sin"})
		if _, ok := c.fns[fn]; !ok {
			fn = "abs"
		}
		for i := 0; i < n; i++ {
			op := ops[i%len(ops)]
			switch shape {
			case 0:
				x = &X{Op: op, Kids: []*X{x, leaf(i)}}
			case 1:
				if n > 1000 {
					op = "-"
				}
				x = &X{Op: op, Kids: []*X{leaf(i), x}}
			case 2:
				x = &X{Op: "neg", Kids: []*X{x}}
			case 3:
				x = &X{Op: "call", Lit: fn, Kids: []*X{x}}
			case 4:
				if x.Op != "call" {
					x = &X{Op: "call", Lit: pick(t, []string{"max", "min"})}
					if _, ok := c.fns["max"]; !ok {
						x.Lit = "pow"
					}
				}
				x.Kids = append(x.Kids, leaf(i*7))
			}
		}
		if x.Op == "call" && len(x.Kids) > 2 { // one argument decides
			for j := between(t, 0, 2); j > 0; j-- {
				x.Kids[intn(t, len(x.Kids))] = &X{Op: "num", Lit: pick(t, []string{"77", "0", "12345"})}
			}
		}
		return CalcCase{name, x, Text(strings.Join(x.words(1), " "))}
	}
}

// refResult is what the text must evaluate to.
func (c *calc) refResult(text string) (v interface{}, err error, either bool) {
	x, err := c.parse(text)
	if err != nil {
		if c.name == "number" && (strings.Contains(text, "jn") || strings.Contains(text, "yn")) {
			return nil, errSlow, false // the beginning is evaluated, with a Bessel function of any order
		}
		return nil, err, false
	}
	return c.refEval(x)
}

func (c *calc) compare(text string, got interface{}, gotErr error, want interface{}, wantErr error, either bool) error {
	if (gotErr != nil) != (wantErr != nil) {
		if either && wantErr == nil {
			return nil
		}
		if gotErr != nil {
			return failf("%s: %q fails: %v, want %s", c.name, text, gotErr, c.show(want))
		}
		return failf("%s: %q is %s, want an error: %v", c.name, text, c.show(got), wantErr)
	}
	if gotErr != nil {
		if gotErr.Error() == "" {
			return failf("%s: %q: empty error", c.name, text)
		}
		return nil
	}
	if g, w := c.show(got), c.show(want); g != w {
		return failf("%s: %q is %s, want %s", c.name, text, g, w)
	}
	return nil
}

func checkCalc(cs CalcCase, x *Ctx) error {
	c := calcs[cs.Calc]
	text := string(cs.Text)
	tree, perr := c.parse(text)
	if cs.X != nil && (perr != nil || !sameX(tree, cs.X)) {
		panic("harness: expression is parsed differently: " + text)
	}
	want, werr, either := c.refResult(text)
	if werr == errSlow {
		return errSkip
	}
	got, gerr := c.fresh().eval(text)
	if perr != nil {
		x.Class("malformed")
		x.NonTrivialIf(len(text) > 3)
	} else {
		x.NonTrivialIf(tree.size() > 2)
		x.ClassIf(werr != nil, "fails at run time")
		x.ClassIf(tree.size() > 20, "over 20 nodes")
		tree.walk(func(n *X) {
			if n.Op == "call" {
				x.Class("call")
				if len(n.Kids) == 0 {
					x.Class("call without arguments")
				}
			}
		})
	}
	return c.compare(text, got, gerr, want, werr, either)
}

// RatHistory are expressions evaluated by one calculator whose results are overwritten by their receiver.
type RatHistory struct {
	Texts []Text
	Fns   []bool // call the function of the package directly on shared operands as well
}

func genRatHistory(t *rapid.T) RatHistory {
	g := genCalc("rat", 0)
	return RatHistory{Texts: many(t, 2, 10, 4, func(t *rapid.T) Text { return g(t).Text })}
}

func checkRatHistory(h RatHistory, x *Ctx) error {
	c := calcs["rat"]
	p := c.fresh()
	var kept []*big.Rat
	var keptText []string
	for i, t := range h.Texts {
		want, werr, either := c.refResult(string(t))
		got, gerr := p.eval(string(t))
		if err := c.compare(string(t), got, gerr, want, werr, either); err != nil {
			return failf("evaluation %d: %v", i, err)
		}
		if gerr != nil {
			continue
		}
		r := got.(*big.Rat)
		for j, k := range kept {
			if k.RatString() != keptText[j] {
				return failf("evaluation %d changes the result of an earlier one to %s", i, k.RatString())
			}
			if k == r {
				return failf("evaluation %d hands out the value of an earlier one", i)
			}
		}
		if i%2 == 0 { // overwrite it, in every way that reaches shared storage
			r.Num().SetInt64(int64(1000 + i))
			r.SetFrac64(int64(77+i), 13)
			r.Denom().SetInt64(5)
		}
		kept, keptText = append(kept, r), append(keptText, r.RatString())
	}
	x.NonTrivialIf(len(kept) > 1)
	return nil
}

// RatOps are calls of the package's functions on shared values.
type RatOps struct {
	Vals []string
	Ops  []RatOp
}

// RatOp is a call; its arguments are values by number, its result is a new value.
type RatOp struct {
	F string
	A []int
}

var ratFns = map[string]func(a []*big.Rat) *big.Rat{
	"Abs": func(a []*big.Rat) *big.Rat { return rat.Abs(a[0]) }, "Neg": func(a []*big.Rat) *big.Rat { return rat.Neg(a[0]) },
	"Inv": func(a []*big.Rat) *big.Rat { return rat.Inv(a[0]) }, "Num": func(a []*big.Rat) *big.Rat { return rat.Num(a[0]) },
	"Denom": func(a []*big.Rat) *big.Rat { return rat.Denom(a[0]) },
	"Add":   func(a []*big.Rat) *big.Rat { return rat.Add(a[0], a[1]) }, "Sub": func(a []*big.Rat) *big.Rat { return rat.Sub(a[0], a[1]) },
	"Mul": func(a []*big.Rat) *big.Rat { return rat.Mul(a[0], a[1]) }, "Quo": func(a []*big.Rat) *big.Rat { return rat.Quo(a[0], a[1]) },
	"Max": func(a []*big.Rat) *big.Rat { return rat.Max(a...) }, "Min": func(a []*big.Rat) *big.Rat { return rat.Min(a...) },
}

// refRat is what they give; nil for a division by zero.
func refRat(f string, a []*big.Rat) *big.Rat {
	z := new(big.Rat)
	switch f {
	case "Abs":
		return z.Abs(a[0])
	case "Neg":
		return z.Neg(a[0])
	case "Inv", "Quo":
		n, d := big.NewRat(1, 1), a[0]
		if f == "Quo" {
			n, d = a[0], a[1]
		}
		if d.Sign() == 0 {
			return nil
		}
		return z.Quo(n, d)
	case "Num":
		return z.SetInt(new(big.Int).Set(a[0].Num()))
	case "Denom":
		return z.SetInt(new(big.Int).Set(a[0].Denom()))
	case "Add":
		return z.Add(a[0], a[1])
	case "Sub":
		return z.Sub(a[0], a[1])
	case "Mul":
		return z.Mul(a[0], a[1])
	}
	for i, v := range a {
		if c := v.Cmp(z); i == 0 || f == "Max" && c > 0 || f == "Min" && c < 0 {
			z.Set(v)
		}
	}
	return z
}

func genRatOps(t *rapid.T) RatOps {
	c := RatOps{Vals: many(t, 1, 5, 2, func(t *rapid.T) string {
		return pick(t, []string{"", "-"}) + pick(t, []string{"0", "1", "2", "3", "7/3", "1/2", "10/4", "123456789012345678901234567890", "9223372036854775808/3"})
	})}
	n := len(c.Vals)
	names := sortedKeys(ratFns)
	c.Ops = many(t, 1, 30, 8, func(t *rapid.T) RatOp {
		op := RatOp{F: pick(t, names)}
		k := 1
		switch op.F {
		case "Add", "Sub", "Mul", "Quo":
			k = 2
		case "Max", "Min":
			k = tail(t, 4, 20)
		}
		for i := 0; i < k; i++ {
			op.A = append(op.A, intn(t, n))
		}
		n++
		return op
	})
	return c
}

func checkRatOps(c RatOps, x *Ctx) error {
	var vals, want []*big.Rat
	for _, s := range c.Vals {
		v, _ := new(big.Rat).SetString(s)
		w, _ := new(big.Rat).SetString(s)
		vals, want = append(vals, v), append(want, w)
	}
	for i, op := range c.Ops {
		var a, b []*big.Rat
		for _, k := range op.A {
			a, b = append(a, vals[k]), append(b, want[k])
			if k > len(c.Vals) {
				x.NonTrivial()
			}
		}
		exp := refRat(op.F, b)
		var got *big.Rat
		func() {
			defer func() { recover() }()
			got = ratFns[op.F](a)
		}()
		if (got == nil) != (exp == nil) || got != nil && got.Cmp(exp) != 0 {
			return failf("call %d: %s of %v is %v, want %v", i, op.F, b, got, exp)
		}
		if got == nil {
			got, exp = new(big.Rat), new(big.Rat)
		}
		vals, want = append(vals, got), append(want, exp)
		for k := range vals {
			if vals[k].Cmp(want[k]) != 0 {
				return failf("call %d: %s changes value %d from %v to %v", i, op.F, k, want[k], vals[k])
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- I08 (calculators)

// CalcHistory is a sequence of evaluations of one calculator.
type CalcHistory struct {
	Calc  string
	Steps []CalcStep
}

// CalcStep is an evaluation and what is done afterwards.
type CalcStep struct {
	Text Text
	Drop bool // the result isn't taken
}

func genCalcHistory(t *rapid.T) CalcHistory {
	h := CalcHistory{Calc: pick(t, []string{"number", "cmplx", "rat"})}
	good, bad, soup := genCalc(h.Calc, 0), genCalc(h.Calc, 30), genCalcSoup(h.Calc)
	h.Steps = many(t, 2, 14, 5, func(t *rapid.T) CalcStep {
		s := CalcStep{Drop: chance(t, 10)}
		switch weighted(t, 5, 3, 3) {
		case 0:
			s.Text = good(t).Text
		case 1:
			s.Text = bad(t).Text
		default:
			s.Text = soup(t).Text
		}
		return s
	})
	return h
}

func checkCalcHistory(h CalcHistory, x *Ctx) error {
	c := calcs[h.Calc]
	p := c.fresh()
	failed := false
	for i, s := range h.Steps {
		text := string(s.Text)
		want, werr, either := c.refResult(text)
		if werr == errSlow {
			continue
		}
		if s.Drop {
			safely(func() error { return p.(interface{ evalOnly(string) error }).evalOnly(text) })
			x.Class("result not taken")
			continue
		}
		got, gerr := p.eval(text)
		alone, aerr := c.fresh().eval(text)
		if err := c.compare(text, got, gerr, want, werr, either); err != nil {
			return failf("step %d: %v", i, err)
		}
		if err := c.compare(text, got, gerr, alone, aerr, false); err != nil {
			return failf("step %d, compared with a fresh instance: %v", i, err)
		}
		if gerr == nil {
			if d := p.depth(); d != 0 {
				return failf("step %d: %d stale values after the result of %q", i, d, text)
			}
			x.NonTrivialIf(failed)
			x.ClassIf(failed, "success after a failure")
		} else {
			if gerr.Error() != aerr.Error() {
				return failf("step %d: %q fails with %q, on a fresh instance with %q", i, text, gerr, aerr)
			}
			failed = true
		}
	}
	return nil
}

func init() {
	for _, p := range []struct{ id, calc string }{{"I01", "number"}, {"I02", "cmplx"}, {"I03", "rat"}} {
		reg(p.id, "expr", "expression trees rendered to text; non-trivial: over 2 nodes", 30000, 1500000, genCalc(p.calc, 3), checkCalc)
		reg(p.id, "soup", "mutated expressions, decided by a reference parser; non-trivial: well-formed with over 2 nodes, or malformed with over 3 bytes", 20000, 800000, genCalcSoup(p.calc), checkCalc)
		reg(p.id, "long", "long chains and deep nestings; non-trivial: over 2 nodes", 160, 4000, genCalcLong(p.calc), checkCalc)
	}
	reg("I03", "functions", "calls of the package's functions on shared values; non-trivial: on a result", 3000, 100000, genRatOps, checkRatOps)
	reg("I03", "results", "sequences of evaluations whose results are overwritten; non-trivial: over one result", 4000, 150000, genRatHistory, checkRatHistory)
	reg("I04", "calculators", "calls with wrong arities, names and values; non-trivial: over 2 nodes", 24000, 900000, genCalc("", 25), checkCalc)
	reg("I08", "calculators", "sequences of evaluations, some failing; non-trivial: a success after a failure", 6000, 200000, genCalcHistory, checkCalcHistory)
}
