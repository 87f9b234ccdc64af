package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"strings"

	"github.com/qiniu/text/tpl"
	cmplxcalc "github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
	iutil "github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- expressions of the calculators

// X is an expression: num id call neg pos + - * / %
type X struct {
	Op   string `json:"op"`
	Lit  string `json:"lit,omitempty"`
	Kids []*X   `json:"kids,omitempty"`
	Par  int    `json:"par,omitempty"` // additional parentheses
}

func (x *X) walk(f func(*X)) {
	f(x)
	for _, k := range x.Kids {
		k.walk(f)
	}
}

func (x *X) size() int {
	n := 0
	x.walk(func(*X) { n++ })
	return n
}

var xLevel = map[string]int{"+": 1, "-": 1, "*": 2, "/": 2, "%": 2, "num": 3, "id": 3, "call": 3, "neg": 3, "pos": 3}

// words renders x where a rule of the level is expected: 1 doc, 2 term, 3 factor.
func (x *X) words(level int) (ws []string) {
	switch x.Op {
	case "num", "id":
		ws = []string{x.Lit}
	case "call":
		ws = []string{x.Lit, "("}
		for i, k := range x.Kids {
			if i > 0 {
				ws = append(ws, ",")
			}
			ws = append(ws, k.words(1)...)
		}
		ws = append(ws, ")")
	case "neg", "pos":
		ws = append([]string{map[string]string{"neg": "-", "pos": "+"}[x.Op]}, x.Kids[0].words(3)...)
	default:
		l := xLevel[x.Op]
		ws = append(append(x.Kids[0].words(l), x.Op), x.Kids[1].words(l+1)...)
	}
	par := x.Par
	if xLevel[x.Op] < level {
		par++
	}
	for ; par > 0; par-- {
		ws = append(append([]string{"("}, ws...), ")")
	}
	return ws
}

// layoutWords puts white space and comments between words, wherever they need it and elsewhere at will.
func layoutWords(t *rapid.T, ws []string, newlines bool) string {
	style := intn(t, 4)
	var b strings.Builder
	for i, w := range ws {
		if i > 0 {
			need := wordsClash(ws[i-1], w)
			switch {
			case style == 0 || style == 1 && need:
				b.WriteString(" ")
			case style == 1:
			default:
				opts := []string{" ", "", "\t", "  ", " /* c */ ", " /**/", "\r"}
				if newlines {
					opts = append(opts, "\n", "\r\n", " // c + 1\n", " # c )\n", "\n\n\t", " /* (\n */ ")
				}
				g := pick(t, opts)
				if g == "" && need {
					g = " "
				}
				b.WriteString(g)
			}
		}
		b.WriteString(w)
	}
	if style == 3 && newlines {
		b.WriteString(pick(t, []string{"", " ", "\n", " // end", " # end", "/* end */"}))
		return pick(t, []string{"", " ", "\n", "// start\n", "/* 1 + */"}) + b.String()
	}
	return b.String()
}

// wordsClash tells if two words need something between them.
func wordsClash(a, b string) bool {
	r := refLex(a+b, false)
	return !(len(r.Errs) == 0 && len(r.Toks) == 2 && r.Toks[0].End == len(a) && r.Toks[1].End == len(a)+len(b) && r.Toks[1].Kind != tpl.COMMENT)
}

// ---------------------------------------------------------------- calculators

// calc is one of the three calculators.
type calc struct {
	name  string
	nums  map[uint]bool // kinds of literals
	ids   []string
	ops   []string
	fns   map[string]xfn
	lit   func(kind uint, lit string) (v interface{}, err error, either bool)
	id    func(name string) (interface{}, error)
	op    func(op string, a, b interface{}) (interface{}, error)
	show  func(v interface{}) string
	fresh func() calcInst
}

type xfn struct {
	n   int // number of arguments, -1 for any
	f   func(a []interface{}) (interface{}, error)
	doc string
}

// call calls the function; a panic of the standard library, as for cmplx.Pow(0, NaN), is an error.
func (f xfn) call(args []interface{}) (v interface{}, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = failf("%v", e)
		}
	}()
	return f.f(args)
}

type calcInst interface {
	eval(text string) (v interface{}, err error)
	depth() int // values on the stack
}

// safely runs f, turning panics with an error or a string into an error, as the commands do.
func safely(f func() error) (err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case error:
			err = e
		case string:
			err = errors.New(e)
		default:
			panic(e)
		}
	}()
	return f()
}

type ret[T any] interface {
	iutil.Interface
	Ret() (T, bool)
}

type inst[T any] struct {
	c     ret[T]
	e     *interpreter.Engine
	stack func() int
}

func (p *inst[T]) eval(text string) (interface{}, error) {
	if err := safely(func() error { return p.e.Eval(text) }); err != nil {
		return nil, err
	}
	v, ok := p.c.Ret()
	if !ok {
		panic("evaluation succeeds without a result: " + text)
	}
	return v, nil
}

func (p *inst[T]) evalOnly(text string) error { return p.e.Eval(text) }

func (p *inst[T]) depth() int { return p.stack() }

func newInst[T any](c ret[T], stack func() int) calcInst {
	e, err := interpreter.New(c, nil)
	if err != nil {
		panic(err)
	}
	return &inst[T]{c, e, stack}
}

// refEval evaluates; either is true if an error would do as well.
func (c *calc) refEval(x *X) (v interface{}, err error, either bool) {
	switch x.Op {
	case "num":
		r := refLex(x.Lit, false)
		return c.lit(r.Toks[0].Kind, x.Lit)
	case "id":
		v, err = c.id(x.Lit)
		return
	case "call":
		args := make([]interface{}, len(x.Kids))
		for i, k := range x.Kids {
			a, err, e := c.refEval(k)
			either = either || e
			if err != nil {
				return nil, err, either
			}
			args[i] = a
		}
		f, ok := c.fns[x.Lit]
		if !ok {
			return nil, failf("unknown function %s", x.Lit), either
		}
		if f.n >= 0 && f.n != len(args) {
			return nil, failf("wrong argument count for %s", x.Lit), either
		}
		v, err = f.call(args)
		return v, err, either
	case "pos":
		return c.refEval(x.Kids[0])
	}
	args := make([]interface{}, 2)
	for i, k := range x.Kids {
		a, err, e := c.refEval(k)
		either = either || e
		if err != nil {
			return nil, err, either
		}
		args[i] = a
	}
	v, err = c.op(x.Op, args[0], args[1])
	return v, err, either
}

// parse is the reference parser of calculator expressions.
func (c *calc) parse(src string) (x *X, err error) {
	r := refLex(src, false)
	if len(r.Errs) > 0 {
		return nil, failf("lexical error")
	}
	p := &xParser{c: c, toks: withoutComments(r.Toks)}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(xSyntax); ok {
				x, err = nil, failf("syntax error at %d", int(s))
				return
			}
			panic(e)
		}
	}()
	x = p.binary(1)
	if p.i < len(p.toks) {
		return nil, failf("left over at %d", p.toks[p.i].Start)
	}
	return x, nil
}

type xSyntax int

type xParser struct {
	c    *calc
	toks []RTok
	i    int
}

func (p *xParser) is(k uint) bool { return p.i < len(p.toks) && p.toks[p.i].Kind == k }

func (p *xParser) want(k uint) {
	if !p.is(k) {
		panic(xSyntax(p.i))
	}
	p.i++
}

func (p *xParser) binary(level int) *X {
	if level == 3 {
		return p.factor()
	}
	x := p.binary(level + 1)
next:
	for {
		for _, op := range p.c.ops {
			if xLevel[op] == level && p.is(opByText[op].Kind) {
				p.i++
				x = &X{Op: op, Kids: []*X{x, p.binary(level + 1)}}
				continue next
			}
		}
		return x
	}
}

func (p *xParser) factor() *X {
	if p.i >= len(p.toks) {
		panic(xSyntax(p.i))
	}
	t := p.toks[p.i]
	p.i++
	switch {
	case p.c.nums[t.Kind]:
		return &X{Op: "num", Lit: t.Lit}
	case t.Kind == tpl.SUB:
		return &X{Op: "neg", Kids: []*X{p.factor()}}
	case t.Kind == tpl.ADD:
		return &X{Op: "pos", Kids: []*X{p.factor()}}
	case t.Kind == tpl.LPAREN:
		x := p.binary(1)
		p.want(tpl.RPAREN)
		return x
	case t.Kind == kIDENT:
		if !p.is(tpl.LPAREN) {
			if len(p.c.ids) == 0 {
				panic(xSyntax(p.i))
			}
			return &X{Op: "id", Lit: t.Lit}
		}
		x := &X{Op: "call", Lit: t.Lit}
		p.i++
		if !p.is(tpl.RPAREN) {
			for {
				x.Kids = append(x.Kids, p.binary(1))
				if !p.is(tpl.COMMA) {
					break
				}
				p.i++
			}
		}
		p.want(tpl.RPAREN)
		return x
	}
	panic(xSyntax(p.i))
}

func sameX(a, b *X) bool {
	if a.Op != b.Op || a.Lit != b.Lit || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !sameX(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- number literals

// intLit is the value of an integer literal.
func intLit(lit string) *big.Int {
	v := new(big.Int)
	base, ds := int64(10), lit
	if len(lit) > 1 && lit[0] == '0' {
		base, ds = 8, lit[1:]
		if lit[1] == 'x' || lit[1] == 'X' {
			base, ds = 16, lit[2:]
		}
	}
	for i := 0; i < len(ds); i++ {
		d := int64(ds[i] - '0')
		if !isDec(ds[i]) {
			d = int64(lower(ds[i])-'a') + 10
		}
		v.Add(v.Mul(v, big.NewInt(base)), big.NewInt(d))
	}
	return v
}

var errRange = errors.New("out of range")

// decFloat is the double nearest to a decimal literal.
func decFloat(lit string) (float64, error) {
	mant, exp := lit, 0
	if i := strings.IndexAny(lit, "eE"); i >= 0 {
		mant = lit[:i]
		e, ok := new(big.Int).SetString(strings.TrimPrefix(lit[i+1:], "+"), 10)
		if !ok {
			return 0, errors.New("exponent")
		}
		switch {
		case e.Cmp(big.NewInt(5000)) > 0:
			exp = 5000
		case e.Cmp(big.NewInt(-5000)) < 0:
			exp = -5000
		default:
			exp = int(e.Int64())
		}
	}
	if i := strings.Index(mant, "."); i >= 0 {
		exp -= len(mant) - i - 1
		mant = mant[:i] + mant[i+1:]
	}
	v := new(big.Int)
	for i := 0; i < len(mant); i++ {
		v.Add(v.Mul(v, big.NewInt(10)), big.NewInt(int64(mant[i]-'0')))
	}
	if v.Sign() == 0 {
		return 0, nil
	}
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil)
	r := new(big.Rat)
	if exp >= 0 {
		r.SetInt(v.Mul(v, p))
	} else {
		r.SetFrac(v, p)
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return f, errRange
	}
	return f, nil
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// floatLit is the double an integer or float literal denotes. Whether octal and hexadecimal integers that
// exceed 64 bits are converted or refused isn't documented.
func floatLit(kind uint, lit string) (f float64, err error, either bool) {
	if kind == kFLOAT {
		f, err = decFloat(lit)
		return
	}
	v := intLit(lit)
	f, _ = new(big.Rat).SetInt(v).Float64()
	if math.IsInf(f, 0) {
		return f, errRange, false
	}
	return f, nil, lit[0] == '0' && !v.IsInt64()
}

func showFloat(f float64) string {
	if f != f {
		return "NaN"
	}
	return fmt.Sprintf("%v(%x)", f, math.Float64bits(f))
}

// ---------------------------------------------------------------- the float calculator

const maxLoop = 1 << 16

var errSlow = errors.New("argument excluded: the library function takes too long")

var calcs = map[string]*calc{}

func init() {
	f1 := func(f func(float64) float64) xfn {
		return xfn{n: 1, f: func(a []interface{}) (interface{}, error) { return f(a[0].(float64)), nil }}
	}
	f2 := func(f func(a, b float64) float64) xfn {
		return xfn{n: 2, f: func(a []interface{}) (interface{}, error) { return f(a[0].(float64), a[1].(float64)), nil }}
	}
	bessel := func(f func(int, float64) float64) xfn {
		return xfn{n: 2, f: func(a []interface{}) (interface{}, error) {
			n := int(a[0].(float64))
			if n > maxLoop || n < -maxLoop {
				return nil, errSlow
			}
			return f(n, a[1].(float64)), nil
		}}
	}
	best := func(better func(a, b float64) bool) xfn {
		return xfn{n: -1, f: func(a []interface{}) (interface{}, error) {
			r := 0.0
			for i, x := range a {
				if i == 0 || better(x.(float64), r) {
					r = x.(float64)
				}
			}
			return r, nil
		}}
	}
	fns := map[string]xfn{
		"max":       best(func(a, b float64) bool { return a > b }),
		"min":       best(func(a, b float64) bool { return a < b }),
		"jn":        bessel(math.Jn),
		"yn":        bessel(math.Yn),
		"ldexp":     f2(func(a, b float64) float64 { return math.Ldexp(a, int(b)) }),
		"pow10":     f1(func(a float64) float64 { return math.Pow10(int(a)) }),
		"NaN":       {n: 0, f: func([]interface{}) (interface{}, error) { return math.NaN(), nil }},
		"inf":       f1(func(a float64) float64 { return map[bool]float64{true: math.Inf(-1), false: math.Inf(1)}[a < 0] }),
		"ln":        f1(math.Log),
		"log":       f1(math.Log),
		"atan2":     f2(math.Atan2),
		"copysign":  f2(math.Copysign),
		"dim":       f2(math.Dim),
		"hypot":     f2(math.Hypot),
		"mod":       f2(math.Mod),
		"nextafter": f2(math.Nextafter),
		"pow":       f2(math.Pow),
		"remainder": f2(math.Remainder),
	}
	for n, f := range map[string]func(float64) float64{
		"abs": math.Abs, "acos": math.Acos, "acosh": math.Acosh, "asin": math.Asin, "asinh": math.Asinh, "atan": math.Atan,
		"atanh": math.Atanh, "cbrt": math.Cbrt, "ceil": math.Ceil, "cos": math.Cos, "cosh": math.Cosh, "erf": math.Erf,
		"erfc": math.Erfc, "exp": math.Exp, "exp2": math.Exp2, "expm1": math.Expm1, "floor": math.Floor, "gamma": math.Gamma,
		"j0": math.J0, "j1": math.J1, "log10": math.Log10, "log1p": math.Log1p, "log2": math.Log2, "logb": math.Logb,
		"sin": math.Sin, "sinh": math.Sinh, "sqrt": math.Sqrt, "tan": math.Tan, "tanh": math.Tanh, "trunc": math.Trunc,
		"y0": math.Y0, "y1": math.Y1,
	} {
		fns[n] = f1(f)
	}
	consts := map[string]float64{"e": math.E, "pi": math.Pi, "phi": math.Phi, "Inf": math.Inf(1), "NaN": math.NaN()}
	calcs["number"] = &calc{
		name: "number",
		nums: map[uint]bool{kINT: true, kFLOAT: true},
		ids:  []string{"e", "pi", "phi", "Inf", "NaN"},
		ops:  []string{"+", "-", "*", "/", "%"},
		fns:  fns,
		lit: func(k uint, lit string) (interface{}, error, bool) {
			f, err, either := floatLit(k, lit)
			return f, err, either
		},
		id: func(n string) (interface{}, error) {
			if v, ok := consts[n]; ok {
				return v, nil
			}
			return nil, failf("unknown constant %s", n)
		},
		op: func(op string, a1, b1 interface{}) (interface{}, error) {
			a := a1.(float64)
			if op == "neg" {
				return -a, nil
			}
			b := b1.(float64)
			switch op {
			case "+":
				return a + b, nil
			case "-":
				return a - b, nil
			case "*":
				return a * b, nil
			case "/":
				return a / b, nil
			case "%":
				return math.Mod(a, b), nil
			}
			panic(op)
		},
		show: func(v interface{}) string { return showFloat(v.(float64)) },
		fresh: func() calcInst {
			c := number.New()
			return newInst[float64](c, func() int { return len(*c.Stack().(*number.Stack)) })
		},
	}
}

// ---------------------------------------------------------------- the complex calculator

func init() {
	c1 := func(f func(complex128) complex128) xfn {
		return xfn{n: 1, f: func(a []interface{}) (interface{}, error) { return f(a[0].(complex128)), nil }}
	}
	reals := func(f func(a, b float64) complex128) xfn {
		return xfn{n: 2, f: func(a []interface{}) (interface{}, error) {
			x, y := a[0].(complex128), a[1].(complex128)
			if imag(x) != 0 || imag(y) != 0 {
				return nil, errors.New("real arguments needed")
			}
			return f(real(x), real(y)), nil
		}}
	}
	fns := map[string]xfn{
		"abs":     c1(func(a complex128) complex128 { return complex(cmplx.Abs(a), 0) }),
		"phase":   c1(func(a complex128) complex128 { return complex(cmplx.Phase(a), 0) }),
		"real":    c1(func(a complex128) complex128 { return complex(real(a), 0) }),
		"imag":    c1(func(a complex128) complex128 { return complex(imag(a), 0) }),
		"rect":    reals(cmplx.Rect),
		"complex": reals(func(a, b float64) complex128 { return complex(a, b) }),
		"inf":     {n: 0, f: func([]interface{}) (interface{}, error) { return cmplx.Inf(), nil }},
		"NaN":     {n: 0, f: func([]interface{}) (interface{}, error) { return cmplx.NaN(), nil }},
		"pow": {n: 2, f: func(a []interface{}) (interface{}, error) {
			return cmplx.Pow(a[0].(complex128), a[1].(complex128)), nil
		}},
	}
	for n, f := range map[string]func(complex128) complex128{
		"acos": cmplx.Acos, "acosh": cmplx.Acosh, "asin": cmplx.Asin, "asinh": cmplx.Asinh, "atan": cmplx.Atan, "atanh": cmplx.Atanh,
		"conj": cmplx.Conj, "cos": cmplx.Cos, "cosh": cmplx.Cosh, "cot": cmplx.Cot, "exp": cmplx.Exp, "log": cmplx.Log, "log10": cmplx.Log10,
		"sin": cmplx.Sin, "sinh": cmplx.Sinh, "sqrt": cmplx.Sqrt, "tan": cmplx.Tan, "tanh": cmplx.Tanh,
	} {
		fns[n] = c1(f)
	}
	calcs["cmplx"] = &calc{
		name: "cmplx",
		nums: map[uint]bool{kINT: true, kFLOAT: true, kIMAG: true},
		ops:  []string{"+", "-", "*", "/"},
		fns:  fns,
		lit: func(k uint, lit string) (interface{}, error, bool) {
			if k == kIMAG {
				f, err := decFloat(lit[:len(lit)-1])
				return complex(0, f), err, false
			}
			f, err, either := floatLit(k, lit)
			return complex(f, 0), err, either
		},
		op: func(op string, a1, b1 interface{}) (interface{}, error) {
			a := a1.(complex128)
			if op == "neg" {
				return -a, nil
			}
			b := b1.(complex128)
			switch op {
			case "+":
				return a + b, nil
			case "-":
				return a - b, nil
			case "*":
				return a * b, nil
			case "/":
				return a / b, nil
			}
			panic(op)
		},
		show: func(v interface{}) string {
			c := v.(complex128)
			return showFloat(real(c)) + " " + showFloat(imag(c)) + "i"
		},
		fresh: func() calcInst {
			c := cmplxcalc.New()
			return newInst[complex128](c, func() int { return len(*c.Stack().(*cmplxcalc.Stack)) })
		},
	}
}

// ---------------------------------------------------------------- the rational calculator

func init() {
	r1 := func(f func(z, a *big.Rat) *big.Rat) xfn {
		return xfn{n: 1, f: func(a []interface{}) (interface{}, error) { return f(new(big.Rat), a[0].(*big.Rat)), nil }}
	}
	best := func(sign int) xfn {
		return xfn{n: -1, f: func(a []interface{}) (interface{}, error) {
			r := new(big.Rat)
			for i, x := range a {
				if i == 0 || x.(*big.Rat).Cmp(r) == sign {
					r = x.(*big.Rat)
				}
			}
			return r, nil
		}}
	}
	calcs["rat"] = &calc{
		name: "rat",
		nums: map[uint]bool{kINT: true},
		ops:  []string{"+", "-", "*", "/"},
		fns: map[string]xfn{
			"abs":   r1((*big.Rat).Abs),
			"max":   best(1),
			"min":   best(-1),
			"denom": r1(func(z, a *big.Rat) *big.Rat { return z.SetInt(a.Denom()) }),
			"num":   r1(func(z, a *big.Rat) *big.Rat { return z.SetInt(a.Num()) }),
			"inv": {n: 1, f: func(a []interface{}) (interface{}, error) {
				if a[0].(*big.Rat).Sign() == 0 {
					return nil, errors.New("division by zero")
				}
				return new(big.Rat).Inv(a[0].(*big.Rat)), nil
			}},
		},
		lit: func(k uint, lit string) (interface{}, error, bool) {
			return new(big.Rat).SetInt(intLit(lit)), nil, false
		},
		op: func(op string, a1, b1 interface{}) (interface{}, error) {
			a := a1.(*big.Rat)
			z := new(big.Rat)
			if op == "neg" {
				return z.Neg(a), nil
			}
			b := b1.(*big.Rat)
			switch op {
			case "+":
				return z.Add(a, b), nil
			case "-":
				return z.Sub(a, b), nil
			case "*":
				return z.Mul(a, b), nil
			case "/":
				if b.Sign() == 0 {
					return nil, errors.New("division by zero")
				}
				return z.Quo(a, b), nil
			}
			panic(op)
		},
		show: func(v interface{}) string { return v.(*big.Rat).RatString() },
		fresh: func() calcInst {
			c := rat.New()
			return newInst[*big.Rat](c, func() int { return len(*c.Stack().(*rat.Stack)) })
		},
	}
}

// ---------------------------------------------------------------- generating expressions

type xGen struct {
	c      *calc
	names  []string
	bad    int // percent of calls with another number of arguments or an unknown name
	budget int
}

func newXGen(t *rapid.T, c *calc, bad int) *xGen {
	g := &xGen{c: c, bad: bad, budget: tail(t, 4, 8, 16, 50)}
	g.names = sortedKeys(c.fns)
	return g
}

func (g *xGen) gen(t *rapid.T, depth int) *X {
	return group(t, func(t *rapid.T) *X {
		x := g.gen1(t, depth)
		if chance(t, 8) {
			x.Par = 1 + intn(t, 2)
		}
		return x
	})
}

func (g *xGen) gen1(t *rapid.T, depth int) *X {
	g.budget--
	if g.budget <= 0 || depth > 30 {
		return g.leaf(t)
	}
	switch weighted(t, 4, 10, 2, 1, 5) {
	case 0:
		return g.leaf(t)
	case 1:
		return &X{Op: pick(t, g.c.ops), Kids: []*X{g.gen(t, depth+1), g.gen(t, depth+1)}}
	case 2:
		return &X{Op: "neg", Kids: []*X{g.gen(t, depth+1)}}
	case 3:
		return &X{Op: "pos", Kids: []*X{g.gen(t, depth+1)}}
	}
	name := g.names[bucketN(t, len(g.names))]
	n := g.c.fns[name].n
	if n < 0 {
		n = len(many(t, 0, 12, tail(t, 2, 3, 8), func(*rapid.T) int { return 0 }))
	}
	if chance(t, g.bad) {
		switch intn(t, 3) {
		case 0:
			n++
		case 1:
			if n > 0 {
				n--
			}
		case 2:
			name = pick(t, []string{"foo", "Sin", "sine", "MAX", "e", "_", "neg", "push", "ident", "call", "ARITY"})
		}
	}
	x := &X{Op: "call", Lit: name}
	for i := 0; i < n; i++ {
		x.Kids = append(x.Kids, g.gen(t, depth+1))
	}
	return x
}

// bucketN is a uniform choice.
func bucketN(t *rapid.T, n int) int {
	ends := make([]int, n)
	for i := range ends {
		ends[i] = i + 1
	}
	return bucket(t, n, ends...)
}

func (g *xGen) leaf(t *rapid.T) *X {
	if len(g.c.ids) > 0 && chance(t, 20) {
		if chance(t, g.bad) {
			return &X{Op: "id", Lit: pick(t, []string{"E", "Pi", "inf", "nan", "x", "sin"})}
		}
		return &X{Op: "id", Lit: g.c.ids[bucketN(t, len(g.c.ids))]}
	}
	return &X{Op: "num", Lit: genNumLit(t, g.c)}
}

func genNumLit(t *rapid.T, c *calc) string {
	simple := func() string { return fmt.Sprint(intn(t, 12)) }
	if c.name == "rat" {
		switch weighted(t, 12, 4, 4, 2, 1) {
		case 0:
			return simple()
		case 1:
			return genInt(t)
		case 2:
			return bigBoundary(t)
		case 3:
			return pick(t, []string{"", "0x"}) + "1" + digits(t, "0123456789", 10, 60)
		default:
			return longInt(t, size(t, 20, 1200))
		}
	}
	s := ""
	switch weighted(t, 6, 2, 3, 2, 2) {
	case 0:
		s = simple()
	case 1:
		s = genInt(t)
	case 2:
		s = genFloat(t)
	case 3:
		s = pick(t, []string{"0.5", "1.5", "0.1", "0.25", "1e10", "2.5e-3", "1e300", "1e-300", ".5", "3.", "9007199254740993", "4.9e-324", "1.7976931348623157e308", "1.7976931348623159e308", "2.4703282292062327e-324", "0.", "00.5", "09.5", "010", "0x10", "0777", "1e22", "1e23"})
	default:
		s = bigBoundary(t)
	}
	if c.nums[kIMAG] && chance(t, 35) {
		i := s + "i"
		if r := refLex(i, false); len(r.Errs) == 0 && len(r.Toks) == 1 && r.Toks[0].Kind == kIMAG {
			return i
		}
		return genImag(t)
	}
	return s
}

// longInt is an integer literal of about n digits, in any radix.
func longInt(t *rapid.T, n int) string {
	intro, set := "", "0123456789"
	switch intn(t, 3) {
	case 0:
		intro = string(set[1+intn(t, 9)])
	case 1:
		intro, set = "0", "01234567"
	case 2:
		intro, set = pick(t, []string{"0x", "0X"}), "0123456789abcdefABCDEF"
	}
	chunk := digits(t, set, 1, 12)
	return (intro + strings.Repeat(chunk, n/len(chunk)+1))[:len(intro)+n]
}

// bigBoundary is an integer literal near a power of two, in any radix.
func bigBoundary(t *rapid.T) string {
	v := new(big.Int).Lsh(big.NewInt(1), uint(pick(t, []int{31, 32, 52, 53, 62, 63, 64, 65, 127})))
	v.Add(v, big.NewInt(int64(between(t, -2, 2))))
	switch intn(t, 3) {
	case 0:
		return v.String()
	case 1:
		return "0" + v.Text(8)
	}
	return pick(t, []string{"0x", "0X"}) + v.Text(16)
}
