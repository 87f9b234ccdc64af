package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- generated qlang programs
// Types guide the generator, so that most programs run; they are not checked:
// i f s b y n (nil), L? lists, M?? maps, F# functions, C# classes, O# objects, v anything.

type qfocus struct {
	exprs, assigns, ctrl, funcs, defers, classes, conts int // weights
	errs                                                int // percent of programs with deliberate errors
	depth, stmts                                        int
}

type qvar struct{ name, typ string }

type qscope struct {
	vars   []qvar
	read   map[string]bool // outer variables read already
	ret    string
	fn     bool
	blocks int
}

type qsig struct {
	params   []string
	variadic bool
	ret      string
	rec      bool
}

type qclass struct {
	fields  []qvar
	methods []qvar // typ: F#
	init    string // F# or ""
}

type qgen struct {
	t       *rapid.T
	f       qfocus
	sc      []*qscope
	sigs    []qsig
	classes []*qclass
	id      int
	left    int
	errs    int // percent of deliberate errors in expressions
	loops   int
	prefix  string // of names
	noTop   bool
}

func qlit(s string) *Q { return &Q{K: "lit", S: s} }
func qref(s string) *Q { return &Q{K: "ref", S: s} }
func qint(i int) *Q {
	if i < 0 {
		return &Q{K: "un", S: "-", L: []*Q{qlit(strconv.Itoa(-i))}}
	}
	return qlit(strconv.Itoa(i))
}
func qbin(op string, a, b *Q) *Q         { return &Q{K: "bin", S: op, L: []*Q{a, b}} }
func qcallv(f *Q, a ...*Q) *Q            { return &Q{K: "call", L: append([]*Q{f}, a...)} }
func qcall(f string, a ...*Q) *Q         { return qcallv(qref(f), a...) }
func qassign(n string, e *Q) *Q          { return &Q{K: "assign", S: n, L: []*Q{e}} }
func qblock(ss ...*Q) *Q                 { return &Q{K: "block", L: ss} }
func qfn(params []string, b *Q) *Q       { return &Q{K: "fn", P: params, L: []*Q{b}} }
func qreturn(e ...*Q) *Q                 { return &Q{K: "return", L: e} }
func qmem(o *Q, name string) *Q          { return &Q{K: "mem", S: name, L: []*Q{o}} }
func qidx(a, i *Q) *Q                    { return &Q{K: "idx", L: []*Q{a, i}} }
func (q *Q) paren() *Q                   { return &Q{K: "paren", L: []*Q{q}} }
func qdefer(e *Q) *Q                     { return &Q{K: "defer", L: []*Q{e}} }
func qstr(s string) *Q                   { return qlit(strconv.Quote(s)) }
func (g *qgen) top() *qscope             { return g.sc[len(g.sc)-1] }
func (g *qgen) pct(p int) bool           { return chance(g.t, p) }
func (g *qgen) pick(ss ...string) string { return pick(g.t, ss) }

func (g *qgen) trace(e ...*Q) *Q {
	g.id++
	return qcall("hv_t", append([]*Q{qint(g.id)}, e...)...)
}

func newQGen(t *rapid.T, f qfocus, prefix string) *qgen {
	g := &qgen{t: t, f: f, prefix: prefix}
	g.sc = []*qscope{{read: map[string]bool{}}}
	g.left = 40 + 40*tail(t, 1, 3, 10)
	if chance(t, f.errs) {
		g.errs = pick(t, []int{1, 1, 2, 5})
	}
	return g
}

// ---------------------------------------------------------------- types and names

var scalarTypes = []string{"i", "f", "s", "b", "y", "i", "s", "i"}
var listTypes = []string{"Li", "Lf", "Ls", "Lv"}
var mapTypes = []string{"Msi", "Msf", "Mss", "Msv", "Mii", "Mif", "Mis", "Miv"}

func (g *qgen) typ() string {
	f := g.f
	switch weighted(g.t, 8, 1+2*f.conts, f.conts, f.funcs, f.classes, 1) {
	case 1:
		return pick(g.t, listTypes)
	case 2:
		return pick(g.t, mapTypes)
	case 3:
		return g.fnType()
	case 4:
		if len(g.classes) > 0 {
			return fmt.Sprintf("O%d", intn(g.t, len(g.classes)))
		}
	case 5:
		return "n"
	}
	return pick(g.t, scalarTypes)
}

func (g *qgen) sig(s qsig) string {
	g.sigs = append(g.sigs, s)
	return fmt.Sprintf("F%d", len(g.sigs)-1)
}

func (g *qgen) fnType() string {
	if len(g.sigs) > 0 && g.pct(60) {
		return fmt.Sprintf("F%d", intn(g.t, len(g.sigs)))
	}
	s := qsig{ret: "n"}
	for n := weighted(g.t, 3, 4, 3, 1); len(s.params) < n; {
		s.params = append(s.params, g.argType())
	}
	if g.pct(80) {
		s.ret = g.argType()
	}
	if g.pct(15) {
		s.variadic = true
		if len(s.params) == 0 {
			s.params = []string{"Lv"}
		}
		s.params[len(s.params)-1] = "Lv"
	}
	return g.sig(s)
}

// argType doesn't recurse into function types often.
func (g *qgen) argType() string {
	if len(g.sigs) > 0 && g.pct(8) {
		return fmt.Sprintf("F%d", intn(g.t, len(g.sigs)))
	}
	switch weighted(g.t, 8, 1+g.f.conts, g.f.classes) {
	case 1:
		return pick(g.t, append(listTypes, "Msi", "Miv"))
	case 2:
		if len(g.classes) > 0 {
			return fmt.Sprintf("O%d", intn(g.t, len(g.classes)))
		}
	}
	return pick(g.t, scalarTypes)
}

func (g *qgen) sigOf(typ string) qsig {
	if typ[0] != 'F' {
		return qsig{ret: "n"}
	}
	n, _ := strconv.Atoi(typ[1:])
	return g.sigs[n]
}

func (g *qgen) classOf(typ string) *qclass {
	n, _ := strconv.Atoi(typ[1:])
	return g.classes[n]
}

var qnames = [][]string{{"a", "b", "c", "d", "e", "f1", "g", "h"}, {"k", "l", "m", "n1", "o"}, {"p", "q", "r", "s1"}, {"u", "v", "w", "x1"}}

func (g *qgen) fresh() string {
	d := len(g.sc) - 1
	if d > 3 {
		d = 3
	}
	if d > 0 && g.pct(10) {
		return g.pick("_x", "_y")
	}
	base := pick(g.t, qnames[d])
	if len(g.sc) > 4 {
		base += strconv.Itoa(len(g.sc))
	}
	return g.prefix + base
}

// loopVar is a name nothing else assigns.
func (g *qgen) loopVar() string {
	g.id++
	return fmt.Sprintf("_z%d", g.id)
}

func (g *qgen) declare(name, typ string) {
	s := g.top()
	for i := range s.vars {
		if s.vars[i].name == name {
			s.vars = append(append([]qvar{}, s.vars[:i]...), s.vars[i+1:]...)
			break
		}
	}
	s.vars = append(s.vars, qvar{name, typ})
}

// visible variables of the type, own ones or any.
func (g *qgen) visible(match func(typ string) bool, ownOnly bool) (out []qvar) {
	seen := map[string]bool{}
	for i := len(g.sc) - 1; i >= 0; i-- {
		for _, v := range g.sc[i].vars {
			if seen[v.name] || v.name[0] == '_' && i < len(g.sc)-1 {
				continue
			}
			seen[v.name] = true
			if match(v.typ) {
				out = append(out, v)
			}
		}
		if ownOnly {
			break
		}
	}
	return
}

func (g *qgen) use(name string) *Q {
	g.top().read[name] = true
	return qref(name)
}

func (g *qgen) own(name string) bool {
	for _, v := range g.top().vars {
		if v.name == name {
			return true
		}
	}
	return false
}

func (g *qgen) varOf(typ string) *Q {
	vs := g.visible(func(t string) bool { return t == typ || typ == "v" }, false)
	if len(vs) == 0 {
		return nil
	}
	return g.use(pick(g.t, vs).name)
}

// ---------------------------------------------------------------- literals

func (g *qgen) intLit() *Q {
	switch weighted(g.t, 8, 4, 1, 1) {
	case 0:
		return qlit(strconv.Itoa(intn(g.t, 5)))
	case 1:
		return qlit(strconv.Itoa(intn(g.t, 100)))
	case 2:
		return qlit(g.pick("0", "9223372036854775807", "4611686018427387904", "0x7fffffffffffffff", "0777", "0x1F", "255", "256", "1000000007"))
	}
	s := genInt(g.t)
	if !intLit(s).IsInt64() {
		s = "017"
	}
	return qlit(s)
}

func (g *qgen) floatLit() *Q {
	switch weighted(g.t, 6, 2, 2) {
	case 0:
		return qlit(g.pick("0.5", "1.5", "2.0", "0.0", "0.1", "3.25", "1e2", ".5", "2."))
	case 1:
		return qlit(g.pick("1e308", "5e-324", "1e16", "9007199254740993.0", "1e-9", "123456.789"))
	}
	s := genFloat(g.t)
	if _, err := decFloat(s); err != nil || len(s) > 30 {
		s = "7.5"
	}
	return qlit(s)
}

func (g *qgen) strLit() *Q {
	switch weighted(g.t, 6, 3, 1) {
	case 0:
		return qlit(g.pick(`"a"`, `""`, `"b"`, `"ab"`, `"abc"`, `"B"`, `"é中"`, `"x y"`, `"1"`))
	case 1:
		return qlit(g.pick(`"\n"`, `"\""`, "`raw\\`", "`a\nb`", `"\x00\xff"`, `"\u4e2d"`, "``", `"aa"`, `"ba"`, `"//"`))
	}
	s := genString(g.t)
	if len(s) > 60 {
		s = `"long"`
	}
	return qlit(s)
}

func (g *qgen) charLit() *Q {
	return qlit(g.pick(`'a'`, `'b'`, `'0'`, `'\n'`, `'\''`, `'"'`, `'\\'`, `'\x41'`, `'\000'`, `'\xff'`, `' '`, `'z'`))
}

// leaf is a simple expression of the type.
func (g *qgen) leaf(typ string) *Q {
	if g.pct(60) {
		if v := g.varOf(typ); v != nil {
			return v
		}
	}
	switch typ[0] {
	case 'i':
		return g.intLit()
	case 'f':
		return g.floatLit()
	case 's':
		return g.strLit()
	case 'b':
		return qref(g.pick("true", "false"))
	case 'y':
		return g.charLit()
	case 'n':
		return qref("nil")
	case 'L':
		return g.listOf(typ, 0)
	case 'M':
		return g.mapOf(typ, 0)
	case 'F':
		return g.fnLit(typ, 0)
	case 'C':
		if v := g.varOf(typ); v != nil {
			return v
		}
		return qref("nil")
	case 'O':
		return g.newOf(typ, 0)
	}
	return g.leaf(g.pick("i", "f", "s", "b", "y", "n", "i", "s"))
}

func elemOf(typ string) string { return typ[len(typ)-1:] }

func (g *qgen) listOf(typ string, d int) *Q {
	min := 1
	if typ == "Lv" {
		min = 0
	}
	e := elemOf(typ)
	return &Q{K: "list", L: many(g.t, min, 6, 2, func(*rapid.T) *Q { return g.elem(e, d-1) })}
}

// elem: a number list may get ints among floats.
func (g *qgen) elem(e string, d int) *Q {
	if e == "f" && g.pct(25) {
		return g.expr("i", d)
	}
	if e == "v" {
		e = g.pick("i", "f", "s", "b", "y", "n", "Li", "Msi", "Lv")
		if d < -1 {
			e = e[:1]
			if e == "L" || e == "M" {
				e = "i"
			}
		}
	}
	return g.expr(e, d)
}

func (g *qgen) mapOf(typ string, d int) *Q {
	min := 1
	if typ == "Msv" {
		min = 0
	}
	q := &Q{K: "map"}
	for _, kv := range many(g.t, min, 5, 2, func(*rapid.T) []*Q {
		return []*Q{g.key(typ, d-1), g.elem(elemOf(typ), d-1)}
	}) {
		q.L = append(q.L, kv...)
	}
	return q
}

func (g *qgen) key(typ string, d int) *Q {
	if typ[1] == 's' {
		if d <= 0 || g.pct(80) {
			return qlit(g.pick(`"a"`, `"b"`, `"k"`, `""`, `"key"`, `"é"`))
		}
		return g.expr("s", d-1)
	}
	if d <= 0 || g.pct(70) {
		return qlit(g.pick("0", "1", "2", "3", "10"))
	}
	return g.expr("i", d-1)
}

// ---------------------------------------------------------------- expressions

func (g *qgen) expr(typ string, d int) *Q {
	g.left--
	if g.errs > 0 && g.pct(g.errs) {
		if e := g.badExpr(typ, d); e != nil {
			return e
		}
	}
	if g.left <= 0 {
		d = 0
	}
	if typ == "v" {
		typ = g.typ()
	}
	if d > 0 && g.pct(12) {
		return g.trace(g.expr(typ, d-1))
	}
	if d > 0 && g.pct(4) {
		return &Q{K: "paren", L: []*Q{g.expr(typ, d-1)}}
	}
	if d <= 0 || g.pct(15) {
		return g.leaf(typ)
	}
	if g.pct(35) {
		if e := g.general(typ, d); e != nil {
			return e
		}
	}
	num := func() *Q { return g.expr(g.pick("i", "f"), d-1) }
	switch typ[0] {
	case 'i':
		switch weighted(g.t, 10, 3, 2, 2, 1, 1) {
		case 0:
			op := g.pick("+", "-", "*", "/", "%")
			b := g.expr("i", d-1)
			if (op == "/" || op == "%") && g.pct(90+g.safe(8)) {
				b = qlit(strconv.Itoa(1 + intn(g.t, 9)))
			}
			return qbin(op, g.expr("i", d-1), b)
		case 1:
			return &Q{K: "un", S: g.pick("-", "+", "-"), L: []*Q{g.expr("i", d-1)}}
		case 2:
			return qcall("len", g.expr(g.pick("Li", "s", "Msi", "Lv", "n"), d-1))
		case 3:
			return qcall(g.pick("max", "min"), many(g.t, 0, 5, 2, func(*rapid.T) *Q { return g.expr("i", d-1) })...)
		case 4:
			return qcall("int", g.expr(g.pick("i", "f", "y"), d-1))
		default:
			return g.expr("i", d-1)
		}
	case 'f':
		switch weighted(g.t, 10, 2, 2, 1) {
		case 0:
			op := g.pick("+", "-", "*", "/")
			a, b := num(), num()
			if g.pct(70) {
				if g.pct(50) {
					a = g.expr("f", d-1)
				} else {
					b = g.expr("f", d-1)
				}
			}
			return qbin(op, a, b)
		case 1:
			return &Q{K: "un", S: g.pick("-", "+", "-"), L: []*Q{g.expr("f", d-1)}}
		case 2:
			return qcall("float", g.expr(g.pick("i", "f", "y"), d-1))
		default:
			return qcall(g.pick("max", "min"), append([]*Q{g.expr("f", d-1)}, many(g.t, 0, 4, 2, func(*rapid.T) *Q { return num() })...)...)
		}
	case 's':
		switch weighted(g.t, 8, 2, 2) {
		case 0:
			return qbin("+", g.expr("s", d-1), g.expr("s", d-1))
		case 1:
			return g.slice(g.expr("s", d-1), d)
		default:
			return qcall("string", g.expr(g.pick("y", "i"), d-1))
		}
	case 'b':
		switch weighted(g.t, 6, 5, 4, 2) {
		case 0:
			op := g.pick("<", ">", "<=", ">=", "==", "!=")
			switch weighted(g.t, 4, 3, 3, 2, 1) {
			case 0:
				return qbin(op, g.expr("i", d-1), g.expr("i", d-1))
			case 1:
				return qbin(op, num(), num())
			case 2:
				return qbin(op, g.expr("s", d-1), g.expr("s", d-1))
			case 3:
				return qbin(op, g.expr(g.pick("y", "i"), d-1), g.expr("y", d-1))
			default:
				return qbin(g.pick("==", "!="), g.expr("b", d-1), g.expr("b", d-1))
			}
		case 1:
			return qbin(g.pick("&&", "||"), g.expr("b", d-1), g.expr("b", d-1))
		case 2:
			x := g.pick("i", "f", "s", "b", "y", "n", "O", "F")
			y := g.pick("i", "f", "s", "b", "y", "n")
			if x == "O" || x == "F" {
				x = "v"
				for _, v := range g.visible(func(t string) bool { return t[0] == 'O' || t[0] == 'F' }, false) {
					if g.pct(50) {
						return qbin(g.pick("==", "!="), g.use(v.name), g.leaf(v.typ))
					}
				}
				x = "i"
			}
			return qbin(g.pick("==", "!="), g.expr(x, d-1), g.expr(y, d-1))
		default:
			return &Q{K: "un", S: "!", L: []*Q{g.expr("b", d-1)}}
		}
	case 'y':
		switch weighted(g.t, 2, 2, 3) {
		case 0:
			return qcall("byte", g.expr(g.pick("i", "y"), d-1))
		case 1:
			return qidx(qbin("+", g.strLit(), qlit(`"a"`)).paren(), qlit("0"))
		default:
			return g.charLit()
		}
	case 'L':
		e := elemOf(typ)
		switch weighted(g.t, 6, 4, 3, 1) {
		case 0:
			return g.listOf(typ, d)
		case 1:
			q := qcall("append", append([]*Q{g.expr(typ, d-1)}, many(g.t, 0, 4, 2, func(*rapid.T) *Q { return g.elem(e, d-1) })...)...)
			if g.pct(15) {
				q = qcall("append", g.expr(typ, d-1), g.expr(typ, d-1))
				q.V = true
			}
			return q
		case 2:
			return g.slice(g.expr(typ, d-1), d)
		default:
			return qcall("slice", qstr(map[string]string{"i": "int", "f": "float", "s": "string", "v": "var"}[e]), qlit(strconv.Itoa(intn(g.t, 4))))
		}
	case 'M':
		if typ[1] == 's' && g.pct(15) {
			return qcall("mkmap", qstr("string:"+map[string]string{"i": "int", "f": "float", "s": "string", "v": "var"}[elemOf(typ)]))
		}
		if g.pct(10) {
			m := g.mapOf(typ, d)
			return qcall("mapFrom", m.L...)
		}
		return g.mapOf(typ, d)
	case 'F':
		return g.fnLit(typ, d)
	case 'O':
		return g.newOf(typ, d)
	case 'n': // control flow without a value
		if g.f.ctrl > 0 && d > 1 && g.pct(50) {
			switch weighted(g.t, 4, 1, 1) {
			case 0:
				if ss := g.forOf(d - 1); len(ss) == 1 {
					return ss[0]
				} else if g.pct(70) {
					return &Q{K: "if", L: []*Q{qref("true"), qblock(ss...)}}
				}
			case 1:
				return &Q{K: "if", L: []*Q{g.expr("b", d-2), qblock(append(g.stmts(d-2, 0, 3, 1), qref("nil"))...)}}
			default:
				return g.switchOf(d-1, func() *Q { return qblock(qref("nil")) }, false)
			}
		}
	}
	return g.leaf(typ)
}

// safe is n if there should be no errors.
func (g *qgen) safe(n int) int {
	if g.errs > 0 {
		return 0
	}
	return n
}

// iife is a function literal that is called at once.
func (g *qgen) iife(e func() *Q) *Q {
	var b *Q
	g.scoped("v", nil, func() { b = qblock(qreturn(e())) })
	return qcallv(qfn(nil, b))
}

func (g *qgen) slice(a *Q, d int) *Q {
	if g.pct(60 + g.safe(38)) { // in range
		k := func() *Q { return qlit(g.pick("0", "0", "1", "2", "3")) }
		if a.K == "ref" {
			inRange := func(k *Q) *Q { return qcall("min", k, qcall("len", qref(a.S))) }
			switch weighted(g.t, 2, 3, 3, 1, 1, 1) {
			case 0:
				return &Q{K: "sl", L: []*Q{a, nil, inRange(k())}}
			case 1:
				return &Q{K: "sl", L: []*Q{a, inRange(k()), nil}}
			case 2:
				i := intn(g.t, 3)
				return &Q{K: "sl", L: []*Q{a, inRange(qint(i)), inRange(qint(i + intn(g.t, 3)))}}
			case 3:
				return &Q{K: "sl", L: []*Q{a, nil, nil}}
			case 4:
				return qcall("sub", a, inRange(k()), qref("nil"))
			default:
				return &Q{K: "sl", L: []*Q{a, nil, qcall("len", qref(a.S))}}
			}
		}
		if a.K == "list" && len(a.L) > 0 {
			i := intn(g.t, len(a.L)+1)
			j := i + intn(g.t, len(a.L)+1-i)
			switch weighted(g.t, 2, 2, 2) {
			case 0:
				return &Q{K: "sl", L: []*Q{a, qint(i), qint(j)}}
			case 1:
				return &Q{K: "sl", L: []*Q{a, qint(i), nil}}
			default:
				return &Q{K: "sl", L: []*Q{a, nil, qint(j)}}
			}
		}
		return &Q{K: "sl", L: []*Q{a, qlit("0"), nil}}
	}
	bound := func(p int) *Q {
		if g.pct(p) {
			return nil
		}
		if g.pct(85) {
			return qlit(g.pick("0", "1", "1", "2", "3"))
		}
		return g.expr("i", d-1)
	}
	i, j := bound(40), bound(50)
	if g.pct(10) {
		if i == nil {
			i = qref("nil")
		}
		if j == nil {
			j = qref("nil")
		}
		return qcall("sub", a, i, j)
	}
	if j != nil && g.pct(60) { // rather in range
		i = nil
		if g.pct(30) {
			i = qlit("0")
		}
		j = qlit(g.pick("0", "1", "1", "2"))
	}
	return &Q{K: "sl", L: []*Q{a, i, j}}
}

// general forms work for every type: conditionals as values, elements, calls, members.
func (g *qgen) general(typ string, d int) *Q {
	switch weighted(g.t, 1+g.f.ctrl, 2+2*g.f.conts, 1+2*g.f.funcs, 2*g.f.classes, 1) {
	case 0:
		if g.pct(60) {
			return g.ifOf(d-1, func() *Q { return qblock(g.expr(typ, d-2)) }, true)
		}
		return g.switchOf(d-1, func() *Q { return qblock(g.expr(typ, d-2)) }, true)
	case 1:
		if len(typ) > 1 || typ == "n" {
			return nil
		}
		if g.pct(60) {
			lt := "L" + typ
			if !strings.Contains("ifs", typ) {
				if typ == "y" && g.pct(50) {
					return g.at(qbin("+", g.expr("s", d-1), qlit(g.pick(`"abc"`, `"é"`))).paren(), qlit(g.pick("0", "0", "1")))
				}
				lt = "Lv"
			}
			l := g.listOf(lt, d)
			if v := g.varOf(lt); v != nil && lt != "Lv" && g.pct(70) {
				l = v
			} else if lt == "Lv" {
				l.L = append([]*Q{g.expr(typ, d-1)}, l.L...)
			}
			n := len(l.L)
			if n == 0 {
				n = 2 - g.safe(1)
			}
			return g.at(l, qlit(strconv.Itoa(intn(g.t, n))))
		}
		if !strings.Contains("ifs", typ) {
			return nil
		}
		mt := "M" + g.pick("s", "i") + typ
		if v := g.varOf(mt); v != nil && g.pct(70) {
			return g.at(v, g.key(mt, d))
		}
		m := g.mapOf(mt, d)
		k := m.L[2*intn(g.t, len(m.L)/2)]
		if k.K != "lit" {
			k = g.key(mt, 0)
		}
		k = &Q{K: "lit", S: k.S}
		if mt[1] == 's' && (k.S == `"a"` || k.S == `"key"`) && g.pct(30) {
			return qmem(&Q{K: "paren", L: []*Q{m}}, strings.Trim(k.S, `"`))
		}
		return g.at(m, k)
	case 2:
		vs := g.visible(func(t string) bool { return t[0] == 'F' && g.sigOf(t).ret == typ }, false)
		if len(vs) > 0 {
			v := pick(g.t, vs)
			return g.callOf(g.use(v.name), v.typ, d-1)
		}
		if g.pct(50) {
			s := qsig{ret: typ}
			for n := weighted(g.t, 3, 3, 1); len(s.params) < n; {
				s.params = append(s.params, g.argType())
			}
			f := g.sig(s)
			return g.callOf(g.fnLit(f, d-1), f, d-1)
		}
	case 3:
		var cands []*Q
		for _, v := range g.visible(func(t string) bool { return t[0] == 'O' }, false) {
			c := g.classOf(v.typ)
			for _, f := range c.fields {
				if f.typ == typ {
					cands = append(cands, qmem(qref(v.name), f.name))
				}
			}
			for _, m := range c.methods {
				if m.typ[0] == 'F' && g.sigOf(m.typ).ret == typ {
					cands = append(cands, &Q{K: "call", S: m.typ, L: []*Q{qmem(qref(v.name), m.name)}})
				}
				if m.typ == typ {
					cands = append(cands, qmem(qref(v.name), m.name))
				}
			}
		}
		if len(cands) > 0 {
			c := pick(g.t, cands)
			if c.K == "call" {
				return g.callOf(c.L[0], c.S, d-1)
			}
			return c
		}
	case 4:
		if typ[0] != 'F' && typ[0] != 'O' {
			return g.iife(func() *Q { return g.expr(typ, d-2) })
		}
	}
	return nil
}

func (g *qgen) at(a, i *Q) *Q {
	if g.pct(10) {
		return qcall("get", a, i)
	}
	return qidx(a, i)
}

// callOf calls f with arguments for its signature.
func (g *qgen) callOf(f *Q, typ string, d int) *Q {
	s := g.sigOf(typ)
	q := qcallv(f)
	for i, p := range s.params {
		switch {
		case i == 0 && s.rec:
			q.L = append(q.L, qlit(g.pick("0", "1", "2", "3", "4")))
		case s.variadic && i == len(s.params)-1:
			if g.pct(25) {
				q.L = append(q.L, g.expr(pick(g.t, listTypes), d-1))
				q.V = true
			} else {
				q.L = append(q.L, many(g.t, 0, 4, 2, func(*rapid.T) *Q { return g.expr("v", d-2) })...)
			}
		default:
			q.L = append(q.L, g.expr(p, d-1))
		}
	}
	if !s.variadic && len(s.params) > 0 && g.pct(3) { // the arguments as a list
		q.L = []*Q{q.L[0], {K: "list", L: q.L[1:]}}
		q.V = true
	}
	if g.errs > 0 && g.pct(2*g.errs) {
		if len(q.L) > 1 && g.pct(50) {
			q.L = q.L[:len(q.L)-1]
			q.V = false
		} else if !q.V {
			q.L = append(q.L, g.leaf("v"))
		}
	}
	return q
}

func (g *qgen) newOf(typ string, d int) *Q {
	vs := g.visible(func(t string) bool { return t == "C"+typ[1:] }, false)
	if len(vs) == 0 {
		if v := g.varOf(typ); v != nil {
			return v
		}
		return qref("nil")
	}
	q := &Q{K: "new", S: vs[0].name}
	g.top().read[vs[0].name] = true
	c := g.classOf(typ)
	if c.init != "" {
		q.V = len(g.sigOf(c.init).params) > 0 || g.pct(60)
		for _, p := range g.sigOf(c.init).params {
			q.L = append(q.L, g.expr(p, d-1))
		}
		if g.errs > 0 && g.pct(2*g.errs) {
			q.V = true
			q.L = append(q.L, g.leaf("v"))
		} else if g.errs > 0 && g.pct(g.errs) {
			q.V, q.L = false, nil
		}
	} else {
		q.V = g.pct(30)
	}
	return q
}

// badExpr is an expression that fails or has another type.
func (g *qgen) badExpr(typ string, d int) *Q {
	switch weighted(g.t, 6, 2, 2, 3, 2, 2, 1, 1, 1) {
	case 0:
		return g.leaf("v")
	case 1:
		return qbin(g.pick("/", "%"), g.leaf("i"), qlit("0"))
	case 2:
		return qidx(g.listOf("Li", 0), qint(g.pickInt(-1, 6, 99, 1)))
	case 3:
		g.id++
		return qcall("panic", qstr(g.reason("boom %d")))
	case 4:
		return qref("nosuch")
	case 5:
		return qcallv(g.leafRef())
	case 6:
		return qmem(g.leafRef(), "nomember")
	case 7:
		return &Q{K: "un", S: g.pick("-", "!"), L: []*Q{g.leaf("v")}}
	default:
		g.id++
		return qcall("panicf", qstr(fmt.Sprintf("boomf %d", g.id)))
	}
}

func (g *qgen) leafRef() *Q {
	if v := g.varOf("v"); v != nil {
		return v
	}
	return qref("nil")
}

func (g *qgen) pickInt(xs ...int) int { return pick(g.t, xs) }

// ---------------------------------------------------------------- functions and classes

// scoped generates with a new function scope.
func (g *qgen) scoped(ret string, vars []qvar, f func()) {
	loops := g.loops
	g.loops = 0
	g.sc = append(g.sc, &qscope{vars: vars, read: map[string]bool{}, ret: ret, fn: true})
	f()
	g.sc = g.sc[:len(g.sc)-1]
	g.loops = loops
}

func (g *qgen) fnLit(typ string, d int) *Q { return g.fnNamed(typ, d, "") }

func (g *qgen) fnNamed(typ string, d int, self string) *Q {
	s := g.sigOf(typ)
	q := &Q{K: "fn", V: s.variadic}
	var vars []qvar
	for i, p := range s.params {
		name := fmt.Sprintf("p%d", i)
		if g.pct(30) {
			name = fmt.Sprintf("p%d_%d", i, len(g.sc))
		} else if g.pct(10) { // hides an outer variable
			if vs := g.visible(func(string) bool { return true }, false); len(vs) > 0 {
				name = pick(g.t, vs).name
			}
		}
		for _, v := range vars {
			if v.name == name {
				name = fmt.Sprintf("p%d", i)
			}
		}
		vars = append(vars, qvar{name, p})
		q.P = append(q.P, name)
	}
	g.scoped(s.ret, vars, func() { q.L = []*Q{g.fnBody(s, d, self, typ)} })
	return q
}

func (g *qgen) fnBody(s qsig, d int, self, typ string) *Q {
	b := &Q{K: "block"}
	s.rec = s.rec && self != ""
	n := ""
	if s.rec {
		n = g.top().vars[0].name
		b.L = append(b.L, &Q{K: "if", L: []*Q{qbin("<=", qref(n), qlit("0")), qblock(qreturn(g.expr(s.ret, 1)))}})
	}
	if g.f.defers > 0 && g.pct(12*g.f.defers) {
		b.L = append(b.L, g.deferStmt(d-1))
	}
	if d > 0 && g.left > 0 {
		b.L = append(b.L, g.stmts(d, 0, 5, 1)...)
	}
	if s.rec {
		call := g.callOf(qref(self), typ, d-1)
		if len(call.L) > 1 && !(call.V && len(call.L) == 2) {
			call.L[1] = qbin("-", qref(n), qlit("1"))
			if g.pct(50) {
				b.L = append(b.L, g.assignTo(g.fresh(), s.ret, call)...)
			} else {
				b.L = append(b.L, g.trace(call))
			}
		}
	}
	if s.ret == "n" {
		if g.pct(20) {
			b.L = append(b.L, qreturn())
		}
	} else if g.pct(95) {
		b.L = append(b.L, qreturn(g.expr(s.ret, d)))
		if g.pct(4) {
			b.L = append(b.L, g.trace())
		}
	}
	b.V = len(b.L) > 0 && g.pct(15)
	return b
}

var fieldNames = []string{"x", "y", "val", "items", "class", "cb", "n", "new", "main", "recover"}
var methodNames = []string{"get", "inc", "add", "run", "meth", "twice", "gets", "step"}

func (g *qgen) classDecl(d int) []*Q {
	c := &qclass{}
	no := len(g.classes)
	g.classes = append(g.classes, c)
	ct, ot := fmt.Sprintf("C%d", no), fmt.Sprintf("O%d", no)
	nf := 1 + intn(g.t, 4)
	if g.pct(10) {
		nf = between(g.t, 4, len(fieldNames))
	}
	for i := 0; i < nf; i++ {
		c.fields = append(c.fields, qvar{fieldNames[(i+no)%len(fieldNames)], g.pick("i", "i", "s", "Li", "f", "Msi")})
	}
	q := &Q{K: "class"}
	method := func(name, typ string, body func() *Q) {
		s := g.sigOf(typ)
		k := &Q{K: "fn", S: name, V: s.variadic}
		vars := []qvar{{"this", ot}}
		for i, p := range s.params {
			k.P = append(k.P, fmt.Sprintf("p%d", i))
			vars = append(vars, qvar{k.P[i], p})
		}
		g.scoped(s.ret, vars, func() { k.L = []*Q{body()} })
		q.L = append(q.L, k)
	}
	if g.pct(85 + g.safe(14)) {
		s := qsig{ret: "n"}
		for _, f := range c.fields {
			if g.pct(50) && len(s.params) < 3 {
				s.params = append(s.params, f.typ)
			}
		}
		c.init = g.sig(s)
		method("_init", c.init, func() *Q {
			b := &Q{K: "block"}
			all := c.fields
			c.fields = nil // none is there yet
			for _, f := range all {
				e := g.expr(f.typ, d-2)
				c.fields = append(c.fields, f)
				if g.pct(95 + g.safe(5)) {
					b.L = append(b.L, qcall("set", qref("this"), qstr(f.name), e))
				}
			}
			b.L = append(b.L, g.stmts(d-2, 0, 2, 0)...)
			return b
		})
	}
	name := g.fresh()
	if g.pct(70) {
		name = g.prefix + fmt.Sprintf("K%d", no)
	}
	g.declare(name, ct)
	for i, n := 0, 1+intn(g.t, 4); i < n; i++ {
		mname := methodNames[(i+no)%len(methodNames)]
		var s qsig
		for n := weighted(g.t, 3, 3, 2); len(s.params) < n; {
			s.params = append(s.params, g.argType())
		}
		s.ret = g.pick("i", "n", "s", "i", "Li", ot)
		keep := false
		if g.pct(15) && len(s.params) > 0 {
			s.variadic = true
			s.params[len(s.params)-1] = "Lv"
			if keep = g.pct(40); keep {
				s.ret = "Lv"
			}
		}
		typ := g.sig(s)
		method(mname, typ, func() *Q {
			b := &Q{K: "block"}
			for _, f := range c.fields {
				if g.pct(50) {
					e := g.expr(f.typ, d-1)
					if f.typ == "i" && g.pct(50) {
						e = qbin("+", qmem(qref("this"), f.name), g.expr("i", 1))
					}
					b.L = append(b.L, qcall("set", qref("this"), qstr(f.name), e))
				}
			}
			bb := g.fnBody(s, d-1, "", typ)
			b.L = append(b.L, bb.L...)
			if keep {
				p := qref(fmt.Sprintf("p%d", len(s.params)-1))
				if g.pct(30) {
					p = &Q{K: "list", L: []*Q{p, g.leaf("i")}}
				}
				return qblock(append(bb.L[:len(bb.L)/2:len(bb.L)/2], qreturn(p))...)
			}
			if s.ret == ot && g.pct(70) {
				b.L = append(b.L, qreturn(qref("this")))
			}
			return b
		})
		c.methods = append(c.methods, qvar{mname, typ})
	}
	return []*Q{qassign(name, q)}
}

// objStmt works on an object.
func (g *qgen) objStmt(d int) []*Q {
	vs := g.visible(func(t string) bool { return t[0] == 'O' }, false)
	if len(vs) == 0 {
		cs := g.visible(func(t string) bool { return t[0] == 'C' }, false)
		if len(cs) == 0 {
			return g.classDecl(d)
		}
		typ := "O" + pick(g.t, cs).typ[1:]
		return g.assignTo(g.fresh(), typ, g.newOf(typ, d))
	}
	v := pick(g.t, vs)
	c := g.classOf(v.typ)
	o := func() *Q { return g.use(v.name) }
	if len(c.fields) == 0 {
		return []*Q{g.trace()}
	}
	if len(c.methods) == 0 {
		return []*Q{g.trace(qmem(o(), pick(g.t, c.fields).name))}
	}
	switch weighted(g.t, 4, 4, 4, 3, 2, 2, 1, 1, 2, 1) {
	case 9: // a member without value
		q := qcall("set", o(), qstr("none"), g.leaf(g.pick("i", "s")), qstr("none"), qref("nil"))
		if g.pct(50) {
			q.L = append(q.L[:2], qstr("none"), qref("nil"))
		}
		return []*Q{q, g.trace(qmem(o(), "none"))}
	case 8: // what a method value returned stays when it is called again
		m := pick(g.t, c.methods)
		for _, k := range c.methods {
			if g.sigOf(k.typ).variadic {
				m = k
			}
		}
		n := g.fresh()
		ss := g.assignTo(n, m.typ, qmem(o(), m.name))
		var rs []*Q
		for i := between(g.t, 2, 3); i > 0; i-- {
			r := g.fresh()
			ss = append(ss, g.assignTo(r, g.sigOf(m.typ).ret, g.callOf(qref(n), m.typ, d-1))...)
			rs = append(rs, qref(r))
		}
		return append(ss, g.trace(rs...))
	case 0:
		typ := v.typ
		return g.assignTo(g.fresh(), typ, g.newOf(typ, d))
	case 1:
		q := qcall("set", o())
		for _, f := range c.fields {
			if g.pct(60) || len(q.L) == 2 && f == c.fields[len(c.fields)-1] {
				q.L = append(q.L, qstr(f.name), g.expr(f.typ, d-1))
			}
		}
		if g.errs > 0 && g.pct(10) && len(c.methods) > 0 {
			q.L = append(q.L, qstr(c.methods[0].name), qlit("1"))
		}
		if len(q.L) == 2 {
			q.L = append(q.L, qstr("extra"), g.leaf("i"))
		}
		return []*Q{q}
	case 2:
		m := pick(g.t, c.methods)
		return []*Q{g.trace(g.callOf(qmem(o(), m.name), m.typ, d-1))}
	case 3:
		return []*Q{g.trace(qmem(o(), pick(g.t, c.fields).name))}
	case 4: // stored method value
		m := pick(g.t, c.methods)
		return g.assignTo(g.fresh(), m.typ, qmem(o(), m.name))
	case 5: // method of the class with an explicit object
		cs := g.visible(func(t string) bool { return t == "C"+v.typ[1:] }, false)
		if len(cs) == 0 {
			return nil
		}
		m := pick(g.t, c.methods)
		q := g.callOf(qmem(g.use(cs[0].name), m.name), m.typ, d-1)
		q.L = append([]*Q{q.L[0], o()}, q.L[1:]...)
		return []*Q{g.trace(q)}
	case 6:
		cs := g.visible(func(t string) bool { return t == "C"+v.typ[1:] }, false)
		if len(cs) == 0 {
			return nil
		}
		return []*Q{g.trace(qbin("==", qmem(&Q{K: "paren", L: []*Q{g.newOf(v.typ, 1)}}, c.fields[0].name), qmem(o(), c.fields[0].name)))}
	default:
		return g.assignTo(g.fresh(), v.typ, o()) // alias
	}
}

// ---------------------------------------------------------------- control flow

func (g *qgen) ifOf(d int, body func() *Q, els bool) *Q {
	q := &Q{K: "if"}
	n := 1 + weighted(g.t, 6, 3, 2, 1, 1, 1)
	for i := 0; i < n; i++ {
		c := g.expr("b", d-1)
		if g.pct(30) {
			c = g.trace(c)
		}
		q.L = append(q.L, c, body())
	}
	if els || g.pct(50) {
		q.V = true
		q.L = append(q.L, body())
	}
	return q
}

func (g *qgen) switchOf(d int, body func() *Q, def bool) *Q {
	q := &Q{K: "switch", L: []*Q{nil}}
	ct := "b"
	if g.pct(70) {
		ct = g.pick("i", "i", "s", "f", "y", "b", "n")
		q.L[0] = g.expr(ct, d-1)
	}
	n := weighted(g.t, 1, 2, 4, 4, 2, 1)
	for i := 0; i < n; i++ {
		var c *Q
		switch {
		case ct == "i" && g.pct(60):
			c = qlit(strconv.Itoa(intn(g.t, 5)))
		case ct == "b" && q.L[0] == nil:
			c = g.expr("b", d-1)
		case g.pct(10):
			c = g.expr(g.pick("i", "s", "f"), d-1)
		default:
			c = g.expr(ct, d-1)
		}
		if g.pct(30) {
			c = g.trace(c)
		}
		q.L = append(q.L, c, body())
	}
	if def || g.pct(50) {
		q.V = true
		q.L = append(q.L, body())
	}
	return q
}

// inBlock generates the statements of a block: what it declares isn't used after it.
func (g *qgen) inBlock(d int) *Q {
	s := g.top()
	vars, read := s.vars, s.read
	s.read = map[string]bool{}
	for k := range read {
		s.read[k] = true
	}
	s.vars = append([]qvar{}, vars...)
	s.blocks++
	defer func() { s.blocks-- }()
	b := qblock(g.stmts(d, 0, 6, 2)...)
	if len(b.L) > 0 && g.pct(30) {
		b.L = append(b.L, g.expr("v", d-1))
	}
	s.vars, s.read = vars, read
	b.V = len(b.L) > 0 && g.pct(15)
	return b
}

func (g *qgen) forOf(d int) []*Q {
	v := g.loopVar()
	g.loops++
	defer func() { g.loops-- }()
	n := pick(g.t, []int{0, 1, 2, 2, 3, 3, 4, 5, 9})
	if g.loops > 2 {
		n = min(n, 2)
	}
	s := g.top()
	vars := s.vars
	s.vars = append(append([]qvar{}, vars...), qvar{v, "i"})
	defer func() { s.vars = vars }()
	cond := func() *Q {
		c := qbin(g.pick("<", "<", "!="), qref(v), qint(n))
		if g.pct(20) {
			c = qbin("&&", c, g.expr("b", d-1))
		}
		if g.pct(20) {
			c = g.trace(c)
		}
		return c
	}
	step := func() *Q {
		switch weighted(g.t, 5, 2, 2) {
		case 0:
			return &Q{K: "inc", S: v}
		case 1:
			return &Q{K: "op=", S: v, P: []string{"+"}, L: []*Q{qlit("1")}}
		default:
			return qassign(v, qbin("+", qref(v), qlit("1")))
		}
	}
	body := func() *Q {
		return g.inBlock(d - 1)
	}
	switch weighted(g.t, 6, 4, 2) {
	case 0:
		return []*Q{{K: "for", L: []*Q{qassign(v, qlit("0")), cond(), step(), body()}}}
	case 1:
		c := cond()
		b := body()
		b.L = append(b.L, step())
		return []*Q{qassign(v, qlit("0")), {K: "for", L: []*Q{c, b}}}
	default:
		if !s.fn {
			return []*Q{{K: "for", L: []*Q{qassign(v, qlit("0")), cond(), step(), body()}}}
		}
		b := body()
		ret := qreturn()
		if s.ret != "n" {
			ret = qreturn(g.expr(s.ret, d-1))
		}
		b.L = append([]*Q{{K: "if", L: []*Q{qbin(">=", qref(v), qint(n)), qblock(ret)}}, step()}, b.L...)
		return []*Q{qassign(v, qlit("0")), {K: "for", L: []*Q{b}}}
	}
}

// ---------------------------------------------------------------- statements

// assignTo assigns to a name and declares it.
func (g *qgen) assignTo(name, typ string, e *Q) []*Q {
	g.declare(name, typ)
	return []*Q{qassign(name, e)}
}

func notLoop(vs []qvar) (out []qvar) {
	for _, v := range vs {
		if !strings.HasPrefix(v.name, "_z") && v.name != "this" {
			out = append(out, v)
		}
	}
	return
}

func (g *qgen) stmts(d, min, max, avg int) (out []*Q) {
	for _, ss := range many(g.t, min, max, avg+1, func(*rapid.T) []*Q { return g.stmt(d) }) {
		out = append(out, ss...)
	}
	return
}

// readFirst reads an outer variable before it is assigned, mostly.
func (g *qgen) readFirst(name string) []*Q {
	if g.own(name) || g.top().read[name] || g.pct(8) {
		return nil
	}
	return []*Q{g.trace(g.use(name))}
}

func (g *qgen) stmt(d int) []*Q {
	g.left--
	if g.left <= 0 {
		return []*Q{g.trace(g.leaf("v"))}
	}
	f := g.f
	ctrl := f.ctrl
	if d <= 0 {
		ctrl = 0
	}
	funcs, classes := f.funcs, f.classes
	if d <= 1 {
		funcs, classes = 0, min(classes, 1)
	}
	switch weighted(g.t, 2+f.exprs, 3+3*f.assigns, 3*ctrl, 3*funcs, 2*f.defers, 3*classes, 3*f.conts, g.errs/2+f.defers) {
	case 0:
		e := g.expr("v", d)
		if g.pct(80) {
			return []*Q{g.trace(e)}
		}
		return []*Q{e}
	case 1:
		return g.assignStmt(d)
	case 2:
		switch weighted(g.t, 4, 3, 4) {
		case 0:
			return []*Q{g.ifOf(d, func() *Q { return g.inBlock(d - 1) }, false)}
		case 1:
			return []*Q{g.switchOf(d, func() *Q { return g.inBlock(d - 1) }, false)}
		default:
			return g.forOf(d)
		}
	case 3:
		return g.fnStmt(d)
	case 4:
		if g.pct(8) { // not deferred
			return []*Q{g.recoverer(d - 1)}
		}
		return []*Q{g.deferStmt(d)}
	case 5:
		if d > 1 && (len(g.classes) == 0 || len(g.classes) < 3 && g.pct(15)) {
			return g.classDecl(d)
		}
		return g.objStmt(d)
	case 6:
		return g.contStmt(d)
	default:
		return g.riskStmt(d)
	}
}

func (g *qgen) assignStmt(d int) []*Q {
	var vs []qvar
	if g.pct(70) {
		vs = notLoop(g.visible(func(string) bool { return true }, g.pct(50)))
	}
	switch weighted(g.t, 6, 3, 3, 2, 1) {
	case 1: // compound
		nums := notLoop(g.visible(func(t string) bool { return t == "i" || t == "f" || t == "s" }, g.pct(60)))
		if len(nums) > 0 {
			v := pick(g.t, nums)
			op := "+"
			var e *Q
			switch v.typ {
			case "i":
				op = g.pick("+", "-", "*", "/", "%")
				e = g.expr("i", d-1)
				if op == "/" || op == "%" {
					e = qlit(strconv.Itoa(1 + intn(g.t, 9)))
				}
			case "f":
				op = g.pick("+", "-", "*", "/")
				e = g.expr(g.pick("f", "i"), d-1)
			default:
				e = g.expr("s", d-1)
			}
			return append(g.readFirst(v.name), &Q{K: "op=", S: v.name, P: []string{op}, L: []*Q{e}})
		}
	case 2:
		ints := notLoop(g.visible(func(t string) bool { return t == "i" || t == "y" }, g.pct(60)))
		if len(ints) > 0 {
			v := pick(g.t, ints)
			return append(g.readFirst(v.name), &Q{K: g.pick("inc", "dec"), S: v.name})
		}
	case 3:
		return g.multiStmt(d)
	case 4:
		s := g.top()
		if own := notLoop(s.vars); len(own) > 0 && s.blocks == 0 && g.pct(50) {
			v := pick(g.t, own)
			for i := range s.vars {
				if s.vars[i].name == v.name {
					s.vars = append(append([]qvar{}, s.vars[:i]...), s.vars[i+1:]...)
					break
				}
			}
			return []*Q{qcall("unset", qstr(v.name))}
		}
	}
	if len(vs) > 0 && g.pct(60) { // assign again
		v := pick(g.t, vs)
		typ := v.typ
		if g.pct(7) && g.own(v.name) {
			typ = g.typ()
			g.declare(v.name, typ)
		}
		if typ[0] == 'C' {
			return []*Q{g.trace(qbin("==", g.use(v.name), qref("nil")))}
		}
		pre := g.readFirst(v.name)
		return append(pre, qassign(v.name, g.expr(typ, d)))
	}
	name := g.fresh()
	if g.errs > 0 && len(g.sc) > 1 && g.pct(4*g.errs) { // a name of an outer function
		if out := g.sc[0].vars; len(out) > 0 {
			name = pick(g.t, out).name
			return []*Q{qassign(name, g.expr("i", d))}
		}
	}
	typ := g.typ()
	e := g.expr(typ, d)
	return g.assignTo(name, typ, e)
}

func (g *qgen) multiStmt(d int) []*Q {
	n := pick(g.t, []int{2, 2, 2, 3, 3, 4, 6})
	q := &Q{K: "massign"}
	var pre []*Q
	lt := pick(g.t, listTypes)
	if own := notLoop(g.visible(func(t string) bool { return t == elemOf(lt) }, g.pct(50))); len(own) >= 2 && g.pct(40) { // swap and the like
		n = len(own)
		if n > 4 {
			n = 4
		}
		l := &Q{K: "list"}
		for i := 0; i < n; i++ {
			pre = append(pre, g.readFirst(own[i].name)...)
			q.P = append(q.P, own[i].name)
			l.L = append(l.L, qref(own[(i+1+intn(g.t, n-1))%n].name))
		}
		q.L = []*Q{l}
		return append(pre, q)
	}
	for i := 0; i < n; i++ {
		q.P = append(q.P, g.fresh())
	}
	values := func() *Q {
		l := &Q{K: "list"}
		for i := 0; i < n; i++ {
			l.L = append(l.L, g.elem(elemOf(lt), d-1))
		}
		if g.errs > 0 && g.pct(5*g.errs) {
			l.L = append(l.L, g.leaf("i"))
		}
		return l
	}
	if g.pct(25) {
		q.L = []*Q{g.iife(values)}
	} else {
		q.L = []*Q{values()}
	}
	if lt != "Lv" {
		for _, name := range q.P {
			g.declare(name, elemOf(lt))
		}
	}
	return []*Q{q}
}

func (g *qgen) fnStmt(d int) []*Q {
	fs := g.visible(func(t string) bool { return t[0] == 'F' }, false)
	if len(fs) > 0 && g.pct(55) {
		v := pick(g.t, fs)
		return []*Q{g.trace(g.callOf(g.use(v.name), v.typ, d-1))}
	}
	name := g.fresh()
	switch weighted(g.t, 5, 2, 2, 2) {
	case 1: // recursive
		s := qsig{params: []string{"i"}, ret: g.pick("i", "i", "s", "Li", "n"), rec: true}
		for n := weighted(g.t, 3, 2, 1); len(s.params) < 1+n; {
			s.params = append(s.params, g.argType())
		}
		typ := g.sig(s)
		q := g.fnNamed(typ, d-1, name)
		return g.assignTo(name, typ, q)
	case 2: // counter: a closure over a variable that outlives its definer
		inner := g.sig(qsig{ret: "i"})
		outer := g.sig(qsig{params: []string{"i"}, ret: inner})
		cnt := g.loopVar()[1:]
		var b *Q
		g.scoped(inner, []qvar{{cnt, "i"}}, func() {
			var fb *Q
			g.scoped("i", nil, func() {
				fb = qblock(g.readFirst(cnt)...)
				fb.L = append(fb.L, &Q{K: "op=", S: cnt, P: []string{g.pick("+", "-", "*")}, L: []*Q{g.expr("i", 1)}})
				fb.L = append(fb.L, g.stmts(d-2, 0, 2, 0)...)
				fb.L = append(fb.L, qreturn(qref(cnt)))
			})
			b = qblock(qreturn(qfn(nil, fb)))
		})
		c1, c2 := g.fresh(), g.fresh()
		out := g.assignTo(name, outer, qfn([]string{cnt}, b))
		if c1 != name {
			out = append(out, g.assignTo(c1, inner, qcall(name, g.expr("i", 1)))...)
		}
		if c2 != name {
			out = append(out, g.assignTo(c2, inner, qcall(name, g.expr("i", 1)))...)
		}
		return out
	case 3: // higher order
		inner := g.fnType()
		s := g.sigOf(inner)
		outer := g.sig(qsig{params: []string{inner}, ret: s.ret})
		q := g.fnLit(outer, d-1)
		return g.assignTo(name, outer, q)
	}
	typ := g.fnType()
	q := g.fnLit(typ, d-1)
	return g.assignTo(name, typ, q)
}

// reason is what a panic says.
func (g *qgen) reason(format string) string {
	s := fmt.Sprintf(format, g.id)
	if g.pct(10) {
		s += strings.Repeat(g.pick(" and so on", "-", " é"), g.pickInt(1, 3, 8, 60))
	}
	return s
}

// recoverer is a function literal that recovers.
func (g *qgen) recoverer(d int) *Q {
	b := &Q{K: "block"}
	g.scoped("n", nil, func() {
		if g.pct(20) {
			b.L = append(b.L, g.trace())
		}
		switch weighted(g.t, 4, 3, 2, 1) {
		case 0:
			b.L = append(b.L, qassign("_e", &Q{K: "recover"}), g.trace(qref("_e")))
		case 1:
			b.L = append(b.L, g.trace(qbin(g.pick("!=", "=="), &Q{K: "recover"}, qref("nil"))))
		case 2:
			b.L = append(b.L, &Q{K: "recover"})
		default: // panics again
			b.L = append(b.L, qassign("_e", &Q{K: "recover"}), &Q{K: "if", L: []*Q{qbin("!=", qref("_e"), qref("nil")), qblock(qcall("panic", qref("_e")))}})
		}
		if g.pct(15) {
			b.L = append(b.L, g.trace(&Q{K: "recover"}))
		}
		b.L = append(b.L, g.stmts(d-1, 0, 2, 0)...)
	})
	return qcallv(qfn(nil, b))
}

func (g *qgen) deferStmt(d int) *Q {
	s := g.top() // a deferred expression has no return in it
	fn := s.fn
	s.fn = false
	defer func() { s.fn = fn }()
	switch weighted(g.t, 5, 4, 3, 1, 1, 2) {
	case 5: // a deferred expression that defers others
		var l []*Q
		for i := between(g.t, 1, 3); i > 0; i-- {
			if g.pct(60) && d > 0 {
				l = append(l, g.deferStmt(d-1))
			} else {
				l = append(l, g.trace())
			}
		}
		l = append(l, g.trace())
		if g.pct(20) {
			return qdefer(&Q{K: "switch", L: []*Q{nil, qref("true"), qblock(l...)}})
		}
		return qdefer(qif(qref("true"), l...))
	case 0:
		if v := g.varOf("v"); v != nil && g.pct(60) {
			return qdefer(g.trace(v)) // evaluated at the end
		}
		return qdefer(g.trace(g.expr("v", d-1)))
	case 1:
		return qdefer(g.recoverer(d - 1))
	case 2:
		var b *Q
		g.scoped("n", nil, func() {
			b = qblock(append([]*Q{g.trace()}, g.stmts(d-1, 0, 3, 1)...)...)
			if g.pct(20) {
				b.L = append(b.L, qreturn(g.leaf("v")))
			}
		})
		return qdefer(qcallv(qfn(nil, b)))
	case 3:
		g.id++
		return qdefer(qcall("panic", qstr(g.reason("deferred boom %d"))))
	default:
		fs := g.visible(func(t string) bool { return t[0] == 'F' }, false)
		if len(fs) == 0 {
			return qdefer(g.trace())
		}
		v := pick(g.t, fs)
		return qdefer(g.callOf(g.use(v.name), v.typ, d-1))
	}
}

// riskStmt: something that may fail, in a function that recovers or not.
func (g *qgen) riskStmt(d int) []*Q {
	var b *Q
	old := g.errs
	g.errs = max(g.errs, 10)
	defer func() { g.errs = old }()
	ret := g.pick("n", "n", "i", "s")
	g.scoped(ret, nil, func() {
		b = &Q{K: "block"}
		if g.pct(30) {
			b.L = append(b.L, g.deferStmt(d-1))
		}
		b.L = append(b.L, qdefer(g.recoverer(d-1)))
		if g.pct(30) {
			b.L = append(b.L, g.deferStmt(d-1))
		}
		b.L = append(b.L, g.stmts(d-1, 0, 3, 1)...)
		if g.pct(50) {
			g.id++
			b.L = append(b.L, qcall("panic", qstr(g.reason("boom %d"))))
		} else {
			b.L = append(b.L, g.badExpr("i", 1))
		}
		if g.pct(30) {
			b.L = append(b.L, g.trace())
		}
		if ret != "n" && g.pct(50) {
			b.L = append([]*Q{b.L[0]}, append([]*Q{{K: "if", L: []*Q{g.expr("b", 1), qblock(qreturn(g.expr(ret, 1)))}}}, b.L[1:]...)...)
		}
	})
	return []*Q{g.trace(qcallv(qfn(nil, b)))}
}

func (g *qgen) contStmt(d int) []*Q {
	vs := g.visible(func(t string) bool { return t[0] == 'L' || t[0] == 'M' }, g.pct(60))
	if len(vs) == 0 || g.pct(25) {
		typ := pick(g.t, append(listTypes, mapTypes...))
		e := g.expr(typ, d)
		return g.assignTo(g.fresh(), typ, e)
	}
	v := pick(g.t, vs)
	e := elemOf(v.typ)
	o := func() *Q { return g.use(v.name) }
	if v.typ[0] == 'M' {
		switch weighted(g.t, 5, 2, 4, 2) {
		case 0:
			q := qcall("set", o())
			for i, n := 0, 1+weighted(g.t, 4, 2, 1); i < n; i++ {
				val := g.exact(e, d-1)
				if g.pct(10) {
					val = qref("undefined")
				}
				q.L = append(q.L, g.key(v.typ, d-1), val)
			}
			return []*Q{q}
		case 1:
			return []*Q{qcall("delete", o(), g.key(v.typ, d-1))}
		case 2:
			return []*Q{g.trace(g.at(o(), g.key(v.typ, d-1)))}
		default:
			return []*Q{g.trace(qcall("len", o()), o())}
		}
	}
	idx := func() *Q {
		if g.pct(80 + g.safe(18)) {
			if g.pct(60 - g.safe(50)) {
				return qlit(g.pick("0", "0", "1", "2"))
			}
			return qcall("max", qlit("0"), qbin("-", qcall("len", qref(v.name)), qint(1+intn(g.t, 3))))
		}
		return g.expr("i", d-1)
	}
	grow := func() *Q {
		return qcall("append", append([]*Q{o()}, many(g.t, 0, 5, 2, func(*rapid.T) *Q { return g.elem(e, d-1) })...)...)
	}
	switch weighted(g.t, 4, 5, 3, 3, 2, 2) {
	case 0:
		q := qcall("set", o())
		for i, n := 0, 1+weighted(g.t, 4, 2, 1); i < n; i++ {
			q.L = append(q.L, idx(), g.exact(e, d-1))
		}
		return []*Q{q}
	case 1:
		pre := g.readFirst(v.name)
		return append(pre, qassign(v.name, grow()))
	case 2:
		return g.assignTo(g.fresh(), v.typ, g.slice(o(), d))
	case 3:
		return []*Q{g.trace(g.at(o(), idx()))}
	case 4:
		return []*Q{g.trace(qcall("len", o()), o())}
	default:
		return g.assignTo(g.fresh(), v.typ, grow())
	}
}

// exact: element of a typed container, not promoted.
func (g *qgen) exact(e string, d int) *Q {
	if e == "v" {
		return g.expr(g.pick("i", "f", "s", "b", "n", "Li"), d)
	}
	return g.expr(e, d)
}

// program generates a whole program.
func (g *qgen) program() *Q {
	n := tail(g.t, 5, 10, 20)
	p := &Q{K: "block"}
	if g.f.classes > 4 {
		for i, n := 0, weighted(g.t, 1, 6, 2); i < n; i++ {
			p.L = append(p.L, g.classDecl(g.f.depth)...)
		}
		for i, n := 0, weighted(g.t, 1, 2, 3, 4, 4, 4, 2, 2, 2); i < n; i++ {
			p.L = append(p.L, g.objStmt(g.f.depth)...)
		}
	}
	if g.f.conts > 4 {
		for i, n := 0, weighted(g.t, 2, 3, 3, 2); i < n; i++ {
			typ := pick(g.t, append(listTypes, mapTypes...))
			p.L = append(p.L, g.assignTo(g.fresh(), typ, g.expr(typ, 2))...)
		}
	}
	if g.f.assigns > 4 {
		for i, n := 0, weighted(g.t, 2, 3, 3, 2); i < n; i++ {
			typ := g.pick("i", "i", "s", "f", "y", "Li")
			p.L = append(p.L, g.assignTo(g.fresh(), typ, g.expr(typ, 1))...)
		}
	}
	p.L = append(p.L, g.stmts(g.f.depth, 1, 40, n)...)
	if g.pct(50) {
		p.L = append(p.L, g.expr("v", g.f.depth))
	}
	if len(p.L) == 0 {
		p.L = append(p.L, g.trace())
	}
	p.V = g.pct(10)
	return p
}
