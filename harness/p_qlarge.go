package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Large qlang programs: one construct blown up, against the same model as the other programs.

type qlarge struct {
	t  *rapid.T
	id int
}

func (g *qlarge) name(s string) string { g.id++; return fmt.Sprintf("%s%d", s, g.id) }
func (g *qlarge) pct(p int) bool       { return chance(g.t, p) }
func (g *qlarge) trace(e ...*Q) *Q {
	g.id++
	return qcall("hv_t", append([]*Q{qint(g.id)}, e...)...)
}

// some is a few numbers below n, the last ones among them.
func (g *qlarge) some(n int) []int {
	out := []int{n - 1}
	for i := intn(g.t, 4); i > 0; i-- {
		out = append(out, intn(g.t, n))
	}
	return out
}

func qinc(s string) *Q            { return &Q{K: "inc", S: s} }
func qfor(i, c, s *Q, b ...*Q) *Q { return &Q{K: "for", L: []*Q{i, c, s, qblock(b...)}} }
func qif(c *Q, b ...*Q) *Q        { return &Q{K: "if", L: []*Q{c, qblock(b...)}} }
func qopas(n, op string, e *Q) *Q { return &Q{K: "op=", S: n, P: []string{op}, L: []*Q{e}} }
func qlist(e ...*Q) *Q            { return &Q{K: "list", L: e} }
func qcount(i string, n int, b ...*Q) *Q {
	return qfor(qassign(i, qint(0)), qbin("<", qref(i), qint(n)), qinc(i), b...)
}

func (g *qlarge) vals(n int, f func(i int) *Q) (out []*Q) {
	if f == nil {
		switch intn(g.t, 4) {
		case 0:
			f = func(i int) *Q { return qint(i) }
		case 1:
			f = func(i int) *Q { return qstr(fmt.Sprintf("s%d", i)) }
		case 2:
			f = func(i int) *Q { return qlit(strconv.Itoa(i) + ".5") }
		default:
			f = func(i int) *Q { return []*Q{qint(i), qstr(fmt.Sprint(i)), qlit("1.5"), qref("true")}[i%4] }
		}
	}
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return
}

func qnumbered(p string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s_%d", p, i))
	}
	return
}

var qlargeKinds = map[string][]func(g *qlarge) []*Q{
	"Q01": {
		func(g *qlarge) []*Q { // a long chain of operators
			n := size(g.t, 8, 400)
			typ := intn(g.t, 3)
			leaf := func(i int) *Q {
				switch typ {
				case 0:
					return qint(i%7 + 1)
				case 1:
					return qlit([]string{"1.5", "2", "0.25", "3"}[i%4])
				}
				return qstr(string(rune('a' + i%26)))
			}
			ops := []string{"+"}
			if typ < 2 {
				ops = pick(g.t, [][]string{{"+", "-"}, {"+", "-", "*"}, {"-"}, {"+", "*", "-", "/", "+"}})
			}
			e := leaf(0)
			for i := 1; i < n; i++ {
				op := ops[i%len(ops)]
				k := leaf(i)
				if typ == 0 && op == "*" {
					k = qint(i%3 - 1)
				}
				e = qbin(op, e, k)
				if i%37 == 36 {
					e = e.paren()
				}
			}
			return []*Q{qassign(g.name("e"), e), g.trace(e)}
		},
		func(g *qlarge) []*Q { // deep to the right
			n := size(g.t, 8, 100)
			e := qint(1)
			for i := 0; i < n; i++ {
				switch i % 4 {
				case 0, 1:
					e = qbin("-", qint(i), e.paren())
				case 2:
					e = &Q{K: "un", S: "-", L: []*Q{e.paren()}}
				default:
					e = qbin("+", qint(2), qbin("*", qint(1), e.paren()))
				}
			}
			return []*Q{g.trace(e)}
		},
		func(g *qlarge) []*Q { // conditions
			n := size(g.t, 8, 200)
			op := pick(g.t, []string{"&&", "||"})
			at := n
			if g.pct(60) {
				at = intn(g.t, n)
			}
			var e *Q
			for i := 0; i < n; i++ {
				v := qref(strconv.FormatBool((op == "&&") != (i == at)))
				if i%9 == 8 || i == n-1 || i == at {
					v = g.trace(v)
				}
				if e == nil {
					e = v
				} else {
					e = qbin(op, e, v)
				}
			}
			return []*Q{g.trace(e)}
		},
		func(g *qlarge) []*Q { // long strings
			s := g.name("s")
			n := size(g.t, 16, 4000)
			unit := pick(g.t, []string{"a", "ab", "é", "x\\n", "中"})
			out := []*Q{qassign(s, qstr(strings.ReplaceAll(strings.Repeat(unit, n/len(unit)+1), "\\n", "\n")))}
			out = append(out, g.trace(qcall("len", qref(s))), g.trace(qbin("==", qref(s), qbin("+", qref(s), qlit(`""`)))),
				g.trace(qbin("<", qref(s), qbin("+", qref(s), qlit(`"a"`)))), g.trace(&Q{K: "sl", L: []*Q{qref(s), qint(n / 2), nil}}))
			for _, i := range g.some(n) {
				out = append(out, g.trace(qidx(qref(s), qint(i))))
			}
			return append(out, qopas(s, "+", qref(s)), g.trace(qcall("len", qref(s))))
		},
	},
	"Q02": {
		func(g *qlarge) []*Q { // many branches
			n := size(g.t, 4, 120)
			i, r := g.name("i"), g.name("r")
			sw := g.pct(50)
			val := g.pct(60)
			q := &Q{K: "if"}
			if sw {
				q = &Q{K: "switch", L: []*Q{nil}}
				if val {
					q.L[0] = qref(i)
				}
			}
			for k := 0; k < n; k++ {
				c := qbin("==", qref(i), qint(k))
				if sw && val {
					c = qint(k)
				}
				if k%16 == 15 {
					c = g.trace(c)
				}
				q.L = append(q.L, c, qblock(g.trace(qint(k)), qassign(r, qint(k))))
			}
			if g.pct(70) {
				q.V = true
				q.L = append(q.L, qblock(g.trace(), qassign(r, qint(-1))))
			}
			var out []*Q
			for _, k := range append(g.some(n), n) {
				if len(out) == 0 {
					f := g.name("f")
					out = append(out, qassign(f, qfn([]string{i}, qblock(qassign(r, qint(-2)), q, qreturn(qref(r))))))
				}
				out = append(out, g.trace(qcall(out[0].S, qint(k))))
			}
			return out
		},
		func(g *qlarge) []*Q { // many rounds
			n := size(g.t, 16, 2500)
			if g.pct(8) {
				n = between(g.t, 4000, 9000)
			}
			i, s := g.name("i"), g.name("s")
			b := []*Q{qopas(s, pick(g.t, []string{"+", "-"}), qref(i))}
			if g.pct(40) {
				b = append(b, qif(qbin("==", qbin("%", qref(i), qint(max(n/5, 2))), qint(1)), g.trace(qref(s))))
			}
			out := []*Q{qassign(s, qint(0))}
			if g.pct(50) {
				out = append(out, qcount(i, n, b...))
			} else {
				out = append(out, qassign(i, qint(0)), &Q{K: "for", L: []*Q{qbin("<", qref(i), qint(n)), qblock(append(b, qinc(i))...)}})
			}
			return append(out, g.trace(qref(s), qref(i)))
		},
		func(g *qlarge) []*Q { // blocks in blocks
			n := size(g.t, 4, 50)
			s := g.name("s")
			k := intn(g.t, 4)
			b := []*Q{g.trace(qref(s)), qopas(s, "*", qint(-1))}
			for d := n; d > 0; d-- {
				inc := qopas(s, "+", qint(d))
				switch (d + k) % 4 {
				case 0, 1:
					b = []*Q{inc, qif(qref("true"), b...), qopas(s, "-", qint(1))}
				case 2:
					b = []*Q{inc, {K: "switch", V: true, L: []*Q{qint(d), qint(d + 1), qblock(g.trace()), qblock(b...)}}}
				default:
					i := fmt.Sprintf("%s_i%d", s, d)
					b = []*Q{inc, qcount(i, 1, b...), qopas(s, "-", qref(i))}
				}
			}
			return append(append([]*Q{qassign(s, qint(0))}, b...), g.trace(qref(s)))
		},
		func(g *qlarge) []*Q { // out of the middle of many loops
			n := size(g.t, 3, 12)
			f := g.name("f")
			b := []*Q{qopas("c", "+", qint(1)), qif(qbin("==", qref("c"), qref("x")), qreturn(qlist(qref("c"), qref("i0"), qref(fmt.Sprintf("i%d", n-1)))))}
			for d := n - 1; d >= 0; d-- {
				b = []*Q{qcount(fmt.Sprintf("i%d", d), 1+(d+1)%2, b...)}
			}
			b = append([]*Q{qassign("c", qint(0))}, append(b, qreturn(qref("c")))...)
			return []*Q{qassign(f, qfn([]string{"x"}, qblock(b...))), g.trace(qcall(f, qint(between(g.t, 1, 20)))), g.trace(qcall(f, qint(-1)))}
		},
	},
	"Q03": {
		func(g *qlarge) []*Q { // many parameters
			n := size(g.t, 4, 80)
			ps := qnumbered("p", n)
			f := g.name("f")
			b := qblock()
			for _, i := range g.some(n) {
				b.L = append(b.L, g.trace(qref(ps[i])))
			}
			e := qlist()
			for _, p := range ps {
				e.L = append(e.L, qref(p))
			}
			b.L = append(b.L, qreturn(e))
			fn := qfn(ps, b)
			fn.V = g.pct(30)
			m := n
			if g.pct(5) {
				m += pick(g.t, []int{1, -1})
			}
			return []*Q{qassign(f, fn), g.trace(qcallv(qref(f), g.vals(m, nil)...))}
		},
		func(g *qlarge) []*Q { // many arguments
			n := size(g.t, 8, 700)
			f := g.name("f")
			fn := qfn([]string{"a", "xs"}, qblock(g.trace(qref("a"), qcall("len", qref("xs"))), qreturn(qref("xs"))))
			fn.V = true
			out := []*Q{qassign(f, fn)}
			c := qcallv(qref(f), append([]*Q{qint(-1)}, g.vals(n, nil)...)...)
			switch intn(g.t, 4) {
			case 0:
				c = qcallv(qref(f), g.vals(n, nil)...)
			case 1: // spread
				l := g.name("l")
				out = append(out, qassign(l, qlist(g.vals(n, nil)...)))
				c = qcallv(qref(f), qint(-1), qref(l))
				c.V = true
			case 2:
				l := g.name("l")
				out = append(out, qassign(l, qlist(g.vals(n, nil)...)))
				c = qcallv(qref(f), qref(l))
				c.V = true
			}
			r := g.name("r")
			out = append(out, qassign(r, c), g.trace(qcall("len", qref(r))))
			for _, i := range g.some(n - 1) {
				out = append(out, g.trace(qidx(qref(r), qint(i))))
			}
			return append(out, g.trace(qcall(pick(g.t, []string{"max", "min"}), g.vals(n, func(i int) *Q { return qint((i*7919 + 3) % 1009) })...)))
		},
		func(g *qlarge) []*Q { // deep recursion
			n := size(g.t, 8, 400)
			f := g.name("f")
			rec := qcall(f, qbin("-", qref("n"), qint(1)))
			var b *Q
			switch intn(g.t, 3) {
			case 0:
				b = qblock(qif(qbin("<=", qref("n"), qint(0)), qreturn(qint(0))), qreturn(qbin("+", qref("n"), rec)))
			case 1:
				b = qblock(qassign("x", qref("n")), qif(qbin(">", qref("n"), qint(0)), qassign("y", rec), qreturn(qbin("-", qref("x"), qref("y")))), qreturn(qref("x")))
			default:
				b = qblock(qif(qbin(">", qref("n"), qint(0)), qdefer(qif(qbin("==", qbin("%", qref("n"), qint(50)), qint(1)), g.trace(qref("n")))), qreturn(rec)), qreturn(qstr("end")))
				b.L[0].L[1].L[0] = qdefer(qcallv(qfn(nil, qblock(qif(qbin("==", qbin("%", qref("n"), qint(50)), qint(1)), g.trace(qref("n")))))))
			}
			return []*Q{qassign(f, qfn([]string{"n"}, b)), g.trace(qcall(f, qint(n)))}
		},
		func(g *qlarge) []*Q { // chains of calls
			n := size(g.t, 8, 100)
			f := g.name("f")
			add := qfn([]string{"x"}, qblock(qreturn(qbin("+", qref("x"), qint(1)))))
			out := []*Q{qassign(f, add)}
			e := qint(0)
			for i := 0; i < n; i++ {
				e = qcall(f, e)
			}
			out = append(out, g.trace(e))
			h := g.name("h")
			out = append(out, qassign(h, qfn([]string{"x"}, qblock(g.trace(qref("x")), qassign("s", qref(h)), qreturn(qref("s"))))))
			c := qref(h)
			for i := 0; i < n/2+1; i++ {
				c = qcallv(c, qint(i))
			}
			return append(out, qassign(g.name("z"), c))
		},
		func(g *qlarge) []*Q { // functions that make functions
			n := size(g.t, 3, 25)
			var names []string
			for i := 0; i < n; i++ {
				names = append(names, fmt.Sprintf("v%d", i))
			}
			sum := qlist()
			for _, v := range names {
				sum.L = append(sum.L, qref(v))
			}
			b := qblock(qreturn(sum))
			for i := n - 1; i >= 0; i-- {
				b = qblock(qreturn(qfn([]string{names[i]}, b)))
			}
			f := g.name("f")
			e := qcallv(qref(f))
			for i := 0; i < n; i++ {
				e = qcallv(e, qint(i*i))
			}
			return []*Q{qassign(f, qfn(nil, b)), g.trace(e)}
		},
	},
	"Q04": {
		func(g *qlarge) []*Q { // many deferred calls
			n := size(g.t, 4, 150)
			f := g.name("f")
			b := qblock()
			at := -1
			if g.pct(50) {
				at = intn(g.t, n)
			}
			if g.pct(40) {
				b.L = append(b.L, qassign("x", qint(5)))
			}
			for i := 0; i < n; i++ {
				e := g.trace()
				if i == at {
					e = qcallv(qfn(nil, qblock(qassign("e", &Q{K: "recover"}), g.trace(qbin("==", qref("e"), qref("nil"))))))
				}
				b.L = append(b.L, qdefer(e))
			}
			if g.pct(60) {
				b.L = append(b.L, qcall("panic", qstr("boom")))
			} else {
				b.L = append(b.L, qreturn(qint(n)))
			}
			return []*Q{qassign(f, qfn(nil, b)), g.trace(qcall(f))}
		},
		func(g *qlarge) []*Q { // deferred in a loop
			n := size(g.t, 4, 200)
			f, i := g.name("f"), "i"
			b := qblock(qassign("c", qint(0)), qcount(i, n, qdefer(qcallv(qfn(nil, qblock(qassign("d", qref("c")), qopas("c", "+", qint(1)), qif(qbin("==", qbin("%", qref("d"), qint(19)), qint(3)), g.trace(qref("d"), qref("i")))))))), qreturn(qref("c")))
			return []*Q{qassign(f, qfn(nil, b)), g.trace(qcall(f))}
		},
		func(g *qlarge) []*Q { // a panic through many functions
			n := size(g.t, 4, 100)
			f := g.name("f")
			b := qblock(qdefer(qcallv(qfn(nil, qblock(qif(qbin("==", qbin("%", qref("n"), qint(9)), qint(0)), g.trace(qref("n"))))))))
			at := intn(g.t, n+1)
			b.L = append(b.L, qif(qbin("==", qref("n"), qint(at)), qdefer(qcallv(qfn(nil, qblock(g.trace(qbin("==", &Q{K: "recover"}, qref("nil")))))))))
			b.L = append(b.L, qif(qbin("==", qref("n"), qint(0)), qcall("panic", qstr("boom"))), qassign("r", qcall(f, qbin("-", qref("n"), qint(1)))), g.trace(qref("n")), qreturn(qref("n")))
			out := []*Q{qassign(f, qfn([]string{"n"}, b)), g.trace(qcall(f, qint(n)))}
			if g.pct(30) {
				out[1] = g.trace(qcall(f, qint(max(at-1, 0))))
			}
			return out
		},
		func(g *qlarge) []*Q { // many panics, each recovered
			n := size(g.t, 4, 120)
			f, c := g.name("f"), g.name("c")
			b := qblock(qdefer(qcallv(qfn(nil, qblock(qassign("e", &Q{K: "recover"}), qif(qbin("!=", qref("e"), qref("nil")), qassign("k", qref(c)), qopas(c, "+", qint(1))))))),
				qif(qbin("!=", qbin("%", qref("n"), qint(3)), qint(0)), qcall("panic", qstr("boom"))), qreturn(qref("n")))
			i := g.name("i")
			return []*Q{qassign(c, qint(0)), qassign(f, qfn([]string{"n"}, b)), qcount(i, n, qcall(f, qref(i))), g.trace(qref(c))}
		},
	},
	"Q05": {
		func(g *qlarge) []*Q { // many methods and members
			n := size(g.t, 4, 60)
			c, o := g.name("C"), g.name("o")
			cl := &Q{K: "class"}
			set := qcall("set", qref("this"))
			for i := 0; i < n; i++ {
				set.L = append(set.L, qstr(fmt.Sprintf("f%d", i)), qbin("+", qref("x"), qint(i)))
			}
			init := qfn([]string{"x"}, qblock(set))
			init.S = "_init"
			var ms []*Q
			for i := 0; i < n; i++ {
				m := qfn([]string{"d"}, qblock(qcall("set", qref("this"), qstr(fmt.Sprintf("f%d", i)), qbin("+", qmem(qref("this"), fmt.Sprintf("f%d", i)), qref("d"))), qreturn(qbin("*", qmem(qref("this"), fmt.Sprintf("f%d", (i+1)%n)), qint(10)))))
				m.S = fmt.Sprintf("m%d", i)
				ms = append(ms, m)
			}
			at := intn(g.t, n+1)
			cl.L = append(append(append([]*Q{}, ms[:at]...), init), ms[at:]...)
			out := []*Q{qassign(c, cl), qassign(o, &Q{K: "new", S: c, V: true, L: []*Q{qint(7)}})}
			for _, i := range g.some(n) {
				out = append(out, g.trace(qcallv(qmem(qref(o), fmt.Sprintf("m%d", i)), qint(100))), g.trace(qmem(qref(o), fmt.Sprintf("f%d", i))))
			}
			return out
		},
		func(g *qlarge) []*Q { // many arguments
			n := size(g.t, 3, 60)
			c, o := g.name("C"), g.name("o")
			ps := qnumbered("p", n)
			l := qlist()
			for _, p := range ps {
				l.L = append(l.L, qref(p))
			}
			init := qfn(ps, qblock(qcall("set", qref("this"), qstr("all"), l)))
			init.S = "_init"
			m := qfn(ps, qblock(g.trace(qref(ps[n-1]), qref(ps[0])), qreturn(qlist(append([]*Q{qmem(qref("this"), "all")}, l.L...)...))))
			m.S = "meth"
			va := qfn([]string{"xs"}, qblock(qreturn(qcall("len", qref("xs")))))
			va.S, va.V = "va", true
			out := []*Q{qassign(c, &Q{K: "class", L: []*Q{init, m, va}}), qassign(o, &Q{K: "new", S: c, V: true, L: g.vals(n, nil)}),
				g.trace(qmem(qref(o), "all")), g.trace(qcallv(qmem(qref(o), "meth"), g.vals(n, nil)...)), g.trace(qcallv(qmem(qref(o), "va"), g.vals(size(g.t, 4, 300), nil)...))}
			return out
		},
		func(g *qlarge) []*Q { // many objects, many calls
			n := size(g.t, 4, 150)
			c, l, i := g.name("C"), g.name("l"), g.name("i")
			m := func(name string, ps []string, b ...*Q) *Q { q := qfn(ps, qblock(b...)); q.S = name; return q }
			cl := &Q{K: "class", L: []*Q{
				m("_init", []string{"x", "next"}, qcall("set", qref("this"), qstr("x"), qref("x"), qstr("next"), qref("next"))),
				m("inc", []string{"d"}, qcall("set", qref("this"), qstr("x"), qbin("+", qmem(qref("this"), "x"), qref("d"))), qreturn(qref("this"))),
				m("sum", nil, qif(qbin("==", qmem(qref("this"), "next"), qref("nil")), qreturn(qmem(qref("this"), "x"))), qreturn(qbin("+", qmem(qref("this"), "x"), qcallv(qmem(qmem(qref("this"), "next"), "sum"))))),
			}}
			out := []*Q{qassign(c, cl), qassign(l, qref("nil")), qcount(i, n, qassign(l, &Q{K: "new", S: c, V: true, L: []*Q{qref(i), qref(l)}}))}
			e := qref(l)
			for k := between(g.t, 1, 40); k > 0; k-- {
				e = qcallv(qmem(e, "inc"), qint(k))
			}
			out = append(out, g.trace(qmem(e, "x")))
			e = qref(l)
			for k := between(g.t, 1, min(n-1, 40)); k > 0; k-- {
				e = qmem(e, "next")
			}
			return append(out, g.trace(qmem(e, "x")), g.trace(qcallv(qmem(qref(l), "sum"))))
		},
	},
	"Q06": {
		func(g *qlarge) []*Q { // long slices
			n := size(g.t, 8, 900)
			l := g.name("l")
			e := qlist(g.vals(n, nil)...)
			if g.pct(30) {
				e = qcall("sliceFrom", e.L...)
			}
			out := []*Q{qassign(l, e), g.trace(qcall("len", qref(l)))}
			for _, i := range g.some(n) {
				out = append(out, g.trace(qidx(qref(l), qint(i))))
			}
			a := intn(g.t, n)
			out = append(out, g.trace(qcall("len", &Q{K: "sl", L: []*Q{qref(l), qint(a), nil}})), g.trace(qidx(&Q{K: "sl", L: []*Q{qref(l), qint(a), nil}}, qint(0))),
				qassign(g.name("k"), &Q{K: "sl", L: []*Q{qref(l), nil, qint(a + 1)}}), g.trace(qidx(qref(l), qint(n+intn(g.t, 2)-1))))
			return out
		},
		func(g *qlarge) []*Q { // append
			n := size(g.t, 4, 700)
			l := g.name("l")
			out := []*Q{qassign(l, qcall("slice", qstr("int"), qint(0)))}
			out = append(out, qassign(l, qcall("append", append([]*Q{qref(l)}, g.vals(n, func(i int) *Q { return qint(i * 3) })...)...)), g.trace(qcall("len", qref(l))))
			i := g.name("i")
			m := size(g.t, 4, 300)
			out = append(out, qcount(i, m, qassign(l, qcall("append", qref(l), qref(i)))), g.trace(qcall("len", qref(l))))
			for _, k := range g.some(n + m) {
				out = append(out, g.trace(qidx(qref(l), qint(k))))
			}
			return out
		},
		func(g *qlarge) []*Q { // maps
			n := size(g.t, 4, 250)
			m := g.name("m")
			key := func(i int) *Q { return qstr(fmt.Sprintf("k%d", i)) }
			if g.pct(40) {
				key = func(i int) *Q { return qint(i * 7) }
			}
			vals := g.vals(n, nil)
			e := &Q{K: "map"}
			f := qcall("mapFrom")
			for i, v := range vals {
				e.L = append(e.L, key(i), v)
				f.L = append(f.L, key(i), v)
			}
			out := []*Q{qassign(m, pick(g.t, []*Q{e, f})), g.trace(qcall("len", qref(m)))}
			for _, i := range g.some(n) {
				out = append(out, g.trace(qidx(qref(m), key(i))))
			}
			del := intn(g.t, n)
			return append(out, qcall("delete", qref(m), key(del)), g.trace(qcall("len", qref(m))), g.trace(qbin("==", qidx(qref(m), key(del)), qref("undefined"))))
		},
		func(g *qlarge) []*Q { // set with many pairs
			n := size(g.t, 4, 200)
			l := g.name("l")
			isMap := g.pct(40)
			e := qcall("slice", qstr("int"), qint(n))
			if isMap {
				e = qcall("mkmap", qstr("string:int"))
			}
			key := func(i int) *Q {
				if isMap {
					return qstr(fmt.Sprintf("k%d", i))
				}
				return qint(i)
			}
			set := qcall("set", qref(l))
			for i := 0; i < n; i++ {
				set.L = append(set.L, key((i*7)%n), qint(i))
			}
			out := []*Q{qassign(l, e), set}
			for _, i := range g.some(n) {
				out = append(out, g.trace(qidx(qref(l), key(i))))
			}
			return append(out, g.trace(qcall("len", qref(l))))
		},
		func(g *qlarge) []*Q { // containers in containers
			n := size(g.t, 3, 60)
			l := g.name("l")
			e := qlist(qint(42))
			at := qref(l)
			for i := 0; i < n; i++ {
				if i%3 == 2 {
					e = &Q{K: "map", L: []*Q{qstr("k"), e}}
				} else {
					e = qlist(e, qint(i))
				}
			}
			for i := n - 1; i >= 0; i-- {
				if i%3 == 2 {
					at = qidx(at, qstr("k"))
				} else {
					at = qidx(at, qint(0))
				}
			}
			return []*Q{qassign(l, e), g.trace(qidx(at, qint(0))), qcall("set", at, qint(0), qint(43)), g.trace(at)}
		},
	},
	"Q07": {
		func(g *qlarge) []*Q { // many at once
			n := size(g.t, 3, 120)
			ns := qnumbered(g.name("v"), n)
			out := []*Q{{K: "massign", P: ns, L: []*Q{qlist(g.vals(n, nil)...)}}}
			if g.pct(30) { // one value more or less
				out[0].L[0].L = out[0].L[0].L[1:]
			}
			for _, i := range g.some(n) {
				out = append(out, g.trace(qref(ns[i])))
			}
			rev := qlist()
			for i := range ns {
				rev.L = append(rev.L, qref(ns[n-1-i]))
			}
			return append(out, &Q{K: "massign", P: ns, L: []*Q{rev}}, g.trace(qref(ns[0]), qref(ns[n-1])))
		},
		func(g *qlarge) []*Q { // many variables
			n := size(g.t, 8, 400)
			ns := qnumbered(g.name("v"), n)
			var out []*Q
			for i, v := range ns {
				out = append(out, qassign(v, qint(i)))
				if i%10 == 9 {
					out = append(out, qopas(ns[i-intn(g.t, 9)], "+", qint(1000)))
				}
			}
			for _, i := range g.some(n) {
				out = append(out, g.trace(qref(ns[i])))
			}
			if g.pct(50) {
				return []*Q{g.trace(qcallv(qfn(nil, qblock(append(out, qreturn(qref(ns[n-1])))...))))}
			}
			return out
		},
		func(g *qlarge) []*Q { // scopes in scopes
			n := size(g.t, 2, 30)
			p := g.name("v")
			v := func(i int) string { return fmt.Sprintf("%s_%d", p, i) }
			b := []*Q{}
			for i := 0; i < n; i++ {
				b = append(b, g.trace(qref(v(i))))
			}
			at := intn(g.t, n)
			switch intn(g.t, 4) {
			case 0:
				b = append(b, qassign(v(at), qint(-1)))
			case 1:
				b = append(b, qopas(v(at), "-", qint(1)))
			case 2:
				b = append(b, qinc(v(at)))
			default:
				b = append(b, &Q{K: "massign", P: []string{v(at), v(0)}, L: []*Q{qlist(qint(-1), qint(-2))}})
			}
			for i := n - 1; i > 0; i-- {
				in := append([]*Q{qassign(v(i), qint(i*10))}, b...)
				if g.pct(20) {
					in = append(in, g.trace(qref(v(i))))
				}
				b = []*Q{qcallv(qfn(nil, qblock(in...)))}
			}
			return append(append([]*Q{qassign(v(0), qint(5))}, b...), g.trace(qref(v(0))))
		},
		func(g *qlarge) []*Q { // counters
			n := size(g.t, 4, 120)
			mk, l, i := g.name("mk"), g.name("l"), g.name("i")
			out := []*Q{
				qassign(mk, qfn([]string{"c"}, qblock(qreturn(qfn([]string{"d"}, qblock(qassign("k", qref("c")), qopas("c", "+", qref("d")), qreturn(qlist(qref("k"), qref("c"))))))))),
				qassign(l, qlist()), qassign(l, qcall("slice", qstr("var"), qint(0))),
				qcount(i, n, qassign(l, qcall("append", qref(l), qcall(mk, qref(i))))),
			}
			for _, k := range g.some(n) {
				out = append(out, g.trace(qcallv(qidx(qref(l), qint(k)), qint(1000))), g.trace(qcallv(qidx(qref(l), qint(0)), qint(1))))
			}
			return out
		},
	},
}

// genQLarge makes programs with some parts of the property's kinds, and others among small statements.
func genQLarge(id string) func(t *rapid.T) QCase {
	return func(t *rapid.T) QCase {
		c := QCase{Semis: chance(t, 50), Large: true}
		for n := 1 + weighted(t, 4, 1); n > 0; n-- {
			g := &qlarge{t: t, id: 100 * n}
			prog := qblock()
			for k := 1 + weighted(t, 4, 2, 1); k > 0; k-- {
				from := id
				if id == "Q08" || chance(t, 15) {
					from = pick(t, sortedKeys(qlargeKinds))
				}
				prog.L = append(prog.L, pick(t, qlargeKinds[from])(g)...)
			}
			if id == "Q08" || chance(t, 8) {
				bad := pick(t, []*Q{qbin("-", qint(1), qstr("x")), qref("undef_x"), qcall("panic", qstr("boom 7")), qidx(qlist(qint(1)), qint(5)), qcall("no_such", qint(1))})
				at := intn(t, len(prog.L)+1)
				prog.L = append(append(append([]*Q{}, prog.L[:at]...), g.trace(bad)), prog.L[at:]...)
			}
			b := copyQ(prog)
			c.Progs = append(c.Progs, QProg{Prog: b, Text: Text(qtext(t, b, c.Semis))})
		}
		return c
	}
}

// genQMany: many small programs on one instance, some of which fail.
func genQMany(t *rapid.T) QCase {
	c := QCase{Semis: chance(t, 50), Large: true}
	g := &qlarge{t: t}
	first := qblock(qassign("n", qint(0)), qassign("l", qlist()), qassign("bump", qfn([]string{"d"}, qblock(qassign("k", qref("n")), qopas("n", "+", qref("d")), qreturn(qref("n"))))))
	c.Progs = append(c.Progs, QProg{Prog: first, Text: Text(qtext(t, first, c.Semis))})
	for i, k := 0, size(t, 8, 120); i < k; i++ {
		p := pick(t, [][]*Q{
			{qopas("n", "+", qint(1)), qref("n")},
			{qassign("x", qcall("bump", qint(2))), g.trace(qref("x"))},
			{qassign("l", qlist(qref("n"), qref("l")))},
			{g.trace(qref("n")), qcall("panic", qstr("boom"))},
			{qassign("n", qbin("-", qref("n"), qint(3))), qidx(qref("l"), qint(9))},
			{qcallv(qfn(nil, qblock(qdefer(g.trace(qref("n"))), qbin("-", qcall("bump", qint(1)), qstr("s")))))},
			{qassign("z", qcallv(qfn(nil, qblock(qdefer(qcallv(qfn(nil, qblock(&Q{K: "recover"})))), qcall("panic", qstr("boom")))))), g.trace(qref("n"))},
			{qcount("i", 4, qopas("n", "+", qref("i"))), qreturn1(g)},
			{qassign("bump", qfn([]string{"d"}, qblock(qassign("k", qref("n")), qopas("n", "-", qref("d")), qreturn(qref("k")))))},
		})
		b := copyQ(qblock(p...))
		c.Progs = append(c.Progs, QProg{Prog: b, Text: Text(qtext(t, b, c.Semis))})
	}
	return c
}

// copyQ makes a tree of what may share nodes, which have their lines.
func copyQ(q *Q) *Q {
	if q == nil {
		return nil
	}
	c := *q
	c.L = nil
	for _, k := range q.L {
		c.L = append(c.L, copyQ(k))
	}
	return &c
}

func qreturn1(g *qlarge) *Q { return g.trace(qref("n")) }

func init() {
	kinds := map[string]func(m *qm) bool{
		"Q01": func(m *qm) bool { return m.steps >= 10 },
		"Q02": anyStat("third branch or later", "else", "case", "default", "loop of several rounds"),
		"Q03": func(m *qm) bool { return m.stats["call"] },
		"Q04": anyStat("deferred call"),
		"Q05": func(m *qm) bool { return m.stats["object"] && m.stats["method call"] },
		"Q06": anyStat("container changed", "slice of a slice"),
		"Q07": anyStat("outer variable read", "outer variable assigned", "multiple assignment", "compound assignment"),
		"Q08": anyStat("runtime error", "recovered"),
	}
	for _, id := range sortedKeys(kinds) {
		rule := kinds[id]
		reg(id, "large", "programs with one construct blown up (up to 2500 rounds, 700 arguments, 400 levels or variables, 120 branches); non-trivial: as for the other programs of this property", 900, 30000, genQLarge(id),
			func(c QCase, x *Ctx) error { return qcheck(c, x, rule) })
	}
	reg("Q08", "many", "up to 120 programs on one instance, some of which fail; non-trivial: one failed", 400, 12000, genQMany,
		func(c QCase, x *Ctx) error { return qcheck(c, x, kinds["Q08"]) })
}
