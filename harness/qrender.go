package main

import (
	"strings"

	"pgregory.net/rapid"

	"github.com/qiniu/text/tpl"
)

// ---------------------------------------------------------------- qlang programs as text

type qtok struct {
	s    string
	semi bool // separates statements
}

type qspan struct {
	q    *Q
	a, z int
}

type qrend struct {
	t     *rapid.T
	toks  []qtok
	spans []qspan
	comma bool // trailing commas
}

func qprec(q *Q) int {
	switch q.K {
	case "assign", "massign", "inc", "dec", "op=", "return", "defer":
		return 0
	case "bin":
		switch q.S {
		case "||":
			return 1
		case "&&":
			return 2
		case "+", "-":
			return 4
		case "*", "/", "%":
			return 5
		}
		return 3
	case "ref", "paren", "list", "fn", "call", "mem", "idx", "sl":
		return 7
	}
	return 6
}

func (r *qrend) p(ss ...string) {
	for _, s := range ss {
		r.toks = append(r.toks, qtok{s: s})
	}
}

func (r *qrend) semi() { r.toks = append(r.toks, qtok{";", true}) }

func (r *qrend) doc(b *Q) {
	if b == nil {
		return
	}
	for i, s := range b.L {
		if i > 0 {
			r.semi()
		}
		r.node(s, 0)
	}
	if b.V && len(b.L) > 0 {
		r.semi()
	}
}

func (r *qrend) body(b *Q) {
	r.p("{")
	r.doc(b)
	r.p("}")
}

func (r *qrend) list(qs []*Q, spread bool, trail bool) {
	for i, k := range qs {
		if i > 0 {
			r.p(",")
		}
		r.node(k, 1)
	}
	if spread {
		r.p("...")
	}
	if trail && len(qs) > 0 && r.comma && chance(r.t, 20) {
		r.p(",")
	}
}

func (r *qrend) params(q *Q) {
	r.p("(")
	for i, s := range q.P {
		if i > 0 {
			r.p(",")
		}
		r.p(s)
	}
	if q.V {
		r.p("...")
	}
	r.p(")")
}

// header renders what may not begin with a brace.
func (r *qrend) header(q *Q, level int) {
	nt, ns := len(r.toks), len(r.spans)
	r.node(q, level)
	if r.toks[nt].s == "{" {
		r.toks, r.spans = r.toks[:nt], r.spans[:ns]
		r.p("(")
		r.node(q, 1)
		r.p(")")
	}
}

func (r *qrend) node(q *Q, level int) {
	if qprec(q) < level {
		r.p("(")
		r.node(q, 1)
		r.p(")")
		return
	}
	start := len(r.toks)
	defer func() { r.spans = append(r.spans, qspan{q, start, len(r.toks) - 1}) }()
	switch q.K {
	case "lit", "ref":
		r.p(q.S)
	case "paren":
		r.p("(")
		r.node(q.L[0], 1)
		r.p(")")
	case "bin":
		l := qprec(q)
		r.node(q.L[0], l)
		r.p(q.S)
		r.node(q.L[1], l+1)
	case "un":
		r.p(q.S)
		r.node(q.L[0], 6)
	case "call":
		r.node(q.L[0], 7)
		r.p("(")
		r.list(q.L[1:], q.V, true)
		r.p(")")
	case "mem":
		r.node(q.L[0], 7)
		r.p(".", q.S)
	case "idx":
		r.node(q.L[0], 7)
		r.p("[")
		r.node(q.L[1], 1)
		r.p("]")
	case "sl":
		r.node(q.L[0], 7)
		r.p("[")
		if q.L[1] != nil {
			r.node(q.L[1], 1)
		}
		r.p(":")
		if q.L[2] != nil {
			r.node(q.L[2], 1)
		}
		r.p("]")
	case "list":
		r.p("[")
		r.list(q.L, false, true)
		r.p("]")
	case "map":
		r.p("{")
		for i := 0; i < len(q.L); i += 2 {
			if i > 0 {
				r.p(",")
			}
			r.node(q.L[i], 1)
			r.p(":")
			r.node(q.L[i+1], 1)
		}
		if len(q.L) > 0 && r.comma && chance(r.t, 20) {
			r.p(",")
		}
		r.p("}")
	case "fn":
		r.p("fn")
		r.params(q)
		r.body(q.L[0])
	case "if":
		n := len(q.L)
		if q.V {
			n--
		}
		for i := 0; i < n; i += 2 {
			r.p([]string{"if", "elif"}[min(i, 1)])
			r.node(q.L[i], 1)
			r.body(q.L[i+1])
		}
		if q.V {
			r.p("else")
			r.body(q.L[n])
		}
	case "switch":
		r.p("switch")
		if q.L[0] != nil {
			r.header(q.L[0], 1)
		}
		r.p("{")
		n := len(q.L)
		if q.V {
			n--
		}
		for i := 1; i < n; i += 2 {
			r.p("case")
			r.node(q.L[i], 1)
			r.p(":")
			r.doc(q.L[i+1])
		}
		if q.V {
			r.p("default", ":")
			r.doc(q.L[n])
		}
		r.p("}")
	case "for":
		r.p("for")
		n := len(q.L) - 1
		for i := 0; i < n; i++ {
			if i > 0 {
				r.semi()
			}
			r.header(q.L[i], 0)
		}
		r.body(q.L[n])
	case "new":
		r.p("new")
		if chance(r.t, 15) {
			r.p("(", q.S, ")")
		} else {
			r.p(q.S)
		}
		if q.V {
			r.p("(")
			r.list(q.L, false, false)
			r.p(")")
		}
	case "class":
		r.p("class", "{")
		for _, k := range q.L {
			r.p("fn", k.S)
			r.params(k)
			r.body(k.L[0])
			if chance(r.t, 85) {
				r.semi()
			}
		}
		r.p("}")
	case "recover":
		r.p("recover", "(", ")")
	case "main":
		r.p("main")
		r.body(q.L[0])
	case "assign":
		r.p(q.S, "=")
		r.node(q.L[0], 1)
	case "massign":
		for i, s := range q.P {
			if i > 0 {
				r.p(",")
			}
			r.p(s)
		}
		r.p("=")
		r.node(q.L[0], 1)
	case "inc":
		r.p(q.S, "++")
	case "dec":
		r.p(q.S, "--")
	case "op=":
		r.p(q.S, q.P[0]+"=")
		r.node(q.L[0], 1)
	case "return":
		r.p("return")
		if len(q.L) > 0 {
			r.node(q.L[0], 1)
		}
	case "defer":
		r.p("defer")
		r.node(q.L[0], 1)
	case "junk":
		r.p(q.P...)
	default:
		panic("harness: node " + q.K)
	}
}

var denseCache = map[[2]string]bool{}

// dense: may the two lexemes stand side by side?
func dense(a, b string) bool {
	k := [2]string{a, b}
	if v, ok := denseCache[k]; ok {
		return v
	}
	r := refLex(a+b, false)
	ok := len(r.Errs) == 0 && len(r.Toks) == 2 && r.Toks[0].Lit == a && r.Toks[1].Lit == b
	if !ok && len(r.Errs) == 0 && len(r.Toks) == 2 { // operators have no text
		ok = r.Toks[0].End == len(a)
	}
	if len(denseCache) < 20000 {
		denseCache[k] = ok
	}
	return ok
}

func lastKind(s string) uint {
	r := refLex(s, false)
	if len(r.Toks) == 0 {
		return 0
	}
	return r.Toks[len(r.Toks)-1].Kind
}

// qstyle is a way to lay out programs: percentages.
type qstyle struct{ dense, newline, comment int }

var qstyles = []qstyle{{20, 0, 0}, {20, 80, 0}, {90, 5, 0}, {30, 30, 20}, {0, 60, 5}}

// qtext renders a program and sets the lines of its nodes. In semis mode newlines separate statements too,
// and the program ends with a separator.
func qtext(t *rapid.T, prog *Q, semis bool) string {
	if semis {
		prog.V = true
	}
	r := &qrend{t: t, comma: chance(t, 30)}
	r.doc(prog)
	st := qstyles[weighted(t, 5, 5, 1, 2, 1)]
	var b strings.Builder
	starts := make([]int, len(r.toks)) // line of the token
	line := 1
	write := func(s string) {
		b.WriteString(s)
		line += strings.Count(s, "\n")
	}
	prev := ""
	prevTrig := false
	if st.comment > 0 && chance(t, 10) {
		write(pick(t, []string{"// head\n", "# head\n", "\n\n", "/* a\nb */"}))
	}
	for i, k := range r.toks {
		if k.semi && semis && prevTrig {
			if i == len(r.toks)-1 && chance(t, 50) {
				starts[i] = line
				prev, prevTrig = "\n", false
				break // inserted at the end
			}
			if chance(t, max(st.newline, 20)) {
				starts[i] = line
				if chance(t, st.comment) {
					write(pick(t, []string{" // c", "# c", " /* c */", " /* c\n*/"}))
				}
				write(pick(t, []string{"\n", "\n", "\n\n", "\r\n", "\n\t"}))
				prev, prevTrig = "\n", false
				continue
			}
		}
		nl := !(semis && prevTrig)
		afterSemi := i > 0 && r.toks[i-1].semi || prev == "{"
		sep := ""
		switch {
		case prev == "" || prev == "\n":
		case !k.semi && nl && afterSemi && chance(t, st.newline), !k.semi && nl && chance(t, st.newline/10):
			if chance(t, st.comment) {
				sep = pick(t, []string{" // c", "# c"})
			}
			sep += pick(t, []string{"\n", "\n  ", "\n\n", "\r\n"})
		case chance(t, st.comment/2):
			sep = pick(t, []string{" /* c */ ", " /**/"})
		case chance(t, st.dense) || k.s == ";" || k.s == "," || k.s == ")" || k.s == "(":
		default:
			sep = " "
		}
		if sep == "" && prev != "" && prev != "\n" && !dense(prev, k.s) {
			sep = " "
		}
		write(sep)
		starts[i] = line
		write(k.s)
		prev = k.s
		prevTrig = semis && semiAfter(lastKind(k.s))
	}
	text := b.String()
	// end lines: literals may contain newlines
	for _, s := range r.spans {
		s.q.A = starts[s.a]
		s.q.Z = starts[s.z] + strings.Count(r.toks[s.z].s, "\n")
	}
	lx := refLex(text, semis)
	if len(lx.Errs) > 0 {
		panic("harness: program with lexical errors: " + text)
	}
	toks := withoutComments(lx.Toks)
	if len(toks) != len(r.toks) {
		panic("harness: layout changed the tokens: " + text)
	}
	for i, k := range toks {
		want := r.toks[i]
		if want.semi && k.Kind == tpl.SEMICOLON {
			continue
		}
		if text[k.Start:k.End] != want.s {
			panic("harness: layout changed the tokens: " + text)
		}
	}
	return text
}
