package main

import (
	"fmt"
	"strings"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// Large inputs: the same properties and oracles as elsewhere, with one dimension of the input blown up. A
// bug with a threshold (a buffer, a counter, a table that is full) shows here only.

// size is a number between lo and hi; its order of magnitude is what is drawn.
func size(t *rapid.T, lo, hi int) int {
	var steps []int
	for n := lo; n < hi; n *= 2 {
		steps = append(steps, n)
	}
	steps = append(steps, hi)
	i := intn(t, len(steps)-1)
	if chance(t, 50) {
		i = weighted(t, make1(len(steps)-1)...)
	}
	return between(t, steps[i], steps[i+1])
}

func make1(n int) []int {
	ws := make([]int, n)
	for i := range ws {
		ws[i] = 1
	}
	return ws
}

// ---------------------------------------------------------------- texts

// stretched is a lexeme of about n bytes.
func stretched(t *rapid.T, n int) Lexeme {
	rep := func(unit string) string { return strings.Repeat(unit, n/len(unit)+1) }
	switch intn(t, 8) {
	case 0:
		return Lexeme{kIDENT, pick(t, []string{"a", "é", "_"}) + rep(pick(t, []string{"b", "中", "9", "_", "aB1"}))}
	case 1:
		return Lexeme{kINT, pick(t, []string{"1", "9"}) + rep(pick(t, []string{"0", "123", "9"}))}
	case 2:
		return Lexeme{kINT, "0x" + rep(pick(t, []string{"f", "0", "1aB"}))}
	case 3:
		return Lexeme{kFLOAT, pick(t, []string{"0", "1" + rep("7")}) + "." + rep(pick(t, []string{"0", "35"})) + pick(t, []string{"", "e5", "E-" + rep("1")})}
	case 4:
		return Lexeme{kIMAG, "1" + rep("0") + pick(t, []string{"", ".5"}) + "i"}
	case 5, 6:
		unit := strings.Join(many(t, 1, 6, 2, func(t *rapid.T) string {
			if chance(t, 35) {
				return genEscape(t, `"`)
			}
			return pick(t, append([]string{"'", "//", "/*", "*/", "\\\\"}, plainChars...))
		}), "")
		return Lexeme{kSTRING, `"` + rep(unit) + `"`}
	default:
		unit := strings.Join(many(t, 1, 5, 2, func(t *rapid.T) string {
			return pick(t, []string{"a", "\n", "\\", `"`, "\r", "\r\n", "中", "//", "/*", "#", " "})
		}), "")
		return Lexeme{kSTRING, "`" + rep(unit) + "`"}
	}
}

// stretchedTrivia is white space or comments of about n bytes; inline: without a newline.
func stretchedTrivia(t *rapid.T, n int, inline bool) string {
	rep := func(unit string) string { return strings.Repeat(unit, n/len(unit)+1) }
	body := func() string {
		unit := strings.ReplaceAll(strings.Join(many(t, 1, 4, 1, func(t *rapid.T) string { return pick(t, commentBits) }), ""), "*/", "* ")
		return strings.ReplaceAll(rep(unit), "*/", "* ")
	}
	k := 7
	if inline {
		k = 3
	}
	switch intn(t, k) {
	case 0:
		return rep(pick(t, []string{" ", "\t", "\r", " \t"}))
	case 1:
		return " /*" + body() + " */"
	case 2: // many comments in a row
		return " " + rep(pick(t, []string{"/* c */", "/**/", "/* c */ ", "/***/\t"}))
	case 3:
		return rep(pick(t, []string{"\n", "\r\n", " \n"}))
	case 4:
		return " " + pick(t, []string{"//", "#"}) + body() + "\n"
	case 5:
		return rep(pick(t, []string{"// c\n", "# c\n", "/* c\n*/ ", "\n# x\r\n", "/*c*/\n"}))
	default:
		return " /*" + body() + "\n" + rep("* x\n") + "*/"
	}
}

// genLargePieces: some pieces, repeated; or a stretched lexeme or separator among them.
func genLargePieces(t *rapid.T, dense bool) []Piece {
	few := func(max int) []Piece {
		return many(t, 1, max, 4, func(t *rapid.T) Piece {
			p := Piece{L: genLexeme(t)}
			if !dense || chance(t, 30) {
				p.Sep = genTrivia(t)
				if p.L.Text == "/" && p.Sep[0] == '/' {
					p.Sep = " " + p.Sep
				}
			}
			return p
		})
	}
	var ps []Piece
	switch weighted(t, 4, 3, 3) {
	case 0:
		unit := few(12)
		bytes := len(piecesText(unit))
		n := size(t, 8, 12000) / len(unit)
		for i := 0; i <= n && i*bytes < 200000; i++ {
			ps = append(ps, unit...)
		}
	case 1:
		ps = append(few(6), Piece{L: stretched(t, size(t, 100, 80000)), Sep: pick(t, []string{" ", "\n", " // x\n", "\r\n"})})
	default:
		ps = few(6)
		i := intn(t, len(ps))
		ps[i].Sep = stretchedTrivia(t, size(t, 10, 40000), false)
		if ps[i].L.Text == "/" {
			ps[i].Sep = " " + ps[i].Sep
		}
	}
	return append(ps, few(8)...)
}

func genLargeLex(t *rapid.T) LexCase {
	dense := chance(t, 25)
	ps := genLargePieces(t, dense)
	c := LexCase{Src: Text(piecesText(ps))}
	if !dense {
		c.Want = []Lexeme{}
		for _, p := range ps {
			c.Want = append(c.Want, p.L)
		}
	}
	return c
}

func genLargeBytes(t *rapid.T) LexCase {
	s := piecesText(genLargePieces(t, chance(t, 50)))
	if chance(t, 30) {
		s = s[:intn(t, len(s)+1)]
	}
	for _, ins := range many(t, 0, 4, 1, func(t *rapid.T) [2]int { return [2]int{intn(t, 1<<20), intn(t, len(adversarial))} }) {
		at := len(s) * (ins[0] >> 4) / (1 << 16)
		s = s[:at] + adversarial[ins[1]] + s[at:]
	}
	return LexCase{Src: Text(s)}
}

func genLargePos(t *rapid.T) PosCase {
	ps := genLargePieces(t, chance(t, 25))
	for i, n := 0, intn(t, 3); i < n; i++ {
		ps[len(ps)*intn(t, 1000)/1000].Sep = "\n//line " + pick(t, []string{"foo.go", "a/b.tpl", "/abs/x.ql"}) + ":" + pick(t, []string{"1", "7", "99999"}) + "\n"
	}
	c := PosCase{Src: Text(piecesText(ps)), Fname: pick(t, []string{"", "f.txt", "dir/f.txt"}), Mode: uint(intn(t, 4))}
	n := len(ps) + 1
	c.Ranges = many(t, 2, 12, 5, func(t *rapid.T) [2]int {
		i := n * intn(t, 1<<16) >> 16
		return [2]int{i, pick(t, []int{i + 1, n * intn(t, 1<<16) >> 16})}
	})
	return c
}

func genLargeSemis(t *rapid.T) SemiCase {
	var c SemiCase
	toks := func(max int) []Piece {
		return many(t, 1, max, 1, func(t *rapid.T) Piece { return Piece{L: genLexeme(t), Sep: " "} })
	}
	n := intn(t, 3)
	for i := 0; i <= n; i++ {
		l := SemiLine{Toks: toks(4)}
		if chance(t, 50) { // comments between tokens
			l.Toks[intn(t, len(l.Toks))].Sep = stretchedTrivia(t, size(t, 8, 8000), true) + " "
		}
		if chance(t, 60) {
			l.End = stretchedTrivia(t, size(t, 8, 8000), true)
		}
		switch weighted(t, 4, 2, 2) {
		case 0:
			l.End += " " + pick(t, []string{"\n", "\r\n", "// c\n", "# c\n"})
		case 1:
			l.End += " /*" + strings.Repeat("* \n", size(t, 1, 2000)) + "*/"
		default:
			l.End += " // " + strings.Repeat("c", size(t, 8, 8000)) + "\n"
		}
		c.Lines = append(c.Lines, l)
	}
	if chance(t, 40) {
		unit := c.Lines
		for i, n := 0, size(t, 2, 1000); i < n && len(c.Lines) < 3000 && len(c.text()) < 60000; i++ {
			c.Lines = append(c.Lines, unit...)
		}
	}
	c.Lines = append(c.Lines, SemiLine{Toks: toks(3), End: pick(t, []string{"\n", " // c", " /* c */"})})
	return c
}

// ---------------------------------------------------------------- grammars

// genLargeGram is a grammar with one dimension blown up around a small one, and what makes inputs of it.
func genLargeGram(t *rapid.T, o gramOpts) (*Gram, func(t *rapid.T) []string) {
	o.maxRules = 2
	o.names = []string{"item", "a"}
	gram := genGram(t, o)
	base := append([]Rule{}, gram.Rules...)
	tok := func(c string) *G { return &G{Op: "tok", T: c} }
	and := func(k ...*G) *G { return &G{Op: "and", Kids: k} }
	or := func(k ...*G) *G { return &G{Op: "or", Kids: k} }
	ref := func(n string) *G { return &G{Op: "ref", Name: n} }
	mark := func(g *G, pct int) *G {
		if o.marks > 0 && chance(t, pct) {
			g = &G{Op: "mark", Kids: []*G{g}}
		}
		if o.trans > 0 && chance(t, pct/3) {
			g = &G{Op: "trans", Kids: []*G{g}}
		}
		return g
	}
	kw := func(i int) string { return fmt.Sprintf("kw:k%d", i) }
	sub := &Gram{Rules: base}
	var units [][]string
	unit := func(t *rapid.T) []string { // a short input of the small grammar
		if len(units) < 4 {
			s := &sentGen{t: t, gram: sub, max: 8}
			s.emit(sub.Rules[0].G, 0)
			units = append(units, s.out)
			return s.out
		}
		return pick(t, units)
	}
	var doc *G
	var words func(t *rapid.T) []string
	switch weighted(t, 5, 4, 3, 3, 2, 2) {
	case 0: // many times the same
		sep := pick(t, []string{",", ";", "+"})
		item := mark(ref("item"), 40)
		if chance(t, 30) {
			item = mark(and(tok("IDENT"), item), 40)
			base := unit
			unit = func(t *rapid.T) []string { return append([]string{"u"}, base(t)...) }
		}
		op := pick(t, []string{"rep0", "rep1", "list", "list0"})
		doc = &G{Op: op, Kids: []*G{item}}
		if strings.HasPrefix(op, "list") {
			doc.Kids = append(doc.Kids, tok(sep))
		}
		doc = mark(doc, 70)
		if chance(t, 30) {
			doc = and(doc, tok("."))
		}
		words = func(t *rapid.T) (out []string) {
			n := size(t, 8, 3000)
			k := between(t, 1, 3)
			us := make([][]string, k)
			for i := range us {
				us[i] = unit(t)
			}
			for i := 0; i < n && len(out) < 4000; i++ {
				if i > 0 && op[0] == 'l' {
					out = append(out, sep)
				}
				out = append(out, us[i%k]...)
			}
			return append(out, ".")
		}
	case 1: // many alternatives
		n := size(t, 8, 300)
		x := or()
		prefix := chance(t, 30)
		for i := 0; i < n; i++ {
			k := tok(kw(i))
			if prefix {
				k = and(tok("IDENT"), k)
			}
			if i%7 == 3 {
				k = and(k, ref("item"))
			}
			if i%5 == 4 || i == n-1 {
				k = mark(k, 60)
			}
			x.Kids = append(x.Kids, k)
		}
		if chance(t, 30) {
			x.Kids = append(x.Kids, ref("item"))
		}
		doc = mark(x, 30)
		if chance(t, 70) {
			doc = mark(&G{Op: pick(t, []string{"rep0", "rep1"}), Kids: []*G{doc}}, 30)
		}
		words = func(t *rapid.T) (out []string) {
			for _, w := range many(t, 1, 30, 5, func(t *rapid.T) []string {
				i := intn(t, n)
				if chance(t, 30) {
					i = n - 1 - intn(t, n)
				}
				var w []string
				if prefix {
					w = append(w, "u")
				}
				w = append(w, kw(i)[3:])
				if i%7 == 3 {
					w = append(w, unit(t)...)
				}
				return w
			}) {
				out = append(out, w...)
			}
			return
		}
	case 2: // a long sequence
		n := size(t, 8, 300)
		doc = and()
		var emit []func(t *rapid.T) []string
		for i := 0; i < n; i++ {
			switch intn(t, 5) {
			case 0:
				doc.Kids = append(doc.Kids, &G{Op: "rep01", Kids: []*G{mark(tok(kw(i)), 20)}})
				w := []string{kw(i)[3:]}
				emit = append(emit, func(t *rapid.T) []string {
					if chance(t, 50) {
						return w
					}
					return nil
				})
			case 1:
				doc.Kids = append(doc.Kids, mark(ref("item"), 10))
				emit = append(emit, unit)
			default:
				c := pick(t, vocabClasses)
				doc.Kids = append(doc.Kids, mark(tok(c), 10))
				emit = append(emit, func(t *rapid.T) []string { return []string{classText(t, c)} })
			}
			if o.cuts > 0 && chance(t, 3) {
				doc.Kids = append(doc.Kids, nil)
			}
		}
		if chance(t, 30) {
			doc = or(doc, and(tok("IDENT"), tok("IDENT")))
		}
		words = func(t *rapid.T) (out []string) {
			for _, e := range emit {
				out = append(out, e(t)...)
			}
			return
		}
	case 3: // deep recursion
		right := chance(t, 40)
		if right {
			doc = mark(or(mark(and(tok("{"), ref("doc")), 40), ref("item")), 30)
		} else {
			in := and(tok("{"), &G{Op: "rep0", Kids: []*G{ref("item")}}, ref("doc"), tok("}"))
			if o.cuts > 0 && chance(t, 30) {
				in.Kids = []*G{in.Kids[0], nil, in.Kids[1], in.Kids[2], in.Kids[3]}
			}
			doc = mark(or(mark(in, 40), and(tok("["), tok("]"))), 30)
		}
		words = func(t *rapid.T) (out []string) {
			n := size(t, 8, 450)
			for i := 0; i < n; i++ {
				out = append(out, "{")
				if !right && chance(t, 5) {
					out = append(out, unit(t)...)
				}
			}
			if right {
				return append(out, unit(t)...)
			}
			out = append(out, "[", "]")
			for i := 0; i < n; i++ {
				out = append(out, "}")
			}
			return
		}
	case 4: // a tower of rules in rules
		doc = ref("item")
		for i, n := 0, size(t, 8, 80); i < n; i++ {
			switch intn(t, 6) {
			case 0:
				doc = mark(doc, 100)
			case 1:
				doc = or(doc, tok(kw(i)))
			case 2:
				doc = and(doc, &G{Op: "rep01", Kids: []*G{tok("@")}})
			case 3:
				doc = &G{Op: "rep01", Kids: []*G{doc}}
			case 4:
				doc = &G{Op: pick(t, []string{"rep0", "rep1"}), Kids: []*G{and(tok("~"), doc)}}
			default:
				doc = or(and(tok("!"), doc), tok("?"))
			}
		}
		top := &Gram{Rules: append([]Rule{{"doc", doc}}, base...)}
		words = func(t *rapid.T) []string {
			s := &sentGen{t: t, gram: top, max: 60}
			s.emit(doc, -400)
			return s.out
		}
	default: // a chain of rules
		n := size(t, 8, 120)
		doc = ref("r0")
		for i := 0; i < n; i++ {
			next := ref(fmt.Sprintf("r%d", i+1))
			if i == n-1 {
				next = ref("item")
			}
			g := next
			switch intn(t, 4) {
			case 0:
				g = and(tok("+"), next)
			case 1:
				g = or(and(tok("-"), ref("doc")), next)
			case 2:
				g = and(next, &G{Op: "rep01", Kids: []*G{tok("@")}})
			}
			base = append(base, Rule{fmt.Sprintf("r%d", i), mark(g, 20)})
		}
		top := &Gram{Rules: append([]Rule{{"doc", doc}}, base...)}
		words = func(t *rapid.T) []string {
			s := &sentGen{t: t, gram: top, max: 60}
			s.emit(doc, -1000)
			return s.out
		}
	}
	gram = &Gram{Rules: append([]Rule{{"doc", doc}}, base...)}
	gram.number()
	return gram, words
}

func genLargeInputs(t *rapid.T, gram *Gram, words func(*rapid.T) []string) []Text {
	vocab := append(gram.vocab(), "IDENT")
	return many(t, 1, 4, 2, func(t *rapid.T) Text {
		out := words(t)
		if chance(t, 40) {
			for _, m := range many(t, 1, 3, 1, func(t *rapid.T) [2]int { return [2]int{intn(t, 4), intn(t, 1<<16)} }) {
				at := (len(out) + 1) * m[1] >> 16
				w := func() string { return classText(t, pick(t, vocab)) }
				switch {
				case m[0] == 0:
					out = out[:at]
				case m[0] == 1 && at < len(out):
					out = append(append([]string{}, out[:at]...), out[at+1:]...)
				case m[0] == 2 && at < len(out):
					out = append([]string{}, out...)
					out[at] = w()
				default:
					out = append(append(append([]string{}, out[:at]...), w()), out[at:]...)
				}
			}
		}
		return layoutLarge(t, out)
	})
}

// layoutLarge joins words with few draws.
func layoutLarge(t *rapid.T, words []string) Text {
	seps := pick(t, [][]string{{" "}, {"\n"}, {" ", "\n"}, {" ", " ", " /* c */ ", "\n", "\t", " // c\n", " ", "\n\n"}})
	var b strings.Builder
	for i, w := range words {
		if i > 0 {
			b.WriteString(seps[(i*i+i/3)%len(seps)])
		}
		b.WriteString(w)
	}
	return Text(b.String())
}

func genLargeMatch(o gramOpts) func(t *rapid.T) MatchCase {
	return func(t *rapid.T) MatchCase {
		gram, words := genLargeGram(t, o)
		c := MatchCase{Gram: gram, Named: uint(intn(t, 256))}
		if chance(t, 10) {
			c.Mode = uint(1 + intn(t, 2))
		}
		c.Srcs = genLargeInputs(t, gram, words)
		return c
	}
}

func genLargeText(o gramOpts) func(t *rapid.T) TextCase {
	o.normal = true
	return func(t *rapid.T) TextCase {
		gram, words := genLargeGram(t, o)
		nameMarks(t, gram, false)
		if chance(t, 40) {
			gram.Rules = append(append([]Rule{}, gram.Rules[1:]...), gram.Rules[0])
			gram.number()
			nameMarks(t, gram, false)
		}
		c := TextCase{Gram: gram, Srcs: genLargeInputs(t, gram, words)}
		c.Text = gram.genText(t)
		if chance(t, 10) {
			c.Mode = uint(tpl.InsertSemis)
		}
		return c
	}
}

// genLargeKw: up to some hundred keywords.
func genLargeKw(t *rapid.T) KeywordCase {
	var c KeywordCase
	n := size(t, 64, 600)
	var rules [][]string
	doc := []string{"doc", "=", "*", "(", "IDENT"}
	form := pick(t, []string{"k%d", "x%dé", "_%d", "if%d"})
	for i := 0; i < n; i++ {
		k := fmt.Sprintf(form, i)
		c.Kws = append(c.Kws, k)
		rules = append(rules, []string{fmt.Sprintf("k%d", i), "=", `"` + k + `"`})
		doc = append(doc, "|", fmt.Sprintf("k%d", i))
	}
	doc = append(doc, "|", `"+="`, "|", "STRING", ")")
	at := intn(t, n+1)
	rules = append(append(append([][]string{}, rules[:at]...), doc, []string{"word", "=", "IDENT"}), rules[at:]...)
	c.Gram = rulesText(t, rules)
	c.Words = many(t, 4, 40, 12, func(t *rapid.T) string {
		if i := intn(t, n); chance(t, 50) {
			return c.Kws[n-1-i]
		} else if chance(t, 50) {
			return nearMiss(t, c.Kws[i])
		} else {
			return c.Kws[i]
		}
	})
	return c
}

// genLargeExtract: documents with many items, many tags and deep nodes.
func genLargeExtract(t *rapid.T) ExCase {
	g := &exGen{cates: map[string]int{}}
	tok := func(c string) *G { return &G{Op: "tok", T: c} }
	n := between(t, 1, 4)
	if chance(t, 40) {
		n = size(t, 8, 80)
	}
	odd := chance(t, 20)
	var alts []*G
	var units [][]string
	leaf := func(i int) *G {
		c := pick(t, []string{"INT", "STRING", "IDENT", "CHAR", "FLOAT"})
		typ := pick(t, map[string][]string{"INT": {"Int", "Float", "Text"}, "FLOAT": {"Float", "Text"}, "STRING": {"String", "Text"}, "CHAR": {"Char", "Text"}, "IDENT": {"Text"}}[c])
		if odd && chance(t, 4) {
			typ = leafType(t, c)
		}
		name := fmt.Sprintf("u%d_%s", i, typ)
		switch weighted(t, 3, 2, 1) {
		case 0:
			name = fmt.Sprintf("t%d_%ss", i, typ)
		case 1:
			name = g.name(t, typ, true)
		}
		ints := []string{"1", "42", "017"}
		if typ == "Text" || odd {
			ints = append(ints, "0x1F") // no number for the extractor
		}
		units[i] = append(units[i], pick(t, map[string][]string{"INT": ints, "FLOAT": {"1.5", "2e3"}, "STRING": {`"s"`, "`r`"}, "CHAR": {"'c'", `'\n'`}, "IDENT": {"u", "中"}}[c]))
		return &G{Op: "mark", Name: name, Kids: []*G{tok(c)}}
	}
	for i := 0; i < n; i++ {
		kw := fmt.Sprintf("k%d", i)
		units = append(units, []string{kw})
		x := &G{Op: "and", Kids: []*G{tok("kw:" + kw), leaf(i)}}
		if chance(t, 40) {
			if chance(t, 50) {
				x.Kids = append(x.Kids, leaf(i))
			}
			x = &G{Op: "mark", Name: fmt.Sprintf("n%d_Nodes", i%between(t, 1, 90)), Kids: []*G{x}}
		}
		alts = append(alts, x)
	}
	nest := &G{Op: "mark", Name: "nest_Node", Kids: []*G{{Op: "and", Kids: []*G{tok("("), {Op: "rep0", Kids: []*G{{Op: "ref", Name: "item"}}}, tok(")")}}}}
	if chance(t, 40) {
		nest.Name = "nest_NodeArray"
	}
	alts = append(alts, nest)
	c := ExCase{Gram: &Gram{Rules: []Rule{{"doc", &G{Op: "rep0", Kids: []*G{{Op: "ref", Name: "item"}}}}, {"item", &G{Op: "or", Kids: alts}}}}}
	c.Gram.number()
	c.Text = c.Gram.genText(t)
	c.Srcs = many(t, 1, 3, 1, func(t *rapid.T) Text {
		var out []string
		m := size(t, 8, 1500)
		var pat []int
		for i := 0; i <= intn(t, 6); i++ {
			pat = append(pat, intn(t, n))
		}
		all := chance(t, 50)
		depth := 0
		if chance(t, 40) {
			depth = size(t, 2, 300)
		} else if chance(t, 40) {
			depth = between(t, 1, 3)
			if all { // in each of them
				m = max(m, depth*n+between(t, 0, n))
			}
		}
		for i := 0; i < m; i++ {
			if depth > 0 && i%(m/depth+1) == 0 {
				out = append(out, "(")
			}
			u := pat[i%len(pat)]
			if all {
				u = i % n
			}
			out = append(out, units[u]...)
		}
		for i := strings.Count(strings.Join(out, " "), "("); i > 0; i-- {
			out = append(out, ")")
		}
		if chance(t, 15) && len(out) > 0 {
			at := len(out) * intn(t, 1<<16) >> 16
			out = append(append(append([]string{}, out[:at]...), pick(t, []string{",", "1", "(", ")"})), out[at:]...)
		}
		return layoutLarge(t, out)
	})
	return c
}

func genLargeCall(t *rapid.T) CallCase {
	c := CallCase{Variadic: chance(t, 70)}
	last := pick(t, []string{"float64", "any", "int", "string"})
	c.Params = many(t, 0, 40, 3, func(t *rapid.T) string { return pick(t, []string{"float64", "any", "int", "string"}) })
	n := len(c.Params)
	if c.Variadic {
		c.Params = append(c.Params, last)
		n += size(t, 8, 600)
	} else {
		for i, k := 0, between(t, 8, 40); i < k; i++ {
			c.Params = append(c.Params, last)
		}
		n = len(c.Params)
	}
	c.Rets = many(t, 0, 20, 1, func(t *rapid.T) string { return pick(t, []string{"int", "string", "any", "float64"}) })
	for i, k := 0, intn(t, 3); i < k; i++ {
		c.Stack = append(c.Stack, genCallVal(t))
	}
	c.Arity = n
	odd := -1
	if chance(t, 15) {
		odd = intn(t, n)
	}
	for i := 0; i < n; i++ {
		p := last
		if i < len(c.Params) {
			p = c.Params[i]
		}
		v := CallVal{p, i}
		if p == "any" {
			v.T = []string{"int", "string", "nil", "float64"}[i%4]
		}
		if p == "float64" && i%3 == 1 {
			v.T = "int"
		}
		v.I = i % len(callVals[v.T])
		if i == odd {
			v = genCallVal(t)
		}
		c.Stack = append(c.Stack, v)
	}
	c.Via = pick(t, []string{"Call", "VCall", "Call method"})
	return c
}

func init() {
	const how = "texts with up to 12000 tokens, lexemes and white space of up to 80000 bytes, long runs of comments; non-trivial: as for the other texts of this property"
	reg("L01", "large", how, 1500, 60000, genLargeLex, checkLexemes)
	reg("L02", "large", how, 1500, 60000, genLargePos, checkPos)
	reg("L03", "large", how, 2000, 60000, genLargeSemis, checkSemis)
	reg("L04", "large", how, 1500, 60000, genLargeBytes, checkErrors)
	reg("L05", "large", how, 1500, 60000, genLargeLex, checkCommentMode)
	const gr = "a small grammar with one dimension blown up (up to 3000 repetitions, 300 alternatives or elements, 450 levels of recursion, 120 rules); non-trivial: as for the other grammars of this property"
	reg("M01", "large", gr, 1200, 40000, genLargeMatch(gramOpts{keywords: true, nullable: 5}), checkM01)
	reg("M02", "large", gr, 1200, 40000, genLargeMatch(gramOpts{keywords: true, nullable: 5, marks: 20, trans: 8, cuts: 2}), checkM02)
	reg("M03", "large", gr, 1200, 40000, genLargeMatch(gramOpts{keywords: true, nullable: 5, marks: 20, cuts: 15}), checkM03)
	reg("M04", "large", gr, 1200, 40000, genLargeMatch(gramOpts{keywords: true, nullable: 5, cuts: 4}), checkM04)
	reg("M05", "large", gr, 1200, 40000, genLargeMatch(gramOpts{keywords: true, nullable: 50, marks: 15}), checkM05)
	reg("C01", "large", gr, 1200, 40000, genLargeText(gramOpts{keywords: true, nullable: 5, marks: 20, cuts: 4}), checkC01)
	reg("C02", "large", gr, 800, 20000, genLargeText(gramOpts{keywords: true, nullable: 5, marks: 5, cuts: 2}), checkC02)
	reg("C05", "large", "grammars with up to 600 keywords; non-trivial: all", 150, 4000, genLargeKw, checkC05)
	reg("E01", "large", "documents of up to 1500 items with up to 80 tags or 300 levels; non-trivial: accepted, over one item at the top level", 800, 30000, genLargeExtract, checkE01)
	reg("I04", "large", "calls with up to 640 arguments and 20 results; non-trivial: as for other calls", 3000, 60000, genLargeCall, checkCall)
}
