package main

import (
	"strings"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- grammar text: rendering

// precedence levels of the grammar language
const (
	gOr = iota
	gAnd
	gTerm   // G % G, G %= G, G/mark
	gFactor // *G +G ?G ~G @G
)

func gLevel(g *G) int {
	switch g.Op {
	case "or":
		return gOr
	case "and":
		return gAnd
	case "list", "list0", "mark":
		return gTerm
	}
	return gFactor
}

type renderer struct {
	t     *rapid.T // nil: plain
	extra int      // percent of redundant parentheses
}

func (r *renderer) chance(pct int) bool { return r.t != nil && pct > 0 && chance(r.t, pct) }

// lex renders g as a list of lexemes of the grammar language.
func (r *renderer) lex(g *G, level int) []string {
	if gLevel(g) < level || r.chance(r.extra) {
		return append(append([]string{"("}, r.lex(g, gOr)...), ")")
	}
	bin := func(op string, right int) []string {
		return append(append(r.lex(g.Kids[0], gTerm), op), r.lex(g.Kids[1], right)...)
	}
	pre := func(op string) []string { return append([]string{op}, r.lex(g.Kids[0], gFactor)...) }
	switch g.Op {
	case "tok":
		return []string{r.tok(g.T)}
	case "true":
		if r.chance(30) {
			return []string{"true"}
		}
		return []string{"1"}
	case "eof":
		return []string{"EOF"}
	case "ref":
		return []string{g.Name}
	case "rep0":
		return pre("*")
	case "rep1":
		return pre("+")
	case "rep01":
		return pre("?")
	case "not":
		return pre("~")
	case "peek":
		return pre("@")
	case "list":
		return bin("%", gFactor)
	case "list0":
		return bin("%=", gFactor)
	case "mark":
		return append(r.lex(g.Kids[0], gTerm), "/", g.Name)
	case "and":
		var out []string
		for _, k := range g.Kids {
			if k == nil {
				out = append(out, "!")
			} else {
				out = append(out, r.lex(k, gTerm)...)
			}
		}
		return out
	case "or":
		var out []string
		for i, k := range g.Kids {
			if i > 0 {
				out = append(out, "|")
			}
			out = append(out, r.lex(k, gAnd)...)
		}
		return out
	}
	panic("op " + g.Op)
}

func (r *renderer) tok(class string) string {
	if strings.HasPrefix(class, "kw:") {
		return `"` + class[3:] + `"`
	}
	if o, ok := opByText[class]; ok {
		if r.chance(30) {
			return o.Name
		}
		return opLit(o)
	}
	return class
}

// semiLexeme: would a newline after this lexeme end the rule?
func semiLexeme(l string) bool {
	switch l {
	case "(", "*", "+", "?", "~", "@", "%", "%=", "/", "|", "!", "=", ";":
		return false
	}
	return true
}

func wordRune(r rune) bool { return refLetter(r) || refDigit(r) }

func needGap(a, b string) bool {
	x, _ := utf8.DecodeLastRuneInString(a)
	y, _ := utf8.DecodeRuneInString(b)
	return wordRune(x) && wordRune(y) || a == "+" && b == "+"
}

// layout joins the lexemes of one rule.
func layoutLexemes(t *rapid.T, ls []string, style int) string {
	var b strings.Builder
	for i, l := range ls {
		if i > 0 {
			prev := ls[i-1]
			need := needGap(prev, l)
			switch {
			case style == 0: // one blank
				b.WriteString(" ")
			case style == 1: // as dense as possible
				if need {
					b.WriteString(" ")
				}
			case style == 2 && !semiLexeme(prev) && chance(t, 40):
				b.WriteString(pick(t, []string{"\n", "\r\n", " // c\n", " # c | (\n", "\n\n\t", " /* ;\n */ "}))
			default:
				opts := []string{" ", "\t", "  ", " /* c */ ", " /* ' */", "\r"}
				if !need {
					opts = append(opts, "")
				}
				b.WriteString(pick(t, opts))
			}
		}
		b.WriteString(l)
	}
	return b.String()
}

// ruleText lays out the rules given as lexeme lists (name first).
func rulesText(t *rapid.T, rules [][]string) Text {
	style := intn(t, 3)
	var b strings.Builder
	if style > 0 {
		b.WriteString(pick(t, []string{"", "\n", " ", "// c\n", "# c\n", "/* c\n */ ", "\n\n\t"}))
	}
	for i, ls := range rules {
		b.WriteString(layoutLexemes(t, ls, style))
		end := []string{"\n", ";", ";\n", " ; ", "\n\n\t", " // c\n", "# c\n", " /* c */ \n", " /* c\n */", "\r\n", ";// x\n"}
		if i == len(rules)-1 {
			end = append(end, "", "  ", " // c", "# c")
		}
		if !semiLexeme(ls[len(ls)-1]) {
			end = []string{";", ";\n", " ; "}
		}
		if style == 0 {
			end = end[:1]
		}
		b.WriteString(pick(t, end))
	}
	return Text(b.String())
}

func (gram *Gram) lexemes(t *rapid.T) [][]string {
	r := &renderer{t: t}
	if t != nil && chance(t, 30) {
		r.extra = 10
	}
	var out [][]string
	for _, x := range gram.Rules {
		out = append(out, append([]string{x.Name, "="}, r.lex(x.G, gOr)...))
	}
	return out
}

// genText renders the grammar with random layout.
func (gram *Gram) genText(t *rapid.T) Text {
	return rulesText(t, gram.lexemes(t))
}

// marks lists the mark nodes in textual order.
func (gram *Gram) marks() []*G {
	var out []*G
	var f func(g *G)
	f = func(g *G) {
		if g == nil {
			return
		}
		for _, k := range g.Kids {
			f(k)
		}
		if g.Op == "mark" {
			out = append(out, g)
		}
	}
	for _, r := range gram.Rules {
		f(r.G)
	}
	return out
}

// ---------------------------------------------------------------- grammar text: reference parser

type gramSyntax struct{ msg string }

type gramParser struct {
	src  string
	toks []RTok
	i    int
	gram *Gram
	bad  string // first semantic defect
}

// refParse parses grammar text; the second result is why it is rejected, or "".
func refParse(src string) (gram *Gram, defect string) {
	r := refLex(src, true)
	if len(r.Errs) > 0 {
		return nil, "lexical error"
	}
	p := &gramParser{src: src, toks: withoutComments(r.Toks), gram: &Gram{}}
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(gramSyntax)
			if !ok {
				panic(e)
			}
			gram, defect = nil, "syntax: "+s.msg
		}
	}()
	for {
		name := p.want(kIDENT, "rule name")
		p.want(tpl.ASSIGN, "=")
		g := p.or()
		p.want(tpl.SEMICOLON, "end of rule")
		p.gram.Rules = append(p.gram.Rules, Rule{name.Lit, g})
		if p.i >= len(p.toks) {
			break
		}
	}
	if p.bad != "" {
		return nil, p.bad
	}
	defined := map[string]bool{}
	for _, x := range p.gram.Rules {
		if defined[x.Name] {
			return nil, "rule defined twice: " + x.Name
		}
		defined[x.Name] = true
	}
	if !defined["doc"] {
		return nil, "no doc"
	}
	p.gram.walk(func(g *G) {
		if g.Op == "ref" && !defined[g.Name] && defect == "" {
			defect = "undefined rule " + g.Name
		}
	})
	if defect != "" {
		return nil, defect
	}
	id := 0
	for _, x := range p.gram.Rules {
		numberTree(x.G, &id)
	}
	return p.gram, ""
}

func (p *gramParser) peek() uint {
	if p.i < len(p.toks) {
		return p.toks[p.i].Kind
	}
	return tpl.EOF
}

func (p *gramParser) want(k uint, what string) RTok {
	if p.peek() != k {
		panic(gramSyntax{"missing " + what})
	}
	p.i++
	return p.toks[p.i-1]
}

func (p *gramParser) or() *G {
	kids := []*G{p.and()}
	for p.peek() == tpl.OR {
		p.i++
		kids = append(kids, p.and())
	}
	if len(kids) == 1 {
		return kids[0]
	}
	return &G{Op: "or", Kids: kids}
}

func (p *gramParser) and() *G {
	var kids []*G
	for {
		if p.peek() == tpl.NOT {
			p.i++
			kids = append(kids, nil)
			continue
		}
		if !p.startsFactor() {
			break
		}
		kids = append(kids, p.term())
	}
	if len(kids) == 0 {
		panic(gramSyntax{"missing rule"})
	}
	if len(kids) == 1 && kids[0] != nil {
		return kids[0]
	}
	return &G{Op: "and", Kids: kids}
}

func (p *gramParser) startsFactor() bool {
	switch p.peek() {
	case kIDENT, kCHAR, kSTRING, kINT, tpl.MUL, tpl.ADD, tpl.QUESTION, tpl.TILDE, tpl.AT, tpl.LPAREN:
		return true
	}
	return false
}

func (p *gramParser) term() *G {
	g := p.factor()
	for {
		switch p.peek() {
		case tpl.REM:
			p.i++
			g = &G{Op: "list", Kids: []*G{g, p.factor()}}
		case tpl.REM_ASSIGN:
			p.i++
			g = &G{Op: "list0", Kids: []*G{g, p.factor()}}
		case tpl.QUO:
			p.i++
			m := p.want(kIDENT, "mark")
			g = &G{Op: "mark", Name: m.Lit, Kids: []*G{g}}
		default:
			return g
		}
	}
}

func (p *gramParser) defect(s string) *G {
	if p.bad == "" {
		p.bad = s
	}
	return &G{Op: "true"}
}

func (p *gramParser) factor() *G {
	if !p.startsFactor() {
		panic(gramSyntax{"missing operand"})
	}
	t := p.toks[p.i]
	p.i++
	switch t.Kind {
	case kIDENT:
		if t.Lit == "EOF" {
			return &G{Op: "eof"}
		}
		if c := t.Lit[0]; c >= 'A' && c <= 'Z' {
			if k, ok := classKind[t.Lit]; ok && opByText[t.Lit].Text == "" {
				return &G{Op: "tok", T: kindClass[k]}
			}
			for _, o := range operators {
				if o.Name == t.Lit {
					return &G{Op: "tok", T: o.Text}
				}
			}
			return p.defect("unknown token " + t.Lit)
		}
		if t.Lit == "true" {
			for _, x := range p.gram.Rules {
				if x.Name == "true" {
					return &G{Op: "ref", Name: t.Lit}
				}
			}
			return &G{Op: "true"}
		}
		return &G{Op: "ref", Name: t.Lit}
	case kCHAR, kSTRING:
		for _, o := range operators {
			if opLit(o) == t.Lit {
				return &G{Op: "tok", T: o.Text}
			}
		}
		if t.Kind == kSTRING && t.Lit[0] == '"' && isRefIdent(t.Lit[1:len(t.Lit)-1]) {
			return &G{Op: "tok", T: "kw:" + t.Lit[1:len(t.Lit)-1]}
		}
		return p.defect("unknown literal " + t.Lit)
	case kINT:
		if t.Lit != "1" {
			return p.defect("number " + t.Lit)
		}
		return &G{Op: "true"}
	case tpl.LPAREN:
		g := p.or()
		p.want(tpl.RPAREN, ")")
		return g
	}
	op := map[uint]string{tpl.MUL: "rep0", tpl.ADD: "rep1", tpl.QUESTION: "rep01", tpl.TILDE: "not", tpl.AT: "peek"}[t.Kind]
	return &G{Op: op, Kids: []*G{p.factor()}}
}

func isRefIdent(s string) bool {
	for i, c := range s {
		if !refLetter(c) && (i == 0 || !refDigit(c)) {
			return false
		}
	}
	return s != ""
}

func sameTree(a, b *G) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Op != b.Op || a.T != b.T || a.Name != b.Name || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !sameTree(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}
