package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- compiling

// compiled is a grammar compiled by the code under test, with a log of its marked actions.
type compiled struct {
	ret   tpl.CompileRet
	b     *realBuild
	inits int
	calls []markCall
}

type markCall struct {
	name string
	code string
}

type compileOpts struct {
	mode  tpl.ScanMode
	marks []*G // in textual order: the n-th call of the marker is for the n-th of them
	// replace, if set, gives the grammar to put in place of a mark (nil: an action)
	replace func(i int, g tpl.Grammar) tpl.Grammar
	scanner tpl.Tokener
}

// compile returns the reason of a rejection in why; crash is set if it is not a descriptive one.
func compile(text string, o compileOpts) (c *compiled, why error, crash error) {
	c = &compiled{b: &realBuild{}}
	cl := &tpl.Compiler{
		Grammar:  []byte(text),
		ScanMode: o.mode,
		Scanner:  o.scanner,
		Init:     func() { c.inits++ },
	}
	cl.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
		i := len(c.calls)
		c.calls = append(c.calls, markCall{mark, tpl.Code(g, cl.Scanner)})
		if o.replace != nil {
			if r := o.replace(i, g); r != nil {
				return r
			}
		}
		id := -1
		if i < len(o.marks) {
			id = o.marks[i].ID
		}
		return tpl.Action(g, func(toks []tpl.Token, g2 tpl.Grammar) { c.b.act(id, toks, g2) })
	}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case runtime.Error:
			crash = fmt.Errorf("the compiler crashes: %v", e)
		case string:
			why = errors.New(e)
			if e == "" {
				crash = errors.New("the compiler panics with an empty string")
			}
		case error:
			why = e
			if e.Error() == "" {
				crash = errors.New("the compiler panics with an empty error")
			}
		default:
			crash = fmt.Errorf("the compiler panics with %T %v", e, e)
		}
	}()
	ret, err := cl.Cl()
	if err != nil {
		if err.Error() == "" {
			return nil, err, errors.New("empty error")
		}
		return nil, err, nil
	}
	c.ret = ret
	if ret.Matcher == nil {
		return nil, nil, errors.New("the compiler returns neither a matcher nor an error")
	}
	return c, nil, nil
}

// mustCompile compiles text that is well-formed.
func mustCompile(text string, o compileOpts) (*compiled, error) {
	c, why, crash := compile(text, o)
	if crash != nil {
		return nil, crash
	}
	if why != nil {
		return nil, failf("well-formed grammar %q is rejected: %v", text, why)
	}
	return c, nil
}

// sameErrPlace compares the places of match errors.
func sameErrPlace(b *realBuild, ntoks int, err error, want *RefErr) error {
	me, ok := err.(*tpl.MatchError)
	if !ok {
		return failf("error is a %T: %v", err, err)
	}
	start := ntoks
	if len(me.Src) > 0 {
		start = b.pos[me.Src[0].Pos]
	}
	if start+me.IdxErr != want.Start+want.Idx || start != want.Start {
		return failf("error of the rule tried at token %d is at token %d, want %d and %d: %v", start, start+me.IdxErr, want.Start, want.Start+want.Idx, me)
	}
	if (me.Err == nil) != (want.Inner == nil) {
		return failf("error below is %v, want %v", me.Err, want.Inner)
	}
	if want.Inner != nil {
		return sameErrPlace(b, ntoks, me.Err, want.Inner)
	}
	return nil
}

// against runs the compiled grammar on src and compares with the reference.
func (c *compiled) against(src string, toks []PTok, ref RefRes) error {
	m := c.ret.Matcher
	res, err := c.b.run(m, []byte(src), 1<<40)
	if err != nil {
		return err
	}
	if err := sameOutcome(res, ref); err != nil {
		return err
	}
	if err := sameEvents(res.Evs, ref.Evs, ref.Abort); err != nil {
		return err
	}
	if ref.Abort || !ref.OK {
		if err := sameErrPlace(c.b, len(toks), res.Err, ref.Err); err != nil {
			return err
		}
		_ = res.Err.Error()
	}
	// the whole text
	full, inits := ref.OK && ref.N == len(toks), c.inits
	err = func() (err error) {
		defer func() {
			if e := recover(); e != nil {
				err = e.(error)
			}
		}()
		return m.MatchExactly([]byte(src), "")
	}()
	if (err == nil) != full {
		return failf("MatchExactly: %s, want success %v", errText(err), full)
	}
	if c.inits != inits+1 {
		return failf("MatchExactly calls Init %d times", c.inits-inits)
	}
	return nil
}

// ---------------------------------------------------------------- C01

// TextCase is a grammar, its text and inputs.
type TextCase struct {
	Gram *Gram
	Text Text
	Mode uint
	Srcs []Text
}

func genTextCase(o gramOpts) func(t *rapid.T) TextCase {
	o.normal = true
	return func(t *rapid.T) TextCase {
		g := genGram(t, o)
		nameMarks(t, g, false)
		if chance(t, 60) {
			shuffleRules(t, g)
		}
		c := TextCase{Gram: g}
		c.Text = g.genText(t)
		if chance(t, 20) {
			c.Mode = uint(tpl.InsertSemis)
		} else if chance(t, 5) {
			c.Mode = uint(tpl.ScanComments)
		}
		c.Srcs = genInputs(t, g, "doc", 8)
		return c
	}
}

// nameMarks gives marks their names; unique ones, or any.
func nameMarks(t *rapid.T, g *Gram, any bool) {
	for _, m := range g.marks() {
		m.Name = fmt.Sprintf("m%d", m.ID)
		if any && chance(t, 60) {
			m.Name = pick(t, []string{"m", "_mark", "Mark", "ARITY", "doc", "é", "x1", "true", "EOF", "IDENT", "m" + strings.Repeat("_long", 30)})
		}
	}
}

func shuffleRules(t *rapid.T, g *Gram) {
	p := perm(t, len(g.Rules))
	rs := make([]Rule, len(p))
	for i, j := range p {
		rs[i] = g.Rules[j]
	}
	g.Rules = rs
}

// selfCheck: the reference parser must read the rendered text as the tree it was rendered from.
func selfCheck(g *Gram, text string) {
	p, defect := refParse(text)
	if defect != "" {
		panic("harness: rendered grammar is rejected by the reference parser: " + defect)
	}
	for i, r := range g.Rules {
		if p.Rules[i].Name != r.Name || !sameTree(p.Rules[i].G, r.G) {
			panic("harness: rendered grammar is parsed differently: rule " + r.Name)
		}
	}
}

// eachText runs f for the inputs that are in the domain.
func eachText(gram *Gram, rule string, mode tpl.ScanMode, srcs []Text, x *Ctx, f func(src string, toks []PTok, ref RefRes) error) error {
	done := 0
	for i, s := range srcs {
		src := string(s)
		toks, ok := pegToks(src, mode, gram.keywords())
		if !ok {
			continue
		}
		ref, ok := refMatch(gram, gram.rule(rule), toks, stepsFor(toks))
		if !ok {
			x.Class("too many steps")
			continue
		}
		done++
		switch {
		case ref.Abort:
			x.Class("cut aborts")
		case !ref.OK:
			x.Class("no match")
		case ref.N < len(toks):
			x.Class("matches a part")
		default:
			x.Class("matches all")
		}
		if err := f(src, toks, ref); err != nil {
			return failf("input %d %q: %v", i, src, err)
		}
	}
	if done == 0 {
		return errSkip
	}
	return nil
}

func checkC01(c TextCase, x *Ctx) error {
	text := string(c.Text)
	selfCheck(c.Gram, text)
	mode := tpl.ScanMode(c.Mode)
	r, err := mustCompile(text, compileOpts{mode: mode, marks: c.Gram.marks()})
	if err != nil {
		return err
	}
	x.ClassIf(strings.Contains(text, "//") || strings.Contains(text, "#"), "comments in the grammar")
	return eachText(c.Gram, "doc", mode, c.Srcs, x, func(src string, toks []PTok, ref RefRes) error {
		x.NonTrivialIf(c.Gram.size() > 3 && len(toks) > 0)
		return r.against(src, toks, ref)
	})
}

// ---------------------------------------------------------------- C02

func stripped(g *G) *G {
	if g == nil {
		return nil
	}
	if g.Op == "mark" {
		return stripped(g.Kids[0])
	}
	n := *g
	n.Kids = nil
	for _, k := range g.Kids {
		if k != nil {
			n.Kids = append(n.Kids, stripped(k))
		}
	}
	return &n
}

func onlyCuts(g *Gram) bool {
	bad := false
	g.walk(func(x *G) {
		if x.Op == "and" {
			n := 0
			for _, k := range x.Kids {
				if k != nil {
					n++
				}
			}
			bad = bad || n == 0
		}
	})
	return bad
}

func printRules(c *compiled, g *Gram) (text string, err error) {
	var b strings.Builder
	for _, r := range g.Rules {
		var gr tpl.Grammar = c.ret.Grammars[r.Name]
		if v, ok := c.ret.Vars[r.Name]; ok && v.Elem != nil {
			gr = v.Elem
		}
		if gr == nil {
			return "", failf("no grammar for rule %s in the compile result", r.Name)
		}
		b.WriteString(r.Name + " = " + tpl.Code(gr, c.ret.Scanner) + ";\n")
	}
	return b.String(), nil
}

func checkC02(c TextCase, x *Ctx) error {
	if onlyCuts(c.Gram) {
		return errSkip // nothing is printed for a sequence of cuts
	}
	mode := tpl.ScanMode(c.Mode)
	c1, err := mustCompile(string(c.Text), compileOpts{mode: mode})
	if err != nil {
		return err
	}
	text1, err := printRules(c1, c.Gram)
	if err != nil {
		return err
	}
	c2, why, crash := compile(text1, compileOpts{mode: mode})
	if crash != nil || why != nil {
		return failf("printed code doesn't compile: %v%v\n%s", why, crash, text1)
	}
	text2, err := printRules(c2, c.Gram)
	if err != nil {
		return err
	}
	c3, why, crash := compile(text2, compileOpts{mode: mode})
	if crash != nil || why != nil {
		return failf("code printed again doesn't compile: %v%v\n%s", why, crash, text2)
	}
	text3, err := printRules(c3, c.Gram)
	if err != nil {
		return err
	}
	if text3 != text2 || !c.Gram.hasCut() && text2 != text1 {
		return failf("printing isn't stable:\n%s\n%s\n%s", text1, text2, text3)
	}
	if c1.ret.Vars["doc"] == nil && c1.ret.Matcher.Code() != tpl.Code(c1.ret.Grammars["doc"], c1.ret.Scanner) {
		return failf("Matcher.Code prints %q", c1.ret.Matcher.Code())
	}
	g2 := &Gram{}
	for _, r := range c.Gram.Rules {
		g2.Rules = append(g2.Rules, Rule{r.Name, stripped(r.G)})
	}
	return eachText(g2, "doc", mode, c.Srcs, x, func(src string, toks []PTok, ref RefRes) error {
		x.NonTrivialIf(c.Gram.size() > 3 && len(toks) > 0)
		c2.b.evs = nil
		if err := c2.against(src, toks, ref); err != nil {
			return failf("%v\nprinted code:\n%s", err, text1)
		}
		return nil
	})
}

// ---------------------------------------------------------------- C03

// DefectCase is a grammar text and the defect put into it ("" for a well-formed one).
type DefectCase struct {
	Text   Text
	Defect string
}

func genDefect(t *rapid.T) DefectCase {
	g := genGram(t, gramOpts{normal: true, cuts: 10, marks: 15, keywords: true})
	nameMarks(t, g, false)
	if chance(t, 60) {
		shuffleRules(t, g)
	}
	if chance(t, 25) {
		return DefectCase{Text: g.genText(t)}
	}
	rules := g.lexemes(t)
	ri := intn(t, len(rules))
	r := rules[ri]
	replaceOperand := func(with ...string) {
		// put a defective operand in place of, or beside, the rule's body
		if chance(t, 30) {
			rules[ri] = append(append([]string{}, r[:2]...), with...)
			return
		}
		rules[ri] = append(append(append([]string{}, r[:2]...), append([]string{"("}, r[2:]...)...), ")")
		rules[ri] = append(append(rules[ri], pick(t, [][]string{{"|"}, {}, {"%"}}[:])...), with...)
	}
	c := DefectCase{}
	switch weighted(t, 3, 2, 3, 2, 3, 3, 2) {
	case 0:
		c.Defect = "syntax"
		switch intn(t, 10) {
		case 0:
			rules[ri] = append(append([]string{}, r...), pick(t, []string{"|", "*", "+", "%", "/", "~", "@", "?", "(", ")", "%=", "=", "]", "-", "1.5", "'a' ="}))
		case 1:
			rules[ri] = r[:1]
		case 2:
			rules[ri] = r[:2]
		case 3:
			rules[ri] = append([]string{r[0]}, r[2:]...)
			if len(r) > 3 && r[2] == "=" {
				rules[ri] = r[1:]
			}
		case 4:
			rules[ri] = r[1:]
		case 5:
			rules[ri] = append([]string{r[0], "=", pick(t, []string{"|", "%", "/", ")", "%=", "="})}, r[2:]...)
		case 6:
			rules[ri] = append(append([]string{}, r...), "/", pick(t, []string{"1", `"m"`, "'+'", "(m)"}))
		case 7:
			rules[ri] = append([]string{r[0], "=", "("}, r[2:]...)
		case 8:
			rules[ri] = append(append([]string{}, r...), ")")
		default:
			rules[ri] = append(append([]string{}, r...), "|", "|", "INT")
		}
	case 1:
		c.Defect = "no doc"
		for i := range rules {
			for j, l := range rules[i] {
				if l == "doc" && (j == 0 || rules[i][j-1] != "/") {
					rules[i][j] = "docx"
				}
			}
		}
	case 2:
		c.Defect = "undefined rule"
		replaceOperand(pick(t, []string{"undefined", "doc1", "Doc"[1:] + "x", "ident", "é1", "_"}))
	case 3:
		c.Defect = "defined twice"
		dup := append([]string{}, rules[intn(t, len(rules))]...)
		at := intn(t, len(rules)+1)
		rules = append(rules[:at:at], append([][]string{dup}, rules[at:]...)...)
	case 4:
		c.Defect = "unknown token"
		replaceOperand(pick(t, []string{"FOO", "Ident", "INTX", "ILLEGAL", "Doc", "SHIFT", "USER_TOKEN_BEGIN", "Z"}))
	case 5:
		c.Defect = "unknown literal"
		replaceOperand(pick(t, []string{"'$'", "'a'", `'\''`, `"1a"`, `"a b"`, `""`, `"=>"`, "`if`", `"->"`, `"+"`, `"**"`, `'\x2b'`, `"IDENT "`, `"a-b"`, `"\x61"`, "`+=`", `" if"`}))
	default:
		c.Defect = "number"
		replaceOperand(pick(t, []string{"0", "2", "10", "01", "0x1", "11", "99999999999999999999"}))
	}
	c.Text = rulesText(t, rules)
	return c
}

func genSoup(t *rapid.T) DefectCase {
	words := []string{"doc", "=", "a", "INT", "IDENT", "'+'", `"if"`, `"+="`, "1", "2", "*", "+", "?", "~", "@", "(", ")", "|", "!", "%", "%=", "/", "m", ";", "\n", "b", "EOF", "true", "FOO", "doc = INT\n", "a = b\n", "b = '('\n", "$", "doc ="}
	s := repeatStr(t, 0, 60, tail(t, 4, 8, 20), func(t *rapid.T) string { return pick(t, words) + pick(t, []string{" ", " ", "", "\n"}) })
	if chance(t, 60) {
		s = "doc = " + s
	}
	return DefectCase{Text: Text(s), Defect: "?"}
}

func checkC03(c DefectCase, x *Ctx) error {
	text := string(c.Text)
	gram, defect := refParse(text)
	if c.Defect == "" && defect != "" {
		panic("harness: the reference parser rejects a well-formed grammar: " + defect)
	}
	if c.Defect != "" && c.Defect != "?" && defect == "" {
		panic("harness: the reference parser accepts a grammar with defect " + c.Defect)
	}
	r, why, crash := compile(text, compileOpts{})
	if crash != nil {
		return failf("%v\n%s", crash, text)
	}
	if (why != nil) != (defect != "") {
		return failf("rejected: %v, reference parser: %q\n%s", why, defect, text)
	}
	if defect != "" {
		words := strings.Fields(strings.SplitN(defect, ":", 2)[0])
		if words[0] == "number" {
			words = words[:1]
		}
		if len(words) > 2 {
			words = words[:2]
		}
		x.Class(strings.Join(words, " "))
		x.NonTrivialIf(len(text) > 5)
		if defect == "no doc" && why != tpl.ErrNoDoc {
			return failf("no doc rule: error is %v", why)
		}
		return nil
	}
	x.Class("well-formed")
	x.NonTrivialIf(gram.size() > 3)
	// a compiled grammar has all its rules
	for _, rule := range gram.Rules {
		if r.ret.Grammars[rule.Name] == nil && (r.ret.Vars[rule.Name] == nil || r.ret.Vars[rule.Name].Elem == nil) {
			return failf("rule %s isn't in the result", rule.Name)
		}
	}
	return nil
}

// genHuge: well-formed grammars of unusual size.
func genHuge(t *rapid.T) DefectCase {
	n := between(t, 20, 300)
	var b strings.Builder
	switch intn(t, 5) {
	case 0: // many rules
		order := perm(t, n)
		for _, i := range order {
			name := fmt.Sprintf("r%d", i)
			if i == 0 {
				name = "doc"
			}
			next := "INT"
			if i+1 < n {
				next = fmt.Sprintf("r%d | '+' doc", i+1)
			}
			fmt.Fprintf(&b, "%s = %s\n", name, next)
		}
	case 1: // long choice
		b.WriteString("doc = " + strings.Repeat("INT | ", n) + "IDENT")
	case 2: // long sequence
		b.WriteString("doc = " + strings.Repeat("INT ", n) + "! IDENT")
	case 3: // deep parentheses
		b.WriteString("doc = " + strings.Repeat("(", n/6) + "INT" + strings.Repeat(")", n/6))
	default: // prefixes and marks
		b.WriteString("doc = " + strings.Repeat("* ?", n) + "INT" + strings.Repeat("/m", n))
	}
	return DefectCase{Text: Text(b.String())}
}

// genHugeBad: grammars of unusual size with one defect.
func genHugeBad(t *rapid.T) DefectCase {
	c := genHuge(t)
	text := string(c.Text)
	bad := ""
	switch weighted(t, 4, 2, 2, 2, 1) {
	case 0:
		c.Defect = "undefined rule"
		bad = pick(t, []string{"zz = nosuch", "zz = INT nosuch | IDENT", "nosuchi = ?nosuchj", "zz = *(INT ! nosuch/m)"})
	case 1:
		c.Defect = "defined twice"
		bad = "doc = INT"
		if strings.Contains(text, "r19 =") && chance(t, 70) {
			bad = fmt.Sprintf("r%d = INT", between(t, 1, 19))
		}
	case 2:
		c.Defect = "unknown token"
		bad = pick(t, []string{"zz = NOSUCH", "zz = INT | \"<>\"", "zz = '$'"})
	case 3:
		c.Defect = "number"
		bad = pick(t, []string{"zz = 2", "zz = INT 10", "zz = (INT | 0)"})
	default:
		c.Defect = "syntax"
		bad = pick(t, []string{"zz =", "zz = (INT", "zz = INT |", "zz = INT)"})
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	at := intn(t, len(lines)+1)
	lines = append(lines[:at], append([]string{bad}, lines[at:]...)...)
	c.Text = Text(strings.Join(lines, "\n"))
	return c
}

// ---------------------------------------------------------------- C04

// MarkCase is a grammar with marks; the marks in Replace are answered with a rule for '#'-free token At.
type MarkCase struct {
	Gram    *Gram
	Text    Text
	Replace []int
	Srcs    []Text
}

func genMarkCase(t *rapid.T) MarkCase {
	g := genGram(t, gramOpts{normal: true, cuts: 4, marks: 35, keywords: true})
	nameMarks(t, g, true)
	if chance(t, 60) {
		shuffleRules(t, g)
	}
	c := MarkCase{Gram: g, Text: g.genText(t)}
	marks := g.marks()
	if len(marks) > 0 && chance(t, 50) {
		c.Replace = many(t, 1, 4, 1, func(t *rapid.T) int { return intn(t, len(marks)) })
	}
	c.Srcs = genInputs(t, c.meaning(), "doc", 4)
	return c
}

// meaning is the grammar with the replaced marks.
func (c MarkCase) meaning() *Gram {
	rep := map[int]bool{}
	for _, i := range c.Replace {
		rep[i] = true
	}
	marks := map[*G]int{}
	for i, m := range c.Gram.marks() {
		marks[m] = i
	}
	var cp func(g *G) *G
	cp = func(g *G) *G {
		if g == nil {
			return nil
		}
		if i, ok := marks[g]; ok && rep[i] {
			return &G{Op: "tok", T: "@"}
		}
		n := *g
		n.Kids = nil
		for _, k := range g.Kids {
			n.Kids = append(n.Kids, cp(k))
		}
		return &n
	}
	out := &Gram{Words: sortedKeys(c.Gram.keywords())} // also those of replaced rules
	for _, r := range c.Gram.Rules {
		out.Rules = append(out.Rules, Rule{r.Name, cp(r.G)})
	}
	return out
}

func checkC04(c MarkCase, x *Ctx) error {
	text := string(c.Text)
	selfCheck(c.Gram, text)
	marks := c.Gram.marks()
	rep := map[int]bool{}
	for _, i := range c.Replace {
		rep[i] = true
	}
	var at tpl.Grammar = tpl.Gr(tpl.AT)
	r, err := mustCompile(text, compileOpts{marks: marks, replace: func(i int, g tpl.Grammar) tpl.Grammar {
		if rep[i] {
			return at
		}
		return nil
	}})
	if err != nil {
		return err
	}
	x.NonTrivialIf(len(marks) >= 2)
	x.ClassIf(len(c.Replace) > 0, "replaced by the marker")
	if len(r.calls) != len(marks) {
		return failf("%d calls of the marker for %d marks in %q", len(r.calls), len(marks), text)
	}
	// what the marks are attached to, printed by the same printer from a tree built with the combinators
	mean := c.meaning()
	scanner := r.ret.Scanner
	b := &realBuild{gram: mean, refs: map[string]tpl.Grammar{}, obj: map[*G]tpl.Grammar{}, scanner: scanner.(*tpl.AutoKwScanner)}
	for _, rule := range c.Gram.Rules {
		b.refs[rule.Name] = tpl.Var(rule.Name)
	}
	var attached func(orig *G) *G // operand of the mark, with marks inside replaced
	idx := map[*G]int{}
	for i, m := range marks {
		idx[m] = i
	}
	attached = func(g *G) *G {
		if g == nil {
			return nil
		}
		if i, ok := idx[g]; ok && rep[i] {
			return &G{Op: "tok", T: "@"}
		}
		n := *g
		n.Kids = nil
		for _, k := range g.Kids {
			n.Kids = append(n.Kids, attached(k))
		}
		return &n
	}
	for i, m := range marks {
		if r.calls[i].name != m.Name {
			return failf("call %d of the marker has name %q, mark %d of %q is %q", i, r.calls[i].name, i, text, m.Name)
		}
		want := tpl.Code(b.build(attached(m.Kids[0])), scanner)
		if r.calls[i].code != want {
			return failf("call %d of the marker (%s) has rule `%s`, the mark is on `%s` in %q", i, m.Name, r.calls[i].code, want, text)
		}
	}
	err = eachText(mean, "doc", 0, c.Srcs, x, r.against)
	if err == errSkip {
		return nil
	}
	return err
}

// ---------------------------------------------------------------- C05

// KeywordCase is a set of keywords, used somewhere in a grammar, and words to be matched.
type KeywordCase struct {
	Kws   []string
	Words []string
	Gram  Text
	Extra Text // text put around words: strings, comments
	Mode  uint
}

func nearMiss(t *rapid.T, w string) string {
	r := []rune(w)
	switch intn(t, 7) {
	case 0:
		return w + pick(t, []string{"x", "1", "_", "é", "s"})
	case 1:
		return pick(t, []string{"x", "_", "a", "é"}) + w
	case 2:
		if len(r) > 1 {
			return string(r[:len(r)-1])
		}
	case 3:
		return strings.ToUpper(w)
	case 4:
		return strings.ToUpper(string(r[:1])) + string(r[1:])
	case 5:
		return w + w
	}
	return w
}

func genKeywordCase(t *rapid.T) KeywordCase {
	var c KeywordCase
	seen := map[string]bool{}
	max := 100
	for _, k := range many(t, 0, max, tail(t, 2, 8, 80), func(t *rapid.T) string {
		if chance(t, 40) {
			return pick(t, []string{"if", "else", "for", "IF", "If", "iff", "i", "IDENT", "INT", "EOF", "doc", "true", "nil", "_", "__", "x1", "é", "return", "elif", "ADD"})
		}
		return genIdent(t)
	}) {
		if !seen[k] {
			seen[k] = true
			c.Kws = append(c.Kws, k)
		}
	}
	c.Words = many(t, 1, 40, 8, func(t *rapid.T) string {
		if len(c.Kws) > 0 && chance(t, 80) {
			return nearMiss(t, pick(t, c.Kws))
		}
		return genIdent(t)
	})
	// the keywords in rules of their own, in random order, some in rules that doc doesn't use
	var rules [][]string
	doc := []string{"doc", "=", "*", "(", "IDENT", "/", "id"}
	for i, k := range c.Kws {
		name := fmt.Sprintf("k%d", i)
		rules = append(rules, append([]string{name, "="}, pick(t, [][]string{{`"` + k + `"`}, {"?", "(", "INT", `"` + k + `"`, ")", `"` + k + `"`}, {`"` + k + `"`, "|", `"` + k + `"`}})...))
		if chance(t, 70) {
			doc = append(doc, "|", name)
		}
	}
	doc = append(doc, "|", `"+="`, "|", "STRING", ")")
	rules = append(rules, doc, []string{"word", "=", "IDENT"})
	p := perm(t, len(rules))
	out := make([][]string, len(rules))
	for i, j := range p {
		out[i] = rules[j]
	}
	c.Gram = rulesText(t, out)
	c.Mode = uint(pick(t, []tpl.ScanMode{0, tpl.InsertSemis, tpl.ScanComments}))
	return c
}

func checkC05(c KeywordCase, x *Ctx) error {
	isKw := map[string]int{}
	for i, k := range c.Kws {
		isKw[k] = i
	}
	r, err := mustCompile(string(c.Gram), compileOpts{mode: tpl.ScanMode(c.Mode)})
	if err != nil {
		return err
	}
	var b strings.Builder
	for _, w := range c.Words {
		fmt.Fprintf(&b, "%s \"%s\" += // %s\n", w, w, w)
	}
	src := b.String()
	toks, err := r.ret.Tokenize([]byte(src), "")
	if err != nil {
		return failf("%q rejected: %v", src, err)
	}
	kinds := map[uint]string{}
	for _, k := range c.Kws {
		kind := r.ret.Scanner.Ltot(`"` + k + `"`)
		if old, dup := kinds[kind]; dup {
			return failf("keywords %s and %s have the same kind", old, k)
		}
		kinds[kind] = k
	}
	n := 0
	for _, t := range toks {
		switch t.Kind {
		case kSTRING, tpl.ADD_ASSIGN, tpl.COMMENT, tpl.SEMICOLON:
			continue
		}
		if n >= len(c.Words) {
			return failf("unexpected token %q of kind %d", t.Literal, t.Kind)
		}
		w := c.Words[n]
		n++
		if t.Literal != w {
			return failf("token %q for word %q", t.Literal, w)
		}
		if _, ok := isKw[w]; ok {
			if kinds[t.Kind] != w {
				return failf("keyword %q is scanned as kind %d", w, t.Kind)
			}
			x.Class("keyword")
		} else {
			if t.Kind != kIDENT {
				return failf("%q, no keyword, is scanned as kind %d", w, t.Kind)
			}
			x.Class("identifier")
		}
	}
	if n != len(c.Words) {
		return failf("%d words of %d are scanned", n, len(c.Words))
	}
	x.NonTrivialIf(len(c.Kws) > 0 && len(c.Words) > 1)
	x.ClassIf(len(c.Kws) > 60, "over 60 keywords")
	for _, w := range c.Words {
		ki, kw := isKw[w]
		var src interface{} = w
		if c.Mode != 0 { // without the semicolon at the end
			ts, err := r.ret.Tokenize([]byte(w), "")
			if err != nil || len(ts) == 0 {
				return failf("%q is scanned as %v, %v", w, ts, err)
			}
			src = ts[:1]
		}
		if err := r.ret.EvalSub("word", src); (err == nil) == kw {
			return failf("IDENT matches %q: %v, keyword: %v", w, err == nil, kw)
		}
		for i := range c.Kws {
			if i > 3 && i != ki {
				continue
			}
			if err := r.ret.EvalSub(fmt.Sprintf("k%d", i), src); (err == nil) != (kw && ki == i) {
				return failf("keyword %q matches %q: %v", c.Kws[i], w, err == nil)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C06

// SubCase is a grammar and sources for some of its rules.
type SubCase struct {
	Gram *Gram
	Text Text
	Mode uint
	Subs []SubSrc
}

// SubSrc is a source for a rule, and how much of a longer text it is taken from.
type SubSrc struct {
	Rule     string
	Src      Text
	Pre, Suf int // tokens before and after it in the text whose tokens are used
}

func genSubCase(t *rapid.T) SubCase {
	g := genGram(t, gramOpts{normal: true, cuts: 5, marks: 25, keywords: true, nullable: 5})
	nameMarks(t, g, false)
	if chance(t, 70) {
		shuffleRules(t, g)
	}
	c := SubCase{Gram: g, Text: g.genText(t)}
	if chance(t, 20) {
		c.Mode = uint(tpl.InsertSemis)
	}
	vocab := g.vocab()
	c.Subs = many(t, 1, 8, 3, func(t *rapid.T) SubSrc {
		r := pick(t, g.Rules)
		return SubSrc{r.Name, layoutTokens(t, genSentence(t, g, r.G, vocab)), intn(t, 4), intn(t, 4)}
	})
	return c
}

func (c *compiled) evalSub(name string, src interface{}) (err error, abort bool) {
	defer func() {
		if e := recover(); e != nil {
			me, ok := e.(*tpl.MatchError)
			if !ok {
				panic(e)
			}
			err, abort = me, true
		}
	}()
	return c.ret.EvalSub(name, src), false
}

func checkC06(c SubCase, x *Ctx) error {
	text := string(c.Text)
	mode := tpl.ScanMode(c.Mode)
	r, err := mustCompile(text, compileOpts{mode: mode, marks: c.Gram.marks()})
	if err != nil {
		return err
	}
	for _, bad := range []string{"", "nosuch", "DOC", "IDENT"} {
		if err := r.ret.EvalSub(bad, "1"); err == nil {
			return failf("EvalSub of the unknown rule %q succeeds", bad)
		}
	}
	for _, bad := range []interface{}{nil, 1, []string{"a"}, 'x', &text} {
		if err := r.ret.EvalSub("doc", bad); err == nil {
			return failf("EvalSub of a %T succeeds", bad)
		}
	}
	done := 0
	for i, s := range c.Subs {
		src := string(s.Src)
		toks, ok := pegToks(src, mode, c.Gram.keywords())
		if !ok {
			continue
		}
		ref, ok := refMatch(c.Gram, c.Gram.rule(s.Rule), toks, stepsFor(toks))
		if !ok {
			continue
		}
		done++
		full := ref.OK && ref.N == len(toks)
		x.ClassIf(full, "success")
		x.ClassIf(ref.OK && !full, "left over")
		x.ClassIf(!ref.OK, "failure")
		x.NonTrivialIf(len(toks) > 0 && s.Rule != "doc")
		for form := 0; form < 4; form++ {
			var arg interface{} = src
			base := 0
			all, err := r.ret.Tokenize([]byte(src), "")
			if err != nil {
				return failf("source %d: %v", i, err)
			}
			switch form {
			case 1:
				arg = []byte(src)
			case 2:
				arg = all
			case 3: // tokens out of the middle of a longer text
				long := strings.Repeat("( ", s.Pre) + src + strings.Repeat(" (", s.Suf)
				if strings.HasSuffix(strings.TrimRight(src, " \t"), "end") { // a comment at the end
					long = strings.Repeat("( ", s.Pre) + src + "\n" + strings.Repeat(" (", s.Suf)
				}
				lt, err := r.ret.Tokenize([]byte(long), "")
				if err != nil || len(lt) < s.Pre+len(toks) {
					return failf("source %d: %q: %v", i, long, err)
				}
				if len(toks) > 0 && mode == tpl.InsertSemis {
					if lt[s.Pre+len(toks)-1].Kind != all[len(all)-1].Kind {
						continue // another semicolon there
					}
				}
				sub := lt[s.Pre : s.Pre+len(toks)]
				arg, all = sub, sub
				base = s.Pre
			}
			_ = base
			r.b.reset(all, 1<<40)
			inits := r.inits
			err2, abort := r.evalSub(s.Rule, arg)
			if (err2 == nil) != full || abort != ref.Abort {
				return failf("source %d form %d: rule %s on %q: %s (abort %v), want success %v (abort %v)", i, form, s.Rule, src, errText(err2), abort, full, ref.Abort)
			}
			if r.inits != inits+1 {
				return failf("source %d form %d: Init is called %d times", i, form, r.inits-inits)
			}
			evs := r.b.evs
			if err := sameEvents(evs, ref.Evs, ref.Abort); err != nil {
				return failf("source %d form %d: rule %s on %q: %v", i, form, s.Rule, src, err)
			}
			if err2 == nil {
				continue
			}
			_ = err2.Error()
			if !ref.OK {
				if err := sameErrPlace(r.b, len(toks), err2, ref.Err); err != nil {
					return failf("source %d form %d: rule %s on %q: %v", i, form, s.Rule, src, err)
				}
				continue
			}
			me, ok := err2.(*tpl.MatchError)
			if !ok || len(me.Src) == 0 || r.b.pos[me.Src[me.IdxErr].Pos] != ref.N {
				return failf("source %d form %d: rule %s on %q leaves token %d: %v", i, form, s.Rule, src, ref.N, err2)
			}
		}
	}
	if done == 0 {
		return errSkip
	}
	return nil
}

// ---------------------------------------------------------------- C07

// OrderCase is one grammar in two orders and layouts.
type OrderCase struct {
	A, B         *Gram
	TextA, TextB Text
	Mode         uint
	Srcs         []Text
}

func genOrderCase(t *rapid.T) OrderCase {
	g := genGram(t, gramOpts{normal: true, cuts: 6, marks: 25, keywords: true, maxRules: 8})
	nameMarks(t, g, false)
	c := OrderCase{A: g, TextA: g.genText(t)}
	b := &Gram{Rules: append([]Rule{}, g.Rules...)}
	shuffleRules(t, b)
	c.B = b
	c.TextB = b.genText(t)
	if chance(t, 20) {
		c.Mode = uint(tpl.InsertSemis)
	}
	c.Srcs = genInputs(t, g, "doc", 6)
	return c
}

func checkC07(c OrderCase, x *Ctx) error {
	mode := tpl.ScanMode(c.Mode)
	a, err := mustCompile(string(c.TextA), compileOpts{mode: mode, marks: c.A.marks()})
	if err != nil {
		return err
	}
	b, err := mustCompile(string(c.TextB), compileOpts{mode: mode, marks: c.B.marks()})
	if err != nil {
		return err
	}
	moved := false
	for i := range c.A.Rules {
		moved = moved || c.A.Rules[i].Name != c.B.Rules[i].Name
	}
	x.ClassIf(moved, "rules permuted")
	return eachText(c.A, "doc", mode, c.Srcs, x, func(src string, toks []PTok, ref RefRes) error {
		ra, err := a.b.run(a.ret.Matcher, []byte(src), 1<<40)
		if err != nil {
			return err
		}
		rb, err := b.b.run(b.ret.Matcher, []byte(src), 1<<40)
		if err != nil {
			return err
		}
		if ra.OK != rb.OK || ra.Abort != rb.Abort || ra.OK && ra.N != rb.N {
			return failf("one order: %v %d %s, the other: %v %d %s\n%s\n%s", ra.OK, ra.N, errText(ra.Err), rb.OK, rb.N, errText(rb.Err), c.TextA, c.TextB)
		}
		if err := sameEvents(rb.Evs, ra.Evs, false); err != nil {
			return failf("%v\n%s\n%s", err, c.TextA, c.TextB)
		}
		if !ra.OK {
			ma, ok1 := ra.Err.(*tpl.MatchError)
			mb, ok2 := rb.Err.(*tpl.MatchError)
			if !ok1 || !ok2 || len(ma.Src) != len(mb.Src) || ma.IdxErr != mb.IdxErr {
				return failf("errors differ: %v and %v\n%s\n%s", ra.Err, rb.Err, c.TextA, c.TextB)
			}
		}
		x.NonTrivialIf(len(toks) > 0 && (moved || c.TextA != c.TextB))
		if err := a.against(src, toks, ref); err != nil {
			return err
		}
		return b.against(src, toks, ref)
	})
}

func init() {
	const how = "grammar trees rendered as text with random layout, comments, spellings, parentheses and rule order, and inputs derived from them and damaged"
	reg("C01", "text", how+"; non-trivial: over 3 nodes and a non-empty input", 24000, 800000,
		genTextCase(gramOpts{cuts: 7, marks: 25, keywords: true, nullable: 8}), checkC01)
	reg("C02", "print", how+", printed and compiled again twice; non-trivial: over 3 nodes and a non-empty input", 20000, 600000,
		genTextCase(gramOpts{cuts: 3, marks: 10, keywords: true, nullable: 8}), checkC02)
	reg("C03", "defects", "well-formed grammar texts, and ones with one injected defect; non-trivial: a defect, or over 3 nodes", 40000, 1200000, genDefect, checkC03)
	reg("C03", "soup", "lexemes of the grammar language in any order, decided by a reference parser; non-trivial: rejected with over 5 bytes, or accepted with over 3 nodes", 60000, 2000000, genSoup, checkC03)
	reg("C03", "hugebad", "the same with one defect somewhere; non-trivial: over 5 bytes", 400, 8000, genHugeBad, checkC03)
	reg("C03", "huge", "long and deep well-formed grammars; non-trivial: over 3 nodes", 400, 8000, genHuge, checkC03)
	reg("C04", "marks", how+", marks with any names, some replaced by the marker; non-trivial: at least 2 marks", 24000, 800000, genMarkCase, checkC04)
	reg("C05", "keywords", "sets of up to 100 keywords in a grammar, words that are or resemble them; non-trivial: a keyword and at least 2 words", 12000, 300000, genKeywordCase, checkC05)
	reg("C06", "sub", how+", for every rule, as string, bytes, tokens and tokens out of a longer text; non-trivial: a non-empty source for a rule other than doc", 20000, 600000, genSubCase, checkC06)
	reg("C07", "order", how+", the same grammar in two orders and layouts; non-trivial: texts differ and the input isn't empty", 16000, 500000, genOrderCase, checkC07)
}
