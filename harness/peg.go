package main

import (
	"fmt"
	"strings"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- grammar trees

// G is a rule tree. Ops: tok true eof and or rep0 rep1 rep01 peek not list list0 ref mark trans.
// In "and" a nil kid is a cut.
type G struct {
	Op   string `json:"op"`
	T    string `json:"t,omitempty"`    // tok: class of token: IDENT.., operator text, or "kw:" + keyword
	Name string `json:"name,omitempty"` // ref: rule; mark: name
	ID   int    `json:"id,omitempty"`   // mark, trans: number, from 1
	Kids []*G   `json:"kids,omitempty"`
}

// Rule is a named rule.
type Rule struct {
	Name string
	G    *G
}

// Gram is a grammar; the root is "doc".
type Gram struct {
	Rules []Rule
	Words []string `json:",omitempty"` // more keywords
}

func (g *Gram) rule(name string) *G {
	for _, r := range g.Rules {
		if r.Name == name {
			return r.G
		}
	}
	return nil
}

func walk(g *G, f func(*G)) {
	if g == nil {
		return
	}
	f(g)
	for _, k := range g.Kids {
		walk(k, f)
	}
}

func (g *Gram) walk(f func(*G)) {
	for _, r := range g.Rules {
		walk(r.G, f)
	}
}

func (g *Gram) keywords() map[string]bool {
	kws := map[string]bool{}
	for _, w := range g.Words {
		kws[w] = true
	}
	g.walk(func(x *G) {
		if x.Op == "tok" && strings.HasPrefix(x.T, "kw:") {
			kws[x.T[3:]] = true
		}
	})
	return kws
}

func (g *Gram) size() int {
	n := 0
	g.walk(func(*G) { n++ })
	return n
}

func (g *Gram) has(op string) bool {
	found := false
	g.walk(func(x *G) { found = found || x.Op == op })
	return found
}

func (g *Gram) hasCut() bool {
	found := false
	g.walk(func(x *G) {
		for _, k := range x.Kids {
			found = found || k == nil
		}
	})
	return found
}

// ---------------------------------------------------------------- tokens

// PTok is a token of the input as the reference interpreter sees it.
type PTok struct {
	Class      string
	Start, End int
}

var classKind = map[string]uint{"IDENT": kIDENT, "INT": kINT, "FLOAT": kFLOAT, "IMAG": kIMAG, "CHAR": kCHAR, "STRING": kSTRING, "COMMENT": tpl.COMMENT}

var kindClass = map[uint]string{}

func init() {
	for c, k := range classKind {
		kindClass[k] = c
	}
	for _, o := range operators {
		classKind[o.Text] = o.Kind
		kindClass[o.Kind] = o.Text
	}
}

// pegToks lexes the input of a grammar with the reference lexer; ok is false if it has lexical errors.
func pegToks(src string, mode tpl.ScanMode, kws map[string]bool) (toks []PTok, ok bool) {
	r := refLex(src, mode&tpl.InsertSemis != 0)
	if len(r.Errs) > 0 {
		return nil, false
	}
	for _, t := range r.tokens(mode) {
		c := kindClass[t.Kind]
		if t.Kind == kIDENT && kws[t.Lit] {
			c = "kw:" + t.Lit
		}
		toks = append(toks, PTok{c, t.Start, t.End})
	}
	return toks, true
}

// ---------------------------------------------------------------- reference interpreter

// Ev is something that happens during a match.
type Ev struct {
	K     string // act begin end
	ID    int
	Start int // tokens [Start,Start+N) for act
	N     int
	Len   int
	Fail  bool // end: the rule failed
}

func (e Ev) String() string {
	switch e.K {
	case "act":
		return fmt.Sprintf("act%d[%d+%d]len%d", e.ID, e.Start, e.N, e.Len)
	case "begin":
		return fmt.Sprintf("begin%d", e.ID)
	}
	return fmt.Sprintf("end%d:%v", e.ID, e.Fail)
}

// RefErr is a match error: G was tried at token Start and failed at token Start+Idx.
type RefErr struct {
	G     *G
	Start int
	Idx   int
	Inner *RefErr
}

type refAbort struct{ e *RefErr }
type refBudget struct{}

type refRun struct {
	gram   *Gram
	toks   []PTok
	evs    []Ev
	steps  int // rule attempts
	leaves int // leaf attempts
	budget int
	depth  int
	zero   bool // some repetition was ended by an empty match
}

func (r *refRun) fail(g *G, pos int) *RefErr { return &RefErr{G: g, Start: pos} }

// match returns the number of tokens consumed (for a failure: how far it got), the count of the rule, and the failure.
func (r *refRun) match(g *G, pos int) (n, cnt int, err *RefErr) {
	r.steps++
	r.depth++
	if r.steps > r.budget || r.depth > 2000 {
		panic(refBudget{})
	}
	defer func() { r.depth-- }()
	switch g.Op {
	case "tok":
		r.leaves++
		if pos < len(r.toks) {
			if c := r.toks[pos].Class; c == g.T || c == "INT" && g.T == "FLOAT" {
				return 1, -1, nil
			}
		}
		return 0, -1, r.fail(g, pos)
	case "true":
		r.leaves++
		return 0, -1, nil
	case "eof":
		r.leaves++
		if pos < len(r.toks) {
			return 0, -1, r.fail(g, pos)
		}
		return 0, -1, nil
	case "peek":
		if _, _, e := r.match(g.Kids[0], pos); e != nil {
			return 0, -1, r.fail(g, pos)
		}
		return 0, -1, nil
	case "not":
		if _, _, e := r.match(g.Kids[0], pos); e == nil {
			return 0, -1, r.fail(g, pos)
		}
		return 0, -1, nil
	case "and":
		return r.seq(g, g.Kids, pos)
	case "or":
		cnt = len(g.Kids)
		var best *RefErr
		unique := false
		max := 0
		for _, k := range g.Kids {
			m, _, e := r.match(k, pos)
			if e == nil {
				return m, cnt, nil
			}
			if m > max {
				max, best, unique = m, e, true
			} else if m == max {
				unique = false
			}
		}
		if !unique {
			best = r.fail(g, pos)
		}
		return max, cnt, best
	case "rep0":
		n, cnt = r.loop(pos, func(p int) (int, *RefErr) { m, _, e := r.match(g.Kids[0], p); return m, e })
		return n, cnt, nil
	case "rep1":
		m, _, e := r.match(g.Kids[0], pos)
		if e != nil {
			return m, 0, e
		}
		if m == 0 {
			r.zero = true
			return 0, 1, nil
		}
		n, cnt = r.loop(pos+m, func(p int) (int, *RefErr) { m, _, e := r.match(g.Kids[0], p); return m, e })
		return n + m, cnt + 1, nil
	case "rep01":
		m, _, e := r.match(g.Kids[0], pos)
		if e != nil {
			return 0, 0, nil
		}
		return m, 1, nil
	case "list", "list0":
		m, _, e := r.match(g.Kids[0], pos)
		if e != nil {
			if g.Op == "list0" {
				return 0, 0, nil
			}
			return m, 0, e
		}
		n, cnt = r.loop(pos+m, func(p int) (int, *RefErr) {
			m, _, e := r.match(g.Kids[1], p)
			if e != nil {
				return m, e
			}
			m2, _, e := r.match(g.Kids[0], p+m)
			return m + m2, e
		})
		return n + m, cnt + 1, nil
	case "ref":
		n, _, err = r.match(r.gram.rule(g.Name), pos)
		return n, -1, err
	case "mark":
		n, cnt, err = r.match(g.Kids[0], pos)
		if err == nil {
			r.evs = append(r.evs, Ev{K: "act", ID: g.ID, Start: pos, N: n, Len: cnt})
		}
		return n, cnt, err
	case "trans":
		r.evs = append(r.evs, Ev{K: "begin", ID: g.ID})
		n, cnt, err = r.match(g.Kids[0], pos)
		r.evs = append(r.evs, Ev{K: "end", ID: g.ID, Fail: err != nil})
		return n, cnt, err
	}
	panic("op " + g.Op)
}

func (r *refRun) loop(pos int, f func(int) (int, *RefErr)) (n, cnt int) {
	for {
		m, e := f(pos + n)
		if e != nil {
			return
		}
		cnt++
		if m == 0 {
			r.zero = true
			return
		}
		n += m
	}
}

func (r *refRun) seq(g *G, kids []*G, pos int) (n, cnt int, err *RefErr) {
	cut := false
	for _, k := range kids {
		if k == nil {
			cut = true
			continue
		}
		m, _, e := r.match(k, pos+n)
		if e != nil {
			if cut {
				panic(refAbort{&RefErr{G: g, Start: pos, Idx: n + m, Inner: e}})
			}
			return n + m, len(kids), e
		}
		n += m
	}
	return n, len(kids), nil
}

// RefRes is the outcome of the reference interpreter.
type RefRes struct {
	OK     bool
	N      int
	Err    *RefErr
	Abort  bool
	Evs    []Ev
	Leaves int
	Steps  int
	Zero   bool
}

// refMatch runs rule g; ok is false if the budget of steps is used up.
func refMatch(gram *Gram, g *G, toks []PTok, budget int) (res RefRes, ok bool) {
	r := &refRun{gram: gram, toks: toks, budget: budget}
	ok = true
	defer func() {
		res.Evs, res.Leaves, res.Steps, res.Zero = r.evs, r.leaves, r.steps, r.zero
		switch e := recover().(type) {
		case nil:
		case refAbort:
			res.OK, res.Abort, res.Err = false, true, e.e
		case refBudget:
			ok = false
		default:
			panic(e)
		}
	}()
	n, _, err := r.match(g, 0)
	res.OK, res.N, res.Err = err == nil, n, err
	return
}

// ---------------------------------------------------------------- generating grammars

type gramOpts struct {
	cuts     int // percent of a cut after an element of a sequence
	marks    int // percent of a mark on a rule
	trans    int // percent of a transaction
	nullable int // percent of nullable bodies under repetitions
	keywords bool
	normal   bool // only trees that grammar text can express
	names    []string
	odd      []string // other names of rules
	maxRules int
}

type gramGen struct {
	t      *rapid.T
	o      gramOpts
	budget int
	names  []string
	null   map[string]bool // rules that may match nothing (unknown ones: true)
	done   map[string]int  // index from which references at the left are allowed
	cur    int
	id     int
	vocab  []string
}

var defaultNames = []string{"doc", "a", "expr", "x1", "_b", "é", "list", "rule7"}

// Names of rules start with anything but a capital ASCII letter.
var oddNames = []string{"_Item", "__A", "_9", "__", "É", "Ωmega", "中", "eOF", "iNT", "_IDENT", "doc2", "x_Y_2", "if", "nil", "idents", "xABC", "longer" + strings.Repeat("_name", 14)}

var vocabClasses = []string{"IDENT", "INT", "FLOAT", "STRING", "CHAR", "+", "-", "(", ")", ",", ";", "==", "++", ":=", "...", "&^=", "?", "~", "@", "IMAG", "=", "|", "%", "!", "*", "/"}
var keywordPool = []string{"if", "else", "for", "x", "xs", "X", "return", "_", "é", "i", "iff"}

func genGram(t *rapid.T, o gramOpts) *Gram {
	if o.maxRules == 0 {
		o.maxRules = 5
	}
	if o.names == nil {
		o.names, o.odd = defaultNames, oddNames
	}
	g := &gramGen{t: t, o: o, null: map[string]bool{}}
	n := 1 + intn(t, o.maxRules)
	if n > len(o.names) {
		n = len(o.names)
	}
	g.names = o.names[:n]
	if n <= len(o.odd) && chance(t, 30) { // other names, the same first one
		p := perm(t, len(o.odd))
		g.names = []string{o.names[0]}
		for i := 1; i < n; i++ {
			g.names = append(g.names, o.odd[p[i-1]])
		}
	}
	// a small vocabulary makes inputs match
	k := 2 + intn(t, 5)
	for i := 0; i < k; i++ {
		if o.keywords && chance(t, 30) {
			g.vocab = append(g.vocab, "kw:"+pick(t, keywordPool))
		} else if chance(t, 15) {
			g.vocab = append(g.vocab, pick(t, operators).Text)
		} else {
			g.vocab = append(g.vocab, pick(t, vocabClasses))
		}
	}
	rules := make([]Rule, n)
	for i := n - 1; i >= 0; i-- {
		g.cur = i
		g.budget = tail(t, 6, 12, 25, 60)
		rules[i] = Rule{g.names[i], g.gen(0, false)}
		g.null[g.names[i]] = g.nullable(rules[i].G)
	}
	gram := &Gram{Rules: rules}
	gram.number()
	return gram
}

// number gives marks and transactions their numbers in textual order of the rules.
func (gram *Gram) number() {
	id := 0
	for _, r := range gram.Rules {
		numberTree(r.G, &id)
	}
}

func numberTree(g *G, id *int) {
	if g == nil {
		return
	}
	for _, k := range g.Kids {
		numberTree(k, id)
	}
	if g.Op == "mark" || g.Op == "trans" {
		*id++
		g.ID = *id
	}
}

func (g *gramGen) nullable(x *G) bool {
	switch x.Op {
	case "tok":
		return false
	case "and":
		for _, k := range x.Kids {
			if k != nil && !g.nullable(k) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range x.Kids {
			if g.nullable(k) {
				return true
			}
		}
		return false
	case "rep1", "mark", "trans":
		return g.nullable(x.Kids[0])
	case "list":
		return g.nullable(x.Kids[0])
	case "ref":
		n, ok := g.null[x.Name]
		return !ok || n
	}
	return true
}

func (g *gramGen) leaf(guarded bool) *G {
	t := g.t
	switch weighted(t, 10, 5, 1, 1) {
	case 1:
		if r := g.ref(guarded); r != nil {
			return r
		}
	case 2:
		return &G{Op: "true"}
	case 3:
		if chance(t, 50) {
			return &G{Op: "eof"}
		}
	}
	return &G{Op: "tok", T: pick(t, g.vocab)}
}

// ref: at a place where nothing has been consumed only rules further down may be referred to, so there is no left recursion.
func (g *gramGen) ref(guarded bool) *G {
	lo := 0
	if !guarded {
		lo = g.cur + 1
	}
	if lo >= len(g.names) {
		return nil
	}
	return &G{Op: "ref", Name: g.names[lo+intn(g.t, len(g.names)-lo)]}
}

func (g *gramGen) gen(depth int, guarded bool) *G {
	return group(g.t, func(t *rapid.T) *G {
		old := g.t
		g.t = t
		defer func() { g.t = old }()
		x := g.gen1(depth, guarded)
		for p := g.o.marks; p > 0 && chance(t, p); p = (p + 25) / 2 {
			x = &G{Op: "mark", Kids: []*G{x}}
		}
		if g.o.trans > 0 && chance(t, g.o.trans) {
			x = &G{Op: "trans", Kids: []*G{x}}
		}
		return x
	})
}

func (g *gramGen) body(depth int, guarded bool) *G {
	t := g.t
	if g.o.nullable > 0 && chance(t, g.o.nullable) {
		switch intn(t, 6) {
		case 0:
			return &G{Op: "true"}
		case 1:
			return &G{Op: "rep01", Kids: []*G{g.gen(depth+1, guarded)}}
		case 2:
			return &G{Op: "rep0", Kids: []*G{g.gen(depth+1, guarded)}}
		case 3:
			return &G{Op: "peek", Kids: []*G{g.gen(depth+1, guarded)}}
		case 4:
			return &G{Op: "not", Kids: []*G{g.gen(depth+1, guarded)}}
		default:
			return &G{Op: "or", Kids: []*G{g.gen(depth+1, guarded), {Op: "true"}}}
		}
	}
	return g.gen(depth+1, guarded)
}

func (g *gramGen) gen1(depth int, guarded bool) *G {
	t := g.t
	g.budget--
	if g.budget <= 0 || depth >= 7 {
		return g.leaf(guarded)
	}
	w := 6
	if depth > 2 {
		w = 14
	}
	switch weighted(t, w, 8, 5, 2, 2, 2, 1, 1, 2, 2) {
	case 0:
		return g.leaf(guarded)
	case 1:
		min := 2
		if !g.o.normal {
			min = 1
		}
		max := 4
		if chance(t, 5) {
			max = 20
		}
		n := min + intn(t, max-min+1)
		x := &G{Op: "and"}
		for i := 0; i < n; i++ {
			if g.o.cuts > 0 && chance(t, g.o.cuts) {
				x.Kids = append(x.Kids, nil)
			}
			k := g.gen(depth+1, guarded)
			x.Kids = append(x.Kids, k)
			guarded = guarded || !g.nullable(k)
		}
		if g.o.cuts > 0 && chance(t, 4) {
			x.Kids = append(x.Kids, nil)
		}
		return x
	case 2:
		min := 2
		if !g.o.normal {
			min = 1
		}
		max := 4
		if chance(t, 5) {
			max = 20
		}
		n := min + intn(t, max-min+1)
		x := &G{Op: "or"}
		for i := 0; i < n; i++ {
			x.Kids = append(x.Kids, g.gen(depth+1, guarded))
		}
		return x
	case 3:
		return &G{Op: "rep0", Kids: []*G{g.body(depth, guarded)}}
	case 4:
		return &G{Op: "rep1", Kids: []*G{g.body(depth, guarded)}}
	case 5:
		return &G{Op: "rep01", Kids: []*G{g.body(depth, guarded)}}
	case 6:
		return &G{Op: "peek", Kids: []*G{g.gen(depth+1, guarded)}}
	case 7:
		return &G{Op: "not", Kids: []*G{g.gen(depth+1, guarded)}}
	case 8, 9:
		op := "list"
		if chance(t, 40) {
			op = "list0"
		}
		a := g.body(depth, guarded)
		b := g.body(depth, guarded || !g.nullable(a))
		return &G{Op: op, Kids: []*G{a, b}}
	}
	panic("unreachable")
}

// ---------------------------------------------------------------- generating inputs

type sentGen struct {
	t    *rapid.T
	gram *Gram
	out  []string // token texts
	max  int
}

func classText(t *rapid.T, class string) string {
	switch class {
	case "IDENT":
		return pick(t, []string{"u", "v", "w", "ab", "中"})
	case "INT":
		return pick(t, []string{"1", "0", "42", "0x1F", "017", "2147483648", "4294967297", "9007199254740993", "9223372036854775807", "9223372036854775808"}[:heavy(t, 5, 10)])
	case "FLOAT":
		return pick(t, []string{"1.5", ".5", "3", "2e3", "1e400", "9223372036854775809.5"}[:heavy(t, 4, 6)])
	case "IMAG":
		return pick(t, []string{"1i", "2.5i"})
	case "CHAR":
		return pick(t, []string{"'c'", `'\n'`, "';'"})
	case "STRING":
		return pick(t, []string{`"s"`, `"a b"`, "`r`", `"+"`, `""`})
	case "COMMENT":
		return "/* c */"
	}
	return strings.TrimPrefix(class, "kw:")
}

// heavy is how many of the values of a list to pick from: n usually, sometimes all.
func heavy(t *rapid.T, n, all int) int {
	if chance(t, 15) {
		return all
	}
	return n
}

func (s *sentGen) emit(g *G, depth int) {
	t := s.t
	if len(s.out) > s.max || depth > 60 {
		return
	}
	times := func(min int) int {
		if chance(t, 4) {
			return min + intn(t, 40)
		}
		return min + intn(t, 3)
	}
	switch g.Op {
	case "tok":
		s.out = append(s.out, classText(t, g.T))
	case "and":
		for _, k := range g.Kids {
			if k != nil {
				s.emit(k, depth+1)
			}
		}
	case "or":
		if depth > 20 {
			s.emit(g.Kids[0], depth+1)
			return
		}
		s.emit(pick(t, g.Kids), depth+1)
	case "rep0", "rep1":
		min := 0
		if g.Op == "rep1" {
			min = 1
		}
		n := min
		if depth < 12 {
			n = times(min)
		}
		for i := 0; i < n; i++ {
			s.emit(g.Kids[0], depth+1)
		}
	case "rep01":
		if depth < 14 && chance(t, 60) {
			s.emit(g.Kids[0], depth+1)
		}
	case "list", "list0":
		n := 1
		if depth < 12 {
			n = times(1)
			if g.Op == "list0" && chance(t, 25) {
				n = 0
			}
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				s.emit(g.Kids[1], depth+1)
			}
			s.emit(g.Kids[0], depth+1)
		}
	case "ref":
		if depth < 30 {
			s.emit(s.gram.rule(g.Name), depth+1)
		}
	case "mark", "trans":
		s.emit(g.Kids[0], depth+1)
	}
}

// genSentence is the token texts of an input for rule g: derived from it, often damaged.
func genSentence(t *rapid.T, gram *Gram, g *G, vocab []string) []string {
	s := &sentGen{t: t, gram: gram, max: 20}
	if chance(t, 8) {
		s.max = 250
	}
	if !chance(t, 8) {
		s.emit(g, 0)
	}
	out := s.out
	if len(out) > 300 {
		out = out[:300]
	}
	if chance(t, 50) {
		word := func() string {
			if chance(t, 70) && len(vocab) > 0 {
				return classText(t, pick(t, vocab))
			}
			if chance(t, 50) {
				return pick(t, keywordPool)
			}
			return classText(t, pick(t, vocabClasses))
		}
		for _, m := range many(t, 1, 4, 1, func(t *rapid.T) [2]int { return [2]int{intn(t, 5), intn(t, 1000)} }) {
			at := m[1] % (len(out) + 1)
			switch m[0] {
			case 0: // end early
				out = out[:at]
			case 1:
				if at < len(out) {
					out = append(append([]string{}, out[:at]...), out[at+1:]...)
				}
			case 2:
				if at < len(out) {
					out = append([]string{}, out...)
					out[at] = word()
				}
			case 3:
				out = append(append(append([]string{}, out[:at]...), word()), out[at:]...)
			case 4:
				out = append(append([]string{}, out...), word())
			}
		}
	}
	return out
}

func (gram *Gram) vocab() []string {
	var v []string
	seen := map[string]bool{}
	gram.walk(func(g *G) {
		if g.Op == "tok" && !seen[g.T] {
			seen[g.T] = true
			v = append(v, g.T)
		}
	})
	return v
}

// layoutTokens joins token texts with white space, newlines and comments.
func layoutTokens(t *rapid.T, words []string) Text {
	var b strings.Builder
	style := intn(t, 4)
	for i, w := range words {
		if i > 0 {
			switch {
			case style == 0 || style == 1 && !chance(t, 20):
				b.WriteString(" ")
			case style == 3 && chance(t, 30):
				b.WriteString(pick(t, []string{" /* c */ ", " // c\n", " # c\n", "\n\n", "\t", "\r\n", " /* é\n\n*/ "}))
			default:
				b.WriteString("\n")
			}
		}
		b.WriteString(w)
	}
	if style == 3 {
		b.WriteString(pick(t, []string{"", "\n", " ", " // end", "\n\n", "\n# end"}))
	}
	return Text(b.String())
}

func genInputs(t *rapid.T, gram *Gram, rule string, max int) []Text {
	vocab := gram.vocab()
	g := gram.rule(rule)
	return many(t, 1, max, 2, func(t *rapid.T) Text {
		return layoutTokens(t, genSentence(t, gram, g, vocab))
	})
}
