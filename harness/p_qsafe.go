package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- Q08: histories with failing programs on one instance

// SProg is an execution of a history. Kinds: ok (runs by the model), junk (ok up to a syntax error in statement Upto),
// lex (a lexical error somewhere), wild (any text; only containment is judged), set (the host sets a variable).
type SProg struct {
	Kind  string `json:"kind"`
	Upto  int    `json:"upto,omitempty"`
	Open  bool   `json:"open,omitempty"` // the error may be found anywhere after the junk
	NoRet bool   `json:"noret,omitempty"`
	QProg
}

type SCase struct {
	Semis bool    `json:"semis,omitempty"`
	Progs []SProg `json:"progs"`
}

// junks are texts that are no statements, whatever follows; zz variables may get set.
var junks = []string{
	")", "]", "}", ",", ":", ". x", "= 3", "else { }", "elif true { }", "case 1 : 2", "default : 1", "zz =", "zz = )", "zz , yy =", "zz , = [ 1 ]",
	"1 + +", "1 *", "if", "if true", "if true {", "if { 1 }", "if ) { 1 }", "for ; ; {", "for {", "for zz = 0 {", "for ) { }", "switch", "switch 1", "switch 1 {",
	"switch { case }", "switch { case true 1 }", "switch { default }", "switch 1 { 2 }", "fn", "fn (", "fn ( 1 ) { }", "fn ( ) ", "fn ( zz zz ) { }", "fn ( ) { ) }",
	"fn ( ) { zz = }", "fn ( ) { fn ( ) { if } }", "[ 1 , 2", "[ 1 2 ]", "( 1", "( )", "{ 1 : }", "{ 1 : 2", "{ 1 }", "{ 1 : 2 3 : 4 }", "! )", "* 3", "new 3", "new", "new ( )", "class",
	"class { 3 }", "class { fn ( ) { } }", "class {", "class { fn m ( ) { ) } }", "recover", "recover ( 1 )", "defer", "defer )", "len (", "len ( 1 2 )", `"a" [`, `"a" [ ]`,
	`"a" [ 1 : 2 : 3 ]`, `"a" .`, `"a" . 3`, "1 2", "1 ( 2 )", "main )", "main {", "@", "?", "~", "1 ? 2 : 3", "1 @ 2", "1 , 2 , 3", "zz = 1 2", "1 = 2", "1 ++", `"a" += 1`, "if true { 1 } elif", "if true { 1 } else",
	"if true { 1 } else 2", "if true 1", "if 1 { 2 } elif { 3 }", "1 &&", "&& true", "true || ", "|| 1", "&", "1 & 2", "1 ! 2", "...", "len ( 1 ... , 2 )",
}

// lexJunks can't be scanned.
var lexJunks = []string{`"abc`, "`abc", "''", `"\q"`, "09", "/* abc", "'ab'", `'a`, "\"a\nb\"", `"\xg"`, "zz = '", "0x", "1e", "\xff", "\"\xff\"", `'\400'`}

func genSafe(t *rapid.T) SCase {
	c := SCase{Semis: chance(t, 50)}
	g := newQGen(t, qfoci["Q08"], "")
	n := tail(t, 2, 4, 8)
	for i := 0; i <= n+1; i++ {
		g.left = 10 + tail(t, 20, 40, 100)
		var s SProg
		if chance(t, 30) {
			s.Fname = pick(t, []string{"a.ql", "dir/x y.ql"})
		}
		s.NoRet = chance(t, 40)
		vars := append([]qvar{}, g.sc[0].vars...)
		switch weighted(t, 5, 5, 1, 3, 1) {
		case 0:
			s.Kind = "ok"
			s.Prog = g.program()
			s.Text = Text(qtext(t, s.Prog, c.Semis))
		case 1:
			s.Kind = "junk"
			s.Prog = g.program()
			s.Upto = intn(t, len(s.Prog.L)+1)
			if chance(t, 60) {
				s.Upto = len(s.Prog.L) - intn(t, min(3, len(s.Prog.L)+1))
			}
			var node *Q
			node, s.Open = g.junk()
			L := append([]*Q{}, s.Prog.L[:s.Upto]...)
			s.Prog.L = append(append(L, node), s.Prog.L[s.Upto:]...)
			s.Text = Text(qtext(t, s.Prog, c.Semis))
			g.sc[0].vars = vars
		case 2:
			s.Kind = "lex"
			s.Prog = g.program()
			s.Upto = intn(t, len(s.Prog.L)+1)
			mark := &Q{K: "junk", P: []string{"lexical_junk"}}
			L := append([]*Q{}, s.Prog.L[:s.Upto]...)
			s.Prog.L = append(append(L, mark), s.Prog.L[s.Upto:]...)
			text := qtext(t, s.Prog, c.Semis)
			bad := strings.Replace(text, "lexical_junk", pick(t, lexJunks), 1)
			if len(refLex(bad, c.Semis).Errs) == 0 { // a later quote or comment completes it
				bad = strings.Replace(text, "lexical_junk", `'ab'`, 1)
			}
			s.Text = Text(bad)
			g.sc[0].vars = vars
		case 3:
			s.Kind = "wild"
			s.Text = Text(genWild(t, c.Semis))
		default:
			s.Kind = "set"
			name := g.fresh()
			for name[0] == '_' {
				name = g.fresh()
			}
			typ := g.pick("i", "s", "f", "b", "n")
			var v *Q
			switch typ {
			case "i":
				v = g.intLit()
			case "s":
				v = g.strLit()
			case "f":
				v = g.floatLit()
			case "b":
				v = qref(g.pick("true", "false"))
			default:
				v = qref("nil")
			}
			s.Prog = &Q{K: "block", L: []*Q{qassign(name, v)}}
			g.declare(name, typ)
		}
		c.Progs = append(c.Progs, s)
	}
	return c
}

// junk is a statement with a syntax error in it, or in a block inside of it.
func (g *qgen) junk() (node *Q, open bool) {
	text := pick(g.t, junks)
	q := &Q{K: "junk", P: strings.Fields(text)}
	open = strings.Count(text, "{") > strings.Count(text, "}")
	if g.pct(50) || text == "}" || strings.HasPrefix(text, "case") || strings.HasPrefix(text, "default") {
		return q, open
	}
	// nothing of the enclosing statement may run
	b := qblock()
	for i, n := 0, intn(g.t, 3); i < n; i++ {
		b.L = append(b.L, g.trace())
	}
	b.L = append(b.L, q)
	for i, n := 0, intn(g.t, 2); i < n; i++ {
		b.L = append(b.L, g.trace())
	}
	for i, n := 0, 1+intn(g.t, 3); i < n; i++ {
		var s *Q
		switch weighted(g.t, 3, 2, 3, 2, 2, 1, 1, 1) {
		case 0:
			s = &Q{K: "if", L: []*Q{qref("true"), b}}
		case 1:
			s = &Q{K: "if", V: true, L: []*Q{qref("true"), qblock(g.trace()), b}}
		case 2:
			s = qassign("zz", qfn(nil, b))
		case 3:
			s = qcallv(qfn(nil, b))
		case 4:
			s = &Q{K: "for", L: []*Q{qref("true"), b}}
		case 5:
			s = &Q{K: "switch", V: true, L: []*Q{qlit("1"), qlit("1"), qblock(g.trace()), b}}
		case 6:
			s = qassign("zz", &Q{K: "class", L: []*Q{{K: "fn", S: "m", L: []*Q{b}}}})
		default:
			s = qdefer(qcallv(qfn(nil, b)))
		}
		node, b = s, qblock(s)
	}
	return node, open
}

// genWild is a text that may do anything but run long.
func genWild(t *rapid.T, semis bool) string {
	switch weighted(t, 4, 2, 3) {
	case 0: // a program with some tokens changed
		g := newQGen(t, qfocus{exprs: 5, assigns: 5, ctrl: 3, conts: 4, errs: 10, depth: 4}, "mu_")
		g.left = 60
		p := g.program()
		if p.hasKind("fn", "for", "class", "new") {
			break
		}
		text := qtext(t, p, semis)
		var toks []string
		for _, k := range withoutComments(refLex(text, semis).Toks) {
			toks = append(toks, text[k.Start:k.End])
		}
		for i, n := 0, 1+intn(t, 3); i < n && len(toks) > 0; i++ {
			at := intn(t, len(toks))
			switch intn(t, 4) {
			case 0:
				toks = append(toks[:at:at], toks[at+1:]...)
			case 1:
				toks = append(toks[:at:at], append([]string{pick(t, soupTokens)}, toks[at:]...)...)
			case 2:
				toks[at] = pick(t, soupTokens)
			default:
				b := intn(t, len(toks))
				toks[at], toks[b] = toks[b], toks[at]
			}
		}
		return joinWild(t, toks)
	case 1: // any tokens
		toks := many(t, 1, 40, 8, func(t *rapid.T) string { return pick(t, soupTokens) })
		return joinWild(t, toks)
	}
	// builtin functions and operators with any arguments
	g := newQGen(t, qfocus{exprs: 5, conts: 3, funcs: 1, depth: 2}, "mu_")
	p := &Q{K: "block"}
	for i, n := 0, intn(t, 3); i < n; i++ {
		typ := g.typ()
		p.L = append(p.L, g.assignTo(g.fresh(), typ, g.expr(typ, 2))...)
	}
	any := func() *Q {
		if g.pct(10) {
			return qref(g.pick("len", "undefined", "nil", "hv_t", "type", "unset"))
		}
		return g.expr("v", 1)
	}
	var e *Q
	switch weighted(t, 8, 3, 2, 2, 1, 1, 1, 1, 1) {
	case 0:
		names := sortedKeys(qBuiltins)
		name := pick(t, names)
		for name == "slice" || name == "mkmap" || strings.HasPrefix(name, "panic") || strings.Contains(name, "print") {
			name = pick(t, names)
		}
		e = qcall(name, many(t, 0, 5, 2, func(*rapid.T) *Q { return any() })...)
		e.V = len(e.L) > 1 && g.pct(10)
	case 1:
		e = qbin(g.pick("+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||"), any(), any())
	case 2:
		e = qidx(any().paren(), any())
	case 3:
		e = &Q{K: "sl", L: []*Q{any().paren(), any(), any()}}
	case 4:
		e = qmem(any().paren(), g.pick("x", "len", "error", "string", "kind", "elem", "name"))
	case 5:
		e = &Q{K: "un", S: g.pick("-", "!", "+"), L: []*Q{any()}}
	case 6:
		e = qcallv(any().paren(), any())
	case 7:
		e = qcall("slice", any(), qint(intn(t, 9)))
	default:
		e = qcall("mkmap", any())
	}
	p.L = append(p.L, e)
	return qtext(t, p, semis)
}

var soupTokens = []string{
	"mu_a", "mu_b", "mu_c", "mu_a", "1", "2", "0", "1.5", `"a"`, `""`, "'a'", "nil", "true", "false", "undefined", "len", "append", "get", "set", "sub", "max", "min", "int", "string",
	"byte", "float", "mapFrom", "sliceFrom", "type", "delete", "cap", "unset", "hv_t", "if", "elif", "else", "switch", "case", "default", "new", "recover", "defer", "panic", "class",
	"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "!", "=", "+=", "++", "--", "(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "...", "(", ")", ",", ";", "\n", "@", "?",
}

func joinWild(t *rapid.T, toks []string) string {
	big := false
	for _, k := range toks {
		big = big || k == "slice" || k == "mkmap"
	}
	var b strings.Builder
	for _, k := range toks {
		if big && len(k) > 3 && isIntText(k) {
			k = "7"
		}
		b.WriteString(k)
		b.WriteString(pick(t, []string{" ", " ", " ", " ", "\n"}))
	}
	return b.String()
}

// junkOf is the junk node of a program.
func junkOf(p *Q) (j *Q) {
	p.walk(func(q *Q) {
		if q.K == "junk" {
			j = q
		}
	})
	return
}

var reSyntaxLine = regexp.MustCompile(`(?m)^(?:line |(?:a\.ql|dir/x y\.ql):)(\d+): (?:match failed|runtime error)`)

// safeExec is SafeExec; escaped: it panicked.
func safeExec(c interface {
	SafeExec([]byte, string) error
}, text, fname string) (err error, escaped interface{}) {
	defer func() {
		if e := recover(); e != nil {
			escaped = e
		}
	}()
	err = c.SafeExec([]byte(text), fname)
	if err != nil {
		_ = err.Error()
	}
	return
}

func checkSafe(c SCase, x *Ctx) (bad error) {
	lang, err := newQlang(c.Semis)
	if err != nil {
		return failf("New: %v", err)
	}
	m := newQM()
	failed := false
	old := map[*Q]bool{} // nodes of earlier programs
	var kept errKeep
	defer func() {
		if bad == nil {
			bad = kept.check()
		}
	}()
	for i, p := range c.Progs {
		at := func(e error) error {
			if e == nil {
				return nil
			}
			return fmt.Errorf("program %d (%s): %w\n%s", i, p.Kind, e, p.Text)
		}
		m.trace, m.steps = nil, 0
		qTrace, qEvents = nil, 0
		cleanup := func() {
			for k := range lang.Vars() {
				if _, ok := m.top.vars[k]; !ok {
					lang.Unset(k)
				}
			}
		}
		switch p.Kind {
		case "set":
			a := p.Prog.L[0]
			v := m.eval(m.top, a.L[0])
			lang.SetVar(a.S, v)
			m.top.vars[a.S] = v
			if got, ok := lang.Var(a.S); !ok || snapReal(got) != m.snap(v) {
				return at(failf("Var(%s) is %v, %v after SetVar", a.S, got, ok))
			}
			continue
		case "wild":
			err, escaped := safeExec(lang, string(p.Text), p.Fname)
			kept.add(err)
			if escaped != nil {
				if _, ok := escaped.(qRunaway); ok || mayPanic(string(p.Text), escaped) {
					x.Class("wild program leaves by design")
					return errSkipAfter(i)
				}
				return at(failf("SafeExec panics: %v", escaped))
			}
			if err != nil {
				failed = true
				x.Class("wild program fails")
			} else {
				x.Class("wild program runs")
			}
			if !p.NoRet {
				lang.Ret()
			}
			cleanup()
			if e := sameVars(lang, m); e != nil {
				return at(e)
			}
			continue
		case "lex":
			err, escaped := safeExec(lang, string(p.Text), p.Fname)
			kept.add(err)
			if escaped != nil {
				return at(failf("SafeExec panics: %v", escaped))
			}
			if err == nil {
				return at(failf("no error for a text that has no tokens"))
			}
			failed = true
			x.Class("lexical error")
			cleanup()
			if len(qTrace) == 0 && sameVars(lang, m) == nil {
				continue // nothing of it was executed
			}
		}
		upto := len(p.Prog.L)
		if p.Kind != "ok" {
			upto = p.Upto
		}
		var val interface{}
		var want *mErr
		skip := model(func() {
			m.noRecover = p.Kind != "ok"
			val, want = m.run(p.Prog, upto)
			for _, v := range m.top.vars {
				m.snap(v)
			}
			m.snap(val)
		})
		if skip != "" {
			x.Class(skip)
			return errSkipAfter(i)
		}
		trace := qTrace
		if p.Kind != "lex" {
			var escaped interface{}
			err, escaped = safeExec(lang, string(p.Text), p.Fname)
			kept.add(err)
			trace = qTrace
			if escaped != nil {
				return at(failf("SafeExec panics: %v", escaped))
			}
		}
		if e := sameTrace(trace, m.trace); e != nil {
			return at(fmt.Errorf("%w (error %v)", e, err))
		}
		switch {
		case p.Kind == "lex":
		case want != nil || p.Kind == "ok" || m.topRec:
			x.ClassIf(want != nil, "runtime error")
			failed = failed || want != nil
			if p.Kind == "junk" && m.deferErr {
				x.Class("panic in a deferred call after a syntax error")
				if err == nil {
					return at(failf("no error"))
				}
				break
			}
			if want != nil && old[want.at] { // in a function of an earlier program
				x.Class("error in a function of an earlier program")
				if err == nil {
					return at(failf("no error, want one (%s)", want.msg))
				}
				break
			}
			if e := sameRunErr(err, want, p.Fname); e != nil {
				return at(e)
			}
		default:
			failed = true
			x.Class("syntax error")
			j := junkOf(p.Prog)
			if err == nil {
				return at(failf("no error for the syntax error at line %d", j.A))
			}
			if e := syntaxLine(err.Error(), p, j); e != nil {
				return at(e)
			}
			x.ClassIf(p.Prog.L[p.Upto] != j, "syntax error in a block")
			x.ClassIf(p.Upto > 0, "syntax error after statements")
		}
		p.Prog.walk(func(q *Q) { old[q] = true })
		for _, k := range []string{"zz", "yy"} {
			lang.Unset(k)
		}
		if e := sameVars(lang, m); e != nil {
			return at(e)
		}
		if p.Kind == "ok" && want == nil && !m.topRec && !p.NoRet {
			ret, ok := lang.Ret()
			if !ok {
				return at(failf("Ret: nothing, want %s", m.snap(val)))
			}
			if got, want := snapReal(ret), m.snap(val); got != want {
				return at(failf("Ret is %s, want %s", got, want))
			}
			x.ClassIf(failed, "value of a program after a failed one")
			if failed && i > 0 {
				x.NonTrivial()
			}
		}
	}
	return nil
}

func errSkipAfter(i int) error {
	if i == 0 {
		return errSkip
	}
	return nil
}

// mayPanic: panic() with something that is no string and no error isn't stopped.
func mayPanic(text string, e interface{}) bool {
	switch e.(type) {
	case string, error:
		return false
	}
	return strings.Contains(text, "panic")
}

func syntaxLine(msg string, p SProg, j *Q) error {
	last := 1 << 30
	if !p.Open { // the token after the junk
		lines := strings.SplitAfter(string(p.Text), "\n")
		rest := strings.Join(lines[min(j.Z, len(lines)):], "")
		last = j.Z
		if toks := withoutComments(refLex(rest, false).Toks); len(toks) > 0 {
			last += 1 + strings.Count(rest[:toks[0].Start], "\n")
		}
	}
	var got []int
	for _, s := range reSyntaxLine.FindAllStringSubmatch(msg, -1) {
		n, _ := strconv.Atoi(s[1])
		if n >= j.A && n <= last {
			return nil
		}
		got = append(got, n)
	}
	sort.Ints(got)
	return failf("the error names the lines %v, the text is wrong at %d: %s", got, j.A, msg)
}

func init() {
	reg("Q08", "history", "a program ran and gave its value after another one had failed", 10000, 400000, genSafe, checkSafe)
}

// ---------------------------------------------------------------- the line of an error in a function of an earlier program

type OldLine struct {
	Before, In, Call int // lines before the function, in it, and before its call
	Pad              int // length of the lines
}

func checkOldLine(c OldLine, x *Ctx) error {
	lang, err := newQlang(true)
	if err != nil {
		return failf("New: %v", err)
	}
	pad := strings.Repeat("1;", c.Pad) + "1\n"
	def := strings.Repeat(pad, c.Before) + "f = fn() {\n" + strings.Repeat(pad, c.In) + "return 1/0\n}"
	if err := lang.SafeExec([]byte(def), "def.ql"); err != nil {
		return failf("definition: %v", err)
	}
	call := strings.Repeat(pad, c.Call) + "f()\n" + strings.Repeat(pad, 3)
	err = lang.SafeExec([]byte(call), "call.ql")
	if err == nil {
		return failf("no error")
	}
	x.NonTrivial()
	m := reErrLine.FindStringSubmatch(err.Error())
	if m == nil {
		return failf("no line in %q", err)
	}
	line, _ := strconv.Atoi(m[2])
	if m[1] == "def.ql" && line == c.Before+c.In+2 || m[1] == "call.ql" && line == c.Call+1 {
		return nil
	}
	return failf("function of an earlier execution: it fails at def.ql:%d, called at call.ql:%d, the error is %v", c.Before+c.In+2, c.Call+1, err)
}

func init() {
	regQ("Q08", "an error stopped the program or a recover stopped the error", 6000, 200000, anyStat("runtime error", "recovered"))
	reg("Q08", "oldline", "a function of an earlier execution failed", 200, 2000, func(t *rapid.T) OldLine {
		return OldLine{intn(t, 5), intn(t, 5), intn(t, 5), intn(t, 9)}
	}, checkOldLine)
}
