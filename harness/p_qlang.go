package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	"github.com/qiniu/text/tpl/qlang/spec"
)

var qlangUndefined = spec.Undefined

// ---------------------------------------------------------------- running programs on the code under test

type qRunaway struct{}

var (
	qTrace  []string
	qEvents int

	qOnEvent func(string) // nil: no one wants to know at once
)

func init() {
	qlang.Import("", map[string]interface{}{
		"hv_t": func(args ...interface{}) interface{} {
			qEvents++
			if qEvents > 20000 {
				panic(qRunaway{})
			}
			var s []string
			for _, a := range args {
				s = append(s, snapReal(a))
			}
			qTrace = append(qTrace, strings.Join(s, " "))
			if qOnEvent != nil {
				qOnEvent(qTrace[len(qTrace)-1])
			}
			return args[len(args)-1]
		},
	})
}

// QProg is a program, as a tree and as text.
type QProg struct {
	Prog  *Q     `json:"prog"`
	Text  Text   `json:"text"`
	Fname string `json:"fname,omitempty"`
}

// QCase is a history of programs on one instance.
type QCase struct {
	Semis bool    `json:"semis,omitempty"`
	Large bool    `json:"large,omitempty"` // the model may go further and deeper
	Progs []QProg `json:"progs"`
}

func newQlang(semis bool) (qlang.Qlang, error) {
	if semis {
		return qlang.New(qlang.InsertSemis)
	}
	return qlang.New(nil)
}

var reErrLine = regexp.MustCompile(`^(?s:(.*?):|line )(\d+): runtime error: `)

// sameErr compares an error of the code under test with that of the model.
func sameRunErr(err error, want *mErr, fname string) error {
	if want == nil {
		if err != nil {
			return failf("unexpected error: %v", err)
		}
		return nil
	}
	if err == nil {
		return failf("no error, want one (%s) at lines %d-%d", want.msg, want.at.A, want.at.Z)
	}
	text := err.Error()
	if want.msg != "" && strings.HasPrefix(want.msg, "boom") && !strings.Contains(text, want.msg) {
		return failf("error %q doesn't contain the message %q", text, want.msg)
	}
	m := reErrLine.FindStringSubmatch(text)
	if m == nil {
		return failf("the error names no line: %q", text)
	}
	if m[1] != fname {
		return failf("the error names the file %q, want %q: %q", m[1], fname, text)
	}
	if line, _ := strconv.Atoi(m[2]); line < want.at.A || line > want.at.Z {
		return failf("the error names line %d, want %d-%d: %q", line, want.at.A, want.at.Z, text)
	}
	return nil
}

func sameTrace(got, want []string) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return failf("event %d is (%s), want (%s)", i, g, w)
		}
	}
	return nil
}

func sameVars(lang qlang.Qlang, m *qm) error {
	vars := lang.Vars()
	names := map[string]bool{}
	for k := range vars {
		names[k] = true
	}
	for k := range m.top.vars {
		names[k] = true
	}
	for _, k := range sortedKeys(names) {
		got, want := "nothing", "nothing"
		if v, ok := vars[k]; ok {
			got = snapReal(v)
		}
		if v, ok := m.top.vars[k]; ok {
			want = m.snap(v)
		}
		if got != want {
			return failf("variable %s is %s, want %s", k, got, want)
		}
	}
	return nil
}

// model runs f with the reference evaluator; skip: it left what is specified.
func model(f func()) (skip string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case mUnspec:
			skip = "unspecified: " + e.why
		case mBudget:
			skip = "too long"
		default:
			panic(e)
		}
	}()
	f()
	return
}

// runReal executes a program with events recorded.
func runReal(lang qlang.Qlang, p QProg) (err error, trace []string) {
	qTrace, qEvents = nil, 0
	err = lang.SafeExec([]byte(p.Text), p.Fname)
	return err, qTrace
}

// qcheck compares a history with the model. rule says when a case is non-trivial.
func qcheck(c QCase, x *Ctx, rule func(m *qm) bool) error {
	lang, err := newQlang(c.Semis)
	if err != nil {
		return failf("New: %v", err)
	}
	return qcheckOn(lang, c, x, rule)
}

func qcheckOn(lang qlang.Qlang, c QCase, x *Ctx, rule func(m *qm) bool) error {
	m := newQM()
	if c.Large {
		m.budget, m.maxDepth = 200000, 5000
	}
	for i, p := range c.Progs {
		m.trace, m.steps = nil, 0
		var val interface{}
		var want *mErr
		wantVars := map[string]string{}
		skip := model(func() {
			val, want = m.run(p.Prog, len(p.Prog.L))
			for k, v := range m.top.vars {
				wantVars[k] = m.snap(v)
			}
			m.snap(val)
		})
		if skip != "" {
			x.Class(skip)
			if i == 0 {
				return errSkip
			}
			return nil
		}
		x.ClassIf(want != nil, "program ends with an error")
		x.ClassIf(want == nil, "program ends normally")
		err, trace := runReal(lang, p)
		at := func(e error) error {
			if e == nil {
				return nil
			}
			return fmt.Errorf("program %d: %w\n%s", i, e, p.Text)
		}
		if e := sameTrace(trace, m.trace); e != nil {
			return at(fmt.Errorf("%w (error %v)", e, err))
		}
		if e := sameRunErr(err, want, p.Fname); e != nil {
			return at(e)
		}
		if e := sameVars(lang, m); e != nil {
			return at(e)
		}
		if want == nil && !m.topRec {
			ret, ok := lang.Ret()
			if !ok {
				return at(failf("Ret: nothing, want %s", m.snap(val)))
			}
			if got, want := snapReal(ret), m.snap(val); got != want {
				return at(failf("Ret is %s, want %s", got, want))
			}
		}
	}
	for s := range m.stats {
		x.Class(s)
	}
	x.NonTrivialIf(rule(m))
	return nil
}

func genProgs(f qfocus, n int) func(t *rapid.T) QCase {
	return func(t *rapid.T) QCase {
		c := QCase{Semis: chance(t, 50)}
		var g *qgen
		for i := 0; i < n; i++ {
			if g == nil {
				g = newQGen(t, f, "")
			} else {
				g.left = 60
			}
			p := g.program()
			text := qtext(t, p, c.Semis)
			fname := ""
			if chance(t, 30) {
				fname = pick(t, []string{"a.ql", "dir/x y.ql"})
			}
			c.Progs = append(c.Progs, QProg{p, Text(text), fname})
		}
		return c
	}
}

var qfoci = map[string]qfocus{
	"Q01": {exprs: 8, assigns: 2, errs: 40, depth: 5},
	"Q02": {exprs: 2, assigns: 2, ctrl: 5, errs: 20, depth: 5},
	"Q03": {exprs: 2, assigns: 2, ctrl: 2, funcs: 6, errs: 20, depth: 5},
	"Q04": {exprs: 1, assigns: 2, ctrl: 2, funcs: 3, defers: 4, errs: 40, depth: 5},
	"Q05": {exprs: 1, assigns: 1, ctrl: 1, funcs: 2, classes: 8, errs: 25, depth: 5},
	"Q06": {exprs: 2, assigns: 2, ctrl: 1, funcs: 1, conts: 8, errs: 30, depth: 4},
	"Q07": {exprs: 1, assigns: 8, ctrl: 2, funcs: 4, conts: 1, errs: 30, depth: 5},
	"Q08": {exprs: 2, assigns: 3, ctrl: 3, funcs: 3, defers: 3, classes: 2, conts: 3, errs: 60, depth: 5},
}

func anyStat(names ...string) func(*qm) bool {
	return func(m *qm) bool {
		for _, n := range names {
			if m.stats[n] {
				return true
			}
		}
		return false
	}
}

func regQ(id, rule string, quick, deep int, nontrivial func(*qm) bool) {
	reg(id, "program", rule, quick, deep, genProgs(qfoci[id], 1),
		func(c QCase, x *Ctx) error { return qcheck(c, x, nontrivial) })
}

func init() {
	regQ("Q01", "the program runs at least 10 steps", 16000, 600000, func(m *qm) bool { return m.steps >= 10 })
	regQ("Q02", "a branch, case or loop was selected", 12000, 400000, anyStat("third branch or later", "else", "case", "default", "loop of several rounds"))
	regQ("Q03", "a function of the program was called", 12000, 400000, func(m *qm) bool { return m.stats["call"] })
	regQ("Q04", "a deferred call ran", 12000, 400000, anyStat("deferred call"))
	regQ("Q05", "an object was made and a method called", 12000, 400000, func(m *qm) bool { return m.stats["object"] && m.stats["method call"] })
	regQ("Q06", "a container was changed or sliced", 12000, 400000, anyStat("container changed", "slice of a slice"))
	regQ("Q07", "an outer variable was used or a compound or multiple assignment done", 12000, 400000, anyStat("outer variable read", "outer variable assigned", "multiple assignment", "compound assignment"))
}
