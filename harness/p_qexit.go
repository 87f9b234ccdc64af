package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- Q09: programs that end the process

// The child reads a QCase, executes its programs one after the other and writes events as they happen.
//
//	p I        program I starts
//	e EVENT    (quoted)
//	r ERROR    the program returned (quoted; "-" without error)
//	end        all programs returned
func exitChild(args []string) int {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		fmt.Println("harness", err)
		return 1
	}
	var c QCase
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println("harness", err)
		return 1
	}
	lang, err := newQlang(c.Semis)
	if err != nil {
		fmt.Println("new", strconv.Quote(err.Error()))
		return 0
	}
	qOnEvent = func(s string) { fmt.Println("e", strconv.Quote(s)) }
	for i, p := range c.Progs {
		fmt.Println("p", i)
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println("panic", strconv.Quote(fmt.Sprint(e)))
				}
			}()
			err, _ := runReal(lang, p)
			if err != nil {
				fmt.Println("r", strconv.Quote(err.Error()))
			} else {
				fmt.Println("r -")
			}
		}()
	}
	fmt.Println("end")
	return 0
}

// exitModel runs f; code >= 0: the process ends with this status.
func exitModel(f func()) (code int, skip string) {
	code = -1
	skip = model(func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case mExit:
				code = e.code & 255
			default:
				panic(e)
			}
		}()
		f()
	})
	return
}

func genExit(t *rapid.T) QCase {
	c := QCase{Semis: chance(t, 50)}
	f := qfocus{exprs: 2, assigns: 2, ctrl: 3, funcs: 3, defers: 4, errs: 8, depth: 4}
	g := newQGen(t, f, "")
	for i, n := 0, 1+weighted(t, 6, 3, 1); i < n; i++ {
		g.left = 40
		p := g.program()
		if i == n-1 || chance(t, 10) {
			for j, n := 0, 1+weighted(t, 6, 2); j < n; j++ {
				g.insertExit(p)
			}
		}
		fname := ""
		if chance(t, 20) {
			fname = "a.ql"
		}
		c.Progs = append(c.Progs, QProg{p, Text(qtext(t, p, c.Semis)), fname})
	}
	return c
}

// exitVal is the operand of return.
func (g *qgen) exitVal() []*Q {
	switch weighted(g.t, 4, 3, 8, 3, 2) {
	case 0:
		return nil
	case 1:
		return []*Q{qref("nil")}
	case 2:
		return []*Q{g.intLitOf(pick(g.t, []int{0, 1, 2, 3, 7, 42, 127, 128, 255, 256, 257, 511, 1000, -1, -2}))}
	case 3:
		return []*Q{g.expr("i", 2)}
	default:
		return []*Q{g.leaf(g.pick("f", "s", "b", "y", "Li"))}
	}
}

func (g *qgen) intLitOf(n int) *Q {
	if n < 0 {
		return (&Q{K: "un", S: "-", L: []*Q{qint(-n)}}).paren()
	}
	return qint(n)
}

func (g *qgen) mainStmt() *Q {
	b := &Q{K: "block"}
	g.scoped("n", nil, func() {
		for i, n := 0, weighted(g.t, 3, 4, 3, 2); i < n; i++ {
			switch weighted(g.t, 3, 3, 2, 1) {
			case 0:
				b.L = append(b.L, g.trace())
			case 1:
				b.L = append(b.L, g.deferStmt(2))
			case 2:
				b.L = append(b.L, g.stmts(2, 1, 2, 1)...)
			default:
				b.L = append(b.L, qcall("panic", qstr("boom in main")))
			}
		}
		if g.pct(65) {
			ret := qreturn(g.exitVal()...)
			if g.pct(20) {
				ret = &Q{K: "if", L: []*Q{g.expr("b", 1), qblock(ret)}}
			}
			b.L = append(b.L, ret)
			if g.pct(20) {
				b.L = append(b.L, g.trace())
			}
		}
	})
	if len(b.L) == 0 {
		return &Q{K: "main", L: []*Q{nil}}
	}
	return &Q{K: "main", L: []*Q{b}}
}

// insertExit puts a return or main somewhere into the program: at top level, in a block of a statement
// or (main) in the body of a function.
func (g *qgen) insertExit(p *Q) {
	g.sc = g.sc[:1]
	type place struct {
		b  *Q
		fn bool
	}
	var places []place
	var visit func(q *Q, fn bool)
	visit = func(q *Q, fn bool) {
		if q == nil {
			return
		}
		if q.K == "block" && len(q.L) > 0 {
			places = append(places, place{q, fn})
		}
		for _, k := range q.L {
			visit(k, fn || q.K == "fn" || q.K == "class" || q.K == "main")
		}
	}
	visit(p, false)
	if len(places) == 0 {
		places = []place{{p, false}}
	}
	at := places[0]
	if g.pct(40) {
		at = pick(g.t, places)
	}
	var s *Q
	if at.fn || g.pct(40) {
		s = g.mainStmt()
	} else {
		s = qreturn(g.exitVal()...)
		if g.pct(15) {
			s = &Q{K: "defer", L: []*Q{{K: "if", L: []*Q{qref("true"), qblock(g.trace(), s)}}}}
		}
	}
	i := len(at.b.L)
	if g.pct(60) {
		i = intn(g.t, i+1)
	}
	at.b.L = append(at.b.L[:i:i], append([]*Q{s}, at.b.L[i:]...)...)
	if g.pct(50) { // deferred code of the top level
		p.L = append([]*Q{g.deferStmt(2)}, p.L...)
	}
}

func checkExit(c QCase, x *Ctx) error {
	m := newQM()
	type outcome struct {
		trace []string
		err   *mErr
		code  int
	}
	var want []outcome
	exits := false
	for i, p := range c.Progs {
		m.trace, m.steps = nil, 0
		var e *mErr
		code, skip := exitModel(func() { _, e = m.run(p.Prog, len(p.Prog.L)) })
		if skip != "" {
			x.Class(skip)
			if i == 0 {
				return errSkip
			}
			c.Progs = c.Progs[:i]
			break
		}
		want = append(want, outcome{m.trace, e, code})
		if code >= 0 {
			exits = true
			c.Progs = c.Progs[:min(len(c.Progs), i+2)] // the next one must not run
			break
		}
	}
	self, err := os.Executable()
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	in, err := json.Marshal(c)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	out, stderr, code, err := runCmdIn(20*time.Second, "", nil, in, self, "qexit")
	if err != nil {
		return failf("the process did not end by itself: %v\n%s", err, stderr)
	}
	if strings.HasPrefix(string(out), "harness ") {
		return fmt.Errorf("harness: child failed: %s", out)
	}
	sc := bufio.NewScanner(strings.NewReader(string(out)))
	sc.Buffer(nil, 64<<20)
	next := func() (k, v string) {
		if !sc.Scan() {
			return "", ""
		}
		k, v, _ = strings.Cut(sc.Text(), " ")
		if s, err := strconv.Unquote(v); err == nil {
			v = s
		}
		return
	}
	for i, w := range want {
		text := c.Progs[i].Text
		at := func(format string, a ...interface{}) error {
			return fmt.Errorf("program %d: %w\n%s", i, failf(format, a...), text)
		}
		if k, v := next(); k != "p" || v != strconv.Itoa(i) {
			return at("it did not start: %s %s", k, v)
		}
		var trace []string
		k, v := next()
		for ; k == "e"; k, v = next() {
			trace = append(trace, v)
		}
		if e := sameTrace(trace, w.trace); e != nil {
			return at("%v (then: %s %s, status %d)", e, k, v, code)
		}
		if w.code >= 0 {
			switch {
			case k != "":
				return at("the process didn't end: %s %s", k, v)
			case code != w.code:
				return at("the process ended with status %d, want %d (%s)", code, w.code, stderr)
			}
			x.ClassIf(w.code == 0, "status 0")
			x.ClassIf(w.code > 0, "status above 0")
			break
		}
		if k != "r" {
			return at("it did not return: %s %s, status %d\n%s", k, v, code, stderr)
		}
		if (v != "-") != (w.err != nil) { // the line is for Q08
			return at("it returned with the error %s, want %v", v, w.err)
		}
		if w.err != nil && strings.Contains(w.err.msg, "boom") && !strings.Contains(v, w.err.msg) {
			return at("the error %q doesn't contain %q", v, w.err.msg)
		}
		x.ClassIf(w.err != nil, "program ends with an error")
	}
	if !exits {
		if k, v := next(); k != "end" || code != 0 {
			return failf("after all programs: %s %s, status %d", k, v, code)
		}
	}
	for s := range m.stats {
		x.Class(s)
	}
	x.ClassIf(!exits, "no exit")
	x.NonTrivialIf(exits)
	return nil
}

func init() {
	childModes["qexit"] = exitChild
	reg("Q09", "exit", "a program ended the process", 6000, 100000, genExit, checkExit)
}
