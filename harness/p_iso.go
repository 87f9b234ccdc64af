package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"sync"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I10: instances do not influence each other

// IsoWork is one instance and what is done with it. Exactly one of the cases is set.
type IsoWork struct {
	Match *TextCase    `json:",omitempty"`
	Host  *HostCase    `json:",omitempty"`
	Calc  *CalcHistory `json:",omitempty"`
	Ex    *ExCase      `json:",omitempty"`
	Lang  *QCase       `json:",omitempty"`
	QHost *QHostCase   `json:",omitempty"`
	Lex   *HistCase    `json:",omitempty"`
}

// IsoCase are instances to be used alone, interleaved, nested and in parallel.
type IsoCase struct {
	Works []IsoWork
	Order []int // choices of the interleaving
	Nest  []int // choices of the nesting: -1 for none
}

const isoSteps = 4000

func genIso(t *rapid.T) IsoCase {
	c := IsoCase{}
	n := 2 + weighted(t, 5, 3, 2)
	for len(c.Works) < n {
		if len(c.Works) > 0 && chance(t, 35) {
			c.Works = append(c.Works, pick(t, c.Works)) // another instance of the same
			continue
		}
		w := IsoWork{}
		switch weighted(t, 3, 4, 4, 3, 5, 2, 2) {
		case 0:
			x := genTextCase(gramOpts{marks: 40, cuts: 3, keywords: true})(t)
			w.Match = &x
		case 1:
			x := genHost(hostOpts{marks: 35, cuts: 3, sigs: true, fail: 5, code: 5, mute: 5, steps: 3, fnames: true, onlyU: 20})(t)
			w.Host = &x
		case 2:
			x := genCalcHistory(t)
			w.Calc = &x
		case 3:
			x := genExCase(true)(t)
			w.Ex = &x
		case 4:
			x := genProgs(qfocus{exprs: 2, assigns: 3, ctrl: 2, funcs: 3, defers: 2, classes: 3, conts: 3, errs: 20, depth: 4}, 1+intn(t, 3))(t)
			w.Lang = &x
		case 5:
			x := genQHost(t)
			w.QHost = &x
		case 6:
			x := genHist(t)
			w.Lex = &x
		}
		c.Works = append(c.Works, w)
	}
	c.Order = many(t, 0, 40, 12, func(t *rapid.T) int { return intn(t, n) })
	c.Nest = many(t, 0, 40, 12, func(t *rapid.T) int {
		if chance(t, 40) {
			return -1
		}
		return intn(t, n)
	})
	return c
}

// isoInst is an instance that is being used: its steps, and what was seen.
type isoInst struct {
	kind   string
	steps  []func()
	log    []string
	next   int
	active bool
	event  func() // called from within actions and functions
}

var rePointer = regexp.MustCompile(`0x[0-9a-f]{6,}`)

func (p *isoInst) say(format string, a ...interface{}) {
	if len(p.log) < 5000 {
		p.log = append(p.log, rePointer.ReplaceAllString(fmt.Sprintf(format, a...), "0x"))
	}
}

func (p *isoInst) hear(format string, a ...interface{}) {
	p.say(format, a...)
	if p.event != nil {
		p.event()
	}
}

// step does the next step.
func (p *isoInst) step() (more bool) {
	if p.active || p.next >= len(p.steps) {
		return false
	}
	p.active = true
	f := p.steps[p.next]
	p.next++
	defer func() {
		p.active = false
		if e := recover(); e != nil {
			p.say("panic %v", e)
		}
	}()
	p.say("step %d", p.next)
	f()
	return true
}

func isoText(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("%T %v", err, err)
}

// bounded tells if the reference match of src ends soon.
func bounded(g *Gram, rule, src string, mode tpl.ScanMode) bool {
	toks, ok := pegToks(src, mode, g.keywords())
	if !ok {
		return true // a lexical error
	}
	_, ok = refMatch(g, g.rule(rule), toks, isoSteps)
	return ok
}

// instance makes an instance that isn't used yet. ok: per step, whether it is done at all.
func (w IsoWork) instance(ok []bool) *isoInst {
	p := &isoInst{}
	do := func(i int, f func()) {
		if ok[i] {
			p.steps = append(p.steps, f)
		}
	}
	switch {
	case w.Match != nil:
		c := *w.Match
		p.kind = "compiled grammar"
		var m *tpl.CompileRet
		do(0, func() {
			cm := &tpl.Compiler{Grammar: []byte(c.Text), ScanMode: tpl.ScanMode(c.Mode)}
			cm.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
				return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
					p.hear("%s %d %d", mark, len(toks), g.Len())
				})
			}
			ret, err := cm.Cl()
			p.say("%s", isoText(err))
			m = &ret
		})
		for i := range c.Srcs {
			src := string(c.Srcs[i])
			do(i+1, func() {
				err := safely(func() error { return m.MatchExactly([]byte(src), "f") })
				p.say("%s", isoText(err))
			})
		}
	case w.Host != nil:
		c := *w.Host
		p.kind = "interpreter"
		var h *host
		do(0, func() {
			var err error
			h, err = newHost(c)
			p.say("%s", isoText(err))
			h.onCall = func() { p.hear("%s", h.log[len(h.log)-1]) }
		})
		for i := range c.Steps {
			s := c.Steps[i]
			do(i+1, func() {
				h.log, h.errs, h.depth, h.stk.vals = nil, nil, 0, nil
				h.calls = make([]int, len(c.Marks))
				h.off, h.base = map[int]int{}, 1
				err, _ := h.run(s)
				p.say("%s, stack %v", isoText(err), h.stk.vals)
			})
		}
	case w.Calc != nil:
		c := *w.Calc
		p.kind = "calculator"
		var e calcInst
		do(0, func() { e = calcs[c.Calc].fresh() })
		for i := range c.Steps {
			text := string(c.Steps[i].Text)
			do(i+1, func() {
				v, err := e.eval(text)
				if err != nil {
					p.say("%s", isoText(err))
				} else {
					p.say("%s", calcs[c.Calc].show(v))
				}
			})
		}
	case w.Ex != nil:
		c := *w.Ex
		p.kind = "extractor"
		var e = struct {
			parse func(op int, src string) (map[string]interface{}, error)
		}{}
		do(0, func() {
			eng, err := newExtractor(c)
			p.say("%s", isoText(err))
			e.parse = func(op int, src string) (map[string]interface{}, error) { return parseWith(eng, op, src) }
		})
		for i := range c.Srcs {
			i := i
			do(i+1, func() {
				doc, err := e.parse(c.Ops[i], string(c.Srcs[i]))
				b, _ := json.Marshal(fmt.Sprintf("%v", doc))
				p.say("%s %s", isoText(err), b)
			})
		}
	case w.Lang != nil:
		c := *w.Lang
		p.kind = "qlang"
		lang, err := newQlang(false)
		do(0, func() {
			lang, err = newQlang(c.Semis)
			p.say("%s", isoText(err))
			n := 0
			lang.SetVar("hv_t", func(args ...interface{}) interface{} {
				if n++; n > 20000 {
					panic(qRunaway{})
				}
				var s []string
				for _, a := range args {
					s = append(s, snapReal(a))
				}
				p.hear("%s", strings.Join(s, " "))
				return args[len(args)-1]
			})
		})
		for i := range c.Progs {
			i := i
			do(i+1, func() {
				err := lang.SafeExec([]byte(c.Progs[i].Text), c.Progs[i].Fname)
				p.say("%s", isoText(err))
				for _, k := range sortedKeys(lang.Vars()) {
					if k != "hv_t" {
						v, _ := lang.Var(k)
						p.say("%s = %s", k, snapReal(v))
					}
				}
				ret, ok := lang.Ret()
				p.say("ret %s %v", snapReal(ret), ok)
			})
		}
	case w.QHost != nil:
		c := *w.QHost
		p.kind = "interpreter in qlang"
		var h *qhost
		do(0, func() {
			var err error
			h, err = newQHost(c)
			p.say("%s", isoText(err))
			h.onCall = func() { p.hear("%s", h.log[len(h.log)-1]) }
		})
		for i := range c.Steps {
			s := c.Steps[i]
			do(i+1, func() {
				h.log, h.depth = nil, 0
				h.calls = make([]int, len(c.Marks))
				h.off = map[int]int{}
				p.say("%s", isoText(h.run(s)))
			})
		}
	case w.Lex != nil:
		c := *w.Lex
		p.kind = "tokenizer"
		m := &tpl.Matcher{}
		do(0, func() { m.Scanner = newTokener(c) })
		for i := range c.Steps {
			s := c.Steps[i]
			do(i+1, func() {
				r := useScanner(m, s)
				p.say("%v", r)
			})
		}
	}
	return p
}

// check tells which steps are bounded by the references.
func (w IsoWork) check() (ok []bool) {
	ok = []bool{true}
	add := func(b bool) { ok = append(ok, b) }
	switch {
	case w.Match != nil:
		for _, s := range w.Match.Srcs {
			add(bounded(w.Match.Gram, "doc", string(s), tpl.ScanMode(w.Match.Mode)))
		}
	case w.Host != nil:
		for _, s := range w.Host.Steps {
			rule := s.Rule
			if rule == "" {
				rule = "doc"
			}
			add(hostBounded(*w.Host, string(s.Src), rule))
		}
	case w.Calc != nil:
		for _, s := range w.Calc.Steps {
			_, err, _ := calcs[w.Calc.Calc].refResult(string(s.Text))
			add(err != errSlow)
		}
	case w.Ex != nil:
		gram, _ := w.Ex.meaning()
		for _, s := range w.Ex.Srcs {
			add(bounded(gram, "doc", string(s), tpl.ScanMode(w.Ex.Mode)))
		}
	case w.Lang != nil:
		m := newQM()
		good := true
		for _, p := range w.Lang.Progs {
			if good {
				m.trace, m.steps = nil, 0
				skip := model(func() { m.run(p.Prog, len(p.Prog.L)) })
				good = skip == ""
			}
			add(good)
		}
	case w.QHost != nil:
		h := &qhost{c: *w.QHost}
		c := *w.QHost
		for _, s := range c.Steps {
			rule := s.Rule
			if rule == "" {
				rule = "doc"
			}
			mode := tpl.ScanMode(c.Mode)
			toks, lexed := pegToks(string(s.Src), mode, c.Gram.keywords())
			m := &qhostModel{c: c, toks: toks, rt: withoutComments(refLex(string(s.Src), mode&tpl.InsertSemis != 0).Toks), calls: make([]int, len(c.Marks)), recv: "I", h: h, steps: refSteps/20 - isoSteps}
			add(lexed && withoutSkip(func() { m.eval(rule, 0, len(toks)) }))
		}
	case w.Lex != nil:
		for range w.Lex.Steps {
			add(true)
		}
	}
	return
}

func withoutSkip(f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(hostSkip); !is {
				panic(e)
			}
			ok = false
		}
	}()
	f()
	return true
}

func hostBounded(c HostCase, src, rule string) bool {
	mode := tpl.ScanMode(c.Mode)
	toks, lexed := pegToks(src, mode, c.Gram.keywords())
	m := &hostModel{c: c, toks: toks, rt: withoutComments(refLex(src, mode&tpl.InsertSemis != 0).Toks), src: src, calls: make([]int, len(c.Marks)), steps: refSteps/4 - isoSteps}
	return lexed && withoutSkip(func() { m.eval(rule, 0, len(toks), true) })
}

func checkIso(c IsoCase, x *Ctx) error {
	oks := make([][]bool, len(c.Works))
	for i, w := range c.Works {
		oks[i] = w.check()
	}
	fresh := func() []*isoInst {
		ps := make([]*isoInst, len(c.Works))
		for i, w := range c.Works {
			ps[i] = w.instance(oks[i])
		}
		return ps
	}
	alone := fresh()
	steps := 0
	for _, p := range alone {
		for p.step() {
			steps++
		}
	}
	same := func(how string, ps []*isoInst) error {
		for i, p := range ps {
			for k := 0; k < len(p.log) || k < len(alone[i].log); k++ {
				got, want := "nothing", "nothing"
				if k < len(p.log) {
					got = p.log[k]
				}
				if k < len(alone[i].log) {
					want = alone[i].log[k]
				}
				if got != want {
					return failf("%s: instance %d (%s) line %d: %s; alone: %s", how, i, p.kind, k, got, want)
				}
			}
		}
		return nil
	}
	// interleaved
	ps := fresh()
	for _, k := range c.Order {
		ps[k].step()
	}
	for more := true; more; {
		more = false
		for _, p := range ps {
			if p.step() {
				more = true
			}
		}
	}
	if err := same("interleaved", ps); err != nil {
		return err
	}
	// nested
	ps = fresh()
	at, depth, nested := 0, 0, 0
	for _, p := range ps {
		p.event = func() {
			if at >= len(c.Nest) || depth > 2 {
				return
			}
			k := c.Nest[at]
			at++
			if k < 0 {
				return
			}
			depth++
			if ps[k].step() {
				nested++
			}
			depth--
		}
	}
	for _, p := range ps {
		p.step() // makes the instance
	}
	for _, k := range c.Order {
		ps[k].step()
	}
	for _, p := range ps {
		for p.step() {
		}
	}
	if err := same("nested", ps); err != nil {
		return err
	}
	// in parallel
	ps = fresh()
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for i, p := range ps {
		p := p
		n := i
		p.event = func() {
			if n++; n%3 == 0 {
				runtime.Gosched()
			}
		}
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			for p.step() {
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	if err := same("in parallel", ps); err != nil {
		return err
	}
	// alone again
	ps = fresh()
	for i := len(ps) - 1; i >= 0; i-- {
		for ps[i].step() {
		}
	}
	if err := same("alone again", ps); err != nil {
		return err
	}
	kinds := map[string]bool{}
	for _, p := range ps {
		x.Class("instance: " + p.kind)
		kinds[p.kind] = true
	}
	x.ClassIf(len(kinds) < len(ps), "two instances of a kind")
	x.ClassIf(nested > 0, "nested use")
	x.ClassIf(nested > 4, "over 4 nested uses")
	x.NonTrivialIf(steps > len(ps)+2)
	return nil
}

func init() {
	reg("I10", "instances", "sets of matchers, calculators, extractors, interpreters and qlang instances, used alone, interleaved, nested in each other's actions and in parallel under the race detector; non-trivial: more than two evaluations", 1600, 60000, genIso, checkIso)
}
