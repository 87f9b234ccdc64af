package main

import (
	"fmt"
	"strings"

	gotoken "go/token"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- building real grammars

type leafBudget struct{}

type cntLeaf struct {
	tpl.Grammar
	b *realBuild
}

func (p *cntLeaf) Match(src []tpl.Token, ctx tpl.Context) (int, error) {
	p.b.leaves++
	if p.b.leaves > p.b.limit {
		panic(leafBudget{})
	}
	return p.Grammar.Match(src, ctx)
}

type realBuild struct {
	gram    *Gram
	named   uint // bit i: rule i is a GrNamed assigned later, else a GrVar
	scanner *tpl.AutoKwScanner
	refs    map[string]tpl.Grammar
	obj     map[*G]tpl.Grammar
	evs     []Ev
	pos     map[gotoken.Pos]int
	count   bool
	leaves  int
	limit   int
	depth   int
	open    []int
	errs    []string
}

func newReal(gram *Gram, named uint, count bool) (*realBuild, tpl.Grammar) {
	b := &realBuild{gram: gram, named: named, refs: map[string]tpl.Grammar{}, obj: map[*G]tpl.Grammar{}, count: count, scanner: new(tpl.AutoKwScanner)}
	for i, r := range gram.Rules {
		if named>>uint(i)&1 != 0 {
			b.refs[r.Name] = tpl.Named(r.Name, nil)
		} else {
			b.refs[r.Name] = tpl.Var(r.Name)
		}
	}
	for _, r := range gram.Rules {
		g := b.build(r.G)
		switch v := b.refs[r.Name].(type) {
		case *tpl.GrVar:
			if err := v.Assign(g); err != nil {
				panic(err)
			}
		case *tpl.GrNamed:
			v.Assign(r.Name, g)
		}
	}
	return b, b.obj[gram.rule("doc")]
}

func (b *realBuild) kind(class string) uint {
	if strings.HasPrefix(class, "kw:") {
		return b.scanner.Ltot(`"` + class[3:] + `"`)
	}
	return classKind[class]
}

func (b *realBuild) build(g *G) (r tpl.Grammar) {
	if g == nil {
		return nil
	}
	defer func() { b.obj[g] = r }()
	kids := make([]tpl.Grammar, len(g.Kids))
	for i, k := range g.Kids {
		kids[i] = b.build(k)
	}
	leaf := func(g tpl.Grammar) tpl.Grammar {
		if b.count {
			return &cntLeaf{g, b}
		}
		return g
	}
	switch g.Op {
	case "tok":
		return leaf(tpl.Gr(b.kind(g.T)))
	case "true":
		return leaf(tpl.GrTrue)
	case "eof":
		return leaf(tpl.GrEOF)
	case "and":
		return tpl.And(kids...)
	case "or":
		return tpl.Or(kids...)
	case "rep0":
		return tpl.Repeat0(kids[0])
	case "rep1":
		return tpl.Repeat1(kids[0])
	case "rep01":
		return tpl.Repeat01(kids[0])
	case "peek":
		return tpl.Peek(kids[0])
	case "not":
		return tpl.Not(kids[0])
	case "list":
		return tpl.List(kids[0], kids[1])
	case "list0":
		return tpl.List0(kids[0], kids[1])
	case "ref":
		return b.refs[g.Name]
	case "mark":
		id := g.ID
		inner := kids[0]
		return tpl.Action(inner, func(toks []tpl.Token, x tpl.Grammar) {
			if x != inner {
				b.errs = append(b.errs, fmt.Sprintf("action %d is given another rule than its own", id))
			}
			b.act(id, toks, x)
		})
	case "trans":
		id := g.ID
		return tpl.Transaction(kids[0], func() interface{} {
			b.evs = append(b.evs, Ev{K: "begin", ID: id})
			b.open = append(b.open, len(b.evs))
			return len(b.evs)
		}, func(tr interface{}, err error) {
			if n := len(b.open); n == 0 || b.open[n-1] != tr {
				b.errs = append(b.errs, fmt.Sprintf("transaction %d ended with %v, open are %v", id, tr, b.open))
			} else {
				b.open = b.open[:n-1]
			}
			b.evs = append(b.evs, Ev{K: "end", ID: id, Fail: err != nil})
		})
	}
	panic("op " + g.Op)
}

func (b *realBuild) act(id int, toks []tpl.Token, x tpl.Grammar) {
	e := Ev{K: "act", ID: id, N: len(toks), Len: x.Len()}
	if len(toks) > 0 {
		e.Start = b.pos[toks[0].Pos]
		for i, t := range toks {
			if p, ok := b.pos[t.Pos]; !ok || p != e.Start+i {
				b.errs = append(b.errs, fmt.Sprintf("action %d: its tokens aren't consecutive", id))
			}
		}
	}
	b.evs = append(b.evs, e)
	if len(b.evs) > 1000000 {
		panic(leafBudget{})
	}
}

// RealRes is the outcome of the real matcher.
type RealRes struct {
	Toks   []tpl.Token
	OK     bool
	N      int
	Err    error
	Abort  bool
	Budget bool
	Evs    []Ev
	Leaves int
}

// run tokenizes and matches like Matcher.Match.
func (b *realBuild) run(m *tpl.Matcher, src []byte, limit int) (res RealRes, err error) {
	toks, err := m.Tokenize(src, "")
	if err != nil {
		return res, failf("valid input rejected: %v", err)
	}
	b.reset(toks, limit)
	res.Toks = toks
	defer func() {
		res.Evs, res.Leaves = b.evs, b.leaves
		if e := recover(); e != nil {
			if _, ok := e.(leafBudget); ok {
				res.Budget = true
				return
			}
			me, ok := e.(error)
			if !ok {
				panic(e)
			}
			res.Abort, res.Err = true, me
		}
	}()
	n, e := m.Grammar.Match(toks, m)
	res.OK, res.N, res.Err = e == nil, n, e
	return res, nil
}

func (b *realBuild) reset(toks []tpl.Token, limit int) {
	b.evs, b.open, b.leaves, b.limit, b.errs = nil, nil, 0, limit, nil
	b.pos = map[gotoken.Pos]int{}
	for i, t := range toks {
		b.pos[t.Pos] = i
	}
}

func sameEvents(got, want []Ev, abort bool) error {
	if abort { // a transaction around the failing sequence may or may not be told
		for len(got) > len(want) && got[len(got)-1].K == "end" && got[len(got)-1].Fail {
			got = got[:len(got)-1]
		}
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return failf("event %d: %v doesn't happen", i, want[i])
		case i >= len(want):
			return failf("event %d: %v happens in addition", i, got[i])
		}
		g, w := got[i], want[i]
		if w.N == 0 && g.N == 0 {
			g.Start, w.Start = 0, 0
		}
		if g != w {
			return failf("event %d: got %v, want %v", i, g, w)
		}
	}
	return nil
}

// ---------------------------------------------------------------- cases

// MatchCase is a grammar and inputs.
type MatchCase struct {
	Gram  *Gram
	Named uint
	Srcs  []Text
	Mode  uint
	Plain bool // the matcher is left to make its own scanner
}

func genMatchCase(o gramOpts) func(t *rapid.T) MatchCase {
	return func(t *rapid.T) MatchCase {
		c := MatchCase{Gram: genGram(t, o), Named: uint(intn(t, 256))}
		if chance(t, 15) {
			c.Mode = uint(1 + intn(t, 2)) // not both: a comment after an inserted semicolon has its position
		}
		c.Srcs = genInputs(t, c.Gram, "doc", 8)
		c.Plain = len(c.Gram.keywords()) == 0 && chance(t, 30)
		return c
	}
}

const refSteps = 40000

// stepsFor is how many rule attempts an input may need.
func stepsFor(toks []PTok) int {
	if n := 150 * len(toks); n > refSteps {
		return n
	}
	return refSteps
}

// eachInput runs f for all inputs within the domain.
func eachInput(c MatchCase, x *Ctx, count bool, f func(b *realBuild, m *tpl.Matcher, src string, toks []PTok, ref RefRes) error) error {
	b, root := newReal(c.Gram, c.Named, count)
	m := &tpl.Matcher{Grammar: root, ScanMode: tpl.ScanMode(c.Mode)}
	if !c.Plain {
		m.Scanner = b.scanner
	}
	done := 0
	for i, s := range c.Srcs {
		src := string(s)
		toks, ok := pegToks(src, m.ScanMode, c.Gram.keywords())
		if !ok {
			continue
		}
		ref, ok := refMatch(c.Gram, c.Gram.rule("doc"), toks, stepsFor(toks))
		if !ok {
			x.Class("too many steps")
			continue
		}
		done++
		switch {
		case ref.Abort:
			x.Class("cut aborts")
		case !ref.OK:
			x.Class("no match")
		case ref.N < len(toks):
			x.Class("matches a part")
		default:
			x.Class("matches all")
		}
		x.ClassIf(ref.Zero, "empty repetition")
		x.ClassIf(len(toks) > 100, "over 100 tokens")
		if err := f(b, m, src, toks, ref); err != nil {
			return failf("input %d %q: %v", i, src, err)
		}
	}
	if done == 0 {
		return errSkip
	}
	return nil
}

func sameOutcome(res RealRes, ref RefRes) error {
	if res.Abort != ref.Abort || res.OK != ref.OK {
		return failf("matched %v (aborted %v, %v), want %v (aborted %v)", res.OK, res.Abort, errText(res.Err), ref.OK, ref.Abort)
	}
	if res.OK && res.N != ref.N {
		return failf("consumed %d tokens, want %d", res.N, ref.N)
	}
	return nil
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	return err.Error()
}

func checkM01(c MatchCase, x *Ctx) error {
	return eachInput(c, x, false, func(b *realBuild, m *tpl.Matcher, src string, toks []PTok, ref RefRes) error {
		res, err := b.run(m, []byte(src), 1<<40)
		if err != nil {
			return err
		}
		if err := sameOutcome(res, ref); err != nil {
			return err
		}
		inits := 0
		m.Init = func() { inits++ }
		next, err := m.Match([]byte(src), "")
		if (err == nil) != ref.OK {
			return failf("Match: %v, want success %v", errText(err), ref.OK)
		}
		if err == nil {
			if len(next) != len(toks)-ref.N {
				return failf("Match leaves %d tokens, want %d", len(next), len(toks)-ref.N)
			}
			for i, t := range next {
				if off := tokOff(m.Tokener(), t); off != toks[ref.N+i].Start {
					return failf("Match: left token %d is at offset %d, want %d", i, off, toks[ref.N+i].Start)
				}
			}
		}
		err = m.MatchExactly([]byte(src), "")
		if (err == nil) != (ref.OK && ref.N == len(toks)) {
			return failf("MatchExactly: %v, matched %v, %d of %d tokens", errText(err), ref.OK, ref.N, len(toks))
		}
		err = m.Eval(src)
		if (err == nil) != (ref.OK && ref.N == len(toks)) {
			return failf("Eval: %v, matched %v, %d of %d tokens", errText(err), ref.OK, ref.N, len(toks))
		}
		if inits != 3 {
			return failf("Init is called %d times in 3 matches", inits)
		}
		m.Init = nil
		x.NonTrivialIf(len(toks) > 0 && (ref.OK && ref.N > 0 || c.Gram.size() > 4))
		return nil
	})
}

func checkM02(c MatchCase, x *Ctx) error {
	return eachInput(c, x, false, func(b *realBuild, m *tpl.Matcher, src string, toks []PTok, ref RefRes) error {
		res, err := b.run(m, []byte(src), 1<<40)
		if err != nil {
			return err
		}
		if err := sameOutcome(res, ref); err != nil {
			return err
		}
		if err := sameEvents(res.Evs, ref.Evs, ref.Abort); err != nil {
			return err
		}
		if len(b.errs) > 0 && !ref.Abort {
			return failf("%s", b.errs[0])
		}
		if len(b.open) > 0 && !ref.Abort {
			return failf("transactions %v aren't ended", b.open)
		}
		x.NonTrivialIf(len(ref.Evs) >= 2)
		x.ClassIf(len(ref.Evs) > 30, "over 30 events")
		for _, e := range ref.Evs {
			x.ClassIf(e.K == "act" && e.Len > 1, "count above 1")
			x.ClassIf(e.K == "end" && e.Fail, "transaction of a failed rule")
		}
		return nil
	})
}

func checkM03(c MatchCase, x *Ctx) error {
	return eachInput(c, x, false, func(b *realBuild, m *tpl.Matcher, src string, toks []PTok, ref RefRes) error {
		res, err := b.run(m, []byte(src), 1<<40)
		if err != nil {
			return err
		}
		if err := sameOutcome(res, ref); err != nil {
			return err
		}
		if err := sameEvents(res.Evs, ref.Evs, ref.Abort); err != nil {
			return err
		}
		if ref.Abort {
			if err := sameErr(b, res, res.Err, ref.Err, m.Tokener()); err != nil {
				return err
			}
		}
		x.NonTrivialIf(ref.Abort || c.Gram.hasCut() && len(toks) > 0 && ref.Steps > 5)
		return nil
	})
}

// sameErr compares a match error with the reference: rule, place, and the error below it.
func sameErr(b *realBuild, res RealRes, err error, want *RefErr, s tpl.Tokener) error {
	me, ok := err.(*tpl.MatchError)
	if !ok {
		return failf("error is a %T: %v", err, err)
	}
	start := len(res.Toks)
	if len(me.Src) > 0 {
		start = b.pos[me.Src[0].Pos]
	}
	if start+me.IdxErr != want.Start+want.Idx {
		return failf("error is at token %d, want %d: %v", start+me.IdxErr, want.Start+want.Idx, me)
	}
	if start != want.Start {
		return failf("the failing rule was tried at token %d, not %d: %v", want.Start, start, me)
	}
	if got, w := tpl.Code(me.Grammar, s), tpl.Code(b.obj[want.G], s); got != w {
		return failf("error names the rule `%s`, the failing rule is `%s`", got, w)
	}
	if (me.Err == nil) != (want.Inner == nil) {
		return failf("error below is %v, want %v", me.Err, want.Inner)
	}
	if want.Inner != nil {
		return sameErr(b, res, me.Err, want.Inner, s)
	}
	return nil
}

// checkRendered checks the text of an error: its line and its quotation.
func checkRendered(src string, toks []PTok, start, idx int, msg, code string) error {
	var line int
	if _, err := fmt.Sscanf(msg, "line %d: ", &line); err != nil {
		return failf("no line in %q", msg)
	}
	at := start + idx
	if start >= len(toks) {
		return nil // nothing to quote, no token has failed
	}
	lo, hi := 0, 0
	if at < len(toks) {
		lo = 1 + strings.Count(src[:toks[at].Start], "\n")
		hi = lo
	} else { // the input ended too early
		lo = 1 + strings.Count(strings.TrimRight(src, " \t\r\n"), "\n")
		hi = 1 + strings.Count(src, "\n")
	}
	if line < lo || line > hi {
		return failf("line %d is reported, it is %d..%d: %q", line, lo, hi, msg)
	}
	rest := msg[strings.Index(msg, ": ")+2:]
	i := strings.IndexByte(rest, '`')
	j := strings.Index(rest, "` doesn't match `"+code+"`")
	if i < 0 || j < i {
		return failf("no quoted text and rule `%s` in %q", code, msg)
	}
	quoted := rest[i+1 : j]
	text := src[toks[start].Start:]
	last := at
	if last >= len(toks) {
		last = len(toks) - 1
	}
	if !strings.HasPrefix(text, quoted) || len(quoted) < toks[last].End-toks[start].Start {
		return failf("quoted text %q, input there is %q", quoted, text)
	}
	return nil
}

// errKeep holds errors and their texts, which don't change.
type errKeep struct {
	errs  []error
	texts []string
}

func (k *errKeep) add(err error) {
	if err != nil {
		k.errs, k.texts = append(k.errs, err), append(k.texts, err.Error())
	}
}

func (k *errKeep) check() error {
	for i, err := range k.errs {
		if s := err.Error(); s != k.texts[i] {
			return failf("the text of an error changes after another evaluation, from %q to %q", k.texts[i], s)
		}
	}
	return nil
}

// matchExactly matches; an aborting error is an error, too.
func matchExactly(m *tpl.Matcher, src string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = e.(error)
		}
	}()
	return m.MatchExactly([]byte(src), "")
}

func checkM04(c MatchCase, x *Ctx) error {
	var kept errKeep
	if err := checkMatchErrors(c, x, &kept); err != nil {
		return err
	}
	x.ClassIf(len(kept.errs) > 1, "several errors on one matcher")
	return kept.check()
}

func checkMatchErrors(c MatchCase, x *Ctx, kept *errKeep) error {
	return eachInput(c, x, false, func(b *realBuild, m *tpl.Matcher, src string, toks []PTok, ref RefRes) error {
		if ref.OK && ref.N == len(toks) {
			return nil
		}
		x.NonTrivialIf(len(toks) > 0)
		res, err := b.run(m, []byte(src), 1<<40)
		if err != nil {
			return err
		}
		if err := sameOutcome(res, ref); err != nil {
			return err
		}
		s := m.Tokener()
		if !ref.OK {
			if err := sameErr(b, res, res.Err, ref.Err, s); err != nil {
				return err
			}
			msg := res.Err.Error()
			kept.add(matchExactly(m, src))
			for we := ref.Err; we != nil; we = we.Inner {
				code := tpl.Code(b.obj[we.G], s)
				if err := checkRendered(src, toks, we.Start, we.Idx, msg, code); err != nil {
					return err
				}
				if we.Inner != nil {
					k := strings.Index(msg, "doesn't match `"+code+"`\n")
					if k < 0 {
						return failf("no second error in %q", msg)
					}
					msg = msg[k+len("doesn't match `"+code+"`\n"):]
				}
				at := we.Start + we.Idx
				x.ClassIf(at >= len(toks), "failure at the end")
				x.ClassIf(at < len(toks) && strings.Contains(src[:toks[at].Start], "\n"), "failure after line 1")
				x.ClassIf(at < len(toks) && we.Idx > 0 && strings.Count(src[toks[we.Start].Start:toks[at].Start], "\n") > 9, "more than 9 lines quoted")
			}
			return nil
		}
		// left-over input
		x.Class("left over")
		err = m.MatchExactly([]byte(src), "")
		me, ok := err.(*tpl.MatchError)
		if !ok {
			return failf("left-over input: error %T %v", err, err)
		}
		if len(me.Src) == 0 {
			return failf("left-over input: no tokens in the error")
		}
		if off := tokOff(s, me.Src[me.IdxErr]); off != toks[ref.N].Start {
			return failf("left-over input is at offset %d, reported at %d", toks[ref.N].Start, off)
		}
		kept.add(me)
		return checkRendered(src, toks, ref.N, 0, me.Error(), tpl.Code(me.Grammar, s))
	})
}

func checkM05(c MatchCase, x *Ctx) error {
	return eachInput(c, x, true, func(b *realBuild, m *tpl.Matcher, src string, toks []PTok, ref RefRes) error {
		limit := 4*ref.Leaves + 1000
		res, err := b.run(m, []byte(src), limit)
		if err != nil {
			return err
		}
		if res.Budget {
			return failf("no end after %d leaf matches, the reference needs %d", limit, ref.Leaves)
		}
		if err := sameOutcome(res, ref); err != nil {
			return err
		}
		if err := sameEvents(res.Evs, ref.Evs, ref.Abort); err != nil {
			return err
		}
		x.NonTrivialIf(ref.Zero)
		return nil
	})
}

func init() {
	const how = "grammar trees over the exported combinators with recursion through rules, inputs derived from them and damaged"
	reg("M01", "match", how+"; non-trivial: a non-empty input, and something matched or a grammar of over 4 nodes", 30000, 1000000,
		genMatchCase(gramOpts{keywords: true, nullable: 10}), checkM01)
	reg("M02", "events", how+", with actions and transactions; non-trivial: at least 2 events", 30000, 1000000,
		genMatchCase(gramOpts{keywords: true, nullable: 10, marks: 30, trans: 12, cuts: 3}), checkM02)
	reg("M03", "cuts", how+", with cuts; non-trivial: a cut aborts, or a grammar with cuts matches something", 30000, 1000000,
		genMatchCase(gramOpts{keywords: true, nullable: 10, marks: 25, trans: 5, cuts: 30}), checkM03)
	reg("M04", "errors", how+"; non-trivial: a failure on a non-empty input", 30000, 1000000,
		genMatchCase(gramOpts{keywords: true, nullable: 8, cuts: 8}), checkM04)
	reg("M05", "nullable", how+" with many nullable bodies; non-trivial: some repetition is ended by an empty match", 30000, 1000000,
		genMatchCase(gramOpts{keywords: true, nullable: 60, marks: 15}), checkM05)
}
