package main

import (
	"fmt"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// Long histories, and large grammars for the properties of compiled grammars and interpreters.

// cycle makes a history longer: its steps are repeated, from some point on, up to n steps.
func cycle[T any](t *rapid.T, steps []T, n int) []T {
	k := len(steps)
	if k == 0 {
		return steps
	}
	from := intn(t, k)
	out := append([]T{}, steps...)
	for i := 0; len(out) < n; i++ {
		out = append(out, steps[from+i%(k-from)])
	}
	return out
}

func genLongHist(t *rapid.T) HistCase {
	c := genHist(t)
	c.Steps = cycle(t, c.Steps, size(t, 16, 600))
	return c
}

func genLongCalc(t *rapid.T) CalcHistory {
	h := genCalcHistory(t)
	h.Steps = cycle(t, h.Steps, size(t, 16, 600))
	return h
}

func genLongExHist(t *rapid.T) ExCase {
	var c ExCase
	if chance(t, 30) {
		c = genLargeExtract(t)
		for range c.Srcs {
			c.Ops = append(c.Ops, weighted(t, 4, 3, 3, 3))
		}
		if chance(t, 50) {
			return c
		}
		for i, s := range c.Srcs { // the beginning only
			if len(s) > 400 {
				c.Srcs[i] = s[:intn(t, 400)]
			}
		}
	} else {
		c = genExCase(true)(t)
	}
	type in struct {
		src Text
		op  int
	}
	var ins []in
	for i, s := range c.Srcs {
		ins = append(ins, in{s, c.Ops[i]})
	}
	c.Srcs, c.Ops = nil, nil
	for _, s := range cycle(t, ins, size(t, 16, 300)) {
		c.Srcs, c.Ops = append(c.Srcs, s.src), append(c.Ops, s.op)
	}
	return c
}

func genLongHost(o hostOpts) func(t *rapid.T) HostCase {
	base := genHost(o)
	return func(t *rapid.T) HostCase {
		c := base(t)
		for i := range c.Marks {
			if c.Marks[i].Fail != "" && chance(t, 50) {
				c.Marks[i].At = 0
			}
		}
		c.Steps = cycle(t, c.Steps, size(t, 16, 300))
		return c
	}
}

func genLargeHost(o hostOpts) func(t *rapid.T) HostCase {
	return func(t *rapid.T) HostCase {
		gram, words := genLargeGram(t, gramOpts{normal: true, marks: o.marks, cuts: o.cuts, nullable: 8, keywords: true})
		c := hostOf(t, o, gram)
		for i := range c.Marks { // failures at a later call
			if c.Marks[i].Fail != "" && chance(t, 60) {
				c.Marks[i].At = size(t, 1, 1200)
			}
		}
		for _, s := range genLargeInputs(t, gram, words) {
			st := HostStep{Src: s}
			if o.fnames && chance(t, 40) {
				st.Fname = "large.q"
			}
			if chance(t, 15) {
				st.Rule = "doc"
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	}
}

// genLargeCode is a large grammar with its marks named and its rules in any order.
func genLargeCode(t *rapid.T, o gramOpts, any bool) (*Gram, func(t *rapid.T) []Text) {
	o.normal = true
	gram, words := genLargeGram(t, o)
	inputs := func(t *rapid.T) []Text { return genLargeInputs(t, gram, words) }
	nameMarks(t, gram, any)
	if chance(t, 60) {
		shuffleRules(t, gram)
		gram.number()
		nameMarks(t, gram, any)
	}
	return gram, inputs
}

func genLargeMarks(t *rapid.T) MarkCase {
	g, inputs := genLargeCode(t, gramOpts{cuts: 4, marks: 35, keywords: true}, true)
	c := MarkCase{Gram: g, Text: g.genText(t)}
	if n := len(g.marks()); n > 0 && chance(t, 30) {
		c.Replace = many(t, 1, 4, 1, func(t *rapid.T) int { return intn(t, n) })
	}
	c.Srcs = inputs(t)
	return c
}

func genLargeSub(t *rapid.T) SubCase {
	g, inputs := genLargeCode(t, gramOpts{cuts: 5, marks: 25, keywords: true, nullable: 5}, false)
	c := SubCase{Gram: g, Text: g.genText(t)}
	if chance(t, 15) {
		c.Mode = uint(tpl.InsertSemis)
	}
	for _, s := range inputs(t) {
		c.Subs = append(c.Subs, SubSrc{"doc", s, intn(t, 4), intn(t, 4)})
	}
	vocab := g.vocab()
	c.Subs = append(c.Subs, many(t, 0, 5, 2, func(t *rapid.T) SubSrc {
		r := pick(t, g.Rules)
		s := &sentGen{t: t, gram: g, max: 60}
		s.emit(r.G, -1000)
		out := s.out
		if len(vocab) > 0 && chance(t, 30) {
			out = append(out, classText(t, pick(t, vocab)))
		}
		return SubSrc{r.Name, layoutLarge(t, out), size(t, 1, 400), size(t, 1, 400)}
	})...)
	return c
}

func genLargeOrder(t *rapid.T) OrderCase {
	g, inputs := genLargeCode(t, gramOpts{cuts: 6, marks: 25, keywords: true}, false)
	c := OrderCase{A: g, TextA: g.genText(t)}
	b := &Gram{Rules: append([]Rule{}, g.Rules...)}
	shuffleRules(t, b)
	c.B = b
	c.TextB = b.genText(t)
	c.Srcs = inputs(t)
	return c
}

func genLargeStatic(t *rapid.T) GenBatch {
	b := GenBatch{}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		b.Grams = append(b.Grams, genLargeGramRun(t))
	}
	return b
}

func genLargeGramRun(t *rapid.T) GenGramCase {
	g, inputs := genLargeCode(t, gramOpts{marks: 25, cuts: 5, keywords: true, nullable: 5}, chance(t, 40))
	c := GenGramCase{Gram: g, Text: g.genText(t)}
	c.Run = GenRun{Mode: uint(pick(t, []tpl.ScanMode{0, 0, tpl.InsertSemis})), NoInit: chance(t, 20), Twice: chance(t, 30)}
	c.Run.Marker = pick(t, []string{"action", "action", "wrap", "none"})
	if chance(t, 30) {
		c.Run.Scan = "auto"
	}
	for _, s := range inputs(t) {
		st := GenStep{How: pick(t, []string{"exactly", "match", "eval"}), Src: []byte(s)}
		if chance(t, 15) {
			st.How, st.Rule = pick(t, []string{"sub", "subtoks"}), "doc"
		}
		c.Run.Steps = append(c.Run.Steps, st)
	}
	return c
}

// genManyKw: some thousand registrations.
func genManyKw(t *rapid.T) KwCase {
	c := KwCase{}
	n := size(t, 100, 5000)
	form := pick(t, []string{"k%d", "x%dé", "_%d", "if%d"})
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, KwOp{0, fmt.Sprintf(`"`+form+`"`, i)})
	}
	for i, k := 0, between(t, 1, 8); i < k; i++ {
		at := intn(t, len(c.Ops)+1)
		op := KwOp{Op: 4}
		switch intn(t, 4) {
		case 0:
			op = KwOp{0, fmt.Sprintf(`"`+form+`"`, intn(t, n))}
		case 1:
			op = KwOp{3, fmt.Sprintf(form+" "+form+" u", intn(t, n), intn(t, n))}
		case 2:
			if at < len(c.Ops)/2 {
				op = KwOp{Op: 2}
			}
		}
		c.Ops = append(c.Ops[:at:at], append([]KwOp{op}, c.Ops[at:]...)...)
	}
	c.Ops = append(c.Ops, KwOp{Op: 4}, KwOp{3, fmt.Sprintf(form+" "+form, n-1, 0)})
	return c
}

func init() {
	const gr = "a small grammar with one dimension blown up, as for M01"
	const how = "histories of up to 600 steps (a short one whose steps are repeated); non-trivial: as for the other histories of this property"
	reg("C04", "large", gr+"; non-trivial: at least 2 marks", 800, 20000, genLargeMarks, checkC04)
	reg("C06", "large", gr+"; non-trivial: a non-empty source for a rule other than doc", 800, 20000, genLargeSub, checkC06)
	reg("C07", "large", gr+"; non-trivial: texts differ and the input isn't empty", 800, 20000, genLargeOrder, checkC07)
	reg("L05", "long", how, 600, 15000, genLongHist, checkHist)
	reg("L06", "many", "up to 5000 registrations; non-trivial: at least 2 keywords", 200, 6000, genManyKw, checkKw)
	reg("I05", "large", gr+"; non-trivial: a mark runs", 800, 30000,
		genLargeHost(hostOpts{marks: 30, cuts: 3, mute: 15, free: 3, code: 1, onlyU: 40}), checkHost)
	reg("I06", "large", gr+"; non-trivial: a mark runs", 1000, 30000,
		genLargeHost(hostOpts{marks: 35, cuts: 2, sigs: true, fnames: true, onlyU: 20}), checkHost)
	reg("I07", "large", gr+"; non-trivial: a mark runs", 1000, 30000,
		genLargeHost(hostOpts{marks: 35, cuts: 3, sigs: true, fail: 20, code: 2, hold: 25, fnames: true, onlyU: 20}), checkHost)
	reg("I08", "long", how, 600, 15000,
		genLongHost(hostOpts{marks: 30, cuts: 8, sigs: true, fail: 6, code: 6, hold: 40, mute: 8, steps: 4, fnames: true, onlyU: 20}), checkHost)
	reg("I08", "longcalc", how, 600, 15000, genLongCalc, checkCalcHistory)
	reg("E03", "long", how+"; large documents", 300, 10000, genLongExHist, checkE03)
	reg("G01", "large", gr+", compiled statically; non-trivial: a grammar of more than 3 nodes with at least 3 inputs", 24, 600, genLargeStatic, checkGenBatch)
}
