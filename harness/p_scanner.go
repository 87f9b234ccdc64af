package main

import (
	"fmt"
	gotoken "go/token"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	"github.com/qiniu/text/tpl/qlang"
	"pgregory.net/rapid"
)

// C08: the scanner given in the options reads every text, in the mode given there. The scanners of these checks change
// the tokens of another one in a stated way, after the grammar was compiled with them; the reference does the same to
// the tokens of the reference lexer.

// TokMap is what a scanner does with tokens of the class From: another class, or nothing is left of them.
type TokMap struct {
	From string
	Lit  string `json:",omitempty"` // only those with this text
	To   string `json:",omitempty"` // "": dropped
}

func mapClass(maps []TokMap, class, lit string) (string, bool) {
	for _, m := range maps {
		if m.From == class && (m.Lit == "" || m.Lit == lit) {
			return m.To, true
		}
	}
	return class, false
}

// mapScanner is a scanner that isn't one of the library's, but is made of one.
type mapScanner struct {
	tpl.Tokener
	maps  []TokMap
	armed bool
	modes map[tpl.ScanMode]bool // it was started with, when armed
	scans int
}

func newMapScanner(maps []TokMap) *mapScanner {
	return &mapScanner{Tokener: new(tpl.AutoKwScanner), maps: maps, modes: map[tpl.ScanMode]bool{}}
}

func (p *mapScanner) Init(file *gotoken.File, src []byte, err tpl.ScanErrorHandler, mode tpl.ScanMode) {
	if p.armed {
		p.modes[mode] = true
	}
	p.Tokener.Init(file, src, err, mode)
}

func (p *mapScanner) Scan() tpl.Token {
	for {
		t := p.Tokener.Scan()
		if !p.armed || t.Kind == tpl.EOF {
			return t
		}
		p.scans++
		to, ok := mapClass(p.maps, kindClass[t.Kind], t.Literal)
		if ok && to == "" {
			continue
		}
		if ok {
			t.Kind = classKind[to]
		}
		return t
	}
}

func mapToks(maps []TokMap, src string, toks []PTok) (out []PTok, keep []int) {
	for i, t := range toks {
		lit := src[t.Start:t.End]
		if len(t.Class) < 2 || t.Class[0] < 'A' || t.Class[0] > 'Z' { // operators have none
			lit = ""
		}
		to, ok := mapClass(maps, t.Class, lit)
		if ok && to == "" {
			continue
		}
		t.Class = to
		out, keep = append(out, t), append(keep, i)
	}
	return
}

func genTokMaps(t *rapid.T, gram *Gram) []TokMap {
	var classes []string
	for _, w := range gram.vocab() {
		r := refLex(w, false)
		if len(r.Toks) == 1 && !gram.keywords()[w] {
			if c := kindClass[r.Toks[0].Kind]; c != "" {
				classes = append(classes, c)
			}
		}
	}
	classes = append(classes, "IDENT", "INT", "STRING", "CHAR", "FLOAT", "+", ",", ";")
	return many(t, 0, 5, 2, func(t *rapid.T) TokMap {
		m := TokMap{From: pick(t, classes), To: pick(t, classes)}
		if chance(t, 20) {
			m.To = ""
		}
		if chance(t, 25) {
			switch m.From {
			case "IDENT":
				m.Lit = pick(t, []string{"u", "v", "w", "ab", "中"})
			case "INT":
				m.Lit = pick(t, []string{"1", "0", "42"})
			}
		}
		return m
	})
}

// used: the scanner was started in the right mode.
func (p *mapScanner) used(mode tpl.ScanMode, texts int) error {
	if texts == 0 {
		return nil
	}
	if len(p.modes) != 1 || !p.modes[mode] {
		return failf("the scanner was started with the modes %v, want %d", p.modes, mode)
	}
	return nil
}

// ScanTextCase is a compiled grammar with a scanner.
type ScanTextCase struct {
	TextCase
	Maps  []TokMap
	Rules []string // per input: the rule to be evaluated, or ""
	Twice bool     // two compiled grammars with one scanner
}

func genScanText(t *rapid.T) ScanTextCase {
	c := ScanTextCase{TextCase: genTextCase(gramOpts{keywords: true, nullable: 5, marks: 25, cuts: 4})(t)}
	c.Maps = genTokMaps(t, c.Gram)
	c.Twice = chance(t, 30)
	for range c.Srcs {
		r := ""
		if chance(t, 25) {
			r = pick(t, c.Gram.Rules).Name
		}
		c.Rules = append(c.Rules, r)
	}
	return c
}

func checkScanText(c ScanTextCase, x *Ctx) error {
	mode := tpl.ScanMode(c.Mode)
	s := newMapScanner(c.Maps)
	r, err := mustCompile(string(c.Text), compileOpts{mode: mode, marks: c.Gram.marks(), scanner: s})
	if err != nil {
		return err
	}
	rs := []*compiled{r, r}
	again := c.Twice
	for _, r := range c.Gram.Rules { // a keyword can't be a name
		again = again && !c.Gram.keywords()[r.Name]
	}
	for _, m := range c.Gram.marks() {
		again = again && !c.Gram.keywords()[m.Name]
	}
	if again {
		if rs[1], err = mustCompile(string(c.Text), compileOpts{mode: mode, marks: c.Gram.marks(), scanner: s}); err != nil {
			return err
		}
		x.Class("one scanner for two grammars")
	}
	s.armed = true
	done := 0
	for i, src := range c.Srcs {
		src := string(src)
		toks, ok := pegToks(src, mode, c.Gram.keywords())
		if !ok {
			continue
		}
		toks, keep := mapToks(c.Maps, src, toks)
		rule := "doc"
		if c.Rules[i] != "" {
			rule = c.Rules[i]
		}
		ref, ok := refMatch(c.Gram, c.Gram.rule(rule), toks, stepsFor(toks))
		if !ok {
			x.Class("too many steps")
			continue
		}
		done++
		r := rs[i%2]
		x.NonTrivialIf(len(toks) > 1 && len(c.Maps) > 0)
		x.ClassIf(len(keep) > 0 && keep[len(keep)-1] != len(keep)-1, "dropped tokens")
		x.ClassIf(ref.OK && ref.N == len(toks), "matches all")
		x.ClassIf(c.Rules[i] != "", "sub-rule")
		if c.Rules[i] == "" {
			err = r.against(src, toks, ref)
		} else {
			full := ref.OK && ref.N == len(toks)
			err = func() (err error) {
				var got error
				defer func() {
					if e := recover(); e != nil {
						err = nil
						if !ref.Abort {
							err = failf("EvalSub panics: %v", e)
						}
					}
				}()
				if got = r.ret.EvalSub(rule, src); (got == nil) != full {
					return failf("EvalSub(%q): %s, want success %v", rule, errText(got), full)
				}
				return nil
			}()
		}
		if err != nil {
			return failf("input %d %q: %v", i, src, err)
		}
	}
	if done == 0 {
		return errSkip
	}
	return s.used(mode, done)
}

// ScanHostCase is an interpreter with a scanner.
type ScanHostCase struct {
	HostCase
	Maps []TokMap
}

func genScanHost(t *rapid.T) ScanHostCase {
	c := ScanHostCase{HostCase: genHost(hostOpts{marks: 35, cuts: 3, sigs: true, fail: 4, code: 6, mute: 4, steps: 3, fnames: true, onlyU: 15})(t)}
	for _, m := range genTokMaps(t, c.Gram) {
		if m.To == "" || m.From[0] >= 'A' && m.From[0] <= 'Z' { // the end of an operator follows from its kind
			c.Maps = append(c.Maps, m)
		}
	}
	return c
}

func checkScanHost(c ScanHostCase, x *Ctx) error {
	c.HostCase.maps = c.Maps
	if c.Maps == nil {
		c.HostCase.maps = []TokMap{}
	}
	return checkHost(c.HostCase, x)
}

// ScanExCase is an extractor with a scanner.
type ScanExCase struct {
	ExCase
	Maps []TokMap
}

func genScanEx(t *rapid.T) ScanExCase {
	c := ScanExCase{ExCase: genExCase(false)(t)}
	c.Maps = genTokMaps(t, c.Gram)
	return c
}

func checkScanEx(c ScanExCase, x *Ctx) error {
	gram, marks := c.meaning()
	mode := tpl.ScanMode(c.Mode)
	s := newMapScanner(c.Maps)
	e, err := extractor.New(string(c.Text), &extractor.Options{Scanner: s, ScanMode: mode, GetValue: customValue(c.Conv)})
	if err != nil {
		return failf("well-formed extraction grammar %q is rejected: %v", c.Text, err)
	}
	s.armed = true
	done := 0
	for i, src := range c.Srcs {
		src := string(src)
		toks, ok := pegToks(src, mode, gram.keywords())
		if !ok {
			continue
		}
		rts := refLex(src, mode&tpl.InsertSemis != 0).tokens(mode)
		toks, keep := mapToks(c.Maps, src, toks)
		var rt []RTok
		for _, k := range keep {
			rt = append(rt, rts[k])
		}
		ref, ok := refMatch(gram, gram.rule("doc"), toks, stepsFor(toks))
		if !ok {
			x.Class("too many steps")
			continue
		}
		done++
		want := refExtract(ref, rt, marks, c.Conv)
		doc, err := e.SafeExtract(src)
		if err := sameParse(doc, err, want); err != nil {
			return failf("input %d %q: %v", i, src, err)
		}
		x.NonTrivialIf(len(toks) > 1 && len(c.Maps) > 0)
		x.ClassIf(err == nil, "document")
	}
	if done == 0 {
		return errSkip
	}
	return s.used(mode, done)
}

// ScanQCase is a qlang program written with other operators, that a scanner changes back.
type ScanQCase struct {
	QCase
	Swaps [][2]string
}

var qSwaps = [][2]string{{"+", "-"}, {"*", "/"}, {"<", ">"}, {"<=", ">="}, {"==", "!="}, {"&&", "||"}, {"+=", "-="}, {"++", "--"}, {"%", "*="}, {"*", "-"}, {"[", "("}, {"]", ")"}, {"{", "["}, {"}", "]"}, {":", ","}}

func genScanQ(t *rapid.T) ScanQCase {
	c := ScanQCase{QCase: genProgs(qfoci[pick(t, []string{"Q01", "Q02", "Q03", "Q06", "Q07"})], 1)(t)}
	used := map[string]bool{}
	for _, i := range perm(t, len(qSwaps))[:between(t, 1, 4)] {
		s := qSwaps[i]
		if used[s[0]] || used[s[1]] {
			continue
		}
		used[s[0]], used[s[1]] = true, true
		c.Swaps = append(c.Swaps, s)
	}
	return c
}

func checkScanQ(c ScanQCase, x *Ctx) error {
	var maps []TokMap
	to := map[string]string{}
	for _, s := range c.Swaps {
		maps = append(maps, TokMap{From: s[0], To: s[1]}, TokMap{From: s[1], To: s[0]})
		to[s[0]], to[s[1]] = s[1], s[0]
	}
	swapped := 0
	for i, p := range c.Progs {
		src := string(p.Text)
		r := refLex(src, c.Semis)
		var b strings.Builder
		at := 0
		for _, t := range r.Toks {
			if w, ok := to[kindClass[t.Kind]]; ok && !t.Newline {
				b.WriteString(src[at:t.Start] + w)
				at = t.End
				swapped++
			}
		}
		b.WriteString(src[at:])
		// the same tokens but for those
		text := b.String()
		r2 := refLex(text, c.Semis)
		if len(r2.Errs) > 0 || len(r2.Toks) != len(r.Toks) {
			return errSkip
		}
		for k, t := range r2.Toks {
			class := kindClass[t.Kind]
			if w, ok := to[class]; ok {
				class = w
			}
			if class != kindClass[r.Toks[k].Kind] || t.Newline != r.Toks[k].Newline {
				return errSkip
			}
		}
		c.Progs[i].Text = Text(text)
	}
	s := newMapScanner(maps)
	o := &qlang.Options{Scanner: s}
	if c.Semis {
		o.ScanMode = tpl.InsertSemis
	}
	lang, err := qlang.New(o)
	if err != nil {
		return failf("New: %v", err)
	}
	s.armed = true
	x.Class(fmt.Sprintf("%d pairs of operators", len(c.Swaps)))
	if err := qcheckOn(lang, c.QCase, x, func(*qm) bool { return swapped > 0 }); err != nil {
		return err
	}
	return s.used(o.ScanMode, 1)
}

func init() {
	reg("C08", "compiler", "compiled grammars with a scanner that changes the classes of tokens or drops some; non-trivial: over one token and a change",
		10000, 400000, genScanText, checkScanText)
	reg("C08", "interpreter", "interpreters with such a scanner; non-trivial: a mark runs", 8000, 300000, genScanHost, checkScanHost)
	reg("C08", "extractor", "extractors with such a scanner; non-trivial: over one token and a change", 8000, 300000, genScanEx, checkScanEx)
	reg("C08", "qlang", "qlang programs written with exchanged operators, and a scanner that exchanges them again; non-trivial: one was exchanged",
		6000, 200000, genScanQ, checkScanQ)
}
