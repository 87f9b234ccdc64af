package main

import (
	"fmt"

	"github.com/qiniu/text/tpl"
)

// This file is part of the harness, and of the programs made by the checks of G01 and G02, which run generated
// compilers.

// GenRun is a configuration of a compiler and what is done with it.
type GenRun struct {
	Grammar string
	Mode    uint
	Scan    string   // "", "auto", "preset", "plain", "quote"
	Preset  []string // keywords known to the scanner before
	Marker  string   // "action", "wrap", "none"
	NoInit  bool
	Steps   []GenStep
	Twice   bool // a second compiler of the same configuration is used in between
}

// GenStep is one use of the compiled grammar.
type GenStep struct {
	How  string // "exactly", "match", "eval", "sub"
	Rule string
	Src  []byte
}

// GenConf is what a compiler is given.
type GenConf struct {
	Grammar string
	Marker  func(g tpl.Grammar, mark string) tpl.Grammar
	Init    func()
	Scanner tpl.Tokener
	Mode    tpl.ScanMode
}

// quoteScanner makes an identifier that starts with q a STRING.
type quoteScanner struct {
	tpl.AutoKwScanner
}

func (p *quoteScanner) Scan() tpl.Token {
	t := p.AutoKwScanner.Scan()
	if t.Kind == tpl.IDENT && t.Literal[0] == 'q' {
		t.Kind = tpl.STRING
	}
	return t
}

func dynamicSide(c GenConf) (tpl.CompileRet, error) {
	p := &tpl.Compiler{Grammar: []byte(c.Grammar), Marker: c.Marker, Init: c.Init, Scanner: c.Scanner, ScanMode: c.Mode}
	return p.Cl()
}

type genSide struct {
	ret  tpl.CompileRet
	logs *[]string
	scan tpl.Tokener
}

func newGenSide(r GenRun, build func(GenConf) (tpl.CompileRet, error), logs *[]string, tag string) (s *genSide, err error) {
	say := func(f string, a ...interface{}) {
		if len(*logs) < 3000 {
			*logs = append(*logs, tag+fmt.Sprintf(f, a...))
		}
	}
	s = &genSide{logs: logs}
	c := GenConf{Grammar: r.Grammar, Mode: tpl.ScanMode(r.Mode)}
	switch r.Scan {
	case "auto":
		c.Scanner = new(tpl.AutoKwScanner)
	case "preset":
		a := new(tpl.AutoKwScanner)
		for _, k := range r.Preset {
			a.Ltot(`"` + k + `"`)
		}
		c.Scanner = a
	case "plain":
		c.Scanner = new(tpl.Scanner)
	case "quote":
		c.Scanner = new(quoteScanner)
	}
	act := func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(toks []tpl.Token, g2 tpl.Grammar) {
			lits := ""
			for _, t := range toks {
				kind := fmt.Sprint(t.Kind)
				if t.Kind >= tpl.USER_TOKEN_BEGIN { // which number a keyword has isn't specified
					kind = "keyword"
				}
				lits += fmt.Sprintf(" %s:%q@%d", kind, t.Literal, t.Pos)
			}
			say("%s len %d tokens%s", mark, g2.Len(), lits)
		})
	}
	switch r.Marker {
	case "action":
		c.Marker = act
	case "wrap":
		c.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
			return tpl.And(tpl.GrTrue, act(g, mark), act(tpl.GrTrue, "after "+mark))
		}
	}
	if !r.NoInit {
		c.Init = func() { say("init") }
	}
	ret, err := build(c)
	if err != nil {
		return nil, err
	}
	s.ret = ret
	s.scan = c.Scanner
	return s, nil
}

func (s *genSide) do(i int, st GenStep) {
	var err error
	what, rest := "done", -1
	func() {
		defer func() {
			if e := recover(); e != nil {
				if e2, ok := e.(error); ok {
					what, err = "panic", e2
				} else {
					what, err = "panic", fmt.Errorf("%T", e)
				}
			}
		}()
		switch st.How {
		case "exactly":
			err = s.ret.MatchExactly(st.Src, "")
		case "match":
			var next []tpl.Token
			next, err = s.ret.Match(st.Src, "")
			rest = len(next)
		case "eval":
			err = s.ret.Eval(string(st.Src))
		case "sub":
			err = s.ret.EvalSub(st.Rule, string(st.Src))
		case "subtoks":
			var toks []tpl.Token
			if toks, err = s.ret.Tokenize(st.Src, ""); err == nil {
				err = s.ret.EvalSub(st.Rule, toks)
			}
		}
	}()
	same := s.scan == nil || s.ret.Tokener() == s.scan
	*s.logs = append(*s.logs, fmt.Sprintf("step %d: %s, error %v, rest %d, scanner %v", i, what, err != nil, rest, same))
}

// runGen gives the log of a run.
func runGen(r GenRun, build func(GenConf) (tpl.CompileRet, error)) (logs []string) {
	defer func() {
		if e := recover(); e != nil {
			logs = append(logs, fmt.Sprintf("panic: %v", e))
		}
	}()
	s, err := newGenSide(r, build, &logs, "")
	if err != nil {
		return append(logs, "rejected")
	}
	s2 := s
	if r.Twice {
		if s2, err = newGenSide(r, build, &logs, "other "); err != nil {
			return append(logs, "rejected")
		}
	}
	for i, st := range r.Steps {
		s.do(i, st)
		if s2 != s {
			s2.do(i, st)
		}
	}
	return logs
}
