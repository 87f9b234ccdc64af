package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"time"

	_ "embed"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/generator"
	"pgregory.net/rapid"
)

//go:embed p_genrun.go
var genRunSource string

// ---------------------------------------------------------------- G01: static compilers

// GenGramCase is a grammar, its text and how it is used.
type GenGramCase struct {
	Gram *Gram
	Text Text
	Run  GenRun
}

// GenBatch are grammars whose static compilers are built in one program.
type GenBatch struct {
	Grams []GenGramCase
}

// usableRule: can the generated method have a variable of this name?
func usableRule(name string) bool {
	switch name {
	case "_", "tpl", "cmplr", "ret", "new", "nil", "string":
		return false
	}
	return token.IsIdentifier(name)
}

var usableOdd = func() (l []string) {
	for _, n := range oddNames {
		if usableRule(n) {
			l = append(l, n)
		}
	}
	return
}()

var genRuleNames = [][]string{
	{"doc", "a", "expr", "x1", "_b", "é", "list", "rule7"},
	{"doc", "list", "and", "or", "vars", "true", "map", "fmt", "g"},
	{"doc", "len", "error", "main", "static", "init", "grammar", "marker", "scanner"},
	{"doc", "expr", "term", "factor", "byte", "append", "int", "panic", "make"},
}

func genGramRun(o gramOpts) func(t *rapid.T) GenGramCase {
	o.normal = true
	return func(t *rapid.T) GenGramCase {
		var names []string
		for _, n := range pick(t, genRuleNames) {
			if usableRule(n) && n != "true" || n == "true" && chance(t, 30) {
				names = append(names, n)
			}
		}
		if chance(t, 15) {
			o.maxRules = 8
		}
		o.names, o.odd = names, usableOdd
		g := genGram(t, o)
		nameMarks(t, g, chance(t, 40))
		if chance(t, 60) {
			shuffleRules(t, g)
		}
		c := GenGramCase{Gram: g}
		c.Text = g.genText(t)
		if p, defect := refParse(string(c.Text)); defect != "" {
			panic("harness: rendered grammar is rejected by the reference parser: " + defect)
		} else {
			c.Gram = p // true may be a rule or not
		}
		r := GenRun{Mode: uint(pick(t, []tpl.ScanMode{0, 0, tpl.InsertSemis, tpl.ScanComments}))}
		switch weighted(t, 4, 2, 2, 2, 2) {
		case 1:
			r.Scan = "auto"
		case 2:
			r.Scan = "preset"
			words := map[string]bool{}
			for _, tok := range refLex(string(c.Text), true).Toks {
				words[tok.Lit] = true
			}
			for _, k := range keywordPool {
				if chance(t, 30) && !words[k] { // the scanner reads the grammar, too
					r.Preset = append(r.Preset, k)
				}
			}
		case 3:
			if len(g.keywords()) == 0 {
				r.Scan = "plain"
			}
		case 4:
			r.Scan = "quote"
		}
		r.Marker = pick(t, []string{"action", "action", "action", "wrap", "none"})
		r.NoInit = chance(t, 20)
		r.Twice = chance(t, 30)
		hows := func(rule string, srcs []Text) {
			for _, s := range srcs {
				src := string(s)
				if r.Scan == "quote" {
					ws := strings.Split(src, " ")
					for i, w := range ws {
						if isRefIdent(w) && chance(t, 30) || len(w) > 1 && w[0] == '"' && chance(t, 30) && isRefIdent(w[1:len(w)-1]) {
							ws[i] = "q" + strings.Trim(w, `"`)
						}
					}
					src = strings.Join(ws, " ")
				}
				st := GenStep{How: pick(t, []string{"exactly", "exactly", "match", "eval"}), Src: []byte(src)}
				if rule != "" {
					st.How, st.Rule = pick(t, []string{"sub", "subtoks"}), rule
				}
				r.Steps = append(r.Steps, st)
			}
		}
		hows("", genInputs(t, c.Gram, "doc", 8))
		if chance(t, 60) {
			rule := pick(t, c.Gram.Rules).Name
			hows(rule, genInputs(t, c.Gram, rule, 4))
		}
		if chance(t, 20) {
			r.Steps = append(r.Steps, GenStep{How: "sub", Rule: "norule", Src: []byte("1")})
		}
		c.Run = r
		return c
	}
}

func genGenBatch(t *rapid.T) GenBatch {
	b := GenBatch{}
	n := tail(t, 3, 10, 16)
	if n > 20 {
		n = 20
	}
	for i := 0; i < 1+n; i++ {
		b.Grams = append(b.Grams, group(t, genGramRun(gramOpts{marks: 35, cuts: 6, keywords: i%3 != 0})))
	}
	return b
}

// prepare gives the run with the steps that are in the domain.
func (c GenGramCase) prepare() (r GenRun) {
	r = c.Run
	r.Grammar = string(c.Text)
	r.Steps = nil
	kws := c.Gram.keywords()
	for _, k := range c.Run.Preset {
		if c.Run.Scan == "preset" {
			kws[k] = true
		}
	}
	for _, st := range c.Run.Steps {
		rule := st.Rule
		if rule == "" {
			rule = "doc"
		}
		if g := c.Gram.rule(rule); g != nil {
			src := string(st.Src)
			if r.Scan == "quote" {
				src = strings.ReplaceAll(src, "q", `""`+" ") // no more tokens than that
			}
			toks, ok := pegToks(src, tpl.ScanMode(r.Mode), kws)
			if !ok && r.Scan != "quote" && len(st.Src) > 40 {
				continue
			}
			if ok {
				if _, ok = refMatch(c.Gram, g, toks, 20000); !ok {
					continue
				}
			}
		}
		r.Steps = append(r.Steps, st)
	}
	return r
}

// generate calls the generator.
func generate(text string) (code string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return generator.GenStaticCode(text)
}

// goModule makes dir a module that can use the packages of the harness's module.
func goModule(dir string) error {
	src := filepath.Join(scratchRoot(), "src")
	if s := os.Getenv("HV_SRC"); s != "" {
		src = s
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func writeFile(path, text string) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, []byte(text), 0o644)
}

func checkGenBatch(b GenBatch, x *Ctx) error {
	dir, err := os.MkdirTemp(scratchRoot(), "gen")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	var runs []GenRun
	var pkgs []string
	for i, c := range b.Grams {
		code, err := generate(string(c.Text))
		if err != nil {
			return failf("grammar %d is rejected by the generator: %v\n%s", i, err, c.Text)
		}
		r := c.prepare()
		runs = append(runs, r)
		p := fmt.Sprintf("g%d", i)
		if err := writeFile(filepath.Join(dir, p, "g.go"), "package "+p+"\n\nimport \"github.com/qiniu/text/tpl\"\n"+code); err != nil {
			return err
		}
		pkgs = append(pkgs, p)
		if len(r.Steps) > 2 && c.Gram.size() > 3 {
			x.NonTrivial()
		}
		x.Class("scanner " + r.Scan)
		x.Class("marker " + r.Marker)
		x.ClassIf(c.Gram.hasCut(), "cuts")
		x.ClassIf(len(c.Gram.keywords()) > 0, "keywords")
	}
	out, err := runSides(dir, pkgs, runs)
	if err != nil {
		return failf("%v\n%s", err, b.texts())
	}
	for i := range out {
		if err := sameLogs(out[i][0], out[i][1]); err != nil {
			return failf("static and dynamic compiler differ: %v\n%+v\n%s", err, runs[i], b.Grams[i].Text)
		}
		for _, l := range out[i][1] {
			x.ClassIf(strings.Contains(l, "done, error false"), "match")
			x.ClassIf(strings.Contains(l, "done, error true"), "no match")
			x.ClassIf(strings.Contains(l, "panic"), "cut aborts")
		}
	}
	return nil
}

// runSides builds a program of the packages in dir and runs each one's StaticCompiler and the dynamic one.
func runSides(dir string, pkgs []string, runs []GenRun) ([][2][]string, error) {
	if err := goModule(dir); err != nil {
		return nil, err
	}
	var imports, sides strings.Builder
	for i, p := range pkgs {
		fmt.Fprintf(&imports, "\tp%d \"verifharness/%s\"\n", i, p)
		fmt.Fprintf(&sides, `	func(c GenConf) (tpl.CompileRet, error) {
		p := &p%d.StaticCompiler{Grammar: c.Grammar, Marker: c.Marker, Init: c.Init, Scanner: c.Scanner, ScanMode: c.Mode}
		return p.Cl(), nil
	},
`, i)
	}
	main := fmt.Sprintf(`package main

import (
	"encoding/json"
	"os"

	"github.com/qiniu/text/tpl"
%s)

var sides = []func(c GenConf) (tpl.CompileRet, error){
%s}

func main() {
	var runs []GenRun
	if err := json.NewDecoder(os.Stdin).Decode(&runs); err != nil {
		panic(err)
	}
	var out [][2][]string
	for i, r := range runs {
		out = append(out, [2][]string{runGen(r, sides[i]), runGen(r, dynamicSide)})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
`, imports.String(), sides.String())
	if err := writeFile(filepath.Join(dir, "main.go"), main); err != nil {
		return nil, err
	}
	if err := writeFile(filepath.Join(dir, "genrun.go"), genRunSource); err != nil {
		return nil, err
	}
	_, stderr, code, err := runCmd(300*time.Second, dir, nil, "go", "build", "-ldflags=-s -w", "-o", "prog", ".")
	if err != nil {
		return nil, fmt.Errorf("harness: go build: %v", err)
	}
	if code != 0 {
		return nil, failf("the generated code doesn't compile: %s", stderr)
	}
	in, err := json.Marshal(runs)
	if err != nil {
		return nil, err
	}
	stdout, stderr, code, err := runCmdIn(120*time.Second, dir, nil, in, "./prog")
	if err != nil || code != 0 {
		return nil, failf("the program with the generated code: exit %d, %v\n%s", code, err, trimStack(stderr))
	}
	var out [][2][]string
	if err := json.Unmarshal(stdout, &out); err != nil || len(out) != len(runs) {
		return nil, failf("the program with the generated code prints %q", stdout)
	}
	return out, nil
}

func sameLogs(a, b []string) error {
	for i := 0; i < len(a) || i < len(b); i++ {
		la, lb := "nothing", "nothing"
		if i < len(a) {
			la = a[i]
		}
		if i < len(b) {
			lb = b[i]
		}
		if la != lb {
			return failf("event %d is %q, want %q", i, la, lb)
		}
	}
	return nil
}

func (b GenBatch) texts() string {
	var s strings.Builder
	for i, g := range b.Grams {
		fmt.Fprintf(&s, "--- %d\n%s\n", i, g.Text)
	}
	return s.String()
}

// checkGenReject: what the dynamic compiler rejects is rejected.
func checkGenReject(c DefectCase, x *Ctx) error {
	text := string(c.Text)
	_, defect := refParse(text)
	_, why, crash := compile(text, compileOpts{})
	if crash != nil {
		return nil // C03 reports it
	}
	code, err := generate(text)
	x.NonTrivialIf(len(text) > 5)
	switch kind := strings.Fields(defect + " :")[0]; kind {
	case "syntax:", "lexical", "unknown", "number", "no", "rule", "undefined":
		x.Class(kind)
		if why == nil {
			return nil // C03
		}
		if err == nil {
			return failf("rejected by the compiler (%v), but not by the generator:\n%s", why, text)
		}
		if code != "" {
			return failf("the generator gives code and an error")
		}
		if err.Error() == "" || err.Error() == "panic: " {
			return failf("the generator rejects it without a message")
		}
	case ":":
		x.Class("well-formed")
		if why == nil && err != nil {
			return failf("the generator rejects a well-formed grammar: %v\n%s", err, text)
		}
	default:
		x.Class("other defects")
	}
	return nil
}

func genReject(t *rapid.T) DefectCase {
	if chance(t, 25) {
		return genSoup(t)
	}
	return genDefect(t)
}

func init() {
	reg("G01", "static", "batches of grammars built into one program; non-trivial: a grammar of more than 3 nodes with at least 3 inputs", 160, 4000, genGenBatch, checkGenBatch)
	reg("G01", "rejects", "texts of grammars, most of them with a defect; non-trivial: at least 6 characters", 8000, 400000, genReject, checkGenReject)
}
