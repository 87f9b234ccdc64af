package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- G02: tplgen

// PkgCase is a package with a grammar in it.
type PkgCase struct {
	Name   string     // of the package
	Flag   string     // -g, "" for the default name
	Out    string     // -f, "" for the default file
	Where  string     // how the grammar is declared
	Quoted bool       // as a quoted string
	Before []string   // decoys
	After  []string   // decoys
	Files  []PkgFile  // other files
	Stale  Text       // what the output file holds before
	Host   *HostCase  // -i: the interpreter of the grammar
	Text   Text       // without Host: the grammar
	Run    *GenRun    // and its use
	Gram   *Gram      // and its meaning
	Bad    DefectCase // with a defect: the grammar is this one
	Absent bool       // no such grammar
}

// PkgFile is another file of the package's directory.
type PkgFile struct{ Name, Text string }

// PkgBatch are packages whose compilers are built in one program.
type PkgBatch struct{ Pkgs []PkgCase }

// Forms of declarations; N is the name, V the value.
var pkgForms = []string{
	"const N = V",
	"const N string = V",
	"var N = V",
	"var N string = V",
	"const (\n\tzFirst = 1\n\tN = V\n\tzLast = \"x = IDENT\"\n)",
	"var (\n\tzA, zB int\n\tN string = V // grammar\n)",
	"var zOther, N = \"doc = '-'\", V",
	"const N, zOther = V, 5",
	"var zOther, N, zThird = 1, V, \"doc = '?'\"",
	"func zF() {\n\tconst N = V\n}",
	"func zF() string {\n\tvar N = V\n\treturn N\n}",
	"func zF() string {\n\tvar N string = V\n\treturn N\n}",
	"func zF() string {\n\tN := V\n\treturn N\n}",
	"func zF() string {\n\tvar N string\n\tN = V\n\treturn N\n}",
	"var N string\n\nfunc init() {\n\tN = V\n}",
	"func zF() (N string) {\n\tN = V\n\treturn\n}",
	"func zF() (int, string) {\n\tvar zX int\n\tvar N string\n\tzX, N = 7, V\n\treturn zX, N\n}",
	"func zF() (int, string) {\n\tzX, N := 7, V\n\treturn zX, N\n}",
	"func zF() (s string, n int) {\n\tN, zX := V, 7\n\treturn N, zX\n}",
	"func zF(zP int) int {\n\tzP++\n\tif zP > 3 {\n\t\tzP = 2\n\t}\n\tconst (\n\t\tzC = 5\n\t\tN = V\n\t)\n\treturn zP + zC\n}",
	"type zT struct{}\n\nfunc (p *zT) zM(zS string) string {\n\tzS += \"doc = INT\"\n\tN := V\n\treturn zS + N\n}",
	"func init() {\n\tN := V\n\tif len(N) > 1000000 {\n\t\tpanic(N)\n\t}\n}",
	"// zF has a grammar.\nfunc zF() func() string {\n\tdefer func() { recover() }()\n\tvar zX, N = 5, V\n\t_ = zX\n\treturn func() string { return N }\n}",
}

// genPkgForm is a declaration of N among many others.
func genPkgForm(t *rapid.T) string {
	var names, vals []string
	n := between(t, 1, 9)
	at := intn(t, n)
	for i := 0; i < n; i++ {
		names, vals = append(names, fmt.Sprintf("zN%d", i)), append(vals, pick(t, []string{"5", "\"doc = ','\"", "'x'", "1.5"}))
	}
	names[at], vals[at] = "N", "V"
	lhs, rhs := strings.Join(names, ", "), strings.Join(vals, ", ")
	used := strings.Repeat("_, ", n-1) + "_ = " + lhs
	lines := func(k int, form string) string {
		var b strings.Builder
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, strings.ReplaceAll(form, "#", "%[1]d"), i)
		}
		return b.String()
	}
	k := size(t, 1, 40)
	switch intn(t, 8) {
	case 0:
		return "const " + lhs + " = " + rhs
	case 1:
		return "var " + lhs + " = " + rhs
	case 2:
		return "const (\n" + lines(k, "\tzQ# = #\n") + "\t" + lhs + " = " + rhs + "\n" + lines(k/2, "\tzR# = \"#\"\n") + ")"
	case 3:
		return "var (\n" + lines(k, "\tzQ# int // #\n") + "\tN = V\n" + lines(k/2, "\tzR# = \"#\"\n") + ")"
	case 4:
		return "func zF() {\n" + lines(k, "\tzQ# := #\n\t_ = zQ#\n") + "\t" + lhs + " := " + rhs + "\n\t" + used + "\n}"
	case 5:
		return "func zF() {\n" + lines(k, "\tif # == 1 {\n\t\treturn\n\t}\n") + "\tvar " + lhs + " = " + rhs + "\n\t" + used + "\n" + lines(k, "\tfor zI := 0; zI < #; zI++ {\n\t}\n") + "}"
	case 6:
		return "func zF() {\n" + lines(k, "\tswitch {\n\tcase false:\n\t\tpanic(#)\n\t}\n") + "\tconst " + lhs + " = " + rhs + "\n}"
	default:
		return lines(k, "func zG#() {}\n\n") + "func zF() (N string) {\n" + lines(k, "\tdefer zG#()\n") + "\tN = V\n\treturn\n}"
	}
}

// Decoys; N is the name, K is a number.
var pkgDecoys = []string{
	"const NX = \"doc = 'a'\"",
	"var xN = \"doc = '('\"",
	"// const N = \"doc = '+'\"",
	"/*\nvar N = \"doc = '+'\"\n*/",
	"func zDK() int {\n\tN := 5\n\treturn N\n}",
	"func zDK(N string) string {\n\treturn N + \"doc = '*'\"\n}",
	"type zDK struct {\n\tN string\n}\n\nvar zDKV = zDK{N: \"doc = '='\"}",
	"var zDK = map[string]string{\"N\": \"doc = '='\"}",
	"var zDK = \"const N = `doc = ','`\"",
	"func zDK() {\n\tvar N int\n\t_ = N\n}",
	"func zDK() (N string) {\n\treturn\n}",
	"type zDK struct{}\n\nfunc (zDK) N() string { return \"doc = ';'\" }",
	"func zDK() (s string) {\n\tvar N string\n\ts += N\n\treturn\n}",
	"var zDK = func() string { return \"doc = '.'\" }()",
	"const zDK = \"doc = '/'\"",
	"type zDK interface {\n\tN() string\n}",
	"func zDK() {\n\tvar zE, N = \"doc = ','\", 7\n\t_, _ = zE, N\n}",
	"func zDK() {\n\tN, zE := 1, \"doc = ','\"\n\t_, _ = zE, N\n}",
}

// genLitHost is an interpreter that is given literals.
func genLitHost(t *rapid.T) HostCase {
	args := []struct{ kw, tok, arg string }{
		{"a", "INT", "int"}, {"b", "INT", "int64"}, {"c", "INT", "float64"}, {"d", "INT", "string"},
		{"e", "FLOAT", "float64"}, {"f", "FLOAT", "string"}, {"g", "FLOAT", "int64"}, {"h", "STRING", "string"}, {"i", "CHAR", "int"},
	}
	or := &G{Op: "or"}
	c := HostCase{}
	for i, a := range args {
		h := HostMark{Recv: pick(t, []string{"stk", "ipt"}), Arg: a.arg, Name: fmt.Sprintf("m%d", i+1), Push: chance(t, 50), Ctx: chance(t, 20)}
		c.Marks = append(c.Marks, h)
		or.Kids = append(or.Kids, &G{Op: "and", Kids: []*G{{Op: "tok", T: "kw:" + a.kw}, {Op: "mark", Name: h.Name, Kids: []*G{{Op: "tok", T: a.tok}}}}})
	}
	c.Gram = &Gram{Rules: []Rule{{"doc", &G{Op: "rep0", Kids: []*G{or}}}}}
	c.Gram.number()
	c.Steps = many(t, 5, 60, 40, func(t *rapid.T) HostStep {
		var b strings.Builder
		n := 1 + tail(t, 1, 3)
		for i := 0; i < n; i++ {
			lit := genLit(t).Lit
			r := refLex(lit, false)
			for len(r.Errs) > 0 || len(r.Toks) != 1 || r.Toks[0].Kind != kINT && r.Toks[0].Kind != kFLOAT {
				lit = genInt(t)
				r = refLex(lit, false)
			}
			kws := []string{"a", "b", "c", "d"}
			if r.Toks[0].Kind == kFLOAT {
				kws = []string{"e", "e", "e", "f", "g"}
			}
			if chance(t, 5) {
				kws, lit = []string{"h"}, genString(t)
			}
			fmt.Fprintf(&b, "%s %s\n", pick(t, kws), lit)
		}
		return HostStep{Src: Text(b.String())}
	})
	return c
}

// genPkg is a package whose grammar is the grammar of an interpreter, or a small one.
func genPkg(host bool) func(t *rapid.T) PkgCase {
	return func(t *rapid.T) PkgCase {
		c := genPkgText(t)
		switch {
		case c.Bad.Defect != "":
		case host:
			h := group(t, genLitHost)
			if chance(t, 85) {
				h = genHost(hostOpts{marks: 35, cuts: 4, sigs: true, fail: 8, code: 8, mute: 6, steps: 4, fnames: true, goNames: true, onlyU: 20})(t)
			}
			c.Host = &h
			c.Text = h.Gram.genText(t)
		default:
			g := genGramRun(gramOpts{marks: 35, cuts: 6, keywords: true, maxRules: 3})
			if chance(t, 8) {
				g = genLargeGramRun
			}
			r := g(t)
			c.Gram, c.Text, c.Run = r.Gram, r.Text, &r.Run
		}
		return c
	}
}

func genPkgText(t *rapid.T) PkgCase {
	c := PkgCase{
		Name: pick(t, []string{"p", "calc", "main2", "é", "grammar", "tplx", "a_b"}),
		Out:  pick(t, []string{"", "", "x.go", "gen_compiler.go", "static.go", "z_1.go"}),
		Flag: pick(t, []string{"", "", "g", "Grammar", "theGrammar", "é1", "_g", "theGrammarOf" + strings.Repeat("TheLanguage", 6)}),
	}
	if chance(t, 10) {
		c.Flag = "grammar"
	}
	c.Where = pick(t, pkgForms)
	if chance(t, 30) {
		c.Where = genPkgForm(t)
	}
	c.Quoted = chance(t, 30)
	decoy := func(t *rapid.T) string { return pick(t, pkgDecoys) }
	c.Before = tailed(t, 0, 3, 20, decoy)
	c.After = tailed(t, 0, 3, 20, decoy)
	if chance(t, 50) {
		c.Files = append(c.Files, PkgFile{pick(t, []string{"a.go", "zz.go"}), "package P\n\n" + decoyText(decoy(t), 90)})
	}
	if chance(t, 10) {
		for i, n := 0, between(t, 3, 25); i < n; i++ {
			if d := decoy(t); d[0] == '/' || strings.Contains(d, "DK") { // no name twice
				c.Files = append(c.Files, PkgFile{fmt.Sprintf("f%d.go", i), "package P\n\n" + decoyText(d, 100+i)})
			}
		}
	}
	if chance(t, 20) {
		c.Files = append(c.Files, PkgFile{"b_test.go", "package P\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n"})
	}
	if chance(t, 20) {
		c.Files = append(c.Files, PkgFile{"grammar.txt", "package P\n\nconst N = \"doc = '%'\"\n"})
	}
	if chance(t, 20) {
		c.Files = append(c.Files, PkgFile{"sub/sub.go", "package sub\n\nconst N = \"doc = '%'\"\n"})
	}
	switch weighted(t, 5, 2, 2, 1) {
	case 1:
		c.Stale = "package old\n\nvar x = // broken\n"
	case 2:
		c.Stale = Text("package P\n\nconst N = \"doc = '^'\"\n\n" + strings.Repeat("// an old output file\n", 2000))
	case 3:
		c.Stale = "not go"
	}
	switch weighted(t, 10, 1, 1) {
	case 1:
		c.Absent = true
	case 2:
		for c.Bad.Defect == "" || c.Bad.Defect == "?" {
			c.Bad = genDefect(t)
		}
	}
	return c
}

func genPkgBatch(host bool) func(t *rapid.T) PkgBatch {
	return func(t *rapid.T) PkgBatch {
		b := PkgBatch{}
		n := 1 + tail(t, 3, 12, 20)
		for i := 0; i < n && i < 24; i++ {
			b.Pkgs = append(b.Pkgs, group(t, genPkg(host)))
		}
		return b
	}
}

func decoyText(s string, k int) string { return strings.ReplaceAll(s, "DK", "D"+strconv.Itoa(k)) }

// grammarName is the name of the grammar's declaration.
func (c *PkgCase) grammarName() string {
	if c.Flag == "" {
		return "grammar"
	}
	return c.Flag
}

// write writes the package and gives the output file's path.
func (c *PkgCase) write(dir, text string) (out string, err error) {
	name := c.grammarName()
	subst := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ { // N and P stand alone or after/before an X, x
			prev, next := byte(' '), byte(' ')
			if i > 0 {
				prev = s[i-1]
			}
			if i+1 < len(s) {
				next = s[i+1]
			}
			letter := func(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' }
			switch {
			case s[i] == 'N' && (!letter(prev) || prev == 'x' && i > 4 && s[i-2] == ' ') && (!letter(next) || next == 'X'):
				b.WriteString(name)
			case s[i] == 'P' && !letter(prev) && !letter(next) && strings.HasSuffix(s[:i], "package "):
				b.WriteString(c.Name)
			default:
				b.WriteByte(s[i])
			}
		}
		return b.String()
	}
	var s strings.Builder
	fmt.Fprintf(&s, "// Package %s is generated.\npackage %s\n\n", c.Name, c.Name)
	k := 0
	decoys := func(ds []string) {
		for _, d := range ds {
			k++
			s.WriteString(subst(strings.ReplaceAll(decoyText(d, k), "zDV", "zDV"+strconv.Itoa(k)+"_")) + "\n\n")
		}
	}
	// declarations of the package level occur once
	seen := map[string]bool{}
	once := func(ds []string) (out []string) {
		for _, d := range ds {
			if !strings.Contains(d, "zD") && seen[d] {
				continue
			}
			seen[d] = true
			out = append(out, d)
		}
		return
	}
	for _, f := range c.Files {
		for _, d := range pkgDecoys {
			seen[d] = seen[d] || !strings.Contains(d, "zD") && strings.Contains(f.Text, d)
		}
	}
	decoys(once(c.Before))
	if !c.Absent {
		lit := strconv.Quote(text)
		if !c.Quoted && !strings.ContainsAny(text, "`\r") && strings.ToValidUTF8(text, "") == text {
			lit = "`" + text + "`"
		}
		decl := subst(c.Where)
		if i := strings.LastIndex(decl, "V"); true {
			// V stands alone
			for i >= 0 && !(i > 0 && decl[i-1] == ' ') {
				i = strings.LastIndex(decl[:i], "V")
			}
			decl = decl[:i] + lit + decl[i+1:]
		}
		s.WriteString(decl + "\n\n")
	}
	decoys(once(c.After))
	if err := writeFile(filepath.Join(dir, "m.go"), s.String()); err != nil {
		return "", err
	}
	for _, f := range c.Files {
		if err := writeFile(filepath.Join(dir, f.Name), subst(f.Text)); err != nil {
			return "", err
		}
	}
	out = c.Out
	if out == "" {
		out = "static_compiler.go"
	}
	out = filepath.Join(dir, out)
	if c.Stale != "" {
		err = writeFile(out, subst(string(c.Stale)))
	}
	return out, err
}

// pkgWork is what the program does with one package.
type pkgWork struct {
	Host *HostCase
	Run  *GenRun
}

// staticKind is a package with a generated compiler, in the program made of it.
type staticKind struct {
	side func(GenConf) (tpl.CompileRet, error)
	eng  engineKind
}

var staticKinds []staticKind

// staticChild runs in the program made of generated packages.
func staticChild(args []string) int {
	go watchdog()
	var works []pkgWork
	if err := json.NewDecoder(os.Stdin).Decode(&works); err != nil {
		panic(err)
	}
	if len(works) != len(staticKinds) {
		panic("harness: packages are missing")
	}
	out := make([]string, len(works))
	for i, w := range works {
		err := func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					err = failf("panic: %v", e)
				}
			}()
			if w.Host != nil {
				return checkHostOf(*w.Host, staticKinds[i].eng, &Ctx{})
			}
			return sameLogs(runGen(*w.Run, staticKinds[i].side), runGen(*w.Run, dynamicSide))
		}()
		if err != nil && err != errSkip {
			out[i] = err.Error()
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
	return 0
}

func copyFile(from, to string) error {
	r, err := os.Open(from)
	if err != nil {
		return err
	}
	defer r.Close()
	w, err := os.Create(to)
	if err != nil {
		return err
	}
	if _, err := io.Copy(w, r); err != nil {
		w.Close()
		return err
	}
	return w.Close()
}

func harnessSource() string {
	if s := os.Getenv("HV_SRC"); s != "" {
		return s
	}
	return filepath.Join(scratchRoot(), "src")
}

// runPkgSides builds a program of the packages and compares their compilers with the dynamic one.
func runPkgSides(dir string, pkgs []string, works []pkgWork, about string) error {
	var runs []GenRun
	for _, w := range works {
		runs = append(runs, *w.Run)
	}
	out, err := runSides(dir, pkgs, runs)
	if err != nil {
		return failf("%v\n%s", err, about)
	}
	for i := range out {
		if err := sameLogs(out[i][0], out[i][1]); err != nil {
			return failf("%s: static and dynamic compiler differ: %v\n%+v\n%s", pkgs[i], err, runs[i], about)
		}
	}
	return nil
}

func checkPkgBatch(b PkgBatch, x *Ctx) error {
	bin, err := sharedBuild("github.com/qiniu/text/tpl/cmd/tplgen")
	if err != nil {
		return err
	}
	dir, err := os.MkdirTemp(scratchRoot(), "pkgs")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	var works []pkgWork
	var pkgs []string
	var imports, kinds strings.Builder
	about, host := "", false
	for i, c := range b.Pkgs {
		p := filepath.Join(dir, fmt.Sprintf("s%d", i))
		text := string(c.Text)
		if c.Bad.Defect != "" {
			text = string(c.Bad.Text)
		}
		out, err := c.write(p, text)
		if err != nil {
			return err
		}
		var args []string
		if c.Flag != "" {
			args = append(args, "-g", c.Flag)
		}
		if c.Out != "" {
			args = append(args, "-f", c.Out)
		}
		if c.Host != nil {
			args = append(args, "-i")
		}
		_, stderr, code, err := runCmd(60*time.Second, p, nil, bin, args...)
		if err != nil {
			return failf("tplgen %q: %v", args, err)
		}
		src, _ := os.ReadFile(filepath.Join(p, "m.go"))
		say := fmt.Sprintf("tplgen %q: exit %d, stderr %q, package\n%s", args, code, stderr, src)
		if c.Absent || c.Bad.Defect != "" {
			x.ClassIf(c.Absent, "no such grammar")
			x.ClassIf(!c.Absent, "ill-formed grammar")
			if code == 0 {
				return failf("%s\nwant a failure (absent %v, defect %q)", say, c.Absent, c.Bad.Defect)
			}
			if len(stderr) == 0 {
				return failf("%s\na failure without a message", say)
			}
			continue
		}
		if code != 0 {
			return failf("%s\nwant success", say)
		}
		if _, err := os.Stat(out); err != nil {
			return failf("%s\nno output file: %v", say, err)
		}
		x.Class("form " + strings.SplitN(c.Where, "\n", 2)[0])
		w := pkgWork{Host: c.Host}
		if c.Host == nil {
			r := GenGramCase{c.Gram, c.Text, *c.Run}.prepare()
			w.Run = &r
		}
		works = append(works, w)
		host = host || c.Host != nil
		about += say + "\n"
		fmt.Fprintf(&imports, "\ts%d \"verifharness/s%d\"\n", i, i)
		pkgs = append(pkgs, fmt.Sprintf("s%d", i))
		fmt.Fprintf(&kinds, `
	staticKinds = append(staticKinds, staticKind{
		side: func(c GenConf) (tpl.CompileRet, error) {
			p := &s%d.StaticCompiler{Grammar: c.Grammar, Marker: c.Marker, Init: c.Init, Scanner: c.Scanner, ScanMode: c.Mode}
			return p.Cl(), nil
		},
`, i)
		if c.Host != nil {
			x.Class("with interpreter")
			fmt.Fprintf(&kinds, `		eng: engineKind{
			func(ipt iutil.Interface, mode tpl.ScanMode) (hostEngine, error) {
				eng, err := s%d.NewStaticInterpreter(ipt, &s%d.Options{ScanMode: mode})
				if err != nil {
					return nil, err
				}
				return eng, nil
			},
			func(err error) (error, bool) {
				e, ok := err.(*s%d.RuntimeError)
				if !ok {
					return nil, false
				}
				return e.Err, true
			},
		},
`, i, i, i)
		}
		kinds.WriteString("\t})\n")
	}
	x.NonTrivial()
	if len(works) == 0 {
		return nil
	}
	if !host {
		return runPkgSides(dir, pkgs, works, about)
	}
	from := harnessSource()
	names, err := filepath.Glob(filepath.Join(from, "*"))
	if err != nil {
		return err
	}
	for _, n := range names {
		if fi, err := os.Stat(n); err == nil && fi.Mode().IsRegular() {
			if err := copyFile(n, filepath.Join(dir, filepath.Base(n))); err != nil {
				return err
			}
		}
	}
	reg := fmt.Sprintf(`package main

import (
	"github.com/qiniu/text/tpl"
	iutil "github.com/qiniu/text/tpl/interpreter.util"
%s)

var _ iutil.Engine

func init() {
%s}
`, imports.String(), kinds.String())
	if err := writeFile(filepath.Join(dir, "zz_static.go"), reg); err != nil {
		return err
	}
	_, stderr, code, err := runCmd(300*time.Second, dir, nil, "go", "build", "-ldflags=-s -w", "-o", "prog", ".")
	if err != nil {
		return fmt.Errorf("harness: go build: %v", err)
	}
	if code != 0 {
		return failf("the generated code doesn't compile: %s\n%s", stderr, about)
	}
	in, err := json.Marshal(works)
	if err != nil {
		return err
	}
	stdout, stderr, code, err := runCmdIn(120*time.Second, dir, nil, in, "./prog", "static")
	if err != nil || code != 0 {
		return failf("the program with the generated code: exit %d, %v\n%s\n%s", code, err, trimStack(stderr), about)
	}
	var out []string
	if err := json.Unmarshal(stdout, &out); err != nil || len(out) != len(works) {
		return failf("the program with the generated code prints %q", stdout)
	}
	for i, s := range out {
		if s != "" {
			return failf("package %d: %s\n%s", i, s, about)
		}
	}
	return nil
}

func init() {
	childModes["static"] = staticChild
	reg("G02", "packages", "batches of packages given to tplgen, the compilers built and run; non-trivial: all", 120, 3000, genPkgBatch(false), checkPkgBatch)
	reg("G02", "interpreters", "batches of packages given to tplgen -i, the interpreters built and run; non-trivial: all", 40, 1000, genPkgBatch(true), checkPkgBatch)
}
