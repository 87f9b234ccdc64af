package main

import (
	"bytes"
	"fmt"
	"go/scanner"
	gotoken "go/token"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/qiniu/text/tpl"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- helpers

var allModes = []tpl.ScanMode{0, tpl.ScanComments, tpl.InsertSemis, tpl.ScanComments | tpl.InsertSemis}

// offset of a token in the text scanned last.
func tokOff(s tpl.Tokener, t tpl.Token) int { return s.Source().File.Offset(t.Pos) }

func kindName(k uint) string {
	for _, o := range operators {
		if o.Kind == k {
			return o.Text
		}
	}
	switch k {
	case tpl.ILLEGAL:
		return "ILLEGAL"
	case tpl.EOF:
		return "EOF"
	case tpl.COMMENT:
		return "COMMENT"
	case kIDENT:
		return "IDENT"
	case kINT:
		return "INT"
	case kFLOAT:
		return "FLOAT"
	case kIMAG:
		return "IMAG"
	case kCHAR:
		return "CHAR"
	case kSTRING:
		return "STRING"
	}
	return fmt.Sprintf("kind(%d)", k)
}

func showToks(ts []tpl.Token) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%s%q ", kindName(t.Kind), t.Literal)
	}
	return b.String()
}

// sameToks compares kinds and literals.
func sameToks(got []tpl.Token, want []RTok) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return failf("token %d: missing %s %q", i, kindName(want[i].Kind), want[i].Lit)
		case i >= len(want):
			return failf("token %d: unexpected %s %q", i, kindName(got[i].Kind), got[i].Literal)
		case got[i].Kind != want[i].Kind || got[i].Literal != want[i].Lit:
			return failf("token %d: got %s %q, want %s %q", i, kindName(got[i].Kind), got[i].Literal, kindName(want[i].Kind), want[i].Lit)
		}
	}
	return nil
}

// ---------------------------------------------------------------- texts

// Piece is a lexeme and the text after it.
type Piece struct {
	L   Lexeme
	Sep string
}

func genPieces(t *rapid.T, dense bool) []Piece {
	return many(t, 0, 400, tail(t, 3, 10, 40, 150), func(t *rapid.T) Piece {
		p := Piece{L: genLexeme(t)}
		if !dense || chance(t, 30) {
			p.Sep = genTrivia(t)
			if p.L.Text == "/" && p.Sep[0] == '/' {
				p.Sep = " " + p.Sep
			}
		}
		return p
	})
}

func piecesText(ps []Piece) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.L.Text)
		b.WriteString(p.Sep)
	}
	return b.String()
}

// LexCase is a text; with Want, the tokens it was built from (comments and semicolons of newlines aside).
type LexCase struct {
	Src  Text
	Want []Lexeme
}

func genLexCase(t *rapid.T) LexCase {
	dense := chance(t, 40)
	ps := genPieces(t, dense)
	lead := ""
	if chance(t, 15) {
		lead = genTrivia(t)
	} else if chance(t, 3) {
		lead = "\uFEFF"
	}
	c := LexCase{Src: Text(lead + piecesText(ps))}
	if !dense {
		c.Want = []Lexeme{}
		for _, p := range ps {
			c.Want = append(c.Want, p.L)
		}
	}
	return c
}

// fragments for texts near the borders between tokens
var fragments = []string{
	"a", "é", "x", "e", "E", "i", "0", "1", "7", "8", "9", "0x", "0X1", ".", "..", "...", "+", "-", "*", "/", "%", "=", "<", ">", "!", "&", "|", "^", ":",
	";", ",", "(", ")", "[", "]", "{", "}", "?", "~", "@", "#", "//", "/*", "*/", "\n", "\r", "\r\n", " ", "\t", "'a'", `"s"`, "`r`", "1.", ".5", "1e5", "e+", "e-3",
	"<<", ">>=", "&^=", "<-", "++", "--", "&&", "||", "_", "中", "٣",
}

func genFragmentText(t *rapid.T, frags []string) Text {
	return Text(repeatStr(t, 0, 600, tail(t, 4, 12, 60), func(t *rapid.T) string { return pick(t, frags) }))
}

func countKinds(ts []RTok) int {
	m := map[uint]bool{}
	for _, t := range ts {
		m[t.Kind] = true
	}
	return len(m)
}

func checkLexemes(c LexCase, x *Ctx) error {
	src := string(c.Src)
	for _, mode := range allModes {
		r := refLex(src, mode&tpl.InsertSemis != 0)
		if len(r.Errs) > 0 {
			x.Class("text with a lexical error")
			return errSkip
		}
		want := r.tokens(mode)
		if mode == 0 && c.Want != nil {
			// the reference lexer itself must find the tokens the text was built from
			if len(want) != len(c.Want) {
				panic(fmt.Sprintf("harness: reference lexer found %d tokens of %d", len(want), len(c.Want)))
			}
			for i, w := range c.Want {
				if want[i].Kind != w.Kind || src[want[i].Start:want[i].End] != w.Text {
					panic(fmt.Sprintf("harness: reference lexer: token %d: %v for %v", i, want[i], w))
				}
			}
		}
		m := &tpl.Matcher{ScanMode: mode}
		got, err := m.Tokenize([]byte(src), "")
		if err != nil {
			return failf("mode %d: valid text rejected: %v", mode, err)
		}
		if err := sameToks(got, want); err != nil {
			return failf("mode %d: %v", mode, err)
		}
		x.NonTrivialIf(countKinds(want) >= 3)
		x.ClassIf(len(want) > 100, "over 100 tokens")
		x.ClassIf(strings.Contains(src, "\r"), "carriage returns")
		if mode == tpl.InsertSemis|tpl.ScanComments {
			for _, t := range want {
				if t.Newline {
					x.Class("newline semicolon")
				}
				if t.Kind == tpl.COMMENT {
					x.Class("comment")
				}
			}
		}
	}
	return nil
}

var goKinds = map[gotoken.Token]uint{
	gotoken.IDENT: kIDENT, gotoken.INT: kINT, gotoken.FLOAT: kFLOAT, gotoken.IMAG: kIMAG, gotoken.CHAR: kCHAR, gotoken.STRING: kSTRING,
	gotoken.SEMICOLON: tpl.SEMICOLON,
}

// checkGo compares with Go's own scanner on texts that mean the same in both languages.
func checkGo(c LexCase, x *Ctx) error {
	src := []byte(c.Src)
	if len(c.Want) == 0 || bytes.HasPrefix(src, []byte("\uFEFF")) {
		return errSkip
	}
	for _, w := range c.Want {
		if gotoken.Lookup(w.Text) != gotoken.IDENT || w.Text == "?" || w.Text == "@" || w.Text == "~" {
			return errSkip
		}
	}
	r := refLex(string(src), true)
	for _, t := range r.Toks {
		if t.Kind == tpl.COMMENT && src[t.Start] == '#' {
			return errSkip
		}
	}
	var s scanner.Scanner
	fset := gotoken.NewFileSet()
	s.Init(fset.AddFile("", -1, len(src)), src, nil, 0)
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	got, err := m.Tokenize(src, "")
	if err != nil {
		return failf("valid text rejected: %v", err)
	}
	for i := 0; ; i++ {
		_, k, lit := s.Scan()
		if k == gotoken.EOF {
			if i != len(got) {
				return failf("go/scanner finds %d tokens, not %d", i, len(got))
			}
			break
		}
		kind, ok := goKinds[k]
		if !ok {
			kind, lit = opByText[k.String()].Kind, ""
		}
		if i >= len(got) {
			return failf("token %d: missing %v %q", i, k, lit)
		}
		if got[i].Kind != kind || got[i].Literal != lit {
			return failf("token %d: got %s %q, go/scanner has %v %q", i, kindName(got[i].Kind), got[i].Literal, k, lit)
		}
	}
	x.NonTrivialIf(len(got) >= 3)
	return nil
}

// ---------------------------------------------------------------- L02

// PosCase is a text with a file name and pairs of token numbers (modulo the number of tokens).
type PosCase struct {
	Src    Text
	Fname  string
	Mode   uint
	Ranges [][2]int
}

func genPosCase(t *rapid.T) PosCase {
	dense := chance(t, 25)
	ps := genPieces(t, dense)
	for i := range ps {
		if chance(t, 8) {
			name := pick(t, []string{"foo.go", "a/b.tpl", "/abs/x.ql", "./c.txt", "../up.x", "中.go", "a:b", "/abs/../b.ql", "a/./../c//d.x", "//r/x", " sp ace.x ", ""}[:heavy(t, 7, 12)])
			line := pick(t, []string{"1", "2", "7", "100", "99999", "007", "123456", "2147483647", "9999999999", "0", "-1", "", " 5", "5 ", "5\r", "0x10", "99999999999999999999", "x"}[:heavy(t, 5, 18)])
			intro := pick(t, []string{"//line ", "//line  ", "// line ", "//line\t", "//Line ", "#line ", "//line", "//"}[:heavy(t, 1, 8)])
			ps[i].Sep = genSpace(t) + "\n" + intro + name + pick(t, []string{":", ":", ":", ""}[:heavy(t, 2, 4)]) + line + "\n" + pick(t, []string{"", "\n", " ", "\n\n"})
		}
	}
	c := PosCase{
		Src:   Text(piecesText(ps)),
		Fname: pick(t, []string{"", "f.txt", "dir/f.txt", "/abs/dir/f.txt"}),
		Mode:  uint(intn(t, 4)),
	}
	if chance(t, 15) {
		c.Src = Text(genTrivia(t)) + c.Src
	}
	c.Ranges = many(t, 0, 12, 5, func(t *rapid.T) [2]int { return [2]int{intn(t, 400), intn(t, 400)} })
	return c
}

type lineDirective struct {
	from int // offset from which it applies
	file string
	line int
}

func refDirectives(src, fname string, toks []RTok) []lineDirective {
	var out []lineDirective
	dir, _ := filepath.Split(fname)
	for _, t := range toks {
		if t.Kind != tpl.COMMENT || t.Start > 0 && src[t.Start-1] != '\n' {
			continue
		}
		text := src[t.Start:t.End]
		if !strings.HasPrefix(text, "//line ") {
			continue
		}
		i := strings.LastIndexByte(text, ':')
		if i < 0 {
			continue
		}
		n, err := strconv.Atoi(text[i+1:])
		if err != nil || n <= 0 || text[i+1] == '+' {
			continue
		}
		f := strings.TrimSpace(text[7:i])
		if f != "" {
			if f = filepath.Clean(f); !filepath.IsAbs(f) {
				f = filepath.Join(dir, f)
			}
		}
		out = append(out, lineDirective{t.End + 1, f, n})
	}
	return out
}

func refFileLine(src, fname string, ds []lineDirective, off int) (string, int) {
	for i := len(ds) - 1; i >= 0; i-- {
		if ds[i].from <= off {
			return ds[i].file, ds[i].line + strings.Count(src[ds[i].from:off], "\n")
		}
	}
	return fname, 1 + strings.Count(src[:off], "\n")
}

func checkPos(c PosCase, x *Ctx) error {
	src := string(c.Src)
	mode := tpl.ScanMode(c.Mode)
	r := refLex(src, mode&tpl.InsertSemis != 0)
	if len(r.Errs) > 0 {
		return errSkip
	}
	want := r.tokens(mode)
	m := &tpl.Matcher{ScanMode: mode}
	got, err := m.Tokenize([]byte(src), c.Fname)
	if err != nil {
		return failf("valid text rejected: %v", err)
	}
	s := m.Tokener()
	ds := refDirectives(src, c.Fname, r.Toks)
	x.ClassIf(len(ds) > 0, "//line")
	x.ClassIf(len(src) > 1000, "over 1000 bytes")
	starts := make([]int, len(got)+1)
	starts[len(got)] = len(src)
	last := -1
	for i, tok := range got {
		off := tokOff(s, tok)
		starts[i] = off
		if off <= last && !(off == last && tok.Kind == tpl.COMMENT && got[i-1].Literal == "\n") { // the comment after an inserted semicolon
			return failf("token %d starts at %d, the one before at %d", i, off, last)
		}
		last = off
		newline := tok.Kind == tpl.SEMICOLON && tok.Literal == "\n"
		if newline {
			if off != len(src) && src[off] != '\n' && src[off] != '#' && src[off] != '/' {
				return failf("token %d: newline semicolon at offset %d, no line end or comment there", i, off)
			}
			continue
		}
		text := tok.Literal
		if text == "" {
			text = operatorText(tok.Kind)
		}
		cr := strings.Contains(src[off:], "\r") && (strings.HasPrefix(text, "`") || strings.HasPrefix(text, "//") || strings.HasPrefix(text, "/*"))
		if !cr {
			if !strings.HasPrefix(src[off:], text) {
				return failf("token %d: %q isn't the text at offset %d", i, text, off)
			}
			if end := s.Source().File.Offset(tok.End()); end != off+len(text) {
				return failf("token %d (%q at %d): end is %d", i, text, off, end)
			}
		}
	}
	if len(got) != len(want) {
		return failf("%d tokens, want %d", len(got), len(want))
	}
	for i := range got {
		if starts[i] != want[i].Start {
			return failf("token %d (%s %q) starts at %d, want %d", i, kindName(got[i].Kind), got[i].Literal, starts[i], want[i].Start)
		}
	}
	if len(got) == 0 {
		return nil
	}
	n := len(got)
	rs := c.Ranges
	if n <= 10 {
		rs = nil
		for i := 0; i <= n; i++ {
			for j := i; j <= n; j++ {
				rs = append(rs, [2]int{i, j})
			}
		}
	}
	for _, q := range rs {
		i, j := q[0]%(n+1), q[1]%(n+1)
		if i > j {
			i, j = j, i
		}
		text := string(tpl.Source(got[i:j], s))
		wantText := ""
		if i < j {
			wantText = src[starts[i]:starts[j]]
		}
		if text != wantText {
			return failf("Source of tokens %d..%d is %q, want %q", i, j, text, wantText)
		}
		if i < j {
			f, l := tpl.FileLine(got[i:j], s)
			wf, wl := refFileLine(src, c.Fname, ds, starts[i])
			if f != wf || l != wl {
				return failf("FileLine of tokens %d..%d is %q:%d, want %q:%d", i, j, f, l, wf, wl)
			}
			x.NonTrivialIf(strings.Contains(src[:starts[i]], "\n"))
		}
	}
	return nil
}

func operatorText(k uint) string {
	for _, o := range operators {
		if o.Kind == k {
			return o.Text
		}
	}
	return ""
}

// ---------------------------------------------------------------- L03

// SemiLine is one line: tokens with inline separators, then what ends the line.
type SemiLine struct {
	Toks []Piece
	End  string // trivia; reaches the line end unless it is the last line
}

// SemiCase is a list of lines.
type SemiCase struct {
	Lead  string
	Lines []SemiLine
	NoNL  bool // the text ends without a newline
}

func genSemiCase(t *rapid.T) SemiCase {
	var c SemiCase
	if chance(t, 20) {
		c.Lead = pick(t, []string{"\n", "// c\n", "# c\n", "/* c */", "/* c\n */", " \n\n"})
	}
	c.Lines = many(t, 0, 40, tail(t, 2, 5, 12), func(t *rapid.T) SemiLine {
		var l SemiLine
		l.Toks = many(t, 0, 6, 1, func(t *rapid.T) Piece {
			p := Piece{L: genLexeme(t), Sep: " "}
			if chance(t, 20) {
				p.Sep = " " + genBlock(t, false) + pick(t, []string{"", " ", "\t"})
			}
			return p
		})
		pre := ""
		for i := 0; i < 3 && chance(t, 25); i++ {
			pre += pick(t, []string{"", " "}) + genBlock(t, false)
		}
		if chance(t, 8) {
			pre += repeatStr(t, 3, 60, tail(t, 5, 8, 16), func(t *rapid.T) string {
				return pick(t, []string{"", " "}) + genBlock(t, false)
			})
		}
		sp := pick(t, []string{"", " ", "\t", "\r"})
		switch weighted(t, 5, 3, 3, 3) {
		case 0:
			l.End = pre + sp + pick(t, []string{"\n", "\r\n"})
		case 1:
			l.End = pre + sp + genLineComment(t) + "\n"
		case 2:
			l.End = pre + sp + genSharp(t) + "\n"
		default:
			l.End = pre + sp + genBlock(t, true)
		}
		if chance(t, 20) {
			l.End += pick(t, []string{"\n", "\n\n", "  \n", "// x\n", "# x\n", "/* y */\n"})
		}
		return l
	})
	c.NoNL = chance(t, 30)
	return c
}

func (c SemiCase) text() string {
	var b strings.Builder
	b.WriteString(c.Lead)
	for i, l := range c.Lines {
		for _, p := range l.Toks {
			b.WriteString(p.L.Text + p.Sep)
		}
		e := l.End
		if c.NoNL && i == len(c.Lines)-1 {
			e = strings.TrimRight(e, "\n")
		}
		b.WriteString(e)
	}
	return b.String()
}

func checkSemis(c SemiCase, x *Ctx) error {
	src := c.text()
	for _, mode := range allModes {
		var want []string
		for _, l := range c.Lines {
			for _, p := range l.Toks {
				want = append(want, p.L.Text)
			}
			if n := len(l.Toks); n > 0 && mode&tpl.InsertSemis != 0 && semiAfter(l.Toks[n-1].L.Kind) {
				want = append(want, "\n")
				x.NonTrivialIf(len(want) > 2)
			} else if n > 0 && mode&tpl.InsertSemis != 0 {
				x.Class("line without semicolon")
			}
		}
		m := &tpl.Matcher{ScanMode: mode}
		toks, err := m.Tokenize([]byte(src), "")
		if err != nil {
			return failf("mode %d: valid text rejected: %v", mode, err)
		}
		k := 0
		for _, tok := range toks {
			if tok.Kind == tpl.COMMENT {
				continue
			}
			isNL := tok.Kind == tpl.SEMICOLON && tok.Literal == "\n"
			switch {
			case k >= len(want):
				return failf("mode %d: token %d %s %q after all lines of %q", mode, k, kindName(tok.Kind), tok.Literal, src)
			case isNL && want[k] != "\n":
				return failf("mode %d: newline semicolon before token %d (%q) of %q", mode, k, want[k], src)
			case !isNL && want[k] == "\n":
				return failf("mode %d: no newline semicolon after token %d (%q) of %q", mode, k-1, want[k-1], src)
			}
			k++
		}
		if k < len(want) {
			return failf("mode %d: %d tokens and semicolons instead of %d in %q", mode, k, len(want), src)
		}
	}
	return nil
}

var semiFragments = []string{"a", "1", "+", "++", "--", ")", "]", "}", "(", ";", ",", "\n", "\n", "\r\n", " ", "/* c */", "/* c\n*/", "// x\n", "# y\n", "'c'", `"s"`, "`r\n`", "1.5", "2i",
	"/", "/**/", "?", "@", "*", "//", "#", "\r", "/*\r\n*/", "/***/"}

func checkSemiSoup(c LexCase, x *Ctx) error {
	src := string(c.Src)
	for _, mode := range allModes {
		r := refLex(src, mode&tpl.InsertSemis != 0)
		if len(r.Errs) > 0 {
			return errSkip
		}
		want := r.tokens(mode)
		m := &tpl.Matcher{ScanMode: mode}
		got, err := m.Tokenize([]byte(src), "")
		if err != nil {
			return failf("mode %d: valid text rejected: %v", mode, err)
		}
		gs, ws := []string{}, []string{}
		for _, t := range got {
			if t.Kind == tpl.SEMICOLON {
				gs = append(gs, t.Literal)
			} else if t.Kind != tpl.COMMENT {
				gs = append(gs, "t")
			}
		}
		for _, t := range want {
			if t.Kind == tpl.SEMICOLON {
				ws = append(ws, t.Lit)
				x.NonTrivialIf(t.Newline && len(want) > 3)
			} else if t.Kind != tpl.COMMENT {
				ws = append(ws, "t")
			}
		}
		if !reflect.DeepEqual(gs, ws) {
			return failf("mode %d: semicolons and tokens %q, want %q", mode, gs, ws)
		}
	}
	return nil
}

// ---------------------------------------------------------------- L04

var adversarial = append([]string{
	"\x00", "\xff", "\xc3", "\xe4\xb8", "\uFEFF", "'", `"`, "`", "\\", `\x`, `\u`, `\U0011`, `\777`, `\8`, `\q`, "$", "¡", "“", "\u00a0", "\u2028", "\x01", "\x7f",
	"²", "Ⅷ", "½", "①", "〇", "‿", "\u0301", "\u200d", "ª", "ǅ", "ʰ", "𝟘", "€", "＿", "𐐀", "߀", "\U000e0100",
	"08", "0x", "1e", "1e+", "/*", "*/", "//", "#", "''", "'ab'", "'a", `"a`, "`a", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\\\n", "'\\", "\"\\", "'''", "0xg", "1ei", "09", "09.",
}, fragments...)

// runeKinds draw a character: of any category, or any at all.
var runeKinds = func() (out []func(*rapid.T) int) {
	for _, tab := range []*unicode.RangeTable{unicode.Lu, unicode.Lt, unicode.Lm, unicode.Lo, unicode.Nd, unicode.Nl, unicode.No, unicode.Mn, unicode.Mc, unicode.Pc, unicode.Pd, unicode.Sc, unicode.Zs, unicode.Cf} {
		tab := tab
		out = append(out, func(t *rapid.T) int { return int(rapid.RuneFrom(nil, tab).Draw(t, "rune")) })
	}
	return append(out, func(t *rapid.T) int { return between(t, 0x80, 0x10ffff) }, func(t *rapid.T) int { return between(t, 0, 0x7f) })
}()

func genBytesCase(t *rapid.T) LexCase {
	switch weighted(t, 5, 3, 2, 1, 2) {
	case 4: // one character of any kind in or beside a word or number
		r := rune(rapid.SampledFrom(runeKinds).Draw(t, "kind")(t))
		return LexCase{Src: Text(pick(t, []string{"", "a", "x1", "中", "12", "_", "+", "\"", "'", "// ", "0x1"}) + string(r) + pick(t, []string{"", "b", "2", "'", "\"", " z", "\n"}))}
	case 0:
		return LexCase{Src: genFragmentText(t, adversarial)}
	case 1: // a valid text with some adversarial fragments put in
		s := piecesText(genPieces(t, chance(t, 50)))
		for _, ins := range many(t, 1, 4, 1, func(t *rapid.T) [2]int { return [2]int{intn(t, 1000), intn(t, len(adversarial))} }) {
			at := ins[0] % (len(s) + 1)
			s = s[:at] + adversarial[ins[1]] + s[at:]
		}
		return LexCase{Src: Text(s)}
	case 2: // a valid text cut off
		s := piecesText(genPieces(t, chance(t, 50)))
		return LexCase{Src: Text(s[:intn(t, len(s)+1)])}
	default:
		return LexCase{Src: Text(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))}
	}
}

func checkErrors(c LexCase, x *Ctx) error {
	src := string(c.Src)
	for _, mode := range allModes {
		r := refLex(src, mode&tpl.InsertSemis != 0)
		m := &tpl.Matcher{ScanMode: mode}
		got, err := m.Tokenize([]byte(src), "f")
		if (err != nil) != (len(r.Errs) > 0) {
			return failf("mode %d: error %v, reference errors %v", mode, err, r.Errs)
		}
		if err == nil {
			for _, t := range got {
				if t.Kind == tpl.ILLEGAL || t.Kind == tpl.EOF {
					return failf("mode %d: accepted text has token %s", mode, kindName(t.Kind))
				}
			}
			x.Class("accepted")
		} else {
			te, ok := err.(*tpl.TokenizeError)
			if !ok {
				return failf("mode %d: error of type %T", mode, err)
			}
			if te.Error() == "" || te.Pos.Filename != "f" {
				return failf("mode %d: error %q at %v", mode, te.Error(), te.Pos)
			}
			if err := checkErrPos(r, src, te.Pos); err != nil {
				return failf("mode %d: %v: %v", mode, err, te)
			}
			x.NonTrivialIf(len(src) > 3)
			x.Class("rejected")
		}
		if err := scanAll(src, mode, len(r.Errs) > 0); err != nil {
			return failf("mode %d: %v", mode, err)
		}
	}
	return nil
}

// checkErrPos: the position is that of one of the errors, and of none beyond the token after the first one.
func checkErrPos(r *RLex, src string, pos gotoken.Position) error {
	limit := len(src)
	first := r.Errs[0]
	for _, t := range r.Toks {
		if t.End > first.Lo && t.Kind != tpl.COMMENT && !t.Newline {
			limit = t.End + 4
			break
		}
	}
	for _, e := range r.Errs {
		if e.Lo <= limit && e.Lo <= pos.Offset && pos.Offset <= e.Hi {
			line, col := linecol(src, pos.Offset)
			if line != pos.Line || col != pos.Column {
				return failf("offset %d is line %d column %d, not %d, %d", pos.Offset, line, col, pos.Line, pos.Column)
			}
			return nil
		}
	}
	return failf("error at offset %d, errors are at %v", pos.Offset, r.Errs)
}

func linecol(src string, off int) (int, int) {
	i := strings.LastIndexByte(src[:off], '\n')
	return 1 + strings.Count(src[:off], "\n"), off - i
}

// scanAll scans to the end in spite of errors.
func scanAll(src string, mode tpl.ScanMode, bad bool) error {
	var s tpl.Scanner
	errs := 0
	file := gotoken.NewFileSet().AddFile("f", -1, len(src))
	s.Init(file, []byte(src), func(p gotoken.Position, msg string) { errs++ }, mode)
	for i := 0; ; i++ {
		t := s.Scan()
		if t.Kind == tpl.EOF {
			break
		}
		if i > 2*len(src)+10 {
			return failf("no EOF after %d tokens", i)
		}
	}
	if (errs > 0) != bad || (s.ErrorCount > 0) != bad || s.ErrorCount != errs {
		return failf("%d errors reported, ErrorCount is %d, text is in error: %v", errs, s.ErrorCount, bad)
	}
	if t := s.Scan(); t.Kind != tpl.EOF {
		return failf("token %s after EOF", kindName(t.Kind))
	}
	return nil
}

// PlantCase is a valid text with one lexical error between Before and After.
type PlantCase struct {
	Before, Bad, After Text
	Lo, Hi             int // range of the position, relative to Bad
}

func genPlant(t *rapid.T) PlantCase {
	c := PlantCase{
		Before: Text(piecesText(genPieces(t, false))),
	}
	if chance(t, 10) {
		c.Before = "\uFEFF" + c.Before
	}
	after := Text(piecesText(genPieces(t, false)))
	at := func(bad string, lo, hi int) { c.Bad, c.Lo, c.Hi = Text(bad), lo, hi }
	switch weighted(t, 3, 3, 3, 3, 3, 3, 3, 2) {
	case 0: // stray character
		at(pick(t, []string{"$", "\\", "\x01", "¡", "€", "\u00a0", "\x7f", "½", "\u2028", "😀"}), 0, 0)
	case 1: // illegal anywhere, also in strings and comments
		ch := pick(t, []string{"\x00", "\xff", "\xc3", "\uFEFF", "\xed\xa0\x80"})
		pre := pick(t, []string{"", `"`, `"ab`, "`x\n", "'", "// c", "/* c\n", "# ", "ab"})
		post := map[byte]string{'"': `"`, '`': "`", '\'': "'", '#': "\n"}
		p := ""
		if pre != "" {
			p = post[pre[0]]
			if strings.HasPrefix(pre, "//") {
				p = "\n"
			} else if strings.HasPrefix(pre, "/*") {
				p = "*/"
			}
		}
		if c.Before == "" && pre == "" && ch == "\uFEFF" {
			pre = " "
		}
		lo := len(pre)
		if pre == "'" {
			lo = 0 // it may also be an illegal rune literal
		}
		at(pre+ch+p, lo, len(pre)+len(ch)-1)
	case 2: // unterminated at the end of a line
		at(pick(t, []string{`"`, `"abc`, `"a\n`, `'`, `'a`, `'\n`, `"a'`, `'"`})+pick(t, []string{"\n", "\r\n"}), 0, 0)
	case 3: // unterminated at the end of the text
		at(pick(t, []string{`"`, `"abc`, `'`, `'a`, "`", "`abc\n", "/*", "/* abc\n", "/* *", "`a'", "/*/"}), 0, 0)
		after = ""
	case 4: // numbers
		s := pick(t, []string{"08", "0778", "09", "0129", "0x", "0X", "1e", "1.5e+", ".5E-", "0e", "1ei", "00e"})
		at(s, 0, len(s))
	case 5: // rune literals
		at(pick(t, []string{"''", "'ab'", `'\na'`, "'中文'", `'a\x41'`}), 0, 0)
	case 6: // escapes
		q := pick(t, []string{`"`, `'`})
		e := pick(t, []string{`\q`, `\8`, `\x4g`, `\xg0`, `\u12g4`, `\U0011000g`, `\U00110000`, `\ud800`, `\uDFFF`, `\400`, `\777`, `\08`, `\ `, `\X41`, `\U0000dead`, `\UFFFFFFFF`})
		if chance(t, 20) {
			e = map[string]string{`"`: `\'`, `'`: `\"`}[q]
		}
		pre := ""
		if q == `"` && chance(t, 50) {
			pre = pick(t, []string{"abc", `\n`, "中", "'"})
		}
		at(q+pre+e+q, len(q+pre), len(q+pre+e))
	default: // escapes at the end of the text
		s := pick(t, []string{`"\`, `'\`, `"a\x4`, `'\u12`, `"\0`})
		at(s, 0, len(s))
		after = ""
	}
	c.After = after
	return c
}

func checkPlant(c PlantCase, x *Ctx) error {
	src := string(c.Before) + " " + string(c.Bad) + " " + string(c.After)
	if c.After == "" {
		src = string(c.Before) + " " + string(c.Bad)
	}
	base := len(c.Before) + 1
	if c.Bad == "\uFEFF" && base == 1 && c.Before == "" {
		return errSkip
	}
	for _, mode := range allModes {
		m := &tpl.Matcher{ScanMode: mode}
		_, err := m.Tokenize([]byte(src), "")
		if err == nil {
			return failf("mode %d: %q in %q is accepted", mode, c.Bad, src)
		}
		te, ok := err.(*tpl.TokenizeError)
		if !ok {
			return failf("error of type %T", err)
		}
		if te.Pos.Offset < base+c.Lo || te.Pos.Offset > base+c.Hi {
			return failf("mode %d: %q at offset %d (%v), it is at %d..%d of %q", mode, c.Bad, te.Pos.Offset, te, base+c.Lo, base+c.Hi, src)
		}
		line, col := linecol(src, te.Pos.Offset)
		if te.Pos.Line != line || te.Pos.Column != col {
			return failf("mode %d: offset %d is line %d column %d, not %d, %d", mode, te.Pos.Offset, line, col, te.Pos.Line, te.Pos.Column)
		}
		if msg := te.Error(); msg == "" {
			return failf("empty message")
		}
	}
	x.NonTrivialIf(len(c.Before) > 0)
	return nil
}

// ---------------------------------------------------------------- L05

// HistStep is one use of a scanner: a text in a mode, scanned up to Stop tokens by hand or tokenized (Stop < 0).
type HistStep struct {
	Src   Text
	Fname string
	Mode  uint
	Stop  int
}

// HistCase is a history.
type HistCase struct {
	Auto  bool
	Kws   []string
	Steps []HistStep
}

func genHist(t *rapid.T) HistCase {
	c := HistCase{Auto: chance(t, 40)}
	if c.Auto {
		c.Kws = many(t, 0, 4, 2, func(t *rapid.T) string { return pick(t, []string{"a", "if", "foo", "x1", "é"}) })
	}
	c.Steps = many(t, 1, 14, 4, func(t *rapid.T) HistStep {
		st := HistStep{Fname: pick(t, []string{"", "a", "b/c"}), Mode: uint(intn(t, 4)), Stop: -1}
		if chance(t, 30) {
			st.Stop = intn(t, 6)
		}
		switch weighted(t, 4, 3, 3) {
		case 0:
			st.Src = Text(piecesText(genPieces(t, false)))
		case 1:
			st.Src = genFragmentText(t, adversarial)
		default:
			p := genPlant(t)
			st.Src = p.Before + p.Bad + p.After
		}
		if chance(t, 10) {
			st.Src += Text("\n//line z:50\nq")
		}
		if chance(t, 10) {
			st.Src = Text(pick(t, []string{"//line x:10\n", "//line y:3\nq ", "//line :7\n", "//line z:0\n", "//line w:2:3\n", "/*line v:4*/", " //line u:5\n", "q\n//line x:900\n"})) + st.Src
		}
		if chance(t, 5) {
			st.Src = "\uFEFF" + st.Src
		}
		return st
	})
	return c
}

// scanResult is all that can be seen of a scan.
type scanResult struct {
	Toks  []tpl.Token
	Err   string
	Errs  []string
	Lines []string
}

func newTokener(c HistCase) tpl.Tokener {
	if !c.Auto {
		return new(tpl.Scanner)
	}
	s := new(tpl.AutoKwScanner)
	for _, k := range c.Kws {
		s.Ltot(`"` + k + `"`)
	}
	return s
}

func useScanner(m *tpl.Matcher, st HistStep) (r scanResult) {
	src := []byte(st.Src)
	m.ScanMode = tpl.ScanMode(st.Mode)
	if st.Stop < 0 {
		toks, err := m.Tokenize(src, st.Fname)
		r.Toks = toks
		if te, ok := err.(*tpl.TokenizeError); ok {
			r.Err = te.Pos.String() + ": " + te.Msg
		} else if err != nil {
			r.Err = err.Error()
		}
	} else {
		s := m.Scanner
		file := gotoken.NewFileSet().AddFile(st.Fname, -1, len(src))
		s.Init(file, src, func(p gotoken.Position, msg string) { r.Errs = append(r.Errs, p.String()+": "+msg) }, m.ScanMode)
		for i := 0; i < st.Stop; i++ {
			r.Toks = append(r.Toks, s.Scan())
		}
	}
	for i := range r.Toks {
		f, l := tpl.FileLine(r.Toks[i:i+1], m.Scanner)
		r.Lines = append(r.Lines, fmt.Sprintf("%s:%d", f, l))
	}
	return
}

func checkHist(c HistCase, x *Ctx) error {
	m := &tpl.Matcher{Scanner: newTokener(c)}
	failed, partial := false, false
	for i, st := range c.Steps {
		got := useScanner(m, st)
		want := useScanner(&tpl.Matcher{Scanner: newTokener(c)}, st)
		if !reflect.DeepEqual(got, want) {
			return failf("step %d: %+v\nfresh: %+v", i, got, want)
		}
		x.NonTrivialIf(i > 0)
		x.ClassIf(failed, "after a failed text")
		x.ClassIf(partial, "after a text scanned in part")
		failed = failed || got.Err != ""
		partial = partial || st.Stop >= 0
	}
	return nil
}

func checkCommentMode(c LexCase, x *Ctx) error {
	src := []byte(c.Src)
	for _, semis := range []tpl.ScanMode{0, tpl.InsertSemis} {
		a, errA := (&tpl.Matcher{ScanMode: semis}).Tokenize(src, "")
		b, errB := (&tpl.Matcher{ScanMode: semis | tpl.ScanComments}).Tokenize(src, "")
		if (errA == nil) != (errB == nil) {
			return failf("semis %d: error %v without comments, %v with", semis, errA, errB)
		}
		if errA != nil {
			return errSkip
		}
		var cs []tpl.Token
		for _, t := range b {
			if t.Kind != tpl.COMMENT {
				cs = append(cs, t)
			} else {
				x.NonTrivialIf(len(a) > 1)
				if !strings.HasPrefix(t.Literal, "#") && !strings.HasPrefix(t.Literal, "//") && !strings.HasPrefix(t.Literal, "/*") {
					return failf("comment token %q", t.Literal)
				}
			}
		}
		if len(a) != len(cs) {
			return failf("semis %d: %s\nwith comments: %s", semis, showToks(a), showToks(b))
		}
		for i := range a {
			if a[i] != cs[i] {
				return failf("semis %d: token %d is %v without comments, %v with", semis, i, a[i], cs[i])
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- L06

// KwOp is one operation on an automatic-keyword scanner.
type KwOp struct {
	Op  int // 0 Ltot of a keyword, 1 Ltot of a built-in, 2 Init, 3 tokenize, 4 Ttol of all known
	Lit string
}

// KwCase is a sequence of them.
type KwCase struct{ Ops []KwOp }

func genKwCase(t *rapid.T) KwCase {
	return KwCase{many(t, 1, 500, tail(t, 6, 20, 120), func(t *rapid.T) KwOp {
		switch weighted(t, 8, 2, 1, 2, 1) {
		case 0:
			if chance(t, 40) {
				return KwOp{0, `"` + pick(t, []string{"a", "if", "IF", "If", "ifx", "i", "INT", "EOF", "_", "ADD", "true", "doc"}) + `"`}
			}
			return KwOp{0, `"` + genIdent(t) + `"`}
		case 1:
			o := pick(t, operators)
			return KwOp{1, opLit(o)}
		case 2:
			return KwOp{Op: 2}
		case 3:
			return KwOp{3, strings.Join(many(t, 0, 10, 3, genIdent), " ")}
		default:
			return KwOp{Op: 4}
		}
	})}
}

// opLit is the literal by which an operator is written in a grammar.
func opLit(o Op) string {
	if len(o.Text) == 1 {
		return "'" + o.Text + "'"
	}
	return `"` + o.Text + `"`
}

func checkKw(c KwCase, x *Ctx) error {
	s := new(tpl.AutoKwScanner)
	model := map[string]uint{}
	kinds := map[uint]string{}
	verify := func() error {
		for lit, k := range model {
			if got := s.Ttol(k); got != lit {
				return failf("kind %d of %s converts to %s", k, lit, got)
			}
		}
		for _, o := range operators {
			if s.Ttol(o.Kind) != opLit(o) || s.Ltot(opLit(o)) != o.Kind || s.Ltot(o.Name) != o.Kind {
				return failf("operator %s: Ttol %s, Ltot %d", o.Text, s.Ttol(o.Kind), s.Ltot(opLit(o)))
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		switch op.Op {
		case 0:
			k := s.Ltot(op.Lit)
			if old, ok := model[op.Lit]; ok {
				if old != k {
					return failf("op %d: %s had kind %d, now %d", i, op.Lit, old, k)
				}
				x.Class("registered again")
				continue
			}
			if other, ok := kinds[k]; ok {
				return failf("op %d: %s and %s have kind %d", i, op.Lit, other, k)
			}
			if k <= tpl.ELLIPSIS {
				return failf("op %d: %s has the built-in kind %d", i, op.Lit, k)
			}
			if tpl.TokenLen(k) != 0 {
				return failf("TokenLen of keyword kind %d is %d", k, tpl.TokenLen(k))
			}
			model[op.Lit], kinds[k] = k, op.Lit
			if got := s.Ttol(k); got != op.Lit {
				return failf("op %d: kind %d of %s converts to %s", i, k, op.Lit, got)
			}
		case 1:
			k := s.Ltot(op.Lit)
			if k != opByText[op.Lit[1:len(op.Lit)-1]].Kind {
				return failf("op %d: %s has kind %d", i, op.Lit, k)
			}
		case 2:
			s.Init(gotoken.NewFileSet().AddFile("", -1, 0), nil, nil, 0)
		case 3:
			m := &tpl.Matcher{Scanner: s}
			words := strings.Fields(op.Lit)
			toks, err := m.Tokenize([]byte(op.Lit), "")
			if err != nil || len(toks) != len(words) {
				return failf("op %d: %v, %d tokens of %q", i, err, len(toks), op.Lit)
			}
			for j, w := range words {
				want := kIDENT
				if k, ok := model[`"`+w+`"`]; ok {
					want = k
					x.Class("keyword scanned")
				}
				if toks[j].Kind != want || toks[j].Literal != w {
					return failf("op %d: %q is scanned as %d %q, want %d", i, w, toks[j].Kind, toks[j].Literal, want)
				}
			}
		case 4:
			if err := verify(); err != nil {
				return failf("op %d: %v", i, err)
			}
		}
	}
	x.NonTrivialIf(len(model) >= 2)
	x.ClassIf(len(model) > 80, "over 80 keywords")
	return verify()
}

// TableCase names nothing: the table of built-in tokens is checked exhaustively.
type TableCase struct{ Auto bool }

func checkTable(c TableCase, x *Ctx) error {
	var s tpl.Tokener = new(tpl.Scanner)
	if c.Auto {
		s = new(tpl.AutoKwScanner)
	}
	names := map[uint]string{kIDENT: "IDENT", kINT: "INT", kFLOAT: "FLOAT", kIMAG: "IMAG", kCHAR: "CHAR", kSTRING: "STRING", tpl.COMMENT: "COMMENT"}
	for _, o := range operators {
		names[o.Kind] = opLit(o)
		if s.Ltot(o.Name) != o.Kind || tpl.Lit2Token(o.Name) != o.Kind {
			return failf("%s is %d, not %d", o.Name, s.Ltot(o.Name), o.Kind)
		}
		if n := tpl.TokenLen(o.Kind); n != len(o.Text) {
			return failf("TokenLen of %s is %d", o.Text, n)
		}
	}
	seen := map[string]uint{}
	for k := uint(0); k < 0x200; k++ {
		want, ok := names[k]
		if _, op := kindToOp[k]; !op {
			if n := tpl.TokenLen(k); n != 0 {
				return failf("TokenLen of kind %d, no operator, is %d", k, n)
			}
		}
		if !ok {
			continue
		}
		got := s.Ttol(k)
		if got != want || tpl.Token2Lit(k) != want {
			return failf("literal of kind %d is %q, want %q", k, got, want)
		}
		if o, dup := seen[got]; dup {
			return failf("kinds %d and %d are both %q", o, k, got)
		}
		seen[got] = k
		if b := s.Ltot(got); b != k {
			return failf("%q converts to kind %d, not %d", got, b, k)
		}
	}
	// Names in another case, and names with something more or less, are no names of kinds.
	known := map[string]bool{}
	for _, o := range operators {
		known[o.Name], known[opLit(o)] = true, true
	}
	for _, n := range names {
		known[n] = true
	}
	for k := range known {
		title := ""
		if len(k) > 0 {
			title = k[:1] + strings.ToLower(k[1:])
		}
		near := []string{strings.ToLower(k), title, k + " ", " " + k, k + "_", "_" + k, k + "1", k + k, "\"" + k + "\"", strings.Trim(k, "'\""), strings.ReplaceAll(k, "_", "")}
		for i := 1; i < len(k); i++ {
			near = append(near, k[:i], k[i:])
		}
		for _, n := range near {
			if known[n] || len(n) <= 3 && strings.HasPrefix(n, "'") {
				continue
			}
			if got := tpl.Lit2Token(n); got != tpl.ILLEGAL {
				return failf("%q, no name of a kind, converts to kind %d", n, got)
			}
		}
	}
	x.NonTrivial()
	return nil
}

var kindToOp = map[uint]Op{}

func init() {
	for _, o := range operators {
		kindToOp[o.Kind] = o
	}
	reg("L01", "tokens", "token lists of every kind with random separators (or none) and comments, in the 4 scan modes; non-trivial: at least 3 different kinds",
		40000, 1200000, genLexCase, checkLexemes)
	reg("L01", "borders", "fragments of tokens put together; non-trivial: no lexical error and at least 3 different kinds",
		80000, 2000000, func(t *rapid.T) LexCase { return LexCase{Src: genFragmentText(t, fragments)} }, checkLexemes)
	reg("L01", "go", "token lists of the subset shared with Go, compared with go/scanner; non-trivial: at least 3 tokens",
		20000, 400000, func(t *rapid.T) LexCase { return genGoCase(t) }, checkGo)
	reg("L02", "positions", "token lists with multi-byte text, file names and //line comments; non-trivial: a sub-range that starts after the first line",
		60000, 1500000, genPosCase, checkPos)
	reg("L03", "lines", "lines of tokens with every kind of trailing white space and comment; non-trivial: a newline semicolon after the first token",
		60000, 1500000, genSemiCase, checkSemis)
	reg("L03", "soup", "tokens, newlines and comments in any order; non-trivial: a newline semicolon among more than 3 tokens",
		80000, 2000000, func(t *rapid.T) LexCase { return LexCase{Src: genFragmentText(t, semiFragments)} }, checkSemiSoup)
	reg("L04", "bytes", "byte strings over an adversarial alphabet, damaged and truncated valid texts; non-trivial: a rejected text of more than 3 bytes",
		80000, 2000000, genBytesCase, checkErrors)
	reg("L04", "planted", "one lexical error at a known offset of a valid text; non-trivial: text before the error",
		50000, 1000000, genPlant, checkPlant)
	reg("L05", "history", "histories of valid, failing and half-scanned texts on one scanner; non-trivial: at least 2 texts",
		30000, 600000, genHist, checkHist)
	reg("L05", "comments", "texts with comments, scanned with and without comment tokens; non-trivial: a comment and at least 2 tokens",
		40000, 800000, func(t *rapid.T) LexCase {
			if chance(t, 50) {
				return LexCase{Src: genFragmentText(t, semiFragments)}
			}
			return genLexCase(t)
		}, checkCommentMode)
	reg("L06", "keywords", "histories of keyword registrations, conversions and scans; non-trivial: at least 2 keywords",
		20000, 400000, genKwCase, checkKw)
	reg("L06", "table", "all token kinds 0..0x1ff; every case is non-trivial",
		16, 16, func(t *rapid.T) TableCase { return TableCase{chance(t, 50)} }, checkTable)
}

func genGoCase(t *rapid.T) LexCase {
	c := LexCase{Want: []Lexeme{}}
	ps := many(t, 1, 300, tail(t, 4, 12, 60), func(t *rapid.T) Piece {
		p := Piece{L: genLexeme(t)}
		for _, bad := range []string{"?", "@", "~"} {
			if p.L.Text == bad {
				p.L = Lexeme{tpl.ADD, "+"}
			}
		}
		if gotoken.Lookup(p.L.Text) != gotoken.IDENT {
			p.L.Text += "x"
		}
		switch weighted(t, 6, 3, 1, 1) {
		case 0:
			p.Sep = " "
		case 1:
			p.Sep = pick(t, []string{"\n", "\r\n", "\t", "\n\n"})
		case 2:
			p.Sep = " // c\n"
		default:
			p.Sep = " " + genBlock(t, chance(t, 40))
		}
		return p
	})
	c.Src = Text(piecesText(ps))
	for _, p := range ps {
		c.Want = append(c.Want, p.L)
	}
	return c
}
