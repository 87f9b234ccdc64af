package main

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
)

// The reference lexer: the documented lexical rules (those of Go, plus ? ~ @ and comments from # to the end of the line).

const (
	kIDENT  = tpl.IDENT
	kINT    = tpl.INT
	kFLOAT  = tpl.FLOAT
	kIMAG   = tpl.IMAG
	kCHAR   = tpl.CHAR
	kSTRING = tpl.STRING
)

// Op is an operator with the token kind and the name documented for it.
type Op struct {
	Text string
	Kind uint
	Name string
}

var operators = []Op{
	{"+", tpl.ADD, "ADD"}, {"-", tpl.SUB, "SUB"}, {"*", tpl.MUL, "MUL"}, {"/", tpl.QUO, "QUO"}, {"%", tpl.REM, "REM"},
	{"&", tpl.AND, "AND"}, {"|", tpl.OR, "OR"}, {"^", tpl.XOR, "XOR"},
	{"<", tpl.LT, "LT"}, {">", tpl.GT, "GT"}, {"=", tpl.ASSIGN, "ASSIGN"}, {"!", tpl.NOT, "NOT"},
	{"(", tpl.LPAREN, "LPAREN"}, {"[", tpl.LBRACK, "LBRACK"}, {"{", tpl.LBRACE, "LBRACE"}, {",", tpl.COMMA, "COMMA"}, {".", tpl.PERIOD, "PERIOD"},
	{")", tpl.RPAREN, "RPAREN"}, {"]", tpl.RBRACK, "RBRACK"}, {"}", tpl.RBRACE, "RBRACE"}, {";", tpl.SEMICOLON, "SEMICOLON"}, {":", tpl.COLON, "COLON"},
	{"?", tpl.QUESTION, "QUESTION"}, {"~", tpl.TILDE, "TILDE"}, {"@", tpl.AT, "AT"},
	{"<<", tpl.SHL, "SHL"}, {">>", tpl.SHR, "SHR"}, {"&^", tpl.AND_NOT, "AND_NOT"},
	{"+=", tpl.ADD_ASSIGN, "ADD_ASSIGN"}, {"-=", tpl.SUB_ASSIGN, "SUB_ASSIGN"}, {"*=", tpl.MUL_ASSIGN, "MUL_ASSIGN"},
	{"/=", tpl.QUO_ASSIGN, "QUO_ASSIGN"}, {"%=", tpl.REM_ASSIGN, "REM_ASSIGN"},
	{"&=", tpl.AND_ASSIGN, "AND_ASSIGN"}, {"|=", tpl.OR_ASSIGN, "OR_ASSIGN"}, {"^=", tpl.XOR_ASSIGN, "XOR_ASSIGN"},
	{"<<=", tpl.SHL_ASSIGN, "SHL_ASSIGN"}, {">>=", tpl.SHR_ASSIGN, "SHR_ASSIGN"}, {"&^=", tpl.AND_NOT_ASSIGN, "AND_NOT_ASSIGN"},
	{"&&", tpl.LAND, "LAND"}, {"||", tpl.LOR, "LOR"}, {"<-", tpl.ARROW, "ARROW"}, {"++", tpl.INC, "INC"}, {"--", tpl.DEC, "DEC"},
	{"==", tpl.EQ, "EQ"}, {"!=", tpl.NE, "NE"}, {"<=", tpl.LE, "LE"}, {">=", tpl.GE, "GE"}, {":=", tpl.DEFINE, "DEFINE"}, {"...", tpl.ELLIPSIS, "ELLIPSIS"},
}

var (
	opByText = map[string]Op{}
	opsByLen []Op
)

func init() {
	for _, o := range operators {
		opByText[o.Text] = o
	}
	opsByLen = append(opsByLen, operators...)
	sort.SliceStable(opsByLen, func(i, j int) bool { return len(opsByLen[i].Text) > len(opsByLen[j].Text) })
}

// RTok is a token of the reference lexer: bytes [Start,End) of the text.
type RTok struct {
	Kind       uint
	Lit        string
	Start, End int
	Newline    bool // inserted semicolon
}

// RErr is a lexical error whose position may be anything in [Lo,Hi].
type RErr struct{ Lo, Hi int }

// RLex is the result of the reference lexer.
type RLex struct {
	Toks []RTok // with comments
	Errs []RErr // sorted by Lo
	EOF  int
}

func refLetter(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func refDigit(r rune) bool  { return '0' <= r && r <= '9' || r >= 0x80 && unicode.IsDigit(r) }
func isDec(c byte) bool     { return '0' <= c && c <= '9' }
func isHex(c byte) bool     { return isDec(c) || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }

func run(s string, i int, f func(byte) bool) int {
	for i < len(s) && f(s[i]) {
		i++
	}
	return i
}

// refNumber returns the end and kind of the number at s[i:], ok=false if it is malformed.
func refNumber(s string, i int) (end int, kind uint, ok bool) {
	ok, kind = true, kINT
	st := i
	if s[i] == '0' && i+1 < len(s) && (s[i+1] == 'x' || s[i+1] == 'X') {
		end = run(s, i+2, isHex)
		return end, kINT, end > i+2
	}
	i = run(s, i, isDec)
	if i < len(s) && s[i] == '.' {
		kind = kFLOAT
		i = run(s, i+1, isDec)
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		kind = kFLOAT
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		j := run(s, i, isDec)
		ok = j > i
		i = j
	}
	if i < len(s) && s[i] == 'i' {
		kind = kIMAG
		i++
	}
	if kind == kINT && s[st] == '0' && strings.ContainsAny(s[st:i], "89") {
		ok = false
	}
	return i, kind, ok
}

// refEscape: s[i] is the character after the backslash. Returns the end of what was accepted and whether it is valid.
func refEscape(s string, i int, quote byte) (end int, ok bool) {
	if i >= len(s) {
		return i, false
	}
	c := s[i]
	if strings.IndexByte(`abfnrtv\`, c) >= 0 || c == quote {
		return i + 1, true
	}
	n, base, max := 0, 16, 0x10FFFF
	switch {
	case '0' <= c && c <= '7':
		n, base, max = 3, 8, 255
	case c == 'x':
		n, max = 2, 255
		i++
	case c == 'u':
		n = 4
		i++
	case c == 'U':
		n = 8
		i++
	default:
		return i, false
	}
	x := 0
	for k := 0; k < n; k++ {
		if i >= len(s) {
			return i, false
		}
		d := strings.IndexByte("0123456789abcdef", lower(s[i]))
		if d < 0 || d >= base {
			return i, false
		}
		x = x*base + d
		i++
	}
	return i, x <= max && !(0xD800 <= x && x < 0xE000)
}

func lower(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}

func semiAfter(k uint) bool {
	switch k {
	case kIDENT, kINT, kFLOAT, kIMAG, kCHAR, kSTRING, tpl.RPAREN, tpl.RBRACK, tpl.RBRACE, tpl.INC, tpl.DEC:
		return true
	}
	return false
}

// refLex lexes src. Comments are included as COMMENT tokens. The returned tokens are only meaningful without errors.
func refLex(src string, semis bool) *RLex {
	r := &RLex{EOF: len(src)}
	bad := func(lo, hi int) { r.Errs = append(r.Errs, RErr{lo, hi}) }
	// characters that are errors wherever they stand
	for i := 0; i < len(src); {
		c, w := utf8.DecodeRuneInString(src[i:])
		if c == 0 || c == utf8.RuneError && w == 1 || c == 0xFEFF && i > 0 {
			bad(i, i)
		}
		i += w
	}
	i := 0
	if strings.HasPrefix(src, "\uFEFF") {
		i = 3
	}
	pending := false // a newline would be a semicolon
	emit := func(k uint, lit string, a, b int) {
		r.Toks = append(r.Toks, RTok{Kind: k, Lit: lit, Start: a, End: b})
		pending = semis && semiAfter(k)
	}
	newline := func(at int) {
		r.Toks = append(r.Toks, RTok{Kind: tpl.SEMICOLON, Lit: "\n", Start: at, End: at, Newline: true})
		pending = false
	}
	for {
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r' || src[i] == '\n') {
			if src[i] == '\n' && pending {
				newline(i)
			}
			i++
		}
		if i >= len(src) {
			if pending {
				newline(i)
			}
			break
		}
		c, w := utf8.DecodeRuneInString(src[i:])
		rest := src[i:]
		switch {
		case refLetter(c):
			j := i
			for j < len(src) {
				c, w := utf8.DecodeRuneInString(src[j:])
				if !refLetter(c) && !refDigit(c) {
					break
				}
				j += w
			}
			emit(kIDENT, src[i:j], i, j)
			i = j
		case '0' <= c && c <= '9', c == '.' && len(rest) > 1 && isDec(rest[1]):
			j, k, ok := refNumber(src, i)
			if !ok {
				bad(i, j)
			}
			emit(k, src[i:j], i, j)
			i = j
		case c == '"':
			j := i + 1
			for {
				if j >= len(src) || src[j] == '\n' {
					bad(i, i)
					break
				}
				if src[j] == '"' {
					j++
					break
				}
				if src[j] == '\\' {
					e, ok := refEscape(src, j+1, '"')
					if !ok {
						bad(j, e)
					}
					j = e
					continue
				}
				j++
			}
			emit(kSTRING, src[i:j], i, j)
			i = j
		case c == '\'':
			j := i + 1
			n, valid := 0, true
			for {
				if j >= len(src) || src[j] == '\n' {
					if valid {
						bad(i, i)
						valid = false
					}
					break
				}
				if src[j] == '\'' {
					j++
					break
				}
				n++
				if src[j] == '\\' {
					e, ok := refEscape(src, j+1, '\'')
					if !ok {
						bad(j, e)
						valid = false
					}
					j = e
					continue
				}
				_, w := utf8.DecodeRuneInString(src[j:])
				j += w
			}
			if valid && n != 1 {
				bad(i, i)
			}
			emit(kCHAR, src[i:j], i, j)
			i = j
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`')
			if j < 0 {
				bad(i, i)
				j = len(src)
			} else {
				j += i + 2
			}
			emit(kSTRING, strings.ReplaceAll(src[i:j], "\r", ""), i, j)
			i = j
		case c == '#', strings.HasPrefix(rest, "//"):
			j := strings.IndexByte(rest, '\n')
			if j < 0 {
				j = len(src)
			} else {
				j += i
			}
			if pending {
				newline(i)
			}
			lit := src[i:j]
			if c == '/' {
				lit = strings.ReplaceAll(lit, "\r", "")
			}
			emit(tpl.COMMENT, lit, i, j)
			i = j
		case strings.HasPrefix(rest, "/*"):
			j := strings.Index(rest[2:], "*/")
			if j < 0 {
				bad(i, i)
				j = len(src)
			} else {
				j += i + 4
			}
			if pending && reachesLineEnd(src, i) {
				newline(i)
			}
			emit(tpl.COMMENT, strings.ReplaceAll(src[i:j], "\r", ""), i, j)
			i = j
		default:
			found := false
			for _, o := range opsByLen {
				if strings.HasPrefix(rest, o.Text) {
					lit := ""
					if o.Text == ";" {
						lit = ";"
					}
					emit(o.Kind, lit, i, i+len(o.Text))
					i += len(o.Text)
					found = true
					break
				}
			}
			if !found {
				bad(i, i)
				p := pending
				emit(tpl.ILLEGAL, string(c), i, i+w)
				pending = p
				i += w
			}
		}
	}
	sort.SliceStable(r.Errs, func(i, j int) bool { return r.Errs[i].Lo < r.Errs[j].Lo })
	return r
}

// reachesLineEnd: src[i:] starts with a general comment; is there only white space and comments up to the end of the
// line where it starts (a comment with a newline in it reaches the end)?
func reachesLineEnd(src string, i int) bool {
	for {
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r') {
			i++
		}
		if i >= len(src) || src[i] == '\n' || src[i] == '#' || strings.HasPrefix(src[i:], "//") {
			return true
		}
		if !strings.HasPrefix(src[i:], "/*") {
			return false
		}
		j := strings.Index(src[i+2:], "*/")
		if j < 0 || strings.IndexByte(src[i:i+2+j], '\n') >= 0 {
			return true
		}
		i += j + 4
	}
}

// withoutComments drops the comment tokens.
func withoutComments(ts []RTok) []RTok {
	var out []RTok
	for _, t := range ts {
		if t.Kind != tpl.COMMENT {
			out = append(out, t)
		}
	}
	return out
}

func (r *RLex) tokens(mode tpl.ScanMode) []RTok {
	if mode&tpl.ScanComments != 0 {
		return r.Toks
	}
	return withoutComments(r.Toks)
}
