package main

import (
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- drawing helpers
// Everything random goes through rapid, and 0 is always the simplest choice.

func intn(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(t, "n")
}

func between(t *rapid.T, lo, hi int) int { return lo + intn(t, hi-lo+1) }

// bucket draws i with probability ends[i]-ends[i-1] out of sum, exactly (rapid's own integers are biased
// to small ones): it draws binary digits until they decide; it shrinks to 0.
func bucket(t *rapid.T, sum int, ends ...int) int {
	lo, width := 0.0, float64(sum)
	for {
		for i, e := range ends {
			if lo < float64(e) {
				if lo+width <= float64(e) || width < 1e-9 {
					return i
				}
				break
			}
		}
		width /= 2
		if bit.Draw(t, "b") {
			lo += width
		}
	}
}

var bit = rapid.Bool()

// chance is true with pct percent; it shrinks to false.
func chance(t *rapid.T, pct int) bool {
	if pct <= 0 {
		return false
	}
	return bucket(t, 100, 100-pct, 100) == 1
}

func pick[T any](t *rapid.T, xs []T) T { return xs[intn(t, len(xs))] }

// weighted picks an index with the given weights; it shrinks to 0.
func weighted(t *rapid.T, ws ...int) int {
	ends := make([]int, len(ws))
	sum := 0
	for i, w := range ws {
		sum += w
		ends[i] = sum
	}
	return bucket(t, sum, ends...)
}

type item[T any] struct {
	stop bool
	v    T
}

// many draws a list whose length has mean avg (geometric), between min and max. Every element is one
// group of draws, so that the shrinker can delete it.
func many[T any](t *rapid.T, min, max, avg int, f func(*rapid.T) T) []T {
	var out []T
	g := rapid.Custom(func(t *rapid.T) item[T] {
		stop := bucket(t, avg+1, 1, avg+1) == 0
		if stop && len(out) >= min {
			return item[T]{stop: true}
		}
		return item[T]{v: f(t)}
	})
	for len(out) < max {
		it := g.Draw(t, "item")
		if it.stop {
			break
		}
		out = append(out, it.v)
	}
	return out
}

// tail draws a heavy-tailed mean for many.
func tail(t *rapid.T, avgs ...int) int {
	// smaller ones are more likely
	n := len(avgs)
	ws := make([]int, n)
	w := 1
	for i := n - 1; i >= 0; i-- {
		ws[i] = w
		w *= 2
	}
	return avgs[weighted(t, ws...)]
}

// tailed is a list with up to most elements, sometimes up to max.
func tailed[T any](t *rapid.T, min, most, max int, f func(*rapid.T) T) []T {
	if chance(t, 12) {
		return many(t, most, max, max-most, f)
	}
	return many(t, min, most, (most+1)/2, f)
}

func group[T any](t *rapid.T, f func(*rapid.T) T) T { return rapid.Custom(f).Draw(t, "g") }

func repeatStr(t *rapid.T, min, max, avg int, f func(*rapid.T) string) string {
	return strings.Join(many(t, min, max, avg, f), "")
}

func perm(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := i + intn(t, n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- lexemes

// Lexeme is a token as the generator meant it.
type Lexeme struct {
	Kind uint
	Text string
}

var identRunes = []string{"a", "b", "x", "i", "e", "Z", "_", "é", "中", "ß", "λ", "Ω", "ñ", "ж", "ª", "𐐷"}
var identCont = append(append([]string{}, identRunes...), "0", "1", "9", "٣", "７", "𝟘", "𐐀", "𞥐")

func genIdent(t *rapid.T) string {
	switch weighted(t, 4, 4, 2, 1) {
	case 0:
		return pick(t, []string{"a", "x", "foo", "if", "doc", "e", "i", "x1", "_", "_a", "E5", "TRUE", "nil"})
	case 1:
		return pick(t, identRunes) + repeatStr(t, 0, 12, 2, func(t *rapid.T) string { return pick(t, identCont) })
	case 2:
		return pick(t, identRunes) + repeatStr(t, 0, 80, 20, func(t *rapid.T) string { return pick(t, identCont) })
	default:
		return pick(t, []string{"a", "é"}) + strings.Repeat(pick(t, []string{"b", "中", "9"}), between(t, 60, 700))
	}
}

func digits(t *rapid.T, set string, min, avg int) string {
	return repeatStr(t, min, 60, avg, func(t *rapid.T) string { return string(set[intn(t, len(set))]) })
}

func genInt(t *rapid.T) string {
	switch weighted(t, 3, 4, 2, 3, 1) {
	case 0:
		return pick(t, []string{"0", "1", "7", "10", "00", "08"[:1], "9223372036854775807", "18446744073709551616"})
	case 1:
		return string("123456789"[intn(t, 9)]) + digits(t, "0123456789", 0, 3)
	case 2:
		return "0" + digits(t, "01234567", 0, 3)
	case 3:
		return pick(t, []string{"0x", "0X"}) + digits(t, "0123456789abcdefABCDEF", 1, 3)
	default:
		return string("123456789"[intn(t, 9)]) + digits(t, "0123456789", 30, 60)
	}
}

func genFloat(t *rapid.T) string {
	m := ""
	exp := true
	switch weighted(t, 3, 3, 2, 2, 2) {
	case 0:
		m = digits(t, "0123456789", 1, 2) + "." + digits(t, "0123456789", 0, 2)
		exp = chance(t, 40)
	case 1:
		m = "." + digits(t, "0123456789", 1, 2)
		exp = chance(t, 40)
	case 2:
		m = digits(t, "0123456789", 1, 2)
	case 3:
		m = "0" + digits(t, "0123456789", 0, 2) + "."
		exp = chance(t, 40)
	case 4:
		m = pick(t, []string{"0", "00", "09", "08", "9"})
	}
	if exp {
		m += pick(t, []string{"e", "E"}) + pick(t, []string{"", "+", "-"}) + digits(t, "0123456789", 1, 1)
	}
	return m
}

func genImag(t *rapid.T) string {
	if chance(t, 50) {
		return genFloat(t) + "i"
	}
	return digits(t, "0123456789", 1, 2) + "i"
}

var simpleEscapes = []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`}

func genEscape(t *rapid.T, quote string) string {
	switch weighted(t, 4, 2, 2, 2, 2, 1) {
	case 0:
		return pick(t, append(append([]string{}, simpleEscapes...), `\`+quote))
	case 1:
		return `\` + pick(t, []string{"000", "007", "101", "177", "200", "377", "300"})
	case 2:
		return `\x` + pick(t, []string{"00", "41", "7f", "80", "FF", "fF"})
	case 3:
		return `\u` + pick(t, []string{"0000", "0041", "00e9", "d7ff", "D7FF", "e000", "FFFD", "ffff", "feff"})
	case 4:
		return `\U` + pick(t, []string{"00000000", "0001F600", "0010FFFF", "0010ffff", "0000d7FF", "0000E000"})
	default:
		return `\` + pick(t, []string{"0", "1", "2", "3"}) + digits(t, "01234567", 2, 1)[:2]
	}
}

var plainChars = []string{"a", " ", "z", "0", "é", "中", "😀", "/", "*", "#", ";", "\t", "`", "%", "(", ")", "}", "$", "\r"}

func genChar(t *rapid.T) string {
	switch weighted(t, 3, 3) {
	case 0:
		return "'" + pick(t, append([]string{`"`}, plainChars...)) + "'"
	default:
		return "'" + genEscape(t, "'") + "'"
	}
}

func genString(t *rapid.T) string {
	return `"` + repeatStr(t, 0, 300, tail(t, 2, 6, 80), func(t *rapid.T) string {
		if chance(t, 35) {
			return genEscape(t, `"`)
		}
		return pick(t, append([]string{"'", "//", "/*", "*/", "\\\\"}, plainChars...))
	}) + `"`
}

func genRaw(t *rapid.T) string {
	return "`" + repeatStr(t, 0, 300, tail(t, 2, 6, 80), func(t *rapid.T) string {
		return pick(t, []string{"a", "\n", "\\", `"`, "'", "\r", "\r\n", "中", "//", "/*", "#", " ", ";", "é", "\\x"})
	}) + "`"
}

func genOp(t *rapid.T) Lexeme {
	o := pick(t, operators)
	return Lexeme{o.Kind, o.Text}
}

func genLexeme(t *rapid.T) Lexeme {
	switch weighted(t, 6, 10, 3, 3, 1, 2, 2, 2) {
	case 0:
		return Lexeme{kIDENT, genIdent(t)}
	case 1:
		return genOp(t)
	case 2:
		return Lexeme{kINT, genInt(t)}
	case 3:
		return Lexeme{kFLOAT, genFloat(t)}
	case 4:
		return Lexeme{kIMAG, genImag(t)}
	case 5:
		return Lexeme{kCHAR, genChar(t)}
	case 6:
		return Lexeme{kSTRING, genString(t)}
	default:
		return Lexeme{kSTRING, genRaw(t)}
	}
}

// ---------------------------------------------------------------- trivia

var commentBits = []string{"c", " ", "*", "/", "//", "#", `"`, "'", "`", "中", "é", "\r", "* /", "x y", ";", "\\", "\t", "/*"}

func genLineComment(t *rapid.T) string {
	return "//" + commentBody(t, "")
}

func genSharp(t *rapid.T) string { return "#" + commentBody(t, "") }

func commentBody(t *rapid.T, extra string) string {
	return repeatStr(t, 0, 200, tail(t, 1, 3, 60), func(t *rapid.T) string { return pick(t, commentBits) })
}

// genBlock is a /* */ comment; with newlines in it if nl.
func genBlock(t *rapid.T, nl bool) string {
	bits := repeatStr(t, 0, 200, tail(t, 1, 3, 60), func(t *rapid.T) string { return pick(t, commentBits) })
	if nl {
		bits += pick(t, []string{"\n", "\r\n", "\n\n"}) + repeatStr(t, 0, 60, 2, func(t *rapid.T) string {
			return pick(t, append([]string{"\n"}, commentBits...))
		})
	}
	bits = strings.ReplaceAll(bits, "*/", "* /")
	return "/*" + bits + "*/"
}

func genSpace(t *rapid.T) string {
	return repeatStr(t, 1, 40, 1, func(t *rapid.T) string { return pick(t, []string{" ", "\t", "\r", "  "}) })
}

// genTrivia is what separates two tokens: white space and comments, at least one separating character.
func genTrivia(t *rapid.T) string {
	return repeatStr(t, 1, 12, 1, func(t *rapid.T) string {
		switch weighted(t, 16, 8, 2, 2, 2, 2, 2, 2) {
		case 7: // several in a row
			return " " + repeatStr(t, 3, 60, tail(t, 5, 8, 16), func(t *rapid.T) string {
				return genBlock(t, false) + pick(t, []string{"", " "})
			}) + pick(t, []string{" ", "\n", "//\n", "#\n", "/*\n*/"})
		case 0:
			return genSpace(t)
		case 1:
			return pick(t, []string{"\n", "\r\n", "\n\n", "\n\n\n"})
		case 2:
			return genLineComment(t) + "\n"
		case 3:
			return genSharp(t) + "\n"
		case 4:
			return " " + genBlock(t, false)
		case 5:
			return " " + genBlock(t, true)
		default:
			return genLineComment(t) + "\r\n"
		}
	})
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
