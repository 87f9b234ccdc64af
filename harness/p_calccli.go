package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- I11

// CLICase is the standard input of a calculator command.
type CLICase struct {
	Calc  string
	Lines []Text
	End   Text // end of the last line
}

var cliPkgs = map[string]string{
	"number": "github.com/qiniu/text/tpl/examples/calculator",
	"cmplx":  "github.com/qiniu/text/tpl/examples/cmplxcalc",
	"rat":    "github.com/qiniu/text/tpl/examples/ratcalc",
}

func genCLI(t *rapid.T) CLICase {
	c := CLICase{Calc: pick(t, []string{"number", "cmplx", "rat"})}
	good, bad, soup := genCalc(c.Calc, 0), genCalc(c.Calc, 30), genCalcSoup(c.Calc)
	c.Lines = many(t, 0, 40, 8, func(t *rapid.T) Text {
		var s Text
		switch weighted(t, 6, 3, 3, 2) {
		case 0:
			s = good(t).Text
		case 1:
			s = bad(t).Text
		case 2:
			s = soup(t).Text
		default:
			return Text(pick(t, []string{"", " ", "\t", "\r", " \t \r", "# c", "// c", "/* c */", ";", "(", "()", "1;2", "\v", "\x00", "\xff", ">", "exit", "1 /* c"}))
		}
		if chance(t, 10) {
			s = Text(pick(t, []string{" ", "\t ", "\r", "  \r"})) + s
		}
		if chance(t, 10) {
			s += Text(pick(t, []string{" ", "\t ", "\r", "  \r", " # c", " // c"}))
		}
		return s
	})
	c.End = Text(pick(t, []string{"\n", "\n", "\n", "", "\r\n", "\n\n", "\r"}))
	return c
}

func showCLI(calc string, v interface{}) string {
	switch x := v.(type) {
	case complex128:
		if imag(x) == 0 {
			return fmt.Sprint(real(x))
		}
	case *big.Rat:
		if x.IsInt() {
			return x.Num().String()
		}
		return x.Num().String() + "/" + x.Denom().String()
	}
	return fmt.Sprint(v)
}

func checkCLI(c CLICase, x *Ctx) error {
	bin, err := sharedBuild(cliPkgs[c.Calc])
	if err != nil {
		return err
	}
	ref := calcs[c.Calc]
	var in []string
	var want strings.Builder
	failed, good, after := 0, 0, false
	// a text of several lines is several lines of input
	var all []string
	for _, l := range c.Lines {
		all = append(all, strings.Split(string(l), "\n")...)
	}
	for _, l := range all {
		text := strings.Trim(l, " \t\r")
		if len(l) > 60000 {
			continue // longer lines than that aren't read
		}
		if text == "" {
			in = append(in, l)
			x.Class("blank line")
			continue
		}
		v, werr, either := ref.refResult(text)
		if either || werr == errSlow {
			continue
		}
		in = append(in, l)
		if werr != nil {
			failed++
			x.Class("line that fails")
			continue
		}
		if failed > 0 {
			after = true
		}
		good++
		fmt.Fprintf(&want, "> %s\n\n", showCLI(c.Calc, v))
	}
	input := strings.Join(in, "\n")
	if len(in) > 0 {
		input += string(c.End)
	}
	out, serr, code, err := runCmdIn(60*time.Second, scratchRoot(), nil, []byte(input), bin)
	if err != nil {
		return failf("%s: %v", c.Calc, err)
	}
	if code != 0 {
		return failf("%s: exit code %d for %q, on stderr: %s", c.Calc, code, input, serr)
	}
	if string(out) != want.String() {
		return failf("%s: prints %q for %q, want %q; on stderr: %s", c.Calc, out, input, want.String(), serr)
	}
	if n := strings.Count(string(serr), "\n"); n < failed || failed == 0 && len(serr) > 0 {
		return failf("%s: %d lines of %q fail, on stderr: %q", c.Calc, failed, input, serr)
	}
	x.NonTrivialIf(after)
	x.ClassIf(good == 0, "no value")
	x.ClassIf(good > 5, "over 5 values")
	return nil
}

func init() {
	reg("I11", "stdin", "runs of the built calculators on generated lines; non-trivial: a value after a line that fails", 3000, 80000, genCLI, checkCLI)
}
