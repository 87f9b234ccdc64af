package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/lib/builtin"
	"github.com/qiniu/text/tpl/qlang/spec"
)

// ---------------------------------------------------------------- Q10: importing Go values

type hvBase struct{ Depth int }

func (b *hvBase) Deep() int { return b.Depth + 1 }

// HvRec: its methods have to be called explicitly.
type HvRec struct {
	hvBase
	Count int
	Name  string
	Ratio float64
	Flag  bool
	List  []int
	M     map[string]int
	Inner *HvRec
	Fn    func(int) int
	Any   interface{}
}

func (r *HvRec) Total() int          { return r.Count * 3 }
func (r *HvRec) Scale(k int) int     { return r.Count * k }
func (r *HvRec) Pair() (int, string) { return r.Count, r.Name }
func (r *HvRec) Void()               { r.Count++ }
func (r *HvRec) Self() *HvRec        { return r }
func (r *HvRec) Label() string       { return "<" + r.Name + ">" }
func (r *HvRec) Sum(a ...int) (n int) {
	n = r.Count
	for _, x := range a {
		n += x
	}
	return
}
func (r *HvRec) Boom() int { panic("boom of Go") }

// HvAuto: methods without parameters are called when they are mentioned.
type HvAuto struct {
	Count int
	Name  string
}

func (r *HvAuto) Total() int          { return r.Count * 3 }
func (r *HvAuto) Scale(k int) int     { return r.Count * k }
func (r *HvAuto) Pair() (int, string) { return r.Count, r.Name }
func (r *HvAuto) Void()               { r.Count++ }
func (r *HvAuto) Self() *HvAuto       { return r }
func (r *HvAuto) Opt(a ...int) int    { return r.Count + len(a) }

// HvVal and HvValAuto are used by value.
type HvVal struct{ Count int }

func (r HvVal) Twice() int { return r.Count * 2 }

type HvValAuto struct{ Count int }

func (r HvValAuto) Twice() int { return r.Count * 2 }

func init() {
	qlang.SetAutoCall(reflect.TypeOf(&HvAuto{}))
	spec.SetAutoCall(reflect.TypeOf(HvValAuto{}))
}

// impUse is a way to use a symbol: the text after its name, the wanted value (of a reading of the model).
type impUse struct {
	text string // $ is the symbol
	want func(v interface{}, n int) interface{}
}

type impFail struct{}

var anyFail = func(interface{}, int) interface{} { return impFail{} }

type impVal struct {
	make func(n int) interface{}
	uses []impUse
}

func u(text string, want func(v interface{}, n int) interface{}) impUse { return impUse{text, want} }

func goList(a ...interface{}) []interface{} { return a }

var impVals = []impVal{
	{func(n int) interface{} { return n }, []impUse{
		u("$ + 1", func(v interface{}, n int) interface{} { return n + 1 }),
		u("-$ * 2", func(v interface{}, n int) interface{} { return -n * 2 }),
		u("$.x", anyFail), u("$()", anyFail)}},
	{func(n int) interface{} { return float64(n) + 0.5 }, []impUse{u("$ * 2", func(v interface{}, n int) interface{} { return (float64(n) + 0.5) * 2 })}},
	{func(n int) interface{} { return fmt.Sprint("s", n) }, []impUse{
		u(`$ + "x"`, func(v interface{}, n int) interface{} { return fmt.Sprint("s", n, "x") }),
		u("len($)", func(v interface{}, n int) interface{} { return len(fmt.Sprint("s", n)) })}},
	{func(n int) interface{} { return n%2 == 0 }, []impUse{u("!$", func(v interface{}, n int) interface{} { return n%2 != 0 })}},
	{func(n int) interface{} { return nil }, []impUse{u("$ == nil", func(interface{}, int) interface{} { return true })}},
	{func(n int) interface{} { return []int{n, n + 1} }, []impUse{
		u("$[1]", func(v interface{}, n int) interface{} { return n + 1 }),
		u("$[0:1]", func(v interface{}, n int) interface{} { return []int{n} })}},
	{func(n int) interface{} {
		return map[string]interface{}{"k": n, "cb": func() int { return n }, "sub": map[string]int{"a": n}}
	}, []impUse{
		u("$.k", func(v interface{}, n int) interface{} { return n }),
		u(`$["k"]`, func(v interface{}, n int) interface{} { return n }),
		u("$.cb()", func(v interface{}, n int) interface{} { return n }),
		u("$.sub.a", func(v interface{}, n int) interface{} { return n }),
		u("$.none", anyFail), u("$.K", anyFail)}},
	{func(n int) interface{} { return func() int { return n } }, []impUse{
		u("$()", func(v interface{}, n int) interface{} { return n }), u("$(1)", anyFail)}},
	{func(n int) interface{} { return func(a int, b string) string { return fmt.Sprint(n, a, b) } }, []impUse{
		u(`$(7, "q")`, func(v interface{}, n int) interface{} { return fmt.Sprint(n, 7, "q") }),
		u(`$(7)`, anyFail), u(`$("q", 7)`, anyFail), u(`$(7, "q", 1)`, anyFail), u(`$(7.5, "q")`, anyFail)}},
	{func(n int) interface{} { return func(a float64) float64 { return a + float64(n) } }, []impUse{
		u("$(1)", func(v interface{}, n int) interface{} { return 1 + float64(n) }),
		u("$(1.25)", func(v interface{}, n int) interface{} { return 1.25 + float64(n) }), u(`$("1")`, anyFail)}},
	{func(n int) interface{} { return func() (int, string) { return n, "two" } }, []impUse{
		u("$()", func(v interface{}, n int) interface{} { return goList(n, "two") }),
		u("$()[1]", func(v interface{}, n int) interface{} { return "two" })}},
	{func(n int) interface{} { return func() (a, b, c interface{}) { return n, nil, []int{n} } }, []impUse{
		u("$()", func(v interface{}, n int) interface{} { return goList(n, nil, []int{n}) })}},
	{func(n int) interface{} { return func(a ...interface{}) int { return n + len(a) } }, []impUse{
		u("$()", func(v interface{}, n int) interface{} { return n }),
		u("$(1, nil, $)", func(v interface{}, n int) interface{} { return n + 3 }),
		u("$([1, 2]...)", func(v interface{}, n int) interface{} { return n + 2 })}},
	{func(n int) interface{} {
		return func(a string, b ...int) int {
			s := n + len(a)
			for _, x := range b {
				s += x
			}
			return s
		}
	}, []impUse{
		u(`$("ab")`, func(v interface{}, n int) interface{} { return n + 2 }),
		u(`$("ab", 1, 2)`, func(v interface{}, n int) interface{} { return n + 5 }),
		u(`$()`, anyFail), u(`$("ab", "c")`, anyFail)}},
	{func(n int) interface{} { return func() {} }, []impUse{u("$()", func(interface{}, int) interface{} { return nil })}},
	{func(n int) interface{} { return func() int64 { return int64(n) } }, []impUse{
		u("$()", func(v interface{}, n int) interface{} { return n }), u("$() + 1", func(v interface{}, n int) interface{} { return n + 1 })}},
	{func(n int) interface{} { return func() float32 { return float32(n) + 0.5 } }, []impUse{u("$() * 2", func(v interface{}, n int) interface{} { return (float64(n) + 0.5) * 2 })}},
	{func(n int) interface{} { return func() uint16 { return uint16(n) } }, []impUse{u("$() - 1", func(v interface{}, n int) interface{} { return n - 1 })}},
	{func(n int) interface{} { return func() int { panic(fmt.Sprint("boom ", n)) } }, []impUse{u("$()", anyFail)}},
	{func(n int) interface{} { return func() int { panic(errors.New("boom")) } }, []impUse{u("$()", anyFail)}},
	{func(n int) interface{} { return errors.New(fmt.Sprint("e", n)) }, []impUse{
		u("$.error()", func(v interface{}, n int) interface{} { return fmt.Sprint("e", n) })}},
	{func(n int) interface{} {
		return &HvRec{Count: n, Name: fmt.Sprint("r", n), Ratio: 0.5, Flag: true, List: []int{n}, M: map[string]int{"a": n},
			Inner: &HvRec{Count: n + 1}, Fn: func(i int) int { return i + n }, Any: n, hvBase: hvBase{n}}
	}, []impUse{
		u("$.count", func(v interface{}, n int) interface{} { return n }),
		u("$.Count", func(v interface{}, n int) interface{} { return n }),
		u("$.name", func(v interface{}, n int) interface{} { return fmt.Sprint("r", n) }),
		u("$.ratio", func(v interface{}, n int) interface{} { return 0.5 }),
		u("!$.flag", func(v interface{}, n int) interface{} { return false }),
		u("$.list[0]", func(v interface{}, n int) interface{} { return n }),
		u("$.m.a", func(v interface{}, n int) interface{} { return n }),
		u("$.inner.count", func(v interface{}, n int) interface{} { return n + 1 }),
		u("$.inner.inner == nil", func(v interface{}, n int) interface{} { return nil }), // only that it is safe
		u("$.inner.inner.count", anyFail),
		u("$.Fn(2)", func(v interface{}, n int) interface{} { return n + 2 }),
		u("$.any", func(v interface{}, n int) interface{} { return n }),
		u("$.depth", func(v interface{}, n int) interface{} { return n }),
		u("$.deep()", func(v interface{}, n int) interface{} { return n + 1 }),
		u("$.total()", func(v interface{}, n int) interface{} { return n * 3 }),
		u("$.Total()", func(v interface{}, n int) interface{} { return n * 3 }),
		u("$.total() + $.scale(2)", func(v interface{}, n int) interface{} { return n * 5 }),
		u("$.pair()", func(v interface{}, n int) interface{} { return goList(n, fmt.Sprint("r", n)) }),
		u("$.void()", func(v interface{}, n int) interface{} { return nil }),
		u("$.self().name", func(v interface{}, n int) interface{} { return fmt.Sprint("r", n) }),
		u("$.label()", func(v interface{}, n int) interface{} { return fmt.Sprint("<r", n, ">") }),
		u("$.sum()", func(v interface{}, n int) interface{} { return n }),
		u("$.sum(1, 2)", func(v interface{}, n int) interface{} { return n + 3 }),
		u("$.total(1)", anyFail), u("$.scale()", anyFail), u("$.none", anyFail), u("$.none()", anyFail), u("$.boom()", anyFail), u("$.hvBase", anyFail)}},
	{func(n int) interface{} { return &HvAuto{Count: n, Name: fmt.Sprint("a", n)} }, []impUse{
		u("$.count", func(v interface{}, n int) interface{} { return n }),
		u("$.total", func(v interface{}, n int) interface{} { return n * 3 }),
		u("$.total + 1", func(v interface{}, n int) interface{} { return n*3 + 1 }),
		u("$.pair", func(v interface{}, n int) interface{} { return goList(n, fmt.Sprint("a", n)) }),
		u("$.pair[0]", func(v interface{}, n int) interface{} { return n }),
		u("$.void", func(v interface{}, n int) interface{} { return nil }),
		u("$.self.self.name", func(v interface{}, n int) interface{} { return fmt.Sprint("a", n) }),
		u("$.scale(2)", func(v interface{}, n int) interface{} { return n * 2 }),
		u("$.opt(1, 2)", func(v interface{}, n int) interface{} { return n + 2 }),
		u("$.opt()", func(v interface{}, n int) interface{} { return n }),
		u("$.total()", anyFail), u("$.none", anyFail)}},
	{func(n int) interface{} { return HvVal{n} }, []impUse{
		u("$.count", func(v interface{}, n int) interface{} { return n }),
		u("$.twice()", func(v interface{}, n int) interface{} { return n * 2 }),
		u("$.twice() + 1", func(v interface{}, n int) interface{} { return n*2 + 1 }),
		u("$.none", anyFail)}},
	{func(n int) interface{} { return HvValAuto{n} }, []impUse{
		u("$.count", func(v interface{}, n int) interface{} { return n }),
		u("$.twice + 1", func(v interface{}, n int) interface{} { return n*2 + 1 })}},
	{func(n int) interface{} { return &HvValAuto{n} }, []impUse{ // the type itself isn't an auto-call type
		u("$.count", func(v interface{}, n int) interface{} { return n }),
		u("$.twice()", func(v interface{}, n int) interface{} { return n * 2 })}},
	{func(n int) interface{} { return (*HvRec)(nil) }, []impUse{u("$.count", anyFail), u("$.label()", anyFail)}},
}

// ImpEntry is a name of a table and its value.
type ImpEntry struct {
	Name int // index into impNames
	Val  int
	N    int
}

// ImpStep is one step of a history.
type ImpStep struct {
	Op      string // import, use, plain, shadow, engine, builtin
	Mod     int    // module name, -1: none
	Spec    bool   // spec.Import instead of qlang.Import
	Safe    int    // 0 no, 1 safe mode with an _initSafe, 2 with a wrong one, 3 _initSafe without safe mode
	Entries []ImpEntry
	Name    int
	Use     int
	Engine  int
	Wrap    int // how the expression is embedded
}

// ImpCase is a history of imports and programs. Names are made unique per case.
type ImpCase struct {
	Steps []ImpStep
}

// names: fresh ones (with a unique part), then existing ones of the language
var impFresh = []string{"a", "b", "Cc", "_d", "ñ", "x1"}
var impTaken = []string{"len", "println", "nil", "true", "undefined", "append", "type", "max", "$add", "$mul", "$if", "$ARITY", "$ref", "$lt", "string"}

func impName(i int, uniq string) string {
	if i < len(impFresh) {
		if impFresh[i][0] == '_' {
			return "_hv" + uniq + impFresh[i]
		}
		return "hv" + uniq + impFresh[i]
	}
	return impTaken[i-len(impFresh)]
}

func genImport(t *rapid.T) ImpCase {
	name := func() int {
		if chance(t, 3) {
			return len(impFresh) + intn(t, len(impTaken))
		}
		return intn(t, len(impFresh))
	}
	type path struct{ mod, name int }
	var known []path
	return ImpCase{many(t, 2, 30, 8, func(t *rapid.T) ImpStep {
		s := ImpStep{Mod: -1, Engine: intn(t, 2), Wrap: weighted(t, 5, 2, 2, 1, 1), Name: name(), Use: intn(t, 40)}
		switch weighted(t, 6, 10, 3, 1, 1, 1) {
		case 0:
			s.Op = "import"
			if chance(t, 45) {
				s.Mod = name()
			}
			s.Safe = weighted(t, 7, 2, 1, 1)
			s.Spec = chance(t, 40)
			s.Entries = many(t, 0, 5, 2, func(t *rapid.T) ImpEntry {
				return ImpEntry{name(), intn(t, len(impVals)), 1 + intn(t, 1000)}
			})
			for _, e := range s.Entries {
				known = append(known, path{s.Mod, e.Name})
			}
		case 1:
			s.Op = "use"
			fallthrough
		case 2:
			if s.Op == "" {
				s.Op = "plain"
			}
			if len(known) > 0 && chance(t, 85) {
				p := pick(t, known)
				s.Mod, s.Name = p.mod, p.name
			} else if chance(t, 40) {
				s.Mod = name()
			}
		case 3:
			s.Op = "shadow"
		case 4:
			s.Op = "engine"
		case 5:
			s.Op = "builtin"
		}
		return s
	})}
}

type impSym struct {
	v     interface{}
	val   int // -1: not of the catalogue
	n     int
	table map[string]impSym
	maybe bool // of a refused import: there or not
	dead  bool // replaced by a function that isn't implemented
}

var impCount int

// identical: the same value, or the same thing.
func identical(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() != vb.IsValid() {
		return false
	}
	if !va.IsValid() {
		return true
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Func, reflect.Map, reflect.Slice, reflect.Ptr, reflect.Chan:
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func checkImport(c ImpCase, x *Ctx) error {
	impCount++
	uniq := strconv.Itoa(impCount)
	globals := map[string]*impSym{}
	var engines [2]qlang.Qlang
	var shadow [2]map[string]bool
	for i := range engines {
		var err error
		if engines[i], err = qlang.New(nil); err != nil {
			return failf("New: %v", err)
		}
		shadow[i] = map[string]bool{}
	}
	before := map[string]interface{}{}
	for _, n := range impTaken {
		before[n] = spec.Fntable[n]
	}
	uses, clashes := 0, 0
	for i, s := range c.Steps {
		at := func(format string, a ...interface{}) error {
			return fmt.Errorf("step %d (%s): %w", i, s.Op, failf(format, a...))
		}
		switch s.Op {
		case "engine":
			var err error
			if engines[s.Engine], err = qlang.New(nil); err != nil {
				return at("New: %v", err)
			}
			shadow[s.Engine] = map[string]bool{}
		case "import":
			table := map[string]interface{}{}
			syms := map[string]impSym{}
			for _, e := range s.Entries {
				n := impName(e.Name, uniq)
				v := impVals[e.Val].make(e.N)
				table[n] = v
				syms[n] = impSym{v: v, val: e.Val, n: e.N}
			}
			mod, clash := "", false
			if s.Mod >= 0 {
				mod = impName(s.Mod, uniq)
				clash = globals[mod] != nil || s.Mod >= len(impFresh)
			} else {
				for _, e := range s.Entries {
					n := impName(e.Name, uniq)
					clash = clash || e.Name >= len(impFresh) || globals[n] != nil && !globals[n].maybe
				}
			}
			unclear := false // a name that a refused import may have left
			if s.Mod < 0 {
				for n := range table {
					unclear = unclear || globals[n] != nil && globals[n].maybe
				}
			} else if g := globals[mod]; g != nil && g.maybe {
				clash, unclear = false, true
			}
			refuse := clash
			{
				dead := ""
				if len(s.Entries) > 0 {
					dead = impName(s.Entries[0].Name, uniq)
				}
				switch s.Safe {
				case 1, 3:
					table["_initSafe"] = func(tb map[string]interface{}, dummy func(...interface{}) interface{}) {
						if dead != "" {
							tb[dead] = dummy
						}
					}
					if s.Safe == 1 && dead != "" {
						syms[dead] = impSym{dead: true}
					}
				case 2:
					table["_initSafe"] = func(tb map[string]interface{}) {}
					refuse = true
				}
			}
			spec.SafeMode = s.Safe == 1 || s.Safe == 2
			e := func() (e interface{}) {
				defer func() { e = recover(); spec.SafeMode = false }()
				if s.Spec {
					spec.Import(mod, table)
				} else {
					qlang.Import(mod, table)
				}
				return nil
			}()
			delete(spec.Fntable, "_initSafe")
			switch {
			case refuse && e == nil:
				return at("the import of %q %v wasn't refused", mod, sortedKeys(table))
			case !refuse && !unclear && e != nil:
				return at("the import of %q %v was refused: %v", mod, sortedKeys(table), e)
			}
			if e != nil {
				clashes++
				if s.Mod < 0 {
					for n, v := range syms {
						if globals[n] == nil && impIsFresh(n, uniq) {
							v.maybe = true
							v := v
							globals[n] = &v
						}
					}
				}
				break
			}
			if s.Mod >= 0 {
				globals[mod] = &impSym{v: table, val: -1, table: syms}
			} else {
				for n, v := range syms {
					v := v
					globals[n] = &v
				}
			}
		case "builtin":
			l := engines[s.Engine]
			if shadow[s.Engine]["len"] || shadow[s.Engine]["max"] || shadow[s.Engine]["append"] {
				break
			}
			if err := l.SafeEval(`r = [len("abc"), max(2, 3) * 2, len(append([1], 2))]`); err != nil {
				return at("%v", err)
			}
			if v, _ := l.Var("r"); !reflect.DeepEqual(v, []int{3, 6, 2}) {
				return at("functions of the language give %v", v)
			}
		case "shadow":
			n := impName(s.Name, uniq)
			if s.Name >= len(impFresh) {
				break
			}
			if err := engines[s.Engine].SafeEval(n + " = 123456"); err != nil {
				return at("%s: %v", n, err)
			}
			shadow[s.Engine][n] = true
		case "use", "plain":
			n := impName(s.Name, uniq)
			name := n
			var sym *impSym
			fails, known := false, true
			private := func(n string) bool { return n[0] == '_' && s.Wrap >= 1 && s.Wrap <= 3 } // variables that functions don't see
			if s.Mod >= 0 {
				mod := impName(s.Mod, uniq)
				name = mod + "." + n
				if mod[0] == '$' || n[0] == '$' || s.Mod >= len(impFresh) {
					break
				}
				g := globals[mod]
				switch {
				case shadow[s.Engine][mod] && !private(mod):
					fails = true
				case g == nil:
					fails = true
				case g.maybe:
					known = false
				case g.table == nil: // a value, perhaps with members
					known = false
				default:
					if m, ok := g.table[n]; ok {
						sym = &m
					} else {
						fails = true
					}
				}
			} else {
				if s.Name >= len(impFresh) {
					break
				}
				sym = globals[n]
				if shadow[s.Engine][n] && !private(n) {
					sym = &impSym{v: 123456, val: 0, n: 123456}
				}
				if sym == nil {
					fails = true
				} else if sym.maybe {
					known = false
				}
			}
			if !known {
				break
			}
			expr, want := name, interface{}(nil)
			if !fails {
				want = sym.v
			}
			if s.Op == "use" && !fails {
				if sym.dead {
					expr, fails = name+"()", true
				} else if sym.val < 0 {
					break
				} else {
					us := impVals[sym.val].uses
					use := us[s.Use%len(us)]
					expr = strings.ReplaceAll(use.text, "$", name)
					want = use.want(sym.v, sym.n)
					if _, ok := want.(impFail); ok {
						fails = true
					}
					if strings.HasSuffix(use.text, "void()") || strings.HasSuffix(use.text, "void") {
						switch v := sym.v.(type) { // it changes the object: undone for the next step
						case *HvRec:
							expr = "[" + expr + ", " + name + ".count]"
							want = goList(nil, v.Count+1)
						case *HvAuto:
							expr = "[" + expr + ", " + name + ".count]"
							want = goList(nil, v.Count+1)
						}
					}
				}
			} else if s.Op == "plain" && sym != nil && sym.dead {
				break
			}
			prog := "r = " + expr
			switch s.Wrap {
			case 1:
				prog = "f = fn() { return " + expr + " }; r = f()"
			case 2:
				prog = "f = fn(a) { g = fn() { return " + expr + " }; return g() }; r = f(1)"
			case 3:
				prog = "C = class { fn m() { return " + expr + " } }; o = new C; r = o.m()"
			case 4:
				prog = "if true { r = " + expr + " }"
			}
			l := engines[s.Engine]
			l.SetVar("r", "unset")
			l.Unset("f")
			err, p := safeEval(l, prog)
			if p != nil {
				return at("%s panics: %v", prog, p)
			}
			if sym != nil { // undo Void
				switch o := sym.v.(type) {
				case *HvRec:
					if o != nil {
						o.Count = sym.n
					}
				case *HvAuto:
					o.Count = sym.n
				}
			}
			if fails {
				if err == nil {
					v, _ := l.Var("r")
					return at("%s gives %v (%T), want an error", prog, v, v)
				}
				x.Class("error")
				break
			}
			if err != nil {
				return at("%s: %v", prog, err)
			}
			got, _ := l.Var("r")
			if strings.HasSuffix(expr, "== nil") && want == nil {
				uses++
				break
			}
			ok := false
			if s.Op == "plain" {
				ok = identical(got, want)
			} else {
				ok = reflect.DeepEqual(got, want)
			}
			if !ok {
				return at("%s gives %v (%T), want %v (%T)", prog, got, got, want, want)
			}
			uses++
		}
		for _, n := range impTaken {
			if !identical(before[n], spec.Fntable[n]) {
				return at("the symbol %s of the language was replaced", n)
			}
		}
		if !identical(spec.Fntable["len"], builtin.Len) {
			return at("len isn't the function of the language")
		}
	}
	x.ClassIf(clashes > 0, "import refused")
	x.ClassIf(uses > 0, "imported symbol used")
	x.NonTrivialIf(uses > 0)
	return nil
}

func impIsFresh(n, uniq string) bool {
	return strings.HasPrefix(n, "hv"+uniq) || strings.HasPrefix(n, "_hv"+uniq)
}

func safeEval(l qlang.Qlang, prog string) (err error, p interface{}) {
	defer func() { p = recover() }()
	err = l.SafeEval(prog)
	return
}

// ImpTable is a table of many names.
type ImpTable struct {
	Mod   bool // a module; otherwise its names are global ones
	Spec  bool
	N     int
	Clash int // -1: all names are fresh; otherwise the table also has a name (or is the module) of that earlier table
	At    int // which name that is
}

// ImpBulk is a history of imports of many names; everything is read by an instance made before and one made after.
type ImpBulk struct {
	Tables []ImpTable
	Early  int // the step before which the instance is made
}

func genImpBulk(t *rapid.T) ImpBulk {
	c := ImpBulk{}
	n := between(t, 1, 4)
	small := chance(t, 30) // many tables with few names
	if small {
		n = size(t, 4, 90)
	}
	for i := 0; i < n; i++ {
		s := ImpTable{Mod: chance(t, 50), Spec: chance(t, 40), Clash: -1, At: intn(t, 600)}
		if small {
			s.N = intn(t, 4)
		} else {
			s.N = size(t, 1, 600)
		}
		if i > 0 && chance(t, 25) {
			s.Clash = intn(t, i)
		}
		c.Tables = append(c.Tables, s)
	}
	c.Early = intn(t, n+1)
	return c
}

func checkImpBulk(c ImpBulk, x *Ctx) error {
	impCount++
	uniq := strconv.Itoa(impCount)
	type sym struct {
		name string
		want int
	}
	var syms []sym
	names := make([][]string, len(c.Tables)) // of the imported tables, "" where the table was refused
	mods := make([]string, len(c.Tables))
	var early qlang.Qlang
	made := false
	var err error
	total, refused := 0, 0
	for i, s := range c.Tables {
		if i == c.Early {
			made = true
			if early, err = qlang.New(nil); err != nil {
				return failf("New: %v", err)
			}
		}
		table := map[string]interface{}{}
		var mine []string
		mod := ""
		if s.Mod {
			mod = fmt.Sprintf("hm%s_%d", uniq, i)
		}
		clash := false
		for j := 0; j < s.N; j++ {
			n := fmt.Sprintf("hb%s_%d_%d", uniq, i, j)
			v := total + j
			if v%3 == 0 {
				table[n] = func() int { return v }
			} else {
				table[n] = v
			}
			mine = append(mine, n)
		}
		if s.Clash >= 0 && s.Clash < i {
			o := c.Tables[s.Clash]
			if s.Mod && mods[s.Clash] != "" {
				mod, clash = mods[s.Clash], true
			} else if !s.Mod && !o.Mod && len(names[s.Clash]) > 0 {
				n := names[s.Clash][s.At%len(names[s.Clash])]
				table[n] = -1
				clash = true
			} else if !s.Mod && mods[s.Clash] != "" {
				table[mods[s.Clash]] = -1
				clash = true
			}
		}
		e := func() (e interface{}) {
			defer func() { e = recover() }()
			if s.Spec {
				spec.Import(mod, table)
			} else {
				qlang.Import(mod, table)
			}
			return nil
		}()
		if clash != (e != nil) {
			return failf("import %d of %d names (module %q): clash %v, but refused with %v", i, len(table), mod, clash, e)
		}
		if clash {
			refused++
			continue
		}
		names[i], mods[i] = mine, mod
		for j, n := range mine {
			if mod != "" {
				n = mod + "." + n
			}
			if (total+j)%3 == 0 {
				n += "()"
			}
			syms = append(syms, sym{n, total + j})
		}
		total += s.N
	}
	if !made {
		made = true
		if early, err = qlang.New(nil); err != nil {
			return failf("New: %v", err)
		}
	}
	late, err := qlang.New(nil)
	if err != nil {
		return failf("New: %v", err)
	}
	for k, l := range []qlang.Qlang{early, late} {
		for from := 0; from < len(syms); from += 50 {
			var texts []string
			to := from + 50
			if to > len(syms) {
				to = len(syms)
			}
			for _, s := range syms[from:to] {
				texts = append(texts, s.name)
			}
			err, p := safeEval(l, "r = ["+strings.Join(texts, ", ")+"]")
			if err != nil || p != nil {
				return failf("instance %d: reading the imported names %s..%s: %v %v", k, texts[0], texts[len(texts)-1], err, p)
			}
			v, _ := l.Var("r")
			got, ok := v.([]int)
			if !ok || len(got) != to-from {
				return failf("instance %d: the imported names %s..%s give %T %v", k, texts[0], texts[len(texts)-1], v, v)
			}
			for i, s := range syms[from:to] {
				if got[i] != s.want {
					return failf("instance %d: %s gives %d, want %d", k, s.name, got[i], s.want)
				}
			}
		}
	}
	x.ClassIf(refused > 0, "import refused")
	x.ClassIf(len(syms) > 100, "more than 100 names")
	x.NonTrivialIf(len(syms) > 10)
	return nil
}

func init() {
	reg("Q10", "import", "an imported symbol was used", 12000, 300000, genImport, checkImport)
	reg("Q10", "bulk", "many tables, or tables of up to 600 names, read by instances made before and after; non-trivial: more than 10 names were imported", 1500, 40000, genImpBulk, checkImpBulk)
}
