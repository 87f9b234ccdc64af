package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	gotoken "go/token"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	iutil "github.com/qiniu/text/tpl/interpreter.util"
	"pgregory.net/rapid"
)

// A generated interpreter: a grammar whose marks are recording functions of any signature, and the model of
// what they must see.

// ---------------------------------------------------------------- cases

// HostMark is the function of a mark.
type HostMark struct {
	Mute int    `json:",omitempty"` // 1 _mute, -1 _unmute
	Name string // the mark
	Recv string `json:",omitempty"` // stk, ipt, or "" for a plain function
	Arg  string `json:",omitempty"` // second parameter: "", any, eng, ctx, len, string, int, int64, float64
	Ctx  bool   `json:",omitempty"` // third parameter
	Ret  bool   `json:",omitempty"` // returns an error
	In   []string
	Out  []string
	Push bool   `json:",omitempty"` // pushes a number
	Fail string `json:",omitempty"` // ret, error, string, match
	At   int    `json:",omitempty"` // the call that fails, from 0
	Code string `json:",omitempty"` // rule to be evaluated on the matched tokens
	Give bool   `json:",omitempty"` // returns the error of that
	Hold bool   `json:",omitempty"` // recovers from the panic of that
}

// HostStep is one evaluation.
type HostStep struct {
	Src   Text
	Rule  string `json:",omitempty"` // evaluate this rule, instead of the whole grammar
	Fname string `json:",omitempty"`
}

// HostCase is an interpreter and a history of evaluations.
type HostCase struct {
	Gram  *Gram
	Marks []HostMark // Marks[i] belongs to the mark with ID i+1
	Mode  uint
	Steps []HostStep

	maps []TokMap // not nil: the engine has a scanner that does this
}

type hostOpts struct {
	marks   int
	cuts    int
	mute    int // percent of rules put between _mute and _unmute
	free    int // percent of marks that are an unpaired _mute or _unmute
	sigs    bool
	fail    int
	code    int
	hold    int // percent of those that recover from a panic
	steps   int
	fnames  bool
	goNames bool // the rules have names that Go code can use
	onlyU   int  // percent of '_' marks
}

func genHost(o hostOpts) func(t *rapid.T) HostCase {
	return func(t *rapid.T) HostCase {
		gro := gramOpts{normal: true, marks: o.marks, cuts: o.cuts, nullable: 15, keywords: true, maxRules: 4}
		if o.goNames {
			gro.names, gro.odd = defaultNames, usableOdd
		}
		g := genGram(t, gro)
		c := hostOf(t, o, g)
		c.Steps = many(t, 1, 8, o.steps, func(t *rapid.T) HostStep {
			s := HostStep{}
			if o.fnames && chance(t, 60) {
				s.Fname = pick(t, []string{"a.ql", "dir/b.txt", "中.q", "x y"})
			}
			rule := "doc"
			if chance(t, 20) {
				s.Rule = pick(t, g.Rules).Name
				rule = s.Rule
			}
			s.Src = layoutTokens(t, genSentence(t, g, g.rule(rule), g.vocab()))
			return s
		})
		return c
	}
}

// hostOf gives the marks of a grammar functions.
func hostOf(t *rapid.T, o hostOpts, g *Gram) HostCase {
	mute, unmute := map[*G]bool{}, map[*G]bool{}
	if o.mute > 0 {
		var wrap func(x *G) *G
		wrap = func(x *G) *G {
			if x == nil {
				return nil
			}
			for i, k := range x.Kids {
				x.Kids[i] = wrap(k)
			}
			if !chance(t, o.mute) {
				return x
			}
			a := &G{Op: "mark", Kids: []*G{{Op: "true"}}}
			b := &G{Op: "mark", Kids: []*G{{Op: "true"}}}
			mute[a], unmute[b] = true, true
			return &G{Op: "and", Kids: []*G{a, x, b}}
		}
		for i := range g.Rules {
			g.Rules[i].G = wrap(g.Rules[i].G)
		}
	}
	g.number()
	c := HostCase{Gram: g}
	for _, m := range markNodes(g) {
		h := HostMark{}
		switch {
		case mute[m] || o.free > 0 && chance(t, o.free):
			h.Mute, h.Name = 1, "_mute"
		case unmute[m] || o.free > 0 && chance(t, o.free):
			h.Mute, h.Name = -1, "_unmute"
		default:
			h = genHostMark(t, g, m, o)
		}
		m.Name = h.Name
		c.Marks = append(c.Marks, h)
	}
	if chance(t, 60) {
		shuffleRules(t, g)
	}
	return c
}

func genHostMark(t *rapid.T, g *Gram, m *G, o hostOpts) HostMark {
	h := HostMark{Recv: pick(t, []string{"stk", "ipt"}), Arg: "any"}
	prefix := ""
	if chance(t, o.onlyU) {
		prefix = "_"
	}
	if o.sigs {
		h.Arg = pick(t, []string{"any", "", "eng", "ctx", "len", "string", "num"})
		if h.Arg == "num" {
			h.Arg = "string"
			if k := m.Kids[0]; k.Op == "tok" && (k.T == "INT" || k.T == "FLOAT") || chance(t, 8) {
				h.Arg = pick(t, []string{"int", "int64", "float64"})
			}
		}
		h.Ret = chance(t, 30)
		h.Ctx = h.Arg != "" && chance(t, 25)
		h.Push = chance(t, 50)
		if chance(t, 12) {
			h = HostMark{Push: true}
			h.In = tailed(t, 1, 4, 9, func(t *rapid.T) string { return pick(t, []string{"float64", "any"}) })
			h.Out = tailed(t, 0, 3, 9, func(t *rapid.T) string { return "float64" })
		}
	}
	if o.fail > 0 && chance(t, o.fail) {
		h.Fail = pick(t, []string{"ret", "error", "string", "match"})
		h.At = intn(t, 4)
		if h.Fail == "ret" {
			if h.Recv == "" {
				h.Fail = "error"
			} else {
				h.Ret = true
			}
		}
	}
	if o.code > 0 && chance(t, o.code) {
		h = HostMark{Recv: "ipt", Arg: "ctx", Ret: true, Give: chance(t, 50)}
		h.Hold = o.hold > 0 && chance(t, o.hold)
		h.Code = pick(t, g.Rules).Name
		if k := m.Kids[0]; k.Op == "ref" && chance(t, 80) {
			h.Code = k.Name
		}
	}
	if h.Arg == "len" {
		h.Name = prefix + pick(t, []string{"M", "ARITY", "Z"}) + fmt.Sprint(m.ID)
	} else {
		h.Name = prefix + pick(t, []string{"m", "push", "é", "z"}) + fmt.Sprint(m.ID)
	}
	if chance(t, 10) {
		h.Name += strings.Repeat("_long", tail(t, 1, 4, 60))
	}
	return h
}

// markNodes are the marks by number.
func markNodes(g *Gram) []*G {
	var ms []*G
	g.walk(func(x *G) {
		if x.Op == "mark" {
			for len(ms) < x.ID {
				ms = append(ms, nil)
			}
			ms[x.ID-1] = x
		}
	})
	return ms
}

// ---------------------------------------------------------------- the real interpreter

type hostStack struct {
	h    *host
	vals []interface{}
}

func (s *hostStack) PopArgs(n int) ([]reflect.Value, bool) {
	k := len(s.vals) - n
	if k < 0 {
		return nil, false
	}
	args := make([]reflect.Value, n)
	for i := range args {
		args[i] = reflect.ValueOf(s.vals[k+i])
	}
	s.vals = s.vals[:k]
	return args, true
}

func (s *hostStack) PushRet(ret []reflect.Value) error {
	for _, v := range ret {
		s.vals = append(s.vals, v.Interface())
	}
	return nil
}

// hostEngine is the engine of an interpreter.
type hostEngine interface {
	iutil.Engine
	EvalSub(name string, src interface{}) error
	MatchExactly(src []byte, fname string) error
	Tokener() tpl.Tokener
}

// engineKind makes engines: those of the library, or those that were generated.
type engineKind struct {
	make  func(ipt iutil.Interface, mode tpl.ScanMode) (hostEngine, error)
	cause func(err error) (cause error, ok bool) // of a runtime error
}

var libraryEngine = engineKind{
	func(ipt iutil.Interface, mode tpl.ScanMode) (hostEngine, error) {
		eng, err := interpreter.New(ipt, &interpreter.Options{ScanMode: mode})
		if err != nil {
			return nil, err
		}
		return eng, nil
	},
	func(err error) (error, bool) {
		e, ok := err.(*interpreter.RuntimeError)
		if !ok {
			return nil, false
		}
		return e.Err, true
	},
}

type host struct {
	kind  engineKind
	c     HostCase
	text  string
	stk   *hostStack
	table map[string]interface{}
	eng   hostEngine
	log   []string
	calls []int // per mark
	off   map[int]int
	depth int
	errs  []error
	base  int

	onCall func()
}

func (h *host) Grammar() string                 { return h.text }
func (h *host) Fntable() map[string]interface{} { return h.table }
func (h *host) Stack() iutil.Stack              { return h.stk }

var (
	tAny   = reflect.TypeOf((*interface{})(nil)).Elem()
	tErr   = reflect.TypeOf((*error)(nil)).Elem()
	tEng   = reflect.TypeOf((*iutil.Engine)(nil)).Elem()
	tCtx   = reflect.TypeOf((*iutil.Context)(nil))
	tHost  = reflect.TypeOf((*host)(nil))
	tStk   = reflect.TypeOf((*hostStack)(nil))
	argTyp = map[string]reflect.Type{
		"any": tAny, "eng": tEng, "ctx": tCtx, "len": reflect.TypeOf(0), "string": reflect.TypeOf(""),
		"int": reflect.TypeOf(0), "int64": reflect.TypeOf(int64(0)), "float64": reflect.TypeOf(0.0),
	}
)

func newHost(c HostCase) (*host, error) { return newHostOf(c, libraryEngine) }

func newHostOf(c HostCase, kind engineKind) (*host, error) {
	h := &host{kind: kind, c: c, table: map[string]interface{}{}, calls: make([]int, len(c.Marks))}
	h.stk = &hostStack{h: h}
	var rules [][]string
	for _, r := range c.Gram.Rules {
		rules = append(rules, append([]string{r.Name, "="}, (&renderer{}).lex(r.G, 0)...))
	}
	for _, r := range rules {
		h.text += strings.Join(r, " ") + ";\n"
	}
	for i := range c.Marks {
		if c.Marks[i].Mute == 0 {
			h.table["$"+c.Marks[i].Name] = h.function(i)
		}
	}
	return h, safely(func() (err error) {
		if c.maps != nil {
			s := newMapScanner(c.maps)
			h.eng, err = interpreter.New(h, &interpreter.Options{Scanner: s, ScanMode: tpl.ScanMode(c.Mode)})
			s.armed = true
			return
		}
		h.eng, err = kind.make(h, tpl.ScanMode(c.Mode))
		return
	})
}

// function makes the function of mark i.
func (h *host) function(i int) interface{} {
	m := h.c.Marks[i]
	var in, out []reflect.Type
	switch m.Recv {
	case "stk":
		in = append(in, tStk)
	case "ipt":
		in = append(in, tHost)
	}
	if m.Arg != "" {
		in = append(in, argTyp[m.Arg])
	}
	if m.Ctx {
		in = append(in, tCtx)
	}
	for _, t := range m.In {
		in = append(in, argTyp[t])
	}
	for range m.Out {
		out = append(out, argTyp["float64"])
	}
	if m.Ret {
		out = append(out, tErr)
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
		return h.called(i, args, out)
	}).Interface()
}

func (h *host) index(p gotoken.Pos) string {
	if k, ok := h.off[int(p)-h.base]; ok {
		return fmt.Sprint(k)
	}
	return fmt.Sprintf("?%d", p)
}

func (h *host) span(toks []tpl.Token) string {
	if len(toks) == 0 {
		return "[]"
	}
	return fmt.Sprintf("[%s+%d]", h.index(toks[0].Pos), len(toks))
}

func (h *host) called(i int, args []reflect.Value, out []reflect.Type) []reflect.Value {
	m := h.c.Marks[i]
	var b strings.Builder
	fmt.Fprintf(&b, "%s(", m.Name)
	var ctx *iutil.Context
	for k, a := range args {
		if k == 0 && m.Recv != "" {
			if x := a.Interface(); x != interface{}(h) && x != interface{}(h.stk) {
				b.WriteString("!receiver ")
			}
			continue
		}
		switch x := a.Interface().(type) {
		case nil:
			b.WriteString("nil ")
		case []tpl.Token:
			b.WriteString(h.span(x) + " ")
		case *iutil.Context:
			ctx = x
			toks, ok := x.Src.([]tpl.Token)
			if !ok {
				b.WriteString("!src ")
			}
			fmt.Fprintf(&b, "ctx%s ", h.span(toks))
			if len(toks) > 0 {
				fl := x.Engine.FileLine(x.Src)
				fmt.Fprintf(&b, "%d:%d %q %q:%d ", int(x.Pos)-h.base, int(x.End)-h.base, x.Engine.Source(x.Src), fl.File, fl.Line)
			}
			if x.Engine != iutil.Engine(h.eng) {
				b.WriteString("!engine ")
			}
		case iutil.Engine:
			if x == iutil.Engine(h.eng) {
				b.WriteString("engine ")
			} else {
				b.WriteString("!engine ")
			}
		case float64:
			fmt.Fprintf(&b, "float64 %x ", math.Float64bits(x))
		default:
			fmt.Fprintf(&b, "%T %v ", x, x)
		}
	}
	b.WriteString(")")
	h.log = append(h.log, b.String())
	if h.onCall != nil {
		h.onCall()
	}
	if len(h.log) > 200000 {
		panic("harness: too many calls")
	}
	n := h.calls[i]
	h.calls[i]++
	if m.Push {
		h.stk.vals = append(h.stk.vals, float64(100*(i+1)+n))
	}
	var err error
	if m.Code != "" && h.depth < 3 {
		h.depth++
		depth, held := h.depth, false
		func() {
			defer func() {
				if m.Hold {
					held = recover() != nil
				}
			}()
			err = h.eng.EvalCode(h, m.Code, ctx.Src)
		}()
		h.depth = depth - 1
		if held {
			err = nil
			h.log = append(h.log, m.Code+" held")
		} else {
			h.log = append(h.log, fmt.Sprintf("%s %v", m.Code, err == nil))
		}
		if !m.Give {
			err = nil
		}
	}
	if m.Fail != "" && n == m.At {
		e := error(&hostErr{i})
		if m.Fail == "match" {
			e = &tpl.MatchError{Grammar: tpl.GrTrue, Ctx: h.eng}
		}
		h.errs = append(h.errs, e)
		switch m.Fail {
		case "ret":
			err = e
		case "string":
			panic(e.Error())
		default:
			panic(e)
		}
	}
	var res []reflect.Value
	for k, t := range out {
		if t == tErr {
			if err == nil {
				res = append(res, reflect.Zero(tErr))
			} else {
				res = append(res, reflect.ValueOf(&err).Elem())
			}
		} else {
			res = append(res, reflect.ValueOf(float64(1000*(i+1)+10*n+k)))
		}
	}
	return res
}

type hostErr struct{ i int }

// the text of an error is the host's: it may be anything
var hostErrForms = []string{"failure of mark %d", "\n mark %d failed\n", "line 7: mark %d", "%%!d %%s mark %d: \xff", " %d ", "runtime error: mark %d\r\n\ttab", "%.0d"}

func (e *hostErr) Error() string { return fmt.Sprintf(hostErrForms[e.i%len(hostErrForms)], e.i) }

// ---------------------------------------------------------------- the model

// hostModel replays the events of the reference match.
type hostModel struct {
	c     HostCase
	toks  []PTok
	rt    []RTok
	src   string
	fname string
	log   []string
	calls []int
	stk   []interface{}
	depth int
	steps int
	held  int
}

// outcome of an evaluation
type hostOut struct {
	kind string // ok, match, abort, run (a runtime error), pass (a match error from an action)
	mark int    // the failing mark
	how  string // ret, error, string, conv, stack
	tok  int    // its first token, -1 if it has none
	err  error
}

type hostSkip struct{}

func (m *hostModel) eval(rule string, from, to int, whole bool) *hostOut {
	ref, ok := refMatch(m.c.Gram, m.c.Gram.rule(rule), m.toks[from:to], stepsFor(m.toks)/4-m.steps)
	if m.steps += ref.Steps + 1; !ok {
		panic(hostSkip{})
	}
	mute := 0
	for _, e := range ref.Evs {
		if e.K != "act" {
			continue
		}
		if o := m.act(e, from, &mute); o != nil {
			return o
		}
	}
	switch {
	case ref.Abort:
		return &hostOut{kind: "abort"}
	case !ref.OK || ref.N < to-from:
		return &hostOut{kind: "match"}
	}
	return &hostOut{kind: "ok"}
}

func (m *hostModel) span(s, n int) string {
	if n == 0 {
		return "[]"
	}
	return fmt.Sprintf("[%d+%d]", s, n)
}

func (m *hostModel) line(tok int) int { return 1 + strings.Count(m.src[:m.toks[tok].Start], "\n") }

func (m *hostModel) ctx(s, n int) string {
	if n == 0 {
		return "ctx[] "
	}
	end := len(m.src)
	if s+n < len(m.toks) {
		end = m.toks[s+n].Start
	}
	return fmt.Sprintf("ctx%s %d:%d %q %q:%d ", m.span(s, n), m.toks[s].Start, m.toks[s+n-1].End, m.src[m.toks[s].Start:end], m.fname, m.line(s))
}

func (m *hostModel) act(e Ev, from int, mute *int) *hostOut {
	i := e.ID - 1
	h := m.c.Marks[i]
	if h.Mute != 0 {
		*mute += h.Mute
		if *mute < 0 {
			panic(hostSkip{}) // more _unmute than _mute: not specified
		}
		return nil
	}
	if *mute > 1 || *mute == 1 && !strings.HasPrefix(h.Name, "_") {
		return nil
	}
	s, n := from+e.Start, e.N
	fail := func(how string, err error) *hostOut {
		o := &hostOut{kind: "run", mark: i, how: how, tok: s, err: err}
		if n == 0 {
			o.tok = -1
		}
		return o
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s(", h.Name)
	switch h.Arg {
	case "":
	case "any":
		if n == 0 {
			b.WriteString("nil ")
		} else {
			b.WriteString(m.span(s, n) + " ")
		}
	case "ctx":
		b.WriteString(m.ctx(s, n))
	case "eng":
		b.WriteString("engine ")
	case "len":
		fmt.Fprintf(&b, "int %d ", e.Len)
	default:
		if n == 0 {
			return fail("conv", nil)
		}
		v, ok := convert(m.rt[s], h.Arg)
		if !ok {
			return fail("conv", nil)
		}
		b.WriteString(v)
	}
	if h.Ctx {
		b.WriteString(m.ctx(s, n))
	}
	if h.Recv == "" {
		k := len(m.stk) - len(h.In)
		if k < 0 {
			return fail("stack", iutil.ErrStackDamaged)
		}
		for _, v := range m.stk[k:] {
			fmt.Fprintf(&b, "float64 %x ", math.Float64bits(v.(float64)))
		}
		m.stk = m.stk[:k:k]
	}
	b.WriteString(")")
	m.log = append(m.log, b.String())
	if len(m.log) > 100000 {
		panic(hostSkip{})
	}
	call := m.calls[i]
	m.calls[i]++
	if h.Push {
		m.stk = append(m.stk, float64(100*(i+1)+call))
	}
	var inner *hostOut
	if h.Code != "" && m.depth < 3 {
		m.depth++
		inner = m.eval(h.Code, s, s+n, false)
		m.depth--
		switch {
		case inner.kind == "ok" || inner.kind == "match":
			m.log = append(m.log, fmt.Sprintf("%s %v", h.Code, inner.kind == "ok"))
		case h.Hold:
			m.held++
			inner = nil
			m.log = append(m.log, h.Code+" held")
		default:
			return inner
		}
	}
	if h.Fail != "" && call == h.At {
		if h.Fail == "match" {
			return &hostOut{kind: "pass", mark: i}
		}
		return fail(h.Fail, &hostErr{i})
	}
	if inner != nil && inner.kind == "match" && h.Give {
		return &hostOut{kind: "abort"} // a match error passes unchanged
	}
	for k := range h.Out {
		m.stk = append(m.stk, float64(1000*(i+1)+10*call+k))
	}
	return nil
}

// convert is the text of a token as a value of type typ.
func convert(t RTok, typ string) (string, bool) {
	if typ == "string" {
		if t.Newline {
			panic(hostSkip{}) // the text of an inserted semicolon isn't specified
		}
		return fmt.Sprintf("string %s ", t.Lit), true
	}
	switch t.Kind {
	case kINT, kFLOAT:
	case kIDENT:
		switch strings.ToLower(t.Lit) {
		case "inf", "infinity", "nan":
			panic(hostSkip{})
		}
		return "", false
	default:
		return "", false
	}
	if typ == "float64" {
		f, err, either := floatLit(t.Kind, t.Lit)
		if either {
			panic(hostSkip{})
		}
		return fmt.Sprintf("float64 %x ", math.Float64bits(f)), err == nil
	}
	if t.Kind == kFLOAT {
		return "", false
	}
	v := intLit(t.Lit)
	return fmt.Sprintf("%s %s ", typ, v), v.IsInt64()
}

// ---------------------------------------------------------------- comparing

func (h *host) run(s HostStep) (err error, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			var ok bool
			if err, ok = e.(error); !ok {
				panic(e)
			}
			panicked = true
		}
	}()
	if s.Rule != "" {
		return h.eng.EvalSub(s.Rule, string(s.Src)), false
	}
	return h.eng.MatchExactly([]byte(s.Src), s.Fname), false
}

func checkHost(c HostCase, x *Ctx) error { return checkHostOf(c, libraryEngine, x) }

func checkHostOf(c HostCase, kind engineKind, x *Ctx) error {
	h, err := newHostOf(c, kind)
	if err != nil {
		return failf("interpreter.New refuses the interpreter: %v\n%s", err, h.text)
	}
	did := 0
	var kept []error
	var texts []string
	for i, s := range c.Steps {
		src := string(s.Src)
		mode := tpl.ScanMode(c.Mode)
		toks, ok := pegToks(src, mode, c.Gram.keywords())
		if !ok {
			panic("harness: lexical error in " + src)
		}
		if s.Rule != "" {
			s.Fname = ""
		}
		rt := withoutComments(refLex(src, mode&tpl.InsertSemis != 0).Toks)
		if c.maps != nil {
			all := rt
			var keep []int
			toks, keep = mapToks(c.maps, src, toks)
			rt = nil
			for _, k := range keep {
				rt = append(rt, all[k])
			}
		}
		m := &hostModel{c: c, toks: toks, rt: rt, src: src, fname: s.Fname, calls: make([]int, len(c.Marks))}
		rule := s.Rule
		if rule == "" {
			rule = "doc"
		}
		var want *hostOut
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(hostSkip); !ok {
						panic(e)
					}
				}
			}()
			want = m.eval(rule, 0, len(toks), true)
		}()
		h.log, h.errs, h.depth, h.stk.vals = nil, nil, 0, nil
		h.calls = make([]int, len(c.Marks))
		h.off, h.base = map[int]int{}, 1
		for k, t := range toks {
			h.off[t.Start] = k
		}
		if want == nil {
			x.Class("evaluation not specified, or too many steps")
			continue
		}
		did++
		got, panicked := h.run(s)
		where := fmt.Sprintf("step %d %q: ", i, src)
		for k := 0; k < len(h.log) || k < len(m.log); k++ {
			switch {
			case k >= len(h.log):
				return failf("%smark %d: %s doesn't run (outcome %v)", where, k, m.log[k], got)
			case k >= len(m.log):
				return failf("%smark %d: %s runs in addition", where, k, h.log[k])
			case h.log[k] != m.log[k]:
				return failf("%smark %d: runs as %s, want %s", where, k, h.log[k], m.log[k])
			}
		}
		if err := sameHostOutcome(h, m, want, got, panicked); err != nil {
			return failf("%s%v", where, err)
		}
		if len(h.stk.vals) != len(m.stk) || len(m.stk) > 0 && !reflect.DeepEqual(h.stk.vals, m.stk) {
			return failf("%sstack is %v, want %v", where, h.stk.vals, m.stk)
		}
		if _, ok := kind.cause(got); ok {
			kept, texts = append(kept, got), append(texts, got.Error())
		}
		x.Class("outcome " + want.kind)
		x.ClassIf(want.how != "", "failure: "+want.how)
		for k, hm := range c.Marks {
			if m.calls[k] > 0 {
				x.NonTrivial()
				x.ClassIf(hm.Code != "", "code evaluated by an action")
				x.ClassIf(hm.Recv == "", "plain function")
				x.ClassIf(m.calls[k] > 3, "mark run over 3 times")
			}
		}
		x.ClassIf(m.held > 0, "action recovers from the panic of the code")
		x.ClassIf(i > 0, "later evaluation")
	}
	for i, e := range kept {
		if text := e.Error(); text != texts[i] {
			return failf("the runtime error %q becomes %q after another evaluation", texts[i], text)
		}
	}
	if did == 0 {
		return errSkip
	}
	return nil
}

func sameHostOutcome(h *host, m *hostModel, want *hostOut, got error, panicked bool) error {
	if want.kind == "ok" {
		if got != nil {
			return failf("fails: %v", got)
		}
		return nil
	}
	if got == nil {
		return failf("succeeds, want %s", want.kind)
	}
	cause, isRun := h.kind.cause(got)
	_, isMatch := got.(*tpl.MatchError)
	switch want.kind {
	case "abort", "match":
		if !isMatch {
			return failf("error is %T %v, want a match error", got, got)
		}
		_ = got.Error()
		return nil
	case "pass":
		if got != h.errs[len(h.errs)-1] {
			return failf("error is %T %v, want the match error of the action", got, got)
		}
		return nil
	}
	if !isRun {
		return failf("error is %T %v, want a runtime error", got, got)
	}
	if cause == nil {
		return failf("runtime error without its cause")
	}
	switch want.how {
	case "ret", "error":
		if cause != h.errs[len(h.errs)-1] {
			return failf("cause is %T %v, want the original error", cause, cause)
		}
	case "string":
		if cause.Error() != want.err.Error() {
			return failf("cause is %q, want %q", cause, want.err)
		}
	case "stack":
		if !strings.Contains(cause.Error(), want.err.Error()) {
			return failf("cause is %q, want %q", cause, want.err)
		}
	}
	msg := got.Error()
	tail := "runtime error: " + cause.Error()
	if !strings.HasSuffix(msg, tail) {
		return failf("error text %q doesn't end with %q", msg, tail)
	}
	if want.tok >= 0 {
		head := fmt.Sprintf("line %d: ", m.line(want.tok))
		if m.fname != "" {
			head = fmt.Sprintf("%s:%d: ", m.fname, m.line(want.tok))
		}
		if msg != head+tail {
			return failf("error text %q, want %q", msg, head+tail)
		}
	}
	return nil
}

// ---------------------------------------------------------------- refusals

// RefuseCase is an interpreter with one function or mark that can't work, or none.
type RefuseCase struct {
	Kind  string
	Recv  string
	Name  string
	Place int
}

var refuseKinds = []string{"", "not a function: int", "not a function: string", "not a function: struct", "variadic", "no parameters", "too many parameters", "too many results", "result isn't an error", "unknown mark", "unknown _mark"}

func genRefuse(t *rapid.T) RefuseCase {
	return RefuseCase{pick(t, refuseKinds), pick(t, []string{"stk", "ipt"}), pick(t, []string{"m", "_m", "M", "_M", "push", "x1"}), intn(t, 4)}
}

func checkRefuse(c RefuseCase, x *Ctx) error {
	h := &host{table: map[string]interface{}{}}
	h.stk = &hostStack{h: h}
	recv := tStk
	if c.Recv == "ipt" {
		recv = tHost
	}
	second := tAny
	if n := strings.TrimPrefix(c.Name, "_"); n[0] >= 'A' && n[0] <= 'Z' {
		second = argTyp["int"]
	}
	in, out, variadic := []reflect.Type{recv, second}, []reflect.Type{tErr}, false
	name := c.Name
	switch c.Kind {
	case "variadic":
		in, variadic = []reflect.Type{recv, reflect.TypeOf([]int{})}, true
	case "no parameters":
		in = nil
	case "too many parameters":
		in = append(in, tCtx, tAny)
	case "too many results":
		out = append(out, tErr)
	case "result isn't an error":
		out = []reflect.Type{reflect.TypeOf(0)}
	case "unknown mark":
		name = "other"
	case "unknown _mark":
		name = "_other"
	}
	h.table["$"+c.Name] = reflect.MakeFunc(reflect.FuncOf(in, out, variadic), func([]reflect.Value) []reflect.Value { return nil }).Interface()
	switch c.Kind {
	case "not a function: int":
		h.table["$"+c.Name] = 1
	case "not a function: string":
		h.table["$"+c.Name] = "f"
	case "not a function: struct":
		h.table["$"+c.Name] = struct{}{}
	}
	body := []string{"IDENT/%s", "INT | *(IDENT/%s)", "a; a = INT IDENT/%s", "?(IDENT/%s % ',')"}[c.Place]
	h.text = "doc = " + strings.Replace(body, "%s", name, 1)
	var eng *interpreter.Engine
	err := safely(func() (err error) {
		eng, err = interpreter.New(h, nil)
		return
	})
	if (err != nil) != (c.Kind != "") {
		return failf("%s with %q: interpreter.New gives %v", h.text, c.Kind, err)
	}
	if err != nil && err.Error() == "" {
		return errors.New("empty error")
	}
	x.NonTrivialIf(c.Kind != "")
	x.Class("kind: " + c.Kind)
	_ = eng
	return nil
}

// ---------------------------------------------------------------- literals (I09)

// LitCase is a literal.
type LitCase struct{ Lit string }

func genLit(t *rapid.T) LitCase {
	switch weighted(t, 3, 3, 3, 2, 1, 2) {
	case 0:
		return LitCase{genInt(t)}
	case 1:
		return LitCase{genFloat(t)}
	case 2:
		return LitCase{bigBoundary(t)}
	case 3:
		return LitCase{genNumLit(t, calcs["number"])}
	case 4:
		return LitCase{genImag(t)}
	}
	// a float near the middle of two doubles, or near the ends of the range
	f := math.Float64frombits(rapid.Uint64().Draw(t, "bits") &^ (1 << 63))
	if math.IsInf(f, 0) || f != f || f == 0 {
		f = math.MaxFloat64
	}
	r := new(big.Float).SetPrec(3000).SetFloat64(f)
	if g := math.Nextafter(f, math.Inf(1)); !math.IsInf(g, 0) && chance(t, 70) {
		r.Add(r, new(big.Float).SetPrec(3000).SetFloat64(g))
		r.Quo(r, big.NewFloat(2))
	}
	return LitCase{r.Text('e', pick(t, []int{15, 16, 17, 18, 25, 60, 800}))}
}

func checkLit(c LitCase, x *Ctx) error {
	r := refLex(c.Lit, false)
	if len(r.Errs) > 0 || len(r.Toks) != 1 || r.Toks[0].Kind != kINT && r.Toks[0].Kind != kFLOAT && r.Toks[0].Kind != kIMAG {
		return errSkip
	}
	kind := r.Toks[0].Kind
	x.NonTrivialIf(len(c.Lit) > 1)
	// integers
	var want int64
	ok := false
	if kind == kINT {
		v := intLit(c.Lit)
		want, ok = v.Int64(), v.IsInt64()
		x.ClassIf(!ok, "integer out of range")
		x.ClassIf(ok && want > 1<<53, "integer over 53 bits")
	}
	for _, typ := range []string{"ParseInt", "int64", "int"} {
		var got int64
		var err error
		if typ == "ParseInt" {
			got, err = interpreter.ParseInt(c.Lit)
		} else {
			var v reflect.Value
			if v, err = interpreter.GetValue(argTyp[typ], c.Lit); err == nil {
				if v.Type() != argTyp[typ] {
					return failf("GetValue(%s, %q) is a %v", typ, c.Lit, v.Type())
				}
				got = v.Int()
			}
		}
		if (err == nil) != ok || ok && got != want {
			return failf("%s %q: %d, %v; want %d, ok %v", typ, c.Lit, got, err, want, ok)
		}
	}
	// floats
	var f float64
	var ferr error = errRange
	either := false
	if kind != kIMAG {
		f, ferr, either = floatLit(kind, c.Lit)
	}
	x.ClassIf(kind == kFLOAT && ferr == nil, "float")
	x.ClassIf(kind != kIMAG && ferr != nil, "float out of range")
	for _, typ := range []string{"ParseFloat", "float64"} {
		var got float64
		var err error
		if typ == "ParseFloat" {
			got, err = interpreter.ParseFloat(c.Lit)
		} else {
			var v reflect.Value
			if v, err = interpreter.GetValue(argTyp["float64"], c.Lit); err == nil {
				if v.Type() != argTyp["float64"] {
					return failf("GetValue(float64, %q) is a %v", c.Lit, v.Type())
				}
				got = v.Float()
			}
		}
		if either && err != nil {
			continue
		}
		if (err == nil) != (ferr == nil) || err == nil && math.Float64bits(got) != math.Float64bits(f) {
			return failf("%s %q: %s, %v; want %s, %v", typ, c.Lit, showFloat(got), err, showFloat(f), ferr)
		}
	}
	v, err := interpreter.GetValue(argTyp["string"], c.Lit)
	if err != nil || v.Kind() != reflect.String || v.String() != c.Lit {
		return failf("GetValue(string, %q): %v, %v", c.Lit, v, err)
	}
	for _, typ := range []reflect.Type{reflect.TypeOf(true), reflect.TypeOf(uint(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(float32(0)), reflect.TypeOf([]byte{})} {
		if _, err := interpreter.GetValue(typ, c.Lit); err == nil {
			return failf("GetValue(%v, %q) gives no error", typ, c.Lit)
		}
	}
	return nil
}

func init() {
	reg("I05", "mute", "grammars with nested mute marks, histories of matches; non-trivial: a mark runs", 20000, 700000,
		genHost(hostOpts{marks: 30, cuts: 4, mute: 25, free: 0, code: 6, steps: 3, onlyU: 40}), checkHost)
	reg("I05", "unpaired", "grammars with unpaired mute marks, histories of matches; non-trivial: a mark runs", 10000, 400000,
		genHost(hostOpts{marks: 45, cuts: 4, mute: 8, free: 12, code: 6, steps: 4, onlyU: 40}), checkHost)
	reg("I05", "left", "grammars with nested mute marks whose actions evaluate code that fails and recover from that; non-trivial: a mark runs", 12000, 500000,
		genHost(hostOpts{marks: 35, cuts: 12, mute: 20, fail: 25, code: 25, hold: 70, steps: 3, onlyU: 60}), checkHost)
	reg("I06", "signatures", "grammars whose marks have functions of any signature; non-trivial: a mark runs", 24000, 900000,
		genHost(hostOpts{marks: 35, cuts: 2, sigs: true, steps: 2, fnames: true, onlyU: 20}), checkHost)
	reg("I06", "refused", "ill-typed functions and unknown marks; non-trivial: one that must be refused", 4000, 40000, genRefuse, checkRefuse)
	reg("I07", "failures", "grammars with failing functions of any signature, on sources of several lines; non-trivial: a mark runs", 24000, 900000,
		genHost(hostOpts{marks: 35, cuts: 4, sigs: true, fail: 15, code: 8, hold: 25, mute: 3, steps: 3, fnames: true, onlyU: 20}), checkHost)
	reg("I08", "interpreters", "generated interpreters with failing functions, longer histories; non-trivial: a mark runs", 8000, 300000,
		genHost(hostOpts{marks: 30, cuts: 8, sigs: true, fail: 6, code: 6, hold: 40, mute: 8, steps: 7, fnames: true, onlyU: 20}), checkHost)
	reg("I09", "literals", "number literals of all forms; non-trivial: over one character", 60000, 3000000, genLit, checkLit)
}
