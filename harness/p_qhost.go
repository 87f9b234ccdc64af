package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/qlang"
	cl "github.com/qiniu/text/tpl/qlang/cl"
	qinterp "github.com/qiniu/text/tpl/qlang/cl/interpreter"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- Q11: interpreters written in qlang

func init() {
	qlang.Import("tplinterp", qinterp.Exports)
	qlang.Import("", map[string]interface{}{"hv_errorf": func(s string) error { return fmt.Errorf("%s", s) }})
}

// QMark is the function of a mark.
type QMark struct {
	Mute  int      `json:",omitempty"` // 1 _mute, -1 _unmute
	Name  string   // the mark
	Kind  string   `json:",omitempty"` // stk, ipt: a method; fn: a function of qlang; go: a Go function
	Arg   string   `json:",omitempty"` // argument of a method: "" (none), src, eng, len, float64, int, string
	Args  []string `json:",omitempty"` // parameters of a function
	Outs  int      `json:",omitempty"` // results of a Go function
	Val   string   `json:",omitempty"` // what is pushed by a method, or returned: "" (nothing), int, float64, string, nil
	Fail  string   `json:",omitempty"` // error, string: panic in Go; panic, undef, index, rte, perr: in qlang
	At    int      `json:",omitempty"` // the call that fails, from 0
	Code  string   `json:",omitempty"` // rule to be evaluated on the matched tokens
	Give  bool     `json:",omitempty"` // panics with the error of that
	Other bool     `json:",omitempty"` // with another receiver
}

// QHostCase is an interpreter written in qlang and a history of evaluations.
type QHostCase struct {
	Gram  *Gram
	Marks []QMark
	Mode  uint
	Semis bool     // of qlang
	Make  string   // go, qlang: where the interpreter is made
	Typed bool     // the stack holds float64 only
	Init  []string `json:",omitempty"` // kinds of the values on the stack at the start
	Steps []QHostStep
}

// QHostStep is one evaluation.
type QHostStep struct {
	HostStep
	Via string // exec, eval, qlang
}

func genQHost(t *rapid.T) QHostCase {
	hc := genHost(hostOpts{marks: 35, cuts: 4, mute: pick(t, []int{0, 0, 5, 20}), free: pick(t, []int{0, 0, 0, 12}), steps: 3, fnames: true, onlyU: 20})(t)
	c := QHostCase{Gram: hc.Gram, Mode: hc.Mode, Semis: chance(t, 50), Make: pick(t, []string{"go", "qlang"}), Typed: chance(t, 25)}
	if chance(t, 30) {
		c.Mode = uint(tpl.InsertSemis)
	}
	failing, code := pick(t, []int{0, 10, 25}), pick(t, []int{0, 0, 15})
	c.Init = tailed(t, 0, 8, 24, func(t *rapid.T) string {
		if c.Typed {
			return "float64"
		}
		return pick(t, []string{"float64", "float64", "int", "string", "nil"})
	})
	nodes := markNodes(hc.Gram)
	for i, h := range hc.Marks {
		m := QMark{Mute: h.Mute, Name: h.Name}
		if h.Mute == 0 {
			m = genQMark(t, nodes[i], strings.HasPrefix(h.Name, "_"), failing, c.Typed)
			if code > 0 && chance(t, code) {
				m = QMark{Name: "m" + fmt.Sprint(i+1) + "Src", Kind: pick(t, []string{"stk", "ipt"}), Arg: "src", Code: pick(t, c.Gram.Rules).Name, Give: chance(t, 40), Other: chance(t, 60)}
				if k := nodes[i].Kids[0]; k.Op == "ref" && chance(t, 80) {
					m.Code = k.Name
				}
			}
		}
		nodes[i].Name = m.Name
		c.Marks = append(c.Marks, m)
	}
	for _, s := range hc.Steps {
		st := QHostStep{s, pick(t, []string{"exec", "exec", "eval", "qlang"})}
		if st.Via == "eval" {
			st.Fname = ""
		}
		if st.Rule != "" {
			st.Via = "sub"
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func genQMark(t *rapid.T, node *G, private bool, failing int, typed bool) QMark {
	m := QMark{Kind: pick(t, []string{"stk", "ipt", "stk", "ipt", "fn", "go"})}
	prefix := ""
	if private {
		prefix = "_"
	}
	vals := []string{"int", "float64", "string", "nil", "float64"}
	if typed {
		vals = []string{"float64"}
	}
	suffix, stem := "", pick(t, []string{"m", "push", "é", "z"})
	switch m.Kind {
	case "stk", "ipt":
		m.Arg = pick(t, []string{"", "src", "src", "eng", "len", "string"})
		if k := node.Kids[0]; k.Op == "tok" && (k.T == "INT" || k.T == "FLOAT") && chance(t, 70) || chance(t, 2) {
			m.Arg = pick(t, []string{"int", "float64"})
		}
		if chance(t, 70) {
			m.Val = pick(t, vals)
		}
		switch m.Arg {
		case "":
			suffix = pick(t, []string{"", "", "Src", "Int", "Engine"})
			if chance(t, 15) {
				stem = "A"
			}
		case "len":
			stem, suffix = pick(t, []string{"A", "ARITY", "Z", "Len"}), pick(t, []string{"", "", "Src", "Float"})
		case "src":
			suffix = pick(t, []string{"Src", "XSrc"})
		case "eng":
			suffix = pick(t, []string{"Engine", "SrcEngine"})
		case "int":
			suffix = pick(t, []string{"Int", "FloatInt"})
		case "float64":
			suffix = pick(t, []string{"Float", "IntFloat"})
		case "string":
			suffix = pick(t, []string{"", "", "Text", "SrcX", "FLOAT", "src"})
		}
	case "fn":
		m.Args = tailed(t, 1, 4, 9, func(t *rapid.T) string { return "any" })
		m.Val = pick(t, vals)
		if chance(t, 10) && !typed {
			m.Val = "" // no result
		}
		suffix = pick(t, []string{"", "", "Src", "Int"})
	case "go":
		m.Args = tailed(t, 1, 4, 9, func(t *rapid.T) string { return pick(t, []string{"any", "float64", "float64", "int", "string"}) })
		if typed {
			for i := range m.Args {
				m.Args[i] = pick(t, []string{"any", "float64"})
			}
		}
		m.Outs = weighted(t, 1, 6, 1)
		m.Val = pick(t, vals)
		if typed && m.Outs == 0 {
			m.Outs = 1
		}
	}
	m.Name = fmt.Sprintf("%s%s%d%s", prefix, stem, node.ID, suffix)
	if chance(t, failing) {
		m.Fail, m.At = pick(t, []string{"error", "string", "panic", "undef", "index", "rte", "perr"}), intn(t, 3)
		if m.Kind == "go" {
			m.Fail = pick(t, []string{"error", "string"})
		}
	}
	return m
}

// qhost is the real interpreter.
type qhost struct {
	c     QHostCase
	lang  qlang.Qlang
	eng   *qinterp.Engine
	log   []string
	calls []int
	depth int
	off   map[int]int

	onCall func()
}

func qhostVal(m QMark, i, call int) interface{} {
	n := 100*(i+1) + call
	switch m.Val {
	case "int":
		return n
	case "float64":
		return float64(n) + 0.5
	case "string":
		return fmt.Sprint("v", n)
	}
	return nil
}

func (h *qhost) show(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case []tpl.Token:
		if len(v) == 0 {
			return "[]"
		}
		k, ok := h.off[int(v[0].Pos)-1]
		if !ok {
			return fmt.Sprintf("[?%d+%d]", v[0].Pos, len(v))
		}
		return fmt.Sprintf("[%d+%d]", k, len(v))
	case *qinterp.Engine:
		if v == h.eng {
			return "engine"
		}
	case float64:
		return fmt.Sprintf("float64 %x", math.Float64bits(v))
	case int:
		return fmt.Sprintf("int %d", v)
	case string:
		return fmt.Sprintf("string %s", v)
	}
	return fmt.Sprintf("%T %v", v, v)
}

// rec is called by all functions.
func (h *qhost) rec(i int, recv string, args ...interface{}) interface{} {
	m := h.c.Marks[i]
	parts := []string{}
	for _, a := range args {
		parts = append(parts, h.show(a))
	}
	h.log = append(h.log, fmt.Sprintf("%s@%s(%s)", m.Name, recv, strings.Join(parts, ", ")))
	if h.onCall != nil {
		h.onCall()
	}
	if len(h.log) > 100000 {
		panic("harness: too many calls")
	}
	n := h.calls[i]
	h.calls[i]++
	if m.Fail != "" && n == m.At {
		switch m.Fail {
		case "error":
			panic(&hostErr{i})
		case "string":
			panic((&hostErr{i}).Error())
		}
	}
	return qhostVal(m, i, n)
}

func (h *qhost) failing(i int) bool {
	m := h.c.Marks[i]
	return m.Fail != "" && h.calls[i]-1 == m.At
}

func (h *qhost) goFunc(i int) interface{} {
	m := h.c.Marks[i]
	var in, out []reflect.Type
	for _, a := range m.Args {
		in = append(in, argTyp[a])
	}
	for k := 0; k < m.Outs; k++ {
		out = append(out, tAny)
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, false), func(args []reflect.Value) []reflect.Value {
		var vs []interface{}
		for _, a := range args {
			vs = append(vs, a.Interface())
		}
		r := h.rec(i, "go", vs...)
		var res []reflect.Value
		for k := range out {
			v := reflect.New(tAny).Elem()
			if k > 0 {
				v.Set(reflect.ValueOf("ignored"))
			} else if r != nil {
				v.Set(reflect.ValueOf(r))
			}
			res = append(res, v)
		}
		return res
	}).Interface()
}

func (h *qhost) program() string {
	var stk, ipt, fns, table []string
	for i, m := range h.c.Marks {
		if m.Mute != 0 {
			continue
		}
		key := strconv.Quote("$" + m.Name)
		var body []string
		switch m.Kind {
		case "stk", "ipt":
			params, args := "", fmt.Sprintf("%d, this.id", i)
			if m.Arg != "" {
				params = "x"
				args += ", x"
			}
			body = append(body, "_v = rec("+args+")")
			switch m.Fail {
			case "panic":
				body = append(body, fmt.Sprintf("if failing(%d) { panic(%q) }", i, (&hostErr{i}).Error()))
			case "undef":
				body = append(body, fmt.Sprintf("if failing(%d) { hv_no_such_symbol }", i))
			case "index":
				body = append(body, fmt.Sprintf("if failing(%d) { [1][7] }", i))
			case "rte":
				body = append(body, fmt.Sprintf("if failing(%d) { panic(tplinterp.newRuntimeError(%q)) }", i, (&hostErr{i}).Error()))
			case "perr":
				body = append(body, fmt.Sprintf("if failing(%d) { panic(hv_errorf(%q)) }", i, (&hostErr{i}).Error()))
			}
			if m.Code != "" {
				recv := map[bool]string{true: "other", false: "calc"}[m.Other]
				body = append(body, fmt.Sprintf("if enter() { _e = engv.evalCode(%s, %q, x); if leave(%d, _e) { panic(_e) } }", recv, m.Code, i))
			}
			if m.Val != "" {
				if m.Kind == "stk" {
					body = append(body, "this.push(_v)")
				} else {
					body = append(body, "stk.push(_v)")
				}
			}
			f := fmt.Sprintf("fn f%d(%s) { %s }", i, params, strings.Join(body, "; "))
			if m.Kind == "stk" {
				stk = append(stk, f)
				table = append(table, fmt.Sprintf("%s: Stack.f%d", key, i))
			} else {
				ipt = append(ipt, f)
				table = append(table, fmt.Sprintf("%s: Calc.f%d", key, i))
			}
		case "fn":
			var ps []string
			for k := range m.Args {
				ps = append(ps, fmt.Sprint("a", k))
			}
			body = append(body, fmt.Sprintf("_v = rec(%d, \"fn\", %s)", i, strings.Join(ps, ", ")))
			switch m.Fail {
			case "panic":
				body = append(body, fmt.Sprintf("if failing(%d) { panic(%q) }", i, (&hostErr{i}).Error()))
			case "undef":
				body = append(body, fmt.Sprintf("if failing(%d) { hv_no_such_symbol }", i))
			case "index":
				body = append(body, fmt.Sprintf("if failing(%d) { [1][7] }", i))
			case "rte":
				body = append(body, fmt.Sprintf("if failing(%d) { panic(tplinterp.newRuntimeError(%q)) }", i, (&hostErr{i}).Error()))
			case "perr":
				body = append(body, fmt.Sprintf("if failing(%d) { panic(hv_errorf(%q)) }", i, (&hostErr{i}).Error()))
			}
			if m.Val != "" {
				body = append(body, "return _v")
			}
			fns = append(fns, fmt.Sprintf("f%d = fn(%s) { %s }", i, strings.Join(ps, ", "), strings.Join(body, "; ")))
			table = append(table, fmt.Sprintf("%s: f%d", key, i))
		case "go":
			table = append(table, fmt.Sprintf("%s: g%d", key, i))
		}
	}
	data := "[]"
	if h.c.Typed {
		data = `slice("float")`
	}
	end := ";\n"
	if h.c.Semis {
		end = "\n"
	}
	stk = append(stk,
		`fn _init(id) { set(this, "id", id, "data", `+data+`) }`,
		`fn push(v) { set(this, "data", append(this.data, v)) }`,
		`fn popArgs(n) { k = len(this.data) - n; if k < 0 { panic("stack damaged") }; args = this.data[k:]; set(this, "data", this.data[:k]); return args }`)
	ipt = append(ipt,
		`fn _init(id) { set(this, "id", id) }`,
		`fn grammar() { return gtext }`,
		`fn stack() { return stk }`,
		`fn fntable() { return {`+strings.Join(table, ", ")+`} }`)
	prog := []string{
		"Stack = class {\n\t" + strings.Join(stk, "\n\t") + "\n}",
		"stk = new Stack(\"S\")",
	}
	prog = append(prog, fns...)
	prog = append(prog,
		"Calc = class {\n\t"+strings.Join(ipt, "\n\t")+"\n}",
		"calc = new Calc(\"I\")", "other = new Calc(\"J\")")
	if h.c.Make == "qlang" {
		opt := "plain"
		if h.c.Mode == uint(tpl.InsertSemis) {
			opt = "tplinterp.insertSemis"
		}
		prog = append(prog, "made = tplinterp.interpreter(calc, "+opt+")")
	}
	return strings.Join(prog, end)
}

func newQHost(c QHostCase) (*qhost, error) {
	h := &qhost{c: c, calls: make([]int, len(c.Marks))}
	var err error
	if h.lang, err = newQlang(c.Semis); err != nil {
		return nil, err
	}
	var text string
	for _, r := range c.Gram.Rules {
		text += strings.Join(append([]string{r.Name, "="}, (&renderer{}).lex(r.G, 0)...), " ") + ";\n"
	}
	h.lang.SetVar("gtext", text)
	h.lang.SetVar("rec", h.rec)
	h.lang.SetVar("failing", h.failing)
	h.lang.SetVar("plain", (*qinterp.Options)(nil))
	h.lang.SetVar("enter", func() bool {
		if h.depth >= 3 {
			return false
		}
		h.depth++
		return true
	})
	h.lang.SetVar("leave", func(i int, err error) bool {
		h.depth--
		h.log = append(h.log, fmt.Sprintf("%s %v", c.Marks[i].Code, err == nil))
		return err != nil && c.Marks[i].Give
	})
	for i, m := range c.Marks {
		if m.Kind == "go" {
			h.lang.SetVar(fmt.Sprint("g", i), h.goFunc(i))
		}
	}
	prog := h.program()
	if err := h.lang.SafeExec([]byte(prog), "host.ql"); err != nil {
		return nil, fmt.Errorf("the program that defines the interpreter: %v\n%s", err, prog)
	}
	if c.Make == "qlang" {
		made, ok := h.lang.Var("made")
		if !ok {
			return nil, failf("no result")
		}
		v, ok := made.([]interface{})
		if !ok || len(v) != 2 {
			return nil, failf("interpreter() returns %v", made)
		}
		if v[1] != nil {
			return nil, fmt.Errorf("interpreter(): %v", v[1])
		}
		h.eng = v[0].(*qinterp.Engine)
	} else {
		obj, _ := h.lang.Var("calc")
		if h.eng, err = qinterp.New(obj, &qinterp.Options{ScanMode: tpl.ScanMode(c.Mode)}); err != nil {
			return nil, err
		}
	}
	if h.eng == nil {
		return nil, failf("interpreter is nil")
	}
	h.lang.SetVar("engv", h.eng)
	return h, nil
}

func (h *qhost) run(s QHostStep) error {
	switch s.Via {
	case "eval":
		return h.eng.Eval(string(s.Src))
	case "sub":
		obj, _ := h.lang.Var("calc")
		return safely(func() error { return h.eng.EvalCode(obj.(*cl.Object), s.Rule, []byte(s.Src)) })
	case "qlang":
		h.lang.SetVar("code", []byte(s.Src))
		if err := h.lang.SafeExec([]byte(fmt.Sprintf("result = engv.exec(code, %q)", s.Fname)), ""); err != nil {
			return fmt.Errorf("engv.exec fails instead of giving its error: %v", err)
		}
		v, _ := h.lang.Var("result")
		if v == nil {
			return nil
		}
		return v.(error)
	}
	return h.eng.Exec([]byte(s.Src), s.Fname)
}

// qhostModel replays the events of the reference match.
type qhostModel struct {
	c     QHostCase
	toks  []PTok
	rt    []RTok
	log   []string
	calls []int
	stk   []interface{}
	depth int
	steps int
	recv  string
	h     *qhost
}

// eval gives "" for success, or what fails; msg is what the error says at least.
func (m *qhostModel) eval(rule string, from, to int) (kind, msg string) {
	ref, ok := refMatch(m.c.Gram, m.c.Gram.rule(rule), m.toks[from:to], refSteps/20-m.steps)
	if m.steps += ref.Steps + 1; !ok {
		panic(hostSkip{})
	}
	mute := 0
	for _, e := range ref.Evs {
		if e.K == "act" {
			if kind, msg = m.act(e, from, &mute); kind != "" {
				return
			}
		}
	}
	switch {
	case ref.Abort:
		return "abort", ""
	case !ref.OK || ref.N < to-from:
		return "match", ""
	}
	return "", ""
}

func (m *qhostModel) push(v interface{}) {
	if _, ok := v.(float64); m.c.Typed && !ok {
		panic(hostSkip{})
	}
	m.stk = append(m.stk, v)
}

func (m *qhostModel) act(e Ev, from int, mute *int) (kind, msg string) {
	i := e.ID - 1
	q := m.c.Marks[i]
	if q.Mute != 0 {
		if *mute += q.Mute; *mute < 0 {
			panic(hostSkip{}) // more _unmute than _mute: not specified
		}
		return
	}
	if *mute > 1 || *mute == 1 && !strings.HasPrefix(q.Name, "_") {
		return
	}
	s, n := from+e.Start, e.N
	call := m.calls[i]
	text := (&hostErr{i}).Error()
	var parts []string
	recv := q.Kind
	switch q.Kind {
	case "stk", "ipt":
		recv = map[string]string{"stk": "S", "ipt": m.recv}[q.Kind]
		switch q.Arg {
		case "":
		case "src":
			if n == 0 {
				if q.Code != "" {
					panic(hostSkip{}) // no source to evaluate
				}
				parts = append(parts, "nil")
			} else {
				parts = append(parts, fmt.Sprintf("[%d+%d]", s, n))
			}
		case "eng":
			parts = append(parts, "engine")
		case "len":
			parts = append(parts, fmt.Sprintf("int %d", e.Len))
		default:
			if n == 0 {
				return "conv", ""
			}
			v, ok := convert(m.rt[s], q.Arg)
			if !ok {
				return "conv", ""
			}
			parts = append(parts, v[:len(v)-1])
		}
	default:
		k := len(m.stk) - len(q.Args)
		if k < 0 {
			return "stack", "stack damaged"
		}
		args := m.stk[k:]
		m.stk = m.stk[:k:k]
		for j, v := range args {
			switch t := q.Args[j]; {
			case t == "any":
			case v == nil:
				return "type", ""
			case t == "float64":
				switch x := v.(type) {
				case int:
					v = float64(x)
				case float64:
				default:
					return "type", ""
				}
			case reflect.TypeOf(v) != argTyp[t]:
				return "type", ""
			}
			parts = append(parts, m.h.show(v))
		}
	}
	m.log = append(m.log, fmt.Sprintf("%s@%s(%s)", q.Name, recv, strings.Join(parts, ", ")))
	if len(m.log) > 2000 {
		panic(hostSkip{})
	}
	m.calls[i]++
	if q.Fail != "" && call == q.At {
		if q.Fail == "undef" || q.Fail == "index" {
			text = ""
		}
		return "fail: " + q.Fail, text
	}
	if q.Code != "" && m.depth < 3 {
		old := m.recv
		m.depth++
		m.recv = map[bool]string{true: "J", false: "I"}[q.Other]
		kind, msg = m.eval(q.Code, s, s+n)
		m.depth--
		m.recv = old
		if kind != "" && kind != "match" {
			return kind, msg
		}
		m.log = append(m.log, fmt.Sprintf("%s %v", q.Code, kind == ""))
		if kind == "match" && q.Give {
			return "given", ""
		}
	}
	v := qhostVal(q, i, call)
	switch q.Kind {
	case "stk", "ipt":
		if q.Val != "" {
			m.push(v)
		}
	case "fn":
		m.push(v)
	case "go":
		if q.Outs == 0 {
			v = nil
		}
		m.push(v)
	}
	return "", ""
}

func checkQHost(c QHostCase, x *Ctx) error {
	h, err := newQHost(c)
	if err != nil {
		return failf("making the interpreter: %v", err)
	}
	did := 0
	var stack []interface{} // what the evaluations left
	for i, k := range c.Init {
		v := qhostVal(QMark{Val: k}, i+900, 0)
		stack = append(stack, v)
		h.lang.SetVar("initial", v)
		if err := h.lang.SafeEval("stk.push(initial)"); err != nil {
			return failf("initial stack: %v", err)
		}
	}
	for i, s := range c.Steps {
		src := string(s.Src)
		mode := tpl.ScanMode(c.Mode)
		toks, ok := pegToks(src, mode, c.Gram.keywords())
		if !ok {
			panic("harness: lexical error in " + src)
		}
		m := &qhostModel{c: c, toks: toks, rt: withoutComments(refLex(src, mode&tpl.InsertSemis != 0).Toks), calls: make([]int, len(c.Marks)), recv: "I", h: h}
		m.stk = append(m.stk, stack...)
		rule := s.Rule
		if rule == "" {
			rule = "doc"
		}
		var want, msg string
		specified := func() (ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, is := e.(hostSkip); !is {
						panic(e)
					}
					ok = false
				}
			}()
			want, msg = m.eval(rule, 0, len(toks))
			return true
		}()
		if !specified {
			x.Class("evaluation not specified, or too many steps")
			if did == 0 {
				return errSkip
			}
			return nil
		}
		h.log, h.depth = nil, 0
		h.calls = make([]int, len(c.Marks))
		h.off = map[int]int{}
		for k, t := range toks {
			h.off[t.Start] = k
		}
		did++
		got := h.run(s)
		where := fmt.Sprintf("step %d %q (%s): ", i, src, s.Via)
		for k := 0; k < len(h.log) || k < len(m.log); k++ {
			switch {
			case k >= len(h.log):
				return failf("%sevent %d: %s doesn't happen (outcome %v)", where, k, m.log[k], got)
			case k >= len(m.log):
				return failf("%sevent %d: %s happens in addition", where, k, h.log[k])
			case h.log[k] != m.log[k]:
				return failf("%sevent %d: %s, want %s", where, k, h.log[k], m.log[k])
			}
		}
		switch {
		case (got != nil) != (want != ""):
			return failf("%serror is %v, want one of kind %q", where, got, want)
		case got != nil && (got.Error() == "" || !strings.Contains(got.Error(), msg)):
			return failf("%serror is %q, want one with %q", where, got, msg)
		}
		if err := h.sameStack(m.stk); err != nil {
			return failf("%s%v", where, err)
		}
		stack = append([]interface{}(nil), m.stk...)
		x.Class("outcome: " + want)
		x.ClassIf(i > 0, "later evaluation")
		x.Class("via " + s.Via)
		for k, q := range c.Marks {
			if m.calls[k] > 0 {
				x.NonTrivial()
				x.Class("mark calls " + q.Kind)
				x.ClassIf(q.Arg != "", "argument "+q.Arg)
				x.ClassIf(q.Code != "", "code evaluated by an action")
			}
		}
	}
	if did == 0 {
		return errSkip
	}
	return nil
}

func (h *qhost) sameStack(want []interface{}) error {
	if err := h.lang.SafeEval("data = stk.data"); err != nil {
		return err
	}
	v, _ := h.lang.Var("data")
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Slice || r.Len() != len(want) {
		return failf("stack is %v, want %v", v, want)
	}
	for i, w := range want {
		if g := r.Index(i).Interface(); h.show(g) != h.show(w) {
			return failf("stack is %v, want %v", v, want)
		}
	}
	return nil
}

// ---------------------------------------------------------------- the float calculator hosted in qlang

const qCalcProg = `
Stack = class {
	fn _init() { set(this, "data", []) }
	fn clear() { set(this, "data", []) }
	fn push(v) { set(this, "data", append(this.data, v)) }
	fn pop() { return this.popArgs(1)[0] }
	fn popArgs(n) {
		k = len(this.data) - n
		if k < 0 { panic("stack damaged") }
		args = this.data[k:]
		set(this, "data", this.data[:k])
		return args
	}
	fn arity(n) { this.push(n) }
	fn pushFloat(v) { this.push(v) }
}
Calc = class {
	fn _init() { set(this, "stk", new Stack) }
	fn grammar() {
		return gtext
	}
	fn stack() { return this.stk }
	fn fntable() {
		return {
			"$add": fn(a, b) { return a + b },
			"$sub": sub,
			"$mul": fn(a, b) { return a * b },
			"$quo": goQuo,
			"$mod": goMod,
			"$neg": fn(a) { return -a },
			"$pushFloat": Stack.pushFloat,
			"$ARITY": Stack.arity,
			"$call": Calc.docall,
			"$ident": Calc.ident,
		}
	}
	fn docall(name) {
		n = this.stk.pop()
		args = this.stk.popArgs(n)
		this.stk.push(apply(name, args))
	}
	fn ident(name) {
		this.stk.push(constant(name))
	}
}
sub = fn(a, b) { return a - b }
calc = new Calc
made = tplinterp.interpreter(calc, plain)
`

const qCalcGram = `
term = factor *('*' factor/mul | '/' factor/quo | '%' factor/mod)

doc = term *('+' term/add | '-' term/sub)

factor =
	FLOAT/pushFloat |
	'-' factor/neg |
	'(' doc ')' |
	(IDENT '(' doc %= ','/ARITY ')')/call |
	IDENT/ident |
	'+' factor
`

type qCalc struct {
	lang qlang.Qlang
	eng  *qinterp.Engine
}

func newQCalc() (*qCalc, error) {
	c := calcs["number"]
	lang, err := newQlang(true)
	if err != nil {
		return nil, err
	}
	lang.SetVar("gtext", qCalcGram)
	lang.SetVar("plain", (*qinterp.Options)(nil))
	lang.SetVar("goQuo", func(a, b float64) float64 { return a / b })
	lang.SetVar("goMod", math.Mod)
	lang.SetVar("constant", func(name string) float64 {
		v, err := c.id(name)
		if err != nil {
			panic(err)
		}
		return v.(float64)
	})
	lang.SetVar("apply", func(name string, args interface{}) float64 {
		f, ok := c.fns[name]
		r := reflect.ValueOf(args)
		if !ok || f.n >= 0 && f.n != r.Len() {
			panic(failf("no function %s with %d arguments", name, r.Len()))
		}
		var in []interface{}
		for i := 0; i < r.Len(); i++ {
			in = append(in, r.Index(i).Interface().(float64))
		}
		v, err := f.f(in)
		if err != nil {
			panic(err)
		}
		return v.(float64)
	})
	if err := lang.SafeEval(qCalcProg); err != nil {
		return nil, err
	}
	made, _ := lang.Var("made")
	v, ok := made.([]interface{})
	if !ok || len(v) != 2 || v[1] != nil {
		return nil, failf("interpreter() gives %v", made)
	}
	return &qCalc{lang, v[0].(*qinterp.Engine)}, nil
}

func (p *qCalc) eval(text string) (v interface{}, err error) {
	if err = p.eng.Eval(text); err != nil {
		return nil, err
	}
	if err = p.lang.SafeEval("data = calc.stk.data"); err != nil {
		return
	}
	data, _ := p.lang.Var("data")
	s, ok := data.([]interface{})
	if !ok || len(s) == 0 {
		return nil, fmt.Errorf("no value on the stack: %v", data)
	}
	return s[len(s)-1], nil
}

func (p *qCalc) clear() error { return p.lang.SafeEval("calc.stk.clear()") }

func genQCalc(t *rapid.T) CalcHistory {
	h := genCalcHistory(t)
	h.Calc = "number"
	good, bad, soup := genCalc(h.Calc, 0), genCalc(h.Calc, 30), genCalcSoup(h.Calc)
	for i := range h.Steps {
		switch weighted(t, 5, 3, 3) {
		case 0:
			h.Steps[i].Text = good(t).Text
		case 1:
			h.Steps[i].Text = bad(t).Text
		default:
			h.Steps[i].Text = soup(t).Text
		}
	}
	return h
}

func checkQCalc(h CalcHistory, x *Ctx) error {
	c := calcs["number"]
	p, err := newQCalc()
	if err != nil {
		return failf("the hosted calculator: %v", err)
	}
	for i, s := range h.Steps {
		text := string(s.Text)
		want, werr, either := c.refResult(text)
		if werr == errSlow {
			return errSkip
		}
		got, gerr := p.eval(text)
		if gerr == nil && werr == nil {
			if f, ok := got.(float64); !ok {
				return failf("%q is %T %v, want %s", text, got, got, c.show(want))
			} else if w := want.(float64); f != f && w != w {
				got = want // NaNs need not have the same bits
			}
		} else if gerr == nil {
			got = math.NaN()
		}
		if err := c.compare(text, got, gerr, want, werr, either); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
		if err := p.clear(); err != nil {
			return failf("step %d: %v", i, err)
		}
		tree, perr := c.parse(text)
		x.NonTrivialIf(perr == nil && tree.size() > 2)
		x.ClassIf(perr != nil, "malformed")
		x.ClassIf(perr == nil && werr != nil, "fails at run time")
		x.ClassIf(i > 0, "later evaluation")
	}
	return nil
}

// ---------------------------------------------------------------- refusals

// QRefuseCase is an interpreter written in qlang with one thing that can't work.
type QRefuseCase struct {
	Kind string
	Recv string
	Name string
	Make string
}

var qRefuse = []string{"", "number", "class", "nil", "string", "map", "no grammar", "no stack", "no fntable", "stack is a number", "stack is a class",
	"stack is nil", "grammar is a number", "grammar is nil", "fntable is a slice", "fntable of ints", "fntable is nil", "variadic", "variadic function",
	"variadic Go function", "no parameters", "no parameters in Go", "too many parameters", "item int", "item string", "item nil", "item class", "unknown mark",
	"unknown _mark", "syntax error", "unknown token", "no doc", "grammar fails",
	// these show when they are used
	"no push", "no popArgs", "popArgs gives a number", "popArgs gives nil", "push fails"}

func genQRefuse(t *rapid.T) QRefuseCase {
	return QRefuseCase{pick(t, qRefuse), pick(t, []string{"Stack", "Calc"}), pick(t, []string{"m", "_m", "M", "_M", "pushText", "x1"}), pick(t, []string{"go", "qlang"})}
}

func checkQRefuse(c QRefuseCase, x *Ctx) error {
	lang, err := newQlang(true)
	if err != nil {
		return err
	}
	run := func(s string) error { return lang.SafeEval(s) }
	grammar, stack, fntable := `"doc = IDENT/`+c.Name+`"`, "new Stack", `{"$`+c.Name+`": `+c.Recv+`.m}`
	params, push, popArgs, methods := "x", `fn push(v) { set(this, "data", append(this.data, v)) }`, `fn popArgs(n) { return ["a"] }`, ""
	calc := "new Calc"
	hasG, hasS, hasF := true, true, true
	useErr := false
	item := func(s string) { fntable = `{"$` + c.Name + `": ` + s + `, "a": "b"}` }
	switch c.Kind {
	case "number":
		calc = "12"
	case "class":
		calc = "Calc"
	case "nil":
		calc = "nil"
	case "string":
		calc = `"Calc"`
	case "map":
		calc = `{"grammar": "doc = INT"}`
	case "no grammar":
		hasG = false
	case "no stack":
		hasS = false
	case "no fntable":
		hasF = false
	case "stack is a number":
		stack = "1"
	case "stack is a class":
		stack = "Stack"
	case "stack is nil":
		stack = "nil"
	case "grammar is a number":
		grammar = "1.5"
	case "grammar is nil":
		grammar = "nil"
	case "fntable is a slice":
		fntable = `["$m", "m"]`
	case "fntable of ints":
		fntable = `{"$m": 1, "$_m": 2}`
	case "fntable is nil":
		fntable = "nil"
	case "variadic":
		params = "x..."
	case "variadic function":
		item("fn(x...) { return 1 }")
	case "variadic Go function":
		item("variadic")
	case "no parameters":
		item("fn() { return 1 }")
	case "no parameters in Go":
		item("nopar")
	case "too many parameters":
		params = "x, y"
	case "item int":
		item("7")
	case "item string":
		item(`"m"`)
	case "item nil":
		item("nil")
	case "item class":
		item("Stack")
	case "unknown mark":
		grammar = `"doc = IDENT/other"`
	case "unknown _mark":
		grammar = `"doc = IDENT/_other"`
	case "syntax error":
		grammar = `"doc = IDENT/` + c.Name + ` )"`
	case "unknown token":
		grammar = `"doc = NOTATOKEN/` + c.Name + `"`
	case "no doc":
		grammar = `"docs = IDENT/` + c.Name + `"`
	case "grammar fails":
		grammar = `panic("no grammar today")`
	case "no push":
		push, useErr = "", true
		item("fn(x) { return 1 }")
	case "push fails":
		push, useErr = `fn push(v) { panic("full") }`, true
		item("fn(x) { return 1 }")
	case "no popArgs":
		popArgs, useErr = "", true
		item("fn(x) { return 1 }")
	case "popArgs gives a number":
		popArgs, useErr = "fn popArgs(n) { return n }", true
		item("fn(x) { return 1 }")
	case "popArgs gives nil":
		popArgs, useErr = "fn popArgs(n) { }", true
		item("fn(x) { return 1 }")
	}
	if useErr && c.Recv == "Calc" {
		item("gofn")
	}
	if hasG {
		methods += "fn grammar() { return " + grammar + " }\n"
	}
	if hasS {
		methods += "fn stack() { return " + stack + " }\n"
	}
	if hasF {
		methods += "fn fntable() { return " + fntable + " }\n"
	}
	lang.SetVar("nopar", func() int { return 1 })
	lang.SetVar("variadic", func(a ...int) int { return 1 })
	lang.SetVar("gofn", func(a interface{}) int { return 1 })
	lang.SetVar("plain", &qinterp.Options{})
	prog := "Stack = class {\nfn _init() { set(this, \"data\", []) }\n" + push + "\n" + popArgs + "\nfn m(" + params + ") { set(this, \"hit\", 1) }\n}\n" +
		"Calc = class {\n" + methods + "fn m(" + params + ") { set(this, \"hit\", 1) }\n}\ncalc = " + calc
	if err := run(prog); err != nil {
		return failf("the program: %v\n%s", err, prog)
	}
	var eng *qinterp.Engine
	if c.Make == "qlang" {
		if err := run("e = tplinterp.interpreter(calc, plain)"); err != nil {
			return failf("interpreter() fails instead of giving its error: %v\n%s", err, prog)
		}
		v, _ := lang.Var("e")
		r := v.([]interface{})
		err, _ = r[1].(error)
		eng, _ = r[0].(*qinterp.Engine)
	} else {
		obj, _ := lang.Var("calc")
		err = safely(func() (err error) {
			eng, err = qinterp.New(obj, nil)
			return
		})
	}
	x.NonTrivialIf(c.Kind != "")
	x.Class("kind: " + c.Kind)
	refused := c.Kind != "" && !useErr
	if (err != nil) != refused {
		return failf("%s: making the interpreter gives the error %v\n%s", c.Kind, err, prog)
	}
	if refused {
		if err.Error() == "" {
			return failf("empty error")
		}
		return run("1 + 1")
	}
	for i := 0; i < 2; i++ {
		err := eng.Eval("ident")
		if (err != nil) != useErr {
			return failf("%s: evaluation gives the error %v\n%s", c.Kind, err, prog)
		}
	}
	return nil
}

func init() {
	reg("Q11", "hosts", "interpreters written in qlang: generated grammars whose marks are methods, functions of qlang and Go functions, histories of evaluations; non-trivial: a mark runs", 4000, 120000, genQHost, checkQHost)
	reg("Q11", "calculator", "histories of a float calculator written in qlang; non-trivial: an expression with operations", 1500, 60000, genQCalc, checkQCalc)
	reg("Q11", "refused", "interpreters with something that can't work; non-trivial: all of them", 2000, 20000, genQRefuse, checkQRefuse)
}
