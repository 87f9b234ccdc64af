package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- qlang programs

// Q is a node of a qlang program. Kinds:
//
//	lit S | ref S | bin S a b | un S a | call f args... (V: the last one is spread) | mem S a | idx a i | sl a i j |
//	list e... | map k v ... | fn P body (V: variadic) | if c b c b ... else? (V: has else) | switch v? c b ... default? (V: has default) |
//	for header... body | new S args (V: has argument list) | class fn... (S: name) | recover | main body | paren a
//	assign S e | massign P e | inc S | dec S | op= S(name) P[0](operator) e | return e? | defer e | block s... (V: ends with ';')
type Q struct {
	K string   `json:"k"`
	S string   `json:"s,omitempty"`
	P []string `json:"p,omitempty"`
	V bool     `json:"v,omitempty"`
	L []*Q     `json:"l,omitempty"`
	A int      `json:"a,omitempty"` // first and last line in the text
	Z int      `json:"z,omitempty"`
}

func (q *Q) walk(f func(*Q)) {
	if q == nil {
		return
	}
	f(q)
	for _, k := range q.L {
		k.walk(f)
	}
}

func (q *Q) count() int {
	n := 0
	q.walk(func(*Q) { n++ })
	return n
}

func (q *Q) hasKind(kinds ...string) bool {
	found := false
	q.walk(func(x *Q) {
		for _, k := range kinds {
			found = found || x.K == k
		}
	})
	return found
}

// ---------------------------------------------------------------- values of the reference evaluator
// Scalars are int, float64, string, byte, bool and nil.

type mUndefined struct{}

type mErr struct {
	msg  string // part of the message, if it is known
	at   *Q     // innermost failing node
	inst int
}

type mBack struct {
	data  []interface{}
	peers *[]*mBack // backing stores that may be the same one
	taint bool      // may have been changed through a peer
	exact bool      // the capacity is known to be the length
}

type mSlice struct {
	elem     string
	back     *mBack
	off, len int
}

type mMap struct {
	key, elem string
	m         map[interface{}]interface{}
}

type mFn struct {
	params   []string
	variadic bool
	body     *Q
	parent   *mFrame
	cls      *mClass
}

type mClass struct{ fns map[string]*mFn }

type mObj struct {
	vars map[string]interface{}
	cls  *mClass
}

type mBound struct {
	this *mObj
	fn   *mFn
}

type mGo struct{ name string }

// mHost is a value the host put in, compared by its snapshot.
type mHost struct{ snap string }

type mLink struct{ vars map[string]interface{} }

type mDefer struct{ e *Q }

type mFrame struct {
	vars   map[string]interface{}
	parent *mFrame
	ret    interface{}
	recov  *mErr
	defers []*Q
}

type mReturn struct{}
type mUnspec struct{ why string }
type mBudget struct{}
type mExit struct{ code int }

// ---------------------------------------------------------------- evaluator

type qm struct {
	top      *mFrame
	steps    int
	budget   int
	depth    int
	maxDepth int
	trace    []string
	host     map[string]interface{}                              // imported symbols
	calls    map[string]func(a []interface{}, at *Q) interface{} // imported functions
	stats    map[string]bool
	topRec   bool // a panic was stopped at top level

	noRecover bool // recover() at top level isn't specified: there is a syntax error
	deferErr  bool // a deferred call at top level failed though nothing else did
}

func newQM() *qm {
	return &qm{top: &mFrame{vars: map[string]interface{}{}}, budget: 6000, maxDepth: 8 * qMaxDepth, stats: map[string]bool{}}
}

func (m *qm) stat(s string) { m.stats[s] = true }

func unspec(why string) { panic(mUnspec{why}) }

func (m *qm) fail(at *Q, format string, a ...interface{}) {
	m.stat("runtime error")
	panic(&mErr{msg: fmt.Sprintf(format, a...), at: at})
}

func (m *qm) bad(at *Q) { m.fail(at, "") }

func (m *qm) step() {
	m.steps++
	if m.steps > m.budget {
		panic(mBudget{})
	}
}

const qMaxDepth = 60

// run executes a program like SafeExec: the error (nil if none), the value of the program.
func (m *qm) run(prog *Q, upto int) (val interface{}, err *mErr) {
	f := m.top
	func() {
		defer m.catch(func(e *mErr) { f.recov = e })
		for i, s := range prog.L {
			if i >= upto {
				break
			}
			val = m.eval(f, s)
		}
		if prog.V && len(prog.L) <= upto {
			val = nil
		}
	}()
	failed := f.recov != nil
	m.noRecover = m.noRecover && !failed
	m.runDefers(f)
	err = f.recov
	m.deferErr = !failed && err != nil
	f.recov = nil
	m.topRec = failed && err == nil
	return
}

// catch handles a runtime error; everything else goes on.
func (m *qm) catch(h func(*mErr)) {
	switch e := recover().(type) {
	case nil:
	case *mErr:
		h(e)
	default:
		panic(e)
	}
}

func (m *qm) runDefers(f *mFrame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		m.stat("deferred call")
		func() {
			defer m.catch(func(e *mErr) {
				if f.recov != nil {
					m.stat("panic in a deferred call replaces another")
				}
				f.recov = e
			})
			m.eval(f, d)
		}()
	}
}

func (m *qm) block(f *mFrame, b *Q) (v interface{}) {
	if b == nil {
		return nil
	}
	for _, s := range b.L {
		v = m.eval(f, s)
	}
	if b.V {
		v = nil
	}
	return
}

func isTrue(v interface{}) (t, ok bool) { t, ok = v.(bool); return }

func (m *qm) eval(f *mFrame, q *Q) interface{} {
	m.step()
	m.depth++
	if m.depth > m.maxDepth {
		panic(mBudget{})
	}
	defer func() { m.depth-- }()
	switch q.K {
	case "paren":
		return m.eval(f, q.L[0])
	case "lit":
		return m.lit(q)
	case "ref":
		return m.ref(f, q)
	case "bin":
		return m.bin(f, q)
	case "un":
		v := m.eval(f, q.L[0])
		switch q.S {
		case "-":
			switch x := v.(type) {
			case int:
				return -x
			case float64:
				return -x
			}
			m.bad(q)
		case "!":
			if x, ok := v.(bool); ok {
				return !x
			}
			m.bad(q)
		}
		return v
	case "list":
		return m.sliceFrom(m.args(f, q.L))
	case "map":
		return m.mapFrom(m.args(f, q.L), q)
	case "call":
		return m.callExpr(f, q)
	case "idx":
		a := m.eval(f, q.L[0])
		i := m.eval(f, q.L[1])
		return m.get(a, i, q)
	case "sl":
		a := m.eval(f, q.L[0])
		var i, j interface{}
		if q.L[1] != nil {
			i = m.eval(f, q.L[1])
		}
		if q.L[2] != nil {
			j = m.eval(f, q.L[2])
		}
		return m.sub(a, i, j, q)
	case "mem":
		return m.member(m.eval(f, q.L[0]), q.S, q)
	case "fn":
		return m.closure(f, q)
	case "if":
		n := len(q.L)
		var els *Q
		if q.V {
			n--
			els = q.L[n]
		}
		for i := 0; i < n; i += 2 {
			c, ok := m.eval(f, q.L[i]).(bool)
			if !ok {
				m.bad(q)
			}
			if c {
				if i >= 4 {
					m.stat("third branch or later")
				}
				return m.block(f, q.L[i+1])
			}
		}
		if q.V {
			m.stat("else")
		}
		return m.block(f, els)
	case "switch":
		var v interface{} = true
		if q.L[0] != nil {
			v = m.eval(f, q.L[0])
		}
		n := len(q.L)
		var def *Q
		if q.V {
			n--
			def = q.L[n]
		}
		for i := 1; i < n; i += 2 {
			c := m.eval(f, q.L[i])
			if m.equal(v, c, q) {
				m.stat("case")
				if i >= 5 {
					m.stat("third case or later")
				}
				return m.block(f, q.L[i+1])
			}
		}
		if q.V {
			m.stat("default")
		}
		return m.block(f, def)
	case "for":
		n := len(q.L) - 1
		body := q.L[n]
		var cond, step *Q
		if n == 3 {
			m.eval(f, q.L[0])
			cond, step = q.L[1], q.L[2]
		} else if n == 1 {
			cond = q.L[0]
		}
		rounds := 0
		for {
			m.step()
			if cond != nil {
				c, ok := m.eval(f, cond).(bool)
				if !ok {
					m.bad(q)
				}
				if !c {
					break
				}
			}
			rounds++
			if rounds > 1 {
				m.stat("loop of several rounds")
			}
			m.block(f, body)
			if step != nil {
				m.eval(f, step)
			}
		}
		return nil
	case "new":
		return m.newObj(f, q)
	case "class":
		c := &mClass{fns: map[string]*mFn{}}
		for _, k := range q.L {
			fn := m.closure(f, k)
			fn.params = append([]string{"this"}, fn.params...)
			fn.cls = c
			c.fns[k.S] = fn
		}
		return c
	case "recover":
		if f.parent == nil {
			return nil
		}
		if m.noRecover && f.parent.parent == nil {
			unspec("recover after a syntax error")
		}
		e := f.parent.recov
		f.parent.recov = nil
		if e == nil {
			return nil
		}
		m.stat("recovered")
		return e
	case "main":
		v := m.callFn(&mFn{body: bodyOf(q.L[0]), parent: f}, nil, q)
		code := 0
		if v != nil {
			c, ok := v.(int)
			if !ok {
				m.bad(q)
			}
			code = c
		}
		m.exit(f, code, q)
	case "assign":
		v := m.eval(f, q.L[0])
		m.dest(f, q.S, q)[q.S] = v
		return v
	case "massign":
		v := m.eval(f, q.L[0])
		s, ok := v.(*mSlice)
		if !ok || s.len != len(q.P) {
			m.bad(q)
		}
		m.stat("multiple assignment")
		for i, name := range q.P {
			d := m.dest(f, name, q)
			d[name] = m.read(s, i)
		}
		return v
	case "inc", "dec":
		d, v := m.curVar(f, q.S, q)
		switch x := v.(type) {
		case int:
			if q.K == "inc" {
				x++
			} else {
				x--
			}
			v = x
		case byte:
			if q.K == "inc" {
				x++
			} else {
				x--
			}
			v = x
		default:
			m.bad(q)
		}
		d[q.S] = v
		return v
	case "op=":
		r := m.eval(f, q.L[0])
		m.stat("compound assignment")
		d, v := m.curVar(f, q.S, q)
		v = m.arith(q.P[0], v, r, q)
		d[q.S] = v
		return v
	case "return":
		var v interface{}
		if len(q.L) > 0 {
			v = m.eval(f, q.L[0])
		}
		f.ret = v
		if f.parent != nil {
			panic(mReturn{})
		}
		m.runDefers(f)
		if e := f.recov; e != nil {
			panic(e)
		}
		code := 0
		if v != nil {
			c, ok := v.(int)
			if !ok {
				m.fail(q, "must return `int`")
			}
			code = c
		}
		panic(mExit{code})
	case "defer":
		f.defers = append(f.defers, q.L[0])
		return nil
	}
	panic("harness: node " + q.K)
}

func (m *qm) exit(f *mFrame, code int, q *Q) {
	m.runDefers(f)
	if e := f.recov; e != nil {
		panic(e)
	}
	panic(mExit{code})
}

func bodyOf(b *Q) *Q {
	if b == nil || len(b.L) == 0 {
		return nil
	}
	return b
}

func (m *qm) args(f *mFrame, qs []*Q) []interface{} {
	var out []interface{}
	for _, k := range qs {
		out = append(out, m.eval(f, k))
	}
	return out
}

func (m *qm) closure(f *mFrame, q *Q) *mFn {
	return &mFn{params: append([]string{}, q.P...), variadic: q.V, body: bodyOf(q.L[0]), parent: f}
}

func (m *qm) lit(q *Q) interface{} {
	s := q.S
	switch {
	case s[0] == '\'':
		v := refLeaf("Char", kCHAR, s)
		if len(v.vals) == 0 {
			m.bad(q)
		} else if v.fail {
			unspec("char " + s)
		}
		return v.vals[0]
	case s[0] == '"' || s[0] == '`':
		r, err := strconv.Unquote(s)
		if err != nil {
			m.bad(q)
		}
		return r
	case isIntText(s):
		v := intLit(s)
		if !v.IsInt64() {
			m.bad(q)
		}
		return int(v.Int64())
	}
	v, err := decFloat(s)
	if err != nil {
		m.bad(q)
	}
	return v
}

func isIntText(s string) bool {
	end, kind, ok := refNumber(s, 0)
	return ok && kind == kINT && end == len(s)
}

// ---------------------------------------------------------------- variables

func (m *qm) ref(f *mFrame, q *Q) interface{} {
	name := q.S
	if name == "unset" {
		return &mGo{"unset"}
	}
	if v, ok := f.vars[name]; ok {
		if l, ok := v.(mLink); ok {
			v, ok = l.vars[name]
			if !ok {
				unspec("a removed variable of an outer function is read")
			}
		}
		return v
	}
	if name[0] != '_' {
		for t := f.parent; t != nil; t = t.parent {
			v, ok := t.vars[name]
			if !ok {
				continue
			}
			l, linked := v.(mLink)
			if linked {
				v, ok = l.vars[name]
				if !ok {
					unspec("a removed variable of an outer function is read")
				}
			} else {
				l = mLink{t.vars}
			}
			f.vars[name] = l
			m.stat("outer variable read")
			return v
		}
	}
	if v, ok := m.host[name]; ok {
		return v
	}
	if _, ok := m.calls[name]; ok {
		return &mGo{name}
	}
	switch name {
	case "true":
		return true
	case "false":
		return false
	case "nil":
		return nil
	case "undefined":
		return mUndefined{}
	}
	if qBuiltins[name] {
		return &mGo{name}
	}
	m.fail(q, "symbol not found: %s", name)
	return nil
}

// dest is the table in which an assignment to name stores.
func (m *qm) dest(f *mFrame, name string, q *Q) map[string]interface{} {
	if v, ok := f.vars[name]; ok {
		if l, ok := v.(mLink); ok {
			m.stat("outer variable assigned")
			return l.vars
		}
		return f.vars
	}
	if name[0] != '_' {
		for t := f.parent; t != nil; t = t.parent {
			if _, ok := t.vars[name]; ok {
				m.stat("assignment to an outer variable refused")
				m.fail(q, "exists in extern function")
			}
		}
	}
	return f.vars
}

func (m *qm) curVar(f *mFrame, name string, q *Q) (map[string]interface{}, interface{}) {
	v, ok := f.vars[name]
	if !ok {
		m.fail(q, "not found")
	}
	if l, ok := v.(mLink); ok {
		v, ok = l.vars[name]
		if !ok {
			unspec("a removed variable of an outer function is updated")
		}
		m.stat("outer variable assigned")
		return l.vars, v
	}
	return f.vars, v
}

// ---------------------------------------------------------------- operators

func (m *qm) bin(f *mFrame, q *Q) interface{} {
	a := m.eval(f, q.L[0])
	if q.S == "&&" || q.S == "||" {
		x, ok := a.(bool)
		if !ok {
			m.bad(q)
		}
		if x == (q.S == "||") {
			m.stat("right side not needed")
			return x
		}
		r := m.eval(f, q.L[1])
		if _, ok := r.(bool); !ok {
			unspec("right operand of && or || isn't boolean")
		}
		return r
	}
	b := m.eval(f, q.L[1])
	return m.binop(q.S, a, b, q)
}

func (m *qm) binop(op string, a, b interface{}, q *Q) interface{} {
	switch op {
	case "==":
		return m.equal(a, b, q)
	case "!=":
		return !m.equal(a, b, q)
	case "<", ">", "<=", ">=":
		return m.order(op, a, b, q)
	}
	return m.arith(op, a, b, q)
}

func (m *qm) order(op string, a, b interface{}, q *Q) bool {
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			c := strings.Compare(s, t)
			return op[0] == '<' && c < 0 || op[0] == '>' && c > 0 || len(op) == 2 && c == 0
		}
		m.bad(q)
	}
	if x, ok := a.(byte); ok {
		a = int(x)
	}
	if x, ok := b.(byte); ok {
		b = int(x)
	}
	i, ok1 := a.(int)
	j, ok2 := b.(int)
	if ok1 && ok2 {
		return op[0] == '<' && i < j || op[0] == '>' && i > j || len(op) == 2 && i == j
	}
	x, ok1 := toFloat(a)
	y, ok2 := toFloat(b)
	if !ok1 || !ok2 {
		m.bad(q)
	}
	return op[0] == '<' && x < y || op[0] == '>' && x > y || len(op) == 2 && x == y
}

func toFloat(a interface{}) (float64, bool) {
	switch x := a.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func (m *qm) arith(op string, a, b interface{}, q *Q) interface{} {
	if s, ok := a.(string); ok && op == "+" {
		if t, ok := b.(string); ok {
			if len(s)+len(t) > 1<<16 {
				panic(mBudget{})
			}
			return s + t
		}
		m.bad(q)
	}
	i, ok1 := a.(int)
	j, ok2 := b.(int)
	if ok1 && ok2 {
		switch op {
		case "+":
			return i + j
		case "-":
			return i - j
		case "*":
			return i * j
		}
		if j == 0 {
			m.stat("division by zero")
			m.bad(q)
		}
		if op == "/" {
			return i / j
		}
		return i % j
	}
	x, ok1 := toFloat(a)
	y, ok2 := toFloat(b)
	if !ok1 || !ok2 || op == "%" {
		m.bad(q)
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	}
	return x / y
}

// typeName is the Go type of the value.
func typeName(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case int, float64, string, bool:
		return fmt.Sprintf("%T", v)
	case byte:
		return "uint8"
	case *mSlice:
		return "[]" + x.elem
	case *mMap:
		return "map[" + x.key + "]" + x.elem
	case *mErr:
		return "error"
	case mUndefined:
		return "undefined"
	case *mFn:
		return "fn"
	case *mClass:
		return "class"
	case *mObj:
		return "object"
	case *mBound:
		return "method"
	case *mGo:
		return "go:" + x.name
	case *mHost:
		return "host"
	}
	panic(fmt.Sprintf("harness: value %T", v))
}

func (m *qm) equal(a, b interface{}, q *Q) bool {
	if _, ok := a.(*mHost); ok {
		unspec("host values compared")
	}
	if _, ok := b.(*mHost); ok {
		unspec("host values compared")
	}
	if x, ok := a.(*mGo); ok {
		if _, ok := b.(*mGo); ok {
			unspec("Go functions compared: " + x.name)
		}
		return false
	}
	if typeName(a) != typeName(b) {
		return false
	}
	switch a.(type) {
	case *mSlice, *mMap:
		m.stat("incomparable values compared")
		m.bad(q)
	}
	return a == b
}

// ---------------------------------------------------------------- calls

func (m *qm) callExpr(f *mFrame, q *Q) interface{} {
	fn := m.eval(f, q.L[0])
	args := m.args(f, q.L[1:])
	if q.V {
		if len(args) == 0 {
			m.bad(q)
		}
		n := len(args) - 1
		s, ok := args[n].(*mSlice)
		if !ok {
			m.bad(q)
		}
		m.stat("spread arguments")
		args = args[:n]
		for i := 0; i < s.len; i++ {
			args = append(args, m.read(s, i))
		}
	}
	return m.call(f, fn, args, q)
}

func (m *qm) call(f *mFrame, fn interface{}, args []interface{}, q *Q) interface{} {
	switch x := fn.(type) {
	case *mFn:
		return m.callFn(x, args, q)
	case *mBound:
		m.stat("method call")
		return m.callFn(x.fn, append([]interface{}{x.this}, args...), q)
	case *mGo:
		if x.name == "unset" {
			return m.unset(f, args, q)
		}
		if h, ok := m.calls[x.name]; ok {
			return h(args, q)
		}
		return m.builtin(x.name, args, q)
	case *mHost:
		unspec("host value called")
	}
	m.bad(q)
	return nil
}

func (m *qm) callFn(fn *mFn, args []interface{}, q *Q) interface{} {
	m.step()
	m.stat("call")
	n := len(fn.params)
	if fn.variadic && len(args) < n-1 || !fn.variadic && len(args) != n {
		m.stat("wrong argument count")
		m.fail(q, "arguments")
	}
	if fn.body == nil {
		return nil
	}
	f := &mFrame{vars: map[string]interface{}{}, parent: fn.parent}
	if fn.variadic {
		m.stat("variadic call")
		for i := 0; i < n-1; i++ {
			f.vars[fn.params[i]] = args[i]
		}
		rest := append([]interface{}{}, args[n-1:]...)
		b := &mBack{data: rest}
		f.vars[fn.params[n-1]] = &mSlice{elem: "interface {}", back: b, len: len(rest)}
	} else {
		for i, a := range args {
			f.vars[fn.params[i]] = a
		}
	}
	func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case mReturn:
			case *mErr:
				f.recov = e
			default:
				panic(e)
			}
			hadDefers := len(f.defers) > 0
			failing := f.recov != nil
			m.runDefers(f)
			if hadDefers && failing && f.recov == nil {
				m.stat("recovered function")
			}
			if f.recov != nil {
				panic(f.recov)
			}
		}()
		m.block(f, fn.body)
	}()
	return f.ret
}

func (m *qm) newObj(f *mFrame, q *Q) interface{} {
	cv := m.ref(f, q)
	var args []interface{}
	if q.V {
		args = m.args(f, q.L)
	}
	c, ok := cv.(*mClass)
	if !ok {
		m.bad(q)
	}
	o := &mObj{vars: map[string]interface{}{}, cls: c}
	m.stat("object")
	if init, ok := c.fns["_init"]; ok {
		m.callFn(init, append([]interface{}{o}, args...), q)
	} else if len(args) > 0 {
		unspec("arguments for a class without _init")
	}
	return o
}

func (m *qm) member(v interface{}, name string, q *Q) interface{} {
	switch x := v.(type) {
	case *mObj:
		if r, ok := x.vars[name]; ok {
			return r
		}
		if fn, ok := x.cls.fns[name]; ok {
			return &mBound{x, fn}
		}
		m.fail(q, "member")
	case *mClass:
		if fn, ok := x.fns[name]; ok {
			return fn
		}
		m.fail(q, "method")
	case *mMap:
		if x.key == "string" {
			if r, ok := x.m[name]; ok {
				return r
			}
		}
		m.bad(q)
	case nil, int, float64, string, bool, byte, *mSlice:
		m.bad(q)
	default:
		unspec("member of " + typeName(v))
	}
	return nil
}

func (m *qm) unset(f *mFrame, args []interface{}, q *Q) interface{} {
	if len(args) != 1 {
		m.bad(q)
	}
	name, ok := args[0].(string)
	if !ok {
		m.bad(q)
	}
	if v, ok := f.vars[name]; ok {
		if _, ok := v.(mLink); ok {
			unspec("unset of an outer variable")
		}
	} else if f.parent != nil {
		unspec("unset of a variable that isn't the function's")
	}
	m.stat("unset")
	delete(f.vars, name)
	return nil
}

// ---------------------------------------------------------------- containers

func (m *qm) read(s *mSlice, i int) interface{} {
	if s.back.taint {
		unspec("storage that append may have shared is read")
	}
	return s.back.data[s.off+i]
}

// write stores into a backing store and marks those it may be shared with.
func (m *qm) write(b *mBack, i int, v interface{}) {
	b.data[i] = v
	if b.peers != nil {
		for _, p := range *b.peers {
			if p != b {
				p.taint = true
			}
		}
	}
}

func numKind(args []interface{}, at, by int) string {
	kind := ""
	for i := at; i < len(args); i += by {
		k := typeName(args[i])
		switch {
		case kind == "" || kind == k:
			kind = k
		case (kind == "int" || kind == "float64") && (k == "int" || k == "float64"):
			kind = "float64"
		default:
			return "mixed"
		}
	}
	return kind
}

func convTo(elem string, v interface{}) interface{} {
	if i, ok := v.(int); ok && elem == "float64" {
		return float64(i)
	}
	return v
}

func (m *qm) sliceFrom(args []interface{}) interface{} {
	elem := "interface {}"
	if k := numKind(args, 0, 1); k == "int" || k == "float64" || k == "string" {
		elem = k
	}
	b := &mBack{exact: true}
	for _, a := range args {
		b.data = append(b.data, convTo(elem, a))
	}
	return &mSlice{elem: elem, back: b, len: len(b.data)}
}

func (m *qm) mapFrom(args []interface{}, q *Q) interface{} {
	if len(args)%2 != 0 {
		m.bad(q)
	}
	r := &mMap{key: "string", elem: "interface {}", m: map[interface{}]interface{}{}}
	if len(args) == 0 {
		return r
	}
	if r.key = numKind(args, 0, 2); r.key != "int" && r.key != "string" {
		m.bad(q)
	}
	if k := numKind(args, 1, 2); k == "int" || k == "float64" || k == "string" {
		r.elem = k
	}
	for i := 0; i < len(args); i += 2 {
		if _, ok := args[i+1].(mUndefined); ok {
			if _, dup := r.m[args[i]]; dup {
				unspec("undefined for a key given before")
			}
			continue
		}
		r.m[args[i]] = convTo(r.elem, args[i+1])
	}
	return r
}

func (m *qm) get(a, i interface{}, q *Q) interface{} {
	switch x := a.(type) {
	case *mMap:
		if typeName(i) != x.key {
			m.bad(q)
		}
		if v, ok := x.m[i]; ok {
			return v
		}
		m.stat("absent key")
		return mUndefined{}
	case *mSlice:
		n, ok := i.(int)
		if !ok || n < 0 || n >= x.len {
			m.stat("bad index")
			m.bad(q)
		}
		return m.read(x, n)
	case string:
		n, ok := i.(int)
		if !ok || n < 0 || n >= len(x) {
			m.stat("bad index")
			m.bad(q)
		}
		return x[n]
	case *mHost:
		unspec("host value indexed")
	}
	m.bad(q)
	return nil
}

func (m *qm) sub(a, i, j interface{}, q *Q) interface{} {
	n := 0
	switch x := a.(type) {
	case *mSlice:
		n = x.len
	case string:
		n = len(x)
	default:
		if _, ok := a.(*mHost); ok {
			unspec("host value sliced")
		}
		m.bad(q)
	}
	lo, hi := 0, n
	var ok bool
	if i != nil {
		if lo, ok = i.(int); !ok {
			m.bad(q)
		}
	}
	if j != nil {
		if hi, ok = j.(int); !ok {
			m.bad(q)
		}
	}
	if lo < 0 || hi < lo {
		m.bad(q)
	}
	if s, ok := a.(string); ok {
		if hi > n {
			m.bad(q)
		}
		return s[lo:hi]
	}
	s := a.(*mSlice)
	if s.off+hi > len(s.back.data) {
		if s.back.exact || hi > 1<<20 {
			m.bad(q)
		}
		unspec("slice up to the capacity")
	}
	m.stat("slice of a slice")
	return &mSlice{elem: s.elem, back: s.back, off: s.off + lo, len: hi - lo}
}

// fits: may v be stored as an element of this type?
func (m *qm) fits(elem string, v interface{}, q *Q) {
	if elem == "interface {}" {
		return
	}
	if v == nil {
		unspec("nil stored in a typed container")
	}
	if typeName(v) != elem {
		m.stat("bad element type")
		m.bad(q)
	}
}

func (m *qm) appendTo(a interface{}, vals []interface{}, q *Q) interface{} {
	s, ok := a.(*mSlice)
	if !ok {
		if _, ok := a.(*mHost); ok {
			unspec("host value appended to")
		}
		m.bad(q)
	}
	if s.back.taint {
		unspec("storage that append may have shared is appended to")
	}
	end := s.off + s.len
	for i, v := range vals {
		if s.elem == "float64" {
			if k := typeName(v); k != "int" && k != "float64" {
				if v == nil {
					unspec("nil stored in a typed container")
				}
				if end < len(s.back.data) || i > 0 {
					unspec("append fails after storing some elements")
				}
				m.stat("bad element type")
				m.bad(q)
			}
			continue
		}
		if s.elem != "interface {}" && typeName(v) != s.elem && v != nil && (end < len(s.back.data) || i > 0) {
			unspec("append fails after storing some elements")
		}
		m.fits(s.elem, v, q)
	}
	if len(vals) == 0 {
		return s
	}
	var nv []interface{}
	for _, v := range vals {
		nv = append(nv, convTo(s.elem, v))
	}
	if end+len(nv) <= len(s.back.data) { // room in the part of the storage behind the slice: as in Go it is overwritten
		m.stat("append overwrites shared storage")
		for i, v := range nv {
			m.write(s.back, end+i, v)
		}
		return &mSlice{elem: s.elem, back: s.back, off: s.off, len: s.len + len(nv)}
	}
	b := &mBack{data: append(append([]interface{}{}, s.back.data[s.off:end]...), nv...)}
	if !s.back.exact { // it may have been done in place
		if s.off != 0 { // indices differ: give up on the relation
			b = &mBack{data: append(append([]interface{}{}, s.back.data[:end]...), nv...)}
		}
		if s.back.peers == nil {
			s.back.peers = &[]*mBack{s.back}
		}
		for _, p := range *s.back.peers {
			if p != s.back {
				p.taint = true
			}
		}
		if end < len(s.back.data) {
			s.back.taint = true
		}
		b.peers = s.back.peers
		*b.peers = append(*b.peers, b)
		return &mSlice{elem: s.elem, back: b, off: s.off, len: s.len + len(nv)}
	}
	return &mSlice{elem: s.elem, back: b, len: s.len + len(nv)}
}

func (m *qm) set(a interface{}, kv []interface{}, q *Q) {
	m.stat("container changed")
	if len(kv)%2 != 0 {
		m.bad(q)
	}
	switch x := a.(type) {
	case *mMap:
		for i := 0; i < len(kv); i += 2 {
			if typeName(kv[i]) != x.key {
				m.bad(q)
			}
			if _, ok := kv[i+1].(mUndefined); ok {
				delete(x.m, kv[i])
				continue
			}
			m.fits(x.elem, kv[i+1], q)
			x.m[kv[i]] = kv[i+1]
		}
	case *mSlice:
		for i := 0; i < len(kv); i += 2 {
			n, ok := kv[i].(int)
			if !ok || n < 0 || n >= x.len {
				m.stat("bad index")
				m.bad(q)
			}
			m.fits(x.elem, kv[i+1], q)
			if x.back.taint {
				unspec("storage that append may have shared is written")
			}
			m.write(x.back, x.off+n, kv[i+1])
		}
	case *mObj:
		for i := 0; i < len(kv); i += 2 {
			name, ok := kv[i].(string)
			if !ok {
				m.bad(q)
			}
			if _, ok := x.cls.fns[name]; ok {
				m.stat("method overwritten")
				m.fail(q, "method")
			}
			x.vars[name] = kv[i+1]
		}
	case *mHost:
		unspec("host value set")
	default:
		if len(kv) == 0 {
			unspec("set without members")
		}
		m.bad(q)
	}
}

var qBuiltins = map[string]bool{}

func init() {
	for _, s := range strings.Fields("append delete get len cap set sub slice sliceFrom mapFrom mkmap string float int byte max min panic panicf hv_t type sliceOf mapOf") {
		qBuiltins[s] = true
	}
}

var elemTypes = map[string]string{"int": "int", "float": "float64", "string": "string", "var": "interface {}", "bool": "bool", "byte": "uint8"}
var zeroOf = map[string]interface{}{"int": 0, "float64": 0.0, "string": "", "interface {}": nil, "bool": false, "uint8": byte(0)}

func (m *qm) builtin(name string, a []interface{}, q *Q) interface{} {
	count := func(min, max int) {
		if len(a) < min || max >= 0 && len(a) > max {
			m.bad(q)
		}
	}
	switch name {
	case "hv_t":
		count(1, -1)
		if len(m.trace) > 3000 {
			panic(mBudget{})
		}
		var s []string
		for _, v := range a {
			s = append(s, m.snap(v))
		}
		m.trace = append(m.trace, strings.Join(s, " "))
		return a[len(a)-1]
	case "append":
		count(1, -1)
		return m.appendTo(a[0], a[1:], q)
	case "delete":
		count(2, 2)
		x, ok := a[0].(*mMap)
		if !ok || typeName(a[1]) != x.key {
			m.bad(q)
		}
		delete(x.m, a[1])
		return nil
	case "get":
		count(2, 2)
		return m.get(a[0], a[1], q)
	case "len", "cap":
		count(1, 1)
		switch x := a[0].(type) {
		case nil:
			return 0
		case string:
			if name == "len" {
				return len(x)
			}
		case *mSlice:
			if name == "len" {
				return x.len
			}
			unspec("cap")
		case *mMap:
			if name == "len" {
				return len(x.m)
			}
		case *mHost:
			unspec("len of a host value")
		}
		m.bad(q)
	case "set":
		count(1, -1)
		m.set(a[0], a[1:], q)
		return nil
	case "sub":
		count(3, 3)
		return m.sub(a[0], a[1], a[2], q)
	case "sliceFrom":
		return m.sliceFrom(a)
	case "mapFrom":
		return m.mapFrom(a, q)
	case "slice":
		count(1, -1)
		t, ok := a[0].(string)
		if !ok {
			unspec("slice of a type that isn't named")
		}
		elem, ok := elemTypes[t]
		if len(a) > 2 || !ok && strings.Contains(t, ":") {
			unspec("slice with a capacity")
		}
		n := 0
		if len(a) == 2 {
			var isInt bool
			n, isInt = a[1].(int)
			ok = ok && isInt
		}
		if !ok || n < 0 {
			m.bad(q)
		}
		if n > 1<<16 {
			panic(mBudget{})
		}
		b := &mBack{exact: true}
		for i := 0; i < n; i++ {
			b.data = append(b.data, zeroOf[elem])
		}
		return &mSlice{elem: elem, back: b, len: n}
	case "mkmap":
		count(1, 1)
		t, _ := a[0].(string)
		elem, ok := elemTypes[strings.TrimPrefix(t, "string:")]
		if !strings.HasPrefix(t, "string:") || !ok {
			m.bad(q)
		}
		return &mMap{key: "string", elem: elem, m: map[interface{}]interface{}{}}
	case "string":
		count(1, 1)
		switch x := a[0].(type) {
		case byte:
			return string(rune(x))
		case int:
			if x < 0 || x > utf8.MaxRune {
				return "\uFFFD"
			}
			return string(rune(x))
		case *mSlice:
			if x.elem == "uint8" {
				unspec("bytes")
			}
		}
		m.bad(q)
	case "float":
		count(1, 1)
		if x, ok := a[0].(byte); ok {
			return float64(x)
		}
		x, ok := toFloat(a[0])
		if !ok {
			m.bad(q)
		}
		return x
	case "int":
		count(1, 1)
		switch x := a[0].(type) {
		case int:
			return x
		case byte:
			return int(x)
		case float64:
			if !(math.Abs(x) < 1<<62) {
				unspec("float out of the range of int")
			}
			return int(x)
		}
		m.bad(q)
	case "byte":
		count(1, 1)
		switch x := a[0].(type) {
		case int:
			return byte(x)
		case byte:
			return x
		case float64:
			if !(x > -1 && x < 256) {
				unspec("float out of the range of byte")
			}
			return byte(x)
		}
		m.bad(q)
	case "max", "min":
		if len(a) == 0 {
			return 0
		}
		k := numKind(a, 0, 1)
		if k != "int" && k != "float64" {
			m.bad(q)
		}
		best := convTo(k, a[0])
		for _, v := range a[1:] {
			v = convTo(k, v)
			if f, ok := v.(float64); ok && f != f {
				unspec("max of NaN")
			}
			less := m.order("<", v, best, q)
			if name == "min" && less || name == "max" && m.order(">", v, best, q) {
				best = v
			}
		}
		if f, ok := best.(float64); ok && f != f {
			unspec("max of NaN")
		}
		return best
	case "panic":
		count(1, 1)
		switch x := a[0].(type) {
		case string:
			m.fail(q, "%s", x)
		case *mErr:
			m.stat("panic with a recovered error")
			panic(x)
		case mUndefined:
			m.fail(q, "undefined")
		}
		unspec("panic with " + typeName(a[0]))
	case "panicf":
		count(1, -1)
		s, ok := a[0].(string)
		if !ok || len(a) > 1 || strings.Contains(s, "%") {
			unspec("panicf")
		}
		m.fail(q, "%s", s)
	}
	unspec("builtin " + name)
	return nil
}

// ---------------------------------------------------------------- snapshots

const snapDepth = 5

func floatSnap(f float64) string {
	if f != f {
		return "f:NaN"
	}
	return fmt.Sprintf("f:%v:%x", f, math.Float64bits(f))
}

func (m *qm) snap(v interface{}) string {
	var b strings.Builder
	m.snapTo(&b, v, 0)
	return b.String()
}

func (m *qm) snapTo(b *strings.Builder, v interface{}, depth int) {
	if b.Len() > 20000 {
		panic(mBudget{})
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("nil")
	case int:
		fmt.Fprintf(b, "i:%d", x)
	case float64:
		b.WriteString(floatSnap(x))
	case string:
		fmt.Fprintf(b, "%q", x)
	case byte:
		fmt.Fprintf(b, "y:%d", x)
	case bool:
		fmt.Fprintf(b, "%v", x)
	case *mSlice:
		b.WriteString("[]" + x.elem + "{")
		if depth > snapDepth {
			b.WriteString("...}")
			return
		}
		for i := 0; i < x.len; i++ {
			m.snapTo(b, m.read(x, i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case *mMap:
		b.WriteString("map[" + x.key + "]" + x.elem + "{")
		if depth > snapDepth {
			b.WriteString("...}")
			return
		}
		var items []string
		for k, e := range x.m {
			var kb strings.Builder
			m.snapTo(&kb, k, depth+1)
			kb.WriteString(":")
			m.snapTo(&kb, e, depth+1)
			items = append(items, kb.String())
		}
		sort.Strings(items)
		b.WriteString(strings.Join(items, ","))
		b.WriteString("}")
	case *mErr:
		b.WriteString("error")
	case *mHost:
		b.WriteString(x.snap)
	case *mGo:
		b.WriteString("func")
	default:
		b.WriteString(typeName(v))
	}
}

// snapReal is the same for values of the code under test.
func snapReal(v interface{}) string {
	var b strings.Builder
	snapRealTo(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func snapRealTo(b *strings.Builder, v reflect.Value, depth int) {
	for v.IsValid() && v.Kind() == reflect.Interface {
		if v.IsNil() {
			v = reflect.Value{}
		} else {
			v = v.Elem()
		}
	}
	if b.Len() > 100000 {
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Int:
		fmt.Fprintf(b, "i:%d", v.Int())
	case reflect.Float64:
		b.WriteString(floatSnap(v.Float()))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Uint8:
		fmt.Fprintf(b, "y:%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Slice:
		b.WriteString("[]" + t.Elem().String() + "{")
		if depth > snapDepth {
			b.WriteString("...}")
			return
		}
		for i := 0; i < v.Len(); i++ {
			snapRealTo(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.Map:
		b.WriteString("map[" + t.Key().String() + "]" + t.Elem().String() + "{")
		if depth > snapDepth {
			b.WriteString("...}")
			return
		}
		var items []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			snapRealTo(&kb, k, depth+1)
			kb.WriteString(":")
			snapRealTo(&kb, v.MapIndex(k), depth+1)
			items = append(items, kb.String())
		}
		sort.Strings(items)
		b.WriteString(strings.Join(items, ","))
		b.WriteString("}")
	case reflect.Func:
		b.WriteString("func")
	default:
		switch t.String() {
		case "*qlang.Function":
			b.WriteString("fn")
		case "*qlang.Class":
			b.WriteString("class")
		case "*qlang.Object":
			b.WriteString("object")
		case "*qlang.thisDeref":
			b.WriteString("method")
		default:
			if v.CanInterface() {
				i := v.Interface()
				if i == qlangUndefined {
					b.WriteString("undefined")
					return
				}
				if _, ok := i.(error); ok {
					b.WriteString("error")
					return
				}
			}
			b.WriteString(t.String())
		}
	}
}
