package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- marks of extraction grammars

// exMark is a mark name taken apart.
type exMark struct {
	tag, typ string
	array    bool
}

// splitMark: tag_Type, tag_Types or tag_TypeArray.
func splitMark(name string) (m exMark, ok bool) {
	i := strings.LastIndexByte(name, '_')
	if i < 0 {
		return m, false
	}
	m.tag, m.typ = name[:i], name[i+1:]
	if n := len(m.typ); n > 0 && m.typ[n-1] == 's' {
		m.typ, m.array = m.typ[:n-1], true
	} else if n >= 5 && m.typ[n-5:] == "Array" {
		m.typ, m.array = m.typ[:n-5], true
	}
	return m, true
}

func (m exMark) cate() string {
	s := "leaf"
	if m.typ == "Node" {
		s = "node"
	}
	if m.array {
		s += "s"
	}
	return s
}

// exVal is what a leaf may be converted to: one of vals, or a failure if fail is set.
type exVal struct {
	vals []interface{}
	fail bool
}

func exOne(v interface{}) exVal { return exVal{vals: []interface{}{v}} }

var exFail = exVal{fail: true}

// refLeaf is the reference conversion of a token.
func refLeaf(typ string, kind uint, lit string) exVal {
	switch typ {
	case "Text":
		return exOne(lit)
	case "Int":
		if kind != kINT {
			return exFail
		}
		v := intLit(lit)
		r := exVal{fail: true}
		if v.IsInt64() {
			r = exOne(v.Int64())
		}
		if len(lit) > 1 && lit[0] == '0' { // how octal and hexadecimal integers are read isn't documented
			r.fail = r.fail || lit[1] == 'x' || lit[1] == 'X'
			if n, err := strconv.ParseInt(lit, 10, 64); err == nil {
				r.vals = append(r.vals, n)
			} else {
				r.fail = true
			}
		}
		return r
	case "Float":
		if kind != kINT && kind != kFLOAT {
			if _, err := strconv.ParseFloat(lit, 64); err == nil { // Inf, NaN
				f, _ := strconv.ParseFloat(lit, 64)
				return exVal{vals: []interface{}{f}, fail: true}
			}
			return exFail
		}
		if kind == kINT && len(lit) > 1 && lit[0] == '0' {
			r := exVal{fail: true}
			if f, err, _ := floatLit(kind, lit); err == nil {
				r.vals = append(r.vals, f)
			}
			if f, err := decFloat(lit); err == nil && lit[1] != 'x' && lit[1] != 'X' {
				r.vals = append(r.vals, f)
			}
			return r
		}
		f, err := decFloat(lit)
		if err != nil {
			return exFail
		}
		return exOne(f)
	case "String":
		s, err := strconv.Unquote(lit)
		switch {
		case err != nil:
			return exFail
		case kind == kCHAR:
			return exVal{vals: []interface{}{s}, fail: true}
		}
		return exOne(s)
	case "Char":
		if kind != kCHAR {
			return exFail
		}
		body := lit[1 : len(lit)-1]
		switch {
		case len(body) == 1:
			return exOne(body[0])
		case body[0] != '\\':
			return exFail
		case body[1] == 'x':
			v, _ := strconv.ParseUint(body[2:], 16, 8)
			return exOne(byte(v))
		case body[1] >= '0' && body[1] <= '7':
			v, _ := strconv.ParseUint(body[1:], 8, 8)
			return exOne(byte(v))
		case body[1] == 'u' || body[1] == 'U':
			v, _ := strconv.ParseUint(body[2:], 16, 32)
			if v < 0x80 {
				return exVal{vals: []interface{}{byte(v)}, fail: true}
			}
			return exFail
		}
		return exOne(map[byte]byte{'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': '\\', '\'': '\'', '"': '"'}[body[1]])
	}
	return exFail
}

// custom conversions
const (
	convDefault = iota
	convRecord  // [2]string{typ, lit}
	convPanicky // the same, but fails for some texts with a string, for some with an error
	convNil     // nil
)

func panicky(lit string) int {
	if lit == "" {
		return 10
	}
	return (len(lit)*7 + int(lit[0])) % 11
}

func customValue(conv int) func(typ, lit string) interface{} {
	switch conv {
	case convRecord:
		return func(typ, lit string) interface{} { return [2]string{typ, lit} }
	case convPanicky:
		return func(typ, lit string) interface{} {
			switch panicky(lit) {
			case 0:
				panic("can't convert " + lit)
			case 1:
				panic(errors.New("can't convert " + lit))
			}
			return [2]string{typ, lit}
		}
	case convNil:
		return func(typ, lit string) interface{} { return nil }
	}
	return nil
}

func exConvert(conv int, typ string, kind uint, lit string) exVal {
	switch conv {
	case convRecord:
		return exOne([2]string{typ, lit})
	case convPanicky:
		if panicky(lit) < 2 {
			return exFail
		}
		return exOne([2]string{typ, lit})
	case convNil:
		return exOne(nil)
	}
	return refLeaf(typ, kind, lit)
}

// ---------------------------------------------------------------- reference documents

type exEntry struct {
	m    exMark
	leaf exVal
	node *exNode
}

type exNode struct{ entries []*exEntry }

// exResult is the reference result of a parse.
type exResult struct {
	doc     *exNode
	mayFail bool // a conversion may fail
	fail    bool // the parse fails
	leaves  int
	rolled  bool // some node was abandoned with something in it
}

// refExtract replays the events of a match.
func refExtract(ref RefRes, toks []RTok, marks map[int]exMark, conv int) exResult {
	type frame struct {
		n    *exNode
		size int
	}
	r := exResult{doc: &exNode{}}
	cur := r.doc
	var stack []frame
	for _, e := range ref.Evs {
		m := marks[e.ID]
		switch e.K {
		case "begin":
			stack = append(stack, frame{cur, len(cur.entries)})
			n := &exNode{}
			cur.entries = append(cur.entries, &exEntry{m: m, node: n})
			cur = n
		case "end":
			f := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if e.Fail {
				r.rolled = r.rolled || len(cur.entries) > 0
				f.n.entries = f.n.entries[:f.size]
			}
			cur = f.n
		case "act":
			if e.N == 0 {
				r.fail = true
				return r
			}
			t := toks[e.Start]
			v := exConvert(conv, m.typ, t.Kind, t.Lit)
			if t.Lit == "" { // an operator: the scanner gives no literal; its text will do as well
				v2 := exConvert(conv, m.typ, t.Kind, kindClass[t.Kind])
				v.vals, v.fail = append(v.vals, v2.vals...), v.fail || v2.fail
			}
			if len(v.vals) == 0 {
				r.fail = true
				return r
			}
			r.mayFail = r.mayFail || v.fail
			r.leaves++
			cur.entries = append(cur.entries, &exEntry{m: m, leaf: v})
		}
	}
	r.fail = !ref.OK || ref.Abort || ref.N < len(toks)
	return r
}

// byTag groups the entries: what the document must hold for each tag.
func (n *exNode) byTag() map[string][]*exEntry {
	r := map[string][]*exEntry{}
	for _, e := range n.entries {
		r[e.m.tag] = append(r[e.m.tag], e)
	}
	return r
}

func sameValue(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

func sameLeaf(got interface{}, want exVal) error {
	for _, v := range want.vals {
		if sameValue(got, v) {
			return nil
		}
	}
	return failf("%T %#v, want %T %#v", got, got, want.vals[0], want.vals[0])
}

// sameDoc compares a document with the reference.
func sameDoc(got map[string]interface{}, want *exNode, path string) error {
	tags := want.byTag()
	for k := range got {
		if tags[k] == nil {
			return failf("%s%s: %#v, but no mark with this name matched", path, k, got[k])
		}
	}
	for tag, es := range tags {
		v, ok := got[tag]
		if !ok {
			return failf("%s%s is missing", path, tag)
		}
		p := path + tag
		mixed := false
		for _, e := range es {
			mixed = mixed || e.m.cate() != es[0].m.cate()
		}
		if mixed {
			continue // what one name means as a single value and as an array isn't documented
		}
		switch es[0].m.cate() {
		case "leaf":
			if err := sameLeaf(v, es[0].leaf); err != nil {
				return failf("%s: %v", p, err)
			}
		case "node":
			n, ok := v.(map[string]interface{})
			if !ok {
				return failf("%s is %T %v", p, v, v)
			}
			if err := sameDoc(n, es[0].node, p+"."); err != nil {
				return err
			}
		case "leafs":
			a, ok := v.([]interface{})
			if !ok || len(a) != len(es) {
				return failf("%s is %T %v, want %d items", p, v, v, len(es))
			}
			for i, e := range es {
				if err := sameLeaf(a[i], e.leaf); err != nil {
					return failf("%s[%d]: %v", p, i, err)
				}
			}
		case "nodes":
			a, ok := v.([]map[string]interface{})
			if !ok || len(a) != len(es) {
				return failf("%s is %T %v, want %d nodes", p, v, v, len(es))
			}
			for i, e := range es {
				if err := sameDoc(a[i], e.node, fmt.Sprintf("%s[%d].", p, i)); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func (n *exNode) stats(x *Ctx, depth int) {
	if depth > 2 {
		x.Class("nodes in nodes")
	}
	runs := map[string]int{}
	last := ""
	for _, e := range n.entries {
		if e.m.array && e.m.tag != last {
			runs[e.m.tag]++
		}
		last = e.m.tag
		if e.node != nil {
			e.node.stats(x, depth+1)
		}
	}
	tags := n.byTag()
	x.ClassIf(depth > 0 && len(tags) > 40, "inner node of over 40 tags")
	for tag, es := range tags {
		x.ClassIf(runs[tag] > 1, "arrays with items of others between theirs")
		x.ClassIf(!es[0].m.array && len(es) > 1, "repeated single value")
		x.ClassIf(es[0].m.array && len(es) > 3, "arrays of over 3 items")
	}
}

// ---------------------------------------------------------------- generated extraction grammars

var exTags = []string{"a", "b", "items", "name", "x_y", "é", "", "doc", "c", "_"}

type exGen struct {
	cates map[string]int
}

// tag draws a tag of the wanted kind: 0 leaf 1 leafs 2 node 3 nodes.
func (g *exGen) tag(t *rapid.T, cate int) string {
	s := pick(t, exTags)
	for i := 0; i < 20; i++ {
		if c, ok := g.cates[s]; !ok || c == cate {
			break
		}
		s = exTags[(i+intn(t, len(exTags)))%len(exTags)]
	}
	if c, ok := g.cates[s]; ok && c != cate {
		s = fmt.Sprintf("t%d", cate)
	}
	g.cates[s] = cate
	return s
}

func (g *exGen) name(t *rapid.T, typ string, array bool) string {
	cate := 0
	if array {
		cate = 1
	}
	if typ == "Node" {
		cate += 2
	}
	name := g.tag(t, cate) + "_" + typ
	if array {
		name += pick(t, []string{"s", "Array"})
	}
	return name
}

func leafType(t *rapid.T, class string) string {
	if chance(t, 12) {
		return pick(t, []string{"Int", "Float", "String", "Char", "Text", "Foo"})
	}
	switch class {
	case "INT":
		return pick(t, []string{"Int", "Float", "Text"})
	case "FLOAT":
		return pick(t, []string{"Float", "Text"})
	case "STRING":
		return pick(t, []string{"String", "Text"})
	case "CHAR":
		return pick(t, []string{"Char", "Text"})
	}
	return "Text"
}

// nameExMarks names the marks of a random grammar.
func (g *exGen) nameMarks(t *rapid.T, gram *Gram) {
	for _, m := range gram.marks() {
		k := m.Kids[0]
		leaf := k.Op == "tok" || chance(t, 25)
		if leaf {
			class := ""
			if k.Op == "tok" {
				class = k.T
			}
			m.Name = g.name(t, leafType(t, class), chance(t, 55))
		} else {
			m.Name = g.name(t, "Node", chance(t, 60))
		}
	}
}

// records is a grammar of nested records whose alternatives begin alike.
func (g *exGen) records(t *rapid.T) *Gram {
	classes := []string{"INT", "STRING", "IDENT", "CHAR", "FLOAT"}
	puncts := []string{",", ":", "=", "+", "->"[:1], "."}
	tok := func(c string) *G { return &G{Op: "tok", T: c} }
	leaf := func(t *rapid.T, arrays int) *G {
		c := pick(t, classes)
		x := tok(c)
		if chance(t, 85) {
			x = &G{Op: "mark", Name: g.name(t, leafType(t, c), chance(t, arrays)), Kids: []*G{x}}
		}
		return x
	}
	node := func(t *rapid.T, x *G) *G {
		return &G{Op: "mark", Name: g.name(t, "Node", chance(t, 75)), Kids: []*G{x}}
	}
	open := &G{Op: "and", Kids: []*G{tok("("), {Op: "rep0", Kids: []*G{{Op: "ref", Name: "item"}}}, tok(")")}}
	alts := many(t, 1, 6, 3, func(t *rapid.T) *G {
		switch weighted(t, 4, 3, 2, 2) {
		case 0:
			return leaf(t, 60)
		case 1: // pair
			x := &G{Op: "and", Kids: []*G{leaf(t, 30), tok(pick(t, puncts)), leaf(t, 30)}}
			if chance(t, 40) {
				x.Kids = append(x.Kids, tok(pick(t, puncts)), leaf(t, 30))
			}
			if chance(t, 75) {
				return node(t, x)
			}
			return x
		case 2: // nested
			if chance(t, 25) {
				return open
			}
			if chance(t, 40) {
				return node(t, &G{Op: "and", Kids: []*G{leaf(t, 30), open}})
			}
			return node(t, open)
		default: // list
			x := leaf(t, 70)
			if chance(t, 40) {
				x = node(t, &G{Op: "and", Kids: []*G{leaf(t, 30), tok(":"), leaf(t, 30)}})
			}
			l := &G{Op: "and", Kids: []*G{tok("["), {Op: pick(t, []string{"list", "list0"}), Kids: []*G{x, tok(",")}}, tok("]")}}
			if chance(t, 40) {
				return node(t, l)
			}
			return l
		}
	})
	item := &G{Op: "or", Kids: alts}
	if len(alts) == 1 {
		item = alts[0]
	}
	doc := &G{Op: "rep0", Kids: []*G{{Op: "ref", Name: "item"}}}
	if chance(t, 20) {
		doc = &G{Op: "and", Kids: []*G{leaf(t, 30), doc}}
	}
	gram := &Gram{Rules: []Rule{{"doc", doc}, {"item", item}}}
	// the trees share nodes: make them trees
	b, _ := json.Marshal(gram)
	gram = &Gram{}
	json.Unmarshal(b, gram)
	gram.number()
	return gram
}

// ExCase is an extraction grammar with inputs.
type ExCase struct {
	Gram *Gram
	Text Text
	Mode uint
	Conv int
	Srcs []Text
	Ops  []int // per input: which entry point
}

func genExCase(history bool) func(t *rapid.T) ExCase {
	return func(t *rapid.T) ExCase {
		g := &exGen{cates: map[string]int{}}
		c := ExCase{}
		if chance(t, 65) {
			c.Gram = g.records(t)
		} else {
			o := gramOpts{normal: true, marks: 35}
			if history {
				o.cuts = 6
			} else if chance(t, 30) {
				o.cuts = 3
			}
			c.Gram = genGram(t, o)
			g.nameMarks(t, c.Gram)
			if chance(t, 40) {
				shuffleRules(t, c.Gram)
			}
		}
		c.Text = c.Gram.genText(t)
		c.Conv = weighted(t, 75, 12, 10, 3)
		if chance(t, 12) {
			c.Mode = uint(tpl.InsertSemis)
		}
		max := 6
		if history {
			max = 10
		}
		c.Srcs = genInputs(t, c.Gram, "doc", max)
		if history {
			for i := range c.Srcs {
				if chance(t, 12) {
					s := string(c.Srcs[i])
					at := intn(t, len(s)+1)
					c.Srcs[i] = Text(s[:at] + pick(t, []string{`"`, "`", "'", "\xff", "/*", "0x", "1e", "\x00", "$", `"\q"`, "''"}) + s[at:])
				}
				c.Ops = append(c.Ops, weighted(t, 4, 3, 3, 3))
			}
		}
		return c
	}
}

// meaning: the marks with their numbers and the grammar with node marks as transactions.
func (c ExCase) meaning() (gram *Gram, marks map[int]exMark) {
	b, _ := json.Marshal(c.Gram)
	gram = &Gram{}
	json.Unmarshal(b, gram)
	marks = map[int]exMark{}
	gram.walk(func(g *G) {
		if g.Op != "mark" {
			return
		}
		m, ok := splitMark(g.Name)
		if !ok {
			panic("harness: mark " + g.Name)
		}
		marks[g.ID] = m
		if m.typ == "Node" {
			g.Op = "trans"
		}
	})
	return
}

func newExtractor(c ExCase) (*extractor.Engine, error) {
	opt := &extractor.Options{ScanMode: tpl.ScanMode(c.Mode), GetValue: customValue(c.Conv)}
	if c.Mode == 0 && c.Conv == 0 && len(c.Text)%2 == 0 {
		opt = nil
	}
	if len(c.Text)%3 == 0 {
		return extractor.New([]byte(c.Text), opt)
	}
	return extractor.New(string(c.Text), opt)
}

func checkE01(c ExCase, x *Ctx) error {
	selfCheck(c.Gram, string(c.Text))
	gram, marks := c.meaning()
	mode := tpl.ScanMode(c.Mode)
	e, err := newExtractor(c)
	if err != nil {
		return failf("well-formed extraction grammar %q is rejected: %v", c.Text, err)
	}
	return eachText(gram, "doc", mode, c.Srcs, x, func(src string, toks []PTok, ref RefRes) error {
		want := refExtract(ref, refLex(src, mode&tpl.InsertSemis != 0).tokens(mode), marks, c.Conv)
		doc, err := e.SafeExtract(src)
		if err := sameParse(doc, err, want); err != nil {
			return err
		}
		if err == nil {
			if r := e.Result(); !reflect.DeepEqual(fmt.Sprintf("%#v", r), fmt.Sprintf("%#v", doc)) {
				return failf("Result is %#v, want %#v", r, doc)
			}
			x.NonTrivialIf(len(want.doc.entries) > 1)
			want.doc.stats(x, 0)
			x.ClassIf(want.rolled, "abandoned node")
			x.ClassIf(c.Conv != 0, "custom conversion")
		}
		return nil
	})
}

func sameParse(doc map[string]interface{}, err error, want exResult) error {
	if err != nil {
		if !want.fail && !want.mayFail {
			return failf("the parse fails: %v", err)
		}
		if err.Error() == "" {
			return failf("empty error")
		}
		if doc != nil {
			return failf("both a document %v and an error", doc)
		}
		return nil
	}
	if want.fail {
		return failf("no error, document %v", doc)
	}
	return sameDoc(doc, want.doc, "")
}

// ---------------------------------------------------------------- E02

// LeafCase is a grammar doc = *(Class/Mark | ...) and literals.
type LeafCase struct {
	Alts []LeafAlt
	Lits []LeafLit
	Conv int
}

// LeafAlt is an alternative of the grammar.
type LeafAlt struct{ Class, Mark string }

// LeafLit is a token of the input.
type LeafLit struct {
	Kind uint
	Lit  Text
}

var leafClasses = []string{"INT", "FLOAT", "STRING", "CHAR", "IDENT", "IMAG"}

func genLeaf(t *rapid.T, class string) LeafLit {
	switch class {
	case "INT":
		if chance(t, 30) {
			return LeafLit{kINT, Text(pick(t, []string{"0", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1000000000000000000000",
				"2147483648", "4294967296", "9007199254740993", "00", "0777", "0x7fffffffffffffff", "0xffffffffffffffff"}))}
		}
		return LeafLit{kINT, Text(genInt(t))}
	case "FLOAT":
		if chance(t, 15) {
			return LeafLit{kFLOAT, Text(pick(t, []string{"1e308", "1e309", "1e999", "5e-324", "1e-999", "0.1", "1.7976931348623157e308", "09.", "1e22", "123456789.123456789e-5"}))}
		}
		return LeafLit{kFLOAT, Text(genFloat(t))}
	case "STRING":
		if chance(t, 30) {
			return LeafLit{kSTRING, Text(genRaw(t))}
		}
		return LeafLit{kSTRING, Text(genString(t))}
	case "CHAR":
		return LeafLit{kCHAR, Text(genChar(t))}
	case "IMAG":
		return LeafLit{kIMAG, Text(genImag(t))}
	}
	return LeafLit{kIDENT, Text(pick(t, []string{"a", "abc", "_", "é", "true", "x1", "Inf", "NaN", "e5", "infinity"}))}
}

func genLeafCase(t *rapid.T) LeafCase {
	c := LeafCase{Conv: weighted(t, 8, 1, 1)}
	types := []string{"Int", "Float", "String", "Text", "Char"}
	n := between(t, 1, 3)
	for i := 0; i < n; i++ {
		class := pick(t, leafClasses)
		typ := leafType(t, class)
		if chance(t, 25) {
			typ = pick(t, types)
		} else if chance(t, 5) {
			typ = pick(t, []string{"", "Foo", "int", "Nod", "ints"[:3], "Array", "Xyz9"})
		}
		c.Alts = append(c.Alts, LeafAlt{class, string(rune('a'+i)) + "_" + typ + pick(t, []string{"s", "Array", ""})})
	}
	c.Lits = many(t, 1, 12, 2, func(t *rapid.T) LeafLit { return genLeaf(t, c.Alts[intn(t, n)].Class) })
	return c
}

func checkLeaf(c LeafCase, x *Ctx) error {
	var alts, lits []string
	for _, a := range c.Alts {
		alts = append(alts, a.Class+"/"+a.Mark)
	}
	text := "doc = *(" + strings.Join(alts, " | ") + ")"
	for _, l := range c.Lits {
		lits = append(lits, string(l.Lit))
	}
	src := strings.Join(lits, " ")
	lex := refLex(src, false)
	if len(lex.Errs) > 0 || len(lex.Toks) != len(c.Lits) {
		return errSkip
	}
	root := &exNode{}
	want := exResult{doc: root}
	for i, tok := range lex.Toks {
		if tok.Kind != c.Lits[i].Kind {
			return errSkip
		}
		var m exMark
		found := false
		for _, a := range c.Alts {
			if cl := kindClass[tok.Kind]; a.Class == cl || a.Class == "FLOAT" && cl == "INT" {
				m, found = splitMarkMust(a.Mark), true
				break
			}
		}
		if !found {
			want.fail = true
			break
		}
		v := exConvert(c.Conv, m.typ, tok.Kind, tok.Lit)
		x.Class(fmt.Sprintf("%s of %s: %s", m.typ, kindClass[tok.Kind], map[bool]string{true: "fails", false: "value"}[len(v.vals) == 0]))
		if len(v.vals) == 0 {
			want.fail = true
			break
		}
		want.mayFail = want.mayFail || v.fail
		root.entries = append(root.entries, &exEntry{m: m, leaf: v})
	}
	e, err := extractor.New(text, &extractor.Options{GetValue: customValue(c.Conv)})
	if err != nil {
		return failf("New: %v", err)
	}
	x.NonTrivial()
	for i := 0; i < 2; i++ {
		doc, err := e.SafeExtract(src)
		if i == 1 {
			doc, err = e.SafeParse([]byte(src), "f")
		}
		if err := sameParse(doc, err, want); err != nil {
			return failf("%s on %s: %v", text, src, err)
		}
	}
	return nil
}

func splitMarkMust(s string) exMark {
	m, ok := splitMark(s)
	if !ok {
		panic("harness: mark " + s)
	}
	return m
}

// MarkNameCase: grammars with marks that aren't of the form tag_Type.
type MarkNameCase struct {
	Mark string
	Src  string
}

func genMarkName(t *rapid.T) MarkNameCase {
	return MarkNameCase{
		Mark: pick(t, []string{"x", "Int", "items", "xInt", "xNode", "ints", "NodeArray", "é", "a1", "Text", "s", "Array"}),
		Src:  pick(t, []string{"1", "x", `"s"`, ""}),
	}
}

func checkMarkName(c MarkNameCase, x *Ctx) (err error) {
	x.NonTrivial()
	defer func() {
		switch e := recover().(type) {
		case nil:
		case runtime.Error:
			err = failf("mark %s: %v", c.Mark, e)
		case string, error:
			err = nil
		default:
			err = failf("mark %s: panic %T", c.Mark, e)
		}
	}()
	e, err := extractor.New("doc = ?(INT | IDENT | STRING)/"+c.Mark, nil)
	if err != nil {
		return nil
	}
	doc, err := e.SafeExtract(c.Src)
	if err == nil {
		return failf("mark %s without a type is accepted, document %v", c.Mark, doc)
	}
	return nil
}

// ---------------------------------------------------------------- E03

func parseWith(e *extractor.Engine, op int, src string) (doc map[string]interface{}, err error) {
	switch op {
	case 0:
		return e.SafeExtract(src)
	case 1:
		return e.SafeParse([]byte(src), "file")
	case 2:
		return e.Extract(src)
	}
	// not a safe one: it may panic
	defer func() {
		switch v := recover().(type) {
		case nil:
		case string:
			err = errors.New(v)
		case error:
			err = v
		default:
			panic(v)
		}
	}()
	return e.Parse([]byte(src), "file")
}

func checkE03(c ExCase, x *Ctx) error {
	gram, marks := c.meaning()
	mode := tpl.ScanMode(c.Mode)
	e, err := newExtractor(c)
	if err != nil {
		return failf("well-formed extraction grammar %q is rejected: %v", c.Text, err)
	}
	type shot struct {
		doc  map[string]interface{}
		text string
	}
	var shots []shot
	failed, used := false, 0
	for i, s := range c.Srcs {
		src := string(s)
		toks, ok := pegToks(src, mode, gram.keywords())
		var want exResult
		if ok {
			ref, ok := refMatch(gram, gram.rule("doc"), toks, stepsFor(toks))
			if !ok {
				x.Class("too many steps")
				continue
			}
			want = refExtract(ref, refLex(src, mode&tpl.InsertSemis != 0).tokens(mode), marks, c.Conv)
			x.ClassIf(ref.Abort, "cut aborts")
			x.ClassIf(want.fail && ref.OK && ref.N == len(toks), "conversion fails")
		} else {
			want.fail = true
			x.Class("lexical error")
		}
		doc, err := parseWith(e, c.Ops[i], src)
		if err := sameParse(doc, err, want); err != nil {
			return failf("input %d %q (entry %d): %v", i, src, c.Ops[i], err)
		}
		fresh, err2 := newExtractor(c)
		if err2 != nil {
			return err2
		}
		doc2, err2 := parseWith(fresh, c.Ops[i], src)
		if (err == nil) != (err2 == nil) || fmt.Sprintf("%#v", doc) != fmt.Sprintf("%#v", doc2) {
			return failf("input %d %q: %v, %v; a fresh extractor gives %v, %v", i, src, doc, err, doc2, err2)
		}
		if err != nil {
			if a, b := fmt.Sprint(err), fmt.Sprint(err2); a != b {
				return failf("input %d %q: error %q; a fresh extractor gives %q", i, src, a, b)
			}
			failed = true
		} else {
			x.ClassIf(failed, "success after failure")
			x.NonTrivialIf(used > 0 && want.leaves > 0)
			shots = append(shots, shot{doc, fmt.Sprintf("%#v", doc)})
		}
		used++
	}
	for i, s := range shots {
		if now := fmt.Sprintf("%#v", s.doc); now != s.text {
			return failf("document %d was changed by later parses: %s, was %s", i, now, s.text)
		}
	}
	if used == 0 {
		return errSkip
	}
	return nil
}

func init() {
	reg("E01", "documents", "random extraction grammars and inputs; non-trivial: accepted, over one item at the top level", 40000, 1500000, genExCase(false), checkE01)
	reg("E02", "leaves", "literals of all forms for leaf marks of all types; non-trivial: every case whose literals are single tokens", 40000, 2000000, genLeafCase, checkLeaf)
	reg("E02", "mark names", "marks without a type; non-trivial: all", 400, 4000, genMarkName, checkMarkName)
	reg("E03", "histories", "sequences of inputs on one extractor; non-trivial: a document with leaves after another parse", 20000, 800000, genExCase(true), checkE03)
}
