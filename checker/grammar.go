package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gnode is a parsing expression read off the initialised grammar table.
type gnode struct {
	kind string // choice seq action label lit class any ref star plus opt and not andcode notcode statecode throw recover
	kids []*gnode
	name string // label, rule name
	lit  string
	want string
	ic   bool
	set  runeSet
	val  string
	run  *ssa.Function
	pos  string
	rule string
	id   int
	typ  string
	code string
}

type grule struct {
	name, display string
	expr          *gnode
}

type gtable struct {
	rules []*grule
	by    map[string]*grule
	nodes []*gnode
}

// runeSet is a sorted list of inclusive ranges.
type runeSet [][2]rune

func (s runeSet) norm() runeSet {
	sort.Slice(s, func(i, j int) bool { return s[i][0] < s[j][0] })
	var out runeSet
	for _, r := range s {
		if r[1] < r[0] {
			continue
		}
		if n := len(out); n > 0 && r[0] <= out[n-1][1]+1 {
			if r[1] > out[n-1][1] {
				out[n-1][1] = r[1]
			}
			continue
		}
		out = append(out, r)
	}
	return out
}

const maxRune = 0x10FFFF

func (s runeSet) invert() runeSet {
	s = s.norm()
	var out runeSet
	next := rune(0)
	for _, r := range s {
		if r[0] > next {
			out = append(out, [2]rune{next, r[0] - 1})
		}
		next = r[1] + 1
	}
	if next <= maxRune {
		out = append(out, [2]rune{next, maxRune})
	}
	return out
}

func (s runeSet) has(c rune) bool {
	for _, r := range s {
		if c >= r[0] && c <= r[1] {
			return true
		}
	}
	return false
}

func (s runeSet) String() string {
	var b strings.Builder
	for _, r := range s.norm() {
		if r[0] == r[1] {
			fmt.Fprintf(&b, "%q", r[0])
		} else {
			fmt.Fprintf(&b, "%q-%q", r[0], r[1])
		}
	}
	return "[" + b.String() + "]"
}

type grammarReader struct {
	r    *Rep
	e    *Exec
	st   *St
	g    *gtable
	kind map[string]string
	rule string
}

// grammar reads the parser table from the initialised package variables.
func (r *Rep) grammar() *gtable {
	if r.gram != nil {
		return r.gram
	}
	e := r.exec()
	gr := &grammarReader{r: r, e: e, st: newSt(), g: &gtable{by: map[string]*grule{}}}
	// the table is the package variable of pointer-to-struct type whose struct has a slice of pointers to a
	// struct holding a name and an expression
	var table *T
	for _, m := range r.p.pkg("").Members {
		gl, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		pt, ok := ptrElem(gl.Type()).(*types.Pointer)
		if !ok {
			continue
		}
		s := structOf(pt.Elem())
		if s == nil || fieldType(s, "rules") == nil {
			continue
		}
		gt := mk(&T{k: KGlobal, g: gl, typ: gl.Type(), s: gl.String()})
		table = gr.load(gt)
	}
	if table == nil {
		panic(anchorError("the package variable holding the grammar table"))
	}
	r.gramPtr = table
	gv := gr.load(table)
	rules := e.resolve(gr.st, mkField(gv, "rules", fieldType(structOf(gv.typ), "rules")))
	n := mkLen(rules)
	if !n.isInt() {
		panic(anchorError("the grammar table is a constant"))
	}
	for i := int64(0); i < n.int(); i++ {
		rv := gr.load(gr.elem(rules, i))
		name := gr.fstr(rv, "name")
		gr.rule = name
		ru := &grule{name: name, display: gr.fstr(rv, "displayName")}
		ru.expr = gr.node(gr.field(rv, "expr"))
		gr.g.rules = append(gr.g.rules, ru)
		if gr.g.by[name] != nil {
			r.fail("grammar", name, "", "the rule %s is defined twice", name)
		}
		gr.g.by[name] = ru
	}
	r.gram = gr.g
	return gr.g
}

func (gr *grammarReader) load(a *T) *T {
	return gr.e.load(gr.st, a, ptrElem(a.typ), nil, nil)
}

func (gr *grammarReader) elem(xs *T, i int64) *T {
	var et types.Type
	if s, ok := under(xs.typ).(*types.Slice); ok {
		et = s.Elem()
	}
	return gr.e.elemAt(gr.st, xs, mkInt(i), et)
}

func (gr *grammarReader) field(v *T, name string) *T {
	s := structOf(v.typ)
	if s == nil {
		panic(anchorError("grammar node field " + name))
	}
	ft := fieldType(s, name)
	if ft == nil {
		panic(anchorError("grammar node field " + name))
	}
	return gr.e.resolve(gr.st, mkField(v, name, ft))
}

func (gr *grammarReader) fstr(v *T, name string) string {
	f := gr.field(v, name)
	if !f.isStr() {
		panic(anchorError("constant grammar field " + name + ": " + f.String()))
	}
	return f.str()
}

func (gr *grammarReader) list(xs *T) []*T {
	n := mkLen(xs)
	if xs.isNil() {
		return nil
	}
	if !n.isInt() {
		panic(anchorError("constant list in grammar"))
	}
	var out []*T
	for i := int64(0); i < n.int(); i++ {
		out = append(out, gr.elem(xs, i))
	}
	return out
}

var nodeKinds = map[string]string{
	"choiceExpr": "choice", "actionExpr": "action", "seqExpr": "seq", "labeledExpr": "label", "andExpr": "and", "notExpr": "not",
	"zeroOrOneExpr": "opt", "zeroOrMoreExpr": "star", "oneOrMoreExpr": "plus", "ruleRefExpr": "ref", "stateCodeExpr": "statecode",
	"andCodeExpr": "andcode", "notCodeExpr": "notcode", "litMatcher": "lit", "charClassMatcher": "class", "anyMatcher": "any",
	"throwExpr": "throw", "recoveryExpr": "recover",
}

func (gr *grammarReader) node(x *T) *gnode {
	x = gr.e.resolve(gr.st, x)
	if x.k != KIface {
		panic(anchorError("grammar expression " + clip(x.String(), 80)))
	}
	pt, ok := x.xt.(*types.Pointer)
	if !ok {
		panic(anchorError("grammar expression type of " + clip(x.String(), 80)))
	}
	named, _ := pt.Elem().(*types.Named)
	tn := ""
	if named != nil {
		tn = named.Obj().Name()
	}
	n := &gnode{kind: nodeKinds[tn], rule: gr.rule, id: len(gr.g.nodes), typ: tn}
	if n.kind == "" {
		panic(anchorError("grammar expression type " + tn))
	}
	gr.g.nodes = append(gr.g.nodes, n)
	v := gr.e.load(gr.st, x.a[0], pt.Elem(), nil, nil)
	s := structOf(v.typ)
	pv := v
	if fieldType(s, "pos") != nil {
		pv = gr.field(v, "pos")
	}
	if ps := structOf(pv.typ); ps != nil && fieldType(ps, "line") != nil {
		n.pos = fmt.Sprintf("peg %s:%s", gr.field(pv, "line"), gr.field(pv, "col"))
	}
	runOf := func() *ssa.Function {
		f := gr.field(v, "run")
		if f.k != KFunc && !(f.k == KClosure && len(f.a) == 0) {
			panic(anchorError("code of grammar node in rule " + gr.rule))
		}
		return f.fn
	}
	switch n.kind {
	case "choice":
		for _, k := range gr.list(gr.field(v, "alternatives")) {
			n.kids = append(n.kids, gr.node(k))
		}
	case "seq":
		for _, k := range gr.list(gr.field(v, "exprs")) {
			n.kids = append(n.kids, gr.node(k))
		}
	case "action":
		n.run = runOf()
		n.kids = []*gnode{gr.node(gr.field(v, "expr"))}
	case "label":
		n.name = gr.fstr(v, "label")
		n.kids = []*gnode{gr.node(gr.field(v, "expr"))}
	case "and", "not", "opt", "star", "plus":
		n.kids = []*gnode{gr.node(gr.field(v, "expr"))}
	case "ref":
		n.name = gr.fstr(v, "name")
	case "statecode", "andcode", "notcode":
		n.run = runOf()
	case "lit":
		n.lit = gr.fstr(v, "val")
		n.want = gr.fstr(v, "want")
		n.ic = gr.field(v, "ignoreCase") == tTrue
	case "class":
		n.val = gr.fstr(v, "val")
		n.ic = gr.field(v, "ignoreCase") == tTrue
		var set runeSet
		for _, c := range gr.list(gr.field(v, "chars")) {
			k, ok := constant.Int64Val(c.cv)
			if !ok {
				panic(anchorError("constant characters of a class"))
			}
			set = append(set, [2]rune{rune(k), rune(k)})
		}
		rs := gr.list(gr.field(v, "ranges"))
		for i := 0; i+1 < len(rs); i += 2 {
			a, _ := constant.Int64Val(rs[i].cv)
			b, _ := constant.Int64Val(rs[i+1].cv)
			set = append(set, [2]rune{rune(a), rune(b)})
		}
		if len(gr.list(gr.field(v, "classes"))) > 0 {
			panic(anchorError("character class without Unicode tables"))
		}
		if gr.field(v, "inverted") == tTrue {
			set = set.invert()
		}
		n.set = set.norm()
	case "throw", "recover":
		panic(anchorError("grammar without throw and recovery expressions"))
	}
	return n
}

// show renders a node compactly.
func (n *gnode) show(d int) string {
	if d > 6 {
		return "…"
	}
	ks := func(sep string) string {
		var a []string
		for _, k := range n.kids {
			a = append(a, k.show(d+1))
		}
		return strings.Join(a, sep)
	}
	switch n.kind {
	case "choice":
		return "(" + ks(" / ") + ")"
	case "seq":
		return "(" + ks(" ") + ")"
	case "action":
		return ks("") + "{" + n.codeName() + "}"
	case "label":
		return n.name + ":" + ks("")
	case "lit":
		return fmt.Sprintf("%q", n.lit)
	case "class":
		return n.set.String()
	case "any":
		return "."
	case "ref":
		return n.name
	case "star":
		return ks("") + "*"
	case "plus":
		return ks("") + "+"
	case "opt":
		return ks("") + "?"
	case "and":
		return "&" + ks("")
	case "not":
		return "!" + ks("")
	}
	return n.kind + "{" + n.codeName() + "}"
}

func (n *gnode) codeName() string {
	if n.run != nil {
		return n.run.Name()
	}
	return strings.TrimSpace(n.code)
}
