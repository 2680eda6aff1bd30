package main

// Meaning of the code attached to the grammar: each code node is interpreted
// on symbolic label values whose dynamic types follow from the grammar below
// them, and its result is compared with the value the reference grammar
// assigns to the construct.

import (
	_ "embed"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec.peg
var specPEG string

type semTab struct {
	r     *Rep
	g     *gtable
	ref   *pegFile
	al    *aligner
	refOf map[*gnode]*gnode // subject code node -> reference code node
	side  *aside
	any   types.Type
	list  types.Type
	types map[string][]types.Type
	busy  map[*gnode]bool
	shm   map[*gnode]*lshape
	// contents of the option store and of the parse state, nil for unknown
	storeInit, stateInit *T
	// run this function on the parser and the labels instead of the code of the table
	instead *pegCode
	// labels are given by the caller
	opaqueLabels bool
}

// lshape is what is known of the value of an expression.
type lshape struct {
	types []types.Type // dynamic types; nil for the nil value
	elem  *lshape      // of []interface{}
	never bool         // the expression cannot match
}

func (r *Rep) sem() *semTab {
	if r.semt != nil {
		return r.semt
	}
	s := &semTab{r: r, g: r.grammar(), refOf: map[*gnode]*gnode{}, busy: map[*gnode]bool{}, shm: map[*gnode]*lshape{}}
	s.ref = parsePEG("spec.peg", specPEG)
	s.al = align(s.ref.by, s.g.by, s.ref.rules[0].name, s.g.rules[0].name)
	for _, p := range s.al.pairs {
		s.refOf[p.sub] = p.ref
	}
	s.side = s.al.b
	s.any = types.Universe.Lookup("any").Type()
	s.list = types.NewSlice(s.any)
	s.types = map[string][]types.Type{}
	ast := func(n string) types.Type { return needType(r.p.typ("ast", n), "type ast."+n) }
	for k, names := range map[string]string{
		"emptyConfig": "Config", "retConfig": "Config", "configSection": "PluginSection", "config": "Config", "whitespace": "Whitespace",
		"pluginSection": "PluginSection", "plugin": "Plugin", "string": "StringAttribute", "regexp": "Regexp", "number": "NumberAttribute",
		"array": "ArrayAttribute", "hash": "HashAttribute", "hashentry": "HashEntry", "elseIfComment": "ElseIfBlock", "elseComment": "ElseBlock",
		"branch": "Branch", "branchOrPluginComment": "Branch Plugin", "ifBlock": "IfBlock", "elseIfBlock": "ElseIfBlock", "elseBlock": "ElseBlock",
		"condition": "Condition", "conditionExpression": "ConditionExpression", "negativeExpression": "NegativeConditionExpression",
		"negativeSelector": "NegativeSelectorExpression", "inExpression": "InExpression", "notInExpression": "NotInExpression",
		"compareExpression": "CompareExpression", "regexpExpression": "RegexpExpression", "rvalue": "RvalueExpression",
		"compareOperator": "CompareOperator", "regexpOperator": "RegexpOperator", "booleanOperator": "BooleanOperator", "selector": "Selector",
		"selectorElement": "SelectorElement",
		"expression":      "ConditionExpression NegativeConditionExpression NegativeSelectorExpression InExpression NotInExpression CompareExpression RegexpExpression RvalueExpression",
		"attribute":       "StringAttribute NumberAttribute ArrayAttribute HashAttribute PluginAttribute",
		// the value of an attribute or array element with its comment
		"attributeComment": "StringAttribute NumberAttribute ArrayAttribute HashAttribute PluginAttribute",
	} {
		for _, n := range strings.Fields(names) {
			t := ast(n)
			if strings.HasSuffix(n, "Expression") {
				// expressions travel as pointers when their method set asks for it
				if !types.Implements(t, ast("Expression").Underlying().(*types.Interface)) {
					t = types.NewPointer(t)
				}
			}
			s.types[k] = append(s.types[k], t)
		}
	}
	s.types["comment"] = []types.Type{types.NewSlice(ast("Comment"))}
	s.types["attributes"] = []types.Type{types.NewSlice(ast("Attribute"))}
	s.types["hashentries"] = []types.Type{types.NewSlice(ast("HashEntry"))}
	s.types["enclosed"] = []types.Type{tString}
	s.types["skip"] = []types.Type{tString}
	s.types["kind"] = []types.Type{types.Typ[types.Int]}
	r.semt = s
	return s
}

func semName(n *gnode) (name string, args []string) {
	f := strings.Fields(n.code)
	return f[0], f[1:]
}

func (l *lshape) join(m *lshape) *lshape {
	if l == nil || l.never {
		return m
	}
	if m == nil || m.never {
		return l
	}
	out := &lshape{types: append([]types.Type{}, l.types...), elem: l.elem}
	for _, t := range m.types {
		dup := false
		for _, u := range out.types {
			if t == nil && u == nil || sameType(t, u) {
				dup = true
			}
		}
		if !dup {
			out.types = append(out.types, t)
		}
	}
	if out.elem == nil {
		out.elem = m.elem
	}
	return out
}

// shape of the value of a subject expression.
func (s *semTab) shape(n *gnode) *lshape {
	if l := s.shm[n]; l != nil {
		return l
	}
	if s.busy[n] {
		return nil
	}
	s.busy[n] = true
	l := s.shape0(n)
	delete(s.busy, n)
	s.shm[n] = l
	return l
}

func (s *semTab) shape0(n *gnode) *lshape {
	switch n.kind {
	case "ref":
		m := s.side.deref(n)
		if m == nil {
			panic(anchorError("rule " + n.name))
		}
		return s.shape(m)
	case "choice":
		var l *lshape
		for _, k := range n.kids {
			l = l.join(s.shape(k))
		}
		return l
	case "label":
		return s.shape(n.kids[0])
	case "seq":
		// an element that cannot match makes the sequence fail
		var e *lshape
		for _, k := range n.kids {
			ks := s.shape(k)
			if ks != nil && ks.never {
				return ks
			}
			e = e.join(ks)
		}
		return &lshape{types: []types.Type{s.list}, elem: e}
	case "star", "plus":
		return &lshape{types: []types.Type{s.list}, elem: s.shape(n.kids[0])}
	case "opt":
		return s.shape(n.kids[0]).join(&lshape{types: []types.Type{nil}})
	case "lit", "class", "any":
		return &lshape{types: []types.Type{types.NewSlice(types.Typ[types.Byte])}}
	case "and", "not", "statecode":
		return &lshape{types: []types.Type{nil}}
	case "andcode", "notcode":
		if ref := s.refOf[n]; ref != nil {
			if nm, _ := semName(ref); nm == "fail" || nm == "fatal" {
				return &lshape{never: true}
			}
		}
		return &lshape{types: []types.Type{nil}}
	case "action":
		ref := s.refOf[n]
		if ref == nil {
			panic(anchorError("code node of the grammar without a counterpart in the reference"))
		}
		name, args := semName(ref)
		if name == "same" {
			var la []*gnode
			scopeOf(s.side, s.side.deref(n.kids[0]), &la)
			_ = args
			if len(la) != 1 {
				panic(anchorError("label of a value passed on"))
			}
			return s.shape(la[0].kids[0])
		}
		ts := s.types[name]
		if ts == nil {
			panic(anchorError("meaning " + name))
		}
		if name == "attributeComment" {
			return &lshape{types: ts}
		}
		return &lshape{types: ts}
	}
	panic(anchorError("expression " + n.kind))
}

type semRun struct {
	e      *Exec
	outs   []Outcome
	labels map[string]*T
	parser *T
	cur    *T
	pos    *T
	text   *T
	store  *T
	state  *T
}

// run interprets the code of a node. text is the matched text (a string term); labels not given are symbolic.
func (s *semTab) run(p *npair, text *T, given map[string]*T, conf func(e *Exec)) *semRun {
	r := s.r
	e := r.exec()
	e.hazards = true
	fn := p.sub.run
	pt := fn.Params[0].Type()
	pst := ptrElem(pt)
	ps := structOf(pst)
	if ps == nil || fieldType(ps, "cur") == nil || fieldType(ps, "vstack") == nil {
		panic(anchorError("parser object with cur and vstack"))
	}
	curT := fieldType(ps, "cur")
	cs := structOf(curT)
	for _, f := range []string{"pos", "text", "state", "globalStore"} {
		if cs == nil || fieldType(cs, f) == nil {
			panic(anchorError("field " + f + " of the code context"))
		}
	}
	sr := &semRun{e: e, labels: map[string]*T{}}
	sr.pos = mkSym("pos", fieldType(cs, "pos"))
	sr.text = text
	st := newSt()
	dict := func(name, field string, init *T) *T {
		if init == nil {
			return mkSym(name, fieldType(cs, field))
		}
		m := mk(&T{k: KMap, s: name, typ: fieldType(cs, field)})
		st.mem[m] = init
		return m
	}
	sr.state, sr.store = dict("state", "state", s.stateInit), dict("store", "globalStore", s.storeInit)
	sr.cur = structWith(curT, "pos", sr.pos, "text", mkConv(fieldType(cs, "text"), text), "state", sr.state, "globalStore", sr.store)
	sr.parser = mkSym("parser", pt)
	e.assume(st, mkNot(mkEq(sr.parser, mkNil(pt))))
	vt := fieldType(ps, "vstack")
	mt := under(vt).(*types.Slice).Elem()
	m := mk(&T{k: KMap, s: "labels", typ: mt})
	v := mkApp("mapnew", mt)
	shapes := map[*T]*lshape{}
	for ref, sub := range p.scope {
		x := given[ref]
		if x != nil && x.k == KIface && sameType(x.xt, s.list) {
			if sh := s.shape(p.kids[ref]); sh != nil && sh.elem != nil {
				shapes[x.a[0]] = sh
			}
		}
		if x == nil {
			sh := s.shape(p.kids[ref])
			if sh == nil {
				panic(anchorError("shape of label " + ref))
			}
			if len(sh.types) == 1 && sh.types[0] != nil {
				inner := mkSym(ref, sh.types[0])
				x = mkIface(sh.types[0], inner, s.any)
				if sh.elem != nil {
					shapes[inner] = sh
				}
			} else {
				x = mkSym(ref, s.any)
				shapes[x] = sh
			}
		}
		sr.labels[ref] = x
		v = mkApp("mapupd", nil, v, mkStr(sub), x)
	}
	st.mem[m] = v
	if s.opaqueLabels {
	} else if n := s.minLen(p.sub.kidOr(), map[*gnode]bool{}); n > 0 && !text.isConst() {
		e.assume(st, mkLE(linScale(linAddC(mkLen(text), -n), -1)))
	}
	p0 := structWith(pst, "cur", sr.cur, "vstack", mkSeq(vt, mkUnit(m)))
	st.mem[sr.parser] = p0
	// the store of the memory of opaque elements
	prev := e.shapeOf
	e.shapeOf = func(t *T) *Shape {
		if sh := shapes[t]; sh != nil && isIfaceType(t.typ) {
			return &Shape{types: sh.types}
		}
		if cs := s.kindConsts(t); cs != nil {
			return cs
		}
		if t.k == KElem && isIfaceType(t.typ) {
			if sh := s.elemShape(shapes, t.a[0]); sh != nil {
				return &Shape{types: sh.types}
			}
		}
		if prev != nil {
			return prev(t)
		}
		return nil
	}
	if conf != nil {
		conf(e)
	}
	if s.instead != nil {
		fn = s.instead.fn
	}
	args := []*T{sr.parser}
	if s.instead != nil {
		for _, l := range s.instead.labels {
			args = append(args, sr.labels[l])
		}
	}
	sr.outs = e.Call(fn, args, nil, st, nil, nil)
	return sr
}

func semDump(dir, only string) {
	p, err := loadProg(dir)
	if err != nil {
		fmt.Println(err)
		return
	}
	r := &Rep{p: p}
	s := r.sem()
	for _, d := range s.al.diffs {
		fmt.Println("DIFF", d)
	}
	seen := map[string]bool{}
	for _, q := range s.al.pairs {
		nm := strings.TrimSpace(q.ref.code)
		if seen[nm] || only != "" && !strings.HasPrefix(nm, only) {
			continue
		}
		seen[nm] = true
		func() {
			defer func() {
				if x := recover(); x != nil {
					fmt.Println("PANIC", nm, x)
				}
			}()
			sr := s.run(q, mkSym("text", tString), nil, s.conf)
			fmt.Printf("== %s %s (%s)\n", nm, q.sub.codeName(), q.ref.rule)
			for _, o := range sr.outs {
				fmt.Printf("  kind %d facts %s\n", o.kind, clip(factsString(o.st.facts), 600))
				for _, v := range o.vals {
					fmt.Println("    ", clip(v.String(), 1500))
				}
				if o.pan != nil {
					fmt.Println("     panic", clip(o.pan.String(), 200))
				}
				for _, ev := range o.st.ev {
					fmt.Println("     ev", clip(ev.String(), 200))
					if ev.lp != nil && !seen[ev.lp.sig+fmt.Sprint(ev.lp.id)] {
						seen[ev.lp.sig+fmt.Sprint(ev.lp.id)] = true
						dumpLoop(ev.lp)
					}
				}
			}
			for _, u := range sr.e.undec {
				fmt.Println("  UNDEC", u)
			}
		}()
	}
}

// takesAny: one of the parameters is a value of any type.
func takesAny(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if i, ok := under(p.Type()).(*types.Interface); ok && i.NumMethods() == 0 {
			return true
		}
	}
	return false
}

// commentFn is the function that turns the value of white space into a comment block.
func (s *semTab) commentFn() *ssa.Function {
	cb := needType(s.r.p.typ("ast", "CommentBlock"), "type ast.CommentBlock")
	var out []*ssa.Function
	for _, fn := range s.r.p.funcs {
		if fn.Pkg != s.r.p.pkg("") || fn.Parent() != nil {
			continue
		}
		if res := fn.Signature.Results(); res.Len() == 1 && sameType(res.At(0).Type(), cb) && takesAny(fn) {
			out = append(out, fn)
		}
	}
	return s.r.pick("makes comment blocks", out, s.r.p.funcs)
}

func (s *semTab) conf(e *Exec) {
	cf := s.commentFn()
	prev := e.hook
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn == cf {
			var args []*T
			for i, pa := range cf.Params {
				if i == 0 && cf.Signature.Recv() != nil {
					continue
				}
				_ = pa
				args = append(args, e.resolve(ci.st, ci.args[i]))
			}
			return []Outcome{{st: ci.st, vals: []*T{mkApp("comments", cf.Signature.Results().At(0).Type(), args...)}}}, true
		}
		if prev != nil {
			return prev(ci)
		}
		return nil, false
	}
}

// elemShape is what is known of the elements of a list.
func (s *semTab) elemShape(shapes map[*T]*lshape, l *T) *lshape {
	l = unconv(l)
	switch l.k {
	case KSub:
		return s.elemShape(shapes, l.a[0])
	case KAs:
		if sh := shapes[l.a[0]]; sh != nil {
			return sh.elem
		}
	case KSeq:
		var out *lshape
		for _, p := range l.a {
			var sh *lshape
			switch {
			case p.k == KUnit && p.a[0].k == KIface:
				sh = &lshape{types: []types.Type{p.a[0].xt}}
			case p.k == KUnit && p.a[0].isNil():
				sh = &lshape{types: []types.Type{nil}}
			case p.k == KUnit:
				sh = shapes[p.a[0]]
			default:
				sh = s.elemShape(shapes, p)
			}
			if sh == nil {
				return nil
			}
			out = out.join(sh)
		}
		return out
	}
	if sh := shapes[l]; sh != nil {
		return sh.elem
	}
	return nil
}

func (n *gnode) kidOr() *gnode {
	if len(n.kids) > 0 {
		return n.kids[0]
	}
	return &gnode{kind: "statecode"}
}

// kindConsts lists the kinds a section or string of a parsed tree can have.
func (s *semTab) kindConsts(t *T) *Shape {
	if t.k != KField && t.k != KSym || t.typ == nil {
		return nil
	}
	for tn, names := range map[string][]string{"PluginType": {"Input", "Filter", "Output"}, "StringAttributeType": {"DoubleQuoted", "SingleQuoted", "Bareword"}} {
		if ty := s.r.p.typ("ast", tn); ty != nil && sameType(t.typ, ty) {
			sh := &Shape{consts: map[*T]bool{}}
			for _, n := range names {
				sh.consts[mkInt(needConst(s.r.p, "ast", n))] = true
			}
			return sh
		}
	}
	return nil
}

func dumpLoop(lp *Loop) {
	for i, h := range lp.heads {
		fmt.Printf("   head %d vals %v flags %v carry %s\n", i, h.vals, h.flags, clip(factsString(h.carry), 300))
	}
	for _, t := range lp.trans {
		fmt.Printf("   %d->%d facts %s\n       emit %s\n", t.from, t.to, clip(factsString(t.facts), 500), clip(fmt.Sprint(t.emit), 1200))
		for k, v := range t.vals {
			fmt.Println("       val", k, clip(v.String(), 200))
		}
		for _, ev := range t.ev {
			fmt.Println("       ev", clip(ev.String(), 200))
		}
	}
	for _, c := range lp.comps {
		fmt.Println("   comp", c.key, c.mode, c.path, c.init)
	}
}
