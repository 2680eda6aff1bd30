package main

// C01, C02: what is accepted, and that every parse ends with a result or an error.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// codeRule: the code attached to the grammar decides as the reference says and never refuses a construct.
func (r *Rep) codeRule(prop string) {
	counts := map[string]int{}
	r.semRule("C01", func(c *sctx) {
		kind := c.p.ref.kind
		fs := factsString(c.o.st.facts)
		counts[c.name]++
		for _, ev := range allEvs(c.o.st.ev) {
			if ev.kind == "hazard" && !c.embedded(ev) {
				r.fail("code", c.construct("panics"), c.where(), "the code for %s may panic: %s (%s)", c.p.ref.rule, ev, fs)
			}
		}
		if c.name == "fatal" {
			ok := c.o.kind == OPanic && c.o.pan != nil && !bare(c.o.pan).isNil()
			r.check(ok, "code", c.construct("ends the parse"), c.where(), "the code for a missing delimiter in %s does not end the parse (%s)", c.p.ref.rule, fs)
			return
		}
		if c.o.kind != ORet {
			r.fail("code", c.construct("panics"), c.where(), "the code for %s panics with %v (%s)", c.p.ref.rule, c.o.pan, fs)
			return
		}
		err := c.o.vals[len(c.o.vals)-1]
		switch kind {
		case "action":
			if st := structOf(c.v.typ); st != nil && err.isNil() {
				if t := fieldType(st, "BoolExpression"); t != nil {
					// the operand of a later operator: its operator can be set
					x := mkField(c.v, "BoolExpression", t)
					r.check(c.e.truth(c.o.st, mkEq(x, mkNil(t))) == 0 || c.passed(), "code", c.construct("operator"), c.where(), "the code for %s makes an operand without a place for its operator (%s)", c.p.ref.rule, x)
				}
			}
			if c.name == "number" && !err.isNil() {
				fromParse := false
				for _, f := range c.o.st.facts {
					if strings.Contains(f.String(), "strconv.ParseFloat") {
						fromParse = true
					}
				}
				r.check(fromParse, "code", c.construct("refuses"), c.where(), "the code for numbers refuses other numbers than those outside the range (%s)", fs)
				return
			}
			r.check(err.isNil(), "code", c.construct("refuses"), c.where(), "the code for %s refuses what the grammar accepts: %s (%s)", c.p.ref.rule, err, fs)
		case "statecode":
			r.check(err.isNil(), "code", c.construct("refuses"), c.where(), "the code for %s refuses what the grammar accepts: %s (%s)", c.p.ref.rule, err, fs)
		case "andcode", "notcode":
			want := 0
			if c.name == "start" {
				want = 1
			}
			if kind == "notcode" {
				want = 1 - want
			}
			r.check(c.e.truth(c.o.st, c.o.vals[0]) == want, "code", c.construct("decides"), c.where(), "the code for %s answers %s (%s)", c.p.ref.rule, c.o.vals[0], fs)
			r.check(err.isNil(), "code", c.construct("refuses"), c.where(), "the code for %s adds the error %s", c.p.ref.rule, err)
		default:
			r.fail("code", c.construct("kind"), c.where(), "code of unknown kind %s", kind)
		}
	})
	r.check(counts["fail"] >= 10 && counts["fatal"] >= 10 && counts["start"] >= 1, "code", "predicates", "", "the predicates of the reference grammar were not all found (%v)", len(counts))
	r.floor("code", 400)
}

// embedded: the place for the operator of an operand made by the code for another construct, which is checked there.
func (c *sctx) embedded(ev *Ev) bool {
	return len(ev.args) == 1 && ev.args[0].k == KField && ev.args[0].s == "BoolExpression" && rootSym(ev.args[0], c.labels)
}

// passed: the value is that of a label.
func (c *sctx) passed() bool {
	for _, l := range c.labels {
		if unas(c.v) == unas(l) {
			return true
		}
	}
	return false
}

// engine finds the function that runs a parse: (grammar) (value, error).
func (r *Rep) engine() *ssa.Function {
	_, fns := r.parserFuncs()
	var out []*ssa.Function
	for _, fn := range fns {
		if len(fn.Params) == 2 && ptrNamed(fn.Params[1].Type()) == "grammar" && fn.Signature.Results().Len() == 2 && isErrType(fn.Signature.Results().At(1).Type()) {
			out = append(out, fn)
		}
	}
	return r.pick("runs a parse", out, fns)
}

func isErrType(t types.Type) bool { return types.Identical(t, errIface) }

// engineRule: whatever the evaluation of the first rule does, the parse ends with its value or an error.
func (r *Rep) engineRule(prop string) {
	v := r.vmRoles()
	fn := r.engine()
	name, where := fn.Name(), r.fnWhere(fn)
	pt := ptrElem(v.ptr)
	mk := r.maker()
	e := r.exec()
	e.hazards = true
	st := newSt()
	var args []*T
	for _, p := range mk.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	inEngine := false
	var any types.Type = fn.Signature.Results().At(0).Type()
	errsOf := func(st *St, p *T) *T {
		return mkField(e.rootVal(st, p, pt), "errs", fieldType(structOf(pt), "errs"))
	}
	var par *T
	var er *errRoles
	if prop == "C31" {
		er = r.errRoles()
	}
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if er != nil && ci.fn == er.result {
			return r.listResult(e, er, ci), true
		}
		if !inEngine && isOptionCall(ci, v.ptr) {
			return []Outcome{{kind: ORet, st: ci.st, vals: []*T{mkSym("previous option", ci.sig.Results().At(0).Type())}}}, true // no options
		}
		if ci.fn == nil {
			return nil, false
		}
		if !inEngine && len(ci.fn.Params) > 0 && sameType(ci.fn.Params[0].Type(), v.ptr) && ci.fn.Signature.Results().Len() == 0 {
			return []Outcome{{kind: ORet, st: ci.st}}, true // no options
		}
		if ci.fn == v.read {
			return []Outcome{{kind: ORet, st: ci.st}}, true // recorded errors are added below
		}
		if ci.fn != v.rule {
			return nil, false
		}
		ci.st.ev = append(ci.st.ev, &Ev{kind: "rule", args: ci.args[1:]})
		var outs []Outcome
		for _, rec := range []bool{false, true} {
			for _, k := range []string{"match", "fail", "panic"} {
				s := ci.st.clone()
				if rec {
					// errors recorded on the way
					ep := errsOf(s, par)
					lt := ptrElem(ep.typ)
					l := mkSym("recorded", lt)
					s.mem[ep] = l
					e.assume(s, mkNot(mkLE(mkLen(l))))
				}
				val := mkSym("value", any)
				e.assume(s, mkNot(mkEq(val, mkNil(any))))
				s.ev = append(append([]*Ev{}, s.ev...), &Ev{kind: "scenario", name: k, args: []*T{mkBool(rec)}})
				if er != nil {
					x := e.rootVal(s, par, pt)
					for _, f := range []string{"maxFailPos", "maxFailExpected"} {
						ft := fieldType(structOf(pt), f)
						x = setField(x, f, mkSym(f, ft))
					}
					s.mem[par] = x
					e.assume(s, mkNot(mkLE(mkLen(mkSym("maxFailExpected", fieldType(structOf(pt), "maxFailExpected"))))))
				}
				switch k {
				case "match":
					outs = append(outs, Outcome{kind: ORet, st: s, vals: []*T{val, tTrue}})
				case "fail":
					outs = append(outs, Outcome{kind: ORet, st: s, vals: []*T{mkNil(any), tFalse}})
				default:
					p := mkSym("panicked", any)
					e.assume(s, mkNot(mkEq(p, mkNil(any))))
					outs = append(outs, Outcome{kind: OPanic, st: s, pan: p})
				}
			}
		}
		return outs, true
	}
	seen := map[string]bool{}
	for _, o := range e.Call(mk, args, nil, st, nil, nil) {
		if o.kind != ORet {
			continue
		}
		par = o.vals[0]
		if er != nil {
			r.freshRecord(e, o, pt)
		}
		inEngine = true
		g := r.grammarTable()
		for _, q := range e.Call(fn, []*T{par, g}, nil, o.st, nil, nil) {
			sc, rec := "no evaluation", false
			n := 0
			for _, ev := range q.st.ev {
				if ev.kind == "scenario" {
					sc, rec = ev.name, ev.args[0] == tTrue
					n++
				}
			}
			fs := factsString(q.st.facts)
			what := sc
			if rec {
				what += " with errors recorded"
			}
			if q.kind != ORet {
				r.fail("engine", name+" "+what+" panics", where, "a parse panics out to its caller (%s; %v)", what, q.pan)
				continue
			}
			seen[what] = true
			if er != nil {
				if n == 1 {
					r.engineError(e, er, q, sc, rec, what, where)
				}
				continue
			}
			if n == 0 && e.truth(q.st, mkEq(q.vals[1], mkNil(errIface))) == 0 && missingKey(q.st) {
				continue // the first rule is not in the table of rules; see below
			}
			r.check(n == 1, "engine", name+" evaluates", where, "%s evaluates the first rule %d times", name, n)
			val, err := q.vals[0], q.vals[1]
			isErr := e.truth(q.st, mkEq(err, mkNil(errIface)))
			if sc == "match" && !rec {
				r.check(isErr == 1, "engine", name+" "+what+" error", where, "a text that matches gives the error %s (%s)", err, fs)
				r.check(bare(val).k == KSym && bare(val).s == "value", "engine", name+" "+what+" value", where, "a text that matches gives %s instead of its value", val)
			} else {
				r.check(isErr == 0, "engine", name+" "+what+" error", where, "a parse that fails (%s) returns the error %s (%s)", what, err, fs)
				if sc != "match" {
					r.check(bare(val).isNil(), "engine", name+" "+what+" value", where, "a parse that fails (%s) returns the value %s", what, val)
				}
			}
		}
		inEngine = false
	}
	for _, w := range []string{"match", "fail", "panic", "match with errors recorded", "fail with errors recorded", "panic with errors recorded"} {
		r.check(seen[w], "engine", name+" "+w, where, "no path of %s handles the case: %s", name, w)
	}
	r.done("engine", e, name)
	if er != nil {
		r.floor("engine", 6)
		r.floor("farthest", 10)
		return
	}
	r.floor("engine", 18)
}

// missingKey: the path depends on a key that is missing in a map.
func missingKey(st *St) bool {
	for _, f := range st.facts {
		if f.k == KNot && f.a[0].k == KApp && f.a[0].s == "maphas" {
			return true
		}
	}
	return false
}

// maker finds the function that makes a parser object.
func (r *Rep) maker() *ssa.Function {
	v := r.vmRoles()
	var mk []*ssa.Function
	for _, fn := range r.p.funcs {
		if fn.Pkg == r.p.pkg("") && fn.Parent() == nil && fn.Signature.Results().Len() == 1 && sameType(fn.Signature.Results().At(0).Type(), v.ptr) && len(fn.Blocks) > 0 {
			mk = append(mk, fn)
		}
	}
	return r.pick("makes a parser", mk, r.p.funcs)
}

// grammarTable is the value of the variable that holds the grammar.
func (r *Rep) grammarTable() *T {
	pkg := r.p.pkg("")
	for _, n := range sortedKeys(pkg.Members) {
		g, ok := pkg.Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		if ptrNamed(ptrElem(g.Type())) == "grammar" {
			if x := r.p.base[mk(&T{k: KGlobal, g: g, typ: g.Type(), s: g.String()})]; x != nil {
				return x
			}
			panic(anchorError("initial value of " + n))
		}
	}
	panic(anchorError("variable that holds the grammar"))
}

// endRule: every parse ends. No rule reaches itself without consuming input, no repetition repeats something that may be
// empty, and nothing matches at the end of the input forever.
func (r *Rep) endRule() {
	g := r.grammar()
	null := map[*gnode]bool{}
	for changed := true; changed; {
		changed = false
		for _, n := range g.nodes {
			if null[n] {
				continue
			}
			x := false
			switch n.kind {
			case "lit":
				x = n.lit == ""
				if strings.ContainsRune(n.lit, '\uFFFD') {
					x = true // matches at the end of the input
				}
			case "any", "class":
			case "seq":
				x = true
				for _, k := range n.kids {
					x = x && null[k]
				}
			case "choice":
				for _, k := range n.kids {
					x = x || null[k]
				}
			case "andcode", "notcode":
				x = !r.never(n)
			case "opt", "star", "and", "not", "statecode":
				x = true
			case "ref":
				if ru := g.by[n.name]; ru != nil {
					x = null[ru.expr]
				}
			case "throw", "recover":
				r.fail("ends", "kind "+n.kind, n.pos, "nodes of kind %s are not analysed", n.kind)
			default:
				x = len(n.kids) > 0 && null[n.kids[0]]
			}
			if x {
				null[n] = true
				changed = true
			}
		}
	}
	for _, n := range g.nodes {
		switch n.kind {
		case "star", "plus":
			r.check(!null[n.kids[0]], "ends", "repetition in "+n.rule+": "+clip(n.show(2), 60), n.pos, "the repetition %s in rule %s repeats something that may match nothing: a parse never ends", clip(n.show(3), 90), n.rule)
		case "ref":
			r.check(g.by[n.name] != nil, "ends", "rule "+n.name, n.pos, "rule %s is not in the table", n.name)
		}
	}
	// what a rule starts with
	first := map[string]map[string]bool{}
	var heads func(n *gnode, out map[string]bool)
	heads = func(n *gnode, out map[string]bool) {
		switch n.kind {
		case "ref":
			out[n.name] = true
		case "seq":
			for _, k := range n.kids {
				heads(k, out)
				if !null[k] {
					return
				}
			}
		default:
			for _, k := range n.kids {
				heads(k, out)
			}
		}
	}
	for _, ru := range g.rules {
		first[ru.name] = map[string]bool{}
		heads(ru.expr, first[ru.name])
	}
	rec := false
	for _, ru := range g.rules {
		seen := map[string]bool{}
		todo := sortedKeys(first[ru.name])
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			if seen[x] {
				continue
			}
			seen[x] = true
			todo = append(todo, sortedKeys(first[x])...)
		}
		r.check(!seen[ru.name], "ends", "left recursion of "+ru.name, "", "rule %s reaches itself without consuming input: a parse never ends", ru.name)
	}
	// nesting
	refs := map[string]map[string]bool{}
	for _, n := range g.nodes {
		if n.kind == "ref" {
			if refs[n.rule] == nil {
				refs[n.rule] = map[string]bool{}
			}
			refs[n.rule][n.name] = true
		}
	}
	for _, ru := range g.rules {
		seen := map[string]bool{}
		todo := sortedKeys(refs[ru.name])
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			if !seen[x] {
				seen[x] = true
				todo = append(todo, sortedKeys(refs[x])...)
			}
		}
		rec = rec || seen[ru.name]
	}
	r.floor("ends", 40)
	if rec && !r.depthBound() {
		v := r.vmRoles()
		r.fail("depth", "recursion", r.fnWhere(v.expr), "the functions that evaluate the grammar call each other once per level of nesting and nothing bounds the number of levels: a text with enough opening brackets exhausts the stack, which ends the process and cannot be recovered")
	}
}

// never tells whether a predicate never lets the parse go on.
func (r *Rep) never(n *gnode) bool {
	if x, ok := r.nevers[n.run]; ok {
		return x
	}
	s := r.sem()
	sr := s.run(&npair{ref: n, sub: n, scope: map[string]string{}, kids: map[string]*gnode{}}, mkSym("text", tString), nil, nil)
	out := true
	for i := range sr.outs {
		o := &sr.outs[i]
		if o.kind == ORet && sr.e.truth(o.st, o.vals[0]) != map[string]int{"andcode": 0, "notcode": 1}[n.kind] {
			out = false
		}
	}
	if len(sr.e.undec) > 0 {
		out = false
	}
	if r.nevers == nil {
		r.nevers = map[*ssa.Function]bool{}
	}
	r.nevers[n.run] = out
	return out
}

// depthBound: some function on the cycle counts the levels and stops.
func (r *Rep) depthBound() bool {
	v := r.vmRoles()
	counters := map[string]int{}
	for _, fn := range []*ssa.Function{v.expr, v.rule} {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !sameType(fa.X.Type(), v.ptr) {
					continue
				}
				if bo, ok := s.Val.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
					counters[fieldName(fa)] |= map[token.Token]int{token.ADD: 1, token.SUB: 2}[bo.Op]
				}
			}
		}
	}
	for _, b := range v.expr.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				for _, x := range []ssa.Value{bo.X, bo.Y} {
					if l, ok := x.(*ssa.UnOp); ok {
						if fa, ok := l.X.(*ssa.FieldAddr); ok && counters[fieldName(fa)] == 3 {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
