package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Every constructor of the syntax tree package is interpreted on arbitrary arguments; every accessor and exported field of the result "+
		"is evaluated on the resulting symbolic value and must be the very argument it reports (list arguments as given or both empty), and every exported field "+
		"that belongs to no argument must be the zero value. SetBoolOperator is interpreted on constructed and arbitrary expressions.",
		ruleCtors)
}

type obs struct {
	what string // ".Field" or "Method"
	arg  int
}

type ctorSpec struct {
	fn  string
	obs []obs
}

var exprCtors = []ctorSpec{
	{"NewConditionExpression", []obs{{"BoolOperator", 0}, {".Condition", 1}}},
	{"NewNegativeConditionExpression", []obs{{"BoolOperator", 0}, {".Condition", 1}}},
	{"NewNegativeSelectorExpression", []obs{{"BoolOperator", 0}, {".Selector", 1}}},
	{"NewInExpression", []obs{{"BoolOperator", 0}, {".LValue", 1}, {".RValue", 2}}},
	{"NewNotInExpression", []obs{{"BoolOperator", 0}, {".LValue", 1}, {".RValue", 2}}},
	{"NewRvalueExpression", []obs{{"BoolOperator", 0}, {".RValue", 1}}},
	{"NewCompareExpression", []obs{{"BoolOperator", 0}, {".LValue", 1}, {".CompareOperator", 2}, {".RValue", 3}}},
	{"NewRegexpExpression", []obs{{"BoolOperator", 0}, {".LValue", 1}, {".RegexpOperator", 2}, {".RValue", 3}}},
}

var ctorSpecs = append([]ctorSpec{
	{"NewConfig", []obs{{".Input", 0}, {".Filter", 1}, {".Output", 2}}},
	{"NewPluginSection", []obs{{".PluginType", 0}, {".BranchOrPlugins", 1}}},
	{"NewPlugin", []obs{{"Name", 0}, {".Attributes", 1}}},
	{"NewPluginAttribute", []obs{{"Name", 0}, {"Value", 1}}},
	{"NewStringAttribute", []obs{{"Name", 0}, {"Value", 1}, {"StringAttributeType", 2}}},
	{"NewNumberAttribute", []obs{{"Name", 0}, {"Value", 1}}},
	{"NewArrayAttribute", []obs{{"Name", 0}, {"Value", 1}, {".Attributes", 1}}},
	{"NewHashAttribute", []obs{{"Name", 0}, {"Value", 1}, {".Entries", 1}}},
	{"NewHashEntry", []obs{{".Key", 0}, {".Value", 1}}},
	{"NewBranch", []obs{{".IfBlock", 0}, {".ElseBlock", 1}, {".ElseIfBlock", 2}}},
	{"NewIfBlock", []obs{{".Condition", 0}, {".Block", 1}}},
	{"NewElseIfBlock", []obs{{".Condition", 0}, {".Block", 1}}},
	{"NewElseBlock", []obs{{".Block", 0}}},
	{"NewCondition", []obs{{".Expression", 0}}},
	{"NewRegexp", []obs{{".Regexp", 0}}},
	{"NewSelector", []obs{{".Elements", 0}}},
	{"NewComment", []obs{{".SpaceBefore", 1}}},
}, exprCtors...)

// accessors of arbitrary values that must agree with an exported field
var fieldAccessors = []struct{ typ, method, field string }{
	{"ArrayAttribute", "Value", "Attributes"},
	{"HashAttribute", "Value", "Entries"},
}

func (r *Rep) astFn(name string) *ssa.Function {
	return need(r.p.fn("ast", name), "function ast."+name)
}

func ruleCtors(r *Rep) {
	p := r.p
	for _, cs := range ctorSpecs {
		r.ctor(cs)
	}
	// NewComment keeps its text: it is printed
	r.textOf("NewComment", 0, func(s *T) *T { return mkCat(mkStr("# "), s, mkStr("\n")) }, func(args []*T) { args[1] = tFalse })
	r.textOf("NewSelectorElement", 0, func(s *T) *T { return mkCat(mkStr("["), s, mkStr("]")) }, nil)
	// list builders
	r.listBuilder("NewCommentBlock", func(e *Exec, st *St, args []*T) *T { return args[0] })
	r.listBuilder("NewPluginSections", func(e *Exec, st *St, args []*T) *T {
		o := e.Call(r.astFn("NewPluginSection"), args, nil, newSt(), nil, nil)
		return mkSeq(nil, mkUnit(o[0].val()))
	})
	r.selectorFromNames()
	// accessors on arbitrary values
	for _, fa := range fieldAccessors {
		e := r.exec()
		t := needType(p.typ("ast", fa.typ), "type ast."+fa.typ)
		x := mkSym("x", t)
		want := mkField(x, fa.field, fieldType(structOf(t), fa.field))
		for _, o := range r.callMethod(e, newSt(), x, fa.method) {
			r.check(o.kind == ORet && e.sameOrEmpty(o.st, o.val(), want), "accessor", fa.typ+"."+fa.method, "", "%s.%s returns %s instead of the field %s (path %s)", fa.typ, fa.method, o.val(), fa.field, factsString(o.st.facts))
		}
		r.done("accessor", e, fa.typ)
	}
	for _, cs := range exprCtors {
		r.setBool(cs)
	}
	r.floor("constructor-reports", 55)
	r.floor("constructor-sets-nothing-else", 20)
	r.floor("set-bool-operator", 30)
	r.floor("list-constructor", 3)
}

func (r *Rep) observe(e *Exec, st *St, x *T, what string) []Outcome {
	if strings.HasPrefix(what, ".") {
		s := structOf(x.typ)
		if s == nil || fieldType(s, what[1:]) == nil {
			panic(anchorError("field " + what + " of " + shortType(x.typ)))
		}
		return one(st, e.resolve(st, mkField(x, what[1:], fieldType(s, what[1:]))))
	}
	return r.callMethod(e, st, x, what)
}

func (r *Rep) ctor(cs ctorSpec) {
	fn := r.astFn(cs.fn)
	e := r.exec()
	defer r.done("constructor", e, cs.fn)
	args := symArgs(fn)
	outs := e.Call(fn, args, nil, newSt(), nil, nil)
	r.check(len(outs) > 0, "constructor-returns", cs.fn, r.fnWhere(fn), "no path of the constructor returns")
	for _, o := range outs {
		if o.kind != ORet {
			r.fail("constructor-returns", cs.fn, r.fnWhere(fn), "the constructor panics under %s", factsString(o.st.facts))
			continue
		}
		if bad := e.effectsOn(&o, 0, nil); len(bad) > 0 {
			r.fail("constructor-pure", cs.fn, r.fnWhere(fn), "the constructor has side effects: %v", bad)
		}
		x := o.val()
		used := map[string]bool{}
		for _, ob := range cs.obs {
			used[strings.TrimPrefix(ob.what, ".")] = true
			for _, q := range r.observe(e, o.st.clone(), x, ob.what) {
				r.check(q.kind == ORet && e.sameOrEmpty(q.st, q.val(), args[ob.arg]), "constructor-reports", cs.fn+" "+ob.what, r.fnWhere(fn),
					"the value built by %s reports %s for %s instead of its argument %s (path %s)", cs.fn, q.val(), ob.what, args[ob.arg], factsString(q.st.facts))
			}
		}
		s := structOf(x.typ)
		ok, why := true, ""
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Exported() || used[f.Name()] || f.Embedded() {
				continue
			}
			v := e.resolve(o.st, mkField(x, f.Name(), f.Type()))
			if v != zeroOf(f.Type()) {
				ok = false
				why += f.Name() + " = " + v.String() + "; "
			}
		}
		r.check(ok, "constructor-sets-nothing-else", cs.fn, r.fnWhere(fn), "the value built by %s also has %s", cs.fn, why)
	}
}

func (r *Rep) textOf(ctor string, arg int, want func(*T) *T, prep func([]*T)) {
	fn := r.astFn(ctor)
	e := r.exec()
	defer r.done("constructor", e, ctor)
	args := symArgs(fn)
	if prep != nil {
		prep(args)
	}
	for _, o := range e.Call(fn, args, nil, newSt(), nil, nil) {
		if o.kind != ORet {
			r.fail("constructor-reports", ctor+" text", r.fnWhere(fn), "the constructor panics")
			continue
		}
		for _, q := range r.callMethod(e, o.st, o.val(), "String") {
			r.check(q.kind == ORet && q.val() == want(args[arg]), "constructor-reports", ctor+" text", r.fnWhere(fn), "the text of the value built by %s is %s instead of %s", ctor, q.val(), want(args[arg]))
		}
	}
}

func (r *Rep) listBuilder(ctor string, want func(e *Exec, st *St, args []*T) *T) {
	fn := r.astFn(ctor)
	e := r.exec()
	defer r.done("constructor", e, ctor)
	args := symArgs(fn)
	for _, o := range e.Call(fn, args, nil, newSt(), nil, nil) {
		w := want(e, o.st, args)
		got := e.resolve(o.st, o.val())
		ok := o.kind == ORet && (e.sameOrEmpty(o.st, got, w) || seqEqual(got, w))
		r.check(ok, "list-constructor", ctor, r.fnWhere(fn), "%s returns %s instead of %s", ctor, got, w)
	}
}

// seqEqual compares two sequences by their parts.
func seqEqual(a, b *T) bool {
	if a == b {
		return true
	}
	if a.k != KSeq || b.k != KSeq || len(a.a) != len(b.a) {
		return false
	}
	for i := range a.a {
		if a.a[i] != b.a[i] {
			return false
		}
	}
	return true
}

func (r *Rep) selectorFromNames() {
	fn := r.astFn("NewSelectorFromNames")
	e := r.exec()
	defer r.done("constructor", e, "NewSelectorFromNames")
	args := symArgs(fn)
	for _, o := range e.Call(fn, args, nil, newSt(), nil, nil) {
		x := o.val()
		els := e.resolve(o.st, mkField(x, "Elements", fieldType(structOf(x.typ), "Elements")))
		// one element per name: the element built from that name
		i := mkSym("i", tInt)
		el := mkElem(args[0], i, tString)
		oe := e.Call(r.astFn("NewSelectorElement"), []*T{el}, nil, newSt(), nil, nil)
		st := o.st.clone()
		e.assume(st, mkLE(linAddC(linSub(i, mkLen(args[0])), 1)))
		e.assume(st, mkLE(linScale(i, -1)))
		got := e.elemAt(st, els, i, oe[0].val().typ)
		okE := got == oe[0].val() || e.truth(o.st, mkEQ0(mkLen(args[0]))) == 1
		okL := e.truth(o.st, mkEQ0(linSub(mkLen(els), mkLen(args[0])))) == 1
		r.check(okE && okL, "list-constructor", "NewSelectorFromNames", r.fnWhere(fn), "element i of the selector is %s of %s elements: %s (path %s)", got, mkLen(els), els, factsString(o.st.facts))
	}
}

func (r *Rep) setBool(cs ctorSpec) {
	fn := r.astFn(cs.fn)
	e := r.exec()
	defer r.done("set-bool-operator", e, cs.fn)
	args := symArgs(fn)
	for _, o := range e.Call(fn, args, nil, newSt(), nil, nil) {
		if o.kind != ORet {
			continue
		}
		x := o.val()
		bo := mkSym("newOperator", args[0].typ)
		for _, q := range r.callMethod(e, o.st.clone(), x, "SetBoolOperator", bo) {
			if q.kind != ORet {
				r.fail("set-bool-operator", cs.fn, r.fnWhere(fn), "SetBoolOperator panics")
				continue
			}
			for _, ob := range cs.obs {
				want := args[ob.arg]
				if ob.what == "BoolOperator" {
					want = bo
				}
				for _, z := range r.observe(e, q.st.clone(), x, ob.what) {
					r.check(z.kind == ORet && z.val() == want, "set-bool-operator", cs.fn+" "+ob.what, r.fnWhere(fn), "after SetBoolOperator the expression reports %s for %s instead of %s", z.val(), ob.what, want)
				}
			}
		}
		// two expressions do not share their operator
		args2 := symArgs(fn)
		args2[0] = mkSym("otherOperator", args[0].typ)
		for _, o2 := range e.Call(fn, args2, nil, o.st.clone(), nil, fn.Blocks[0].Instrs[0]) {
			y := o2.val()
			for _, q := range r.callMethod(e, o2.st, y, "SetBoolOperator", bo) {
				for _, z := range r.callMethod(e, q.st, x, "BoolOperator") {
					r.check(z.kind == ORet && z.val() == args[0], "set-bool-operator", cs.fn+" independent", r.fnWhere(fn), "setting the operator of one expression changes that of another to %s", z.val())
				}
			}
		}
	}
}
