package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Plugin.ID is interpreted on attribute lists built from every attribute kind, names that are and are not an id, and nil slots, all lists up to "+
		"the length that determines a stateless front-to-back scan (two entries; three otherwise), with symbolic values; the outcome must be the specified one. "+
		"NewNotFoundError, NotFoundErrorf and IsNotFoundError are interpreted on arbitrary errors; the error type must be the only one of the module that "+
		"satisfies the interface IsNotFoundError asks for through errors.As.",
		ruleID, "errors.As walks any wrapping of its argument as documented")
}

type attrCase struct {
	name string
	v    *T
	id   bool // an id attribute
	str  *T   // the value if it is a string id
}

func (r *Rep) attrCases() []attrCase {
	p := r.p
	at := needType(p.typ("ast", "Attribute"), "interface ast.Attribute")
	// built by the constructors
	e := r.exec()
	build := func(ctor string, args ...*T) *T {
		fn := r.astFn(ctor)
		for i := range args {
			if args[i] == nil {
				args[i] = mkSym("any"+fmt.Sprint(i), fn.Params[i].Type())
			}
			if !isStringType(args[i].typ) || args[i].isConst() {
				continue
			}
		}
		for len(args) < len(fn.Params) {
			args = append(args, mkSym("rest", fn.Params[len(args)].Type()))
		}
		outs := e.Call(fn, args, nil, newSt(), nil, nil)
		if len(outs) != 1 || outs[0].kind != ORet {
			panic(anchorError("constructor " + ctor + " of one result"))
		}
		return box(outs[0].val(), at)
	}
	var out []attrCase
	out = append(out, attrCase{"nil", mkNil(at), false, nil})
	for i, n := range []string{"id", `"id"`, `'id'`} {
		v := mkSym(fmt.Sprintf("value%d", i), tString)
		out = append(out, attrCase{"string " + n, build("NewStringAttribute", mkStr(n), v), true, v})
	}
	for _, n := range []string{"", "ID", "Id", "i", "idx", "uid", "d", "id ", "add_field", `"ids"`, "iid"} {
		out = append(out, attrCase{"string " + n, build("NewStringAttribute", mkStr(n), mkSym("other", tString)), false, nil})
	}
	for _, k := range []string{"NewNumberAttribute", "NewPluginAttribute", "NewArrayAttribute", "NewHashAttribute"} {
		out = append(out, attrCase{k + " id", build(k, mkStr("id")), true, nil})
		out = append(out, attrCase{k + " x", build(k, mkStr("x")), false, nil})
	}
	r.done("attribute", e, "constructors")
	return out
}

func ruleID(r *Rep) {
	p := r.p
	cases := r.attrCases()
	plugT := needType(p.typ("ast", "Plugin"), "type ast.Plugin")
	attrsT := fieldType(structOf(plugT), "Attributes")
	if attrsT == nil {
		panic(anchorError("field Plugin.Attributes"))
	}
	idFn := need(p.method("ast", "Plugin", "ID"), "method Plugin.ID")
	isNF := func(e *Exec, st *St, err *T) string {
		if err.isNil() {
			return "nil"
		}
		res := ""
		for _, o := range e.Call(r.astFn("IsNotFoundError"), []*T{err}, nil, st.clone(), nil, nil) {
			s := o.val().String()
			if res != "" && res != s {
				s = "mixed"
			}
			res = s
		}
		return res
	}
	run := func(list []attrCase) {
		e := r.exec()
		var parts []*T
		var names []string
		for _, c := range list {
			parts = append(parts, mkUnit(c.v))
			names = append(names, c.name)
		}
		label := "[" + strings.Join(names, ", ") + "]"
		seq := mkSeq(attrsT, parts...)
		if len(list) == 0 {
			seq = mkNil(attrsT)
		}
		pl := setField(mkSym("plugin", plugT), "Attributes", seq)
		var want *attrCase
		for i := range list {
			if list[i].id {
				want = &list[i]
				break
			}
		}
		outs := r.callMethod(e, newSt(), pl, "ID")
		if len(outs) == 0 {
			r.fail("id-lookup", label, r.fnWhere(idFn), "no outcome")
		}
		for _, o := range outs {
			if o.kind != ORet {
				r.fail("id-lookup", label, r.fnWhere(idFn), "the lookup panics on the attributes %s", label)
				continue
			}
			v, err := o.vals[0], o.vals[1]
			nf := isNF(e, o.st, err)
			ok, exp := false, ""
			switch {
			case want == nil:
				exp = "a not-found error"
				ok = nf == "true"
			case want.str != nil:
				exp = "the value of " + want.name + " and no error"
				ok = v == want.str && err.isNil()
			default:
				exp = "an ordinary error, because " + want.name + " is not a string"
				ok = nf == "false"
			}
			r.check(ok, "id-lookup", label, r.fnWhere(idFn), "for the attributes %s the lookup returns (%s, %s; not found: %s), expected %s", label, v, err, nf, exp)
		}
		r.done("id-lookup", e, label)
	}
	run(nil)
	for _, a := range cases {
		run([]attrCase{a})
		for _, b := range cases {
			run([]attrCase{a, b})
			if r.tier == "thorough" {
				for _, c := range cases {
					run([]attrCase{a, b, c})
				}
			}
		}
	}
	r.floor("id-lookup", 500)
	// the scan is stateless: no component of the loop but its index
	e := r.exec()
	outs := r.callMethod(e, newSt(), mkSym("plugin", plugT), "ID")
	for _, o := range outs {
		for _, ev := range o.st.ev {
			if ev.kind == "loop" {
				for _, c := range ev.lp.comps {
					if c.mode != MInd && c.mode != MStable {
						r.note("the scan of Plugin.ID carries state in %s; lists are decided up to the enumerated length", c.key)
					}
				}
			}
		}
		if len(o.vals) == 2 && o.kind == ORet && !o.vals[1].isNil() && isNF(e, o.st, o.vals[1]) == "mixed" {
			r.fail("id-lookup", "error kind", r.fnWhere(idFn), "whether the error is a not-found error is not decided on the path %s", factsString(o.st.facts))
		}
	}
	r.done("id-lookup", e, "Plugin.ID")
	r.notFound()
}

func hasMethod(t types.Type, name string) (*types.Selection, bool) {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ms.At(i), true
		}
	}
	return nil, false
}

func (r *Rep) notFound() {
	p := r.p
	is := r.astFn("IsNotFoundError")
	e := r.exec()
	defer r.done("not-found", e, "errors")
	x := mkSym("e", is.Params[0].Type())
	var target types.Type
	for _, o := range e.Call(is, []*T{x}, nil, newSt(), nil, nil) {
		v := o.val()
		if v == tTrue || v == tFalse {
			// decided by a branch on the test
			for _, f := range o.st.facts {
				for f.k == KNot {
					f = f.a[0]
				}
				if f.k == KApp && strings.HasPrefix(f.s, "errorsAs:") && (e.truth(o.st, f) == 1) == (v == tTrue) {
					v = f
					break
				}
			}
		}
		switch {
		case o.kind != ORet:
			r.fail("not-found-recognised", "IsNotFoundError", r.fnWhere(is), "it may panic")
		case v == tFalse && e.truth(o.st, mkCmp2nil(x)) == 1:
			r.pass("not-found-recognised", "IsNotFoundError on nil")
		default:
			ok := v.k == KApp && strings.HasPrefix(v.s, "errorsAs:") && v.a[0] == x
			r.check(ok, "not-found-recognised", "IsNotFoundError", r.fnWhere(is), "the test must search the whole chain of wrapped errors for a not-found error, it returns %s", v)
			if ok {
				target = v.xt
			}
		}
	}
	if target == nil {
		return
	}
	iface, _ := target.Underlying().(*types.Interface)
	// constructors
	mkNF := r.astFn("NewNotFoundError")
	err := mkSym("err", mkNF.Params[0].Type())
	var nfT types.Type
	for _, o := range e.Call(mkNF, []*T{err}, nil, newSt(), nil, nil) {
		isNil := e.truth(o.st, mkCmp2nil(err))
		v := o.val()
		switch isNil {
		case 1:
			r.check(o.kind == ORet && v.isNil(), "not-found-wrap", "NewNotFoundError nil", r.fnWhere(mkNF), "wrapping nil yields %s", v)
		case 0:
			ok := o.kind == ORet && v.k == KIface && satisfies(v.xt, target)
			r.check(ok, "not-found-wrap", "NewNotFoundError", r.fnWhere(mkNF), "wrapping an error yields %s, which is not recognised as not found", v)
			if ok {
				nfT = v.xt
				r.check(contains(v, err), "not-found-wrap", "NewNotFoundError keeps the error", r.fnWhere(mkNF), "the wrapped error is lost: %s", v)
				for _, q := range r.callMethod(e, o.st.clone(), v.a[0], "Error") {
					txt := q.val()
					r.check(q.kind == ORet && contains(txt, err), "not-found-wrap", "message", r.fnWhere(mkNF), "the message %s does not contain that of the wrapped error", txt)
				}
			}
		default:
			r.fail("not-found-wrap", "NewNotFoundError", r.fnWhere(mkNF), "whether nil is wrapped is not decided on a path returning %s", v)
		}
	}
	f := r.astFn("NotFoundErrorf")
	for _, o := range e.Call(f, symArgs(f), nil, newSt(), nil, nil) {
		v := o.val()
		r.check(o.kind == ORet && v.k == KIface && satisfies(v.xt, target), "not-found-wrap", "NotFoundErrorf", r.fnWhere(f), "the error built is %s, which is not recognised as not found", v)
	}
	// nothing else satisfies it
	for _, sp := range p.spkgs {
		for _, m := range sp.Members {
			tn, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, errorIface) && iface != nil && types.Implements(t, iface) {
					base := nfT
					if pt, ok := base.(*types.Pointer); ok {
						base = pt.Elem()
					}
					r.check(base != nil && types.Identical(tn.Type(), base), "not-found-only", shortType(t), p.pos(tn.Pos()), "the error type %s is also taken for a not-found error", shortType(t))
				}
			}
		}
	}
	ok := false
	if iface != nil {
		for i := 0; i < iface.NumMethods(); i++ {
			n := iface.Method(i).Name()
			ok = ok || (n != "Error" && n != "Unwrap" && n != "Format" && n != "Is" && n != "As" && n != "Cause" && n != "Temporary" && n != "Timeout")
		}
	}
	r.check(ok, "not-found-only", "interface", r.fnWhere(is), "the interface searched for is satisfied by ordinary errors")
	r.floor("not-found-only", 2)
	r.floor("not-found-wrap", 5)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func mkCmp2nil(x *T) *T { return mkEq(x, mkNil(x.typ)) }
