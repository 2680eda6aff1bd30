package main

// C31: the error of a failed parse.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type errRoles struct {
	field     string     // field of the parser
	ptr       types.Type // its type, a pointer or the list itself
	list      types.Type // the list
	recorders []*ssa.Function
	inner     []*ssa.Function // those that call no other
	result    *ssa.Function   // the error made from the list
}

// errRoles finds the list of errors, the functions that add to it and the one that makes an error of it.
func (r *Rep) errRoles() *errRoles {
	v := r.vmRoles()
	er := &errRoles{}
	s := structOf(ptrElem(v.ptr))
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		lt := t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			lt = p.Elem()
		}
		if sl, ok := lt.Underlying().(*types.Slice); ok && isErrType(sl.Elem()) {
			if er.field != "" {
				panic(anchorError("one list of errors in the parser"))
			}
			er.field, er.ptr, er.list = s.Field(i).Name(), t, lt
		}
	}
	if er.field == "" {
		panic(anchorError("list of errors in the parser"))
	}
	_, fns := r.parserFuncs()
	for _, fn := range fns {
		if fn.Signature.Results().Len() != 0 {
			continue
		}
		for _, p := range fn.Params[1:] {
			if isErrType(p.Type()) {
				er.recorders = append(er.recorders, fn)
				break
			}
		}
	}
	if len(er.recorders) == 0 {
		panic(anchorError("function that records an error"))
	}
	for _, fn := range er.recorders {
		calls := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for _, g := range er.recorders {
					calls = calls || c.Call.StaticCallee() == g
				}
			}
		}
		if !calls {
			er.inner = append(er.inner, fn)
		}
	}
	var results []*ssa.Function
	for _, fn := range r.p.funcs {
		if fn.Pkg != r.p.pkg("") || fn.Synthetic != "" || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 || !isErrType(fn.Signature.Results().At(0).Type()) {
			continue
		}
		t := fn.Params[0].Type()
		if sameType(t, er.list) || sameType(t, types.NewPointer(er.list)) {
			results = append(results, fn)
		}
	}
	er.result = r.pick("makes an error of the list", results, r.p.funcs)
	return er
}

// textParts31 flattens a text.
func textParts31(t *T) []*T {
	if t.k == KCat {
		var out []*T
		for _, a := range t.a {
			out = append(out, textParts31(a)...)
		}
		return out
	}
	return []*T{t}
}

// inOrder tells whether the parts of the text contain the values one after the other.
// with something that is no digit between any two.
func inOrder(t *T, xs ...*T) bool {
	ps := textParts31(t)
	i := 0
	apart := true
	for _, p := range ps {
		switch {
		case i < len(xs) && (p == xs[i] || contains(p, xs[i])):
			if !apart {
				return false
			}
			i++
			apart = false
		case p.isStr() && strings.Trim(p.str(), "0123456789") != "":
			apart = true
		}
	}
	return i == len(xs)
}

// feasible: a list both empty and not empty is on no path.
func (e *Exec) feasible(st *St, l *T) bool {
	n := mkLen(l)
	for i := int64(0); i < 2; i++ {
		if e.truth(st, mkEQ0(linAddC(n, -i))) != 0 {
			return true
		}
		if e.truth(st, mkLE(linAddC(n, -i))) == 1 {
			return false
		}
	}
	return true
}

func ruleErrors(r *Rep) {
	v := r.vmRoles()
	er := r.errRoles()
	pt := ptrElem(v.ptr)
	// recording
	for _, fn := range er.recorders {
		e := r.exec()
		p := mkSym("parser", v.ptr)
		st := newSt()
		e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
		args := []*T{p}
		x0 := e.rootVal(st, p, pt)
		cur := mkField(mkField(x0, "pt", v.ptT), "position", fieldType(structOf(v.ptT), "position"))
		pos := cur
		var cause *T
		for i, q := range fn.Params[1:] {
			a := mkSym("arg"+strconv.Itoa(i), q.Type())
			args = append(args, a)
			switch {
			case isErrType(q.Type()):
				cause = a
				e.assume(st, mkNot(mkEq(a, mkNil(errIface))))
			case sameType(q.Type(), cur.typ):
				pos = a
			}
		}
		errsAt := func(st *St) *T {
			f := mkField(e.rootVal(st, p, pt), er.field, er.ptr)
			if sameType(er.ptr, er.list) {
				return f
			}
			return e.rootVal(st, f, er.list)
		}
		old := errsAt(st)
		name, where := fn.Name(), r.fnWhere(fn)
		for _, o := range e.Call(fn, args, nil, st, nil, nil) {
			fs := factsString(o.st.facts)
			if o.kind != ORet {
				r.fail("recorded", name+" returns", where, "%s does not return (%s)", name, fs)
				continue
			}
			l := unconv(e.resolve(o.st, errsAt(o.st)))
			ok := l.k == KSeq && len(l.a) == 2 && unconv(l.a[0]) == unconv(old) && l.a[1].k == KUnit
			if !r.check(ok, "recorded", name+" appends", where, "%s leaves the list of errors %s instead of the list with one more error at its end (%s)", name, l, fs) {
				continue
			}
			x1 := e.rootVal(o.st, p, pt)
			if sameType(er.ptr, er.list) {
				x1 = setField(x1, er.field, mkField(x0, er.field, er.ptr))
			}
			r.check(x1 == x0, "recorded", name+" changes", where, "%s changes more of the parser than the list of errors: %s", name, x1)
			rec := l.a[1].a[0]
			if !r.check(rec.k == KIface, "recorded", name+" record", where, "%s records %s, whose text is not known", name, rec) {
				continue
			}
			file := mkField(x0, "filename", tString)
			for _, q := range r.callMethod(e, o.st.clone(), rec.a[0], "Error") {
				if !r.check(q.kind == ORet, "recorded", name+" text", where, "the text of the record may panic") {
					continue
				}
				txt := q.val()
				want := []*T{mkField(pos, "line", tInt), mkField(pos, "col", tInt), mkField(pos, "offset", tInt), mkApp("errtext", tString, cause)}
				r.check(inOrder(txt, want...), "recorded", name+" position", where, "the text %s does not give the line, column and offset of the failure and the text of its cause", txt)
				ps := textParts31(txt)
				r.check(ps[len(ps)-1] == mkApp("errtext", tString, cause), "recorded", name+" cause", where, "the text %s does not end with that of the cause", txt)
				switch e.truth(q.st, mkEQ0(mkLen(file))) {
				case 1:
				default:
					r.check(inOrder(txt, append([]*T{file}, want...)...), "recorded", name+" source", where, "the text %s does not begin with the name of the source (%s)", txt, factsString(q.st.facts))
				}
			}
		}
		r.done("recorded", e, name)
	}
	r.floor("recorded", 10)

	r.joinedErrors(er)
	r.errorResult(er)
	r.invalidText(er)
	r.missedTokens()
	r.ruleMachine()
	r.engineRule("C31")
}

// joinedErrors: the text of the list.
func (r *Rep) joinedErrors(er *errRoles) {
	e := r.exec()
	st := newSt()
	l := mkSym("errors", er.list)
	sel := types.NewMethodSet(er.list).Lookup(r.p.pkg("").Pkg, "Error")
	if sel == nil {
		panic(anchorError("text of the list of errors"))
	}
	fn := r.p.ssa.MethodValue(sel)
	where := r.fnWhere(fn)
	nl := mkStr("\n")
	n := 0
	lead, trail := false, false
	for _, o := range e.Call(fn, []*T{l}, nil, st, nil, nil) {
		fs := factsString(o.st.facts)
		if o.kind != ORet {
			r.fail("listed", "returns", where, "the text of the list of errors may panic (%s)", fs)
			continue
		}
		if !e.feasible(o.st, l) {
			continue
		}
		txt := o.val()
		if e.truth(o.st, mkEQ0(mkLen(l))) == 1 {
			r.check(txt.isStr() && txt.str() == "", "listed", "empty", where, "an empty list has the text %s", txt)
			continue
		}
		if e.truth(o.st, mkEQ0(linAddC(mkLen(l), -1))) == 1 && txt == mkApp("errtext", tString, mkElem(l, mkInt(0), errIface)) {
			r.pass("listed", "single")
			continue
		}
		n++
		if t := unconv(txt); t.k == KApp && t.s == "strings.Join" && t.a[1] == nl {
			if m := unconv(t.a[0]); m.k == KApp && m.s == "mapseq" && m.a[0] == l {
				f := m.a[1]
				ok := f.k == KSeq && len(f.a) == 1 && f.a[0].k == KUnit && f.a[0].a[0].k == KApp && f.a[0].a[0].s == "errtext"
				if ok {
					el := f.a[0].a[0].a[0]
					ok = el.k == KElem && el.a[0] == l && strings.HasPrefix(el.a[1].s, "K#")
				}
				for i := 0; i < 4; i++ { // stands for the obligations of a loop
					r.check(ok, "listed", "each", where, "the lines %s are not the texts of the errors", m)
				}
				continue
			}
		}
		// one loop over the whole list
		ls := loopsOf(o.st)
		if !r.check(len(ls) == 1, "listed", "loop", where, "the text %s is not made by one loop over the list (%s)", clip(txt.String(), 80), fs) {
			continue
		}
		lp := ls[0].lp
		// the first one may be written before
		head := int64(0)
		if ps := textParts31(txt); len(ps) == 2 && ps[0] == mkApp("errtext", tString, mkElem(l, mkInt(0), errIface)) {
			head, txt = 1, ps[1]
		}
		el := mkElem(l, linAddC(lp.K, head), errIface)
		want := mkApp("errtext", tString, el)
		r.check(e.truth(o.st, mkLE(linAddC(linSub(mkLen(l), lp.K), -head))) == 1, "listed", "all", where, "the text of the list of errors leaves some out (%s)", fs)
		// what is emitted
		joined := false
		t := txt
		if t.k == KApp && t.s == "strings.Join" && t.a[1] == nl {
			joined, t = true, t.a[0]
		}
		key := ""
		walkTerm(t, func(x *T) bool {
			if x.k == KLoopAcc && x.lp == lp {
				key = x.cmp.key
			}
			return true
		})
		t = unconv(t)
		if t.k == KSeq && len(t.a) == 1 {
			t = t.a[0]
		}
		if !r.check(key != "" && t.k == KLoopAcc, "listed", "text", where, "the text %s is not just what the loop wrote", clip(txt.String(), 80)) {
			continue
		}
		for _, tr := range lp.trans {
			got := tr.emit[key]
			ts := o.st.clone()
			for _, f := range tr.facts {
				e.assume(ts, f)
			}
			last := e.truthIn(lp, tr, mkEQ0(linAddC(linSub(mkLen(l), lp.K), -1)))
			var w []*T
			for _, g := range got {
				w = append(w, textParts31(g)...)
			}
			ok := false
			switch {
			case joined:
				ok = len(got) == 1 && got[0].k == KUnit && got[0].a[0] == want
			case len(w) == 1 && w[0] == want:
				ok = head == 0 && (tr.from == 0 || last == 1)
			case len(w) == 2 && w[0] == nl && w[1] == want:
				ok = tr.from != 0 || head == 1
				lead = true
			case len(w) == 2 && w[0] == want && w[1] == nl:
				ok = last == 0
				trail = true
			}
			r.check(ok, "listed", "each", where, "an iteration over the list of errors writes %v instead of a line with the text of the error", got)
		}
	}
	r.check(!(lead && trail), "listed", "separators", where, "errors are separated twice")
	r.done("listed", e, fn.Name())
	r.check(n > 0, "listed", "paths", where, "the text of several errors is made nowhere")
	r.floor("listed", 5)
}

// truthIn decides a condition inside an iteration.
func (e *Exec) truthIn(lp *Loop, tr *Trans, c *T) int {
	ts := newSt()
	for _, f := range tr.ord {
		e.assume(ts, f)
	}
	for _, f := range tr.facts {
		e.assume(ts, f)
	}
	return e.truth(ts, c)
}

// errorResult: the error made of the list.
func (r *Rep) errorResult(er *errRoles) {
	e := r.exec()
	fn := er.result
	where := r.fnWhere(fn)
	st := newSt()
	a := mkSym("errors", fn.Params[0].Type())
	l := a
	if _, ok := a.typ.Underlying().(*types.Pointer); ok {
		e.assume(st, mkNot(mkEq(a, mkNil(a.typ))))
		l = e.rootVal(st, a, er.list)
	}
	some, none := 0, 0
	for _, o := range e.Call(fn, []*T{a}, nil, st, nil, nil) {
		fs := factsString(o.st.facts)
		if o.kind != ORet {
			r.fail("once", "returns", where, "%s may panic (%s)", fn.Name(), fs)
			continue
		}
		if !e.feasible(o.st, l) {
			continue
		}
		x := o.val()
		switch e.truth(o.st, mkEQ0(mkLen(l))) {
		case 1:
			none++
			r.check(x.isNil(), "once", "no error", where, "without recorded errors the error is %s", x)
			continue
		case -1:
			r.fail("once", "whether", where, "whether errors were recorded is not decided on a path (%s)", fs)
			continue
		}
		some++
		if !r.check(x.k == KIface && (sameType(x.xt, er.list) || sameType(x.xt, types.NewPointer(er.list))), "once", "list", where, "the error is %s instead of the list of errors", x) {
			continue
		}
		y := x.a[0]
		if sameType(x.xt, types.NewPointer(er.list)) {
			y = e.rootVal(o.st, y, er.list)
		}
		y = unconv(e.resolve(o.st, y))
		if y == l {
			r.fail("once", "repeated", where, "the error lists failures recorded several times more than once (%s)", fs)
			continue
		}
		if y.k == KSeq && len(y.a) == 1 {
			y = y.a[0]
		}
		if !r.check(y.k == KLoopAcc, "once", "kept", where, "the error lists %s instead of the errors recorded (%s)", y, fs) {
			continue
		}
		lp := y.lp
		r.check(e.truth(o.st, mkLE(linSub(mkLen(l), lp.K))) == 1, "once", "all", where, "the error leaves recorded errors out (%s)", fs)
		el := mkElem(l, lp.K, errIface)
		txt := mkApp("errtext", tString, el)
		for _, tr := range lp.trans {
			got := tr.emit[y.cmp.key]
			seen := -1
			for _, f := range tr.facts {
				g, v := f, 1
				if g.k == KNot {
					g, v = g.a[0], 0
				}
				if g.k == KApp && (g.s == "mapget" || g.s == "maphas") && g.a[1] == txt {
					seen = v
				}
			}
			if seen < 0 && tr.from == 0 {
				seen = 0 // nothing noted yet
			}
			noted := 0
			for _, ev := range tr.ev {
				if ev.kind == "mapupdate" {
					if ev.args[1] == txt && (ev.args[2] == tTrue || !isBoolType(ev.args[2].typ)) {
						noted++
					} else {
						noted = 9
					}
				}
			}
			switch {
			case len(got) == 0:
				r.check(seen == 1, "once", "dropped", where, "an error is left out that was not listed before (%s)", factsString(tr.facts))
			case len(got) == 1 && got[0].k == KUnit && got[0].a[0] == el:
				r.check(seen == 0, "once", "repeated", where, "an error may be listed although the same was listed before (%s)", factsString(tr.facts))
				r.check(noted == 1, "once", "noted", where, "an error is listed without being noted as listed (%s)", factsString(tr.facts))
			default:
				r.fail("once", "changed", where, "the list of errors gets %v for a recorded error", got)
			}
		}
	}
	r.check(some > 0 && none > 0, "once", "paths", where, "%s does not tell apart whether errors were recorded", fn.Name())
	r.done("once", e, fn.Name())
	r.floor("once", 6)
}

// invalidText: text that is not UTF-8 is an error, unless that is allowed.
func (r *Rep) invalidText(er *errRoles) {
	v := r.vmRoles()
	e := r.exec()
	fn := v.read
	where := r.fnWhere(fn)
	st := newSt()
	pt := ptrElem(v.ptr)
	p := mkSym("parser", v.ptr)
	e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
	st.mem[p] = e.rootVal(st, p, pt)
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		for _, f := range er.recorders {
			if ci.fn == f {
				var pos *T
				for _, a := range ci.args[1:] {
					if sameType(a.typ, fieldType(structOf(v.ptT), "position")) {
						pos = a
					}
				}
				if pos == nil {
					pos = mkField(mkField(e.rootVal(ci.st, p, pt), "pt", v.ptT), "position", fieldType(structOf(v.ptT), "position"))
				}
				ci.st.ev = append(ci.st.ev, &Ev{kind: "record", args: []*T{pos}})
				return []Outcome{{kind: ORet, st: ci.st}}, true
			}
		}
		return nil, false
	}
	yes, no := 0, 0
	for _, o := range e.Call(fn, []*T{p}, nil, st, nil, nil) {
		fs := factsString(o.st.facts)
		x := e.rootVal(o.st, p, pt)
		at := mkField(x, "pt", v.ptT)
		rn, w := mkField(at, "rn", fieldType(structOf(v.ptT), "rn")), mkField(at, "w", tInt)
		bad := -1
		a, b := e.truth(o.st, mkEQ0(linAddC(rn, -0xFFFD))), e.truth(o.st, mkEQ0(linAddC(w, -1)))
		switch {
		case a == 1 && b == 1:
			bad = 1
		case a == 0 || b == 0:
			bad = 0
		}
		allowed := e.truth(o.st, mkField(x, "allowInvalidUTF8", tBool))
		n := countEv(o.st.ev, "record")
		switch {
		case bad == 1 && allowed == 0:
			yes++
			r.check(n == 1, "invalid text", "recorded", where, "text that is not UTF-8 is recorded %d times as an error (%s)", n, fs)
			for _, ev := range o.st.ev {
				if ev.kind == "record" {
					r.check(ev.args[0] == mkField(at, "position", ev.args[0].typ), "invalid text", "position", where, "text that is not UTF-8 is recorded at %s instead of its own position", ev.args[0])
				}
			}
		case bad == 0 || allowed == 1:
			no++
			r.check(n == 0, "invalid text", "valid", where, "text that is UTF-8, or allowed, is recorded as an error (%s)", fs)
		default:
			r.fail("invalid text", "decides", where, "%s does not look whether the text is valid (%s)", fn.Name(), fs)
		}
	}
	r.check(yes > 0 && no > 0, "invalid text", "paths", where, "%s does not tell valid text from invalid text", fn.Name())
	r.done("invalid text", e, fn.Name())
	r.floor("invalid text", 4)
}

// missedTokens: the farthest position a character was missed at, and what was missed there.
func (r *Rep) missedTokens() {
	v := r.vmRoles()
	rep := r.reporter()
	pt := ptrElem(v.ptr)
	e := r.exec()
	st := newSt()
	p := mkSym("parser", v.ptr)
	e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
	x0 := e.rootVal(st, p, pt)
	fail, pos, want := mkSym("fail", tBool), mkSym("pos", rep.Params[2].Type()), mkSym("want", rep.Params[3].Type())
	ps := structOf(pt)
	fld := func(x *T, n string) *T {
		ft := fieldType(ps, n)
		if ft == nil {
			panic(anchorError("field " + n + " of the parser"))
		}
		return mkField(x, n, ft)
	}
	inv, far, list := fld(x0, "maxFailInvertExpected"), fld(x0, "maxFailPos"), fld(x0, "maxFailExpected")
	name, where := rep.Name(), r.fnWhere(rep)
	n := map[string]int{}
	for _, o := range e.Call(rep, []*T{p, fail, pos, want}, nil, st, nil, nil) {
		fs := factsString(o.st.facts)
		if o.kind != ORet {
			r.fail("missed", name+" returns", where, "%s does not return (%s)", name, fs)
			continue
		}
		x1 := e.rootVal(o.st, p, pt)
		far1, list1 := fld(x1, "maxFailPos"), unconv(e.resolve(o.st, fld(x1, "maxFailExpected")))
		rest := setField(setField(x1, "maxFailPos", far), "maxFailExpected", list)
		r.check(rest == x0, "missed", name+" changes", where, "%s changes more than the farthest failure: %s", name, x1)
		kept := far1 == far && list1 == unconv(list)
		d := linSub(mkField(pos, "offset", tInt), mkField(far, "offset", tInt))
		before, same := e.truth(o.st, mkLE(linAddC(d, 1))), e.truth(o.st, mkEQ0(d))
		after := e.truth(o.st, mkNot(mkLE(d)))
		if before == 0 && after == 0 {
			same = 1
		}
		// whether this counts: a failure where something is required, a match where it is excluded
		counts := -1
		f, i := e.truth(o.st, fail), e.truth(o.st, inv)
		switch {
		case f >= 0 && i >= 0:
			counts = 0
			if f == i {
				counts = 1
			}
		default:
			counts = e.truth(o.st, mkEq(fail, inv))
			if counts < 0 {
				counts = e.truth(o.st, mkEq(inv, fail))
			}
		}
		if i < 0 && f >= 0 && counts >= 0 {
			i = f
			if counts == 0 {
				i = 1 - f
			}
		}
		if kept {
			n["kept"]++
			r.check(counts == 0 || before == 1, "missed", name+" ignores", where, "%s ignores a failure at the farthest position (%s)", name, fs)
			continue
		}
		n["noted"]++
		r.check(counts == 1, "missed", name+" counts", where, "%s notes a token that was there, or an excluded one that was not (%s)", name, fs)
		w := want
		if i == 1 {
			w = mkCat(mkStr("!"), want)
		}
		r.check(i >= 0, "missed", name+" negation", where, "%s does not look whether the token is excluded (%s)", name, fs)
		switch {
		case after == 1:
			ok := list1.k == KSeq && len(list1.a) == 1 && list1.a[0].k == KUnit && list1.a[0].a[0] == w
			r.check(far1 == pos && ok, "missed", name+" farther", where, "a failure farther than all before leaves the position %s and the tokens %s", far1, list1)
		case same == 1:
			ok := list1.k == KSeq && len(list1.a) == 2 && unconv(list1.a[0]) == unconv(list) && list1.a[1].k == KUnit && list1.a[1].a[0] == w
			r.check((far1 == far || far1 == pos) && ok, "missed", name+" as far", where, "a failure as far as the farthest leaves the position %s and the tokens %s", far1, list1)
		default:
			r.fail("missed", name+" order", where, "%s notes a failure without comparing positions (%s)", name, fs)
		}
	}
	r.done("missed", e, name)
	r.check(n["kept"] > 0 && n["noted"] > 0, "missed", name+" paths", where, "%s notes or ignores every failure", name)
	// matchers
	for _, k := range []string{"any", "class", "lit"} {
		fn := v.kinds[k]
		if fn == nil {
			continue
		}
		m := r.matchRun(fn)
		where := r.fnWhere(fn)
		for _, o := range m.outs {
			if o.kind != ORet || len(o.vals) != 2 {
				continue
			}
			fs := factsString(o.st.facts)
			ok := m.e.truth(o.st, o.vals[1])
			var reps []*Ev
			for _, ev := range o.st.ev {
				if ev.kind == "expected" {
					reps = append(reps, ev)
				}
			}
			if !r.check(len(reps) == 1, "matcher notes", fn.Name()+" once", where, "%s notes its outcome %d times (%s)", fn.Name(), len(reps), fs) {
				continue
			}
			a := reps[0].args
			said := m.e.truth(o.st, a[0])
			r.check(said >= 0 && said == ok, "matcher notes", fn.Name()+" outcome", where, "%s notes %s where it answers %s (%s)", fn.Name(), a[0], o.vals[1], fs)
			r.check(a[1] == mkField(m.start, "position", a[1].typ), "matcher notes", fn.Name()+" position", where, "%s notes its outcome at %s instead of where it started", fn.Name(), a[1])
			switch k {
			case "any":
				r.check(a[2].isStr() && a[2].str() == ".", "matcher notes", fn.Name()+" token", where, "%s notes the token %s", fn.Name(), a[2])
			case "class":
				r.check(a[2] == m.f(m.e.rootVal(o.st, m.nd, ptrElem(m.nd.typ)), "val"), "matcher notes", fn.Name()+" token", where, "%s notes the token %s", fn.Name(), a[2])
			case "lit":
				r.check(a[2] == m.f(m.e.rootVal(o.st, m.nd, ptrElem(m.nd.typ)), "want"), "matcher notes", fn.Name()+" token", where, "%s notes the token %s", fn.Name(), a[2])
			}
		}
		r.done("matcher notes", m.e, fn.Name())
	}
	// no evaluator but the matchers notes anything, see the machine; texts of the tokens
	byVal := map[string]*gnode{}
	for _, n := range r.grammar().nodes {
		switch n.kind {
		case "lit":
			r.check(n.want == strconv.Quote(n.lit), "token texts", "literal "+n.lit+" in "+n.rule, n.pos, "the token %q is reported as %s", n.lit, n.want)
		case "class":
			o := byVal[n.val]
			if o == nil {
				byVal[n.val] = n
			}
			r.check(strings.HasPrefix(n.val, "[") && strings.HasSuffix(n.val, "]") && (o == nil || o.set.String() == n.set.String()), "token texts", "class "+n.val+" in "+n.rule, n.pos, "the class %s does not tell which characters it has", n.val)
		}
	}
	r.floor("missed", 5)
	r.floor("matcher notes", 20)
	r.floor("token texts", 50)
}

// listResult stands for the error made of the list of errors.
func (r *Rep) listResult(e *Exec, er *errRoles, ci *callInfo) []Outcome {
	l := ci.args[0]
	if _, ok := l.typ.Underlying().(*types.Pointer); ok {
		l = e.rootVal(ci.st, l, er.list)
	}
	l = unconv(e.resolve(ci.st, l))
	ci.st.ev = append(ci.st.ev, &Ev{kind: "list of errors", args: []*T{l}})
	var outs []Outcome
	if t := e.truth(ci.st, mkEQ0(mkLen(l))); t != 0 {
		s := ci.st.clone()
		e.assume(s, mkEQ0(mkLen(l)))
		outs = append(outs, Outcome{kind: ORet, st: s, vals: []*T{mkNil(errIface)}})
		if t == 1 {
			return outs
		}
	}
	s := ci.st.clone()
	x := mkApp("error of", errIface, l)
	e.assume(s, mkNot(mkEQ0(mkLen(l))))
	e.assume(s, mkNot(mkEq(x, mkNil(errIface))))
	return append(outs, Outcome{kind: ORet, st: s, vals: []*T{x}})
}

// engineError: the error of a parse is made of all that was recorded.
func (r *Rep) engineError(e *Exec, er *errRoles, q Outcome, sc string, rec bool, what, where string) {
	fs := factsString(q.st.facts)
	err := bare(q.vals[1])
	if err.isNil() {
		r.check(sc == "match" && !rec, "engine", what+" nil", where, "a parse with failures returns no error (%s)", what)
		return
	}
	if !r.check(err.k == KApp && err.s == "error of", "engine", what+" list", where, "a parse (%s) returns the error %s instead of the list of errors (%s)", what, err, fs) {
		return
	}
	l := err.a[0]
	parts := []*T{l}
	if l.k == KSeq {
		parts = l.a
	}
	if rec {
		ok := len(parts) > 0 && parts[0].k == KSym && parts[0].s == "recorded"
		if !r.check(ok, "engine", what+" keeps", where, "the errors recorded are not those returned (%s): %s", what, l) {
			return
		}
		parts = parts[1:]
	}
	switch {
	case sc == "match" || sc == "fail" && rec:
		r.check(len(parts) == 0, "engine", what+" adds", where, "a parse (%s) returns errors that were not recorded: %s", what, l)
		return
	}
	if !r.check(len(parts) == 1 && parts[0].k == KUnit && parts[0].a[0].k == KIface, "engine", what+" one", where, "a parse (%s) adds the errors %s", what, l) {
		return
	}
	for _, t := range r.callMethod(e, q.st.clone(), parts[0].a[0].a[0], "Error") {
		if t.kind != ORet {
			r.fail("engine", what+" text", where, "the text of the error may panic")
			continue
		}
		txt := t.val()
		if sc == "panic" {
			p := mkSym("panicked", q.vals[0].typ)
			r.check(contains(txt, p), "engine", what+" cause", where, "the error %s does not tell what was the matter", txt)
			continue
		}
		r.tokenText(e, t, q, what, where)
	}
}

// tokenText: the text of a failure without recorded error gives the farthest position and each token missed there.
func (r *Rep) tokenText(e *Exec, t, q Outcome, what, where string) {
	txt := t.val()
	fs := factsString(t.st.facts)
	var far, missed *T
	pt := ptrElem(r.vmRoles().ptr)
	far = mkSym("maxFailPos", fieldType(structOf(pt), "maxFailPos"))
	missed = mkSym("maxFailExpected", fieldType(structOf(pt), "maxFailExpected"))
	want := []*T{mkField(far, "line", tInt), mkField(far, "col", tInt), mkField(far, "offset", tInt)}
	r.check(inOrder(txt, want...), "farthest", "position", where, "the error %s of a text that does not match does not give the farthest position reached", txt)
	var msg *T
	for _, ev := range t.st.ev {
		if ev.kind == "call" && strings.HasSuffix(ev.name, ".Error") && len(ev.args) > 0 && ev.args[0].k == KApp && ev.args[0].s == "mkerror" {
			msg = ev.args[0].a[0]
		}
	}
	if msg == nil {
		msg = txt
	}
	// the lists the text is made from
	var src *T // the set of tokens
	var accs []*T
	walkTerm(msg, func(x *T) bool {
		if x.k == KLoopAcc && (len(accs) == 0 || accs[0] != x) {
			accs = append(accs, x)
		}
		return true
	})
	eof, all := 0, 0
	first, last := 0, 0
	gone := func(x *T) bool { // nothing is in the list on this path
		return e.truth(t.st, mkEQ0(mkLen(x))) == 1 || x.k == KSeq && len(x.a) == 0
	}
	one := func(x *T) bool { return e.truth(t.st, mkEQ0(linAddC(mkLen(x), -1))) == 1 }
	isAcc := func(x *T) *T {
		y := unconv(x)
		if y.k == KApp && y.s == "sorted" {
			y = unconv(y.a[0])
		}
		if y.k == KSeq && len(y.a) == 1 && y.a[0].k != KUnit {
			y = y.a[0]
		}
		if y.k == KLoopAcc || y.k == KSeq && len(y.a) == 0 {
			return y
		}
		return nil
	}
	odd := false
	var list func(x *T)
	elem := func(l, i *T) {
		l = unconv(l)
		if l.k == KSeq && len(l.a) > 0 {
			if y := isAcc(l.a[0]); y != nil && gone(l.a[0]) && len(l.a) == 2 && l.a[1].k == KUnit && i.isInt() && i.int() == 0 {
				list(mk(&T{k: KSeq, a: l.a[1:], typ: l.typ}))
				return
			}
		}
		if y := isAcc(l); y != nil {
			switch {
			case i.isInt() && i.int() == 0 && (one(y) || one(l)):
				all++
				return
			case i.isInt() && i.int() == 0:
				first++
				return
			case i == linAddC(mkLen(y), -1) || i == linAddC(mkLen(l), -1):
				last++
				return
			}
		}
		odd = true
	}
	list = func(x *T) {
		x = unconv(x)
		if y := isAcc(x); y != nil {
			all++
			return
		}
		switch x.k {
		case KSeq:
			for _, p := range x.a {
				if p.k != KUnit {
					list(p)
				} else if p.a[0].isStr() && p.a[0].str() == "EOF" {
					eof++
				} else if p.a[0].k == KElem {
					elem(p.a[0].a[0], p.a[0].a[1])
				} else {
					odd = true
				}
			}
		case KSub:
			y := isAcc(x.a[0])
			if y == nil {
				odd = true
				return
			}
			n := mkLen(y)
			switch {
			case x.a[1].isInt() && x.a[1].int() == 0 && (x.a[2] == linAddC(n, -1) || x.a[2] == linAddC(mkLen(x.a[0]), -1)):
				first++ // all but the last
			default:
				odd = true
			}
		default:
			odd = true
		}
	}
	for _, p := range textParts31(msg) {
		switch {
		case p.isStr():
			eof += strings.Count(p.str(), "EOF")
		case p.k == KApp && p.s == "strings.Join":
			list(p.a[0])
		case p.k == KElem:
			elem(p.a[0], p.a[1])
		case contains(p, far):
		case p.k == KSym || p.k == KField:
		default:
			odd = true
		}
	}
	complete := all == 1 && first == 0 && last == 0 || all == 0 && first == 1 && last == 1
	// the set
	has := -1
	key := mkStr("!.")
	for _, f := range t.st.facts {
		g, v := f, 1
		if g.k == KNot {
			g, v = g.a[0], 0
		}
		if g.k == KApp && (g.s == "maphas" || g.s == "mapget") && g.a[1] == key {
			has = v
		}
	}
	if len(accs) == 0 {
		// no token but the end of the input
		rest := -1
		for _, ev := range t.st.ev {
			if ev.kind == "mapdelete" {
				rest = 0
			}
		}
		if rest < 0 || has == 0 {
			return // the set is not empty: this path does not exist
		}
		for _, f := range t.st.facts {
			if f.k == KNot && strings.Contains(f.a[0].String(), "len(sorted([]))") {
				return // nor this one
			}
		}
		r.check(eof == 1 && has == 1, "farthest", "end of input", where, "the error %s does not say that the end of the input was missed (%s)", msg, fs)
		return
	}
	for _, f := range t.st.facts {
		// what the loop over the set gives is not empty
		if f == mkEQ0(mkLen(mkApp("sorted", accs[0].typ, accs[0]))) || strings.HasPrefix(f.String(), "(len(sorted(loop") && strings.HasSuffix(f.String(), " == 0)") {
			return
		}
	}
	if !r.check(len(accs) == 1 && !odd && complete, "farthest", "tokens", where, "the error %s does not list each token missed at the farthest position once (%s)", msg, fs) {
		return
	}
	lp := accs[0].lp
	for _, tr := range lp.trans {
		got := tr.emit[accs[0].cmp.key]
		ok := len(got) == 1 && got[0].k == KUnit && got[0].a[0].k == KApp && got[0].a[0].s == "mapkey" && got[0].a[0].a[1] == lp.K
		if !r.check(ok, "farthest", "each token", where, "the tokens listed are %v instead of those missed", got) {
			return
		}
		src = got[0].a[0].a[0]
	}
	r.check(src != nil && e.truth(t.st, mkLE(linSub(mkApp("mapcount", tInt, src), lp.K))) == 1, "farthest", "all tokens", where, "not all tokens missed are listed (%s)", fs)
	cut := false
	if src != nil && src.k == KApp && src.s == "mapdel" {
		r.check(src.a[1] == key, "farthest", "left out", where, "the token %s is left out", src.a[1])
		src, cut = src.a[0], true
	}
	r.check(eof == 1 == (cut && has == 1) && eof < 2 && (!cut || has >= 0), "farthest", "end of input", where, "the error %s names the end of the input wrongly (%s)", msg, fs)
	if !r.check(src != nil && src.k == KLoopVar, "farthest", "set", where, "the tokens listed are %s instead of those missed", src) {
		return
	}
	for _, tr := range src.lp.trans {
		n := 0
		for _, ev := range tr.ev {
			if ev.kind == "mapupdate" {
				n++
				r.check(ev.args[1] == mkElem(missed, src.lp.K, elemType(missed)), "farthest", "token missed", where, "the set of tokens gets %s instead of the token missed", ev.args[1])
			}
		}
		r.check(n == 1, "farthest", "every token", where, "a token missed is not put into the set of those listed (%s)", factsString(tr.facts))
	}
	r.check(e.truth(t.st, mkLE(linSub(mkLen(missed), src.lp.K))) == 1, "farthest", "every one", where, "not all tokens missed are looked at (%s)", fs)
}

// freshRecord: a parse starts without missed tokens.
func (r *Rep) freshRecord(e *Exec, o Outcome, pt types.Type) {
	mk := r.maker()
	x := e.rootVal(o.st, o.vals[0], pt)
	f := func(n string) *T {
		ft := fieldType(structOf(pt), n)
		if ft == nil {
			panic(anchorError("field " + n + " of the parser"))
		}
		return e.resolve(o.st, mkField(x, n, ft))
	}
	far, list, inv := f("maxFailPos"), f("maxFailExpected"), f("maxFailInvertExpected")
	off := mkField(far, "offset", tInt)
	r.check(off.isInt() && off.int() == 0, "start", "farthest", r.fnWhere(mk), "a parse starts with the farthest failure at offset %s", off)
	r.check(e.truth(o.st, mkEQ0(mkLen(list))) == 1, "start", "tokens", r.fnWhere(mk), "a parse starts with missed tokens: %s", list)
	r.check(inv == tFalse, "start", "inverted", r.fnWhere(mk), "a parse starts with expectations inverted: %s", inv)
}

func init() {
	register("C31", "The functions that record an error are interpreted on arbitrary arguments: the list must grow by one record at its end whose text gives the source name, line, column, offset and the cause. "+
		"The functions making an error and a text of the list are interpreted on an arbitrary list; the summarised loops must keep the first of each text, in order, and write each once on a line. "+
		"Reading a character must record invalid UTF-8, exactly once, unless allowed. The function noting missed tokens must keep the farthest position and all tokens missed there, according to the comparisons entailed on each path; "+
		"each matcher must note its outcome once, at its start, with its own token; each token's text must be its literal, quoted. The evaluators are explored for errors of code dropped, repeated or misplaced, and for the inversion of expectations in negative look-ahead. "+
		"The entry function is interpreted for every outcome of the first rule: the error returned is made of the errors recorded, all of them, or of one that gives the farthest position and every token missed there once.", ruleErrors)
}
