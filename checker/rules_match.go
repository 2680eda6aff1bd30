package main

// The parts of the parser that look at characters and keep the state: matchers, positions, copies.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reporter finds the function that notes a failed expectation: (bool, position, string).
func (r *Rep) reporter() *ssa.Function {
	_, fns := r.parserFuncs()
	var out []*ssa.Function
	for _, fn := range fns {
		if len(fn.Params) != 4 || fn.Signature.Results().Len() != 0 {
			continue
		}
		b, ok := under(fn.Params[1].Type()).(*types.Basic)
		if ok && b.Kind() == types.Bool && isStringType(fn.Params[3].Type()) && structOf(fn.Params[2].Type()) != nil {
			out = append(out, fn)
		}
	}
	return r.pick("notes a failed expectation", out, fns)
}

type mrun struct {
	e        *Exec
	p, nd    *T
	pt       types.Type
	ptT      types.Type
	start    *T // position at the start
	outs     []Outcome
	fn       *ssa.Function
	reported *ssa.Function
}

// matchRun interprets a matcher; reading a character moves to next(position).
func (r *Rep) matchRun(fn *ssa.Function) *mrun {
	v := r.vmRoles()
	m := &mrun{e: r.exec(), fn: fn, reported: r.reporter()}
	e := m.e
	st := newSt()
	m.p = mkSym("parser", v.ptr)
	m.pt = ptrElem(v.ptr)
	m.ptT = v.ptT
	e.assume(st, mkNot(mkEq(m.p, mkNil(v.ptr))))
	x := e.rootVal(st, m.p, m.pt)
	for _, k := range sortedKeys(v.switches) {
		x = setField(x, k, tFalse)
	}
	m.start = mkField(x, "pt", m.ptT)
	st.mem[m.p] = x
	args := []*T{m.p}
	if len(fn.Params) > 1 {
		m.nd = mkSym("node", fn.Params[1].Type())
		args = append(args, m.nd)
		e.assume(st, mkNot(mkEq(m.nd, mkNil(m.nd.typ))))
		nt := ptrElem(m.nd.typ)
		if fieldType(structOf(nt), "ignoreCase") != nil {
			st.mem[m.nd] = setField(e.rootVal(st, m.nd, nt), "ignoreCase", tFalse)
		}
	}
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		switch {
		case ci.fn != nil && ci.fn == v.read && fn != v.read:
			x := e.rootVal(ci.st, m.p, m.pt)
			ci.st.mem[m.p] = setField(x, "pt", mkApp("next", m.ptT, mkField(x, "pt", m.ptT)))
			ci.st.ev = append(ci.st.ev, &Ev{kind: "read", fn: ci.fn})
			return []Outcome{{kind: ORet, st: ci.st}}, true
		case ci.fn != nil && ci.fn == m.reported:
			ci.st.ev = append(ci.st.ev, &Ev{kind: "expected", args: ci.args[1:]})
			return []Outcome{{kind: ORet, st: ci.st}}, true
		case ci.fn != nil && ci.fn == v.rePt:
			x := e.rootVal(ci.st, m.p, m.pt)
			ci.st.mem[m.p] = setField(x, "pt", ci.args[1])
			return []Outcome{{kind: ORet, st: ci.st}}, true
		}
		return nil, false
	}
	m.outs = e.Call(fn, args, nil, st, nil, nil)
	r.funcs[fn.String()] = true
	return m
}

func (m *mrun) ptOf(st *St) *T { return mkField(m.e.rootVal(st, m.p, m.pt), "pt", m.ptT) }

func (m *mrun) data(st *St) *T {
	return mkField(m.e.rootVal(st, m.p, m.pt), "data", fieldType(structOf(m.pt), "data"))
}

func (m *mrun) f(pos *T, name string) *T {
	for _, n := range strings.Split(name, ".") {
		pos = mkField(pos, n, fieldType(structOf(pos.typ), n))
	}
	return pos
}

// loopsOf lists the loops a path went through.
func loopsOf(st *St) (out []*Ev) {
	for _, ev := range st.ev {
		if ev.lp != nil {
			out = append(out, ev)
		}
	}
	return
}

// reads counts the characters read on a path outside loops; -1 if some are read in loops.
func countEv(evs []*Ev, kind string) int {
	n := 0
	for _, ev := range evs {
		if ev.kind == kind {
			n++
		}
	}
	return n
}

// matchers: a literal, a class and any character match exactly the characters they denote.
func (r *Rep) matchRule() {
	v := r.vmRoles()
	used := map[string]bool{}
	for _, n := range r.grammar().nodes {
		used[n.kind] = true
		if n.ic {
			r.fail("matcher", "ignoreCase", "", "the grammar compares without regard to case; this is not analysed")
		}
	}
	for _, k := range []string{"any", "class", "lit"} {
		fn := v.kinds[k]
		if !used[k] {
			continue
		}
		if fn == nil {
			r.fail("matcher", "kind "+k, "", "no function evaluates nodes of kind %s", k)
			continue
		}
		m := r.matchRun(fn)
		name, where := fn.Name(), r.fnWhere(fn)
		n := 0
		for _, o := range m.outs {
			fs := factsString(o.st.facts)
			if o.kind != ORet || len(o.vals) != 2 {
				r.fail("matcher", name+" returns", where, "%s does not return (%s)", name, fs)
				continue
			}
			ok := m.e.truth(o.st, o.vals[1])
			if ok < 0 {
				r.fail("matcher", name+" outcome", where, "the outcome %s of %s is not decided (%s)", o.vals[1], name, fs)
				continue
			}
			n++
			cur := m.start
			rn, w := m.f(cur, "rn"), m.f(cur, "w")
			eof := -1
			switch a, b := m.e.truth(o.st, mkEQ0(linAddC(rn, -0xFFFD))), m.e.truth(o.st, mkEQ0(w)); {
			case a == 1 && b == 1:
				eof = 1
			case a == 0 || b == 0:
				eof = 0
			}
			member, why := 0, ""
			switch k {
			case "any":
				member = -1
				switch eof {
				case 0:
					member = 1
				case 1:
					member = 0
				}
				why = "the end of the input"
			case "class":
				member, why = m.classMember(o.st, rn)
				switch {
				case eof == 1:
					member = 0
				case member >= 0:
					if inv := m.e.truth(o.st, m.f(m.e.rootVal(o.st, m.nd, ptrElem(m.nd.typ)), "inverted")); inv < 0 {
						member, why = -1, "whether the class is inverted"
					} else {
						member ^= inv
						if eof < 0 && ok == 1 {
							member, why = -1, "the end of the input"
						}
					}
				}
			case "lit":
				member, why = m.litMember(o.st)
			}
			r.check(member >= 0, "matcher", name+" looks", where, "%s answers %v without looking at %s (%s)", name, ok == 1, why, fs)
			r.check(member < 0 || member == ok, "matcher", name+" decides", where, "%s answers %v where the input says otherwise (%s)", name, ok == 1, fs)
			if ok == 1 {
				end := m.ptOf(o.st)
				if k != "lit" {
					r.check(end == mkApp("next", m.ptT, m.start), "matcher", name+" consumes", where, "%s does not consume exactly one character (%s)", name, fs)
				}
				want := mkSub(m.data(o.st), m.f(m.start, "position.offset"), m.f(end, "position.offset"), fieldType(structOf(m.pt), "data"))
				got := bare(o.vals[0])
				if countEv(o.st.ev, "read") > 0 || len(loopsOf(o.st)) > 0 {
					r.check(got == want, "matcher", name+" value", where, "%s answers %s instead of the matched text", name, got)
				}
			} else {
				r.check(o.vals[0].isNil(), "matcher", name+" no value", where, "%s fails with the value %s", name, o.vals[0])
			}
		}
		r.done("matcher", m.e, name)
		r.check(n >= 2, "matcher", name+" paths", where, "%s has only %d outcomes", name, n)
	}
	r.floor("matcher", 20)
}

// classMember decides whether the character is in the lists of the class: 1, 0 or unknown (-1).
func (m *mrun) classMember(st *St, rn *T) (int, string) {
	e := m.e
	nd := e.rootVal(st, m.nd, ptrElem(m.nd.typ))
	lists := map[string]*T{}
	for _, n := range []string{"chars", "ranges", "classes"} {
		if fieldType(structOf(nd.typ), n) == nil {
			panic(anchorError("field " + n + " of the class node"))
		}
		lists[n] = m.f(nd, n)
	}
	elem := func(l string, i *T) *T { return mkElem(lists[l], i, under(lists[l].typ).(*types.Slice).Elem()) }
	in := func(st *St, l string, i *T) int {
		switch l {
		case "chars":
			return e.truth(st, mkEQ0(linSub(rn, elem(l, i))))
		case "ranges":
			lo := linScale(i, 2)
			a, b := e.truth(st, mkLE(linSub(elem(l, lo), rn))), e.truth(st, mkLE(linSub(rn, elem(l, linAddC(lo, 1)))))
			switch {
			case a == 1 && b == 1:
				return 1
			case a == 0 || b == 0:
				return 0
			}
			return -1
		}
		return e.truth(st, mkApp("unicode.Is", tBool, elem(l, i), rn))
	}
	step := map[string]int64{"chars": 1, "ranges": 2, "classes": 1}
	for _, l := range sortedKeys(lists) {
		// an element that contains the character
		for _, f := range st.facts {
			var at *T
			walkTerm(f, func(x *T) bool {
				if x.k == KElem && x.a[0] == lists[l] {
					at = x.a[1]
				}
				return true
			})
			if at == nil {
				continue
			}
			for _, ev := range loopsOf(st) {
				if in(st, l, ev.lp.K) == 1 && e.truth(st, mkLE(linSub(linAddC(linScale(ev.lp.K, step[l]), 1), mkLen(lists[l])))) == 1 {
					return 1, ""
				}
			}
			if in(st, l, mkInt(0)) == 1 {
				return 1, ""
			}
			// the first element of a loop
			for _, k := range ksOf(f) {
				if in(st, l, k) == 1 && e.truth(st, mkLE(linSub(linAddC(linScale(k, step[l]), 1), mkLen(lists[l])))) == 1 {
					return 1, ""
				}
			}
		}
	}
	// a loop left in a state reached only by finding the character
	for _, ev := range loopsOf(st) {
		if ev.hi == 0 {
			continue
		}
		for _, l := range sortedKeys(lists) {
			found := 0
			for _, t := range ev.lp.trans {
				if t.to != ev.hi || t.from == ev.hi {
					continue
				}
				ts := e.transSt(ev.lp, t)
				if in(ts, l, ev.lp.K) != 1 || e.truth(ts, mkLE(linSub(linAddC(linScale(ev.lp.K, step[l]), 1), mkLen(lists[l])))) != 1 {
					found = -99
					break
				}
				found++
			}
			if found > 0 {
				return 1, ""
			}
		}
	}
	for _, l := range sortedKeys(lists) {
		if e.truth(st, mkLE(linAddC(mkLen(lists[l]), 1-step[l]))) == 1 {
			continue
		}
		done := false
		for _, f := range st.facts {
			walkTerm(f, func(x *T) bool {
				if x.k == KSym && x.typ == tInt && e.truth(st, mkEQ0(x)) == 1 && e.truth(st, mkLE(linAddC(linSub(mkLen(lists[l]), linScale(x, step[l])), 1-step[l]))) == 1 {
					done = true
				}
				return !done
			})
		}
		for _, ev := range loopsOf(st) {
			lp := ev.lp
			if e.truth(st, mkLE(linAddC(linSub(mkLen(lists[l]), linScale(lp.K, step[l])), 1-step[l]))) != 1 {
				continue
			}
			all := len(lp.trans) > 0
			co := coReach(lp, ev.hi)
			for _, t := range lp.trans {
				if !co[t.from] || !co[t.to] {
					continue
				}
				if in(e.transSt(lp, t), l, lp.K) != 0 {
					all = false
				}
			}
			done = done || all
		}
		if !done {
			return -1, "all of its " + l
		}
	}
	return 0, ""
}

// ksOf lists the loop counters a term mentions.
func ksOf(f *T) (out []*T) {
	walkTerm(f, func(x *T) bool {
		if x.k == KElem {
			walkTerm(x.a[1], func(y *T) bool {
				if y.k == KSym && y != x.a[0] {
					out = append(out, y)
				}
				return true
			})
		}
		return true
	})
	return
}

// litMember decides whether the literal stands at the start.
func (m *mrun) litMember(st *St) (int, string) {
	e := m.e
	val := m.f(e.rootVal(st, m.nd, ptrElem(m.nd.typ)), "val")
	count := mkApp("runecount", tInt, val)
	loops := loopsOf(st)
	// every completed round compares the next character and reads it
	rn := m.f(m.start, "rn")
	var K *T
	for _, ev := range loops {
		lp := ev.lp
		K = lp.K
		co := coReach(lp, ev.hi)
		for _, t := range lp.trans {
			if !co[t.from] || !co[t.to] {
				continue
			}
			ts := e.transSt(lp, t)
			cur, ok := m.inLoop(lp, t.from, "rn")
			if !ok {
				return -1, "the character at the position reached"
			}
			at := mkApp("runeat", cur.typ, val, lp.K)
			if !m.same(ts, cur, at) {
				return -1, "each of its characters"
			}
			if countEv(t.ev, "read") != 1 {
				return -1, "the next character after each one"
			}
			for key, x := range t.vals {
				if !strings.Contains(key, ".pt.") {
					continue
				}
				// every part of the position is that of the next one
				y := x
				for y.k == KField {
					y = y.a[0]
				}
				if y.k != KApp || y.s != "next" {
					return -1, "the position after each character"
				}
			}
		}
		cur, ok := m.inLoop(lp, ev.hi, "rn")
		if !ok {
			return -1, "the character at the position reached"
		}
		rn = cur
	}
	if len(loops) > 1 {
		return -1, "its characters in one go"
	}
	if len(loops) == 0 {
		// no round completed
		K = mkInt(0)
		for _, f := range st.facts {
			for _, k := range runeIdx(f, val) {
				if e.truth(st, mkEQ0(k)) == 1 {
					K = k
				}
			}
		}
	}
	if e.truth(st, mkLE(linSub(count, K))) == 1 {
		return 1, ""
	}
	at := mkApp("runeat", rn.typ, val, K)
	if e.truth(st, mkLE(linSub(linAddC(K, 1), count))) == 1 {
		if e.truth(st, mkEQ0(linSub(at, rn))) == 0 {
			return 0, ""
		}
	}
	return -1, "the next of its characters"
}

func (m *mrun) same(st *St, a, b *T) bool { return m.e.truth(st, mkEQ0(linSub(a, b))) == 1 }

func runeIdx(f, val *T) (out []*T) {
	walkTerm(f, func(x *T) bool {
		if x.k == KApp && x.s == "runeat" && x.a[0] == val {
			out = append(out, x.a[1])
		}
		if x.k == KApp && x.s == "runecount" && x.a[0] == val {
			walkTerm(f, func(y *T) bool {
				if y.k == KSym && y.typ != nil && types.Identical(y.typ, tInt) {
					out = append(out, y)
				}
				return true
			})
		}
		return true
	})
	return
}

// inLoop is the value of a field of the position at a head of a loop.
func (m *mrun) inLoop(lp *Loop, head int, field string) (*T, bool) {
	for _, c := range lp.comps {
		if strings.HasSuffix(c.key, ".pt."+field) {
			return c.headVal(lp, lp.heads[head]), true
		}
	}
	return nil, false
}

// readRule: reading a character moves the position by exactly that character.
func (r *Rep) readRule() {
	v := r.vmRoles()
	m := r.matchRun(v.read)
	fn := v.read
	name, where := fn.Name(), r.fnWhere(fn)
	for _, o := range m.outs {
		fs := factsString(o.st.facts)
		if o.kind != ORet {
			r.fail("read", name+" returns", where, "%s does not return (%s)", name, fs)
			continue
		}
		a, b := m.start, m.ptOf(o.st)
		off := linAdd(m.f(a, "position.offset"), m.f(a, "w"))
		r.check(m.f(b, "position.offset") == off, "read", name+" offset", where, "the offset after reading is %s instead of that after the last character", m.f(b, "position.offset"))
		data := m.data(o.st)
		rest := mkSub(data, off, mkLen(data), data.typ)
		rn := mkApp("unicode/utf8.DecodeRune#0", m.f(b, "rn").typ, rest)
		w := mkApp("unicode/utf8.DecodeRune#1", tInt, rest)
		r.check(m.f(b, "rn") == rn, "read", name+" character", where, "the character read is %s instead of the one at the new offset", m.f(b, "rn"))
		r.check(m.f(b, "w") == w, "read", name+" width", where, "the width of the character read is %s instead of its number of bytes", m.f(b, "w"))
		line, col := m.f(b, "position.line"), m.f(b, "position.col")
		l0, c0 := m.f(a, "position.line"), m.f(a, "position.col")
		switch m.e.truth(o.st, mkEQ0(linAddC(rn, -'\n'))) {
		case 1:
			r.check(line == linAddC(l0, 1), "read", name+" line", where, "after a newline the line is %s", line)
			r.check(col.isInt() && col.int() == 0, "read", name+" column", where, "after a newline the column starts at %s", col)
		case 0:
			r.check(line == l0, "read", name+" line", where, "without a newline the line becomes %s (%s)", line, fs)
			r.check(col == linAddC(c0, 1), "read", name+" column", where, "after a character the column becomes %s (%s)", col, fs)
		default:
			r.fail("read", name+" newline", where, "%s does not look whether the character is a newline (%s)", name, fs)
		}
	}
	r.done("read", m.e, name)
	r.floor("read", 10)
	// the first position
	mk := r.maker()
	e := r.exec()
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if f := ci.fn; f != nil && len(f.Params) > 0 && sameType(f.Params[0].Type(), v.ptr) && f.Signature.Results().Len() == 0 {
			return []Outcome{{kind: ORet, st: ci.st}}, true // options set switches only
		}
		if isOptionCall(ci, v.ptr) {
			return []Outcome{{kind: ORet, st: ci.st, vals: []*T{mkSym("previous option", ci.sig.Results().At(0).Type())}}}, true
		}
		return nil, false
	}
	st := newSt()
	var args []*T
	for _, p := range mk.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	n := 0
	for _, o := range e.Call(mk, args, nil, st, nil, nil) {
		if o.kind != ORet {
			continue
		}
		n++
		x := e.rootVal(o.st, o.vals[0], m.pt)
		pt := mkField(x, "pt", m.ptT)
		want := map[string]int64{"position.line": 1, "position.col": 0, "position.offset": 0, "w": 0}
		for _, k := range sortedKeys(want) {
			g := m.f(pt, k)
			r.check(g.isInt() && g.int() == want[k], "read", "start "+k, r.fnWhere(mk), "a parse starts with %s %s instead of %d", k, g, want[k])
		}
		d := mkField(x, "data", fieldType(structOf(m.pt), "data"))
		isIn := false
		for _, a := range args {
			isIn = isIn || d == a
		}
		r.check(isIn, "read", "start data", r.fnWhere(mk), "a parse reads %s instead of its input", d)
	}
	r.check(n > 0, "read", "start", r.fnWhere(mk), "%s never returns a parser", mk.Name())
	r.done("read", e, mk.Name())
}

// primRule: the functions that copy and restore do just that.
func (r *Rep) primRule() {
	v := r.vmRoles()
	pt := ptrElem(v.ptr)
	setup := func(fn *ssa.Function) (*Exec, *St, *T) {
		e := r.exec()
		st := newSt()
		p := mkSym("parser", v.ptr)
		e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
		x := e.rootVal(st, p, pt)
		for _, k := range sortedKeys(v.switches) {
			x = setField(x, k, tFalse)
		}
		st.mem[p] = x
		r.funcs[fn.String()] = true
		return e, st, p
	}
	curT := fieldType(structOf(pt), "cur")
	stateOf := func(e *Exec, st *St, p *T) *T {
		return mkField(mkField(e.rootVal(st, p, pt), "cur", curT), "state", v.stT)
	}
	// position
	{
		e, st, p := setup(v.rePt)
		to := mkSym("saved", v.ptT)
		was := mkField(e.rootVal(st, p, pt), "pt", v.ptT)
		off := func(x *T) *T {
			y := mkField(x, "position", fieldType(structOf(v.ptT), "position"))
			return mkField(y, "offset", tInt)
		}
		for _, o := range e.Call(v.rePt, []*T{p, to}, nil, st, nil, nil) {
			now := mkField(e.rootVal(o.st, p, pt), "pt", v.ptT)
			same := now == to || now == was && e.truth(o.st, mkEQ0(linSub(off(to), off(was)))) == 1
			r.check(o.kind == ORet && same, "restore", v.rePt.Name(), r.fnWhere(v.rePt), "%s leaves the position %s instead of the saved one (%s)", v.rePt.Name(), now, factsString(o.st.facts))
		}
		r.done("restore", e, v.rePt.Name())
	}
	// state
	{
		e, st, p := setup(v.reState)
		to := mkSym("saved", v.stT)
		was := stateOf(e, st, p)
		for _, o := range e.Call(v.reState, []*T{p, to}, nil, st, nil, nil) {
			now := stateOf(e, o.st, p)
			r.check(o.kind == ORet && now == to, "restore", v.reState.Name(), r.fnWhere(v.reState), "%s leaves the state %s instead of the saved one", v.reState.Name(), now)
			for _, ev := range allEvs(o.st.ev) {
				switch ev.kind {
				case "mapupdate", "mapdelete", "call":
					for i, a := range ev.args {
						if ev.kind == "call" && i == 0 {
							continue
						}
						r.check(bare(a) != to, "restore", v.reState.Name()+" keeps", r.fnWhere(v.reState), "%s does %s to the state it restores", v.reState.Name(), ev)
					}
				}
			}
			_ = was
		}
		r.done("restore", e, v.reState.Name())
	}
	// copies of the state
	{
		e, st, p := setup(v.clone)
		was := stateOf(e, st, p)
		src := e.mapState(st, was)
		n := 0
		for _, o := range e.Call(v.clone, []*T{p}, nil, st, nil, nil) {
			fs := factsString(o.st.facts)
			if o.kind != ORet {
				if o.kind == OPanic && strings.Contains(fs, " is ") {
					continue // the pool holds nothing else
				}
				r.fail("copy", v.clone.Name()+" returns", r.fnWhere(v.clone), "%s does not return (%s)", v.clone.Name(), fs)
				continue
			}
			n++
			res := o.vals[0]
			r.check(stateOf(e, o.st, p) == was, "copy", v.clone.Name()+" original", r.fnWhere(v.clone), "%s replaces the state it copies", v.clone.Name())
			r.check(res != was, "copy", v.clone.Name()+" separate", r.fnWhere(v.clone), "%s returns the state itself instead of a copy", v.clone.Name())
			count := mkApp("mapcount", tInt, src)
			if e.truth(o.st, mkLE(count)) == 1 {
				r.pass("copy", "%s copies an empty state", v.clone.Name())
				continue
			}
			covered, why := false, "it does not go through all entries"
			for _, ev := range loopsOf(o.st) {
				lp := ev.lp
				if e.truth(o.st, mkLE(linSub(count, lp.K))) != 1 {
					continue
				}
				covered = true
				co := coReach(lp, ev.hi)
				for _, t := range lp.trans {
					if !co[t.from] || !co[t.to] {
						continue
					}
					ts := e.transSt(lp, t)
					key := mkApp("mapkey", nil, src, lp.K)
					val := mkApp("mapval", nil, src, lp.K)
					ups := 0
					for _, ev := range t.ev {
						if ev.kind == "mapdelete" {
							covered, why = false, "it deletes entries"
						}
						if ev.kind != "mapupdate" || len(ev.args) != 3 {
							continue
						}
						ups++
						if ev.args[0] != res || !sameApp(ev.args[1], key) {
							covered, why = false, "it does not keep the entry under its key"
						}
						x := bare(ev.args[2])
						isCl := r.clonerTruth(e, ts, val, t)
						switch {
						case sameApp(x, val) && isCl == 0:
						case x.k == KApp && strings.HasSuffix(x.s, "Clone") && len(x.a) == 1 && sameApp(unas(x.a[0]), val):
						default:
							covered, why = false, "it keeps "+x.String()
						}
					}
					if ups != 1 {
						covered, why = false, "an entry is not copied once"
					}
				}
			}
			r.check(covered, "copy", v.clone.Name()+" entries", r.fnWhere(v.clone), "%s does not copy the whole state: %s (%s)", v.clone.Name(), why, fs)
		}
		r.check(n >= 2, "copy", v.clone.Name()+" paths", r.fnWhere(v.clone), "%s has only %d paths", v.clone.Name(), n)
		r.done("copy", e, v.clone.Name())
	}
	r.poolRule(v)
	r.stateValues(v)
	r.floor("copy", 4)
	r.floor("restore", 3)
	r.floor("state values", 3)
}

func sameApp(a, b *T) bool {
	if a == b {
		return true
	}
	if a.k != KApp || b.k != KApp || a.s != b.s || len(a.a) != len(b.a) {
		return false
	}
	for i := range a.a {
		if a.a[i] != b.a[i] {
			return false
		}
	}
	return true
}

func unas(x *T) *T {
	for x.k == KAs || x.k == KIface || x.k == KConv {
		x = x.a[0]
	}
	return x
}

// clonerTruth tells whether a step knows that the value has a Clone method: 1, 0 or unknown.
func (r *Rep) clonerTruth(e *Exec, ts *St, val *T, t *Trans) int {
	for _, f := range ts.facts {
		neg := false
		x := f
		if x.k == KNot {
			neg, x = true, x.a[0]
		}
		if x.k == KTypeIs && sameApp(x.a[0], val) && isCloner(x.xt) {
			if neg {
				return 0
			}
			return 1
		}
	}
	return -1
}

func isCloner(t types.Type) bool {
	it, ok := under(t).(*types.Interface)
	if !ok || it.NumMethods() != 1 {
		return false
	}
	return it.Method(0).Name() == "Clone"
}

// allEvs lists the events of a path, those of its loops included.
func allEvs(evs []*Ev) (out []*Ev) {
	for _, ev := range evs {
		out = append(out, ev)
		if ev.lp != nil {
			for _, t := range ev.lp.trans {
				out = append(out, t.ev...)
			}
		}
	}
	return
}

// poolRule: a map is emptied before it goes back into a pool, and new ones are empty.
func (r *Rep) poolRule(v *vmRoles) {
	for _, fn := range r.p.funcs {
		if fn.Pkg != r.p.pkg("") || len(fn.Blocks) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || f.String() != "(*sync.Pool).Put" {
					continue
				}
				e := r.exec()
				st := newSt()
				var args []*T
				for _, p := range fn.Params {
					args = append(args, mkSym(p.Name(), p.Type()))
				}
				r.funcs[fn.String()] = true
				for _, o := range e.Call(fn, args, nil, st, nil, nil) {
					for _, ev := range o.st.ev {
						if ev.kind != "call" || ev.name != "(*sync.Pool).Put" {
							continue
						}
						x := bare(ev.args[1])
						if _, ok := under(x.typ).(*types.Map); !ok {
							continue
						}
						r.check(e.emptied(o.st, x), "copy", "pool "+fn.Name(), r.fnWhere(fn), "%s puts a map into the pool without deleting all its entries (%s)", fn.Name(), factsString(o.st.facts))
					}
				}
				r.done("copy", e, fn.Name())
			}
		}
	}
}

// emptied tells whether a map is empty at the end of a path.
func (e *Exec) emptied(st *St, x *T) bool {
	cur := e.mapState(st, x)
	if cur.k == KApp && (cur.s == "mapnew" || cur.s == "mapclear") {
		return true
	}
	if e.truth(st, mkLE(mkApp("mapcount", tInt, cur))) == 1 {
		return true
	}
	for _, ev := range loopsOf(st) {
		lp := ev.lp
		co := coReach(lp, ev.hi)
		all := len(lp.trans) > 0
		for _, t := range lp.trans {
			if !co[t.from] || !co[t.to] {
				continue
			}
			n := 0
			for _, ev := range t.ev {
				switch ev.kind {
				case "mapdelete":
					k := ev.args[1]
					if ev.args[0] == x && k.k == KApp && k.s == "mapkey" && k.a[1] == lp.K {
						n++
					}
				case "mapupdate":
					n = -9
				}
			}
			if n < 1 {
				all = false
			}
		}
		if !all {
			continue
		}
		// left because nothing remained
		for _, f := range st.facts {
			if f.k == KCmp && f.s == "<=0" {
				if c := mentionsCount(f); c && mentionsSym(f, lp.K) {
					return true
				}
			}
		}
	}
	// no entry to begin with
	for _, f := range st.facts {
		if f.k == KCmp && f.s == "<=0" && mentionsCount(f) && len(loopsOf(st)) == 0 {
			return true
		}
	}
	return false
}

func mentionsCount(f *T) (out bool) {
	walkTerm(f, func(x *T) bool {
		if x.k == KApp && x.s == "mapcount" {
			out = true
		}
		return true
	})
	return
}

func mentionsSym(f, s *T) (out bool) {
	walkTerm(f, func(x *T) bool {
		if x == s {
			out = true
		}
		return true
	})
	return
}

// stateValues: what is kept in the backtracked state cannot be changed through a copy.
func (r *Rep) stateValues(v *vmRoles) {
	for _, fn := range r.p.funcs {
		if fn.Pkg != r.p.pkg("") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !sameType(mu.Map.Type(), v.stT) {
					continue
				}
				fa := fieldOfMap(mu.Map)
				if fa != "state" {
					continue
				}
				mi, ok := mu.Value.(*ssa.MakeInterface)
				if !ok {
					if fn.Parent() != nil {
						continue // the option that sets the first state
					}
					r.fail("state values", "store in "+fn.Name(), r.where(mu.Pos()), "%s keeps a value of unknown type in the backtracked state", fn.Name())
					continue
				}
				t := mi.X.Type()
				if immutable(t) {
					r.pass("state values", "%s keeps a value of type %s", fn.Name(), shortType(t))
					continue
				}
				m := methodNamed(r.p, t, "Clone")
				if m == nil || len(m.Blocks) == 0 {
					r.fail("state values", "type "+shortType(t), r.where(mu.Pos()), "%s keeps a %s in the backtracked state, which has no Clone method: an abandoned alternative changes it", fn.Name(), shortType(t))
					continue
				}
				r.pass("state values", "%s keeps a value of type %s, which is copied", fn.Name(), shortType(t))
				r.cloneRule(m, t)
			}
		}
	}
}

func methodNamed(p *Prog, t types.Type, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func immutable(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return immutable(u.Elem())
	}
	return false
}

func fieldOfMap(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldName(fa)
		}
	case *ssa.Field:
		return structOf(x.X.Type()).Field(x.Field).Name()
	}
	return ""
}

// cloneRule: Clone returns the same content in storage of its own.
func (r *Rep) cloneRule(fn *ssa.Function, t types.Type) {
	r.funcs[fn.String()] = true
	e := r.exec()
	st := newSt()
	w := mkSym("value", t)
	for _, o := range e.Call(fn, []*T{w}, nil, st, nil, nil) {
		if o.kind != ORet || len(o.vals) != 1 {
			r.fail("state values", fn.Name()+" of "+shortType(t)+" returns", r.fnWhere(fn), "Clone does not return (%s)", factsString(o.st.facts))
			continue
		}
		got := o.vals[0]
		x := e.resolve(o.st, unconv(bare(got)))
		same := unconv(canonList(x)) == w || e.truth(o.st, mkLE(mkLen(w))) == 1 && e.truth(o.st, mkLE(mkLen(x))) == 1
		r.check(same, "state values", "Clone of "+shortType(t)+" content", r.fnWhere(fn), "Clone returns %s instead of the same content (%s)", x, factsString(o.st.facts))
		r.check(got.k == KIface && sameType(got.xt, t), "state values", "Clone of "+shortType(t)+" type", r.fnWhere(fn), "Clone returns a value of another type than the original")
	}
	r.done("state values", e, fn.Name())
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			why := ownStorage(ret.Results[0], map[ssa.Value]bool{})
			r.check(why == "", "state values", "Clone of "+shortType(t)+" storage", r.fnWhere(fn), "Clone shares its storage with the original: %s", why)
		}
	}
	if s, ok := under(t).(*types.Slice); ok {
		r.check(immutable(s.Elem()), "state values", "elements of "+shortType(t), r.fnWhere(fn), "the elements of %s are shared by its copies", shortType(t))
	}
}

// ownStorage tells why a slice or map may share storage with something else.
func ownStorage(v ssa.Value, seen map[ssa.Value]bool) string {
	return (&storageWalk{seen: seen}).own(v)
}

type storageWalk struct {
	seen  map[ssa.Value]bool
	fn    *ssa.Function // the function called
	args  []ssa.Value
	outer *storageWalk // where the arguments are from
}

func (w *storageWalk) own(v ssa.Value) string {
	seen := w.seen
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return w.own(x.X)
	case *ssa.ChangeType:
		return w.own(x.X)
	case *ssa.Convert:
		return w.own(x.X)
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x && x.Parent() == w.fn && i < len(w.args) {
				return w.outer.own(w.args[i])
			}
		}
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const:
		return ""
	case *ssa.Phi:
		for _, e := range x.Edges {
			if why := w.own(e); why != "" {
				return why
			}
		}
		return ""
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok && a.Heap {
			return ""
		}
		return w.own(x.X)
	case *ssa.Alloc:
		// a variable: everything stored in it
		for _, ref := range *x.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
				if why := w.own(s.Val); why != "" {
					return why
				}
			}
		}
		return ""
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			return w.own(a)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return w.own(x.Call.Args[0])
		}
		if f := x.Call.StaticCallee(); f != nil {
			o := f
			if f.Origin() != nil {
				o = f.Origin()
			}
			if o.Pkg != nil && (o.Pkg.Pkg.Path() == "slices" || o.Pkg.Pkg.Path() == "maps") && o.Name() == "Clone" {
				return ""
			}
			for o := w; o != nil; o = o.outer {
				if o.fn == f {
					return v.Name() + " = " + v.String()
				}
			}
			if len(f.Blocks) > 0 {
				w := &storageWalk{seen: map[ssa.Value]bool{}, fn: f, args: x.Call.Args, outer: w}
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
						if why := w.own(ret.Results[0]); why != "" {
							return why
						}
					}
				}
				return ""
			}
		}
	}
	return v.Name() + " = " + v.String()
}

// isOptionCall: a parser option is applied.
func isOptionCall(ci *callInfo, ptr types.Type) bool {
	if ci.name != "dyn" || ci.sig == nil || ci.sig.Params().Len() != 1 || ci.sig.Results().Len() != 1 {
		return false
	}
	n, ok := types.Unalias(ci.sig.Results().At(0).Type()).(*types.Named)
	return ok && n.Obj().Name() == "Option" && sameType(ci.sig.Params().At(0).Type(), ptr)
}
