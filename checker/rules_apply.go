package main

// C17: the traversal of the plugins of a block list and the operations of its cursor.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// traversal is the interpretation of one arbitrary iteration of the loop over a block list.
type traversal struct {
	r       *Rep
	e       *Exec
	entry   *ssa.Function
	root    *T
	cb      *T
	cursorT types.Type
	sig     types.Type
	busy    bool
	met     int
	ncall   int
	leaves  []*tleaf
	outs    []Outcome
	backs   []tback
	exits   []edge
	nev     int
	nf      int
	phase   string
}

// tleaf is a value carried around the loop.
type tleaf struct {
	phi  *ssa.Phi
	root *T
	path []string
	typ  types.Type
	init *T
	head *T // symbol, or init when it does not change
	grp  string
}

type tback struct {
	st   *St
	vals []*T
}

func (t *traversal) cellLeaves(r *T, v *T, path []string) {
	if v.typ != nil && isStructType(v.typ) && !isTextCell(v.typ) {
		s := structOf(v.typ)
		for i, x := range expandStruct(v) {
			t.cellLeaves(r, x, append(append([]string{}, path...), s.Field(i).Name()))
		}
		return
	}
	t.leaves = append(t.leaves, &tleaf{root: r, path: path, typ: v.typ, init: v, head: v})
}

func (t *traversal) callsBack(blocks []*ssa.BasicBlock, in map[*ssa.BasicBlock]bool, open map[*ssa.Function]bool) bool {
	for _, b := range blocks {
		if in != nil && !in[b] {
			continue
		}
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || ci.Common().IsInvoke() {
				continue
			}
			if fn := ci.Common().StaticCallee(); fn != nil {
				if t.e.inRepo(fn) && !open[fn] {
					open[fn] = true
					if t.callsBack(fn.Blocks, nil, open) {
						return true
					}
				}
				continue
			}
			if types.Identical(ci.Common().Value.Type().Underlying(), t.sig.Underlying()) {
				return true
			}
		}
	}
	return false
}

func (t *traversal) loop(f *frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, from *ssa.BasicBlock, p *path) ([]Outcome, []edge, bool) {
	if t.busy || !t.callsBack(f.fn.Blocks, body, map[*ssa.Function]bool{}) {
		return nil, nil, false
	}
	t.met++
	t.busy = true
	defer func() { t.busy = false }()
	e := t.e
	pred := func(b *ssa.BasicBlock) int {
		for i, x := range header.Preds {
			if x == b {
				return i
			}
		}
		return 0
	}
	first := 0
	t.leaves = nil
	for _, in := range header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		first++
		v := f.val(p, phi.Edges[pred(from)])
		t.leaves = append(t.leaves, &tleaf{phi: phi, typ: phi.Type(), init: v, head: v})
	}
	var roots []*T
	for r := range p.st.mem {
		if r.k == KAddr {
			roots = append(roots, r)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].id < roots[j].id })
	for _, r := range roots {
		t.cellLeaves(r, p.st.mem[r], nil)
	}
	for round := 0; round < 30; round++ {
		q := p.clone()
		for _, l := range t.leaves {
			if l.phi != nil {
				q.env[l.phi] = l.head
				continue
			}
			q.st.mem[l.root] = setLeaf(q.st.mem[l.root], l.path, l.head)
		}
		t.nev, t.nf, t.ncall = len(q.st.ev), len(q.st.facts), 0
		outs, backs, exits := f.run([]item{{blk: header, idx: first, p: q, noPhi: true}}, body, header)
		t.outs, t.exits, t.backs = outs, exits, nil
		for _, b := range backs {
			tb := tback{st: b.p.st}
			for _, l := range t.leaves {
				if l.phi != nil {
					tb.vals = append(tb.vals, f.val(b.p, l.phi.Edges[pred(b.from)]))
				} else {
					tb.vals = append(tb.vals, getLeaf(b.p.st.mem[l.root], l.path))
				}
			}
			t.backs = append(t.backs, tb)
		}
		again := false
		for i, l := range t.leaves {
			changed := false
			for _, b := range t.backs {
				if b.vals[i] != l.head {
					changed = true
				}
			}
			if changed && l.grp == "" {
				l.grp = fmt.Sprintf("%s|%d", typeKey(l.typ), l.init.id)
				again = true
			}
		}
		// members of a group keep the same value
		if !again {
			for i, l := range t.leaves {
				if l.grp == "" {
					continue
				}
				for j, m := range t.leaves[:i] {
					if m.grp != l.grp {
						continue
					}
					for _, b := range t.backs {
						if b.vals[i] != b.vals[j] {
							l.grp += "'"
							again = true
							break
						}
					}
					break
				}
			}
		}
		if !again {
			return outs, exits, true
		}
		for _, l := range t.leaves {
			if l.grp != "" {
				l.head = mkSym("head:"+l.grp, l.typ)
			}
		}
	}
	e.undecided("the values carried around the loop in %s", f.fn)
	return t.outs, t.exits, true
}

// at evaluates a term over the values at the head for other values.
func (t *traversal) at(x *T, vals []*T) *T {
	m := map[*T]*T{}
	for i, l := range t.leaves {
		if l.grp != "" {
			if vals == nil {
				m[l.head] = l.init
			} else {
				m[l.head] = vals[i]
			}
		}
	}
	return subst(x, m)
}

// view evaluates an accessor of the cursor in a state where it has the given contents.
func (t *traversal) view(st *St, ptr, contents *T, name string) (*T, bool) {
	fn := need(t.r.p.method("ast/astutil", "Cursor", name), "method Cursor."+name)
	s := st.clone()
	if contents != nil {
		t.e.store(s, ptr, contents, nil, nil)
	}
	n := len(s.ev)
	var v *T
	for _, o := range t.e.Call(fn, []*T{ptr}, nil, s, nil, nil) {
		if o.kind != ORet || len(o.vals) != 1 {
			return nil, false
		}
		for _, ev := range o.st.ev[n:] {
			if ev.kind != "hazard" {
				return nil, false
			}
		}
		if v != nil && v != o.vals[0] {
			return nil, false
		}
		v = o.vals[0]
	}
	return v, v != nil
}

type nextCase struct {
	after *T // contents of the cursor when the function returns
	facts []*T
	next  *T
	list  *T
}

func ruleApply(r *Rep) {
	entry := need(r.p.fn("ast/astutil", "ApplyPlugins"), "function ApplyPlugins")
	if len(entry.Params) != 2 || entry.Signature.Results().Len() != 1 {
		panic(anchorError("ApplyPlugins(list, function) list"))
	}
	t := &traversal{r: r, e: r.exec(), entry: entry}
	t.sig = entry.Params[1].Type()
	sg, _ := under(t.sig).(*types.Signature)
	if sg == nil || sg.Params().Len() != 1 || ptrElem(sg.Params().At(0).Type()) == nil {
		panic(anchorError("function of a cursor"))
	}
	t.cursorT = ptrElem(sg.Params().At(0).Type())
	t.root, t.cb = mkSym("root", entry.Params[0].Type()), mkSym("visit", t.sig)
	e := t.e
	e.hazards = true
	where := r.fnWhere(entry)
	st := newSt()
	e.assume(st, mkNot(mkEq(t.cb, mkNil(t.sig))))
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil && ci.recv == t.cb || ci.fn == nil && len(ci.args) > 0 && unconv(ci.args[0]) == t.cb && ci.name == "dyn" {
			args := ci.args
			if len(args) > 0 && unconv(args[0]) == t.cb {
				args = args[1:]
			}
			ptr := args[0]
			t.ncall++
			before := e.load(ci.st, ptr, t.cursorT, nil, nil)
			after := mkSym(fmt.Sprintf("after%d", t.ncall), t.cursorT)
			e.event(ci.st, &Ev{kind: "apply", args: []*T{ptr, before, after}, pos: ipos(ci), fn: frFn(ci)})
			e.store(ci.st, ptr, after, nil, nil)
			// the store above is not an effect of the code
			return one(ci.st), true
		}
		if ci.fn != nil && t.busy && e.recursive(ci) {
			var list *T
			cb := false
			for _, a := range ci.args {
				if unconv(a) == t.cb {
					cb = true
				} else if a.typ != nil && sameType(a.typ, t.root.typ) {
					list = a
				}
			}
			if cb && list != nil && ci.sig.Results().Len() == 1 {
				t.ncall++
				res := mkSym(fmt.Sprintf("result%d", t.ncall), t.root.typ)
				e.event(ci.st, &Ev{kind: "recurse", args: []*T{list, res}, pos: ipos(ci), fn: frFn(ci)})
				return one(ci.st, res), true
			}
		}
		return nil, false
	}
	e.loopHook = t.loop
	outs := e.Call(entry, []*T{t.root, t.cb}, nil, st, nil, nil)
	e.loopHook = nil
	if t.met != 1 {
		panic(anchorError(fmt.Sprintf("one loop over the block list in ApplyPlugins (%d found)", t.met)))
	}
	// the list and the index of the cursor the function is given, over the values at the head of the loop
	var L, I, ptr *T
	var cases []nextCase
	visits := 0
	for _, b := range t.backs {
		for k, ev := range b.st.ev {
			if k < t.nev || ev.kind != "apply" {
				continue
			}
			visits++
			s := b.st
			l, ok1 := t.view(s, ev.args[0], ev.args[1], "Parent")
			i, ok2 := t.view(s, ev.args[0], ev.args[1], "Index")
			if !ok1 || !ok2 {
				panic(anchorError("Parent and Index of the cursor"))
			}
			if L != nil && (l != L || i != I) {
				r.fail("cursor", "given", where, "the cursor given to the function describes %s at %s in one case and %s at %s in another", L, I, l, i)
			}
			if L == nil {
				L, I, ptr = l, i, ev.args[0]
			}
		}
	}
	if L == nil {
		panic(anchorError("call of the function in the traversal"))
	}
	el := mkElem(L, I, elemType(L))
	astT := func(n string) types.Type { return needType(r.p.typ("ast", n), "type ast."+n) }
	pluginT, branchT := astT("Plugin"), astT("Branch")
	end := func(st *St) bool { return e.entailLE(st, linSub(mkLen(L), I)) }
	// entry
	r.check(t.at(L, nil) == t.root, "traversal", "starts with the list", where, "the traversal starts with the list %s instead of the one given", t.at(L, nil))
	r.check(t.at(I, nil) == mkInt(0), "traversal", "starts at the first", where, "the traversal starts at index %s", t.at(I, nil))
	// iterations
	kinds := map[string]int{}
	for _, b := range t.backs {
		fs := factsString(b.st.facts[t.nf:])
		r.check(e.entailLE(b.st, linAddC(linSub(I, mkLen(L)), 1)), "traversal", "within the list", where, "an iteration is made although the index may be outside the list (%s)", fs)
		isP, isB, isN := e.isDyn(b.st, el, pluginT), e.isDyn(b.st, el, branchT), e.truth(b.st, mkEq(el, mkNil(el.typ)))
		var evs []*Ev
		for _, ev := range b.st.ev[t.nev:] {
			if ev.kind != "hazard" && !t.local(ev) {
				evs = append(evs, ev)
			}
		}
		switch {
		case isP == 1 || isN == 1:
			name := "plugin"
			if isN == 1 {
				name = "empty slot"
			}
			kinds[name]++
			if !r.check(len(evs) == 1 && evs[0].kind == "apply", "traversal", name+" visited once", where, "for a %s the traversal does %s (%s)", name, evList(evs), fs) {
				continue
			}
			s := b.st
			l, ok := t.view(s, evs[0].args[0], evs[0].args[2], "Parent")
			if !ok {
				panic(anchorError("Parent of the cursor"))
			}
			cases = append(cases, nextCase{after: evs[0].args[2], facts: b.st.facts[t.nf:], next: t.at(I, b.vals), list: t.at(L, b.vals)})
			r.check(t.at(L, b.vals) == l, "traversal", name+": list taken over", where, "after the function has run for a %s the traversal goes on with the list %s instead of the one the cursor describes", name, t.at(L, b.vals))
		case isB == 1:
			kinds["branch"]++
			t.branch(b, evs, el, L, I, fs, where)
			r.check(t.at(I, b.vals) == linAddC(I, 1), "traversal", "branch: next", where, "after a branch the traversal goes on at %s (%s)", t.at(I, b.vals), fs)
			r.check(t.at(L, b.vals) == L, "traversal", "branch: list", where, "after a branch the traversal goes on with the list %s", t.at(L, b.vals))
		default:
			ok := isP == 0 && isB == 0 && isN == 0
			r.check(ok, "traversal", "kind", where, "a block is handled without regard to what it is (%s)", fs)
		}
	}
	for _, k := range []string{"plugin", "empty slot", "branch"} {
		r.check(kinds[k] > 0, "traversal", "handles "+k, where, "the traversal does not go on after a %s", k)
	}
	// leaving
	isOther := func(st *St) bool {
		return e.isDyn(st, el, pluginT) == 0 && e.isDyn(st, el, branchT) == 0 && e.truth(st, mkEq(el, mkNil(el.typ))) == 0
	}
	for _, x := range t.exits {
		if isOther(x.p.st) {
			// blocks that are neither plugins nor branches end the traversal with a panic, see below
			continue
		}
		r.check(end(x.p.st) && quiet(x.p.st.ev[t.nev:]), "traversal", "ends after the last", where, "the traversal ends before the end of the list (%s)", factsString(x.p.st.facts[t.nf:]))
	}
	for _, o := range outs {
		in := false
		for _, l := range t.leaves {
			for _, f := range o.st.facts {
				if l.grp != "" && contains(f, l.head) {
					in = true
				}
			}
		}
		fs := factsString(o.st.facts)
		if o.kind != ORet {
			r.check(in && isOther(o.st), "traversal", "panics", where, "the traversal may panic with %v (%s)", o.pan, fs)
			continue
		}
		v := o.vals[0]
		if in {
			r.check(v == L && end(o.st), "traversal", "result", where, "the traversal returns %s (%s)", v, fs)
		} else {
			ok := e.truth(o.st, mkEQ0(mkLen(t.root))) == 1 && (v == t.root || v.isNil() || v.k == KSeq && len(v.a) == 0)
			r.check(ok, "traversal", "result without traversal", where, "without going through the list %s is returned (%s)", v, fs)
		}
	}
	r.floor("traversal", 20)
	// before the function runs the next block is the following one
	for _, b := range t.backs {
		for k, ev := range b.st.ev {
			if k < t.nev || ev.kind != "apply" {
				continue
			}
			for _, c := range cases {
				nx := subst(c.next, map[*T]*T{c.after: ev.args[1]})
				s := b.st.clone()
				if !t.holds(s, c, ev.args[1]) {
					continue
				}
				r.check(nx == linAddC(I, 1), "cursor", "next of an untouched cursor", where, "if the function changes nothing the traversal goes on at %s instead of %s", nx, linAddC(I, 1))
			}
		}
	}
	t.operations(cases, ptr)
	r.done("traversal", e, "ApplyPlugins")
}

func (e *Exec) isDyn(st *St, x *T, t types.Type) int {
	if v := e.typeTruth(st, x, t); v >= 0 {
		return v
	}
	return e.truth(st, mkTypeIs(x, t))
}

// holds assumes the facts of a case for other contents of the cursor; false if they contradict.
func (t *traversal) holds(st *St, c nextCase, contents *T) bool {
	for _, f := range c.facts {
		if !contains(f, c.after) {
			continue
		}
		g := subst(f, map[*T]*T{c.after: contents})
		switch t.e.truth(st, g) {
		case 0:
			return false
		case 1:
		default:
			if !t.e.assume(st, g) {
				return false
			}
		}
	}
	return true
}

// local: a store to a variable of the traversal itself.
func (t *traversal) local(ev *Ev) bool {
	return ev.kind == "store" && rootOf(ev.args[0]).k == KAddr
}

func quiet(evs []*Ev) bool {
	for _, ev := range evs {
		if ev.kind != "hazard" {
			return false
		}
	}
	return true
}

func evList(evs []*Ev) string {
	if len(evs) == 0 {
		return "nothing"
	}
	var ss []string
	for _, ev := range evs {
		ss = append(ss, ev.String())
	}
	return strings.Join(ss, ", ")
}

// branch: the block lists of a branch are traversed once each, in order, and replaced by the results.
func (t *traversal) branch(b tback, evs []*Ev, el, L, I *T, fs, where string) {
	r, e := t.r, t.e
	bt := needType(r.p.typ("ast", "Branch"), "type ast.Branch")
	old := mkAs(el, bt)
	f := func(x *T, path ...string) *T { return getLeaf(x, path) }
	bad := func(what, msg string, a ...any) {
		r.fail("traversal", "branch: "+what, where, msg+" ("+clip(fs, 300)+")", a...)
	}
	ok := func(what string) { r.pass("traversal", "branch: %s", what) }
	// the branch afterwards
	cur := e.elemAt(b.st, L, I, elemType(L))
	now := old
	if cur != el {
		if cur.k != KIface || !sameType(cur.xt, bt) {
			bad("kept", "the branch is replaced by %s", cur)
			return
		}
		now = cur.a[0]
	}
	stage := 0
	results := map[string]*T{}
	lists := map[string]*T{"if": f(old, "IfBlock", "Block"), "else": f(old, "ElseBlock", "Block")}
	S := f(old, "ElseIfBlock")
	elseIf := false
	for _, ev := range evs {
		switch ev.kind {
		case "recurse":
			switch {
			case ev.args[0] == lists["if"] && stage == 0:
				results["if"], stage = ev.args[1], 1
			case ev.args[0] == lists["else"] && stage < 3:
				results["else"], stage = ev.args[1], 3
			default:
				bad("order", "the blocks %s are traversed out of order, twice or without being part of the branch", ev.args[0])
				return
			}
		case "loop":
			if stage >= 2 {
				bad("else-if order", "the else-if blocks are not traversed between the if and the else block")
				return
			}
			lp := ev.lp
			if !e.iterates(lp, S, b.st) || len(lp.trans) == 0 {
				bad("else-if", "the loop does not go through all else-if blocks")
				return
			}
			for _, tr := range lp.trans {
				var res *T
				stored := false
				for _, x := range tr.ev {
					switch {
					case x.kind == "hazard" || t.local(x):
					case x.kind == "recurse" && res == nil && x.args[0] == f(mkElem(S, lp.K, elemType(S)), "Block"):
						res = x.args[1]
					case x.kind == "store" && res != nil && !stored && isBlockStore(e, x, S, lp.K, res):
						stored = true
					default:
						bad("else-if", "for an else-if block the traversal does %s", x)
						return
					}
				}
				if res == nil && e.truth(e.stOf(append(append([]*T{}, tr.ord...), tr.facts...)), mkEQ0(mkLen(f(mkElem(S, lp.K, elemType(S)), "Block")))) == 1 {
					continue
				}
				if res == nil || !stored {
					bad("else-if", "an else-if block is not traversed or its result is dropped")
					return
				}
			}
			elseIf, stage = true, 2
		case "store":
			// the branch itself, compared below
			if a := ev.args[0]; a.k != KIAddr || a.a[0] != L || a.a[1] != I {
				bad("stores", "the traversal stores to %s", ev.args[0])
				return
			}
		default:
			bad("effects", "for a branch the traversal does %s", ev)
			return
		}
	}
	if !elseIf && e.truth(b.st, mkEQ0(mkLen(S))) != 1 && !e.entailLE(b.st, mkLen(S)) {
		bad("else-if", "the else-if blocks are not traversed")
		return
	}
	for _, k := range []string{"if", "else"} {
		if results[k] == nil {
			if e.truth(b.st, mkEQ0(mkLen(lists[k]))) != 1 {
				bad(k, "the %s block is not traversed", k)
				return
			}
			results[k] = lists[k]
		}
	}
	want := setLeaf(setLeaf(old, []string{"IfBlock", "Block"}, results["if"]), []string{"ElseBlock", "Block"}, results["else"])
	same := true
	leafDiffs(want, now, nil, func(path []string, o, n *T) {
		if o != n {
			same = false
			bad("field "+strings.Join(path, "."), "%s of the branch becomes %s instead of %s", strings.Join(path, "."), n, o)
		}
	})
	if same {
		ok("blocks traversed and replaced")
	}
}

// isBlockStore: the result becomes the block of element k, the rest of which is kept.
func isBlockStore(e *Exec, ev *Ev, S, k, res *T) bool {
	a, v := ev.args[0], ev.args[1]
	at := func(x *T) bool { return x.k == KIAddr && x.a[0] == S && x.a[1] == k }
	if a.k == KFAddr && a.s == "Block" && at(a.a[0]) {
		return v == res
	}
	if !at(a) {
		return false
	}
	old := mkElem(S, k, elemType(S))
	same := true
	leafDiffs(setLeaf(old, []string{"Block"}, res), v, nil, func(path []string, o, n *T) {
		if o != n {
			same = false
		}
	})
	return same
}

// operations compares each operation of the cursor, on an arbitrary valid cursor, with what it is said to do.
func (t *traversal) operations(cases []nextCase, _ *T) {
	r, e := t.r, t.e
	ptr := mk(&T{k: KAddr, s: "cursor", typ: types.NewPointer(t.cursorT)})
	X := mkSym("X", t.cursorT)
	base := newSt()
	base.mem[ptr] = X
	L, ok1 := t.view(base, ptr, nil, "Parent")
	i, ok2 := t.view(base, ptr, nil, "Index")
	if !ok1 || !ok2 {
		panic(anchorError("Parent and Index of the cursor"))
	}
	lt := L.typ
	e.assume(base, mkLE(linScale(i, -1)))
	e.assume(base, mkLE(linAddC(linSub(i, mkLen(L)), 1)))
	et := elemType(L)
	pluginT := needType(r.p.typ("ast", "Plugin"), "type ast.Plugin")
	p := mkSym("p", et)
	el := mkElem(L, i, et)
	n := mkLen(L)
	type op struct {
		name  string
		args  []*T
		list  *T
		index *T
		next  int64
	}
	ops := []op{
		{"Replace", []*T{p}, mkSeq(lt, mkSub(L, mkInt(0), i, lt), mkUnit(p), mkSub(L, linAddC(i, 1), n, lt)), i, 0},
		{"Delete", nil, mkSeq(lt, mkSub(L, mkInt(0), i, lt), mkSub(L, linAddC(i, 1), n, lt)), i, -1},
		{"InsertBefore", []*T{p}, mkSeq(lt, mkSub(L, mkInt(0), i, lt), mkUnit(p), mkSub(L, i, n, lt)), linAddC(i, 1), 1},
		{"InsertAfter", []*T{p}, mkSeq(lt, mkSub(L, mkInt(0), linAddC(i, 1), lt), mkUnit(p), mkSub(L, linAddC(i, 1), n, lt)), i, 1},
	}
	for _, o := range ops {
		fn := need(r.p.method("ast/astutil", "Cursor", o.name), "method Cursor."+o.name)
		where := r.fnWhere(fn)
		for _, bc := range cases {
			st := base.clone()
			if !t.holds(st, bc, X) {
				continue
			}
			N := subst(bc.next, map[*T]*T{bc.after: X})
			// the next block lies behind the current one
			e.assume(st, mkLE(linAddC(linSub(i, N), 1)))
			e.assume(st, mkLE(linSub(N, n)))
			for _, q := range e.Call(fn, append([]*T{ptr}, o.args...), nil, st, nil, nil) {
				fs := factsString(q.st.facts)
				if !r.check(q.kind == ORet, "operation", o.name+" panics", where, "%s panics with %v on a cursor within its list (%s)", o.name, q.pan, fs) {
					continue
				}
				l, ok1 := t.view(q.st, ptr, nil, "Parent")
				j, ok2 := t.view(q.st, ptr, nil, "Index")
				if !ok1 || !ok2 {
					panic(anchorError("Parent and Index of the cursor"))
				}
				good := canonList(e.norm(q.st, e.resolve(q.st, l))) == canonList(o.list)
				if o.name == "Replace" && !good && l == L {
					good = e.elemAt(q.st, L, i, et) == p
					stores := 0
					for _, ev := range q.st.ev {
						if ev.kind == "hazard" || t.local(ev) {
							continue
						}
						stores++
						if ev.kind != "store" || ev.args[0].k != KIAddr || ev.args[0].a[0] != L || ev.args[0].a[1] != i {
							good = false
						}
					}
					good = good && stores == 1
				}
				r.check(good, "operation", o.name+" list", where, "%s makes the list %s instead of %s (%s)", o.name, e.resolve(q.st, l), o.list, fs)
				r.check(j == o.index, "operation", o.name+" index", where, "after %s the cursor is at %s instead of %s (%s)", o.name, j, o.index, fs)
				now := q.st.mem[ptr]
				for _, ac := range cases {
					s := q.st.clone()
					if !t.holds(s, ac, now) {
						continue
					}
					nx := subst(ac.next, map[*T]*T{ac.after: now})
					r.check(nx == linAddC(N, o.next), "operation", o.name+" next", where, "after %s the traversal goes on at %s instead of %s (%s)", o.name, nx, linAddC(N, o.next), fs)
				}
				for _, ev := range q.st.ev {
					if ev.kind == "hazard" || t.local(ev) || ev.kind == "store" && ev.args[0].k == KIAddr && ev.args[0].a[0] == L && o.name == "Replace" || ev.kind == "copy" {
						continue
					}
					if ev.kind == "store" && rootOf(ev.args[0]).k == KIAddr && good && contains(ev.args[0], L) {
						continue // element of the list, which is as it should be
					}
					r.fail("operation", o.name+" effects", where, "%s does %s", o.name, ev)
				}
			}
		}
	}
	// the plugin of the cursor
	fn := need(r.p.method("ast/astutil", "Cursor", "Plugin"), "method Cursor.Plugin")
	where := r.fnWhere(fn)
	some, none := 0, 0
	for _, q := range e.Call(fn, []*T{ptr}, nil, base.clone(), nil, nil) {
		fs := factsString(q.st.facts)
		if !r.check(q.kind == ORet && len(q.vals) == 1, "operation", "Plugin returns", where, "Plugin panics (%s)", fs) {
			continue
		}
		v := q.vals[0]
		switch e.isDyn(q.st, el, pluginT) {
		case 1:
			some++
			ok := !v.isNil() && e.load(q.st, v, pluginT, nil, nil) == mkAs(el, pluginT)
			r.check(ok, "operation", "Plugin current", where, "Plugin gives %s for a plugin (%s)", v, fs)
		case 0:
			none++
			r.check(v.isNil() || e.truth(q.st, mkEq(v, mkNil(v.typ))) == 1, "operation", "Plugin nothing", where, "Plugin gives %s although the current block is no plugin (%s)", v, fs)
		default:
			r.fail("operation", "Plugin", where, "Plugin does not distinguish plugins (%s)", fs)
		}
	}
	r.check(some > 0 && none > 0, "operation", "Plugin cases", where, "Plugin does not distinguish plugins")
	r.floor("operation", 15)
}

func init() {
	register("C17", "One arbitrary iteration of the loop over a block list is interpreted abstractly, the values it carries found and generalised by fixpoint (constants and equalities that every iteration keeps). For each kind of block the iteration must make the calls it should, once and in order, replace the nested lists by the results, and go on at the next index; it must start at the first and end after the last block. The function given is treated as arbitrary. Each operation of the cursor is interpreted on an arbitrary valid cursor: the list it leaves, the index and the index at which the traversal goes on (as the loop computes it) must be the specified terms, taking aliasing of the backing array into account.", ruleApply)
}
