package main

// C32: what each parser option does to a parse.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "Information flow: the fields set by the options for tracing and statistics, and the fields that serve these alone, must not reach (directly or by a branch) another field, a result, a panic or code outside the package; "+
		"writing to standard output must depend on the tracing switch; the depth of the trace must be balanced and never negative on every path. "+
		"The functions that count are interpreted on an arbitrary parser: one counter of the choice is raised by one, under the number of the alternative or the given name; the evaluator of choices is explored for counting each outcome once, under the alternative that decided. "+
		"The evaluator of expressions is interpreted symbolically: the count is raised by one, and the parse is stopped exactly if it exceeds the limit; no other code changes count or limit; no limit is the greatest number. "+
		"The functions of the memo are interpreted: what is looked up is what was stored for the same node at the same place. The entry function is interpreted with recovery switched off and with an arbitrary first rule.", ruleObserve)
}

func ruleObserve(r *Rep) {
	v := r.vmRoles()
	pkg := r.p.pkg("")
	opt := r.optionType()
	ps := structOf(ptrElem(v.ptr))
	need := func(f string) string {
		if fieldType(ps, f) == nil {
			panic(anchorError("field " + f + " of the parser"))
		}
		return typeName(ptrElem(v.ptr)) + "." + f
	}
	stats := fieldType(ps, "Stats")
	if stats == nil || structOf(ptrElem(stats)) == nil || fieldType(structOf(ptrElem(stats)), "ChoiceAltCnt") == nil || fieldType(structOf(ptrElem(stats)), "ExprCnt") == nil {
		panic(anchorError("statistics of the parser with ChoiceAltCnt and ExprCnt"))
	}
	sn := typeName(ptrElem(stats))

	// observers
	dbg := r.observeOnly("tracing", pkg, opt, need("debug"))
	r.tracesOnly(dbg, need("debug"))
	r.traceDepth(dbg, v, need("debug"))
	r.observeOnly("statistics", pkg, opt, sn+".ChoiceAltCnt", need("choiceNoMatch"))

	// statistics
	cs := r.counters(sn)
	for _, fn := range cs {
		r.counterFn(fn, sn)
	}
	ch := v.kinds["choice"]
	if ch == nil {
		panic(anchorError("evaluator of choices"))
	}
	m := &vmRun{r: r, v: v, kind: "choice", fn: ch, bad: map[string]bool{}, seen: map[*ssa.Function]bool{}, counters: map[*ssa.Function]bool{}}
	for _, fn := range cs {
		m.counters[fn] = true
	}
	m.onExit = r.choiceCounted
	r.machineFrom(m, false)

	r.expressionCount(sn)
	r.changers(sn, pkg)
	r.limitDefault()
	r.memoRules()
	r.engineSwitches()
	r.invalidText(r.errRoles())
	r.floor("observes only", 2)
	r.floor("traces", 2)
	r.floor("trace depth", 20)
	r.floor("counter", 4)
	r.floor("choice counted", 2)
	r.floor("expression count", 3)
	r.floor("changers", 3)
	r.floor("no limit", 2)
	r.floor("memo", 6)
	r.floor("switches", 6)
}

// optionType is the function type of the options.
func (r *Rep) optionType() types.Type {
	v := r.vmRoles()
	for _, m := range r.p.pkg("").Members {
		if t, ok := m.(*ssa.Type); ok {
			if s, ok := t.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 1 && s.Results().Len() == 1 && sameType(s.Params().At(0).Type(), v.ptr) && types.Identical(s.Results().At(0).Type(), t.Type()) {
				return t.Type()
			}
		}
	}
	panic(anchorError("type of the options"))
}

func (r *Rep) observeOnly(what string, pkg *ssa.Package, opt types.Type, fields ...string) *flow {
	f, out := r.observers(pkg, opt, fields...)
	for _, l := range out {
		r.fail("observes only", what+" "+l.fn.Name()+" "+l.what, r.where(l.pos), "%s is meant to observe a parse; in %s, whether it is switched on decides about this: it %s", what, l.fn.Name(), l.what)
	}
	n := 0
	for _, fn := range f.fns {
		r.funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && f.val[v] {
					n++
				}
			}
		}
	}
	if len(out) == 0 {
		r.pass("observes only", "%s: %d values of %d functions depend on it, none of them reaches a result; fields: %s", what, n, len(f.fns), strings.Join(sortedKeys(f.H), ", "))
	}
	r.check(n > 0, "observes only", what+" used", "", "nothing depends on the switch for %s", what)
	return f
}

// tracesOnly: standard output is written only if the switch is on.
func (r *Rep) tracesOnly(f *flow, key string) {
	n := 0
	for _, fn := range f.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().Pkg == nil {
					continue
				}
				g := c.Common().StaticCallee()
				out := g.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(g.Name(), "Print")
				for _, a := range c.Common().Args {
					out = out || isStdout(a)
				}
				if !out {
					continue
				}
				n++
				on := r.onlyWhen(f, b, key, map[*ssa.Function]bool{})
				r.check(on, "traces", fn.Name()+" prints", r.where(in.Pos()), "%s writes to standard output although tracing may be switched off", fn.Name())
			}
		}
	}
	r.check(n > 0, "traces", "prints", "", "nothing is written to standard output when tracing is switched on")
}

// onlyWhen: the block is executed only with the field set.
func (r *Rep) onlyWhen(f *flow, b *ssa.BasicBlock, key string, seen map[*ssa.Function]bool) bool {
	if guarded(b, key, 0) {
		return true
	}
	fn := b.Parent()
	if seen[fn] {
		return true
	}
	seen[fn] = true
	// all callers
	n := 0
	for _, g := range f.fns {
		for _, cb := range g.Blocks {
			for _, in := range cb.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					n++
					if !r.onlyWhen(f, cb, key, seen) {
						return false
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					n++
					if !r.onlyWhen(f, cb, key, seen) {
						return false
					}
				}
			}
		}
	}
	return n > 0 && (fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil)
}

// guarded: within its function, the block is executed only with the field set.
func guarded(b *ssa.BasicBlock, key string, depth int) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		x, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		for i, s := range p.Succs {
			if s == d && p.Succs[1-i] != d && implies(x.Cond, i == 0, key, depth) {
				return true
			}
		}
	}
	return false
}

// implies: the value can be the truth value only with the field set.
func implies(v ssa.Value, truth bool, key string, depth int) bool {
	if depth > 6 {
		return false
	}
	if loadsField(v, key) {
		return truth
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && constant.BoolVal(x.Value) != truth
	case *ssa.UnOp:
		return x.Op == token.NOT && implies(x.X, !truth, key, depth+1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !implies(e, truth, key, depth+1) && !guarded(x.Block().Preds[i], key, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !implies(ret.Results[0], truth, key, depth+1) && !guarded(b, key, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func loadsField(v ssa.Value, key string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldKey(fa.X.Type(), fa.Field) == key
		}
	case *ssa.Field:
		return fieldKey(x.X.Type(), x.Field) == key
	}
	return false
}

// traceDepth: the counters that serve tracing alone are left as they were found and never go below that.
func (r *Rep) traceDepth(f *flow, v *vmRoles, key string) {
	for _, fld := range sortedKeys(f.H) {
		if fld == key {
			continue
		}
		d := &depthRun{r: r, f: f, v: v, fld: fld, key: key, sum: map[*ssa.Function]*depthSum{}}
		used := false
		for _, fn := range f.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if k, _ := f.cell(st.Addr); k == fld {
							used = true
						}
					}
				}
			}
		}
		if !used {
			continue
		}
		base := map[*ssa.Function]bool{v.expr: true, v.rule: true, v.read: true, v.rePt: true, v.clone: true, v.reState: true, v.push: true, v.pop: true, r.engine(): true}
		for fn := range v.byFn {
			base[fn] = true
		}
		for _, fn := range f.fns {
			if fn.Parent() != nil && base[fn.Parent()] {
				s := d.of(fn)
				_ = s
			}
			if !base[fn] {
				continue
			}
			s := d.of(fn)
			r.check(s.ok && s.net == 0 && s.min >= 0, "trace depth", fn.Name()+" "+fld, r.fnWhere(fn), "%s leaves the depth of the trace changed or below zero while tracing (%d, least %d; %s)", fn.Name(), s.net, s.min, s.why)
		}
	}
	r.pass("trace depth", "fields that serve tracing alone: %s", strings.Join(sortedKeys(f.H), ", "))
}

type depthSum struct {
	net, min int
	ok       bool
	why      string
}

type depthRun struct {
	r    *Rep
	f    *flow
	v    *vmRoles
	fld  string
	key  string
	sum  map[*ssa.Function]*depthSum
	busy []*ssa.Function
}

// of follows the function with tracing switched on.
func (d *depthRun) of(fn *ssa.Function) *depthSum {
	if s := d.sum[fn]; s != nil {
		return s
	}
	d.sum[fn] = &depthSum{ok: true} // of an evaluation within an evaluation: what is shown for all of them
	out := &depthSum{ok: true}
	type item struct {
		b     *ssa.BasicBlock
		n     int
		depth string
		defs  []int
	}
	first := true
	add := func(n *int, k int) {
		*n += k
		if *n < out.min {
			out.min = *n
		}
	}
	seen := map[[3]int]bool{}
	todo := []item{{b: fn.Blocks[0]}}
	steps := 0
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		k := [3]int{it.b.Index, it.n, len(it.defs)}
		if seen[k] {
			continue
		}
		seen[k] = true
		if steps++; steps > 2000 {
			out.ok, out.why = false, "the depth changes in a loop"
			break
		}
		n := it.n
		defs := append([]int{}, it.defs...)
		var next []*ssa.BasicBlock = it.b.Succs
		for _, in := range it.b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if c, _ := d.f.cell(x.Addr); c == d.fld {
					k, ok := d.step(x.Val)
					if !ok {
						out.ok, out.why = false, "it is set to something else than one more or less"
					}
					add(&n, k)
				}
			case *ssa.Call:
				lo, k := d.callee(&x.Call)
				if n+lo < out.min {
					out.min = n + lo
				}
				add(&n, k)
			case *ssa.Defer:
				_, k := d.callee(&x.Call)
				defs = append(defs, k)
			case *ssa.RunDefers:
				for i := len(defs) - 1; i >= 0; i-- {
					add(&n, defs[i])
				}
				defs = nil
			case *ssa.Return:
				if !first && out.net != n {
					out.ok, out.why = false, "it depends on the way taken"
				}
				first = false
				out.net = n
			case *ssa.If:
				c, neg := x.Cond, false
				if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
					c, neg = u.X, true
				}
				if loadsField(c, d.key) {
					if neg {
						next = it.b.Succs[1:]
					} else {
						next = it.b.Succs[:1]
					}
				}
			}
		}
		for _, s := range next {
			todo = append(todo, item{b: s, n: n, defs: defs})
		}
	}
	d.sum[fn] = out
	if !out.ok && out.why != "" && len(fn.Params) > 0 {
		return out
	}
	return out
}

func (d *depthRun) callee(c *ssa.CallCommon) (int, int) {
	var fns []*ssa.Function
	if fn := c.StaticCallee(); fn != nil {
		fns = []*ssa.Function{fn}
	} else if !c.IsInvoke() {
		fns, _ = d.f.callees(c.Value, 0)
	}
	lo, net := 0, 0
	for _, fn := range fns {
		if d.f.inside(fn) {
			s := d.of(fn)
			if s.min < lo {
				lo = s.min
			}
			net = s.net
		}
	}
	return lo, net
}

// step: the field itself plus a constant.
func (d *depthRun) step(v ssa.Value) (int, bool) {
	if loadsField(v, d.fld) {
		return 0, true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int || !loadsField(b.X, d.fld) {
		return 0, false
	}
	k := int(c.Int64())
	switch b.Op {
	case token.ADD:
		return k, true
	case token.SUB:
		return -k, true
	}
	return 0, false
}

// ---- statistics ----

// counters are the functions that count the outcome of a choice: they change the counters and are called by the evaluator of choices.
func (r *Rep) counters(sn string) (out []*ssa.Function) {
	_, fns := r.parserFuncs()
	v := r.vmRoles()
	// what evaluates an expression is (a part of) an evaluator
	evals := map[*ssa.Function]bool{v.expr: true, v.rule: true}
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && !evals[fn] && evals[c.Common().StaticCallee()] {
						evals[fn], ch = true, true
					}
				}
			}
		}
	}
	touches := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			if touches[fn] || v.byFn[fn] != "" || evals[fn] || fn == r.engine() {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					hit := false
					switch x := in.(type) {
					case *ssa.FieldAddr:
						hit = fieldKey(x.X.Type(), x.Field) == sn+".ChoiceAltCnt"
					case *ssa.Call:
						hit = x.Call.StaticCallee() != nil && touches[x.Call.StaticCallee()]
					}
					if hit && !touches[fn] {
						touches[fn] = true
						ch = true
					}
				}
			}
		}
	}
	called := map[*ssa.Function]bool{}
	for fn := range evals {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					called[c.Common().StaticCallee()] = true
				}
			}
		}
	}
	for _, fn := range fns {
		if touches[fn] && called[fn] {
			out = append(out, fn)
		}
	}
	if len(out) == 0 {
		panic(anchorError("function that counts the outcomes of choices"))
	}
	return
}

// counterKey interprets a counting function for an alternative (a term of type int) and returns the keys of the counter raised.
func (r *Rep) counterKey(fn *ssa.Function, alt *T, check bool) (inner *T, okAll bool) {
	v := r.vmRoles()
	e := r.exec()
	e.hazards = true
	st := newSt()
	where := r.fnWhere(fn)
	p := mkSym("parser", v.ptr)
	e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
	i := mkSym("number", tInt)
	e.assume(st, mkLE(linScale(i, -1)))
	var args []*T
	var node *T
	for k, q := range fn.Params {
		switch {
		case k == 0:
			args = append(args, p)
		case isIntType(q.Type()):
			args = append(args, alt)
		default:
			x := mkSym("node", q.Type())
			if _, ok := q.Type().Underlying().(*types.Pointer); ok {
				e.assume(st, mkNot(mkEq(x, mkNil(q.Type()))))
				node = x
			}
			args = append(args, x)
		}
	}
	okAll = true
	bad := func(c, f string, a ...any) {
		okAll = false
		if check {
			r.fail("counter", fn.Name()+" "+c, where, f, a...)
		}
	}
	outs := e.Call(fn, args, nil, st, nil, nil)
	if len(outs) == 0 {
		bad("returns", "%s does not return", fn.Name())
	}
	for _, o := range outs {
		fs := factsString(o.st.facts)
		if o.kind != ORet {
			bad("returns", "%s does not return (%s)", fn.Name(), fs)
			continue
		}
		var outer, made *T
		raised := 0
		var key *T
		for _, ev := range allEvs(o.st.ev) {
			if ev.kind != "mapupdate" || len(ev.args) != 3 {
				continue
			}
			if _, ok := ev.args[2].typ.Underlying().(*types.Map); ok {
				outer, made = ev.args[1], ev.args[2]
				if !strings.Contains(ev.args[0].String(), "ChoiceAltCnt") {
					bad("place", "the counters of a choice are put into %s", ev.args[0])
				}
				continue
			}
			raised++
			key = ev.args[1]
			val := ev.args[2]
			old := e.resolve(o.st, ev.args[0])
			switch {
			case made != nil && (ev.args[0] == made || old == made):
				if !(val.isInt() && val.int() == 1) {
					bad("first", "a counter starts with %s (%s)", val, fs)
				}
			default:
				// the map found for the choice
				if !strings.Contains(ev.args[0].String(), "ChoiceAltCnt") || !strings.Contains(ev.args[0].String(), "mapget") {
					bad("place", "the counter is kept in %s", ev.args[0])
				} else if outer == nil {
					outer = innerKey(ev.args[0])
				}
				one := linAddC(val, -1)
				if one.k != KApp || one.s != "mapget" || len(one.a) != 2 || one.a[1] != key {
					if !(val.isInt() && val.int() == 1 && absentKey(e, o.st, key)) {
						bad("raised", "a counter becomes %s instead of one more (%s)", val, fs)
					}
				}
			}
		}
		if raised != 1 {
			bad("once", "%d counters are raised for an outcome (%s)", raised, fs)
			continue
		}
		if inner == nil {
			inner = key
		} else if inner != key {
			bad("key", "an outcome is counted as %s or as %s (%s)", inner, key, fs)
		}
		if check && outer != nil {
			// rule and place of the choice
			s := outer.String()
			okName := strings.Contains(s, "rstack") && strings.Contains(s, ".name")
			pl := node != nil && strings.Contains(s, "node") && strings.Contains(s, "line") && strings.Contains(s, "col")
			if !okName || !pl {
				bad("choice", "a choice is counted as %s instead of its rule and place", outer)
			}
			// line and column must not run together
			ps := textParts31(outer)
			for k := 1; k < len(ps); k++ {
				if !ps[k].isConst() && !ps[k-1].isConst() {
					bad("choice", "the place of a choice is ambiguous: %s", outer)
				}
			}
		} else if check {
			bad("choice", "the choice of a counter is not known (%s)", fs)
		}
		if check {
			x := e.rootVal(o.st, p, ptrElem(v.ptr))
			if x != e.rootVal(st, p, ptrElem(v.ptr)) {
				bad("else", "%s changes the parser itself: %s", fn.Name(), x)
			}
		}
	}
	if len(e.undec) > 0 {
		bad("decided", "%s: not decided: %s", fn.Name(), strings.Join(e.undec, ", "))
	}
	return inner, okAll && inner != nil
}

func absentKey(e *Exec, st *St, key *T) bool {
	for _, f := range st.facts {
		if f.k == KNot && f.a[0].k == KApp && f.a[0].s == "maphas" && f.a[0].a[len(f.a[0].a)-1] == key {
			return true
		}
	}
	return false
}

// innerKey: the key an inner map was found under.
func innerKey(m *T) *T {
	var out *T
	walkTerm(m, func(t *T) bool {
		if out == nil && t.k == KApp && t.s == "mapget" && len(t.a) == 2 {
			out = t.a[1]
		}
		return out == nil
	})
	return out
}

func (r *Rep) counterFn(fn *ssa.Function, sn string) {
	i := mkSym("number", tInt)
	hasInt := false
	for _, q := range fn.Params[1:] {
		hasInt = hasInt || isIntType(q.Type())
	}
	n := 1
	if hasInt {
		n = 2
	}
	for k := 0; k < n; k++ {
		alt := i
		name := "alternative"
		if k == 1 {
			alt, name = mkInt(-1), "no match"
		}
		_, ok := r.counterKey(fn, alt, true)
		if ok {
			r.pass("counter", "%s %s: one counter of the choice is raised by one", fn.Name(), name)
		}
	}
	r.pass("counter", "%s counts the outcomes of choices", fn.Name())
	r.pass("counter", "counters are kept in %s.ChoiceAltCnt", sn)
}

// choiceCounted: every outcome of a choice is counted once, under the alternative that matched.
func (r *Rep) choiceCounted(m *vmRun, e vmExit) {
	s, ok := e.st, e.vals[1]
	where := r.fnWhere(m.fn)
	n := 0
	var last string
	for _, ev := range s.ev {
		if strings.HasPrefix(ev, "count ") {
			n++
			last = ev[6:]
		}
	}
	if !r.check(n == 1, "choice counted", "once "+ok, where, "%s counts its outcome %d times when it answers %s", m.fn.Name(), n, ok) {
		return
	}
	name, arg, _ := strings.Cut(last, " ")
	var fn *ssa.Function
	for f := range m.counters {
		if f.Name() == name {
			fn = f
		}
	}
	i := mkSym("number", tInt)
	alt := i
	switch k, isIx := rel(arg, "ix:"); {
	case isIx: // relative to the next alternative
		alt = linAddC(i, int64(k+1))
	case strings.HasPrefix(arg, "#"):
		alt = mkInt(int64(atoi(arg[1:])))
	case arg == "none":
	default:
		r.fail("choice counted", "alternative "+ok, where, "%s counts its outcome under a number that is not known (%s)", m.fn.Name(), arg)
		return
	}
	key, _ := r.counterKey(fn, alt, false)
	if key == nil {
		return // reported
	}
	if ok == "true" {
		want := linAddC(i, 1)
		good := contains(key, want) && (key.k == KApp && key.s == "itoa")
		r.check(good, "choice counted", "alternative true", where, "%s counts a match under %s instead of the number of the alternative that matched, counted from one", m.fn.Name(), key)
	} else {
		r.check(strings.HasSuffix(key.String(), "choiceNoMatch"), "choice counted", "alternative false", where, "%s counts a choice without a match under %s instead of the given name", m.fn.Name(), key)
	}
}

// ---- number of expressions ----

func (r *Rep) expressionCount(sn string) {
	v := r.vmRoles()
	fn := v.expr
	e := r.exec()
	e.hazards = true
	where := r.fnWhere(fn)
	pt := ptrElem(v.ptr)
	ps := structOf(pt)
	stT := fieldType(ps, "Stats")
	uT := fieldType(structOf(ptrElem(stT)), "ExprCnt")
	st := newSt()
	p := mkSym("parser", v.ptr)
	e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
	stats := mkSym("stats", stT)
	e.assume(st, mkNot(mkEq(stats, mkNil(stT))))
	x := e.rootVal(st, p, pt)
	x = setField(x, "memoize", tFalse)
	x = setField(x, "debug", tFalse)
	x = setField(x, "Stats", stats)
	st.mem[p] = x
	max := mkField(x, "maxExprCnt", uT)
	before := mkField(e.rootVal(st, stats, ptrElem(stT)), "ExprCnt", uT)
	count := func(s *St) *T { return e.resolve(s, mkField(e.rootVal(s, stats, ptrElem(stT)), "ExprCnt", uT)) }
	want := linAddC(before, 1)
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil || v.byFn[ci.fn] == "" || ci.fn == fn {
			return nil, false
		}
		ci.st.ev = append(ci.st.ev, &Ev{kind: "evaluates", name: v.byFn[ci.fn]})
		r.check(count(ci.st) == want, "expression count", "raised "+v.byFn[ci.fn], where, "an expression is evaluated when the count of expressions is %s instead of one more than before", count(ci.st))
		r.check(e.truth(ci.st, mkLE(linSub(want, max))) == 1, "expression count", "within limit "+v.byFn[ci.fn], where, "an expression is evaluated although the limit may be exceeded (%s)", factsString(ci.st.facts))
		return []Outcome{{kind: ORet, st: ci.st, vals: []*T{mkSym("value", ci.sig.Results().At(0).Type()), mkSym("ok", tBool)}}}, true
	}
	node := mkSym("expr", fn.Params[1].Type())
	stopped, ran := 0, 0
	for _, o := range e.Call(fn, []*T{p, node}, nil, st, nil, nil) {
		n := countEv(o.st.ev, "evaluates")
		switch {
		case n > 1:
			r.fail("expression count", "once", where, "an expression is evaluated %d times", n)
		case n == 1 && o.kind == ORet:
			ran++
		case o.kind == OPanic && n == 0:
			over := e.truth(o.st, mkLE(linSub(want, max)))
			if over == 0 {
				stopped++
				s := bare(o.pan).String()
				r.check(strings.Contains(s, "errMaxExprCnt") || strings.Contains(s, "max number"), "expression count", "error", where, "exceeding the limit ends the parse with %s", s)
			} else if over != 1 {
				r.fail("expression count", "limit", where, "the parse is stopped although the limit may not be exceeded (%s)", factsString(o.st.facts))
			}
		default:
			r.fail("expression count", "evaluated", where, "%s does not evaluate the expression and does not stop the parse (%s)", fn.Name(), factsString(o.st.facts))
		}
	}
	r.check(stopped > 0, "expression count", "stops", where, "%s does not stop the parse when the limit is exceeded", fn.Name())
	r.check(ran >= 10, "expression count", "kinds", where, "%s evaluates %d kinds of expressions", fn.Name(), ran)
	r.done("expression count", e, fn.Name())
	// every evaluation of an expression goes through it
	for _, g := range r.pkgFuncs(r.p.pkg("")) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				k := v.byFn[c.Common().StaticCallee()]
				if k == "" || k == "rule" || c.Common().StaticCallee() == fn || c.Common().StaticCallee() == v.rule {
					continue
				}
				r.check(g == fn || r.onlyFrom(g, fn), "expression count", "through "+g.Name()+" "+k, r.where(in.Pos()), "%s evaluates an expression without counting it", g.Name())
			}
		}
	}
}

// onlyFrom: the function is called by nothing but the other one, directly or not.
func (r *Rep) onlyFrom(g, from *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var only func(g *ssa.Function) bool
	only = func(g *ssa.Function) bool {
		if g == from {
			return true
		}
		if seen[g] {
			return true
		}
		seen[g] = true
		n := 0
		for _, c := range r.callersOf(g) {
			n++
			if !only(c) {
				return false
			}
		}
		return n > 0
	}
	return only(g)
}

func (r *Rep) callersOf(g *ssa.Function) (out []*ssa.Function) {
	for _, fn := range r.pkgFuncs(r.p.pkg("")) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						out = append(out, fn)
					}
				}
			}
		}
	}
	return
}

// changers: count, limit and the other settings are changed by nothing but the options, the maker and the functions that count.
func (r *Rep) changers(sn string, pkg *ssa.Package) {
	v := r.vmRoles()
	pn := typeName(ptrElem(v.ptr))
	own := map[string][]*ssa.Function{sn + ".ExprCnt": {v.expr}, pn + ".maxExprCnt": nil, pn + ".Stats": nil, pn + ".entrypoint": nil, pn + ".recover": nil, pn + ".allowInvalidUTF8": nil, pn + ".choiceNoMatch": nil, pn + ".memoize": nil, pn + ".debug": nil}
	f := r.flow(pkg, nil)
	opt := r.optionType()
	mk := r.maker()
	n := map[string]int{}
	for _, fn := range f.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				key := fieldKey(fa.X.Type(), fa.Field)
				who, ok := own[key]
				if !ok {
					continue
				}
				n[key]++
				good := fn == mk || r.onlyFrom(fn, mk)
				for _, w := range who {
					good = good || fn == w || r.onlyFrom(fn, w)
				}
				for g := fn; g != nil; g = g.Parent() {
					if rs := g.Signature.Results(); rs.Len() == 1 && types.Identical(rs.At(0).Type(), opt) {
						good = true
					}
				}
				r.check(good, "changers", fn.Name()+" "+key, r.where(st.Pos()), "%s changes the setting %s during a parse", fn.Name(), key)
			}
		}
	}
	for k := range own {
		r.check(n[k] > 0, "changers", k, "", "nothing sets %s", k)
	}
}

// takesOptions: one of the parameters is a list of options.
func takesOptions(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if l, ok := under(p.Type()).(*types.Slice); ok {
			if n, ok := types.Unalias(l.Elem()).(*types.Named); ok && n.Obj().Name() == "Option" {
				return true
			}
		}
	}
	return false
}

// limitDefault: the maker turns a limit of zero into none and keeps every other.
func (r *Rep) limitDefault() {
	v := r.vmRoles()
	mk := r.maker()
	where := r.fnWhere(mk)
	e := r.exec()
	pt := ptrElem(v.ptr)
	uT := fieldType(structOf(pt), "maxExprCnt")
	lim := mkSym("limit", uT)
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if isOptionCall(ci, v.ptr) {
			p := ci.args[0]
			ci.st.mem[p] = setField(e.rootVal(ci.st, p, pt), "maxExprCnt", lim)
			return []Outcome{{kind: ORet, st: ci.st, vals: []*T{mkSym("previous option", ci.sig.Results().At(0).Type())}}}, true
		}
		if ci.fn != nil && len(ci.fn.Params) > 1 && sameType(ci.fn.Params[0].Type(), v.ptr) && ci.fn.Signature.Results().Len() == 0 && takesOptions(ci.fn) {
			// the options set the limit
			p := ci.args[0]
			x := e.rootVal(ci.st, p, pt)
			ci.st.mem[p] = setField(x, "maxExprCnt", lim)
			ci.st.ev = append(ci.st.ev, &Ev{kind: "options"})
			return []Outcome{{kind: ORet, st: ci.st}}, true
		}
		return nil, false
	}
	var args []*T
	for _, p := range mk.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	zero, other := 0, 0
	st := newSt()
	e.assume(st, mkCmp(token.GEQ, lim, mkInt(0), nil))
	for _, o := range e.Call(mk, args, nil, st, nil, nil) {
		if o.kind != ORet {
			continue
		}
		got := e.resolve(o.st, mkField(e.rootVal(o.st, o.vals[0], pt), "maxExprCnt", uT))
		set := lim
		if countEv(o.st.ev, "options") == 0 {
			// the maker applies the options itself: the limit is what the loop over them left
			set = nil
			for _, f := range o.st.facts {
				walkTerm(f, func(t *T) bool {
					if s := t.String(); strings.HasPrefix(s, "loopvar") && strings.HasSuffix(s, ".maxExprCnt") {
						set = t
					}
					return true
				})
			}
			if set == nil {
				set = zeroOf(uT)
			}
		}
		switch e.truth(o.st, mkEQ0(set)) {
		case 1:
			zero++
			big := got.isConst() && got.cv != nil && got.cv.Kind() == constant.Int && constant.Compare(got.cv, token.GEQ, constant.MakeUint64(1<<62))
			r.check(big, "no limit", "zero", where, "a limit of zero becomes %s instead of no limit", got)
		case 0:
			other++
			r.check(got == set, "no limit", "other", where, "a limit becomes %s", got)
		default:
			r.fail("no limit", "decides", where, "%s leaves a limit of zero as it is", mk.Name())
		}
	}
	r.check(zero > 0 && other > 0, "no limit", "cases", where, "%s does not distinguish a limit of zero", mk.Name())
	r.done("no limit", e, mk.Name())
}

// memoRules: with the memo switched on, an evaluation repeated at the same place is answered with what the first one gave.
func (r *Rep) memoRules() {
	v := r.vmRoles()
	for _, fn := range []*ssa.Function{v.expr, v.rule} {
		r.memoOf(fn)
	}
}

func (r *Rep) memoOf(fn *ssa.Function) {
	v := r.vmRoles()
	e := r.exec()
	where := r.fnWhere(fn)
	pt := ptrElem(v.ptr)
	ps := structOf(pt)
	st := newSt()
	p := mkSym("parser", v.ptr)
	e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
	x := e.rootVal(st, p, pt)
	start := mkSym("start", v.ptT)
	x = setField(x, "memoize", tTrue)
	x = setField(x, "debug", tFalse)
	x = setField(x, "pt", start)
	if fieldType(ps, "memo") == nil {
		panic(anchorError("memo of the parser"))
	}
	x = setField(x, "memo", mkNil(fieldType(ps, "memo")))
	st.mem[p] = x
	runs := 0
	var inv types.Type = fn.Signature.Results().At(0).Type()
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil || len(ci.args) == 0 || ci.args[0] != p || ci.fn == fn && ci.fr == nil {
			return nil, false
		}
		k := v.byFn[ci.fn]
		if (k != "" || ci.fn == v.expr || ci.fn == v.rule) && ci.fn != fn {
			runs++
			s := ci.st
			id := strconv.Itoa(runs)
			s.ev = append(s.ev, &Ev{kind: "evaluates", name: id})
			s.mem[p] = setField(e.rootVal(s, p, pt), "pt", mkSym("end"+id, v.ptT))
			return []Outcome{{kind: ORet, st: s, vals: []*T{mkSym("value"+id, inv), mkSym("ok"+id, tBool)}}}, true
		}
		if ci.fn == v.push || ci.fn == v.pop {
			return []Outcome{{kind: ORet, st: ci.st}}, true
		}
		return nil, false
	}
	nt := fn.Params[1].Type()
	mkNode := func(n string) *T {
		x := mkSym(n, nt)
		if !isIfaceType(nt) {
			e.assume(st, mkNot(mkEq(x, mkNil(nt))))
		}
		return x
	}
	one, two := mkNode("node"), mkNode("another node")
	e.assume(st, mkNot(mkEq(one, two)))
	other := mkSym("elsewhere", v.ptT)
	off := func(x *T) *T {
		pos := mkField(x, "position", fieldType(structOf(v.ptT), "position"))
		return mkField(pos, "offset", tInt)
	}
	e.assume(st, mkNot(mkCmp(token.EQL, off(start), off(other), nil)))
	at := func(s *St, place *T) *St {
		s = s.clone()
		s.mem[p] = setField(e.rootVal(s, p, pt), "pt", place)
		s.ev = nil
		return s
	}
	n := map[string]int{}
	for _, o := range e.Call(fn, []*T{p, one}, nil, st, nil, nil) {
		if o.kind != ORet {
			continue
		}
		if countEv(o.st.ev, "evaluates") != 1 {
			r.fail("memo", fn.Name()+" first", where, "%s answers an expression that was not evaluated before without evaluating it", fn.Name())
			continue
		}
		val, ok, end := o.vals[0], o.vals[1], e.rootVal(o.st, p, pt)
		end = e.resolve(o.st, mkField(end, "pt", v.ptT))
		for _, c := range []struct {
			name  string
			node  *T
			place *T
			again bool
		}{{"again", one, start, false}, {"another expression", two, start, true}, {"elsewhere", one, other, true}} {
			for _, q := range e.Call(fn, []*T{p, c.node}, nil, at(o.st, c.place), nil, nil) {
				if q.kind != ORet {
					if c.again {
						continue
					}
					r.fail("memo", fn.Name()+" "+c.name+" returns", where, "%s panics (%s)", fn.Name(), c.name)
					continue
				}
				n[c.name]++
				k := countEv(q.st.ev, "evaluates")
				if c.again {
					r.check(k == 1, "memo", fn.Name()+" "+c.name, where, "%s answers an evaluation with the result of another one (%s)", fn.Name(), c.name)
					continue
				}
				got := e.resolve(q.st, mkField(e.rootVal(q.st, p, pt), "pt", v.ptT))
				r.check(k == 0, "memo", fn.Name()+" repeated", where, "%s evaluates an expression again that is in the memo", fn.Name())
				r.check(q.vals[0] == val, "memo", fn.Name()+" value", where, "%s answers the value %s instead of %s", fn.Name(), q.vals[0], val)
				r.check(q.vals[1] == ok || e.truth(q.st, mkEq(q.vals[1], ok)) == 1, "memo", fn.Name()+" outcome", where, "%s answers %s instead of %s", fn.Name(), q.vals[1], ok)
				r.check(off(got) == off(end) || e.truth(q.st, mkCmp(token.EQL, off(got), off(end), nil)) == 1, "memo", fn.Name()+" end", where, "%s continues at %s instead of %s", fn.Name(), got, end)
			}
		}
	}
	for _, w := range []string{"again", "another expression", "elsewhere"} {
		r.check(n[w] > 0, "memo", fn.Name()+" "+w+" case", where, "no way through %s: %s", fn.Name(), w)
	}
	r.done("memo", e, fn.Name())
}

// engineSwitches: recovery off, and the rule a parse starts with.
func (r *Rep) engineSwitches() {
	v := r.vmRoles()
	fn := r.engine()
	name, where := fn.Name(), r.fnWhere(fn)
	pt := ptrElem(v.ptr)
	mk := r.maker()
	e := r.exec()
	e.hazards = true
	var args []*T
	for _, p := range mk.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	inEngine := false
	any := fn.Signature.Results().At(0).Type()
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if !inEngine && isOptionCall(ci, v.ptr) {
			return []Outcome{{kind: ORet, st: ci.st, vals: []*T{mkSym("previous option", ci.sig.Results().At(0).Type())}}}, true
		}
		if ci.fn == nil {
			return nil, false
		}
		if !inEngine && len(ci.fn.Params) > 0 && sameType(ci.fn.Params[0].Type(), v.ptr) && ci.fn.Signature.Results().Len() == 0 || ci.fn == v.read {
			return []Outcome{{kind: ORet, st: ci.st}}, true
		}
		if ci.fn != v.rule {
			return nil, false
		}
		ci.st.ev = append(ci.st.ev, &Ev{kind: "rule", args: ci.args[1:]})
		var outs []Outcome
		for _, k := range []string{"match", "fail", "panic"} {
			s := ci.st.clone()
			s.ev = append(append([]*Ev{}, s.ev...), &Ev{kind: "scenario", name: k})
			switch k {
			case "match":
				outs = append(outs, Outcome{kind: ORet, st: s, vals: []*T{mkSym("value", any), tTrue}})
			case "fail":
				outs = append(outs, Outcome{kind: ORet, st: s, vals: []*T{mkNil(any), tFalse}})
			default:
				p := mkSym("panicked", any)
				e.assume(s, mkNot(mkEq(p, mkNil(any))))
				outs = append(outs, Outcome{kind: OPanic, st: s, pan: p})
			}
		}
		return outs, true
	}
	seen := map[string]int{}
	for _, o := range e.Call(mk, args, nil, newSt(), nil, nil) {
		if o.kind != ORet {
			continue
		}
		par := o.vals[0]
		g := r.grammarTable()
		inEngine = true
		st := o.st.clone()
		x := e.rootVal(st, par, pt)
		x = setField(x, "recover", tFalse)
		start := mkSym("start rule", tString)
		x = setField(x, "entrypoint", start)
		st.mem[par] = x
		for _, q := range e.Call(fn, []*T{par, g}, nil, st, nil, nil) {
			sc := "no evaluation"
			for _, ev := range q.st.ev {
				if ev.kind == "scenario" {
					sc = ev.name
				}
				if ev.kind == "rule" {
				}
			}
			seen[sc]++
			fs := factsString(q.st.facts)
			for _, ev := range allEvs(q.st.ev) {
				if ev.kind != "rule" {
					continue
				}
				x := ev.args[0]
				r.check(x.k == KApp && x.s == "mapget" && len(x.a) == 2 && x.a[1] == start, "switches", name+" first rule", where, "the rule evaluated first is %s, not the one looked up under the name set by the option", x)
			}
			switch sc {
			case "panic":
				r.check(q.kind == OPanic && bare(q.pan).k == KSym && bare(q.pan).s == "panicked", "switches", name+" recover", where, "with recovery switched off, a panic does not reach the caller (%s)", fs)
			case "no evaluation":
				r.check(q.kind == ORet && e.truth(q.st, mkEq(q.vals[1], mkNil(errIface))) == 0, "switches", name+" unknown rule", where, "a parse that starts with an unknown rule returns no error (%s)", fs)
				r.check(missingKey(q.st), "switches", name+" known rule", where, "a rule of the grammar is refused as the first one (%s)", fs)
			default:
				r.check(q.kind == ORet, "switches", name+" "+sc, where, "with recovery switched off, a parse panics out to its caller (%s)", fs)
			}
		}
		inEngine = false
	}
	// an empty name stands for the first rule
	if ep := r.p.pkg("").Func("Entrypoint"); ep == nil {
		panic(anchorError("Entrypoint"))
	} else {
		e := r.exec()
		p := mkSym("p", v.ptr)
		n := 0
		for _, o := range e.Call(ep, []*T{mkStr("")}, nil, newSt(), nil, nil) {
			for _, q := range e.applyFunc(o.val(), []*T{p}, o.st.clone()) {
				n++
				got := e.resolve(q.st, mkField(e.rootVal(q.st, p, pt), "entrypoint", tString))
				r.check(q.kind == ORet && got.isStr() && got.str() == r.firstRule(), "switches", "no name", r.fnWhere(ep), "the option without a name makes %s the first rule", got)
			}
		}
		r.check(n > 0, "switches", "no name case", r.fnWhere(ep), "the option without a name cannot be applied")
		r.done("switches", e, ep.Name())
	}
	for _, w := range []string{"match", "fail", "panic", "no evaluation"} {
		r.check(seen[w] > 0, "switches", name+" case "+w, where, "no path of %s handles the case: %s", name, w)
	}
	r.done("switches", e, name)
}
