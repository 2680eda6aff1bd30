package main

// Typestate of the parsing machine. Every function that evaluates a kind of
// grammar node is explored over an abstract machine state: input position,
// backtracked state, label scopes and rule stack relative to the entry. Nested
// evaluations are replaced by the contract that every kind is shown to keep,
// which is the induction over the depth of the evaluation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vmRoles struct {
	ptr      types.Type // *parser
	stT      types.Type // type of the backtracked state
	ptT      types.Type // type of a saved position
	expr     *ssa.Function
	rule     *ssa.Function
	clone    *ssa.Function
	reState  *ssa.Function
	rePt     *ssa.Function
	read     *ssa.Function
	push     *ssa.Function
	pop      *ssa.Function
	kinds    map[string]*ssa.Function
	byFn     map[*ssa.Function]string
	switches map[string]bool
}

// methodsOf lists the functions of the package with the parser as first parameter.
func (r *Rep) parserFuncs() (ptr types.Type, out []*ssa.Function) {
	pkg := r.p.pkg("")
	for _, m := range pkg.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		s := structOf(t.Type())
		if s != nil && fieldType(s, "vstack") != nil && fieldType(s, "cur") != nil && fieldType(s, "pt") != nil {
			ptr = types.NewPointer(t.Type())
		}
	}
	if ptr == nil {
		panic(anchorError("parser object with cur, pt and vstack"))
	}
	for _, fn := range r.p.funcs {
		if fn.Pkg == pkg && fn.Parent() == nil && len(fn.Params) > 0 && sameType(fn.Params[0].Type(), ptr) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return
}

func (r *Rep) vmRoles() *vmRoles {
	if r.vmr != nil {
		return r.vmr
	}
	ptr, fns := r.parserFuncs()
	ps := structOf(ptrElem(ptr))
	v := &vmRoles{ptr: ptr, kinds: map[string]*ssa.Function{}, byFn: map[*ssa.Function]string{}, switches: map[string]bool{}}
	v.ptT = fieldType(ps, "pt")
	v.stT = fieldType(structOf(fieldType(ps, "cur")), "state")
	if v.stT == nil {
		panic(anchorError("backtracked state of the parser"))
	}
	for i := 0; i < ps.NumFields(); i++ {
		// switches that are off by default: tracing and memoisation
		if n := ps.Field(i).Name(); n == "debug" || n == "memoize" {
			v.switches[n] = true
		}
	}
	isRes := func(fn *ssa.Function) bool {
		res := fn.Signature.Results()
		if res.Len() != 2 {
			return false
		}
		b, ok := under(res.At(1).Type()).(*types.Basic)
		return isIfaceType(res.At(0).Type()) && ok && b.Kind() == types.Bool
	}
	found := map[**ssa.Function][]*ssa.Function{}
	one := func(slot **ssa.Function, fn *ssa.Function) { found[slot] = append(found[slot], fn) }
	kinds := map[string][]*ssa.Function{}
	var dispatch, rules []*ssa.Function
	for _, fn := range fns {
		res := fn.Signature.Results()
		if len(fn.Params) == 2 && isRes(fn) {
			pt := fn.Params[1].Type()
			if isIfaceType(pt) {
				dispatch = append(dispatch, fn)
				continue
			}
			if n := ptrNamed(pt); n != "" {
				if k := nodeKinds[n]; k != "" {
					kinds[k] = append(kinds[k], fn)
					v.byFn[fn] = k
				} else if n == "rule" {
					rules = append(rules, fn)
				}
			}
		}
		if len(fn.Params) == 1 && res.Len() == 1 && sameType(res.At(0).Type(), v.stT) {
			one(&v.clone, fn)
		}
		if len(fn.Params) == 2 && res.Len() == 0 && sameType(fn.Params[1].Type(), v.stT) {
			one(&v.reState, fn)
		}
		if len(fn.Params) == 2 && res.Len() == 0 && sameType(fn.Params[1].Type(), v.ptT) {
			one(&v.rePt, fn)
		}
		if len(fn.Params) == 1 && res.Len() == 0 {
			for f := range calledFrom(fn, func(g *ssa.Function) bool { return !r.p.inRepo(g) }) {
				if f.Pkg != nil && f.Pkg.Pkg.Path() == "unicode/utf8" && strings.HasPrefix(f.Name(), "DecodeRune") {
					one(&v.read, fn)
					break
				}
			}
		}
	}
	// the dispatcher calls the functions of the kinds
	for k, c := range kinds {
		v.kinds[k] = r.pick("evaluates a node of kind "+k, c, fns)
		for _, fn := range c {
			if fn != v.kinds[k] {
				delete(v.byFn, fn) // a part of it
			}
		}
		v.byFn[v.kinds[k]] = k
	}
	for _, fn := range dispatch {
		n := 0
		for g := range calledFrom(fn, func(g *ssa.Function) bool { return v.byFn[g] != "" }) {
			if v.byFn[g] != "" {
				n++
			}
		}
		if n > 5 {
			one(&v.expr, fn)
		}
	}
	// a helper of another one does not count
	found[&v.rule] = rules
	for _, x := range []struct {
		f    **ssa.Function
		what string
	}{{&v.expr, "evaluates any node"}, {&v.rule, "evaluates a rule"}, {&v.clone, "copies the state"}, {&v.reState, "restores the state"}, {&v.rePt, "restores the position"}, {&v.read, "reads a character"}} {
		c := found[x.f]
		if x.f == &v.reState || x.f == &v.rePt {
			if k := keeping(c); len(k) > 0 {
				c = k
			}
		}
		*x.f = r.pick(x.what, c, fns)
	}
	r.vmr = v
	r.scopeRoles(v, fns)
	return v
}

// pick takes the one function of a role. A candidate that only another candidate calls is a part of that one, and a
// function that does nothing but call the one found, and is the only one to do so, stands for it.
func (r *Rep) pick(what string, cands, all []*ssa.Function) *ssa.Function {
	var top []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range cands {
		if o := outermost(fn, cands, all); !seen[o] {
			seen[o] = true
			top = append(top, o)
		}
	}
	if len(top) == 0 {
		panic(anchorError("function that " + what))
	}
	if len(top) > 1 {
		// what calls another candidate only makes use of it
		var base []*ssa.Function
		for _, fn := range top {
			uses := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						f := c.Common().StaticCallee()
						uses = uses || f != fn && seen[f]
					}
				}
			}
			if !uses {
				base = append(base, fn)
			}
		}
		top = base
	}
	if len(top) != 1 {
		var names []string
		for _, fn := range top {
			names = append(names, fn.Name())
		}
		sort.Strings(names)
		panic(anchorError("one function that " + what + " (" + strings.Join(names, ", ") + ")"))
	}
	var fwd []*ssa.Function
	for _, fn := range all {
		if forwards(fn) != nil {
			fwd = append(fwd, fn)
		}
	}
	return outermost(top[0], fwd, all)
}

// partOf: the function is the owner or is only ever called by parts of it.
func (r *Rep) partOf(fn, owner *ssa.Function) bool { return r.partOfN(fn, owner, 10) }

func (r *Rep) partOfN(fn, owner *ssa.Function, depth int) bool {
	if fn == owner {
		return true
	}
	if depth == 0 {
		return false
	}
	n := 0
	for _, f := range r.p.funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				uses := 0
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) {
						uses++
					}
				}
				if uses == 0 {
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || uses > 1 || c.Common().StaticCallee() != fn || !r.partOfN(f, owner, depth-1) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// keeping are those of the functions that store what they are given in the parser, themselves or by one of the others.
func keeping(cands []*ssa.Function) (out []*ssa.Function) {
	var stores func(fn *ssa.Function, i, depth int) bool
	stores = func(fn *ssa.Function, i, depth int) bool {
		if i >= len(fn.Params) || depth > 5 {
			return false
		}
		vals := map[ssa.Value]bool{fn.Params[i]: true}
		for ch := true; ch; {
			ch = false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if !vals[x.Val] {
							continue
						}
						if a, ok := x.Addr.(*ssa.Alloc); ok {
							ch = ch || !vals[a]
							vals[a] = true
						} else if _, ok := x.Addr.(*ssa.FieldAddr); ok {
							return true
						}
					case *ssa.UnOp:
						if vals[x.X] && x.Op == token.MUL && !vals[x] {
							if _, ok := x.X.(*ssa.Alloc); ok {
								vals[x], ch = true, true
							}
						}
					case *ssa.ChangeType:
						if vals[x.X] && !vals[x] {
							vals[x], ch = true, true
						}
					case ssa.CallInstruction:
						if f := x.Common().StaticCallee(); f != nil {
							for j, a := range x.Common().Args {
								if vals[a] && stores(f, j, depth+1) {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	for _, fn := range cands {
		if stores(fn, 1, 0) {
			out = append(out, fn)
		}
	}
	return out
}

// calledFrom are the functions called by fn and by what it calls, up to those that stop the search.
func calledFrom(fn *ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(*ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && !out[g] {
						out[g] = true
						if !stop(g) {
							walk(g)
						}
					}
				}
			}
		}
	}
	walk(fn)
	return out
}

// forwards: the function only passes its parameters on to another one and returns what that returns.
func forwards(fn *ssa.Function) *ssa.Function {
	if len(fn.Blocks) != 1 {
		return nil
	}
	var to *ssa.Function
	for _, in := range fn.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if to != nil || f == nil || !types.Identical(f.Signature.Results(), fn.Signature.Results()) || len(x.Call.Args) != len(fn.Params) {
				return nil
			}
			for i, a := range x.Call.Args {
				if a != fn.Params[i] {
					return nil
				}
			}
			to = f
		case *ssa.Extract, *ssa.Return, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return to
}

// outermost: the only function calling fn, as long as it is one of the candidates.
func outermost(fn *ssa.Function, cands, all []*ssa.Function) *ssa.Function {
	for step := 0; step < 10; step++ {
		callers := map[*ssa.Function]bool{}
		for _, f := range all {
			if f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
						callers[f] = true
					}
				}
			}
		}
		if len(callers) != 1 {
			return fn
		}
		var up *ssa.Function
		for _, c := range cands {
			if callers[c] && c != fn {
				up = c
			}
		}
		if up == nil {
			return fn
		}
		fn = up
	}
	return fn
}

func ptrNamed(t types.Type) string {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return ""
	}
	return n.Obj().Name()
}

// scopeRoles finds the functions that open and close a label scope by what they do to the stack of scopes.
func (r *Rep) scopeRoles(v *vmRoles, fns []*ssa.Function) {
	var why []string
	var pushes, pops []*ssa.Function
	for _, fn := range fns {
		if len(fn.Params) != 1 || fn.Signature.Results().Len() != 0 || fn == v.read {
			continue
		}
		touches := storesScopes(fn)
		for g := range calledFrom(fn, func(g *ssa.Function) bool { return !r.p.inRepo(g) || g == v.expr || g == v.rule }) {
			touches = touches || storesScopes(g)
		}
		if !touches {
			continue
		}
		p, w := r.scopeContract(v, fn, true)
		if p {
			pushes = append(pushes, fn)
			continue
		}
		q, w2 := r.scopeContract(v, fn, false)
		if q {
			pops = append(pops, fn)
			continue
		}
		why = append(why, fmt.Sprintf("%s: as opening: %s; as closing: %s", fn.Name(), w, w2))
	}
	if len(pushes) == 0 || len(pops) == 0 {
		panic(anchorError("functions that open and close a label scope (" + strings.Join(why, " | ") + ")"))
	}
	v.push, v.pop = r.pick("opens a label scope", pushes, fns), r.pick("closes a label scope", pops, fns)
}

func storesScopes(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "vstack" {
					return true
				}
			}
		}
	}
	return false
}

func fieldName(fa *ssa.FieldAddr) string {
	s := structOf(ptrElem(fa.X.Type()))
	if s == nil {
		return ""
	}
	return s.Field(fa.Field).Name()
}

// scopeContract: opening adds one empty scope and keeps those below; closing removes the last one.
func (r *Rep) scopeContract(v *vmRoles, fn *ssa.Function, push bool) (bool, string) {
	e := r.exec()
	st := newSt()
	p := mkSym("parser", v.ptr)
	e.assume(st, mkNot(mkEq(p, mkNil(v.ptr))))
	pt := ptrElem(v.ptr)
	vt := fieldType(structOf(pt), "vstack")
	mt := under(vt).(*types.Slice).Elem()
	V := mkSym("scopes", vt)
	last := mkSym("last", mt)
	whole := V
	if !push {
		// the last scope is known
		whole = mkSeq(vt, V, mkUnit(last))
		e.assume(st, mkNot(mkEq(last, mkNil(mt))))
	}
	st.mem[p] = structWith(pt, "vstack", whole)
	outs := e.Call(fn, []*T{p}, nil, st, nil, nil)
	for _, o := range outs {
		if o.kind != ORet {
			return false, "it may not return"
		}
		raw := mkField(e.rootVal(o.st, p, pt), "vstack", vt)
		got := e.resolve(o.st, raw)
		if !push {
			ok := canonList(got) == V
			if !ok {
				return false, "the scopes afterwards are " + got.String()
			}
			continue
		}
		top := e.elemAt(o.st, raw, mkLen(V), mt)
		if n := mkLen(got); e.truth(o.st, mkEQ0(linAddC(linSub(n, mkLen(V)), -1))) != 1 {
			return false, "the number of scopes afterwards is " + n.String()
		}
		empty := e.truth(o.st, mkEQ0(mkApp("mapcount", tInt, e.mapState(o.st, top)))) == 1
		if top.k == KMap {
			m := e.mapState(o.st, top)
			empty = m.k == KApp && m.s == "mapnew"
		}
		if !empty {
			return false, "the new scope is " + top.String()
		}
		below := mkSub(got, mkInt(0), mkLen(V), vt)
		for below.k == KUpd {
			for i := 1; i+1 < len(below.a); i += 2 {
				if below.a[i] != mkLen(V) {
					return false, "it changes a scope below: " + got.String()
				}
			}
			below = below.a[0]
		}
		pre := mkSub(below, mkInt(0), mkLen(V), vt)
		if pre != V && canonList(pre) != V {
			return false, "the scopes below are " + pre.String()
		}
	}
	return len(outs) > 0 && len(e.undec) == 0, strings.Join(e.undec, ", ")
}

// ---- abstract machine ----

type vmSt struct {
	pt, content     string
	d, rd, cd       int
	inv             bool
	fresh           bool // no evaluation in the current scope yet
	calls, oks      int  // evaluations so far, successful ones (0, 1, 2 for more)
	last            string
	run             int
	curpos, curtext string
	goodPt, goodSt  string // after the last success
	sites           map[string]string
	more            string // elements of the node left: yes, no, unknown
	mem             map[string]string
	ev              []string
	defers          []vmDefer
	env             map[ssa.Value]string
	frames          []map[ssa.Value]string // of the callers
}

type vmDefer struct {
	c    *ssa.CallCommon
	args []string
	fn   string
}

func (s *vmSt) clone() *vmSt {
	c := *s
	c.sites, c.mem, c.env = map[string]string{}, map[string]string{}, map[ssa.Value]string{}
	for k, v := range s.sites {
		c.sites[k] = v
	}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.env {
		c.env[k] = v
	}
	c.frames = nil
	for _, f := range s.frames {
		g := map[ssa.Value]string{}
		for k, v := range f {
			g[k] = v
		}
		c.frames = append(c.frames, g)
	}
	c.ev = append([]string{}, s.ev...)
	c.defers = append([]vmDefer{}, s.defers...)
	return &c
}

func (s *vmSt) key(fn *ssa.Function) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s %s %s %d %d %d %v %v %d %d %s %d %s %s|", s.more, s.pt, s.content, s.goodPt, s.goodSt, s.d, s.rd, s.cd, s.inv, s.fresh, s.calls, s.oks, s.last, s.run, s.curpos, s.curtext)
	for _, k := range sortedKeys(s.sites) {
		b.WriteString(k + "=" + s.sites[k] + ";")
	}
	for _, k := range sortedKeys(s.mem) {
		b.WriteString(k + "=" + s.mem[k] + ";")
	}
	b.WriteString(strings.Join(s.ev, ","))
	fmt.Fprintf(&b, "|%d|", len(s.defers))
	for _, env := range append([]map[ssa.Value]string{s.env}, s.frames...) {
		var ks []string
		for v, x := range env {
			if x != "?" {
				ks = append(ks, v.Name()+"="+x)
			}
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ",") + "|")
	}
	return b.String()
}

type vmExit struct {
	st   *vmSt
	vals []string
	pan  bool
}

type vmRun struct {
	r        *Rep
	v        *vmRoles
	kind     string
	fn       *ssa.Function
	bad      map[string]bool
	steps    int
	depth    int
	seen     map[*ssa.Function]bool
	er       *errRoles // only where the errors recorded matter
	noter    *ssa.Function
	inv0     bool                     // expectations are inverted already
	counters map[*ssa.Function]bool   // functions that count the outcome of a choice
	onExit   func(m *vmRun, e vmExit) // instead of the contract
}

func (m *vmRun) fail(key, f string, a ...any) {
	k := m.kind + " " + key
	if m.bad[k] {
		return
	}
	m.bad[k] = true
	if a := m.r.aspect(key); !a {
		return
	}
	m.r.fail("machine", m.fn.Name()+" "+key, m.r.fnWhere(m.fn), f, a...)
}

// aspects says which properties a failed obligation of the machine breaks.
var aspects = map[string]string{
	"restore": "C06", "restore twice": "C06", "scopes": "C06", "rules": "C06", "recovery": "C06", "balance": "C06",
	"state": "C06", "scope": "C06 C03", "rule": "C06",
	"position": "C06 C01", "look-ahead": "C06 C01", "alternative": "C06 C01", "start": "C06 C01", "goes on": "C06 C01",
	"keeps": "C06 C01", "returns": "C06 C01",
	"outcome": "C01", "operand": "C01 C03", "all": "C01 C03", "repeated": "C01", "code": "C01 C03",
	"value": "C03", "label": "C03", "code text": "C03", "code position": "C05",
	"error":     "C02 C31",
	"inversion": "C06 C31", "expectation": "C31", "error position": "C31",
}

func (r *Rep) aspect(key string) bool {
	if r.prop == "" {
		return true
	}
	a, ok := aspects[key]
	if !ok {
		a = "C06 C01"
	}
	return strings.Contains(a, r.prop)
}

func (m *vmRun) undecided(f string, a ...any) {
	m.fail("undecided: "+fmt.Sprintf(f, a...), "the analysis cannot follow %s: %s", m.fn.Name(), fmt.Sprintf(f, a...))
}

// call explores a function from a state.
func (m *vmRun) call(fn *ssa.Function, args []string, bind []string, s *vmSt) []vmExit {
	if m.depth > 12 {
		m.undecided("recursion through %s", fn)
		return nil
	}
	m.depth++
	defer func() { m.depth-- }()
	m.seen[fn] = true
	in := s.clone()
	in.frames = append(in.frames, in.env)
	in.env = map[ssa.Value]string{}
	odef := in.defers
	in.defers = nil
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			in.env[p] = bind[i]
		}
	}
	type item struct {
		b *ssa.BasicBlock
		i int
		s *vmSt
	}
	var exits []vmExit
	seen := map[string]bool{}
	todo := []item{{fn.Blocks[0], 0, in}}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		m.steps++
		if m.steps > 200000 {
			m.undecided("too many states in %s", fn)
			return exits
		}
		if it.i == 0 {
			k := fmt.Sprint(it.b.Index, " ", it.s.key(fn))
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		s := it.s
		done := false
		for i := it.i; i < len(it.b.Instrs) && !done; i++ {
			switch x := it.b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				todo = append(todo, item{it.b.Succs[0], 0, m.enter(s, it.b, it.b.Succs[0])})
				done = true
			case *ssa.If:
				c := m.val(s, x.Cond)
				if c != "false" {
					n := s.clone()
					m.refine(n, x.Cond, true)
					todo = append(todo, item{it.b.Succs[0], 0, m.enter(n, it.b, it.b.Succs[0])})
				}
				if c != "true" {
					n := s.clone()
					m.refine(n, x.Cond, false)
					todo = append(todo, item{it.b.Succs[1], 0, m.enter(n, it.b, it.b.Succs[1])})
				}
				done = true
			case *ssa.Return:
				var vals []string
				for _, v := range x.Results {
					vals = append(vals, m.val(s, v))
				}
				o := s.clone()
				last := len(o.frames) - 1
				o.env, o.frames, o.defers = o.frames[last], o.frames[:last], append([]vmDefer{}, odef...)
				exits = append(exits, vmExit{st: o, vals: vals})
				done = true
			case *ssa.Panic:
				done = true
			case *ssa.RunDefers:
				cur := []*vmSt{s}
				for j := len(s.defers) - 1; j >= 0; j-- {
					var nx []*vmSt
					for _, c := range cur {
						for _, e := range m.doCall(c, s.defers[j].c, s.defers[j].args, s.defers[j].fn, nil) {
							nx = append(nx, e.st)
						}
					}
					cur = nx
				}
				for _, c := range cur {
					c.defers = nil
					todo = append(todo, item{it.b, i + 1, c})
				}
				done = true
			case *ssa.Defer:
				s = s.clone()
				var as []string
				for _, a := range x.Call.Args {
					as = append(as, m.val(s, a))
				}
				s.defers = append(s.defers, vmDefer{&x.Call, as, m.val(s, x.Call.Value)})
			case *ssa.Call:
				var as []string
				for _, a := range x.Call.Args {
					as = append(as, m.val(s, a))
				}
				for _, e := range m.doCall(s, &x.Call, as, m.val(s, x.Call.Value), x) {
					n := e.st
					m.setTuple(n, x, e.vals)
					todo = append(todo, item{it.b, i + 1, n})
				}
				done = true
			default:
				s = s.clone()
				m.step(s, it.b.Instrs[i])
			}
		}
	}
	// merge equal exits
	var out []vmExit
	dup := map[string]bool{}
	for _, e := range exits {
		k := e.st.key(fn) + strings.Join(e.vals, ";")
		if !dup[k] {
			dup[k] = true
			out = append(out, e)
		}
	}
	return out
}

func tkey(x ssa.Value, i int) string {
	return fmt.Sprintf("tuple:%s:%s:%d", x.Parent().Name(), x.Name(), i)
}

func (m *vmRun) setTuple(s *vmSt, x ssa.Value, vals []string) {
	if len(vals) == 1 {
		s.env[x] = vals[0]
		return
	}
	for i, v := range vals {
		s.mem[tkey(x, i)] = v
	}
	s.env[x] = "tuple"
}

// enter moves along an edge of the control flow, evaluating the phis.
func (m *vmRun) enter(s *vmSt, from, to *ssa.BasicBlock) *vmSt {
	n := s.clone()
	var idx int
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	set := map[ssa.Value]string{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := m.val(s, ph.Edges[idx])
		if m.listKind() && s.calls == 0 {
			if strings.HasPrefix(v, "#") {
				v = "ix:" + v[1:]
			} else if v == m.listName() {
				v = "sfx:0"
			}
		}
		set[ph] = v
	}
	for k, v := range set {
		n.env[k] = v
	}
	// values defined in blocks that cannot be seen from here are forgotten
	for k := range n.env {
		if in, ok := k.(ssa.Instruction); ok && in.Parent() == to.Parent() && in.Block() != to && !in.Block().Dominates(to) {
			delete(n.env, k)
			delete(n.mem, tkey(k, 0))
			delete(n.mem, tkey(k, 1))
		}
	}
	return n
}

func (m *vmRun) val(s *vmSt, v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			if c.IsNil() {
				return "nil"
			}
			return "?"
		}
		switch c.Value.Kind() {
		case constant.Bool:
			return fmt.Sprint(constant.BoolVal(c.Value))
		case constant.Int:
			return "#" + c.Value.ExactString()
		case constant.String:
			return "$" + constant.StringVal(c.Value)
		}
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Function:
		return "fn:" + x.String()
	case *ssa.Global:
		return "?global"
	}
	if x, ok := s.env[v]; ok {
		return x
	}
	return "?"
}

// Kinds with a list of operands: positions are kept relative to the number of evaluations.
func (m *vmRun) listKind() bool { return strings.HasSuffix(operand[m.kind], "[]") }

func (m *vmRun) listName() string { return strings.TrimSuffix(operand[m.kind], "[]") }

func rel(v, pre string) (int, bool) {
	if !strings.HasPrefix(v, pre) {
		return 0, false
	}
	n, err := strconv.Atoi(v[len(pre):])
	return n, err == nil
}

// evaluated renames what is relative to the number of evaluations.
func (s *vmSt) evaluated(ok bool) {
	up := func(v string) string {
		for _, pre := range []string{"ix:", "sfx:", "vxf:"} {
			if n, is := rel(v, pre); is {
				return fmt.Sprint(pre, n-1)
			}
		}
		switch {
		case strings.HasPrefix(v, "val@"):
			return "old@" + v[4:]
		case v == "vl:cur" && ok:
			return "vl:stale"
		case v == "vl:stale" && ok:
			return "?"
		}
		return v
	}
	for _, env := range append([]map[ssa.Value]string{s.env}, s.frames...) {
		for k, v := range env {
			env[k] = up(v)
		}
	}
	for k, v := range s.mem {
		s.mem[k] = up(v)
	}
}

// compare decides or names a comparison of positions in the list of operands.
func (m *vmRun) compare(op token.Token, a, b string) string {
	ln := "len:" + m.listName()
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	if strings.HasPrefix(a, "#") || a == ln && m.listKind() {
		a, b, op = b, a, flip[op]
	}
	if m.listKind() {
		if a == "ix:0" && b == ln {
			switch op {
			case token.LSS, token.NEQ:
				return "?more"
			case token.GEQ, token.EQL:
				return "?done"
			}
		}
		if a == "len:sfx:0" || a == "len:"+m.listName() {
			if b == "#0" {
				switch op {
				case token.GTR, token.NEQ:
					return "?more"
				case token.LEQ, token.EQL:
					return "?done"
				}
			}
			if b == "#1" && op == token.GEQ {
				return "?more"
			}
			if b == "#1" && op == token.LSS {
				return "?done"
			}
		}
	}
	if a == "len:node.label" {
		switch {
		case b == "#0" && (op == token.EQL || op == token.LEQ), b == "#1" && op == token.LSS:
			return "?eq node.label "
		case b == "#0" && (op == token.NEQ || op == token.GTR), b == "#1" && op == token.GEQ:
			return "?ne node.label "
		}
	}
	if a == "len:some" {
		switch {
		case b == "#0" && (op == token.EQL || op == token.LEQ), b == "#1" && op == token.LSS:
			return "false"
		case b == "#0" && (op == token.NEQ || op == token.GTR), b == "#1" && op == token.GEQ:
			return "true"
		}
	}
	if x, ok := rel(a, "#"); ok {
		if y, ok := rel(b, "#"); ok {
			switch op {
			case token.EQL:
				return fmt.Sprint(x == y)
			case token.NEQ:
				return fmt.Sprint(x != y)
			case token.LSS:
				return fmt.Sprint(x < y)
			case token.GTR:
				return fmt.Sprint(x > y)
			case token.LEQ:
				return fmt.Sprint(x <= y)
			case token.GEQ:
				return fmt.Sprint(x >= y)
			}
		}
	}
	return ""
}

// refine records what a branch says about its condition.
func (m *vmRun) refine(s *vmSt, c ssa.Value, truth bool) {
	v := m.val(s, c)
	if strings.HasPrefix(v, "?") {
		s.env[c] = fmt.Sprint(truth)
		if v == "?more" || v == "?done" {
			s.more = map[bool]string{true: "yes", false: "no"}[truth == (v == "?more")]
		}
		if n, what, ok := strings.Cut(v[1:], " "); ok && truth == (n == "eq") {
			s.event("is " + what)
		} else if ok {
			s.event("is not " + what)
		}
	}
}

const vmPt = "&p.pt"

// load reads through an address.
func (m *vmRun) load(s *vmSt, a string) string {
	switch {
	case a == "&p.pt":
		return "pt:" + s.pt
	case strings.HasPrefix(a, "&p.pt."):
		return "pt:" + s.pt + a[len("&p.pt"):]
	case a == "&p.cur.state":
		return "state:cur"
	case a == "&p.vstack":
		return fmt.Sprintf("vs:%d", s.d)
	case a == "&p.rstack":
		return fmt.Sprintf("rs:%d", s.rd)
	case a == "&p.recoveryStack":
		return fmt.Sprintf("cs:%d", s.cd)
	case a == "&p.maxFailInvertExpected":
		return fmt.Sprint(s.inv)
	case strings.HasPrefix(a, "&p."):
		if m.v.switches[a[3:]] {
			return "false"
		}
		return a[1:]
	case strings.HasPrefix(a, "&node"):
		return a[1:]
	case strings.HasPrefix(a, "&frame:"):
		return a[1:]
	case strings.HasPrefix(a, "&loc:"):
		v := m.loadLoc(s, a)
		// a part of it was changed
		for k, pv := range s.mem {
			if strings.HasPrefix(k, a+".") && pv != v+k[len(a):] {
				return "?"
			}
		}
		return v
	}
	return "?"
}

func (m *vmRun) loadLoc(s *vmSt, a string) string {
	if v, ok := s.mem[a]; ok {
		return v
	}
	// a field of a stored value
	for i := len(a) - 1; i > 5; i-- {
		if a[i] == '.' {
			if v, ok := s.mem[a[:i]]; ok {
				if v == "?" {
					return "?"
				}
				return v + a[i:]
			}
		}
	}
	return "?"
}

func (m *vmRun) store(s *vmSt, a, v string) {
	switch {
	case a == "&p.pt":
		if strings.HasPrefix(v, "pt:") && !strings.Contains(v, ".") {
			s.pt = v[3:]
			return
		}
		s.pt = "?"
	case strings.HasPrefix(a, "&p.pt."):
		s.pt = "?"
	case a == "&p.cur.state" || a == "&p.cur" || a == "&p":
		m.fail("state", "%s replaces the backtracked state without the functions that copy and restore it", m.fn.Name())
	case a == "&p.cur.pos":
		s.curpos = v
	case a == "&p.cur.text":
		s.curtext = v
	case a == "&p.vstack" || strings.HasPrefix(a, "&frame:"):
		m.fail("scopes", "%s changes the stack of label scopes other than by opening and closing one", m.fn.Name())
	case a == "&p.rstack":
		if !vmStack(v, "rs:", &s.rd) {
			m.fail("rules", "%s changes the stack of rules in an unknown way (%s)", m.fn.Name(), v)
		}
	case a == "&p.recoveryStack":
		if !vmStack(v, "cs:", &s.cd) {
			m.fail("recovery", "%s changes the stack of recoveries in an unknown way (%s)", m.fn.Name(), v)
		}
	case a == "&p.maxFailInvertExpected":
		if v != "true" && v != "false" {
			m.undecided("the inversion of expectations becomes %s", v)
		}
		s.inv = v == "true"
	case strings.HasPrefix(a, "&vx:"):
		n, i, _ := strings.Cut(a[1:], "|")
		f, ok := rel(s.mem[n], "vxf:")
		k, ok2 := rel(i, "ix:")
		if ok && ok2 && k == f && strings.HasPrefix(v, "val@") {
			s.mem[n] = fmt.Sprint("vxf:", f+1)
		} else {
			s.mem[n] = "?"
		}
	case strings.HasPrefix(a, "&loc:"):
		for k := range s.mem {
			if strings.HasPrefix(k, a+".") {
				delete(s.mem, k)
			}
		}
		s.mem[a] = v
	}
}

func vmStack(v, pre string, n *int) bool {
	if !strings.HasPrefix(v, pre) {
		return false
	}
	k := 0
	if c, err := fmt.Sscanf(v[len(pre):], "%d", &k); c != 1 || err != nil {
		return false
	}
	*n = k
	return true
}

func (m *vmRun) step(s *vmSt, in ssa.Instruction) {
	set := func(v ssa.Value, x string) { s.env[v] = x }
	switch x := in.(type) {
	case *ssa.Alloc:
		a := fmt.Sprintf("&loc:%s%d:%s", x.Parent().Name(), m.depth, x.Name())
		for k := range s.mem {
			if k == a || strings.HasPrefix(k, a+".") {
				delete(s.mem, k)
			}
		}
		s.mem[a] = "?"
		set(x, a)
	case *ssa.FieldAddr:
		b := m.val(s, x.X)
		n := fieldName(x)
		switch {
		case b == "p":
			set(x, "&p."+n)
		case strings.HasPrefix(b, "&"):
			set(x, b+"."+n)
		case strings.HasPrefix(b, "node"):
			set(x, "&"+b+"."+n)
		default:
			set(x, "?")
		}
	case *ssa.Field:
		b := m.val(s, x.X)
		n := structOf(x.X.Type()).Field(x.Field).Name()
		if strings.HasPrefix(b, "pt:") || strings.HasPrefix(b, "node") {
			set(x, b+"."+n)
		} else {
			set(x, "?")
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			set(x, m.load(s, m.val(s, x.X)))
		case token.NOT:
			switch m.val(s, x.X) {
			case "true":
				set(x, "false")
			case "false":
				set(x, "true")
			default:
				set(x, "?")
			}
		default:
			set(x, "?")
		}
	case *ssa.BinOp:
		a, b := m.val(s, x.X), m.val(s, x.Y)
		r := "?"
		if x.Op == token.SUB && strings.HasPrefix(a, "len:") && b == "#1" {
			r = a + "-1"
		}
		if (x.Op == token.EQL || x.Op == token.NEQ) && (a == "true" || a == "false") && (b == "true" || b == "false") {
			r = fmt.Sprint((a == b) == (x.Op == token.EQL))
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			if strings.HasPrefix(b, "node") || b == "err" {
				a, b = b, a
			}
			if a == "node.label" && b == "$" || a == "err" && b == "nil" || a == "node.rule" && b == "nil" {
				r = map[bool]string{true: "?eq ", false: "?ne "}[x.Op == token.EQL] + a + " " + strings.TrimPrefix(b, "$")
			}
		}
		if n, ok := rel(a, "ix:"); ok {
			if k, ok := rel(b, "#"); ok && x.Op == token.ADD {
				r = fmt.Sprint("ix:", n+k)
			} else if ok && x.Op == token.SUB {
				r = fmt.Sprint("ix:", n-k)
			}
		}
		if c := m.compare(x.Op, a, b); c != "" {
			r = c
		}
		set(x, r)
	case *ssa.MakeSlice:
		switch l := m.val(s, x.Len); {
		case l == "#0":
			set(x, "vl:empty")
		case m.listKind() && l == "len:"+m.listName() && s.calls == 0:
			n := "vx:" + x.Parent().Name() + "." + x.Name()
			s.mem[n] = "vxf:0"
			set(x, n)
		default:
			set(x, "?")
		}
	case *ssa.IndexAddr:
		b, i := m.val(s, x.X), m.val(s, x.Index)
		switch {
		case m.listKind() && b == m.listName():
			if i == "ix:0" || i == "#0" && s.calls == 0 {
				set(x, "&"+b+"[]")
			} else {
				set(x, "&"+b+"["+i+"]")
			}
		case m.listKind() && b == "sfx:0" && i == "#0":
			set(x, "&"+m.listName()+"[]")
		case strings.HasPrefix(b, "vx:"):
			set(x, "&"+b+"|"+i)
		case strings.HasPrefix(b, "vs:") && i == "len:"+b+"-1":
			set(x, "&frame:"+b[3:])
		case strings.HasPrefix(b, "node"):
			set(x, "&"+b+"[]")
		case strings.HasPrefix(b, "&loc:"):
			set(x, b+"."+i)
		default:
			set(x, "?")
		}
	case *ssa.Store:
		m.store(s, m.val(s, x.Addr), m.val(s, x.Val))
	case *ssa.Slice:
		b := m.val(s, x.X)
		lo, hi := "", ""
		if x.Low != nil {
			lo = m.val(s, x.Low)
		}
		if x.High != nil {
			hi = m.val(s, x.High)
		}
		switch {
		case b == "p.data" && x.Low != nil && x.High != nil:
			set(x, "slice:"+lo+":"+hi)
		case (strings.HasPrefix(b, "rs:") || strings.HasPrefix(b, "cs:")) && (lo == "" || lo == "#0") && hi == "len:"+b+"-1":
			n := 0
			fmt.Sscanf(b[3:], "%d", &n)
			set(x, fmt.Sprintf("%s%d", b[:3], n-1))
		case (strings.HasPrefix(b, "rs:") || strings.HasPrefix(b, "cs:")) && (lo == "" || lo == "#0") && strings.HasPrefix(hi, "len:"+b[:3]):
			// back to an earlier length
			n, h := 0, 0
			fmt.Sscanf(b[3:], "%d", &n)
			if rest := hi[len("len:rs:"):]; rest == fmt.Sprint(atoi(rest)) && atoi(rest) <= n {
				h = atoi(rest)
				set(x, fmt.Sprintf("%s%d", b[:3], h))
			} else {
				set(x, "?")
			}
		case strings.HasPrefix(b, "&loc:"):
			set(x, "list:"+b)
		case m.listKind() && (strings.HasPrefix(b, "sfx:") || b == m.listName() && s.calls == 0) && hi == "":
			k, _ := rel(b, "sfx:")
			if n, ok := rel(lo, "#"); ok {
				set(x, fmt.Sprint("sfx:", k+n))
			} else {
				set(x, "?")
			}
		case strings.HasPrefix(b, "vl:") && (lo == "" || lo == "#0") && hi == "":
			set(x, b)
		default:
			set(x, "?")
		}
	case *ssa.MapUpdate:
		mv := m.val(s, x.Map)
		if strings.HasPrefix(mv, "frame:") {
			s.event("label " + mv[6:] + " " + m.val(s, x.Key) + " " + m.val(s, x.Value))
		} else if strings.HasPrefix(mv, "state:") || strings.HasPrefix(mv, "clone:") {
			m.fail("state", "%s changes the backtracked state itself", m.fn.Name())
		}
	case *ssa.Lookup:
		r := "?"
		if m.val(s, x.X) == "p.rules" && m.val(s, x.Index) == "node.name" {
			r = "node.rule"
		}
		if x.CommaOk {
			s.mem[tkey(x, 0)] = r
			s.mem[tkey(x, 1)] = "?ne node.rule nil"
			if r == "?" {
				s.mem[tkey(x, 1)] = "?"
			}
			set(x, "tuple")
		} else {
			set(x, r)
		}
	case *ssa.MakeInterface:
		set(x, m.val(s, x.X))
	case *ssa.ChangeType:
		set(x, m.val(s, x.X))
	case *ssa.ChangeInterface:
		set(x, m.val(s, x.X))
	case *ssa.TypeAssert:
		if x.CommaOk {
			s.mem[tkey(x, 0)] = m.val(s, x.X)
			s.mem[tkey(x, 1)] = "?"
			set(x, "tuple")
		} else {
			set(x, m.val(s, x.X))
		}
	case *ssa.Extract:
		if v, ok := s.mem[tkey(x.Tuple, x.Index)]; ok && m.val(s, x.Tuple) == "tuple" {
			set(x, v)
		} else {
			set(x, "?")
		}
	case *ssa.MakeClosure:
		set(x, "fn:"+x.Fn.String())
	case *ssa.Go, *ssa.Send, *ssa.Select:
		m.undecided("%s", in)
	case ssa.Value:
		set(x, "?")
	}
}

func (s *vmSt) event(x string) {
	if len(s.ev) < 6 {
		s.ev = append(s.ev, x)
	}
}

func two(n int) int {
	if n > 2 {
		return 2
	}
	return n
}

func site(x ssa.Instruction) string {
	if x == nil {
		return "deferred"
	}
	if v, ok := x.(ssa.Value); ok {
		return x.Parent().Name() + "." + v.Name()
	}
	return x.Parent().Name()
}

// doCall is the effect of a call.
func (m *vmRun) doCall(s *vmSt, c *ssa.CallCommon, args []string, fv string, at *ssa.Call) []vmExit {
	s = s.clone()
	ret := func(vals ...string) []vmExit { return []vmExit{{st: s, vals: vals}} }
	var in ssa.Instruction
	if at != nil {
		in = at
	}
	unknown := func() []vmExit {
		res := c.Signature().Results()
		vals := make([]string, res.Len())
		for i := range vals {
			vals[i] = "?"
		}
		if len(vals) == 0 {
			return ret()
		}
		return ret(vals...)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			if b.Name() == "len" && (strings.HasPrefix(args[0], "rs:") || strings.HasPrefix(args[0], "vs:") || strings.HasPrefix(args[0], "cs:")) {
				return ret("len:" + args[0])
			}
			if b.Name() == "len" {
				switch a := args[0]; {
				case a == "vl:empty" || a == "nil":
					return ret("#0")
				case a == "vl:cur" || a == "vl:stale":
					return ret("len:some")
				case strings.HasPrefix(a, "node.") || strings.HasPrefix(a, "sfx:"):
					return ret("len:" + a)
				}
			}
			return ret("?")
		case "append":
			if a := args[0]; (a == "nil" || a == "vl:empty") && s.oks == 1 || a == "vl:stale" {
				if one := m.single(s, args[1]); strings.HasPrefix(one, "val@") {
					return ret("vl:cur")
				}
				return ret("?")
			}
			if strings.HasPrefix(args[0], "rs:") || strings.HasPrefix(args[0], "cs:") {
				n := 0
				fmt.Sscanf(args[0][3:], "%d", &n)
				// variadic list of one
				if strings.HasPrefix(args[1], "list:&loc:") {
					cnt := 0
					for k, v := range s.mem {
						if strings.HasPrefix(k, args[1][5:]+".") {
							cnt++
							s.event("push " + v)
						}
					}
					if cnt == 1 {
						return ret(fmt.Sprintf("%s%d", args[0][:3], n+1))
					}
				}
			}
			return ret("?")
		}
		return unknown()
	}
	if c.IsInvoke() {
		return unknown()
	}
	fn := c.StaticCallee()
	var bind []string
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			bind = append(bind, m.val(s, b))
		}
	}
	if fn == nil {
		// code attached to the node
		hasP := false
		for _, a := range args {
			hasP = hasP || a == "p"
		}
		if strings.HasPrefix(fv, "node") && hasP {
			if fv != "node.run" {
				m.undecided("call of %s", fv)
			}
			s.run = two(s.run + 1)
			s.event("run " + s.curpos + " " + s.curtext + " " + s.pt + " " + s.content)
			s.content = "run@" + site(in)
			if c.Signature().Results().Len() == 1 {
				return ret("err")
			}
			if b, ok := under(c.Signature().Results().At(0).Type()).(*types.Basic); ok && b.Kind() == types.Bool {
				t := s.clone()
				s.last, t.last = "true", "false"
				return []vmExit{{st: s, vals: []string{"true", "err"}}, {st: t, vals: []string{"false", "err"}}}
			}
			return ret("code", "err")
		}
		if hasP {
			m.undecided("call of %s", fv)
		}
		return unknown()
	}
	v := m.v
	if m.counters[fn] {
		arg := "none"
		for i, q := range fn.Params {
			if isIntType(q.Type()) {
				arg = args[i]
			}
		}
		s.event("count " + fn.Name() + " " + arg)
		return unknown()
	}
	if m.er != nil && len(args) > 0 && args[0] == "p" {
		if fn == m.noter {
			s.event("expect")
			return ret()
		}
		for _, f := range m.er.inner {
			if fn != f {
				continue
			}
			at := "pt:" + s.pt + ".position"
			what := ""
			for i, q := range f.Params[1:] {
				if isErrType(q.Type()) {
					what = args[i+1]
				} else if sameType(q.Type(), fieldType(structOf(v.ptT), "position")) {
					at = args[i+1]
				}
			}
			s.event("report")
			s.event("report " + what + " at " + at)
			return ret()
		}
	}
	switch {
	case len(args) > 0 && args[0] == "p" && (fn == v.expr || fn == v.rule || v.byFn[fn] != "") && fn != m.fn:
		if fn != v.expr && m.kind != "expr" && !(fn == v.rule && m.kind == "ref") {
			// a kind evaluating another one directly: the contract holds all the same
			_ = fn
		}
		return m.eval(s, args[1], in)
	case fn == v.push:
		s.d++
		s.fresh = true
		return ret()
	case fn == v.pop:
		s.d--
		s.fresh = false
		return ret()
	case fn == v.clone:
		st := site(in)
		s.sites[st] = "live"
		// older names of this copy are gone
		return ret("clone:" + s.content + "|" + st)
	case fn == v.reState:
		a := args[1]
		if !strings.HasPrefix(a, "clone:") {
			m.fail("restore", "%s restores a state that is no copy made before (%s)", m.fn.Name(), a)
			s.content = "?"
			return ret()
		}
		c, st, _ := strings.Cut(a[6:], "|")
		if s.sites[st] != "live" {
			m.fail("restore twice", "%s restores the same copy of the state twice; the copy is already in use", m.fn.Name())
		}
		s.sites[st] = "used"
		s.content = c
		return ret()
	case fn == v.rePt:
		if a := args[1]; strings.HasPrefix(a, "pt:") && !strings.Contains(a, ".") {
			s.pt = a[3:]
		} else {
			m.undecided("restored position %s", args[1])
			s.pt = "?"
		}
		return ret()
	case fn == v.read:
		s.pt = "read(" + s.pt + ")"
		if len(s.pt) > 40 {
			s.pt = "far"
		}
		return ret()
	}
	if len(args) > 0 && args[0] == "p.errs" {
		s.event("report")
		return unknown()
	}
	tracked := false
	for _, a := range args {
		if a == "p" || strings.HasPrefix(a, "&p") || strings.HasPrefix(a, "&loc") || strings.HasPrefix(a, "clone:") || strings.HasPrefix(a, "state:") || strings.HasPrefix(a, "frame:") || strings.HasPrefix(a, "vs:") {
			tracked = true
		}
	}
	if m.r.p.inRepo(fn) && len(args) > 0 {
		// a part of the code set apart works on what the rest of it knows
		for _, a := range args {
			tracked = tracked || a != "?"
		}
	}
	if !tracked && !(m.r.p.inRepo(fn) && fn.Parent() != nil) {
		return unknown()
	}
	if m.r.p.inRepo(fn) && len(fn.Blocks) > 0 {
		return m.call(fn, args, bind, s)
	}
	if strings.HasPrefix(strings.Join(args, " "), "p") {
		m.undecided("call of %s", fn)
	}
	return unknown()
}

// single is the element of a variadic list of one.
func (m *vmRun) single(s *vmSt, l string) string {
	if !strings.HasPrefix(l, "list:&loc:") {
		return ""
	}
	cnt, out := 0, ""
	for k, v := range s.mem {
		if strings.HasPrefix(k, l[5:]+".") {
			cnt++
			out = v
		}
	}
	if cnt != 1 {
		return ""
	}
	return out
}

// eval is the contract of an evaluation: success moves on, failure leaves everything as it was.
func (m *vmRun) eval(s *vmSt, node string, in ssa.Instruction) []vmExit {
	s.calls = two(s.calls + 1)
	scope := "shared"
	if s.fresh && s.d > 0 {
		scope = "own"
	}
	if s.d < 0 {
		m.fail("scopes", "%s evaluates a node in a scope that is closed already", m.fn.Name())
	}
	s.fresh = false
	m.checkEval(s, node, scope)
	s.more = ""
	bad := s.clone()
	bad.evaluated(false)
	s.evaluated(true)
	bad.last = "false"
	s.last = "true"
	s.oks = two(s.oks + 1)
	s.pt = "after@" + site(in)
	s.content = "changed@" + site(in)
	s.goodPt, s.goodSt = s.pt, s.content
	s.curpos, s.curtext = "?", "?"
	bad.curpos, bad.curtext = "?", "?"
	return []vmExit{{st: s, vals: []string{"val@" + site(in), "true"}}, {st: bad, vals: []string{"nil", "false"}}}
}

// operand is the node a kind evaluates.
var operand = map[string]string{"label": "node.expr", "action": "node.expr", "and": "node.expr", "not": "node.expr", "opt": "node.expr",
	"star": "node.expr", "plus": "node.expr", "recover": "node.expr", "seq": "node.exprs[]", "choice": "node.alternatives[]", "rule": "node.expr",
	"ref": "node.rule", "expr": "node"}

// checkEval: what has to hold when a kind evaluates its operand.
func (m *vmRun) checkEval(s *vmSt, node, scope string) {
	if s.inv != (m.kind == "not") != m.inv0 {
		m.fail("inversion", "%s evaluates its operand with expectations inverted: %v", m.fn.Name(), s.inv)
	}
	if node != operand[m.kind] {
		m.fail("operand", "%s evaluates %s instead of %s", m.fn.Name(), node, operand[m.kind])
	}
	own := map[string]bool{"label": true, "and": true, "not": true, "opt": true, "star": true, "plus": true, "choice": true, "rule": true}
	if own[m.kind] {
		if s.d != 1 || scope != "own" {
			m.fail("scope", "%s evaluates its operand without a label scope of its own: labels leak (scopes opened: %d, %s)", m.fn.Name(), s.d, scope)
		}
	} else if s.d != 0 {
		m.fail("scope", "%s evaluates its operand in another label scope than its own", m.fn.Name())
	}
	if m.kind == "rule" {
		pushed := false
		for _, e := range s.ev {
			pushed = pushed || e == "push node"
		}
		if s.rd != 1 || !pushed {
			m.fail("rule", "%s evaluates a rule without noting it on the stack of rules", m.fn.Name())
		}
	} else if s.rd != 0 {
		m.fail("rule", "%s changes the stack of rules during an evaluation", m.fn.Name())
	}
	switch m.kind {
	case "seq", "star", "plus":
		if s.last == "false" {
			m.fail("goes on", "%s goes on after a failed evaluation", m.fn.Name())
		}
		if s.pt != s.goodPt || s.content != s.goodSt {
			m.fail("goes on", "%s evaluates the next element from another position or state than the last one left (%s, %s)", m.fn.Name(), s.pt, s.content)
		}
	case "choice":
		if s.oks > 0 {
			m.fail("goes on", "%s tries a further alternative after one that matched", m.fn.Name())
		}
		if s.pt != "0" || s.content != "0" {
			m.fail("alternative", "%s tries an alternative from another position or state than the first one", m.fn.Name())
		}
	default:
		if s.calls > 1 {
			m.fail("repeated", "%s evaluates its operand more than once", m.fn.Name())
		}
		if s.pt != "0" || s.content != "0" {
			m.fail("start", "%s evaluates its operand from another position or state than its own", m.fn.Name())
		}
	}
}

func (s *vmSt) did(pre string) (string, bool) {
	for _, e := range s.ev {
		if strings.HasPrefix(e, pre) {
			return e, true
		}
	}
	return "", false
}

// machine explores the function of one kind and checks its contract.
func (r *Rep) machine(kind string, fn *ssa.Function) {
	m := &vmRun{r: r, v: r.vmRoles(), kind: kind, fn: fn, bad: map[string]bool{}, seen: map[*ssa.Function]bool{}}
	if r.prop == "C31" || r.prop == "C02" {
		m.er, m.noter = r.errRoles(), r.reporter()
	}
	r.machineFrom(m, false)
	if r.prop == "C31" && kind != "rule" {
		r.machineFrom(m, true)
	}
}

func (r *Rep) machineFrom(m *vmRun, inverted bool) {
	fn, kind := m.fn, m.kind
	m.inv0 = inverted
	s := &vmSt{inv: inverted, pt: "0", content: "0", goodPt: "0", goodSt: "0", last: "none", curpos: "?", curtext: "?", sites: map[string]string{}, mem: map[string]string{}, env: map[ssa.Value]string{}}
	exits := m.call(fn, []string{"p", "node"}, nil, s)
	for f := range m.seen {
		r.funcs[f.String()] = true
	}
	if len(exits) == 0 {
		m.fail("returns", "%s never returns", fn.Name())
	}
	n := 0
	for _, e := range exits {
		if len(e.vals) != 2 {
			m.undecided("results of %s", fn)
			continue
		}
		if strings.HasPrefix(e.vals[1], "?") {
			// the outcome depends on data of the node
			for _, b := range []string{"true", "false"} {
				m.exit(vmExit{st: e.st, vals: []string{e.vals[0], b}})
			}
			n++
			continue
		}
		m.exit(e)
		n++
	}
	if len(m.bad) == 0 {
		for i := 0; i < n; i++ {
			r.pass("machine", "%s: way %d out of %s", kind, i+1, fn.Name())
		}
	}
}

func (m *vmRun) exit(e vmExit) {
	if m.onExit != nil {
		m.onExit(m, e)
		return
	}
	s, val, ok := e.st, e.vals[0], e.vals[1]
	name := m.fn.Name()
	if s.d != 0 {
		m.fail("balance", "%s leaves %d label scopes more than it found", name, s.d)
	}
	if s.rd != 0 || s.cd != 0 {
		m.fail("balance", "%s leaves the stack of rules or recoveries changed (%d, %d)", name, s.rd, s.cd)
	}
	if s.inv != m.inv0 {
		m.fail("inversion", "%s leaves the inversion of expectations switched", name)
	}
	if ok != "true" && ok != "false" {
		m.undecided("outcome %s", ok)
		return
	}
	if ok == "false" {
		if s.pt != "0" {
			m.fail("position", "%s gives up without going back to the position it started from (%s)", name, s.pt)
		}
		if s.content != "0" {
			m.fail("state", "%s gives up without restoring the state it started with (%s)", name, s.content)
		}
		if val != "nil" {
			m.fail("value", "%s gives up with the value %s", name, val)
		}
	}
	if m.er != nil && m.kind != "ref" { // a rule that does not exist is an error of its own
		reps := 0
		for _, ev := range s.ev {
			if ev == "report" {
				reps++
			}
			if strings.HasPrefix(ev, "report ") && ev != "report err at pt:0.position" {
				m.fail("error position", "%s records: %s, instead of the error of the code at the start of the node", name, ev[7:])
			}
			if ev == "expect" && m.kind != "any" && m.kind != "class" && m.kind != "lit" {
				m.fail("expectation", "%s notes a missed token, it compares no characters", name)
			}
		}
		if _, failed := s.did("is not err"); reps > 1 || reps == 1 && !failed {
			m.fail("error", "%s records %d errors for code that has %v error", name, reps, map[bool]string{true: "an", false: "no"}[failed])
		}
	}
	if _, failed := s.did("is not err"); failed {
		if _, rep := s.did("report"); !rep {
			m.fail("error", "%s drops an error of the code attached to the grammar", name)
		}
	}
	same := func(neg bool) {
		if want := s.last == "true"; (ok == "true") != (want != neg) || s.last == "none" {
			m.fail("outcome", "%s answers %s when its operand answered %s", name, ok, s.last)
		}
	}
	stays := func() {
		if s.pt != "0" {
			m.fail("look-ahead", "%s consumes input (%s)", name, s.pt)
		}
		if s.content != "0" {
			m.fail("look-ahead", "%s changes the state (%s)", name, s.content)
		}
	}
	once := func() {
		if s.calls != 1 {
			m.fail("operand", "%s evaluates its operand %d times", name, s.calls)
		}
	}
	keeps := func() {
		if ok == "true" && (s.pt != s.goodPt || s.content != s.goodSt) {
			m.fail("keeps", "%s drops the position or state its operand left (%s, %s)", name, s.pt, s.content)
		}
	}
	passes := func() {
		if ok == "true" && !strings.HasPrefix(val, "val@") {
			m.fail("value", "%s answers %s instead of the value of its operand", name, val)
		}
	}
	listed := func() {
		good := val == "vl:cur" || s.oks == 0 && (val == "vl:empty" || val == "nil")
		if strings.HasPrefix(val, "vx:") {
			good = s.mem[val] == "vxf:0" && s.more == "no"
		}
		if !good {
			m.fail("value", "%s answers %s instead of the values of its operands in order", name, val)
		}
	}
	noRun := func() {
		if s.run > 0 {
			m.fail("code", "%s runs code", name)
		}
	}
	_, labelled := s.did("label ")
	if labelled && m.kind != "label" {
		m.fail("label", "%s binds a label", name)
	}
	switch m.kind {
	case "expr", "rule", "ref":
		if m.kind == "ref" && s.calls == 0 {
			if ok == "true" {
				m.fail("outcome", "%s matches without evaluating the rule", name)
			}
			if _, missing := s.did("is node.rule nil"); !missing {
				m.fail("operand", "%s fails without evaluating the rule", name)
			}
			return
		}
		once()
		same(false)
		keeps()
		passes()
		noRun()
	case "label":
		once()
		same(false)
		keeps()
		passes()
		noRun()
		ev, bound := s.did("label ")
		if ok == "false" && bound {
			m.fail("label", "%s binds the label of an operand that did not match", name)
		}
		if _, none := s.did("is node.label"); ok == "true" && !bound && !none {
			m.fail("label", "%s does not bind the label", name)
		}
		if bound && !strings.HasPrefix(ev, "label 0 node.label val@") {
			m.fail("label", "%s binds something else than the value of its operand to its label (%s)", name, ev)
		}
	case "action":
		once()
		same(false)
		keeps()
		ev, ran := s.did("run ")
		if ok == "false" && ran || s.run > 1 {
			m.fail("code", "%s runs its code for an operand that did not match, or twice", name)
		}
		if ok == "true" {
			f := strings.Fields(ev)
			if !ran || len(f) != 5 || f[1] != "pt:0.position" {
				m.fail("code position", "%s runs its code with the position %v instead of that of the first character", name, f)
			} else if f[2] != "slice:pt:0.position.offset:pt:"+s.goodPt+".position.offset" {
				m.fail("code text", "%s runs its code with the text %s instead of the matched one", name, f[2])
			}
			if val != "code" {
				m.fail("value", "%s answers %s instead of the value made by its code", name, val)
			}
		}
	case "andcode", "notcode":
		stays()
		if s.run != 1 {
			m.fail("code", "%s runs its code %d times", name, s.run)
		}
		same(m.kind == "notcode")
		if val != "nil" {
			m.fail("value", "%s answers %s", name, val)
		}
	case "statecode":
		ev, _ := s.did("run ")
		if s.run != 1 || ok != "true" || s.pt != "0" || !strings.HasPrefix(s.content, "run@") || ev == "" {
			m.fail("code", "%s does not run its code once and keep the state it leaves (%s, %s)", name, ok, s.content)
		}
		if val != "nil" {
			m.fail("value", "%s answers %s", name, val)
		}
	case "and", "not":
		stays()
		once()
		noRun()
		same(m.kind == "not")
		if val != "nil" {
			m.fail("value", "%s answers %s", name, val)
		}
	case "seq":
		if ok == "true" && s.last == "false" || ok == "false" && s.last != "false" {
			m.fail("outcome", "%s answers %s when the last element answered %s", name, ok, s.last)
		}
		if ok == "true" && s.more != "no" {
			m.fail("all", "%s matches without having evaluated all elements", name)
		}
		if ok == "true" && s.oks > 0 {
			listed()
		}
		keeps()
		noRun()
	case "choice":
		if ok == "true" && s.last != "true" || ok == "false" && s.oks > 0 {
			m.fail("outcome", "%s answers %s when the last alternative answered %s", name, ok, s.last)
		}
		if ok == "false" && s.more != "no" {
			m.fail("all", "%s gives up without having tried all alternatives", name)
		}
		keeps()
		passes()
		noRun()
	case "opt":
		once()
		keeps()
		noRun()
		if ok != "true" {
			m.fail("outcome", "%s gives up", name)
		}
		if s.last == "true" && !strings.HasPrefix(val, "val@") || s.last == "false" && val != "nil" {
			m.fail("value", "%s answers %s", name, val)
		}
	case "star", "plus":
		if s.last != "false" {
			m.fail("outcome", "%s stops while its operand matches", name)
		}
		if want := m.kind == "star" || s.oks > 0; (ok == "true") != want {
			m.fail("outcome", "%s answers %s", name, ok)
		}
		if ok == "true" {
			listed()
		}
		keeps()
		noRun()
	case "any", "class", "lit":
		noRun()
		if s.calls > 0 {
			m.fail("operand", "%s evaluates something", name)
		}
		if s.content != "0" {
			m.fail("state", "%s changes the state", name)
		}
		if ok == "true" {
			if m.kind != "lit" && s.pt != "read(0)" {
				m.fail("position", "%s does not consume exactly one character (%s)", name, s.pt)
			}
			if val != "slice:pt:0.position.offset:pt:"+s.pt+".position.offset" {
				m.fail("value", "%s answers %s instead of the matched text", name, val)
			}
		}
	}
}

// ruleMachine: the contract of every kind of node the grammar uses.
func (r *Rep) ruleMachine() {
	v := r.vmRoles()
	used := map[string]bool{}
	for _, n := range r.grammar().nodes {
		used[n.kind] = true
	}
	// what the dispatcher calls, possibly through functions of its own
	known, todo := map[*ssa.Function]bool{}, []*ssa.Function{v.expr}
	for len(todo) > 0 {
		at := todo[0]
		todo = todo[1:]
		for _, b := range at.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || known[g] || !r.p.inRepo(g) {
					continue
				}
				known[g] = true
				if v.byFn[g] == "" && g != v.rule {
					todo = append(todo, g)
				}
			}
		}
	}
	for _, k := range sortedKeys(used) {
		fn := v.kinds[k]
		if fn == nil {
			r.fail("machine", "kind "+k, "", "no function evaluates nodes of kind %s", k)
			continue
		}
		// the dispatcher knows the kind
		found := known[fn]
		r.check(found, "machine", "dispatch "+k, r.fnWhere(v.expr), "%s does not evaluate nodes of kind %s", v.expr.Name(), k)
		r.machine(k, fn)
	}
	r.machine("expr", v.expr)
	r.machine("rule", v.rule)
	r.floor("machine", 40)
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}
