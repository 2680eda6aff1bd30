package main

// Points-to analysis of the library packages: inclusion based, field sensitive,
// objects by allocation site. Package initialisation and run time are analysed
// as two contexts, so that objects made by the same function in both stay apart.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ptObj struct {
	id   int
	kind string // alloc box func global user ext
	typ  types.Type
	fn   *ssa.Function // function value, or where the object is made
	ctx  int
	g    *ssa.Global
	pos  token.Pos
	cont map[string]*ptNode
	free []ssa.Value // closure bindings
	fctx int
}

func (o *ptObj) String() string {
	switch o.kind {
	case "global":
		return o.g.Name()
	case "func":
		return o.fn.Name()
	}
	return fmt.Sprintf("%s %s", o.kind, o.typ)
}

type ptLoc struct {
	o    *ptObj
	path string
}

type ptNode struct {
	pts   map[*ptLoc]bool
	list  []*ptLoc
	hooks []func(l *ptLoc)
	done  int
	queue bool
	sub   map[*ptNode]bool
}

const (
	ctxInit = 0
	ctxRun  = 1
)

type ptKey struct {
	ctx  int
	v    ssa.Value
	path string
}

type ptSite struct {
	ctx int
	in  any
	n   int
}

type ptFn struct {
	ctx int
	fn  *ssa.Function
}

// ptAccess is an instruction reading or writing memory.
type ptAccess struct {
	ctx   int
	fn    *ssa.Function
	in    ssa.Instruction
	addr  *ptNode
	path  string // below the locations of addr
	write bool
	how   string
}

type ptCall struct {
	caller ptFn
	in     ssa.CallInstruction
}

type pointsTo struct {
	p       *Prog
	scope   map[*ssa.Package]bool
	nodes   map[ptKey]*ptNode
	objs    map[ptSite]*ptObj
	locs    map[string]*ptLoc
	users   map[string]*ptObj
	work    []*ptNode
	seen    map[ptFn]bool
	fns     []ptFn
	acc     []*ptAccess
	callers map[ptFn][]ptCall
	callees map[ssa.CallInstruction]map[ptFn]bool
	extCall map[ssa.CallInstruction]*ssa.Function
	nobj    int
	bound   map[string]bool
	methods []*ssa.Function
}

func newPointsTo(p *Prog, scope map[*ssa.Package]bool) *pointsTo {
	a := &pointsTo{p: p, scope: scope, nodes: map[ptKey]*ptNode{}, objs: map[ptSite]*ptObj{}, locs: map[string]*ptLoc{}, users: map[string]*ptObj{},
		seen: map[ptFn]bool{}, callers: map[ptFn][]ptCall{}, callees: map[ssa.CallInstruction]map[ptFn]bool{}, extCall: map[ssa.CallInstruction]*ssa.Function{}, bound: map[string]bool{}}
	return a
}

func (a *pointsTo) inScope(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return a.scope[f.Pkg] && len(fn.Blocks) > 0
		}
		if f.Parent() == nil && f.Object() != nil && f.Object().Pkg() != nil {
			return a.scope[a.p.ssa.Package(f.Object().Pkg())] && len(fn.Blocks) > 0
		}
	}
	return a.p.inRepo(fn) && len(fn.Blocks) > 0
}

// --- nodes

func (a *pointsTo) newNode() *ptNode {
	return &ptNode{pts: map[*ptLoc]bool{}}
}

func (a *pointsTo) add(n *ptNode, l *ptLoc) {
	if n.pts[l] {
		return
	}
	n.pts[l] = true
	n.list = append(n.list, l)
	if !n.queue {
		n.queue = true
		a.work = append(a.work, n)
	}
}

func (a *pointsTo) on(n *ptNode, f func(l *ptLoc)) {
	n.hooks = append(n.hooks, f)
	for _, l := range n.list[:n.done] {
		f(l)
	}
}

func (a *pointsTo) copy(to, from *ptNode) {
	if to == from || from.sub[to] {
		return
	}
	if from.sub == nil {
		from.sub = map[*ptNode]bool{}
	}
	from.sub[to] = true
	a.on(from, func(l *ptLoc) { a.add(to, l) })
}

func (a *pointsTo) solve() {
	for len(a.work) > 0 {
		n := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		n.queue = false
		for n.done < len(n.list) {
			l := n.list[n.done]
			n.done++
			for i := 0; i < len(n.hooks); i++ {
				n.hooks[i](l)
			}
		}
	}
}

// --- types

func refLeaf(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// leaves are the paths of the references in a value of type t.
func leaves(t types.Type) (out []string) {
	if t == nil {
		return nil
	}
	if refLeaf(t) {
		return []string{""}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, q := range leaves(u.Field(i).Type()) {
				out = append(out, "."+u.Field(i).Name()+q)
			}
		}
	case *types.Array:
		for _, q := range leaves(u.Elem()) {
			out = append(out, "[]"+q)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, q := range leaves(u.At(i).Type()) {
				out = append(out, fmt.Sprintf("#%d%s", i, q))
			}
		}
	}
	return
}

// typeAt is the type below a path of a type.
func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		switch {
		case strings.HasPrefix(path, "[]"):
			path = path[2:]
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			default:
				return nil
			}
		case path[0] == '.':
			j := strings.IndexAny(path[1:], ".[#K^")
			// field names may contain K: find the longest field that matches
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			_ = j
			best := ""
			var bt types.Type
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if strings.HasPrefix(path[1:], f.Name()) && len(f.Name()) > len(best) {
					rest := path[1+len(f.Name()):]
					if rest == "" || rest[0] == '.' || rest[0] == '[' || rest[0] == '^' {
						best, bt = f.Name(), f.Type()
					}
				}
			}
			if bt == nil {
				return nil
			}
			path, t = path[1+len(best):], bt
		case strings.HasPrefix(path, "^K"), strings.HasPrefix(path, "^V"):
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			if path[1] == 'K' {
				t = m.Key()
			} else {
				t = m.Elem()
			}
			path = path[2:]
		default:
			return nil
		}
	}
	return t
}

// --- objects and locations

func (a *pointsTo) loc(o *ptObj, path string) *ptLoc {
	if o.kind == "ext" {
		path = ""
	}
	k := fmt.Sprint(o.id, path)
	if l := a.locs[k]; l != nil {
		return l
	}
	l := &ptLoc{o, path}
	a.locs[k] = l
	return l
}

func (a *pointsTo) obj(ctx int, site any, n int, kind string, t types.Type, fn *ssa.Function, pos token.Pos) *ptObj {
	k := ptSite{ctx, site, n}
	if o := a.objs[k]; o != nil {
		return o
	}
	a.nobj++
	o := &ptObj{id: a.nobj, kind: kind, typ: t, fn: fn, ctx: ctx, pos: pos, cont: map[string]*ptNode{}}
	a.objs[k] = o
	return o
}

// content is the node of what is stored at a location, below path.
func (a *pointsTo) content(l *ptLoc, path string) *ptNode {
	path = l.path + path
	if l.o.kind == "ext" {
		path = ""
	}
	n := l.o.cont[path]
	if n == nil {
		n = a.newNode()
		l.o.cont[path] = n
		switch l.o.kind {
		case "ext":
			a.add(n, l)
		case "user":
			if t := typeAt(l.o.typ, path); t != nil && refLeaf(t) {
				a.add(n, a.userLoc(t))
			}
		}
	}
	return n
}

// userLoc is where an unknown reference of type t, given by a caller, points to.
func (a *pointsTo) userLoc(t types.Type) *ptLoc {
	u := t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		u = pt.Elem()
	}
	k := types.TypeString(t, nil)
	o := a.users[k]
	if o == nil {
		a.nobj++
		o = &ptObj{id: a.nobj, kind: "user", typ: u, cont: map[string]*ptNode{}, ctx: ctxRun}
		a.users[k] = o
	}
	return a.loc(o, "")
}

// --- values

func (a *pointsTo) val(ctx int, v ssa.Value, path string) *ptNode {
	switch x := v.(type) {
	case *ssa.Global:
		ctx = 0
	case *ssa.Function:
		ctx = 0
		_ = x
	case *ssa.Const:
		return a.newNode()
	}
	k := ptKey{ctx, v, path}
	n := a.nodes[k]
	if n == nil {
		n = a.newNode()
		a.nodes[k] = n
		switch x := v.(type) {
		case *ssa.Global:
			o := a.obj(0, x, 0, "global", ptrElem(x.Type()), nil, x.Pos())
			o.g = x
			if x.Pkg != nil && !a.scope[x.Pkg] {
				o.kind = "ext"
			}
			a.add(n, a.loc(o, ""))
		case *ssa.Function:
			a.add(n, a.funcLoc(x))
		}
	}
	return n
}

func (a *pointsTo) funcLoc(fn *ssa.Function) *ptLoc {
	return a.loc(a.obj(0, fn, 0, "func", fn.Type(), fn, fn.Pos()), "")
}

func (a *pointsTo) assign(ctx int, to, from ssa.Value) {
	for _, q := range leaves(to.Type()) {
		a.copy(a.val(ctx, to, q), a.val(ctx, from, q))
	}
}

func (a *pointsTo) access(ctx int, fn *ssa.Function, in ssa.Instruction, addr *ptNode, path string, write bool, how string) {
	a.acc = append(a.acc, &ptAccess{ctx, fn, in, addr, path, write, how})
}

// --- program

func (a *pointsTo) run() {
	var pks []*ssa.Package
	for pk := range a.scope {
		pks = append(pks, pk)
	}
	sort.Slice(pks, func(i, j int) bool { return pks[i].Pkg.Path() < pks[j].Pkg.Path() })
	for _, fn := range a.p.funcs {
		if a.inScope(fn) && fn.Signature.Recv() != nil {
			a.methods = append(a.methods, fn)
		}
	}
	for _, pk := range pks {
		for _, n := range sortedKeys(pk.Members) {
			if f, ok := pk.Members[n].(*ssa.Function); ok && (f.Synthetic == "package initializer" || strings.HasPrefix(n, "init#")) {
				a.function(ctxInit, f)
			}
		}
	}
	a.solve()
	for _, fn := range a.p.funcs {
		if !a.inScope(fn) || fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#") && fn.Parent() == nil || onlyInInit(fn) {
			continue
		}
		a.function(ctxRun, fn)
		if a.isEntry(fn) {
			for _, pr := range fn.Params {
				for _, q := range leaves(pr.Type()) {
					a.add(a.val(ctxRun, pr, q), a.userLoc(typeAt(pr.Type(), q)))
				}
			}
		}
		a.solve()
	}
}

// onlyInInit reports a function literal of an initialiser; whether it is called at run time is found by the analysis.
func onlyInInit(fn *ssa.Function) bool {
	for f := fn.Parent(); f != nil; f = f.Parent() {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") {
			return true
		}
	}
	return false
}

// isEntry reports whether users may call the function.
func (a *pointsTo) isEntry(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported()
}

func (a *pointsTo) function(ctx int, fn *ssa.Function) {
	k := ptFn{ctx, fn}
	if a.seen[k] {
		return
	}
	a.seen[k] = true
	a.fns = append(a.fns, k)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(ctx, fn, in)
		}
	}
}

func (a *pointsTo) instr(ctx int, fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		o := a.obj(ctx, x, 0, "alloc", ptrElem(x.Type()), fn, x.Pos())
		a.add(a.val(ctx, x, ""), a.loc(o, ""))
	case *ssa.MakeSlice:
		o := a.obj(ctx, x, 0, "alloc", x.Type(), fn, x.Pos())
		a.add(a.val(ctx, x, ""), a.loc(o, ""))
	case *ssa.MakeMap:
		o := a.obj(ctx, x, 0, "alloc", x.Type(), fn, x.Pos())
		a.add(a.val(ctx, x, ""), a.loc(o, ""))
	case *ssa.MakeChan:
		o := a.obj(ctx, x, 0, "ext", x.Type(), fn, x.Pos())
		a.add(a.val(ctx, x, ""), a.loc(o, ""))
	case *ssa.MakeInterface:
		o := a.obj(ctx, x, 0, "box", x.X.Type(), fn, x.Pos())
		for _, q := range leaves(x.X.Type()) {
			a.copy(a.content(a.loc(o, ""), q), a.val(ctx, x.X, q))
		}
		a.add(a.val(ctx, x, ""), a.loc(o, ""))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		o := a.obj(ctx, x, 0, "func", x.Type(), f, x.Pos())
		o.free, o.fctx = x.Bindings, ctx
		a.add(a.val(ctx, x, ""), a.loc(o, ""))
		if a.inScope(f) {
			// calls bind the free variables; literals that are only stored are analysed too
			a.bindFree(o, ctx)
		}
	case *ssa.FieldAddr:
		name := structOf(ptrElem(x.X.Type())).Field(x.Field).Name()
		to := a.val(ctx, x, "")
		a.on(a.val(ctx, x.X, ""), func(l *ptLoc) { a.add(to, a.loc(l.o, l.path+"."+name)) })
	case *ssa.IndexAddr:
		to := a.val(ctx, x, "")
		a.on(a.val(ctx, x.X, ""), func(l *ptLoc) { a.add(to, a.loc(l.o, l.path+"[]")) })
	case *ssa.Field:
		name := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		for _, q := range leaves(x.Type()) {
			a.copy(a.val(ctx, x, q), a.val(ctx, x.X, "."+name+q))
		}
	case *ssa.Index:
		for _, q := range leaves(x.Type()) {
			a.copy(a.val(ctx, x, q), a.val(ctx, x.X, "[]"+q))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			for _, q := range leaves(x.Type()) {
				q := q
				to := a.val(ctx, x, q)
				a.on(a.val(ctx, x.X, ""), func(l *ptLoc) { a.copy(to, a.content(l, q)) })
			}
			a.access(ctx, fn, in, a.val(ctx, x.X, ""), "", false, "read")
		case token.ARROW:
			a.opaque(ctx, fn, in, x)
		}
	case *ssa.Store:
		for _, q := range leaves(x.Val.Type()) {
			q := q
			from := a.val(ctx, x.Val, q)
			a.on(a.val(ctx, x.Addr, ""), func(l *ptLoc) { a.copy(a.content(l, q), from) })
		}
		a.access(ctx, fn, in, a.val(ctx, x.Addr, ""), "", true, "write")
	case *ssa.MapUpdate:
		for _, q := range leaves(x.Key.Type()) {
			q, from := q, a.val(ctx, x.Key, q)
			a.on(a.val(ctx, x.Map, ""), func(l *ptLoc) { a.copy(a.content(l, "^K"+q), from) })
		}
		for _, q := range leaves(x.Value.Type()) {
			q, from := q, a.val(ctx, x.Value, q)
			a.on(a.val(ctx, x.Map, ""), func(l *ptLoc) { a.copy(a.content(l, "^V"+q), from) })
		}
		a.access(ctx, fn, in, a.val(ctx, x.Map, ""), "^V", true, "map write")
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		for _, q := range leaves(m.Elem()) {
			q := q
			to := a.val(ctx, x, pre+q)
			a.on(a.val(ctx, x.X, ""), func(l *ptLoc) { a.copy(to, a.content(l, "^V"+q)) })
		}
		a.access(ctx, fn, in, a.val(ctx, x.X, ""), "^V", false, "map read")
	case *ssa.Range:
		a.copy(a.val(ctx, x, ""), a.val(ctx, x.X, ""))
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.access(ctx, fn, in, a.val(ctx, x.X, ""), "^V", false, "map range")
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		rg := x.Iter.(*ssa.Range)
		m, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for _, q := range leaves(m.Key()) {
			q := q
			to := a.val(ctx, x, "#1"+q)
			a.on(a.val(ctx, rg, ""), func(l *ptLoc) { a.copy(to, a.content(l, "^K"+q)) })
		}
		for _, q := range leaves(m.Elem()) {
			q := q
			to := a.val(ctx, x, "#2"+q)
			a.on(a.val(ctx, rg, ""), func(l *ptLoc) { a.copy(to, a.content(l, "^V"+q)) })
		}
	case *ssa.Extract:
		for _, q := range leaves(x.Type()) {
			a.copy(a.val(ctx, x, q), a.val(ctx, x.Tuple, fmt.Sprintf("#%d%s", x.Index, q)))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.assign(ctx, x, e)
		}
	case *ssa.Slice:
		if refLeaf(x.X.Type()) {
			a.copy(a.val(ctx, x, ""), a.val(ctx, x.X, ""))
		}
	case *ssa.ChangeType:
		a.assign(ctx, x, x.X)
	case *ssa.ChangeInterface:
		a.assign(ctx, x, x.X)
	case *ssa.SliceToArrayPointer:
		a.copy(a.val(ctx, x, ""), a.val(ctx, x.X, ""))
	case *ssa.Convert, *ssa.MultiConvert:
		v := in.(ssa.Value)
		if refLeaf(v.Type()) {
			o := a.obj(ctx, x, 0, "alloc", v.Type(), fn, v.Pos())
			a.add(a.val(ctx, v, ""), a.loc(o, ""))
		}
		var from ssa.Value
		if c, ok := x.(*ssa.Convert); ok {
			from = c.X
		} else {
			from = x.(*ssa.MultiConvert).X
		}
		if refLeaf(from.Type()) {
			a.access(ctx, fn, in, a.val(ctx, from, ""), "[]", false, "read")
		}
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			it := x.AssertedType.Underlying().(*types.Interface)
			to := a.val(ctx, x, pre)
			a.on(a.val(ctx, x.X, ""), func(l *ptLoc) {
				if l.o.kind != "box" || types.Implements(l.o.typ, it) {
					a.add(to, l)
				}
			})
			return
		}
		for _, q := range leaves(x.AssertedType) {
			q := q
			to := a.val(ctx, x, pre+q)
			lt := typeAt(x.AssertedType, q)
			a.on(a.val(ctx, x.X, ""), func(l *ptLoc) {
				switch {
				case l.o.kind == "box":
					if types.Identical(l.o.typ, x.AssertedType) {
						a.copy(to, a.content(l, q))
					}
				case l.o.kind == "user":
					a.add(to, a.userLoc(lt))
				default:
					a.add(to, l)
				}
			})
		}
	case *ssa.Call:
		a.call(ctx, fn, x, x)
	case *ssa.Defer:
		a.call(ctx, fn, x, nil)
	case *ssa.Go:
		a.call(ctx, fn, x, nil)
	}
}

// opaque gives a value made outside of the analysed code.
func (a *pointsTo) opaque(ctx int, fn *ssa.Function, site any, v ssa.Value) {
	for i, q := range leaves(v.Type()) {
		o := a.obj(ctx, site, 100+i, "ext", v.Type(), fn, v.Pos())
		a.add(a.val(ctx, v, q), a.loc(o, ""))
	}
}

func (a *pointsTo) bindFree(o *ptObj, ctx int) {
	k := fmt.Sprint("free", o.id, ctx)
	if a.bound[k] {
		return
	}
	a.bound[k] = true
	for i, b := range o.free {
		fv := o.fn.FreeVars[i]
		for _, q := range leaves(fv.Type()) {
			a.copy(a.val(ctx, fv, q), a.val(o.fctx, b, q))
		}
	}
}

// enter binds a call to a function with a body.
func (a *pointsTo) enter(ctx int, caller *ssa.Function, in ssa.CallInstruction, res ssa.Value, callee *ssa.Function, args []ssa.Value, recv func(pr ssa.Value), o *ptObj, cctx int) {
	k := fmt.Sprint("call", ctx, cctx, callee, recv != nil, o != nil && o.free != nil)
	_ = k
	ck := ptFn{cctx, callee}
	if a.callees[in] == nil {
		a.callees[in] = map[ptFn]bool{}
	}
	known := a.callees[in][ck]
	if !known || ctx != cctx {
		dup := false
		for _, c := range a.callers[ck] {
			if c.in == in && c.caller.ctx == ctx {
				dup = true
			}
		}
		if !dup {
			a.callers[ck] = append(a.callers[ck], ptCall{ptFn{ctx, caller}, in})
		}
	}
	a.callees[in][ck] = true
	a.function(cctx, callee)
	if o != nil && o.free != nil {
		a.bindFree(o, cctx)
	}
	ps := callee.Params
	if recv != nil {
		recv(ps[0])
		ps = ps[1:]
	}
	for i, pr := range ps {
		if i >= len(args) || args[i] == nil {
			for _, q := range leaves(pr.Type()) {
				o := a.obj(cctx, in, 200+i, "ext", pr.Type(), caller, in.Pos())
				a.add(a.val(cctx, pr, q), a.loc(o, ""))
			}
			continue
		}
		for _, q := range leaves(pr.Type()) {
			a.copy(a.val(cctx, pr, q), a.val(ctx, args[i], q))
		}
	}
	if res != nil {
		for _, b := range callee.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i, v := range ret.Results {
				pre := ""
				if len(ret.Results) > 1 {
					pre = fmt.Sprintf("#%d", i)
				}
				for _, q := range leaves(v.Type()) {
					a.copy(a.val(ctx, res, pre+q), a.val(cctx, v, q))
				}
			}
		}
	}
}

func (a *pointsTo) call(ctx int, fn *ssa.Function, in ssa.CallInstruction, res ssa.Value) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(ctx, fn, in, b, res)
		return
	}
	if c.IsInvoke() {
		var inst func(l *ptLoc)
		inst = func(l *ptLoc) {
			switch l.o.kind {
			case "box":
				m := a.p.ssa.LookupMethod(l.o.typ, c.Method.Pkg(), c.Method.Name())
				if m == nil {
					return
				}
				if !a.inScope(m) {
					a.external(ctx, fn, in, m, res, append([]ssa.Value{nil}, c.Args...), a.content(l, ""))
					return
				}
				a.enter(ctx, fn, in, res, m, c.Args, func(pr ssa.Value) {
					for _, q := range leaves(pr.Type()) {
						a.copy(a.val(ctx, pr, q), a.content(l, q))
					}
				}, nil, ctx)
			case "user":
				it, _ := c.Value.Type().Underlying().(*types.Interface)
				for _, m := range a.methods {
					if m.Name() != c.Method.Name() || it == nil || !types.Implements(m.Signature.Recv().Type(), it) {
						continue
					}
					a.enter(ctx, fn, in, res, m, c.Args, func(pr ssa.Value) {
						for _, q := range leaves(pr.Type()) {
							a.add(a.val(ctx, pr, q), a.userLoc(typeAt(pr.Type(), q)))
						}
					}, nil, ctx)
				}
				if res != nil {
					for _, q := range leaves(res.Type()) {
						if t := typeAtTuple(res.Type(), q); t != nil {
							a.add(a.val(ctx, res, q), a.userLoc(t))
						}
					}
				}
			default:
				if res != nil {
					a.opaque(ctx, fn, in, res)
				}
			}
		}
		a.on(a.val(ctx, c.Value, ""), inst)
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			o := a.obj(ctx, mc, 0, "func", mc.Type(), f, mc.Pos())
			o.free, o.fctx = mc.Bindings, ctx
			a.enter(ctx, fn, in, res, f, c.Args, nil, o, ctx)
			return
		}
		if a.inScope(f) {
			a.enter(ctx, fn, in, res, f, c.Args, nil, nil, ctx)
			return
		}
		a.external(ctx, fn, in, f, res, c.Args, nil)
		return
	}
	a.on(a.val(ctx, c.Value, ""), func(l *ptLoc) {
		switch l.o.kind {
		case "func":
			if a.inScope(l.o.fn) {
				a.enter(ctx, fn, in, res, l.o.fn, c.Args, nil, l.o, ctx)
			} else {
				a.external(ctx, fn, in, l.o.fn, res, c.Args, nil)
			}
		case "user":
			if res != nil {
				for _, q := range leaves(res.Type()) {
					if t := typeAtTuple(res.Type(), q); t != nil {
						a.add(a.val(ctx, res, q), a.userLoc(t))
					}
				}
			}
		default:
			if res != nil {
				a.opaque(ctx, fn, in, res)
			}
		}
	})
}

func typeAtTuple(t types.Type, q string) types.Type {
	if tu, ok := t.(*types.Tuple); ok {
		var i int
		fmt.Sscanf(q, "#%d", &i)
		return typeAt(tu.At(i).Type(), strings.TrimPrefix(q, fmt.Sprintf("#%d", i)))
	}
	return typeAt(t, q)
}

func (a *pointsTo) builtin(ctx int, fn *ssa.Function, in ssa.CallInstruction, b *ssa.Builtin, res ssa.Value) {
	args := in.Common().Args
	node := func(i int) *ptNode { return a.val(ctx, args[i], "") }
	switch b.Name() {
	case "append":
		et := res.Type().Underlying().(*types.Slice).Elem()
		o := a.obj(ctx, in, 0, "alloc", res.Type(), fn, in.Pos())
		to := a.val(ctx, res, "")
		a.add(to, a.loc(o, ""))
		a.copy(to, node(0))
		if _, isStr := args[1].Type().Underlying().(*types.Basic); !isStr {
			for _, q := range leaves(et) {
				q := q
				tmp := a.newNode()
				a.on(node(1), func(l *ptLoc) { a.copy(tmp, a.content(l, "[]"+q)) })
				a.on(to, func(l *ptLoc) { a.copy(a.content(l, "[]"+q), tmp) })
			}
			a.access(ctx, fn, in, node(1), "[]", false, "read")
		}
		if !fullSlice(args[0]) && !emptyConst(args[1]) {
			a.access(ctx, fn, in, node(0), "[]", true, "append to")
		} else {
			a.access(ctx, fn, in, node(0), "[]", false, "read")
		}
	case "copy":
		if _, isStr := args[1].Type().Underlying().(*types.Basic); !isStr {
			for _, q := range leaves(args[0].Type().Underlying().(*types.Slice).Elem()) {
				q := q
				tmp := a.newNode()
				a.on(node(1), func(l *ptLoc) { a.copy(tmp, a.content(l, "[]"+q)) })
				a.on(node(0), func(l *ptLoc) { a.copy(a.content(l, "[]"+q), tmp) })
			}
			a.access(ctx, fn, in, node(1), "[]", false, "read")
		}
		a.access(ctx, fn, in, node(0), "[]", true, "copy to")
	case "delete":
		a.access(ctx, fn, in, node(0), "^V", true, "delete from")
	case "clear":
		if _, ok := args[0].Type().Underlying().(*types.Map); ok {
			a.access(ctx, fn, in, node(0), "^V", true, "clear of")
		} else {
			a.access(ctx, fn, in, node(0), "[]", true, "clear of")
		}
	case "recover":
		if res != nil {
			a.opaque(ctx, fn, in, res)
		}
	}
}

// fullSlice: the slice has no room behind its end, so appending copies it.
func fullSlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		return x.Max != nil && x.High != nil && x.Max == x.High
	}
	return false
}

func emptyConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// external binds a call to a function outside of the analysed code.
func (a *pointsTo) external(ctx int, fn *ssa.Function, in ssa.CallInstruction, f *ssa.Function, res ssa.Value, args []ssa.Value, recv *ptNode) {
	a.extCall[in] = f
	name := f.String()
	node := func(i int) *ptNode {
		if args[i] == nil {
			return recv
		}
		return a.val(ctx, args[i], "")
	}
	runFn := func(i int, cctx int) {
		a.on(node(i), func(l *ptLoc) {
			if l.o.kind == "func" && a.inScope(l.o.fn) {
				a.enter(ctx, fn, in, nil, l.o.fn, nil, nil, l.o, cctx)
			}
		})
	}
	switch name {
	case "(*sync.Pool).Put":
		from := a.val(ctx, args[1], "")
		a.on(node(0), func(l *ptLoc) { a.copy(a.content(l, "^pool"), from) })
		return
	case "(*sync.Pool).Get":
		to := a.val(ctx, res, "")
		a.on(node(0), func(l *ptLoc) {
			a.copy(to, a.content(l, "^pool"))
			a.on(a.content(l, ".New"), func(fl *ptLoc) {
				if fl.o.kind == "func" && a.inScope(fl.o.fn) {
					a.enter(ctx, fn, in, res, fl.o.fn, nil, nil, fl.o, ctx)
				}
			})
		})
		return
	case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync/atomic.Value).Store", "(*sync/atomic.Value).Swap":
		from := a.val(ctx, args[len(args)-1], "")
		a.on(node(0), func(l *ptLoc) { a.copy(a.content(l, "^V"), from) })
	}
	switch name {
	case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync.Map).Swap", "(*sync/atomic.Value).Load", "(*sync/atomic.Value).Swap":
		if res != nil {
			pre := ""
			if _, ok := res.Type().(*types.Tuple); ok {
				pre = "#0"
			}
			to := a.val(ctx, res, pre)
			a.on(node(0), func(l *ptLoc) { a.copy(to, a.content(l, "^V")) })
		}
		return
	case "(*sync.Once).Do":
		runFn(1, ctxInit)
		return
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return
	}
	if res != nil {
		a.opaque(ctx, fn, in, res)
	}
	for i, arg := range args {
		var t types.Type
		if arg == nil {
			t = f.Signature.Recv().Type()
		} else {
			t = arg.Type()
		}
		if !refLeaf(t) {
			continue
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			c := ctx
			if strings.HasPrefix(name, "sync.OnceValue") || name == "sync.OnceFunc" {
				c = ctxInit
			}
			runFn(i, c)
		}
		// results of the type of an argument may be this argument
		if res != nil {
			for _, q := range leaves(res.Type()) {
				if rt := typeAtTuple(res.Type(), q); rt != nil && types.Identical(rt, t) {
					a.copy(a.val(ctx, res, q), node(i))
				}
			}
		}
		if extMutates(f, i) {
			n := node(i)
			if _, ok := t.Underlying().(*types.Interface); ok {
				m := a.newNode()
				a.on(n, func(l *ptLoc) {
					if l.o.kind == "box" {
						a.copy(m, a.content(l, ""))
					}
				})
				n = m
			}
			path := ""
			if _, ok := t.Underlying().(*types.Slice); ok {
				path = "[]"
			}
			a.access(ctx, fn, in, n, path, true, "call of "+f.Name()+" on")
		} else {
			path := ""
			switch t.Underlying().(type) {
			case *types.Slice:
				path = "[]"
			case *types.Map:
				path = "^V"
			}
			a.access(ctx, fn, in, node(i), path, false, "read")
		}
	}
}

// extMutates reports whether a library function may write to its i-th argument (the receiver first).
func extMutates(f *ssa.Function, i int) bool {
	pk := fnPkg(f)
	if r := f.Signature.Recv(); r != nil {
		if i > 0 {
			return strings.HasPrefix(f.Name(), "Read") || f.Name() == "Decode" || f.Name() == "Scan"
		}
		if ptrElem(r.Type()) == nil {
			return false
		}
		rt := strings.TrimPrefix(r.Type().String(), "*")
		switch {
		case strings.HasPrefix(rt, "sync"):
			return false
		case rt == "regexp.Regexp":
			return f.Name() == "Longest" || strings.HasPrefix(f.Name(), "Unmarshal")
		case rt == "bytes.Buffer", rt == "strings.Builder":
			switch f.Name() {
			case "String", "Len", "Cap", "Bytes", "Available", "AvailableBuffer":
				return false
			}
		case rt == "strings.Reader", rt == "bytes.Reader":
			switch f.Name() {
			case "Len", "Size":
				return false
			}
		case rt == "strings.Replacer", rt == "time.Location", strings.HasPrefix(rt, "os."), strings.HasPrefix(rt, "errors."):
			return false
		}
		return true
	}
	n := f.Name()
	if j := strings.IndexByte(n, '['); j >= 0 {
		n = n[:j]
	}
	switch pk {
	case "sort":
		return i == 0 && !strings.HasPrefix(n, "Search") && !strings.Contains(n, "Sorted") && !strings.HasPrefix(n, "Find")
	case "slices":
		switch n {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Insert", "Delete", "DeleteFunc", "Compact", "CompactFunc", "Replace", "Grow", "AppendSeq":
			return i == 0
		}
	case "maps":
		return i == 0 && (n == "Copy" || n == "DeleteFunc" || n == "Insert")
	case "io":
		return n == "ReadFull" || n == "ReadAtLeast" || strings.HasPrefix(n, "Copy") || n == "ReadAll" && i == 0 || n == "WriteString" && i == 0
	case "fmt":
		return strings.HasPrefix(n, "F") && i == 0 || strings.Contains(n, "scan") || strings.HasPrefix(n, "Scan")
	case "encoding/json":
		return n == "Unmarshal" && i == 1
	case "sync/atomic":
		return false
	}
	return false
}

// reach lists the objects reachable from the locations, without what pools hold.
func (a *pointsTo) reach(start []*ptLoc) map[*ptObj]string {
	out := map[*ptObj]string{}
	work := []*ptObj{}
	for _, l := range start {
		if _, ok := out[l.o]; !ok {
			out[l.o] = l.path
			work = append(work, l.o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		var nodes []*ptNode
		for _, path := range sortedKeys(o.cont) {
			if !strings.Contains(path, "^pool") {
				nodes = append(nodes, o.cont[path])
			}
		}
		if o.kind == "func" {
			for _, b := range o.free {
				for _, q := range leaves(b.Type()) {
					nodes = append(nodes, a.val(o.fctx, b, q))
				}
			}
		}
		for _, n := range nodes {
			for l := range n.pts {
				if _, ok := out[l.o]; !ok {
					out[l.o] = ""
					work = append(work, l.o)
				}
			}
		}
	}
	return out
}
