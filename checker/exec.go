package main

// Path-sensitive abstract interpretation over go/ssa. Functions of the
// repository are interpreted in the term domain (term.go); loops are
// summarised (loop.go), calls are inlined, modelled (model.go) or kept as
// opaque units/events. No code of the repository is run and no solver is used.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ev struct {
	kind string // call, store, mapupdate, loop, hazard, panic, go, lock...
	name string
	args []*T
	res  *T
	lp   *Loop
	hi   int
	pos  token.Pos
	fn   *ssa.Function
	nf   int // number of facts known when the event happened
}

func (e *Ev) String() string {
	if e.kind == "loop" {
		return fmt.Sprintf("loop%d@%d", e.lp.id, e.hi)
	}
	var as []string
	for _, a := range e.args {
		as = append(as, a.String())
	}
	return e.kind + ":" + e.name + "(" + strings.Join(as, ", ") + ")"
}

type St struct {
	mem   map[*T]*T
	facts []*T
	fset  map[*T]bool
	ev    []*Ev
	pan   *T // current panic value (interface) while unwinding
	ncell int
}

func newSt() *St { return &St{mem: map[*T]*T{}, fset: map[*T]bool{}} }

func (s *St) clone() *St {
	n := &St{mem: make(map[*T]*T, len(s.mem)+4), fset: make(map[*T]bool, len(s.fset)+2), pan: s.pan, ncell: s.ncell}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.fset {
		n.fset[k] = true
	}
	n.facts = append(make([]*T, 0, len(s.facts)+2), s.facts...)
	n.ev = append(make([]*Ev, 0, len(s.ev)+2), s.ev...)
	return n
}

type OutKind uint8

const (
	ORet OutKind = iota
	OPanic
	OExit // process exit
)

type Outcome struct {
	st   *St
	kind OutKind
	vals []*T
	pan  *T
	pos  token.Pos
}

func (o *Outcome) val() *T {
	if len(o.vals) == 0 {
		return nil
	}
	return o.vals[0]
}

type callInfo struct {
	fn    *ssa.Function
	name  string
	recv  *T // for invoke
	args  []*T
	st    *St
	instr ssa.Instruction
	fr    *frame
	sig   *types.Signature
}

type Exec struct {
	prog      *ssa.Program
	base      map[*T]*T // initial memory (package initialisers), shared
	mutable   map[*ssa.Global]bool
	hook      func(ci *callInfo) ([]Outcome, bool)
	loopHook  func(f *frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, from *ssa.BasicBlock, p *path) ([]Outcome, []edge, bool)
	opaque    func(fn *ssa.Function) bool
	shapeOf   func(t *T) *Shape
	nonEmpty  func(t *T) bool // text terms known to be non-empty
	inRepo    func(fn *ssa.Function) bool
	covSt     *St // path on which coverage of a list is asked
	num       int
	symN      int
	steps     int
	maxSteps  int
	undec     []string
	visited   map[*ssa.Function]int
	callN     int
	hazards   bool
	quiet     int
	ptrFresh  bool
	sideMut   bool
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	active    []activeLoop
	modPath   string
	p         *Prog
	ifaceText func(ci *callInfo, x *T) *T
	objIDs    map[any]int
	loopTab   map[string]*Loop
	loopObj   map[int]*Loop
	idBase    int // keeps allocation names of package initialisers apart
}

func (e *Exec) undecided(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, u := range e.undec {
		if u == m {
			return
		}
	}
	e.undec = append(e.undec, m)
}

type Env map[ssa.Value]*T

type deferred struct {
	ci callInfo
}

type path struct {
	st     *St
	env    Env
	defers []*callInfo
}

func (p *path) clone() *path {
	n := &path{st: p.st.clone(), env: make(Env, len(p.env)+4), defers: append([]*callInfo{}, p.defers...)}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type frame struct {
	e     *Exec
	fn    *ssa.Function
	depth int
	up    *frame
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	call  ssa.Instruction
	chain string
}

type item struct {
	blk, pred *ssa.BasicBlock
	idx       int
	p         *path
	noPhi     bool
}

type edge struct {
	from, to *ssa.BasicBlock
	p        *path
}

const maxDepth = 40

// Call interprets fn on args.
func (e *Exec) Call(fn *ssa.Function, args, bind []*T, st *St, up *frame, call ssa.Instruction) []Outcome {
	if len(fn.Blocks) == 0 {
		e.undecided("no body for %s", fn)
		return nil
	}
	if e.visited != nil {
		e.visited[fn]++
	}
	fr := &frame{e: e, fn: fn, up: up, call: call}
	if up != nil {
		fr.depth = up.depth + 1
	}
	fr.loops = e.loopsOf(fn)
	p := &path{st: st, env: Env{}}
	for i, pa := range fn.Params {
		if i < len(args) {
			p.env[pa] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			p.env[fv] = bind[i]
		}
	}
	outs, backs, exits := fr.run([]item{{blk: fn.Blocks[0], p: p}}, nil, nil)
	if len(backs)+len(exits) > 0 {
		e.undecided("unstructured control flow in %s", fn)
	}
	return outs
}

func (e *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range x.Preds {
						if !body[pr] {
							body[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	if e.loops == nil {
		e.loops = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	e.loops[fn] = l
	return l
}

func (f *frame) val(p *path, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch under(v.Type()).(type) {
			case *types.Struct, *types.Array:
				return zeroOf(v.Type())
			}
			return mkNil(v.Type())
		}
		if isIntType(v.Type()) {
			if n, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
				return mkInt(n)
			}
			return mkConst(constant.ToInt(v.Value), tInt)
		}
		if isStringType(v.Type()) {
			return mkStr(constant.StringVal(v.Value))
		}
		if isBoolType(v.Type()) {
			return mkBool(constant.BoolVal(v.Value))
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return mk(&T{k: KFunc, fn: v, typ: v.Type()})
	case *ssa.Global:
		return mk(&T{k: KGlobal, g: v, typ: v.Type(), s: v.String()})
	case *ssa.Builtin:
		return mkApp("builtin:"+v.Name(), v.Type())
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	// values computed outside (should not happen)
	f.e.undecided("unknown value %s in %s", v.Name(), f.fn)
	return mkSym("?"+v.Name(), v.Type())
}

func (f *frame) run(work []item, L map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) (outs []Outcome, backs, exits []edge) {
	e := f.e
	goEdge := func(from, to *ssa.BasicBlock, p *path) {
		if L != nil {
			if to == header {
				backs = append(backs, edge{from, to, p})
				return
			}
			if !L[to] {
				exits = append(exits, edge{from, to, p})
				return
			}
		}
		if body, ok := f.loops[to]; ok && to != header {
			var o []Outcome
			var ex []edge
			unrolled := false
			if e.loopHook != nil {
				o, ex, unrolled = e.loopHook(f, to, body, from, p)
			}
			if !unrolled {
				o, ex, unrolled = f.unroll(to, body, from, p)
			}
			if !unrolled {
				o, ex = f.execLoop(to, body, from, p)
			}
			outs = append(outs, o...)
			for _, x := range ex {
				// the exit may leave enclosing loops as well
				if L != nil {
					if x.to == header {
						backs = append(backs, x)
						continue
					}
					if !L[x.to] {
						exits = append(exits, x)
						continue
					}
				}
				if _, again := f.loops[x.to]; again {
					// exit leads directly into another loop header
					work = append(work, item{blk: nil, pred: x.from, p: x.p, idx: x.to.Index})
					continue
				}
				work = append(work, item{blk: x.to, pred: x.from, p: x.p})
			}
			return
		}
		work = append(work, item{blk: to, pred: from, p: p})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.blk == nil {
			goEdge(it.pred, f.fn.Blocks[it.idx], it.p)
			continue
		}
		e.steps++
		if e.steps > e.maxSteps {
			e.undecided("path budget exhausted in %s", f.fn)
			return
		}
		p := it.p
		blk := it.blk
		i := it.idx
		if i == 0 && it.pred != nil && !it.noPhi {
			f.phis(p, blk, it.pred)
		}
		for ; i < len(blk.Instrs); i++ {
			in := blk.Instrs[i]
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				goEdge(blk, blk.Succs[0], p)
				goto next
			case *ssa.If:
				c := f.val(p, in.Cond)
				switch e.truth(p.st, c) {
				case 1:
					goEdge(blk, blk.Succs[0], p)
				case 0:
					goEdge(blk, blk.Succs[1], p)
				default:
					q := p.clone()
					if e.assume(q.st, mkNot(c)) {
						goEdge(blk, blk.Succs[1], q)
					}
					if e.assume(p.st, c) {
						goEdge(blk, blk.Succs[0], p)
					}
				}
				goto next
			case *ssa.Return:
				vals := make([]*T, len(in.Results))
				for k, r := range in.Results {
					vals[k] = f.val(p, r)
				}
				outs = append(outs, Outcome{st: p.st, kind: ORet, vals: vals, pos: in.Pos()})
				goto next
			case *ssa.Panic:
				outs = append(outs, f.unwind(p, f.val(p, in.X), in.Pos())...)
				goto next
			case *ssa.RunDefers:
				ps, os := f.runDefers(p)
				outs = append(outs, os...)
				for _, q := range ps {
					work = append(work, item{blk: blk, idx: i + 1, p: q, noPhi: true})
				}
				if i+1 >= len(blk.Instrs) {
					e.undecided("rundefers at end of block")
				}
				goto next
			case *ssa.Defer:
				ci := f.callInfo(p, in, &in.Call)
				p.defers = append(p.defers, ci)
				continue
			case *ssa.Go:
				ci := f.callInfo(p, in, &in.Call)
				e.event(p.st, &Ev{kind: "go", name: ci.name, args: ci.args, pos: in.Pos(), fn: f.fn})
				continue
			case *ssa.Call:
				ci := f.callInfo(p, in, &in.Call)
				ci.st = p.st
				ros := e.call(ci)
				if len(ros) == 1 && ros[0].kind == ORet {
					p.st = ros[0].st
					f.bindResult(p, in, ros[0].vals)
					continue
				}
				for k := range ros {
					o := ros[k]
					q := p
					if k < len(ros)-1 {
						q = &path{env: make(Env, len(p.env)+2), defers: append([]*callInfo{}, p.defers...)}
						for a, b := range p.env {
							q.env[a] = b
						}
					}
					q.st = o.st
					switch o.kind {
					case ORet:
						f.bindResult(q, in, o.vals)
						work = append(work, item{blk: blk, idx: i + 1, p: q, noPhi: true})
						if i+1 == 0 {
							panic("x")
						}
					case OPanic:
						outs = append(outs, f.unwind(q, o.pan, in.Pos())...)
					case OExit:
						outs = append(outs, o)
					}
				}
				goto next
			case *ssa.TypeAssert:
				x := f.val(p, in.X)
				res := f.typeAssert(p, in, x)
				if len(res) == 1 && res[0].ok {
					p = res[0].p
					p.env[in] = res[0].v
					continue
				}
				for _, r := range res {
					if !r.ok {
						outs = append(outs, f.unwind(r.p, mkApp("typeAssertionPanic", nil, x), in.Pos())...)
						continue
					}
					r.p.env[in] = r.v
					work = append(work, item{blk: blk, idx: i + 1, p: r.p, noPhi: true})
				}
				goto next
			case *ssa.Lookup:
				res := f.lookup(p, in)
				if len(res) == 1 {
					p = res[0]
					continue
				}
				for _, q := range res {
					work = append(work, item{blk: blk, idx: i + 1, p: q, noPhi: true})
				}
				goto next
			default:
				f.simple(p, in)
			}
		}
	next:
	}
	return
}

func (f *frame) bindResult(p *path, in *ssa.Call, vals []*T) {
	n := in.Call.Signature().Results().Len()
	switch {
	case n == 0:
	case n == 1:
		if len(vals) == 1 {
			p.env[in] = vals[0]
		} else {
			p.env[in] = mkSym("?", in.Type())
		}
	default:
		p.env[in] = mk(&T{k: KTuple, a: vals})
	}
}

func (f *frame) phis(p *path, blk, pred *ssa.BasicBlock) {
	pi := -1
	for i, b := range blk.Preds {
		if b == pred {
			pi = i
		}
	}
	var vs []*T
	var ph []*ssa.Phi
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, phi)
		vs = append(vs, f.val(p, phi.Edges[pi]))
	}
	for i := range ph {
		p.env[ph[i]] = vs[i]
	}
}

// unwind runs the deferred calls of a panicking path.
func (f *frame) unwind(p *path, pv *T, pos token.Pos) []Outcome {
	p.st.pan = pv
	if len(p.defers) == 0 {
		return []Outcome{{st: p.st, kind: OPanic, pan: pv, pos: pos}}
	}
	ps, outs := f.runDefers(p)
	for _, q := range ps {
		if q.st.pan != nil {
			outs = append(outs, Outcome{st: q.st, kind: OPanic, pan: q.st.pan, pos: pos})
			continue
		}
		if f.fn.Recover == nil {
			vals := []*T{}
			res := f.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				vals = append(vals, zeroOf(res.At(i).Type()))
			}
			outs = append(outs, Outcome{st: q.st, kind: ORet, vals: vals, pos: pos})
			continue
		}
		o, _, _ := f.run([]item{{blk: f.fn.Recover, p: q}}, nil, nil)
		outs = append(outs, o...)
	}
	return outs
}

func (f *frame) runDefers(p *path) (done []*path, outs []Outcome) {
	work := []*path{p}
	for len(work) > 0 {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		if len(q.defers) == 0 {
			done = append(done, q)
			continue
		}
		d := *q.defers[len(q.defers)-1]
		q.defers = q.defers[:len(q.defers)-1]
		d.st = q.st
		ros := f.e.call(&d)
		for i, o := range ros {
			n := q
			if i < len(ros)-1 {
				n = &path{env: make(Env, len(q.env)), defers: append([]*callInfo{}, q.defers...)}
				for a, b := range q.env {
					n.env[a] = b
				}
			}
			n.st = o.st
			switch o.kind {
			case ORet:
			case OPanic:
				n.st.pan = o.pan
			case OExit:
				outs = append(outs, o)
				continue
			}
			work = append(work, n)
		}
	}
	return
}

type taRes struct {
	p  *path
	v  *T
	ok bool
}

func (f *frame) typeAssert(p *path, in *ssa.TypeAssert, x *T) []taRes {
	e := f.e
	c := e.typeTest(p.st, x, in.AssertedType)
	mkv := func(ok bool) *T {
		var v *T
		if ok {
			v = mkAs(x, in.AssertedType)
		} else {
			v = zeroOf(in.AssertedType)
		}
		if in.CommaOk {
			return mk(&T{k: KTuple, a: []*T{v, mkBool(ok)}})
		}
		return v
	}
	switch e.truth(p.st, c) {
	case 1:
		return []taRes{{p, mkv(true), true}}
	case 0:
		return []taRes{{p, mkv(false), in.CommaOk}}
	}
	q := p.clone()
	var rs []taRes
	if e.assume(q.st, mkNot(c)) {
		rs = append(rs, taRes{q, mkv(false), in.CommaOk})
	}
	if e.assume(p.st, c) {
		rs = append(rs, taRes{p, mkv(true), true})
	}
	return rs
}

func (e *Exec) event(st *St, ev *Ev) {
	ev.nf = len(st.facts)
	st.ev = append(st.ev, ev)
}

func (e *Exec) hazard(st *St, name string, in ssa.Instruction, fn *ssa.Function, args ...*T) {
	if e.hazards {
		e.event(st, &Ev{kind: "hazard", name: name, args: args, pos: in.Pos(), fn: fn})
	}
}

func (f *frame) simple(p *path, in ssa.Instruction) {
	e := f.e
	switch in := in.(type) {
	case *ssa.Alloc:
		a := mk(&T{k: KAddr, s: fmt.Sprintf("c%d_%s", f.site(in), in.Comment), typ: in.Type()})
		p.env[in] = a
		p.st.mem[a] = zeroOf(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		p.env[in] = e.binop(in, f.val(p, in.X), f.val(p, in.Y))
	case *ssa.UnOp:
		x := f.val(p, in.X)
		switch in.Op {
		case token.MUL:
			p.env[in] = e.load(p.st, x, in.Type(), in, f.fn)
		case token.NOT:
			p.env[in] = mkNot(x)
		case token.SUB:
			if isIntType(in.Type()) {
				p.env[in] = linScale(x, -1)
			} else {
				p.env[in] = mk(&T{k: KUn, s: "-", a: []*T{x}, typ: in.Type()})
			}
		default:
			t := mk(&T{k: KUn, s: in.Op.String(), a: []*T{x}, typ: in.Type()})
			if in.CommaOk {
				t = mk(&T{k: KTuple, a: []*T{t, mkApp("recvok", tBool, x)}})
			}
			p.env[in] = t
		}
	case *ssa.ChangeInterface:
		p.env[in] = f.val(p, in.X)
	case *ssa.ChangeType:
		x := f.val(p, in.X)
		if x.isConst() || x.k == KStruct || x.k == KSeq || isIntType(in.Type()) {
			p.env[in] = mkConv(in.Type(), x)
		} else if isSliceType(in.Type()) || isStructType(in.Type()) || isStringType(in.Type()) {
			p.env[in] = mkConv(in.Type(), x)
		} else {
			p.env[in] = x
		}
	case *ssa.Convert:
		p.env[in] = mkConv(in.Type(), e.resolve(p.st, f.val(p, in.X)))
	case *ssa.MultiConvert:
		p.env[in] = mkConv(in.Type(), f.val(p, in.X))
	case *ssa.Extract:
		t := f.val(p, in.Tuple)
		if t.k == KTuple && in.Index < len(t.a) {
			p.env[in] = t.a[in.Index]
		} else {
			p.env[in] = mkApp(fmt.Sprintf("extract%d", in.Index), in.Type(), t)
		}
	case *ssa.Field:
		st := structOf(in.X.Type())
		p.env[in] = mkField(f.val(p, in.X), st.Field(in.Field).Name(), in.Type())
	case *ssa.FieldAddr:
		st := structOf(in.X.Type().Underlying().(*types.Pointer).Elem())
		x := f.val(p, in.X)
		if e.nilable(p.st, x) {
			e.hazard(p.st, "nil-deref", in, f.fn, x)
		}
		p.env[in] = mk(&T{k: KFAddr, s: st.Field(in.Field).Name(), a: []*T{x}, typ: in.Type()})
	case *ssa.Index:
		p.env[in] = mkElem(f.val(p, in.X), f.val(p, in.Index), in.Type())
		e.boundsHazard(p.st, f.val(p, in.X), f.val(p, in.Index), in, f.fn)
	case *ssa.IndexAddr:
		x := f.val(p, in.X)
		i := f.val(p, in.Index)
		if isSliceType(in.X.Type()) {
			e.boundsHazard(p.st, x, i, in, f.fn)
		}
		p.env[in] = mkIAddr(x, i, in.Type())
	case *ssa.MakeClosure:
		var bs []*T
		for _, b := range in.Bindings {
			bs = append(bs, f.val(p, b))
		}
		p.env[in] = mk(&T{k: KClosure, fn: in.Fn.(*ssa.Function), a: bs, typ: in.Type()})
	case *ssa.MakeInterface:
		p.env[in] = mkIface(in.X.Type(), f.val(p, in.X), in.Type())
	case *ssa.MakeMap:
		m := mk(&T{k: KMap, s: fmt.Sprint(f.site(in)), typ: in.Type()})
		p.env[in] = m
		p.st.mem[m] = mkApp("mapnew", in.Type())
	case *ssa.MakeSlice:
		l := f.val(p, in.Len)
		if l.isInt() && l.int() == 0 {
			p.env[in] = mkSeq(in.Type())
			return
		}
		p.env[in] = mk(&T{k: KMake, s: fmt.Sprint(f.site(in)), a: []*T{l}, typ: in.Type()})
	case *ssa.MapUpdate:
		m := f.val(p, in.Map)
		k := f.val(p, in.Key)
		v := f.val(p, in.Value)
		e.mapUpdate(p.st, m, k, v)
		e.event(p.st, &Ev{kind: "mapupdate", args: []*T{m, k, v}, pos: in.Pos(), fn: f.fn})
	case *ssa.Slice:
		p.env[in] = f.slice(p, in)
	case *ssa.Store:
		a := f.val(p, in.Addr)
		v := f.val(p, in.Val)
		e.store(p.st, a, v, in, f.fn)
	case *ssa.Range:
		p.env[in] = mkApp("iter", nil, e.resolve(p.st, f.val(p, in.X)))
	case *ssa.Next:
		f.next(p, in)
	case *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.SliceToArrayPointer:
		if v, ok := in.(ssa.Value); ok {
			e.symN++
			p.env[v] = mkSym(fmt.Sprintf("chan%d", e.symN), v.Type())
		}
		e.event(p.st, &Ev{kind: "chan", name: fmt.Sprintf("%T", in), pos: in.Pos(), fn: f.fn})
	default:
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = mkSym("?"+v.Name(), v.Type())
		}
		e.undecided("instruction %T in %s not supported", in, f.fn)
	}
}

func mkIAddr(x, i *T, typ types.Type) *T {
	for {
		if x.k == KSub && isSliceType(x.typ) {
			i = linAdd(x.a[1], i)
			x = x.a[0]
			continue
		}
		if x.k == KConv && isSliceType(x.typ) && isSliceType(x.a[0].typ) {
			x = x.a[0]
			continue
		}
		break
	}
	return mk(&T{k: KIAddr, a: []*T{x, i}, typ: typ})
}

func (e *Exec) boundsHazard(st *St, x, i *T, in ssa.Instruction, fn *ssa.Function) {
	if !e.hazards {
		return
	}
	l := mkLen(x)
	if !(e.entailLE(st, linAddC(linSub(i, l), 1)) && e.entailLE(st, linScale(i, -1))) {
		e.hazard(st, "index", in, fn, x, i)
	}
}

func (e *Exec) nilable(st *St, x *T) bool {
	switch x.k {
	case KAddr, KFAddr, KIAddr, KGlobal:
		return false
	}
	if x.typ != nil {
		if _, ok := under(x.typ).(*types.Pointer); !ok {
			return false
		}
	}
	return e.truth(st, mkEq(x, mkNil(nil))) != 0
}

func (f *frame) slice(p *path, in *ssa.Slice) *T {
	e := f.e
	x := f.val(p, in.X)
	var base *T
	switch t := under(in.X.Type()).(type) {
	case *types.Pointer: // pointer to array
		arr := e.load(p.st, x, t.Elem(), in, f.fn)
		if arr.k == KArr {
			var us []*T
			for _, el := range arr.a {
				us = append(us, mkUnit(el))
			}
			base = mk(&T{k: KSeq, typ: in.Type(), a: us})
		} else {
			base = mkConv(in.Type(), arr)
		}
	default:
		base = x
	}
	lo := mkInt(0)
	if in.Low != nil {
		lo = f.val(p, in.Low)
	}
	hi := mkLen(base)
	if in.High != nil {
		hi = f.val(p, in.High)
	}
	if e.hazards {
		l := mkLen(base)
		if !(e.entailLE(p.st, linSub(hi, l)) && e.entailLE(p.st, linSub(lo, hi)) && e.entailLE(p.st, linScale(lo, -1))) {
			e.hazard(p.st, "slice", in, f.fn, base, lo, hi)
		}
	}
	return mkSub(base, lo, hi, in.Type())
}

func (e *Exec) binop(in *ssa.BinOp, x, y *T) *T {
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isIfaceType(in.X.Type()) && !isIfaceType(in.Y.Type()) && y.k != KIface && !y.isNil() {
			y = mkIface(in.Y.Type(), y, in.X.Type())
		}
		return mkCmp(in.Op, x, y, in.X.Type())
	}
	typ := in.Type()
	switch in.Op {
	case token.ADD:
		if isStringType(typ) {
			return mkCat(x, y)
		}
		if isIntType(typ) {
			return linAdd(x, y)
		}
	case token.SUB:
		if isIntType(typ) {
			return linSub(x, y)
		}
	case token.MUL:
		if isIntType(typ) {
			if x.isInt() {
				return linScale(y, x.int())
			}
			if y.isInt() {
				return linScale(x, y.int())
			}
		}
	}
	if x.isConst() && y.isConst() && x.cv != nil && y.cv != nil && isIntType(typ) {
		switch in.Op {
		case token.QUO:
			if y.int() != 0 {
				return mkInt(x.int() / y.int())
			}
		case token.REM:
			if y.int() != 0 {
				return mkInt(x.int() % y.int())
			}
		case token.AND:
			return mkInt(x.int() & y.int())
		case token.OR:
			return mkInt(x.int() | y.int())
		case token.SHL:
			return mkInt(x.int() << uint(y.int()))
		case token.SHR:
			return mkInt(x.int() >> uint(y.int()))
		}
	}
	return mk(&T{k: KBin, s: in.Op.String(), a: []*T{x, y}, typ: typ})
}

// ---- memory ----

func (e *Exec) rootVal(st *St, r *T, typ types.Type) *T {
	if v, ok := st.mem[r]; ok {
		return v
	}
	if v, ok := e.base[r]; ok {
		if r.k == KGlobal && e.mutable[r.g] {
			return mk(&T{k: KDeref, a: []*T{r}, typ: typ})
		}
		return v
	}
	return mk(&T{k: KDeref, a: []*T{r}, typ: typ})
}

func (e *Exec) load(st *St, a *T, typ types.Type, in ssa.Instruction, fn *ssa.Function) *T {
	switch a.k {
	case KFAddr:
		bt := ptrElem(a.a[0].typ)
		b := e.load(st, a.a[0], bt, in, fn)
		if isTextCell(bt) {
			return b
		}
		return mkField(b, a.s, typ)
	case KIAddr:
		if isSliceType(a.a[0].typ) {
			return e.elemAt(st, a.a[0], a.a[1], typ)
		}
		b := e.load(st, a.a[0], ptrElem(a.a[0].typ), in, fn)
		return mkElem(b, a.a[1], typ)
	}
	if e.nilable(st, a) && in != nil {
		e.hazard(st, "nil-deref", in, fn, a)
	}
	return e.rootVal(st, a, typ)
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *Exec) store(st *St, a, v *T, in ssa.Instruction, fn *ssa.Function) {
	switch a.k {
	case KFAddr:
		bt := ptrElem(a.a[0].typ)
		b := e.load(st, a.a[0], bt, nil, fn)
		e.storeRaw(st, a.a[0], setField(b, a.s, v), in, fn)
		e.noteStore(st, a, v, in, fn)
	case KIAddr:
		e.storeRaw(st, a, v, in, fn)
		e.noteStore(st, a, v, in, fn)
	default:
		st.mem[a] = v
		e.noteStore(st, a, v, in, fn)
	}
}

func rootOf(a *T) *T {
	for a.k == KFAddr || a.k == KIAddr && !isSliceType(a.a[0].typ) {
		a = a.a[0]
	}
	return a
}

func (e *Exec) noteStore(st *St, a, v *T, in ssa.Instruction, fn *ssa.Function) {
	r := rootOf(a)
	if r.k == KAddr {
		return
	}
	if r.k == KIAddr {
		x := r.a[0]
		for x.k == KSub {
			x = x.a[0]
		}
		if x.k == KMake {
			return // a list made here
		}
	}
	ev := &Ev{kind: "store", args: []*T{a, v}, fn: fn}
	if in != nil {
		ev.pos = in.Pos()
	}
	e.event(st, ev)
}

func (e *Exec) storeRaw(st *St, a, v *T, in ssa.Instruction, fn *ssa.Function) {
	switch a.k {
	case KFAddr:
		bt := ptrElem(a.a[0].typ)
		b := e.load(st, a.a[0], bt, nil, fn)
		e.storeRaw(st, a.a[0], setField(b, a.s, v), in, fn)
	case KIAddr:
		x := a.a[0]
		if isSliceType(x.typ) {
			bk := mk(&T{k: KBacking, a: []*T{x}})
			old := st.mem[bk]
			if old != nil && old.s == "filled" {
				if n := e.setAt(st, old.a[0], a.a[1], v); n != nil {
					st.mem[bk] = mkApp("filled", nil, n)
				} else {
					st.mem[bk] = mkApp("unknown", nil, old, a.a[1], v)
				}
				return
			}
			var as []*T
			if old != nil {
				as = append(as, old.a...)
				// same index written again: replace
				if n := len(as); n >= 2 && as[n-2] == a.a[1] {
					as = as[:n-2]
				}
			}
			as = append(as, a.a[1], v)
			st.mem[bk] = mkApp("upds", nil, as...)
			return
		}
		b := e.load(st, x, ptrElem(x.typ), nil, fn)
		if b.k == KArr && a.a[1].isInt() {
			es := append([]*T{}, b.a...)
			if i := a.a[1].int(); i >= 0 && int(i) < len(es) {
				es[i] = v
			}
			e.storeRaw(st, x, mk(&T{k: KArr, typ: b.typ, a: es}), in, fn)
			return
		}
		e.storeRaw(st, x, mkApp("setindex", b.typ, b, a.a[1], v), in, fn)
	default:
		st.mem[a] = v
	}
}

// elemAt reads element i of slice x, taking element stores into account.
// The updates list may start with a KLoopAcc term: "element stores of the
// running loop, one per iteration at the iteration index".
func (e *Exec) elemAt(st *St, x, i *T, typ types.Type) *T {
	for {
		if x.k == KSub && isSliceType(x.typ) {
			i = linAdd(x.a[1], i)
			x = x.a[0]
			continue
		}
		if x.k == KConv && isSliceType(x.typ) && isSliceType(x.a[0].typ) {
			x = x.a[0]
			continue
		}
		break
	}
	bk := mk(&T{k: KBacking, a: []*T{x}})
	if u := st.mem[bk]; u != nil && u.s != "upds" {
		return mkElem(e.resolve(st, x), i, typ)
	} else if u != nil {
		as := u.a
		for n := len(as) - 2; n >= 0; n -= 2 {
			if as[n].k == KLoopAcc {
				lp := as[n].lp
				if i == lp.K && !lp.done {
					continue
				}
				return mkApp("elem-after-loop", typ, as[n], x, i)
			}
			if as[n] == i {
				return as[n+1]
			}
			if e.truth(st, mkEQ0(linSub(as[n], i))) != 0 {
				return mkApp("elem-maybe", typ, u, x, i)
			}
		}
	}
	return mkElem(x, i, typ)
}

// resolve makes element stores part of a slice value.
func (e *Exec) resolve(st *St, x *T) *T {
	if x.typ == nil || !isSliceType(x.typ) {
		return x
	}
	if x.k == KSub {
		b := e.resolve(st, x.a[0])
		if b != x.a[0] {
			return mkSub(b, x.a[1], x.a[2], x.typ)
		}
		return x
	}
	bk := mk(&T{k: KBacking, a: []*T{x}})
	u := st.mem[bk]
	if u == nil {
		return x
	}
	as := u.a
	if u.s == "filled" {
		return as[0]
	}
	if u.s != "upds" {
		return mkApp("contents", x.typ, u, x)
	}
	if len(as) == 2 && as[0].k == KLoopAcc {
		return mkApp("stored", x.typ, as[0], x)
	}
	if x.k == KMake && x.a[0].isInt() && x.a[0].int() <= 64 {
		z := zeroOf(under(x.typ).(*types.Slice).Elem())
		var us []*T
		for i := int64(0); i < x.a[0].int(); i++ {
			us = append(us, mkUnit(z))
		}
		x = mk(&T{k: KSeq, typ: x.typ, a: us})
	}
	if x.k == KSeq {
		ps := append([]*T{}, x.a...)
		ok := true
		for n := 0; n+1 < len(as); n += 2 {
			if as[n].k == KLoopAcc || !as[n].isInt() {
				// last element?
				if as[n] != linAddC(mkLen(x), -1) || len(ps) == 0 {
					ok = false
					break
				}
				if ps[len(ps)-1].k == KUnit {
					ps[len(ps)-1] = mkUnit(as[n+1])
					continue
				}
				el := mkElem(x, as[n], as[n+1].typ)
				if !isStructType(as[n+1].typ) {
					ps = append(ps, mk(&T{k: KSetLast, a: []*T{as[n+1]}}))
					continue
				}
				leafDiffs(el, as[n+1], nil, func(path []string, _, v *T) {
					ps = append(ps, mk(&T{k: KSetLast, s: strings.Join(path, "."), a: []*T{v}}))
				})
				continue
			}
			i, at := as[n].int(), -1
			for j := 0; j < len(ps) && i >= 0; j++ {
				p := ps[j]
				switch {
				case p.k == KUnit:
					if i == 0 {
						at = j
					}
					i--
				case p.k != KSetLast && p.typ != nil && isSliceType(p.typ) && e.truth(st, mkEQ0(mkLen(p))) == 1:
					// nothing in this part
				case p.k != KSetLast && p.typ != nil && isSliceType(p.typ) && len(as) == 2 && e.truth(st, mkLE(linAddC(linScale(mkLen(p), -1), i+1))) == 1:
					// an element of this part
					v := subst(as[1], map[*T]*T{mkElem(x, as[0], as[1].typ): mkElem(p, mkInt(i), as[1].typ)})
					ps[j] = mk(&T{k: KUpd, typ: p.typ, a: []*T{p, mkInt(i), v}})
					return mkSeq(x.typ, ps...)
				default:
					i = -1
				}
			}
			if at < 0 {
				ok = false
				break
			}
			ps[at] = mkUnit(as[n+1])
		}
		if ok {
			return mkSeq(x.typ, ps...)
		}
	}
	if len(as) == 2 && as[0] == linAddC(mkLen(x), -1) && isStructType(as[1].typ) {
		ps := []*T{x}
		leafDiffs(mkElem(x, as[0], as[1].typ), as[1], nil, func(path []string, _, v *T) {
			ps = append(ps, mk(&T{k: KSetLast, s: strings.Join(path, "."), a: []*T{v}}))
		})
		return mkSeq(x.typ, ps...)
	}
	return mk(&T{k: KUpd, typ: x.typ, a: append([]*T{x}, as...)})
}

// ---- maps ----

func (e *Exec) mapUpdate(st *St, m, k, v *T) {
	if m.k == KMap {
		old := e.mapState(st, m)
		st.mem[m] = mkApp("mapupd", nil, old, k, v)
		return
	}
	root := mk(&T{k: KBacking, a: []*T{m}})
	old := st.mem[root]
	if old == nil {
		old = mkApp("mapinit", nil, m)
	}
	st.mem[root] = mkApp("mapupd", nil, old, k, v)
}

func (e *Exec) mapState(st *St, m *T) *T {
	if m.k == KMap {
		if v, ok := st.mem[m]; ok {
			return v
		}
		if v, ok := e.base[m]; ok {
			return v
		}
		return mkApp("mapnew", nil)
	}
	root := mk(&T{k: KBacking, a: []*T{m}})
	if v := st.mem[root]; v != nil {
		return v
	}
	return mkApp("mapinit", nil, m)
}

type mapRes struct {
	v, ok *T
	st    *St
}

// mapLookup decides a lookup, splitting over the known constant keys.
func (e *Exec) mapLookup(st *St, m, k *T, vt types.Type) []mapRes {
	cur := e.mapState(st, m)
	for {
		switch {
		case cur.k == KApp && cur.s == "mapupd":
			switch e.truth(st, mkCmp(token.EQL, cur.a[1], k, nil)) {
			case 1:
				return []mapRes{{cur.a[2], tTrue, st}}
			case 0:
				cur = cur.a[0]
				continue
			}
			c := mkCmp(token.EQL, k, cur.a[1], nil)
			// split on this key
			s1 := st.clone()
			var out []mapRes
			if e.assume(s1, c) {
				out = append(out, mapRes{cur.a[2], tTrue, s1})
			}
			if e.assume(st, mkNot(c)) {
				out = append(out, e.mapLookup(st, m, k, vt)...)
			}
			return out
		case cur.k == KApp && cur.s == "mapdel":
			switch e.truth(st, mkCmp(token.EQL, cur.a[1], k, nil)) {
			case 1:
				return []mapRes{{zeroOf(vt), tFalse, st}}
			case 0:
				cur = cur.a[0]
				continue
			}
			return []mapRes{{mkApp("mapget", vt, cur, k), mkApp("maphas", tBool, cur, k), st}}
		case cur.k == KApp && cur.s == "mapnew":
			return []mapRes{{zeroOf(vt), tFalse, st}}
		default:
			return []mapRes{{mkApp("mapget", vt, cur, k), mkApp("maphas", tBool, cur, k), st}}
		}
	}
}

func (f *frame) lookup(p *path, in *ssa.Lookup) []*path {
	e := f.e
	x := f.val(p, in.X)
	k := f.val(p, in.Index)
	if isStringType(in.X.Type()) {
		p.env[in] = mkElem(x, k, in.Type())
		e.boundsHazard(p.st, x, k, in, f.fn)
		return []*path{p}
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	var rs []mapRes
	if x.isNil() {
		rs = []mapRes{{zeroOf(vt), tFalse, p.st}}
	} else {
		rs = e.mapLookup(p.st, x, k, vt)
	}
	var out []*path
	for i, r := range rs {
		q := p
		if i < len(rs)-1 {
			q = &path{env: make(Env, len(p.env)), defers: append([]*callInfo{}, p.defers...)}
			for a, b := range p.env {
				q.env[a] = b
			}
		}
		q.st = r.st
		if in.CommaOk {
			q.env[in] = mk(&T{k: KTuple, a: []*T{r.v, r.ok}})
		} else {
			q.env[in] = r.v
		}
		out = append(out, q)
	}
	return out
}

func (f *frame) next(p *path, in *ssa.Next) {
	it := f.val(p, in.Iter)
	var x *T
	if it.k == KApp && it.s == "iter" {
		x = it.a[0]
	} else {
		x = mkSym("?iter", nil)
	}
	// innermost running loop of this frame
	lp := f.e.curLoop(f, in.Block())
	var K *T
	if lp != nil {
		K = lp.K
	} else {
		K = mkInt(0)
	}
	tup := in.Type().(*types.Tuple)
	if in.IsString {
		n := mkApp("runecount", tInt, x)
		ok := mkLE(linAddC(linSub(K, n), 1))
		p.env[in] = mk(&T{k: KTuple, a: []*T{ok, mkApp("runepos", tInt, x, K), mkApp("runeat", tInt, x, K)}})
		return
	}
	ms := f.e.mapState(p.st, x)
	n := mkApp("mapcount", tInt, ms)
	ok := mkLE(linAddC(linSub(K, n), 1))
	k := mkApp("mapkey", tup.At(1).Type(), ms, K)
	v := mkApp("mapval", tup.At(2).Type(), ms, K)
	p.env[in] = mk(&T{k: KTuple, a: []*T{ok, k, v}})
}

// ---- facts ----

func (e *Exec) assume(st *St, c *T) bool {
	switch e.truth(st, c) {
	case 1:
		return true
	case 0:
		return false
	}
	st.facts = append(st.facts, c)
	st.fset[c] = true
	return true
}

func (e *Exec) truth(st *St, c *T) int {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return 0
	}
	if c.isBoolConst() {
		if constant.BoolVal(c.cv) {
			return 1
		}
		return 0
	}
	if st.fset[c] {
		return 1
	}
	if st.fset[mkNot(c)] {
		return 0
	}
	switch c.k {
	case KNot:
		r := e.truth(st, c.a[0])
		if r < 0 {
			return -1
		}
		return 1 - r
	case KCmp:
		switch c.s {
		case "<=0":
			if e.entailLE(st, c.a[0]) {
				return 1
			}
			if e.entailLE(st, linComb(c.a[0], -1, mkInt(0), 0, 1)) {
				return 0
			}
		case "==0":
			l := c.a[0]
			if e.entailLE(st, l) && e.entailLE(st, linScale(l, -1)) {
				return 1
			}
			if e.entailLE(st, linAddC(l, 1)) || e.entailLE(st, linComb(l, -1, mkInt(0), 0, 1)) {
				return 0
			}
			if as, co, k := linParts(l); len(as) == 1 && (co[0] == 1 || co[0] == -1) {
				if set := e.constSet(as[0]); set != nil {
					v := mkInt(-k * co[0])
					if !set[v] {
						return 0
					}
					only := true
					for u := range set {
						if u != v && !st.fset[mkNot(mkEQ0(linAddC(as[0], -u.int())))] {
							only = false
						}
					}
					if only {
						return 1
					}
				}
			}
		case "==":
			x, y := c.a[0], c.a[1]
			if y.isConst() && !y.isNil() {
				for _, f := range st.facts {
					if f.k == KCmp && f.s == "==" && f.a[0] == x && f.a[1].isConst() && f.a[1] != y {
						return 0
					}
				}
				if s := e.constSet(x); s != nil {
					if _, ok := s[y]; !ok {
						return 0
					}
				}
				if y.isStr() && isStringType(x.typ) {
					d := linSub(mkLen(x), mkInt(int64(len(y.str()))))
					if e.entailLE(st, linAddC(d, 1)) || e.entailLE(st, linComb(d, -1, mkInt(0), 0, 1)) {
						return 0
					}
				}
			}
			if y.isNil() && x.typ != nil && isIfaceType(x.typ) {
				for _, f := range st.facts {
					if f.k == KTypeIs && f.a[0] == x {
						return 0
					}
				}
				if e.shapeOf != nil {
					if sh := e.shapeOf(x); sh != nil {
						ts := sh.dynTypes()
						hasNil, hasOther := false, false
						for _, t := range ts {
							if t == nil {
								hasNil = true
							} else if !st.fset[mkNot(mkTypeIs(x, t))] {
								hasOther = true
							}
						}
						if !hasNil {
							return 0
						}
						if !hasOther {
							return 1
						}
					}
				}
			}
		}
	case KTypeIs:
		return e.typeTruth(st, c.a[0], c.xt)
	}
	return -1
}

func (e *Exec) constSet(x *T) map[*T]bool {
	if e.shapeOf == nil {
		return nil
	}
	if sh := e.shapeOf(x); sh != nil && len(sh.consts) > 0 {
		return sh.consts
	}
	return nil
}

func mkTypeIs(x *T, t types.Type) *T {
	return mk(&T{k: KTypeIs, a: []*T{x}, xt: t, typ: tBool})
}

func (e *Exec) typeTest(st *St, x *T, t types.Type) *T {
	if x.k == KIface {
		if it, ok := under(t).(*types.Interface); ok {
			return mkBool(types.Implements(x.xt, it))
		}
		return mkBool(types.Identical(x.xt, t))
	}
	if x.isNil() {
		return tFalse
	}
	return mkTypeIs(x, t)
}

func satisfies(dyn, t types.Type) bool {
	if dyn == nil {
		return false
	}
	if it, ok := under(t).(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, t)
}

func (e *Exec) typeTruth(st *St, x *T, t types.Type) int {
	for _, f := range st.facts {
		if f.k == KTypeIs && f.a[0] == x && !isIfaceType(f.xt) {
			if satisfies(f.xt, t) {
				return 1
			}
			return 0
		}
		if f.k == KCmp && f.s == "==" && f.a[0] == x && f.a[1].isNil() {
			return 0
		}
	}
	if e.shapeOf != nil {
		if sh := e.shapeOf(x); sh != nil {
			yes, no := false, false
			for _, d := range sh.dynTypes() {
				if d != nil {
					excluded := false
					for _, f := range st.facts {
						if f.k == KNot && f.a[0].k == KTypeIs && f.a[0].a[0] == x && satisfies(d, f.a[0].xt) {
							excluded = true
						}
						if f.k == KTypeIs && f.a[0] == x && !satisfies(d, f.xt) {
							excluded = true
						}
					}
					if excluded {
						continue
					}
				} else if e.truth(st, mkEq(x, mkNil(nil))) == 0 {
					continue
				}
				if satisfies(d, t) {
					yes = true
				} else {
					no = true
				}
			}
			if yes && !no {
				return 1
			}
			if no && !yes || !yes && !no {
				return 0
			}
		}
	}
	// static type implements the interface and non-nil
	if it, ok := under(t).(*types.Interface); ok && x.typ != nil && isIfaceType(x.typ) {
		if types.Implements(x.typ, it) && e.truth(st, mkEq(x, mkNil(nil))) == 0 {
			return 1
		}
	}
	return -1
}

// bound of a single term
func (e *Exec) lower(st *St, t *T) (int64, bool) {
	switch t.k {
	case KLen:
		x := t.a[0]
		if x.k == KLoopAcc {
			switch x.s {
			case "N":
				return 1, true
			}
			return 0, true
		}
		if e.nonEmpty != nil && e.nonEmpty(x) {
			return 1, true
		}
		if x.k == KApp && x.s == "strings.Split" && x.a[1].isStr() && x.a[1].str() != "" {
			return 1, true
		}
		return 0, true
	case KSym:
		if strings.HasPrefix(t.s, "K#") {
			return 0, true
		}
	case KElem:
		if t.typ != nil {
			if b, ok := under(t.typ).(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return 0, true
			}
		}
	case KApp:
		switch t.s {
		case "mapcount":
			if t.a[0].k == KApp && t.a[0].s == "mapupd" {
				return 1, true
			}
			return 0, true
		case "runecount":
			return 0, true
		case "strings.Index":
			return -1, true
		}
	}
	return 0, false
}

func (e *Exec) upper(st *St, t *T) (int64, bool) {
	if t.k == KLen && t.a[0].k == KLoopAcc && t.a[0].s == "E" {
		return 0, true
	}
	return 0, false
}

// entailLE: facts imply l <= 0.
func (e *Exec) entailLE(st *St, l *T) bool {
	var ls []*T
	for _, f := range st.facts {
		if f.k == KCmp && (f.s == "<=0" || f.s == "==0") {
			ls = append(ls, f.a[0])
			if f.s == "==0" {
				ls = append(ls, linScale(f.a[0], -1))
			}
		}
	}
	if e.axiomLE(st, l) {
		return true
	}
	for _, f := range ls {
		if e.axiomLE(st, linSub(l, f)) {
			return true
		}
	}
	if len(ls) <= 24 {
		for i, f := range ls {
			for _, g := range ls[i:] {
				if e.axiomLE(st, linSub(linSub(l, f), g)) {
					return true
				}
			}
		}
	}
	// integer disequality: l <= 0 from l <= 1 ... skipped; l+c<=0 with l != 0
	for _, f := range st.facts {
		if f.k == KNot && f.a[0].k == KCmp && f.a[0].s == "==0" {
			d := f.a[0].a[0]
			// d != 0 and l == d+1 , d <= 0  =>  l <= 0 (d <= -1)
			for _, dd := range []*T{d, linScale(d, -1)} {
				if linSub(l, dd).isInt() && linSub(l, dd).int() <= 1 && linSub(l, dd).int() > 0 {
					if e.axiomLE(st, dd) {
						return true
					}
					for _, g := range ls {
						if e.axiomLE(st, linSub(dd, g)) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (e *Exec) axiomLE(st *St, l *T) bool {
	a, co, c := linParts(l)
	for i, t := range a {
		// something found in a text begins before its end
		if co[i] > 0 && t.k == KApp && t.s == "strings.Index" && t.a[1].isStr() && t.a[1].str() != "" {
			return e.axiomLE(st, linAdd(linSub(l, linScale(t, co[i])), linScale(linAddC(mkLen(t.a[0]), -1), co[i])))
		}
	}
	max := c
	for i, t := range a {
		if co[i] < 0 {
			lo, ok := e.lower(st, t)
			if !ok {
				return false
			}
			max += co[i] * lo
		} else {
			hi, ok := e.upper(st, t)
			if !ok {
				return false
			}
			max += co[i] * hi
		}
	}
	return max <= 0
}

// ---- calls ----

func (f *frame) callInfo(p *path, in ssa.Instruction, c *ssa.CallCommon) *callInfo {
	ci := &callInfo{st: p.st, instr: in, fr: f, sig: c.Signature()}
	for _, a := range c.Args {
		ci.args = append(ci.args, f.val(p, a))
	}
	if c.IsInvoke() {
		ci.recv = f.val(p, c.Value)
		ci.name = "invoke:" + c.Method.FullName()
		if ci.recv.k == KIface {
			if m := f.e.methodOf(ci.recv.xt, c.Method); m != nil {
				ci.fn = m
				ci.name = fnName(m)
				ci.args = append([]*T{ci.recv.a[0]}, ci.args...)
				ci.recv = nil
			}
		}
		return ci
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.name = "builtin:" + b.Name()
		return ci
	}
	if fn := c.StaticCallee(); fn != nil {
		ci.fn = fn
		ci.name = fnName(fn)
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			t := f.val(p, c.Value)
			ci.recv = t
		}
		return ci
	}
	t := f.val(p, c.Value)
	ci.recv = t
	switch t.k {
	case KFunc, KClosure:
		ci.fn = t.fn
		ci.name = fnName(t.fn)
	default:
		ci.name = "dyn"
	}
	return ci
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Exec) call(ci *callInfo) []Outcome {
	if e.hook != nil {
		if o, ok := e.hook(ci); ok {
			return o
		}
	}
	if o, ok := e.model(ci); ok {
		return o
	}
	if ci.fn != nil && len(ci.fn.Blocks) > 0 && e.inRepo(ci.fn) {
		if (e.opaque == nil || !e.opaque(ci.fn)) && !e.recursive(ci) {
			var bind []*T
			if ci.recv != nil && ci.recv.k == KClosure {
				bind = ci.recv.a
			}
			return e.Call(ci.fn, ci.args, bind, ci.st, ci.fr, ci.instr)
		}
	}
	return e.opaqueCall(ci, false)
}

func (e *Exec) recursive(ci *callInfo) bool {
	n := 0
	for f := ci.fr; f != nil; f = f.up {
		if f.fn == ci.fn {
			return true
		}
		n++
	}
	return n > maxDepth
}

// opaqueCall: the call becomes an event; its results are either pure terms of
// the arguments or unique result symbols.
func (e *Exec) opaqueCall(ci *callInfo, pure bool) []Outcome {
	name := ci.name
	args := ci.args
	if ci.recv != nil {
		args = append([]*T{ci.recv}, args...)
	}
	for i := range args {
		args[i] = e.resolve(ci.st, args[i])
	}
	res := ci.sig.Results()
	var vals []*T
	if pure {
		for i := 0; i < res.Len(); i++ {
			n := name
			if res.Len() > 1 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			vals = append(vals, mkApp(n, res.At(i).Type(), args...))
		}
		return []Outcome{{st: ci.st, vals: vals}}
	}
	e.callN++
	ev := &Ev{kind: "call", name: name, args: args}
	if ci.instr != nil {
		ev.pos = ci.instr.Pos()
	}
	if ci.fr != nil {
		ev.fn = ci.fr.fn
	}
	id := e.callN
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, mk(&T{k: KRes, s: fmt.Sprintf("%s#%d.%d", name, id, i), typ: res.At(i).Type(), a: args}))
	}
	if len(vals) > 0 {
		ev.res = mk(&T{k: KTuple, a: vals})
	}
	e.event(ci.st, ev)
	// memory reachable through pointer arguments is unknown afterwards
	for i, a := range args {
		switch a.k {
		case KAddr, KFAddr:
			r := rootOf(a)
			ci.st.mem[r] = mk(&T{k: KRes, s: fmt.Sprintf("havoc#%d.%d", id, i), typ: ptrElem(r.typ)})
		}
	}
	return []Outcome{{st: ci.st, vals: vals}}
}

// ---- helpers for the rules ----

func factsString(fs []*T) string {
	var ss []string
	for _, f := range fs {
		ss = append(ss, f.String())
	}
	return strings.Join(ss, " ∧ ")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// site numbers an instruction in its calling context.
func (f *frame) site(in ssa.Instruction) int {
	return f.e.objID(fmt.Sprintf("site:%s|%d", f.chainKey(), f.e.objID(in)))
}
