package main

// Information flow: what a switch that is meant for an observer only can reach.
// Fields are high or low; a value is high when it depends on a high field, directly
// or through the branch that chose it. A high value or a branch on one must not
// reach a field that is low, a result, a panic or code outside of the package.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type flow struct {
	r       *Rep
	pkg     *ssa.Package
	fns     []*ssa.Function
	H       map[string]bool
	val     map[ssa.Value]bool
	ret     map[*ssa.Function]bool
	hi      map[*ssa.Function]bool // called under a high branch
	region  map[*ssa.Function]map[*ssa.BasicBlock]bool
	option  types.Type
	changed bool
	own     bool // the block depends on a branch of its own function
	leaks   map[string]outflow
	regions map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type outflow struct {
	fn    *ssa.Function
	pos   token.Pos
	what  string
	field string // a store to this field
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := structOf(t)
	if s == nil {
		return "?"
	}
	return typeName(t) + "." + s.Field(i).Name()
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (r *Rep) pkgFuncs(pkg *ssa.Package) (out []*ssa.Function) {
	for _, fn := range r.p.funcs {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == pkg && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return
}

func (r *Rep) flow(pkg *ssa.Package, option types.Type, fields ...string) *flow {
	f := &flow{r: r, pkg: pkg, fns: r.pkgFuncs(pkg), H: map[string]bool{}, option: option, regions: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, x := range fields {
		f.H[x] = true
	}
	return f
}

func (f *flow) run() {
	f.val, f.ret, f.hi = map[ssa.Value]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	f.region = map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	f.leaks = map[string]outflow{}
	for f.changed = true; f.changed; {
		f.changed = false
		for _, fn := range f.fns {
			f.function(fn)
		}
	}
}

func (f *flow) high(v ssa.Value) bool { return f.val[v] }

func (f *flow) mark(v ssa.Value) {
	if !f.val[v] {
		f.val[v] = true
		f.changed = true
	}
}

func (f *flow) leak(in ssa.Instruction, field, what string, a ...any) {
	l := outflow{in.Parent(), in.Pos(), fmt.Sprintf(what, a...), field}
	f.leaks[in.Parent().String()+" "+l.what] = l
}

// under is the set of blocks that are executed or not depending on the branch that ends b.
func (f *flow) under(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if x, ok := f.regions[b]; ok {
		return x
	}
	fn := b.Parent()
	// pd[x]: blocks on every way from x to the end
	n := len(fn.Blocks)
	pd := make([][]bool, n)
	for i, x := range fn.Blocks {
		pd[i] = make([]bool, n)
		for j := range pd[i] {
			pd[i][j] = len(x.Succs) > 0 || i == j
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			x := fn.Blocks[i]
			if len(x.Succs) == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				all := true
				for _, s := range x.Succs {
					all = all && pd[s.Index][j]
				}
				if v := all || i == j; v != pd[i][j] {
					pd[i][j] = v
					ch = true
				}
			}
		}
	}
	out := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if out[x] || pd[b.Index][x.Index] && x != b {
			continue
		}
		out[x] = true
		todo = append(todo, x.Succs...)
	}
	f.regions[b] = out
	return out
}

func (f *flow) function(fn *ssa.Function) {
	reg := f.region[fn]
	if reg == nil {
		reg = map[*ssa.BasicBlock]bool{}
		f.region[fn] = reg
	}
	set := func(b *ssa.BasicBlock) {
		if !reg[b] {
			reg[b] = true
			f.changed = true
		}
	}
	for _, b := range fn.Blocks {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !f.high(x.Cond) {
			continue
		}
		in := f.under(b)
		for y := range in {
			set(y)
		}
		for _, y := range fn.Blocks {
			for _, i := range y.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				// the way into y differs with the branch
				differ := false
				var first ssa.Value
				for k, q := range y.Preds {
					if in[q] || q == b {
						if first == nil {
							first = p.Edges[k]
						} else if p.Edges[k] != first && !sameConst(p.Edges[k], first) {
							differ = true
						}
					}
				}
				if differ {
					f.mark(p)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.own = reg[b]
			f.instr(in, reg[b] || f.hi[fn])
		}
	}
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.String() == y.String()
}

// cell is the variable behind an address: a key of a field, or the variable or field value itself.
func (f *flow) cell(a ssa.Value) (field string, local ssa.Value) {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if _, l := f.cell(x.X); l != nil {
				return "", l
			}
			return fieldKey(x.X.Type(), x.Field), nil
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Alloc, *ssa.FreeVar, *ssa.MakeSlice:
			return "", a
		case *ssa.Slice:
			a = x.X
		case *ssa.UnOp:
			return f.cell2(x.X)
		default:
			return "", nil
		}
	}
}

// cell2: contents of a pointer that was loaded.
func (f *flow) cell2(a ssa.Value) (string, ssa.Value) {
	if x, ok := a.(*ssa.FieldAddr); ok {
		return fieldKey(x.X.Type(), x.Field), nil
	}
	return "", nil
}

func (f *flow) callees(v ssa.Value, depth int) (out []*ssa.Function, ok bool) {
	if depth > 4 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}, true
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}, true
	case *ssa.Phi:
		for _, e := range x.Edges {
			o, ok := f.callees(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, o...)
		}
		return out, true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !f.inside(g) {
			return nil, false
		}
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(rt.Results) != 1 {
					return nil, false
				}
				o, ok := f.callees(rt.Results[0], depth+1)
				if !ok {
					return nil, false
				}
				out = append(out, o...)
			}
		}
		return out, len(out) > 0
	}
	return nil, false
}

func (f *flow) inside(fn *ssa.Function) bool {
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	return root.Pkg == f.pkg && len(fn.Blocks) > 0
}

// harmless packages: their functions have no effect but on what they are given.
var harmless = map[string]bool{"fmt": true, "strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "bytes": true, "math": true}

func (f *flow) instr(in ssa.Instruction, hi bool) {
	anyHigh := func() bool {
		for _, o := range in.Operands(nil) {
			if *o != nil && f.high(*o) {
				return true
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.Store:
		if !hi && !f.high(x.Val) && !f.high(x.Addr) {
			return
		}
		f.written(in, x.Addr)
	case *ssa.MapUpdate:
		if !hi && !f.high(x.Key) && !f.high(x.Value) && !f.high(x.Map) {
			return
		}
		if !f.high(x.Map) {
			if m, ok := x.Map.(*ssa.MakeMap); ok {
				f.mark(m)
			} else {
				f.leak(in, "", "changes the map %s", f.describe(x.Map))
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && f.H[fieldKey(fa.X.Type(), fa.Field)] {
				f.mark(x)
			}
			if _, l := f.cell(x.X); l != nil && f.high(l) {
				f.mark(x)
			}
		}
		if x.Op == token.ARROW && hi {
			f.leak(in, "", "receives from a channel")
		}
		if anyHigh() {
			f.mark(x)
		}
	case *ssa.Field:
		if f.H[fieldKey(x.X.Type(), x.Field)] || anyHigh() {
			f.mark(x)
		}
	case *ssa.Call:
		f.call(in, &x.Call, hi, x)
	case *ssa.Defer:
		f.call(in, &x.Call, hi, nil)
	case *ssa.Go:
		if hi {
			f.leak(in, "", "starts a goroutine")
		}
	case *ssa.Send:
		if hi || anyHigh() {
			f.leak(in, "", "sends on a channel")
		}
	case *ssa.Panic:
		if hi || anyHigh() {
			f.leak(in, "", "panics")
		}
	case *ssa.Return:
		fn := in.Parent()
		if (f.own && len(x.Results) > 0 || anyHigh()) && !f.ret[fn] {
			f.ret[fn] = true
			f.changed = true
		}
		if f.ret[fn] && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && !types.Identical(fn.Signature.Results().At(0).Type(), f.option) {
			f.leak(in, "", "returns another result")
		}
	case *ssa.If, *ssa.Jump, *ssa.RunDefers, *ssa.DebugRef:
	case *ssa.IndexAddr:
		if hi && !anyHigh() {
			if _, ok := x.X.(*ssa.Alloc); !ok {
				f.leak(in, "", "indexes %s", f.describe(x.X))
			}
		}
		if anyHigh() {
			f.mark(x)
		}
	case *ssa.Slice:
		if hi && !f.offsets(x) {
			if _, ok := x.X.(*ssa.Alloc); !ok {
				f.leak(in, "", "slices %s", f.describe(x.X))
			}
		}
		if anyHigh() {
			f.mark(x)
		}
	case *ssa.TypeAssert:
		if hi && !x.CommaOk {
			f.leak(in, "", "asserts the type of %s", f.describe(x.X))
		}
		if anyHigh() {
			f.mark(x)
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if i < len(fn.FreeVars) {
				if f.high(b) {
					f.mark(fn.FreeVars[i])
				}
				if f.high(fn.FreeVars[i]) {
					f.mark(b)
				}
			}
		}
	case ssa.Value:
		if anyHigh() {
			f.mark(x)
		}
	}
}

// offsets: a piece of the text between two places of the parse.
func (f *flow) offsets(x *ssa.Slice) bool {
	for _, b := range []ssa.Value{x.Low, x.High} {
		if b == nil {
			continue
		}
		u, ok := b.(*ssa.UnOp)
		if ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), ".offset") {
				continue
			}
		}
		if fl, ok := b.(*ssa.Field); ok && strings.HasSuffix(fieldKey(fl.X.Type(), fl.Field), ".offset") {
			continue
		}
		return false
	}
	return true
}

// written: a store that depends on the switch.
func (f *flow) written(in ssa.Instruction, addr ssa.Value) {
	fld, local := f.cell(addr)
	switch {
	case local != nil:
		// a function executed only if the switch is on: what it keeps for itself is not seen otherwise
		if _, fv := local.(*ssa.FreeVar); f.own || fv || f.high(addr) || f.storesHigh(in) {
			f.mark(local)
		}
	case fld != "" && f.H[fld]:
	case fld != "":
		f.leak(in, fld, "changes %s", fld)
	default:
		if f.high(addr) {
			return
		}
		f.leak(in, "", "changes %s", f.describe(addr))
	}
}

func (f *flow) storesHigh(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	return ok && f.high(st.Val)
}

func (f *flow) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return f.describe(x.X)
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.Name()
	}
	return "a " + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

func (f *flow) call(in ssa.Instruction, c *ssa.CallCommon, hi bool, res *ssa.Call) {
	high := false
	for _, a := range c.Args {
		high = high || f.high(a)
	}
	markRes := func() {
		if res != nil {
			f.mark(res)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "append", "min", "max", "ssa:wrapnilchk", "print", "println":
			if high {
				markRes()
			}
		default:
			if hi || high {
				f.leak(in, "", "calls %s", b.Name())
			}
		}
		return
	}
	if c.IsInvoke() {
		if hi || high || f.high(c.Value) {
			f.leak(in, "", "calls %s of %s", c.Method.Name(), f.describe(c.Value))
		}
		return
	}
	fn := c.StaticCallee()
	if fn == nil {
		fns, ok := f.callees(c.Value, 0)
		if !ok {
			if hi || high || f.high(c.Value) {
				f.leak(in, "", "calls %s", f.describe(c.Value))
			}
			return
		}
		for _, g := range fns {
			f.enter(in, g, c, hi || f.high(c.Value), markRes)
		}
		return
	}
	f.enter(in, fn, c, hi, markRes)
}

func (f *flow) enter(in ssa.Instruction, fn *ssa.Function, c *ssa.CallCommon, hi bool, markRes func()) {
	if f.inside(fn) {
		if hi && !f.hi[fn] {
			f.hi[fn] = true
			f.changed = true
		}
		for i, a := range c.Args {
			if i < len(fn.Params) && f.high(a) {
				f.mark(fn.Params[i])
			}
		}
		if f.ret[fn] {
			markRes()
		}
		return
	}
	high := false
	for _, a := range c.Args {
		high = high || f.high(a)
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if !hi && !high {
		return
	}
	if !harmless[path] {
		f.leak(in, "", "calls %s", fn.String())
		return
	}
	if high {
		markRes()
	}
	if fn.Signature.Recv() != nil && len(c.Args) > 0 {
		if _, l := f.cell(c.Args[0]); l != nil {
			f.mark(l)
		} else if _, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			f.leak(in, "", "calls %s", fn.String())
		}
	}
	if strings.HasPrefix(fn.Name(), "Fprint") && len(c.Args) > 0 && !isStdout(c.Args[0]) {
		w := c.Args[0]
		if m, ok := w.(*ssa.MakeInterface); ok {
			w = m.X
		}
		if _, l := f.cell(w); l != nil {
			f.mark(l)
		} else {
			f.leak(in, "", "writes to %s", f.describe(w))
		}
	}
}

func isStdout(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Name() == "Stdout" && g.Pkg.Pkg.Path() == "os"
		}
	}
	return false
}

// observers widens the switch by the fields that serve it alone, and returns what else it reaches.
func (r *Rep) observers(pkg *ssa.Package, option types.Type, fields ...string) (*flow, []outflow) {
	f := r.flow(pkg, option, fields...)
	tried := map[string]bool{}
	for {
		f.run()
		grown := false
		for _, k := range sortedKeys(f.leaks) {
			fld := f.leaks[k].field
			if fld == "" || tried[fld] {
				continue
			}
			tried[fld] = true
			g := r.flow(pkg, option, fld)
			g.run()
			if len(g.leaks) == 0 {
				f.H[fld] = true
				grown = true
			}
		}
		if !grown {
			break
		}
	}
	var out []outflow
	for _, k := range sortedKeys(f.leaks) {
		out = append(out, f.leaks[k])
	}
	return f, out
}
