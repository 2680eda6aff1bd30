package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortedStrings(a []string) []string { sort.Strings(a); return a }

// applyFunc calls a function value.
func (e *Exec) applyFunc(f *T, args []*T, st *St) []Outcome {
	switch f.k {
	case KFunc:
		return e.Call(f.fn, args, nil, st, nil, nil)
	case KClosure:
		for i, pa := range f.fn.Params {
			if i < len(args) && args[i].typ == nil {
				args[i] = mkSym(args[i].s, pa.Type())
			}
		}
		return e.Call(f.fn, args, f.a, st, nil, nil)
	}
	e.undecided("call of unresolved function value %s", f)
	return nil
}

// callMethod calls a method found through the method set of the static type of recv.
func (r *Rep) callMethod(e *Exec, st *St, recv *T, name string, args ...*T) []Outcome {
	t := recv.typ
	var pkg *types.Package
	if n, ok := types.Unalias(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	} else if pt, ok := t.(*types.Pointer); ok {
		if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
	}
	sel := types.NewMethodSet(t).Lookup(pkg, name)
	if sel == nil {
		panic(anchorError("method " + name + " of " + shortType(t)))
	}
	fn := r.p.ssa.MethodValue(sel)
	return e.Call(fn, append([]*T{recv}, args...), nil, st, nil, nil)
}

// sameOrEmpty tells whether two lists are equal, or both empty, on the path st.
func (e *Exec) sameOrEmpty(st *St, x, y *T) bool {
	if x == y {
		return true
	}
	x, y = unconv(e.resolve(st, x)), unconv(e.resolve(st, y))
	if x == y {
		return true
	}
	if isSliceType(x.typ) && isSliceType(y.typ) || isStringType(x.typ) && isStringType(y.typ) {
		return e.truth(st, mkEQ0(mkLen(x))) == 1 && e.truth(st, mkEQ0(mkLen(y))) == 1
	}
	return false
}

// quietPath reports side effects of a path that a pure function must not have.
func (e *Exec) effectsOn(o *Outcome, from int, roots map[*T]bool) (bad []string) {
	var scan func(evs []*Ev)
	scan = func(evs []*Ev) {
		for _, ev := range evs {
			switch ev.kind {
			case "loop":
				for _, t := range ev.lp.trans {
					scan(t.ev)
				}
			case "hazard":
			default:
				bad = append(bad, ev.String())
			}
		}
	}
	scan(o.st.ev[from:])
	return
}

// unconv strips conversions between slice types, which keep the elements.
func unconv(x *T) *T {
	for x.k == KConv && isSliceType(x.typ) && isSliceType(x.a[0].typ) {
		x = x.a[0]
	}
	return x
}

// structWith builds a struct value with the given fields, the rest zero.
func structWith(t types.Type, kv ...any) *T {
	x := zeroOf(t)
	for i := 0; i+1 < len(kv); i += 2 {
		n := kv[i].(string)
		if fieldType(structOf(t), n) == nil {
			panic(anchorError("field " + n + " of " + shortType(t)))
		}
		x = setField(x, n, kv[i+1].(*T))
	}
	return x
}

func box(x *T, iface types.Type) *T { return mkIface(x.typ, x, iface) }

func sameType(a, b types.Type) bool { return a != nil && b != nil && types.Identical(a, b) }

// needConst is the value of an integer constant of the repository.
func needConst(p *Prog, pkg, name string) int64 {
	pk := p.pkg(pkg)
	if pk == nil {
		panic(anchorError("package " + pkg))
	}
	c, ok := pk.Members[name].(*ssa.NamedConst)
	if !ok {
		panic(anchorError("constant " + name))
	}
	n, _ := constant.Int64Val(constant.ToInt(c.Value.Value))
	return n
}
