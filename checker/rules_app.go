package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// captured lists the variables a visiting function works on: what it captured, or what that points to.
type capRoot struct {
	ptr  *T
	name string
	i    int
}

func (e *Exec) captured(st *St, f *T) []capRoot {
	f = unconv(f)
	if f.k != KClosure {
		return nil
	}
	var out []capRoot
	for i, b := range f.a {
		if i >= len(f.fn.FreeVars) {
			break
		}
		if _, ok := under(b.typ).(*types.Pointer); !ok {
			continue
		}
		n := f.fn.FreeVars[i].Name()
		if q := ptrElem(b.typ); q != nil {
			if _, ok := under(q).(*types.Pointer); ok {
				v := e.load(st, b, q, nil, nil)
				out = append(out, capRoot{v, n, i})
				continue
			}
		}
		out = append(out, capRoot{b, n, i})
	}
	return out
}

// applied forgets what the visiting function changes: afterwards it is arbitrary.
func (r *Rep) applied(e *Exec, ci *callInfo) {
	f := unconv(ci.args[1])
	if f.k != KClosure {
		return
	}
	w := r.visit(f.fn)
	for _, rt := range e.captured(ci.st, f) {
		t := ptrElem(rt.ptr.typ)
		for _, sl := range w.changed() {
			if sl.i != rt.i {
				continue
			}
			ptr, vt, val := rt.ptr, t, mkField(mkSym("visited", nil), sl.name, t)
			if isStructType(t) {
				vt = fieldType(structOf(t), sl.path)
				ptr = mk(&T{k: KFAddr, a: []*T{rt.ptr}, s: sl.path, typ: types.NewPointer(vt)})
				val = mkField(mkSym("visited", t), sl.path, vt)
			}
			if sl.m {
				m := e.load(ci.st, ptr, vt, nil, nil)
				if m.k == KMap {
					ci.st.mem[m] = mkField(mkSym("visited", nil), sl.name+"$map", nil)
				} else {
					e.undecided("the map %s used by %s is not created by the command", sl.name, f.fn.Name())
				}
				continue
			}
			e.store(ci.st, ptr, val, ci.instr, frFn(ci))
		}
	}
}

// slot is a variable (or field of a variable) a visiting function works on; m: the contents of the map in it.
type slot struct {
	i    int
	name string
	path string
	m    bool
}

// visiting is the interpretation of a function given to ApplyPlugins on an arbitrary cursor and state.
type visiting struct {
	e      *Exec
	fn     *ssa.Function
	bind   []*T
	root   []*T
	cursor *T
	cur    *T // the plugin the cursor is at
	before *St
	outs   []Outcome
}

func (r *Rep) visit(fn *ssa.Function) *visiting {
	if w := r.visits[fn]; w != nil {
		return w
	}
	w := &visiting{e: r.exec(), fn: fn, before: newSt()}
	for _, fv := range fn.FreeVars {
		b := mkSym(fv.Name(), fv.Type())
		root := b
		if q := ptrElem(fv.Type()); q != nil {
			if _, ok := under(q).(*types.Pointer); ok {
				root = mkSym("*"+fv.Name(), q)
				b = mk(&T{k: KAddr, s: "captured_" + fv.Name(), typ: fv.Type()})
				w.before.mem[b] = root
			}
		}
		w.bind = append(w.bind, b)
		w.root = append(w.root, root)
	}
	args := symArgs(fn)
	if len(args) > 0 {
		w.cursor = args[len(args)-1]
	}
	pt := needType(r.p.typ("ast", "Plugin"), "type ast.Plugin")
	w.cur = mkSym("current", pt)
	id := need(r.p.method("ast", "Plugin", "ID"), "method Plugin.ID")
	n := 0
	w.e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil {
			return nil, false
		}
		if ci.fn == id {
			return one(ci.st, mkApp("id", tString, ci.args[0]), mkApp("iderr", errIface, ci.args[0])), true
		}
		if rv := ci.fn.Signature.Recv(); rv != nil && fnPkg(ci.fn) == r.p.modPath+"/ast/astutil" {
			c := *ci
			c.name = "cursor." + ci.fn.Name()
			if ci.fn.Name() == "Plugin" && len(ci.args) == 1 && ci.args[0] == w.cursor {
				for _, ev := range ci.st.ev {
					if ev.kind == "call" && strings.HasPrefix(ev.name, "cursor.") {
						w.e.undecided("%s asks the cursor for its plugin after changing the list", fn.Name())
					}
				}
				n++
				cell := mk(&T{k: KAddr, s: fmt.Sprintf("plugin%d", n), typ: types.NewPointer(pt)})
				ci.st.mem[cell] = w.cur
				return one(ci.st, cell), true
			}
			return w.e.opaqueCall(&c, false), true
		}
		return nil, false
	}
	w.outs = w.e.Call(fn, args, w.bind, w.before.clone(), nil, nil)
	r.done("visit", w.e, fn.Name())
	if r.visits == nil {
		r.visits = map[*ssa.Function]*visiting{}
	}
	r.visits[fn] = w
	return w
}

// slotOf names the state a memory cell and path belong to, or "".
func (w *visiting) slotOf(d cellDiff) (slot, bool) {
	cell := d.cell
	if cell.k == KBacking { // contents of a map
		m := cell.a[0]
		for i, rt := range w.root {
			if m.k == KDeref && m.a[0] == rt {
				return slot{i, w.fn.FreeVars[i].Name(), "", true}, true
			}
			if m.k == KField && m.a[0].k == KDeref && m.a[0].a[0] == rt {
				return slot{i, m.s, m.s, true}, true
			}
		}
		return slot{}, false
	}
	for i, rt := range w.root {
		if cell == rt {
			n, _, _ := strings.Cut(d.path, ".")
			if n == "" {
				return slot{i, w.fn.FreeVars[i].Name(), "", false}, true
			}
			return slot{i, n, n, false}, true
		}
	}
	return slot{}, false
}

// changes lists the state changed on a path.
func (w *visiting) changes(o *Outcome) map[string]cellDiff {
	out := map[string]cellDiff{}
	for _, d := range w.e.diffMem(w.before, o.st) {
		if sl, ok := w.slotOf(d); ok {
			k := sl.name
			if sl.m {
				k += "$map"
			}
			out[k] = d
		}
	}
	return out
}

func (w *visiting) changed() []slot {
	set := map[slot]bool{}
	var out []slot
	for i := range w.outs {
		for _, d := range w.e.diffMem(w.before, w.outs[i].st) {
			if sl, ok := w.slotOf(d); ok && !set[sl] {
				set[sl] = true
				out = append(out, sl)
			}
		}
	}
	return out
}
