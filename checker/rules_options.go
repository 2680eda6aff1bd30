package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Every exported option constructor of the module (functions returning the Option function type) is interpreted symbolically: the "+
		"setting is applied to an arbitrary parser value, the memory difference must be exactly the named setting holding the given value, and "+
		"applying the returned option must restore the memory. Defaults are read off the symbolic result of the parser constructor.",
		ruleOptions)
}

// memDiff lists the cells whose value differs between two states, with their paths.
type cellDiff struct {
	cell     *T
	path     string
	old, new *T
}

func (r *Rep) rootValue(e *Exec, st *St, cell *T) *T {
	return e.rootVal(st, cell, ptrElem(cell.typ))
}

func (e *Exec) diffMem(a, b *St) []cellDiff {
	var out []cellDiff
	seen := map[*T]bool{}
	for k := range b.mem {
		seen[k] = true
	}
	for k := range a.mem {
		seen[k] = true
	}
	for k := range seen {
		if _, ok := a.mem[k]; !ok && k.k == KMake {
			continue
		}
		var x, y *T
		x, y = a.mem[k], b.mem[k]
		if x == y {
			continue
		}
		if x == nil {
			x = e.rootVal(a, k, y.typ)
		}
		if y == nil {
			y = e.rootVal(b, k, x.typ)
		}
		leafDiffs(x, y, nil, func(path []string, o, n *T) {
			out = append(out, cellDiff{k, strings.Join(path, "."), o, n})
		})
	}
	return out
}

// optSpec names the settings of the options of the generated parser and of this module.
type optSpec struct {
	paths   []string // setting changed to the argument of the same position
	mapPath string   // map setting: entry key (or the first argument) is set to the last argument
	key     string
}

var optSpecs = map[string]optSpec{
	"MaxExpressions":             {paths: []string{"maxExprCnt"}},
	"Entrypoint":                 {paths: []string{"entrypoint"}},
	"Statistics":                 {paths: []string{"Stats", "choiceNoMatch"}},
	"Debug":                      {paths: []string{"debug"}},
	"Memoize":                    {paths: []string{"memoize"}},
	"AllowInvalidUTF8":           {paths: []string{"allowInvalidUTF8"}},
	"Recover":                    {paths: []string{"recover"}},
	"GlobalStore":                {mapPath: "cur.globalStore"},
	"InitState":                  {mapPath: "cur.state"},
	"IgnoreComments":             {mapPath: "cur.globalStore", key: "__ignoreComments"},
	"ExceptionalCommentsWarning": {mapPath: "cur.globalStore", key: "__exceptionalCommentWarning"},
}

func pathField(x *T, path string) *T {
	for _, n := range strings.Split(path, ".") {
		st := structOf(x.typ)
		if st == nil {
			return nil
		}
		ft := fieldType(st, n)
		if ft == nil {
			return nil
		}
		x = mkField(x, n, ft)
	}
	return x
}

// mapRestored tells whether the map state cur reads the same as orig for every key.
func (e *Exec) mapRestored(st *St, cur, orig, key *T, asBool bool) bool {
	upd := cur
	for upd != orig {
		if upd.k != KApp || (upd.s != "mapupd" && upd.s != "mapdel") || upd.a[1] != key {
			return false
		}
		upd = upd.a[0]
	}
	old := mkApp("mapget", nil, orig, key)
	if cur == orig {
		return true
	}
	if cur.s == "mapdel" {
		return e.truth(st, mkNot(mkApp("maphas", tBool, orig, key))) == 1
	}
	v := cur.a[2]
	same := func(x *T) bool { return x.k == KApp && x.s == "mapget" && x.a[0] == orig && x.a[1] == key }
	if same(v) {
		return true
	}
	if !asBool {
		return false
	}
	// the switch reads as the boolean held, anything else reads as false
	_ = old
	if v.k != KIface || len(v.a) != 1 {
		return false
	}
	b := v.a[0]
	if b == tFalse {
		for _, f := range st.facts {
			if f.k == KNot && f.a[0].k == KTypeIs && same(f.a[0].a[0]) {
				return true
			}
			if f.k == KNot && f.a[0].k == KAs && same(f.a[0].a[0]) {
				return true
			}
		}
		return false
	}
	return b.k == KAs && same(b.a[0])
}

func ruleOptions(r *Rep) {
	p := r.p
	optT := needType(p.typ("", "Option"), "type Option")
	sig, ok := optT.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 {
		panic(anchorError("Option is a function of the parser"))
	}
	parserPtr := sig.Params().At(0).Type()
	var names []string
	var ctor *ssa.Function
	for n, m := range p.pkg("").Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Recv() != nil {
			continue
		}
		if f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), optT) && token.IsExported(n) {
			names = append(names, n)
		}
		if f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), parserPtr) && f.Signature.Variadic() {
			ctor = f
		}
	}
	used := map[string]string{}
	for n := range optSpecs {
		if p.fn("", n) == nil {
			r.fail("option", n, "", "the documented option %s no longer exists", n)
		}
	}
	for _, n := range sortedStrings(names) {
		r.option(n, optSpecs[n], used)
	}
	r.floor("option-sets", 11)
	r.floor("option-restores", 11)
	r.defaults(need(ctor, "constructor of the parser taking options"))
	r.optionReaders()
}

func (r *Rep) option(n string, sp optSpec, used map[string]string) {
	p := r.p
	fn := p.fn("", n)
	e := r.exec()
	defer r.done("option", e, n)
	args := symArgs(fn)
	outs := e.Call(fn, args, nil, newSt(), nil, nil)
	known := len(sp.paths) > 0 || sp.mapPath != ""
	for _, o := range outs {
		if o.kind != ORet {
			r.fail("option-sets", n, r.fnWhere(fn), "the option constructor does not return")
			return
		}
		before := o.st.clone()
		ps := mkSym("p", nil)
		var res []Outcome
		if f := o.val(); f.k == KClosure || f.k == KFunc {
			ps = mkSym("p", f.fn.Params[0].Type())
			if n == "Entrypoint" {
				// invariant of the parser constructor: the start rule is never empty (checked by rule defaults)
				cur := e.load(before, mk(&T{k: KFAddr, a: []*T{ps}, s: "entrypoint", typ: types.NewPointer(tString)}), tString, nil, fn)
				e.assume(before, mkNot(mkEQ0(mkLen(cur))))
			}
			res = e.applyFunc(f, []*T{ps}, before.clone())
		} else {
			e.undecided("option value %s is not a function literal", f)
			return
		}
		for _, x := range res {
			facts := factsString(x.st.facts)
			if x.kind != ORet {
				r.fail("option-sets", n, r.fnWhere(fn), "applying the option does not return under %s", facts)
				continue
			}
			good := true
			orig := e.rootVal(before, ps, ptrElem(ps.typ))
			got := e.rootVal(x.st, ps, ptrElem(ps.typ))
			var set []string
			leafDiffs(orig, got, nil, func(path []string, o, nv *T) { set = append(set, strings.Join(path, ".")) })
			var mapCell, mapSt *T
			for _, d := range e.diffMem(before, x.st) {
				switch {
				case d.cell == ps:
				case d.cell.k == KBacking && rootOf(d.cell.a[0]) == ps || d.cell.k == KBacking && contains(d.cell.a[0], mk(&T{k: KDeref, a: []*T{ps}})) || d.cell.k == KBacking && strings.HasPrefix(d.cell.a[0].String(), "*p."):
					set = append(set, "map "+strings.TrimPrefix(d.cell.a[0].String(), "*p."))
					mapCell, mapSt = d.cell, d.new
				case d.cell.k == KGlobal:
					good = r.check(false, "option-sets", n, r.fnWhere(fn), "the option changes the package variable %s", d.cell)
				case len(args) > 0 && d.cell == args[0]:
					// a statistics record is prepared for use
				}
			}
			for _, ev := range x.st.ev[len(o.st.ev):] {
				if ev.kind == "call" || ev.kind == "go" {
					good = r.check(false, "option-sets", n, r.fnWhere(fn), "applying the option calls %s", ev)
				}
			}
			set = sortedStrings(set)
			key := strings.Join(set, ",")
			if !known {
				if prev := used[key]; prev != "" || len(set) != 1 {
					r.fail("option-sets", n, r.fnWhere(fn), "undocumented option changes %q (also changed by %s)", key, prev)
				} else {
					r.pass("option-sets", "%s changes %s", n, key)
				}
				used[key] = n
			} else if sp.mapPath != "" {
				k := args[0]
				if sp.key != "" {
					k = mkStr(sp.key)
				}
				ok := len(set) == 1 && set[0] == "map "+sp.mapPath && mapSt != nil && mapSt.k == KApp && mapSt.s == "mapupd" && mapSt.a[1] == k
				if ok {
					v := args[len(args)-1]
					if isIfaceType(v.typ) {
						ok = mapSt.a[2] == v
					} else {
						ok = mapSt.a[2].k == KIface && mapSt.a[2].a[0] == v
					}
					ok = ok && mapSt.a[0].k == KApp && mapSt.a[0].s == "mapinit"
				}
				good = r.check(ok, "option-sets", n, r.fnWhere(fn), "applying %s under %s must set exactly entry %s of %s to its argument; it changes %s to %v", n, facts, k, sp.mapPath, key, mapSt) && good
			} else {
				for i, pt := range sp.paths {
					want := args[i]
					nv := pathField(got, pt)
					if nv == nil {
						r.fail("option-sets", n, r.fnWhere(fn), "setting %s does not exist", pt)
						good = false
						continue
					}
					ok := nv == want
					if !ok && n == "Entrypoint" && nv.isStr() && nv.str() == r.firstRule() && e.truth(x.st, mkEQ0(mkLen(want))) == 1 {
						ok = true
					}
					good = r.check(ok, "option-sets", n, r.fnWhere(fn), "applying %s under %s sets %s to %s instead of its argument %s", n, facts, pt, nv, want) && good
				}
				for _, s := range set {
					found := false
					for _, pt := range sp.paths {
						found = found || s == pt
					}
					if !found {
						good = r.check(false, "option-sets", n, r.fnWhere(fn), "applying %s under %s also changes %s", n, facts, s)
					}
				}
			}
			if !good {
				continue
			}
			// applying the returned option restores the setting
			f := x.val()
			if f.k != KClosure && f.k != KFunc {
				e.undecided("value returned by option %s is not a function literal: %s", n, f)
				continue
			}
			for _, y := range e.applyFunc(f, []*T{ps}, x.st.clone()) {
				ok := y.kind == ORet
				fin := e.rootVal(y.st, ps, ptrElem(ps.typ))
				why := ""
				leafDiffs(orig, fin, nil, func(path []string, o, nv *T) {
					ok = false
					why += strings.Join(path, ".") + " is " + nv.String() + " instead of " + o.String() + "; "
				})
				for _, d := range e.diffMem(before, y.st) {
					if d.cell.k == KBacking {
						k := args[0]
						if sp.key != "" {
							k = mkStr(sp.key)
						}
						init := mkApp("mapinit", nil, d.cell.a[0])
						if d.cell != mapCell || !e.mapRestored(y.st, d.new, init, k, sp.key != "") {
							ok = false
							why += "map " + d.cell.a[0].String() + " is " + d.new.String() + "; "
						}
					}
				}
				r.check(ok, "option-restores", n, r.fnWhere(fn), "applying the option returned by %s under %s does not restore the setting: %s", n, factsString(y.st.facts), why)
			}
		}
	}
}

func (r *Rep) firstRule() string {
	gr := r.grammar()
	return gr.rules[0].name
}

// defaults: the parser built without options has the documented settings, and every option given is applied once, in order.
func (r *Rep) defaults(ctor *ssa.Function) {
	e := r.exec()
	defer r.done("defaults", e, ctor.Name())
	args := symArgs(ctor)
	n := len(args)
	nil0 := append(append([]*T{}, args[:n-1]...), mkNil(args[n-1].typ))
	outs := e.Call(ctor, nil0, nil, newSt(), nil, nil)
	for _, o := range outs {
		if o.kind != ORet {
			r.fail("defaults", ctor.Name(), r.fnWhere(ctor), "constructing a parser without options does not return")
			continue
		}
		pv := e.rootVal(o.st, o.val(), ptrElem(o.val().typ))
		str := func(path string) string {
			v := pathField(pv, path)
			if v == nil {
				return "missing"
			}
			return v.String()
		}
		for path, want := range map[string]string{
			"maxExprCnt": "18446744073709551615", "debug": "false", "memoize": "false",
			"allowInvalidUTF8": "false", "recover": "true", "entrypoint": fmt.Sprintf("%q", r.firstRule()), "choiceNoMatch": `""`,
		} {
			r.check(str(path) == want, "defaults", path, r.fnWhere(ctor), "a parser built without options has %s = %s instead of %s", path, str(path), want)
		}
		for _, path := range []string{"cur.globalStore", "cur.state"} {
			m := pathField(pv, path)
			ok := m != nil && m.k == KMap
			if ok {
				ms := e.mapState(o.st, m)
				ok = ms.k == KApp && ms.s == "mapnew"
			}
			r.check(ok, "defaults", path, r.fnWhere(ctor), "a parser built without options does not start with its own empty %s: %v", path, m)
		}
	}
	r.floor("defaults", 9)
	// options given
	e2 := r.exec()
	defer r.done("options-applied", e2, ctor.Name())
	outs = e2.Call(ctor, args, nil, newSt(), nil, nil)
	for _, o := range outs {
		var calls int
		ok := o.kind == ORet
		why := ""
		for _, ev := range o.st.ev {
			if ev.kind == "loop" {
				calls++
				if !e2.iterates(ev.lp, args[n-1], o.st) {
					ok = false
					why = "the loop over the options does not call every option exactly once"
				}
				for _, t := range ev.lp.trans {
					k := 0
					for _, x := range t.ev {
						if x.kind == "call" {
							k++
							if x.args[0].k != KElem || x.args[0].a[0] != args[n-1] || x.args[0].a[1] != ev.lp.K {
								ok = false
								why = "an iteration applies another option than the one it is at"
							}
							if x.args[len(x.args)-1] != o.val() {
								ok = false
								why = "an option is applied to something else than the new parser"
							}
						}
					}
					if t.to >= 0 && k != 1 {
						ok = false
						why = fmt.Sprintf("an iteration applies %d options", k)
					}
				}
			}
			if ev.kind == "call" {
				ok = false
				why = "call outside the option loop: " + ev.String()
			}
		}
		if calls == 0 && e2.truth(o.st, mkEQ0(mkLen(args[n-1]))) != 1 {
			ok = false
			why = "the options are not applied"
		}
		r.check(ok, "options-applied", ctor.Name(), r.fnWhere(ctor), "%s (path %s)", why, factsString(o.st.facts))
	}
}

func (r *Rep) optionReaders() {}

// iterates tells whether the loop visits the indices of xs from front to back, one per iteration, and whether the
// path st leaves it only after the last one.
func (e *Exec) iterates(lp *Loop, xs *T, st *St) bool {
	within := mkLE(linAddC(linSub(lp.K, mkLen(xs)), 1))
	for _, t := range lp.trans {
		found := e.truth(e.stOf(append(append([]*T{}, t.ord...), t.facts...)), within) == 1
		if !found {
			return false
		}
	}
	return st == nil || e.entailLE(st, linSub(mkLen(xs), lp.K))
}
