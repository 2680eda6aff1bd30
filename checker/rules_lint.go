package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lintShape is what lint does with the plugins of a file.
type lintShape struct {
	applies []*applyUse
	walker  *visiting // the function that reports and fixes
	noIDs   string    // list of plugins without id
	dups    string    // list of plugins with a repeated id
	seen    string    // map of the ids met so far
	used    string    // map of the ids a new id must avoid
	changed string    // what tells that an id was added
	flag    *T        // the option, as the walker sees it
	flagAt  string
}

type applyUse struct {
	w    *visiting
	list *T
}

// appliesOf lists the uses of ApplyPlugins on a pass in order: each a loop over sections with one use per iteration.
type sectionApply struct {
	fn    *ssa.Function
	xs    *T  // the sections
	first *Ev // the use in the first iteration
	bad   string
}

func (a *appRun) appliesOf(s *seg) []sectionApply {
	var out []sectionApply
	for _, ev := range s.evs {
		if ev.kind == "call" && ev.name == evApply {
			out = append(out, sectionApply{fn: closureFn(ev.args[1]), xs: ev.args[0], first: ev, bad: "a single list is visited, not every section"})
		}
		if ev.kind != "loop" || ev.lp == a.lp {
			continue
		}
		has := false
		for _, t := range ev.lp.trans {
			if hasApply(t.ev, 0) {
				has = true
			}
		}
		if !has {
			continue
		}
		out = append(out, a.applyLoop(ev.lp)...)
	}
	return out
}

func hasApply(evs []*Ev, d int) bool {
	for _, ev := range evs {
		if ev.kind == "call" && ev.name == evApply {
			return true
		}
		if ev.kind == "loop" && d < 4 {
			for _, t := range ev.lp.trans {
				if hasApply(t.ev, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func closureFn(t *T) *ssa.Function {
	t = unconv(t)
	if t.k == KClosure || t.k == KFunc {
		// method values have one wrapper per use
		if f := closureFns[t.fn.String()]; f != nil {
			return f
		}
		closureFns[t.fn.String()] = t.fn
		return t.fn
	}
	return nil
}

var closureFns = map[string]*ssa.Function{}

func (a *appRun) applyLoop(lp *Loop) []sectionApply {
	var res []sectionApply
	for i, t := range lp.trans {
		var here []sectionApply
		for _, ev := range t.ev {
			if ev.kind == "loop" && hasApply([]*Ev{ev}, 0) {
				here = append(here, sectionApply{bad: "the sections are visited by nested loops the rule does not follow"})
				continue
			}
			if ev.kind != "call" || ev.name != evApply {
				continue
			}
			l := ev.args[0]
			sa := sectionApply{fn: closureFn(ev.args[1]), first: ev}
			if l.k == KField && l.s == "BranchOrPlugins" && l.a[0].k == KElem && l.a[0].a[1] == lp.K {
				sa.xs = l.a[0].a[0]
				if !a.e.iterates(lp, sa.xs, nil) {
					sa.bad = "the loop does not visit every section in order"
				}
			} else {
				sa.bad = "not the plugins of the section of this iteration are visited"
			}
			here = append(here, sa)
		}
		if i == 0 {
			res = here
			continue
		}
		same := len(here) == len(res)
		for j := range here {
			if same && (here[j].fn != res[j].fn || here[j].xs != res[j].xs || here[j].bad != "") {
				same = false
			}
		}
		if !same && len(res) > 0 {
			res[0].bad = "not every iteration visits its section"
		}
		if len(res) == 0 && len(here) > 0 {
			here[0].bad = "not every iteration visits its section"
			res = here
		}
	}
	return res
}

// slotVal finds the value of a slot at a use of ApplyPlugins.
func slotVal(ev *Ev, name string) []*T {
	for _, x := range ev.args[2:] {
		if x.k == KApp && x.s == "slot:"+name {
			return x.a
		}
	}
	return nil
}

// lintShape derives the roles of the state of the visiting functions of lint.
func (r *Rep) lintShape(a *appRun) *lintShape {
	fns := map[*ssa.Function]bool{}
	for _, s := range a.segs {
		for _, sa := range a.appliesOf(s) {
			if sa.fn == nil {
				r.fail("lint-visit", "lint", r.fnWhere(a.fn), "the function applied to the plugins is not known")
				return nil
			}
			fns[sa.fn] = true
		}
	}
	ls := &lintShape{}
	for fn := range fns {
		w := r.visit(fn)
		reports := false
		for i := range w.outs {
			for _, ev := range w.outs[i].st.ev {
				if ev.kind == "call" && strings.HasPrefix(ev.name, "cursor.") {
					reports = true
				}
			}
			for _, d := range w.changes(&w.outs[i]) {
				if isSliceType(d.old.typ) {
					reports = true
				}
			}
		}
		if reports {
			if ls.walker != nil {
				r.fail("lint-visit", "lint", r.fnWhere(fn), "more than one function reports or fixes plugins")
				return nil
			}
			ls.walker = w
		}
	}
	if ls.walker == nil {
		r.fail("lint-visit", "lint", r.fnWhere(a.fn), "no function applied to the plugins reports or fixes them")
		return nil
	}
	w := ls.walker
	// roles: the list that grows when there is no id, the list that grows when there is one, the map of ids met
	for i := range w.outs {
		o := &w.outs[i]
		withID := r.hasID(w, o)
		ch := w.changes(o)
		for k, d := range ch {
			switch {
			case strings.HasSuffix(k, "$map"):
				if up := d.new; withID == 1 && up.k == KApp && up.s == "mapupd" && up.a[1] == mkApp("id", tString, w.cur) {
					ls.seen = setRole(ls.seen, strings.TrimSuffix(k, "$map"))
				}
			case isSliceType(d.old.typ) && withID == 0:
				ls.noIDs = setRole(ls.noIDs, k)
			case isSliceType(d.old.typ) && withID == 1:
				ls.dups = setRole(ls.dups, k)
			}
		}
		if replaceOf(o) != nil {
			for k, d := range ch {
				if !strings.HasSuffix(k, "$map") && (d.new == tTrue || isIntType(d.old.typ)) {
					only := true
					for j := range w.outs {
						if replaceOf(&w.outs[j]) == nil {
							if _, ok := w.changes(&w.outs[j])[k]; ok {
								only = false
							}
						} else if d2, ok := w.changes(&w.outs[j])[k]; !ok || d2.new != d.new {
							only = false
						}
					}
					if only {
						ls.changed = setRole(ls.changed, k)
					}
				}
				if strings.HasSuffix(k, "$map") && d.new.k == KApp && d.new.s == "mapupd" {
					ls.used = setRole(ls.used, strings.TrimSuffix(k, "$map"))
				}
			}
		}
	}
	return ls
}

func setRole(old, n string) string {
	if old == "" || old == n {
		return n
	}
	return old + "+" + n
}

// hasID: 1 on paths on which the plugin is known to have an id, 0 on paths on which it is known to have none, -1 otherwise.
func (r *Rep) hasID(w *visiting, o *Outcome) int {
	return w.e.truth(o.st, mkEq(mkApp("iderr", errIface, w.cur), mkNil(nil)))
}

func replaceOf(o *Outcome) *Ev {
	for _, ev := range o.st.ev {
		if ev.kind == "call" && ev.name == "cursor.Replace" {
			return ev
		}
	}
	return nil
}

// changedTruth: whether an id was added, as far as the path knows.
func (ls *lintShape) changedTruth(a *appRun, s *seg) int {
	if ls.changed == "" {
		return -1
	}
	var x *T
	for _, f := range s.facts {
		walkTerm(f, func(t *T) bool {
			if t.k == KField && t.s == ls.changed && t.a[0].k == KSym && t.a[0].s == "visited" {
				x = t
			}
			return x == nil
		})
	}
	if x == nil {
		return -1
	}
	if isBoolType(x.typ) {
		return a.e.truth(s.st, x)
	}
	if isIntType(x.typ) {
		return a.e.truth(s.st, mkLE(linComb(x, -1, mkInt(0), 0, 1)))
	}
	return -1
}

// usesPosAndName tells whether a text contains the position and the name of the current plugin.
func usesPosAndName(t, cur *T) bool {
	line, col, name := false, false, false
	var scan func(t *T)
	scan = func(t *T) {
		switch t.k {
		case KCat:
			for _, p := range t.a {
				scan(p)
			}
		case KConv:
			scan(t.a[0])
		case KField:
			if t.s == "name" && t.a[0] == cur {
				name = true
			}
		case KApp:
			if t.s == "itoa" && t.a[0].k == KField && t.a[0].a[0].k == KField && t.a[0].a[0].s == "Start" && t.a[0].a[0].a[0] == cur {
				line = line || t.a[0].s == "Line"
				col = col || line && t.a[0].s == "Column"
			}
		}
	}
	scan(t)
	return line && col && name
}

// visitsAll: the functions of a pass are applied to all sections of the three kinds, each once and in order.
func (r *Rep) visitsAll(a *appRun, s *seg, parse *Ev, d, w string) (order []sectionApply, ok bool) {
	conf := confOf(parse, needType(r.p.typ("ast", "Config"), "type ast.Config"))
	uses := a.appliesOf(s)
	got := map[*ssa.Function][]*T{}
	ok = true
	for _, u := range uses {
		if u.bad != "" {
			r.fail("sections-visited", d, w, "%s", u.bad)
			return nil, false
		}
		if u.xs.k == KSeq {
			got[u.fn] = append(got[u.fn], u.xs.a...)
		} else {
			got[u.fn] = append(got[u.fn], u.xs)
		}
	}
	want := []string{"Input", "Filter", "Output"}
	for _, fn := range sortedFns(got) {
		xs := got[fn]
		good := len(xs) == 3
		for i, x := range xs {
			good = good && i < 3 && x.k == KField && x.s == want[i] && x.a[0] == conf
		}
		ok = r.check(good, "sections-visited", d+": "+fn.Name(), w, "%s is not applied once to the plugins of every input, filter and output section in this order", fn.Name()) && ok
	}
	return uses, ok
}

func sortedFns(m map[*ssa.Function][]*T) []*ssa.Function {
	byName := map[string]*ssa.Function{}
	for f := range m {
		byName[f.String()] = f
	}
	var out []*ssa.Function
	for _, k := range sortedKeys(byName) {
		out = append(out, byName[k])
	}
	return out
}

// ---- C22 ----

func ruleLintReport(r *Rep) {
	a := r.runCommand("lint", r.applied)
	if a == nil {
		return
	}
	ls := r.lintShape(a)
	if ls == nil {
		return
	}
	w := ls.walker
	option := a.flagRead(writeFlag["lint"])
	flagSlot := ""
	for n, x := range map[string]string{"plugins without id": ls.noIDs, "plugins with a repeated id": ls.dups, "ids met": ls.seen} {
		r.check(x != "" && !strings.Contains(x, "+"), "lint-visit", n, r.fnWhere(w.fn), "there is not exactly one collection of %s (%q)", n, x)
	}
	r.check(ls.noIDs != ls.dups, "lint-visit", "lists", r.fnWhere(w.fn), "plugins without id and plugins with a repeated id are kept in the same list")
	// the walker, path by path
	for i := range w.outs {
		o := &w.outs[i]
		d := fmt.Sprintf("%s: %s", w.fn.Name(), clip(factsString(o.st.facts), 200))
		where := r.fnWhere(w.fn)
		if o.kind != ORet {
			r.fail("walker-path", d, where, "visiting a plugin may panic")
			continue
		}
		ch := w.changes(o)
		grown := func(k string) (bool, bool) { // changed, changed by one text with position and name
			dd, ok := ch[k]
			if !ok {
				return false, false
			}
			rest, ok := stripParts(partsOf2(dd.new), partsOf2(dd.old))
			return true, ok && len(rest) == 1 && rest[0].k == KUnit && usesPosAndName(rest[0].a[0], w.cur)
		}
		c1, g1 := grown(ls.noIDs)
		c2, g2 := grown(ls.dups)
		id := mkApp("id", tString, w.cur)
		mp, mapCh := ch[ls.seen+"$map"]
		switch r.hasID(w, o) {
		case 0:
			flag, fslot := r.flagFact(w, o, a, option)
			if fslot != "" {
				flagSlot = fslot
			}
			if replaceOf(o) != nil {
				r.check(flag == 1, "walker-path", d+" option", where, "a plugin without id is not reported on a path on which the fix option is not known to be set")
				r.check(!c1 && !c2, "walker-path", d, where, "a plugin that gets an id is also reported")
			} else {
				r.check(c1 && g1 && !c2, "walker-path", d, where, "a plugin without usable id does not enter the list exactly once with its position and name")
			}
		case 1:
			met := -1
			for _, f := range o.st.facts {
				x, v := f, 1
				if f.k == KNot {
					x, v = f.a[0], 0
				}
				if x.k == KApp && x.s == "maphas" && x.a[1] == id && mapSlot(w, x.a[0]) == ls.seen {
					met = v
				}
			}
			switch met {
			case 1:
				kept := !mapCh || mp.new.k == KApp && mp.new.s == "mapupd" && mp.new.a[1] == id && mapSlot(w, mp.new.a[0]) == ls.seen
				r.check(kept, "walker-path", d+" kept ids", where, "an id met before is forgotten when it is met again")
				r.check(c2 && g2 && !c1, "walker-path", d, where, "a plugin with an id met before does not enter the list exactly once with its position and name")
			case 0:
				ok := mapCh && mp.new.k == KApp && mp.new.s == "mapupd" && mp.new.a[1] == id && mapSlot(w, mp.new.a[0]) == ls.seen
				r.check(ok && !c1 && !c2, "walker-path", d, where, "a plugin with a new id is reported, or its id is not remembered")
			default:
				r.fail("walker-path", d, where, "whether the id was met before is not tested")
			}
			r.check(replaceOf(o) == nil, "walker-path", d+" kept", where, "a plugin with an id is changed")
		default:
			r.fail("walker-path", d, where, "whether the plugin has a usable id is not tested")
		}
		if mapCh && r.hasID(w, o) != 1 {
			ok := mp.new.k == KApp && mp.new.s == "mapupd" && ls.used == ls.seen
			r.check(ok, "walker-path", d+" ids", where, "the ids met are changed by a plugin without id")
		}
	}
	// other functions applied keep away from the reports
	for _, s := range a.segs {
		for _, sa := range a.appliesOf(s) {
			if sa.fn == w.fn {
				continue
			}
			o := r.visit(sa.fn)
			for _, sl := range o.changed() {
				r.check(sl.name != ls.noIDs && sl.name != ls.dups && sl.name != ls.seen, "walker-path", sa.fn.Name()+" "+sl.name, r.fnWhere(sa.fn), "%s changes what %s collects", sa.fn.Name(), w.fn.Name())
			}
		}
		break
	}
	// the command, path by path
	conft := needType(r.p.typ("ast", "Config"), "type ast.Config")
	for _, s := range a.segs {
		d := "lint: " + a.describe(s)
		where := a.where(r, s)
		parse := s.parse()
		if s.left || parse == nil || a.failedNil(s, errRes(parse)) != 1 {
			continue
		}
		conf := confOf(parse, conft)
		opts := false
		walkTerm(parse.args[1], func(t *T) bool {
			if t.k == KApp && t.s == "opt:ExceptionalCommentsWarning" && t.a[0] == tTrue {
				opts = true
			}
			if t.k == KApp && t.s == "opt:IgnoreComments" && t.a[0] != tFalse {
				opts = false
			}
			return true
		})
		r.check(opts, "warnings-on", d, where, "lint parses the file without warnings about exceptional comments")
		uses, ok := r.visitsAll(a, s, parse, d, where)
		if ok {
			fresh := false
			for _, u := range uses {
				if u.fn != w.fn {
					continue
				}
				if !fresh {
					fresh = true
					r.freshState(ls, u.first, d, where)
					if flagSlot != "" {
						v := slotVal(u.first, flagSlot)
						r.check(len(v) == 1 && v[0] == option, "fix-option", d, where, "whether plugins without id are reported does not depend on the fix option alone")
					}
				}
			}
			r.check(fresh, "sections-visited", d+": walker", where, "the plugins are not visited")
		}
		// reports
		for _, k := range []string{ls.noIDs, ls.dups} {
			var list *T
			for _, f := range append(append([]*T{}, s.facts...), s.emits...) {
				walkTerm(f, func(t *T) bool {
					if t.k == KField && t.s == k && t.a[0].k == KSym && t.a[0].s == "visited" {
						list = t
					}
					return true
				})
			}
			covered := 0
			if list != nil {
				for _, x := range s.emits {
					if x.k == KUnit {
						if t := errorTextOf(x.a[0]); coversSeq(a.e, t, list, true) && textHas(t, a.elem) {
							covered++
						}
					} else if coversEach(a, x, list) {
						covered++
					}
				}
			}
			empty := -1
			if list != nil {
				empty = a.e.truth(s.st, mkLE(mkLen(list)))
			}
			switch {
			case list == nil:
				r.fail("findings-reported", d+": "+k, where, "the plugins collected in %s are not reported", k)
			case empty == 1:
				r.check(covered == 0, "findings-reported", d+": "+k, where, "an error is reported although %s is empty", k)
			case empty == 0:
				r.check(covered == 1, "findings-reported", d+": "+k, where, "not every plugin collected in %s is reported with the file name", k)
			default:
				each := 0
				for _, x := range s.emits {
					if x.k != KUnit && coversEach(a, x, list) {
						each++
					}
				}
				r.check(covered == 1 && each == 1, "findings-reported", d+": "+k, where, "reporting the plugins collected in %s does not depend on whether there are any", k)
			}
		}
		ws := mkField(conf, "Warnings", fieldType(structOf(conft), "Warnings"))
		n := 0
		for _, x := range s.emits {
			if x.k != KUnit && coversEach(a, x, ws) {
				n++
			}
		}
		r.check(n == 1 || a.e.truth(s.st, mkLE(mkLen(ws))) == 1, "findings-reported", d+": warnings", where, "not every warning of the parser is reported once with the file name")
	}
	r.floor("walker-path", 5)
	r.floor("findings-reported", 20)
	r.floor("sections-visited", 5)
}

// coversEach: x spreads one error per element of xs, naming the file and keeping the text of the element.
func coversEach(a *appRun, x, xs *T) bool {
	test := func(u, el *T) bool {
		if u.k != KUnit {
			return false
		}
		t := errorTextOf(u.a[0])
		return textHas(t, a.elem) && keepsText(a.e, t, el)
	}
	switch {
	case x.k == KApp && x.s == "mapseq":
		if x.a[0] != xs || x.a[1].k != KSeq || len(x.a[1].a) != 1 {
			return false
		}
		return test(x.a[1].a[0], mkElem(xs, boundK, elemType(xs)))
	case x.k == KLoopAcc:
		lp := x.lp
		if !a.e.iterates(lp, xs, nil) || len(lp.trans) == 0 {
			return false
		}
		for _, t := range lp.trans {
			em := t.emit[x.cmp.key]
			if len(em) != 1 || !test(em[0], mkElem(xs, lp.K, elemType(xs))) {
				return false
			}
		}
		return true
	}
	return false
}

func partsOf2(t *T) []*T {
	p, _ := partsOf(t)
	return p
}

// mapSlot names the slot whose initial contents a map state is.
func mapSlot(w *visiting, st *T) string {
	for st.k == KApp && st.s == "mapupd" {
		st = st.a[0]
	}
	if st.k == KApp && st.s == "mapinit" {
		d := cellDiff{cell: mk(&T{k: KBacking, a: []*T{st.a[0]}})}
		if sl, ok := w.slotOf(d); ok {
			return sl.name
		}
	}
	return ""
}

// freshState: the first time the walker is applied to a file its lists and the ids met are empty.
func (r *Rep) freshState(ls *lintShape, ev *Ev, d, where string) {
	for _, k := range []string{ls.noIDs, ls.dups} {
		v := slotVal(ev, k)
		ok := len(v) == 1 && (v[0].isNil() || v[0].k == KSeq && len(v[0].a) == 0 || v[0].k == KMake && v[0].a[0].isInt() && v[0].a[0].int() == 0)
		r.check(ok, "fresh-per-file", d+": "+k, where, "%s is not empty when the plugins of a file are visited", k)
	}
	v := slotVal(ev, ls.seen)
	r.check(len(v) == 2 && v[1].k == KApp && v[1].s == "mapnew", "fresh-per-file", d+": "+ls.seen, where, "ids met in other files or passes are still known when the plugins of a file are visited")
	if ls.changed != "" && !strings.Contains(ls.changed, "+") {
		v := slotVal(ev, ls.changed)
		r.check(len(v) == 1 && (v[0] == tFalse || v[0].isInt() && v[0].int() == 0), "fresh-per-file", d+": "+ls.changed, where, "%s is not reset for every file", ls.changed)
	}
}

// ---- C23 ----

func ruleFixIDs(r *Rep) {
	a := r.runCommand("lint", r.applied)
	if a == nil {
		return
	}
	ls := r.lintShape(a)
	if ls == nil {
		return
	}
	w := ls.walker
	option := a.flagRead(writeFlag["lint"])
	r.check(option != nil, "fix-option", "lint", r.fnWhere(a.fn), "the option %s is not read", writeFlag["lint"])
	pt := w.cur.typ
	ps := structOf(pt)
	sat := needType(r.p.typ("ast", "StringAttribute"), "type ast.StringAttribute")
	sts := structOf(sat)
	sf := r.madeOf(r.p.fn("ast", "NewStringAttribute"), sat)
	dq := needConst(r.p, "ast", "DoubleQuoted")
	fixes := 0
	flagSlot := ""
	for i := range w.outs {
		o := &w.outs[i]
		d := fmt.Sprintf("%s: %s", w.fn.Name(), clip(factsString(o.st.facts), 200))
		where := r.fnWhere(w.fn)
		if o.kind != ORet {
			r.fail("fix", d, where, "adding an id may panic")
			continue
		}
		nf := -1
		for _, f := range o.st.facts {
			x, v := f, 1
			if f.k == KNot {
				x, v = f.a[0], 0
			}
			if x.k == KApp && strings.HasPrefix(x.s, "errorsAs:") && strings.HasSuffix(x.s, "NotFounder") && x.a[0] == mkApp("iderr", errIface, w.cur) {
				nf = v
			}
		}
		flag, fslot := r.flagFact(w, o, a, option)
		if fslot != "" {
			flagSlot = fslot
		}
		rep := replaceOf(o)
		var edits int
		for _, ev := range o.st.ev {
			if ev.kind == "call" && strings.HasPrefix(ev.name, "cursor.") && ev.name != "cursor.Replace" {
				edits++
				r.fail("fix", d+" "+ev.name, where, "the plugin list is changed by %s", ev.name)
			}
		}
		if rep == nil {
			// a plugin known to have no id attribute must get one when the option is set
			if r.hasID(w, o) == 0 {
				r.check(flag == 0 || nf == 0, "fix-complete", d, where, "a plugin without id attribute does not get one although the option is set")
			} else {
				r.pass("fix-complete", "%s", d)
			}
			continue
		}
		fixes++
		n := 0
		for _, ev := range o.st.ev {
			if ev.kind == "call" && ev.name == "cursor.Replace" {
				n++
			}
		}
		r.check(n == 1 && rep.args[0] == w.cursor, "fix", d+" once", where, "the current plugin is replaced %d times", n)
		r.check(r.hasID(w, o) == 0 && nf == 1, "fix-never-override", d, where, "an id is added to a plugin not known to lack an id attribute")
		r.check(flag == 1, "fix-option", d, where, "an id is added on a path on which the option is not known to be set")
		np := unwrapIface(rep.args[1])
		var val *T
		why := ""
		if np.k != KStruct {
			why = "the new plugin is not known"
		} else {
			for j := 0; j < ps.NumFields(); j++ {
				f := ps.Field(j)
				old := mkField(w.cur, f.Name(), f.Type())
				nw := np.a[j]
				if f.Name() != "Attributes" {
					if nw != old {
						same := isStructType(f.Type())
						if same {
							for q, x := range expandStruct(nw) {
								if x != expandStruct(old)[q] {
									same = false
								}
							}
						}
						if !same {
							why = "field " + f.Name() + " is changed"
						}
					}
					continue
				}
				rest, ok := stripParts(partsOf2(nw), partsOf2(old))
				if !ok || len(rest) != 1 || rest[0].k != KUnit {
					why = "the attributes are not the old ones followed by one new attribute"
					continue
				}
				at := unwrapIface(rest[0].a[0])
				if at.k != KStruct || !sameType(at.typ, sat) {
					why = "the new attribute is no string attribute"
					continue
				}
				for q := 0; q < sts.NumFields(); q++ {
					fv := at.a[q]
					switch q {
					case sf[0]:
						if !fv.isStr() || fv.str() != "id" {
							why = "the new attribute is not named id"
						}
					case sf[1]:
						val = fv
					case sf[2]:
						if !fv.isInt() || fv.int() != dq {
							why = "the new attribute is not double-quoted"
						}
					}
				}
			}
		}
		r.check(why == "", "fix", d, where, "%s", why)
		if val == nil {
			continue
		}
		for _, ch := range []rune{'"', '\\'} {
			r.check(excludes(val, ch, map[*T]bool{}), "fix-well-formed", fmt.Sprintf("%s %q", d, ch), where, "the new id is not free of %q by construction", ch)
		}
		// fresh: tested against and added to the set of used ids
		mp, mapCh := w.changes(o)[ls.used+"$map"]
		added := mapCh && mp.new.k == KApp && mp.new.s == "mapupd" && mp.new.a[1] == val && mapSlot(w, mp.new.a[0]) == ls.used && mp.new.a[0].s == "mapinit"
		r.check(added, "fix-unique", d+" recorded", where, "the new id is not recorded as used")
		tested := false
		for _, f := range o.st.facts {
			if f.k == KNot && f.a[0].k == KApp && f.a[0].s == "maphas" && f.a[0].a[1] == val && mapSlot(w, f.a[0].a[0]) == ls.used && ls.used != "" {
				tested = true
			}
		}
		r.check(tested, "fix-unique", d+" tested", where, "the new id is not known to be unused")
	}
	r.check(fixes > 0, "fix", "walker", r.fnWhere(w.fn), "no path adds an id")
	r.searchEnds(w.fn)
	r.check(ls.used != "" && !strings.Contains(ls.used, "+"), "fix-unique", "used ids", r.fnWhere(w.fn), "there is not exactly one set of used ids (%q)", ls.used)
	// on every file: all ids are collected into that set before the first plugin is changed
	collected := map[*ssa.Function]bool{}
	for _, s := range a.segs {
		parse := s.parse()
		if s.left || parse == nil || a.failedNil(s, errRes(parse)) != 1 {
			continue
		}
		d := "lint: " + a.describe(s)
		where := a.where(r, s)
		uses, ok := r.visitsAll(a, s, parse, d, where)
		if !ok {
			continue
		}
		before := map[*ssa.Function]*Ev{}
		var first *Ev
		late := false
		for _, u := range uses {
			if u.fn == w.fn {
				if first == nil {
					first = u.first
				}
				continue
			}
			if first != nil {
				late = true
			}
			if before[u.fn] == nil {
				before[u.fn] = u.first
			}
		}
		if first == nil {
			continue
		}
		r.check(!late, "fix-unique", d+": order", where, "ids are collected after the first plugin was changed")
		has := false
		for fn, ev := range before {
			if !r.collects(fn, ls.used) {
				continue
			}
			collected[fn] = true
			x, y := slotVal(ev, ls.used), slotVal(first, ls.used)
			if len(x) == 2 && len(y) == 2 && x[0] == y[0] {
				has = true
			}
		}
		r.check(has, "fix-unique", d+": collected", where, "the ids of the file are not collected before ids are added")
		if flagSlot != "" {
			v := slotVal(first, flagSlot)
			r.check(len(v) == 1 && v[0] == option, "fix-option", d, where, "whether ids are added does not depend on the option alone")
		}
	}
	r.floor("fix", 2)
	r.floor("fix-well-formed", 2)
	r.floor("fix-unique", 6)
}

// flagFact: what the path knows about the option; slot names the state that holds it.
func (r *Rep) flagFact(w *visiting, o *Outcome, a *appRun, option *T) (int, string) {
	for _, f := range o.st.facts {
		x, v := f, 1
		if f.k == KNot {
			x, v = f.a[0], 0
		}
		if x == option && option != nil {
			return v, ""
		}
		for i, rt := range w.root {
			switch {
			case x.k == KField && x.a[0].k == KDeref && x.a[0].a[0] == rt && isBoolType(x.typ):
				if !w.writes(x.s) {
					return v, x.s
				}
			case x.k == KDeref && x.a[0] == rt && isBoolType(x.typ):
				if !w.writes(w.fn.FreeVars[i].Name()) {
					return v, w.fn.FreeVars[i].Name()
				}
			}
		}
	}
	return -1, ""
}

func (w *visiting) writes(name string) bool {
	for _, sl := range w.changed() {
		if sl.name == name {
			return true
		}
	}
	return false
}

// collects: the function adds the id of every plugin that has one to the set, and does nothing else.
func (r *Rep) collects(fn *ssa.Function, set string) bool {
	w := r.visit(fn)
	ok := len(w.outs) > 0
	for i := range w.outs {
		o := &w.outs[i]
		ch := w.changes(o)
		d, has := ch[set+"$map"]
		if o.kind != ORet || len(ch) > 1 || len(ch) == 1 && !has {
			ok = false
		}
		if r.hasID(w, o) != 0 {
			ok = ok && has && d.new.k == KApp && d.new.s == "mapupd" && d.new.a[1] == mkApp("id", tString, w.cur) && mapSlot(w, d.new.a[0]) == set
		}
	}
	r.check(ok, "fix-unique", fn.Name()+" collects", r.fnWhere(fn), "%s does not record the id of every plugin that has one", fn.Name())
	return ok
}

// excludes: no value of the term can contain the character.
func excludes(t *T, ch rune, open map[*T]bool) bool {
	if open[t] {
		return true
	}
	open[t] = true
	switch t.k {
	case KConst:
		return t.isStr() && !strings.ContainsRune(t.str(), ch)
	case KCat:
		for _, p := range t.a {
			if !excludes(p, ch, open) {
				return false
			}
		}
		return true
	case KConv:
		return isStringType(t.a[0].typ) && excludes(t.a[0], ch, open)
	case KLoopVar:
		c := t.lp.comp(t.cmp.key)
		if c == nil || !excludes(c.init, ch, open) {
			return false
		}
		for _, tr := range t.lp.trans {
			if v := tr.vals[c.key]; v == nil || !excludes(v, ch, open) {
				return false
			}
		}
		return true
	case KApp:
		switch t.s {
		case "itoa", "strconv.Itoa":
			return !strings.ContainsRune("-0123456789", ch)
		case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
			if len(t.a) != 3 || !t.a[2].isStr() || strings.ContainsRune(t.a[2].str(), ch) || strings.ContainsRune(t.a[2].str(), '$') {
				return false
			}
			re := t.a[0]
			if re.k != KApp || re.s != "regexp" || !re.a[0].isStr() {
				return false
			}
			p, err := syntax.Parse(re.a[0].str(), syntax.Perl)
			if err != nil {
				return false
			}
			if p.Op == syntax.OpPlus && len(p.Sub) == 1 {
				p = p.Sub[0]
			}
			if p.Op != syntax.OpCharClass {
				return false
			}
			for i := 0; i+1 < len(p.Rune); i += 2 {
				if p.Rune[i] <= ch && ch <= p.Rune[i+1] {
					return true
				}
			}
			return false
		case "strings.ReplaceAll":
			if !t.a[1].isStr() || !t.a[2].isStr() || strings.ContainsRune(t.a[2].str(), ch) {
				return false
			}
			return t.a[1].str() == string(ch) || excludes(t.a[0], ch, open)
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.ToUpper":
			return excludes(t.a[0], ch, open)
		}
	}
	return false
}

// searchEnds: a loop that is left only once something is not in a map looks up something new in every iteration.
func (r *Rep) searchEnds(from *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	var reach func(fn *ssa.Function)
	reach = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil || fn != from && !r.p.inRepo(fn) {
			return
		}
		seen[fn] = true
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					reach(c.Common().StaticCallee())
				}
			}
		}
	}
	reach(from)
	for _, fn := range fns {
		for _, h := range fn.Blocks {
			back := false
			for _, p := range h.Preds {
				back = back || h.Dominates(p)
			}
			if !back {
				continue
			}
			loop := naturalLoop(h)
			var keys []ssa.Value
			other := false
			for b := range loop {
				cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok || loop[b.Succs[0]] && loop[b.Succs[1]] {
					continue
				}
				if k := lookedUp(cond.Cond, loop, map[ssa.Value]bool{}); k != nil {
					keys = append(keys, k)
				} else {
					other = true
				}
			}
			if other || len(keys) == 0 {
				continue
			}
			ok := false
			for _, k := range keys {
				ok = ok || variesIn(k, h, loop, map[ssa.Value]bool{})
			}
			r.check(ok, "search-ends", fn.Name(), r.fnWhere(fn), "%s looks up the same key again and again until it is not in the map: it may never end", fn.Name())
		}
	}
}

// lookedUp is the key of the look-up a condition is made of.
func lookedUp(v ssa.Value, loop map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) ssa.Value {
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !loop[in.Block()] {
		return nil
	}
	seen[v] = true
	if l, ok := v.(*ssa.Lookup); ok {
		return l.Index
	}
	switch v.(type) {
	case *ssa.Extract, *ssa.UnOp, *ssa.BinOp, *ssa.Phi:
		for _, op := range in.Operands(nil) {
			if k := lookedUp(*op, loop, seen); k != nil {
				return k
			}
		}
	}
	return nil
}

// variesIn: v is computed from something that is counted up or down in every iteration.
func variesIn(v ssa.Value, h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] {
		return false
	}
	seen[v] = true
	step := func(x, cell ssa.Value) bool { // x is the counter plus or minus a constant
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int || constant.Sign(c.Value) == 0 {
			return false
		}
		if b.X == cell {
			return true
		}
		l, ok := b.X.(*ssa.UnOp)
		return ok && l.Op == token.MUL && sameCell(l.X, cell)
	}
	stored := func(addr ssa.Value) bool {
		for b := range loop {
			for _, x := range b.Instrs {
				if s, ok := x.(*ssa.Store); ok && sameCell(s.Addr, addr) && (step(s.Val, addr) || variesIn(s.Val, h, loop, seen)) {
					return true
				}
			}
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if loop[x.Block().Preds[i]] && (x.Block() == h && step(e, x) || variesIn(e, h, loop, seen)) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return stored(x.X)
		}
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if s, ok := s.(*ssa.Store); ok && variesIn(s.Val, h, loop, seen) {
							return true
						}
					}
				}
			}
		}
	}
	if !loop[in.Block()] {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && variesIn(*op, h, loop, seen) {
			return true
		}
	}
	return false
}

// sameCell: two addresses are the same variable, or the same field of the same value.
func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && sameCell(x.X, y.X)
}

// madeOf are the fields a constructor keeps its parameters in.
func (r *Rep) madeOf(fn *ssa.Function, t types.Type) []int {
	s := structOf(t)
	if fn == nil || s == nil {
		panic(anchorError("constructor of " + shortType(t)))
	}
	var args []*T
	for _, p := range fn.Params {
		args = append(args, mkSym("arg "+p.Name(), p.Type()))
	}
	e := r.exec()
	out := make([]int, len(args))
	for i := range out {
		out[i] = -1
	}
	for _, o := range e.Call(fn, args, nil, newSt(), nil, nil) {
		if o.kind != ORet || len(o.vals) != 1 {
			continue
		}
		v := unwrapIface(o.vals[0])
		for q := 0; q < s.NumFields(); q++ {
			f := e.resolve(o.st, mkField(v, s.Field(q).Name(), s.Field(q).Type()))
			for i, a := range args {
				if f == a {
					out[i] = q
				}
			}
		}
	}
	for i := range out {
		if out[i] < 0 {
			panic(anchorError("where " + fn.Name() + " keeps " + fn.Params[i].Name()))
		}
	}
	return out
}
