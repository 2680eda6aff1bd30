package main

// C08: the record of the farthest failures.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// record is the package variable the failure report is made from.
type record struct {
	r        *T // its value at the start of a call
	addr     *T
	g        *ssa.Global
	elem     types.Type
	msg, pos string
	getter   *ssa.Function
	paths    [][]string // fields of the first element the report shows
}

// pathFrom gives the fields leading from root to x.
func pathFrom(x, root *T) ([]string, bool) {
	var p []string
	for x != root {
		if x == nil || x.k != KField {
			return nil, false
		}
		p = append([]string{x.s}, p...)
		x = x.a[0]
	}
	return p, true
}

func addrOf(x *T) *T {
	switch {
	case x.k == KDeref:
		return x.a[0]
	case x.k == KField:
		if b := addrOf(x.a[0]); b != nil {
			return mk(&T{k: KFAddr, s: x.s, a: []*T{b}, typ: types.NewPointer(x.typ)})
		}
	}
	return nil
}

// failRecord interprets the exported function without parameters that returns a text and whether there is one.
func (r *Rep) failRecord() *record {
	root := r.p.spkgs[r.p.modPath]
	if root == nil {
		panic(anchorError("root package"))
	}
	var rec *record
	for _, n := range sortedKeys(root.Members) {
		fn, _ := root.Members[n].(*ssa.Function)
		if fn == nil || fn.Object() == nil || !fn.Object().Exported() || len(fn.Params) != 0 {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 2 || !isStringType(rs.At(0).Type()) || !isBoolType(rs.At(1).Type()) {
			continue
		}
		if rec != nil {
			panic(anchorError("one exported function that reports the farthest failure"))
		}
		rec = &record{getter: fn}
	}
	if rec == nil {
		panic(anchorError("exported function that reports the farthest failure"))
	}
	e := r.exec()
	outs := e.Call(rec.getter, nil, nil, newSt(), nil, nil)
	for _, o := range outs {
		for _, f := range o.st.facts {
			walkTerm(f, func(x *T) bool {
				if x.k != KLen || !isSliceType(x.a[0].typ) || structOf(elemType(x.a[0])) == nil {
					return true
				}
				a := addrOf(x.a[0])
				if a == nil || rootOf(a).k != KGlobal {
					return true
				}
				if rec.r != nil && rec.r != x.a[0] {
					panic(anchorError("one list the failure report is made from"))
				}
				rec.r, rec.addr, rec.g = x.a[0], a, rootOf(a).g
				return true
			})
		}
	}
	if rec.r == nil {
		panic(anchorError("list the failure report is made from"))
	}
	rec.elem = elemType(rec.r)
	s := structOf(rec.elem)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case isStringType(f.Type()):
			if rec.msg != "" {
				panic(anchorError("one text in the elements of the failure record"))
			}
			rec.msg = f.Name()
		case isIntType(f.Type()):
			if rec.pos != "" {
				panic(anchorError("one position in the elements of the failure record"))
			}
			rec.pos = f.Name()
		}
	}
	if rec.msg == "" || rec.pos == "" {
		panic(anchorError("text and position in the elements of the failure record"))
	}
	first := mkElem(rec.r, mkInt(0), rec.elem)
	where := r.fnWhere(rec.getter)
	some, none := 0, 0
	for _, o := range outs {
		fs := factsString(o.st.facts)
		if o.kind != ORet || len(o.vals) != 2 {
			r.fail("report", "returns", where, "the report of the farthest failure does not return (%s)", fs)
			continue
		}
		ok := e.truth(o.st, o.vals[1])
		empty := e.truth(o.st, mkEQ0(mkLen(rec.r)))
		switch {
		case ok == 0:
			none++
			r.check(empty == 1, "report", "nothing to report", where, "nothing is reported although failures were recorded (%s)", fs)
			r.check(o.vals[0].isConst() && o.vals[0].str() == "", "report", "text without failures", where, "a text is given although nothing is reported (%s)", fs)
		case ok == 1:
			some++
			r.check(empty == 0, "report", "something to report", where, "a failure is reported although none was recorded (%s)", fs)
			lists, at := 0, 0
			for _, p := range partsOf2(o.vals[0]) {
				switch {
				case p.k == KApp && p.s == "mapcat":
					body, n := p.a[1], 0
					bps := partsOf2(body)
					for _, b := range bps {
						if b == rec.field(mkElem(rec.r, boundK, rec.elem), rec.msg, tString) {
							n++
						} else if !b.isConst() {
							n = 99
						}
					}
					lists++
					r.check(p.a[0] == rec.r && n == 1, "report", "expectations", where, "the report does not give the text of every recorded failure once: %s", p)
					// entries have to be told apart
					sep := len(bps) > 1 && bps[len(bps)-1].isConst() || len(bps) > 1 && bps[0].isConst()
					r.check(sep, "report", "separated", where, "the texts of the recorded failures are not separated: %s", body)
				case p.k == KApp && p.s == "itoa" && len(p.a) == 1 && p.a[0] == rec.field(first, rec.pos, tInt):
					at++
				case p.isConst():
				default:
					if has(p, rec.r) {
						ok := true
						walkTerm(p, func(x *T) bool {
							if x.k == KField {
								if ps, is := pathFrom(x, first); is {
									rec.paths = append(rec.paths, ps)
									return false
								}
							}
							if x.k == KElem && x.a[0] == rec.r && x != first {
								ok = false
							}
							return true
						})
						r.check(ok, "report", "place", where, "the report shows %s", p)
					}
				}
			}
			r.check(lists == 1, "report", "list of expectations", where, "the report contains %d lists of the recorded failures: %s", lists, o.vals[0])
			r.check(at >= 1, "report", "position", where, "the report does not give the position of the failures: %s", o.vals[0])
		default:
			r.fail("report", "answer", where, "whether there is a report is not determined by the record: %s (%s)", o.vals[1], fs)
		}
	}
	r.check(some > 0 && none > 0, "report", "cases", where, "the report does not distinguish whether failures were recorded")
	r.done("report", e, "getter")
	return rec
}

func has(x, y *T) bool { return contains(x, y) }

func (rec *record) field(x *T, f string, t types.Type) *T {
	return mkField(x, f, fieldType(structOf(rec.elem), f))
}

// expectation names the alternatives a predicate that never matches stands behind, in the reference.
func expectations(ref *pegFile) map[*gnode][]*gnode {
	out := map[*gnode][]*gnode{}
	var walk func(n *gnode)
	walk = func(n *gnode) {
		if n == nil {
			return
		}
		if n.kind == "choice" {
			for i, k := range n.kids {
				if k.kind == "andcode" {
					out[k] = n.kids[:i]
				}
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for _, ru := range ref.rules {
		walk(ru.expr)
	}
	return out
}

var tokenNames = map[string]string{"}": "curly", "]": "square", ")": "parenthes", `"`: "double", "'": "single", "/": "slash"}

// tokens lists the fixed texts of an alternative.
func altToken(n *gnode) (string, bool) {
	for n.kind == "action" || n.kind == "label" {
		n = n.kids[0]
	}
	switch n.kind {
	case "lit":
		return n.lit, true
	case "seq":
		s := ""
		for _, k := range n.kids {
			switch t, ok := altToken(k); {
			case ok:
				s += t
			case k.kind == "ref":
				if !strings.HasSuffix(s, " ") {
					s += " "
				}
			default:
				return "", false
			}
		}
		return s, true
	}
	return "", false
}

func ruleFailRecord(r *Rep) {
	rec := r.failRecord()
	first := mkElem(rec.r, mkInt(0), rec.elem)
	sem := r.sem()
	exp := expectations(sem.ref)
	visited := map[*ssa.Function]bool{}
	texts := map[string]map[string]bool{}
	r.semRule("C08", func(c *sctx) {
		if c.p.ref.kind != "andcode" {
			return
		}
		for f := range c.e.visited {
			visited[f] = true
		}
		st := c.o.st
		fs := factsString(st.facts)
		now := c.e.resolve(st, c.e.load(st, rec.addr, rec.r.typ, nil, nil))
		cut := now == rec.r
		if c.name == "start" {
			r.check(c.e.truth(st, mkEQ0(mkLen(now))) == 1, "record", c.construct("empties the record"), c.where(), "a parse starts with the record %s (%s)", now, fs)
			return
		}
		if c.name != "fail" && c.name != "fatal" {
			return
		}
		pos := mkField(c.sr.pos, "offset", tInt)
		end := linAdd(pos, mkLen(c.text))
		// the new element
		var ne *T
		n := 0
		rest := true
		if now.k == KSeq {
			for _, p := range now.a {
				switch {
				case p.k == KUnit:
					ne = c.e.resolve(st, p.a[0])
					n++
				case p == rec.r:
					rest = false
				default:
					n = 99
				}
			}
			if len(now.a) == 2 && now.a[1].k != KUnit {
				n = 99
			}
		} else if !cut {
			n = 99
		}
		msg := ""
		if n > 1 || n == 0 && !cut {
			r.fail("record", c.construct("shape"), c.where(), "the record becomes %s (%s)", now, fs)
			return
		}
		if n == 1 {
			m := rec.field(ne, rec.msg, nil)
			if !m.isConst() || strings.TrimSpace(m.str()) == "" {
				r.fail("record", c.construct("expectation"), c.where(), "the failure is recorded with the text %s", m)
			} else {
				msg = m.str()
			}
			at := rec.field(ne, rec.pos, nil)
			r.check(at == end, "record", c.construct("position"), c.where(), "the failure is recorded at %s instead of the end of the text matched last, %s", at, end)
			for _, p := range rec.paths {
				got, want := ne, c.sr.cur
				same := true
				for _, f := range p {
					gt := fieldType(structOf(got.typ), f)
					if gt == nil {
						same = false
						break
					}
					got = mkField(got, f, gt)
					if sameType(got.typ, c.sr.cur.typ) {
						want = c.sr.cur
						continue
					}
					wt := fieldType(structOf(want.typ), f)
					if wt == nil {
						same = false
						break
					}
					want = mkField(want, f, wt)
				}
				r.check(same && c.e.resolve(st, got) == c.e.resolve(st, want), "record", c.construct("place "+strings.Join(p, ".")), c.where(), "the place recorded for the report is %s instead of %s", got, want)
			}
			// distinct expectations have distinct texts
			if msg != "" {
				var alts []string
				for _, a := range exp[c.p.ref] {
					t, ok := altToken(a)
					if ok {
						alts = append(alts, t)
						name := tokenNames[t]
						if name == "" {
							name = strings.Join(strings.Fields(t), " ")
						}
						low := strings.ToLower(msg)
						r.check(strings.Contains(low, name) || strings.Contains(msg, t), "expectation", c.construct("mentions "+t), c.where(), "the text %q does not mention the expected %s", msg, t)
					} else {
						alts = append(alts, fmt.Sprint(a.name, a.id))
					}
				}
				key := strings.Join(alts, " / ")
				if texts[msg] == nil {
					texts[msg] = map[string]bool{}
				}
				texts[msg][key] = true
			}
		}
		if c.name == "fatal" {
			r.check(n == 1 && rest, "record", c.construct("replaces the record"), c.where(), "a missing delimiter leaves the record %s (%s)", now, fs)
			if c.o.kind == OPanic && c.o.pan != nil && msg != "" {
				// the error it ends the parse with names the same
				says, place := false, false
				ln := mkField(c.sr.pos, "line", tInt)
				for _, p := range textParts31(bare(c.o.pan)) {
					says = says || p.isConst() && p.isStr() && strings.Contains(p.str(), msg) || contains(p, mkStr(msg))
					place = place || contains(p, end) || contains(p, ln)
				}
				r.check(says, "fatal", c.construct("expectation"), c.where(), "the error for a missing delimiter does not name it: %s", c.o.pan)
				r.check(place, "fatal", c.construct("position"), c.where(), "the error for a missing delimiter does not give its position: %s", c.o.pan)
			}
			return
		}
		before := mkField(first, rec.pos, tInt)
		empty := c.e.truth(st, mkEQ0(mkLen(rec.r))) == 1 || c.e.entailLE(st, mkLen(rec.r))
		if empty && c.e.truth(st, mkEQ0(mkLen(rec.r))) == 0 {
			return // the path contradicts itself
		}
		farther := c.e.entailLE(st, linAddC(linSub(before, end), 1))
		nearer := c.e.entailLE(st, linAddC(linSub(end, before), 1))
		same := c.e.entailLE(st, linSub(end, before)) && c.e.entailLE(st, linSub(before, end))
		switch {
		case cut && nearer:
			r.pass("record", "%s", c.construct("nearer"))
		case cut && same:
			r.check(rec.known(c, true), "record", c.construct("listed before"), c.where(), "a failure at the recorded position is not listed although it may not have been before (%s)", fs)
		case cut:
			r.fail("record", c.construct("unchanged"), c.where(), "a failure is not recorded although the record may be empty or of an earlier position (%s)", fs)
		case rest && (empty || farther) || empty:
			r.pass("record", "%s", c.construct("farther"))
		case rest:
			r.fail("record", c.construct("replaced"), c.where(), "the record is replaced by a failure that may not be farther (%s)", fs)
		case !same:
			r.fail("record", c.construct("added"), c.where(), "a failure is added to the record although its position may differ from that of the record (%s)", fs)
		default:
			r.check(rec.known(c, false), "record", c.construct("listed once"), c.where(), "a failure is added to the record although it may be listed already (%s)", fs)
		}
	})
	for _, m := range sortedKeys(texts) {
		r.check(len(texts[m]) == 1, "expectation", "text "+m, "", "the text %q stands for different expectations: %s", m, strings.Join(sortedKeys(texts[m]), "; "))
	}
	// nothing else changes the record
	for _, w := range r.p.writers[rec.g] {
		rec.onlyFrom(r, w, visited, map[*ssa.Function]bool{})
	}
	r.floor("record", 60)
	r.floor("report", 8)
	r.floor("expectation", 20)
	r.floor("record-writers", 2)
}

// onlyFrom: the function is only used by the code of the predicates.
func (rec *record) onlyFrom(r *Rep, fn *ssa.Function, visited, open map[*ssa.Function]bool) {
	if open[fn] {
		return
	}
	open[fn] = true
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return
	}
	if !r.check(visited[fn], "record-writers", fn.String(), r.fnWhere(fn), "the record of failures is changed by code that does not belong to a predicate of the grammar") {
		return
	}
	var cs []*ssa.Function
	for _, f := range r.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					cs = append(cs, f)
				}
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
	for _, f := range cs {
		rec.onlyFrom(r, f, visited, open)
	}
}

// known tells whether the path has found (or has not found, having looked at all of them) an element with the text.
func (rec *record) known(c *sctx, found bool) bool {
	st := c.o.st
	eqFact := func(facts []*T, lp *Loop) (yes, no bool) {
		for _, f := range facts {
			neg := f.k == KNot
			if neg {
				f = f.a[0]
			}
			if f.k != KCmp || len(f.a) != 2 {
				continue
			}
			for i := 0; i < 2; i++ {
				el, m := f.a[i], f.a[1-i]
				if el.k != KField || el.s != rec.msg || el.a[0].k != KElem || el.a[0].a[0] != rec.r || !m.isConst() {
					continue
				}
				if lp != nil && el.a[0].a[1] != lp.K {
					continue
				}
				if neg {
					no = true
				} else {
					yes = true
				}
			}
		}
		return
	}
	yes, _ := eqFact(st.facts, nil)
	if found && yes {
		return true
	}
	for _, ev := range st.ev {
		if ev.kind != "loop" {
			continue
		}
		lp := ev.lp
		if found {
			// the exit state is only reached through an iteration that met the text
			reach := map[int]bool{0: true}
			for again := true; again; {
				again = false
				for _, t := range lp.trans {
					y, _ := eqFact(t.facts, lp)
					if !y && reach[t.from] && !reach[t.to] {
						reach[t.to], again = true, true
					}
				}
			}
			if !reach[ev.hi] {
				return true
			}
			continue
		}
		if !c.e.iterates(lp, rec.r, st) || len(lp.trans) == 0 {
			continue
		}
		co := coReach(lp, ev.hi)
		ok := true
		for _, t := range lp.trans {
			if _, n := eqFact(t.facts, lp); co[t.to] && !n {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func init() {
	register("C08", semBasis+"The function that reports the farthest failure is interpreted to find the package variable it reads; its text must give the position and each recorded text once. The code of every predicate of the grammar that never matches is interpreted with an arbitrary record: on each path the record must become the single new failure, be extended by it, or stay, according to the order of the positions entailed by the path, the search for an equal text being read off the summarised loop. The predicate at the start must leave the record empty; nothing else may write it; texts must name what was expected and differ between different expectations.", ruleFailRecord)
}
