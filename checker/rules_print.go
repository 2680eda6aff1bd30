package main

// The printers of the syntax tree (C09, C14). Every String/ValueString method is
// interpreted on an arbitrary node; the text terms it returns (with the graphs of its
// loops) are read by a monitor compiled from the layout the grammar demands of that node.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var printMethods = map[string]bool{"String": true, "ValueString": true, "CommentBlock": true}

// printExec interprets one printer; the printers of child nodes and the indentation stay symbolic.
func (r *Rep) printExec() *Exec {
	e := r.exec()
	e.hazards = true
	pre := r.prefixFn()
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn == nil {
			if ci.recv != nil && len(ci.args) == 0 && printMethods[ci.name[strings.LastIndex(ci.name, ".")+1:]] && ci.sig.Results().Len() == 1 {
				return nil, false
			}
			return nil, false
		}
		if ci.fn == pre {
			return one(ci.st, mkApp("prefix", tString, e.resolve(ci.st, ci.args[0]), ci.args[1])), true
		}
		if n, ok := r.childPrinter(ci.fn); ok {
			x := e.resolve(ci.st, ci.args[0])
			return one(ci.st, mkApp("m:"+n, tString, x)), true
		}
		return nil, false
	}
	e.nonEmpty = func(t *T) bool {
		return t.k == KApp && strings.HasPrefix(t.s, "m:") && t.s != "m:CommentBlock" && len(t.a) == 1 && !r.isCommentBlock(t.a[0].typ)
	}
	return e
}

func (r *Rep) isCommentBlock(t types.Type) bool {
	return t != nil && sameType(types.Unalias(t), r.p.typ("ast", "CommentBlock"))
}

// childPrinter tells whether fn prints a node (a method on a value of the tree package).
func (r *Rep) childPrinter(fn *ssa.Function) (string, bool) {
	if !printMethods[fn.Name()] || fn.Signature.Recv() == nil || len(fn.Params) != 1 {
		return "", false
	}
	t := fn.Signature.Recv().Type()
	if pt := ptrElem(t); pt != nil {
		t = pt
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != r.p.pkg("ast").Pkg || n.Obj().Name() == "BoolExpression" {
		return "", false
	}
	return fn.Name(), true
}

func (r *Rep) prefixFn() *ssa.Function {
	return need(r.p.fn("ast", "prefix"), "function ast.prefix")
}

// ---- the layout language ----

type pkind uint8

const (
	pLit  pkind = iota // literal characters
	pWs                // any white space
	pWs1               // at least one white space character
	pNl                // a line end
	pItem              // the text of one of the given terms
	pSkip              // passes without text when all conditions hold
	pAlt
	pList
	pBodyEnd
	pSepEnd
	pEnd
)

type pnode struct {
	kind  pkind
	lit   string
	terms []*T
	list  *T
	ph    *T
	body  *pnode
	sep   *pnode
	loose bool // white space is allowed between elements
	apart bool // and needed
	owner *pnode
	alts  []*pnode
	next  *pnode
	id    int
}

type pframe struct {
	n       *pnode
	L       *T
	idx     *T
	started bool
	in      bool // inside an element
	ws      bool // white space was read since the last element
	up      *pframe
}

type pstate struct {
	n   *pnode
	off int
	fr  *pframe
}

type lay func(b *pbuild, next *pnode) *pnode

type pbuild struct{ n int }

func (b *pbuild) node(n pnode) *pnode {
	b.n++
	n.id = b.n
	return &n
}

func lSeq(ls ...lay) lay {
	return func(b *pbuild, next *pnode) *pnode {
		for i := len(ls) - 1; i >= 0; i-- {
			next = ls[i](b, next)
		}
		return next
	}
}

func lLit(s string) lay {
	return func(b *pbuild, next *pnode) *pnode { return b.node(pnode{kind: pLit, lit: s, next: next}) }
}

func lKind(k pkind) lay {
	return func(b *pbuild, next *pnode) *pnode { return b.node(pnode{kind: k, next: next}) }
}

var (
	lW  = lKind(pWs)
	lW1 = lKind(pWs1)
	lNl = lKind(pNl)
)

func lItem(ts ...*T) lay {
	return func(b *pbuild, next *pnode) *pnode { return b.node(pnode{kind: pItem, terms: ts, next: next}) }
}

func lAlt(ls ...lay) lay {
	return func(b *pbuild, next *pnode) *pnode {
		n := pnode{kind: pAlt}
		for _, l := range ls {
			n.alts = append(n.alts, l(b, next))
		}
		return b.node(n)
	}
}

// lSkip passes silently if all conditions hold on the path.
func lSkip(conds ...*T) lay {
	return func(b *pbuild, next *pnode) *pnode { return b.node(pnode{kind: pSkip, terms: conds, next: next}) }
}

func lOpt(x *T, l lay) lay { return lAlt(l, lSkip(mkEq(x, mkNil(x.typ)))) }

// lLoose is a list whose elements may be separated by white space, lApart one whose elements must be.
func lLoose(L *T, body func(elem *T) lay) lay { return lListOf(L, body, nil, true, false) }
func lApart(L *T, body func(elem *T) lay) lay { return lListOf(L, body, nil, true, true) }

func lList(L *T, body func(elem *T) lay, sep lay) lay { return lListOf(L, body, sep, false, false) }

func lListOf(L *T, body func(elem *T) lay, sep lay, loose, apart bool) lay {
	return func(b *pbuild, next *pnode) *pnode {
		b.n++
		et := under(L.typ).(*types.Slice).Elem()
		n := b.node(pnode{kind: pList, list: L, next: next, loose: loose, apart: apart})
		n.ph = mkSym(fmt.Sprintf("element%d", b.n), et)
		be := b.node(pnode{kind: pBodyEnd, owner: n})
		n.body = body(n.ph)(b, be)
		if sep != nil {
			n.sep = sep(b, b.node(pnode{kind: pSepEnd, owner: n}))
		}
		return n
	}
}

// ---- the monitor ----

type pctx struct {
	e  *Exec
	st *St
	ev []*Ev
}

type pmon struct {
	r    *Rep
	what string
	err  string
	nil_ bool
	n    int
}

func (f *pframe) key() string {
	if f == nil {
		return ""
	}
	return fmt.Sprintf("(%d,%d,%d,%v%v%v)%s", f.n.id, f.L.id, f.idx.id, f.started, f.in, f.ws, f.up.key())
}

func (s pstate) key() string { return fmt.Sprintf("%d.%d%s", s.n.id, s.off, s.fr.key()) }

type pset map[string]pstate

func (s pset) key() string { return strings.Join(sortedKeys(s), ";") }

func (c *pctx) holds(t *T) bool { return c.e.truth(c.st, t) == 1 }

func (f *pframe) inst(t *T) *T {
	m := map[*T]*T{}
	for g := f; g != nil; g = g.up {
		m[g.n.ph] = mkElem(g.L, g.idx, g.n.ph.typ)
	}
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

// allNil: the path has walked over the whole list and found nothing but nil elements.
func (c *pctx) allNil(L *T) bool {
	for _, ev := range c.ev {
		if ev.kind != "loop" || ev.lp == nil {
			continue
		}
		lp := ev.lp
		if !c.holds(mkLE(linSub(mkLen(L), lp.K))) {
			continue
		}
		et := under(L.typ).(*types.Slice).Elem()
		want := mkEq(mkElem(L, lp.K, et), mkNil(et))
		reach, ok := map[int]bool{ev.hi: true}, true
		for again := true; again; {
			again = false
			for _, t := range lp.trans {
				if reach[t.to] && !reach[t.from] {
					reach[t.from] = true
					again = true
				}
			}
		}
		for _, t := range lp.trans {
			if !reach[t.to] {
				continue
			}
			st := newSt()
			for _, f := range t.facts {
				c.e.assume(st, f)
			}
			ok = ok && c.e.truth(st, want) == 1
		}
		if ok {
			return true
		}
	}
	return false
}

func (m *pmon) close(c *pctx, in pset) pset {
	out := pset{}
	var q []pstate
	add := func(s pstate) {
		k := s.key()
		if _, ok := out[k]; !ok {
			out[k] = s
			q = append(q, s)
		}
	}
	for _, k := range sortedKeys(in) {
		add(in[k])
	}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		n := s.n
		if f := s.fr; f != nil && !f.in {
			if et := f.n.ph.typ; c.holds(mkEq(mkElem(f.L, f.idx, et), mkNil(et))) {
				g := *f
				g.idx = linAddC(f.idx, 1)
				add(pstate{n: n, off: s.off, fr: &g})
			}
		}
		switch n.kind {
		case pLit:
			if s.off == len(n.lit) {
				add(pstate{n: n.next, fr: s.fr})
			}
		case pWs:
			add(pstate{n: n.next, fr: s.fr})
		case pWs1:
			if s.off == 1 {
				add(pstate{n: n.next, fr: s.fr})
			}
		case pSkip:
			ok := true
			for _, t := range n.terms {
				ok = ok && c.holds(s.fr.inst(t))
			}
			if ok {
				add(pstate{n: n.next, fr: s.fr})
			}
		case pAlt:
			for _, a := range n.alts {
				add(pstate{n: a, fr: s.fr})
			}
		case pList:
			f := s.fr
			if f == nil || f.n != n {
				add(pstate{n: n, fr: &pframe{n: n, L: s.fr.inst(n.list), idx: mkInt(0), up: s.fr}})
				continue
			}
			if c.holds(mkLE(linSub(mkLen(f.L), f.idx))) || f.idx == mkInt(0) && c.allNil(f.L) {
				add(pstate{n: n.next, fr: f.up})
			}
			if f.started && n.sep != nil {
				add(pstate{n: n.sep, fr: f})
			} else if !f.started || !n.apart || f.ws {
				g := *f
				g.in = true
				add(pstate{n: n.body, fr: &g})
			}
		case pSepEnd:
			g := *s.fr
			g.in = true
			add(pstate{n: n.owner.body, fr: &g})
		case pBodyEnd:
			f := s.fr
			add(pstate{n: n.owner, fr: &pframe{n: f.n, L: f.L, idx: linAddC(f.idx, 1), started: true, up: f.up}})
		}
	}
	return out
}

func (m *pmon) expected(in pset) string {
	var w []string
	seen := map[string]bool{}
	for _, k := range sortedKeys(in) {
		s, t := in[k], ""
		switch s.n.kind {
		case pLit:
			t = fmt.Sprintf("%q", s.n.lit[s.off:])
		case pWs, pWs1:
			t = "white space"
		case pNl:
			t = "a line end"
		case pItem:
			t = s.fr.inst(s.n.terms[0]).String()
		case pEnd:
			t = "the end of the text"
		}
		if t != "" && !seen[t] {
			seen[t] = true
			w = append(w, t)
		}
	}
	return strings.Join(w, " or ")
}

func (m *pmon) dead(in pset, got string, c *pctx) {
	if m.err == "" {
		m.err = fmt.Sprintf("%s is written where %s belongs (path %s)", got, m.expected(in), clip(factsString(c.st.facts), 300))
	}
}

func (m *pmon) char(c *pctx, in pset, ch byte) pset {
	in = m.close(c, in)
	out := pset{}
	ws := ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'
	for _, s := range in {
		var t pstate
		switch {
		case s.n.kind == pLit && s.off < len(s.n.lit) && s.n.lit[s.off] == ch:
			t = pstate{n: s.n, off: s.off + 1, fr: s.fr}
		case (s.n.kind == pWs || s.n.kind == pWs1) && ws:
			t = pstate{n: s.n, off: 1, fr: s.fr}
		case s.n.kind == pList && s.n.loose && ws && s.fr != nil && s.fr.n == s.n:
			g := *s.fr
			g.ws = true
			t = pstate{n: s.n, fr: &g}
		case s.n.kind == pNl && ch == '\n':
			t = pstate{n: s.n.next, fr: s.fr}
		default:
			continue
		}
		out[t.key()] = t
	}
	if len(out) == 0 {
		m.dead(in, fmt.Sprintf("%q", string(ch)), c)
	}
	return out
}

var mapLoops int

// mapLoop is the loop graph of a list that is mapped element by element.
func mapLoop(t *T, emit []*T) *Loop {
	mapLoops++
	c := &comp{key: "map", mode: MAcc}
	K := mkSym(fmt.Sprintf("K#map%d", mapLoops), tInt)
	X := t.a[0]
	for i, e := range emit {
		emit[i] = subst(e, map[*T]*T{boundOf(t): K})
	}
	lp := &Loop{id: mapLoops, ex: -1, K: K, comps: []*comp{c}, heads: []*Head{{idx: 0}, {idx: 1, carry: []*T{mkLE(linSub(K, mkLen(X)))}}}}
	in := mkLE(linAddC(linSub(K, mkLen(X)), 1))
	for h := 0; h < 2; h++ {
		lp.trans = append(lp.trans, &Trans{from: h, to: 1, facts: []*T{in}, emit: map[string][]*T{"map": emit}})
	}
	return lp
}

// mapped reads the text of a map over a list.
func (m *pmon) mapped(c *pctx, in pset, t *T, first bool, emit []*T, body func(*pctx, pset, []*T, bool) ([]pset, bool)) []pset {
	lp := mapLoop(t, emit)
	X := t.a[0]
	// no iteration: the list is empty
	none := pset{}
	for _, s := range m.close(c, in) {
		none[s.key()] = s
		if s.fr != nil && s.fr.L == X && s.fr.idx == mkInt(0) {
			f := *s.fr
			f.idx = mkLen(X)
			s.fr = &f
			none[s.key()] = s
		}
	}
	outs := []pset{none}
	for _, o := range m.loopRun(c, in, mk(&T{k: KLoopAcc, lp: lp, hi: 1, cmp: lp.comps[0], s: "U", typ: tString}), body, first) {
		x := pset{}
		for _, s := range o {
			s.fr = s.fr.mapIdx(func(i *T) *T { return subst(i, map[*T]*T{lp.K: mkLen(X)}) })
			x[s.key()] = s
		}
		outs = append(outs, x)
	}
	return outs
}

func stripConv(t *T) *T {
	for t.k == KConv {
		t = t.a[0]
	}
	return t
}

func (m *pmon) item(c *pctx, in pset, t *T) pset {
	in = m.close(c, in)
	out := pset{}
	for _, s := range in {
		if s.n.kind != pItem {
			continue
		}
		for _, w := range s.n.terms {
			if stripConv(s.fr.inst(w)) == stripConv(t) {
				x := pstate{n: s.n.next, fr: s.fr}
				out[x.key()] = x
			}
		}
	}
	if len(out) == 0 {
		m.dead(in, clip(t.String(), 200), c)
	}
	return out
}

func (m *pmon) each(ins []pset, f func(in pset) []pset) (out []pset) {
	seen := map[string]bool{}
	for _, in := range ins {
		for _, o := range f(in) {
			if k := o.key(); len(o) > 0 && !seen[k] {
				seen[k] = true
				out = append(out, o)
			}
		}
	}
	return
}

// feed reads the text t; the result are the state sets of all texts it can stand for.
func (m *pmon) feed(c *pctx, in pset, t *T) []pset {
	if m.err != "" {
		return nil
	}
	switch {
	case t.isStr():
		for i := 0; i < len(t.str()); i++ {
			if in = m.char(c, in, t.str()[i]); len(in) == 0 {
				return nil
			}
		}
		return []pset{in}
	case t.k == KCat:
		outs := []pset{in}
		for _, p := range t.a {
			outs = m.each(outs, func(in pset) []pset { return m.feed(c, in, p) })
		}
		return outs
	case t.k == KApp && t.s == "prefix":
		// white space may be added before, the rest is C11's concern
		outs := []pset{in}
		if x := m.char(c, in, '\n'); len(x) > 0 {
			outs = append(outs, x)
		}
		return m.each(outs, func(in pset) []pset { return m.feed(c, in, t.a[0]) })
	case t.k == KApp && t.s == "strings.Join" && len(t.a) == 2:
		return m.join(c, in, t.a[0], t.a[1])
	case t.k == KApp && t.s == "mapcat":
		return m.mapped(c, in, t, false, []*T{t.a[1]}, func(c *pctx, in pset, emit []*T, _ bool) ([]pset, bool) {
			return m.feed(c, in, emit[0]), false
		})
	case t.k == KLoopAcc:
		return m.loop(c, in, t, func(c *pctx, in pset, emit []*T) []pset {
			outs := []pset{in}
			for _, p := range emit {
				outs = m.each(outs, func(in pset) []pset { return m.feed(c, in, p) })
			}
			return outs
		})
	}
	if o := m.item(c, in, t); len(o) > 0 {
		return []pset{o}
	}
	return nil
}

// join reads the elements of a string list with a separator between them.
func (m *pmon) join(c *pctx, in pset, list, sep *T) []pset {
	parts := []*T{list}
	if list.k == KSeq {
		parts = list.a
	}
	first := true
	outs := []pset{in}
	unit := func(c *pctx, in pset, x *T, first bool) []pset {
		outs := []pset{in}
		if !first {
			outs = m.feed(c, in, sep)
		}
		return m.each(outs, func(in pset) []pset { return m.feed(c, in, x) })
	}
	for _, p := range parts {
		switch {
		case p.k == KUnit:
			outs = m.each(outs, func(in pset) []pset { return unit(c, in, p.a[0], first) })
			first = false
		case p.k == KApp && p.s == "mapseq" && first && p.a[1].k == KSeq:
			outs = m.each(outs, func(in pset) []pset {
				return m.mapped(c, in, p, true, append([]*T{}, p.a[1].a...), func(c *pctx, in pset, emit []*T, first bool) ([]pset, bool) {
					return m.units(c, in, emit, first, unit)
				})
			})
			first = false
		case p.k == KLoopAcc && first:
			// the first element of the list gets no separator: two copies of the loop
			outs = m.each(outs, func(in pset) []pset {
				return m.loopFirst(c, in, p, unit)
			})
			first = false
		case p.k == KLoopAcc:
			outs = m.each(outs, func(in pset) []pset {
				return m.loop(c, in, p, func(c *pctx, in pset, emit []*T) []pset {
					o, _ := m.units(c, in, emit, false, unit)
					return o
				})
			})
		default:
			m.err = fmt.Sprintf("the list %s that is joined is not understood", clip(list.String(), 200))
			return nil
		}
	}
	return outs
}

func (m *pmon) loopFirst(c *pctx, in pset, acc *T, unit func(*pctx, pset, *T, bool) []pset) []pset {
	return m.loopRun(c, in, acc, func(c *pctx, in pset, emit []*T, first bool) ([]pset, bool) {
		return m.units(c, in, emit, first, unit)
	}, true)
}

func (m *pmon) units(c *pctx, in pset, emit []*T, first bool, unit func(*pctx, pset, *T, bool) []pset) ([]pset, bool) {
	outs := []pset{in}
	for _, u := range emit {
		if u.k != KUnit {
			m.err = fmt.Sprintf("the list part %s is not understood", clip(u.String(), 200))
			return nil, first
		}
		f := first
		outs = m.each(outs, func(in pset) []pset { return unit(c, in, u.a[0], f) })
		first = false
	}
	return outs, first
}

func (m *pmon) loop(c *pctx, in pset, acc *T, body func(*pctx, pset, []*T) []pset) []pset {
	return m.loopRun(c, in, acc, func(c *pctx, in pset, emit []*T, first bool) ([]pset, bool) {
		return body(c, in, emit), false
	}, false)
}

// loopRun explores the product of a loop graph and the monitor.
func (m *pmon) loopRun(c *pctx, in pset, acc *T, body func(*pctx, pset, []*T, bool) ([]pset, bool), first bool) []pset {
	lp, key, target := acc.lp, acc.cmp.key, acc.hi
	co := map[int]bool{target: true}
	for again := true; again; {
		again = false
		for _, t := range lp.trans {
			if co[t.to] && !co[t.from] {
				co[t.from], again = true, true
			}
		}
	}
	type node struct {
		h     int
		set   pset
		first bool
	}
	start := pset{}
	for _, s := range m.close(c, in) {
		start[s.key()] = s
		s.fr = s.fr.mapIdx(func(t *T) *T {
			if t.isInt() {
				return linAddC(lp.K, t.int())
			}
			return t
		})
		start[s.key()] = s
	}
	seen := map[string]bool{}
	q := []node{{0, start, first}}
	var outs []pset
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		k := fmt.Sprintf("%d|%v|%s", n.h, n.first, n.set.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 2000 {
			m.err = "the loop over the children does not settle"
			return nil
		}
		if n.h == target {
			outs = append(outs, n.set)
		}
		for _, t := range lp.trans {
			if t.from != n.h || !co[t.to] {
				continue
			}
			st := newSt()
			for _, f := range c.st.facts {
				if !contains(f, lp.K) && !mentionsLoop(f, lp) {
					c.e.assume(st, f)
				}
			}
			if n.h == 0 {
				c.e.assume(st, mkEQ0(lp.K))
			}
			for _, f := range append(append([]*T{}, lp.heads[n.h].carry...), t.facts...) {
				c.e.assume(st, f)
			}
			tc := &pctx{e: c.e, st: st, ev: append(append([]*Ev{}, c.ev...), t.ev...)}
			res, f2 := body(tc, n.set, t.emit[key], n.first)
			if m.err != "" {
				return nil
			}
			for _, o := range res {
				nx := pset{}
				for _, s := range m.close(tc, o) {
					lag := false
					s.fr = s.fr.mapIdx(func(t *T) *T {
						if contains(t, lp.K) {
							t = linAddC(t, -1)
							if d := linSub(t, lp.K); d.isInt() && d.int() < -3 {
								lag = true
							}
						}
						return t
					})
					if !lag {
						nx[s.key()] = s
					}
				}
				if len(nx) == 0 {
					m.dead(o, "a loop step without its element", tc)
					return nil
				}
				q = append(q, node{t.to, nx, f2})
			}
		}
	}
	return outs
}

func (f *pframe) mapIdx(g func(*T) *T) *pframe {
	if f == nil {
		return nil
	}
	c := *f
	c.idx = g(f.idx)
	c.up = f.up.mapIdx(g)
	return &c
}

// ---- the layout of every node ----

type printSpec struct {
	typ, method string
	lay         func(r *Rep, x *T) lay
}

// textField is the name of the only text in a structure.
func textField(x *T) string {
	n := ""
	if s := structOf(x.typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if isStringType(s.Field(i).Type()) {
				if n != "" {
					panic(anchorError("the text of " + shortType(x.typ)))
				}
				n = s.Field(i).Name()
			}
		}
	}
	if n == "" {
		panic(anchorError("the text of " + shortType(x.typ)))
	}
	return n
}

func (r *Rep) fld(x *T, names ...string) *T {
	for _, n := range names {
		s := structOf(x.typ)
		if s != nil && fieldType(s, n) == nil {
			// an internal name: where the constructor keeps its parameter of that place
			if i, ok := map[string]int{"name": 0, "value": 1, "sat": 2}[n]; ok {
				t := types.Unalias(x.typ)
				if nt, ok := t.(*types.Named); ok {
					if fn := r.p.fn("ast", "New"+nt.Obj().Name()); fn != nil && i < len(fn.Params) {
						n = s.Field(r.madeOf(fn, t)[i]).Name()
					}
				}
			}
		}
		if s == nil || fieldType(s, n) == nil {
			panic(anchorError("field " + n + " of " + shortType(x.typ)))
		}
		x = mkField(x, n, fieldType(s, n))
	}
	return x
}

func pm(method string, x *T) *T { return mkApp("m:"+method, tString, x) }

// lCB is the text of a comment block.
func lCB(x *T) lay {
	return lAlt(lItem(pm("String", x)), lList(x, func(c *T) lay { return lItem(pm("String", c)) }, nil),
		lSkip(mkEQ0(mkLen(x))))
}

func lBlocks(x *T) lay {
	return lLoose(x, func(c *T) lay { return lItem(pm("String", c)) })
}

func (r *Rep) boolOp(x *T) *T {
	return pm("String", r.boolOpOf(x))
}

func (r *Rep) boolOpOf(x *T) *T {
	e := r.exec()
	for _, o := range r.callMethod(e, newSt(), x, "BoolOperator") {
		if o.kind == ORet {
			return o.val()
		}
	}
	panic(anchorError("method BoolOperator of " + shortType(x.typ)))
}

func opt(x *T, l func(x *T) lay) lay { return lOpt(x, l(x)) }

func valueOf(x *T) lay { return lItem(pm("ValueString", x)) }

func sections(r *Rep, x *T, kw string) lay {
	return lLoose(x, func(c *T) lay {
		return lSeq(lCB(r.fld(c, "CommentBlock")), lLit(kw), lW, lLit("{"), lW, lAlt(lItem(pm("String", c)), lBlocks(r.fld(c, "BranchOrPlugins"))), lW,
			lCB(r.fld(c, "FooterComment")), lW, lLit("}"))
	})
}

func named(r *Rep, x *T) lay {
	return lSeq(lItem(r.fld(x, "name")), lW, lLit("=>"), lW, valueLay(r, x))
}

func valueLay(r *Rep, x *T) lay {
	self := lItem(pm("ValueString", x))
	for _, s := range printSpecs {
		if s.method == "ValueString" && sameType(x.typ, r.p.typ("ast", s.typ)) {
			return lAlt(self, s.lay(r, x))
		}
	}
	return self
}

func opExpr(r *Rep, x *T, op lay) lay {
	return lSeq(lItem(r.boolOp(x)), opt(r.fld(x, "LValue"), valueOf), lW, op, lW, opt(r.fld(x, "RValue"), valueOf))
}

var printSpecs []printSpec

func init() {
	str := func(x *T) *T { return pm("String", x) }
	printSpecs = []printSpec{
		{"Config", "String", func(r *Rep, x *T) lay {
			return lSeq(sections(r, r.fld(x, "Input"), "input"), lW, sections(r, r.fld(x, "Filter"), "filter"), lW,
				sections(r, r.fld(x, "Output"), "output"), lW, lCB(r.fld(x, "FooterComment")))
		}},
		{"CommentBlock", "String", func(r *Rep, x *T) lay { return lList(x, func(c *T) lay { return lItem(str(c)) }, nil) }},
		{"Comment", "String", func(r *Rep, x *T) lay { return lSeq(lW, lLit("#"), lW, lItem(r.fld(x, textField(x))), lNl, lW) }},
		{"PluginSection", "String", func(r *Rep, x *T) lay { return lSeq(lW, lBlocks(r.fld(x, "BranchOrPlugins"))) }},
		{"Plugin", "String", func(r *Rep, x *T) lay {
			return lSeq(lCB(r.fld(x, "Comment")), lItem(r.fld(x, "name")), lW, lLit("{"), lW,
				lApart(r.fld(x, "Attributes"), func(a *T) lay {
					return lSeq(lItem(pm("CommentBlock", a)), lItem(str(a)))
				}), lW, lCB(r.fld(x, "FooterComment")), lW, lLit("}"))
		}},
		{"PluginAttribute", "String", named},
		{"StringAttribute", "String", named},
		{"NumberAttribute", "String", named},
		{"ArrayAttribute", "String", named},
		{"HashAttribute", "String", named},
		{"PluginAttribute", "ValueString", func(r *Rep, x *T) lay { return lItem(str(r.fld(x, "value"))) }},
		{"StringAttribute", "ValueString", func(r *Rep, x *T) lay {
			q := lItem(str(r.fld(x, "sat")))
			return lSeq(q, lItem(r.fld(x, "value")), q)
		}},
		{"ArrayAttribute", "ValueString", func(r *Rep, x *T) lay {
			return lSeq(lLit("["), lW, lList(r.fld(x, "Attributes"), func(a *T) lay {
				return lSeq(lItem(pm("CommentBlock", a)), lItem(pm("ValueString", a)))
			}, lSeq(lW, lLit(","), lW)), lW, lCB(r.fld(x, "FooterComment")), lW, lLit("]"))
		}},
		{"HashAttribute", "ValueString", func(r *Rep, x *T) lay {
			return lSeq(lLit("{"), lW, lApart(r.fld(x, "Entries"), func(a *T) lay { return lItem(str(a)) }), lW,
				lCB(r.fld(x, "FooterComment")), lW, lLit("}"))
		}},
		{"HashEntry", "String", func(r *Rep, x *T) lay {
			return lSeq(lCB(r.fld(x, "Comment")), opt(r.fld(x, "Key"), valueOf), lW, lLit("=>"), lW, valueLay(r, x))
		}},
		{"HashEntry", "ValueString", func(r *Rep, x *T) lay { return opt(r.fld(x, "Value"), valueOf) }},
		{"Branch", "String", func(r *Rep, x *T) lay {
			return lSeq(lItem(str(r.fld(x, "IfBlock"))), lW, lLoose(r.fld(x, "ElseIfBlock"), func(a *T) lay { return lItem(str(a)) }), lW,
				lItem(str(r.fld(x, "ElseBlock"))))
		}},
		{"IfBlock", "String", func(r *Rep, x *T) lay {
			return lSeq(lCB(r.fld(x, "Comment")), lLit("if"), lW, lItem(str(r.fld(x, "Condition"))), lW, lLit("{"), lW, lBlocks(r.fld(x, "Block")),
				lCB(r.fld(x, "FooterComment")), lW, lLit("}"))
		}},
		{"ElseIfBlock", "String", func(r *Rep, x *T) lay {
			return lSeq(lW, lCB(r.fld(x, "Comment")), lLit("else"), lW, lLit("if"), lW, lItem(str(r.fld(x, "Condition"))), lW, lLit("{"), lW,
				lBlocks(r.fld(x, "Block")), lCB(r.fld(x, "FooterComment")), lW, lLit("}"))
		}},
		{"ElseBlock", "String", func(r *Rep, x *T) lay {
			empty := lSkip(mkEQ0(mkLen(r.fld(x, "Block"))), mkEQ0(mkLen(r.fld(x, "Comment"))), mkEQ0(mkLen(r.fld(x, "FooterComment"))))
			return lAlt(empty, lSeq(lW, lCB(r.fld(x, "Comment")), lLit("else"), lW, lLit("{"), lW,
				lBlocks(r.fld(x, "Block")), lCB(r.fld(x, "FooterComment")), lW, lLit("}")))
		}},
		{"Condition", "String", func(r *Rep, x *T) lay {
			return lList(r.fld(x, "Expression"), func(a *T) lay { return lItem(str(a)) }, nil)
		}},
		{"ConditionExpression", "String", func(r *Rep, x *T) lay {
			return lSeq(lItem(r.boolOp(x)), lLit("("), lW, lItem(str(r.fld(x, "Condition"))), lW, lLit(")"))
		}},
		{"NegativeConditionExpression", "String", func(r *Rep, x *T) lay {
			return lSeq(lItem(r.boolOp(x)), lLit("!"), lW, lLit("("), lW, lItem(str(r.fld(x, "Condition"))), lW, lLit(")"))
		}},
		{"NegativeSelectorExpression", "String", func(r *Rep, x *T) lay {
			s := r.fld(x, "Selector")
			return lSeq(lItem(r.boolOp(x)), lLit("!"), lW, lItem(str(s), pm("ValueString", s)))
		}},
		{"InExpression", "String", func(r *Rep, x *T) lay { return opExpr(r, x, lLit("in")) }},
		{"NotInExpression", "String", func(r *Rep, x *T) lay { return opExpr(r, x, lSeq(lLit("not "), lW, lLit("in"))) }},
		{"RvalueExpression", "String", func(r *Rep, x *T) lay {
			return lSeq(lItem(r.boolOp(x)), opt(r.fld(x, "RValue"), valueOf))
		}},
		{"CompareExpression", "String", func(r *Rep, x *T) lay { return opExpr(r, x, lItem(str(r.fld(x, "CompareOperator")))) }},
		{"RegexpExpression", "String", func(r *Rep, x *T) lay { return opExpr(r, x, lItem(str(r.fld(x, "RegexpOperator")))) }},
		{"Regexp", "String", func(r *Rep, x *T) lay { return lSeq(lLit("/"), lItem(r.fld(x, "Regexp")), lLit("/")) }},
		{"Regexp", "ValueString", func(r *Rep, x *T) lay {
			return lAlt(lItem(str(x)), lSeq(lLit("/"), lItem(r.fld(x, "Regexp")), lLit("/")))
		}},
		{"Selector", "String", func(r *Rep, x *T) lay {
			return lList(r.fld(x, "Elements"), func(a *T) lay { return lItem(str(a)) }, nil)
		}},
		{"Selector", "ValueString", func(r *Rep, x *T) lay {
			return lAlt(lItem(str(x)), lList(r.fld(x, "Elements"), func(a *T) lay { return lItem(str(a)) }, nil))
		}},
		{"SelectorElement", "String", func(r *Rep, x *T) lay { return lSeq(lLit("["), lItem(r.fld(x, "name")), lLit("]")) }},
		{"PluginAttribute", "CommentBlock", func(r *Rep, x *T) lay { return lCB(r.fld(x, "Comment")) }},
		{"StringAttribute", "CommentBlock", func(r *Rep, x *T) lay { return lCB(r.fld(x, "Comment")) }},
		{"NumberAttribute", "CommentBlock", func(r *Rep, x *T) lay { return lCB(r.fld(x, "Comment")) }},
		{"ArrayAttribute", "CommentBlock", func(r *Rep, x *T) lay { return lCB(r.fld(x, "Comment")) }},
		{"HashAttribute", "CommentBlock", func(r *Rep, x *T) lay { return lCB(r.fld(x, "Comment")) }},
	}
	register("C09", "Every String, ValueString and CommentBlock method of the syntax tree package is interpreted on an arbitrary node (lists of any length with nil slots, "+
		"operands of any kind); the printed text, with the graphs of the loops that build it, is read by a monitor compiled from the layout the grammar demands of this node. "+
		"Accepted means: every part once, in order, delimited and separated, nothing else. The printers of child nodes are separate obligations of the same rule.",
		rulePrint,
		"child printers return non-empty texts for children that are present (an operand whose text is empty is no tree the grammar can express)",
		"fmt prints a value with a String method through that method (checked: no printed type has Error, Format or GoString methods)",
		"expression nodes carry their BoolExpression (all constructors set it)")
	register("C14", "The same interpretation of every printing method of the tree package with null-dereference, nil-invocation and nil-formatting hazards recorded: "+
		"no path of any printer reaches one for an absent list element, operand, key or value, and the layout monitor accepts the paths on which children are absent without any text for them.",
		rulePrintNil,
		"expression nodes carry their BoolExpression (all constructors set it)")
}

func (r *Rep) printNode(s printSpec) (e *Exec, fn *ssa.Function, x *T, outs []Outcome) {
	t := needType(r.p.typ("ast", s.typ), "type ast."+s.typ)
	x = mkSym("x", t)
	e = r.printExec()
	outs = r.callMethod(e, newSt(), x, s.method)
	fn = r.p.ssa.MethodValue(types.NewMethodSet(t).Lookup(r.p.pkg("ast").Pkg, s.method))
	return
}

// read runs the monitor over one outcome.
func (r *Rep) readPrint(s printSpec, e *Exec, x *T, o Outcome) string {
	m := &pmon{r: r, what: s.typ + "." + s.method}
	b := &pbuild{}
	end := b.node(pnode{kind: pEnd})
	root := s.lay(r, x)(b, end)
	in := pstate{n: root}
	c := &pctx{e: e, st: o.st, ev: o.st.ev}
	for _, set := range m.feed(c, pset{in.key(): in}, o.val()) {
		set = m.close(c, set)
		ok := false
		for _, st := range set {
			ok = ok || st.n.kind == pEnd
		}
		if !ok {
			m.dead(set, "the end of the text", c)
		}
	}
	return m.err
}

func mentionsNil(fs []*T) bool {
	for _, f := range fs {
		if f.k == KCmp && f.s == "==" && (f.a[0].isNil() || f.a[1].isNil()) {
			return true
		}
	}
	return false
}

func rulePrint(r *Rep) {
	for _, s := range printSpecs {
		e, fn, x, outs := r.printNode(s)
		name := s.typ + "." + s.method
		if !r.check(len(outs) > 0, "printer-returns", name, r.fnWhere(fn), "no path of %s returns", name) {
			continue
		}
		for _, o := range outs {
			if o.kind != ORet {
				r.fail("printer-returns", name, r.fnWhere(fn), "%s ends with a panic on the path %s", name, clip(factsString(o.st.facts), 200))
				continue
			}
			msg := r.readPrint(s, e, x, o)
			r.check(msg == "", "layout", name, r.fnWhere(fn), "the text of %s: %s", name, msg)
			for _, bad := range e.effectsOn(&o, 0, nil) {
				r.fail("printer-pure", name, r.fnWhere(fn), "printing has an effect: %s", bad)
			}
		}
		r.done("layout", e, name)
	}
	r.printedTypes()
	r.floor("layout", 45)
	r.floor("string-method", 15)
}

// printedTypes: everything fmt prints as a child has its own String method and no method fmt prefers.
func (r *Rep) printedTypes() {
	pk := r.p.pkg("ast")
	for _, n := range sortedKeys(pk.Members) {
		tn, ok := pk.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		t := tn.Type()
		if _, isI := t.Underlying().(*types.Interface); isI {
			continue
		}
		ms := types.NewMethodSet(t)
		for _, bad := range []string{"Error", "Format", "GoString"} {
			if sel := ms.Lookup(nil, bad); sel != nil && n != "notFoundError" && ms.Lookup(nil, "Pos") != nil {
				r.fail("string-method", n, r.where(tn.Pos()), "%s has a method %s, which fmt prefers over String", n, bad)
			}
		}
		for _, ifn := range []string{"BranchOrPlugin", "Expression"} {
			it := needType(r.p.typ("ast", ifn), "type ast."+ifn)
			if types.Implements(t, it.Underlying().(*types.Interface)) {
				sel := ms.Lookup(nil, "String")
				r.check(sel != nil, "string-method", n+" as "+ifn, r.where(tn.Pos()), "%s is printed as %s but its method set has no String method", n, ifn)
				if sel != nil && sel.Obj().(*types.Func).Signature().Recv() != nil {
					rt := sel.Obj().(*types.Func).Signature().Recv().Type()
					r.check(sameType(rt, t), "string-method", n+" own String", r.where(tn.Pos()), "%s is printed by the String method of the embedded %s", n, shortType(rt))
				}
			}
		}
	}
}

func rulePrintNil(r *Rep) {
	for _, s := range append(append([]printSpec{}, printSpecs...), printSpec{"HashEntry", "Name", nil}, printSpec{"NumberAttribute", "ValueString", nil},
		printSpec{"CompareOperator", "String", nil}, printSpec{"RegexpOperator", "String", nil}, printSpec{"BooleanOperator", "String", nil},
		printSpec{"PluginType", "String", nil}, printSpec{"StringAttributeType", "String", nil}, printSpec{"Pos", "String", nil}) {
		e, fn, x, outs := r.printNode(s)
		name := s.typ + "." + s.method
		r.check(len(outs) > 0, "printer-returns", name, r.fnWhere(fn), "no path of %s returns", name)
		for _, o := range outs {
			r.check(o.kind == ORet, "no-panic", name, r.fnWhere(fn), "%s ends with a panic on the path %s", name, clip(factsString(o.st.facts), 200))
			for _, h := range r.hazardsIn(o.st.ev) {
				if r.boolExprHazard(h) {
					continue
				}
				r.fail("no-nil-hazard", name+" "+h.name, r.where(h.pos), "%s may fail: %s on the path %s", name, h, clip(factsString(o.st.facts), 200))
			}
			r.pass("no-nil-hazard", "%s", name)
			if s.lay != nil && o.kind == ORet && (mentionsNil(o.st.facts) || loopsOverNil(o.st.ev)) {
				msg := r.readPrint(s, e, x, o)
				r.check(msg == "", "absent-child-text", name, r.fnWhere(fn), "the text of %s with an absent child: %s", name, msg)
			}
		}
		r.done("no-nil-hazard", e, name)
	}
	r.floor("no-nil-hazard", 50)
	r.floor("absent-child-text", 12)
}

func (r *Rep) hazardsIn(evs []*Ev) (out []*Ev) {
	for _, ev := range evs {
		switch ev.kind {
		case "hazard":
			out = append(out, ev)
		case "loop":
			for _, t := range ev.lp.trans {
				out = append(out, r.hazardsIn(t.ev)...)
			}
		}
	}
	return
}

func loopsOverNil(evs []*Ev) bool {
	for _, ev := range evs {
		if ev.kind == "loop" {
			for _, t := range ev.lp.trans {
				if mentionsNil(t.facts) {
					return true
				}
			}
		}
	}
	return false
}

// boolExprHazard: the embedded boolean operator of an expression, which every constructor sets.
func (r *Rep) boolExprHazard(h *Ev) bool {
	for _, a := range h.args {
		if t := ptrElem(a.typ); t != nil && sameType(t, r.p.typ("ast", "BoolExpression")) {
			return true
		}
	}
	return false
}
