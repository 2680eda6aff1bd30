package main

// Loop summaries. A loop is described by a finite graph of head valuations:
// head 0 is the entry (iteration counter K == 0), every other head stands for
// "at least one iteration done" with a given valuation of the finite control
// components. Components (header phis and memory leaves written in the body)
// are classified, by iteration to a fixpoint, as unchanged, linear in K,
// finitely valued, accumulating (only appended to), element-wise stores at K,
// or unknown.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Mode uint8

const (
	MStable Mode = iota
	MInd
	MFinite
	MAcc
	MStore
	MOpaque
)

type comp struct {
	key   string
	phi   *ssa.Phi
	root  *T
	path  []string
	mode  Mode
	tried map[Mode]bool
	step  int64
	init  *T
	typ   types.Type
}

type Head struct {
	idx   int
	key   string
	vals  map[string]*T // finite components
	flags map[string]string
	carry []*T
}

type Trans struct {
	from, to int
	facts    []*T // facts established by the body (beyond the head's)
	emit     map[string][]*T
	ev       []*Ev
	vals     map[string]*T
	ord      []*T // head facts
}

type Loop struct {
	id     int
	ex     int // number of the interpreter, keeps loops of different runs apart
	fn     *ssa.Function
	header *ssa.BasicBlock
	K      *T
	comps  []*comp
	heads  []*Head
	trans  []*Trans
	done   bool
	sig    string
	nout   int
}

func (l *Loop) comp(key string) *comp {
	for _, c := range l.comps {
		if c.key == key {
			return c
		}
	}
	return nil
}

type activeLoop struct {
	fr   *frame
	body map[*ssa.BasicBlock]bool
	lp   *Loop
}

func (e *Exec) curLoop(f *frame, b *ssa.BasicBlock) *Loop {
	for i := len(e.active) - 1; i >= 0; i-- {
		a := e.active[i]
		if a.fr == f && a.body[b] {
			return a.lp
		}
	}
	return nil
}

func (f *frame) chainKey() string {
	if f.chain == "" {
		c := ""
		if f.up != nil {
			c = f.up.chainKey()
		}
		f.chain = fmt.Sprintf("%s/%d.%d", c, f.e.objID(f.fn), f.e.objID(f.call))
	}
	return f.chain
}

func (e *Exec) objID(x any) int {
	if e.objIDs == nil {
		e.objIDs = map[any]int{}
	}
	if n, ok := e.objIDs[x]; ok {
		return n
	}
	n := len(e.objIDs) + 1 + e.idBase
	e.objIDs[x] = n
	return n
}

func (e *Exec) chainNo(s string) int { return e.objID("chain:" + s) }

// ---- values of accumulating components as parts ----

func isMerrType(t types.Type) bool {
	return t != nil && strings.HasSuffix(typeKey(t), "go-multierror.Error")
}

func accType(t types.Type) bool {
	return t != nil && (isStringType(t) || isSliceType(t) || isTextCell(t) || isMerrType(t))
}

func partsOf(v *T) ([]*T, bool) {
	switch {
	case v.isNil():
		return nil, true
	case v.isStr():
		if v.str() == "" {
			return nil, true
		}
		return []*T{v}, true
	case v.k == KCat, v.k == KSeq:
		return v.a, true
	case v.k == KApp && v.s == "merr":
		return partsOf(v.a[0])
	}
	if v.typ != nil && (isStringType(v.typ) || isSliceType(v.typ)) {
		return []*T{v}, true
	}
	return nil, false
}

func joinParts(typ types.Type, ps []*T) *T {
	if isMerrType(typ) {
		if len(ps) == 0 {
			return mkNil(typ)
		}
		return mkApp("merr", typ, mkSeq(nil, ps...))
	}
	if isSliceType(typ) {
		if len(ps) == 0 {
			return mkNil(typ)
		}
		return mkSeq(typ, ps...)
	}
	return mkCat(ps...)
}

func stripParts(next, head []*T) ([]*T, bool) {
	i := 0
	for ; i < len(head); i++ {
		if i >= len(next) {
			return nil, false
		}
		if next[i] == head[i] {
			continue
		}
		if i == len(head)-1 && next[i].isStr() && head[i].isStr() && strings.HasPrefix(next[i].str(), head[i].str()) {
			rest := append([]*T{mkStr(next[i].str()[len(head[i].str()):])}, next[i+1:]...)
			return rest, true
		}
		return nil, false
	}
	return next[i:], true
}

func (c *comp) headVal(lp *Loop, h *Head) *T {
	switch c.mode {
	case MStable:
		return c.init
	case MInd:
		return linAdd(c.init, linScale(lp.K, c.step))
	case MFinite:
		return h.vals[c.key]
	case MAcc:
		if h.flags[c.key] == "E" || h.idx == 0 {
			return c.init
		}
		ip, _ := partsOf(c.init)
		acc := mk(&T{k: KLoopAcc, lp: lp, hi: h.idx, cmp: c, s: h.flags[c.key], typ: accPartType(c.typ)})
		return joinParts(c.typ, append(append([]*T{}, ip...), acc))
	case MStore:
		if h.idx == 0 {
			return c.init
		}
		acc := mk(&T{k: KLoopAcc, lp: lp, hi: h.idx, cmp: c, s: "U"})
		return mkApp("upds", nil, acc, acc)
	}
	if h.idx == 0 {
		return c.init
	}
	return mk(&T{k: KLoopVar, lp: lp, hi: h.idx, cmp: c, typ: c.typ})
}

func accPartType(t types.Type) types.Type {
	if isSliceType(t) {
		return t
	}
	if isMerrType(t) {
		return types.NewSlice(types.Universe.Lookup("error").Type())
	}
	return tString
}

func getLeaf(v *T, path []string) *T {
	for _, p := range path {
		st := structOf(v.typ)
		if st == nil {
			return nil
		}
		v = mkField(v, p, fieldType(st, p))
	}
	return v
}

func setLeaf(v *T, path []string, x *T) *T {
	if len(path) == 0 {
		return x
	}
	st := structOf(v.typ)
	if st == nil {
		return x
	}
	sub := mkField(v, path[0], fieldType(st, path[0]))
	return setField(v, path[0], setLeaf(sub, path[1:], x))
}

func leafDiffs(old, new *T, path []string, f func(path []string, o, n *T)) {
	if old == new {
		return
	}
	if old.typ != nil && new.typ != nil && types.Identical(old.typ, new.typ) && isStructType(old.typ) && !isTextCell(old.typ) {
		st := structOf(old.typ)
		oe, ne := expandStruct(old), expandStruct(new)
		for i := range oe {
			leafDiffs(oe[i], ne[i], append(append([]string{}, path...), st.Field(i).Name()), f)
		}
		return
	}
	f(path, old, new)
}

// execLoop interprets the loop with the given header, entered from `from`.
func (f *frame) execLoop(header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, from *ssa.BasicBlock, p *path) (outs []Outcome, exits []edge) {
	e := f.e
	chain := fmt.Sprintf("%s|%d", f.chainKey(), header.Index)
	no := e.chainNo(chain)
	comps := map[string]*comp{}
	var order []string
	pi := -1
	for i, b := range header.Preds {
		if b == from {
			pi = i
		}
	}
	initKey := ""
	for _, in := range header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c := &comp{key: "phi:" + phi.Name(), phi: phi, init: e.resolve(p.st, f.val(p, phi.Edges[pi])), typ: phi.Type(), tried: map[Mode]bool{}}
		comps[c.key] = c
		order = append(order, c.key)
		initKey += fmt.Sprintf(",%d", c.init.id)
	}
	attempt := 0
	for round := 0; round < 60; round++ {
		key := fmt.Sprintf("%s|%s|%d", chain, initKey, attempt)
		lp := e.loopTab[key]
		id := e.objID("loop:" + key)
		cur := e.loopObj[id]
		if cur == nil || cur.done {
			cur = &Loop{}
			if e.loopObj == nil {
				e.loopObj = map[int]*Loop{}
			}
			if lp == nil {
				e.loopObj[id] = cur // terms of earlier rounds name the same loop
			}
		}
		*cur = Loop{id: id, ex: e.num, fn: f.fn, header: header, K: mkSym(fmt.Sprintf("K#%d", no), tInt)}
		for _, k := range order {
			cp := *comps[k]
			cur.comps = append(cur.comps, &cp)
		}
		ok, o, x := f.tryLoop(cur, comps, &order, header, body, p)
		if len(e.undec) > 40 {
			return nil, nil
		}
		if !ok {
			continue
		}
		sig := cur.signature()
		if lp != nil && lp.sig != sig {
			attempt++
			continue
		}
		cur.sig = sig
		cur.done = true
		if e.loopTab == nil {
			e.loopTab = map[string]*Loop{}
		}
		if lp == nil {
			e.loopTab[key] = cur
		} else {
			// same summary: keep using the stored object (same id)
			lp.comps, lp.heads, lp.trans = cur.comps, cur.heads, cur.trans
			swap := func(st *St) {
				for i, ev := range st.ev {
					if ev.lp == cur {
						c := *ev
						c.lp = lp
						st.ev[i] = &c
					}
				}
			}
			for i := range o {
				swap(o[i].st)
			}
			for i := range x {
				swap(x[i].p.st)
			}
			cur = lp
		}
		if m := f.mergeMapLoop(cur, p, o, x); m != nil {
			return nil, m
		}
		if m := f.mergeEventLoop(cur, p, o, x); m != nil {
			return nil, m
		}
		return o, x
	}
	if os.Getenv("CHKDBG") != "" {
		for _, k := range order {
			c := comps[k]
			fmt.Println("DBG", k, "mode", c.mode, "init", c.init, "attempt", attempt)
		}
	}
	e.undecided("loop in %s (block %d) does not reach a summary", f.fn, header.Index)
	return nil, nil
}

func (l *Loop) signature() string {
	var b strings.Builder
	for _, c := range l.comps {
		id := 0
		if c.init != nil {
			id = c.init.id
		}
		fmt.Fprintf(&b, "c%s/%d/%d/%d;", c.key, c.mode, c.step, id)
	}
	for _, h := range l.heads {
		fmt.Fprintf(&b, "h%s;", h.key)
	}
	for _, t := range l.trans {
		fmt.Fprintf(&b, "t%d>%d", t.from, t.to)
		for _, x := range t.facts {
			fmt.Fprintf(&b, ",%d", x.id)
		}
		for _, k := range sortedKeys(t.emit) {
			b.WriteString("|" + k)
			for _, x := range t.emit[k] {
				fmt.Fprintf(&b, ",%d", x.id)
			}
		}
		for _, ev := range t.ev {
			b.WriteString("e" + ev.kind + ev.name)
			for _, x := range ev.args {
				if x != nil {
					fmt.Fprintf(&b, ",%d", x.id)
				}
			}
		}
		b.WriteString(";")
	}
	return b.String()
}

// escalate chooses the next mode for c after observing head value hv and next
// value nv that the current mode cannot explain.
func (c *comp) escalate(hv, nv *T) {
	c.tried[c.mode] = true
	try := func(m Mode) bool {
		if c.tried[m] {
			return false
		}
		c.mode = m
		return true
	}
	if c.init == nil {
		if c.root != nil && c.root.k == KBacking && try(MStore) {
			return
		}
		c.mode = MOpaque
		return
	}
	if isIntType(c.typ) {
		if d := linSub(nv, hv); d.isInt() && try(MInd) {
			c.step = d.int()
			return
		}
	}
	if accType(c.typ) {
		hp, ok1 := partsOf(hv)
		np, ok2 := partsOf(nv)
		if ok1 && ok2 {
			if _, ok := stripParts(np, hp); ok && try(MAcc) {
				return
			}
		}
	}
	if isAtom(nv) && isAtom(c.init) && try(MFinite) {
		return
	}
	if c.root != nil && c.root.k == KBacking && (c.init == nil || c.init.isNil()) && try(MStore) {
		return
	}
	c.mode = MOpaque
}

func mentionsLoop(t *T, lp *Loop) bool {
	found := false
	walkTerm(t, func(x *T) bool {
		if x == lp.K || x.lp != nil && x.lp.id == lp.id {
			found = true
		}
		return !found
	})
	return found
}

func (f *frame) tryLoop(lp *Loop, comps map[string]*comp, order *[]string, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, p *path) (ok bool, outs []Outcome, exits []edge) {
	e := f.e
	first := 0
	for first < len(header.Instrs) {
		if _, ok := header.Instrs[first].(*ssa.Phi); !ok {
			break
		}
		first++
	}
	e.active = append(e.active, activeLoop{f, body, lp})
	defer func() { e.active = e.active[:len(e.active)-1] }()

	h0 := &Head{idx: 0, key: "0", vals: map[string]*T{}, flags: map[string]string{}}
	for _, c := range lp.comps {
		switch c.mode {
		case MFinite:
			h0.vals[c.key] = c.init
		case MAcc:
			h0.flags[c.key] = "E"
		}
	}
	lp.heads = []*Head{h0}
	heads := map[string]*Head{"0": h0}
	for hn := 0; hn < len(lp.heads); hn++ {
		h := lp.heads[hn]
		if hn > 24 {
			e.undecided("loop in %s has too many head states", f.fn)
			return true, nil, nil
		}
		q := p.clone()
		hv := map[string]*T{}
		for _, c := range lp.comps {
			v := c.headVal(lp, h)
			hv[c.key] = v
			if c.phi != nil {
				q.env[c.phi] = v
				continue
			}
			if c.root.k == KBacking {
				if v != nil {
					q.st.mem[c.root] = v
				}
				continue
			}
			cur := e.rootVal(q.st, c.root, ptrElem(c.root.typ))
			q.st.mem[c.root] = setLeaf(cur, c.path, v)
		}
		if h.idx == 0 {
			e.assume(q.st, mkEQ0(lp.K))
		} else {
			if e.truth(q.st, mkLE(linComb(lp.K, -1, mkInt(0), 0, 1))) != 1 {
				e.assume(q.st, mkLE(linComb(lp.K, -1, mkInt(0), 0, 1)))
			}
			for _, cf := range h.carry {
				e.assume(q.st, cf)
			}
			q.st.ev = append(q.st.ev, &Ev{kind: "loop", lp: lp, hi: h.idx, fn: f.fn, nf: len(q.st.facts)})
		}
		headMem := make(map[*T]*T, len(q.st.mem))
		for k, v := range q.st.mem {
			headMem[k] = v
		}
		nf, nev := len(q.st.facts), len(q.st.ev)
		nd := len(q.defers)
		o, backs, ex := f.run([]item{{blk: header, idx: first, p: q, noPhi: true}}, body, header)
		outs = append(outs, o...)
		exits = append(exits, ex...)
		backs = f.splitFlags(lp, header, backs, hv)
		for _, b := range backs {
			if len(b.p.defers) != nd {
				e.undecided("defer inside a loop in %s", f.fn)
			}
			pi := -1
			for i, pr := range header.Preds {
				if pr == b.from {
					pi = i
				}
			}
			t := &Trans{from: h.idx, emit: map[string][]*T{}, vals: map[string]*T{}}
			t.facts = append(t.facts, b.p.st.facts[nf:]...)
			t.ord = b.p.st.facts[:nf]
			t.ev = append(t.ev, b.p.st.ev[nev:]...)
			// memory changes outside the known components
			var roots []*T
			for r := range b.p.st.mem {
				roots = append(roots, r)
			}
			sort.Slice(roots, func(i, j int) bool { return roots[i].id < roots[j].id })
			for _, r := range roots {
				nv := b.p.st.mem[r]
				ov, had := headMem[r]
				if had && ov == nv {
					continue
				}
				if !had {
					if r.k == KAddr || r.k == KMap {
						continue // allocated by the body
					}
					if r.k == KBacking {
						if mentionsLoop(r, lp) || containsFresh(r, headMem, p) {
							continue
						}
						if c := comps[fmt.Sprintf("mem:%d", r.id)]; c == nil {
							c := &comp{key: fmt.Sprintf("mem:%d", r.id), root: r, tried: map[Mode]bool{}, mode: MStore}
							comps[c.key] = c
							*order = append(*order, c.key)
							return false, nil, nil
						}
						continue
					}
					ov = e.rootVal(&St{mem: map[*T]*T{}}, r, ptrElem(r.typ))
				}
				restart := false
				if r.k == KBacking || r.k == KMap {
					key := fmt.Sprintf("mem:%d", r.id)
					if comps[key] == nil {
						m := MOpaque
						if r.k == KMap && ov != nil && isAtom(ov) && isAtom(nv) {
							m = MFinite
						}
						comps[key] = &comp{key: key, root: r, tried: map[Mode]bool{}, mode: m, init: ov}
						*order = append(*order, key)
						return false, nil, nil
					}
					continue
				}
				leafDiffs(ov, nv, nil, func(path []string, o, n *T) {
					key := fmt.Sprintf("mem:%d.%s", r.id, strings.Join(path, "."))
					if comps[key] != nil {
						return
					}
					init := getLeaf(e.rootVal(p.st, r, ptrElem(r.typ)), path)
					c := &comp{key: key, root: r, path: path, init: init, typ: o.typ, tried: map[Mode]bool{}}
					if c.typ == nil || isTextCell(c.typ) {
						c.typ = n.typ
					}
					if len(path) == 0 && isTextCell(ptrElem(r.typ)) {
						c.typ = tString
					}
					c.escalate(o, n)
					comps[key] = c
					*order = append(*order, key)
					restart = true
				})
				if restart {
					return false, nil, nil
				}
			}
			nh := &Head{vals: map[string]*T{}, flags: map[string]string{}}
			key := "1"
			for _, c := range lp.comps {
				var nv *T
				if c.phi != nil {
					nv = e.resolve(b.p.st, f.val(b.p, c.phi.Edges[pi]))
				} else if c.root.k == KBacking || c.root.k == KMap {
					nv = b.p.st.mem[c.root]
				} else {
					nv = getLeaf(e.rootVal(b.p.st, c.root, ptrElem(c.root.typ)), c.path)
					if isSliceType(c.typ) {
						nv = e.resolve(b.p.st, nv)
					}
				}
				t.vals[c.key] = nv
				old := hv[c.key]
				bad := false
				switch c.mode {
				case MStable:
					bad = nv != old
				case MInd:
					bad = nv != linAddC(old, c.step)
				case MFinite:
					if !isAtom(nv) {
						bad = true
						break
					}
					nh.vals[c.key] = nv
					key += fmt.Sprintf("|%s=%d", c.key, nv.id)
				case MAcc:
					hp, ok1 := partsOf(old)
					np, ok2 := partsOf(nv)
					rest, ok3 := stripParts(np, hp)
					if !ok1 || !ok2 || !ok3 {
						bad = true
						break
					}
					t.emit[c.key] = rest
					fl := h.flags[c.key]
					if fl != "N" {
						sum := mkInt(0)
						for _, r := range rest {
							if r.k == KUnit {
								sum = linAddC(sum, 1)
							} else if r.k != KSetLast {
								sum = linAdd(sum, mkLen(r))
							}
						}
						switch {
						case len(rest) == 0:
						case e.truth(b.p.st, mkLE(linComb(sum, -1, mkInt(0), 0, 1))) == 1:
							fl = "N"
						default:
							fl = "U"
						}
					}
					nh.flags[c.key] = fl
					key += "|" + c.key + ":" + fl
				case MStore:
					if nv == old {
						break
					}
					n := 0
					if old != nil {
						n = len(old.a)
					}
					if nv == nil || len(nv.a) != n+2 || nv.a[n] != lp.K {
						bad = true
						break
					}
					t.emit[c.key] = []*T{mkUnit(nv.a[n+1])}
				}
				if bad {
					comps[c.key].mode = c.mode
					if c.mode == MStore {
						comps[c.key].mode = MOpaque
						if c.init == nil {
							comps[c.key].init = mkApp("unwritten", nil)
						}
					} else {
						comps[c.key].escalate(old, nv)
					}
					return false, nil, nil
				}
			}
			// carry linear facts about the next iteration
			for _, ft := range t.facts {
				if ft.k != KCmp || ft.s != "<=0" {
					continue
				}
				as, co, _ := linParts(ft.a[0])
				hasK, okf := false, true
				var kc int64
				for i, a := range as {
					switch {
					case a == lp.K:
						hasK = true
						kc = co[i]
					case mentionsLoop(a, lp):
						okf = false
					}
				}
				if !hasK || !okf {
					continue
				}
				g := mkLE(linAddC(ft.a[0], -kc))
				if e.truth(&St{facts: []*T{mkLE(linComb(lp.K, -1, mkInt(0), 0, 1))}, fset: map[*T]bool{}}, g) == 1 {
					continue
				}
				nh.carry = append(nh.carry, g)
				key += fmt.Sprintf("|f%d", g.id)
			}
			if x, ok := heads[key]; ok {
				nh = x
			} else {
				nh.key = key
				nh.idx = len(lp.heads)
				lp.heads = append(lp.heads, nh)
				heads[key] = nh
			}
			t.to = nh.idx
			lp.trans = append(lp.trans, t)
		}
	}
	lp.nout = len(outs)
	return true, outs, exits
}

// splitFlags decides the boolean values carried to the next round: one edge per outcome.
func (f *frame) splitFlags(lp *Loop, header *ssa.BasicBlock, backs []edge, hv map[string]*T) (out []edge) {
	e := f.e
	for n := 0; n < len(backs); n++ {
		b := backs[n]
		split := false
		for _, c := range lp.comps {
			if c.phi == nil || c.mode == MOpaque || c.init == nil || !isAtom(c.init) || hv[c.key] == nil || !types.Identical(under(c.phi.Type()), tBool) {
				continue
			}
			pi := -1
			for i, pr := range header.Preds {
				if pr == b.from {
					pi = i
				}
			}
			edgeVal := c.phi.Edges[pi]
			if _, ok := edgeVal.(*ssa.Const); ok {
				continue
			}
			v := e.resolve(b.p.st, f.val(b.p, edgeVal))
			if isAtom(v) || v == hv[c.key] {
				continue
			}
			q := b.p.clone()
			if e.assume(q.st, mkNot(v)) {
				q.env[edgeVal] = tFalse
				backs = append(backs, edge{b.from, b.to, q})
			}
			if e.assume(b.p.st, v) {
				b.p.env[edgeVal] = tTrue
				backs = append(backs, b)
			}
			split = true
			break
		}
		if !split {
			out = append(out, b)
		}
	}
	return
}

// containsFresh: the term mentions a cell that did not exist at loop entry.
func containsFresh(t *T, headMem map[*T]*T, p *path) bool {
	fresh := false
	walkTerm(t, func(x *T) bool {
		if x.k == KAddr || x.k == KMap {
			if _, ok := headMem[x]; !ok {
				fresh = true
			}
		}
		return !fresh
	})
	return fresh
}

var boundK = mkSym("K#bound", tInt)

// boundFor is a bound variable that does not occur in the terms.
func boundFor(ts []*T) *T {
	b := boundK
	for n := 1; ; n++ {
		used := false
		for _, t := range ts {
			used = used || contains(t, b)
		}
		if !used {
			return b
		}
		b = mkSym(fmt.Sprintf("K#bound%d", n), tInt)
	}
}

// boundOf is the variable a mapcat or mapseq term binds.
func boundOf(t *T) *T {
	if len(t.a) > 2 {
		return t.a[2]
	}
	return boundK
}

func mkMap(name string, typ types.Type, X, body, bk *T) *T {
	if bk == boundK {
		return mkApp(name, typ, X, body)
	}
	return mkApp(name, typ, X, body, bk)
}

// mergeMapLoop recognises complete element-wise loops
//
//	for i over X { acc = append(acc, g(X[i])...) }
//
// and replaces their exits by a single one with acc = init ++ map(X, g).
func (f *frame) mergeMapLoop(lp *Loop, p *path, outs []Outcome, exits []edge) []edge {
	e := f.e
	if len(outs) > 0 || len(exits) == 0 {
		return nil
	}
	nfEntry := len(p.st.facts)
	to, from := exits[0].to, exits[0].from
	var X *T
	for _, x := range exits {
		if x.to != to || x.from != from {
			return nil
		}
		var lenX *T
		for _, ft := range x.p.st.facts[nfEntry:] {
			if ft.k == KCmp && ft.s == "<=0" {
				as, co, c := linParts(ft.a[0])
				if y := listOfLen(lp, linAdd(ft.a[0], lp.K)); y != nil && y.k == KSeq {
					lenX = mk(&T{k: KLen, a: []*T{y}, typ: tInt})
					continue
				}
				if len(as) == 2 && c == 0 {
					for i := range as {
						if as[i] == lp.K && co[i] == -1 && co[1-i] == 1 && as[1-i].k == KLen {
							lenX = as[1-i]
						}
					}
				}
			}
		}
		if lenX == nil || X != nil && X != lenX.a[0] {
			// zero-length constants etc: not a map loop
			return nil
		}
		X = lenX.a[0]
		for i, ev := range x.p.st.ev {
			if i >= len(p.st.ev) && ev.kind != "loop" {
				return nil
			}
		}
	}
	if X == nil || mentionsLoop(X, lp) {
		return nil
	}
	for _, h := range lp.heads {
		for _, cf := range h.carry {
			// only the range bound may be carried
			if cf != mkLE(linSub(lp.K, mkLen(X))) {
				return nil
			}
		}
	}
	cond := mkLE(linAddC(linSub(lp.K, mkLen(X)), 1))
	emit := map[string][]*T{}
	for i, t := range lp.trans {
		if len(t.ev) > 0 {
			return nil
		}
		for _, ft := range t.facts {
			if ft != cond {
				return nil
			}
		}
		for _, c := range lp.comps {
			if c.mode != MAcc && c.mode != MStore {
				continue
			}
			em := t.emit[c.key]
			if i == 0 {
				emit[c.key] = em
				continue
			}
			if len(em) != len(emit[c.key]) {
				return nil
			}
			for k := range em {
				if em[k] != emit[c.key][k] {
					return nil
				}
			}
		}
	}
	q := p.clone()
	// the exit block's phis read the loop values: use the last exit's env as
	// a template and overwrite the components
	for v, t := range exits[len(exits)-1].p.env {
		if _, ok := q.env[v]; !ok {
			q.env[v] = subst(t, map[*T]*T{lp.K: mkLen(X)})
		}
	}
	for _, c := range lp.comps {
		var v *T
		switch c.mode {
		case MStable:
			continue
		case MInd:
			v = linAdd(c.init, linScale(mkLen(X), c.step))
		case MAcc:
			em := emit[c.key]
			ip, _ := partsOf(c.init)
			for _, x := range em {
				if x.k == KSetLast {
					return nil
				}
			}
			var m *T
			if isStringType(accPartType(c.typ)) {
				bk := boundFor(em)
				body := subst(mkCat(em...), map[*T]*T{lp.K: bk})
				if mentionsLoop(body, lp) {
					return nil
				}
				m = mkMap("mapcat", tString, X, body, bk)
			} else {
				bk := boundFor(em)
				body := subst(mkSeq(nil, em...), map[*T]*T{lp.K: bk})
				if mentionsLoop(body, lp) {
					return nil
				}
				m = mkMapSeq(accPartType(c.typ), X, body, bk)
			}
			if len(em) == 0 {
				v = c.init
			} else {
				v = joinParts(c.typ, append(append([]*T{}, ip...), m))
			}
		case MStore:
			em := emit[c.key]
			if len(em) != 1 || c.root.a[0].k != KMake || c.root.a[0].a[0] != mkLen(X) || c.init != nil {
				return nil
			}
			bk := boundFor(em)
			body := subst(mkSeq(nil, em...), map[*T]*T{lp.K: bk})
			v = mkApp("filled", nil, mkMapSeq(c.root.a[0].typ, X, body, bk))
		default:
			return nil
		}
		if c.phi != nil {
			q.env[c.phi] = v
		} else if c.root.k == KBacking {
			q.st.mem[c.root] = v
		} else {
			cur := e.rootVal(q.st, c.root, ptrElem(c.root.typ))
			q.st.mem[c.root] = setLeaf(cur, c.path, v)
		}
	}
	return []edge{{from: from, to: to, p: q}}
}

// mergeEventLoop joins the exits of a loop over X whose body does the same on every iteration, and leaves nothing behind but
// parts of the state declared unknown: whether X is empty makes no difference to what is known afterwards.
func (f *frame) mergeEventLoop(lp *Loop, p *path, outs []Outcome, exits []edge) []edge {
	if len(outs) > 0 || len(exits) != 2 || len(lp.heads) != 2 || len(lp.trans) != 2 {
		return nil
	}
	x := exits[1]
	if exits[0].to != x.to || exits[0].from != x.from {
		return nil
	}
	unknown := false
	for _, c := range lp.comps {
		switch c.mode {
		case MStable, MInd:
		case MFinite:
			v := lp.heads[1].vals[c.key]
			if v != lp.heads[0].vals[c.key] && (v == nil || v.isConst() || !isAtom(v)) {
				return nil
			}
			unknown = true
		default:
			return nil
		}
	}
	for _, ev := range lp.trans[0].ev {
		if ev.kind == "call" && ev.name == evApply {
			unknown = true
		}
	}
	if !unknown {
		return nil
	}
	n := len(p.st.facts)
	for _, t := range lp.trans {
		if len(t.facts) != 1 || len(t.emit) > 0 || t.to != 1 {
			return nil
		}
	}
	for _, y := range exits {
		for _, ft := range y.p.st.facts[n:] {
			if !contains(ft, lp.K) {
				return nil
			}
		}
	}
	q := x.p.clone()
	q.st.facts = append([]*T{}, p.st.facts...)
	q.st.fset = map[*T]bool{}
	for _, ft := range q.st.facts {
		q.st.fset[ft] = true
	}
	return []edge{{from: x.from, to: x.to, p: q}}
}

// listOfLen finds the list of known parts whose elements the loop uses and whose length is n.
func listOfLen(lp *Loop, n *T) *T {
	if n.isInt() {
		return nil
	}
	var found *T
	for _, t := range lp.trans {
		for _, k := range sortedKeys(t.emit) {
			for _, em := range t.emit[k] {
				walkTerm(em, func(x *T) bool {
					if x.k == KElem && x.a[1] == lp.K && x.a[0].k == KSeq && mkLen(x.a[0]) == n {
						found = x.a[0]
					}
					return found == nil
				})
			}
		}
	}
	return found
}

func mkMapSeq(typ types.Type, X, body, bk *T) *T {
	if body.k == KSeq && len(body.a) == 1 && body.a[0].k == KUnit {
		el := body.a[0].a[0]
		if el.k == KElem && el.a[0] == X && el.a[1] == bk {
			return X
		}
	}
	if X.k == KSeq && len(X.a) > 0 {
		// element-wise over the known parts, if only the element is used
		el := mkElem(X, bk, elemType(X))
		if el.k == KElem {
			var parts []*T
			for _, p := range X.a {
				var b *T
				switch {
				case p.k == KUnit:
					b = subst(body, map[*T]*T{el: p.a[0]})
					if contains(b, bk) {
						return mkMap("mapseq", typ, X, body, bk)
					}
				case p.k == KApp && p.s == "mapseq" && boundOf(p) == bk && p.a[1].k == KSeq && len(p.a[1].a) == 1 && p.a[1].a[0].k == KUnit:
					b = subst(body, map[*T]*T{el: p.a[1].a[0].a[0]})
					if contains(b, X) {
						return mkMap("mapseq", typ, X, body, bk)
					}
					b = mkMapSeq(typ, p.a[0], b, bk)
				default:
					return mkMap("mapseq", typ, X, body, bk)
				}
				parts = append(parts, b)
			}
			return mkSeq(typ, parts...)
		}
	}
	return mkMap("mapseq", typ, X, body, bk)
}

// unroll executes loops whose header test is decided by constants in every
// iteration (ranges over literals). It gives up, without effect, otherwise.
func (f *frame) unroll(header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, from *ssa.BasicBlock, p *path) (outs []Outcome, exits []edge, ok bool) {
	e := f.e
	iff, isIf := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, nil, false
	}
	for _, in := range header.Instrs[:len(header.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil, nil, false
			}
		default:
			return nil, nil, false
		}
	}
	nun := len(e.undec)
	lp := &Loop{id: -1, fn: f.fn, header: header, K: mkSym("K#unrolled", tInt)}
	e.active = append(e.active, activeLoop{f, body, lp})
	defer func() { e.active = e.active[:len(e.active)-1] }()
	work := []edge{{from, header, p.clone()}}
	for n := 0; len(work) > 0; n++ {
		if n > 20 || len(work) > 64 {
			e.undec = e.undec[:nun]
			return nil, nil, false
		}
		var nextWork []edge
		for _, w := range work {
			f.phis(w.p, header, w.from)
			i := 0
			for i < len(header.Instrs) {
				if _, isPhi := header.Instrs[i].(*ssa.Phi); !isPhi {
					break
				}
				i++
			}
			probe := w.p.clone()
			for _, in := range header.Instrs[i : len(header.Instrs)-1] {
				if c, isCall := in.(*ssa.Call); isCall {
					ci := f.callInfo(probe, c, &c.Call)
					ci.st = probe.st
					o := e.call(ci)
					if len(o) != 1 {
						return nil, nil, false
					}
					f.bindResult(probe, c, o[0].vals)
					continue
				}
				if _, isDbg := in.(*ssa.DebugRef); isDbg {
					continue
				}
				f.simple(probe, in)
			}
			if c := f.val(probe, iff.Cond); c != tTrue && c != tFalse {
				e.undec = e.undec[:nun]
				return nil, nil, false
			}
			o, backs, ex := f.run([]item{{blk: header, idx: i, p: w.p, noPhi: true}}, body, header)
			outs = append(outs, o...)
			exits = append(exits, ex...)
			nextWork = append(nextWork, backs...)
		}
		work = nextWork
	}
	return outs, exits, true
}

// isAtom: a constant, or a part of the state a rule has declared unknown ("visited").
func isAtom(t *T) bool {
	for t.k == KField {
		t = t.a[0]
	}
	return t.isConst() || t.k == KSym && t.s == "visited" || t.k == KApp && t.s == "mapnew"
}
