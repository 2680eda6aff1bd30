package main

// C07: shared memory, locks and independence of parses.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (p *Prog) libScope() map[*ssa.Package]bool {
	out := map[*ssa.Package]bool{}
	for _, n := range []string{"", "ast", "ast/astutil"} {
		path := p.modPath
		if n != "" {
			path += "/" + n
		}
		if sp := p.spkgs[path]; sp != nil {
			out[sp] = true
		} else {
			panic(anchorError("package " + path))
		}
	}
	return out
}

// --- locks held

type lockSet map[string]bool

func (s lockSet) clone() lockSet {
	c := lockSet{}
	for k := range s {
		c[k] = true
	}
	return c
}

// lockFn is what is known about the locks of a function.
type lockFn struct {
	entry   lockSet // held at every call
	top     bool    // not called yet
	mayIn   lockSet // held at some call
	gain    lockSet // held at every normal exit beyond entry
	lose    lockSet // released for the caller on some path
	takes   lockSet // locked somewhere inside, also by callees
	must    map[ssa.Instruction]lockSet
	may     map[ssa.Instruction]lockSet
	exits   []ssa.Instruction
	defers  lockSet // released when the function ends
	visited bool
}

type locks struct {
	a   *pointsTo
	fns map[*ssa.Function]*lockFn
}

var lockOps = map[string]string{
	"(*sync.Mutex).Lock": "L", "(*sync.Mutex).Unlock": "U", "(*sync.RWMutex).Lock": "L", "(*sync.RWMutex).Unlock": "U",
	"(*sync.RWMutex).RLock": "R", "(*sync.RWMutex).RUnlock": "V",
}

// lockOp recognises the locking of a mutex; name is empty when the mutex is not known.
func (k *locks) lockOp(in ssa.CallInstruction) (op, name string) {
	f := in.Common().StaticCallee()
	if f == nil {
		return
	}
	op = lockOps[f.String()]
	if op == "" {
		return
	}
	n := k.a.val(ctxRun, in.Common().Args[0], "")
	if len(n.list) == 1 {
		l := n.list[0]
		if l.o.kind == "global" {
			name = l.o.g.Name() + l.path
		} else if l.o.kind == "alloc" && l.o.ctx == ctxInit {
			name = fmt.Sprint("object ", l.o.id, l.path)
		}
	}
	return
}

func (k *locks) fn(f *ssa.Function) *lockFn {
	x := k.fns[f]
	if x == nil {
		x = &lockFn{top: true, entry: lockSet{}, mayIn: lockSet{}, gain: lockSet{}, lose: lockSet{}, takes: lockSet{}, defers: lockSet{},
			must: map[ssa.Instruction]lockSet{}, may: map[ssa.Instruction]lockSet{}}
		k.fns[f] = x
	}
	return x
}

func (a *pointsTo) calleesOf(in ssa.CallInstruction) (out []*ssa.Function) {
	for c := range a.callees[in] {
		if c.ctx == ctxRun {
			out = append(out, c.fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// newLocks computes for every instruction the mutexes held.
func newLocks(a *pointsTo) *locks {
	k := &locks{a: a, fns: map[*ssa.Function]*lockFn{}}
	var fns []*ssa.Function
	for _, f := range a.fns {
		if f.ctx == ctxRun {
			fns = append(fns, f.fn)
		}
	}
	for round := 0; round < 50; round++ {
		changed := false
		for _, f := range fns {
			if k.flow(f) {
				changed = true
			}
		}
		// what the callers hold
		for _, f := range fns {
			x := k.fn(f)
			var entry lockSet
			may := lockSet{}
			free := a.isEntry(f)
			n := 0
			for _, c := range a.callers[ptFn{ctxRun, f}] {
				if c.caller.ctx != ctxRun {
					continue
				}
				n++
				cx := k.fn(c.caller.fn)
				var at lockSet
				if _, ok := c.in.(*ssa.Defer); ok {
					for _, e := range cx.exits {
						if at == nil {
							at = cx.must[e].clone()
						} else {
							meet(at, cx.must[e])
						}
						for m := range cx.may[e] {
							may[m] = true
						}
					}
				} else if _, ok := c.in.(*ssa.Go); ok {
					at = lockSet{}
				} else {
					at = cx.must[c.in]
					for m := range cx.may[c.in] {
						may[m] = true
					}
				}
				if at == nil {
					at = lockSet{}
				}
				if entry == nil {
					entry = at.clone()
				} else {
					meet(entry, at)
				}
			}
			if free || n == 0 || entry == nil {
				entry = lockSet{}
			}
			if !sameSet(entry, x.entry) || !sameSet(may, x.mayIn) {
				x.entry, x.mayIn = entry, may
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return k
}

func meet(a, b lockSet) {
	for m := range a {
		if !b[m] {
			delete(a, m)
		}
	}
}

func sameSet(a, b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for m := range a {
		if !b[m] {
			return false
		}
	}
	return true
}

type lockState struct{ must, may, lost lockSet }

func (s *lockState) clone() *lockState {
	return &lockState{s.must.clone(), s.may.clone(), s.lost.clone()}
}

// flow runs through one function; it reports whether the summary changed.
func (k *locks) flow(f *ssa.Function) bool {
	x := k.fn(f)
	in := make([]*lockState, len(f.Blocks))
	in[0] = &lockState{x.entry.clone(), x.mayIn.clone(), lockSet{}}
	work := []int{0}
	gain, lose, takes := lockSet(nil), lockSet{}, lockSet{}
	defers := lockSet{}
	deferGain := lockSet{}
	x.exits = nil
	exits := map[ssa.Instruction]*lockState{}
	for n := 0; len(work) > 0 && n < 10000; n++ {
		bi := work[len(work)-1]
		work = work[:len(work)-1]
		s := in[bi].clone()
		for _, ins := range f.Blocks[bi].Instrs {
			x.must[ins], x.may[ins] = s.must.clone(), s.may.clone()
			switch c := ins.(type) {
			case *ssa.Call:
				op, name := k.lockOp(c)
				switch op {
				case "L", "R":
					if name != "" {
						s.must[name+op], s.may[name+op] = true, true
						takes[name] = true
					}
				case "U", "V":
					o := "L"
					if op == "V" {
						o = "R"
					}
					if name == "" {
						s.must = lockSet{}
					} else {
						if !s.must[name+o] || x.entry[name+o] {
							s.lost[name+o] = true
						}
						delete(s.must, name+o)
						delete(s.may, name+o)
					}
				default:
					cs := k.a.calleesOf(c)
					for _, g := range cs {
						gx := k.fn(g)
						for m := range gx.takes {
							takes[m] = true
						}
						for m := range gx.lose {
							if !s.must[m] || x.entry[m] {
								s.lost[m] = true
							}
							delete(s.must, m)
							delete(s.may, m)
						}
						for m := range gx.gain {
							s.may[m] = true
							if len(cs) == 1 {
								s.must[m] = true
							}
						}
					}
				}
			case *ssa.Defer:
				op, name := k.lockOp(c)
				switch op {
				case "U":
					defers[name+"L"] = true
				case "V":
					defers[name+"R"] = true
				case "":
					for _, g := range k.a.calleesOf(c) {
						for m := range k.fn(g).lose {
							defers[m] = true
						}
						for m := range k.fn(g).gain {
							deferGain[m] = true
						}
					}
				}
			case *ssa.Return, *ssa.Panic:
				exits[ins] = s.clone()
			}
		}
		for _, su := range f.Blocks[bi].Succs {
			t := in[su.Index]
			if t == nil {
				in[su.Index] = s.clone()
				work = append(work, su.Index)
				continue
			}
			ch := false
			for m := range t.must {
				if !s.must[m] {
					delete(t.must, m)
					ch = true
				}
			}
			for m := range s.may {
				if !t.may[m] {
					t.may[m] = true
					ch = true
				}
			}
			for m := range s.lost {
				if !t.lost[m] {
					t.lost[m] = true
					ch = true
				}
			}
			if ch {
				work = append(work, su.Index)
			}
		}
	}
	for _, b := range f.Blocks {
		ins := b.Instrs[len(b.Instrs)-1]
		s := exits[ins]
		if s == nil {
			continue
		}
		x.exits = append(x.exits, ins)
		for m := range s.lost {
			lose[m] = true
		}
		if _, ok := ins.(*ssa.Return); ok {
			g := lockSet{}
			for m := range s.must {
				if !x.entry[m] && !defers[m] {
					g[m] = true
				}
			}
			if gain == nil {
				gain = g
			} else {
				meet(gain, g)
			}
		}
	}
	for m := range defers {
		held := true
		for _, e := range x.exits {
			if !exits[e].must[m] || x.entry[m] {
				held = false
			}
		}
		if !held {
			lose[m] = true
		}
	}
	if gain == nil {
		gain = lockSet{}
	}
	ch := !sameSet(gain, x.gain) || !sameSet(lose, x.lose) || !sameSet(takes, x.takes) || !sameSet(defers, x.defers) || !x.visited
	x.gain, x.lose, x.takes, x.defers, x.visited = gain, lose, takes, defers, true
	return ch
}

// covers reports whether the lock of a mutex suffices for the access.
func (s lockSet) covers(mutex string, write bool) bool {
	return s[mutex+"L"] || !write && s[mutex+"R"]
}

// --- rules

type concRun struct {
	r   *Rep
	a   *pointsTo
	k   *locks
	acc map[ssa.Instruction][]*ptAccess
	bad map[*ptObj]bool            // already reported as unguarded
	via map[*ptObj]map[*ptObj]bool // objects accessed through a mutable variable no reference into which escapes
}

func ruleShared(r *Rep) {
	a := newPointsTo(r.p, r.p.libScope())
	a.run()
	gs := a.globals()
	c := &concRun{r: r, a: a, k: newLocks(a), acc: map[ssa.Instruction][]*ptAccess{}, via: map[*ptObj]map[*ptObj]bool{}, bad: map[*ptObj]bool{}}
	for _, ac := range a.acc {
		if ac.ctx == ctxRun {
			c.acc[ac.in] = append(c.acc[ac.in], ac)
		}
	}
	fns := map[*ssa.Function]bool{}
	for _, f := range a.fns {
		if f.ctx == ctxRun {
			fns[f.fn] = true
			r.funcs[f.fn.String()] = true
		}
	}
	for _, g := range gs {
		c.global(g)
	}
	c.lockUse(fns)
	c.results(gs)
	c.options()
	c.order(fns)
	c.outside(fns)
	c.pools(fns)
	c.independent(gs)
	r.note("points-to: %d functions, %d objects, %d memory accesses at run time", len(fns), a.nobj, len(c.acc))
	r.floor("shared", 12)
}

func isSync(t types.Type) bool {
	if p := ptrElem(t); p != nil {
		t = p
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// freshRoot: the memory is made in the function itself and addressed directly.
func freshRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
}

func memAddr(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		return x.Addr
	case *ssa.MapUpdate:
		return x.Map
	case *ssa.UnOp:
		return x.X
	case *ssa.Lookup:
		return x.X
	case *ssa.Range:
		return x.X
	case ssa.CallInstruction:
		if len(x.Common().Args) > 0 {
			return x.Common().Args[0]
		}
	}
	return nil
}

func (c *concRun) global(g *ptObj) {
	r, a := c.r, c.a
	name := g.g.Name()
	if isSync(ptrElem(g.g.Type())) {
		// its methods synchronise; what it holds is looked at below
		for _, ac := range a.acc {
			if ac.ctx != ctxRun || !ac.write {
				continue
			}
			for l := range ac.addr.pts {
				if l.o == g {
					r.fail("shared", name+" "+fnKey(ac.fn), r.where(ac.in.Pos()), "%s is replaced at run time", name)
				}
			}
		}
	}
	region := a.reach([]*ptLoc{a.loc(g, "")})
	own := map[string]bool{}
	var deep []*ptAccess
	n := 0
	for _, ac := range a.acc {
		if ac.ctx != ctxRun {
			continue
		}
		for l := range ac.addr.pts {
			if _, ok := region[l.o]; !ok {
				continue
			}
			n++
			if !ac.write {
				continue
			}
			if l.o == g && !isSync(ptrElem(g.g.Type())) {
				own[l.path+ac.path] = true
			} else if l.o != g {
				deep = append(deep, ac)
			}
			break
		}
	}
	if len(own) == 0 && len(deep) == 0 {
		r.pass("shared", "%s and the %d objects reachable from it are not written at run time (%d accesses)", name, len(region), n)
		return
	}
	// the variable is mutable: which mutex guards it?
	t := c.taint(g)
	locs := map[*ptLoc]bool{}
	for in := range t.access {
		for _, ac := range c.acc[in] {
			for l := range ac.addr.pts {
				if _, ok := region[l.o]; ok {
					locs[a.loc(l.o, l.path+ac.path)] = true
				}
			}
		}
	}
	if len(t.leaks) == 0 {
		c.via[g] = map[*ptObj]bool{g: true}
		for l := range locs {
			c.via[g][l.o] = true
		}
	}
	type use struct {
		ac  *ptAccess
		via bool
	}
	var uses []use
	for _, ac := range a.acc {
		if ac.ctx != ctxRun {
			continue
		}
		hit := false
		for l := range ac.addr.pts {
			if l.o == g || len(t.leaks) > 0 && inRegion(region, l.o) || overlaps(locs, a.loc(l.o, l.path+ac.path)) {
				hit = true
			}
		}
		if !hit {
			continue
		}
		via := t.access[ac.in]
		if !via && freshRoot(memAddr(ac.in)) {
			continue
		}
		uses = append(uses, use{ac, via})
	}
	// a location that is only read needs no lock
	written := map[*ptLoc]bool{}
	for _, u := range uses {
		if u.ac.write {
			for l := range u.ac.addr.pts {
				written[a.loc(l.o, l.path+u.ac.path)] = true
			}
		}
	}
	all := uses
	uses = nil
	for _, u := range all {
		hit := false
		for l := range u.ac.addr.pts {
			hit = hit || l.o == g || overlaps(written, a.loc(l.o, l.path+u.ac.path))
		}
		if hit {
			uses = append(uses, u)
		}
	}
	mutated := len(written) > 0
	count := map[string]int{}
	for _, u := range uses {
		held := c.k.fn(u.ac.fn).must[u.ac.in]
		ms := map[string]bool{}
		for m := range held {
			ms[m[:len(m)-1]] = true
		}
		for m := range ms {
			if held.covers(m, u.ac.write) {
				count[m]++
			}
		}
	}
	if !mutated {
		r.pass("shared", "%s: what is read through it is not written at run time", name)
		return
	}
	best := ""
	for _, m := range sortedKeys(count) {
		if best == "" || count[m] > count[best] {
			best = m
		}
	}
	for _, u := range uses {
		held := c.k.fn(u.ac.fn).must[u.ac.in]
		ok := best != "" && held.covers(best, u.ac.write)
		what := "no mutex is"
		if best != "" {
			what = best + " is not"
		}
		if !ok {
			c.bad[g] = true
		}
		r.check(ok, "shared", name+" "+fnKey(u.ac.fn), r.where(instrPos(u.ac.in)), "%s of memory shared through %s while %s held", u.ac.how, name, what)
	}
	for _, lk := range t.leaks {
		r.fail("shared", name+" "+lk.what, r.where(lk.pos), "%s: %s", name, lk.what)
	}
}

func inRegion(region map[*ptObj]string, o *ptObj) bool {
	_, ok := region[o]
	return ok && o.kind != "func" && o.kind != "box"
}

func overlaps(locs map[*ptLoc]bool, l *ptLoc) bool {
	for m := range locs {
		if m.o == l.o && (strings.HasPrefix(m.path, l.path) || strings.HasPrefix(l.path, m.path)) {
			return true
		}
	}
	return false
}

func fnKey(fn *ssa.Function) string { return fn.Name() }

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && (*o).Pos().IsValid() {
			return (*o).Pos()
		}
	}
	return in.Parent().Pos()
}

type leak struct {
	pos  token.Pos
	what string
}

type taintRes struct {
	vals   map[ssa.Value]bool
	access map[ssa.Instruction]bool
	reads  map[*ssa.Function]bool
	leaks  []leak
}

// taint follows the references loaded from a global variable.
func (c *concRun) taint(g *ptObj) *taintRes {
	t := &taintRes{vals: map[ssa.Value]bool{}, access: map[ssa.Instruction]bool{}, reads: map[*ssa.Function]bool{}}
	var work []ssa.Value
	mark := func(v ssa.Value) {
		if v != nil && len(leaves(v.Type())) > 0 && !t.vals[v] {
			t.vals[v] = true
			work = append(work, v)
		}
	}
	onG := func(v ssa.Value) bool {
		for l := range c.a.val(ctxRun, v, "").pts {
			if l.o == g {
				return true
			}
		}
		return false
	}
	for _, ac := range c.a.acc {
		if ac.ctx != ctxRun {
			continue
		}
		for l := range ac.addr.pts {
			if l.o == g {
				t.access[ac.in] = true
				t.reads[ac.fn] = true
				if u, ok := ac.in.(*ssa.UnOp); ok {
					mark(u)
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if _, isAlloc := v.(*ssa.Alloc); !isAlloc {
						t.access[in] = true
					}
					mark(x)
				}
			case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Phi, *ssa.Extract, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert:
				mark(in.(ssa.Value))
			case *ssa.Range:
				t.access[in] = true
				mark(x)
			case *ssa.Next:
				t.access[in] = true
				mark(x)
			case *ssa.Lookup:
				t.access[in] = true
				mark(x)
			case *ssa.Convert:
				t.access[in] = true
			case *ssa.MapUpdate:
				if x.Map == v {
					t.access[in] = true
				} else if !t.vals[x.Map] {
					t.leaks = append(t.leaks, leak{x.Pos(), "a reference into it is kept in another map"})
				}
			case *ssa.Store:
				if x.Addr == v {
					if _, isAlloc := v.(*ssa.Alloc); !isAlloc {
						t.access[in] = true
					}
				}
				if x.Val == v {
					switch {
					case onG(x.Addr), t.vals[x.Addr]:
					case localCell(x.Addr):
						mark(rootAlloc(x.Addr))
					default:
						t.leaks = append(t.leaks, leak{x.Pos(), "a reference into it is kept elsewhere"})
					}
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						mark(f.FreeVars[i])
					}
				}
			case *ssa.Return:
				fn := in.Parent()
				if c.a.isEntry(fn) {
					t.leaks = append(t.leaks, leak{x.Pos(), "a reference into it is returned by " + fn.Name()})
				}
				for _, cl := range c.a.callers[ptFn{ctxRun, fn}] {
					if cv, ok := cl.in.(*ssa.Call); ok {
						mark(cv)
					}
				}
			case ssa.CallInstruction:
				cm := x.Common()
				if b, ok := cm.Value.(*ssa.Builtin); ok {
					t.access[in] = true
					if b.Name() == "append" {
						mark(x.Value())
					}
					continue
				}
				known := false
				for _, f := range c.a.calleesOf(x) {
					known = true
					ps := f.Params
					if cm.IsInvoke() {
						if cm.Value == v {
							mark(ps[0])
						}
						ps = ps[1:]
					}
					for i, ar := range cm.Args {
						if ar == v && i < len(ps) {
							mark(ps[i])
						}
					}
				}
				if f := c.a.extCall[x]; f != nil {
					known = true
					t.access[in] = true
					if x.Value() != nil {
						for i, ar := range cm.Args {
							if ar == v && aliases(f, i) {
								mark(x.Value())
							}
						}
					}
				}
				if !known {
					t.leaks = append(t.leaks, leak{in.Pos(), "a reference into it is given to an unknown function"})
				}
			}
		}
	}
	return t
}

// aliases: library functions whose result refers to an argument.
func aliases(f *ssa.Function, i int) bool {
	res := f.Signature.Results()
	for j := 0; j < res.Len(); j++ {
		switch res.At(j).Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			if fnPkg(f) == "fmt" || fnPkg(f) == "strings" || fnPkg(f) == "errors" {
				return false
			}
			return i == 0
		}
	}
	return false
}

func localCell(v ssa.Value) bool { return rootAlloc(v) != nil }

func rootAlloc(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

// lockUse: every mutex taken is released on every way out and not taken twice.
func (c *concRun) lockUse(fns map[*ssa.Function]bool) {
	r := c.r
	n := 0
	for _, f := range sortFns(fns) {
		x := c.k.fn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				_, isCall := in.(*ssa.Call)
				op, name := c.k.lockOp(cl)
				if op != "" {
					n++
					r.check(name != "", "lock", f.Name()+" mutex", r.where(in.Pos()), "the mutex is not known")
				}
				if !isCall {
					continue
				}
				if op == "L" || op == "R" {
					r.check(!x.may[in][name+"L"] && (op == "R" || !x.may[in][name+"R"]), "lock", f.Name()+" twice", r.where(in.Pos()), "%s is locked while it is held already", name)
				} else if op == "" {
					for _, g := range c.a.calleesOf(cl) {
						for m := range c.k.fn(g).takes {
							bad := x.may[in][m+"L"] && !c.k.fn(g).lose[m+"L"]
							if bad {
								r.fail("lock", f.Name()+" twice", r.where(in.Pos()), "%s locks %s, which is held already", g.Name(), m)
							}
						}
					}
				}
			}
		}
		for _, e := range x.exits {
			_, isPanic := e.(*ssa.Panic)
			for _, m := range sortedKeys(x.may[e]) {
				if x.mayIn[m] || x.defers[m] {
					continue
				}
				// a helper that locks for its callers
				if !isPanic && x.gain[m] && !c.a.isEntry(f) && len(c.a.callers[ptFn{ctxRun, f}]) > 0 {
					continue
				}
				r.fail("lock", f.Name()+" release", r.where(instrPos(e)), "%s ends with %s still locked", f.Name(), m[:len(m)-1])
			}
			r.pass("lock", "%s releases what it locks", f.Name())
		}
	}
}

func sortFns(fns map[*ssa.Function]bool) (out []*ssa.Function) {
	for f := range fns {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return
}

// results: what users get shares no memory with package variables or with pools.
func (c *concRun) results(gs []*ptObj) {
	a, r := c.a, c.r
	shared := map[*ptObj]string{}
	for _, g := range gs {
		region := a.reach([]*ptLoc{a.loc(g, "")})
		for path, n := range g.cont {
			if strings.Contains(path, "^pool") {
				for l := range n.pts {
					if l.o.kind == "box" {
						for _, q := range leaves(l.o.typ) {
							for m := range a.content(l, q).pts {
								region[m.o] = ""
							}
						}
					}
				}
			}
		}
		// pools are pointers to the pool object
		for o := range region {
			for path, n := range o.cont {
				if strings.Contains(path, "^pool") {
					// the pooled values are empty, the rule on pools requires it
					for l := range n.pts {
						region[l.o] = ""
					}
				}
			}
		}
		if v := c.via[g]; v != nil {
			region = map[*ptObj]string{}
			for o := range v {
				region[o] = ""
			}
		}
		for o := range region {
			if o.kind == "alloc" && !immutableObj(o) || o.kind == "global" && !isSync(ptrElem(o.g.Type())) {
				shared[o] = g.g.Name()
			}
		}
	}
	a.solve()
	for _, k := range a.fns {
		if k.ctx != ctxRun || !a.isEntry(k.fn) || len(k.fn.Blocks) == 0 || !c.public(k.fn) {
			continue
		}
		var start []*ptLoc
		for _, b := range k.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range ret.Results {
				if n, ok := types.Unalias(v.Type()).(*types.Named); ok && n.Obj().Name() == "Option" {
					continue
				}
				for _, q := range leaves(v.Type()) {
					start = append(start, a.val(ctxRun, v, q).list...)
				}
			}
		}
		bad := ""
		var names []string
		for o := range a.reach(start) {
			if g, ok := shared[o]; ok {
				names = append(names, g+" ("+o.String()+")")
			}
		}
		sort.Strings(names)
		if len(names) > 0 {
			bad = names[0]
		}
		r.check(bad == "", "result", k.fn.Name(), r.fnWhere(k.fn), "the result of %s shares memory with %s", k.fn, bad)
	}
	r.floor("result", 40)
}

// public: a function or a method of an exported type.
func (c *concRun) public(fn *ssa.Function) bool {
	rv := fn.Signature.Recv()
	if rv == nil {
		return true
	}
	t := rv.Type()
	if p := ptrElem(t); p != nil {
		t = p
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Exported()
}

// immutableObj: users cannot write to it.
func immutableObj(o *ptObj) bool {
	s, ok := o.typ.Underlying().(*types.Struct)
	if !ok {
		_, basic := o.typ.Underlying().(*types.Basic)
		return basic && false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return false
		}
	}
	n, ok := types.Unalias(o.typ).(*types.Named)
	return ok && !n.Obj().Exported()
}

// options: applying an option leaves nothing behind in the option.
func (c *concRun) options() {
	a, r := c.a, c.r
	kept := map[*ptObj]string{}
	n := 0
	for _, k := range a.fns {
		if k.ctx != ctxRun || !a.isEntry(k.fn) || k.fn.Signature.Results().Len() != 1 {
			continue
		}
		nt, ok := types.Unalias(k.fn.Signature.Results().At(0).Type()).(*types.Named)
		if !ok || nt.Obj().Name() != "Option" {
			continue
		}
		n++
		for _, b := range k.fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for o := range a.reach(a.val(ctxRun, ret.Results[0], "").list) {
				if o.kind == "alloc" && o.fn == k.fn {
					kept[o] = k.fn.Name()
				}
			}
		}
		r.pass("option", "%s", k.fn.Name())
	}
	for _, ac := range a.acc {
		if ac.ctx != ctxRun || !ac.write {
			continue
		}
		for l := range ac.addr.pts {
			if on, ok := kept[l.o]; ok && ac.fn != l.o.fn {
				r.fail("option", on+" "+fnKey(ac.fn), r.where(instrPos(ac.in)), "%s writes to memory kept by the option of %s: the next parse with this option sees it", ac.fn.Name(), on)
			}
		}
	}
	r.floor("option", 8)
}

func devPoints(dir string) {
	p, err := loadProg(dir)
	if err != nil {
		panic(err)
	}
	t := time.Now()
	a := newPointsTo(p, p.libScope())
	a.run()
	fmt.Println(time.Since(t), len(a.fns), "functions", len(a.nodes), "nodes", a.nobj, "objects", len(a.acc), "accesses")
	for _, g := range a.globals() {
		rs := a.reach([]*ptLoc{a.loc(g, "")})
		fmt.Println(g.g, g.kind, len(rs))
		n := 0
		for _, ac := range a.acc {
			if ac.ctx != ctxRun || !ac.write {
				continue
			}
			for l := range ac.addr.pts {
				if _, ok := rs[l.o]; ok && n < 8 {
					n++
					fmt.Println("   ", ac.how, l.o, l.path+ac.path, ac.fn, p.pos(ac.in.Pos()))
				}
			}
		}
	}
}

func (a *pointsTo) globals() (out []*ptObj) {
	for pk := range a.scope {
		for _, n := range sortedKeys(pk.Members) {
			if g, ok := pk.Members[n].(*ssa.Global); ok && n != "init$guard" {
				for l := range a.val(0, g, "").pts {
					out = append(out, l.o)
				}
				a.solve()
			}
		}
	}
	return
}

func init() {
	register("C07", "Points-to analysis of the parser, ast and astutil packages (initialisation and run time apart). For each package variable: no instruction that runs after initialisation writes to it or to memory reachable from it, or every access to it and through it happens while one and the same mutex is held (must-hold data flow over the call graph) and no reference into it outlives the lock. Mutexes are released on every way out and not taken twice. Results of exported functions share no memory with package variables or pools; options keep no memory that applying them writes to; pooled values are emptied, given away once and forgotten. Loops over maps do not depend on their order and no clock, environment, random source, goroutine or address is consulted. Functions that read a mutable variable, interpreted, must have the same outcomes whatever it holds.",
		func(r *Rep) { ruleShared(r) },
		"memory handed over by a caller belongs to this caller; library functions behave as documented, write only to receivers and arguments listed as written, and regular expressions and sync types are safe for concurrent use")
}
