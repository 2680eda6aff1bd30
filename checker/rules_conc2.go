package main

// C07: determinism of map iteration, foreign inputs, pools, and independence from the shared record.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- order of map iteration

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

func (c *concRun) order(fns map[*ssa.Function]bool) {
	n := 0
	for _, f := range sortFns(fns) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					c.mapIter(f, call)
				}
				rg, ok := in.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				n++
				msg := c.unordered(f, rg)
				c.r.check(msg == "", "order", f.Name()+" map range", c.r.where(instrPos(in)), "the outcome of the loop over a map depends on its order: %s", msg)
			}
		}
	}
	c.r.note("%d loops over maps", n)
}

// mapIter: iterators over maps end in sorted slices.
func (c *concRun) mapIter(f *ssa.Function, call *ssa.Call) {
	callee := call.Call.StaticCallee()
	if callee == nil || fnPkg(callee) != "maps" {
		return
	}
	n := callee.Name()
	if j := strings.IndexByte(n, '['); j >= 0 {
		n = n[:j]
	}
	if n != "Keys" && n != "Values" && n != "All" {
		return
	}
	ok := call.Referrers() != nil
	for _, u := range *call.Referrers() {
		if _, dbg := u.(*ssa.DebugRef); dbg {
			continue
		}
		uc, is := u.(*ssa.Call)
		if !is || uc.Call.StaticCallee() == nil || fnPkg(uc.Call.StaticCallee()) != "slices" {
			ok = false
			continue
		}
		switch m := uc.Call.StaticCallee().Name(); {
		case strings.HasPrefix(m, "Sorted["):
		case strings.HasPrefix(m, "Collect["):
			ok = ok && c.sortedUse(uc, nil, 5)
		default:
			ok = false
		}
	}
	c.r.check(ok, "order", f.Name()+" map iterator", c.r.where(call.Pos()), "the keys of a map are used unsorted")
}

// sortCall reports whether the instruction sorts the slice v completely.
func sortCall(in ssa.Instruction, v ssa.Value) bool {
	call, ok := in.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) == 0 {
		return false
	}
	a := call.Call.Args[0]
	for {
		switch x := a.(type) {
		case *ssa.MakeInterface:
			a = x.X
			continue
		case *ssa.ChangeType:
			a = x.X
			continue
		case *ssa.Convert:
			a = x.X
			continue
		}
		break
	}
	if a != v {
		return false
	}
	n := call.Call.StaticCallee().Name()
	if j := strings.IndexByte(n, '['); j >= 0 {
		n = n[:j]
	}
	switch fnPkg(call.Call.StaticCallee()) {
	case "sort":
		switch n {
		case "Strings", "Ints", "Float64s":
			return true
		case "Sort", "Stable":
			return true
		case "Slice", "SliceStable":
			return lessIsOrder(call.Call.Args[1])
		}
	case "slices":
		return n == "Sort"
	}
	return false
}

// lessIsOrder: the comparison function compares the elements themselves.
func lessIsOrder(v ssa.Value) bool {
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	}
	if f == nil || len(f.Blocks) != 1 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	cmp, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.GTR {
		return false
	}
	for _, o := range []ssa.Value{cmp.X, cmp.Y} {
		u, ok := o.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		if _, ok := u.X.(*ssa.IndexAddr); !ok {
			return false
		}
	}
	return true
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// sortedUse: outside of the loop the slice is sorted before it is used.
func (c *concRun) sortedUse(v ssa.Value, loop map[*ssa.BasicBlock]bool, depth int) bool {
	var sorts, uses []ssa.Instruction
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			if loop[u.Block()] {
				continue
			}
			switch x := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.MakeInterface, *ssa.ChangeType:
				vv := u.(ssa.Value)
				all := true
				for _, w := range *vv.Referrers() {
					if sortCall(w, v) {
						sorts = append(sorts, w)
					} else {
						all = false
					}
				}
				if !all {
					uses = append(uses, u)
				}
				continue
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && c.r.p.inRepo(f) && depth > 0 {
					sorted, only := false, true
					for i, a := range x.Call.Args {
						if a == v {
							sorted = sorted || sorts2(f, i)
							only = only && c.sortedUse(f.Params[i], nil, depth-1)
						}
					}
					if only {
						if sorted {
							sorts = append(sorts, u)
						}
						continue
					}
				}
			case *ssa.Return:
				if depth > 0 && c.sortedResult(u.Parent(), x, v, depth-1) {
					continue
				}
			}
			if sortCall(u, v) {
				sorts = append(sorts, u)
			} else {
				uses = append(uses, u)
			}
		}
	}
	collect(v)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if before(s, u) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// sorts2: the function sorts its parameter before it returns.
func sorts2(f *ssa.Function, i int) bool {
	var at []ssa.Instruction
	for _, u := range *f.Params[i].Referrers() {
		if sortCall(u, f.Params[i]) {
			at = append(at, u)
		} else if mi, ok := u.(*ssa.MakeInterface); ok {
			for _, w := range *mi.Referrers() {
				if sortCall(w, f.Params[i]) {
					at = append(at, w)
				}
			}
		}
	}
	return beforeReturns(f, at)
}

// beforeReturns: one of the instructions is executed before each return.
func beforeReturns(f *ssa.Function, at []ssa.Instruction) bool {
	for _, a := range at {
		all := true
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				all = all && before(a, ret)
			}
		}
		if all {
			return true
		}
	}
	return false
}

// sortedResult: those who call the function sort what it returns before they use it.
func (c *concRun) sortedResult(f *ssa.Function, ret *ssa.Return, v ssa.Value, depth int) bool {
	n := 0
	for _, g := range c.r.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() != f {
						return false
					}
					for i, x := range ret.Results {
						if x != v {
							continue
						}
						if len(ret.Results) == 1 {
							n++
							if !c.sortedUse(call, nil, depth) {
								return false
							}
							continue
						}
						for _, u := range *call.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index == i {
								n++
								if !c.sortedUse(e, nil, depth) {
									return false
								}
							}
						}
					}
				}
			}
		}
	}
	return n > 0
}

// appender: the function returns one of its parameters, more or less extended, and passes it on to nothing else; -1 if not.
func appender(f *ssa.Function, depth int) int {
	if f == nil || len(f.Blocks) == 0 || depth == 0 || f.Signature.Results().Len() != 1 {
		return -1
	}
	if _, ok := under(f.Signature.Results().At(0).Type()).(*types.Slice); !ok {
		return -1
	}
	for i, p := range f.Params {
		if !types.Identical(p.Type(), f.Signature.Results().At(0).Type()) {
			continue
		}
		from := map[ssa.Value]bool{p: true}
		for ch := true; ch; {
			ch = false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || from[v] {
						continue
					}
					switch x := in.(type) {
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && from[x.Call.Args[0]] {
							from[v], ch = true, true
						} else if j := appender(x.Call.StaticCallee(), depth-1); j >= 0 && from[x.Call.Args[j]] {
							from[v], ch = true, true
						}
					case *ssa.Phi:
						all := true
						for _, e := range x.Edges {
							all = all && from[e]
						}
						if all {
							from[v], ch = true, true
						}
					}
				}
			}
		}
		good := true
		for v := range from {
			for _, u := range *v.Referrers() {
				uv, isV := u.(ssa.Value)
				switch u.(type) {
				case *ssa.DebugRef, *ssa.Return:
				default:
					good = good && isV && from[uv]
				}
			}
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				good = good && from[ret.Results[0]]
			}
		}
		if good {
			return i
		}
	}
	return -1
}

// accum follows the values a header phi may take inside of the loop.
func accum(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool) (kind string) {
	seen := map[ssa.Value]bool{}
	consts := map[string]bool{}
	var visit func(v ssa.Value)
	set := func(k string) {
		if kind == "" || kind == k {
			kind = k
		} else {
			kind = "other"
		}
	}
	visit = func(v ssa.Value) {
		if v == phi || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			consts[x.String()] = true
			set("const")
			return
		case *ssa.Phi:
			if loop[x.Block()] {
				for _, e := range x.Edges {
					visit(e)
				}
				return
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				visit(x.Call.Args[0])
				set("append")
				return
			}
			if i := appender(x.Call.StaticCallee(), 5); i >= 0 {
				visit(x.Call.Args[i])
				set("append")
				return
			}
		case *ssa.BinOp:
			bt, _ := x.Type().Underlying().(*types.Basic)
			if bt != nil && bt.Info()&types.IsInteger != 0 && (x.Op == token.ADD || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR || x.Op == token.MUL) {
				isPhi := func(v ssa.Value) bool { return v == phi || seen[v] }
				if isPhi(x.X) || isPhi(x.Y) {
					set("sum" + x.Op.String())
					return
				}
				if p, ok := x.X.(*ssa.Phi); ok && loop[p.Block()] {
					visit(p)
					set("sum" + x.Op.String())
					return
				}
			}
		}
		set("other")
	}
	for i, e := range phi.Edges {
		if loop[phi.Block().Preds[i]] {
			visit(e)
		}
	}
	if kind == "const" && len(consts) > 1 {
		kind = "other"
	}
	return
}

func (c *concRun) unordered(f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	h := next.Block()
	loop := naturalLoop(h)
	var key, val ssa.Value
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				key = e
			case 2:
				val = e
			}
		}
	}
	effects := false
	early := map[*ssa.BasicBlock]bool{}
	cells := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		if !loop[b] {
			continue
		}
		for _, s := range b.Succs {
			if !loop[s] && b != h {
				early[s] = true
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b != h {
					continue
				}
				switch k := accum(x, loop); k {
				case "", "const":
				case "append":
					effects = true
					if !c.sortedUse(x, loop, 5) {
						return "what it collects is used unsorted"
					}
				case "other":
					return "a variable is carried from one entry to the next"
				default:
					effects = true
				}
			case *ssa.Store:
				if a := rootAlloc(x.Addr); a != nil {
					ab := a.(*ssa.Alloc).Block()
					if loop[ab] {
						continue
					}
					if _, isC := x.Val.(*ssa.Const); isC {
						continue
					}
					if call, ok := x.Val.(*ssa.Call); ok && x.Addr == a {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							if l, ok := call.Call.Args[0].(*ssa.UnOp); ok && l.X == a {
								cells[a] = true
								effects = true
								continue
							}
						}
					}
				} else if _, isC := x.Val.(*ssa.Const); isC && derived(x.Addr, map[ssa.Value]bool{key: key != nil, val: val != nil}) {
					effects = true
					continue
				}
				return "an entry is stored outside of the loop"
			case *ssa.MapUpdate:
				effects = true
				if _, isC := x.Value.(*ssa.Const); !isC && x.Key != key {
					return "entries overwrite one another"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.RunDefers:
				return "the loop has an effect for each entry"
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "min", "max", "real", "imag", "complex":
					case "delete":
						effects = true
					default:
						return "the loop calls " + bi.Name()
					}
					continue
				}
				if msg := c.effect(x, map[*ssa.Function]bool{}, loop, map[ssa.Value]bool{key: key != nil}, &effects); msg != "" {
					return msg
				}
			}
		}
	}
	for cell := range cells {
		if !sortedCell(cell, loop) {
			return "what it collects is used unsorted"
		}
	}
	if len(early) > 0 {
		if effects {
			return "the loop ends early after effects"
		}
		if len(early) > 1 {
			return "the loop is left in several ways"
		}
	}
	// values of one entry used behind the loop
	for _, b := range f.Blocks {
		if !loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if p, ok := in.(*ssa.Phi); ok && p.Block() == h {
				continue
			}
			if v == ssa.Value(next) {
				continue
			}
			for _, u := range *v.Referrers() {
				if _, dbg := u.(*ssa.DebugRef); dbg || loop[u.Block()] {
					continue
				}
				if e, ok := in.(*ssa.Extract); ok && e.Tuple == ssa.Value(next) && e.Index == 0 {
					continue
				}
				return "the value of one entry is used behind the loop"
			}
		}
	}
	for b := range early {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				vals := map[string]bool{}
				for i, e := range p.Edges {
					if loop[b.Preds[i]] && b.Preds[i] != h {
						if _, isC := e.(*ssa.Const); isC {
							vals[e.String()] = true
						} else if in, ok := e.(ssa.Instruction); ok && loop[in.Block()] {
							vals[e.Name()+"*"] = true
						}
					}
				}
				if len(vals) > 1 {
					return "the loop is left with different values"
				}
			}
		}
	}
	return ""
}

func sortedCell(cell ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	var sorts, uses []ssa.Instruction
	for _, u := range *cell.Referrers() {
		l, ok := u.(*ssa.UnOp)
		if !ok {
			if mc, ok := u.(*ssa.MakeClosure); ok && lessIsOrder(mc) {
				continue
			}
			if _, ok := u.(*ssa.Store); ok {
				continue
			}
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		if loop[l.Block()] {
			continue
		}
		isSort := false
		for _, w := range *l.Referrers() {
			if sortCall(w, l) {
				sorts, isSort = append(sorts, w), true
			} else if mi, ok := w.(*ssa.MakeInterface); ok {
				for _, x := range *mi.Referrers() {
					if sortCall(x, l) {
						sorts, isSort = append(sorts, x), true
					}
				}
			} else if call, ok := w.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					isSort = true
				}
			}
		}
		if !isSort {
			uses = append(uses, l)
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if before(s, u) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// derived: the address is computed from the key or the value of the entry.
func derived(v ssa.Value, from map[ssa.Value]bool) bool {
	for {
		if v != nil && from[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if from[x.Index] {
				return true
			}
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return false
		}
	}
}

// effect describes an effect of a call that is visible to others, "" when there is none.
// A change of the entry of a map that has the key of the entry at hand is no such effect; changes tells that there is one.
func (c *concRun) effect(call ssa.CallInstruction, seen map[*ssa.Function]bool, loop map[*ssa.BasicBlock]bool, keys map[ssa.Value]bool, changes *bool) string {
	if f := c.a.extCall[call]; f != nil {
		if strings.HasPrefix(f.Name(), "Print") || fnPkg(f) == "os" || fnPkg(f) == "log" {
			return "it prints for each entry"
		}
		for _, ac := range c.acc[call] {
			if ac.write {
				for l := range ac.addr.pts {
					if !(l.o.kind == "alloc" && l.o.fn != call.Parent()) {
						return "it calls " + f.Name() + " for each entry"
					}
				}
			}
		}
	}
	for _, f := range c.a.calleesOf(call) {
		if seen[f] {
			continue
		}
		seen[f] = true
		sub := map[ssa.Value]bool{}
		for i, a := range callArgs(call, f) {
			if keys[a] && i < len(f.Params) {
				sub[f.Params[i]] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if keyed(in, sub) {
					*changes = true
					continue
				}
				if x, ok := in.(*ssa.Call); ok && appender(f, 5) >= 0 {
					// what is collected: accum follows it
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						*changes = true
						continue
					}
				}
				for _, ac := range c.acc[in] {
					if !ac.write {
						continue
					}
					for l := range ac.addr.pts {
						if l.o.kind == "alloc" && seen[l.o.fn] {
							continue
						}
						return "it calls " + f.Name() + ", which writes to " + l.o.String() + ", for each entry"
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if msg := c.effect(ci, seen, loop, sub, changes); msg != "" {
						return msg
					}
				}
			}
		}
	}
	return ""
}

// keyed: the instruction changes the entry of a map that has one of the keys.
func keyed(in ssa.Instruction, keys map[ssa.Value]bool) bool {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return keys[x.Key]
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "delete" && keys[x.Call.Args[1]]
	}
	return false
}

// --- inputs other than the arguments

var foreign = map[string]bool{
	"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.ExpandEnv": true, "os.Getpid": true, "os.Hostname": true, "os.Getwd": true,
	"runtime.NumGoroutine": true, "runtime.ReadMemStats": true, "runtime.Stack": true, "runtime.Callers": true, "runtime.Caller": true, "runtime.GOMAXPROCS": true, "runtime.NumCPU": true, "runtime.Gosched": true,
}

func (c *concRun) outside(fns map[*ssa.Function]bool) {
	r := c.r
	calls := 0
	for _, f := range sortFns(fns) {
		bad := ""
		pos := f.Pos()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					bad, pos = "starts a goroutine", x.Pos()
				case *ssa.Select:
					bad, pos = "waits for channels", x.Pos()
				case *ssa.Convert:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						bad, pos = "uses unsafe pointers", x.Pos()
					}
				case ssa.CallInstruction:
					g := c.a.extCall[x]
					if g == nil {
						continue
					}
					calls++
					pk := fnPkg(g)
					switch {
					case pk == "time" && (g.Name() == "Now" || g.Name() == "Since" || g.Name() == "Until" || g.Name() == "After" || g.Name() == "Sleep" || g.Name() == "Tick"):
						bad, pos = "calls "+g.String(), x.Pos()
					case strings.HasPrefix(pk, "math/rand"), pk == "crypto/rand", pk == "hash/maphash", pk == "unsafe", pk == "plugin", pk == "weak", pk == "unique":
						bad, pos = "calls "+g.String(), x.Pos()
					case foreign[g.String()]:
						bad, pos = "calls "+g.String(), x.Pos()
					case pk == "reflect" && (g.Name() == "Pointer" || g.Name() == "UnsafePointer" || g.Name() == "UnsafeAddr" || g.Name() == "MapKeys" || g.Name() == "MapRange"):
						bad, pos = "calls "+g.String(), x.Pos()
					case pk == "fmt":
						for _, a := range x.Common().Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
								bad, pos = "prints a pointer", x.Pos()
							}
						}
					}
				}
			}
		}
		r.check(bad == "", "foreign", f.Name(), r.where(pos), "%s %s", f, bad)
	}
	r.note("%d calls of library functions", calls)
}

// --- pools

func (c *concRun) pools(fns map[*ssa.Function]bool) {
	r := c.r
	var gets, puts []*ssa.Call
	for _, f := range sortFns(fns) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || c.a.extCall[ci] == nil {
					continue
				}
				switch c.a.extCall[ci].String() {
				case "(*sync.Pool).Get":
					if call, ok := in.(*ssa.Call); ok {
						gets = append(gets, call)
					}
				case "(*sync.Pool).Put":
					call, ok := in.(*ssa.Call)
					if !ok {
						r.fail("pool", f.Name()+" put", r.where(in.Pos()), "deferred Put is not followed")
						continue
					}
					puts = append(puts, call)
				}
			}
		}
	}
	if len(gets)+len(puts) == 0 {
		r.pass("pool", "no pools")
		return
	}
	// consumes[f][i]: the function gives its i-th parameter away
	consumes := map[*ssa.Function]map[int]bool{}
	releases := map[*ssa.Function]map[int]bool{}
	setP := func(m map[*ssa.Function]map[int]bool, f *ssa.Function, v ssa.Value) bool {
		for i, p := range f.Params {
			if ssa.Value(p) == v {
				if m[f] == nil {
					m[f] = map[int]bool{}
				}
				if !m[f][i] {
					m[f][i] = true
					return true
				}
			}
		}
		return false
	}
	unbox := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.TypeAssert:
				v = x.X
				continue
			}
			return v
		}
	}
	pooled := map[string]bool{}
	for _, p := range puts {
		v := unbox(p.Call.Args[1])
		f := p.Parent()
		pooled[types.TypeString(v.Type(), nil)] = true
		setP(releases, f, v)
		setP(consumes, f, v)
		r.check(cleared(p, v), "pool", f.Name()+" cleared", r.where(p.Pos()), "%s puts a value into a pool that still has content: the next user sees it", f.Name())
	}
	for _, g := range gets {
		for _, u := range *g.Referrers() {
			if ta, ok := u.(*ssa.TypeAssert); ok {
				pooled[types.TypeString(ta.AssertedType, nil)] = true
			}
		}
	}
	is := func(v ssa.Value) bool { return pooled[types.TypeString(v.Type(), nil)] }
	var all []*ssa.Function
	for _, f := range sortFns(fns) {
		if f.Synthetic == "" || len(c.a.callers[ptFn{ctxRun, f}]) > 0 {
			all = append(all, f)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if is(x.Val) && rootAlloc(x.Addr) == nil && setP(consumes, f, x.Val) {
							changed = true
						}
					case *ssa.Call:
						for _, g := range c.a.calleesOf(x) {
							for i, a := range callArgs(x, g) {
								if releases[g][i] && setP(releases, f, a) {
									changed = true
								}
								if consumes[g][i] && setP(consumes, f, a) {
									changed = true
								}
							}
						}
					}
				}
			}
		}
	}
	// every value of the pooled types is given away at most once, and not used after its release
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				rel := map[ssa.Value]bool{}
				con := map[ssa.Value]bool{}
				if e := c.a.extCall[call]; e != nil && e.String() == "(*sync.Pool).Put" {
					v := unbox(call.Call.Args[1])
					rel[v], con[v] = true, true
				}
				for _, g := range c.a.calleesOf(call) {
					for i, a := range callArgs(call, g) {
						if releases[g][i] {
							rel[unbox(a)] = true
						}
						if consumes[g][i] {
							con[unbox(a)] = true
						}
					}
				}
				for v := range con {
					if _, isC := v.(*ssa.Const); isC {
						continue
					}
					bad := ""
					var pos token.Pos
					for _, u := range *v.Referrers() {
						if u == in && !selfLoop(in, v) {
							continue
						}
						again := u == in
						if uc, ok := u.(*ssa.Call); ok {
							for _, g := range c.a.calleesOf(uc) {
								for i, a := range callArgs(uc, g) {
									if unbox(a) == v && consumes[g][i] {
										again = true
									}
								}
							}
						}
						if st, ok := u.(*ssa.Store); ok && st.Val == v && rootAlloc(st.Addr) == nil {
							again = true
						}
						if (again || rel[v]) && reaches(in, u, v) {
							if _, dbg := u.(*ssa.DebugRef); !dbg {
								bad, pos = "is used again after it was given away", instrPos(u)
							}
						}
					}
					r.check(bad == "", "pool", f.Name()+" once", r.where(pos), "a pooled value %s in %s", bad, f.Name())
				}
				for v := range rel {
					l, ok := v.(*ssa.UnOp)
					if !ok || l.Op != token.MUL {
						continue
					}
					r.check(replaced(l, call), "pool", f.Name()+" forgotten", r.where(call.Pos()), "%s releases a pooled value that stays reachable", f.Name())
				}
			}
		}
	}
}

func callArgs(call ssa.CallInstruction, g *ssa.Function) []ssa.Value {
	if call.Common().IsInvoke() {
		return append([]ssa.Value{call.Common().Value}, call.Common().Args...)
	}
	return call.Common().Args
}

// cleared: the value is emptied before it is put into the pool, in the same function.
func cleared(put *ssa.Call, v ssa.Value) bool {
	at, refs := clearing(v, 5)
	for _, a := range at {
		if !before(a, put) {
			continue
		}
		// nothing is added behind it
		clean := true
		for _, u := range refs {
			if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == v && !before(mu, a) {
				clean = false
			}
		}
		if clean {
			return true
		}
	}
	return false
}

// deletes: the function deletes the entry with the key it is given from the map it is given.
func deletes(call *ssa.Call, m, key ssa.Value, depth int) bool {
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		return bi.Name() == "delete" && call.Call.Args[0] == m && call.Call.Args[1] == key
	}
	f := call.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || depth == 0 {
		return false
	}
	var pm, pk ssa.Value
	for i, a := range call.Call.Args {
		if a == m {
			pm = f.Params[i]
		}
		if a == key {
			pk = f.Params[i]
		}
	}
	if pm == nil || pk == nil {
		return false
	}
	var at []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && deletes(c, pm, pk, depth-1) {
				at = append(at, c)
			}
		}
	}
	return beforeReturns(f, at)
}

// clearing are the instructions that remove all content, and all those that use the value.
func clearing(v ssa.Value, depth int) (at, refs []ssa.Instruction) {
	if v.Referrers() == nil || depth == 0 {
		return nil, nil
	}
	refs = append(refs, *v.Referrers()...)
	for _, u := range *v.Referrers() {
		if cv, ok := u.(*ssa.ChangeType); ok {
			refs = append(refs, *cv.Referrers()...)
		}
	}
	for _, u := range refs {
		switch x := u.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "clear" {
				at = append(at, x)
			} else if f := x.Call.StaticCallee(); f != nil && f.Name() == "Reset" && x.Call.Args[0] == v {
				at = append(at, x)
			} else if f != nil && len(f.Blocks) > 0 {
				for i, a := range x.Call.Args {
					if a == v {
						if in, _ := clearing(f.Params[i], depth-1); beforeReturns(f, in) {
							at = append(at, x)
						}
					}
				}
			}
		case *ssa.Range:
			var next *ssa.Next
			for _, w := range *x.Referrers() {
				if n, ok := w.(*ssa.Next); ok {
					next = n
				}
			}
			if next == nil {
				continue
			}
			loop := naturalLoop(next.Block())
			ok := false
			early := false
			for b := range loop {
				for _, s := range b.Succs {
					if !loop[s] && b != next.Block() {
						early = true
					}
				}
				if len(b.Succs) > 1 && b != next.Block() {
					early = true // entries may be kept
				}
				for _, in := range b.Instrs {
					if call, isCall := in.(*ssa.Call); isCall {
						for _, a := range call.Call.Args {
							if e, isE := a.(*ssa.Extract); isE && e.Tuple == ssa.Value(next) && e.Index == 1 && deletes(call, x.X, e, depth) {
								ok = true
							}
						}
					}
				}
			}
			if ok && !early {
				at = append(at, x)
			}
		}
	}
	return at, refs
}

// reaches: execution may get from a to b without defining v anew.
func reaches(a, b ssa.Instruction, v ssa.Value) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	var def *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok {
		def = in.Block()
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == def {
			// v is defined anew before its later uses
			continue
		}
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func selfLoop(in ssa.Instruction, v ssa.Value) bool { return reaches(in, in, v) }

// replaced: the place a released value was loaded from gets another value at once.
func replaced(l *ssa.UnOp, release *ssa.Call) bool {
	lp := addrPath(l.X)
	if lp == "" {
		return false
	}
	b := release.Block()
	from := 0
	if l.Block() == b {
		from = instrIndex(l)
	}
	for i := from; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Store:
			if addrPath(x.Addr) == lp && x.Val != ssa.Value(l) {
				return true
			}
		case *ssa.Call:
			if x != release {
				if i > instrIndex(release) {
					return false
				}
			}
		case *ssa.UnOp:
			if x != l && x.Op == token.MUL && addrPath(x.X) == lp && i > instrIndex(release) {
				return false
			}
		}
	}
	return false
}

func addrPath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		p := addrPath(x.X)
		if p == "" {
			return ""
		}
		return fmt.Sprintf("%s.%d", p, x.Field)
	case *ssa.Parameter, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return x.Name()
	case *ssa.UnOp:
		p := addrPath(x.X)
		if p == "" {
			return ""
		}
		return "*" + p
	}
	return ""
}

// --- independence

// independent: what happens to a parse does not depend on mutable package variables.
func (c *concRun) independent(gs []*ptObj) {
	r := c.r
	lib := map[*ssa.Function]bool{}
	var work []*ssa.Function
	getters := map[string]bool{"GetFarthestFailure": true}
	for _, f := range c.a.fns {
		if f.ctx == ctxRun && c.a.isEntry(f.fn) && !getters[f.fn.Name()] {
			work = append(work, f.fn)
		}
	}
	callees := map[*ssa.Function][]*ssa.Function{}
	for in, cs := range c.a.callees {
		for k := range cs {
			if k.ctx == ctxRun && in.Parent() != nil {
				callees[in.Parent()] = append(callees[in.Parent()], k.fn)
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if lib[f] {
			continue
		}
		lib[f] = true
		work = append(work, callees[f]...)
	}
	for _, g := range gs {
		if c.bad[g] {
			continue
		}
		name := g.g.Name()
		mutable := false
		readers := map[*ssa.Function]bool{}
		holder := isSync(ptrElem(g.g.Type()))
		for _, ac := range c.a.acc {
			if ac.ctx != ctxRun {
				continue
			}
			for l := range ac.addr.pts {
				if l.o == g {
					if ac.write {
						mutable = true
					}
					if !holder {
						readers[ac.fn] = true
					}
				}
			}
		}
		if holder {
			// values kept in concurrent containers; mutexes and pools keep none
			t := strings.TrimPrefix(ptrElem(g.g.Type()).String(), "*")
			switch t {
			case "sync.Mutex", "sync.RWMutex", "sync.Pool", "sync.Once", "sync.WaitGroup":
				continue
			}
			mutable = true
			for f := range lib {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && c.a.extCall[ci] != nil && len(ci.Common().Args) > 0 {
							for l := range c.a.val(ctxRun, ci.Common().Args[0], "").pts {
								if l.o == g {
									readers[f] = true
								}
							}
						}
					}
				}
			}
		}
		region := c.a.reach([]*ptLoc{c.a.loc(g, "")})
		if !mutable {
			// memory below the variable
			for _, ac := range c.a.acc {
				if ac.ctx == ctxRun && ac.write {
					for l := range ac.addr.pts {
						if inRegion(region, l.o) {
							mutable = true
						}
					}
				}
			}
		}
		if !mutable {
			continue
		}
		todo := map[*ssa.Function]int{}
		for f := range readers {
			if lib[f] {
				todo[f] = 0
			}
		}
		done := map[*ssa.Function]bool{}
		for len(todo) > 0 {
			var fs []*ssa.Function
			for f := range todo {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
			f := fs[0]
			depth := todo[f]
			delete(todo, f)
			if done[f] {
				continue
			}
			done[f] = true
			msg := c.dependsOn(f, g)
			if msg == "" {
				r.pass("independent", "%s does not depend on %s", f.Name(), name)
				continue
			}
			cs := c.a.callers[ptFn{ctxRun, f}]
			lift := depth < 3 && len(cs) > 0 && !c.a.isEntry(f)
			for _, cl := range cs {
				if _, ok := cl.in.(*ssa.Call); !ok || cl.in.Common().StaticCallee() != f {
					lift = false
				}
			}
			if !lift {
				r.fail("independent", f.Name()+" "+name, r.fnWhere(f), "%s depends on %s, which other parses change: %s", f.Name(), name, msg)
				continue
			}
			for _, cl := range cs {
				if lib[cl.caller.fn] {
					todo[cl.caller.fn] = depth + 1
				}
			}
		}
	}
}

// dependsOn interprets the function and compares its outcomes.
func (c *concRun) dependsOn(f *ssa.Function, g *ptObj) string {
	e := c.r.exec()
	var args, free []*T
	st := newSt()
	for _, p := range f.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	for _, p := range f.FreeVars {
		free = append(free, mkSym(p.Name(), p.Type()))
	}
	outs := e.Call(f, args, free, st, nil, nil)
	c.r.done("independent", e, f.Name())
	if len(outs) == 0 {
		return "it has no outcome"
	}
	var mentions func(t *T, seen map[*T]bool) bool
	mentions = func(t *T, seen map[*T]bool) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		hit := false
		walkTerm(t, func(x *T) bool {
			if x.k == KGlobal && x.g == g.g {
				hit = true
			}
			if (x.k == KLoopVar || x.k == KLoopAcc) && x.lp != nil {
				for _, tr := range x.lp.trans {
					for _, fc := range tr.facts {
						hit = hit || mentions(fc, seen)
					}
					for _, us := range tr.emit {
						for _, u := range us {
							hit = hit || mentions(u, seen)
						}
					}
				}
				for _, cp := range x.lp.comps {
					if cp.init != nil {
						hit = hit || mentions(cp.init, seen)
					}
				}
			}
			return !hit
		})
		return hit
	}
	type out struct {
		text string
		dep  bool
		fact bool
		o    Outcome
	}
	var os []out
	for _, o := range outs {
		x := out{o: o}
		x.text = fmt.Sprint(o.kind)
		for _, v := range o.vals {
			x.text += " " + v.String()
			if mentions(v, map[*T]bool{}) {
				x.dep = true
			}
		}
		for _, fc := range o.st.facts {
			if mentions(fc, map[*T]bool{}) {
				x.fact = true
			}
		}
		for _, k := range sortedTerms(o.st.mem) {
			root := rootOf(k)
			if root == nil || root.k == KGlobal || root.k == KAddr && !isParamAddr(root, args) {
				continue
			}
			v := o.st.mem[k]
			x.text += "; " + k.String() + " = " + v.String()
			if mentions(v, map[*T]bool{}) {
				x.dep = true
			}
		}
		for _, ev := range o.st.ev {
			switch ev.kind {
			case "loop", "hazard", "lock", "unlock", "store", "go":
			default:
				x.text += "; " + ev.kind + ev.name
			}
		}
		if x.dep {
			return "its result is " + clip(x.text, 200)
		}
		os = append(os, x)
	}
	for i := range os {
		for j := range os {
			if os[i].text != os[j].text && os[i].fact && os[j].fact {
				return "its outcome is decided by it: " + clip(os[i].text, 80) + " or " + clip(os[j].text, 80)
			}
		}
	}
	return ""
}

func isParamAddr(t *T, args []*T) bool {
	for _, a := range args {
		if a == t {
			return true
		}
	}
	return false
}

func sortedTerms(m map[*T]*T) (out []*T) {
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}
