package main

// Models of the language builtins and of the library functions the repository
// calls. A function without a model stays an opaque call event.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Shape struct {
	types  []types.Type // possible dynamic types, nil = nil interface
	consts map[*T]bool
}

func (s *Shape) dynTypes() []types.Type { return s.types }

// errDyn is the dynamic type of errors made by errors.New, fmt.Errorf, ...
var errDyn types.Type
var errIface = types.Universe.Lookup("error").Type()

func init() {
	pkg := types.NewPackage("verif/errors", "errors")
	tn := types.NewTypeName(token.NoPos, pkg, "errorString", nil)
	n := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	sig := types.NewSignatureType(types.NewVar(token.NoPos, pkg, "e", n), nil, nil, nil,
		types.NewTuple(types.NewVar(token.NoPos, pkg, "", tString)), false)
	n.AddMethod(types.NewFunc(token.NoPos, pkg, "Error", sig))
	errDyn = n
}

func mkError(text *T, wraps ...*T) *T {
	return mkIface(errDyn, mkApp("mkerror", errDyn, append([]*T{text}, wraps...)...), errIface)
}

func one(st *St, vals ...*T) []Outcome { return []Outcome{{st: st, vals: vals}} }

// purePkgs: every function of these packages is a function of its arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true,
	"bytes": true, "regexp": true, "path": true, "path/filepath": true, "slices": true,
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (e *Exec) textAppend(ci *callInfo, ptr *T, text *T) {
	bt := ptrElem(ptr.typ)
	old := e.load(ci.st, ptr, bt, nil, nil)
	if old.typ == nil || !isStringType(old.typ) {
		old = mkApp("content", tString, old)
	}
	var in ssa.Instruction = ci.instr
	e.store(ci.st, ptr, mkCat(old, text), in, frFn(ci))
}

func frFn(ci *callInfo) *ssa.Function {
	if ci.fr != nil {
		return ci.fr.fn
	}
	return nil
}

func (e *Exec) content(ci *callInfo, ptr *T) *T {
	v := e.load(ci.st, ptr, ptrElem(ptr.typ), nil, nil)
	if v.typ == nil || !isStringType(v.typ) {
		v = mkApp("content", tString, v)
	}
	return v
}

func textOf(t *T) *T { // []byte or string argument as string term
	t = asText(t)
	if t.typ != nil && isByteSlice(t.typ) || t.k == KSeq {
		return mkConv(tString, t)
	}
	return t
}

func (e *Exec) model(ci *callInfo) ([]Outcome, bool) {
	st := ci.st
	a := ci.args
	if strings.HasPrefix(ci.name, "builtin:") {
		return e.builtin(ci, ci.name[8:])
	}
	if ci.recv != nil && ci.fn == nil {
		return e.modelInvoke(ci)
	}
	if ci.fn == nil {
		return nil, false
	}
	if e.inRepo(ci.fn) && len(ci.fn.Blocks) > 0 {
		return nil, false
	}
	if outs, ok := e.textFn(ci); ok {
		return outs, true
	}
	if v := foldCall(ci.name, a, ci.sig); v != nil {
		return one(st, v), true
	}
	switch ci.name {
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		e.textAppend(ci, a[0], a[1])
		return one(st, mkLen(a[1]), mkNil(errIface)), true
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		t := textOf(e.resolve(st, a[1]))
		e.textAppend(ci, a[0], t)
		return one(st, mkLen(t), mkNil(errIface)), true
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		if a[1].isInt() {
			e.textAppend(ci, a[0], mkStr(string([]byte{byte(a[1].int())})))
		} else {
			e.textAppend(ci, a[0], mkApp("chr", tString, a[1]))
		}
		return one(st, mkNil(errIface)), true
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if a[1].isInt() {
			e.textAppend(ci, a[0], mkStr(string(rune(a[1].int()))))
		} else {
			e.textAppend(ci, a[0], mkConv(tString, a[1]))
		}
		return one(st, mkInt(1), mkNil(errIface)), true
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return one(st, e.content(ci, a[0])), true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return one(st, mkLen(e.content(ci, a[0]))), true
	case "(*bytes.Buffer).Bytes":
		return one(st, mkConv(ci.sig.Results().At(0).Type(), e.content(ci, a[0]))), true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		e.store(st, a[0], mkStr(""), ci.instr, frFn(ci))
		return one(st), true
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return one(st), true
	case "fmt.Sprintf":
		return one(st, e.sprintf(ci, a[0], a[1])), true
	case "fmt.Sprint":
		return one(st, e.sprint(ci, a[0], false)), true
	case "fmt.Sprintln":
		return one(st, e.sprint(ci, a[0], true)), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		var text *T
		switch ci.name {
		case "fmt.Fprintf":
			text = e.sprintf(ci, a[1], a[2])
		case "io.WriteString":
			text = a[1]
		default:
			text = e.sprint(ci, a[1], ci.name == "fmt.Fprintln")
		}
		if a[0].k == KIface && isTextCell(ptrElem(a[0].xt)) {
			e.textAppend(ci, a[0].a[0], text)
			return one(st, mkLen(text), mkNil(errIface)), true
		}
		return e.effect(ci, "write", a[0], text), true
	case "fmt.Errorf", "github.com/pkg/errors.Errorf":
		text := e.sprintf(ci, a[0], a[1])
		var wraps []*T
		if ci.name == "fmt.Errorf" && a[0].isStr() && strings.Contains(a[0].str(), "%w") {
			s := e.resolve(st, a[1])
			for _, p := range s.a {
				if p.k == KUnit && p.a[0].k != KIface || p.k == KUnit && satisfies(p.a[0].xt, errIface) {
					wraps = append(wraps, p.a[0])
				}
			}
		}
		return one(st, mkError(text, wraps...)), true
	case "errors.New", "github.com/pkg/errors.New":
		return one(st, mkError(a[0])), true
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessagef":
		msg := a[1]
		if strings.HasSuffix(ci.name, "f") {
			msg = e.sprintf(ci, a[1], a[2])
		}
		r := mkError(mkCat(msg, mkStr(": "), e.errText(ci, a[0])), a[0])
		return e.nilSplit(ci, a[0], mkNil(errIface), r), true
	case "github.com/pkg/errors.WithStack":
		return e.nilSplit(ci, a[0], mkNil(errIface), mkError(e.errText(ci, a[0]), a[0])), true
	case "errors.As", "github.com/pkg/errors.As":
		tgt := a[1]
		var tt types.Type
		var ptr *T
		if tgt.k == KIface {
			tt = ptrElem(tgt.xt)
			ptr = tgt.a[0]
		}
		name := "errorsAs:?"
		if tt != nil {
			name = "errorsAs:" + typeKey(tt)
		}
		ok := mkApp(name, tBool, a[0])
		if tt != nil {
			ok = asTerm(a[0], tt)
		}
		if ptr != nil {
			e.store(st, ptr, mkApp(name+"#val", tt, a[0]), ci.instr, frFn(ci))
		}
		return one(st, ok), true
	case "errors.Is", "github.com/pkg/errors.Is":
		return one(st, mkApp("errorsIs", tBool, a[0], a[1])), true
	case "errors.Unwrap", "errors.Join":
		return e.opaqueCall(ci, true), true
	case "github.com/hashicorp/go-multierror.Append":
		return one(st, e.merrAppend(ci, a[0], a[1])), true
	case "(*github.com/hashicorp/go-multierror.Error).ErrorOrNil":
		r := mkIface(a[0].typ, a[0], errIface)
		return e.nilSplit(ci, a[0], mkNil(errIface), r), true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		e.event(st, &Ev{kind: "lock", args: []*T{a[0]}, pos: ci.instr.Pos(), fn: frFn(ci)})
		return one(st), true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		e.event(st, &Ev{kind: "unlock", args: []*T{a[0]}, pos: ipos(ci), fn: frFn(ci)})
		return one(st), true
	case "(*sync.RWMutex).RLock":
		e.event(st, &Ev{kind: "rlock", args: []*T{a[0]}, pos: ipos(ci), fn: frFn(ci)})
		return one(st), true
	case "(*sync.RWMutex).RUnlock":
		e.event(st, &Ev{kind: "runlock", args: []*T{a[0]}, pos: ipos(ci), fn: frFn(ci)})
		return one(st), true
	case "os.Exit":
		ev := &Ev{kind: "call", name: ci.name, args: a, pos: ipos(ci), fn: frFn(ci)}
		e.event(st, ev)
		return []Outcome{{st: st, kind: OExit, vals: a}}, true
	case "strings.Join":
		s := e.resolve(st, a[0])
		if s.k == KSeq || s.isNil() {
			var ps []*T
			ok := true
			for i, p := range s.a {
				if p.k != KUnit {
					ok = false
					break
				}
				if i > 0 {
					ps = append(ps, a[1])
				}
				ps = append(ps, p.a[0])
			}
			if ok {
				return one(st, mkCat(ps...)), true
			}
			if x := joinedParts(s.a, a[1]); x != nil {
				return one(st, x), true
			}
		}
		return one(st, mkApp("strings.Join", tString, s, a[1])), true
	case "strings.Repeat":
		if a[0].isStr() && a[1].isInt() && a[1].int() >= 0 && a[1].int() < 1000 {
			return one(st, mkStr(strings.Repeat(a[0].str(), int(a[1].int())))), true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold":
		if a[0].isStr() && a[1].isStr() {
			var b bool
			switch ci.name {
			case "strings.HasPrefix":
				b = strings.HasPrefix(a[0].str(), a[1].str())
			case "strings.HasSuffix":
				b = strings.HasSuffix(a[0].str(), a[1].str())
			default:
				b = strings.EqualFold(a[0].str(), a[1].str())
			}
			return one(st, mkBool(b)), true
		}
		if a[1].isStr() && len(a[1].str()) == 1 {
			// length 1 suffix/prefix: element test
			c := int64(a[1].str()[0])
			l := mkLen(a[0])
			ix := mkInt(0)
			if ci.name == "strings.HasSuffix" {
				ix = linAddC(l, -1)
			}
			if ci.name == "strings.HasSuffix" || ci.name == "strings.HasPrefix" {
				cond := mkEQ0(linAddC(mkElem(a[0], ix, types.Typ[types.Uint8]), -c))
				var outs []Outcome
				s1 := st.clone()
				if e.assume(s1, mkLE(linComb(l, -1, mkInt(0), 0, 1))) {
					s2 := s1.clone()
					if e.assume(s1, cond) {
						outs = append(outs, Outcome{st: s1, vals: []*T{tTrue}})
					}
					if e.assume(s2, mkNot(cond)) {
						outs = append(outs, Outcome{st: s2, vals: []*T{tFalse}})
					}
				}
				if e.assume(st, mkLE(l)) {
					outs = append(outs, Outcome{st: st, vals: []*T{tFalse}})
				}
				return outs, true
			}
		}
	case "strconv.Itoa":
		if a[0].isInt() {
			return one(st, mkStr(strconv.FormatInt(a[0].int(), 10))), true
		}
		return one(st, mkApp("itoa", tString, a[0])), true
	case "sync.OnceValue", "sync.OnceFunc", "sync.OnceValues":
		// the values are those of the function
		return one(st, a[0]), true
	case "regexp.MustCompile":
		return one(st, mkApp("regexp", ci.sig.Results().At(0).Type(), a[0])), true
	case "slices.Insert":
		s, i, v := e.resolve(st, a[0]), a[1], e.resolve(st, a[2])
		return one(st, mkSeq(s.typ, mkSub(s, mkInt(0), i, s.typ), v, mkSub(s, i, mkLen(s), s.typ))), true
	case "slices.Delete":
		s := e.resolve(st, a[0])
		return one(st, mkSeq(s.typ, mkSub(s, mkInt(0), a[1], s.typ), mkSub(s, a[2], mkLen(s), s.typ))), true
	case "slices.Clone", "bytes.Clone", "strings.Clone":
		return one(st, e.resolve(st, a[0])), true
	case "slices.Concat":
		s := e.resolve(st, a[0])
		if s.k == KSeq {
			var ps []*T
			for _, p := range s.a {
				if p.k != KUnit {
					ps = nil
					break
				}
				ps = append(ps, e.resolve(st, p.a[0]))
			}
			if ps != nil {
				return one(st, mkSeq(ci.sig.Results().At(0).Type(), ps...)), true
			}
		}
	case "sort.Strings", "slices.Sort":
		e.storeContents(st, a[0], mkApp("sorted", a[0].typ, e.resolve(st, a[0])))
		return one(st), true
	}
	if purePkgs[fnPkg(ci.fn)] || strings.HasPrefix(ci.name, "(*regexp.Regexp).") {
		return e.opaqueCall(ci, true), true
	}
	return nil, false
}

func ipos(ci *callInfo) token.Pos {
	if ci.instr != nil {
		return ci.instr.Pos()
	}
	return token.NoPos
}

// storeContents replaces the contents of a slice value.
func (e *Exec) storeContents(st *St, x, v *T) {
	st.mem[mk(&T{k: KBacking, a: []*T{x}})] = mkApp("filled", nil, v)
}

// effect records an effectful call with a normalised name and gives fresh
// results.
func (e *Exec) effect(ci *callInfo, name string, args ...*T) []Outcome {
	c := *ci
	c.name = name
	c.args = args
	c.recv = nil
	return e.opaqueCall(&c, false)
}

func (e *Exec) nilSplit(ci *callInfo, x, ifNil, ifNot *T) []Outcome {
	st := ci.st
	c := mkEq(x, mkNil(nil))
	switch e.truth(st, c) {
	case 1:
		return one(st, ifNil)
	case 0:
		return one(st, ifNot)
	}
	s2 := st.clone()
	var outs []Outcome
	if e.assume(s2, mkNot(c)) {
		outs = append(outs, Outcome{st: s2, vals: []*T{ifNot}})
	}
	if e.assume(st, c) {
		outs = append(outs, Outcome{st: st, vals: []*T{ifNil}})
	}
	return outs
}

func (e *Exec) merrAppend(ci *callInfo, first, rest *T) *T {
	var ps []*T
	typ := ci.sig.Results().At(0).Type()
	add := func(x *T) {
		v := x
		if x.k == KIface && isMerrType(ptrElem(x.xt)) {
			v = x.a[0]
		}
		if v.isNil() {
			if x != first {
				e.event(ci.st, &Ev{kind: "hazard", name: "append-maybe-nil-error", args: []*T{x}, pos: ipos(ci), fn: frFn(ci)})
			}
			return
		}
		if v.k == KApp && v.s == "merr" {
			p, _ := partsOf(v)
			ps = append(ps, p...)
			return
		}
		if v.typ != nil && isMerrType(ptrElem(v.typ)) {
			ps = append(ps, mkApp("errorsOf", types.NewSlice(errIface), v))
			return
		}
		if e.truth(ci.st, mkEq(x, mkNil(nil))) != 0 {
			e.event(ci.st, &Ev{kind: "hazard", name: "append-maybe-nil-error", args: []*T{x}, pos: ipos(ci), fn: frFn(ci)})
		}
		ps = append(ps, mkUnit(x))
	}
	add(first)
	r := e.resolve(ci.st, rest)
	if r.k == KSeq {
		for _, p := range r.a {
			if p.k == KUnit {
				add(p.a[0])
			} else {
				ps = append(ps, p)
			}
		}
	} else if !r.isNil() {
		ps = append(ps, r)
	}
	return mkApp("merr", typ, mkSeq(nil, ps...))
}

func (e *Exec) errText(ci *callInfo, x *T) *T {
	if x.k == KIface && x.a[0].k == KApp && x.a[0].s == "mkerror" {
		return x.a[0].a[0]
	}
	if x.k == KIface {
		return e.text(ci, "%v", x)
	}
	return mkApp("errtext", tString, x)
}

func (e *Exec) modelInvoke(ci *callInfo) ([]Outcome, bool) {
	if !strings.HasPrefix(ci.name, "invoke:") {
		return nil, false
	}
	m := ci.name[strings.LastIndex(ci.name, ".")+1:]
	recv := ci.recv
	if e.nilable(ci.st, recv) || recv.typ != nil && isIfaceType(recv.typ) && e.truth(ci.st, mkEq(recv, mkNil(nil))) != 0 {
		e.hazard(ci.st, "nil-call", ci.instr, frFn(ci), recv)
	}
	if m == "Error" && len(ci.args) == 0 && isStringType(ci.sig.Results().At(0).Type()) {
		return one(ci.st, e.errText(ci, recv)), true
	}
	if strings.Contains(ci.name, e.modPath) && ci.sig.Results().Len() > 0 {
		res := ci.sig.Results()
		var vals []*T
		for i := 0; i < res.Len(); i++ {
			n := "m:" + m
			if res.Len() > 1 {
				n += fmt.Sprintf("#%d", i)
			}
			vals = append(vals, mkApp(n, res.At(i).Type(), append([]*T{recv}, ci.args...)...))
		}
		return one(ci.st, vals...), true
	}
	if recv.k == KIface || recv.typ != nil {
		// io.Writer.Write
		if m == "Write" && len(ci.args) == 1 {
			return e.effect(ci, "write", recv, textOf(e.resolve(ci.st, ci.args[0]))), true
		}
	}
	return nil, false
}

func (e *Exec) builtin(ci *callInfo, name string) ([]Outcome, bool) {
	st := ci.st
	a := ci.args
	switch name {
	case "len":
		x := a[0]
		if x.typ != nil {
			if p, ok := under(x.typ).(*types.Pointer); ok {
				if ar, ok := under(p.Elem()).(*types.Array); ok {
					return one(st, mkInt(ar.Len())), true
				}
			}
			if _, ok := under(x.typ).(*types.Map); ok {
				ms := e.mapState(st, x)
				if x.isNil() || ms.k == KApp && ms.s == "mapnew" {
					return one(st, mkInt(0)), true
				}
				return one(st, mkApp("mapcount", tInt, ms)), true
			}
		}
		return one(st, mkLen(x)), true
	case "cap":
		return one(st, mkApp("cap", tInt, a[0])), true
	case "append":
		x := a[0]
		y := a[1]
		base := e.clobberCheck(st, e.resolve(st, x))
		src := e.clobberCheck(st, e.resolve(st, y))
		if x.k == KSub && isSliceType(x.typ) && x.a[2] != mkLen(x.a[0]) && !(src.k == KSeq && len(src.a) == 0) && !src.isNil() {
			st.mem[mk(&T{k: KApp, s: "clobber", a: []*T{x.a[0]}})] = x.a[2]
		}
		return one(st, mkSeq(ci.sig.Results().At(0).Type(), base, src)), true
	case "copy":
		dst, src := a[0], e.resolve(st, a[1])
		n := mkLen(dst)
		ls := mkLen(src)
		if e.entailLE(st, linSub(ls, n)) {
			n = ls
		} else if !e.entailLE(st, linSub(n, ls)) {
			n = mkApp("min", tInt, n, ls)
		}
		root, lo := dst, mkInt(0)
		for root.k == KSub {
			lo = linAdd(lo, root.a[1])
			root = root.a[0]
		}
		cur := e.resolve(st, root)
		if root.k == KMake && st.mem[mk(&T{k: KBacking, a: []*T{root}})] == nil {
			cur = root
		}
		hi := linAdd(lo, n)
		v := mkSeq(root.typ, mkSub(cur, mkInt(0), lo, root.typ), mkSub(src, mkInt(0), n, src.typ), mkSub(cur, hi, mkLen(cur), root.typ))
		e.storeContents(st, root, v)
		e.event(st, &Ev{kind: "copy", args: []*T{dst, src}, pos: ipos(ci), fn: frFn(ci)})
		return one(st, n), true
	case "recover":
		v := st.pan
		if v == nil {
			return one(st, mkNil(ci.sig.Results().At(0).Type())), true
		}
		st.pan = nil
		e.event(st, &Ev{kind: "recover", args: []*T{v}, pos: ipos(ci), fn: frFn(ci)})
		return one(st, v), true
	case "delete":
		m := a[0]
		old := e.mapState(st, m)
		v := mkApp("mapdel", nil, old, a[1])
		if m.k == KMap {
			st.mem[m] = v
		} else {
			st.mem[mk(&T{k: KBacking, a: []*T{m}})] = v
		}
		e.event(st, &Ev{kind: "mapdelete", args: []*T{m, a[1]}, pos: ipos(ci), fn: frFn(ci)})
		return one(st), true
	case "clear":
		m := a[0]
		mt, isMap := m.typ.Underlying().(*types.Map)
		if !isMap {
			return nil, false
		}
		if m.k == KMap {
			st.mem[m] = mkApp("mapnew", mt)
		} else {
			st.mem[mk(&T{k: KBacking, a: []*T{m}})] = mkApp("mapnew", nil)
		}
		e.event(st, &Ev{kind: "mapclear", args: []*T{m}, pos: ipos(ci), fn: frFn(ci)})
		return one(st), true
	case "print", "println":
		e.event(st, &Ev{kind: "call", name: "print", args: a, pos: ipos(ci), fn: frFn(ci)})
		return one(st), true
	case "min", "max":
		return one(st, mkApp(name, ci.sig.Results().At(0).Type(), a...)), true
	case "ssa:wrapnilchk":
		return one(st, a[0]), true
	}
	e.undecided("builtin %s not supported", name)
	return e.opaqueCall(ci, false), true
}

// clobberCheck marks parts of a source that an earlier in-place append may
// have overwritten.
func (e *Exec) clobberCheck(st *St, t *T) *T {
	chk := func(p *T) *T {
		root := p
		if p.k == KSub {
			root = p.a[0]
		}
		h := st.mem[mk(&T{k: KApp, s: "clobber", a: []*T{root}})]
		if h == nil {
			return p
		}
		if p.k == KSub && e.entailLE(st, linSub(p.a[2], h)) {
			return p
		}
		return mkApp("clobbered", p.typ, p)
	}
	switch t.k {
	case KSeq:
		ps := make([]*T, len(t.a))
		for i, p := range t.a {
			if p.k == KUnit || p.k == KSetLast {
				ps[i] = p
			} else {
				ps[i] = chk(p)
			}
		}
		return mkSeq(t.typ, ps...)
	case KSub, KSym, KField, KApp, KDeref, KLoopVar:
		if t.typ != nil && isSliceType(t.typ) {
			return chk(t)
		}
	}
	return t
}

// ---- fmt ----

// text is the rendering of operand x under a verb such as %v or %s.
func (e *Exec) text(ci *callInfo, verb string, x *T) *T {
	v := verb[len(verb)-1]
	if x.isNil() {
		if v == 's' {
			return mkStr("%!s(<nil>)")
		}
		return mkStr("<nil>")
	}
	plain := verb == "%v" || verb == "%s"
	if x.k == KIface {
		val := x.a[0]
		t := x.xt
		if plain || verb == "%q" || verb == "%+v" {
			if t == errDyn && val.k == KApp && val.s == "mkerror" {
				if verb == "%q" {
					return mkApp("fmt:%q", tString, val.a[0])
				}
				return val.a[0]
			}
			for _, m := range []string{"Error", "String"} {
				if fn := e.stringMethod(t, m); fn != nil {
					if _, isPtr := under(t).(*types.Pointer); isPtr && e.truth(ci.st, mkEq(val, mkNil(nil))) != 0 {
						e.hazard(ci.st, "print-nil-pointer", ci.instr, frFn(ci), val)
					}
					nci := &callInfo{fn: fn, name: fnName(fn), args: []*T{val}, st: ci.st, instr: ci.instr, fr: ci.fr, sig: fn.Signature}
					outs := e.call(nci)
					r := e.joinPure(ci, outs, fn, val)
					if verb == "%q" {
						return mkApp("fmt:%q", tString, r)
					}
					return r
				}
			}
		}
		if isMerrType(ptrElem(t)) {
			return mkApp("errtext", tString, x)
		}
		if b, ok := under(t).(*types.Basic); ok && plain {
			switch {
			case b.Info()&types.IsString != 0:
				return mkConv(tString, val)
			case b.Info()&types.IsInteger != 0 && v != 's':
				if val.isInt() {
					return mkStr(fmt.Sprint(val.int()))
				}
				return mkApp("itoa", tString, val)
			case b.Info()&types.IsBoolean != 0 && v != 's' && val.isBoolConst():
				return mkStr(fmt.Sprint(constant.BoolVal(val.cv)))
			}
		}
		if verb == "%d" && isIntType(t) {
			if val.isInt() {
				return mkStr(fmt.Sprint(val.int()))
			}
			return mkApp("itoa", tString, val)
		}
		if isByteSlice(t) && verb == "%s" {
			return textOf(e.resolve(ci.st, val))
		}
		return mkApp("fmt:"+verb, tString, x)
	}
	// unknown dynamic type
	if plain {
		if e.truth(ci.st, mkEq(x, mkNil(nil))) != 0 {
			e.hazard(ci.st, "print-nil", ci.instr, frFn(ci), x)
		}
		if x.typ != nil && types.Identical(x.typ, errIface) {
			return mkApp("errtext", tString, x)
		}
		if e.ifaceText != nil {
			return e.ifaceText(ci, x)
		}
		return mkApp("m:String", tString, x)
	}
	return mkApp("fmt:"+verb, tString, x)
}

func (e *Exec) stringMethod(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() != name {
			continue
		}
		sig := s.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isStringType(sig.Results().At(0).Type()) {
			return nil
		}
		if s.Obj().Pkg() == nil || !strings.HasPrefix(s.Obj().Pkg().Path(), e.modPath) {
			return nil
		}
		return e.prog.MethodValue(s)
	}
	return nil
}

// joinPure turns the outcomes of a text-producing call into one value.
func (e *Exec) joinPure(ci *callInfo, outs []Outcome, fn *ssa.Function, arg *T) *T {
	if len(outs) == 1 && outs[0].kind == ORet && len(outs[0].vals) == 1 {
		*ci.st = *outs[0].st
		return outs[0].vals[0]
	}
	for _, o := range outs {
		if o.kind != ORet {
			e.hazard(ci.st, "print-panic", ci.instr, frFn(ci), arg)
		}
	}
	return mkApp("m:"+fn.Name(), tString, arg)
}

func (e *Exec) sprintf(ci *callInfo, format, args *T) *T {
	args = e.resolve(ci.st, args)
	if !format.isStr() {
		return mkApp("fmt.Sprintf", tString, format, args)
	}
	var ops []*T
	if args.k == KSeq {
		for _, p := range args.a {
			if p.k != KUnit {
				return mkApp("fmt.Sprintf", tString, format, args)
			}
			ops = append(ops, p.a[0])
		}
	} else if !args.isNil() {
		return mkApp("fmt.Sprintf", tString, format, args)
	}
	f := format.str()
	var ps []*T
	n := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			ps = append(ps, mkStr(f[i:]))
			break
		}
		if j > 0 {
			ps = append(ps, mkStr(f[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) || f[k] == '*' || f[k] == '[' {
			return mkApp("fmt.Sprintf", tString, format, args)
		}
		verb := f[i : k+1]
		i = k + 1
		if verb == "%%" {
			ps = append(ps, mkStr("%"))
			continue
		}
		if n >= len(ops) {
			ps = append(ps, mkStr("%!"+verb[len(verb)-1:]+"(MISSING)"))
			continue
		}
		if verb == "%w" {
			verb = "%v"
		}
		ps = append(ps, e.text(ci, verb, ops[n]))
		n++
	}
	if n < len(ops) {
		ps = append(ps, mkStr("%!(EXTRA)"))
	}
	return mkCat(ps...)
}

func (e *Exec) sprint(ci *callInfo, args *T, ln bool) *T {
	args = e.resolve(ci.st, args)
	var ops []*T
	if args.k == KSeq {
		for _, p := range args.a {
			if p.k != KUnit {
				return mkApp("fmt.Sprint", tString, args)
			}
			ops = append(ops, p.a[0])
		}
	} else if !args.isNil() {
		return mkApp("fmt.Sprint", tString, args)
	}
	isStr := func(x *T) bool {
		return x.k == KIface && isStringType(x.xt)
	}
	var ps []*T
	for i, x := range ops {
		if i > 0 && (ln || !isStr(x) && !isStr(ops[i-1])) {
			ps = append(ps, mkStr(" "))
		}
		ps = append(ps, e.text(ci, "%v", x))
	}
	if ln {
		ps = append(ps, mkStr("\n"))
	}
	return mkCat(ps...)
}

// joinedParts writes a joined list of known parts as a concatenation: around an element that is there in any case every other
// one has a separator on the side of it.
func joinedParts(parts []*T, sep *T) *T {
	plain := sep.isStr() && sep.str() == ""
	at := -1
	for i, p := range parts {
		switch {
		case p.k == KUnit:
			if at < 0 {
				at = i
			}
		case p.k == KApp && p.s == "mapseq" && p.a[1].k == KSeq:
			for _, u := range p.a[1].a {
				if u.k != KUnit {
					return nil
				}
			}
		default:
			if !plain {
				return nil
			}
		}
	}
	if at < 0 && !plain {
		return nil
	}
	var out []*T
	for i, p := range parts {
		switch {
		case p.k == KUnit:
			if i > at {
				out = append(out, sep)
			}
			out = append(out, p.a[0])
			if i < at {
				out = append(out, sep)
			}
		case p.k == KApp && p.s == "mapseq" && p.a[1].k == KSeq:
			var body []*T
			for _, u := range p.a[1].a {
				if i > at {
					body = append(body, sep)
				}
				body = append(body, u.a[0])
				if i < at {
					body = append(body, sep)
				}
			}
			if contains(sep, boundOf(p)) {
				return nil
			}
			out = append(out, mkMap("mapcat", tString, p.a[0], mkCat(body...), boundOf(p)))
		default:
			out = append(out, mkApp("strings.Join", tString, p, sep))
		}
	}
	return mkCat(out...)
}
