package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "Parse, ParseReader and ParseFile are interpreted on arbitrary arguments with every library and parser call either succeeding, failing or panicking; "+
		"on each path the parser must be built from exactly the bytes, name and options given, its value and error must be returned unchanged, every error of opening, "+
		"reading, parsing or closing must make the returned error non-nil, and an opened file must be closed exactly once.",
		ruleEntry, "os.Open returns a nil file exactly with a non-nil error; io.ReadAll returns everything the reader delivers")
}

// parserAnchors finds the parser type, its constructor and its parse method.
func (r *Rep) parserAnchors() (ptr types.Type, ctor, parse *ssa.Function) {
	optT := needType(r.p.typ("", "Option"), "type Option")
	sig, ok := optT.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 {
		panic(anchorError("Option is a function of the parser"))
	}
	ptr = sig.Params().At(0).Type()
	for _, m := range r.p.pkg("").Members {
		if f, ok := m.(*ssa.Function); ok && f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && f.Signature.Variadic() &&
			types.Identical(f.Signature.Results().At(0).Type(), ptr) {
			ctor = f
		}
	}
	// the method of the parser called by Parse that returns (value, error)
	pf := need(r.p.fn("", "Parse"), "function Parse")
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || parse != nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || !r.p.inRepo(g) {
					continue
				}
				if rc := g.Signature.Recv(); rc != nil && types.Identical(rc.Type(), ptr) && g.Signature.Results().Len() == 2 &&
					types.Identical(g.Signature.Results().At(1).Type(), errIface) {
					parse = g
					return
				}
				if g != ctor {
					walk(g)
				}
			}
		}
	}
	walk(pf)
	return ptr, need(ctor, "constructor of the parser"), need(parse, "parse method of the parser")
}

// calls lists the call events of a path in order.
func calls(st *St, from int) []*Ev {
	var out []*Ev
	for _, ev := range st.ev[from:] {
		if ev.kind == "call" {
			out = append(out, ev)
		}
	}
	return out
}

func isReadAll(n string) bool { return n == "io.ReadAll" || n == "io/ioutil.ReadAll" }

func ruleEntry(r *Rep) {
	_, ctor, parse := r.parserAnchors()
	hook := func(e *Exec) {
		e.hook = func(ci *callInfo) ([]Outcome, bool) {
			switch {
			case ci.fn == ctor:
				return one(ci.st, mkApp("parser", ctor.Signature.Results().At(0).Type(), ci.args...)), true
			case ci.fn == parse:
				outs := e.opaqueCall(ci, false)
				p2 := outs[0].st.clone()
				return append(outs, Outcome{st: p2, kind: OPanic, pan: mkSym("panic of the parser", types.NewInterfaceType(nil, nil))}), true
			}
			return nil, false
		}
	}
	gl := r.grammarGlobal()
	wantParser := func(name, data, opts *T) *T {
		return mkApp("parser", ctor.Signature.Results().At(0).Type(), name, data, opts)
	}
	type entry struct {
		name string
		data func(st *St, args []*T, evs []*Ev) *T // bytes that must be parsed
	}
	opened := false
	for _, en := range []string{"Parse", "ParseReader", "ParseFile"} {
		fn := need(r.p.fn("", en), "function "+en)
		e := r.exec()
		hook(e)
		args := symArgs(fn)
		outs := e.Call(fn, args, nil, newSt(), nil, nil)
		r.check(len(outs) > 0, "entry-paths", en, r.fnWhere(fn), "no path")
		for _, o := range outs {
			facts := factsString(o.st.facts)
			var open, read, prs, cls []*Ev
			for _, ev := range calls(o.st, 0) {
				switch {
				case ev.name == "os.Open" || ev.name == "os.OpenFile" || ev.name == "os.ReadFile" || ev.name == "io/ioutil.ReadFile":
					open = append(open, ev)
				case isReadAll(ev.name):
					read = append(read, ev)
				case ev.name == fnName(parse):
					prs = append(prs, ev)
				case ev.name == "(*os.File).Close" || ev.name == "m:Close":
					cls = append(cls, ev)
				default:
					r.fail("entry-paths", en+" "+ev.name, r.where(ev.pos), "unexpected call %s", ev)
				}
			}
			readFile := len(open) == 1 && strings.HasSuffix(open[0].name, "ReadFile")
			var errs []*T
			var data *T
			switch en {
			case "Parse":
				data = args[1]
				r.check(len(open)+len(read)+len(cls) == 0, "entry-sources", en, r.fnWhere(fn), "Parse opens, reads or closes something")
			case "ParseReader":
				r.check(len(read) == 1 && read[0].args[0] == args[1] && len(open)+len(cls) == 0, "entry-sources", en, r.fnWhere(fn), "ParseReader must read its reader exactly once (path %s)", facts)
				if len(read) == 1 {
					data = read[0].res.a[0]
					errs = append(errs, read[0].res.a[1])
				}
			case "ParseFile":
				ok := len(open) == 1 && open[0].args[0] == args[0]
				r.check(ok, "entry-sources", en+" open", r.fnWhere(fn), "ParseFile must open its file exactly once (path %s)", facts)
				if !ok {
					continue
				}
				errs = append(errs, open[0].res.a[1])
				failed := e.truth(o.st, mkCmp2nil(open[0].res.a[1])) == 0
				opened = opened || !readFile
				if readFile {
					data = open[0].res.a[0]
				} else {
					f := open[0].res.a[0]
					nc := 0
					for _, c := range cls {
						if c.args[0] == f || c.args[0].k == KIface && c.args[0].a[0] == f {
							nc++
							errs = append(errs, c.res.a[0])
						}
					}
					if failed {
						r.check(nc == 0 && len(read) == 0, "entry-close", en+" not opened", r.fnWhere(fn), "a file that could not be opened is read or closed (path %s)", facts)
					} else {
						r.check(nc == 1, "entry-close", en+" close", r.fnWhere(fn), "the opened file is closed %d times (outcome %d, path %s)", nc, o.kind, facts)
					}
					if len(read) > 0 {
						src := read[0].args[0]
						r.check(len(read) == 1 && (src == f || src.k == KIface && src.a[0] == f), "entry-sources", en+" read", r.fnWhere(fn), "ParseFile must read the opened file exactly once (path %s)", facts)
						data = read[0].res.a[0]
						errs = append(errs, read[0].res.a[1])
					}
				}
			}
			for _, pe := range prs {
				ok := len(prs) == 1 && data != nil && len(pe.args) >= 1 && pe.args[0] == wantParser(args[0], data, args[len(args)-1])
				if len(pe.args) > 1 {
					ok = ok && (gl == nil || pe.args[1] == gl)
				}
				r.check(ok, "entry-parser", en, r.fnWhere(fn), "the parser is not run once on exactly the name, bytes, options and grammar: %s", pe)
				errs = append(errs, pe.res.a[1])
			}
			if o.kind == OPanic {
				r.check(len(prs) == 1, "entry-paths", en+" panic", r.fnWhere(fn), "the function panics although the parser did not (path %s)", facts)
				continue
			}
			if o.kind != ORet {
				r.fail("entry-paths", en, r.fnWhere(fn), "the process exits")
				continue
			}
			val, err := o.vals[0], o.vals[1]
			var fails []*T
			undecided := false
			for _, x := range errs {
				switch e.truth(o.st, mkCmp2nil(x)) {
				case 0:
					fails = append(fails, x)
				case -1:
					undecided = true
				}
				if t := e.truth(o.st, mkCmp2nil(x)); t != 0 && t != 1 {
					undecided = true
				}
			}
			if len(fails) > 0 {
				r.check(e.truth(o.st, mkCmp2nil(err)) == 0, "entry-error", en, r.fnWhere(fn), "the failure %s is not returned: the error is %s (path %s)", fails[0], err, facts)
				if len(prs) == 0 {
					continue
				}
				continue
			}
			if len(prs) != 1 {
				r.fail("entry-parser", en, r.fnWhere(fn), "nothing is parsed although nothing failed (path %s)", facts)
				continue
			}
			if !undecided || (len(errs) >= 1 && err == prs[0].res.a[1]) {
				okV := val == prs[0].res.a[0]
				okE := err == prs[0].res.a[1] || err.isNil() && e.truth(o.st, mkCmp2nil(prs[0].res.a[1])) == 1
				r.check(okV && okE, "entry-result", en, r.fnWhere(fn), "the result is (%s, %s) instead of the parser's (path %s)", val, err, facts)
				for _, x := range errs {
					if x != prs[0].res.a[1] && e.truth(o.st, mkCmp2nil(x)) != 1 {
						r.fail("entry-error", en, r.fnWhere(fn), "the error %s is ignored (path %s)", x, facts)
					}
				}
			} else {
				for _, x := range errs {
					if t := e.truth(o.st, mkCmp2nil(x)); t != 0 && t != 1 {
						r.fail("entry-error", en, r.fnWhere(fn), "the error %s is not examined: (%s, %s) is returned (path %s)", x, val, err, facts)
					}
				}
			}
		}
		r.done("entry", e, en)
	}
	r.floor("entry-parser", 3)
	r.floor("entry-error", 2)
	if opened {
		r.floor("entry-close", 2)
	}
	r.floor("entry-result", 3)
}

// grammarGlobal is the value of the package variable holding the grammar table.
func (r *Rep) grammarGlobal() *T {
	r.grammar()
	return r.gramPtr
}
