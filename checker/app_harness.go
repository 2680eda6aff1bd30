package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A command of the tool: its run function and its boolean flags.
type command struct {
	name  string
	use   *T
	run   *T
	flags map[string]*T // flag name -> default
	cells map[string]*T // flag name -> address of its value
	cell  *T
	added bool
}

// commands interprets the exported entry point of internal/app and reads off the commands it builds.
func (r *Rep) commands() (map[string]*command, *ssa.Function) {
	if r.cmds != nil {
		return r.cmds, r.cmdEntry
	}
	fn := need(r.p.fn("internal/app", "Execute"), "function internal/app.Execute")
	e := r.exec()
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		// building the command tree: cobra keeps what it is given and leaves the fields of the commands alone
		if ci.fn != nil && (strings.HasPrefix(fnPkg(ci.fn), "github.com/spf13/")) {
			old := map[*T]*T{}
			for _, x := range ci.args {
				if x.k == KAddr {
					old[x] = ci.st.mem[x]
				}
			}
			outs := e.opaqueCall(ci, false)
			for k, v := range old {
				outs[0].st.mem[k] = v
			}
			return outs, true
		}
		return nil, false
	}
	outs := e.Call(fn, symArgs(fn), nil, newSt(), nil, nil)
	cmds := map[string]*command{}
	var root *T
	for _, o := range outs {
		var runEv *Ev
		for _, ev := range calls(o.st, 0) {
			if ev.name == "(*github.com/spf13/cobra.Command).Execute" || ev.name == "(*github.com/spf13/cobra.Command).ExecuteContext" {
				runEv = ev
			}
		}
		if runEv == nil {
			continue
		}
		root = runEv.args[0]
		flagOwner := map[*T]*T{}
		here := map[string]*command{}
		for _, ev := range calls(o.st, 0) {
			switch {
			case strings.HasSuffix(ev.name, "cobra.Command).Flags") || strings.HasSuffix(ev.name, "cobra.Command).PersistentFlags"):
				flagOwner[ev.res.a[0]] = ev.args[0]
			case strings.HasSuffix(ev.name, "cobra.Command).AddCommand") && ev.args[0] == root:
				s := e.resolve(o.st, ev.args[1])
				for _, u := range s.a {
					if u.k != KUnit {
						continue
					}
					c := u.a[0]
					cv := e.rootVal(o.st, c, ptrElem(c.typ))
					use := pathField(cv, "Use")
					if use == nil || !use.isStr() {
						continue
					}
					name, _, _ := strings.Cut(use.str(), " ")
					here[name] = &command{name: name, use: use, run: pathField(cv, "RunE"), cell: c, flags: map[string]*T{}, cells: map[string]*T{}, added: true}
				}
			}
		}
		for _, ev := range calls(o.st, 0) {
			if i := strings.LastIndex(ev.name, "pflag.FlagSet)."); i >= 0 {
				m := ev.name[i+len("pflag.FlagSet)."):]
				for _, c := range here {
					if flagOwner[ev.args[0]] == c.cell && (m == "Bool" || m == "BoolP") && ev.args[1].isStr() {
						d := ev.args[2]
						if m == "BoolP" {
							d = ev.args[3]
						}
						c.flags[ev.args[1].str()] = d
						c.cells[ev.args[1].str()] = ev.res.a[0]
					}
					if flagOwner[ev.args[0]] == c.cell && (m == "BoolVar" || m == "BoolVarP") && ev.args[2].isStr() {
						d := ev.args[3]
						if m == "BoolVarP" {
							d = ev.args[4]
						}
						c.flags[ev.args[2].str()] = d
						c.cells[ev.args[2].str()] = ev.args[1]
					}
				}
			}
		}
		for n, c := range here {
			if old := cmds[n]; old == nil {
				cmds[n] = c
			} else if old.run != c.run {
				r.fail("commands", n, r.fnWhere(fn), "the command %s runs %s or %s depending on the path", n, old.run, c.run)
			}
		}
		for _, n := range []string{"check", "format", "lint"} {
			c := here[n]
			r.check(c != nil && c.run != nil && (c.run.k == KFunc || c.run.k == KClosure), "commands", n, r.fnWhere(fn), "the command %s is not added to the root command with a run function before it is executed", n)
		}
	}
	if root == nil {
		panic(anchorError("execution of the root command in internal/app.Execute"))
	}
	r.done("commands", e, "Execute")
	r.cmds, r.cmdEntry, r.cmdExec, r.cmdOuts = cmds, fn, e, outs
	return cmds, fn
}

// seg is one pass over a path argument: one iteration of the loop over the arguments, or the beginning of one that is left early.
type seg struct {
	from, to int
	facts    []*T
	evs      []*Ev
	emits    []*T // parts appended to the collected errors
	left     bool // the command returns during this iteration
	ret      *T
	kind     OutKind
	st       *St
}

type appRun struct {
	cmd   *command
	fn    *ssa.Function
	e     *Exec
	outs  []Outcome
	args  *T
	lp    *Loop
	lps   map[*Loop]bool
	elem  *T // the argument of the current iteration
	segs  []*seg
	ends  []*seg // paths after the loop: ret is the result
	parse string
	pre   []*Ev
	flags map[string]*T // values of the options that are bound to variables
}

const evParse, evPrint, evApply, evFarthest = "parse", "print", "apply", "farthest"

// runCommand interprets the run function of a command on arbitrary arguments. Parsing a file, printing a tree, visiting the
// plugins and asking for the farthest failure are kept as events.
func (r *Rep) runCommand(name string, applied func(e *Exec, ci *callInfo)) *appRun {
	cmds, _ := r.commands()
	c := cmds[name]
	if c == nil || c.run == nil || c.run.fn == nil {
		panic(anchorError("command " + name))
	}
	a := &appRun{cmd: c, fn: c.run.fn, e: r.exec(), lps: map[*Loop]bool{}}
	e := a.e
	confT := needType(r.p.typ("ast", "Config"), "type ast.Config")
	pf := need(r.p.fn("", "ParseFile"), "function ParseFile")
	ff := need(r.p.fn("", "GetFarthestFailure"), "function GetFarthestFailure")
	ap := need(r.p.fn("ast/astutil", "ApplyPlugins"), "function ApplyPlugins")
	cs := need(r.p.method("ast", "Config", "String"), "method Config.String")
	inVal := pf.Signature.Results().At(0).Type()
	optT := needType(r.p.typ("", "Option"), "type Option")
	e.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn != nil && ci.fn.Pkg == r.p.pkg("") && ci.fn.Signature.Recv() == nil && ci.fn.Signature.Results().Len() == 1 &&
			types.Identical(ci.fn.Signature.Results().At(0).Type(), optT) {
			return one(ci.st, mkApp("opt:"+ci.fn.Name(), optT, ci.args...)), true
		}
		switch ci.fn {
		case pf:
			c := *ci
			c.name = evParse
			outs := e.opaqueCall(&c, false)
			st := outs[0].st
			err := outs[0].vals[1]
			s2 := st.clone()
			isNil := mkCmp2nil(err)
			val := outs[0].vals[0]
			conf := mk(&T{k: KRes, s: val.s + ".conf", typ: confT, a: val.a})
			var res []Outcome
			if e.assume(st, isNil) {
				res = append(res, Outcome{st: st, vals: []*T{mkIface(confT, conf, inVal), err}})
			}
			if e.assume(s2, mkNot(isNil)) {
				res = append(res, Outcome{st: s2, vals: []*T{val, err}})
			}
			return res, true
		case ff:
			c := *ci
			c.name = evFarthest
			return e.opaqueCall(&c, false), true
		case cs:
			// the text depends on the tree as it is when printed: an event, with a unique text
			c := *ci
			c.name = evPrint
			return e.opaqueCall(&c, false), true
		case ap:
			c := *ci
			c.name = evApply
			// the list, the function, and the state it works on at this moment
			c.args = append([]*T{}, ci.args...)
			for _, rt := range e.captured(ci.st, ci.args[1]) {
				v := e.load(ci.st, rt.ptr, ptrElem(rt.ptr.typ), nil, nil)
				fields := []*T{v}
				if isStructType(ptrElem(rt.ptr.typ)) {
					fields = expandStruct(v)
				}
				for i, x := range fields {
					n := rt.name
					if isStructType(ptrElem(rt.ptr.typ)) {
						n = structOf(ptrElem(rt.ptr.typ)).Field(i).Name()
					}
					y := mkApp("slot:"+n, nil, e.resolve(ci.st, x))
					if isMapType(x.typ) {
						y = mkApp("slot:"+n, nil, x, e.mapState(ci.st, x))
					}
					c.args = append(c.args, y)
				}
			}
			outs := e.opaqueCall(&c, false)
			if applied != nil {
				ci.st = outs[0].st
				applied(e, ci)
			}
			return outs, true
		}
		return nil, false
	}
	args := symArgs(a.fn)
	var bind []*T
	if c.run.k == KClosure {
		bind = c.run.a
	}
	for _, x := range args {
		if isSliceType(x.typ) {
			a.args = x
		}
	}
	if a.args == nil {
		panic(anchorError("path arguments of command " + name))
	}
	st := newSt()
	a.flags = map[string]*T{}
	for _, n := range sortedKeys(c.cells) {
		if cell := c.cells[n]; ptrElem(cell.typ) != nil {
			a.flags[n] = mkSym("option:"+n, ptrElem(cell.typ))
			e.storeRaw(st, cell, a.flags[n], nil, a.fn)
		}
	}
	a.outs = e.Call(a.fn, args, bind, st, nil, nil)
	for _, o := range a.outs {
		for _, ev := range o.st.ev {
			if ev.kind == "loop" && e.iterates(ev.lp, a.args, nil) {
				a.lps[ev.lp] = true
				a.lp = ev.lp
			}
		}
	}
	if a.lp == nil {
		r.fail("argument-loop", name, r.fnWhere(a.fn), "no loop visits every path argument from the first to the last")
		r.done("command", e, name)
		return nil
	}
	if len(a.lps) != 1 {
		r.fail("argument-loop", name, r.fnWhere(a.fn), "the path arguments are visited by %d loops", len(a.lps))
		r.done("command", e, name)
		return nil
	}
	a.elem = mkElem(a.args, a.lp.K, tString)
	for _, t := range a.lp.trans {
		s := &seg{from: t.from, to: t.to, facts: append(append([]*T{}, t.ord...), t.facts...), evs: t.ev}
		for _, c := range a.lp.comps {
			if c.mode == MAcc && (isMerrType(ptrElem(c.typ)) || isErrSlice(c.typ)) {
				s.emits = append(s.emits, t.emit[c.key]...)
			}
		}
		s.st = e.stOf(s.facts)
		a.segs = append(a.segs, s)
	}
	inside := mkLE(linAddC(linSub(a.lp.K, mkLen(a.args)), 1))
	for i := range a.outs {
		o := &a.outs[i]
		last := -1
		for j, ev := range o.st.ev {
			if ev.kind == "loop" && ev.lp == a.lp {
				last = j
			}
		}
		s := &seg{facts: o.st.facts, evs: o.st.ev[last+1:], left: true, kind: o.kind, st: o.st}
		if len(o.vals) > 0 {
			s.ret = o.vals[len(o.vals)-1]
		}
		if e.truth(o.st, inside) == 1 {
			a.segs = append(a.segs, s)
		} else {
			a.ends = append(a.ends, s)
		}
	}
	r.done("command", e, name)
	return a
}

func isErrSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && types.Identical(s.Elem(), errIface)
}

// stOf builds a state that knows the given facts.
func (e *Exec) stOf(facts []*T) *St {
	st := newSt()
	for _, f := range facts {
		if !st.fset[f] {
			st.fset[f] = true
			st.facts = append(st.facts, f)
		}
	}
	return st
}

// textHas tells whether the parts of a text include x.
func textHas(t, x *T) bool {
	if t == x {
		return true
	}
	switch t.k {
	case KCat:
		for _, p := range t.a {
			if textHas(p, x) {
				return true
			}
		}
	case KConv:
		return textHas(t.a[0], x)
	}
	return false
}

// errorTextOf is the text of an error value.
func errorTextOf(x *T) *T {
	if x.k == KIface && len(x.a) == 1 && x.a[0].k == KApp && x.a[0].s == "mkerror" {
		return x.a[0].a[0]
	}
	return mkApp("errtext", tString, x)
}

// namesFile tells whether the text of an error names the file: it contains the argument, or the text of an error of
// package os or of the parser about that file (those name the file they are about).
func (a *appRun) namesFile(t *T) bool {
	if textHas(t, a.elem) {
		return true
	}
	found := false
	var scan func(t *T)
	scan = func(t *T) {
		switch {
		case t.k == KCat:
			for _, p := range t.a {
				scan(p)
			}
		case t.k == KApp && t.s == "errtext" && t.a[0].k == KRes:
			x := t.a[0]
			if (strings.HasPrefix(x.s, "os.") || strings.HasPrefix(x.s, "io/ioutil.") || strings.HasPrefix(x.s, evParse+"#")) && len(x.a) > 0 && x.a[0] == a.elem {
				found = true
			}
			if strings.HasPrefix(x.s, "(*os.File).") {
				found = true
			}
		}
	}
	scan(t)
	return found
}

// option finds the value of a boolean flag read by the command.
func (a *appRun) flagRead(name string) *T {
	var found *T
	var scan func(evs []*Ev)
	scan = func(evs []*Ev) {
		for _, ev := range evs {
			if ev.kind == "call" && strings.HasSuffix(ev.name, "pflag.FlagSet).GetBool") && ev.args[1].isStr() && ev.args[1].str() == name {
				found = ev.res.a[0]
			}
		}
	}
	for _, o := range a.outs {
		scan(o.st.ev)
	}
	if found == nil {
		found = a.flags[name] // read from the variable the option is bound to, if at all
	}
	return found
}

func isMapType(t types.Type) bool {
	_, ok := under(t).(*types.Map)
	return ok
}

// coversSeq tells whether a text holds, once each and in order, the text of every element of xs.
func coversSeq(e *Exec, t, xs *T, nonEmpty bool) bool {
	switch {
	case t.k == KCat:
		for _, p := range t.a {
			if coversSeq(e, p, xs, nonEmpty) {
				return true
			}
		}
	case t.k == KApp && t.s == "mapcat":
		return t.a[0] == xs && keepsText(e, t.a[1], mkElem(xs, boundK, elemType(xs)))
	case t.k == KApp && t.s == "strings.Join":
		l := t.a[0]
		if l == xs {
			return true
		}
		if l.k == KApp && l.s == "mapseq" && l.a[0] == xs && l.a[1].k == KSeq && len(l.a[1].a) == 1 && l.a[1].a[0].k == KUnit {
			return keepsText(e, l.a[1].a[0].a[0], mkElem(xs, boundK, elemType(xs)))
		}
		if l.k == KApp && l.s == "stored" && l.a[0].k == KLoopAcc {
			return accCovers(e, l.a[0], xs)
		}
		if l.k == KLoopAcc {
			return accCovers(e, l, xs)
		}
	case t.k == KLoopAcc:
		return accCovers(e, t, xs)
	case t.k == KConv:
		return coversSeq(e, t.a[0], xs, nonEmpty)
	}
	return false
}

func elemType(xs *T) types.Type {
	if s, ok := under(xs.typ).(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// accCovers: what the loop has collected keeps the text of each element of xs.
func accCovers(e *Exec, acc, xs *T) bool {
	lp := acc.lp
	if lp == nil || acc.cmp == nil || !e.iterates(lp, xs, e.covSt) || len(lp.trans) == 0 {
		return false
	}
	el := mkElem(xs, lp.K, elemType(xs))
	defer func(st *St) { e.covSt = st }(e.covSt)
	for _, t := range lp.trans {
		if e.covSt != nil {
			e.covSt = e.stOf(append(append([]*T{}, t.ord...), t.facts...))
		}
		n := 0
		for _, p := range t.emit[acc.cmp.key] {
			if p.k == KUnit {
				p = p.a[0]
			}
			if keepsText(e, p, el) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// keepsText tells whether text t contains the text of x with nothing lost but trailing newlines, and nothing but constant text
// added between its lines.
func keepsText(e *Exec, t, x *T) bool {
	if t == x || t == mkApp("errtext", tString, x) {
		return true
	}
	switch t.k {
	case KIface:
		return keepsText(e, t.a[0], x)
	case KConv:
		return keepsText(e, t.a[0], x)
	case KCat:
		for _, p := range t.a {
			if keepsText(e, p, x) {
				return true
			}
		}
	case KLoopAcc:
		if s := splitOf(t.lp); s != nil && keepsText(e, s.a[0], x) && accCovers(e, t, s) {
			return true
		}
	case KApp:
		switch t.s {
		case "strings.TrimRight", "strings.TrimSuffix", "strings.TrimRightFunc", "strings.TrimSpace":
			if t.s == "strings.TrimSpace" || len(t.a) == 2 && t.a[1].isStr() && strings.Trim(t.a[1].str(), "\n\r \t") == "" {
				return keepsText(e, t.a[0], x)
			}
		case "strings.ReplaceAll":
			if t.a[1].isStr() && t.a[2].isStr() && strings.Contains(t.a[2].str(), t.a[1].str()) {
				return keepsText(e, t.a[0], x)
			}
		case "mapcat":
			if t.a[0].k == KApp && t.a[0].s == "strings.Split" && keepsText(e, t.a[0].a[0], x) {
				return keepsText(e, t.a[1], mkElem(t.a[0], boundK, tString))
			}
		case "strings.Join":
			l := t.a[0]
			if l.k == KApp && l.s == "strings.Split" {
				return keepsText(e, l.a[0], x)
			}
			for _, s := range splitsIn(l) {
				if keepsText(e, s.a[0], x) && coversSeq(e, t, s, false) {
					return true
				}
			}
		}
	}
	return false
}

// splitOf finds the strings.Split list a loop ranges over.
func splitOf(lp *Loop) *T {
	for _, t := range lp.trans {
		for _, f := range append(append([]*T{}, t.facts...), t.ord...) {
			for _, s := range splitsIn(f) {
				return s
			}
		}
	}
	return nil
}

func splitsIn(t *T) []*T {
	var out []*T
	walkTerm(t, func(x *T) bool {
		if x.k == KApp && x.s == "strings.Split" {
			out = append(out, x)
			return false
		}
		return true
	})
	return out
}
