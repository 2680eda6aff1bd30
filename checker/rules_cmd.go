package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "The run functions of the three commands are interpreted for an arbitrary list of arguments and arbitrary results of every system call. Every call site in the repository of a function that can change the file system is listed from the type-checked program; each must be reached only on paths on which the option that allows writing is known to be set, and the option's default is false.", ruleReadOnly,
		"functions of package os and of the libraries behave as their documentation says; only the functions listed as read-only by the rule are taken not to change files")
	register("C19", "On every path of the loop over the arguments of format and lint, file-changing calls are compared with the specification: exactly one complete write of the printed tree of this very file, after it was parsed without error and after all changes to the tree, under the option (and, for lint, after an id was added), and no call that touches any other path.", ruleRewrite,
		"os.WriteFile replaces the whole content of the file")
	register("C20", "Every call result of type error on every path of the run functions is followed: where it is known to be non-nil its text must be part of a collected (or returned) error that names the file; where it is never examined, or errors are collected without cause, the path is reported. The collected list must reach the returned value, the format function keep every error and every line, Execute turn it (and any error of the settings file except that there is none) into a non-zero status and text on stderr, and main exit with that status.", ruleAppErrors,
		"errors of package os and of the parser name the file they are about (C27)")
	register("C21", "The loop over the path arguments of each command is identified and every path through one iteration is checked: each argument is examined and parsed exactly once unless it is a directory or could not be examined, nothing a path does depends on what earlier iterations left behind, check and lint never leave the loop early, format only with a failure, and without the write option format writes the printed tree of each file exactly once.", ruleArguments)
	register("C22", "The function applied to every plugin is interpreted for an arbitrary plugin and arbitrary state, giving which plugins enter which list; the run function of lint is checked to apply it to every section of the three kinds once and in order, from a fresh state per file, and to report every element of both lists and every warning with the file name. That ApplyPlugins visits every plugin and Plugin.ID looks ids up exactly is decided by the rules of C17 and C25 in the same run.", func(r *Rep) {
		ruleLintReport(r)
		r.borrow(ruleID, "id-lookup", "attribute")
		r.borrow(ruleApply, "traversal", "cursor")
	})
	register("C23", "On every path of the applied function that replaces a plugin, the new plugin is compared field by field with the old one plus one string attribute id; its value must be free of quotes and backslashes by construction, be tested against and recorded in the set of used ids, and that set must hold the ids of all plugins of all sections before the first replacement. That ApplyPlugins visits every plugin, Cursor.Replace replaces exactly the current one and Plugin.ID looks ids up exactly is decided by the rules of C17 and C25 in the same run.", func(r *Rep) {
		ruleFixIDs(r)
		r.borrow(ruleID, "id-lookup", "attribute")
		r.borrow(ruleApply, "traversal", "cursor", "operation Replace", "operation Plugin")
	})
}

var commandNames = []string{"check", "format", "lint"}
var writeFlag = map[string]string{"format": "write-to-source", "lint": "auto-fix-id"}

func (s *seg) calls(f func(ev *Ev)) {
	for _, ev := range s.evs {
		if ev.kind == "call" {
			f(ev)
		}
	}
}

// errRes is the error result of a call event.
func errRes(ev *Ev) *T {
	if ev.res == nil || len(ev.res.a) == 0 {
		return nil
	}
	x := ev.res.a[len(ev.res.a)-1]
	if x.typ != nil && types.Identical(x.typ, errIface) {
		return x
	}
	return nil
}

func (a *appRun) failedNil(s *seg, x *T) int { return a.e.truth(s.st, mkEq(x, mkNil(nil))) }

// describe names an iteration by what happened on it.
func (a *appRun) describe(s *seg) string {
	var out []string
	s.calls(func(ev *Ev) {
		n := ev.name
		if i := strings.LastIndexAny(n, "./"); i >= 0 {
			n = n[i+1:]
		}
		if x := errRes(ev); x != nil {
			switch a.failedNil(s, x) {
			case 0:
				out = append(out, n+" fails")
			case 1:
				out = append(out, n)
			default:
				out = append(out, n+"?")
			}
			return
		}
		if ev.res != nil && len(ev.res.a) == 1 && isBoolType(ev.res.a[0].typ) {
			switch a.e.truth(s.st, ev.res.a[0]) {
			case 0:
				n = "not " + n
			}
			out = append(out, n)
		}
	})
	return strings.Join(out, ", ")
}

func (a *appRun) where(r *Rep, s *seg) string {
	for i := len(s.evs) - 1; i >= 0; i-- {
		if s.evs[i].kind == "call" && s.evs[i].pos.IsValid() {
			return r.where(s.evs[i].pos)
		}
	}
	return r.fnWhere(a.fn)
}

func (s *seg) parse() *Ev {
	var p *Ev
	s.calls(func(ev *Ev) {
		if ev.name == evParse {
			p = ev
		}
	})
	return p
}

func confOf(p *Ev, t types.Type) *T {
	v := p.res.a[0]
	return mk(&T{k: KRes, s: v.s + ".conf", typ: t, a: v.a})
}

// ---- C20 ----

func ruleAppErrors(r *Rep) {
	for _, n := range commandNames {
		a := r.runCommand(n, r.applied)
		if a == nil {
			continue
		}
		r.segErrors(a)
		r.quoted(a)
		if n != "format" {
			r.collected(a)
		}
		r.formats(a)
	}
	r.exitStatus()
	r.floor("failure-reported", 20)
	r.floor("farthest-quoted", 6)
	r.floor("exit-status", 3)
}

// segErrors: every failure on a pass is reported with the name of the file; nothing is reported without cause.
func (r *Rep) segErrors(a *appRun) {
	e, n := a.e, a.cmd.name
	for _, s := range a.segs {
		if s.kind != ORet {
			r.fail("failure-reported", n+": "+a.describe(s), a.where(r, s), "the command %s panics or exits while processing an argument", n)
			continue
		}
		reports := append([]*T{}, s.emits...)
		if s.left && s.ret != nil && !s.ret.isNil() {
			reports = append(reports, mkUnit(s.ret))
		}
		var failed, open []*Ev
		begun := !s.left
		s.calls(func(ev *Ev) {
			for _, x := range ev.args {
				if x != nil && contains(x, a.lp.K) {
					begun = true
				}
			}
			x := errRes(ev)
			if x == nil || !begun && strings.HasSuffix(ev.name, "GetBool") {
				return
			}
			switch a.failedNil(s, x) {
			case 0:
				failed = append(failed, ev)
			case -1:
				if !strings.HasSuffix(ev.name, "pflag.FlagSet).GetBool") && !(len(ev.args) > 0 && strings.Contains(ev.args[0].String(), "ErrOrStderr")) {
					open = append(open, ev)
				}
			}
		})
		for _, ev := range failed {
			x := errRes(ev)
			if ev.name == "os.Stat" || ev.name == "os.Lstat" || ev.name == "os.Open" {
				used := false
				s.calls(func(later *Ev) {
					used = used || later != ev && len(later.args) > 0 && later.args[0] == ev.res.a[0]
				})
				r.check(!used, "failure-reported", n+": "+a.describe(s)+" afterwards", a.where(r, s), "the result of %s is used after it failed, which panics", ev.name)
			}
			ok := false
			for _, rep := range reports {
				if rep.k != KUnit {
					continue
				}
				t := errorTextOf(rep.a[0])
				if (textHas(t, mkApp("errtext", tString, x)) || rep.a[0] == x) && a.namesFile(t) {
					ok = true
				}
			}
			r.check(ok, "failure-reported", n+": "+a.describe(s), a.where(r, s), "a failure of %s is not reported together with the name of the file by the command %s", ev.name, n)
		}
		if len(failed) == 0 {
			for _, ev := range open {
				r.fail("failure-reported", n+": "+a.describe(s), a.where(r, s), "the error result of %s is not examined by the command %s", ev.name, n)
			}
		}
		if !a.emptyIsNil(r) {
			for _, ev := range allEvs(s.evs) {
				if ev.kind == "hazard" && ev.name == "append-maybe-nil-error" {
					r.fail("no-false-report", n+": "+a.describe(s), a.where(r, s), "the command %s makes a list of errors although nothing failed: the list is an error even when it is empty", n)
				}
			}
		}
		if len(failed) == 0 && n != "lint" {
			r.check(len(reports) == 0, "no-false-report", n+": "+a.describe(s), a.where(r, s), "the command %s reports an error although nothing failed", n)
		}
		// failures inside loops nested in this pass
		for _, ev := range s.evs {
			if ev.kind == "loop" {
				r.loopErrors(a, s, ev.lp, 0)
			}
		}
	}
	_ = e
}

// emptyIsNil: the command turns an empty list of errors into no error.
func (a *appRun) emptyIsNil(r *Rep) bool {
	for _, fn := range r.p.funcs {
		if fn.Pkg == nil || a.fn.Pkg == nil || fn.Pkg != a.fn.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && (c.Call.StaticCallee().Name() == "ErrorOrNil" || c.Call.StaticCallee().Name() == "Len" && c.Call.StaticCallee().Signature.Recv() != nil && isMerrType(ptrElem(c.Call.StaticCallee().Signature.Recv().Type()))) {
					return true
				}
			}
		}
	}
	return false
}

func (r *Rep) loopErrors(a *appRun, s *seg, lp *Loop, d int) {
	if d > 4 || lp == a.lp {
		return
	}
	for _, t := range lp.trans {
		st := a.e.stOf(append(append(append([]*T{}, s.facts...), t.ord...), t.facts...))
		var texts []*T
		for _, c := range lp.comps {
			if c.mode == MAcc && (isMerrType(ptrElem(c.typ)) || isErrSlice(c.typ)) {
				for _, x := range t.emit[c.key] {
					if x.k == KUnit {
						texts = append(texts, errorTextOf(x.a[0]))
					}
				}
			}
		}
		for _, ev := range t.ev {
			if ev.kind == "loop" {
				r.loopErrors(a, s, ev.lp, d+1)
				continue
			}
			if ev.kind != "call" {
				continue
			}
			x := errRes(ev)
			if x == nil || a.e.truth(st, mkEq(x, mkNil(nil))) == 1 {
				continue
			}
			ok := false
			for _, tx := range texts {
				if textHas(tx, mkApp("errtext", tString, x)) && a.namesFile(tx) {
					ok = true
				}
			}
			r.check(ok, "failure-reported", a.cmd.name+": nested "+ev.name, a.where(r, s), "a failure of %s inside a loop is not reported together with the name of the file", ev.name)
		}
	}
}

// collected: the command returns a non-nil error holding all reports exactly if there are any.
func (r *Rep) collected(a *appRun) {
	n := a.cmd.name
	var accs []*comp
	for _, c := range a.lp.comps {
		if c.mode == MAcc && (isMerrType(ptrElem(c.typ)) || isErrSlice(c.typ)) {
			emits := false
			for _, t := range a.lp.trans {
				if len(t.emit[c.key]) > 0 {
					emits = true
				}
			}
			if emits {
				accs = append(accs, c)
			}
		}
	}
	r.check(len(accs) == 1, "reports-returned", n+": collection", r.fnWhere(a.fn), "the command %s collects its errors in %d lists, not in one", n, len(accs))
	if len(accs) != 1 {
		return
	}
	c := accs[0]
	ends := 0
	for _, o := range a.outs {
		hi := -1
		for _, ev := range o.st.ev {
			if ev.kind == "loop" && ev.lp == a.lp {
				hi = ev.hi
			}
		}
		if hi < 0 || o.kind != ORet {
			continue
		}
		ends++
		ret := o.vals[len(o.vals)-1]
		name := fmt.Sprintf("%s: end of the loop, state %d", n, hi)
		flag := "E"
		if hi > 0 {
			flag = a.lp.heads[hi].flags[c.key]
		}
		switch flag {
		case "E":
			r.check(ret.isNil(), "reports-returned", name, r.fnWhere(a.fn), "the command %s fails although no error was collected", n)
		case "N":
			r.check(returnsAll(a.e, ret, c), "reports-returned", name, r.fnWhere(a.fn), "the collected errors do not reach the result of the command %s", n)
		default:
			ip, _ := partsOf(c.init)
			acc := mk(&T{k: KLoopAcc, lp: a.lp, hi: hi, cmp: c, s: flag, typ: accPartType(c.typ)})
			switch a.e.truth(o.st, mkEQ0(mkLen(mkSeq(nil, append(append([]*T{}, ip...), acc)...)))) {
			case 1:
				r.check(ret.isNil(), "reports-returned", name+" none", r.fnWhere(a.fn), "the command %s fails although no error was collected", n)
			case 0:
				r.check(returnsAll(a.e, ret, c), "reports-returned", name+" some", r.fnWhere(a.fn), "the collected errors do not reach the result of the command %s", n)
			default:
				r.fail("reports-returned", name, r.fnWhere(a.fn), "cannot tell whether errors were collected when the command %s ends", n)
			}
		}
	}
	r.check(ends > 0, "reports-returned", n+": end", r.fnWhere(a.fn), "no path leaves the loop of the command %s", n)
}

func returnsAll(e *Exec, ret *T, c *comp) bool {
	if ret.k != KIface {
		return false
	}
	x := ret.a[0]
	if x.k == KApp && x.s == "merr" {
		ps, _ := partsOf(x)
		for _, p := range ps {
			if p.k == KLoopAcc && p.cmp != nil && p.cmp.key == c.key {
				return true
			}
		}
		return false
	}
	if x.k == KApp && x.s == "mkerror" {
		found := false
		walkTerm(x.a[0], func(t *T) bool {
			if t.k == KApp && (t.s == "strings.Join" || t.s == "mapcat") {
				walkTerm(t.a[0], func(u *T) bool {
					if u.k == KLoopAcc && u.cmp != nil && u.cmp.key == c.key && coversSeq(e, t, t.a[0], true) {
						found = true
					}
					return true
				})
			}
			return true
		})
		return found
	}
	return false
}

// formats: functions that render the collected errors keep every one of them.
func (r *Rep) formats(a *appRun) {
	seen := map[*ssa.Function]bool{}
	for _, o := range a.outs {
		for _, ev := range o.st.ev {
			if ev.kind != "store" || len(ev.args) != 2 || ev.args[0].k != KFAddr || ev.args[0].s != "ErrorFormat" {
				continue
			}
			f := unconv(ev.args[1])
			if f.isNil() {
				continue
			}
			if f.k != KFunc && f.k != KClosure {
				r.fail("format-keeps-errors", a.cmd.name, r.where(ev.pos), "the error format function is not known")
				continue
			}
			if seen[f.fn] {
				continue
			}
			seen[f.fn] = true
			e := r.exec()
			args := symArgs(f.fn)
			es := args[0]
			for _, o := range e.Call(f.fn, args, f.a, newSt(), nil, nil) {
				e.covSt = o.st
				var emptyOK = e.truth(o.st, mkLE(mkLen(es))) == 1
				ok := o.kind == ORet && (emptyOK || coversSeq(e, o.val(), es, true) ||
					e.truth(o.st, mkEQ0(linAddC(mkLen(es), -1))) == 1 && keepsText(e, o.val(), mkElem(es, mkInt(0), errIface)))
				r.check(ok, "format-keeps-errors", f.fn.Name()+": "+clip(factsString(o.st.facts), 120), r.fnWhere(f.fn), "%s does not keep the text of every error", f.fn.Name())
			}
			r.done("format-keeps-errors", e, f.fn.Name())
		}
	}
}

// notFoundFact: the path is taken only when x is the error of viper for a settings file that does not exist.
func notFoundFact(st *St, x *T) bool {
	for f := range st.fset {
		if len(f.a) == 1 && f.a[0] == x && f.xt != nil && (f.k == KTypeIs || f.k == KApp && strings.HasPrefix(f.s, "errorsAs:")) &&
			strings.HasSuffix(typeKey(f.xt), "viper.ConfigFileNotFoundError") {
			return true
		}
	}
	return false
}

// exitStatus: Execute and main turn an error of the command into a non-zero status and text on stderr.
func (r *Rep) exitStatus() {
	r.commands()
	fn := r.cmdEntry
	e, outs := r.cmdExec, r.cmdOuts
	args := symArgs(fn)
	stderr := args[len(args)-1]
	for i, o := range outs {
		name := fmt.Sprintf("Execute path %d", i)
		if o.kind != ORet || o.val() == nil {
			r.fail("exit-status", name, r.fnWhere(fn), "Execute panics or exits itself")
			continue
		}
		var cause *Ev
		ran := false
		for _, ev := range calls(o.st, 0) {
			if strings.HasSuffix(ev.name, "cobra.Command).Execute") || strings.HasSuffix(ev.name, "cobra.Command).ExecuteContext") {
				ran = true
				x := errRes(ev)
				switch e.truth(o.st, mkEq(x, mkNil(nil))) {
				case 0:
					cause = ev
				case -1:
					r.fail("exit-status", name, r.fnWhere(fn), "Execute does not examine the error of the command")
				}
			}
		}
		v := o.val()
		zero := v.isInt() && v.int() == 0
		for _, ev := range calls(o.st, 0) {
			if !strings.HasSuffix(ev.name, "viper.ReadInConfig") && !strings.HasSuffix(ev.name, "viper.Viper).ReadInConfig") {
				continue
			}
			x := errRes(ev)
			known := e.truth(o.st, mkEq(x, mkNil(nil)))
			if known == 1 {
				continue
			}
			r.check(known == 0 || !zero, "exit-status", name+" settings", r.where(ev.pos), "Execute does not examine the error of %s", ev.name)
			if known != 0 {
				continue
			}
			if zero {
				r.check(notFoundFact(o.st, x), "exit-status", name+" settings", r.where(ev.pos), "the error of %s is dropped although it is not known to say that there is no such file", ev.name)
				continue
			}
			if cause != nil {
				continue
			}
			ok := false
			for _, w := range calls(o.st, 0) {
				if w.name == "write" && w.args[0] == stderr && textHas(w.args[1], mkApp("errtext", tString, x)) {
					ok = true
				}
			}
			r.check(ok || notFoundFact(o.st, x), "exit-status", name+" settings output", r.where(ev.pos), "the error of %s is not written to the error output", ev.name)
		}
		if ran && cause == nil {
			r.check(zero, "exit-status", name, r.fnWhere(fn), "Execute returns a non-zero status although the command succeeded")
			continue
		}
		r.check(v.isInt() && !zero && v.int()&255 != 0, "exit-status", name, r.fnWhere(fn), "Execute returns status %s on a path on which the command failed or did not run", v)
		if cause != nil {
			ok := false
			for _, ev := range calls(o.st, 0) {
				if ev.name == "write" && ev.args[0] == stderr && textHas(ev.args[1], mkApp("errtext", tString, errRes(cause))) {
					ok = true
				}
			}
			r.check(ok, "exit-status", name+" output", r.fnWhere(fn), "the error of the command is not written to the error output")
		}
	}
	// main
	main := need(r.p.fn("cmd/mustache", "main"), "function main of cmd/mustache")
	em := r.exec()
	em.hook = func(ci *callInfo) ([]Outcome, bool) {
		if ci.fn == fn {
			return em.opaqueCall(ci, false), true
		}
		return nil, false
	}
	for i, o := range em.Call(main, nil, nil, newSt(), nil, nil) {
		var ex, run *Ev
		for _, ev := range calls(o.st, 0) {
			if ev.name == "os.Exit" {
				ex = ev
			}
			if ev.res != nil && len(ev.res.a) == 1 && ev.fn == main && strings.HasSuffix(ev.name, ".Execute") {
				run = ev
			}
		}
		ok := o.kind == OExit && ex != nil && run != nil && ex.args[0] == run.res.a[0]
		r.check(ok, "exit-status", fmt.Sprintf("main path %d", i), r.fnWhere(main), "main does not exit with the status of Execute")
		if run != nil {
			n := len(run.args)
			isG := func(t *T, name string) bool {
				t = unwrapIface(t)
				return t.k == KDeref && t.a[0].k == KGlobal && t.a[0].g.Name() == name && t.a[0].g.Pkg.Pkg.Path() == "os"
			}
			r.check(isG(run.args[n-2], "Stdout") && isG(run.args[n-1], "Stderr"), "exit-status", "main streams", r.fnWhere(main), "main does not pass the standard streams to Execute (%s, %s)", run.args[n-2], run.args[n-1])
		}
	}
	r.done("exit-status", em, "main")
}

// ---- C21 ----

func ruleArguments(r *Rep) {
	for _, n := range commandNames {
		a := r.runCommand(n, r.applied)
		if a == nil {
			continue
		}
		r.pass("argument-loop", "%s", n)
		e := a.e
		for _, s := range a.segs {
			d := n + ": " + a.describe(s)
			w := a.where(r, s)
			if s.kind != ORet {
				r.fail("argument-processed", d, w, "the command %s panics or exits while processing an argument", n)
				continue
			}
			parses, mine, excused, failure := 0, true, false, false
			var parse *Ev
			begun := !s.left
			s.calls(func(ev *Ev) {
				for _, x := range ev.args {
					if x != nil && contains(x, a.lp.K) {
						begun = true
					}
				}
				x := errRes(ev)
				if x != nil && begun && a.failedNil(s, x) == 0 {
					failure = true
				}
				switch {
				case ev.name == evParse:
					parses++
					parse = ev
					mine = mine && ev.args[0] == a.elem
				case ev.name == "os.Stat" || ev.name == "os.Lstat" || ev.name == "os.Open":
					if ev.args[0] == a.elem && a.failedNil(s, x) == 0 {
						excused = true
					}
				case strings.HasSuffix(ev.name, ".IsDir"):
					if a.e.truth(s.st, ev.res.a[0]) == 1 && contains(ev.args[0], a.elem) {
						excused = true
					}
				}
			})
			if s.left {
				r.check(n == "format" && failure, "argument-loop", d, w, "the command %s stops before all arguments are processed", n)
			}
			r.check(parses == 1 && mine || parses == 0 && excused, "argument-processed", d, w, "the command %s parses the argument %d times on a path on which it is neither a directory nor unreadable", n, parses)
			if !s.left {
				r.independent(a, s, d, w)
			}
			r.carriedState(a, s, d, w)
			r.farthest(a, s, parse, d, w)
			if n == "format" && parse != nil && a.failedNil(s, errRes(parse)) == 1 {
				r.printed(a, s, parse, d, w)
			}
		}
		over := mkLE(linSub(mkLen(a.args), a.lp.K))
		for i, s := range a.ends {
			r.check(e.truth(s.st, over) == 1, "argument-loop", fmt.Sprintf("%s: end %d", n, i), r.fnWhere(a.fn), "the command %s may stop before the last argument", n)
		}
	}
	r.floor("argument-processed", 15)
	r.floor("argument-independent", 15)
}

// independent: what a pass does mentions nothing earlier passes left behind.
func (r *Rep) independent(a *appRun, s *seg, d, w string) {
	bad := ""
	test := func(t *T, what string) {
		walkTerm(t, func(x *T) bool {
			if (x.k == KLoopVar || x.k == KLoopAcc) && x.lp != nil && x.lp.id == a.lp.id {
				bad = what
			}
			return bad == ""
		})
	}
	for _, f := range s.facts {
		test(f, "a condition")
	}
	for _, x := range s.emits {
		test(x, "a reported error")
	}
	for _, ev := range s.evs {
		if ev.kind == "call" {
			for _, x := range ev.args {
				if x != nil {
					test(x, "a call of "+ev.name)
				}
			}
		}
	}
	r.check(bad == "", "argument-independent", d, w, "%s depends on what earlier arguments left behind", bad)
}

// carriedState: what the functions applied to the plugins change is made anew for each argument.
func (r *Rep) carriedState(a *appRun, s *seg, d, w string) {
	uses := a.appliesOf(s)
	changed := map[string]bool{}
	for _, u := range uses {
		if u.fn == nil {
			continue
		}
		for _, sl := range r.visit(u.fn).changed() {
			changed[sl.name] = true
		}
	}
	seen := map[string]bool{}
	for _, u := range uses {
		if u.first == nil || len(u.first.args) < 2 {
			continue
		}
		for _, x := range u.first.args[2:] {
			if x == nil || x.k != KApp || !strings.HasPrefix(x.s, "slot:") || seen[x.s] || !changed[x.s[5:]] {
				continue
			}
			seen[x.s] = true
			ok := true
			if len(x.a) == 2 && isMapType(x.a[0].typ) {
				ok = x.a[1].k == KApp && x.a[1].s == "mapnew"
			}
			for _, y := range x.a {
				walkTerm(y, func(z *T) bool {
					if (z.k == KLoopVar || z.k == KLoopAcc) && z.lp != nil && z.lp.id == a.lp.id {
						ok = false
					}
					return ok
				})
			}
			r.check(ok, "argument-independent", d+": "+x.s[5:], w, "%s, which the functions applied to the plugins change, is not made anew for each file", x.s[5:])
		}
	}
}

// farthest: the recorded farthest failure is only quoted for the parse of this very file.
func (r *Rep) farthest(a *appRun, s *seg, parse *Ev, d, w string) {
	var texts []*T
	for _, x := range s.emits {
		if x.k == KUnit {
			texts = append(texts, errorTextOf(x.a[0]))
		}
	}
	if s.left && s.ret != nil && !s.ret.isNil() {
		texts = append(texts, errorTextOf(s.ret))
	}
	seenParse := false
	for _, ev := range s.evs {
		if ev.kind == "call" && ev.name == evParse {
			seenParse = true
		}
		if ev.kind != "call" || ev.name != evFarthest {
			continue
		}
		for _, t := range texts {
			if !textHas(t, ev.res.a[0]) {
				continue
			}
			ok := seenParse && parse != nil && a.failedNil(s, errRes(parse)) == 0
			if ok {
				ok = false
				for _, f := range s.facts {
					if f.k == KNot && f.a[0].k == KApp && strings.HasPrefix(f.a[0].s, "errorsAs:") && strings.HasSuffix(f.a[0].s, "PathError") && f.a[0].a[0] == errRes(parse) {
						ok = true
					}
				}
			}
			r.check(ok, "farthest-own", d, w, "the farthest failure of another parse may be quoted for this file")
		}
	}
}

// quoted: the message about a file that does not parse gives the farthest failure, if there is one.
func (r *Rep) quoted(a *appRun) {
	for _, s := range a.segs {
		parse := s.parse()
		if parse == nil || s.kind != ORet || a.failedNil(s, errRes(parse)) != 0 {
			continue
		}
		err := errRes(parse)
		reports := append([]*T{}, s.emits...)
		if s.left && s.ret != nil && !s.ret.isNil() {
			reports = append(reports, mkUnit(s.ret))
		}
		ok := false
		for _, f := range s.facts {
			if f.k == KApp && strings.HasPrefix(f.s, "errorsAs:") && strings.HasSuffix(f.s, "PathError") && f.a[0] == err {
				ok = true // nothing was parsed
			}
		}
		for _, ev := range s.evs {
			if ev.kind != "call" || ev.name != evFarthest {
				continue
			}
			msg := ev.res.a[0]
			if a.e.truth(s.st, ev.res.a[1]) == 0 {
				ok = true
			}
			if a.e.truth(s.st, mkEQ0(mkLen(msg))) == 1 {
				ok = true
			}
			at := mkApp("strings.Index", tInt, mkApp("errtext", tString, err), msg)
			if a.e.truth(s.st, mkEQ0(linAdd(at, mkInt(1)))) == 0 {
				ok = true // the error gives it already
			}
			for _, rep := range reports {
				if rep.k == KUnit && textHas(errorTextOf(rep.a[0]), msg) {
					ok = true
				}
			}
		}
		r.check(ok, "farthest-quoted", a.cmd.name+": "+a.describe(s), a.where(r, s), "the message about a file that does not parse lacks the farthest failure")
	}
}

// printed: without the write option the tree of the file is written to the output exactly once.
func (r *Rep) printed(a *appRun, s *seg, parse *Ev, d, w string) {
	flag := a.flagRead(writeFlag["format"])
	n := 0
	var bad string
	conf := confOf(parse, needType(r.p.typ("ast", "Config"), "type ast.Config"))
	prints := map[*T]bool{}
	s.calls(func(ev *Ev) {
		switch ev.name {
		case evPrint:
			if ev.args[0] == conf {
				prints[ev.res.a[0]] = true
			}
		case "write":
			if strings.Contains(ev.args[0].String(), "OutOrStdout") {
				n++
				if !prints[textOf(ev.args[1])] {
					bad = "something else than the printed tree is written to the output"
				}
			}
		}
	})
	if flag == nil {
		r.fail("format-output", d, w, "the command format does not read its option %s", writeFlag["format"])
		return
	}
	switch a.e.truth(s.st, flag) {
	case 1:
		r.check(n == 0, "format-output", d, w, "with the option %s the tree is also written to the output", writeFlag["format"])
	case 0:
		r.check(n == 1 && bad == "", "format-output", d, w, "without the option %s the printed tree is written to the output %d times; %s", writeFlag["format"], n, bad)
	default:
		r.check(false, "format-output", d, w, "the output does not depend on the option %s", writeFlag["format"])
	}
}

// ---- C18 / C19: file effects ----

var readOnlyOS = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Stat Lstat Open ReadFile ReadDir Exit UserConfigDir UserHomeDir UserCacheDir Getenv LookupEnv Environ Getwd IsNotExist IsExist IsPermission IsTimeout Hostname Executable ExpandEnv Expand Readlink SameFile DirFS Getpid Getppid Getuid Geteuid Getgid Getegid IsPathSeparator NewSyscallError TempDir Getpagesize " +
		"File.Close File.Read File.ReadAt File.Stat File.Name File.Readdir File.ReadDir File.Readdirnames File.Seek File.Fd File.SetDeadline File.SetReadDeadline PathError.Error PathError.Unwrap PathError.Timeout LinkError.Error LinkError.Unwrap SyscallError.Error SyscallError.Unwrap") {
		readOnlyOS[n] = true
	}
}

var changingName = regexp.MustCompile(`(?i)(write|save|create|remove|delete|rename|truncate|chmod|chown|mkdir|symlink|markdown|gen.*(file|tree)|copyfs)`)

// mutator tells whether a function may change the file system.
func mutator(fn *ssa.Function) bool {
	pkg := fnPkg(fn)
	n := fn.Name()
	if rv := fn.Signature.Recv(); rv != nil {
		t := rv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
		}
	}
	switch {
	case pkg == "os":
		if n == "init" || fn.Object() == nil {
			return false
		}
		return !readOnlyOS[n]
	case pkg == "io/ioutil":
		return strings.Contains(n, "Write") || strings.Contains(n, "Temp")
	case pkg == "syscall" || pkg == "os/exec" || strings.HasPrefix(pkg, "golang.org/x/sys") || pkg == "plugin":
		return n != "init"
	case strings.HasPrefix(pkg, "github.com/spf13/"):
		return changingName.MatchString(fn.Name()) && !strings.HasSuffix(n, "SetOut") && n != "init"
	}
	return false
}

func mutatorName(name string) bool {
	switch {
	case strings.HasPrefix(name, "os."):
		return !readOnlyOS[name[3:]] && name != "os.Exit"
	case strings.HasPrefix(name, "(*os.File)."):
		return !readOnlyOS["File."+name[len("(*os.File)."):]]
	case strings.HasPrefix(name, "(*os.Root)."):
		return true
	case strings.HasPrefix(name, "io/ioutil."):
		return strings.Contains(name, "Write") || strings.Contains(name, "Temp")
	case strings.HasPrefix(name, "syscall."), strings.HasPrefix(name, "os/exec."), strings.HasPrefix(name, "(*os/exec."):
		return true
	case strings.Contains(name, "github.com/spf13/"):
		i := strings.LastIndex(name, ".")
		return changingName.MatchString(name[i+1:])
	}
	return false
}

// readOnlyOpen: OpenFile with constant flags that neither write nor create.
func readOnlyOpen(name string, args []*T) bool {
	return name == "os.OpenFile" && len(args) == 3 && args[1].isInt() && args[1].int() == 0
}

// fileEffects lists the calls of a pass that may change files, and the writes to files.
func (a *appRun) fileEffects(evs []*Ev) []*Ev {
	var out []*Ev
	for _, ev := range evs {
		switch {
		case ev.kind == "call" && mutatorName(ev.name) && !readOnlyOpen(ev.name, ev.args):
			out = append(out, ev)
		case ev.kind == "call" && ev.name == "write" && ev.args[0] != nil && isFileTerm(ev.args[0]):
			out = append(out, ev)
		case ev.kind == "loop" && ev.lp != a.lp:
			for _, t := range ev.lp.trans {
				out = append(out, a.fileEffects(t.ev)...)
			}
		}
	}
	return out
}

func isFileTerm(t *T) bool {
	t = unconv(t)
	if t.k == KIface {
		t = t.a[0]
	}
	return t.typ != nil && strings.HasSuffix(typeKey(t.typ), "*os.File")
}

func ruleReadOnly(r *Rep) {
	guarded := map[token.Pos]bool{}
	for _, n := range commandNames {
		a := r.runCommand(n, r.applied)
		if a == nil {
			continue
		}
		var flag *T
		if fname := writeFlag[n]; fname != "" {
			flag = a.flagRead(fname)
			def := a.cmd.flags[fname]
			r.check(def != nil && def == tFalse, "option-default", n, r.fnWhere(a.fn), "the option %s of the command %s does not default to false", fname, n)
		} else {
			r.pass("option-default", "%s", n)
		}
		all := append(append([]*seg{}, a.segs...), a.ends...)
		for _, s := range all {
			eff := a.fileEffects(s.evs)
			for _, ev := range eff {
				ok := flag != nil && a.e.truth(s.st, flag) == 1
				r.check(ok, "write-guarded", fmt.Sprintf("%s: %s", n, ev.name), r.where(ev.pos), "the command %s calls %s on a path on which its write option is not known to be set", n, ev.name)
				guarded[ev.pos] = true
			}
			if len(eff) == 0 {
				r.pass("read-only-path", "%s: %s", n, a.describe(s))
			}
		}
		// before the loop
		for _, o := range a.outs {
			for _, ev := range o.st.ev {
				if ev.kind == "loop" && ev.lp == a.lp {
					break
				}
				if ev.kind == "call" && mutatorName(ev.name) {
					ok := flag != nil && a.e.truth(o.st, flag) == 1
					if !ok {
						r.fail("write-guarded", fmt.Sprintf("%s: %s", n, ev.name), r.where(ev.pos), "the command %s calls %s without its write option", n, ev.name)
					}
					guarded[ev.pos] = true
				}
			}
		}
	}
	// every mention of such a function in the repository
	sites := 0
	for _, fn := range r.p.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					callee, ok := (*op).(*ssa.Function)
					if !ok || !mutator(callee) {
						continue
					}
					sites++
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == callee && callee.Name() == "OpenFile" && len(c.Common().Args) == 3 {
						if k, ok := c.Common().Args[1].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
							continue
						}
					}
					r.check(guarded[in.Pos()], "write-site", fmt.Sprintf("%s in %s", callee, fn), r.where(in.Pos()), "%s is used outside the guarded paths of the commands", callee)
				}
			}
		}
		r.pass("scanned", "%s", fn)
	}
	r.note("%d uses of file-changing functions", sites)
	r.floor("read-only-path", 20)
	r.floor("scanned", 100)
	r.floor("write-guarded", 2)
}

func ruleRewrite(r *Rep) {
	confT := needType(r.p.typ("ast", "Config"), "type ast.Config")
	for _, n := range []string{"format", "lint"} {
		a := r.runCommand(n, r.applied)
		if a == nil {
			continue
		}
		flag := a.flagRead(writeFlag[n])
		if flag == nil {
			r.fail("rewrite", n, r.fnWhere(a.fn), "the command %s does not read its option %s", n, writeFlag[n])
			continue
		}
		var ls *lintShape
		if n == "lint" {
			ls = r.lintShape(a)
			if ls == nil {
				continue
			}
		}
		for _, s := range a.segs {
			d := n + ": " + a.describe(s)
			w := a.where(r, s)
			parse := s.parse()
			ok := parse != nil && a.failedNil(s, errRes(parse)) == 1
			must := 0 // 1 must, 0 must not, -1 unknown
			if ok {
				must = a.e.truth(s.st, flag)
				if n == "lint" && must != 0 {
					switch c := ls.changedTruth(a, s); {
					case c == 0:
						must = 0
					case c < 0:
						must = -1
					}
				}
			}
			why := r.rewriteOf(a, s, confT)
			switch {
			case must == 1:
				r.check(why == "", "rewrite", d, w, "the command %s does not rewrite the file by its printed tree: %s", n, why)
			case must == 0:
				r.check(len(a.fileEffects(s.evs)) == 0, "rewrite", d, w, "the command %s changes a file although it must not on this path", n)
			default:
				r.fail("rewrite", d, w, "whether the command %s rewrites the file does not depend on its option", n)
			}
		}
		for i, s := range a.ends {
			r.check(len(a.fileEffects(s.evs)) == 0, "rewrite", fmt.Sprintf("%s: end %d", n, i), r.fnWhere(a.fn), "the command %s changes a file after the loop over its arguments", n)
		}
	}
	r.floor("rewrite", 20)
}

// rewriteOf checks that the effects of a pass are exactly one complete write of the printed tree.
func (r *Rep) rewriteOf(a *appRun, s *seg, confT types.Type) string {
	eff := a.fileEffects(s.evs)
	if len(eff) == 0 {
		return "no write"
	}
	parse := s.parse()
	conf := confOf(parse, confT)
	if parse != nil {
		if why := dropsContent(a, s, parse); why != "" {
			return why
		}
	}
	prints := map[*T]bool{}
	state := 0
	done := 0
	var file *T
	for _, ev := range s.evs {
		switch {
		case ev == parse:
			state = 1
		case ev.kind == "loop" && ev.lp != a.lp:
			if len(a.fileEffects([]*Ev{ev})) > 0 {
				return "a file is changed inside a loop"
			}
			for _, t := range ev.lp.trans {
				for _, x := range t.ev {
					if x.name == evApply {
						if len(prints) > 0 || done > 0 {
							return "the tree is printed before all plugins were visited"
						}
					}
				}
			}
		case ev.kind == "call" && ev.name == evApply:
			if len(prints) > 0 {
				return "the tree is printed before all plugins were visited"
			}
		case ev.kind == "call" && ev.name == evPrint:
			if ev.args[0] == conf && state == 1 {
				prints[ev.res.a[0]] = true
			}
		case ev.kind == "call" && ev.name == "os.WriteFile":
			if ev.args[0] != a.elem {
				return "another file is written"
			}
			if !prints[textOf(ev.args[1])] {
				return "what is written is not the printed tree of this file"
			}
			done++
		case ev.kind == "call" && (ev.name == "os.Create" || ev.name == "os.OpenFile"):
			if ev.args[0] != a.elem {
				return "another file is opened for writing"
			}
			if len(prints) == 0 {
				return "the file is truncated before the tree is printed"
			}
			if ev.name == "os.OpenFile" && !(ev.args[1].isInt() && ev.args[1].int()&0x200 != 0 && ev.args[1].int()&3 == 1 && ev.args[1].int()&0x400 == 0) {
				return "the file is not opened to be truncated and written"
			}
			if a.failedNil(s, errRes(ev)) != 0 {
				file = ev.res.a[0]
			} else {
				return ""
			}
		case ev.kind == "call" && file != nil && (ev.name == "write" && unwrapIface(ev.args[0]) == file || strings.HasPrefix(ev.name, "(*os.File).Write") && ev.args[0] == file):
			if !prints[textOf(ev.args[1])] {
				return "what is written is not the printed tree of this file"
			}
			done++
		case ev.kind == "call" && contains2(eff, ev):
			return "unexpected change by " + ev.name
		}
	}
	if done != 1 {
		return fmt.Sprintf("%d writes", done)
	}
	return ""
}

// keepsContent: the options that change neither what is accepted nor the tree.
var keepsContent = map[string]bool{"ExceptionalCommentsWarning": true, "Memoize": true, "MaxExpressions": true, "Debug": true, "Statistics": true, "Recover": true}

// dropsContent: the file is parsed with an option under which the tree lacks a part of the text.
func dropsContent(a *appRun, s *seg, parse *Ev) string {
	if len(parse.args) < 2 || parse.args[1].isNil() {
		return ""
	}
	opts := a.e.resolve(s.st, parse.args[1])
	if opts.isNil() {
		return ""
	}
	if opts.k != KSeq {
		return "the options the file is parsed with are not known"
	}
	for _, u := range opts.a {
		if u.k != KUnit || u.a[0].k != KApp || !strings.HasPrefix(u.a[0].s, "opt:") {
			return "the options the file is parsed with are not known"
		}
		o := u.a[0]
		n := strings.TrimPrefix(o.s, "opt:")
		if n == "IgnoreComments" && len(o.a) == 1 && a.e.truth(s.st, o.a[0]) == 0 || keepsContent[n] {
			continue
		}
		return "the file is parsed with the option " + n + ", under which the tree is not that of the whole text"
	}
	return ""
}

func unwrapIface(t *T) *T {
	t = unconv(t)
	if t.k == KIface {
		return t.a[0]
	}
	return t
}

func contains2(evs []*Ev, ev *Ev) bool {
	for _, x := range evs {
		if x == ev {
			return true
		}
	}
	return false
}
