package main

// What a parse makes of the text: content (C03), comments (C04), positions (C05).

import (
	"fmt"
	"go/types"
)

const semBasis = "The code attached to the grammar is found by aligning the parser table with a reference grammar coinductively (insensitive to inlining, extraction and naming of rules); every code node is then interpreted abstractly for every combination of dynamic types its labels can have, with symbolic lists, texts and positions. "

const machineBasis = "Each function evaluating a kind of node of the parser table is explored as a typestate automaton over its SSA form: abstract values are the positions and states before and after each evaluation, the label scopes, the stack of rules, the index into the operands and the list of values, with every outcome of each evaluation. "

func init() {
	register("C03", semBasis+"Each observation of the value it returns (constructor, list in order, operand, operator, name, exact text, kind) must equal the one the reference assigns to the construct, on every path; the distribution of the sections over the three lists is read off the summarised loop. "+machineBasis+"For this property: every value of an operand reaches the value of the node once and in order, labels are bound to the value of their operand, code runs once for a match with the matched text.", func(r *Rep) {
		r.ruleMeaning("C03", 400)
		r.ruleMachine()
	})
	register("C05", semBasis+"The position observed on the value must be that of the first character of the construct. The function that reads a character is interpreted for an arbitrary input; line, column and offset must advance as specified. The evaluation of code blocks is explored for the position they are given.", func(r *Rep) {
		r.ruleMeaning("C05", 60)
		r.readRule()
		r.ruleMachine()
	})
	register("C04", semBasis+"Every comment field must hold the block made of the white space before the construct, made once. The function that makes the block, the code that cuts comments into lines and the code that records warnings are summarised and their loops explored in product with monitors.", func(r *Rep) {
		r.ruleMeaning("C04", 60)
		r.sem().blockRule()
		r.sem().linesRule()
		r.sem().warnRule()
	})
	register("C06", machineBasis+"Obligations of this property: every node function that gives up has restored the position and the state it started with (by a copy made before, used once), closed every label scope and rule it opened; look-ahead restores both on success as well; a further alternative starts from the position and state of the first; each operand is evaluated in its own scope where labels could leak; and the functions that copy, restore and recycle states copy every entry and every value deeply (typed effect analysis of the clone methods and of the pool).", func(r *Rep) {
		r.ruleMachine()
		r.primRule()
	})
	register("C01", semBasis+"The parser table, read from the initialiser of the package, must be bisimilar to the reference grammar. "+machineBasis+"For this property: each kind of node matches exactly when its operands do and in their order, alternatives are tried from the same position in order until the first match, repetition goes on until the operand fails. The three matchers that read characters are interpreted for an arbitrary character, class and literal, and their outcome compared with the membership predicate in every abstract state of their loops. The predicates of the grammar are shown to answer a constant and the actions never to refuse. The entry function is interpreted for every outcome of the start rule (match, failure, panic) combined with every state of the error list.", func(r *Rep) {
		r.matchRule()
		r.ruleMachine()
		r.codeRule("C01")
		r.engineRule("C01")
	})
	register("C02", "The call graph of the parser table is searched for left recursion (through nullable prefixes), repetitions of nullable operands and unbounded nesting; nullability and never-matching are computed by fixpoint on the table read from the initialiser of the package. The entry function is interpreted for every outcome of the start rule (match, failure, panic of any value) combined with every state of the error list: it must return a value or an error on each, keep every recorded error, and turn a panic into one. The functions evaluating nodes are explored for errors of code that are dropped.", func(r *Rep) {
		r.endRule()
		r.ruleMachine()
		r.engineRule("C02")
	})
	register("C10", semBasis+"For each operator and kind the value built for its token must hold its constant; the text of each constant, interpreted, must be its token; constants of a type differ; every type holding an operator or kind is interpreted with each constant in that place, and the constant parts of its text must contain the token, once and between the operands, and no other token of the table.", func(r *Rep) {
		r.ruleMeaning("C10", 30)
		ruleTokens(r)
	})
	register("C12", semBasis+"The printer of numbers is interpreted on an arbitrary value: each path must return a text that denotes the value and has the number syntax by a known rule (shortest text without an exponent, decimal of the 64 bit integer the value equals, fixed notation that is shortest or was read back), under the facts of the path. The constructor, the accessor and every write of the stored value are looked at.", func(r *Rep) {
		r.ruleMeaning("C12", 2)
		r.ruleNumber()
	})
}

// blockRun interprets the function that makes comment blocks on a symbolic list of comments and white space.
func (s *semTab) blockRun(before, after *T) *semRun {
	cf := s.commentFn()
	e := s.r.exec()
	e.hazards = true
	st := newSt()
	cT := types.NewSlice(needType(s.r.p.typ("ast", "Comment"), "type ast.Comment"))
	list := mkSym("list", s.list)
	el := &Shape{types: []types.Type{cT, needType(s.r.p.typ("ast", "Whitespace"), "type ast.Whitespace")}}
	e.shapeOf = func(t *T) *Shape {
		if t.k == KElem && unconv(t.a[0]) == list && isIfaceType(t.typ) {
			return el
		}
		return nil
	}
	given := []*T{mkIface(s.list, list, s.any), before, after}
	var args []*T
	for i, p := range cf.Params {
		if i == 0 && cf.Signature.Recv() != nil {
			args = append(args, mkSym("recv", p.Type()))
			continue
		}
		if len(given) == 0 || !sameType(p.Type(), given[0].typ) {
			panic(anchorError("function that makes comment blocks of (value, bool, bool)"))
		}
		args = append(args, given[0])
		given = given[1:]
	}
	if len(given) > 0 {
		panic(anchorError("function that makes comment blocks of (value, bool, bool)"))
	}
	sr := &semRun{e: e, text: list}
	sr.outs = e.Call(cf, args, nil, st, nil, nil)
	return sr
}

func blockDump(dir string) {
	p, err := loadProg(dir)
	if err != nil {
		fmt.Println(err)
		return
	}
	r := &Rep{p: p}
	s := r.sem()
	for _, b := range []bool{false, true} {
		for _, a := range []bool{false, true} {
			sr := s.blockRun(mkBool(b), mkBool(a))
			fmt.Println("== before", b, "after", a)
			seen := map[*Loop]bool{}
			for _, o := range sr.outs {
				fmt.Println("  kind", o.kind, clip(factsString(o.st.facts), 500), o.vals)
				for _, ev := range o.st.ev {
					fmt.Println("     ev", ev)
					if ev.lp != nil && !seen[ev.lp] {
						seen[ev.lp] = true
						dumpLoop(ev.lp)
					}
				}
			}
			for _, u := range sr.e.undec {
				fmt.Println("  UNDEC", u)
			}
		}
	}
}

// explore runs a monitor along every path of a loop that leads to the exit.
func explore(lp *Loop, exit int, init string, step func(t *Trans, m string) (string, bool)) (ok bool, finals map[string]bool) {
	type ps struct {
		h int
		m string
	}
	co := coReach(lp, exit)
	seen := map[ps]bool{}
	finals = map[string]bool{}
	todo := []ps{{0, init}}
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[p] || !co[p.h] {
			continue
		}
		seen[p] = true
		if p.h == exit {
			finals[p.m] = true
		}
		for _, t := range lp.trans {
			if t.from != p.h || !co[t.to] {
				continue
			}
			m, good := step(t, p.m)
			if !good {
				return false, nil
			}
			if m == "" {
				continue
			}
			todo = append(todo, ps{t.to, m})
		}
	}
	return true, finals
}

func (e *Exec) transSt(lp *Loop, t *Trans) *St {
	ts := e.stOf(append(append(append([]*T{}, t.ord...), lp.heads[t.from].carry...), t.facts...))
	if t.from == 0 {
		e.assume(ts, mkEQ0(lp.K))
	}
	return ts
}

func oneLoop(st *St) *Loop {
	var lp *Loop
	for _, ev := range st.ev {
		if ev.lp != nil {
			if lp != nil && lp != ev.lp {
				panic(anchorError("a single loop"))
			}
			lp = ev.lp
		}
	}
	return lp
}

// isSpaced: got is the list l with SpaceBefore of its first element set.
func isSpaced(got, l *T, val *T) bool {
	got = unconv(got)
	if got.k != KUpd || len(got.a) != 3 || canonList(got.a[0]) != canonList(l) || !got.a[1].isInt() || got.a[1].int() != 0 {
		return false
	}
	s := structOf(got.a[2].typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		g := mkField(got.a[2], f.Name(), f.Type())
		if f.Name() == "SpaceBefore" {
			if g != val {
				return false
			}
		} else if w := mkField(mkElem(l, mkInt(0), got.a[2].typ), f.Name(), f.Type()); g != w {
			return false
		}
	}
	return s != nil
}

// blockRule: a comment block is the comments of the white space in order, with the asked for blank lines.
func (s *semTab) blockRule() {
	r := s.r
	cf := s.commentFn()
	cT := types.NewSlice(needType(r.p.typ("ast", "Comment"), "type ast.Comment"))
	for _, before := range []bool{false, true} {
		for _, after := range []bool{false, true} {
			sr := s.blockRun(mkBool(before), mkBool(after))
			e, list := sr.e, sr.text
			name := fmt.Sprintf("comment block (before %v, after %v)", before, after)
			for i := range sr.outs {
				o := &sr.outs[i]
				if o.kind != ORet || len(o.vals) != 1 {
					r.fail("block", name+" returns", r.fnWhere(cf), "the function that makes comment blocks does not return (%s)", factsString(o.st.facts))
					continue
				}
				got := canonList(e.resolve(o.st, o.vals[0]))
				late := false
				if got.k == KUpd {
					l := got.a[0]
					if isSpaced(got, l, tTrue) {
						got, late = canonList(l), true
					}
				}
				lp := oneLoop(o.st)
				if lp == nil {
					empty := e.truth(o.st, mkLE(mkLen(list))) == 1 && got.k == KSeq && len(got.a) == 0 && !late
					r.check(empty, "block", name+" empty", r.fnWhere(cf), "the comment block is %s without looking at the comments", got)
					continue
				}
				exit, key := -1, ""
				switch {
				case got.k == KLoopAcc && got.lp == lp:
					exit, key = got.hi, got.cmp.key
				case got.k == KSeq && len(got.a) == 0:
					for _, ev := range o.st.ev {
						if ev.lp == lp {
							exit = ev.hi
						}
					}
				}
				if !r.check(exit >= 0 && e.iterates(lp, list, o.st), "block", name+" all", r.fnWhere(cf), "the comment block is %s; it is not made of all comments (%s)", got, factsString(o.st.facts)) {
					continue
				}
				noneAtEnd := got.k == KLoopAcc && e.truth(o.st, mkLE(mkLen(got))) == 1
				asIs := late || noneAtEnd
				why := ""
				step := func(t *Trans, m string) (string, bool) {
					ts := e.transSt(lp, t)
					el := mkElem(list, lp.K, s.any)
					em := t.emit[key]
					empty := m == "e"
					switch known := accLen(e, ts, t, key); {
					case known < 0 && m == "f", known > 0 && m == "e":
						return "", true // cannot happen
					case known < 0 && m == "u":
						m, empty = "e", true
					case known > 0 && m == "u":
						m = "f"
					}
					if e.typeTruth(ts, el, cT) == 1 {
						l := mkAs(el, cT)
						if e.truth(ts, mkLE(mkLen(l))) == 1 {
							if len(em) == 0 || len(em) == 1 && em[0] == l {
								return m, true
							}
							why = fmt.Sprintf("an empty list of comments adds %v", em)
							return m, false
						}
						if len(em) != 1 {
							why = fmt.Sprintf("comments are not added once but give %v", em)
							return m, false
						}
						filled := e.truth(ts, mkLE(mkLen(l))) == 0
						switch {
						case before && empty && !asIs:
							if isSpaced(em[0], l, tTrue) {
								return "f", true
							}
							if canonList(em[0]) == l && !filled {
								why = "a blank line before the first comment is lost"
								return m, false
							}
							why = fmt.Sprintf("the first comments give %s", em[0])
							return m, false
						default:
							if canonList(em[0]) != l {
								why = fmt.Sprintf("comments give %s instead of %s", em[0], l)
								return m, false
							}
							if filled || !empty {
								return "f", true
							}
							// maybe empty: only the blank lines depend on it
							return "u", true
						}
					}
					if e.typeTruth(ts, el, cT) != 0 {
						why = "the kind of an element is not looked at"
						return m, false
					}
					if after && !empty {
						if len(em) == 1 && isLastSet(em[0], "SpaceAfter") {
							return m, true
						}
						if len(em) == 0 {
							why = "a blank line after comments is lost"
							return m, false
						}
					}
					if len(em) != 0 {
						why = fmt.Sprintf("white space gives %v", em)
						return m, false
					}
					return m, true
				}
				ok, fin := explore(lp, exit, "e", step)
				r.check(ok, "block", name+" comments", r.fnWhere(cf), "in a comment block %s (%s)", why, factsString(o.st.facts))
				if ok && late {
					r.check(before && !fin["e"] && e.truth(o.st, mkLE(mkLen(got))) == 0, "block", name+" blank", r.fnWhere(cf), "a blank line is put before comments where there is none")
				}
				if ok && before && !asIs && fin["u"] {
					r.fail("block", name+" blank", r.fnWhere(cf), "the blank line before the first comment is not asked for")
				}
			}
			r.done("block", e, name)
		}
	}
}

// accLen tells what a step knows of the list collected so far: -1 empty, 1 not empty, 0 nothing.
func accLen(e *Exec, ts *St, t *Trans, key string) int {
	out := 0
	for _, f := range ts.facts {
		walkTerm(f, func(x *T) bool {
			if x.k == KLen && x.a[0].k == KLoopAcc && x.a[0].cmp.key == key {
				switch e.truth(ts, mkLE(x)) {
				case 1:
					out = -1
				case 0:
					out = 1
				}
			}
			return true
		})
	}
	return out
}

func isLastSet(x *T, field string) bool {
	return x.k == KSetLast && x.s == field && x.a[0] == tTrue
}

// optKey is the key under which an option is kept.
func (s *semTab) optKey(name string) *T {
	r := s.r
	fn := r.p.fn("", name)
	if fn == nil {
		panic(anchorError("option " + name))
	}
	e := r.exec()
	st := newSt()
	b := mkSym("on", tBool)
	var key *T
	for _, o := range e.Call(fn, []*T{b}, nil, st, nil, nil) {
		if o.kind != ORet || len(o.vals) != 1 {
			continue
		}
		f := o.vals[0]
		for f.k == KConv || f.k == KIface {
			f = f.a[0]
		}
		if f.fn == nil {
			continue
		}
		p := mkSym("parser", f.fn.Signature.Params().At(0).Type())
		e.assume(o.st, mkNot(mkEq(p, mkNil(p.typ))))
		for _, q := range e.applyFunc(f, []*T{p}, o.st) {
			for _, ev := range q.st.ev {
				if ev.kind == "mapupdate" && len(ev.args) == 3 {
					key = ev.args[1]
				}
			}
		}
	}
	if key == nil || !key.isStr() {
		panic(anchorError("key of option " + name))
	}
	return key
}

func dictOf(kv ...*T) *T {
	m := mkApp("mapnew", nil)
	for i := 0; i+1 < len(kv); i += 2 {
		m = mkApp("mapupd", nil, m, kv[i], kv[i+1])
	}
	return m
}

// with runs f for the code nodes of one meaning, one per function.
func (s *semTab) with(name string, state, store *T, f func(c *sctx)) {
	s.stateInit, s.storeInit = state, store
	defer func() { s.stateInit, s.storeInit = nil, nil }()
	n := 0
	for _, p := range s.al.pairs {
		nm, args := semName(p.ref)
		if nm != name {
			continue
		}
		n++
		c := &sctx{s: s, r: s.r, prop: "C04", p: p, name: nm, args: args, text: mkSym("text", tString)}
		c.sr = s.run(p, c.text, nil, s.conf)
		c.e, c.labels = c.sr.e, c.sr.labels
		if len(c.sr.outs) == 0 {
			s.r.fail("comments", c.construct("returns"), c.where(), "the code never returns")
		}
		for i := range c.sr.outs {
			o := &c.sr.outs[i]
			c.o = o
			if o.kind != ORet || len(o.vals) == 0 || !o.vals[len(o.vals)-1].isNil() {
				s.r.fail("comments", c.construct("returns"), c.where(), "the code ends with a failure: %v (%s)", o.vals, factsString(o.st.facts))
				continue
			}
			c.v = bare(c.e.resolve(o.st, o.vals[0]))
			f(c)
		}
		s.r.done("comments", c.e, c.construct(""))
	}
	if n == 0 {
		panic(anchorError("code for " + name))
	}
}

// switchCases are the contents of the option store for a switch: absent, off, on.
func switchCases(key *T, t types.Type) []*T {
	return []*T{dictOf(), dictOf(key, mkIface(tBool, tFalse, t)), dictOf(key, mkIface(tBool, tTrue, t))}
}

// linesRule: the text of comments is cut into one comment per line with a hash sign.
func (s *semTab) linesRule() {
	r := s.r
	for i, store := range switchCases(s.optKey("IgnoreComments"), s.any) {
		s.with("comment", nil, store, func(c *sctx) {
			c.effects()
			if i == 2 {
				l := canonList(c.v)
				r.check(l.k == KSeq && len(l.a) == 0, "comments", c.construct("ignored"), c.where(), "comments to be ignored are kept: %s", c.v)
				return
			}
			c.lines()
		})
	}
}

func (c *sctx) lines() {
	r, e, st := c.r, c.e, c.o.st
	got := canonList(c.v)
	lp := oneLoop(st)
	text := mkApp("strings.Trim", tString, mkApp("strings.ReplaceAll", tString, c.text, mkStr("\r"), mkStr("")), mkStr("\n"))
	lines := mkApp("strings.Split", types.NewSlice(tString), text, mkStr("\n"))
	exit, key := -1, ""
	if lp != nil {
		switch {
		case got.k == KLoopAcc && got.lp == lp:
			exit, key = got.hi, got.cmp.key
		case got.k == KSeq && len(got.a) == 0:
			for _, ev := range st.ev {
				if ev.lp == lp {
					exit = ev.hi
				}
			}
		}
	}
	if !r.check(exit >= 0 && e.iterates(lp, lines, st), "comments", c.construct("lines"), c.where(), "the comments are %s, which is not made of all lines of the text (%s)", c.v, factsString(st.facts)) {
		return
	}
	cT := needType(r.p.typ("ast", "Comment"), "type ast.Comment")
	why := ""
	ok, _ := explore(lp, exit, "n", func(t *Trans, m string) (string, bool) {
		ts := e.transSt(lp, t)
		line := mkElem(lines, lp.K, tString)
		ix := mkApp("strings.Index", types.Typ[types.Int], line, mkStr("#"))
		em := t.emit[key]
		switch e.truth(ts, mkEQ0(linAddC(ix, 1))) {
		case 1:
			if len(em) != 0 {
				why = fmt.Sprintf("a line without comment gives %v", em)
				return m, false
			}
			if e.truth(ts, mkEQ0(lp.K)) == 1 {
				return m, true
			}
			if e.truth(ts, mkEQ0(lp.K)) != 0 && t.from == 0 {
				why = "the first line is not told from the others"
				return m, false
			}
			return "b", true
		case 0:
			if len(em) != 1 || em[0].k != KUnit || !sameType(em[0].a[0].typ, cT) {
				why = fmt.Sprintf("a line with a comment gives %v instead of one comment", em)
				return m, false
			}
			v := em[0].a[0]
			sub := mkSub(line, linAddC(ix, 1), mkLen(line), tString)
			want := mkApp("strings.Trim", tString, sub, mkStr(" "))
			none := e.truth(ts, mkLE(linSub(mkLen(line), linAddC(ix, 1)))) == 1
			s := structOf(cT)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				x := e.resolve(ts, mkField(v, f.Name(), f.Type()))
				switch {
				case isStringType(f.Type()):
					if x != want && !(none && x.isStr() && x.str() == "") {
						why = fmt.Sprintf("the text of the comment is %s instead of %s", x, want)
						return m, false
					}
				case f.Name() == "SpaceBefore":
					if x != mkBool(m == "b") {
						why = fmt.Sprintf("the blank line before the comment is recorded as %s instead of %v", x, m == "b")
						return m, false
					}
				default:
					if x != tFalse {
						why = f.Name() + " of the comment is " + x.String()
						return m, false
					}
				}
			}
			return "n", true
		}
		why = "a line is not searched for a comment"
		return m, false
	})
	r.check(ok, "comments", c.construct("line"), c.where(), "%s", why)
}

// warnRule: comments at exceptional places are recorded once, with their place, when asked for, and end up in the tree.
func (s *semTab) warnRule() {
	r := s.r
	var key *T
	var wt types.Type
	cases := switchCases(s.optKey("ExceptionalCommentsWarning"), s.any)
	has := func(c *sctx) int {
		ix := mkApp("strings.Index", types.Typ[types.Int], c.text, mkStr("#"))
		switch c.e.truth(c.o.st, mkEQ0(linAddC(ix, 1))) {
		case 0:
			return 1
		case 1:
			return 0
		}
		return -1
	}
	changed := func(c *sctx) (keys, vals []*T) {
		for m := c.e.mapState(c.o.st, c.sr.state); m.k == KApp && m.s == "mapupd" && m != s.stateInit; m = m.a[0] {
			dup := false
			for _, k := range keys {
				dup = dup || k == m.a[1]
			}
			if !dup {
				keys, vals = append(keys, m.a[1]), append(vals, m.a[2])
			}
		}
		return
	}
	// the message for the white space just read
	message := func(c *sctx, x *T) {
		ok := x.k == KCat
		i := 0
		want := []*T{}
		for _, f := range []string{"line", "col"} {
			want = append(want, mkApp("itoa", tString, mkField(c.sr.pos, f, fieldType(structOf(c.sr.pos.typ), f))))
		}
		if ok {
			for _, p := range x.a {
				if i < len(want) && p == want[i] {
					i++
				}
			}
		}
		r.check(i == len(want), "warnings", c.construct("place"), c.where(), "the warning %s does not name line and column of the comment", x)
	}
	for round := 0; round < 2; round++ {
		var state *T = dictOf()
		var old *T
		if round == 1 {
			if key == nil {
				r.fail("warnings", "warnComment", "", "no warning is ever recorded")
				return
			}
			old = mkSym("warnings", wt)
			state = dictOf(key, mkIface(wt, old, s.any))
		}
		for i, store := range cases {
			s.with("warnComment", state, store, func(c *sctx) {
				for _, ev := range c.o.st.ev {
					if ev.kind != "mapupdate" || ev.args[0] != c.sr.state {
						c.effect(ev)
					}
				}
				keys, vals := changed(c)
				switch {
				case i < 2:
					r.check(len(keys) == 0, "warnings", c.construct("off"), c.where(), "a warning is recorded although none are asked for: %v", vals)
				case has(c) == 0:
					r.check(len(keys) == 0, "warnings", c.construct("no comment"), c.where(), "a warning is recorded without a comment: %v", vals)
				case has(c) == 1:
					ok := len(keys) == 1 && vals[0].k == KIface
					if ok {
						key, wt = keys[0], vals[0].xt
						l := canonList(c.e.resolve(c.o.st, vals[0].a[0]))
						want := 1
						if old != nil {
							want = 2
							ok = keys[0] == key && sameType(vals[0].xt, wt) && l.k == KSeq && len(l.a) == 2 && canonList(l.a[0]) == old
						}
						ok = ok && l.k == KSeq && len(l.a) == want && l.a[want-1].k == KUnit
						if ok {
							message(c, l.a[want-1].a[0])
						}
					}
					r.check(ok, "warnings", c.construct("recorded"), c.where(), "a comment at an exceptional place changes the record %v to %v instead of adding one warning to the warnings so far", keys, vals)
				default:
					r.fail("warnings", c.construct("when"), c.where(), "whether there is a comment does not decide about the warning (%s)", factsString(c.o.st.facts))
				}
			})
		}
	}
	ws := mkSym("warnings", wt)
	s.with("initState", dictOf(), nil, func(c *sctx) {
		keys, vals := changed(c)
		for i, k := range keys {
			if k == key {
				l := canonList(bare(vals[i]))
				r.check(l.k == KSeq && len(l.a) == 0, "warnings", c.construct("initial"), c.where(), "a parse starts with the warnings %s", vals[i])
			}
		}
	})
	for round, state := range []*T{dictOf(), dictOf(key, mkIface(wt, ws, s.any))} {
		want := none()
		if round == 1 {
			want = ws
		}
		s.with("retConfig", state, nil, func(c *sctx) {
			if !c.dyn("Config") {
				return
			}
			for _, q := range c.obs(c.o.st.clone(), c.v, ".Warnings") {
				g := canonList(c.e.resolve(q.st, q.val()))
				if round == 0 && g.k == KField && g.s == "Warnings" {
					continue // those of the configuration below, which has none
				}
				r.check(g == canonList(want), "warnings", c.construct("returned"), c.where(), "the warnings of the configuration are %s instead of %s", g, want)
			}
		})
	}
	// the trees below carry none of their own
	for _, n := range []string{"config", "emptyConfig"} {
		s.with2(n, func(c *sctx) {
			for _, q := range c.obs(c.o.st.clone(), c.v, ".Warnings") {
				g := canonList(c.e.resolve(q.st, q.val()))
				r.check(g.k == KSeq && len(g.a) == 0, "warnings", c.construct(".Warnings"), c.where(), "the configuration starts with the warnings %s", g)
			}
		})
	}
	r.floor("warnings", 20)
}

// with2 is with on successful ends only.
func (s *semTab) with2(name string, f func(c *sctx)) {
	for _, p := range s.al.pairs {
		if nm, args := semName(p.ref); nm == name {
			c := &sctx{s: s, r: s.r, prop: "C04", p: p, name: nm, args: args, text: mkSym("text", tString)}
			c.sr = s.run(p, c.text, nil, s.conf)
			c.e, c.labels = c.sr.e, c.sr.labels
			for i := range c.sr.outs {
				c.o = &c.sr.outs[i]
				if c.o.kind == ORet && len(c.o.vals) == 2 && c.o.vals[1].isNil() {
					c.v = bare(c.e.resolve(c.o.st, c.o.vals[0]))
					f(c)
				}
			}
		}
	}
}

// firstBlank: there is no blank line before the first entry of a hash.
func (c *sctx) firstBlank() {
	e, st := c.e, c.o.st
	x := c.l("hashentry")
	s := structOf(x.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if !c.r.isCommentBlock(s.Field(i).Type()) {
			continue
		}
		cm := mkField(x, s.Field(i).Name(), s.Field(i).Type())
		var stores []*Ev
		for _, ev := range st.ev {
			if ev.kind == "store" {
				stores = append(stores, ev)
			}
		}
		switch e.truth(st, mkLE(mkLen(cm))) {
		case 1:
			c.r.check(len(stores) == 0, "meaning", c.construct("first entry"), c.where(), "a hash entry is changed: %v", stores)
		case 0:
			v := e.resolve(st, cm)
			ok := len(stores) == 1 && isSpaced(v, cm, tFalse)
			c.r.check(ok, "meaning", c.construct("first entry"), c.where(), "the blank line before the first entry of a hash is not taken back: %s, %v", v, stores)
		default:
			c.r.fail("meaning", c.construct("first entry"), c.where(), "the comments before the first entry of a hash are not looked at")
		}
	}
}
