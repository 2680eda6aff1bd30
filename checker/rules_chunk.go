package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Indentation (C11). The function that indents is interpreted symbolically: it must cut the text into the matches of a
// regular expression and give back, for each, the match with white space around it, or white space for a match of white
// space. Which cuts the expression makes is decided for every text of the lexical language of the printers (words, strings,
// regular expressions, selectors, comment lines, white space) by exploring the product of a lexer of that language with the
// ordered thread list of the leftmost-first matcher. A last analysis shows that the printers write comments at the beginning of
// lines only, as the lexical language says.

// ---- the lexical language ----

type lexState uint8

const (
	lxLine    lexState = iota // outside, only blanks since the line began
	lxMid                     // outside, within a line
	lxDouble                  // in a double quoted string
	lxDoubleB                 // the same after a backslash
	lxSingle
	lxSingleB
	lxRegexp
	lxRegexpB
	lxBracket  // after an opening bracket
	lxSelector // in a selector element
	lxNlSelector
	lxComment
)

var lexName = map[lexState]string{lxLine: "the text between lines", lxMid: "a line", lxDouble: "a double quoted string", lxDoubleB: "a double quoted string",
	lxSingle: "a single quoted string", lxSingleB: "a single quoted string", lxRegexp: "a regular expression", lxRegexpB: "a regular expression",
	lxBracket: "a bracket", lxSelector: "a selector", lxNlSelector: "a selector that begins with a line end", lxComment: "a comment"}

// lexStep lists the states after a character; none when no printer writes it there.
func lexStep(s lexState, c rune) []lexState {
	quoted := func(in, inB lexState, end rune) []lexState {
		switch {
		case s == inB && c == end:
			return []lexState{in}
		case c == end:
			return []lexState{lxMid}
		case c == '\\':
			return []lexState{inB}
		}
		return []lexState{in}
	}
	switch s {
	case lxLine, lxMid:
		switch c {
		case '\n':
			return []lexState{lxLine}
		case '"':
			return []lexState{lxDouble}
		case '\'':
			return []lexState{lxSingle}
		case '/':
			return []lexState{lxRegexp}
		case '[':
			return []lexState{lxBracket}
		case '#':
			if s == lxLine {
				return []lexState{lxComment}
			}
			return nil
		case ' ':
			return []lexState{s}
		case '\t', '\r': // the printers write no other white space
			return nil
		}
		return []lexState{lxMid}
	case lxDouble, lxDoubleB:
		return quoted(lxDouble, lxDoubleB, '"')
	case lxSingle, lxSingleB:
		return quoted(lxSingle, lxSingleB, '\'')
	case lxRegexp, lxRegexpB:
		return quoted(lxRegexp, lxRegexpB, '/')
	case lxBracket:
		switch c {
		case '\n': // an array, or a selector
			return []lexState{lxLine, lxNlSelector}
		case ']':
			return []lexState{lxMid}
		case '[', ',':
			return nil
		}
		return []lexState{lxSelector}
	case lxSelector, lxNlSelector:
		switch c {
		case ']':
			return []lexState{lxMid}
		case '[', ',':
			return nil
		}
		return []lexState{s}
	case lxComment:
		if c == '\n' {
			return []lexState{lxLine}
		}
		return []lexState{s}
	}
	return nil
}

// ---- the cuts of the expression ----

type cutNode struct {
	lex   lexState
	nl    bool   // the character before is a line end
	first bool   // at the beginning of the text
	fresh bool   // nothing of the chunk was read
	list  []int  // threads in order of priority, before empty instructions
	dead  []int  // threads that must not match any more
	guess bool   // a match was passed over, because a thread before it is to match
	fail  string // what went wrong before, in a text that has to be completed yet
	prev  *cutNode
	c     rune
}

func (n *cutNode) key() string {
	return fmt.Sprint(n.lex, n.nl, n.first, n.fresh, n.list, n.guess, n.fail)
}

func (n *cutNode) text() string {
	var b []byte
	for ; n != nil && n.prev != nil; n = n.prev {
		if n.c >= 0 {
			b = append(utf8.AppendRune(nil, n.c), b...)
		}
	}
	return string(b)
}

type cutter struct {
	prog  *syntax.Prog
	nodes int
	fails map[string]string
	ended bool // the text is known to end with a line end
}

// follow gives the threads behind the empty instructions, in order; -1 stands for a match, where the list ends.
func (k *cutter) follow(pcs []int, flags syntax.EmptyOp, cut bool) (out []int) {
	seen := map[int]bool{}
	done := false
	var f func(pc int)
	f = func(pc int) {
		if done || seen[pc] {
			return
		}
		seen[pc] = true
		i := &k.prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			f(int(i.Out))
			f(int(i.Arg))
		case syntax.InstCapture, syntax.InstNop:
			f(int(i.Out))
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^flags == 0 {
				f(int(i.Out))
			}
		case syntax.InstMatch:
			out = append(out, -1)
			done = cut
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		f(pc)
	}
	return
}

func (k *cutter) step(pcs []int, c rune) (out []int) {
	for _, pc := range pcs {
		if pc >= 0 && k.prog.Inst[pc].MatchRune(c) {
			out = append(out, int(k.prog.Inst[pc].Out))
		}
	}
	return
}

func (k *cutter) alphabet() []rune {
	cuts := map[rune]bool{0: true}
	add := func(lo, hi rune) {
		cuts[lo] = true
		if hi < utf8.MaxRune {
			cuts[hi+1] = true
		}
	}
	for _, c := range "\"'/[],#\n\t\r \\" {
		add(c, c)
	}
	for _, i := range k.prog.Inst {
		switch i.Op {
		case syntax.InstRuneAny:
		case syntax.InstRuneAnyNotNL:
			add('\n', '\n')
		case syntax.InstRune1:
			add(i.Rune[0], i.Rune[0])
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
				panic(anchorError("chunk expression without case folding"))
			}
		case syntax.InstRune:
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
				panic(anchorError("chunk expression without case folding"))
			}
			for j := 0; j+1 < len(i.Rune); j += 2 {
				add(i.Rune[j], i.Rune[j+1])
			}
		}
	}
	var out []rune
	for c := range cuts {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (k *cutter) bad(n *cutNode, what string) {
	if k.fails[what] == "" {
		k.fails[what] = n.text()
	}
}

func (k *cutter) run() {
	k.fails = map[string]string{}
	alpha := append(k.alphabet(), -1)
	start := &cutNode{lex: lxLine, first: true, fresh: true, list: []int{k.prog.Start}, c: -1}
	// the fewer threads must not match, the more texts there are: a node is covered by one with fewer of them
	seen := map[string][][]int{}
	q := []*cutNode{start}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.fail != "" && k.fails[n.fail] != "" {
			continue
		}
		key, covered := n.key(), false
		for _, d := range seen[key] {
			if subset(d, n.dead) {
				covered = true
				break
			}
		}
		if covered {
			continue
		}
		seen[key] = append(seen[key], n.dead)
		if k.nodes++; k.nodes > 400000 {
			if len(k.fails) > 0 {
				return
			}
			panic(anchorError("chunk expression whose matches settle"))
		}
		for _, c := range alpha {
			k.next(n, c, &q)
		}
	}
}

func (k *cutter) next(n *cutNode, c rune, q *[]*cutNode) {
	outside := n.lex == lxLine || n.lex == lxMid
	var lex []lexState
	if c < 0 {
		if !outside || k.ended && !n.nl && !n.first {
			return
		}
	} else if lex = lexStep(n.lex, c); len(lex) == 0 {
		return
	}
	prev := rune('x')
	if n.nl {
		prev = '\n'
	}
	if n.first {
		prev = -1
	}
	flags := syntax.EmptyOpContext(prev, c)
	if flags&^(syntax.EmptyBeginLine|syntax.EmptyEndLine|syntax.EmptyBeginText|syntax.EmptyEndText|syntax.EmptyNoWordBoundary|syntax.EmptyWordBoundary) != 0 {
		return
	}
	dead := k.follow(n.dead, flags, false)
	for _, pc := range dead {
		if pc < 0 {
			return
		}
	}
	if n.fail != "" {
		if c < 0 {
			k.bad(n, n.fail)
			return
		}
		k.condemn(n, lex, c, dead, n.fail, q)
		return
	}
	threads := k.follow(n.list, flags, true)
	m := -1
	for i, pc := range threads {
		if pc < 0 {
			m = i
		}
	}
	if c < 0 {
		if !n.fresh && m < 0 && !n.guess {
			k.bad(n, "characters are lost in "+lexName[n.lex])
		}
		return
	}
	advance := func(from *cutNode, threads, dead []int, guess bool) {
		list := k.step(threads, c)
		if len(list) == 0 {
			if !guess {
				for _, l := range lex {
					k.condemn(from, []lexState{l}, c, dead, "characters are lost in "+lexName[l], q)
				}
			}
			return
		}
		d := uniq(k.step(dead, c))
		for _, l := range lex {
			*q = append(*q, &cutNode{lex: l, nl: c == '\n', list: list, dead: d, guess: guess, prev: from, c: c})
		}
	}
	if m < 0 {
		advance(n, threads, dead, n.guess)
		return
	}
	if n.fresh {
		k.condemn(n, lex, c, append(dead, threads[:m]...), "an empty match in "+lexName[n.lex], q)
		return
	}
	if m > 0 {
		// a thread before the match may win
		advance(n, threads[:m], dead, true)
	}
	// the chunk ends here
	dead = append(dead, threads[:m]...)
	switch {
	case !outside:
		k.condemn(n, lex, c, dead, "a cut in "+lexName[n.lex], q)
		return
	case !n.nl:
		k.condemn(n, lex, c, dead, "a cut within a line", q)
		return
	}
	b := &cutNode{lex: n.lex, nl: n.nl, fresh: true, list: []int{k.prog.Start}, prev: n, c: -1}
	t2 := k.follow(b.list, flags, true)
	for _, pc := range t2 {
		if pc < 0 {
			k.condemn(n, lex, c, dead, "an empty match in "+lexName[n.lex], q)
			return
		}
	}
	advance(b, t2, dead, false)
}

// condemn goes on to a complete text in which something goes wrong: the threads that must not match decide whether there is one.
func (k *cutter) condemn(from *cutNode, lex []lexState, c rune, dead []int, what string, q *[]*cutNode) {
	if k.fails[what] != "" {
		return
	}
	d := uniq(k.step(dead, c))
	for _, l := range lex {
		*q = append(*q, &cutNode{lex: l, nl: c == '\n', dead: d, fail: what, prev: from, c: c})
	}
}

// subset compares sorted lists.
func subset(a, b []int) bool {
	for _, x := range a {
		for len(b) > 0 && b[0] < x {
			b = b[1:]
		}
		if len(b) == 0 || b[0] != x {
			return false
		}
	}
	return true
}

func uniq(xs []int) (out []int) {
	seen := map[int]bool{}
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Ints(out)
	return
}

// ---- the function that indents ----

const blanks = " \n"

func onlyBlanks(s string) bool { return strings.Trim(s, blanks) == "" }

// trimmed reads x as piece, cut at its ends by white space only.
func trimmed(x, piece *T) (right, ok bool) {
	for {
		x = stripConv(x)
		switch {
		case x == piece:
			return right, true
		case x.k == KApp && len(x.a) == 1 && (x.s == "strings.TrimSpace" || x.s == "bytes.TrimSpace"):
			right = true
		case x.k == KApp && len(x.a) == 2 && x.a[1].isStr() && onlyBlanks(x.a[1].str()) && strings.Contains(x.s, ".Trim"):
			switch x.s[strings.Index(x.s, ".")+1:] {
			case "TrimLeft", "TrimPrefix":
			case "Trim", "TrimRight", "TrimSuffix":
				right = true
			default:
				return false, false
			}
		default:
			return false, false
		}
		x = x.a[0]
	}
}

// emitted checks the text given for a piece.
func (r *Rep) emitted(e *Exec, st *St, facts []*T, emit []*T, piece *T) string {
	n, cut := 0, false
	tail := ""
	for i := range emit {
		for _, p := range flatText(e.resolve(st, emit[i])) {
			if p.isStr() {
				if !onlyBlanks(p.str()) {
					return fmt.Sprintf("%q is added to a piece", p.str())
				}
				tail += p.str()
				continue
			}
			right, ok := trimmed(p, piece)
			if !ok {
				return fmt.Sprintf("%s is written for a piece", clip(p.String(), 120))
			}
			n++
			cut, tail = right, ""
		}
	}
	switch {
	case n > 1:
		return "a piece is written twice"
	case n == 1 && cut && !strings.Contains(tail, "\n"):
		return "the line end of a piece is taken away"
	case n == 1 && tail != "" && !strings.HasSuffix(tail, "\n"):
		return "a piece does not end its line"
	case n == 1:
		return ""
	}
	if tail != "" && !strings.HasSuffix(tail, "\n") {
		return "a blank piece does not end its line"
	}
	// nothing of the piece is written: it has to be white space
	for _, f := range facts {
		found := false
		walkTerm(f, func(x *T) bool {
			if x.k == KApp && strings.Contains(x.s, ".Trim") {
				if _, ok := trimmed(x, piece); ok && (e.truth(st, mkEQ0(mkLen(x))) == 1 || e.truth(st, mkEq(x, mkStr(""))) == 1) {
					found = true
				}
			}
			return !found
		})
		if found {
			return ""
		}
	}
	for _, s := range []string{"\n", " ", "\r\n"} {
		if e.truth(st, mkEq(piece, mkStr(s))) == 1 {
			return ""
		}
	}
	return "a piece that need not be white space is left out"
}

func flatText(t *T) []*T {
	switch {
	case t.k == KCat || t.k == KUnit || t.k == KSeq:
		var out []*T
		for _, p := range t.a {
			out = append(out, flatText(p)...)
		}
		return out
	case t.k == KApp && t.s == "strings.Join" && len(t.a) == 2 && t.a[1].isStr() && t.a[1].str() == "":
		return flatText(t.a[0])
	}
	return []*T{t}
}

// pieces reads a list of matches of an expression in the text.
func (r *Rep) pieces(L, in *T) (pattern string, ended bool, msg string) {
	L = stripConv(L)
	ok := L.k == KApp && (strings.HasPrefix(L.s, "(*regexp.Regexp).FindAll") || strings.HasPrefix(L.s, "(*regexp.Regexp).ReplaceAll")) && len(L.a) == 3
	if !ok {
		return "", false, "the text is not cut by a regular expression but " + clip(L.String(), 120)
	}
	if strings.Contains(L.s, "FindAll") && !(L.a[2].isInt() && L.a[2].int() < 0) {
		return "", false, "not all matches are asked for"
	}
	re := L.a[0]
	if re.k != KApp || re.s != "regexp" || len(re.a) != 1 || !re.a[0].isStr() {
		return "", false, "the regular expression is not known: " + clip(re.String(), 120)
	}
	ps := flatText(stripConv(L.a[1]))
	tail := ""
	if len(ps) > 0 && ps[len(ps)-1].isStr() {
		tail = ps[len(ps)-1].str()
		ps = ps[:len(ps)-1]
	}
	if len(ps) != 1 || !onlyBlanks(tail) {
		return "", false, "what is cut is not the text given: " + clip(L.a[1].String(), 120)
	}
	if _, ok := trimmed(ps[0], in); !ok {
		return "", false, "what is cut is not the text given: " + clip(L.a[1].String(), 120)
	}
	return re.a[0].str(), strings.HasSuffix(tail, "\n"), ""
}

func (r *Rep) ruleIndent() {
	fn := r.prefixFn()
	name := fn.Name()
	e := r.exec()
	var args []*T
	var in *T
	for _, p := range fn.Params {
		a := mkSym(p.Name(), p.Type())
		args = append(args, a)
		if isStringType(p.Type()) && in == nil {
			in = a
		}
	}
	if in == nil {
		panic(anchorError("text parameter of " + name))
	}
	where := r.fnWhere(fn)
	outs := e.Call(fn, args, nil, newSt(), nil, nil)
	r.check(len(outs) > 0, "indent", name, where, "no path returns")
	patterns := map[string]bool{}
	for _, o := range outs {
		if o.kind != ORet {
			r.fail("indent", name+" panics", where, "the function panics when %s", clip(factsString(o.st.facts), 200))
			continue
		}
		path := clip(factsString(o.st.facts), 150)
		ps := flatText(e.resolve(o.st, o.val()))
		n := 0
		last := ""
		for _, p := range ps {
			switch {
			case p.isStr():
				r.check(onlyBlanks(p.str()), "indent", name+" "+p.str(), where, "%q is added to the text (%s)", p.str(), path)
				last = p.str()
				continue
			case p.k == KLoopAcc:
				n++
				r.indentLoop(e, &o, p, in, name, where, patterns)
			case p.k == KApp && strings.HasPrefix(p.s, "(*regexp.Regexp).ReplaceAll") && strings.HasSuffix(p.s, "Func"):
				n++
				r.indentFunc(e, &o, p, in, name, where, patterns)
			default:
				n++
				r.fail("indent", name+" text", where, "the text given back holds %s (%s)", clip(p.String(), 120), path)
			}
			last = "\n" // every piece ends its line
		}
		r.check(n <= 1, "indent", name+" once", where, "the text is written %d times (%s)", n, path)
		if n == 0 {
			// nothing of the text is written
			blank := e.truth(o.st, mkEQ0(mkLen(in))) == 1 || e.truth(o.st, mkEq(in, mkStr(""))) == 1 || r.noPieces(e, &o, in, patterns)
			r.check(blank, "indent", name+" drops", where, "the text is left out when %s", path)
		} else {
			r.check(strings.HasSuffix(last, "\n"), "indent", name+" end", where, "the indented text does not end with a line end (%s)", path)
		}
	}
	r.done("indent", e, name)
	for _, p := range sortedKeys(patterns) {
		k := &cutter{ended: true}
		pat := p
		if strings.HasPrefix(p, "?") {
			k.ended = false
		}
		pat = p[1:]
		k.prog = compileRe(pat)
		k.run()
		for _, what := range sortedKeys(k.fails) {
			r.fail("cuts", what, where, "the expression %s: %s, in the text %q", clip(pat, 60), what, k.fails[what])
		}
		for s := lxLine; s <= lxComment; s++ {
			r.pass("cuts", "texts within %s", lexName[s])
		}
		r.notes = append(r.notes, fmt.Sprintf("%d states of the product of lexer and matcher, %d character classes", k.nodes, len(k.alphabet())))
	}
	r.floor("cuts", 10)
	r.floor("indent", 3)
}

// noPieces: the path knows that there are no pieces; the text ends with a line end, which belongs to some piece.
func (r *Rep) noPieces(e *Exec, o *Outcome, in *T, patterns map[string]bool) bool {
	found := false
	for _, f := range o.st.facts {
		walkTerm(f, func(x *T) bool {
			if x.k == KApp && strings.HasPrefix(x.s, "(*regexp.Regexp).FindAll") {
				pat, ended, msg := r.pieces(x, in)
				if msg == "" && ended {
					// without pieces characters would be lost, which the cuts exclude
					patterns["="+pat] = true
					found = true
				}
			}
			return !found
		})
	}
	return found
}

func (r *Rep) notePieces(L, in *T, name, where string, patterns map[string]bool) bool {
	pat, ended, msg := r.pieces(L, in)
	if !r.check(msg == "", "indent", name+" pieces", where, "%s", msg) {
		return false
	}
	if ended {
		patterns["="+pat] = true
	} else {
		patterns["?"+pat] = true
	}
	return true
}

func (r *Rep) indentLoop(e *Exec, o *Outcome, acc, in *T, name, where string, patterns map[string]bool) {
	lp := acc.lp
	// the list walked: the one whose element at the counter is used
	var L *T
	for _, f := range append(append([]*T{}, lp.trans[0].facts...), lp.trans[0].emit[acc.cmp.key]...) {
		walkTerm(f, func(x *T) bool {
			if x.k == KApp && strings.HasPrefix(x.s, "(*regexp.Regexp).FindAll") {
				L = x
			}
			return L == nil
		})
	}
	if !r.check(L != nil, "indent", name+" loop", where, "the loop does not walk over the matches of a regular expression") {
		return
	}
	if !r.notePieces(L, in, name, where, patterns) {
		return
	}
	r.check(e.truth(o.st, mkLE(linSub(mkLen(L), lp.K))) == 1, "indent", name+" loop end", where, "the loop may end before the last piece")
	et := under(L.typ).(*types.Slice).Elem()
	piece := mkElem(L, lp.K, et)
	for _, t := range lp.trans {
		st := newSt()
		for _, f := range append(append([]*T{}, lp.heads[t.from].carry...), t.facts...) {
			e.assume(st, f)
		}
		r.check(e.truth(st, mkLE(linAddC(linSub(lp.K, mkLen(L)), 1))) == 1, "indent", name+" loop range", where, "the loop goes beyond the pieces")
		msg := r.emitted(e, st, t.facts, t.emit[acc.cmp.key], piece)
		r.check(msg == "", "indent", name+" piece", where, "%s (%s)", msg, clip(factsString(t.facts), 200))
	}
}

func (r *Rep) indentFunc(e *Exec, o *Outcome, app, in *T, name, where string, patterns map[string]bool) {
	if !r.notePieces(app, in, name, where, patterns) {
		return
	}
	fn, bind := closureOf(e, o.st, app.a[2])
	if !r.check(fn != nil && len(fn.Params) == 1, "indent", name+" function", where, "the function given to the replacement is not known") {
		return
	}
	piece := mkSym("piece", fn.Params[0].Type())
	for _, q := range e.Call(fn, []*T{piece}, bind, o.st.clone(), nil, nil) {
		msg := "it panics"
		if q.kind == ORet {
			msg = r.emitted(e, q.st, q.st.facts, []*T{q.val()}, piece)
		}
		r.check(msg == "", "indent", name+" piece", where, "%s (%s)", msg, clip(factsString(q.st.facts), 200))
	}
}

// ---- comments begin lines ----

const (
	atStart = 1 << iota // nothing was written
	atLine              // only blanks since the line began
	atMid
)

type lineWalk struct {
	r      *Rep
	e      *Exec
	st     *St
	begins map[string]bool // printers whose text may begin with a comment
	hit    bool            // a comment at the beginning of the text
	err    string
	what   string
}

func (w *lineWalk) comment(m int, what string) {
	if m&atStart != 0 {
		w.hit = true
	}
	if m&atMid != 0 && w.err == "" {
		w.err = what
	}
}

func (w *lineWalk) str(m int, s string) int {
	for _, c := range s {
		switch {
		case c == '\n':
			m = atLine
		case c == ' ':
		case c == '\t' || c == '\r':
			w.err = "white space other than blanks and line ends"
		case c == '#':
			w.comment(m, "\"#\"")
			m = atMid
		default:
			m = atMid
		}
	}
	return m
}

func (w *lineWalk) all(m int, ts []*T) int {
	for _, t := range ts {
		m = w.walk(m, t)
	}
	return m
}

func (w *lineWalk) walk(m int, t *T) int {
	t = stripConv(t)
	if (t.k == KApp || t.k == KLoopAcc) && w.e != nil && w.e.truth(w.st, mkLE(mkLen(t))) == 1 {
		return m // it is empty on this path
	}
	switch {
	case t.isStr():
		return w.str(m, t.str())
	case t.k == KCat || t.k == KUnit:
		return w.all(m, t.a)
	case t.k == KApp && t.s == "prefix":
		w.walk(atLine, t.a[0])
		return m | atLine
	case t.k == KApp && (t.s == "mapcat" || t.s == "mapseq"):
		for i := 0; i < 3; i++ {
			m |= w.walk(m, t.a[1])
		}
		return m
	case t.k == KSeq:
		return w.all(m, t.a)
	case t.k == KApp && t.s == "strings.Join" && len(t.a) == 2:
		var elems []*T
		walkTerm(t.a[0], func(x *T) bool {
			switch {
			case x.k == KUnit:
				elems = append(elems, x.a[0])
				return false
			case x.k == KLoopAcc:
				for _, tr := range x.lp.trans {
					for _, u := range tr.emit[x.cmp.key] {
						if u.k == KUnit {
							elems = append(elems, u.a[0])
						}
					}
				}
				return false
			}
			return true
		})
		out := m
		for i := 0; i < 3; i++ {
			for _, x := range elems {
				y := w.walk(m, x)
				out |= y
				m |= w.walk(y, t.a[1])
			}
		}
		return out
	case t.k == KLoopAcc:
		lp, key := t.lp, t.cmp.key
		in := map[int]int{0: m}
		for again := true; again; {
			again = false
			for _, tr := range lp.trans {
				if in[tr.from] == 0 {
					continue
				}
				o := w.all(in[tr.from], tr.emit[key])
				if o|in[tr.to] != in[tr.to] {
					in[tr.to] |= o
					again = true
				}
			}
		}
		if in[t.hi] == 0 {
			return m
		}
		return in[t.hi]
	case t.k == KApp && strings.HasPrefix(t.s, "m:") && len(t.a) == 1:
		method, typ := t.s[2:], t.a[0].typ
		if method == "CommentBlock" || w.r.isCommentBlock(typ) || sameType(typ, w.r.p.typ("ast", "Comment")) {
			w.comment(m, t.String())
			return m | atLine
		}
		if w.begins[w.r.printerKey(typ, method)] {
			w.comment(m, t.String())
		}
		return atMid
	}
	return atMid
}

func (r *Rep) printerKey(t types.Type, method string) string {
	if pt := ptrElem(t); pt != nil {
		t = pt
	}
	return shortType(t) + "." + method
}

func (r *Rep) ruleCommentLines() {
	begins := map[string]bool{}
	// the plugin of a plugin attribute has no comment of its own: the white space before it belongs to the attribute
	skip := map[string]bool{"PluginAttribute.ValueString": true, "CommentBlock.String": true}
	type run struct {
		s    printSpec
		fn   *ssa.Function
		x    *T
		e    *Exec
		outs []Outcome
	}
	var runs []run
	for _, s := range printSpecs {
		if skip[s.typ+"."+s.method] {
			continue
		}
		e, fn, x, outs := r.printNode(s)
		runs = append(runs, run{s, fn, x, e, outs})
	}
	errs := map[string]string{}
	for again := true; again; {
		again = false
		errs = map[string]string{}
		for _, q := range runs {
			w := &lineWalk{r: r, begins: begins}
			for _, o := range q.outs {
				if o.kind == ORet {
					w.e, w.st = q.e, o.st
					w.walk(atStart, q.e.resolve(o.st, o.val()))
				}
			}
			errs[q.s.typ+"."+q.s.method] = w.err
			key := r.printerKey(q.x.typ, q.s.method)
			if w.hit && !begins[key] {
				begins[key] = true
				again = true
				for _, ifn := range []string{"BranchOrPlugin", "Expression", "Attribute"} {
					it := needType(r.p.typ("ast", ifn), "type ast."+ifn)
					if types.Implements(q.x.typ, it.Underlying().(*types.Interface)) || types.Implements(types.NewPointer(q.x.typ), it.Underlying().(*types.Interface)) {
						begins[r.printerKey(it, q.s.method)] = true
					}
				}
			}
		}
	}
	for _, q := range runs {
		name := q.s.typ + "." + q.s.method
		r.check(errs[name] == "", "comment-line", name, r.fnWhere(q.fn), "%s writes a comment in the middle of a line, where its text is taken for code: %s", name, clip(errs[name], 150))
		r.done("comment-line", q.e, name)
	}
	r.floor("comment-line", 30)
}

// closureOf gives the function of a function value and what it captures.
func closureOf(e *Exec, st *St, t *T) (*ssa.Function, []*T) {
	t = stripConv(e.resolve(st, t))
	switch t.k {
	case KFunc:
		return t.fn, nil
	case KClosure:
		return t.fn, t.a
	}
	return nil, nil
}

func init() {
	register("C11", "the function that indents is interpreted symbolically: it must cut the text, completed with a line end, into the matches of a regular expression and give back every match intact with only white space around it; the cuts are decided for every text of the lexical language of the printers by exploring the product of a lexer of that language with the ordered thread list of the leftmost-first matcher (no character outside the matches but line ends, no cut within a token or within a line); and the printers' symbolic texts have comments at the beginning of lines only", func(r *Rep) {
		r.ruleIndent()
		r.ruleCommentLines()
	})
}
