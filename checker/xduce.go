package main

// Extraction of string functions as finite transducers.
//
// A function over a text is interpreted on an unknown input that is revealed one
// character class at a time. At every loop head the state is abstracted to what can
// influence the rest of the run (texts relative to the input read so far and to the
// specified output, positions relative to both, a window of the last characters), and
// runs reaching an abstract state already seen are merged. If the exploration closes,
// the set of abstract states and the edges between them are a transducer that covers
// every input, and each of its final states was compared with the specification.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const xInvalid = maxRune + 1 // a byte that is no part of a valid encoding (rune mode)

type xunit struct {
	id  int
	set runeSet
}

type xsym struct {
	k  byte // 'c' constant byte, 'u' whole unit, 'r' rest of the input from unit n, 'h' a byte that is not the unit itself
	c  byte
	u  *xunit
	n  int
	at int // input read when the symbol was made
}

type xtext []xsym

type (
	mint struct {
		n   int64
		pos bool // grew in a loop
	}
	mchr struct {
		u    *xunit
		byt  bool // read as a byte
		rerr bool
	}
	mlen struct {
		t   xtext
		off int64
	}
	mneg1  struct{} // an index that was not found
	mfound struct{} // an index that was found
	mnil   struct{}
	merr   struct{ s string }
	mtuple []any
	mfn    struct {
		fn *ssa.Function
		b  []any
	}
	mterm struct{ t *T } // a value known to the main interpreter (regular expression, map)
	mrepl struct{ pairs []xtext }
	mptr  struct{ c *xcell }
	melem struct {
		a *xarr
		i int
	}
	mslice struct {
		a      *xarr
		lo, hi int // hi<0: open
	}
	miter struct {
		t   xtext
		pos int
	}
	miface struct{ v any }
	mglob  struct{ g *ssa.Global }
)

type xcell struct {
	v     any
	build bool
}

type xarr struct {
	t     xtext
	el    []any
	bytes bool
	stale bool
}

type xmonitor struct {
	name string
	prog *syntax.Prog
	set  map[int]bool
	anch bool
	want bool
	hit  bool
	inv  bool // watches for invalid encodings instead of a pattern
	n    int
}

// xspec is the specified transducer.
type xspec struct {
	start string
	step  func(m *xmachine, st int, u *xunit) (int, xtext)
	final func(m *xmachine, st int) (kind string, tail xtext)
}

type xframe struct {
	fn   *ssa.Function
	env  map[ssa.Value]any
	blk  *ssa.BasicBlock
	in   ssa.Instruction
	bind []any
}

type xmachine struct {
	r        *Rep
	byteMode bool
	tape     []*xunit
	ended    bool
	nH       int // input read at the last head
	prefix   []int
	choices  []int
	alts     []int
	spec     *xspec
	sst      int
	spos     int
	w        xtext
	mons     []*xmonitor
	track    []*xmonitor
	win      int
	frames   []*xframe
	seen     map[string]bool
	steps    int
	states   int
	runs     int
}

type xstop struct{ why string } // merged, infeasible
type xrestart struct{ mo *xmonitor }

func (mo *xmonitor) clone() *xmonitor {
	c := *mo
	c.set = map[int]bool{}
	for k := range mo.set {
		c.set[k] = true
	}
	return &c
}

type xwindow struct{} // a character behind the window was read

type xundecided string
type xpanic string

func (m *xmachine) und(f string, a ...any) { panic(xundecided(fmt.Sprintf(f, a...))) }

func (m *xmachine) choose(n int) int {
	i := len(m.choices)
	c := 0
	if i < len(m.prefix) {
		c = m.prefix[i]
	}
	m.choices = append(m.choices, c)
	m.alts = append(m.alts, n)
	return c
}

func (m *xmachine) maxSym() rune {
	if m.byteMode {
		return 255
	}
	return xInvalid
}

func setAnd(a, b runeSet) runeSet {
	var out runeSet
	for _, x := range a {
		for _, y := range b {
			lo, hi := max(x[0], y[0]), min(x[1], y[1])
			if lo <= hi {
				out = append(out, [2]rune{lo, hi})
			}
		}
	}
	return out.norm()
}

func (m *xmachine) compl(s runeSet) runeSet {
	s = append(runeSet{}, s...).norm()
	var out runeSet
	next := rune(0)
	for _, r := range s {
		if r[0] > next {
			out = append(out, [2]rune{next, r[0] - 1})
		}
		next = r[1] + 1
	}
	if next <= m.maxSym() {
		out = append(out, [2]rune{next, m.maxSym()})
	}
	return out
}

// test splits on the membership of a unit in a set.
func (m *xmachine) test(u *xunit, s runeSet) bool {
	in, out := setAnd(u.set, s), setAnd(u.set, m.compl(s))
	switch {
	case len(out) == 0:
		return true
	case len(in) == 0:
		return false
	}
	if m.choose(2) == 0 {
		u.set = in
		return true
	}
	u.set = out
	return false
}

func one1(c rune) runeSet { return runeSet{{c, c}} }

var setASCII = runeSet{{0, 127}}

// force reads one more unit of the input; false at its end.
func (m *xmachine) force() bool {
	if m.ended {
		return false
	}
	if len(m.tape) > 60 {
		m.und("the loop keeps more of the input apart than the analysis can follow")
	}
	if m.choose(2) == 1 {
		m.ended = true
		for _, mo := range m.mons {
			if mo.final() != mo.want {
				panic(xstop{"infeasible"})
			}
		}
		return false
	}
	u := &xunit{id: len(m.tape), set: runeSet{{0, m.maxSym()}}}
	m.tape = append(m.tape, u)
	for _, mo := range append(append([]*xmonitor{}, m.track...), m.mons...) {
		mo.step(m, xsym{k: 'u', u: u})
	}
	return true
}

// norm replaces the part of a rest symbol that was read.
func (m *xmachine) norm(t xtext) xtext {
	for i, s := range t {
		if s.k == 'r' && (s.n < len(m.tape) || m.ended) {
			var out xtext
			for _, s := range t[:i] {
				out = append(out, s)
			}
			for j := s.n; j < len(m.tape); j++ {
				out = append(out, xsym{k: 'u', u: m.tape[j], at: j + 1})
			}
			if !m.ended {
				out = append(out, xsym{k: 'r', n: len(m.tape)})
			}
			return append(out, m.norm(t[i+1:])...)
		}
	}
	return t
}

// has tells whether the text has an element at index i.
func (m *xmachine) has(t xtext, i int) bool {
	if i < 0 {
		return true
	}
	for {
		t = m.norm(t)
		for j, s := range t {
			if s.k == 'r' {
				break
			}
			if j == i {
				return true
			}
		}
		k := -1
		for j, s := range t {
			if s.k == 'r' {
				k = j
				break
			}
		}
		if k < 0 {
			return false
		}
		m.force()
	}
}

func (m *xmachine) at(t xtext, i int) xsym {
	if i < 0 || !m.has(t, i) {
		panic(xpanic("index out of range"))
	}
	t = m.norm(t)
	s := t[i]
	idx := s.at - 1
	if s.k == 'u' || s.k == 'h' {
		idx = s.u.id
	}
	if idx < m.nH-m.win && s.at > 0 {
		panic(xwindow{})
	}
	return s
}

func constText(s string) xtext {
	var t xtext
	for i := 0; i < len(s); i++ {
		t = append(t, xsym{k: 'c', c: s[i]})
	}
	return t
}

func (m *xmachine) lit(s string) xtext {
	t := constText(s)
	for i := range t {
		t[i].at = len(m.tape)
	}
	return t
}

func cat(a ...xtext) xtext {
	var out xtext
	for _, t := range a {
		out = append(out, t...)
	}
	return out
}

// full expands a text; nil if a rest remains that is not its last part.
func (m *xmachine) full(t xtext) xtext { return m.norm(t) }

func (m *xmachine) constOf(t xtext) (string, bool) {
	t = m.norm(t)
	var b []byte
	for _, s := range t {
		switch {
		case s.k == 'c':
			b = append(b, s.c)
		case s.k == 'u' && len(s.u.set) == 1 && s.u.set[0][0] == s.u.set[0][1] && s.u.set[0][0] < 128:
			b = append(b, byte(s.u.set[0][0]))
		default:
			return "", false
		}
	}
	return string(b), true
}

func symEq(a, b xsym) bool {
	if a.k == 'r' || b.k == 'r' {
		return a.k == b.k && a.n == b.n
	}
	if a.k == 'h' || b.k == 'h' {
		return false
	}
	if a.k == 'u' && b.k == 'u' {
		if a.u == b.u {
			return true
		}
	}
	ca, oka := symConst(a)
	cb, okb := symConst(b)
	return oka && okb && ca == cb
}

func symConst(s xsym) (byte, bool) {
	switch s.k {
	case 'c':
		return s.c, true
	case 'u':
		if len(s.u.set) == 1 && s.u.set[0][0] == s.u.set[0][1] && s.u.set[0][0] < 128 {
			return byte(s.u.set[0][0]), true
		}
	}
	return 0, false
}

func textEq(a, b xtext) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !symEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func setStr(s runeSet) string {
	var b strings.Builder
	for _, r := range s {
		f := func(c rune) string {
			switch {
			case c == xInvalid:
				return "INV"
			case c >= 127:
				return fmt.Sprintf("x%X", c)
			}
			return fmt.Sprintf("%q", c)
		}
		b.WriteString(f(r[0]))
		if r[1] != r[0] {
			b.WriteString("-" + f(r[1]))
		}
	}
	return "[" + b.String() + "]"
}

func (m *xmachine) showText(t xtext) string {
	var b strings.Builder
	for _, s := range t {
		switch s.k {
		case 'c':
			fmt.Fprintf(&b, "%s", strings.Trim(fmt.Sprintf("%q", string(rune(s.c))), `"`))
		case 'u':
			if c, ok := symConst(s); ok {
				fmt.Fprintf(&b, "%s", strings.Trim(fmt.Sprintf("%q", string(rune(c))), `"`))
			} else {
				fmt.Fprintf(&b, "<%d>", s.u.id)
			}
		case 'h':
			b.WriteString("<byte>")
		case 'r':
			b.WriteString("...")
		}
	}
	return b.String()
}

func (m *xmachine) showTape() string {
	var b strings.Builder
	for _, u := range m.tape {
		if c, ok := symConst(xsym{k: 'u', u: u}); ok {
			fmt.Fprintf(&b, "%s", strings.Trim(fmt.Sprintf("%q", string(rune(c))), `"`))
		} else {
			fmt.Fprintf(&b, "<%d:%s>", u.id, clip(setStr(u.set), 60))
		}
	}
	return b.String()
}

// ---- monitors -------------------------------------------------------------

func newMonitor(re string, want bool) *xmonitor {
	p := compileRe(re)
	mo := &xmonitor{name: re, prog: p, want: want, set: map[int]bool{}}
	return mo
}

func compileRe(re string) *syntax.Prog {
	x, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		panic(xundecided("regular expression " + re))
	}
	p, err := syntax.Compile(x.Simplify())
	if err != nil {
		panic(xundecided("regular expression " + re))
	}
	return p
}

// closure follows the empty instructions; begin/end tell the place in the text.
func (mo *xmonitor) closure(in map[int]bool, begin, end bool) map[int]bool {
	out := map[int]bool{}
	var f func(pc int)
	f = func(pc int) {
		if out[pc] {
			return
		}
		out[pc] = true
		i := &mo.prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			f(int(i.Out))
			f(int(i.Arg))
		case syntax.InstCapture, syntax.InstNop:
			f(int(i.Out))
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(i.Arg)
			ok := true
			if e&syntax.EmptyBeginText != 0 && !begin {
				ok = false
			}
			if e&syntax.EmptyEndText != 0 && !end {
				ok = false
			}
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				panic(xundecided("line or word anchors in a regular expression"))
			}
			if ok {
				f(int(i.Out))
			}
		case syntax.InstMatch:
			mo.hit = true
		}
	}
	for pc := range in {
		f(pc)
	}
	return out
}

func (mo *xmonitor) begin() {
	mo.set = mo.closureKeep(map[int]bool{mo.prog.Start: true}, mo.n == 0)
}

func (mo *xmonitor) closureKeep(in map[int]bool, begin bool) map[int]bool {
	// positions stay as they are; anchors at the end are retried in final
	return mo.closure(in, begin, false)
}

func instSet(i *syntax.Inst, m *xmachine) (runeSet, bool) {
	var s runeSet
	switch i.Op {
	case syntax.InstRune1:
		s = one1(i.Rune[0])
	case syntax.InstRuneAny:
		s = runeSet{{0, xInvalid}}
	case syntax.InstRuneAnyNotNL:
		s = runeSet{{0, 9}, {11, xInvalid}}
	case syntax.InstRune:
		if len(i.Rune) == 1 {
			s = one1(i.Rune[0])
		}
		for k := 0; k+1 < len(i.Rune); k += 2 {
			s = append(s, [2]rune{i.Rune[k], i.Rune[k+1]})
		}
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			for _, r := range append(runeSet{}, s...) {
				for c := r[0]; c <= r[1] && c < 128; c++ {
					if c >= 'a' && c <= 'z' {
						s = append(s, [2]rune{c - 32, c - 32})
					}
					if c >= 'A' && c <= 'Z' {
						s = append(s, [2]rune{c + 32, c + 32})
					}
				}
			}
		}
		s = s.norm()
		if s.has(utf8.RuneError) {
			s = append(s, [2]rune{xInvalid, xInvalid}).norm()
		}
	default:
		return nil, false
	}
	return s, true
}

func (m *xmachine) symIn(s xsym, set runeSet) bool {
	switch s.k {
	case 'c':
		if s.c >= 128 {
			m.und("pattern applied to a constant that is not ASCII")
		}
		return set.has(rune(s.c))
	case 'u':
		if m.byteMode && !m.test(s.u, setASCII) {
			m.und("pattern applied to single bytes")
		}
		return m.test(s.u, set)
	}
	m.und("pattern applied to part of a character")
	return false
}

func (mo *xmonitor) step(m *xmachine, s xsym) {
	if mo.inv {
		if s.k == 'u' && m.byteMode {
			m.und("encoding checked on single bytes")
		}
		if !mo.hit && s.k == 'u' && m.test(s.u, one1(xInvalid)) {
			mo.hit = true
		}
		return
	}
	mo.begin0()
	if mo.hit {
		return
	}
	next := map[int]bool{}
	var pcs []int
	for pc := range mo.set {
		pcs = append(pcs, pc)
	}
	sort.Ints(pcs)
	for _, pc := range pcs {
		i := &mo.prog.Inst[pc]
		if set, ok := instSet(i, m); ok && m.symIn(s, set) {
			next[int(i.Out)] = true
		}
	}
	mo.n++
	next[mo.prog.Start] = true // unanchored: may start at any position
	mo.set = mo.closure(next, false, false)
}

func (mo *xmonitor) begin0() {
	if mo.inv {
		return
	}
	if mo.n == 0 && len(mo.set) == 0 {
		mo.set = mo.closure(map[int]bool{mo.prog.Start: true}, true, false)
	}
}

func (mo *xmonitor) final() bool {
	mo.begin0()
	if mo.hit || mo.inv {
		return mo.hit
	}
	in := map[int]bool{}
	for pc := range mo.set {
		in[pc] = true
	}
	c := &xmonitor{prog: mo.prog}
	c.closure(in, mo.n == 0, true)
	return c.hit
}

func (mo *xmonitor) key() string {
	mo.begin0()
	if mo.hit || mo.inv {
		return fmt.Sprintf("hit %v/%v/%s", mo.hit, mo.want, mo.name)
	}
	var pcs []int
	for pc := range mo.set {
		pcs = append(pcs, pc)
	}
	sort.Ints(pcs)
	return fmt.Sprintf("%v/%v/%v/%s", pcs, mo.n == 0, mo.want, mo.name)
}

// predicate decides whether a text matches a pattern, guessing for what is not read yet.
func (m *xmachine) predicate(re string, t xtext) bool {
	return m.watch(newMonitor(re, false), t)
}

// watch decides a pattern on a text. What was read already is decided by a monitor that
// runs from the start of the input: if there is none yet, the exploration starts again with it.
func (m *xmachine) watch(mo *xmonitor, t xtext) bool {
	t = m.norm(t)
	if m.nH > m.win {
		k := len(t)
		if t[k-1].k == 'r' {
			k--
		}
		if k != len(m.tape) {
			m.und("a pattern is applied to a text that was read before")
		}
		for i, s := range t[:k] {
			if s.k != 'u' || s.u != m.tape[i] {
				m.und("a pattern is applied to a text that was read before")
			}
		}
		for _, tr := range m.track {
			if tr.name == mo.name {
				if m.ended {
					return tr.final()
				}
				g := tr.clone()
				g.want = m.choose(2) == 0
				m.mons = append(m.mons, g)
				return g.want
			}
		}
		panic(xrestart{mo})
	}
	for i, s := range t {
		if s.k == 'r' {
			if i != len(t)-1 {
				// a constant suffix after the rest: not supported
				m.und("a pattern is applied to a composed text")
			}
			if m.choose(2) == 0 {
				mo.want = true
			}
			m.mons = append(m.mons, mo)
			return mo.want
		}
		mo.step(m, s)
	}
	return mo.final()
}

// matchAt runs the backtracking matcher at index i and returns the end of the match.
func (m *xmachine) matchAt(p *syntax.Prog, t xtext, i int) (int, bool) {
	var f func(pc, j, d int) (int, bool)
	f = func(pc, j, d int) (int, bool) {
		if d > 200 || j > i+24 {
			m.und("a pattern looks further ahead than the analysis can follow")
		}
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			return j, true
		case syntax.InstFail:
			return 0, false
		case syntax.InstAlt, syntax.InstAltMatch:
			if e, ok := f(int(in.Out), j, d+1); ok {
				return e, true
			}
			return f(int(in.Arg), j, d+1)
		case syntax.InstCapture, syntax.InstNop:
			return f(int(in.Out), j, d+1)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				m.und("line or word anchors in a regular expression")
			}
			if e&syntax.EmptyBeginText != 0 && j != 0 || e&syntax.EmptyEndText != 0 && m.has(t, j) {
				return 0, false
			}
			return f(int(in.Out), j, d+1)
		}
		set, ok := instSet(in, m)
		if !ok {
			m.und("regular expression instruction")
		}
		if !m.has(t, j) || !m.symIn(m.at(t, j), set) {
			return 0, false
		}
		return f(int(in.Out), j+1, d+1)
	}
	return f(p.Start, i, 0)
}

// scan copies a text, replacing what match finds at each place.
func (m *xmachine) scan(name string, t xtext, match func(t xtext, i int) (int, func() xtext, bool)) xtext {
	var out xtext
	i := 0
	for {
		m.head(name, t, mint{int64(i), true}, out)
		if end, f, ok := match(t, i); ok {
			if end == i {
				m.und("%s matches the empty text", name)
			}
			out = cat(out, f())
			i = end
			continue
		}
		if !m.has(t, i) {
			return out
		}
		out = append(append(xtext{}, out...), m.at(t, i))
		i++
	}
}

func (m *xmachine) sub(t xtext, lo, hi int) xtext {
	if lo < 0 || lo > 0 && !m.has(t, lo-1) {
		panic(xpanic("slice out of range"))
	}
	if hi >= 0 {
		if hi < lo || hi > 0 && !m.has(t, hi-1) {
			panic(xpanic("slice out of range"))
		}
	}
	t = m.norm(t)
	if hi < 0 {
		return append(xtext{}, t[lo:]...)
	}
	return append(xtext{}, t[lo:hi]...)
}

// ---- abstraction at loop heads ---------------------------------------------

func (m *xmachine) syncSpec() {
	for m.spos < len(m.tape) {
		st, out := m.spec.step(m, m.sst, m.tape[m.spos])
		m.sst = st
		for i := range out {
			if out[i].at == 0 {
				out[i].at = m.spos + 1
			}
		}
		m.w = append(append(xtext{}, m.w...), out...)
		m.spos++
	}
}

func (m *xmachine) intKey(n int64) string {
	var p []string
	if n <= 3 {
		p = append(p, fmt.Sprintf("=%d", n))
	}
	if d := n - int64(len(m.tape)); d >= -6 && d <= 6 {
		p = append(p, fmt.Sprintf("V%+d", d))
	}
	if d := n - int64(len(m.w)); d >= -6 && d <= 6 {
		p = append(p, fmt.Sprintf("W%+d", d))
	}
	if len(p) == 0 {
		return fmt.Sprintf("#%d", n)
	}
	return strings.Join(p, ",")
}

func (m *xmachine) idxKey(i int) string {
	if i == 0 {
		return "0"
	}
	return m.intKey(int64(i))
}

func (m *xmachine) symKey(s xsym) string {
	switch s.k {
	case 'c':
		return fmt.Sprintf("c%02x", s.c)
	case 'u':
		return fmt.Sprintf("u-%d", len(m.tape)-s.u.id)
	case 'h':
		return "h"
	}
	return fmt.Sprintf("r+%d", s.n-len(m.tape))
}

func (m *xmachine) textKey(t xtext) string {
	t = m.norm(t)
	tail := ""
	if n := len(t); n > 0 && t[n-1].k == 'r' {
		tail = "+rest"
		t = t[:n-1]
	}
	var v xtext
	for _, u := range m.tape {
		v = append(v, xsym{k: 'u', u: u})
	}
	// W after m units followed by raw input
	bases := []struct {
		n string
		t xtext
	}{{"W", m.w}, {"V", v}}
	for d := 1; d <= 3 && d <= len(v); d++ {
		// the specified output without the last d units
		w := m.wUpTo(len(v) - d)
		bases = append(bases, struct {
			n string
			t xtext
		}{fmt.Sprintf("W-%d·V", d), cat(w, v[len(v)-d:])})
	}
	// t is lead ++ base[drop:len-cut] ++ extra, with the fewest deviations
	for cost := 0; cost <= 5; cost++ {
		for _, b := range bases {
			for lead := 0; lead <= 2 && lead <= cost && lead <= len(t); lead++ {
				for drop := 0; drop <= 2 && lead+drop <= cost && drop <= len(b.t); drop++ {
					for cut := 0; cut <= 3 && lead+drop+cut <= cost && drop+cut < len(b.t); cut++ {
						c := b.t[drop : len(b.t)-cut]
						extra := len(t) - lead - len(c)
						if extra < 0 || extra != cost-lead-drop-cut || extra > 3 || !textEq(t[lead:lead+len(c)], c) {
							continue
						}
						var p []string
						for _, s := range t[:lead] {
							p = append(p, "<"+m.symKey(s))
						}
						for _, s := range t[lead+len(c):] {
							p = append(p, m.symKey(s))
						}
						return fmt.Sprintf("%s[%d:-%d]+{%s}%s", b.n, drop, cut, strings.Join(p, " "), tail)
					}
				}
			}
		}
	}
	var p []string
	for _, s := range t {
		p = append(p, m.symKey(s))
	}
	return "{" + strings.Join(p, " ") + "}" + tail
}

func (m *xmachine) wUpTo(n int) xtext {
	var out xtext
	for _, s := range m.w {
		if s.at <= n {
			out = append(out, s)
		}
	}
	return out
}

func (m *xmachine) valKey(v any, ids map[any]int) string {
	ref := func(p any) (string, bool) {
		if n, ok := ids[p]; ok {
			return fmt.Sprintf("@%d", n), true
		}
		ids[p] = len(ids)
		return fmt.Sprintf("@%d", ids[p]), false
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case mint:
		if !x.pos {
			return fmt.Sprintf("=%d", x.n)
		}
		return m.intKey(x.n)
	case mchr:
		return fmt.Sprintf("chr(%s%s,%v,%v)", m.symKey(xsym{k: 'u', u: x.u}), setStr(x.u.set), x.byt, x.rerr)
	case mlen:
		return "len(" + m.textKey(x.t) + fmt.Sprintf("%+d)", x.off)
	case xtext:
		return m.textKey(x)
	case bool:
		return fmt.Sprint(x)
	case mtuple:
		var p []string
		for _, y := range x {
			p = append(p, m.valKey(y, ids))
		}
		return "(" + strings.Join(p, ",") + ")"
	case mptr:
		s, done := ref(x.c)
		if done {
			return s
		}
		return s + "{" + m.valKey(x.c.v, ids) + "}"
	case mslice:
		s, done := ref(x.a)
		lo, hi := m.idxKey(x.lo), "open"
		if x.hi >= 0 {
			hi = m.idxKey(x.hi)
		}
		s += "[" + lo + ":" + hi + "]"
		if done {
			return s
		}
		return s + m.arrKey(x.a, ids)
	case melem:
		s, done := ref(x.a)
		s += "[" + m.idxKey(x.i) + "]"
		if done {
			return s
		}
		return s + m.arrKey(x.a, ids)
	case *miter:
		return "iter(" + m.textKey(x.t) + "," + m.intKey(int64(x.pos)) + ")"
	case *xcell:
		return m.valKey(mptr{x}, ids)
	case miface:
		return "i:" + m.valKey(x.v, ids)
	case mfn:
		s := "fn:" + x.fn.String()
		for _, b := range x.b {
			s += m.valKey(b, ids)
		}
		return s
	case mterm:
		return fmt.Sprintf("term%d", x.t.id)
	case mglob:
		return "g:" + x.g.Name()
	}
	return fmt.Sprintf("%T%v", v, v)
}

func (m *xmachine) arrKey(a *xarr, ids map[any]int) string {
	if a.stale {
		return "stale"
	}
	if a.bytes {
		return m.textKey(a.t)
	}
	var p []string
	for _, y := range a.el {
		p = append(p, m.valKey(y, ids))
	}
	return "[" + strings.Join(p, ",") + "]"
}

// head is called at loop heads: it merges runs in the same abstract state.
func (m *xmachine) head(name string, extra ...any) {
	m.syncSpec()
	var b strings.Builder
	ids := map[any]int{}
	fmt.Fprintf(&b, "%s|", name)
	for _, v := range extra {
		b.WriteString(m.valKey(v, ids) + ";")
	}
	for i, f := range m.frames {
		fmt.Fprintf(&b, "|%s#%d", f.fn.Name(), f.blk.Index)
		if i < len(m.frames)-1 || name != "block" {
			fmt.Fprintf(&b, "@%p", f.in)
		}
		for _, v := range m.liveAt(f, i == len(m.frames)-1 && name == "block") {
			fmt.Fprintf(&b, ",%s=%s", v.Name(), m.valKey(f.env[v], ids))
		}
	}
	fmt.Fprintf(&b, "|spec %d n%d ended %v W%+d", m.sst, min(len(m.tape), 3), m.ended, 0)
	for k := max(0, len(m.tape)-m.win); k < len(m.tape); k++ {
		b.WriteString(setStr(m.tape[k].set))
	}
	for _, mo := range append(append([]*xmonitor{}, m.track...), m.mons...) {
		b.WriteString("|mon " + mo.key())
	}
	m.nH = len(m.tape)
	if len(m.choices) < len(m.prefix) {
		return
	}
	k := b.String()
	if os.Getenv("XDEBUG") != "" {
		fmt.Println("HEAD", k)
	}
	if m.seen[k] {
		panic(xstop{"merged"})
	}
	m.seen[k] = true
	m.states++
	if m.states > 4000 {
		m.und("more than 4000 abstract states")
	}
}

var liveCache = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}

func liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := liveCache[fn]; ok {
		return l
	}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					cur[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						delete(cur, ph)
						if isVar(ph.Edges[pi]) {
							cur[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isVar(*op) {
						cur[*op] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					cur[ph] = true // kept: phis are part of the head state
				}
			}
			for v := range cur {
				if !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
		}
	}
	liveCache[fn] = live
	return live
}

func (m *xmachine) liveAt(f *xframe, head bool) []ssa.Value {
	live := liveIn(f.fn)
	cur := map[ssa.Value]bool{}
	if head {
		for v := range live[f.blk] {
			cur[v] = true
		}
	} else {
		// after the instruction being executed
		for v := range f.env {
			used := false
			for _, s := range f.blk.Succs {
				if live[s][v] {
					used = true
				}
			}
			if v.Referrers() != nil {
				after := false
				for _, in := range f.blk.Instrs {
					if after {
						for _, op := range in.Operands(nil) {
							if *op == v {
								used = true
							}
						}
					}
					if in == f.in {
						after = true
						for _, op := range in.Operands(nil) {
							if *op == v {
								used = true
							}
						}
					}
				}
				for _, s := range f.blk.Succs {
					for _, in := range s.Instrs {
						if ph, ok := in.(*ssa.Phi); ok {
							for _, e := range ph.Edges {
								if e == v {
									used = true
								}
							}
						}
					}
				}
			}
			if used {
				cur[v] = true
			}
		}
	}
	var out []ssa.Value
	for v := range cur {
		if _, ok := f.env[v]; ok {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// ---- interpretation ----------------------------------------------------------

func (m *xmachine) call(fn *ssa.Function, args []any, bind []any) any {
	if len(fn.Blocks) == 0 {
		m.und("call of %s, which has no source", fn)
	}
	if len(m.frames) > 20 {
		m.und("recursion in %s", fn)
	}
	m.r.funcs[fn.String()] = true
	f := &xframe{fn: fn, env: map[ssa.Value]any{}, bind: bind}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bind[i]
	}
	m.frames = append(m.frames, f)
	defer func() { m.frames = m.frames[:len(m.frames)-1] }()
	var prev *ssa.BasicBlock
	blk := fn.Blocks[0]
	for {
		f.blk = blk
		// phis
		if prev != nil {
			pi := 0
			for i, p := range blk.Preds {
				if p == prev {
					pi = i
				}
			}
			tmp := map[*ssa.Phi]any{}
			for _, in := range blk.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				tmp[ph] = m.val(f, ph.Edges[pi])
			}
			for ph, v := range tmp {
				f.env[ph] = v
			}
			isHead := false
			for _, p := range blk.Preds {
				if blk.Dominates(p) {
					isHead = true
				}
			}
			if isHead {
				f.in = blk.Instrs[0]
				for v, x := range f.env {
					if n, ok := x.(mint); ok {
						if _, isPhi := v.(*ssa.Phi); isPhi {
							n.pos = true
							f.env[v] = n
						}
					}
				}
				m.head("block")
			}
		}
		var next *ssa.BasicBlock
		for _, in := range blk.Instrs {
			m.steps++
			if m.steps > 20000 {
				m.und("step limit")
			}
			f.in = in
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				b, ok := m.val(f, x.Cond).(bool)
				if !ok {
					m.und("condition %s in %s", x.Cond, fn.Name())
				}
				if b {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Return:
				var rs mtuple
				for _, r := range x.Results {
					rs = append(rs, m.val(f, r))
				}
				switch len(rs) {
				case 0:
					return nil
				case 1:
					return rs[0]
				}
				return rs
			case *ssa.Panic:
				panic(xpanic("panic"))
			default:
				m.instr(f, in)
			}
		}
		if next == nil {
			m.und("control flow in %s", fn.Name())
		}
		prev, blk = blk, next
	}
}

func (m *xmachine) val(f *xframe, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isStringType(x.Type()) {
				return xtext{}
			}
			return mnil{}
		}
		switch x.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(x.Value)
			return mint{n, false}
		case constant.Bool:
			return constant.BoolVal(x.Value)
		case constant.String:
			return m.lit(constant.StringVal(x.Value))
		}
		m.und("constant %s", x)
	case *ssa.Function:
		return mfn{fn: x}
	case *ssa.Global:
		return mglob{x}
	case *ssa.Builtin:
		return x
	}
	r, ok := f.env[v]
	if !ok {
		m.und("value %s in %s", v.Name(), f.fn.Name())
	}
	return r
}

func (m *xmachine) fromTerm(t *T) any {
	switch {
	case t.isStr():
		return m.lit(t.str())
	case t.isInt():
		return mint{t.int(), false}
	case t.isBoolConst():
		return constant.BoolVal(t.cv)
	case t.isNil():
		return mnil{}
	case t.k == KFunc:
		return mfn{fn: t.fn}
	}
	return mterm{t}
}

func globalTerm(g *ssa.Global) *T {
	return mk(&T{k: KGlobal, g: g, typ: g.Type(), s: g.String()})
}

func (m *xmachine) globalVal(g *ssa.Global) any {
	e := m.r.p.newExec()
	v := e.rootVal(newSt(), globalTerm(g), ptrElem(g.Type()))
	if v.k == KDeref {
		m.und("variable %s may change", g.Name())
	}
	return m.fromTerm(v)
}

func (m *xmachine) sliceText(s mslice) xtext {
	if s.a.stale {
		m.und("a slice is used after its array was appended to")
	}
	return m.sub(s.a.t, s.lo, s.hi)
}

// text converts a string or []byte value.
func (m *xmachine) text(v any) xtext {
	switch x := v.(type) {
	case xtext:
		return x
	case mslice:
		if x.a.bytes {
			return m.sliceText(x)
		}
	case mnil:
		return xtext{}
	case miface:
		return m.text(x.v)
	}
	m.und("text value %T", v)
	return nil
}

func (m *xmachine) chr(s xsym, byt bool) any {
	switch s.k {
	case 'c':
		return mint{int64(s.c), false}
	case 'u':
		if c, ok := symConst(s); ok {
			return mint{int64(c), false}
		}
		if byt {
			return mchr{u: s.u, byt: true}
		}
		if m.byteMode {
			if !m.test(s.u, setASCII) {
				m.und("characters are decoded from single bytes")
			}
			return mchr{u: s.u}
		}
		if m.test(s.u, one1(xInvalid)) {
			return mint{utf8.RuneError, false}
		}
		return mchr{u: s.u}
	}
	m.und("part of a character is read")
	return nil
}

// cmpChr compares a character with a constant.
func (m *xmachine) cmpChr(op token.Token, c mchr, k int64) bool {
	var s runeSet
	lo, hi := rune(0), rune(xInvalid)
	switch op {
	case token.EQL, token.NEQ:
		s = one1(rune(k))
	case token.LSS:
		s = runeSet{{lo, rune(k) - 1}}
	case token.LEQ:
		s = runeSet{{lo, rune(k)}}
	case token.GTR:
		s = runeSet{{rune(k) + 1, hi}}
	case token.GEQ:
		s = runeSet{{rune(k), hi}}
	}
	if c.byt && !m.byteMode {
		// the bytes of characters beyond ASCII are all >= 0x80
		if !m.test(c.u, setASCII) {
			if k < 0x80 || k == 0x80 && (op == token.LSS || op == token.GEQ) {
				switch op {
				case token.EQL, token.LSS, token.LEQ:
					return false
				}
				return true
			}
			m.und("a byte beyond ASCII is compared")
		}
	}
	res := m.test(c.u, s)
	if op == token.NEQ {
		return !res
	}
	return res
}

func (m *xmachine) cmpInt(a, b mint) {
	if !a.pos && !b.pos {
		return
	}
	if a.n <= 3 || b.n <= 3 {
		return
	}
	near := func(x, y int64) bool { d := x - y; return d >= -4 && d <= 4 }
	for _, base := range []int64{int64(len(m.tape)), int64(len(m.w))} {
		if near(a.n, base) && near(b.n, base) {
			return
		}
	}
	m.und("comparison of positions that are not related to the read position")
}

func (m *xmachine) binop(op token.Token, x, y any) any {
	neg := func(b bool) any {
		if op == token.NEQ {
			return !b
		}
		return b
	}
	flip := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return neg(a == b)
		}
	case mnil:
		switch y.(type) {
		case mnil:
			return neg(true)
		case merr, miface, mfn, mptr:
			return neg(false)
		case mslice:
			return neg(false)
		}
	case merr, miface, mfn, mptr, mslice:
		if _, ok := y.(mnil); ok {
			return neg(false)
		}
	case mneg1:
		if b, ok := y.(mint); ok {
			return m.binop(op, mint{-1, false}, b)
		}
	case mfound:
		if b, ok := y.(mint); ok && b.n <= 0 {
			// the index is some n >= 0
			switch {
			case b.n < 0:
				return op == token.NEQ || op == token.GTR || op == token.GEQ
			case op == token.GEQ:
				return true
			case op == token.LSS:
				return false
			}
		}
	case mchr:
		switch b := y.(type) {
		case mint:
			if _, ok := flip[op]; ok {
				return m.cmpChr(op, a, b.n)
			}
		case mchr:
			if a.u == b.u && (op == token.EQL || op == token.NEQ) {
				return neg(true)
			}
		}
	case mint:
		switch b := y.(type) {
		case mint:
			switch op {
			case token.ADD:
				return mint{a.n + b.n, a.pos || b.pos}
			case token.SUB:
				return mint{a.n - b.n, a.pos || b.pos}
			case token.MUL:
				return mint{a.n * b.n, a.pos || b.pos}
			}
			m.cmpInt(a, b)
			switch op {
			case token.EQL, token.NEQ:
				return neg(a.n == b.n)
			case token.LSS:
				return a.n < b.n
			case token.LEQ:
				return a.n <= b.n
			case token.GTR:
				return a.n > b.n
			case token.GEQ:
				return a.n >= b.n
			}
			if !a.pos && !b.pos {
				switch op {
				case token.OR:
					return mint{a.n | b.n, false}
				case token.AND:
					return mint{a.n & b.n, false}
				case token.REM:
					if b.n != 0 {
						return mint{a.n % b.n, false}
					}
				}
			}
		case mchr, mneg1, mfound:
			if g, ok := flip[op]; ok {
				return m.binop(g, y, x)
			}
		case mlen:
			// a op len+off
			i := int(a.n - b.off)
			switch op {
			case token.LSS:
				return m.has(b.t, i)
			case token.GEQ:
				return !m.has(b.t, i)
			case token.LEQ:
				return i <= 0 || m.has(b.t, i-1)
			case token.GTR:
				return !(i <= 0 || m.has(b.t, i-1))
			case token.EQL, token.NEQ:
				return neg(i >= 0 && (i == 0 || m.has(b.t, i-1)) && !m.has(b.t, i))
			}
		}
	case mlen:
		switch b := y.(type) {
		case mint:
			switch op {
			case token.ADD:
				return mlen{a.t, a.off + b.n}
			case token.SUB:
				return mlen{a.t, a.off - b.n}
			}
			if g, ok := flip[op]; ok {
				return m.binop(g, y, x)
			}
		}
	case xtext:
		switch b := y.(type) {
		case xtext:
			switch op {
			case token.ADD:
				return cat(a, b)
			case token.EQL, token.NEQ:
				return neg(m.textEqual(a, b))
			}
		}
	}
	m.und("operation %s on %T and %T", op, x, y)
	return nil
}

// textEqual decides the equality of two texts, one of them constant.
func (m *xmachine) textEqual(a, b xtext) bool {
	if _, ok := m.constOf(b); !ok {
		a, b = b, a
	}
	s, ok := m.constOf(b)
	if !ok {
		m.und("comparison of two unknown texts")
	}
	if utf8.RuneCountInString(s) != len(s) {
		m.und("comparison with a text beyond ASCII")
	}
	for i := 0; i < len(s); i++ {
		if !m.has(a, i) {
			return false
		}
		x := m.at(a, i)
		switch x.k {
		case 'c':
			if x.c != s[i] {
				return false
			}
		case 'u':
			if !m.test(x.u, one1(rune(s[i]))) {
				return false
			}
		default:
			return false
		}
	}
	return !m.has(a, len(s))
}

func (m *xmachine) index(v any) int {
	switch x := v.(type) {
	case mint:
		return int(x.n)
	case mlen:
		m.forceAll(x.t)
		t := m.norm(x.t)
		return len(t) + int(x.off)
	}
	m.und("index %T", v)
	return 0
}

// forceAll reads the input to its end, as far as the text depends on it.
func (m *xmachine) forceAll(t xtext) {
	for {
		t = m.norm(t)
		rest := false
		for _, s := range t {
			if s.k == 'r' {
				rest = true
			}
		}
		if !rest {
			return
		}
		m.head("read", t)
		m.force()
	}
}

func (m *xmachine) instr(f *xframe, in ssa.Instruction) {
	set := func(v any) { f.env[in.(ssa.Value)] = v }
	switch x := in.(type) {
	case *ssa.BinOp:
		a, b := m.val(f, x.X), m.val(f, x.Y)
		set(m.binop(x.Op, a, b))
	case *ssa.UnOp:
		v := m.val(f, x.X)
		switch x.Op {
		case token.NOT:
			set(!v.(bool))
		case token.SUB:
			if n, ok := v.(mint); ok {
				set(mint{-n.n, n.pos})
				return
			}
			m.und("negation")
		case token.MUL:
			switch p := v.(type) {
			case mptr:
				set(p.c.v)
			case melem:
				set(m.loadElem(p))
			case mglob:
				set(m.globalVal(p.g))
			case mterm:
				set(m.fromTerm(m.r.p.newExec().load(newSt(), p.t, x.Type(), nil, nil)))
			default:
				m.und("load through %T", v)
			}
		default:
			m.und("operator %s", x.Op)
		}
	case *ssa.Store:
		a, v := m.val(f, x.Addr), m.val(f, x.Val)
		switch p := a.(type) {
		case mptr:
			p.c.v = v
		case melem:
			m.storeElem(p, v)
		default:
			m.und("store through %T", a)
		}
	case *ssa.Alloc:
		t := ptrElem(x.Type())
		if isTextCell(t) {
			set(mptr{&xcell{v: xtext{}, build: true}})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			a := &xarr{}
			if isByteSlice(types.NewSlice(u.Elem())) {
				a.bytes = true
				for i := int64(0); i < u.Len(); i++ {
					a.t = append(a.t, xsym{k: 'c', at: len(m.tape)})
				}
			} else {
				for i := int64(0); i < u.Len(); i++ {
					a.el = append(a.el, mnil{})
				}
			}
			set(mslice{a, 0, len(a.t) + len(a.el)})
		default:
			set(mptr{&xcell{v: m.zero(t)}})
		}
	case *ssa.IndexAddr:
		v := m.val(f, x.X)
		switch s := v.(type) {
		case mslice:
			i := m.index(m.val(f, x.Index))
			if i < 0 || s.hi >= 0 && s.lo+i >= s.hi {
				panic(xpanic("index out of range"))
			}
			set(melem{s.a, s.lo + i})
		case mglob:
			i, ok := m.val(f, x.Index).(mint)
			if !ok {
				m.und("index of a table")
			}
			set(mterm{mkIAddr(globalTerm(s.g), mkInt(i.n), x.Type())})
		case mterm:
			i, ok := m.val(f, x.Index).(mint)
			if !ok {
				m.und("index of a table")
			}
			set(mterm{mkIAddr(s.t, mkInt(i.n), x.Type())})
		default:
			m.und("index of %T", v)
		}
	case *ssa.Lookup:
		v := m.val(f, x.X)
		if isStringType(x.X.Type()) {
			t := m.text(v)
			set(m.chr(m.at(t, m.index(m.val(f, x.Index))), true))
			return
		}
		set(m.lookup(v, m.val(f, x.Index), x))
	case *ssa.Index:
		t, ok := m.val(f, x.X).(xtext)
		if !ok {
			m.und("index of %T", m.val(f, x.X))
		}
		set(m.chr(m.at(t, m.index(m.val(f, x.Index))), true))
	case *ssa.Slice:
		m.slice(f, x)
	case *ssa.Convert:
		set(m.convert(m.val(f, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		set(m.val(f, x.X))
	case *ssa.MakeInterface:
		v := m.val(f, x.X)
		if e, ok := v.(merr); ok {
			set(e)
			return
		}
		set(miface{v})
	case *ssa.ChangeInterface:
		set(m.val(f, x.X))
	case *ssa.MakeClosure:
		c := mfn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.b = append(c.b, m.val(f, b))
		}
		set(c)
	case *ssa.Extract:
		t, ok := m.val(f, x.Tuple).(mtuple)
		if !ok || x.Index >= len(t) {
			m.und("tuple")
		}
		set(t[x.Index])
	case *ssa.Range:
		set(&miter{m.text(m.val(f, x.X)), 0})
	case *ssa.Next:
		it, ok := m.val(f, x.Iter).(*miter)
		if !ok || !x.IsString {
			m.und("iteration")
		}
		if !m.has(it.t, it.pos) {
			set(mtuple{false, mint{0, false}, mint{0, false}})
			return
		}
		c := m.chr(m.at(it.t, it.pos), false)
		set(mtuple{true, mint{int64(it.pos), true}, c})
		it.pos++
	case *ssa.MakeSlice:
		n, ok := m.val(f, x.Len).(mint)
		if ok && n.n == 0 && isByteSlice(x.Type()) {
			set(mslice{&xarr{bytes: true}, 0, 0})
			return
		}
		m.und("make of a slice")
	case *ssa.Call:
		set(m.doCall(f, x))
	default:
		m.und("instruction %T in %s", in, f.fn.Name())
	}
}

func (m *xmachine) zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return xtext{}
		case u.Info()&types.IsInteger != 0:
			return mint{0, false}
		case u.Info()&types.IsBoolean != 0:
			return false
		}
	case *types.Slice, *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return mnil{}
	}
	m.und("variable of type %s", t)
	return nil
}

func (m *xmachine) loadElem(p melem) any {
	if p.a.stale {
		m.und("a slice is used after its array was appended to")
	}
	if p.a.bytes {
		return m.chr(m.at(p.a.t, p.i), true)
	}
	if p.i < 0 || p.i >= len(p.a.el) {
		panic(xpanic("index out of range"))
	}
	return p.a.el[p.i]
}

func (m *xmachine) storeElem(p melem, v any) {
	if p.a.stale {
		m.und("a slice is used after its array was appended to")
	}
	if !p.a.bytes {
		p.a.el[p.i] = v
		return
	}
	if !m.has(p.a.t, p.i) {
		panic(xpanic("index out of range"))
	}
	old := m.at(p.a.t, p.i)
	if old.k == 'u' && !m.byteMode && !m.test(old.u, runeSet{{0, 127}, {xInvalid, xInvalid}}) {
		m.und("a byte of a character beyond ASCII is overwritten")
	}
	t := append(xtext{}, m.norm(p.a.t)...)
	t[p.i] = m.symOf(v, true)
	p.a.t = t
}

// symOf converts a character value to what writing it appends (a byte, or a rune).
func (m *xmachine) symOf(v any, byt bool) xsym {
	switch x := v.(type) {
	case mint:
		if x.n < 0 || x.n > 127 {
			return xsym{k: 'h', u: &xunit{}, at: len(m.tape)}
		}
		return xsym{k: 'c', c: byte(x.n), at: len(m.tape)}
	case mchr:
		if x.byt != byt {
			// a byte written as a rune or the reverse: the same only for ASCII
			if m.test(x.u, setASCII) {
				return xsym{k: 'u', u: x.u, at: len(m.tape)}
			}
			return xsym{k: 'h', u: x.u, at: len(m.tape)}
		}
		if byt && !m.byteMode && !m.test(x.u, runeSet{{0, 127}, {xInvalid, xInvalid}}) {
			m.und("single bytes of characters are copied")
		}
		return xsym{k: 'u', u: x.u, at: len(m.tape)}
	}
	m.und("character value %T", v)
	return xsym{}
}

func (m *xmachine) runeText(v any) xtext {
	if n, ok := v.(mint); ok && (n.n > 127 || n.n < 0) {
		r := rune(n.n)
		return m.lit(string(r))
	}
	return xtext{m.symOf(v, false)}
}

func (m *xmachine) convert(v any, from, to types.Type) any {
	switch {
	case isStringType(to):
		switch x := v.(type) {
		case xtext, mslice, mnil:
			return m.text(x)
		case mint, mchr:
			return m.runeText(x)
		}
	case isByteSlice(to):
		t := m.text(v)
		return mslice{&xarr{t: t, bytes: true}, 0, -1}
	case isIntType(to):
		switch x := v.(type) {
		case mint:
			return x
		case mchr:
			if b, ok := to.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) && !x.byt {
				if m.test(x.u, setASCII) {
					return mchr{u: x.u, byt: true}
				}
				m.und("a character is cut to a byte")
			}
			if x.byt {
				// rune(b): the same character only for ASCII
				if m.test(x.u, setASCII) {
					return mchr{u: x.u, byt: isByteKind(to)}
				}
				return x
			}
			return x
		case mlen:
			return x
		}
	}
	m.und("conversion of %T to %s", v, to)
	return nil
}

func isByteKind(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *xmachine) slice(f *xframe, x *ssa.Slice) {
	v := m.val(f, x.X)
	lo, hi := 0, -1
	if x.Low != nil {
		lo = m.index(m.val(f, x.Low))
	}
	if x.High != nil {
		h := m.val(f, x.High)
		if l, ok := h.(mlen); ok && l.off == 0 {
			// s[lo:len(s)] is s[lo:]
			if t, ok := v.(xtext); ok && textEq(m.norm(t), m.norm(l.t)) {
				f.env[x] = m.sub(t, lo, -1)
				return
			}
		}
		hi = m.index(h)
	}
	switch s := v.(type) {
	case xtext:
		f.env[x] = m.sub(s, lo, hi)
	case mslice:
		if !s.a.bytes {
			n := len(s.a.el)
			if hi < 0 {
				hi = n - s.lo
			}
			f.env[x] = mslice{s.a, s.lo + lo, s.lo + hi}
			return
		}
		if hi < 0 {
			nh := s.hi
			if lo > 0 && !m.has(s.a.t, s.lo+lo-1) {
				panic(xpanic("slice out of range"))
			}
			f.env[x] = mslice{s.a, s.lo + lo, nh}
			return
		}
		if hi < lo || hi > 0 && !m.has(s.a.t, s.lo+hi-1) {
			panic(xpanic("slice out of range"))
		}
		f.env[x] = mslice{s.a, s.lo + lo, s.lo + hi}
	default:
		m.und("slice of %T", v)
	}
}

func (m *xmachine) lookup(v, k any, in *ssa.Lookup) any {
	mt, ok := v.(mterm)
	if !ok {
		m.und("map %T", v)
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	e := m.r.p.newExec()
	cur := e.mapState(newSt(), mt.t)
	ret := func(x any, has bool) any {
		if in.CommaOk {
			return mtuple{x, has}
		}
		return x
	}
	for {
		switch {
		case cur.k == KApp && cur.s == "mapupd":
			eq := m.binop(token.EQL, k, m.fromTerm(cur.a[1])).(bool)
			if eq {
				return ret(m.fromTerm(cur.a[2]), true)
			}
			cur = cur.a[0]
		case cur.k == KApp && cur.s == "mapnew":
			return ret(m.zero(vt), false)
		default:
			m.und("map %s", mt.t)
		}
	}
}

func (m *xmachine) strArg(v any) string {
	s, ok := m.constOf(m.text(v))
	if !ok {
		m.und("an argument that is not constant")
	}
	return s
}

func (m *xmachine) doCall(f *xframe, x *ssa.Call) any {
	c := x.Common()
	if c.IsInvoke() {
		m.und("call of method %s", c.Method.Name())
	}
	var a []any
	for _, v := range c.Args {
		a = append(a, m.val(f, v))
	}
	fv := m.val(f, c.Value)
	switch fn := fv.(type) {
	case *ssa.Builtin:
		return m.builtin(fn.Name(), a, x)
	case mfn:
		if m.r.p.inRepo(fn.fn) {
			return m.call(fn.fn, a, fn.b)
		}
		return m.model(fn.fn, a)
	case mterm:
		if t := fn.t; (t.k == KFunc || t.k == KClosure && len(t.a) == 0) && t.fn != nil && m.r.p.inRepo(t.fn) {
			return m.call(t.fn, a, nil)
		}
	}
	m.und("call of %T", fv)
	return nil
}

func (m *xmachine) builtin(name string, a []any, x *ssa.Call) any {
	switch name {
	case "len":
		switch v := a[0].(type) {
		case xtext:
			return mlen{v, 0}
		case mslice:
			if v.a.bytes {
				return mlen{m.sliceText(v), 0}
			}
			return mint{int64(v.hi - v.lo), false}
		case mnil:
			return mint{0, false}
		}
	case "append":
		var base xtext
		switch v := a[0].(type) {
		case mslice:
			if !v.a.bytes {
				break
			}
			add := xtext{}
			if len(a) > 1 {
				add = m.text(a[1])
			}
			base = m.sliceText(v)
			v.a.stale = true
			return mslice{&xarr{t: cat(base, add), bytes: true}, 0, -1}
		case mnil:
			if isByteSlice(x.Type()) {
				return mslice{&xarr{t: m.text(a[1]), bytes: true}, 0, -1}
			}
		}
	case "min", "max":
		x, ok1 := a[0].(mint)
		y, ok2 := a[1].(mint)
		if ok1 && ok2 {
			m.cmpInt(x, y)
			if (x.n < y.n) == (name == "min") {
				return x
			}
			return y
		}
	}
	m.und("builtin %s", name)
	return nil
}

func reQuote(s string) string { return strings.ReplaceAll(quoteMetaAll(s), "\n", `\n`) }

func quoteMetaAll(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (m *xmachine) buildPtr(v any) *xcell {
	p, ok := v.(mptr)
	if !ok || !p.c.build {
		m.und("text buffer %T", v)
	}
	return p.c
}

func (m *xmachine) rePattern(v any) string {
	if t, ok := v.(mterm); ok && t.t.k == KApp && t.t.s == "regexp" && t.t.a[0].isStr() {
		return t.t.a[0].str()
	}
	m.und("regular expression that is not constant")
	return ""
}

func (m *xmachine) callFn(v any, args ...any) any {
	fn, ok := v.(mfn)
	if !ok {
		m.und("function value %T", v)
	}
	if m.r.p.inRepo(fn.fn) {
		return m.call(fn.fn, args, fn.b)
	}
	return m.model(fn.fn, args)
}

func (m *xmachine) replacePairs(t xtext, pairs [][2]string, limit int) xtext {
	if limit >= 0 {
		m.und("a limited replacement")
	}
	return m.scan("replace", t, func(t xtext, i int) (int, func() xtext, bool) {
		for _, p := range pairs {
			if p[0] == "" {
				m.und("replacement of the empty text")
			}
			ok := true
			for k := 0; k < len(p[0]); k++ {
				if p[0][k] >= 128 {
					m.und("replacement beyond ASCII")
				}
				if !m.has(t, i+k) {
					ok = false
					break
				}
				s := m.at(t, i+k)
				if s.k == 'c' && s.c != p[0][k] || s.k == 'h' || s.k == 'u' && !m.test(s.u, one1(rune(p[0][k]))) {
					ok = false
					break
				}
			}
			if ok {
				n := p[1]
				return i + len(p[0]), func() xtext { return m.lit(n) }, true
			}
		}
		return 0, nil, false
	})
}

func (m *xmachine) model(fn *ssa.Function, a []any) any {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	switch name {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return merr{name}
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		c := m.buildPtr(a[0])
		c.v = cat(c.v.(xtext), xtext{m.symOf(a[1], true)})
		return miOrNil()
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		c := m.buildPtr(a[0])
		c.v = cat(c.v.(xtext), m.runeText(a[1]))
		return mtuple{mint{1, false}, mnil{}}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		c := m.buildPtr(a[0])
		c.v = cat(c.v.(xtext), m.text(a[1]))
		return mtuple{mint{1, false}, mnil{}}
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return m.buildPtr(a[0]).v.(xtext)
	case "(*bytes.Buffer).Bytes":
		return mslice{&xarr{t: m.buildPtr(a[0]).v.(xtext), bytes: true}, 0, -1}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return mlen{m.buildPtr(a[0]).v.(xtext), 0}
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		m.buildPtr(a[0]).v = xtext{}
		return nil
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
		return m.predicate(m.rePattern(a[0]), m.text(a[1]))
	case "regexp.MustCompile":
		return mterm{mkApp("regexp", nil, mkStr(m.strArg(a[0])))}
	case "(*regexp.Regexp).ReplaceAllStringFunc", "(*regexp.Regexp).ReplaceAllFunc":
		p := compileRe(m.rePattern(a[0]))
		res := m.scan("regexp", m.text(a[1]), func(t xtext, i int) (int, func() xtext, bool) {
			end, ok := m.matchAt(p, t, i)
			if !ok {
				return 0, nil, false
			}
			return end, func() xtext {
				s := m.sub(t, i, end)
				if strings.HasSuffix(name, "StringFunc") {
					return m.text(m.callFn(a[2], s))
				}
				return m.text(m.callFn(a[2], mslice{&xarr{t: s, bytes: true}, 0, -1}))
			}, true
		})
		if strings.HasSuffix(name, "StringFunc") {
			return res
		}
		return mslice{&xarr{t: res, bytes: true}, 0, -1}
	case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
		p := compileRe(m.rePattern(a[0]))
		repl := m.strArg(a[2])
		return m.scan("regexp", m.text(a[1]), func(t xtext, i int) (int, func() xtext, bool) {
			end, ok := m.matchAt(p, t, i)
			if !ok {
				return 0, nil, false
			}
			return end, func() xtext {
				if name == "(*regexp.Regexp).ReplaceAllLiteralString" || !strings.Contains(repl, "$") {
					return m.lit(repl)
				}
				var out xtext
				for rest := repl; rest != ""; {
					k := strings.Index(rest, "$")
					if k < 0 {
						out = cat(out, m.lit(rest))
						break
					}
					out = cat(out, m.lit(rest[:k]))
					rest = rest[k:]
					switch {
					case strings.HasPrefix(rest, "${0}"):
						out, rest = cat(out, m.sub(t, i, end)), rest[4:]
					case strings.HasPrefix(rest, "$0"):
						out, rest = cat(out, m.sub(t, i, end)), rest[2:]
					case strings.HasPrefix(rest, "$$"):
						out, rest = cat(out, m.lit("$")), rest[2:]
					default:
						m.und("a group reference in a replacement")
					}
				}
				return out
			}, true
		})
	case "strings.ReplaceAll":
		return m.replacePairs(m.text(a[0]), [][2]string{{m.strArg(a[1]), m.strArg(a[2])}}, -1)
	case "strings.Replace":
		n, ok := a[3].(mint)
		if ok {
			return m.replacePairs(m.text(a[0]), [][2]string{{m.strArg(a[1]), m.strArg(a[2])}}, int(n.n))
		}
	case "strings.NewReplacer":
		s, ok := a[0].(mslice)
		if ok {
			var r mrepl
			for _, v := range s.a.el[s.lo:s.hi] {
				r.pairs = append(r.pairs, m.text(v))
			}
			return r
		}
	case "(*strings.Replacer).Replace":
		var pairs [][2]string
		switch r := a[0].(type) {
		case mrepl:
			for i := 0; i+1 < len(r.pairs); i += 2 {
				pairs = append(pairs, [2]string{m.strArg(r.pairs[i]), m.strArg(r.pairs[i+1])})
			}
			return m.replacePairs(m.text(a[1]), pairs, -1)
		case mterm:
			if ps, ok := replacerPairs(r.t); ok {
				return m.replacePairs(m.text(a[1]), ps, -1)
			}
		}
	case "strings.Map", "bytes.Map":
		t := m.text(a[1])
		res := m.scanMap(t, a[0])
		if name == "bytes.Map" {
			return mslice{&xarr{t: res, bytes: true}, 0, -1}
		}
		return res
	case "strings.HasSuffix", "bytes.HasSuffix":
		t := m.norm(m.text(a[0]))
		suf := m.strArg(a[1])
		hasRest := false
		for _, s := range t {
			hasRest = hasRest || s.k == 'r'
		}
		if !hasRest && (len(suf) <= 3 || m.nH <= m.win) {
			// decided by the last characters
			if len(suf) > len(t) {
				return false
			}
			for k := 0; k < len(suf); k++ {
				s := m.at(t, len(t)-len(suf)+k)
				if s.k == 'c' && s.c != suf[k] || s.k == 'h' || s.k == 'u' && !m.test(s.u, one1(rune(suf[k]))) {
					return false
				}
			}
			return true
		}
		return m.predicate("(?s)"+reQuote(suf)+`\z`, t)
	case "strings.HasPrefix", "bytes.HasPrefix":
		t, pre := m.text(a[0]), m.strArg(a[1])
		for k := 0; k < len(pre); k++ {
			if !m.has(t, k) {
				return false
			}
			s := m.at(t, k)
			if s.k == 'c' && s.c != pre[k] || s.k == 'h' || s.k == 'u' && !m.test(s.u, one1(rune(pre[k]))) {
				return false
			}
		}
		return true
	case "strings.Contains", "bytes.Contains":
		return m.predicate("(?s)"+reQuote(m.strArg(a[1])), m.text(a[0]))
	case "strings.ContainsRune":
		if n, ok := a[1].(mint); ok && n.n < 128 {
			return m.predicate("(?s)"+reQuote(string(rune(n.n))), m.text(a[0]))
		}
	case "strings.ContainsAny":
		var alts []string
		if s := m.strArg(a[1]); s != "" {
			for _, r := range s {
				alts = append(alts, reQuote(string(r)))
			}
			return m.predicate("(?s)(?:"+strings.Join(alts, "|")+")", m.text(a[0]))
		}
		return false
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte", "bytes.IndexByte":
		var pat string
		if n, ok := a[1].(mint); ok {
			pat = string(rune(n.n))
		} else {
			pat = m.strArg(a[1])
		}
		if m.predicate("(?s)"+reQuote(pat), m.text(a[0])) {
			return mfound{}
		}
		return mneg1{}
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		t := m.text(a[0])
		if !m.has(t, 0) {
			return mtuple{mint{utf8.RuneError, false}, mint{0, false}}
		}
		return mtuple{m.chr(m.at(t, 0), false), mint{1, false}}
	case "unicode/utf8.ValidString", "unicode/utf8.Valid":
		return !m.watch(&xmonitor{inv: true, name: "invalid"}, m.text(a[0]))
	case "fmt.Sprintf":
		return m.sprintf(m.strArg(a[0]), a[1])
	case "fmt.Sprint":
		var out xtext
		if s, ok := a[0].(mslice); ok && s.hi-s.lo == 1 {
			return cat(out, m.text(s.a.el[s.lo]))
		}
	}
	if name == "unicode.IsDigit" || name == "unicode.IsLetter" || name == "unicode.IsSpace" || name == "unicode.IsUpper" || name == "unicode.IsLower" {
		m.und("call of %s", name)
	}
	m.und("call of %s", name)
	return nil
}

// replacerPairs reads the arguments of strings.NewReplacer from a package variable.
func replacerPairs(t *T) (out [][2]string, ok bool) {
	if t.k != KApp || !strings.HasSuffix(t.s, "NewReplacer") || len(t.a) == 0 {
		return nil, false
	}
	var ss []string
	x := t.a[len(t.a)-1]
	if x.k != KSeq {
		return nil, false
	}
	for _, p := range x.a {
		if p.k != KUnit || !p.a[0].isStr() {
			return nil, false
		}
		ss = append(ss, p.a[0].str())
	}
	for i := 0; i+1 < len(ss); i += 2 {
		out = append(out, [2]string{ss[i], ss[i+1]})
	}
	return out, true
}

func miOrNil() any { return mnil{} }

func (m *xmachine) sprintf(format string, args any) xtext {
	s, ok := args.(mslice)
	if !ok {
		m.und("Sprintf arguments")
	}
	el := s.a.el[s.lo:s.hi]
	var out xtext
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, m.lit(format[i:i+1])...)
			continue
		}
		i++
		if i >= len(format) {
			m.und("format %q", format)
		}
		switch format[i] {
		case '%':
			out = append(out, m.lit("%")...)
		case 's', 'v':
			if k >= len(el) {
				m.und("format %q", format)
			}
			v := el[k]
			if w, ok := v.(miface); ok {
				v = w.v
			}
			switch v.(type) {
			case xtext, mslice:
				out = append(out, m.text(v)...)
			default:
				m.und("format of %T", v)
			}
			k++
		case 'c':
			v := el[k]
			if w, ok := v.(miface); ok {
				v = w.v
			}
			out = append(out, m.runeText(v)...)
			k++
		default:
			m.und("format %q", format)
		}
	}
	return out
}

func (m *xmachine) scanMap(t xtext, fn any) xtext {
	var out xtext
	for i := 0; ; i++ {
		m.head("map", t, mint{int64(i), true}, out)
		if !m.has(t, i) {
			return out
		}
		c := m.chr(m.at(t, i), false)
		v := m.callFn(fn, c)
		if n, ok := v.(mint); ok && n.n < 0 {
			continue
		}
		out = cat(out, m.runeText(v))
	}
}

// ---- driver --------------------------------------------------------------------

type xresult struct {
	bad    string
	undec  string
	states int
	runs   int
	bytes  bool
}

// transduce explores run (which calls the function and returns kind and text) against the specification.
func (r *Rep) transduce(fn *ssa.Function, args func(m *xmachine, value xtext) []any, spec *xspec) (res xresult) {
	for _, mode := range []bool{false, true} {
		x := r.transduceMode(fn, args, spec, mode)
		x.bytes = mode
		if mode && x.undec != "" {
			res.undec += "; read as bytes: " + x.undec
			return
		}
		res = x
		if res.undec == "" {
			return
		}
	}
	return
}

func (r *Rep) transduceMode(fn *ssa.Function, args func(m *xmachine, value xtext) []any, spec *xspec, byteMode bool) (res xresult) {
	var track []*xmonitor
	win := 0
	for k := 0; k < 12; k++ {
		var again *xmonitor
		var wider bool
		res, again, wider = r.transduceWith(fn, args, spec, byteMode, track, win)
		if wider {
			if win++; win > 3 {
				res.undec = "a character far behind the read position is looked at again"
				return
			}
			continue
		}
		if again == nil {
			return
		}
		again.set, again.n, again.hit = map[int]bool{}, 0, false
		track = append(track, again)
	}
	res.undec = "too many patterns applied to what was read before"
	return
}

func (r *Rep) transduceWith(fn *ssa.Function, args func(m *xmachine, value xtext) []any, spec *xspec, byteMode bool, track []*xmonitor, win int) (res xresult, again *xmonitor, wider bool) {
	seen := map[string]bool{}
	queue := [][]int{{}}
	limit := 20000
	for len(queue) > 0 {
		pre := queue[0]
		queue = queue[1:]
		m := &xmachine{r: r, byteMode: byteMode, prefix: pre, spec: spec, seen: seen, win: win}
		m.w = constText(spec.start)
		for _, t := range track {
			m.track = append(m.track, t.clone())
		}
		m.states = res.states
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch y := x.(type) {
					case xstop:
					case xwindow:
						wider = true
					case xrestart:
						again = y.mo
					case xundecided:
						res.undec = string(y)
					default:
						panic(x)
					}
				}
			}()
			kind, text := "ok", xtext{}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if p, ok := x.(xpanic); ok {
							kind = "panic (" + string(p) + ")"
							m.frames = nil
							return
						}
						panic(x)
					}
				}()
				v := m.call(fn, args(m, xtext{{k: 'r', n: 0}}), nil)
				if t, ok := v.(mtuple); ok {
					if _, isNil := t[1].(mnil); !isNil {
						kind = "error"
						v = t[0]
					} else {
						v = t[0]
					}
				}
				text = m.text(v)
			}()
			for !m.ended {
				m.head("final", kind, text)
				m.force()
			}
			m.syncSpec()
			wk, tail := spec.final(m, m.sst)
			if wk != kind {
				res.bad = fmt.Sprintf("on the input %s the outcome is %s, specified is %s", m.showTape(), kind, wk)
				return
			}
			if kind == "ok" {
				want := cat(m.w, tail)
				if got := m.norm(text); !textEq(got, want) {
					res.bad = fmt.Sprintf("on the input %s the text is %s, specified is %s", m.showTape(), m.showText(got), m.showText(want))
				}
			}
		}()
		res.states = m.states
		res.runs++
		if res.bad != "" {
			res.undec = ""
			return
		}
		if again != nil || wider {
			return
		}
		if res.undec != "" && limit == 20000 {
			limit = res.runs + 500 // look for a definite difference nearby
		}
		if res.runs > limit {
			if res.undec == "" {
				res.undec = "more than 20000 runs"
			}
			return
		}
		for i := len(pre); i < len(m.choices); i++ {
			for a := 1; a < m.alts[i]; a++ {
				queue = append(queue, append(append([]int{}, m.choices[:i]...), a))
			}
		}
	}
	return
}
