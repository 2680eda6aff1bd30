package main

// Alignment of two parsing expression grammars. Both sides are compared
// coinductively, unfolding rule references, flattening nested sequences and
// choices, splitting literals into characters and merging neighbouring
// one-character alternatives, so a grammar is equal to itself after inlining,
// splitting or renaming of rules. Pairs of code nodes that have to do the
// same are recorded.

import (
	"fmt"
	"strings"
)

type nview struct {
	kind string // choice seq class star plus opt and not label action andcode notcode statecode empty loop
	n    *gnode
	kids []*gnode
	set  runeSet
}

type aside struct {
	by    map[string]*grule
	chars map[rune]*gnode
	extra map[string]*gnode
	vmemo map[*gnode]*nview
}

func newSide(by map[string]*grule) *aside {
	return &aside{by: by, chars: map[rune]*gnode{}, extra: map[string]*gnode{}, vmemo: map[*gnode]*nview{}}
}

// deref follows references; nil when the chain of references is a loop or undefined.
func (s *aside) deref(n *gnode) *gnode {
	seen := map[string]bool{}
	for n != nil && n.kind == "ref" {
		if seen[n.name] {
			return nil
		}
		seen[n.name] = true
		r := s.by[n.name]
		if r == nil {
			return nil
		}
		n = r.expr
	}
	return n
}

var fullSet = runeSet{{0, 0x10FFFF}}

func (s *aside) charNode(c rune, of *gnode) *gnode {
	if x := s.chars[c]; x != nil {
		return x
	}
	x := &gnode{kind: "class", set: runeSet{{c, c}}, rule: of.rule, pos: of.pos}
	s.chars[c] = x
	return x
}

// fold adds the other case of ASCII letters.
func (s runeSet) fold() runeSet {
	out := append(runeSet{}, s...)
	for c := 'a'; c <= 'z'; c++ {
		if s.has(c) {
			out = append(out, [2]rune{c - 32, c - 32})
		}
		if s.has(c - 32) {
			out = append(out, [2]rune{c, c})
		}
	}
	return out.norm()
}

func (s *aside) flatSeq(n *gnode, open map[string]bool, out *[]*gnode) {
	switch n.kind {
	case "seq":
		for _, k := range n.kids {
			s.flatSeq(k, open, out)
		}
		return
	case "ref":
		if open[n.name] || s.by[n.name] == nil {
			break
		}
		e := s.deref(n)
		if e != nil && (e.kind == "seq" || e.kind == "lit") {
			o2 := map[string]bool{n.name: true}
			for k := range open {
				o2[k] = true
			}
			s.flatSeq(e, o2, out)
			return
		}
	case "lit":
		if n.ic {
			for _, c := range n.lit {
				*out = append(*out, &gnode{kind: "class", set: runeSet{{c, c}}.fold(), rule: n.rule, pos: n.pos})
			}
			return
		}
		for _, c := range n.lit {
			*out = append(*out, s.charNode(c, n))
		}
		return
	}
	*out = append(*out, n)
}

func (s *aside) flatChoice(n *gnode, open map[string]bool, out *[]*gnode) {
	switch n.kind {
	case "choice":
		for _, k := range n.kids {
			s.flatChoice(k, open, out)
		}
		return
	case "ref":
		if open[n.name] || s.by[n.name] == nil {
			break
		}
		e := s.deref(n)
		if e != nil && e.kind == "choice" {
			o2 := map[string]bool{n.name: true}
			for k := range open {
				o2[k] = true
			}
			s.flatChoice(e, o2, out)
			return
		}
	}
	*out = append(*out, n)
}

func (s *aside) view(n *gnode) *nview {
	if v := s.vmemo[n]; v != nil {
		return v
	}
	v := s.view0(n)
	s.vmemo[n] = v
	return v
}

func (s *aside) view0(n *gnode) *nview {
	m := s.deref(n)
	if m == nil {
		return &nview{kind: "loop", n: n}
	}
	switch m.kind {
	case "any":
		return &nview{kind: "class", n: m, set: fullSet}
	case "class":
		set := m.set
		if m.ic {
			set = set.fold()
		}
		return &nview{kind: "class", n: m, set: set}
	case "lit", "seq":
		var ks []*gnode
		s.flatSeq(m, map[string]bool{}, &ks)
		if len(ks) == 1 && ks[0] != m {
			return s.view(ks[0])
		}
		return &nview{kind: "seq", n: m, kids: ks}
	case "choice":
		var alts []*gnode
		s.flatChoice(m, map[string]bool{}, &alts)
		var out []*gnode
		for i := 0; i < len(alts); i++ {
			if set, ok := s.single(alts[i]); ok {
				j := i + 1
				for ; j < len(alts); j++ {
					s2, ok := s.single(alts[j])
					if !ok {
						break
					}
					set = append(append(runeSet{}, set...), s2...)
				}
				if j > i+1 {
					out = append(out, &gnode{kind: "class", set: set.norm(), rule: m.rule, pos: m.pos})
					i = j - 1
					continue
				}
			}
			out = append(out, alts[i])
		}
		if len(out) == 1 {
			return s.view(out[0])
		}
		return &nview{kind: "choice", n: m, kids: out}
	}
	return &nview{kind: m.kind, n: m, kids: m.kids}
}

// single is the set of characters an expression matches when it always takes exactly one.
func (s *aside) single(n *gnode) (runeSet, bool) {
	m := s.deref(n)
	if m == nil {
		return nil, false
	}
	switch m.kind {
	case "any":
		return fullSet, true
	case "class":
		if m.ic {
			return m.set.fold(), true
		}
		return m.set, true
	case "lit":
		if rs := []rune(m.lit); len(rs) == 1 {
			set := runeSet{{rs[0], rs[0]}}
			if m.ic {
				set = set.fold()
			}
			return set, true
		}
	}
	return nil, false
}

type aligner struct {
	a, b  *aside // a: reference, b: subject
	seen  map[[2]*gnode]bool
	pairs []*npair
	diffs []string
	dkeys []string
	cmps  int
	rules map[string]bool
}

// npair is a pair of code nodes at the same place of the two grammars.
type npair struct {
	ref, sub *gnode
	scope    map[string]string // labels in scope: reference name -> subject name
	kids     map[string]*gnode // subject node of each label, by reference name
}

func (al *aligner) diff(a, b *gnode, f string, x ...any) {
	key := a.rule + ": " + fmt.Sprintf(f, x...)
	for _, k := range al.dkeys {
		if k == key {
			return
		}
	}
	al.dkeys = append(al.dkeys, key)
	al.diffs = append(al.diffs, fmt.Sprintf("%s (reference %s, parser rule %s, %s)", key, a.pos, b.rule, b.pos))
}

func (al *aligner) show(s *aside, n *gnode) string { return clip(n.show(3), 90) }

// scopeOf collects the labels visible to code attached to n.
func scopeOf(s *aside, n *gnode, out *[]*gnode) {
	switch n.kind {
	case "label":
		*out = append(*out, n)
	case "seq", "action":
		for _, k := range n.kids {
			scopeOf(s, k, out)
		}
	}
}

func (al *aligner) eq(a, b *gnode, env *npair) {
	va, vb := al.a.view(a), al.b.view(b)
	if va.kind == "loop" || vb.kind == "loop" {
		if va.kind != vb.kind {
			al.diff(a, b, "undefined or left-recursive reference %s / %s", al.show(al.a, a), al.show(al.b, b))
		}
		return
	}
	a, b = va.n, vb.n
	key := [2]*gnode{a, b}
	if al.seen[key] {
		return
	}
	al.seen[key] = true
	al.cmps++
	al.rules[a.rule] = true
	if va.kind != vb.kind {
		al.diff(a, b, "%s expected, found %s", al.show(al.a, a), al.show(al.b, b))
		return
	}
	switch va.kind {
	case "class":
		if va.set.String() != vb.set.String() {
			al.diff(a, b, "characters %s expected, found %s", va.set, vb.set)
		}
		return
	case "action", "andcode", "notcode", "statecode":
		p := &npair{ref: a, sub: b}
		al.pairs = append(al.pairs, p)
	}
	if len(va.kids) != len(vb.kids) {
		al.diff(a, b, "%s of %d parts expected, found %d: %s / %s", va.kind, len(va.kids), len(vb.kids), al.show(al.a, a), al.show(al.b, b))
		// still compare the common prefix to find the first difference
	}
	for i := 0; i < len(va.kids) && i < len(vb.kids); i++ {
		al.eq(va.kids[i], vb.kids[i], nil)
	}
}

// labels fills in the label correspondence of the recorded pairs. Predicate and state code sees the labels to its left
// in the sequence it stands in; a pair is given the whole scope of the action around it.
func (al *aligner) labels() {
	for _, p := range al.pairs {
		p.scope, p.kids = map[string]string{}, map[string]*gnode{}
		if p.ref.kind != "action" {
			continue
		}
		var la, lb []*gnode
		scopeOf(al.a, al.a.deref(p.ref.kids[0]), &la)
		scopeOf(al.b, al.b.deref(p.sub.kids[0]), &lb)
		for i := range la {
			if i < len(lb) {
				p.scope[la[i].name] = lb[i].name
				p.kids[la[i].name] = lb[i].kids[0]
			}
		}
		if len(la) != len(lb) {
			al.diff(p.ref, p.sub, "the code of %s sees %d labels, reference %d", p.sub.codeName(), len(lb), len(la))
		}
	}
}

func align(ref, sub map[string]*grule, start, subStart string) *aligner {
	al := &aligner{a: newSide(ref), b: newSide(sub), seen: map[[2]*gnode]bool{}, rules: map[string]bool{}}
	ra, rb := ref[start], sub[subStart]
	if ra == nil || rb == nil {
		panic(anchorError("start rule of the grammar"))
	}
	al.eq(ra.expr, rb.expr, nil)
	al.labels()
	return al
}

func (al *aligner) summary() string {
	return fmt.Sprintf("%d pairs of expressions in rules %s", al.cmps, strings.Join(sortedKeys(al.rules), ", "))
}

func alignDump(dir string) {
	p, err := loadProg(dir)
	if err != nil {
		fmt.Println(err)
		return
	}
	r := &Rep{p: p}
	g := r.grammar()
	pf := r.pegFile()
	al := align(pf.by, g.by, pf.rules[0].name, g.rules[0].name)
	fmt.Println(al.summary(), len(al.pairs), "code pairs")
	for _, d := range al.diffs {
		fmt.Println("DIFF", d)
	}
}
