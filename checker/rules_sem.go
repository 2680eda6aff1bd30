package main

// What each construct of the reference grammar stands for. Content (C03),
// comments (C04) and positions (C05) are separate observations of the same
// interpreted code; C01 asks only that the code never refuses.

import (
	"fmt"
	"go/types"
	"strings"
)

type sctx struct {
	s      *semTab
	r      *Rep
	prop   string
	p      *npair
	sr     *semRun
	e      *Exec
	o      *Outcome
	v      *T // unboxed result
	name   string
	args   []string
	labels map[string]*T
	text   *T
	cases  string
}

func (c *sctx) construct(what string) string { return c.p.ref.rule + "/" + c.name + " " + what }

func (c *sctx) where() string { return c.r.fnWhere(c.p.sub.run) }

// l is the unboxed value of a label.
func (c *sctx) l(name string) *T {
	x := c.labels[name]
	if x == nil {
		panic(anchorError("label " + name + " of " + c.p.ref.rule))
	}
	if x.k == KIface {
		return x.a[0]
	}
	return x
}

func (c *sctx) has(name string) bool { return !c.labels[name].isNil() }

// listOf is a label with an optional list, empty when absent.
func (c *sctx) listOf(name string) *T {
	if !c.has(name) {
		return mkSeq(nil)
	}
	return c.l(name)
}

// canonList strips representation changes of the elements of a list.
func canonList(x *T) *T {
	x = unconv(x)
	switch x.k {
	case KApp:
		if x.s == "mapseq" && len(x.a) >= 2 {
			body := x.a[1]
			if body.k == KSeq && len(body.a) == 1 && body.a[0].k == KUnit {
				b := body.a[0].a[0]
				for b.k == KAs || b.k == KIface || b.k == KConv {
					b = b.a[0]
				}
				if b.k == KElem && b.a[1] == boundOf(x) && b.a[0] == x.a[0] {
					return canonList(x.a[0])
				}
			}
		}
	case KSeq:
		var ps []*T
		for _, p := range x.a {
			if p.k == KUnit {
				ps = append(ps, mkUnit(bare(p.a[0])))
				continue
			}
			q := canonList(p)
			if q.k == KSeq {
				ps = append(ps, q.a...)
			} else {
				ps = append(ps, q)
			}
		}
		if len(ps) == 1 && ps[0].k != KUnit {
			return ps[0]
		}
		return mkSeq(nil, ps...)
	case KConst:
		if x.isNil() {
			return mkSeq(nil)
		}
	}
	return x
}

func bare(x *T) *T {
	for x.k == KIface {
		x = x.a[0]
	}
	return x
}

func (c *sctx) eq(st *St, got, want *T) bool {
	e := c.e
	if got == nil || want == nil {
		return false
	}
	got, want = bare(e.resolve(st, got)), bare(e.resolve(st, want))
	if got == want || e.sameOrEmpty(st, got, want) {
		return true
	}
	if isStringType(got.typ) && isStringType(want.typ) {
		if g, w := c.pinned(st, got), c.pinned(st, want); g != got || w != want {
			return g == w
		}
	}
	if isSliceType(got.typ) || isSliceType(want.typ) || got.k == KSeq || want.k == KSeq {
		g, w := canonList(got), canonList(want)
		return g == w || g.k == KSeq && w.k == KSeq && len(g.a) == len(w.a) && func() bool {
			for i := range g.a {
				if g.a[i].k != w.a[i].k {
					return false
				}
				if g.a[i].k == KUnit {
					if !c.eq(st, g.a[i].a[0], w.a[i].a[0]) {
						return false
					}
				} else if g.a[i] != w.a[i] {
					return false
				}
			}
			return true
		}()
	}
	if s := structOf(got.typ); s != nil && sameType(got.typ, want.typ) && (got.k == KStruct || want.k == KStruct) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !c.eq(st, mkField(got, f.Name(), f.Type()), mkField(want, f.Name(), f.Type())) {
				return false
			}
		}
		return true
	}
	return false
}

// pinned replaces the text of kinds the path has determined.
func (c *sctx) pinned(st *St, t *T) *T {
	m := map[*T]*T{}
	walkTerm(t, func(x *T) bool {
		if x.k != KApp || x.s != "m:String" || len(x.a) != 1 {
			return true
		}
		for k := range c.e.constSet(x.a[0]) {
			if c.e.truth(st, mkEQ0(linAddC(x.a[0], -k.int()))) == 1 {
				fn := c.e.stringMethod(x.a[0].typ, "String")
				if fn == nil {
					continue
				}
				if outs := c.e.Call(fn, []*T{k}, nil, st.clone(), nil, nil); len(outs) == 1 && outs[0].kind == ORet {
					m[x] = outs[0].val()
				}
			}
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

// obs evaluates an accessor or exported field of x.
func (c *sctx) obs(st *St, x *T, what string) []Outcome {
	return c.r.observe(c.e, st, x, what)
}

// is requires an observation of the result.
func (c *sctx) is(prop, what string, want *T) {
	if !strings.Contains(prop, c.prop) {
		return
	}
	for _, q := range c.obs(c.o.st.clone(), c.v, what) {
		ok := q.kind == ORet && c.eq(q.st, q.val(), want)
		c.r.check(ok, "meaning", c.construct(what), c.where(), "%s of the value built for %s is %s instead of %s (%s%s)", strings.TrimPrefix(what, "."), c.p.ref.rule, q.val(), want, c.cases, factsString(q.st.facts))
	}
}

// numberRange: a value is only built when the text denotes a number float64 has room for.
func (c *sctx) numberRange() {
	if c.prop != "C12" {
		return
	}
	et := types.Universe.Lookup("error").Type()
	err := mkApp("strconv.ParseFloat#1", et, c.text, mkInt(64))
	c.r.check(c.e.truth(c.o.st, mkEq(err, mkNil(et))) == 1, "meaning", c.construct("range"), c.where(), "a number is built although reading its text reported an error (%s%s)", c.cases, factsString(c.o.st.facts))
}

// like requires the result to report for what the same as another value.
func (c *sctx) like(prop, what string, x *T, xwhat string) {
	if !strings.Contains(prop, c.prop) {
		return
	}
	for _, q := range c.obs(c.o.st.clone(), x, xwhat) {
		d := *c
		o := *c.o
		o.st = q.st
		d.o = &o
		d.is(prop, what, q.val())
	}
}

// dyn requires the dynamic type of the result.
func (c *sctx) dyn(name string) bool {
	t := needType(c.r.p.typ("ast", name), "type ast."+name)
	got := c.o.val()
	ok := got != nil && got.k == KIface && (sameType(got.xt, t) || sameType(got.xt, types.NewPointer(t)))
	if c.prop == "C03" || !ok {
		c.r.check(ok, "meaning", c.construct("type"), c.where(), "the value built for %s is %s instead of a %s (%s%s)", c.p.ref.rule, got, name, c.cases, factsString(c.o.st.facts))
	}
	return ok
}

func (c *sctx) isType(x *T, name string) bool {
	return sameType(x.typ, needType(c.r.p.typ("ast", name), "type ast."+name))
}

// start is the position of the first character of the construct.
func (c *sctx) start() *T {
	t := needType(c.r.p.typ("ast", "Pos"), "type ast.Pos")
	f := func(n string) *T {
		ft := fieldType(structOf(c.sr.pos.typ), n)
		if ft == nil {
			panic(anchorError("field " + n + " of the position"))
		}
		return mkField(c.sr.pos, n, ft)
	}
	return structWith(t, "Line", f("line"), "Column", f("col"), "Offset", f("offset"))
}

func (c *sctx) starts() { c.is("C05", "Pos", c.start()) }

// comments is the comment block made of a white space label.
func (c *sctx) comments(label string, before, after bool) *T {
	cf := c.s.commentFn()
	return mkApp("comments", cf.Signature.Results().At(0).Type(), c.labels[label], mkBool(before), mkBool(after))
}

func none() *T { return mkSeq(nil) }

// inner is the matched text without its delimiters.
func (c *sctx) inner() *T {
	return mkSub(c.text, mkInt(1), linAddC(mkLen(c.text), -1), tString)
}

func (c *sctx) constOf(pkgType, name string) *T {
	return mkInt(needConst(c.r.p, "ast", name))
}

func (c *sctx) noOp() *T {
	t := needType(c.r.p.typ("ast", "BooleanOperator"), "type ast.BooleanOperator")
	return structWith(t, "Op", c.constOf("", "NoOperator"))
}

// withComment is the value of an attribute or array element with its comment.
func (c *sctx) sameAttr(v, x *T, comment *T) {
	d := *c
	d.v = v
	if c.isType(x, "Plugin") {
		if !d.typed(v, "PluginAttribute") {
			return
		}
		d.is("C03", "Name", mkStr(""))
		d.pluginOf(v, x)
		d.like("C05", "Pos", x, "Pos")
	} else {
		if !d.typedAs(v, x.typ) {
			return
		}
		d.attrContent(x, "Name")
		d.like("C05", "Pos", x, "Pos")
	}
	if comment != nil {
		d.is("C04", ".Comment", comment)
	}
}

func (c *sctx) typed(v *T, name string) bool {
	return c.typedAs(v, needType(c.r.p.typ("ast", name), "type ast."+name))
}

func (c *sctx) typedAs(v *T, t types.Type) bool {
	ok := v != nil && sameType(v.typ, t)
	if c.prop == "C03" || !ok {
		c.r.check(ok, "meaning", c.construct("type"), c.where(), "the value built for %s is %s instead of a %s (%s%s)", c.p.ref.rule, v, shortType(t), c.cases, factsString(c.o.st.facts))
	}
	return ok
}

// pluginOf requires the attribute to hold the plugin.
func (c *sctx) pluginOf(v, plugin *T) {
	if c.prop != "C03" {
		return
	}
	s := structOf(v.typ)
	ok := false
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if sameType(s.Field(i).Type(), plugin.typ) {
			ok = c.eq(c.o.st, mkField(v, s.Field(i).Name(), plugin.typ), plugin)
		}
	}
	c.r.check(ok, "meaning", c.construct("plugin"), c.where(), "the plugin used as value in %s is not the value of the attribute: %s (%s)", c.p.ref.rule, v, c.cases)
}

// attrContent requires the result to have the value of x, an attribute of the same type.
func (c *sctx) attrContent(x *T, name string) {
	if name != "" {
		c.like("C03", "Name", x, name)
	}
	switch {
	case c.isType(x, "StringAttribute"):
		c.like("C03", "Value", x, "Value")
		c.like("C03 C10", "StringAttributeType", x, "StringAttributeType")
	case c.isType(x, "NumberAttribute"):
		c.like("C03", "Value", x, "Value")
	case c.isType(x, "ArrayAttribute"):
		c.like("C03", ".Attributes", x, ".Attributes")
		c.like("C04", ".FooterComment", x, ".FooterComment")
	case c.isType(x, "HashAttribute"):
		c.like("C03", ".Entries", x, ".Entries")
		c.like("C04", ".FooterComment", x, ".FooterComment")
	case c.isType(x, "PluginAttribute"):
		s := structOf(x.typ)
		for i := 0; i < s.NumFields(); i++ {
			if c.isType(mkSym("", s.Field(i).Type()), "Plugin") {
				c.pluginOf(c.v, mkField(x, s.Field(i).Name(), s.Field(i).Type()))
			}
		}
	default:
		panic(anchorError("attribute type " + shortType(x.typ)))
	}
}

// block requires the fields of a block of plugins.
func (c *sctx) block(cond bool) {
	if cond {
		c.is("C03", ".Condition", c.l("cond"))
	}
	c.is("C03", ".Block", c.l("bops"))
	c.is("C04", ".Comment", none())
	c.is("C04", ".FooterComment", c.comments("footerComment", false, false))
	c.starts()
}

func (c *sctx) blockLike(v, x *T, cond bool, comment *T) {
	d := *c
	d.v = v
	if cond {
		d.like("C03", ".Condition", x, ".Condition")
	}
	d.like("C03", ".Block", x, ".Block")
	d.is("C04", ".Comment", comment)
	d.like("C04", ".FooterComment", x, ".FooterComment")
	d.like("C05", "Pos", x, "Pos")
}

func (c *sctx) exprAttrs() {
	c.is("C03 C10", "BoolOperator", c.noOp())
	c.starts()
}

var meanings = map[string]func(c *sctx){
	"emptyConfig": func(c *sctx) {
		if !c.dyn("Config") {
			return
		}
		c.is("C03", ".Input", none())
		c.is("C03", ".Filter", none())
		c.is("C03", ".Output", none())
		c.is("C04", ".FooterComment", none())
	},
	"same": func(c *sctx) {
		if c.prop == "C03" {
			c.r.check(c.eq(c.o.st, c.o.val(), c.labels[c.args[0]]), "meaning", c.construct("value"), c.where(), "the value of %s is %s instead of that of %s", c.p.ref.rule, c.o.val(), c.args[0])
			return
		}
		if !c.eq(c.o.st, c.o.val(), c.labels[c.args[0]]) {
			c.r.fail("meaning", c.construct("value"), c.where(), "the value of %s is %s instead of that of %s", c.p.ref.rule, c.o.val(), c.args[0])
		}
	},
	"retConfig": func(c *sctx) {
		if !c.dyn("Config") {
			return
		}
		for _, f := range []string{".Input", ".Filter", ".Output"} {
			c.like("C03", f, c.l("conf"), f)
			c.like("C04", f, c.l("conf"), f)
			c.like("C05", f, c.l("conf"), f)
		}
		c.like("C04", ".FooterComment", c.l("conf"), ".FooterComment")
	},
	"configSection": func(c *sctx) {
		if !c.dyn("PluginSection") {
			return
		}
		c.like("C03", ".PluginType", c.l("ps"), ".PluginType")
		c.like("C03", ".BranchOrPlugins", c.l("ps"), ".BranchOrPlugins")
		c.is("C04", ".CommentBlock", c.comments("psComment", false, false))
		c.like("C04", ".FooterComment", c.l("ps"), ".FooterComment")
		c.like("C05", "Pos", c.l("ps"), "Pos")
	},
	"whitespace": func(c *sctx) { c.dyn("Whitespace") },
	"config":     func(c *sctx) { c.sections() },
	"skip":       func(c *sctx) {},
	"enclosed":   func(c *sctx) {},
	"kind": func(c *sctx) {
		if c.prop != "C03" && c.prop != "C10" {
			return
		}
		v := c.v
		c.r.check(v != nil && v == c.constOf("", c.args[0]), "meaning", c.construct(c.args[0]), c.where(), "the section keyword stands for kind %s instead of %s", v, c.args[0])
	},
	"pluginSection": func(c *sctx) {
		if !c.dyn("PluginSection") {
			return
		}
		c.is("C03 C10", ".PluginType", c.l("pt"))
		c.is("C03", ".BranchOrPlugins", c.l("bops"))
		c.is("C04", ".CommentBlock", none())
		c.is("C04", ".FooterComment", c.comments("footerComment", false, false))
		c.starts()
	},
	"plugin": func(c *sctx) {
		if !c.dyn("Plugin") {
			return
		}
		c.like("C03", "Name", c.l("name"), "ValueString")
		c.is("C03", ".Attributes", c.listOf("attributes"))
		c.is("C04", ".Comment", c.comments("comment", false, false))
		c.is("C04", ".FooterComment", c.comments("footerComment", false, false))
		c.like("C05", "Pos", c.l("name"), "Pos")
	},
	"string": func(c *sctx) {
		if !c.dyn("StringAttribute") {
			return
		}
		c.is("C03", "Name", mkStr(""))
		if c.args[0] == "Bareword" {
			c.is("C03", "Value", c.text)
		} else {
			c.is("C03", "Value", c.inner())
		}
		c.is("C03 C10", "StringAttributeType", c.constOf("", c.args[0]))
		c.is("C04", ".Comment", none())
		c.starts()
	},
	"regexp": func(c *sctx) {
		if !c.dyn("Regexp") {
			return
		}
		c.is("C03", ".Regexp", c.inner())
		c.starts()
	},
	"number": func(c *sctx) {
		if !c.dyn("NumberAttribute") {
			return
		}
		c.is("C03", "Name", mkStr(""))
		want := mkApp("strconv.ParseFloat#0", types.Typ[types.Float64], c.text, mkInt(64))
		c.is("C03", "Value", want)
		c.is("C12", "Value", want)
		c.numberRange()
		c.is("C04", ".Comment", none())
		c.starts()
	},
	"array": func(c *sctx) {
		if !c.dyn("ArrayAttribute") {
			return
		}
		c.is("C03", "Name", mkStr(""))
		c.is("C03", ".Attributes", c.listOf("values"))
		c.is("C04", ".Comment", none())
		c.is("C04", ".FooterComment", c.comments("footerComment", false, false))
		c.starts()
	},
	"hash": func(c *sctx) {
		if !c.dyn("HashAttribute") {
			return
		}
		c.is("C03", "Name", mkStr(""))
		c.is("C03", ".Entries", c.listOf("entries"))
		c.is("C04", ".Comment", none())
		c.is("C04", ".FooterComment", c.comments("footerComment", false, false))
		c.starts()
	},
	"attribute": func(c *sctx) {
		v, x := c.v, c.l("value")
		if c.isType(x, "Plugin") {
			if !c.typed(v, "PluginAttribute") {
				return
			}
			c.pluginOf(v, x)
		} else {
			if !c.typedAs(v, x.typ) {
				return
			}
			c.attrContent(x, "")
		}
		c.like("C03", "Name", c.l("name"), "ValueString")
		c.is("C04", ".Comment", none())
		c.starts()
	},
	"attributeComment": func(c *sctx) {
		c.sameAttr(c.v, c.l(c.args[0]), c.comments("comment", true, false))
	},
	"attributes": func(c *sctx) {
		l := canonList(c.e.resolve(c.o.st, c.v))
		rest := canonList(c.l(c.args[1]))
		ok := l.k == KSeq && len(l.a) == 2 && l.a[0].k == KUnit && l.a[1] == rest || l.k == KSeq && len(l.a) == 1 && l.a[0].k == KUnit && c.eq(c.o.st, c.l(c.args[1]), none())
		c.r.check(ok, "meaning", c.construct("list"), c.where(), "the elements of the list are %s instead of the first element followed by the rest (%s%s)", l, c.cases, factsString(c.o.st.facts))
		if ok {
			c.sameAttr(l.a[0].a[0], c.l(c.args[0]), c.comments("comment", false, false))
		}
	},
	"comment": func(c *sctx) {},
	"hashentries": func(c *sctx) {
		if c.prop == "C04" {
			c.firstBlank()
		}
		if c.prop == "C03" || c.prop == "C04" || c.prop == "C05" {
			got := canonList(c.e.resolve(c.o.st, c.v))
			want := canonList(mkSeq(c.s.list, mkUnit(c.labels["hashentry"]), c.l("hashentries1")))
			c.r.check(c.eq(c.o.st, got, want), "meaning", c.construct("list"), c.where(), "the entries of the hash are %s instead of %s", got, want)
		}
	},
	"hashentry": func(c *sctx) {
		if !c.dyn("HashEntry") {
			return
		}
		c.is("C03", ".Key", c.labels["name"])
		x := c.l("value")
		for _, q := range c.obs(c.o.st.clone(), c.v, ".Value") {
			if c.isType(x, "Plugin") {
				d := *c
				d.v = bare(q.val())
				if d.typed(d.v, "PluginAttribute") {
					d.is("C03", "Name", mkStr(""))
					d.pluginOf(d.v, x)
					d.like("C05", "Pos", x, "Pos")
				}
			} else if c.prop == "C03" {
				c.r.check(c.eq(q.st, q.val(), x), "meaning", c.construct(".Value"), c.where(), "the value of the hash entry is %s instead of %s", q.val(), x)
			}
		}
		c.is("C04", ".Comment", c.comments("comment", true, false))
		c.like("C05", "Pos", c.l("name"), "Pos")
		c.like("C05", ".Start", c.l("name"), "Pos")
	},
	"elseIfComment": func(c *sctx) {
		if c.dyn("ElseIfBlock") {
			c.blockLike(c.v, c.l("eib"), true, c.comments("eibComment", false, false))
		}
	},
	"elseComment": func(c *sctx) {
		if c.dyn("ElseBlock") {
			c.blockLike(c.v, c.l("eb"), false, c.comments("ebComment", false, false))
		}
	},
	"branch": func(c *sctx) {
		if !c.dyn("Branch") {
			return
		}
		for _, q := range c.obs(c.o.st.clone(), c.v, ".IfBlock") {
			c.blockLike(q.val(), c.l("ifBlock"), true, c.comments("ifComment", false, false))
		}
		c.is("C03", ".ElseIfBlock", c.l("elseIfBlocks"))
		if c.has("elseBlock") {
			c.is("C03", ".ElseBlock", c.l("elseBlock"))
		} else {
			c.is("C03", ".ElseBlock", zeroOf(needType(c.r.p.typ("ast", "ElseBlock"), "type ast.ElseBlock")))
		}
		c.like("C05", "Pos", c.l("ifBlock"), "Pos")
	},
	"branchOrPluginComment": func(c *sctx) {
		x := c.l("bop")
		if !c.typedAs(c.v, x.typ) {
			return
		}
		if c.isType(x, "Plugin") {
			c.like("C03", "Name", x, "Name")
			c.like("C03", ".Attributes", x, ".Attributes")
			c.is("C04", ".Comment", c.comments("comment", false, false))
			c.like("C04", ".FooterComment", x, ".FooterComment")
			c.like("C05", "Pos", x, "Pos")
			return
		}
		for _, q := range c.obs(c.o.st.clone(), c.v, ".IfBlock") {
			c.blockLike(q.val(), mkField(x, "IfBlock", q.val().typ), true, c.comments("comment", false, false))
		}
		c.like("C03", ".ElseIfBlock", x, ".ElseIfBlock")
		c.like("C03", ".ElseBlock", x, ".ElseBlock")
		c.like("C05", "Pos", x, "Pos")
	},
	"ifBlock": func(c *sctx) {
		if c.dyn("IfBlock") {
			c.block(true)
		}
	},
	"elseIfBlock": func(c *sctx) {
		if c.dyn("ElseIfBlock") {
			c.block(true)
		}
	},
	"elseBlock": func(c *sctx) {
		if c.dyn("ElseBlock") {
			c.block(false)
		}
	},
	"condition": func(c *sctx) {
		if !c.dyn("Condition") {
			return
		}
		c.is("C03", ".Expression", mkSeq(c.s.list, mkUnit(c.labels["cond"]), c.l("conds")))
		c.like("C05", "Pos", c.l("cond"), "Pos")
	},
	"expression": func(c *sctx) {
		x := c.l("cond")
		if c.prop == "C03" {
			c.r.check(c.eq(c.o.st, c.o.val(), x), "meaning", c.construct("value"), c.where(), "the operand of the condition is %s instead of %s", c.o.val(), x)
		}
		c.is("C03 C10", "BoolOperator", c.l("bo"))
		if structOf(x.typ) != nil {
			for _, ob := range exprObs(shortType(x.typ)) {
				prop := "C03"
				if strings.HasSuffix(ob, "Operator") {
					prop = "C03 C10"
				}
				c.like(prop, ob, x, ob)
			}
		}
		c.like("C05", "Pos", x, "Pos")
	},
	"conditionExpression": func(c *sctx) {
		if c.dyn("ConditionExpression") {
			c.is("C03", ".Condition", c.l("cond"))
			c.exprAttrs()
		}
	},
	"negativeExpression": func(c *sctx) {
		if c.dyn("NegativeConditionExpression") {
			c.is("C03", ".Condition", c.l("cond"))
			c.exprAttrs()
		}
	},
	"negativeSelector": func(c *sctx) {
		if c.dyn("NegativeSelectorExpression") {
			c.is("C03", ".Selector", c.l("sel"))
			c.exprAttrs()
		}
	},
	"inExpression": func(c *sctx) {
		if c.dyn("InExpression") {
			c.is("C03", ".LValue", c.l("lv"))
			c.is("C03", ".RValue", c.l("rv"))
			c.exprAttrs()
		}
	},
	"notInExpression": func(c *sctx) {
		if c.dyn("NotInExpression") {
			c.is("C03", ".LValue", c.l("lv"))
			c.is("C03", ".RValue", c.l("rv"))
			c.exprAttrs()
		}
	},
	"compareExpression": func(c *sctx) {
		if c.dyn("CompareExpression") {
			c.is("C03", ".LValue", c.l("lv"))
			c.is("C03 C10", ".CompareOperator", c.l("co"))
			c.is("C03", ".RValue", c.l("rv"))
			c.exprAttrs()
		}
	},
	"regexpExpression": func(c *sctx) {
		if c.dyn("RegexpExpression") {
			c.is("C03", ".LValue", c.l("lv"))
			c.is("C03 C10", ".RegexpOperator", c.l("ro"))
			c.is("C03", ".RValue", c.l("rv"))
			c.exprAttrs()
		}
	},
	"rvalue": func(c *sctx) {
		if c.dyn("RvalueExpression") {
			c.is("C03", ".RValue", c.l("rv"))
			c.exprAttrs()
		}
	},
	"compareOperator": func(c *sctx) {
		c.operator("CompareOperator", map[string]string{"==": "Equal", "!=": "NotEqual", "<=": "LessOrEqual", ">=": "GreaterOrEqual", "<": "LessThan", ">": "GreaterThan"})
	},
	"regexpOperator": func(c *sctx) {
		c.operator("RegexpOperator", map[string]string{"=~": "RegexpMatch", "!~": "RegexpNotMatch"})
	},
	"booleanOperator": func(c *sctx) {
		c.operator("BooleanOperator", map[string]string{"and": "And", "or": "Or", "xor": "Xor", "nand": "Nand"})
	},
	"selector": func(c *sctx) {
		if c.dyn("Selector") {
			c.is("C03", ".Elements", c.l("ses"))
			c.starts()
		}
	},
	"selectorElement": func(c *sctx) {
		if c.dyn("SelectorElement") {
			c.is("C03", "String", mkCat(mkStr("["), c.inner(), mkStr("]")))
			c.starts()
		}
	},
}

func exprObs(t string) []string {
	for _, cs := range exprCtors {
		if strings.HasSuffix(t, strings.TrimPrefix(cs.fn, "New")) && strings.TrimSuffix(t, strings.TrimPrefix(cs.fn, "New")) != t {
			var out []string
			for _, o := range cs.obs {
				if o.what != "BoolOperator" {
					out = append(out, o.what)
				}
			}
			if strings.HasSuffix(t, "."+strings.TrimPrefix(cs.fn, "New")) {
				return out
			}
		}
	}
	return nil
}

func (c *sctx) operator(typ string, table map[string]string) {
	if !c.dyn(typ) {
		return
	}
	c.starts()
	if !c.text.isStr() {
		panic(anchorError("operator token"))
	}
	want := table[c.text.str()]
	if want == "" {
		c.r.fail("meaning", c.construct(c.text.str()), c.where(), "the text %q is no operator of this kind", c.text.str())
		return
	}
	c.is("C03 C10", ".Op", c.constOf("", want))
}

// texts lists the finite language of an expression; ok is false when it is not finite and small.
func (s *semTab) texts(n *gnode) (out []string, ok bool) {
	m := s.side.deref(n)
	if m == nil {
		return nil, false
	}
	switch m.kind {
	case "lit":
		return []string{m.lit}, !m.ic
	case "class":
		for _, r := range m.set {
			if r[1]-r[0] > 8 {
				return nil, false
			}
			for c := r[0]; c <= r[1]; c++ {
				out = append(out, string(c))
			}
		}
		return out, !m.ic
	case "label", "action":
		return s.texts(m.kids[0])
	case "andcode", "notcode":
		if sh := s.shape(m); sh.never {
			return nil, true
		}
		return []string{""}, true
	case "statecode", "and", "not":
		return []string{""}, true
	case "choice":
		for _, k := range m.kids {
			t, ok := s.texts(k)
			if !ok {
				return nil, false
			}
			out = append(out, t...)
		}
		return out, len(out) < 64
	case "seq":
		out = []string{""}
		for _, k := range m.kids {
			t, ok := s.texts(k)
			if !ok || len(out)*len(t) > 64 {
				return nil, false
			}
			var nx []string
			for _, a := range out {
				for _, b := range t {
					nx = append(nx, a+b)
				}
			}
			out = nx
		}
		return out, true
	}
	return nil, false
}

// minLen is the least number of bytes an expression matches.
func (s *semTab) minLen(n *gnode, open map[*gnode]bool) int64 {
	m := s.side.deref(n)
	if m == nil || open[m] {
		return 0
	}
	o2 := map[*gnode]bool{m: true}
	for k := range open {
		o2[k] = true
	}
	switch m.kind {
	case "lit":
		return int64(len(m.lit))
	case "class", "any":
		return 1
	case "label", "action", "plus":
		return s.minLen(m.kids[0], o2)
	case "seq":
		var t int64
		for _, k := range m.kids {
			t += s.minLen(k, o2)
		}
		return t
	case "choice":
		t := int64(-1)
		for _, k := range m.kids {
			if sh := s.shape(k); sh != nil && sh.never {
				continue
			}
			if l := s.minLen(k, o2); t < 0 || l < t {
				t = l
			}
		}
		if t > 0 {
			return t
		}
	}
	return 0
}

// cases enumerates the dynamic types of the labels of a code node.
func (s *semTab) cases(p *npair) []map[string]*T {
	out := []map[string]*T{{}}
	for _, name := range sortedKeys(p.scope) {
		sh := s.shape(p.kids[name])
		if sh == nil {
			panic(anchorError("shape of label " + name))
		}
		var nx []map[string]*T
		for _, m := range out {
			for _, t := range sh.types {
				x := mkNil(s.any)
				if t != nil {
					x = mkIface(t, mkSym(name, t), s.any)
				}
				m2 := map[string]*T{name: x}
				for k, v := range m {
					m2[k] = v
				}
				nx = append(nx, m2)
			}
		}
		out = nx
	}
	return out
}

// semRule evaluates every code node under every combination of label types.
func (r *Rep) semRule(prop string, visit func(c *sctx)) {
	s := r.sem()
	for i, d := range s.al.diffs {
		r.fail("grammar", s.al.dkeys[i], "", "%s", d)
	}
	if len(s.al.diffs) > 0 && prop != "C01" {
		// without a correspondence of the code nodes nothing can be said
		r.note("the parser table differs from the reference grammar")
	}
	for _, p := range s.al.pairs {
		name, args := semName(p.ref)
		texts := []*T{mkSym("text", tString)}
		if p.ref.kind == "action" {
			if ts, ok := s.texts(p.sub.kids[0]); ok && len(ts) > 0 {
				texts = nil
				for _, t := range ts {
					texts = append(texts, mkStr(t))
				}
			}
		}
		for _, text := range texts {
			for _, given := range s.cases(p) {
				c := &sctx{s: s, r: r, prop: prop, p: p, name: name, args: args, text: text}
				c.sr = s.run(p, text, given, s.conf)
				c.e = c.sr.e
				c.labels = c.sr.labels
				for _, n := range sortedKeys(given) {
					if sh := s.shape(p.kids[n]); len(sh.types) > 1 {
						t := "absent"
						if given[n].k == KIface {
							t = shortType(given[n].xt)
						}
						c.cases += fmt.Sprintf("%s %s, ", n, t)
					}
				}
				if len(c.sr.outs) == 0 {
					r.fail("meaning", c.construct("returns"), c.where(), "the code never returns")
				}
				for i := range c.sr.outs {
					o := &c.sr.outs[i]
					c.o = o
					if len(o.vals) > 0 {
						c.v = bare(c.e.resolve(o.st, o.vals[0]))
					}
					visit(c)
				}
				r.done("meaning", c.e, c.construct(""))
			}
		}
	}
}

// ruleMeaning compares every observation of one property.
func (r *Rep) ruleMeaning(prop string, min int) {
	r.semRule(prop, func(c *sctx) {
		if c.p.ref.kind != "action" || c.o.kind != ORet || len(c.o.vals) != 2 || !c.o.vals[1].isNil() {
			// refusals are C01
			return
		}
		if f := meanings[c.name]; f != nil {
			f(c)
		}
		if prop == "C03" {
			c.effects()
		}
	})
	r.floor("meaning", min)
}

// effects: building a value changes nothing but the value.
func rootSym(a *T, labels map[string]*T) bool {
	found := false
	walkTerm(a, func(x *T) bool {
		for _, l := range labels {
			if x == l || x == bare(l) {
				found = true
			}
		}
		return true
	})
	return found
}

func (c *sctx) effects() {
	for _, ev := range c.o.st.ev {
		c.effect(ev)
	}
}

func (c *sctx) effect(ev *Ev) {
	switch ev.kind {
	case "loop":
		for _, t := range ev.lp.trans {
			for _, x := range t.ev {
				c.effect(x)
			}
		}
	case "hazard", "lock", "unlock":
	case "store":
		switch c.name {
		case "hashentries", "expression":
			// the blank line before the first entry (C04), the operator of the operand
			if rootSym(ev.args[0], c.labels) {
				return
			}
		}
		c.r.fail("effects", c.construct(ev.String()), c.where(), "the code for %s changes something else than its value: %s", c.p.ref.rule, ev)
	default:
		c.r.fail("effects", c.construct(ev.String()), c.where(), "the code for %s changes something else than its value: %s", c.p.ref.rule, ev)
	}
}

// sections: the sections of the text are distributed over the three lists by kind, in order, the first with the comments
// before it.
func (c *sctx) sections() {
	if c.prop != "C03" && c.prop != "C04" && c.prop != "C05" || !c.dyn("Config") {
		return
	}
	c.is("C04", ".FooterComment", c.comments("footerComment", true, false))
	first, rest := c.labels["ps"], c.l("pss")
	st := c.o.st
	var lp *Loop
	for _, ev := range st.ev {
		if ev.lp != nil {
			if lp != nil && lp != ev.lp {
				panic(anchorError("one loop over the sections of a configuration"))
			}
			lp = ev.lp
		}
	}
	secT := needType(c.r.p.typ("ast", "PluginSection"), "type ast.PluginSection")
	whole := mkSeq(c.s.list, mkUnit(first), rest)
	overWhole, overRest := false, false
	if lp != nil {
		if c.e.iterates(lp, whole, st) {
			overWhole = true
		} else if c.e.iterates(lp, rest, st) {
			overRest = true
		}
	}
	noRest := c.e.truth(st, mkEQ0(mkLen(rest))) == 1
	c.r.check(overWhole || overRest || noRest && lp == nil, "sections", c.construct("all sections"), c.where(), "not every section of the text is taken over into the tree (%s)", factsString(st.facts))
	if !overWhole && !overRest && !noRest {
		return
	}
	kinds := []struct {
		field string
		k     int64
	}{{".Input", needConst(c.r.p, "ast", "Input")}, {".Filter", needConst(c.r.p, "ast", "Filter")}, {".Output", needConst(c.r.p, "ast", "Output")}}
	for _, kd := range kinds {
		var list *T
		for _, q := range c.obs(st.clone(), c.v, kd.field) {
			list = unconv(q.val())
		}
		var parts []*T
		switch {
		case list.isNil():
		case list.k == KSeq:
			parts = list.a
		default:
			parts = []*T{list}
		}
		if !overWhole {
			// the first section is handled on its own
			ty := c.e.resolve(st, mkField(first.a[0], "PluginType", fieldType(structOf(secT), "PluginType")))
			switch c.e.truth(st, mkEQ0(linAddC(ty, -kd.k))) {
			case 1:
				ok := len(parts) > 0 && parts[0].k == KUnit
				c.r.check(ok, "sections", c.construct(kd.field+" first"), c.where(), "the first section is missing in the list of its kind")
				if ok {
					c.section(st, parts[0].a[0], first.a[0], true, kd.field)
					parts = parts[1:]
				}
			case -1:
				c.r.fail("sections", c.construct(kd.field+" kind"), c.where(), "the kind of the first section does not decide its place (%s)", factsString(st.facts))
				continue
			}
		}
		exit := -1
		key := ""
		switch {
		case len(parts) == 0:
		case len(parts) == 1 && parts[0].k == KLoopAcc && parts[0].lp == lp:
			exit, key = parts[0].hi, parts[0].cmp.key
		default:
			c.r.fail("sections", c.construct(kd.field+" extra"), c.where(), "the sections of this kind are %s", list)
			continue
		}
		if lp == nil {
			continue
		}
		if exit < 0 {
			// nothing of this kind may be met on the way out; the way is given by the exits of the other lists
			exit = c.exitHead(lp)
			if exit < 0 {
				// no element was collected at all
				if !noRest || overWhole {
					c.r.fail("sections", c.construct(kd.field+" lost"), c.where(), "sections are lost: all lists are empty although there are sections (%s)", factsString(st.facts))
				}
				continue
			}
		}
		co := coReach(lp, exit)
		base := whole
		if overRest {
			base = rest
		}
		for _, t := range lp.trans {
			if !co[t.to] || !co[t.from] {
				continue
			}
			ts := c.e.stOf(append(append(append([]*T{}, t.ord...), lp.heads[t.from].carry...), t.facts...))
			if t.from == 0 {
				c.e.assume(ts, mkEQ0(lp.K))
			}
			el := mkAs(mkElem(base, lp.K, c.s.any), secT)
			ty := c.e.resolve(ts, mkField(el, "PluginType", fieldType(structOf(secT), "PluginType")))
			em := t.emit[key]
			switch c.e.truth(ts, mkEQ0(linAddC(ty, -kd.k))) {
			case 1:
				ok := len(em) == 1 && em[0].k == KUnit
				c.r.check(ok, "sections", c.construct(kd.field), c.where(), "a section of this kind is not added once to the list of its kind but gives %v", em)
				if ok {
					c.section(ts, em[0].a[0], el, overWhole && t.from == 0, kd.field)
				}
			case 0:
				c.r.check(key == "" || len(em) == 0, "sections", c.construct(kd.field+" foreign"), c.where(), "a section of another kind is added to this list: %v", em)
			default:
				c.r.fail("sections", c.construct(kd.field+" kind"), c.where(), "the kind of a section does not decide its place (%s)", factsString(t.facts))
			}
		}
	}
}

// exitHead is the state in which the loop ended on this path, read off its collected lists.
func (c *sctx) exitHead(lp *Loop) int {
	h := -1
	walkTerm(c.v, func(x *T) bool {
		if x.k == KLoopAcc && x.lp == lp {
			h = x.hi
		}
		return true
	})
	return h
}

func coReach(lp *Loop, target int) map[int]bool {
	co := map[int]bool{target: true}
	for again := true; again; {
		again = false
		for _, t := range lp.trans {
			if co[t.to] && !co[t.from] {
				co[t.from], again = true, true
			}
		}
	}
	return co
}

// section compares a section of the tree with the one parsed.
func (c *sctx) section(st *St, got, el *T, first bool, field string) {
	got = bare(got)
	s := structOf(el.typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		prop := "C03"
		want := mkField(el, f.Name(), f.Type())
		switch f.Name() {
		case "Start":
			prop = "C05"
		case "CommentBlock":
			prop = "C04"
			if first {
				want = c.comments("psComment", false, true)
			}
		case "FooterComment":
			prop = "C04"
		}
		if !strings.Contains(prop, c.prop) {
			continue
		}
		g := mkField(got, f.Name(), f.Type())
		c.r.check(c.eq(st, g, want), "sections", c.construct(field+"."+f.Name()), c.where(), "%s of a section becomes %s instead of %s", f.Name(), g, want)
	}
}
