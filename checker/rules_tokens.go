package main

// C10: operators and kinds and their tokens.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type tokenTable struct {
	typ    string
	field  string // field of the type holding the constant, "" when the type is the constant
	tokens [][2]string
	none   string // constant without a token
	quotes bool
	users  int
}

var tokenTables = []tokenTable{
	{typ: "PluginType", tokens: [][2]string{{"Input", "input"}, {"Filter", "filter"}, {"Output", "output"}}},
	{typ: "StringAttributeType", tokens: [][2]string{{"DoubleQuoted", `"`}, {"SingleQuoted", "'"}, {"Bareword", ""}}, quotes: true, users: 1},
	{typ: "CompareOperator", field: "Op", tokens: [][2]string{{"Equal", "=="}, {"NotEqual", "!="}, {"LessOrEqual", "<="}, {"GreaterOrEqual", ">="}, {"LessThan", "<"}, {"GreaterThan", ">"}}, users: 1},
	{typ: "RegexpOperator", field: "Op", tokens: [][2]string{{"RegexpMatch", "=~"}, {"RegexpNotMatch", "!~"}}, users: 1},
	{typ: "BooleanOperator", field: "Op", tokens: [][2]string{{"And", "and"}, {"Or", "or"}, {"Xor", "xor"}, {"Nand", "nand"}}, none: "NoOperator", users: 8},
}

// words are the words of the constant parts of a text.
func constWords(t *T) (out []string) {
	for _, p := range partsOf2(t) {
		if p.isConst() && p.isStr() {
			out = append(out, strings.Fields(p.str())...)
		}
	}
	return
}

// bracketWords joins words, without blanks after ! and inside of ( ).
func bracketWords(ws []string) string {
	return strings.NewReplacer("( )", "()", "! (", "!(").Replace(strings.Join(ws, " "))
}

func ruleTokens(r *Rep) {
	astT := func(n string) types.Type { return needType(r.p.typ("ast", n), "type ast."+n) }
	beT := astT("BoolExpression")
	// fixed words of expressions whose operator is their kind
	fixed := map[string]string{"InExpression": "in", "NotInExpression": "not in", "NegativeConditionExpression": "!()", "ConditionExpression": "()", "NegativeSelectorExpression": "!"}
	scope := r.p.pkg("ast").Pkg.Scope()
	for _, tb := range tokenTables {
		kt := astT(tb.typ)
		vals := map[int64]string{}
		names := append([][2]string{}, tb.tokens...)
		if tb.none != "" {
			names = append(names, [2]string{tb.none, ""})
		}
		value := func(st *St, n string) *T {
			k := mkInt(needConst(r.p, "ast", n))
			if tb.field == "" {
				return k
			}
			return setField(mkSym("op", kt), tb.field, k)
		}
		users := 0
		for _, nt := range names {
			n, token := nt[0], nt[1]
			k := needConst(r.p, "ast", n)
			r.check(vals[k] == "", "token", tb.typ+" "+n+" value", "", "the constants %s and %s are the same", n, vals[k])
			vals[k] = n
			fn := need(r.p.method("ast", tb.typ, "String"), "method "+tb.typ+".String")
			e := r.exec()
			for _, o := range e.Call(fn, []*T{value(nil, n)}, nil, newSt(), nil, nil) {
				ok := o.kind == ORet && o.vals[0].isConst() && o.vals[0].isStr() && strings.TrimSpace(o.vals[0].str()) == token
				r.check(ok, "token", tb.typ+" "+n+" text", r.fnWhere(fn), "the text of %s is %v instead of %q", n, o.val(), token)
			}
			r.done("token", e, tb.typ+"."+n)
			for _, un := range scope.Names() {
				tn, ok := scope.Lookup(un).(*types.TypeName)
				if !ok || tn.IsAlias() || structOf(tn.Type()) == nil || un == tb.typ || un == "BoolExpression" || un == "PluginSection" {
					continue
				}
				ut := tn.Type()
				path, ptr := "", false
				s := structOf(ut)
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if sameType(f.Type(), kt) {
						path = f.Name()
					}
					if tb.typ == "BooleanOperator" && sameType(ptrElem(f.Type()), beT) {
						path, ptr = f.Name(), true
					}
				}
				if path == "" {
					continue
				}
				m := "String"
				if r.p.method("ast", un, "ValueString") != nil && tb.quotes {
					m = "ValueString"
				}
				ufn := r.p.method("ast", un, m)
				if ufn == nil {
					continue
				}
				users++
				r.printsToken(ufn, ut, un, path, ptr, tb, n, token, value(nil, n), fixed[un])
			}
		}
		r.check(users >= tb.users*len(names), "token", tb.typ+" users", "", "only %d values hold a %s", users/len(names), tb.typ)
	}
	r.sectionTokens()
	r.floor("token", 90)
}

// sectionTokens: the list of sections of a kind is printed with the token of this kind and of no other.
func (r *Rep) sectionTokens() {
	ct := needType(r.p.typ("ast", "Config"), "type ast.Config")
	fn := need(r.p.method("ast", "Config", "String"), "method Config.String")
	tb := tokenTables[0]
	for _, nt := range tb.tokens {
		x := mkSym("x", ct)
		st := newSt()
		for _, f := range tb.tokens {
			ft := needType(fieldType(structOf(ct), f[0]), "Config."+f[0])
			if f[0] != nt[0] {
				x = setField(x, f[0], mkNil(ft))
			}
		}
		e := r.exec()
		e.assume(st, mkLE(linAddC(linScale(mkLen(mkField(x, nt[0], fieldType(structOf(ct), nt[0]))), -1), 1)))
		n := 0
		for _, o := range e.Call(fn, []*T{x}, nil, st, nil, nil) {
			fs := factsString(o.st.facts)
			if o.kind != ORet {
				r.fail("token", "section "+nt[0], r.fnWhere(fn), "Config.String panics (%s)", fs)
				continue
			}
			n++
			words := map[string]bool{}
			loopWords(o.vals[0], words, map[*T]bool{})
			for _, f := range tb.tokens {
				r.check(words[f[1]] == (f[0] == nt[0]), "token", "section "+nt[0], r.fnWhere(fn), "a configuration with sections of kind %s only has %q in its text: %v (%s)", nt[0], f[1], words[f[1]], fs)
			}
		}
		r.check(n > 0, "token", "section "+nt[0], r.fnWhere(fn), "Config.String has no outcome")
		r.done("token", e, "section "+nt[0])
	}
}

// loopWords collects the words of the constant parts of a text, including those the loops it is built by append.
func loopWords(t *T, out map[string]bool, seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, p := range partsOf2(t) {
		switch {
		case p.isConst() && p.isStr():
			for _, w := range strings.FieldsFunc(p.str(), func(r rune) bool { return !unicode.IsLetter(r) }) {
				out[w] = true
			}
		case p.k == KLoopAcc && p.cmp != nil:
			if p.cmp.init != nil {
				loopWords(p.cmp.init, out, seen)
			}
			for _, tr := range p.lp.trans {
				for _, u := range tr.emit[p.cmp.key] {
					loopWords(u, out, seen)
				}
			}
		default:
			walkTerm(p, func(u *T) bool {
				if u != p && (u.k == KLoopAcc || u.isConst() && u.isStr()) {
					loopWords(u, out, seen)
				}
				return true
			})
		}
	}
}

// printsToken: the text of a value holding the kind contains its token, once (or around the value), and no other of the table.
func (r *Rep) printsToken(fn *ssa.Function, ut types.Type, un, path string, ptr bool, tb tokenTable, n, token string, k *T, fixed string) {
	e := r.exec()
	st := newSt()
	x := mkSym("x", ut)
	if ptr {
		ft := fieldType(structOf(ut), path)
		cell := mk(&T{k: KAddr, s: "operator", typ: ft})
		be := mkSym("operator", ptrElem(ft))
		s := structOf(ptrElem(ft))
		for i := 0; i < s.NumFields(); i++ {
			if sameType(s.Field(i).Type(), r.p.typ("ast", tb.typ)) {
				be = setField(be, s.Field(i).Name(), k)
			}
		}
		st.mem[cell] = be
		x = setField(x, path, cell)
	} else {
		x = setField(x, path, k)
	}
	recv := x
	if len(fn.Params) > 0 && ptrElem(fn.Params[0].Type()) != nil {
		recv = mk(&T{k: KAddr, s: "value", typ: fn.Params[0].Type()})
		st.mem[recv] = x
	}
	where := r.fnWhere(fn)
	outs := e.Call(fn, []*T{recv}, nil, st, nil, nil)
	construct := un + " with " + n
	if len(outs) == 0 {
		r.fail("token", construct, where, "%s has no outcome", fn)
	}
	for _, o := range outs {
		fs := factsString(o.st.facts)
		if o.kind != ORet {
			r.fail("token", construct, where, "%s panics (%s)", fn, fs)
			continue
		}
		v := o.vals[0]
		if tb.quotes {
			ps := partsOf2(v)
			var inner []*T
			ok := len(ps) > 0
			if token != "" {
				ok = len(ps) >= 2 && ps[0].isConst() && ps[0].str() == token && ps[len(ps)-1].isConst() && ps[len(ps)-1].str() == token
				if ok {
					inner = ps[1 : len(ps)-1]
				}
			} else {
				inner = ps
			}
			for _, p := range inner {
				if p.isConst() {
					ok = false
				}
			}
			r.check(ok, "token", construct, where, "%s prints a value of kind %s as %s (%s)", fn, n, v, fs)
			continue
		}
		want := strings.Fields(token)
		got, others := 0, ""
		words := constWords(v)
		var rest []string
		for _, w := range words {
			if len(want) == 1 && w == want[0] {
				got++
				continue
			}
			other := false
			for _, t := range tb.tokens {
				if w == t[1] {
					others, other = w, true
				}
			}
			if !other {
				rest = append(rest, w)
			}
		}
		r.check(got == len(want) && others == "", "token", construct, where, "%s prints %s as %s (%s)", fn, n, v, fs)
		if fixed != "" {
			r.check(bracketWords(rest) == fixed, "token", un+" operator", where, "%s prints its operator as %q instead of %q (%s)", fn, strings.Join(rest, " "), fixed, fs)
		} else if ptr {
			// the operator is in front of the operand
			lead := partsOf2(v)
			ok := token == "" || len(lead) > 0 && lead[0].isConst() && strings.HasPrefix(strings.TrimSpace(lead[0].str()), token)
			r.check(ok, "token", construct+" in front", where, "%s does not print %s in front: %s (%s)", fn, n, v, fs)
		}
		r.operands(fn, ut, un, v, token, fs)
	}
	r.done("token", e, fmt.Sprint(fn, n))
}

// operands: the left operand stands before the operator, the right one behind.
func (r *Rep) operands(fn *ssa.Function, ut types.Type, un string, v *T, token, fs string) {
	s := structOf(ut)
	if fieldType(s, "LValue") == nil || fieldType(s, "RValue") == nil {
		return
	}
	l, op, rt := -1, -1, -1
	opType := fmt.Sprint(un[:len(un)-len("Expression")], "Operator")
	for i, p := range partsOf2(v) {
		if p.isConst() && l >= 0 && rt < 0 && strings.TrimSpace(p.str()) != "" {
			op = i
		}
		walkTerm(p, func(x *T) bool {
			switch {
			case x.k == KField && x.s == "LValue":
				l = i
			case x.k == KField && x.s == "RValue":
				rt = i
			case x.k == KField && x.s == opType:
				op = i
			}
			return true
		})
	}
	r.check(l < 0 || rt < 0 || l < op && op < rt, "token", un+" operands", r.fnWhere(fn), "%s does not print the operator between its operands: %s (%s)", fn, v, fs)
}
