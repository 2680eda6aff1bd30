package main

import (
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The text of a number (C12): every path of the printer must return a text known to denote the stored value.

type numText struct {
	r  *Rep
	e  *Exec
	st *St
	v  *T
}

// verb reads a term made by one formatting of the value: the kind ('g', 'f', 'e', 'd') and the precision (-1: shortest).
func (n *numText) verb(t *T) (kind byte, prec int, x *T) {
	if t.k != KApp {
		return
	}
	arg := func(x *T) *T {
		if x.k == KIface {
			return x.a[0]
		}
		return x
	}
	switch {
	case strings.HasPrefix(t.s, "fmt:%") && len(t.a) == 1:
		f := t.s[len("fmt:%"):]
		kind = f[len(f)-1]
		prec = -1
		if mid := f[:len(f)-1]; mid != "" {
			p, err := strconv.Atoi(strings.TrimPrefix(mid, "."))
			if err != nil || mid[0] != '.' {
				return 0, 0, nil
			}
			prec = p
		} else if kind == 'f' || kind == 'e' {
			prec = 6
		}
		if kind == 'v' {
			kind = 'g'
		}
		if x = arg(t.a[0]); x.typ == nil || !types.Identical(x.typ.Underlying(), types.Typ[types.Float64]) {
			return 0, 0, nil
		}
		return kind, prec, x
	case t.s == "strconv.FormatFloat" && len(t.a) == 4 && t.a[1].isInt() && t.a[2].isInt() && t.a[3].isInt() && t.a[3].int() == 64:
		return byte(t.a[1].int()), int(t.a[2].int()), t.a[0]
	case t.s == "itoa" && len(t.a) == 1:
		return 'd', 0, arg(t.a[0])
	case t.s == "strconv.FormatInt" && len(t.a) == 2 && t.a[1].isInt() && t.a[1].int() == 10:
		return 'd', 0, t.a[0]
	}
	return
}

// strip removes what takes characters off the end of a fixed text; same tells that only zeros behind the point, and
// then the point, were taken, so that the text denotes the same number.
func (n *numText) strip(t *T) (base *T, same bool) {
	if t.k == KApp && len(t.a) == 2 && t.a[1].isStr() && (t.s == "strings.TrimRight" || t.s == "strings.TrimSuffix") {
		b, ok := n.strip(t.a[0])
		cut := t.a[1].str()
		kind, prec, _ := n.verb(b)
		switch {
		case !ok || kind != 'f':
			return b, false
		case cut == "0" && prec > 0 && t.a[0] == b && t.s == "strings.TrimRight":
			return b, true
		case cut == "." && prec > 0:
			// the point is only at the end when every zero behind it was taken
			return b, true
		}
		return b, false
	}
	return t, true
}

func (n *numText) fact(c *T) bool { return n.e.truth(n.st, c) == 1 }

// noExponent: the path knows that the text has no "e".
func (n *numText) noExponent(t *T) bool {
	for _, e := range []string{"e", "e+", "e-"} {
		if e == "e" && n.fact(mkEQ0(linAddC(mkApp("strings.Index", types.Typ[types.Int], t, mkStr(e)), 1))) {
			return true
		}
	}
	for _, s := range []string{"eE", "Ee", "e+-", "e+", "e-", "+e", ".e"} {
		if n.fact(mkNot(mkApp("strings.ContainsAny", tBool, t, mkStr(s)))) {
			return true
		}
	}
	return false
}

// integral: the path knows that the value is an integer that conv(value), an int64, holds.
func (n *numText) integral(conv *T) string {
	if conv != nil && n.fact(mkEq(n.v, mkConv(types.Typ[types.Float64], conv))) {
		return ""
	}
	whole := false
	for _, f := range []string{"math.Trunc", "math.Floor", "math.Ceil", "math.Round", "math.RoundToEven"} {
		whole = whole || n.fact(mkEq(n.v, mkApp(f, types.Typ[types.Float64], n.v)))
	}
	if !whole {
		return "the path does not know that the value is an integer"
	}
	if conv == nil {
		return ""
	}
	hi, lo := n.bound()
	if !hi || !lo {
		return "the path does not know that the integer fits into 64 bits"
	}
	return ""
}

// bound looks for comparisons of the value, or of its absolute value, with constants.
func (n *numText) bound() (hi, lo bool) {
	const lim = 1 << 63
	num := func(t *T) (float64, bool) {
		if t.k != KConst || t.cv == nil {
			return 0, false
		}
		f, _ := constant.Float64Val(constant.ToFloat(t.cv))
		return f, true
	}
	for _, f := range n.st.facts {
		neg := f.k == KNot
		if neg {
			f = f.a[0]
		}
		if f.k != KCmp || f.s != "<" && f.s != "<=" {
			continue
		}
		l, h, strict := f.a[0], f.a[1], f.s == "<"
		if neg { // !(l < h) is h <= l
			l, h, strict = h, l, !strict
		}
		abs := func(x *T) bool { return x.k == KApp && x.s == "math.Abs" && x.a[0] == n.v }
		if c, ok := num(h); ok && (l == n.v || abs(l)) && (c < lim || c == lim && strict) {
			hi = true
			lo = lo || abs(l)
		}
		if c, ok := num(l); ok && h == n.v && c >= -lim {
			lo = true
		}
	}
	return
}

// guarded: the path knows that reading the text gives the value.
func (n *numText) guarded(t *T) (val, noErr bool) {
	for _, s := range n.st.facts {
		walkTerm(s, func(x *T) bool {
			if x.k == KApp && x.s == "strconv.ParseFloat#0" && len(x.a) == 2 && x.a[1].isInt() && x.a[1].int() == 64 && n.fact(mkEq(n.v, x)) {
				base, same := n.strip(t)
				b2, same2 := n.strip(x.a[0])
				if x.a[0] == t || base == b2 && same && same2 {
					val = true
					errT := mkApp("strconv.ParseFloat#1", types.Universe.Lookup("error").Type(), x.a...)
					noErr = noErr || n.fact(mkEq(errT, mkNil(errT.typ)))
				}
			}
			return true
		})
	}
	return
}

func (n *numText) judge(t *T) string {
	v := n.v
	if n.fact(mkApp("math.IsNaN", tBool, v)) || n.fact(mkApp("math.IsInf", tBool, v, mkInt(0))) {
		return ""
	}
	kind, prec, x := n.verb(t)
	switch kind {
	case 'd':
		if x.k != KConv || x.a[0] != v || !isIntType(x.typ) {
			return "it is the text of " + x.String() + ", not of the value"
		}
		switch under(x.typ).(*types.Basic).Kind() {
		case types.Int64, types.Int:
		default:
			if !n.fact(mkEq(v, mkConv(types.Typ[types.Float64], x))) {
				return "the value is converted to " + x.typ.String()
			}
		}
		return n.integral(x)
	case 'g', 'e', 'f', 'G', 'E', 'F':
		if x != v {
			return "it is the text of " + x.String() + ", not of the value"
		}
		if kind == 'g' && prec < 0 {
			if n.noExponent(t) {
				return ""
			}
			return "the text may hold an exponent, which the grammar has no syntax for"
		}
		if kind == 'f' && prec < 0 {
			return ""
		}
		if kind != 'f' && kind != 'F' {
			return "the text is in a format the grammar has no syntax for"
		}
	}
	base, same := n.strip(t)
	bk, bp, bx := n.verb(base)
	if bk == 'f' && bx == v {
		if bp < 0 && same && base != t {
			return ""
		}
		val, noErr := n.guarded(t)
		switch {
		case val && (same || noErr):
			return ""
		case val:
			return "characters are taken off the end without a test that a number is left"
		case same && n.integral(nil) == "":
			return ""
		}
		return "it has a fixed number of digits, and the path does not know that reading it gives the value"
	}
	return "no rule tells that this text denotes the value"
}

func (r *Rep) ruleNumber() {
	pk := r.p.pkg("ast")
	na := needType(r.p.typ("ast", "NumberAttribute"), "type ast.NumberAttribute")
	s := printSpec{"NumberAttribute", "ValueString", nil}

	// the accessor
	e, fn, x, outs := r.printNode(printSpec{"NumberAttribute", "Value", nil})
	r.check(len(outs) == 1 && outs[0].kind == ORet, "stored", "NumberAttribute.Value", r.fnWhere(fn), "Value has %d paths", len(outs))
	var v *T
	for _, o := range outs {
		if o.kind == ORet {
			v = e.resolve(o.st, o.val())
		}
	}
	field := ""
	if v == nil || v.k != KField || v.a[0] != x {
		r.fail("stored", "NumberAttribute.Value", r.fnWhere(fn), "Value does not return a field of the number but %s", v)
		return
	}
	field = v.s
	r.done("stored", e, "NumberAttribute.Value")

	// the constructor stores what it is given
	ctor := r.p.fn("ast", "NewNumberAttribute")
	if ctor == nil {
		r.fail("stored", "NewNumberAttribute", "ast", "there is no function ast.NewNumberAttribute")
	} else {
		e := r.exec()
		name, f := mkSym("name", tString), mkSym("value", types.Typ[types.Float64])
		for _, o := range e.Call(ctor, []*T{name, f}, nil, newSt(), nil, nil) {
			got := "a panic"
			ok := o.kind == ORet
			if ok {
				g := e.resolve(o.st, mkField(o.val(), field, v.typ))
				got, ok = g.String(), g == f
			}
			r.check(ok, "stored", "NewNumberAttribute", r.fnWhere(ctor), "the value given is not the value stored: %s", got)
		}
		r.done("stored", e, "NewNumberAttribute")
	}

	// nothing else writes it
	for _, fn := range r.p.funcs {
		if fnPkg(fn) != pk.Pkg.Path() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !sameType(ptrElem(fa.X.Type()), na) || structOf(na).Field(fa.Field).Name() != field {
					continue
				}
				r.check(fn == ctor || ctor != nil && r.partOf(fn, ctor), "stored", fn.String(), r.where(in.Pos()), "%s writes the value of a number", fn.Name())
			}
		}
	}

	// the text
	e, fn, x, outs = r.printNode(s)
	v = mkField(x, field, v.typ)
	name := "NumberAttribute.ValueString"
	r.check(len(outs) > 0, "number-text", name, r.fnWhere(fn), "no path returns")
	for _, o := range outs {
		if o.kind != ORet {
			r.fail("number-text", name, r.fnWhere(fn), "the path %s panics", clip(factsString(o.st.facts), 200))
			continue
		}
		n := &numText{r: r, e: e, st: o.st, v: v}
		t := e.resolve(o.st, o.val())
		var msg string
		if lits, ok := n.constant(t); ok {
			msg = lits
		} else {
			msg = n.judge(t)
		}
		r.check(msg == "", "number-text", name, r.fnWhere(fn), "on the path %s the text is %s: %s", clip(factsString(o.st.facts), 300), clip(t.String(), 120), msg)
	}
	r.done("number-text", e, name)
	r.floor("number-text", 1)
	r.floor("stored", 2)
}

// constant: a constant text needs the fact that the value is that constant.
func (n *numText) constant(t *T) (string, bool) {
	if !t.isStr() {
		return "", false
	}
	f, err := strconv.ParseFloat(t.str(), 64)
	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) || strings.Trim(t.str(), "-0123456789.") != "" || t.str()[0] == '.' || strings.HasPrefix(t.str(), "-.") {
		return "the text is not a number of the grammar", true
	}
	for _, c := range n.st.facts {
		if c.k == KCmp && c.s == "==" {
			for i := range c.a {
				if c.a[i] == n.v && c.a[1-i].k == KConst && c.a[1-i].cv != nil {
					if g, _ := constant.Float64Val(constant.ToFloat(c.a[1-i].cv)); g == f {
						return "", true
					}
				}
			}
		}
	}
	return "the path does not know that the value is that number", true
}
