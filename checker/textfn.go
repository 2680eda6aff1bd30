package main

import (
	"go/types"
	"strings"
)

// textFn brings the search functions of packages strings and bytes to one form: Index, and its comparison with -1.
func (e *Exec) textFn(ci *callInfo) ([]Outcome, bool) {
	pkg, name, ok := strings.Cut(ci.name, ".")
	if !ok || pkg != "strings" && pkg != "bytes" {
		return nil, false
	}
	st := ci.st
	arg := func(i int) *T { return e.resolve(st, ci.args[i]) }
	str := func(i int) *T {
		x := arg(i)
		if pkg == "bytes" && isByteSlice(x.typ) {
			x = mkConv(tString, x)
		}
		return x
	}
	// needle is the text looked for when it is a known text
	needle := func() *T {
		switch name {
		case "Index", "Contains", "Cut":
			return str(1)
		case "IndexByte", "IndexRune", "ContainsRune":
			if x := arg(1); x.isInt() && x.int() > 0 && x.int() < 128 {
				return mkStr(string(rune(x.int())))
			}
		case "IndexAny", "ContainsAny":
			if x := arg(1); x.isStr() && len(x.str()) == 1 && x.str()[0] < 128 {
				return x
			}
		}
		return nil
	}
	switch name {
	case "Index", "IndexByte", "IndexRune", "IndexAny", "Contains", "ContainsRune", "ContainsAny", "Cut":
	default:
		return nil, false
	}
	n := needle()
	if n == nil {
		return nil, false
	}
	s := str(0)
	var ix *T
	if s.isStr() && n.isStr() {
		ix = mkInt(int64(strings.Index(s.str(), n.str())))
	} else {
		ix = mkApp("strings.Index", types.Typ[types.Int], s, n)
	}
	if strings.HasPrefix(name, "Index") {
		return one(st, ix), true
	}
	absent := mkEQ0(linAddC(ix, 1))
	var outs []Outcome
	add := func(c *T, vals ...*T) {
		s2 := st.clone()
		if e.assume(s2, c) {
			outs = append(outs, Outcome{st: s2, vals: vals})
		}
	}
	if name != "Cut" {
		add(mkNot(absent), tTrue)
		add(absent, tFalse)
		return outs, true
	}
	t := arg(0).typ
	sub := func(lo, hi *T) *T { return mkSub(arg(0), lo, hi, t) }
	add(mkNot(absent), sub(mkInt(0), ix), sub(linComb(ix, 1, mkLen(n), 1, 0), mkLen(arg(0))), tTrue)
	rest := mkStr("")
	if pkg == "bytes" {
		rest = mkNil(t)
	}
	add(absent, arg(0), rest, tFalse)
	return outs, true
}
