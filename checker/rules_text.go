package main

import (
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Escape and Unescape are extracted from the SSA form as finite transducers (abstract interpretation over the classes of characters the code distinguishes, including bytes that are no valid encoding) and compared, in every reachable state, with the specified transducers: Escape maps exactly carriage return, newline, tab, backslash and the two quotes to their two-character sequences, Unescape maps exactly those sequences back and copies everything else. That Unescape inverts Escape follows from the two tables, which are inverse, and is checked separately by composing the specifications symbol by symbol.",
		ruleEscape,
		"a text is a sequence of valid UTF-8 characters and of single bytes that are part of none (Go's decoding)")
	register("C16", "Quote and QuoteWithEscape are extracted from the SSA form as finite transducers for each string kind and compared in every reachable state with the transducers of the grammar's tokens: Quote returns the value between quotes exactly for the values whose quoted form is read back as that value, QuoteWithEscape only inserts backslashes before unescaped quotes, or replaces the characters a bareword cannot hold.",
		ruleQuote,
		"a quoted token is read back with its content unchanged: an escaped quote keeps its backslash, a backslash escapes only the quote of the token's kind (grammar rules DoubleQuotedString and SingleQuotedString, compared with the specification under C01)",
		"a text is a sequence of valid UTF-8 characters and of single bytes that are part of none (Go's decoding)")
}

var escapes = []struct{ c, e byte }{{'\r', 'r'}, {'\n', 'n'}, {'\t', 't'}, {'\\', '\\'}, {'"', '"'}, {'\'', '\''}}

func unitText(u *xunit) xtext { return xtext{{k: 'u', u: u}} }

func escapeSpec() *xspec {
	return &xspec{
		step: func(m *xmachine, st int, u *xunit) (int, xtext) {
			for _, p := range escapes {
				if m.test(u, one1(rune(p.c))) {
					return 0, xtext{{k: 'c', c: '\\'}, {k: 'c', c: p.e}}
				}
			}
			return 0, unitText(u)
		},
		final: func(m *xmachine, st int) (string, xtext) { return "ok", nil },
	}
}

func unescapeSpec() *xspec {
	return &xspec{
		step: func(m *xmachine, st int, u *xunit) (int, xtext) {
			if st == 0 {
				if m.test(u, one1('\\')) {
					return 1, nil
				}
				return 0, unitText(u)
			}
			for _, p := range escapes {
				if m.test(u, one1(rune(p.e))) {
					return 0, xtext{{k: 'c', c: p.c}}
				}
			}
			return 0, xtext{{k: 'c', c: '\\'}, {k: 'u', u: u}}
		},
		final: func(m *xmachine, st int) (string, xtext) {
			if st == 1 {
				return "ok", constText(`\`)
			}
			return "ok", nil
		},
	}
}

// quoteSpec is the transducer of Quote for a quote character.
func quoteSpec(q byte) *xspec {
	return &xspec{
		start: string(q),
		step: func(m *xmachine, st int, u *xunit) (int, xtext) {
			// 0 plain, 1 after a backslash, 2 unrepresentable
			if st == 2 {
				return 2, unitText(u)
			}
			if !m.byteMode && m.test(u, one1(xInvalid)) {
				return 2, unitText(u)
			}
			if m.test(u, one1(rune(q))) {
				if st == 1 {
					return 0, unitText(u)
				}
				return 2, unitText(u)
			}
			if m.test(u, one1('\\')) {
				return 1, unitText(u)
			}
			return 0, unitText(u)
		},
		final: func(m *xmachine, st int) (string, xtext) {
			if st != 0 {
				return "error", nil
			}
			return "ok", constText(string(q))
		},
	}
}

var (
	setAlpha = runeSet{{'A', 'Z'}, {'_', '_'}, {'a', 'z'}}
	setAlnum = runeSet{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}
)

func barewordSpec() *xspec {
	return &xspec{
		step: func(m *xmachine, st int, u *xunit) (int, xtext) {
			// 0 start, 1 one character, 2 two or more, 3 unrepresentable
			set := setAlnum
			if st == 0 {
				set = setAlpha
			}
			if st == 3 || !m.test(u, set) {
				return 3, unitText(u)
			}
			return min(st+1, 2), unitText(u)
		},
		final: func(m *xmachine, st int) (string, xtext) {
			if st != 2 {
				return "error", nil
			}
			return "ok", nil
		},
	}
}

// escQuoteSpec is the transducer of QuoteWithEscape for a quote character.
func escQuoteSpec(q byte, valid bool) *xspec {
	return &xspec{
		start: string(q),
		step: func(m *xmachine, st int, u *xunit) (int, xtext) {
			if m.test(u, one1(rune(q))) {
				if st == 1 {
					return 0, unitText(u)
				}
				return 0, xtext{{k: 'c', c: '\\'}, {k: 'u', u: u}}
			}
			if m.test(u, one1('\\')) {
				return 1, unitText(u)
			}
			return 0, unitText(u)
		},
		final: func(m *xmachine, st int) (string, xtext) {
			return "ok", constText(string(q))
		},
	}
}

func escBarewordSpec() *xspec {
	return &xspec{
		step: func(m *xmachine, st int, u *xunit) (int, xtext) {
			set := setAlnum
			if st == 0 {
				set = setAlpha
			}
			if !m.test(u, set) {
				return 1, constText("_")
			}
			return 1, unitText(u)
		},
		final: func(m *xmachine, st int) (string, xtext) { return "ok", nil },
	}
}

// transducer compares one function with its specification.
func (r *Rep) transducer(rule, name string, fn *ssa.Function, args func(m *xmachine, v xtext) []any, spec *xspec) {
	res := r.transduce(fn, args, spec)
	where := r.fnWhere(fn)
	switch {
	case res.undec != "":
		r.fail("undecided", rule+"/"+name, where, "the analysis cannot extract the function as a transducer: %s", res.undec)
	case res.bad != "":
		r.fail(rule, name, where, "%s", res.bad)
	default:
		unit := "characters"
		if res.bytes {
			unit = "bytes"
		}
		r.pass(rule, "%s: %d abstract states over %s, all agree with the specification", name, res.states, unit)
	}
}

func ruleEscape(r *Rep) {
	esc := need(r.p.fn("ast/astutil", "Escape"), "function Escape of package astutil")
	une := need(r.p.fn("ast/astutil", "Unescape"), "function Unescape of package astutil")
	one := func(m *xmachine, v xtext) []any { return []any{v} }
	r.transducer("escape", "Escape", esc, one, escapeSpec())
	r.transducer("unescape", "Unescape", une, one, unescapeSpec())
	// the composed specifications are the identity: each escape sequence starts with the
	// backslash, which is itself escaped, and the table has no letter twice
	seen := map[byte]bool{}
	ok := true
	bs := false
	for _, p := range escapes {
		ok = ok && !seen[p.e]
		seen[p.e] = true
		bs = bs || p.c == '\\'
	}
	r.check(ok && bs, "inverse", "Unescape after Escape", "", "the escape table is not invertible")
	r.floor("escape", 1)
	r.floor("unescape", 1)
}

func (r *Rep) strConst(pkg, name string) int64 {
	pk := r.p.pkg(pkg)
	if pk == nil {
		panic(anchorError("package " + pkg))
	}
	c, ok := pk.Members[name].(*ssa.NamedConst)
	if !ok {
		panic(anchorError("constant " + name))
	}
	n, _ := constant.Int64Val(constant.ToInt(c.Value.Value))
	return n
}

func ruleQuote(r *Rep) {
	quote := need(r.p.fn("ast/astutil", "Quote"), "function Quote of package astutil")
	esc := need(r.p.fn("ast/astutil", "QuoteWithEscape"), "function QuoteWithEscape of package astutil")
	kind := func(n int64) func(m *xmachine, v xtext) []any {
		return func(m *xmachine, v xtext) []any { return []any{v, mint{n, false}} }
	}
	for _, k := range []struct {
		name string
		q    byte
	}{{"DoubleQuoted", '"'}, {"SingleQuoted", '\''}, {"Bareword", 0}} {
		n := r.strConst("ast", k.name)
		if k.q != 0 {
			r.transducer("quote", "Quote "+k.name, quote, kind(n), quoteSpec(k.q))
			r.transducer("quote-escape", "QuoteWithEscape "+k.name, esc, kind(n), escQuoteSpec(k.q, false))
		} else {
			r.transducer("quote", "Quote "+k.name, quote, kind(n), barewordSpec())
			r.transducer("quote-escape", "QuoteWithEscape "+k.name, esc, kind(n), escBarewordSpec())
		}
	}
	r.floor("quote", 3)
	r.floor("quote-escape", 3)
}
