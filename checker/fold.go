package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"unicode"
)

// foldCall evaluates a pure library function on constant arguments.
func foldCall(name string, a []*T, sig *types.Signature) *T {
	for _, x := range a {
		if x == nil || x.k != KConst || x.cv == nil {
			return nil
		}
	}
	s := func(i int) string { return a[i].str() }
	isS := func(n int) bool {
		if len(a) != n {
			return false
		}
		for _, x := range a {
			if !x.isStr() {
				return false
			}
		}
		return true
	}
	if isS(1) {
		switch name {
		case "strings.TrimSpace":
			return mkStr(strings.TrimSpace(s(0)))
		case "strings.ToLower":
			return mkStr(strings.ToLower(s(0)))
		case "strings.ToUpper":
			return mkStr(strings.ToUpper(s(0)))
		case "strconv.Quote":
			return mkStr(strconv.Quote(s(0)))
		}
	}
	if isS(2) {
		switch name {
		case "strings.Trim":
			return mkStr(strings.Trim(s(0), s(1)))
		case "strings.TrimLeft":
			return mkStr(strings.TrimLeft(s(0), s(1)))
		case "strings.TrimRight":
			return mkStr(strings.TrimRight(s(0), s(1)))
		case "strings.TrimPrefix":
			return mkStr(strings.TrimPrefix(s(0), s(1)))
		case "strings.TrimSuffix":
			return mkStr(strings.TrimSuffix(s(0), s(1)))
		case "strings.HasPrefix":
			return mkBool(strings.HasPrefix(s(0), s(1)))
		case "strings.HasSuffix":
			return mkBool(strings.HasSuffix(s(0), s(1)))
		case "strings.Contains":
			return mkBool(strings.Contains(s(0), s(1)))
		case "strings.ContainsAny":
			return mkBool(strings.ContainsAny(s(0), s(1)))
		case "strings.EqualFold":
			return mkBool(strings.EqualFold(s(0), s(1)))
		case "strings.Index":
			return mkInt(int64(strings.Index(s(0), s(1))))
		case "strings.LastIndex":
			return mkInt(int64(strings.LastIndex(s(0), s(1))))
		case "strings.IndexAny":
			return mkInt(int64(strings.IndexAny(s(0), s(1))))
		case "strings.Count":
			return mkInt(int64(strings.Count(s(0), s(1))))
		case "strings.Compare":
			return mkInt(int64(strings.Compare(s(0), s(1))))
		}
	}
	if isS(3) && name == "strings.ReplaceAll" {
		return mkStr(strings.ReplaceAll(s(0), s(1), s(2)))
	}
	if len(a) == 2 && a[0].isStr() && a[1].isInt() {
		switch name {
		case "strings.IndexByte":
			return mkInt(int64(strings.IndexByte(s(0), byte(a[1].int()))))
		case "strings.IndexRune":
			return mkInt(int64(strings.IndexRune(s(0), rune(a[1].int()))))
		case "strings.ContainsRune":
			return mkBool(strings.ContainsRune(s(0), rune(a[1].int())))
		case "strings.Repeat":
			if n := a[1].int(); n >= 0 && n < 1000 {
				return mkStr(strings.Repeat(s(0), int(n)))
			}
		}
	}
	if len(a) == 1 && a[0].isInt() {
		c := rune(a[0].int())
		switch name {
		case "unicode.IsSpace":
			return mkBool(unicode.IsSpace(c))
		case "unicode.IsLetter":
			return mkBool(unicode.IsLetter(c))
		case "unicode.IsDigit":
			return mkBool(unicode.IsDigit(c))
		case "unicode.ToLower":
			return mkConst(constant.MakeInt64(int64(unicode.ToLower(c))), sig.Results().At(0).Type())
		case "unicode.ToUpper":
			return mkConst(constant.MakeInt64(int64(unicode.ToUpper(c))), sig.Results().At(0).Type())
		case "strconv.Itoa":
			return mkStr(strconv.Itoa(int(c)))
		}
	}
	return nil
}

// asTerm is errors.As on x for the target type t, decided where the dynamic types are known.
func asTerm(x *T, t types.Type) *T {
	app := func() *T {
		return mk(&T{k: KApp, s: "errorsAs:" + typeKey(t), xt: t, typ: tBool, a: []*T{x}})
	}
	if x.isNil() {
		return tFalse
	}
	if x.k != KIface || x.xt == nil {
		return app()
	}
	if satisfies(x.xt, t) {
		return tTrue
	}
	if in := x.a[0]; in.k == KApp && in.s == "mkerror" {
		res := tFalse
		for _, w := range in.a[1:] {
			y := asTerm(w, t)
			if y == tTrue {
				return tTrue
			}
			if y != tFalse {
				res = y
				if len(in.a) > 2 {
					return app()
				}
			}
		}
		return res
	}
	if _, has := hasMethod(x.xt, "Unwrap"); has {
		return app()
	}
	if _, has := hasMethod(x.xt, "As"); has {
		return app()
	}
	return tFalse
}
