package main

// Terms: the hash-consed value domain of the abstract interpreter. A term
// stands for "the value computed by this expression of the program's inputs";
// two program fragments that compute the same thing in different ways get the
// same term through the normalisations in this file.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type TK uint8

const (
	KConst   TK = iota // x: constant.Value (nil = nil / zero reference)
	KSym               // s
	KField             // a0 . s
	KStruct            // fields in order, typ
	KIface             // a0 boxed, xt dynamic type
	KTypeIs            // a0 has dynamic type xt
	KAs                // a0 unboxed as xt
	KLen               // a0
	KElem              // a0[a1]
	KSub               // a0[a1:a2]
	KSeq               // slice: parts are KUnit or slice valued terms (spread)
	KUnit              // a0
	KCat               // string: parts
	KCmp               // s: "<=0", "==0" (on linear ints), "==" (generic), "<", "<=" (generic)
	KNot               // a0
	KLin               // ints: sum of coef*arg + c
	KConv              // conversion of a0 to typ
	KApp               // s(args...)
	KFunc              // fn
	KClosure           // fn, bindings
	KAddr              // cell s
	KFAddr             // &a0.s
	KIAddr             // &a0[a1]
	KGlobal            // global
	KDeref             // initial content behind pointer a0
	KLoopVar           // value of loop component at loop head
	KLoopAcc           // what a loop has appended to a component so far
	KTuple             // results
	KMap               // map reference, s cell
	KArr               // array value, elements
	KMake              // make([]T, a0), s unique
	KUpd               // slice a0 with element updates: args triples idx,path,val encoded
	KSetLast           // piece: the last element's field path s becomes a0
	KBin               // other binary op s
	KUn                // other unary op s
	KBacking           // memory root: contents of slice a0
	KRes               // result of an effectful call event (unique)
)

type T struct {
	id  int
	k   TK
	s   string
	typ types.Type
	xt  types.Type
	a   []*T
	cv  constant.Value
	fn  *ssa.Function
	g   *ssa.Global
	co  []int64 // KLin coefficients
	c   int64   // KLin constant
	lp  *Loop
	hi  int // KLoopAcc head index
	cmp *comp
}

type termTab struct {
	m map[string]*T
	n int
}

var tt = &termTab{m: map[string]*T{}}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	return types.TypeString(t, nil)
}

func mk(t *T) *T {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.k)))
	b.WriteByte('|')
	b.WriteString(t.s)
	b.WriteByte('|')
	switch t.k {
	case KConst, KStruct, KConv, KMake, KSym, KRes, KArr, KAddr:
		b.WriteString(typeKey(t.typ))
	}
	if t.xt != nil {
		b.WriteByte('|')
		b.WriteString(typeKey(t.xt))
	}
	if t.k == KConst {
		b.WriteByte('|')
		if t.cv == nil {
			b.WriteString("nil")
		} else {
			b.WriteString(t.cv.Kind().String() + t.cv.ExactString())
		}
	}
	for _, a := range t.a {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.fn != nil {
		fmt.Fprintf(&b, "|f%p", t.fn)
	}
	if t.g != nil {
		fmt.Fprintf(&b, "|g%p", t.g)
	}
	if t.k == KLin {
		fmt.Fprintf(&b, "|%v+%d", t.co, t.c)
	}
	if t.lp != nil {
		fmt.Fprintf(&b, "|l%d.%d|%d", t.lp.ex, t.lp.id, t.hi)
	}
	if t.cmp != nil {
		b.WriteString("|" + t.cmp.key)
	}
	k := b.String()
	if o, ok := tt.m[k]; ok {
		return o
	}
	tt.n++
	t.id = tt.n
	tt.m[k] = t
	return t
}

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
)

func mkConst(cv constant.Value, typ types.Type) *T { return mk(&T{k: KConst, cv: cv, typ: typ}) }
func mkNil(typ types.Type) *T                      { return mk(&T{k: KConst, typ: typ}) }
func mkInt(n int64) *T                             { return mkConst(constant.MakeInt64(n), tInt) }
func mkBool(b bool) *T                             { return mkConst(constant.MakeBool(b), tBool) }
func mkStr(s string) *T                            { return mkConst(constant.MakeString(s), tString) }
func mkSym(s string, typ types.Type) *T            { return mk(&T{k: KSym, s: s, typ: typ}) }

var tTrue, tFalse = mkBool(true), mkBool(false)

func (t *T) isConst() bool { return t.k == KConst }
func (t *T) isNil() bool   { return t.k == KConst && t.cv == nil }
func (t *T) isStr() bool {
	return t.k == KConst && t.cv != nil && t.cv.Kind() == constant.String
}
func (t *T) str() string { return constant.StringVal(t.cv) }
func (t *T) isInt() bool {
	return t.k == KConst && t.cv != nil && t.cv.Kind() == constant.Int
}
func (t *T) int() int64 { n, _ := constant.Int64Val(t.cv); return n }
func (t *T) isBoolConst() bool {
	return t.k == KConst && t.cv != nil && t.cv.Kind() == constant.Bool
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}
func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIfaceType(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}
func isStructType(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok
}
func isSliceType(t types.Type) bool {
	_, ok := under(t).(*types.Slice)
	return ok
}
func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- linear integers ----

func linParts(t *T) (args []*T, co []int64, c int64) {
	switch {
	case t.isInt():
		return nil, nil, t.int()
	case t.k == KLin:
		return t.a, t.co, t.c
	default:
		return []*T{t}, []int64{1}, 0
	}
}

func mkLin(m map[*T]int64, c int64) *T {
	var as []*T
	for t, co := range m {
		if co != 0 {
			as = append(as, t)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		return mkInt(c)
	}
	if len(as) == 1 && m[as[0]] == 1 && c == 0 {
		return as[0]
	}
	co := make([]int64, len(as))
	for i, a := range as {
		co[i] = m[a]
	}
	return mk(&T{k: KLin, a: as, co: co, c: c, typ: tInt})
}

func linComb(x *T, cx int64, y *T, cy int64, add int64) *T {
	m := map[*T]int64{}
	a, co, c := linParts(x)
	total := add + cx*c
	for i := range a {
		m[a[i]] += cx * co[i]
	}
	a, co, c = linParts(y)
	total += cy * c
	for i := range a {
		m[a[i]] += cy * co[i]
	}
	return mkLin(m, total)
}
func linAdd(x, y *T) *T         { return linComb(x, 1, y, 1, 0) }
func linSub(x, y *T) *T         { return linComb(x, 1, y, -1, 0) }
func linAddC(x *T, c int64) *T  { return linComb(x, 1, mkInt(0), 0, c) }
func linScale(x *T, c int64) *T { return linComb(x, c, mkInt(0), 0, 0) }

// mkLE builds the atom  l <= 0.
func mkLE(l *T) *T {
	if l.isInt() {
		return mkBool(l.int() <= 0)
	}
	return mk(&T{k: KCmp, s: "<=0", a: []*T{l}, typ: tBool})
}

func mkEQ0(l *T) *T {
	if l.isInt() {
		return mkBool(l.int() == 0)
	}
	// normalise sign: first coefficient positive
	a, co, _ := linParts(l)
	if len(a) > 0 && co[0] < 0 {
		l = linScale(l, -1)
	}
	return mk(&T{k: KCmp, s: "==0", a: []*T{l}, typ: tBool})
}

func mkNot(b *T) *T {
	switch {
	case b == tTrue:
		return tFalse
	case b == tFalse:
		return tTrue
	case b.k == KNot:
		return b.a[0]
	case b.k == KCmp && b.s == "<=0":
		// !(l<=0)  ==  1-l <= 0
		return mkLE(linComb(b.a[0], -1, mkInt(0), 0, 1))
	}
	return mk(&T{k: KNot, a: []*T{b}, typ: tBool})
}

func mkCmp(op token.Token, x, y *T, typ types.Type) *T {
	if x.typ != nil && isIntType(x.typ) || y.typ != nil && isIntType(y.typ) {
		switch op {
		case token.EQL:
			return mkEQ0(linSub(x, y))
		case token.NEQ:
			return mkNot(mkEQ0(linSub(x, y)))
		case token.LSS:
			return mkLE(linAddC(linSub(x, y), 1))
		case token.LEQ:
			return mkLE(linSub(x, y))
		case token.GTR:
			return mkLE(linAddC(linSub(y, x), 1))
		case token.GEQ:
			return mkLE(linSub(y, x))
		}
	}
	switch op {
	case token.NEQ:
		return mkNot(mkCmp(token.EQL, x, y, typ))
	case token.EQL:
		return mkEq(x, y)
	case token.GTR:
		return mkCmp(token.LSS, y, x, typ)
	case token.GEQ:
		return mkCmp(token.LEQ, y, x, typ)
	}
	if x.isConst() && y.isConst() && x.cv != nil && y.cv != nil {
		return mkBool(constant.Compare(x.cv, op, y.cv))
	}
	return mk(&T{k: KCmp, s: op.String(), a: []*T{x, y}, typ: tBool})
}

func mkEq(x, y *T) *T {
	if x == y {
		return tTrue
	}
	if isBoolType(x.typ) {
		if y.isBoolConst() {
			x, y = y, x
		}
		if x == tTrue {
			return y
		}
		if x == tFalse {
			return mkNot(y)
		}
	}
	if x.isConst() && y.isConst() {
		if x.cv == nil || y.cv == nil {
			return mkBool(x.cv == nil && y.cv == nil)
		}
		if x.cv.Kind() == y.cv.Kind() {
			return mkBool(constant.Compare(x.cv, token.EQL, y.cv))
		}
	}
	// interface comparisons against boxed values and nil
	if x.isConst() || y.k == KIface && x.k != KIface {
		x, y = y, x
	}
	if y.isNil() {
		switch x.k {
		case KIface, KAddr, KFAddr, KIAddr, KGlobal, KFunc, KClosure, KMap, KMake:
			return tFalse
		case KElem:
			if neverNil(x.a[0]) {
				return tFalse
			}
		case KSeq:
			if len(x.a) == 0 {
				return tTrue
			}
			for _, p := range x.a {
				if p.k == KUnit {
					return tFalse
				}
			}
		}
		if isSliceType(x.typ) && x.k == KSeq {
			return mkEQ0(mkLen(x))
		}
		if x.k == KApp && x.s == "merr" { // multierror accumulations
			return mkEQ0(mkLen(x.a[0]))
		}
	}
	if x.k == KIface && y.k == KIface {
		if !types.Identical(x.xt, y.xt) {
			return tFalse
		}
		return mkCmp(token.EQL, x.a[0], y.a[0], nil)
	}
	if isStringType(x.typ) && y.isStr() {
		if y.str() == "" {
			return mkEQ0(mkLen(x))
		}
		// a concatenation with known constants
		if x.k == KCat {
			if l := mkLen(x); l.k == KLin || l.isInt() {
				_, _, c := linParts(l)
				pos := true
				_, co, _ := linParts(l)
				for _, k := range co {
					if k < 0 {
						pos = false
					}
				}
				if pos && c > int64(len(y.str())) {
					return tFalse
				}
			}
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	if y.isNil() {
		y = mkNil(nil)
	}
	return mk(&T{k: KCmp, s: "==", a: []*T{x, y}, typ: tBool})
}

// neverNil: a list all of whose elements are non-nil interface values.
func neverNil(x *T) bool {
	switch {
	case x.k == KSeq:
		for _, p := range x.a {
			if p.k == KUnit {
				if p.a[0].k != KIface {
					return false
				}
			} else if !neverNil(p) {
				return false
			}
		}
		return true
	case x.k == KApp && x.s == "mapseq":
		return neverNil(x.a[1])
	}
	return false
}

// ---- structs ----

func structOf(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	return s
}

func mkStruct(typ types.Type, fields []*T) *T {
	st := structOf(typ)
	// eta: S{x.f1, x.f2, ...} == x
	if len(fields) > 0 {
		var base *T
		ok := true
		for i, f := range fields {
			if f.k != KField || f.s != st.Field(i).Name() || base != nil && f.a[0] != base {
				ok = false
				break
			}
			base = f.a[0]
		}
		if ok && base.typ != nil && types.Identical(base.typ, typ) {
			return base
		}
	}
	return mk(&T{k: KStruct, typ: typ, a: fields})
}

func mkField(x *T, name string, ftyp types.Type) *T {
	switch x.k {
	case KStruct:
		st := structOf(x.typ)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.a[i]
			}
		}
	case KConv:
		if isStructType(x.a[0].typ) {
			return mkField(x.a[0], name, ftyp)
		}
	}
	return mk(&T{k: KField, s: name, a: []*T{x}, typ: ftyp})
}

func fieldType(st *types.Struct, name string) types.Type {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func expandStruct(x *T) []*T {
	st := structOf(x.typ)
	if st == nil {
		return nil
	}
	if x.k == KStruct {
		return x.a
	}
	fs := make([]*T, st.NumFields())
	for i := range fs {
		fs[i] = mkField(x, st.Field(i).Name(), st.Field(i).Type())
	}
	return fs
}

func setField(x *T, name string, v *T) *T {
	st := structOf(x.typ)
	if st == nil {
		return mk(&T{k: KApp, s: "setfield:" + name, a: []*T{x, v}, typ: x.typ})
	}
	fs := append([]*T{}, expandStruct(x)...)
	for i := range fs {
		if st.Field(i).Name() == name {
			fs[i] = v
		}
	}
	return mkStruct(x.typ, fs)
}

func zeroOf(typ types.Type) *T {
	switch u := under(typ).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), typ)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), typ)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.ToFloat(constant.MakeInt64(0)), typ)
		}
		return mkNil(typ)
	case *types.Struct:
		if isTextCell(typ) {
			return mkStr("")
		}
		fs := make([]*T, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(typ, fs)
	case *types.Array:
		n := int(u.Len())
		if n > 512 {
			return mk(&T{k: KApp, s: "zeroarray", typ: typ})
		}
		es := make([]*T, n)
		for i := range es {
			es[i] = zeroOf(u.Elem())
		}
		return mk(&T{k: KArr, typ: typ, a: es})
	}
	return mkNil(typ)
}

// isTextCell: types whose abstract content is the string written so far.
func isTextCell(t types.Type) bool {
	switch typeKey(t) {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

// ---- sequences and strings ----

func mkUnit(v *T) *T { return mk(&T{k: KUnit, a: []*T{v}}) }

func mkSeq(typ types.Type, parts ...*T) *T {
	var ps []*T
	var add func(p *T)
	add = func(p *T) {
		switch {
		case p.k == KSeq:
			for _, q := range p.a {
				add(q)
			}
		case p.isNil():
		case p.isStr() && p.str() == "":
		case p.isStr():
			for _, b := range []byte(p.str()) {
				ps = append(ps, mkUnit(mkInt(int64(b))))
			}
		case p.k == KConv && isByteSlice(p.typ) && isStringType(p.a[0].typ):
			ps = append(ps, p.a[0])
		default:
			ps = append(ps, p)
		}
	}
	for _, p := range parts {
		add(p)
	}
	// merge x[a:b] x[b:c]
	var out []*T
	for _, p := range ps {
		if len(out) > 0 {
			l := out[len(out)-1]
			if m := mergeSub(l, p); m != nil {
				out[len(out)-1] = m
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 && out[0].k != KUnit && out[0].typ != nil && isSliceType(out[0].typ) {
		return out[0]
	}
	return mk(&T{k: KSeq, typ: typ, a: out})
}

func mergeSub(l, r *T) *T {
	if l.k == KSub && r.k == KSub && l.a[0] == r.a[0] && l.a[2] == r.a[1] {
		return mkSub(l.a[0], l.a[1], r.a[2], l.typ)
	}
	return nil
}

func mkCat(parts ...*T) *T {
	var ps []*T
	var add func(p *T)
	add = func(p *T) {
		switch {
		case p.k == KCat:
			for _, q := range p.a {
				add(q)
			}
		case p.isStr():
			if p.str() == "" {
				return
			}
			if len(ps) > 0 && ps[len(ps)-1].isStr() {
				ps[len(ps)-1] = mkStr(ps[len(ps)-1].str() + p.str())
				return
			}
			ps = append(ps, mkStr(p.str()))
		default:
			if len(ps) > 0 {
				if m := mergeSub(ps[len(ps)-1], p); m != nil {
					ps[len(ps)-1] = m
					return
				}
			}
			ps = append(ps, p)
		}
	}
	for _, p := range parts {
		add(p)
	}
	if len(ps) == 0 {
		return mkStr("")
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return mk(&T{k: KCat, a: ps, typ: tString})
}

// bytesAsString views a []byte or string term as its string content.
func asText(t *T) *T {
	switch t.k {
	case KConv:
		if isByteSlice(t.typ) && isStringType(t.a[0].typ) || isStringType(t.typ) && isStringType(t.a[0].typ) {
			return asText(t.a[0])
		}
		if isStringType(t.typ) && isByteSlice(t.a[0].typ) {
			return t.a[0]
		}
	}
	return t
}

func mkLen(x *T) *T {
	switch x.k {
	case KConst:
		if x.cv == nil {
			return mkInt(0)
		}
		if x.isStr() {
			return mkInt(int64(len(x.str())))
		}
	case KApp:
		if x.s == "mapseq" && x.a[1].k == KSeq && len(x.a[1].a) == 1 && x.a[1].a[0].k == KUnit {
			return mkLen(x.a[0])
		}
	case KSeq:
		s := mkInt(0)
		for _, p := range x.a {
			if p.k == KUnit {
				s = linAddC(s, 1)
			} else if p.k == KSetLast {
			} else {
				s = linAdd(s, mkLen(p))
			}
		}
		return s
	case KCat:
		s := mkInt(0)
		for _, p := range x.a {
			s = linAdd(s, mkLen(p))
		}
		return s
	case KSub:
		return linSub(x.a[2], x.a[1])
	case KMake:
		return x.a[0]
	case KArr:
		return mkInt(int64(len(x.a)))
	case KUpd:
		return mkLen(x.a[0])
	case KConv:
		if isByteSlice(x.typ) && isStringType(x.a[0].typ) || isStringType(x.typ) && isByteSlice(x.a[0].typ) ||
			isSliceType(x.typ) && isSliceType(x.a[0].typ) || isStringType(x.typ) && isStringType(x.a[0].typ) {
			return mkLen(x.a[0])
		}
	}
	return mk(&T{k: KLen, a: []*T{x}, typ: tInt})
}

func mkSub(x, lo, hi *T, typ types.Type) *T {
	if lo.isInt() && lo.int() == 0 && hi == mkLen(x) {
		return x
	}
	if lo == hi {
		if isStringType(typ) {
			return mkStr("")
		}
		return mkSeq(typ)
	}
	switch x.k {
	case KConst:
		if x.isStr() && lo.isInt() && hi.isInt() && lo.int() >= 0 && hi.int() <= int64(len(x.str())) && lo.int() <= hi.int() {
			return mkStr(x.str()[lo.int():hi.int()])
		}
	case KSub:
		return mkSub(x.a[0], linAdd(x.a[1], lo), linAdd(x.a[1], hi), typ)
	case KConv:
		if isByteSlice(x.typ) && isStringType(x.a[0].typ) || isStringType(x.typ) && isByteSlice(x.a[0].typ) {
			return mkConv(x.typ, mkSub(x.a[0], lo, hi, x.a[0].typ))
		}
	case KSeq:
		// all units and constant bounds
		if lo.isInt() && hi.isInt() {
			all := true
			for _, p := range x.a {
				if p.k != KUnit {
					all = false
				}
			}
			if all && lo.int() >= 0 && hi.int() <= int64(len(x.a)) && lo.int() <= hi.int() {
				return mkSeq(typ, x.a[lo.int():hi.int()]...)
			}
		}
		// a prefix made of whole parts
		if lo.isInt() && lo.int() == 0 {
			for k := 1; k < len(x.a); k++ {
				if pre := mkSeq(typ, x.a[:k]...); mkLen(pre) == hi {
					if k == 1 && x.a[0].k != KUnit {
						return x.a[0]
					}
					return pre
				}
			}
		}
		// drop leading units
		if lo.isInt() && hi == mkLen(x) {
			n := int(lo.int())
			ok := n <= len(x.a)
			for i := 0; ok && i < n; i++ {
				if x.a[i].k != KUnit {
					ok = false
				}
			}
			if ok {
				return mkSeq(typ, x.a[n:]...)
			}
		}
	}
	return mk(&T{k: KSub, a: []*T{x, lo, hi}, typ: typ})
}

func mkElem(x, i *T, etyp types.Type) *T {
	switch x.k {
	case KConst:
		if x.isStr() && i.isInt() && i.int() >= 0 && i.int() < int64(len(x.str())) {
			return mkInt(int64(x.str()[i.int()]))
		}
	case KApp:
		if x.s == "mapseq" && x.a[1].k == KSeq && len(x.a[1].a) == 1 && x.a[1].a[0].k == KUnit {
			return subst(x.a[1].a[0].a[0], map[*T]*T{boundOf(x): i})
		}
	case KUpd:
		if len(x.a) == 3 && x.a[1] == i {
			return x.a[2]
		}
	case KArr:
		if i.isInt() && i.int() >= 0 && i.int() < int64(len(x.a)) {
			return x.a[i.int()]
		}
	case KSeq:
		if i.isInt() {
			n := i.int()
			for _, p := range x.a {
				if p.k != KUnit {
					if p.k == KSetLast {
						n = -1
					}
					break
				}
				if n == 0 {
					return p.a[0]
				}
				n--
			}
		}
		// last element of a sequence ending in a unit
		if len(x.a) > 0 && x.a[len(x.a)-1].k == KUnit && i == linAddC(mkLen(x), -1) {
			return x.a[len(x.a)-1].a[0]
		}
	case KCat:
		if i.isInt() && len(x.a) > 0 && x.a[0].isStr() && i.int() < int64(len(x.a[0].str())) && i.int() >= 0 {
			return mkInt(int64(x.a[0].str()[i.int()]))
		}
	case KSub:
		return mkElem(x.a[0], linAdd(x.a[1], i), etyp)
	case KConv:
		if isByteSlice(x.typ) && isStringType(x.a[0].typ) || isStringType(x.typ) && isByteSlice(x.a[0].typ) ||
			isSliceType(x.typ) && isSliceType(x.a[0].typ) || isStringType(x.typ) && isStringType(x.a[0].typ) {
			return mkElem(x.a[0], i, etyp)
		}
	}
	return mk(&T{k: KElem, a: []*T{x, i}, typ: etyp})
}

func mkConv(typ types.Type, x *T) *T {
	if x.typ != nil && types.Identical(x.typ, typ) {
		return x
	}
	if x.isConst() {
		if x.cv == nil {
			return mkNil(typ)
		}
		switch {
		case x.isStr() && isStringType(typ):
			return mkConst(x.cv, typ)
		case x.isInt() && isIntType(typ):
			return mkInt(x.int())
		case x.isInt() && isStringType(typ):
			return mkStr(string(rune(x.int())))
		case x.isBoolConst():
			return mkConst(x.cv, tBool)
		}
	}
	if isIntType(typ) && isIntType(x.typ) {
		if x.k == KConv && x.a[0].typ != nil && isFloatType(x.a[0].typ) && under(typ).(*types.Basic).Kind() != under(x.typ).(*types.Basic).Kind() {
			return mk(&T{k: KConv, typ: typ, a: []*T{x}}) // the number may be large
		}
		return x // width ignored
	}
	if x.k == KConv && x.a[0].typ != nil && types.Identical(x.a[0].typ, typ) {
		if isStringType(typ) && isByteSlice(x.typ) || isByteSlice(typ) && isStringType(x.typ) {
			return x.a[0]
		}
	}
	if isStructType(typ) && x.k == KStruct {
		return mkStruct(typ, x.a)
	}
	if isSliceType(typ) && x.k == KSeq {
		return mkSeq(typ, x.a...)
	}
	if isStringType(typ) && x.k == KSeq {
		allConst := true
		var bs []byte
		for _, p := range x.a {
			if p.k == KUnit && p.a[0].isInt() {
				bs = append(bs, byte(p.a[0].int()))
			} else {
				allConst = false
			}
		}
		if allConst {
			return mkStr(string(bs))
		}
	}
	return mk(&T{k: KConv, typ: typ, a: []*T{x}})
}

func mkIface(dyn types.Type, v *T, ityp types.Type) *T {
	return mk(&T{k: KIface, xt: dyn, a: []*T{v}, typ: ityp})
}

func mkAs(x *T, t types.Type) *T {
	if x.k == KIface && !isIfaceType(t) && types.Identical(x.xt, t) {
		return x.a[0]
	}
	if isIfaceType(t) {
		return x // change of static interface type: same dynamic value
	}
	return mk(&T{k: KAs, xt: t, a: []*T{x}, typ: t})
}

func mkApp(name string, typ types.Type, args ...*T) *T {
	return mk(&T{k: KApp, s: name, a: args, typ: typ})
}

// ---- printing ----

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *T) String() string { return t.show(0) }

func (t *T) show(d int) string {
	if t == nil {
		return "?"
	}
	if d > 14 {
		return "…"
	}
	args := func(as []*T, sep string) string {
		var ss []string
		for _, a := range as {
			ss = append(ss, a.show(d+1))
		}
		return strings.Join(ss, sep)
	}
	switch t.k {
	case KConst:
		if t.cv == nil {
			return "nil"
		}
		return t.cv.ExactString()
	case KSym, KRes:
		return t.s
	case KField:
		return t.a[0].show(d+1) + "." + t.s
	case KStruct:
		st := structOf(t.typ)
		var ss []string
		for i, f := range t.a {
			if f == zeroOf(st.Field(i).Type()) {
				continue
			}
			ss = append(ss, st.Field(i).Name()+":"+f.show(d+1))
		}
		return shortType(t.typ) + "{" + strings.Join(ss, ", ") + "}"
	case KIface:
		return "box(" + t.a[0].show(d+1) + ":" + shortType(t.xt) + ")"
	case KTypeIs:
		return t.a[0].show(d+1) + " is " + shortType(t.xt)
	case KAs:
		return t.a[0].show(d+1) + ".(" + shortType(t.xt) + ")"
	case KLen:
		return "len(" + t.a[0].show(d+1) + ")"
	case KElem:
		return t.a[0].show(d+1) + "[" + t.a[1].show(d+1) + "]"
	case KSub:
		return t.a[0].show(d+1) + "[" + t.a[1].show(d+1) + ":" + t.a[2].show(d+1) + "]"
	case KSeq:
		return "[" + args(t.a, " ") + "]"
	case KUnit:
		return "‹" + t.a[0].show(d+1) + "›"
	case KCat:
		return "(" + args(t.a, " ++ ") + ")"
	case KCmp:
		if len(t.a) == 1 {
			return "(" + t.a[0].show(d+1) + " " + t.s[:2] + " 0)"
		}
		return "(" + t.a[0].show(d+1) + " " + t.s + " " + t.a[1].show(d+1) + ")"
	case KNot:
		return "!" + t.a[0].show(d+1)
	case KLin:
		var ss []string
		for i, a := range t.a {
			switch t.co[i] {
			case 1:
				ss = append(ss, a.show(d+1))
			case -1:
				ss = append(ss, "-"+a.show(d+1))
			default:
				ss = append(ss, fmt.Sprintf("%d*%s", t.co[i], a.show(d+1)))
			}
		}
		if t.c != 0 {
			ss = append(ss, fmt.Sprint(t.c))
		}
		return strings.Join(ss, "+")
	case KConv:
		return shortType(t.typ) + "(" + t.a[0].show(d+1) + ")"
	case KApp:
		return t.s + "(" + args(t.a, ", ") + ")"
	case KFunc:
		return "func " + t.fn.Name()
	case KClosure:
		return "closure " + t.fn.Name()
	case KAddr:
		return "&" + t.s
	case KFAddr:
		return "&(" + t.a[0].show(d+1) + ")." + t.s
	case KIAddr:
		return "&" + t.a[0].show(d+1) + "[" + t.a[1].show(d+1) + "]"
	case KGlobal:
		return "&" + t.g.Name()
	case KDeref:
		return "*" + t.a[0].show(d+1)
	case KLoopVar:
		return "loopvar" + strconv.Itoa(t.lp.id) + ":" + t.cmp.key
	case KLoopAcc:
		return fmt.Sprintf("loop%d@%d:%s", t.lp.id, t.hi, t.cmp.key)
	case KMap:
		return "map" + t.s
	case KArr:
		return "arr{" + args(t.a, ", ") + "}"
	case KMake:
		return "make" + t.s + "(" + t.a[0].show(d+1) + ")"
	case KUpd:
		return "upd" + t.s + "(" + args(t.a, ", ") + ")"
	case KSetLast:
		return "last." + t.s + ":=" + t.a[0].show(d+1)
	case KTuple:
		return "(" + args(t.a, ", ") + ")"
	case KBacking:
		return "backing(" + t.a[0].show(d+1) + ")"
	}
	return fmt.Sprintf("k%d:%s(%s)", t.k, t.s, args(t.a, ", "))
}

// walkTerm visits t and everything below it (not into loops).
func walkTerm(t *T, f func(*T) bool) {
	seen := map[*T]bool{}
	var w func(*T)
	w = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.a {
			w(a)
		}
	}
	w(t)
}

func contains(t, sub *T) bool {
	found := false
	walkTerm(t, func(x *T) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

// subst rebuilds t with the given replacements.
func subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var w func(*T) *T
	w = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if len(t.a) == 0 {
			return t
		}
		changed := false
		as := make([]*T, len(t.a))
		for i, a := range t.a {
			as[i] = w(a)
			if as[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func rebuild(t *T, as []*T) *T {
	switch t.k {
	case KField:
		return mkField(as[0], t.s, t.typ)
	case KStruct:
		return mkStruct(t.typ, as)
	case KIface:
		return mkIface(t.xt, as[0], t.typ)
	case KAs:
		return mkAs(as[0], t.xt)
	case KLen:
		return mkLen(as[0])
	case KElem:
		return mkElem(as[0], as[1], t.typ)
	case KSub:
		return mkSub(as[0], as[1], as[2], t.typ)
	case KSeq:
		return mkSeq(t.typ, as...)
	case KCat:
		return mkCat(as...)
	case KNot:
		return mkNot(as[0])
	case KConv:
		return mkConv(t.typ, as[0])
	case KCmp:
		switch t.s {
		case "<=0":
			return mkLE(as[0])
		case "==0":
			return mkEQ0(as[0])
		case "==":
			return mkEq(as[0], as[1])
		}
	case KLin:
		r := mkInt(t.c)
		for i, a := range as {
			r = linComb(r, 1, a, t.co[i], 0)
		}
		return r
	}
	n := *t
	n.a = as
	n.id = 0
	return mk(&n)
}
