package main

// Lists put together from parts of other lists, normalised with what is known about their lengths.

// parts gives the list as units and slices of opaque lists.
func (e *Exec) parts(st *St, x *T) []*T {
	switch x.k {
	case KSeq:
		var out []*T
		for _, p := range x.a {
			if p.k == KUnit {
				out = append(out, p)
			} else {
				out = append(out, e.parts(st, p)...)
			}
		}
		return out
	case KSub:
		b := e.parts(st, x.a[0])
		if len(b) == 1 && b[0] == x.a[0] {
			break
		}
		l, _, ok := e.cut(st, b, x.a[2])
		if !ok {
			break
		}
		_, r, ok := e.cut(st, l, x.a[1])
		if !ok {
			break
		}
		return r
	}
	if x.isNil() {
		return nil
	}
	return []*T{x}
}

// cut splits parts at an index.
func (e *Exec) cut(st *St, ps []*T, at *T) (l, r []*T, ok bool) {
	o := mkInt(0)
	for i, p := range ps {
		n := mkInt(1)
		if p.k != KUnit {
			n = mkLen(p)
		}
		end := linAdd(o, n)
		switch {
		case e.entailLE(st, linSub(at, o)):
			return ps[:i:i], ps[i:], true
		case e.entailLE(st, linSub(end, at)):
		case p.k != KUnit && e.entailLE(st, linSub(o, at)) && e.entailLE(st, linSub(at, end)):
			k := linSub(at, o)
			l = append(append(l, ps[:i]...), e.slice(p, mkInt(0), k))
			r = append([]*T{e.slice(p, k, n)}, ps[i+1:]...)
			return l, r, true
		default:
			return nil, nil, false
		}
		o = end
	}
	return ps, nil, true
}

func (e *Exec) slice(p, lo, hi *T) *T { return mkSub(p, lo, hi, p.typ) }

// norm is the list in a form that does not depend on how it was put together.
func (e *Exec) norm(st *St, x *T) *T {
	ps := e.parts(st, x)
	if len(ps) == 1 && ps[0].k != KUnit {
		return ps[0]
	}
	return mkSeq(x.typ, ps...)
}

// setAt is the list with one element changed; nil when the index is not known well enough.
func (e *Exec) setAt(st *St, x, i, v *T) *T {
	l, r, ok := e.cut(st, e.parts(st, x), i)
	if !ok {
		return nil
	}
	_, r, ok = e.cut(st, r, mkInt(1))
	if !ok {
		return nil
	}
	return mkSeq(x.typ, append(append(append([]*T{}, l...), mkUnit(v)), r...)...)
}
