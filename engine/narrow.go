package main

import "math/bits"

// Queries with multiplications or divisions are rewritten to narrower
// bit-vectors before they are sent: the path constraints give intervals of the
// variables, these give intervals of the terms, and a sum or product that
// cannot exceed k bits is computed with k bits. The constraints the intervals
// come from are sent unchanged, so that the query stays equivalent.

type ival struct{ lo, hi uint64 }

type narrower struct {
	tc   *TermCtx
	vars map[*Term]ival
	rngs map[*Term]ival
	memo map[*Term]*Term
}

func isArith(op Op) bool {
	switch op {
	case OpMul, OpUDiv, OpURem, OpSDiv, OpSRem:
		return true
	}
	return false
}

// hasArith tells whether the terms contain multiplications or divisions.
func (s *Solver) hasArith(ts []*Term) bool {
	s.stamp++
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || x.op == OpConst || x.seen == s.stamp {
			continue
		}
		x.seen = s.stamp
		if isArith(x.op) {
			return true
		}
		st = append(st, x.a, x.b, x.c)
	}
	return false
}

// bounds returns what a constraint says about single variables, nil if nothing.
func bounds(t *Term, neg bool) map[*Term]ival {
	switch t.op {
	case OpNot:
		return bounds(t.a, !neg)
	case OpAnd, OpOr:
		a, b := bounds(t.a, neg), bounds(t.b, neg)
		if (t.op == OpAnd) != neg {
			// both hold
			if a == nil {
				return b
			}
			for v, y := range b {
				if x, ok := a[v]; ok {
					y = ival{max(x.lo, y.lo), min(x.hi, y.hi)}
				}
				a[v] = y
			}
			return a
		}
		var m map[*Term]ival
		for v, x := range a {
			if y, ok := b[v]; ok {
				if m == nil {
					m = map[*Term]ival{}
				}
				m[v] = ival{min(x.lo, y.lo), max(x.hi, y.hi)}
			}
		}
		return m
	case OpEq:
		a, b := t.a, t.b
		if a.isConst() {
			a, b = b, a
		}
		if a.op == OpVar && a.w > 0 && b.isConst() && !neg {
			return map[*Term]ival{a: {b.k, b.k}}
		}
	case OpUlt, OpUle:
		strict := (t.op == OpUlt) != neg
		a, b := t.a, t.b
		if neg {
			// not a<b: b<=a
			a, b = b, a
		}
		if a.op == OpVar && b.isConst() {
			hi := b.k
			if strict {
				if hi == 0 {
					return nil
				}
				hi--
			}
			return map[*Term]ival{a: {0, hi}}
		}
		if b.op == OpVar && a.isConst() {
			lo := a.k
			if strict {
				if lo == mask(b.w) {
					return nil
				}
				lo++
			}
			return map[*Term]ival{b: {lo, mask(b.w)}}
		}
	}
	return nil
}

// narrow rewrites a query.
func (s *Solver) narrow(slice []*Term, extra *Term) ([]*Term, *Term) {
	if s.tc == nil || !s.hasArith(append(slice[:len(slice):len(slice)], extra)) {
		return slice, extra
	}
	n := &narrower{tc: s.tc, vars: map[*Term]ival{}, rngs: map[*Term]ival{}, memo: map[*Term]*Term{}}
	keep := make([]bool, len(slice))
	for k, t := range slice {
		for v, x := range bounds(t, false) {
			keep[k] = true
			if y, ok := n.vars[v]; ok {
				x = ival{max(x.lo, y.lo), min(x.hi, y.hi)}
			}
			if x.lo > x.hi {
				return slice, extra
			}
			n.vars[v] = x
		}
	}
	out := make([]*Term, len(slice))
	for k, t := range slice {
		out[k] = t
		if !keep[k] {
			out[k] = n.rewrite(t)
		}
	}
	return out, n.rewrite(extra)
}

func (n *narrower) rng(t *Term) ival {
	if t.op == OpConst {
		return ival{t.k, t.k}
	}
	if r, ok := n.rngs[t]; ok {
		return r
	}
	full := ival{0, mask(t.w)}
	r := full
	switch t.op {
	case OpVar:
		if x, ok := n.vars[t]; ok {
			r = x
		}
	case OpZExt:
		r = n.rng(t.a)
	case OpExtract:
		x := n.rng(t.a)
		if t.k == 0 && x.hi <= full.hi {
			r = x
		} else if x.hi>>t.k <= full.hi {
			r = ival{x.lo >> t.k, x.hi >> t.k}
		}
	case OpConcat:
		x, y := n.rng(t.a), n.rng(t.b)
		r = ival{x.lo<<t.b.w + y.lo, x.hi<<t.b.w + y.hi}
	case OpIte:
		x, y := n.rng(t.b), n.rng(t.c)
		r = ival{min(x.lo, y.lo), max(x.hi, y.hi)}
	case OpAdd:
		x, y := n.rng(t.a), n.rng(t.b)
		lo, c1 := bits.Add64(x.lo, y.lo, 0)
		hi, c2 := bits.Add64(x.hi, y.hi, 0)
		switch {
		case t.w == 64 && c1 == c2, t.w < 64 && lo>>t.w == hi>>t.w:
			// all of the sums wrap, or none
			r = ival{lo & full.hi, hi & full.hi}
		}
	case OpSub:
		x, y := n.rng(t.a), n.rng(t.b)
		if x.lo >= y.hi {
			r = ival{x.lo - y.hi, x.hi - y.lo}
		}
	case OpMul:
		x, y := n.rng(t.a), n.rng(t.b)
		if h, hi := bits.Mul64(x.hi, y.hi); h == 0 && hi <= full.hi {
			r = ival{x.lo * y.lo, hi}
		}
	case OpUDiv:
		x, y := n.rng(t.a), n.rng(t.b)
		if y.lo > 0 {
			r = ival{x.lo / y.hi, x.hi / y.lo}
		}
	case OpURem:
		x, y := n.rng(t.a), n.rng(t.b)
		if y.lo > 0 {
			r = ival{0, min(x.hi, y.hi-1)}
		}
	case OpBAnd:
		x, y := n.rng(t.a), n.rng(t.b)
		r = ival{0, min(x.hi, y.hi)}
	case OpBOr, OpBXor:
		x, y := n.rng(t.a), n.rng(t.b)
		r = ival{0, uint64(1)<<bits.Len64(x.hi|y.hi) - 1}
	case OpLShr:
		x := n.rng(t.a)
		r = ival{0, x.hi}
	}
	n.rngs[t] = r
	return r
}

func (n *narrower) rewrite(t *Term) *Term {
	if t == nil || t.op == OpConst || t.op == OpVar {
		return t
	}
	if r, ok := n.memo[t]; ok {
		return r
	}
	tc := n.tc
	var r *Term
	if t.w > 0 {
		if x := n.rng(t); x.lo == x.hi {
			r = tc.Const(x.lo, t.w)
			n.memo[t] = r
			return r
		}
	}
	a, b, c := n.rewrite(t.a), n.rewrite(t.b), n.rewrite(t.c)
	switch t.op {
	case OpNot:
		r = tc.Not(a)
	case OpAnd:
		r = tc.And(a, b)
	case OpOr:
		r = tc.Or(a, b)
	case OpIte:
		r = tc.Ite(a, b, c)
	case OpEq:
		if t.a.w > 0 {
			x, y := n.rng(t.a), n.rng(t.b)
			if x.hi < y.lo || y.hi < x.lo {
				r = tc.Bool(false)
				break
			}
		}
		a, b = n.cut(t.a, a, t.b, b)
		r = tc.Eq(a, b)
	case OpUlt, OpUle:
		x, y := n.rng(t.a), n.rng(t.b)
		lt := t.op == OpUlt
		switch {
		case x.hi < y.lo, !lt && x.hi == y.lo:
			r = tc.Bool(true)
		case x.lo > y.hi, lt && x.lo == y.hi:
			r = tc.Bool(false)
		case lt && t.a.op == OpAdd && (t.a.a == t.b || t.a.b == t.b) && n.noWrap(t.a):
			// a sum is not less than a part
			r = tc.Bool(false)
		case !lt && t.b.op == OpAdd && (t.b.a == t.a || t.b.b == t.a) && n.noWrap(t.b):
			r = tc.Bool(true)
		default:
			a, b = n.cut(t.a, a, t.b, b)
			if lt {
				r = tc.Ult(a, b)
			} else {
				r = tc.Ule(a, b)
			}
		}
	case OpSlt:
		r = tc.Slt(a, b)
	case OpSle:
		r = tc.Sle(a, b)
	case OpBNot:
		r = tc.BNot(a)
	case OpNeg:
		r = tc.Neg(a)
	case OpConcat:
		r = tc.Concat(a, b)
	case OpExtract:
		r = tc.Extract(a, uint8(t.k)+t.w-1, uint8(t.k))
	case OpZExt:
		r = tc.ZExt(a, t.w)
	case OpSExt:
		r = tc.SExt(a, t.w)
	case OpAdd, OpSub, OpMul:
		// the low bits of the result depend on the low bits of the operands only
		if k := width(n.rng(t).hi); k < t.w {
			r = tc.ZExt(tc.Bin(t.op, tc.Extract(a, k-1, 0), tc.Extract(b, k-1, 0)), t.w)
		} else {
			r = tc.Bin(t.op, a, b)
		}
	case OpUDiv, OpURem:
		k := width(max(n.rng(t.a).hi, n.rng(t.b).hi))
		if k < t.w && n.rng(t.b).lo > 0 {
			r = tc.ZExt(tc.Bin(t.op, tc.Extract(a, k-1, 0), tc.Extract(b, k-1, 0)), t.w)
		} else {
			r = tc.Bin(t.op, a, b)
		}
	default:
		r = tc.Bin(t.op, a, b)
	}
	n.memo[t] = r
	return r
}

func width(v uint64) uint8 { return uint8(max(1, bits.Len64(v))) }

// cut takes the upper bits off both sides of a comparison if they are zero.
func (n *narrower) cut(ta, a, tb, b *Term) (*Term, *Term) {
	if ta.w == 0 {
		return a, b
	}
	k := width(max(n.rng(ta).hi, n.rng(tb).hi))
	if k < ta.w {
		return n.tc.Extract(a, k-1, 0), n.tc.Extract(b, k-1, 0)
	}
	return a, b
}

func (n *narrower) noWrap(t *Term) bool {
	x, y := n.rng(t.a), n.rng(t.b)
	s, c := bits.Add64(x.hi, y.hi, 0)
	return c == 0 && s <= mask(t.w)
}
