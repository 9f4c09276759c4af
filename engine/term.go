package main

// Terms: hash-consed bit-vector / boolean expressions with on-the-fly
// simplification, concrete evaluation and SMT-LIB2 printing.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpBNot
	OpNeg
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract // k = lo; w = width
	OpZExt
	OpSExt
)

var opName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpIte: "ite", OpBNot: "bvnot", OpNeg: "bvneg", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv",
	OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpConcat: "concat",
}

// Term has width w; w==0 means boolean.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64 // constant value / extract low bit
	name    string
	id      int32
	// memo for evaluation under the model with stamp evStamp
	evStamp int32
	ev      uint64
	emitted bool
	h1, h2  uint64 // structural hash, stable across paths
	idx     int32  // variables: index in the context
	seen    int32
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermCtx struct {
	tab  map[termKey]*Term
	n    int32
	vars []*Term
	tru  *Term
	fls  *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.tru = c.mk(OpConst, 0, nil, nil, nil, 1)
	c.fls = c.mk(OpConst, 0, nil, nil, nil, 0)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: d, k: k, id: c.n}
	t.h1, t.h2 = mix64(uint64(op)<<8|uint64(w)), mix64(uint64(op)<<8|uint64(w)+0x5bd1e995)
	t.h1 = mix64(t.h1 ^ k)
	t.h2 = mix64(t.h2 + k*0x9e3779b97f4a7c15)
	for n, x := range [3]*Term{a, b, d} {
		if x != nil {
			t.h1 = mix64(t.h1*31 + x.h1 + uint64(n))
			t.h2 = mix64(t.h2*37 ^ x.h2 + uint64(n)*7)
		}
	}
	c.n++
	c.tab[key] = t
	return t
}

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x + 0x9e3779b97f4a7c15
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *TermCtx) Const(v uint64, w uint8) *Term {
	return c.mk(OpConst, w, nil, nil, nil, v&mask(w))
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *TermCtx) Var(name string, w uint8) *Term {
	t := &Term{op: OpVar, w: w, name: fmt.Sprintf("v%d_%s", len(c.vars), sanitize(name)), id: c.n, idx: int32(len(c.vars))}
	h := fnv.New128a()
	fmt.Fprintf(h, "%s/%d", t.name, w)
	sum := h.Sum(nil)
	t.h1, t.h2 = binary.BigEndian.Uint64(sum), binary.BigEndian.Uint64(sum[8:])
	c.n++
	c.vars = append(c.vars, t)
	return t
}
func sanitize(s string) string {
	b := []byte(s)
	for i, ch := range b {
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_') {
			b[i] = '_'
		}
	}
	return string(b)
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.k == 0)
	}
	switch a.op {
	case OpNot:
		return a.a
	case OpUlt:
		return c.mk(OpUle, 0, a.b, a.a, nil, 0)
	case OpUle:
		return c.mk(OpUlt, 0, a.b, a.a, nil, 0)
	case OpSlt:
		return c.mk(OpSle, 0, a.b, a.a, nil, 0)
	case OpSle:
		return c.mk(OpSlt, 0, a.b, a.a, nil, 0)
	}
	return c.mk(OpNot, 0, a, nil, nil, 0)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if c.Not(a) == b {
		return c.fls
	}
	return c.mk(OpAnd, 0, a, b, nil, 0)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if c.Not(a) == b {
		return c.tru
	}
	return c.mk(OpOr, 0, a, b, nil, 0)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if a.isConst() {
			if a.k != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		cond, a, b = cond.a, b, a
	}
	return c.mk(OpIte, a.w, cond, a, b, 0)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return b
			}
			return c.Not(b)
		}
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OpZExt:
			if b.k > mask(a.a.w) {
				return c.fls
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpSExt:
			lo := b.k & mask(a.a.w)
			if uint64(sext64(lo, a.a.w))&mask(a.w) != b.k {
				return c.fls
			}
			return c.Eq(a.a, c.Const(lo, a.a.w))
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				e1, e2 := a.b.k == b.k, a.c.k == b.k
				switch {
				case e1 && e2:
					return c.tru
				case e1:
					return a.a
				case e2:
					return c.Not(a.a)
				default:
					return c.fls
				}
			}
		case OpConcat:
			lw := a.b.w
			return c.And(c.Eq(a.a, c.Const(b.k>>lw, a.a.w)), c.Eq(a.b, c.Const(b.k, lw)))
		}
		return c.mk(OpEq, 0, a, b, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, a, b, nil, 0)
}

// umax/umin: cheap unsigned bounds
func umax(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpZExt:
		return umax(t.a)
	case OpBAnd:
		m := mask(t.w)
		if t.b.isConst() {
			m = t.b.k
		}
		if u := umaxShallow(t.a); u < m {
			return u
		}
		return m
	case OpLShr:
		if t.b.isConst() {
			if t.b.k >= uint64(t.w) {
				return 0
			}
			return umax(t.a) >> t.b.k
		}
	case OpURem:
		if t.b.isConst() && t.b.k > 0 {
			return t.b.k - 1
		}
	case OpConcat:
		return umax(t.a)<<t.b.w | umax(t.b)
	case OpIte:
		x, y := umaxShallow(t.b), umaxShallow(t.c)
		if x > y {
			return x
		}
		return y
	}
	return mask(t.w)
}
func umaxShallow(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpZExt:
		return mask(t.a.w)
	case OpConcat:
		return umax(t)
	}
	return mask(t.w)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return c.fls
		}
		if umax(a) < b.k {
			return c.tru
		}
	}
	if a.isConst() {
		if a.k >= umax(b) {
			return c.fls
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OpZExt && b.isConst() && b.k <= mask(a.a.w) {
		return c.Ult(a.a, c.Const(b.k, a.a.w))
	}
	if b.op == OpZExt && a.isConst() && a.k <= mask(b.a.w) {
		return c.Ult(c.Const(a.k, b.a.w), b.a)
	}
	return c.mk(OpUlt, 0, a, b, nil, 0)
}
func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func nonneg(t *Term) bool { return umax(t) <= mask(t.w)>>1 }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if nonneg(a) && b.isConst() { // b negative
		return c.fls
	}
	if nonneg(b) && a.isConst() {
		return c.tru
	}
	return c.mk(OpSlt, 0, a, b, nil, 0)
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func constBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		s := sext64(x, w)
		if y >= uint64(w) {
			if s < 0 {
				return m
			}
			return 0
		}
		return uint64(s>>y) & m
	}
	panic("constBin")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %v %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Const(constBin(op, a.k, b.k, w), w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	m := mask(w)
	if b.isConst() {
		switch op {
		case OpAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return c.Bin(OpAdd, a.a, c.Const(a.b.k+b.k, w))
			}
		case OpSub:
			if b.k == 0 {
				return a
			}
			return c.Bin(OpAdd, a, c.Const(-b.k, w))
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.Bin(OpShl, a, c.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OpUDiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && bits.OnesCount64(b.k) == 1 {
				return c.Bin(OpLShr, a, c.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OpURem:
			if b.k == 1 {
				return c.Const(0, w)
			}
			if b.k != 0 && bits.OnesCount64(b.k) == 1 {
				return c.Bin(OpBAnd, a, c.Const(b.k-1, w))
			}
		case OpSDiv:
			if b.k == 1 {
				return a
			}
			if nonneg(a) && b.k <= m>>1 && b.k != 0 {
				return c.Bin(OpUDiv, a, b)
			}
		case OpSRem:
			if nonneg(a) && b.k <= m>>1 && b.k != 0 {
				return c.Bin(OpURem, a, b)
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if a.op == OpBAnd && a.b.isConst() {
				return c.Bin(OpBAnd, a.a, c.Const(a.b.k&b.k, w))
			}
			if a.op == OpZExt {
				iw := a.a.w
				return c.ZExt(c.Bin(OpBAnd, a.a, c.Const(b.k, iw)), w)
			}
			if a.op == OpConcat {
				lw := a.b.w
				return c.Concat(c.Bin(OpBAnd, a.a, c.Const(b.k>>lw, a.a.w)), c.Bin(OpBAnd, a.b, c.Const(b.k, lw)))
			}
			// contiguous low mask
			if b.k&(b.k+1) == 0 {
				n := uint8(bits.Len64(b.k))
				return c.ZExt(c.Extract(a, n-1, 0), w)
			}
		case OpBOr:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		case OpBXor:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return c.BNot(a)
			}
		case OpShl:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(0, w)
			}
			s := uint8(b.k)
			return c.Concat(c.Extract(a, w-1-s, 0), c.Const(0, s))
		case OpLShr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(0, w)
			}
			s := uint8(b.k)
			return c.ZExt(c.Extract(a, w-1, s), w)
		case OpAShr:
			if b.k == 0 {
				return a
			}
			if nonneg(a) {
				return c.Bin(OpLShr, a, b)
			}
		}
	}
	if a.isConst() && a.k == 0 {
		switch op {
		case OpShl, OpLShr, OpAShr:
			return a
		}
	}
	switch op {
	case OpSub:
		if a == b {
			return c.Const(0, w)
		}
	case OpBAnd:
		if a == b {
			return a
		}
	case OpBXor:
		if a == b {
			return c.Const(0, w)
		}
	case OpBOr, OpAdd:
		if op == OpBOr && a == b {
			return a
		}
		if r := c.mergeDisjoint(a, b); r != nil {
			return r
		}
	}
	return c.mk(op, w, a, b, nil, 0)
}

// piece view of a term as high..low list of (term or zero)
type piece struct {
	t *Term // nil => zeros
	w uint8
}

func pieces(t *Term, out []piece) []piece {
	switch t.op {
	case OpConcat:
		out = pieces(t.a, out)
		return pieces(t.b, out)
	case OpZExt:
		out = append(out, piece{nil, t.w - t.a.w})
		return pieces(t.a, out)
	case OpConst:
		if t.k == 0 {
			return append(out, piece{nil, t.w})
		}
	}
	return append(out, piece{t, t.w})
}

// mergeDisjoint: a|b (or a+b) where at every bit one of them is a known zero.
func (c *TermCtx) mergeDisjoint(a, b *Term) *Term {
	if a.op != OpConcat && a.op != OpZExt && b.op != OpConcat && b.op != OpZExt {
		return nil
	}
	pa, pb := pieces(a, nil), pieces(b, nil)
	if len(pa) == 1 || len(pb) == 1 {
		return nil
	}
	if len(pa)+len(pb) > 64 {
		return nil
	}
	var res []piece
	i, j := 0, 0
	var ra, rb = pa[0].w, pb[0].w
	offA, offB := uint8(0), uint8(0) // consumed from top
	for i < len(pa) && j < len(pb) {
		n := ra
		if rb < n {
			n = rb
		}
		x, y := pa[i], pb[j]
		if x.t != nil && y.t != nil {
			return nil
		}
		var p piece
		p.w = n
		if x.t != nil {
			p.t = c.Extract(x.t, x.w-offA-1, x.w-offA-n)
		} else if y.t != nil {
			p.t = c.Extract(y.t, y.w-offB-1, y.w-offB-n)
		}
		res = append(res, p)
		ra -= n
		rb -= n
		offA += n
		offB += n
		if ra == 0 {
			i++
			offA = 0
			if i < len(pa) {
				ra = pa[i].w
			}
		}
		if rb == 0 {
			j++
			offB = 0
			if j < len(pb) {
				rb = pb[j].w
			}
		}
	}
	var r *Term
	for k := len(res) - 1; k >= 0; k-- {
		p := res[k]
		t := p.t
		if t == nil {
			t = c.Const(0, p.w)
		}
		if r == nil {
			r = t
		} else {
			r = c.Concat(t, r)
		}
	}
	return r
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(^a.k, a.w)
	}
	if a.op == OpBNot {
		return a.a
	}
	return c.mk(OpBNot, a.w, a, nil, nil, 0)
}
func (c *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.Const(-a.k, a.w)
	}
	return c.mk(OpNeg, a.w, a, nil, nil, 0)
}

func (c *TermCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return c.Const(a.k<<b.w|b.k, w)
	}
	if a.isConst() && a.k == 0 {
		return c.ZExt(b, w)
	}
	if a.op == OpZExt {
		return c.ZExt(c.Concat(a.a, b), w)
	}
	// right-assoc normal form: concat(x, concat(y,z))
	if a.op == OpConcat {
		return c.Concat(a.a, c.Concat(a.b, b))
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.k == b.k+uint64(b.w) {
		return c.Extract(a.a, uint8(a.k)+a.w-1, uint8(b.k))
	}
	if a.op == OpExtract && b.op == OpConcat && b.a.op == OpExtract && a.a == b.a.a && a.k == b.a.k+uint64(b.a.w) {
		return c.Concat(c.Extract(a.a, uint8(a.k)+a.w-1, uint8(b.a.k)), b.b)
	}
	return c.mk(OpConcat, w, a, b, nil, 0)
}

func (c *TermCtx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k>>lo, w)
	}
	switch a.op {
	case OpExtract:
		return c.Extract(a.a, hi+uint8(a.k), lo+uint8(a.k))
	case OpConcat:
		lw := a.b.w
		if hi < lw {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.a, hi-lw, 0), c.Extract(a.b, lw-1, lo))
	case OpZExt:
		iw := a.a.w
		if hi < iw {
			return c.Extract(a.a, hi, lo)
		}
		if lo >= iw {
			return c.Const(0, w)
		}
		return c.ZExt(c.Extract(a.a, iw-1, lo), w)
	case OpSExt:
		iw := a.a.w
		if hi < iw {
			return c.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return c.SExt(a.a, w)
		}
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		if a.b.isConst() {
			return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	}
	return c.mk(OpExtract, w, a, nil, nil, uint64(lo))
}

func (c *TermCtx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.mk(OpZExt, w, a, nil, nil, 0)
}
func (c *TermCtx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sext64(a.k, a.w)), w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OpSExt {
		return c.SExt(a.a, w)
	}
	return c.mk(OpSExt, w, a, nil, nil, 0)
}

// ---- evaluation under a model (variables absent => 0) ----

type Model struct {
	vals  map[*Term]uint64
	stamp int32
}

var stampCtr int32

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.evStamp == m.stamp {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OpVar:
		v = m.vals[t]
	case OpNot:
		v = 1 - m.Eval(t.a)
	case OpAnd:
		v = m.Eval(t.a)
		if v != 0 {
			v = m.Eval(t.b)
		}
	case OpOr:
		v = m.Eval(t.a)
		if v == 0 {
			v = m.Eval(t.b)
		}
	case OpEq:
		v = b2u(m.Eval(t.a) == m.Eval(t.b))
	case OpUlt:
		v = b2u(m.Eval(t.a) < m.Eval(t.b))
	case OpUle:
		v = b2u(m.Eval(t.a) <= m.Eval(t.b))
	case OpSlt:
		v = b2u(sext64(m.Eval(t.a), t.a.w) < sext64(m.Eval(t.b), t.a.w))
	case OpSle:
		v = b2u(sext64(m.Eval(t.a), t.a.w) <= sext64(m.Eval(t.b), t.a.w))
	case OpIte:
		if m.Eval(t.a) != 0 {
			v = m.Eval(t.b)
		} else {
			v = m.Eval(t.c)
		}
	case OpBNot:
		v = ^m.Eval(t.a) & mask(t.w)
	case OpNeg:
		v = -m.Eval(t.a) & mask(t.w)
	case OpConcat:
		v = m.Eval(t.a)<<t.b.w | m.Eval(t.b)
	case OpExtract:
		v = (m.Eval(t.a) >> t.k) & mask(t.w)
	case OpZExt:
		v = m.Eval(t.a)
	case OpSExt:
		v = uint64(sext64(m.Eval(t.a), t.a.w)) & mask(t.w)
	default:
		v = constBin(t.op, m.Eval(t.a), m.Eval(t.b), t.w)
	}
	t.evStamp = m.stamp
	t.ev = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---- SMT printing ----

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OpVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) body() string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, t.a.ref())
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	n := opName[t.op]
	switch {
	case t.c != nil:
		return "(" + n + " " + t.a.ref() + " " + t.b.ref() + " " + t.c.ref() + ")"
	case t.b != nil:
		return "(" + n + " " + t.a.ref() + " " + t.b.ref() + ")"
	default:
		return "(" + n + " " + t.a.ref() + ")"
	}
}
