package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) exec(in *inst) {
	i := fr.i
	switch x := in.in.(type) {
	case *ssa.BinOp:
		fr.regs[in.dst] = fr.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(&in.ops[0]), fr.get(&in.ops[1]))
	case *ssa.UnOp:
		fr.regs[in.dst] = fr.unop(x, fr.get(&in.ops[0]))
	case *ssa.Call:
		fr.regs[in.dst] = fr.doCall(&x.Call, in)
	case *ssa.ChangeInterface:
		fr.regs[in.dst] = fr.get(&in.ops[0])
	case *ssa.ChangeType:
		fr.regs[in.dst] = fr.get(&in.ops[0])
	case *ssa.Convert:
		fr.regs[in.dst] = fr.convert(x.Type(), x.X.Type(), fr.get(&in.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[in.dst] = fr.convert(x.Type(), x.X.Type(), fr.get(&in.ops[0]))
	case *ssa.SliceToArrayPointer:
		s, ok := fr.get(&in.ops[0]).([]Value)
		if !ok {
			badValue(fr.get(&in.ops[0]), "slice")
		}
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			fr.rtPanic("cannot convert slice to array: length too short")
		}
		if s == nil {
			fr.regs[in.dst] = (*Value)(nil)
			return
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.regs[in.dst] = p
	case *ssa.MakeInterface:
		fr.regs[in.dst] = Iface{x.X.Type(), copyVal(fr.get(&in.ops[0]))}
	case *ssa.Extract:
		t := fr.get(&in.ops[0])
		tu, ok := t.(Tuple)
		if !ok {
			if p, is := t.(Poison); is {
				fr.regs[in.dst] = p
				return
			}
			badValue(t, "tuple")
		}
		fr.regs[in.dst] = tu[x.Index]
	case *ssa.Store:
		fr.store(fr.get(&in.ops[0]), fr.get(&in.ops[1]), x.Val.Type())
	case *ssa.Alloc:
		p := new(Value)
		*p = zeroValue(x.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[in.dst] = p
	case *ssa.FieldAddr:
		v := fr.get(&in.ops[0])
		if cp, ok := v.(CastPtr); ok {
			_ = cp
			i.unsupported("field of cast pointer at %s called from %s", fr.where(), fr.repoWhere())
		}
		p, ok := v.(*Value)
		if !ok {
			if sp, is := v.(SlicePtr); is && len(sp.s) > 0 {
				p = &sp.s[0]
			} else {
				badValue(v, "pointer")
			}
		}
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			badValue(*p, "struct")
		}
		fr.regs[in.dst] = &s[x.Field]
	case *ssa.Field:
		s, ok := fr.get(&in.ops[0]).(Struct)
		if !ok {
			badValue(fr.get(&in.ops[0]), "struct")
		}
		fr.regs[in.dst] = s[x.Field]
	case *ssa.IndexAddr:
		fr.indexAddr(x, in)
	case *ssa.Index:
		fr.index(x, in)
	case *ssa.Slice:
		fr.slice(x, in)
	case *ssa.MakeSlice:
		n := fr.intArg(fr.get(&in.ops[0]), x.Len.Type(), "make len")
		c := fr.intArg(fr.get(&in.ops[1]), x.Cap.Type(), "make cap")
		if n < 0 {
			fr.rtPanic("makeslice: len out of range")
		}
		if c < n {
			fr.rtPanic("makeslice: cap out of range")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.regs[in.dst] = i.makeSlice(et, int(n), int(c))
	case *ssa.MakeMap:
		fr.regs[in.dst] = newMap(x.Type())
	case *ssa.MakeChan:
		n := fr.intArg(fr.get(&in.ops[0]), x.Size.Type(), "make chan")
		i.nchan++
		fr.regs[in.dst] = &Chan{id: i.nchan, cap: int(n)}
	case *ssa.MakeClosure:
		env := make([]Value, len(in.ops)-1)
		for k := range env {
			env[k] = fr.get(&in.ops[k+1])
		}
		fr.regs[in.dst] = &Closure{x.Fn.(*ssa.Function), env}
	case *ssa.Lookup:
		fr.lookup(x, in)
	case *ssa.MapUpdate:
		i.yieldMap()
		m, ok := fr.get(&in.ops[0]).(*MapVal)
		if !ok {
			badValue(fr.get(&in.ops[0]), "map")
		}
		if m == nil {
			panic(targetPanic{v: Iface{i.p.rtErr, "assignment to entry in nil map"}, where: fr.where(), msg: "assignment to entry in nil map"})
		}
		fr.mapUpdate(m, fr.get(&in.ops[1]), fr.get(&in.ops[2]))
	case *ssa.Range:
		v := fr.get(&in.ops[0])
		switch m := v.(type) {
		case *MapVal:
			i.yieldMap()
			it := &MapIter{m: m}
			if m != nil {
				for _, e := range m.ents {
					if !e.deleted {
						it.order = append(it.order, e)
					}
				}
				it.base = len(m.ents)
				if n := len(it.order); n > 1 && i.mapOrder && fr.fi.repo {
					// every rotation, and reversal, of the insertion order
					perm := i.choose(permCount(n), "maporder")
					it.order = permute(it.order, perm)
				}
			}
			fr.regs[in.dst] = it
		case string, *SymStr:
			fr.regs[in.dst] = &StrIter{s: m}
		default:
			badValue(v, "range operand")
		}
	case *ssa.Next:
		fr.next(x, in)
	case *ssa.TypeAssert:
		fr.typeAssert(x, in)
	case *ssa.Go:
		fn, args := fr.prepareCall(&x.Call, in)
		i.spawn(fr, fn, args)
	case *ssa.Defer:
		fn, args := fr.prepareCall(&x.Call, in)
		fr.defers = append(fr.defers, deferred{fn, args, x})
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Send:
		ch, ok := fr.get(&in.ops[0]).(*Chan)
		if !ok {
			badValue(fr.get(&in.ops[0]), "chan")
		}
		i.chanSend(fr, ch, fr.get(&in.ops[1]))
	case *ssa.Select:
		fr.doSelect(x, in)
	default:
		i.unsupported("instruction %T", in.in)
	}
}

func permCount(n int) int {
	if n == 2 {
		return 2
	}
	if n == 3 {
		return 6
	}
	return n
}
func permute(e []*mapEntry, k int) []*mapEntry {
	n := len(e)
	r := make([]*mapEntry, 0, n)
	if n == 3 {
		perms := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
		for _, j := range perms[k] {
			r = append(r, e[j])
		}
		return r
	}
	for j := 0; j < n; j++ {
		r = append(r, e[(j+k)%n])
	}
	return r
}

func (i *Interp) makeSlice(et types.Type, n, c int) []Value {
	if c > i.cfg.maxAlloc {
		panic(pathAbort{kind: abUnwind, why: fmt.Sprintf("allocation of %d elements exceeds bound %d", c, i.cfg.maxAlloc)})
	}
	s := make([]Value, n, c)
	full := s[:c]
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for k := range full {
			full[k] = zeroValue(et)
		}
	default:
		z := zeroValue(et)
		for k := range full {
			full[k] = z
		}
	}
	return s
}

// intArg returns a concrete int for v (forking over feasible values when symbolic).
func (fr *frame) intArg(v Value, t types.Type, what string) int64 {
	switch x := v.(type) {
	case uint64:
		return sext64(x, intWidthOr64(t)) * 1
	case *Term:
		// negative values / huge values are separated first
		w := x.w
		tc := fr.i.tc
		if isSigned(t) {
			if fr.i.branch(tc.Slt(x, tc.Const(0, w))) {
				return -1
			}
		}
		if lim := uint64(fr.i.cfg.maxAlloc); lim < mask(w)>>1 {
			if fr.i.branch(tc.Ult(tc.Const(lim, w), x)) {
				return int64(lim) + 1
			}
		}
		c := fr.i.concretize(x, what+" at "+fr.where())
		if isSigned(t) {
			return sext64(c, w)
		}
		return int64(c)
	}
	badValue(v, "int")
	return 0
}
func intWidthOr64(t types.Type) uint8 {
	w := intWidth(t)
	if w == 0 {
		return 64
	}
	if !isSigned(t) {
		return 64 // already non-negative and masked
	}
	return w
}

func (fr *frame) nilDeref() {
	fr.rtPanic("invalid memory address or nil pointer dereference")
}

func (fr *frame) load(p Value, t types.Type) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			fr.nilDeref()
		}
		return copyVal(*x)
	case SymElemPtr:
		return fr.i.mux(x.s, x.idx, x.et)
	case SlicePtr:
		if len(x.s) == 0 {
			fr.nilDeref()
		}
		return copyVal(x.s[0])
	case CastPtr:
		return fr.castLoad(x)
	}
	badValue(p, "pointer")
	return nil
}

func (fr *frame) store(p Value, v Value, t types.Type) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			fr.nilDeref()
		}
		storeVal(x, v)
		return
	case SymElemPtr:
		tc := fr.i.tc
		for k := range x.s {
			c := tc.Eq(x.idx, tc.Const(uint64(k), x.idx.w))
			nv, ok := fr.i.iteValue(c, v, x.s[k], x.et)
			if !ok {
				fr.i.unsupported("symbolic index store of non-scalar")
			}
			x.s[k] = nv
		}
		return
	case SlicePtr:
		if len(x.s) == 0 {
			fr.nilDeref()
		}
		storeVal(&x.s[0], v)
		return
	}
	badValue(p, "pointer")
}

// mux selects s[idx] (idx already known to be in range).
func (i *Interp) mux(s []Value, idx *Term, et types.Type) Value {
	w := intWidth(et)
	tc := i.tc
	isB := isBool(et)
	if w == 0 && !isB {
		i.unsupported("symbolic index into slice of %s", et)
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			if isB {
				return i.boolTerm(s[lo])
			}
			return i.term(s[lo], w)
		}
		mid := (lo + hi) / 2
		a, b := rec(lo, mid), rec(mid, hi)
		if a == b {
			return a
		}
		return tc.Ite(tc.Ult(idx, tc.Const(uint64(mid), idx.w)), a, b)
	}
	return lowerTerm(rec(0, len(s)))
}

// bounds checks idx < n, forking if symbolic; returns the index value.
func (fr *frame) bounds(v Value, t types.Type, n int) (int, *Term) {
	i := fr.i
	switch x := v.(type) {
	case uint64:
		k := sext64(x, intWidthOr64(t))
		if k < 0 || k >= int64(n) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k), nil
	case *Term:
		tc := i.tc
		t64 := x
		var ok *Term
		if uint64(n) > mask(x.w) {
			ok = tc.tru
			if isSigned(t) {
				ok = tc.Sle(tc.Const(0, x.w), x)
			}
		} else {
			ok = tc.Ult(x, tc.Const(uint64(n), x.w))
			if isSigned(t) && uint64(n) > mask(x.w)>>1 {
				ok = tc.And(ok, tc.Sle(tc.Const(0, x.w), x))
			}
		}
		if !i.branch(ok) {
			fr.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
		}
		if n == 1 {
			return 0, nil
		}
		return -1, t64
	}
	badValue(v, "index")
	return 0, nil
}

func (fr *frame) indexAddr(x *ssa.IndexAddr, in *inst) {
	base := fr.get(&in.ops[0])
	var s []Value
	switch b := base.(type) {
	case []Value:
		s = b
	case *Value:
		if b == nil {
			fr.nilDeref()
		}
		a, ok := (*b).(Array)
		if !ok {
			badValue(*b, "array")
		}
		s = a
	default:
		badValue(base, "indexable")
	}
	k, sym := fr.bounds(fr.get(&in.ops[1]), x.Index.Type(), len(s))
	if sym == nil {
		fr.regs[in.dst] = &s[k]
		return
	}
	et := x.Type().Underlying().(*types.Pointer).Elem()
	if intWidth(et) == 0 && !isBool(et) {
		k := fr.i.concretize(sym, "index at "+fr.where())
		fr.regs[in.dst] = &s[k]
		return
	}
	fr.regs[in.dst] = SymElemPtr{s, sym, et}
}

func (fr *frame) index(x *ssa.Index, in *inst) {
	base := fr.get(&in.ops[0])
	switch b := base.(type) {
	case Array:
		k, sym := fr.bounds(fr.get(&in.ops[1]), x.Index.Type(), len(b))
		if sym == nil {
			fr.regs[in.dst] = copyVal(b[k])
			return
		}
		et := x.Type()
		if intWidth(et) == 0 && !isBool(et) {
			fr.regs[in.dst] = copyVal(b[fr.i.concretize(sym, "index")])
			return
		}
		fr.regs[in.dst] = fr.i.mux(b, sym, et)
	case string, *SymStr:
		k, sym := fr.bounds(fr.get(&in.ops[1]), x.Index.Type(), strLen(b))
		if sym == nil {
			fr.regs[in.dst] = strAt(b, k)
			return
		}
		fr.regs[in.dst] = fr.i.mux(strBytes(b), sym, types.Typ[types.Uint8])
	default:
		badValue(base, "indexable")
	}
}

func (fr *frame) slice(x *ssa.Slice, in *inst) {
	base := fr.get(&in.ops[0])
	var s []Value
	var str Value
	var n, c int
	switch b := base.(type) {
	case []Value:
		s = b
		n, c = len(b), cap(b)
	case string, *SymStr:
		str = b
		n = strLen(b)
		c = n
	case *Value:
		if b == nil {
			fr.nilDeref()
		}
		a, ok := (*b).(Array)
		if !ok {
			badValue(*b, "array")
		}
		s = a
		n, c = len(a), len(a)
	default:
		badValue(base, "sliceable")
	}
	lo, hi, max := int64(0), int64(n), int64(c)
	conv := func(k int, dflt int64, lim int64) int64 {
		if in.ops[k].kind == okNone {
			return dflt
		}
		v := fr.get(&in.ops[k])
		var t types.Type
		switch k {
		case 1:
			t = x.Low.Type()
		case 2:
			t = x.High.Type()
		case 3:
			t = x.Max.Type()
		}
		if u, ok := v.(uint64); ok {
			r := sext64(u, intWidthOr64(t))
			if !isSigned(t) && u > 1<<62 {
				r = 1 << 62
			}
			return r
		}
		// symbolic: split off the out-of-range case, then concretise
		tm := fr.i.term(v, intWidth(t))
		tc := fr.i.tc
		if uint64(lim) < mask(tm.w) {
			bad := tc.Ult(tc.Const(uint64(lim), tm.w), tm)
			if isSigned(t) && uint64(lim) > mask(tm.w)>>1 {
				bad = tc.Or(bad, tc.Slt(tm, tc.Const(0, tm.w)))
			}
			if fr.i.branch(bad) {
				return lim + 1
			}
		}
		return int64(fr.i.concretize(tm, "slice bound at "+fr.where()))
	}
	max = conv(3, max, int64(c))
	lim := int64(c)
	if str != nil {
		lim = int64(n)
	}
	hi = conv(2, hi, lim)
	lo = conv(1, lo, lim)
	if max < 0 || max > int64(c) || hi < 0 || hi > lim || hi > max || lo < 0 || lo > hi {
		fr.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
	}
	if str != nil {
		fr.regs[in.dst] = strSlice(str, int(lo), int(hi))
		return
	}
	if s == nil {
		fr.regs[in.dst] = []Value(nil)
		return
	}
	fr.regs[in.dst] = s[lo:hi:max]
}

// ---------- maps ----------

func (fr *frame) mapFind(m *MapVal, key Value) *mapEntry {
	if m == nil {
		return nil
	}
	i := fr.i
	ck, ok := concreteKey(key)
	if ok && m.nsym == 0 {
		return m.idx[ck]
	}
	if !ok {
		if f, is := key.(Iface); is {
			_ = f
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if ok && e.ck != nil {
			if e.ck == ck {
				return e
			}
			continue
		}
		c := i.eq(fr, m.kt, e.k, key)
		if i.branchV(c) {
			return e
		}
	}
	return nil
}

func (fr *frame) mapUpdate(m *MapVal, k, v Value) {
	e := fr.mapFind(m, k)
	if e != nil {
		e.v = copyVal(v)
		return
	}
	ck, ok := concreteKey(k)
	e = &mapEntry{k: copyVal(k), v: copyVal(v)}
	if ok {
		e.ck = ck
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (fr *frame) mapDelete(m *MapVal, k Value) {
	e := fr.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if e.ck != nil {
		delete(m.idx, e.ck)
	} else {
		m.nsym--
	}
	// compact occasionally (iterators hold their own order)
	if len(m.ents) > 64 && m.n < len(m.ents)/2 {
		var ne []*mapEntry
		for _, x := range m.ents {
			if !x.deleted {
				ne = append(ne, x)
			}
		}
		m.ents = ne
	}
}

func (fr *frame) lookup(x *ssa.Lookup, in *inst) {
	base := fr.get(&in.ops[0])
	switch m := base.(type) {
	case *MapVal:
		fr.i.yieldMap()
		e := fr.mapFind(m, fr.get(&in.ops[1]))
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zeroValue(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			fr.regs[in.dst] = Tuple{v, e != nil}
		} else {
			fr.regs[in.dst] = v
		}
	case string, *SymStr:
		k, sym := fr.bounds(fr.get(&in.ops[1]), x.Index.Type(), strLen(m))
		if sym == nil {
			fr.regs[in.dst] = strAt(m, k)
			return
		}
		fr.regs[in.dst] = fr.i.mux(strBytes(m), sym, types.Typ[types.Uint8])
	default:
		badValue(base, "map")
	}
}

func (fr *frame) next(x *ssa.Next, in *inst) {
	switch it := fr.get(&in.ops[0]).(type) {
	case *MapIter:
		for it.m != nil {
			if it.pos < len(it.order) {
				e := it.order[it.pos]
				it.pos++
				if e.deleted {
					continue
				}
				fr.regs[in.dst] = Tuple{true, copyVal(e.k), copyVal(e.v)}
				return
			}
			if it.base < len(it.m.ents) {
				e := it.m.ents[it.base]
				it.base++
				if e.deleted {
					continue
				}
				fr.regs[in.dst] = Tuple{true, copyVal(e.k), copyVal(e.v)}
				return
			}
			break
		}
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		fr.regs[in.dst] = Tuple{false, zeroValue(mt.Key()), zeroValue(mt.Elem())}
	case *StrIter:
		n := strLen(it.s)
		if it.pos >= n {
			fr.regs[in.dst] = Tuple{false, uint64(0), uint64(0)}
			return
		}
		r, sz := fr.decodeRune(it.s, it.pos)
		fr.regs[in.dst] = Tuple{true, uint64(it.pos), r}
		it.pos += sz
	default:
		badValue(it, "iterator")
	}
}

func (fr *frame) decodeRune(s Value, pos int) (Value, int) {
	b := strAt(s, pos)
	if t, ok := b.(*Term); ok {
		tc := fr.i.tc
		if fr.i.branch(tc.Ult(t, tc.Const(0x80, 8))) {
			return lowerTerm(tc.ZExt(t, 32)), 1
		}
		fr.i.unsupported("symbolic multi-byte rune")
	}
	if b.(uint64) < 0x80 {
		return b, 1
	}
	// concrete multi-byte
	var buf []byte
	for k := pos; k < strLen(s) && k < pos+4; k++ {
		c, ok := strAt(s, k).(uint64)
		if !ok {
			fr.i.unsupported("symbolic multi-byte rune")
		}
		buf = append(buf, byte(c))
	}
	for _, r := range string(buf) {
		sz := len(string(r))
		if r == 0xfffd {
			sz = 1
			if len(buf) >= 3 && buf[0] == 0xef && buf[1] == 0xbf && buf[2] == 0xbd {
				sz = 3
			}
		}
		return uint64(uint32(r)), sz
	}
	return uint64(0xfffd), 1
}

// ---------- type assertions ----------

func (i *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (fr *frame) typeAssert(x *ssa.TypeAssert, in *inst) {
	v := fr.get(&in.ops[0])
	f, ok := v.(Iface)
	if !ok {
		badValue(v, "interface")
	}
	good := false
	var res Value
	if it, is := x.AssertedType.Underlying().(*types.Interface); is {
		if f.t != nil {
			good = fr.i.cachedImplements(f.t, it)
		}
		res = f
	} else {
		good = f.t != nil && sameType(f.t, x.AssertedType)
		res = f.v
	}
	if good {
		if x.CommaOk {
			fr.regs[in.dst] = Tuple{res, true}
		} else {
			fr.regs[in.dst] = res
		}
		return
	}
	if !x.CommaOk {
		d := "nil"
		if f.t != nil {
			d = f.t.String()
		}
		fr.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.AssertedType))
	}
	fr.regs[in.dst] = Tuple{zeroValue(x.AssertedType), false}
}

type implKey struct {
	t  int
	it *types.Interface
}

func (i *Interp) cachedImplements(t types.Type, it *types.Interface) bool {
	k := implKey{typeID(t), it}
	if v, ok := i.p.mcache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	i.p.mcache.Store(k, r)
	return r
}

// ---------- calls ----------

type methKey struct {
	t int
	m *types.Func
}

func (fr *frame) prepareCall(c *ssa.CallCommon, in *inst) (Value, []Value) {
	if c.IsInvoke() {
		v := fr.get(&in.ops[0])
		f, ok := v.(Iface)
		if !ok {
			badValue(v, "interface receiver")
		}
		if f.t == nil {
			fr.nilDeref()
		}
		k := methKey{typeID(f.t), c.Method}
		var fn *ssa.Function
		if m, ok := fr.i.p.mcache.Load(k); ok {
			fn = m.(*ssa.Function)
		} else {
			fn = fr.i.p.prog.LookupMethod(f.t, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				fr.i.unsupported("method %s of %s", c.Method.Name(), f.t)
			}
			fr.i.p.mcache.Store(k, fn)
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, copyVal(f.v))
		for k := range c.Args {
			args = append(args, fr.get(&in.ops[k+1]))
		}
		return fn, args
	}
	fn := fr.get(&in.ops[0])
	args := make([]Value, len(c.Args))
	for k := range c.Args {
		args[k] = fr.get(&in.ops[k+1])
	}
	return fn, args
}

func (fr *frame) doCall(c *ssa.CallCommon, in *inst) (res Value) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		args := make([]Value, len(c.Args))
		for k := range c.Args {
			args[k] = fr.get(&in.ops[k+1])
		}
		return fr.i.callBuiltin(fr, b, args, c)
	}
	fn, args := fr.prepareCall(c, in)
	if fr.i.tolerant > 0 && fr.fi.fn.Synthetic == "package initializer" || fr.i.tolerant > 0 && strings.HasPrefix(fr.fi.fn.Name(), "init#") {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathAbort:
				if x.kind != abUnsupported {
					panic(r)
				}
				res = poisonFor(c.Signature().Results(), x.why)
			case targetPanic:
				res = poisonFor(c.Signature().Results(), x.msg)
			default:
				panic(r)
			}
			fr.i.cur.top = fr
		}()
	}
	return fr.i.callValue(fr, fn, args)
}

func poisonFor(r *types.Tuple, why string) Value {
	switch r.Len() {
	case 0:
		return Tuple{}
	case 1:
		return Poison{why}
	}
	t := make(Tuple, r.Len())
	for k := range t {
		t[k] = Poison{why}
	}
	return t
}

func (i *Interp) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case []Value:
			return uint64(len(x))
		case string, *SymStr:
			return uint64(strLen(x))
		case *MapVal:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case Array:
			return uint64(len(x))
		case *Value:
			if x == nil {
				return uint64(0)
			}
			return uint64(len((*x).(Array)))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			n := len(x.q)
			if n > x.cap {
				n = x.cap
			}
			return uint64(n)
		}
		badValue(args[0], "len operand")
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *Chan:
			return uint64(x.cap)
		}
		badValue(args[0], "cap operand")
	case "append":
		s, ok := args[0].([]Value)
		if !ok {
			badValue(args[0], "slice")
		}
		var add []Value
		switch y := args[1].(type) {
		case []Value:
			add = y
		case string, *SymStr:
			add = strBytes(y)
		default:
			badValue(args[1], "slice")
		}
		if len(add) == 0 {
			return s
		}
		var et types.Type
		st := b.Type().(*types.Signature).Params().At(0).Type().Underlying()
		if sl, ok := st.(*types.Slice); ok {
			et = sl.Elem()
		}
		n := len(s) + len(add)
		if n > i.cfg.maxAlloc {
			panic(pathAbort{kind: abUnwind, why: "append beyond allocation bound"})
		}
		var r []Value
		if n <= cap(s) {
			r = s[:n]
		} else {
			es := int64(8)
			if et != nil {
				es = sizes64.Sizeof(et)
			}
			nc := growCap(len(s), cap(s), n, es)
			r = make([]Value, n, nc)
			copy(r, s)
			if et != nil && nc > n {
				full := r[:nc]
				switch et.Underlying().(type) {
				case *types.Struct, *types.Array:
					for k := n; k < nc; k++ {
						full[k] = zeroValue(et)
					}
				default:
					z := zeroValue(et)
					for k := n; k < nc; k++ {
						full[k] = z
					}
				}
			}
		}
		copyElems(r[len(s):], add)
		return r
	case "copy":
		d, ok := args[0].([]Value)
		if !ok {
			badValue(args[0], "slice")
		}
		var src []Value
		switch y := args[1].(type) {
		case []Value:
			src = y
		case string, *SymStr:
			src = strBytes(y)
		default:
			badValue(args[1], "slice")
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		copyElems(d[:n], src[:n])
		return uint64(n)
	case "delete":
		i.yieldMap()
		m, ok := args[0].(*MapVal)
		if !ok {
			badValue(args[0], "map")
		}
		if m != nil {
			fr.mapDelete(m, args[1])
		}
		return Tuple{}
	case "clear":
		switch m := args[0].(type) {
		case *MapVal:
			if m != nil {
				for _, e := range m.ents {
					e.deleted = true
				}
				m.ents, m.idx, m.n, m.nsym = nil, map[any]*mapEntry{}, 0, 0
			}
		case []Value:
			st := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
			for k := range m {
				m[k] = zeroValue(st.Elem())
			}
		}
		return Tuple{}
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			panic(targetPanic{v: Iface{i.p.rtErr, "close of nil channel"}, where: fr.where(), msg: "close of nil channel"})
		}
		if ch.closed {
			panic(targetPanic{v: Iface{i.p.rtErr, "close of closed channel"}, where: fr.where(), msg: "close of closed channel"})
		}
		ch.closed = true
		i.both(ch)
		return Tuple{}
	case "panic":
		panic(targetPanic{v: args[0], where: fr.where(), msg: "panic: " + i.panicString(args[0])})
	case "recover":
		// one level beneath the deferring function
		if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			tp := fr.caller.pan.(targetPanic)
			i.lastRecovered = tp
			if f, ok := tp.v.(Iface); ok {
				return f
			}
			return Iface{types.Typ[types.String], tp.msg}
		}
		return Iface{}
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			lt := fr.binop(op, t, t, a, r)
			switch cv := lt.(type) {
			case bool:
				if cv {
					r = a
				}
			case *Term:
				v, ok := i.iteValue(cv, a, r, t)
				if !ok {
					if i.branch(cv) {
						v = a
					} else {
						v = r
					}
				}
				r = v
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			fr.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return (*Value)(nil)
	// unsafe builtins
	case "String":
		switch p := args[0].(type) {
		case SlicePtr:
			n := fr.intArg(args[1], types.Typ[types.Int], "unsafe.String")
			return strFromBytes(p.s[:n])
		case *Value:
			n := fr.intArg(args[1], types.Typ[types.Int], "unsafe.String")
			if n == 0 {
				return ""
			}
			if n == 1 && p != nil {
				return strFromBytes([]Value{*p})
			}
		}
		i.unsupported("unsafe.String")
	case "StringData":
		return SlicePtr{strBytes(args[0])}
	case "SliceData":
		if s, ok := args[0].([]Value); ok {
			if s == nil {
				return (*Value)(nil)
			}
			return SlicePtr{s[:cap(s)]}
		}
	case "Slice":
		switch p := args[0].(type) {
		case SlicePtr:
			n := fr.intArg(args[1], types.Typ[types.Int], "unsafe.Slice")
			return p.s[:n:n]
		case *Value:
			n := fr.intArg(args[1], types.Typ[types.Int], "unsafe.Slice")
			if n == 0 {
				return []Value(nil)
			}
		}
		i.unsupported("unsafe.Slice")
	}
	i.unsupported("builtin %s", b.Name())
	return nil
}

func copyElems(d, s []Value) {
	if len(s) == 0 {
		return
	}
	switch s[0].(type) {
	case Struct, Array:
		// element storage must keep its identity; handle overlap like memmove
		tmp := make([]Value, len(s))
		for k := range s {
			tmp[k] = copyVal(s[k])
		}
		for k := range tmp {
			storeVal(&d[k], tmp[k])
		}
	default:
		copy(d, s)
	}
}

// ---------- unary / binary ----------

func (fr *frame) unop(x *ssa.UnOp, v Value) Value {
	i := fr.i
	switch x.Op {
	case token.MUL:
		return fr.load(v, x.Type())
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return lowerTerm(i.tc.Not(b))
		}
	case token.SUB:
		switch b := v.(type) {
		case uint64:
			return -b & mask(intWidth(x.Type()))
		case *Term:
			return lowerTerm(i.tc.Neg(b))
		case float64:
			return -b
		case complex128:
			return -b
		}
	case token.XOR:
		switch b := v.(type) {
		case uint64:
			return ^b & mask(intWidth(x.Type()))
		case *Term:
			return lowerTerm(i.tc.BNot(b))
		}
	case token.ARROW:
		ch, ok := v.(*Chan)
		if !ok {
			badValue(v, "chan")
		}
		r, okv := i.chanRecv(fr, ch)
		if !okv {
			r = zeroValue(x.X.Type().Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			return Tuple{r, okv}
		}
		return r
	}
	badValue(v, "unop operand")
	return nil
}

func (fr *frame) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	i := fr.i
	switch op {
	case token.EQL:
		return i.eq(fr, t, x, y)
	case token.NEQ:
		return i.notV(i.eq(fr, t, x, y))
	}
	if p, ok := x.(Poison); ok {
		badValue(p, "operand")
	}
	if p, ok := y.(Poison); ok {
		badValue(p, "operand")
	}
	if w := intWidth(t); w != 0 {
		return fr.intBinop(op, t, ty, w, x, y)
	}
	switch a := x.(type) {
	case float64:
		b, ok := y.(float64)
		if !ok {
			badValue(y, "float")
		}
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		if basicOf(t).Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case string:
		if b, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		return fr.symStrOp(op, x, y)
	case *SymStr:
		return fr.symStrOp(op, x, y)
	case bool, *Term:
		ta, tb := i.boolTerm(x), i.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return lowerTerm(i.tc.And(ta, tb))
		case token.OR, token.LOR:
			return lowerTerm(i.tc.Or(ta, tb))
		}
	}
	i.unsupported("binop %s on %T", op, x)
	return nil
}

func (fr *frame) symStrOp(op token.Token, x, y Value) Value {
	i := fr.i
	if op == token.ADD {
		a, b := strBytes(x), strBytes(y)
		r := make([]Value, 0, len(a)+len(b))
		r = append(r, a...)
		r = append(r, b...)
		return strFromBytes(r)
	}
	c := i.strCompare(strBytes(x), strBytes(y)) // -1,0,1 via forking
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	}
	i.unsupported("string op %s", op)
	return nil
}

func (i *Interp) strCompare(a, b []Value) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for k := 0; k < n; k++ {
		x, y := i.term(a[k], 8), i.term(b[k], 8)
		if i.branch(i.tc.Eq(x, y)) {
			continue
		}
		if i.branch(i.tc.Ult(x, y)) {
			return -1
		}
		return 1
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func (fr *frame) intBinop(op token.Token, t, ty types.Type, w uint8, x, y Value) Value {
	i := fr.i
	signed := isSigned(t)
	a, ca := x.(uint64)
	b, cb := y.(uint64)
	if op == token.SHL || op == token.SHR {
		return fr.shift(op, t, ty, w, x, y)
	}
	if ca && cb {
		m := mask(w)
		switch op {
		case token.ADD:
			return (a + b) & m
		case token.SUB:
			return (a - b) & m
		case token.MUL:
			return (a * b) & m
		case token.QUO, token.REM:
			if b == 0 {
				panic(targetPanic{v: Iface{i.p.rtErr, "integer divide by zero"}, where: fr.where(), msg: "runtime error: integer divide by zero"})
			}
			if signed {
				if op == token.QUO {
					return constBin(OpSDiv, a, b, w)
				}
				return constBin(OpSRem, a, b, w)
			}
			if op == token.QUO {
				return a / b
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			if signed {
				return sext64(a, w) < sext64(b, w)
			}
			return a < b
		case token.LEQ:
			if signed {
				return sext64(a, w) <= sext64(b, w)
			}
			return a <= b
		case token.GTR:
			if signed {
				return sext64(a, w) > sext64(b, w)
			}
			return a > b
		case token.GEQ:
			if signed {
				return sext64(a, w) >= sext64(b, w)
			}
			return a >= b
		}
	}
	tx, ty2 := i.term(x, w), i.term(y, w)
	tc := i.tc
	var r *Term
	switch op {
	case token.ADD:
		r = tc.Bin(OpAdd, tx, ty2)
	case token.SUB:
		r = tc.Bin(OpSub, tx, ty2)
	case token.MUL:
		r = tc.Bin(OpMul, tx, ty2)
	case token.QUO, token.REM:
		if i.branch(tc.Eq(ty2, tc.Const(0, w))) {
			panic(targetPanic{v: Iface{i.p.rtErr, "integer divide by zero"}, where: fr.where(), msg: "runtime error: integer divide by zero"})
		}
		switch {
		case signed && op == token.QUO:
			r = tc.Bin(OpSDiv, tx, ty2)
		case signed:
			r = tc.Bin(OpSRem, tx, ty2)
		case op == token.QUO:
			r = tc.Bin(OpUDiv, tx, ty2)
		default:
			r = tc.Bin(OpURem, tx, ty2)
		}
	case token.AND:
		r = tc.Bin(OpBAnd, tx, ty2)
	case token.OR:
		r = tc.Bin(OpBOr, tx, ty2)
	case token.XOR:
		r = tc.Bin(OpBXor, tx, ty2)
	case token.AND_NOT:
		r = tc.Bin(OpBAnd, tx, tc.BNot(ty2))
	case token.LSS:
		if signed {
			r = tc.Slt(tx, ty2)
		} else {
			r = tc.Ult(tx, ty2)
		}
	case token.LEQ:
		if signed {
			r = tc.Sle(tx, ty2)
		} else {
			r = tc.Ule(tx, ty2)
		}
	case token.GTR:
		if signed {
			r = tc.Slt(ty2, tx)
		} else {
			r = tc.Ult(ty2, tx)
		}
	case token.GEQ:
		if signed {
			r = tc.Sle(ty2, tx)
		} else {
			r = tc.Ule(ty2, tx)
		}
	default:
		i.unsupported("int op %s", op)
	}
	return lowerTerm(r)
}

func (fr *frame) shift(op token.Token, t, ty types.Type, w uint8, x, y Value) Value {
	i := fr.i
	signed := isSigned(t)
	ysigned := isSigned(ty)
	yw := intWidth(ty)
	if yw == 0 {
		yw = 64
	}
	var o Op
	switch {
	case op == token.SHL:
		o = OpShl
	case signed:
		o = OpAShr
	default:
		o = OpLShr
	}
	if yc, ok := y.(uint64); ok {
		if ysigned && sext64(yc, yw) < 0 {
			fr.rtPanic("negative shift amount")
		}
		if xc, ok := x.(uint64); ok {
			return constBin(o, xc, yc, w)
		}
		tx := i.term(x, w)
		if yc >= uint64(w) {
			if o == OpAShr {
				yc = uint64(w) - 1
			} else {
				return uint64(0)
			}
		}
		return lowerTerm(i.tc.Bin(o, tx, i.tc.Const(yc, w)))
	}
	tc := i.tc
	tyt := i.term(y, yw)
	if ysigned {
		if i.branch(tc.Slt(tyt, tc.Const(0, yw))) {
			fr.rtPanic("negative shift amount")
		}
	}
	tx := i.term(x, w)
	var cnt *Term
	if yw <= w {
		cnt = tc.ZExt(tyt, w)
	} else {
		big := tc.Ule(tc.Const(uint64(w), yw), tyt)
		cnt = tc.Ite(big, tc.Const(uint64(w), w), tc.Extract(tyt, w-1, 0))
	}
	return lowerTerm(tc.Bin(o, tx, cnt))
}

func (i *Interp) notV(v Value) Value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return lowerTerm(i.tc.Not(b))
	}
	badValue(v, "bool")
	return nil
}

func (i *Interp) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return lowerTerm(i.tc.And(i.boolTerm(a), i.boolTerm(b)))
}

func (i *Interp) eq(fr *frame, t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return lowerTerm(i.tc.Eq(i.tc.Const(a, b.w), b))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return lowerTerm(i.tc.Eq(i.tc.Bool(a), b))
		}
	case *Term:
		switch b := y.(type) {
		case uint64:
			return lowerTerm(i.tc.Eq(a, i.tc.Const(b, a.w)))
		case bool:
			return lowerTerm(i.tc.Eq(a, i.tc.Bool(b)))
		case *Term:
			return lowerTerm(i.tc.Eq(a, b))
		}
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
	case complex128:
		if b, ok := y.(complex128); ok {
			return a == b
		}
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return i.bytesEq(strBytes(x), strBytes(y))
	case *SymStr:
		return i.bytesEq(strBytes(x), strBytes(y))
	case *Value:
		switch b := y.(type) {
		case *Value:
			return a == b
		case SlicePtr:
			return a != nil && len(b.s) > 0 && a == &b.s[0]
		case SymElemPtr:
			return false
		}
	case SlicePtr:
		switch b := y.(type) {
		case *Value:
			return b != nil && len(a.s) > 0 && b == &a.s[0]
		case SlicePtr:
			return len(a.s) > 0 && len(b.s) > 0 && &a.s[0] == &b.s[0]
		}
	case UPtr:
		if b, ok := y.(UPtr); ok {
			if a.p == nil || b.p == nil {
				return isNilPtr(a.p) && isNilPtr(b.p)
			}
			return i.eq(fr, t, a.p, b.p)
		}
	case *Chan:
		return a == y.(*Chan)
	case []Value:
		b, ok := y.([]Value)
		if ok {
			// only comparison with nil is legal
			if a == nil || b == nil {
				return a == nil && b == nil
			}
		}
	case *MapVal:
		return a == y.(*MapVal)
	case *Closure:
		switch b := y.(type) {
		case *Closure:
			return a == b
		case *ssa.Function:
			return false
		}
	case *ssa.Function:
		return false
	case *NativeFn:
		return false
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !sameType(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			panic(targetPanic{v: Iface{i.p.rtErr, "comparing uncomparable type " + a.t.String()}, where: fr.where(), msg: "comparing uncomparable type"})
		}
		return i.eq(fr, a.t, a.v, b.v)
	case Struct:
		b, ok := y.(Struct)
		if !ok {
			break
		}
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for k := range a {
			if st.Field(k).Name() == "_" {
				continue
			}
			r = i.andV(r, i.eq(fr, st.Field(k).Type(), a[k], b[k]))
			if rb, ok := r.(bool); ok && !rb {
				return false
			}
		}
		return r
	case Array:
		b, ok := y.(Array)
		if !ok {
			break
		}
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for k := range a {
			r = i.andV(r, i.eq(fr, et, a[k], b[k]))
			if rb, ok := r.(bool); ok && !rb {
				return false
			}
		}
		return r
	}
	if p, ok := x.(Poison); ok {
		badValue(p, "comparable")
	}
	if p, ok := y.(Poison); ok {
		badValue(p, "comparable")
	}
	i.unsupported("compare %T with %T", x, y)
	return nil
}

func isNilPtr(v Value) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Value)
	return ok && p == nil
}

func (i *Interp) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	r := i.tc.tru
	for k := range a {
		x, ok1 := a[k].(uint64)
		y, ok2 := b[k].(uint64)
		if ok1 && ok2 {
			if x != y {
				return false
			}
			continue
		}
		r = i.tc.And(r, i.tc.Eq(i.term(a[k], 8), i.term(b[k], 8)))
		if r.isConst() && r.k == 0 {
			return false
		}
	}
	return lowerTerm(r)
}

// ---------- conversions ----------

func (fr *frame) convert(to, from types.Type, v Value) Value {
	i := fr.i
	ut, uf := to.Underlying(), from.Underlying()
	if p, ok := v.(Poison); ok {
		return p
	}
	if bt, ok := ut.(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
		switch x := v.(type) {
		case *Value, SlicePtr, SymElemPtr:
			return UPtr{x, from}
		case CastPtr:
			return UPtr{x.p, x.from}
		case UPtr:
			return x
		case uint64:
			if x == 0 {
				return UPtr{}
			}
		}
		i.unsupported("uintptr to unsafe.Pointer")
	}
	if bf, ok := uf.(*types.Basic); ok && bf.Kind() == types.UnsafePointer {
		if pt, ok := ut.(*types.Pointer); ok {
			u := v.(UPtr)
			if u.p == nil {
				return (*Value)(nil)
			}
			if fp, ok := u.t.Underlying().(*types.Pointer); ok {
				if types.Identical(fp.Elem().Underlying(), pt.Elem().Underlying()) {
					return u.p
				}
				return CastPtr{u.p, fp.Elem(), pt.Elem()}
			}
			return u.p
		}
		if isInteger(to) {
			// only nil checks make sense
			u := v.(UPtr)
			if isNilPtr(u.p) {
				return uint64(0)
			}
			i.unsupported("unsafe.Pointer to uintptr")
		}
	}
	if isInteger(to) {
		w := intWidth(to)
		switch x := v.(type) {
		case uint64:
			fw := intWidth(from)
			if fw == 0 {
				fw = 64
			}
			if w > fw && isSigned(from) {
				return uint64(sext64(x, fw)) & mask(w)
			}
			return x & mask(w)
		case *Term:
			if x.w == w {
				return x
			}
			if x.w > w {
				return lowerTerm(i.tc.Extract(x, w-1, 0))
			}
			if isSigned(from) {
				return lowerTerm(i.tc.SExt(x, w))
			}
			return lowerTerm(i.tc.ZExt(x, w))
		case float64:
			if isSigned(to) {
				return uint64(int64(x)) & mask(w)
			}
			return uint64(x) & mask(w)
		}
		badValue(v, "integer")
	}
	if isFloat(to) {
		var f float64
		switch x := v.(type) {
		case uint64:
			if isSigned(from) {
				f = float64(sext64(x, intWidth(from)))
			} else {
				f = float64(x)
			}
		case float64:
			f = x
		case *Term:
			i.unsupported("symbolic int to float")
		default:
			badValue(v, "number")
		}
		if basicOf(to).Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	if isString(to) {
		switch x := v.(type) {
		case string, *SymStr:
			return x
		case uint64: // rune
			return string(rune(sext64(x, intWidthOr64(from))))
		case *Term:
			tc := i.tc
			if i.branch(tc.Ult(x, tc.Const(0x80, x.w))) {
				b := x
				if x.w > 8 {
					b = tc.Extract(x, 7, 0)
				}
				return strFromBytes([]Value{lowerTerm(b)})
			}
			i.unsupported("symbolic rune to string")
		case []Value:
			et := uf.(*types.Slice).Elem()
			if intWidth(et) == 8 {
				return strFromBytes(x)
			}
			var sb strings.Builder
			allc := true
			for _, r := range x {
				c, ok := r.(uint64)
				if !ok {
					allc = false
					break
				}
				sb.WriteRune(rune(sext64(c, 32)))
			}
			if allc {
				return sb.String()
			}
			var out []Value
			for _, r := range x {
				switch c := r.(type) {
				case uint64:
					out = append(out, strBytes(string(rune(sext64(c, 32))))...)
				case *Term:
					if !i.branch(i.tc.Ult(c, i.tc.Const(0x80, 32))) {
						i.unsupported("symbolic rune")
					}
					out = append(out, lowerTerm(i.tc.Extract(c, 7, 0)))
				}
			}
			return strFromBytes(out)
		}
		badValue(v, "string source")
	}
	if st, ok := ut.(*types.Slice); ok {
		switch v.(type) {
		case string, *SymStr:
			if intWidth(st.Elem()) == 8 {
				b := strBytes(v)
				r := make([]Value, len(b), growCap(0, 0, len(b), 1))
				copy(r, b)
				for k := len(b); k < cap(r); k++ {
					r[:cap(r)][k] = uint64(0)
				}
				return r
			}
			var out []Value
			for pos := 0; pos < strLen(v); {
				r, sz := fr.decodeRune(v, pos)
				out = append(out, r)
				pos += sz
			}
			if out == nil {
				out = []Value{}
			}
			return out
		case []Value:
			return v
		}
	}
	if bt, ok := ut.(*types.Basic); ok && bt.Info()&types.IsComplex != 0 {
		return v
	}
	if types.Identical(ut, uf) {
		return v
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	i.unsupported("convert %s to %s", from, to)
	return nil
}

// castLoad implements *(*T)(unsafe.Pointer(p)) for byte-array <-> integer puns.
func (fr *frame) castLoad(c CastPtr) Value {
	p, ok := c.p.(*Value)
	if !ok || p == nil {
		if ok {
			fr.nilDeref()
		}
		fr.i.unsupported("cast pointer load")
	}
	var bytes []Value
	var flat func(v Value, t types.Type)
	flat = func(v Value, t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			w := intWidth(t)
			if w == 0 {
				fr.i.unsupported("cast load from %s", t)
			}
			tm := fr.i.term(v, w)
			for k := uint8(0); k < w/8; k++ {
				bytes = append(bytes, lowerTerm(fr.i.tc.Extract(tm, k*8+7, k*8)))
			}
		case *types.Array:
			for _, e := range v.(Array) {
				flat(e, u.Elem())
			}
		default:
			fr.i.unsupported("cast load from %s", t)
		}
	}
	flat(*p, c.from)
	pos := 0
	var build func(t types.Type) Value
	build = func(t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			w := intWidth(t)
			if w == 0 {
				fr.i.unsupported("cast load to %s", t)
			}
			n := int(w / 8)
			if pos+n > len(bytes) {
				fr.i.unsupported("cast load beyond object")
			}
			r := fr.i.term(bytes[pos+n-1], 8)
			for k := n - 2; k >= 0; k-- {
				r = fr.i.tc.Concat(r, fr.i.term(bytes[pos+k], 8))
			}
			pos += n
			return lowerTerm(r)
		case *types.Array:
			a := make(Array, u.Len())
			for k := range a {
				a[k] = build(u.Elem())
			}
			return a
		}
		fr.i.unsupported("cast load to %s", t)
		return nil
	}
	return build(c.to)
}

var _ = math.MaxInt64
