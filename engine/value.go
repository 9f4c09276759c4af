package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of:
//
//	bool | uint64 (any integer kind, masked) | float64 | complex128 | string | *SymStr | *Term
//	*Value (pointer) | SymElemPtr | SlicePtr | CastPtr | UPtr (unsafe.Pointer)
//	[]Value (slice) | Array | Struct | Tuple | *MapVal | Iface | *Chan
//	*Closure | *ssa.Function | *ssa.Builtin | *NativeFn | *MapIter | *StrIter | Poison
type Value any

type Struct []Value
type Array []Value
type Tuple []Value

type SymStr struct{ b []Value } // bytes: uint64 or *Term(w=8)

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn struct {
	name string
	f    func(fr *frame, args []Value) Value
}

type SymElemPtr struct {
	s   []Value
	idx *Term
	et  types.Type
}
type SlicePtr struct{ s []Value }
type CastPtr struct {
	p        Value
	from, to types.Type
}
type UPtr struct {
	p Value
	t types.Type // pointee type when known
}
type Poison struct{ why string }

type mapEntry struct {
	k, v    Value
	deleted bool
	ck      any // concrete hash key, nil if symbolic
}
type MapVal struct {
	ents   []*mapEntry
	idx    map[any]*mapEntry
	n      int
	nsym   int
	kt, vt types.Type
}
type MapIter struct {
	m     *MapVal
	order []*mapEntry
	pos   int
	base  int
}
type StrIter struct {
	s   Value
	pos int
}

type Chan struct {
	id     int
	q      []*chanItem
	cap    int
	closed bool
	recvW  int
}
type chanItem struct {
	v     Value
	taken bool
}

// ---- type ids ----

var (
	typeIDMu  sync.Mutex
	typeIDMap typeutil.Map
	typeIDN   int
	typeIDPtr sync.Map
)

func typeID(t types.Type) int {
	if v, ok := typeIDPtr.Load(t); ok {
		return v.(int)
	}
	typeIDMu.Lock()
	defer typeIDMu.Unlock()
	id, ok := typeIDMap.At(t).(int)
	if !ok {
		typeIDN++
		id = typeIDN
		typeIDMap.Set(t, id)
	}
	typeIDPtr.Store(t, id)
	return id
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return typeID(a) == typeID(b)
}

// ---- kinds ----

var sizes64 = types.SizesFor("gc", "amd64")

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intWidth(t types.Type) uint8 {
	b := basicOf(t)
	if b == nil {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func isSigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isBool(t types.Type) bool   { b := basicOf(t); return b != nil && b.Info()&types.IsBoolean != 0 }
func isString(t types.Type) bool { b := basicOf(t); return b != nil && b.Info()&types.IsString != 0 }
func isFloat(t types.Type) bool  { b := basicOf(t); return b != nil && b.Info()&types.IsFloat != 0 }
func isInteger(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			panic(pathAbort{kind: abUnsupported, why: "huge array"})
		}
		a := make(Array, n)
		if n > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = zeroValue(u.Elem())
				}
			default:
				z := zeroValue(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zeroValue(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*MapVal)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = zeroValue(u.At(i).Type())
		}
		return tu
	case *types.TypeParam:
		panic(pathAbort{kind: abUnsupported, why: "zero of type parameter"})
	}
	panic(pathAbort{kind: abUnsupported, why: "zeroValue " + t.String()})
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		if len(x) > 0 {
			switch x[0].(type) {
			case Struct, Array:
				for i, e := range x {
					r[i] = copyVal(e)
				}
			default:
				copy(r, x)
			}
		}
		return r
	}
	return v
}

func storeVal(addr *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*addr).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeVal(&d[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if d, ok := (*addr).(Array); ok && len(d) == len(x) {
			if len(x) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeVal(&d[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	badValue(v, "string")
	return 0
}
func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	badValue(v, "string")
	return nil
}
func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	badValue(v, "string")
	return nil
}
func strFromBytes(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			c := make([]Value, len(b))
			copy(c, b)
			return &SymStr{c}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}
func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return strFromBytes(s.b[lo:hi])
	}
	badValue(v, "string")
	return nil
}

func badValue(v Value, want string) {
	if p, ok := v.(Poison); ok {
		panic(pathAbort{kind: abUnsupported, why: "poison: " + p.why})
	}
	panic(pathAbort{kind: abUnsupported, why: fmt.Sprintf("unexpected value %T where %s expected", v, want)})
}

// growCap mimics the runtime's append growth for elements of size es.
func growCap(oldLen, oldCap, newLen int, es int64) int {
	if es <= 0 {
		return newLen
	}
	if es == 1 {
		s := make([]byte, oldLen, oldCap)
		s = append(s, make([]byte, newLen-oldLen)...)
		return cap(s)
	}
	if newLen > 1<<16 {
		return newLen + newLen/4
	}
	t := reflect.SliceOf(reflect.ArrayOf(int(es), reflect.TypeOf(byte(0))))
	s := reflect.MakeSlice(t, oldLen, oldCap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(t, newLen-oldLen, newLen-oldLen))
	return s.Cap()
}

// ---- concrete map keys ----

type ifaceKey struct {
	t int
	v any
}

type compKey struct{ s string }

func concreteKey(v Value) (any, bool) {
	switch x := v.(type) {
	case uint64, bool, string, float64, complex128, *Value, *Chan, *MapVal, *Closure, *ssa.Function:
		return x, true
	case Iface:
		if x.t == nil {
			return ifaceKey{}, true
		}
		k, ok := concreteKey(x.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{typeID(x.t), k}, true
	case Struct:
		return compositeKey([]Value(x))
	case Array:
		return compositeKey([]Value(x))
	}
	return nil, false
}
func compositeKey(vs []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range vs {
		k, ok := concreteKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, k)
	}
	return compKey{sb.String()}, true
}

func newMap(t types.Type) *MapVal {
	m := t.Underlying().(*types.Map)
	return &MapVal{idx: map[any]*mapEntry{}, kt: m.Key(), vt: m.Elem()}
}

// debug printing
func valString(v Value, depth int) string {
	if depth <= 0 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return x.ref()
	case Struct:
		return "{" + listString(x, depth-1) + "}"
	case Array:
		return "[" + listString(x, depth-1) + "]"
	case Tuple:
		return "(" + listString(x, depth-1) + ")"
	case []Value:
		return "[]{" + listString(x, depth-1) + "}"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + valString(*x, depth-1)
	case Iface:
		if x.t == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("(%s)%s", x.t, valString(x.v, depth-1))
	case *SymStr:
		return "sym" + listString(x.b, depth)
	case *MapVal:
		if x == nil {
			return "nil-map"
		}
		var p []string
		for _, e := range x.ents {
			if !e.deleted {
				p = append(p, valString(e.k, depth-1)+":"+valString(e.v, depth-1))
			}
		}
		sort.Strings(p)
		return "map[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprintf("%v", v)
}
func listString(l []Value, d int) string {
	var p []string
	for i, e := range l {
		if i > 16 {
			p = append(p, "...")
			break
		}
		p = append(p, valString(e, d))
	}
	return strings.Join(p, " ")
}

var _ = unsafe.Pointer(nil)
