package main

// Intrinsics: harness primitives (package zzsym) and models of the parts of the
// standard library that cannot (assembly, runtime) or need not (formatting,
// logging, clocks) be executed symbolically.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "github.com/gostor/gotgt/pkg/zzsym"

func stubPackage(path string) bool {
	switch path {
	case "github.com/sirupsen/logrus", "log", "log/slog", "github.com/coreos/go-systemd/daemon":
		return true
	}
	return false
}

func noInitPackage(path string) bool {
	if strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime") || strings.HasPrefix(path, "crypto/") ||
		strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "net/") || strings.HasPrefix(path, "golang.org/") {
		return true
	}
	switch path {
	case "os", "net", "syscall", "reflect", "time", "encoding/json", "unicode", "fmt", "sync", "sync/atomic", "unsafe",
		"github.com/satori/go.uuid", "github.com/mitchellh/go-homedir", "hash/crc32", "context", "os/exec", "os/user", "math/rand", "regexp", "regexp/syntax":
		return true
	}
	return false
}

func (p *Program) findIntrinsic(fn *ssa.Function, name, pp string) intrinsic {
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	if st, ok := p.stubs[name]; ok && st != fn {
		return func(fr *frame, _ *ssa.Function, args []Value) Value {
			return fr.i.callFunction(fr.caller, st, args, nil)
		}
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if stubPackage(pp) {
		n := fn.Name()
		if n == "init" {
			return func(fr *frame, _ *ssa.Function, _ []Value) Value { return Tuple{} }
		}
		if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") {
			return func(fr *frame, _ *ssa.Function, _ []Value) Value {
				panic(targetPanic{v: Iface{types.Typ[types.String], "log fatal"}, where: fr.where(), msg: "log." + n + " terminates the process"})
			}
		}
		return zeroResult
	}
	if pp == "sync/atomic" && fn.Blocks == nil {
		return atomicOp(fn.Name())
	}
	return nil
}

func zeroResult(fr *frame, fn *ssa.Function, args []Value) Value {
	return zeroResults(fn)
}
func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Tuple{}
	case 1:
		return zeroValue(r.At(0).Type())
	}
	return zeroValue(r)
}

func (fr *frame) concStr(v Value, what string) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for k := range s.b {
			switch x := s.b[k].(type) {
			case uint64:
				b[k] = byte(x)
			case *Term:
				b[k] = byte(fr.i.concretize(x, what))
			}
		}
		return string(b)
	}
	badValue(v, "string")
	return ""
}

func (fr *frame) concU(v Value, what string) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Term:
		return fr.i.concretize(x, what)
	case bool:
		return b2u(x)
	}
	badValue(v, "int")
	return 0
}

func (i *Interp) boolOut(t *Term) Value { return lowerTerm(t) }

func symInt(w uint8, kind string) intrinsic {
	return func(fr *frame, _ *ssa.Function, args []Value) Value {
		return fr.i.newVar(fr.concStr(args[0], "name"), w, kind)
	}
}

var intrinsics map[string]intrinsic

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	sym := func(n string, f intrinsic) { I[symPkg+"."+n] = f }
	sym("U8", symInt(8, "u8"))
	sym("U16", symInt(16, "u16"))
	sym("U32", symInt(32, "u32"))
	sym("U64", symInt(64, "u64"))
	sym("I64", symInt(64, "i64"))
	sym("Int", symInt(64, "int"))
	sym("Bool", symInt(0, "bool"))
	sym("Bytes", func(fr *frame, _ *ssa.Function, a []Value) Value {
		name := fr.concStr(a[0], "name")
		n := int(fr.concU(a[1], "Bytes length"))
		r := make([]Value, n)
		for k := range r {
			r[k] = fr.i.newVar(fmt.Sprintf("%s[%d]", name, k), 8, "u8")
		}
		return r
	})
	sym("Choose", func(fr *frame, _ *ssa.Function, a []Value) Value {
		name := fr.concStr(a[0], "name")
		k := fr.i.choose(int(fr.concU(a[1], "Choose")), name)
		fr.i.nondets = append(fr.i.nondets, nondet{Name: name, V: uint64(k), W: 64, Kind: "choose"})
		return uint64(k)
	})
	sym("Assume", func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.assume(a[0]); return Tuple{} })
	sym("Assert", func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.assertion(fr, a[0], fr.concStr(a[1], "id"))
		return Tuple{}
	})
	sym("Known", func(fr *frame, _ *ssa.Function, a []Value) Value {
		// Known(kf, ok, region, id): assert ok, except that a failure inside
		// region is the listed finding kf
		i := fr.i
		kf := fr.concStr(a[0], "kf")
		id := fr.concStr(a[3], "id")
		if !i.e.opt.Known[kf] {
			i.assertion(fr, a[1], id)
			return Tuple{}
		}
		ok, reg := i.boolTerm(a[1]), i.boolTerm(a[2])
		bad := i.tc.And(reg, i.tc.Not(ok))
		if i.branchV(lowerTerm(bad)) {
			i.knownHit[kf] = pathSample{inputs: i.inputs(i.model)}
			panic(pathAbort{kind: abStop, why: "known finding " + kf})
		}
		i.assertion(fr, lowerTerm(ok), id)
		return Tuple{}
	})
	sym("Cover", func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.covered[fr.concStr(a[0], "cover")] = true
		return Tuple{}
	})
	sym("Observe", func(fr *frame, _ *ssa.Function, a []Value) Value {
		v := a[1]
		if f, ok := v.(Iface); ok {
			v = f.v
			if w := intWidth0(f.t); w > 0 && isSigned(f.t) {
				v = signedObs{v, w}
			}
		}
		if s, ok := v.([]Value); ok {
			v = append([]Value{}, s...)
		}
		fr.i.obs = append(fr.i.obs, obs{fr.concStr(a[0], "obs"), v})
		return Tuple{}
	})
	sym("And", func(fr *frame, _ *ssa.Function, a []Value) Value {
		r := fr.i.tc.tru
		for _, x := range a[0].([]Value) {
			r = fr.i.tc.And(r, fr.i.boolTerm(x))
		}
		return lowerTerm(r)
	})
	sym("Or", func(fr *frame, _ *ssa.Function, a []Value) Value {
		r := fr.i.tc.Bool(false)
		for _, x := range a[0].([]Value) {
			r = fr.i.tc.Or(r, fr.i.boolTerm(x))
		}
		return lowerTerm(r)
	})
	sym("Implies", func(fr *frame, _ *ssa.Function, a []Value) Value {
		return lowerTerm(fr.i.tc.Or(fr.i.tc.Not(fr.i.boolTerm(a[0])), fr.i.boolTerm(a[1])))
	})
	sym("IteU64", func(fr *frame, _ *ssa.Function, a []Value) Value {
		v, _ := fr.i.iteValue(fr.i.boolTerm(a[0]), a[1], a[2], types.Typ[types.Uint64])
		return v
	})
	sym("EqBytes", func(fr *frame, _ *ssa.Function, a []Value) Value {
		return fr.i.bytesEq(a[0].([]Value), a[1].([]Value))
	})
	sym("Concrete", func(fr *frame, _ *ssa.Function, a []Value) Value {
		return fr.concU(a[0], "Concrete")
	})
	sym("Branch", func(fr *frame, _ *ssa.Function, a []Value) Value { return fr.i.branchV(a[0]) })
	sym("MapOrder", func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.mapOrder = a[0].(bool)
		return Tuple{}
	})
	sym("Preempt", func(fr *frame, _ *ssa.Function, a []Value) Value {
		k := int(fr.concU(a[0], "Preempt"))
		fr.i.preempt = k
		fr.i.sched = k > 0
		fr.i.races = false
		fr.i.hb = nil
		fr.i.mhits = nil
		return Tuple{}
	})
	sym("Races", func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.armRaces(int(fr.concU(a[0], "Races")))
		return Tuple{}
	})
	sym("HeadStart", func(fr *frame, _ *ssa.Function, a []Value) Value { return Tuple{} })
	sym("Quiesce", func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.quiesce(); return Tuple{} })
	sym("Symbolic", func(fr *frame, _ *ssa.Function, a []Value) Value { return true })
	sym("Thorough", func(fr *frame, _ *ssa.Function, a []Value) Value { return fr.i.e.opt.Thorough })
	sym("Stop", func(fr *frame, _ *ssa.Function, a []Value) Value {
		panic(pathAbort{kind: abInfeasible, why: "stopped by harness"})
	})
	// Try runs f and reports whether it panicked (the panic is swallowed).
	sym("Try", func(fr *frame, _ *ssa.Function, a []Value) (res Value) {
		top := fr.caller
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(targetPanic); ok {
				fr.i.cur.top = top
				res = true
				return
			}
			panic(r)
		}()
		fr.i.callValue(fr, a[0], nil)
		return false
	})

	// ---- internal/bytealg ----
	idxByte := func(fr *frame, s []Value, c Value) Value {
		i := fr.i
		for k := range s {
			if i.branchV(i.eq(fr, nil, s[k], c)) {
				return uint64(k)
			}
		}
		return mask(64)
	}
	I["internal/bytealg.IndexByte"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return idxByte(fr, a[0].([]Value), a[1]) }
	I["internal/bytealg.IndexByteString"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return idxByte(fr, strBytes(a[0]), a[1]) }
	lastIdx := func(fr *frame, s []Value, c Value) Value {
		for k := len(s) - 1; k >= 0; k-- {
			if fr.i.branchV(fr.i.eq(fr, nil, s[k], c)) {
				return uint64(k)
			}
		}
		return mask(64)
	}
	I["internal/bytealg.LastIndexByte"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return lastIdx(fr, a[0].([]Value), a[1]) }
	I["internal/bytealg.LastIndexByteString"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return lastIdx(fr, strBytes(a[0]), a[1]) }
	cnt := func(fr *frame, s []Value, c Value) Value {
		n := uint64(0)
		for k := range s {
			if fr.i.branchV(fr.i.eq(fr, nil, s[k], c)) {
				n++
			}
		}
		return n
	}
	I["internal/bytealg.Count"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return cnt(fr, a[0].([]Value), a[1]) }
	I["internal/bytealg.CountString"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return cnt(fr, strBytes(a[0]), a[1]) }
	sub := func(fr *frame, s, n []Value) Value {
		for k := 0; k+len(n) <= len(s); k++ {
			if fr.i.branchV(fr.i.bytesEq(s[k:k+len(n)], n)) {
				return uint64(k)
			}
		}
		return mask(64)
	}
	I["internal/bytealg.IndexString"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return sub(fr, strBytes(a[0]), strBytes(a[1])) }
	I["internal/bytealg.Index"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return sub(fr, a[0].([]Value), a[1].([]Value)) }
	I["strings.Clone"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["strings.Index"] = I["internal/bytealg.IndexString"]
	I["internal/stringslite.Index"] = I["internal/bytealg.IndexString"]
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["bytes.Equal"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return fr.i.bytesEq(a[0].([]Value), a[1].([]Value)) }
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	cmp := func(fr *frame, a []Value, b []Value) Value { return uint64(int64(fr.i.strCompare(a, b))) }
	I["internal/bytealg.Compare"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return cmp(fr, a[0].([]Value), a[1].([]Value)) }
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.CompareString"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return cmp(fr, strBytes(a[0]), strBytes(a[1])) }
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.MakeNoZero"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		n := int(fr.concU(a[0], "MakeNoZero"))
		return fr.i.makeSlice(types.Typ[types.Uint8], n, n)
	}
	I["internal/abi.NoEscape"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return a[0] }
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["internal/race.Enabled"] = zeroResult
	for _, n := range []string{"Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange", "Errors", "ReadPC", "WritePC", "ReadObjectPC", "WriteObjectPC"} {
		I["internal/race."+n] = zeroResult
	}
	I["runtime.GC"] = zeroResult
	I["runtime.Gosched"] = func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.yieldPoint(); return Tuple{} }
	I["runtime.KeepAlive"] = zeroResult
	I["runtime.SetFinalizer"] = zeroResult
	I["runtime.NumGoroutine"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return uint64(1) }

	// ---- ASCII case mapping: models without table lookups ----
	mapASCII := func(up bool) func(fr *frame, _ *ssa.Function, a []Value) Value {
		return func(fr *frame, _ *ssa.Function, a []Value) Value {
			if s, ok := a[0].(string); ok {
				if up {
					return strings.ToUpper(s)
				}
				return strings.ToLower(s)
			}
			i := fr.i
			var out []Value
			for _, b := range strBytes(a[0]) {
				switch x := b.(type) {
				case uint64:
					if up && x >= 'a' && x <= 'z' {
						x -= 32
					} else if !up && x >= 'A' && x <= 'Z' {
						x += 32
					}
					out = append(out, x)
				case *Term:
					if i.branch(i.tc.Ule(i.tc.Const(0x80, 8), x)) {
						i.unsupported("case mapping of non-ASCII symbolic byte")
					}
					lo, hi := uint64('A'), uint64('Z')
					if up {
						lo, hi = 'a', 'z'
					}
					in := i.tc.And(i.tc.Ule(i.tc.Const(lo, 8), x), i.tc.Ule(x, i.tc.Const(hi, 8)))
					out = append(out, lowerTerm(i.tc.Ite(in, i.tc.Bin(OpBXor, x, i.tc.Const(0x20, 8)), x)))
				}
			}
			return strFromBytes(out)
		}
	}
	I["strings.ToUpper"] = mapASCII(true)
	I["strings.ToLower"] = mapASCII(false)
	for n, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl} {
		f := f
		I["unicode."+n] = func(fr *frame, _ *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case uint64:
				return f(rune(int32(x)))
			case *Term:
				i := fr.i
				if !i.branch(i.tc.Ult(x, i.tc.Const(0x80, 32))) {
					i.unsupported("unicode class of symbolic rune")
				}
				r := i.tc.Bool(false)
				for c := 0; c < 128; c++ {
					if f(rune(c)) {
						r = i.tc.Or(r, i.tc.Eq(x, i.tc.Const(uint64(c), 32)))
					}
				}
				return lowerTerm(r)
			}
			badValue(a[0], "rune")
			return nil
		}
	}
	for n, f := range map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "SimpleFold": unicode.SimpleFold} {
		f := f
		I["unicode."+n] = func(fr *frame, _ *ssa.Function, a []Value) Value {
			return uint64(uint32(f(rune(int32(fr.concU(a[0], "rune"))))))
		}
	}

	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.lock(fr, a[0], false); return Tuple{} }
	I["(*sync.Mutex).TryLock"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		if st.locked || st.readers > 0 {
			return false
		}
		st.locked = true
		fr.i.acquire(st)
		fr.i.acquire(readersOf{st})
		return true
	}
	I["(*sync.Mutex).Unlock"] = func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.unlock(fr, a[0]); return Tuple{} }
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.lock(fr, a[0], true); return Tuple{} }
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		i := fr.i
		st := i.syncOf(fr, a[0])
		if st.readers == 0 {
			panic(targetPanic{v: Iface{i.p.rtErr, "sync: RUnlock of unlocked RWMutex"}, where: fr.where(), msg: "sync: RUnlock of unlocked RWMutex"})
		}
		st.readers--
		i.release(readersOf{st})
		fr.yieldOn(st)
		return Tuple{}
	}
	I["(*sync.WaitGroup).Add"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		st.count += int64(fr.concU(a[1], "WaitGroup.Add"))
		if st.count < 0 {
			panic(targetPanic{v: Iface{fr.i.p.rtErr, "sync: negative WaitGroup counter"}, where: fr.where(), msg: "sync: negative WaitGroup counter"})
		}
		return Tuple{}
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		st.count--
		if st.count < 0 {
			panic(targetPanic{v: Iface{fr.i.p.rtErr, "sync: negative WaitGroup counter"}, where: fr.where(), msg: "sync: negative WaitGroup counter"})
		}
		fr.i.both(st)
		fr.yieldOn(st)
		return Tuple{}
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		fr.i.block(func() bool { return st.count == 0 })
		fr.i.both(st)
		return Tuple{}
	}
	I["(*sync.WaitGroup).Go"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		st.count++
		fv := a[1]
		fr.i.spawn(fr, &NativeFn{"wg.Go", func(f2 *frame, _ []Value) Value {
			r := f2.i.callValue(f2, fv, nil)
			f2.i.both(st)
			st.count--
			return r
		}}, nil)
		return Tuple{}
	}
	I["(*sync.Once).Do"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		i := fr.i
		st := i.syncOf(fr, a[0])
		fr.yieldOn(st)
		if st.count == 2 {
			i.acquire(st)
			return Tuple{}
		}
		if st.count == 1 {
			i.block(func() bool { return st.count == 2 })
			i.acquire(st)
			return Tuple{}
		}
		st.count = 1
		func() {
			defer func() { st.count = 2; i.release(st) }()
			i.callValue(fr, a[1], nil)
		}()
		return Tuple{}
	}
	I["(*sync.Cond).Wait"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		i := fr.i
		st := i.syncOf(fr, a[0])
		c := (*(a[0].(*Value))).(Struct)
		var L Iface
		for _, f := range c {
			if x, ok := f.(Iface); ok {
				L = x
			}
		}
		st.waiters++
		my := st.tokens
		_ = my
		i.unlock(fr, L.v)
		i.block(func() bool { return st.count > 0 })
		i.both(st)
		st.count--
		st.waiters--
		i.lock(fr, L.v, false)
		return Tuple{}
	}
	I["(*sync.Cond).Signal"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		if int64(st.waiters) > st.count {
			st.count++
		}
		fr.i.both(st)
		fr.yieldOn(st)
		return Tuple{}
	}
	I["(*sync.Cond).Broadcast"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		st.count = int64(st.waiters)
		fr.i.both(st)
		fr.yieldOn(st)
		return Tuple{}
	}
	I["(*sync.Pool).Get"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		fr.i.both(st)
		if l, ok := st.val.([]Value); ok && len(l) > 0 {
			v := l[len(l)-1]
			st.val = l[:len(l)-1]
			return v
		}
		s := (*(a[0].(*Value))).(Struct)
		f := s[len(s)-1]
		if c, ok := f.(*Closure); ok && c == nil {
			return Iface{}
		}
		return fr.i.callValue(fr, f, nil)
	}
	I["(*sync.Pool).Put"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		fr.i.both(st)
		l, _ := st.val.([]Value)
		st.val = append(l, a[1])
		return Tuple{}
	}
	smap := func(fr *frame, p Value) *MapVal {
		st := fr.i.syncOf(fr, p)
		if st.val == nil {
			anyT := types.NewInterfaceType(nil, nil)
			st.val = &MapVal{idx: map[any]*mapEntry{}, kt: anyT, vt: anyT}
		}
		return st.val.(*MapVal)
	}
	I["(*sync.Map).Load"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.both(a[0])
		fr.yieldOn(a[0])
		if e := fr.mapFind(smap(fr, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	}
	I["(*sync.Map).Store"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.both(a[0])
		fr.yieldOn(a[0])
		fr.mapUpdate(smap(fr, a[0]), a[1], a[2])
		return Tuple{}
	}
	I["(*sync.Map).LoadOrStore"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.both(a[0])
		fr.yieldOn(a[0])
		m := smap(fr, a[0])
		if e := fr.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		fr.mapUpdate(m, a[1], a[2])
		return Tuple{a[2], false}
	}
	I["(*sync.Map).Delete"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.both(a[0])
		fr.yieldOn(a[0])
		fr.mapDelete(smap(fr, a[0]), a[1])
		return Tuple{}
	}
	I["(*sync.Map).LoadAndDelete"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.both(a[0])
		fr.yieldOn(a[0])
		m := smap(fr, a[0])
		if e := fr.mapFind(m, a[1]); e != nil {
			v := e.v
			fr.mapDelete(m, a[1])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	}
	I["(*sync.Map).Range"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		m := smap(fr, a[0])
		for _, e := range append([]*mapEntry{}, m.ents...) {
			if e.deleted {
				continue
			}
			if !fr.i.branchV(fr.i.callValue(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return Tuple{}
	}
	I["(*sync/atomic.Value).Load"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		st := fr.i.syncOf(fr, a[0])
		if st.val == nil {
			return Iface{}
		}
		return st.val
	}
	I["(*sync/atomic.Value).Store"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		fr.i.syncOf(fr, a[0]).val = a[1]
		return Tuple{}
	}

	// ---- time ----
	I["time.Now"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		v := zeroValue(fn.Signature.Results().At(0).Type()).(Struct)
		fr.i.clock++
		v[1] = fr.i.clock
		return v
	}
	I["time.Since"] = zeroResult
	I["(time.Time).Sub"] = zeroResult
	I["(time.Time).Unix"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return uint64(1700000000) }
	I["(time.Time).UnixNano"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.clock++
		return uint64(1700000000)*1000000000 + fr.i.clock
	}
	I["time.Sleep"] = func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.pass(); return Tuple{} }
	I["(time.Duration).String"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return "0s" }
	I["(time.Duration).Seconds"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return float64(0) }
	I["time.After"] = func(fr *frame, _ *ssa.Function, a []Value) Value { fr.i.nchan++; return &Chan{id: fr.i.nchan} }

	// ---- fmt / errors ----
	I["fmt.Sprintf"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return fr.sprintf(a[0], a[1].([]Value), false) }
	I["fmt.Sprint"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		return fr.sprintf(strings.Repeat("%v", len(a[0].([]Value))), a[0].([]Value), false)
	}
	I["fmt.Sprintln"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		return fr.sprintf(strings.TrimSuffix(strings.Repeat("%v ", len(a[0].([]Value))), " ")+"\n", a[0].([]Value), false)
	}
	for _, n := range []string{"Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint"} {
		I["fmt."+n] = zeroResult
	}
	itoa := func(arg func([]Value) (uint64, bool), signed bool) func(fr *frame, fn *ssa.Function, a []Value) Value {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			base, ok := arg(a)
			t, sym := a[0].(*Term)
			if !sym || !ok || (base != 10 && base != 16) || (signed && fr.i.branch(fr.i.tc.Slt(t, fr.i.tc.Const(0, t.w)))) {
				v, b := fr.concU(a[0], "strconv"), uint64(10)
				if len(a) > 1 {
					b = fr.concU(a[1], "strconv")
				}
				if signed {
					return strconv.FormatInt(int64(v), int(b))
				}
				return strconv.FormatUint(v, int(b))
			}
			return strFromBytes(fr.i.digitsOf(t, base, false))
		}
	}
	based := func(a []Value) (uint64, bool) { b, ok := a[1].(uint64); return b, ok }
	I["strconv.Itoa"] = itoa(func([]Value) (uint64, bool) { return 10, true }, true)
	I["strconv.FormatInt"] = itoa(based, true)
	I["strconv.FormatUint"] = itoa(based, false)
	I["fmt.Errorf"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		s := fr.sprintf(a[0], a[1].([]Value), true)
		p := new(Value)
		*p = Struct{s}
		return Iface{fr.i.p.errT, p}
	}
	// encoding/binary goes through reflection for arrays and structs
	I["encoding/binary.Write"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		d := a[2].(Iface)
		if d.t == nil || a[0].(Iface).t == nil {
			fr.nilDeref()
		}
		big := strings.Contains(a[1].(Iface).t.String(), "bigEndian")
		bytes := fr.flatBytes(nil, d.v, d.t, big)
		w := a[0].(Iface)
		m := fr.i.p.prog.LookupMethod(w.t, nil, "Write")
		if m == nil {
			fr.i.unsupported("binary.Write to %s", w.t)
		}
		r := fr.i.callFunction(fr, m, []Value{copyVal(w.v), bytes}, nil)
		return r.(Tuple)[1]
	}
	I["errors.Is"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return fr.i.eq(fr, fr.i.p.errT, a[0], a[1]) }
	I["errors.Unwrap"] = zeroResult
	I["sort.Slice"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.([]Value)
		if !ok {
			badValue(a[0], "slice")
		}
		for x := 1; x < len(s); x++ {
			for y := x; y > 0; y-- {
				if !fr.i.branchV(fr.i.callValue(fr, a[1], []Value{uint64(y), uint64(y - 1)})) {
					break
				}
				t0, t1 := copyVal(s[y-1]), copyVal(s[y])
				storeVal(&s[y-1], t1)
				storeVal(&s[y], t0)
			}
		}
		return Tuple{}
	}
	I["sort.SliceStable"] = I["sort.Slice"]
	// sort.Sort: a stable insertion sort is one admissible behaviour (order of equal elements is unspecified)
	I["sort.Sort"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		f := a[0].(Iface)
		if f.t == nil {
			fr.nilDeref()
		}
		call := func(name string, args ...Value) Value {
			m := fr.i.p.prog.LookupMethod(f.t, nil, name)
			if m == nil {
				fr.i.unsupported("sort.Sort on %s", f.t)
			}
			return fr.i.callFunction(fr, m, append([]Value{copyVal(f.v)}, args...), nil)
		}
		n := int(fr.concU(call("Len"), "Len"))
		for x := 1; x < n; x++ {
			for y := x; y > 0; y-- {
				if !fr.i.branchV(call("Less", uint64(y), uint64(y-1))) {
					break
				}
				call("Swap", uint64(y), uint64(y-1))
			}
		}
		return Tuple{}
	}
	I["sort.Stable"] = I["sort.Sort"]

	// ---- environment ----
	I["os.Exit"] = func(fr *frame, _ *ssa.Function, a []Value) Value {
		panic(targetPanic{v: Iface{types.Typ[types.String], "os.Exit"}, where: fr.where(), msg: "os.Exit terminates the process"})
	}
	I["os.Getenv"] = func(fr *frame, _ *ssa.Function, a []Value) Value { return "" }
	uuidNew := func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.uuidN++
		arr := make(Array, 16)
		for k := range arr {
			arr[k] = uint64(0x10 + k)
		}
		for k := 0; k < 8; k++ {
			arr[15-k] = (fr.i.uuidN >> (8 * k)) & 0xff
		}
		if fn.Signature.Results().Len() == 2 {
			return Tuple{arr, Iface{}}
		}
		return arr
	}
	for _, n := range []string{"NewV1", "NewV4", "Must"} {
		I["github.com/satori/go.uuid."+n] = uuidNew
	}
	// the hash of a name: as good as the name itself
	uuidName := func(fr *frame, fn *ssa.Function, a []Value) Value {
		for _, e := range fr.i.uuidNames {
			if e.fn == fn && fr.i.branchV(fr.i.eq(fr, fn.Params[0].Type(), e.ns, a[0])) && fr.i.branchV(fr.i.eq(fr, types.Typ[types.String], e.name, a[1])) {
				return copyVal(e.id)
			}
		}
		id := uuidNew(fr, fn, nil)
		fr.i.uuidNames = append(fr.i.uuidNames, uuidNamed{fn, a[0], a[1], id})
		return copyVal(id)
	}
	I["github.com/satori/go.uuid.NewV3"] = uuidName
	I["github.com/satori/go.uuid.NewV5"] = uuidName
	I["github.com/satori/go.uuid.Must"] = func(fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
}

type uuidNamed struct {
	fn           *ssa.Function
	ns, name, id Value
}

func intWidth0(t types.Type) uint8 {
	if t == nil {
		return 0
	}
	return intWidth(t)
}

type signedObs struct {
	v Value
	w uint8
}

func (i *Interp) syncOf(fr *frame, p Value) *syncState {
	v, ok := p.(*Value)
	if !ok {
		badValue(p, "sync object")
	}
	if v == nil {
		fr.nilDeref()
	}
	// the lock is identified by the address of its first scalar cell, so that
	// a mutex and an enclosing struct do not collide
	st := i.sync[v]
	if st == nil {
		st = &syncState{}
		i.sync[v] = st
	}
	return st
}

func (i *Interp) lock(fr *frame, p Value, read bool) {
	if f, ok := p.(Iface); ok {
		p = f.v
	}
	st := i.syncOf(fr, p)
	fr.yieldOn(st)
	if read {
		i.block(func() bool { return !st.locked })
		st.readers++
		i.acquire(st)
		return
	}
	i.block(func() bool { return !st.locked && st.readers == 0 })
	st.locked = true
	st.owner = i.cur
	i.acquire(st)
	i.acquire(readersOf{st})
}

func (i *Interp) unlock(fr *frame, p Value) {
	if f, ok := p.(Iface); ok {
		p = f.v
	}
	st := i.syncOf(fr, p)
	if !st.locked {
		panic(targetPanic{v: Iface{i.p.rtErr, "sync: unlock of unlocked mutex"}, where: fr.where(), msg: "fatal error: sync: unlock of unlocked mutex"})
	}
	st.locked = false
	i.release(st)
	fr.recordSync(st)
	if !i.races {
		i.yieldAt(true)
	}
}

// pass lets every other goroutine run until it blocks (time.Sleep).
func (i *Interp) pass() {
	if len(i.gs) <= 1 {
		return
	}
	i.quiesce()
}

func atomicOp(name string) intrinsic {
	op := func(fr *frame, p Value) *Value {
		fr.i.both(p)
		fr.yieldOn(p)
		v, ok := p.(*Value)
		if !ok {
			badValue(p, "atomic operand")
		}
		if v == nil {
			fr.nilDeref()
		}
		return v
	}
	elem := func(fn *ssa.Function) types.Type {
		return fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value { return *op(fr, a[0]) }
	case strings.HasPrefix(name, "Store"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value { *op(fr, a[0]) = a[1]; return Tuple{} }
	case strings.HasPrefix(name, "Swap"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := op(fr, a[0])
			o := *p
			*p = a[1]
			return o
		}
	case strings.HasPrefix(name, "Add"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := op(fr, a[0])
			t := elem(fn)
			i := fr.i
			x, y := i.term(*p, intWidth(t)), i.term(a[1], intWidth(t))
			*p = lowerTerm(i.tc.Bin(OpAdd, x, y))
			return *p
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := op(fr, a[0])
			if fr.i.branchV(fr.i.eq(fr, elem(fn), *p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		}
	}
	return nil
}

// ---- formatting ----

// goValue turns a concrete interpreter value into something native fmt prints the same way.
func (fr *frame) goValue(f Iface) (any, bool) {
	if f.t == nil {
		return nil, true
	}
	// error / Stringer
	for _, m := range []string{"Error", "String"} {
		if mm := fr.findMethod(f.t, m); mm != nil {
			sig := mm.Signature
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
				if p, ok := f.v.(*Value); ok && p == nil {
					return "<nil>", true
				}
				r := fr.i.callFunction(fr, mm, []Value{copyVal(f.v)}, nil)
				if s, ok := r.(string); ok {
					return s, true
				}
				return symText{r}, true
			}
		}
	}
	switch x := f.v.(type) {
	case string:
		return x, true
	case *SymStr:
		return symText{x}, true
	case bool:
		return x, true
	case float64:
		return x, true
	case uint64:
		w := intWidth(f.t)
		if isSigned(f.t) {
			switch w {
			case 8:
				return int8(x), true
			case 16:
				return int16(x), true
			case 32:
				return int32(x), true
			}
			return int64(x), true
		}
		switch w {
		case 8:
			return uint8(x), true
		case 16:
			return uint16(x), true
		case 32:
			return uint32(x), true
		}
		return x, true
	case []Value:
		if sl, ok := f.t.Underlying().(*types.Slice); ok && intWidth(sl.Elem()) == 8 {
			b := make([]byte, len(x))
			for k := range x {
				c, ok := x[k].(uint64)
				if !ok {
					return nil, false
				}
				b[k] = byte(c)
			}
			return b, true
		}
		if sl, ok := f.t.Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			var l []string
			for k := range x {
				c, ok := x[k].(string)
				if !ok {
					return nil, false
				}
				l = append(l, c)
			}
			return l, true
		}
	case *Value:
		return fmt.Sprintf("%p", x), true
	}
	return nil, false
}

func (fr *frame) findMethod(t types.Type, name string) *ssa.Function {
	ms := fr.i.p.prog.MethodSets.MethodSet(t)
	s := ms.Lookup(nil, name)
	if s == nil {
		return nil
	}
	return fr.i.p.prog.MethodValue(s)
}

type symText struct{ v Value }

func (fr *frame) sprintf(format Value, args []Value, lossy bool) Value {
	f, ok := format.(string)
	if !ok {
		fr.i.notes["symbolic format string replaced by a placeholder"] = true
		return "‹fmt›"
	}
	vals := make([]any, len(args))
	symbolic := false
	for k, a := range args {
		fa, ok := a.(Iface)
		if !ok {
			badValue(a, "interface")
		}
		if t, is := fa.v.(*Term); is {
			symbolic = true
			if lossy {
				vals[k] = "‹sym›"
			} else {
				vals[k] = symTermText{t, fa.t}
			}
			continue
		}
		g, ok := fr.goValue(fa)
		if !ok {
			fr.i.notes["formatting of a composite value replaced by a placeholder"] = true
			g = "‹val›"
		}
		if _, is := g.(symText); is {
			symbolic = true
		}
		vals[k] = g
	}
	if !symbolic {
		return fmt.Sprintf(f, vals...)
	}
	// expand verb by verb
	var out []Value
	ai := 0
	for p := 0; p < len(f); p++ {
		if f[p] != '%' {
			out = append(out, uint64(f[p]))
			continue
		}
		q := p + 1
		for q < len(f) && strings.IndexByte("+-# 0123456789.", f[q]) >= 0 {
			q++
		}
		if q >= len(f) {
			break
		}
		verb := f[p : q+1]
		if f[q] == '%' {
			out = append(out, uint64('%'))
			p = q
			continue
		}
		if ai >= len(vals) {
			out = append(out, strBytes("%!"+string(f[q])+"(MISSING)")...)
			p = q
			continue
		}
		v := vals[ai]
		ai++
		switch x := v.(type) {
		case symText:
			if verb == "%s" || verb == "%v" {
				out = append(out, strBytes(x.v)...)
			} else if lossy {
				out = append(out, strBytes("‹sym›")...)
			} else {
				out = append(out, strBytes(fmt.Sprintf(verb, fr.concStr(x.v, "format argument")))...)
			}
		case symTermText:
			if x.t.w == 0 {
				out = append(out, strBytes(fmt.Sprintf(verb, fr.i.branch(x.t)))...)
				break
			}
			if d, ok := fr.digits(x.t, x.ty, verb); ok {
				out = append(out, d...)
				break
			}
			c := fr.i.concretize(x.t, "format argument at "+fr.where())
			g, _ := fr.goValue(Iface{x.ty, c})
			out = append(out, strBytes(fmt.Sprintf(verb, g))...)
		default:
			out = append(out, strBytes(fmt.Sprintf(verb, x))...)
		}
		p = q
	}
	return strFromBytes(out)
}

// digits is the text of a symbolic unsigned (or non-negative) integer: it forks
// on the number of digits only.
func (fr *frame) digits(t *Term, ty types.Type, verb string) ([]Value, bool) {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	if types.NewMethodSet(ty).Len() > 0 {
		return nil, false
	}
	flags, conv := verb[1:len(verb)-1], verb[len(verb)-1]
	base := uint64(10)
	switch conv {
	case 'd', 'v':
	case 'x', 'X':
		base = 16
	default:
		return nil, false
	}
	fill := byte(' ')
	if strings.HasPrefix(flags, "0") {
		fill = '0'
	}
	width := 0
	for k := 0; k < len(flags); k++ {
		if flags[k] < '0' || flags[k] > '9' {
			return nil, false
		}
		width = width*10 + int(flags[k]-'0')
	}
	if b.Info()&types.IsUnsigned == 0 && fr.i.branch(fr.i.tc.Slt(t, fr.i.tc.Const(0, t.w))) {
		return nil, false
	}
	out := fr.i.digitsOf(t, base, conv == 'X')
	for len(out) < width {
		out = append([]Value{uint64(fill)}, out...)
	}
	return out, true
}

// decimal takes a number of n digits apart. The digits are new variables with
// the number as their sum: there is one solution only, and the solver is spared
// the divisions.
func (i *Interp) decimal(t *Term, n int) []Value {
	tc := i.tc
	if t.w < 64 {
		t = tc.ZExt(t, 64)
	}
	val := i.model.Eval(t)
	pow := uint64(1)
	for k := 1; k < n; k++ {
		pow *= 10
	}
	out := make([]Value, n)
	ok := tc.Bool(true)
	sum := tc.Const(0, 64)
	for k := range out {
		d := tc.Var(fmt.Sprintf("digit!%d", i.ndigit), 4)
		i.ndigit++
		if v, ok := i.init[d.name]; ok && i.init != nil {
			i.model.vals[d] = v & 15
		} else {
			i.model.vals[d] = val / pow % 10
		}
		pow /= 10
		c := tc.Bin(OpAdd, tc.ZExt(d, 8), tc.Const('0', 8))
		out[k] = c
		ok = tc.And(ok, tc.Ult(d, tc.Const(10, 4)))
		sum = tc.Bin(OpSub, tc.Bin(OpAdd, tc.Bin(OpMul, sum, tc.Const(10, 64)), tc.ZExt(c, 64)), tc.Const('0', 64))
	}
	i.assume(lowerTerm(ok))
	i.assume(lowerTerm(tc.Eq(sum, t)))
	return out
}

// digitsOf forks on the number of digits of t.
func (i *Interp) digitsOf(t *Term, base uint64, upper bool) []Value {
	tc := i.tc
	n, lim := 1, base
	for {
		// t < lim, when lim is in range
		if t.w < 64 && lim > (uint64(1)<<t.w)-1 {
			break
		}
		if i.branch(tc.Ult(t, tc.Const(lim, t.w))) {
			break
		}
		n++
		if lim > ^uint64(0)/base {
			break
		}
		lim *= base
	}
	if base == 10 {
		return i.decimal(t, n)
	}
	w := t.w
	if lim-1 <= ^uint64(0)>>1 {
		for nw := uint8(1); nw < w; nw++ {
			if uint64(1)<<nw > lim-1 {
				if nw < 8 {
					nw = 8
				}
				if nw < w {
					t = tc.Extract(t, nw-1, 0)
					w = nw
				}
				break
			}
		}
	}
	if w < 8 {
		t, w = tc.ZExt(t, 8), 8
	}
	out := make([]Value, n)
	letter := uint64('a' - 10)
	if upper {
		letter = 'A' - 10
	}
	for k := n - 1; k >= 0; k-- {
		var d *Term
		if base == 16 {
			lo := uint8(4 * (n - 1 - k))
			hi := lo + 3
			if hi >= w {
				hi = w - 1
			}
			d = tc.ZExt(tc.Extract(t, hi, lo), 8)
		} else {
			q := tc.Bin(OpUDiv, t, tc.Const(10, w))
			d = tc.Extract(tc.Bin(OpSub, t, tc.Bin(OpMul, q, tc.Const(10, w))), 7, 0)
			t = q
		}
		c := tc.Bin(OpAdd, d, tc.Const('0', 8))
		if base == 16 {
			c = tc.Ite(tc.Ult(d, tc.Const(10, 8)), c, tc.Bin(OpAdd, d, tc.Const(letter, 8)))
		}
		out[k] = lowerTerm(c)
	}
	return out
}

type symTermText struct {
	t  *Term
	ty types.Type
}

// flatBytes appends the fixed-size encoding of v.
func (fr *frame) flatBytes(out []Value, v Value, t types.Type, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			fr.i.unsupported("binary encoding of %s", t)
		}
		return fr.flatBytes(out, *p, u.Elem(), big)
	case *types.Basic:
		w := intWidth(t)
		if u.Kind() == types.Bool {
			fr.i.unsupported("binary encoding of %s", t)
		}
		if w == 0 {
			fr.i.unsupported("binary encoding of %s", t)
		}
		tm := fr.i.term(v, w)
		n := int(w / 8)
		for k := 0; k < n; k++ {
			b := k
			if big {
				b = n - 1 - k
			}
			out = append(out, lowerTerm(fr.i.tc.Extract(tm, uint8(b*8+7), uint8(b*8))))
		}
		return out
	case *types.Array:
		for _, e := range v.(Array) {
			out = fr.flatBytes(out, e, u.Elem(), big)
		}
		return out
	case *types.Slice:
		for _, e := range v.([]Value) {
			out = fr.flatBytes(out, e, u.Elem(), big)
		}
		return out
	case *types.Struct:
		for k, e := range v.(Struct) {
			out = fr.flatBytes(out, e, u.Field(k).Type(), big)
		}
		return out
	}
	fr.i.unsupported("binary encoding of %s", t)
	return nil
}
