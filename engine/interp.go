package main

// Symbolic interpreter for go/ssa. One Interp executes one path; a path is
// determined by a list of decisions and is always executed from the start
// (re-execution instead of state copying).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type abortKind int

const (
	abUnsupported abortKind = iota
	abInfeasible            // assumption false
	abUnwind                // bound hit
	abKilled
	abDeadlock
	abStop // path finished because of a violation
	abDeadline
)

var abNames = map[abortKind]string{abUnsupported: "unsupported", abInfeasible: "assumed-away", abUnwind: "bound", abKilled: "killed", abDeadlock: "deadlock", abStop: "stopped-at-violation", abDeadline: "deadline"}

type pathAbort struct {
	kind abortKind
	why  string
}

type targetPanic struct {
	v     Value // Iface
	where string
	msg   string
}

// ---------- compiled functions ----------

type opKind uint8

const (
	okNone opKind = iota
	okReg
	okConst
	okGlobal
)

type opnd struct {
	kind opKind
	reg  int32
	val  Value
	g    *ssa.Global
}

type inst struct {
	in   ssa.Instruction
	ops  []opnd
	dst  int32
	aux  any
	mem  int8 // access to memory that may be shared: 1, of a read-modify-write: 2, call: 3
	line int32
	pure int8 // 0 unknown, 1 pure, -1 not
}

type cblock struct {
	b      *ssa.BasicBlock
	phis   []inst
	insts  []inst
	idx    int
	npreds int
	hit    atomic.Bool // executed by the harness at hand
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	nregs  int
	params []int32
	frees  []int32
	blocks []*cblock
	intr   intrinsic
	repo   bool
	ninstr int
}

type intrinsic func(fr *frame, fn *ssa.Function, args []Value) Value

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	fns     sync.Map // *ssa.Function -> *fnInfo
	intr    map[string]intrinsic
	stubs   map[string]*ssa.Function // redirects: full name -> harness stub
	rtErr   types.Type
	mcache  sync.Map
	errT    types.Type
	opt     *Options
	initPat []*ssa.Package
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := p.compile(fn)
	v, _ := p.fns.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func pkgOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

const repoMod = "github.com/gostor/gotgt/"

func (p *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String()}
	pp := pkgOf(fn)
	fi.repo = strings.HasPrefix(pp, repoMod) && !strings.HasPrefix(pp, symPkg)
	if fi.repo {
		if pos := p.prog.Fset.Position(fn.Pos()); strings.Contains(pos.Filename, "zz_verif") {
			fi.repo = false
		}
	}
	fi.intr = p.findIntrinsic(fn, fi.name, pp)
	if fi.intr != nil || fn.Blocks == nil {
		return fi
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	alloc := func(v ssa.Value) int32 {
		if r, ok := regs[v]; ok {
			return r
		}
		regs[v] = n
		n++
		return n - 1
	}
	for _, x := range fn.Params {
		fi.params = append(fi.params, alloc(x))
	}
	for _, x := range fn.FreeVars {
		fi.frees = append(fi.frees, alloc(x))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{kind: okNone}
		case *ssa.Const:
			return opnd{kind: okConst, val: p.constValue(x)}
		case *ssa.Global:
			return opnd{kind: okGlobal, g: x}
		case *ssa.Function:
			return opnd{kind: okConst, val: x}
		case *ssa.Builtin:
			return opnd{kind: okConst, val: x}
		}
		r, ok := regs[v]
		if !ok {
			panic("no register for " + v.Name() + " in " + fn.String())
		}
		return opnd{kind: okReg, reg: r}
	}
	for bi, b := range fn.Blocks {
		cb := &cblock{b: b, idx: bi, npreds: len(b.Preds)}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := inst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{kind: okNone})
				} else {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			ci.mem = memAccess(in)
			if ci.mem != 0 {
				if pos := p.prog.Fset.Position(in.Pos()); pos.IsValid() {
					ci.line = int32(pos.Line)
				}
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.insts = append(cb.insts, ci)
			}
			fi.ninstr++
		}
		fi.blocks = append(fi.blocks, cb)
	}
	fi.nregs = int(n)
	return fi
}

func (p *Program) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	t := c.Type()
	b := basicOf(t)
	if b == nil {
		// e.g. type param core types; treat via constant kind
		return Poison{"const of type " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		w := intWidth(t)
		if w == 0 {
			w = 64
		}
		if b.Info()&types.IsUnsigned != 0 {
			return c.Uint64() & mask(w)
		}
		return uint64(c.Int64()) & mask(w)
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	}
	return Poison{"const"}
}

// ---------- frames ----------

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

type frame struct {
	i         *Interp
	g         *G
	fi        *fnInfo
	regs      []Value
	block     *cblock
	prev      *cblock
	phisDone  bool
	defers    []deferred
	result    Value
	panicking bool
	pan       any
	caller    *frame
	cur       *inst
	forks     map[*inst]int
	depth     int
	mline     int32 // source line of the last preemption point
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case okReg:
		return fr.regs[o.reg]
	case okConst:
		return o.val
	case okGlobal:
		return fr.i.global(o.g)
	}
	return nil
}

func (fr *frame) where() string {
	for f := fr; f != nil; f = f.caller {
		if f.cur != nil && f.fi != nil {
			pos := f.i.p.prog.Fset.Position(f.cur.in.Pos())
			if pos.IsValid() {
				return fmt.Sprintf("%s (%s:%d)", f.fi.name, shortPath(pos.Filename), pos.Line)
			}
			return f.fi.name
		}
	}
	return "?"
}

// repoWhere returns the innermost repository function on the stack.
func (fr *frame) repoWhere() string {
	for f := fr; f != nil; f = f.caller {
		if f.fi != nil && f.fi.repo {
			return f.fi.name
		}
	}
	return ""
}

func shortPath(s string) string {
	if i := strings.Index(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	if i := strings.LastIndex(s, "/src/"); i >= 0 {
		return s[i+5:]
	}
	return s
}

func (fr *frame) stack() []string {
	var r []string
	for f := fr; f != nil && len(r) < 20; f = f.caller {
		if f.cur != nil && f.fi != nil {
			pos := f.i.p.prog.Fset.Position(f.cur.in.Pos())
			r = append(r, fmt.Sprintf("%s (%s:%d)", f.fi.name, shortPath(pos.Filename), pos.Line))
		}
	}
	return r
}

func (i *Interp) unsupported(format string, a ...any) {
	panic(pathAbort{kind: abUnsupported, why: fmt.Sprintf(format, a...)})
}

func (fr *frame) rtPanic(msg string) {
	panic(targetPanic{v: Iface{fr.i.p.rtErr, msg}, where: fr.where(), msg: "runtime error: " + msg})
}

func (i *Interp) global(g *ssa.Global) *Value {
	if v, ok := i.globals[g]; ok {
		return v
	}
	i.ensureInit(g.Pkg)
	if v, ok := i.globals[g]; ok {
		return v
	}
	v := new(Value)
	*v = zeroValue(g.Type().Underlying().(*types.Pointer).Elem())
	i.globals[g] = v
	return v
}

func (i *Interp) ensureInit(pkg *ssa.Package) {
	if pkg == nil || i.inited[pkg] {
		return
	}
	i.inited[pkg] = true
	path := pkg.Pkg.Path()
	if stubPackage(path) || noInitPackage(path) {
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	i.tolerant++
	saved := i.cur.top
	i.callFunction(nil, fn, nil, nil)
	i.cur.top = saved
	i.tolerant--
}

func (i *Interp) callValue(fr *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		return i.callFunction(fr, f, args, nil)
	case *Closure:
		if f == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return i.callFunction(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return i.callBuiltin(fr, f, args, nil)
	case *NativeFn:
		return f.f(fr, args)
	}
	badValue(fv, "function")
	return nil
}

func (i *Interp) callFunction(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := i.p.info(fn)
	if i.funcs != nil {
		i.funcs[fi]++
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	fr := &frame{i: i, g: i.cur, fi: fi, caller: caller, depth: depth}
	if fi.intr != nil {
		if caller == nil {
			caller = fr
		}
		return fi.intr(fr, fn, args)
	}
	if fn.Blocks == nil {
		if fn.Name() == "init" && fn.Signature.Recv() == nil {
			return Tuple{}
		}
		i.unsupported("no body: %s", fi.name)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		if i.inited[fn.Pkg] && caller != nil {
			return Tuple{}
		}
		if caller != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoMod) {
			return Tuple{} // lazily initialised
		}
		i.inited[fn.Pkg] = true
		if caller != nil {
			i.tolerant++
			defer func() { i.tolerant-- }()
		}
	}
	if depth > 400 {
		panic(pathAbort{kind: abUnwind, why: "call depth in " + fi.name})
	}
	fr.regs = make([]Value, fi.nregs)
	for k, r := range fi.params {
		fr.regs[r] = args[k]
	}
	for k, r := range fi.frees {
		fr.regs[r] = env[k]
	}
	fr.block = fi.blocks[0]
	for fr.block != nil {
		fr.run()
	}
	i.cur.top = caller
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			panic(pathAbort{kind: abUnsupported, why: "engine: nil panic"})
		}
		switch x := r.(type) {
		case pathAbort:
			panic(x)
		case targetPanic:
			fr.i.cur.top = fr
			fr.panicking = true
			fr.pan = x
			fr.runDefers()
			// recovered
			if fr.fi.fn.Recover != nil {
				fr.prev = nil
				fr.block = fr.fi.blocks[fr.fi.fn.Recover.Index]
				fr.phisDone = false
			} else {
				fr.block = nil
				res := fr.fi.fn.Signature.Results()
				switch res.Len() {
				case 0:
					fr.result = Tuple{}
				case 1:
					fr.result = zeroValue(res.At(0).Type())
				default:
					fr.result = zeroValue(res)
				}
			}
		case runtime.Error:
			w := fr.where()
			if engineDebug {
				debug.PrintStack()
			}
			panic(pathAbort{kind: abUnsupported, why: fmt.Sprintf("engine: %v at %s", x, w)})
		case string:
			panic(pathAbort{kind: abUnsupported, why: "engine: " + x + " at " + fr.where()})
		default:
			panic(r)
		}
	}()
	fr.loop()
}

var engineDebug bool

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		p := fr.pan
		panic(p)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(targetPanic); is {
				fr.panicking = true
				fr.pan = tp
				return
			}
			panic(r)
		}
	}()
	fr.i.callValue(fr, d.fn, d.args)
	ok = true
}

// loop executes until return.
func (fr *frame) loop() {
	i := fr.i
	for {
		cb := fr.block
		if !fr.phisDone && len(cb.phis) > 0 {
			fr.doPhis(cb)
		}
		fr.phisDone = false
		i.cur.top = fr
		if !cb.hit.Load() {
			cb.hit.Store(true)
		}
		for k := range cb.insts {
			in := &cb.insts[k]
			fr.cur = in
			i.steps++
			if i.steps&0xfff == 0 {
				i.checkLimits()
			}
			if in.mem != 0 && i.races {
				fr.memPoint(in)
			}
			switch x := in.in.(type) {
			case *ssa.Jump:
				fr.prev = cb
				fr.block = fr.fi.blocks[x.Block().Succs[0].Index]
			case *ssa.If:
				fr.doIf(cb, in)
			case *ssa.Return:
				switch len(in.ops) {
				case 0:
					fr.result = Tuple{}
				case 1:
					fr.result = fr.get(&in.ops[0])
				default:
					t := make(Tuple, len(in.ops))
					for j := range in.ops {
						t[j] = fr.get(&in.ops[j])
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				v := fr.get(&in.ops[0])
				panic(targetPanic{v: v, where: fr.where(), msg: "panic: " + i.panicString(v)})
			default:
				fr.exec(in)
			}
		}
	}
}

func (i *Interp) panicString(v Value) string {
	if f, ok := v.(Iface); ok {
		if s, ok := f.v.(string); ok {
			return s
		}
		if f.t != nil {
			return "value of type " + f.t.String()
		}
	}
	return valString(v, 3)
}

func (fr *frame) doPhis(cb *cblock) {
	// find predecessor index
	pi := -1
	for k, p := range cb.b.Preds {
		if fr.prev != nil && p == fr.prev.b {
			pi = k
			break
		}
	}
	if pi < 0 {
		fr.i.unsupported("phi without predecessor")
	}
	var buf [8]Value
	vals := buf[:0]
	for k := range cb.phis {
		vals = append(vals, fr.get(&cb.phis[k].ops[pi]))
	}
	for k := range cb.phis {
		fr.regs[cb.phis[k].dst] = vals[k]
	}
}

// ---------- conditional branches with fusion and merging ----------

func predIndex(to *cblock, from *cblock) int {
	for k, p := range to.b.Preds {
		if p == from.b {
			return k
		}
	}
	return -1
}

// specBlock tries to execute block b (single predecessor, pure) and returns its
// terminator; ok=false if it is not pure.
func (fr *frame) specBlock(b *cblock) (term *inst, ok bool) {
	if b.npreds != 1 || len(b.phis) > 0 || len(b.insts) == 0 || len(b.insts) > 24 {
		return nil, false
	}
	last := &b.insts[len(b.insts)-1]
	switch last.in.(type) {
	case *ssa.If, *ssa.Jump:
	default:
		return nil, false
	}
	for k := 0; k < len(b.insts)-1; k++ {
		if !pureInst(&b.insts[k]) {
			return nil, false
		}
	}
	for k := 0; k < len(b.insts)-1; k++ {
		if !fr.specExec(&b.insts[k]) {
			return nil, false
		}
	}
	if !b.hit.Load() {
		b.hit.Store(true)
	}
	return last, true
}

func pureInst(in *inst) bool {
	if in.pure != 0 {
		return in.pure > 0
	}
	ok := false
	switch x := in.in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			ok = false
			if _, c := x.Y.(*ssa.Const); c {
				ok = true
			}
			if x.Op == token.SHL || x.Op == token.SHR {
				if !isSigned(x.Y.Type()) {
					ok = true
				}
			}
		default:
			u := x.X.Type().Underlying()
			switch u.(type) {
			case *types.Basic, *types.Pointer, *types.Slice:
				ok = true
			}
			if isString(x.X.Type()) && x.Op != token.EQL && x.Op != token.NEQ {
				ok = false
			}
		}
	case *ssa.UnOp:
		ok = x.Op != token.ARROW
	case *ssa.Convert:
		ok = isInteger(x.X.Type()) && isInteger(x.Type())
	case *ssa.ChangeType:
		ok = true
	case *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr:
		ok = true
	case *ssa.Call:
		if b, is := x.Call.Value.(*ssa.Builtin); is && (b.Name() == "len" || b.Name() == "cap") {
			if _, m := x.Call.Args[0].Type().Underlying().(*types.Map); !m {
				ok = true
			}
		}
	}
	if ok {
		in.pure = 1
	} else {
		in.pure = -1
	}
	return ok
}

func (fr *frame) specExec(in *inst) (ok bool) {
	// reject anything that could panic or fork
	switch x := in.in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p, is := fr.get(&in.ops[0]).(*Value)
			if !is || p == nil {
				return false
			}
			switch (*p).(type) {
			case Struct, Array:
				return false
			}
		}
	case *ssa.FieldAddr:
		p, is := fr.get(&in.ops[0]).(*Value)
		if !is || p == nil {
			return false
		}
	case *ssa.IndexAddr:
		idx, is := fr.get(&in.ops[1]).(uint64)
		if !is {
			return false
		}
		switch b := fr.get(&in.ops[0]).(type) {
		case []Value:
			if idx >= uint64(len(b)) {
				return false
			}
		case *Value:
			if b == nil {
				return false
			}
			a, is := (*b).(Array)
			if !is || idx >= uint64(len(a)) {
				return false
			}
		default:
			return false
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if _, is := x.X.Type().Underlying().(*types.Basic); !is {
				_ = is
			}
		}
	}
	fr.i.steps++
	for k := range in.ops {
		if in.ops[k].kind == okGlobal {
			if _, ok := fr.i.globals[in.ops[k].g]; !ok {
				return false
			}
		}
	}
	old := fr.cur
	fr.cur = in
	fr.exec(in)
	fr.cur = old
	if _, p := fr.regs[in.dst].(Poison); p {
		return false
	}
	return true
}

// edgesCompatible: phi values in 'to' are the same when arriving from a or b.
func (fr *frame) edgesCompatible(to *cblock, a, b *cblock) bool {
	if len(to.phis) == 0 {
		return true
	}
	pa, pb := predIndex(to, a), predIndex(to, b)
	if pa < 0 || pb < 0 {
		return false
	}
	for k := range to.phis {
		x, y := fr.get(&to.phis[k].ops[pa]), fr.get(&to.phis[k].ops[pb])
		if !identicalScalar(x, y) {
			return false
		}
	}
	return true
}

func identicalScalar(x, y Value) bool {
	switch a := x.(type) {
	case uint64, bool, string, *Term, *Value:
		return a == y
	}
	return false
}

func (fr *frame) doIf(cb *cblock, in *inst) {
	i := fr.i
	cv := fr.get(&in.ops[0])
	tb := fr.fi.blocks[cb.b.Succs[0].Index]
	fb := fr.fi.blocks[cb.b.Succs[1].Index]
	if b, ok := cv.(bool); ok {
		fr.prev = cb
		if b {
			fr.block = tb
		} else {
			fr.block = fb
		}
		return
	}
	c, ok := cv.(*Term)
	if !ok {
		badValue(cv, "bool")
	}
	tc := i.tc
	pT, pF := cb, cb // where the edges come from
	for iter := 0; iter < 64 && tb != fb; iter++ {
		if term, ok := fr.specBlock(tb); ok {
			if _, isIf := term.in.(*ssa.If); isIf {
				if c2, ok := i.asBoolTerm(fr.get(&term.ops[0])); ok {
					t2 := fr.fi.blocks[tb.b.Succs[0].Index]
					f2 := fr.fi.blocks[tb.b.Succs[1].Index]
					if f2 == fb && t2 != fb && fr.edgesCompatible(fb, pF, tb) {
						c = tc.And(c, c2)
						pT, tb = tb, t2
						continue
					}
					if t2 == fb && f2 != fb && fr.edgesCompatible(fb, pF, tb) {
						c = tc.And(c, tc.Not(c2))
						pT, tb = tb, f2
						continue
					}
				}
			}
		}
		if term, ok := fr.specBlock(fb); ok {
			if _, isIf := term.in.(*ssa.If); isIf {
				if c2, ok := i.asBoolTerm(fr.get(&term.ops[0])); ok {
					t2 := fr.fi.blocks[fb.b.Succs[0].Index]
					f2 := fr.fi.blocks[fb.b.Succs[1].Index]
					if t2 == tb && f2 != tb && fr.edgesCompatible(tb, pT, fb) {
						c = tc.Or(c, c2)
						pF, fb = fb, f2
						continue
					}
					if f2 == tb && t2 != tb && fr.edgesCompatible(tb, pT, fb) {
						c = tc.Or(c, tc.Not(c2))
						pF, fb = fb, t2
						continue
					}
				}
			}
		}
		break
	}
	if c.isConst() {
		if c.k != 0 {
			fr.prev, fr.block = pT, tb
		} else {
			fr.prev, fr.block = pF, fb
		}
		return
	}
	// diamond merge
	if fr.tryMerge(c, pT, tb, pF, fb) {
		return
	}
	if fr.forks == nil {
		fr.forks = map[*inst]int{}
	}
	fr.forks[in]++
	if fr.forks[in] > i.cfg.unwind {
		panic(pathAbort{kind: abUnwind, why: fmt.Sprintf("more than %d symbolic iterations at %s", i.cfg.unwind, fr.where())})
	}
	if i.branch(c) {
		fr.prev, fr.block = pT, tb
	} else {
		fr.prev, fr.block = pF, fb
	}
}

func (fr *frame) tryMerge(c *Term, pT, tb, pF, fb *cblock) bool {
	i := fr.i
	tj, fj := tb, fb
	tFrom, fFrom := pT, pF
	if tb == fb {
		// both edges to the same block
	} else {
		if term, ok := fr.specBlock(tb); ok {
			if _, isJ := term.in.(*ssa.Jump); isJ {
				tj = fr.fi.blocks[tb.b.Succs[0].Index]
				tFrom = tb
			}
		}
		if tj != fb {
			if term, ok := fr.specBlock(fb); ok {
				if _, isJ := term.in.(*ssa.Jump); isJ {
					fj = fr.fi.blocks[fb.b.Succs[0].Index]
					fFrom = fb
				}
			}
			if tj != fj {
				// maybe F-side joins directly into tb
				if fj == tb {
					tj, tFrom = tb, pT
				} else {
					return false
				}
			}
		} else {
			fj, fFrom = fb, pF
		}
	}
	j := tj
	if tFrom == fFrom && len(j.phis) > 0 {
		return false
	}
	if len(j.phis) == 0 {
		// nothing differs: (values computed on the side are dead after the join)
		fr.prev, fr.block = tFrom, j
		return true
	}
	pa, pb := predIndex(j, tFrom), predIndex(j, fFrom)
	if pa < 0 || pb < 0 {
		return false
	}
	var vals []Value
	for k := range j.phis {
		x, y := fr.get(&j.phis[k].ops[pa]), fr.get(&j.phis[k].ops[pb])
		if identicalScalar(x, y) {
			vals = append(vals, x)
			continue
		}
		v, ok := i.iteValue(c, x, y, j.phis[k].in.(*ssa.Phi).Type())
		if !ok {
			return false
		}
		vals = append(vals, v)
	}
	for k := range j.phis {
		fr.regs[j.phis[k].dst] = vals[k]
	}
	fr.prev, fr.block, fr.phisDone = tFrom, j, true
	return true
}

func (i *Interp) iteValue(c *Term, x, y Value, t types.Type) (Value, bool) {
	if isBool(t) {
		a, ok1 := i.asBoolTerm(x)
		b, ok2 := i.asBoolTerm(y)
		if ok1 && ok2 {
			return lowerTerm(i.tc.Ite(c, a, b)), true
		}
		return nil, false
	}
	w := intWidth(t)
	if w == 0 {
		return nil, false
	}
	a, ok1 := i.asTerm(x, w)
	b, ok2 := i.asTerm(y, w)
	if ok1 && ok2 {
		return lowerTerm(i.tc.Ite(c, a, b)), true
	}
	return nil, false
}

func (i *Interp) asBoolTerm(v Value) (*Term, bool) {
	switch x := v.(type) {
	case bool:
		return i.tc.Bool(x), true
	case *Term:
		if x.w == 0 {
			return x, true
		}
	}
	return nil, false
}
func (i *Interp) asTerm(v Value, w uint8) (*Term, bool) {
	switch x := v.(type) {
	case uint64:
		return i.tc.Const(x, w), true
	case *Term:
		if x.w == w {
			return x, true
		}
	}
	return nil, false
}
func (i *Interp) term(v Value, w uint8) *Term {
	t, ok := i.asTerm(v, w)
	if !ok {
		if x, is := v.(*Term); is {
			i.unsupported("term width %d, wanted %d", x.w, w)
		}
		badValue(v, "integer")
	}
	return t
}
func (i *Interp) boolTerm(v Value) *Term {
	t, ok := i.asBoolTerm(v)
	if !ok {
		badValue(v, "bool")
	}
	return t
}
func lowerTerm(t *Term) Value {
	if t.isConst() {
		if t.w == 0 {
			return t.k != 0
		}
		return t.k
	}
	return t
}
