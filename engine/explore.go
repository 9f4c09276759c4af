package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	First      bool // stop at the first counterexample
	Workers    int
	SolverBin  string
	TimeoutMs  int
	MaxPaths   int
	Deadline   time.Time
	Known      map[string]bool
	Thorough   bool
	Seed       int64
	SampleKeep int
}

type pathCfg struct {
	unwind   int
	maxAlloc int
	maxSteps int64
	maxConc  int
}

type dec struct {
	kind uint8 // 0 branch, 1 choose, 2 concretise test
	val  uint64
	b    bool
	sym  bool // adds a constraint
}

type nondet struct {
	Name string `json:"n"`
	V    Value  `json:"-"`
	W    uint8  `json:"w"`
	Kind string `json:"k"`
	Val  uint64 `json:"v"`
}

type obs struct {
	Name string
	V    Value
}

type Violation struct {
	Harness string     `json:"harness"`
	ID      string     `json:"id"`
	Msg     string     `json:"msg"`
	Where   string     `json:"where"`
	Stack   []string   `json:"stack,omitempty"`
	Inputs  []inputVal `json:"inputs"`
	Pauses  []pause    `json:"preemptions,omitempty"`
	Replay  string     `json:"replay,omitempty"`
	Out     string     `json:"replay_output,omitempty"`
}
type inputVal struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type workItem struct {
	prefix []dec
	model  map[string]uint64
	ver    int
}

type assertStat struct {
	Const  int64 `json:"const"`
	Unsat  int64 `json:"solver_unsat"`
	Sat    int64 `json:"violated"`
	Unk    int64 `json:"unknown"`
	Prefix int64 `json:"-"`
}

type pathSample struct {
	inputs []inputVal
	obs    []string
}

type Explorer struct {
	p        *Program
	opt      *Options
	fn       *ssa.Function
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	active   int
	stop     bool
	stopWhy  string
	paths    int
	complete int
	aborts   map[string]int
	abKind   map[abortKind]int
	viol     map[string]*Violation
	more     map[string][]*Violation // further counterexamples, if the first is not confirmed
	asserts  map[string]*assertStat
	covers   map[string]int
	knownHit map[string]pathSample
	funcs    map[*fnInfo]int64
	steps    int64
	queries  int64
	sent     int64
	cache    *queryCache
	qsat     int64
	qunsat   int64
	qunk     int64
	solverT  time.Duration
	maxDec   int
	samples  []pathSample
	notes    map[string]int
	wall     time.Duration
	cfg      pathCfg
	symVars  int
	hot      map[string]*hotSet
}

func (p *Program) explore(fn *ssa.Function, name string, opt *Options, cfg pathCfg) *Explorer {
	e := &Explorer{cache: newQueryCache(), p: p, opt: opt, fn: fn, name: name, aborts: map[string]int{}, abKind: map[abortKind]int{}, viol: map[string]*Violation{}, more: map[string][]*Violation{},
		asserts: map[string]*assertStat{}, covers: map[string]int{}, knownHit: map[string]pathSample{}, funcs: map[*fnInfo]int64{}, notes: map[string]int{}, hot: map[string]*hotSet{}, cfg: cfg}
	e.cond = sync.NewCond(&e.mu)
	e.queue = []workItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	n := opt.Workers
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	e.wall = time.Since(t0)
	return e
}

func (e *Explorer) worker() {
	var s *Solver
	defer func() {
		if s != nil {
			e.mu.Lock()
			e.queries += s.queries
			e.sent += s.sent
			e.qsat += s.sat
			e.qunsat += s.unsat
			e.qunk += s.unknown
			e.solverT += s.dur
			e.mu.Unlock()
			s.close()
		}
	}()
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.queue) == 0 {
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		it := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.active++
		e.mu.Unlock()

		if s == nil {
			var err error
			s, err = newSolver(e.opt.SolverBin, e.opt.TimeoutMs)
			if s != nil {
				s.cache = e.cache
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "solver:", err)
				os.Exit(3)
			}
		}
		ip := e.newInterp(s, it)
		ip.runPath()

		e.mu.Lock()
		e.active--
		e.paths++
		e.steps += ip.steps
		e.merge(ip)
		if e.paths >= e.opt.MaxPaths && (len(e.queue) > 0 || e.active > 0) {
			e.stop = true
			e.stopWhy = fmt.Sprintf("path limit %d reached (%d prefixes unexplored)", e.opt.MaxPaths, len(e.queue))
		}
		if e.opt.First && len(e.viol) > 0 {
			e.stop = true
		}
		if time.Now().After(e.opt.Deadline) && (len(e.queue) > 0 || e.active > 0) {
			e.stop = true
			e.stopWhy = fmt.Sprintf("time limit reached after %d paths (%d prefixes unexplored)", e.paths, len(e.queue))
		}
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (e *Explorer) push(it workItem) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) merge(ip *Interp) {
	if ip.outcome == "" {
		e.complete++
	} else {
		e.abKind[ip.outKind]++
		if ip.outKind != abInfeasible && ip.outKind != abStop {
			e.aborts[abNames[ip.outKind]+": "+ip.outcome]++
		}
	}
	for k, v := range ip.astat {
		a := e.asserts[k]
		if a == nil {
			a = &assertStat{}
			e.asserts[k] = a
		}
		a.Const += v.Const
		a.Unsat += v.Unsat
		a.Sat += v.Sat
		a.Unk += v.Unk
	}
	for k := range ip.covered {
		e.covers[k]++
	}
	for k, v := range ip.knownHit {
		if _, ok := e.knownHit[k]; !ok {
			e.knownHit[k] = v
		}
	}
	for k, v := range ip.funcs {
		e.funcs[k] += v
	}
	for _, v := range ip.viols {
		if e.viol[v.ID] == nil {
			e.viol[v.ID] = v
		} else if len(e.more[v.ID]) < 5 {
			e.more[v.ID] = append(e.more[v.ID], v)
		}
	}
	for k := range ip.notes {
		e.notes[k]++
	}
	if len(ip.trace) > e.maxDec {
		e.maxDec = len(ip.trace)
	}
	if len(ip.nondets) > e.symVars {
		e.symVars = len(ip.nondets)
	}
	if ip.outcome == "" && ip.sample != nil {
		if len(e.samples) < e.opt.SampleKeep {
			e.samples = append(e.samples, *ip.sample)
		} else if e.opt.SampleKeep > 0 {
			// deterministic-ish thinning
			if e.complete%7 == 0 {
				e.samples[(e.complete/7)%e.opt.SampleKeep] = *ip.sample
			}
		}
	}
}

// ---------- one path ----------

type G struct {
	id    int
	wake  chan struct{}
	pred  func() bool
	done  bool
	quies bool
	top   *frame
	start func()
}

type Interp struct {
	e     *Explorer
	p     *Program
	tc    *TermCtx
	s     *Solver
	cfg   pathCfg
	model *Model
	init  map[string]uint64

	prefix []dec
	pos    int
	trace  []dec

	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	tolerant int
	steps    int64
	funcs    map[*fnInfo]int64

	nondets  []nondet
	obs      []obs
	astat    map[string]*assertStat
	covered  map[string]bool
	knownHit map[string]pathSample
	viols    []*Violation
	notes    map[string]bool
	outcome  string
	outKind  abortKind
	sample   *pathSample

	gs        []*G
	cur       *G
	mainG     *G
	killed    bool
	pending   any
	wg        sync.WaitGroup
	preempt   int
	sync      map[*Value]*syncState
	nchan     int
	mapOrder  bool
	sched     bool
	races     bool // preemption at memory accesses as well
	ver       int  // of the places of conflicts this path is based on
	hot       *hotSet
	hb        *hbState
	sites     map[site]bool
	acc       map[any]*accesses
	mhits     map[string]int // executions of the statements at preemption points
	pauses    []pause        // the preemptions of this path
	uuidN     uint64
	uuidNames []uuidNamed
	ndigit    int
	clock     uint64

	lastRecovered targetPanic
	uncertain     bool
}

type syncState struct {
	locked  bool
	readers int
	owner   *G
	count   int64
	val     Value
	waiters int
	tokens  int
}

func (e *Explorer) newInterp(s *Solver, it workItem) *Interp {
	tc := newTermCtx()
	s.tc = tc
	i := &Interp{e: e, p: e.p, tc: tc, s: s, cfg: e.cfg, prefix: it.prefix, init: it.model, ver: it.ver,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, funcs: map[*fnInfo]int64{},
		astat: map[string]*assertStat{}, covered: map[string]bool{}, knownHit: map[string]pathSample{}, notes: map[string]bool{}, sync: map[*Value]*syncState{}}
	i.mainG = &G{id: 0, wake: make(chan struct{}, 1)}
	i.gs = []*G{i.mainG}
	i.cur = i.mainG
	i.newModel(nil)
	for k, v := range it.model {
		_ = k
		_ = v
	}
	return i
}

func (i *Interp) newModel(vals map[*Term]uint64) {
	stamp := nextStamp()
	if vals == nil {
		vals = map[*Term]uint64{}
	}
	i.model = &Model{vals: vals, stamp: stamp}
}

var stampMu sync.Mutex

func nextStamp() int32 {
	stampMu.Lock()
	stampCtr++
	r := stampCtr
	stampMu.Unlock()
	return r
}

func (i *Interp) runPath() {
	i.s.beginPath()
	defer i.s.endPath()
	func() {
		defer func() {
			r := recover()
			if r != nil {
				i.handleEnd(r)
			}
		}()
		for _, pkg := range i.p.initPat {
			if !i.inited[pkg] {
				i.inited[pkg] = true
				i.tolerant++
				i.callFunction(nil, pkg.Func("init"), nil, nil)
				i.tolerant--
			}
		}
		i.callFunction(nil, i.e.fn, nil, nil)
	}()
	i.endRaces()
	i.killAll()
	if i.outcome == "" && i.e.opt.SampleKeep > 0 {
		i.sample = i.takeSample()
	}
}

func (i *Interp) takeSample() *pathSample {
	ps := &pathSample{inputs: i.inputs(i.model)}
	for _, o := range i.obs {
		ps.obs = append(ps.obs, o.Name+"="+i.renderObs(o.V))
	}
	return ps
}

func (i *Interp) renderObs(v Value) string {
	switch x := v.(type) {
	case signedObs:
		return fmt.Sprintf("%d", sext64(i.evalInt(x.v), x.w))
	case uint64:
		return fmt.Sprintf("%d", x)
	case bool:
		return fmt.Sprintf("%v", x)
	case *Term:
		r := i.model.Eval(x)
		if x.w == 0 {
			return fmt.Sprintf("%v", r != 0)
		}
		return fmt.Sprintf("%d", r)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for k := range x.b {
			b[k] = byte(i.evalInt(x.b[k]))
		}
		return fmt.Sprintf("%q", string(b))
	case []Value:
		b := make([]byte, len(x))
		for k := range x {
			b[k] = byte(i.evalInt(x[k]))
		}
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%T", v)
}

func (i *Interp) evalInt(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case bool:
		return b2u(x)
	case *Term:
		return i.model.Eval(x)
	}
	return 0
}

func (i *Interp) inputs(m *Model) []inputVal {
	var r []inputVal
	for _, n := range i.nondets {
		v := uint64(0)
		switch x := n.V.(type) {
		case *Term:
			v = m.Eval(x)
		case uint64:
			v = x
		case bool:
			v = b2u(x)
		}
		r = append(r, inputVal{n.Name, v})
	}
	return r
}

func (i *Interp) handleEnd(r any) {
	switch x := r.(type) {
	case pathAbort:
		i.outKind = x.kind
		i.outcome = x.why
		if i.outcome == "" {
			i.outcome = abNames[x.kind]
		}
		if x.kind == abDeadlock {
			i.recordViolation("deadlock", "deadlock: "+x.why, x.why, nil, i.model)
		}
	case targetPanic:
		i.outKind = abStop
		i.outcome = "panic " + x.msg
		i.recordViolation("panic", x.msg, x.where, nil, i.model)
	default:
		panic(r)
	}
}

func (i *Interp) recordViolation(id, msg, where string, stack []string, m *Model) {
	// make sure the path is really feasible
	if id == "panic" {
		id = "panic@" + strings.SplitN(where, " ", 2)[0]
	}
	v := &Violation{Harness: i.e.name, ID: id, Msg: msg, Where: where, Stack: stack, Inputs: i.inputs(i.model), Pauses: append([]pause{}, i.pauses...)}
	i.viols = append(i.viols, v)
}

// ---------- decisions ----------

func (i *Interp) checkLimits() {
	if i.steps > i.cfg.maxSteps {
		panic(pathAbort{kind: abUnwind, why: fmt.Sprintf("step bound %d at %s", i.cfg.maxSteps, i.cur.top.where())})
	}
	if time.Now().After(i.e.opt.Deadline) {
		panic(pathAbort{kind: abDeadline, why: "time limit"})
	}
}

func (i *Interp) branchV(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return i.branch(x)
	}
	badValue(v, "bool")
	return false
}

func (i *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	tc := i.tc
	if i.pos < len(i.prefix) {
		d := i.prefix[i.pos]
		i.pos++
		if d.kind != 0 {
			panic(pathAbort{kind: abUnsupported, why: "nondeterministic re-execution (branch)"})
		}
		i.trace = append(i.trace, d)
		if d.sym {
			if d.b {
				i.s.Assert(c)
			} else {
				i.s.Assert(tc.Not(c))
			}
		}
		return d.b
	}
	v := i.model.Eval(c) != 0
	other := c
	if v {
		other = tc.Not(c)
	}
	res, m := i.s.Check(other)
	switch res {
	case resUnsat:
		i.trace = append(i.trace, dec{kind: 0, b: v, sym: false})
		return v
	case resSat, resUnknown:
		np := make([]dec, len(i.trace)+1)
		copy(np, i.trace)
		np[len(i.trace)] = dec{kind: 0, b: !v, sym: true}
		var mm map[string]uint64
		if res == resSat {
			mm = i.overlay(m)
			i.e.push(workItem{np, mm, i.ver})
		} else {
			i.notes["solver unknown on a branch (side not explored)"] = true
			i.uncertain = true
		}
	}
	i.trace = append(i.trace, dec{kind: 0, b: v, sym: true})
	if v {
		i.s.Assert(c)
	} else {
		i.s.Assert(tc.Not(c))
	}
	return v
}

// overlay is the current model with the values of m.
func (i *Interp) overlay(m map[*Term]uint64) map[string]uint64 {
	r := i.modelByName()
	for k, v := range m {
		r[k.name] = v
	}
	return r
}

// choose forks n ways without a constraint (scheduler choices, harness choices).
func (i *Interp) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if i.pos < len(i.prefix) {
		d := i.prefix[i.pos]
		i.pos++
		if d.kind != 1 {
			panic(pathAbort{kind: abUnsupported, why: "nondeterministic re-execution (choose " + what + ")"})
		}
		i.trace = append(i.trace, d)
		return int(d.val)
	}
	cm := i.modelByName()
	for k := n - 1; k >= 1; k-- {
		np := make([]dec, len(i.trace)+1)
		copy(np, i.trace)
		np[len(i.trace)] = dec{kind: 1, val: uint64(k)}
		i.e.push(workItem{np, cm, i.ver})
	}
	i.trace = append(i.trace, dec{kind: 1, val: 0})
	return 0
}

func (i *Interp) modelByName() map[string]uint64 {
	r := map[string]uint64{}
	for k, v := range i.init {
		r[k] = v
	}
	for k, v := range i.model.vals {
		r[k.name] = v
	}
	return r
}

// concretize forks over all feasible values of t.
func (i *Interp) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.k
	}
	tc := i.tc
	for n := 0; ; n++ {
		if n > i.cfg.maxConc {
			panic(pathAbort{kind: abUnwind, why: fmt.Sprintf("more than %d values for %s", i.cfg.maxConc, what)})
		}
		if i.pos < len(i.prefix) {
			d := i.prefix[i.pos]
			i.pos++
			if d.kind != 2 {
				panic(pathAbort{kind: abUnsupported, why: "nondeterministic re-execution (concretise)"})
			}
			i.trace = append(i.trace, d)
			c := tc.Eq(t, tc.Const(d.val, t.w))
			if d.b {
				if d.sym {
					i.s.Assert(c)
				}
				return d.val
			}
			i.s.Assert(tc.Not(c))
			continue
		}
		v := i.model.Eval(t)
		c := tc.Eq(t, tc.Const(v, t.w))
		res, m := i.s.Check(tc.Not(c))
		sym := true
		switch res {
		case resUnsat:
			sym = false
		case resSat:
			np := make([]dec, len(i.trace)+1)
			copy(np, i.trace)
			np[len(i.trace)] = dec{kind: 2, val: v, b: false, sym: true}
			i.e.push(workItem{np, i.overlay(m), i.ver})
		default:
			i.notes["solver unknown while enumerating values of "+what] = true
		}
		i.trace = append(i.trace, dec{kind: 2, val: v, b: true, sym: sym})
		if sym {
			i.s.Assert(c)
		}
		return v
	}
}

func (i *Interp) inPrefix() bool { return i.pos < len(i.prefix) }

// assume restricts the path.
func (i *Interp) assume(v Value) {
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathAbort{kind: abInfeasible, why: "assumption"})
		}
	case *Term:
		if i.inPrefix() {
			i.s.Assert(x)
			return // model will satisfy it
		}
		if i.model.Eval(x) != 0 {
			i.s.Assert(x)
			return
		}
		res, m := i.s.Check(x)
		switch res {
		case resSat:
			i.s.Assert(x)
			i.setModel(m)
		case resUnsat:
			panic(pathAbort{kind: abInfeasible, why: "assumption"})
		default:
			i.notes["solver unknown on assumption"] = true
			panic(pathAbort{kind: abUnwind, why: "solver unknown on an assumption"})
		}
	default:
		badValue(v, "bool")
	}
}

// setModel moves to a model that differs from the current one in m.
func (i *Interp) setModel(m map[*Term]uint64) {
	n := make(map[*Term]uint64, len(m)+len(i.model.vals))
	for k, v := range i.model.vals {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	i.newModel(n)
}

func (i *Interp) assertion(fr *frame, v Value, id string) {
	st := i.astat[id]
	if st == nil {
		st = &assertStat{}
		i.astat[id] = st
	}
	switch x := v.(type) {
	case bool:
		if x {
			if !i.inPrefix() {
				st.Const++
			}
			return
		}
		st.Sat++
		i.recordViolation(id, "assertion "+id+" fails", fr.caller.where(), fr.stack(), i.model)
		panic(pathAbort{kind: abStop, why: "violation " + id})
	case *Term:
		if i.inPrefix() {
			i.s.Assert(x)
			return
		}
		if i.model.Eval(x) == 0 {
			st.Sat++
			i.recordViolation(id, "assertion "+id+" fails", fr.caller.where(), fr.stack(), i.model)
			// continue with the assertion assumed, if possible
			res, m := i.s.Check(x)
			if res != resSat {
				panic(pathAbort{kind: abStop, why: "violation " + id})
			}
			i.setModel(m)
			i.s.Assert(x)
			return
		}
		res, m := i.s.Check(i.tc.Not(x))
		switch res {
		case resUnsat:
			st.Unsat++
		case resSat:
			st.Sat++
			saved := i.model
			i.setModel(m)
			i.recordViolation(id, "assertion "+id+" fails", fr.caller.where(), fr.stack(), i.model)
			i.newModel(saved.vals)
		default:
			st.Unk++
			i.notes["solver unknown on assertion "+id] = true
		}
		i.s.Assert(x)
	default:
		badValue(v, "bool")
	}
}

func (i *Interp) newVar(name string, w uint8, kind string) *Term {
	t := i.tc.Var(name, w)
	if i.init != nil {
		if v, ok := i.init[t.name]; ok {
			i.model.vals[t] = v & maskB(w)
		}
	}
	i.nondets = append(i.nondets, nondet{Name: name, V: t, W: w, Kind: kind})
	return t
}
func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---------- goroutines ----------

func (i *Interp) spawn(fr *frame, fn Value, args []Value) {
	if len(i.gs) >= 2000 {
		panic(pathAbort{kind: abUnwind, why: "more than 2000 goroutines"})
	}
	g := &G{id: len(i.gs), wake: make(chan struct{}, 1)}
	i.gs = append(i.gs, g)
	i.spawned(g)
	i.wg.Add(1)
	go func() {
		defer i.wg.Done()
		<-g.wake
		if !i.killed {
			func() {
				defer func() {
					r := recover()
					if r != nil {
						if pa, ok := r.(pathAbort); ok && pa.kind == abKilled {
							return
						}
						if i.pending == nil {
							i.pending = r
						}
					}
				}()
				root := &frame{i: i, g: g, fi: fr.fi}
				i.callValue(root, fn, args)
			}()
		}
		g.done = true
		if i.killed {
			i.mainG.wake <- struct{}{}
			return
		}
		if i.pending != nil {
			i.cur = i.mainG
			i.mainG.wake <- struct{}{}
			return
		}
		i.switchFrom(g)
	}()
	i.yieldPoint()
}

// pick chooses the next goroutine to run; nil if none.
func (i *Interp) pick(self *G) *G {
	var cands []*G
	for _, g := range i.gs {
		if g.done || g.quies {
			continue
		}
		if g.pred == nil || g.pred() {
			cands = append(cands, g)
		}
	}
	if len(cands) == 0 {
		for _, g := range i.gs {
			if g.quies && !g.done {
				return g
			}
		}
		return nil
	}
	if len(cands) == 1 {
		return cands[0]
	}
	if i.preempt >= 0 && i.preemptive() {
		return cands[i.choose(len(cands), "sched")]
	}
	return cands[0]
}

func (i *Interp) preemptive() bool { return i.preemptOn() }

func (i *Interp) preemptOn() bool { return i.sched }

// switchFrom hands control from g (finished or blocked) to the next goroutine.
func (i *Interp) switchFrom(g *G) {
	var n *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				if i.pending == nil {
					i.pending = r
				}
				n = i.mainG
			}
		}()
		n = i.pick(g)
	}()
	if n == nil {
		if i.pending == nil {
			i.pending = pathAbort{kind: abDeadlock, why: "all goroutines are blocked; main waits at " + whereOf(i.mainG)}
		}
		n = i.mainG
	}
	i.cur = n
	if n == g {
		return
	}
	n.wake <- struct{}{}
	if g.done {
		return
	}
	i.park(g)
}

func whereOf(g *G) string {
	if g.top == nil {
		return "?"
	}
	return g.top.where()
}

func (i *Interp) park(g *G) {
	<-g.wake
	if i.killed {
		panic(pathAbort{kind: abKilled})
	}
	if g == i.mainG && i.pending != nil {
		p := i.pending
		panic(p)
	}
}

// block suspends the current goroutine until pred holds.
func (i *Interp) block(pred func() bool) {
	g := i.cur
	if pred() {
		return
	}
	top := g.top
	g.pred = pred
	i.switchFrom(g)
	if g == i.mainG && i.pending != nil {
		panic(i.pending)
	}
	g.pred = nil
	g.top = top
}

// yieldPoint: a possible preemption in preemptive mode.
func (i *Interp) yieldPoint() { i.yieldAt(false) }

func (i *Interp) yieldAt(after bool) {
	if i.preempt <= 0 || i.tolerant > 0 {
		return
	}
	var at pause
	for f := i.cur.top; f != nil; f = f.caller {
		if f.fi != nil && f.fi.repo && f.cur != nil {
			at = f.pauseAt(f.cur, after)
			break
		}
	}
	if i.races && at.File == "" {
		return
	}
	i.yield(at)
}

// pause is a place in the source where a goroutine is preempted.
type pause struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	After bool   `json:"after,omitempty"` // the statement, not before it
	Mid   bool   `json:"mid,omitempty"`   // between the load and the store of a x op= y
	Nth   int    `json:"nth"`             // execution of the statement
}

func (fr *frame) pauseAt(in *inst, after bool) pause {
	i := fr.i
	pos := i.p.prog.Fset.Position(in.in.Pos())
	if !pos.IsValid() {
		return pause{}
	}
	at := pause{File: pos.Filename, Line: pos.Line, After: after, Mid: in.mem == memRMW}
	k := fmt.Sprintf("%s:%d:%v:%v", at.File, at.Line, after, at.Mid)
	if i.mhits == nil {
		i.mhits = map[string]int{}
	}
	i.mhits[k]++
	at.Nth = i.mhits[k]
	return at
}

func (i *Interp) yield(at pause) {
	g := i.cur
	var cands []*G
	for _, o := range i.gs {
		if o == g || o.done || o.quies {
			continue
		}
		if o.pred == nil || o.pred() {
			cands = append(cands, o)
		}
	}
	if len(cands) == 0 {
		return
	}
	k := i.choose(len(cands)+1, "preempt")
	if k == 0 {
		return
	}
	i.preempt--
	if at.File != "" {
		i.pauses = append(i.pauses, at)
	}
	n := cands[k-1]
	top := g.top
	i.cur = n
	n.wake <- struct{}{}
	i.park(g)
	g.top = top
}

func (i *Interp) quiesce() {
	g := i.cur
	top := g.top
	g.quies = true
	i.switchFrom(g)
	if g == i.mainG && i.pending != nil {
		g.quies = false
		panic(i.pending)
	}
	g.quies = false
	g.top = top
}

func (i *Interp) killAll() {
	i.killed = true
	for _, g := range i.gs {
		if g == i.mainG || g.done {
			continue
		}
		g.wake <- struct{}{}
		<-i.mainG.wake
	}
	i.wg.Wait()
}

// ---------- channels ----------

func (i *Interp) chanSend(fr *frame, ch *Chan, v Value) {
	fr.yieldOn(ch)
	if ch == nil {
		i.block(func() bool { return false })
	}
	if ch.closed {
		panic(targetPanic{v: Iface{i.p.rtErr, "send on closed channel"}, where: fr.where(), msg: "send on closed channel"})
	}
	i.both(ch)
	it := &chanItem{v: copyVal(v)}
	ch.q = append(ch.q, it)
	if len(ch.q) <= ch.cap {
		return
	}
	defer i.both(ch)
	i.block(func() bool {
		if it.taken {
			return true
		}
		for k, x := range ch.q {
			if x == it {
				return k < ch.cap
			}
		}
		return true
	})
}

func (i *Interp) chanRecv(fr *frame, ch *Chan) (Value, bool) {
	fr.yieldOn(ch)
	if ch == nil {
		i.block(func() bool { return false })
	}
	i.release(ch)
	ch.recvW++
	i.block(func() bool { return len(ch.q) > 0 || ch.closed })
	ch.recvW--
	i.both(ch)
	if len(ch.q) > 0 {
		it := ch.q[0]
		ch.q = ch.q[1:]
		it.taken = true
		return it.v, true
	}
	return nil, false
}

func (fr *frame) doSelect(x *ssa.Select, in *inst) {
	i := fr.i
	type st struct {
		ch   *Chan
		send Value
		dir  bool
	}
	var sts []st
	k := 0
	for _, s := range x.States {
		ch, _ := fr.get(&in.ops[k]).(*Chan)
		k++
		e := st{ch: ch}
		if s.Send != nil {
			e.send = fr.get(&in.ops[k])
			e.dir = true
		}
		// Operands always lists Chan and Send (Send possibly nil)
		k++
		sts = append(sts, e)
	}
	ready := func() []int {
		var r []int
		for j, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.dir {
				if s.ch.closed || len(s.ch.q) < s.ch.cap || (s.ch.cap == 0 && s.ch.recvW > 0) {
					r = append(r, j)
				}
			} else if len(s.ch.q) > 0 || s.ch.closed {
				r = append(r, j)
			}
		}
		return r
	}
	r := ready()
	if len(r) == 0 {
		if !x.Blocking {
			fr.selectResult(x, in, -1, nil, false)
			return
		}
		for _, s := range sts {
			if s.ch != nil && !s.dir {
				s.ch.recvW++
			}
		}
		i.block(func() bool { return len(ready()) > 0 })
		for _, s := range sts {
			if s.ch != nil && !s.dir {
				s.ch.recvW--
			}
		}
		r = ready()
	}
	j := r[0]
	if len(r) > 1 {
		j = r[i.choose(len(r), "select")]
	}
	if sts[j].dir {
		i.chanSend(fr, sts[j].ch, sts[j].send)
		fr.selectResult(x, in, j, nil, false)
		return
	}
	v, ok := i.chanRecv(fr, sts[j].ch)
	fr.selectResult(x, in, j, v, ok)
}

func (fr *frame) selectResult(x *ssa.Select, in *inst, j int, v Value, ok bool) {
	t := Tuple{uint64(int64(j)), ok}
	tt := x.Type()
	_ = tt
	n := 2
	for k, s := range x.States {
		if s.Send == nil {
			if k == j && ok {
				t = append(t, v)
			} else {
				t = append(t, zeroValue(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
			n++
		}
	}
	fr.regs[in.dst] = t
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
