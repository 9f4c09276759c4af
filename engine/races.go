package main

import (
	"go/token"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Preemption at memory accesses. A goroutine is preempted only where it is about
// to access something another goroutine accesses too, and one of them writes:
// anywhere else the preemption amounts to one later on. The places where that
// is so are found as the paths go: those of a path are explored again when it
// turns out there are more.

const (
	memShared = 1
	memRMW    = 2 // the store of x op= y
	memCall   = 3
)

func memAccess(in ssa.Instruction) int8 {
	switch x := in.(type) {
	case *ssa.Store:
		if localAddr(x.Addr) {
			return 0
		}
		if b, ok := x.Val.(*ssa.BinOp); ok {
			if u, ok := b.X.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == x.Addr {
				return memRMW
			}
		}
		return memShared
	case *ssa.UnOp:
		if x.Op == token.MUL && !localAddr(x.X) {
			return memShared
		}
		if x.Op == token.ARROW {
			return memCall
		}
	case *ssa.Call, *ssa.Send, *ssa.Select, *ssa.Go:
		return memCall
	case *ssa.Lookup, *ssa.MapUpdate, *ssa.Range, *ssa.Next, *ssa.Defer, *ssa.RunDefers:
		return memCall
	}
	return 0
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

// site is a statement of the repository.
type site struct {
	fi   *fnInfo
	line int32
	mid  bool
}

type access struct {
	g     int
	write bool
	at    site
}

type accesses struct{ l []access }

// hotSet is the places of conflicts after the same decisions.
type hotSet struct {
	prefix []dec
	model  map[string]uint64
	ver    int
	sites  map[site]bool
}

func decKey(d []dec) string {
	b := make([]byte, 0, 4*len(d))
	for _, x := range d {
		b = strconv.AppendInt(b, int64(x.kind), 10)
		b = append(b, ':')
		b = strconv.AppendUint(b, x.val, 16)
		if x.b {
			b = append(b, '+')
		}
		b = append(b, ' ')
	}
	return string(b)
}

func (i *Interp) armRaces(k int) {
	if k == 0 {
		i.preempt = 0
		i.races = false
		i.hb = nil
		return
	}
	i.armHB()
	i.preempt = k
	i.sched = false
	i.races = true
	i.mhits = nil
	if i.hot != nil {
		return // the second time on this path
	}
	i.acc = map[any]*accesses{}
	e := i.e
	key := decKey(i.trace)
	e.mu.Lock()
	h := e.hot[key]
	if h == nil {
		h = &hotSet{prefix: append([]dec{}, i.trace...), model: i.modelByName(), sites: map[site]bool{}}
		e.hot[key] = h
	}
	ver, sites := h.ver, h.sites
	e.mu.Unlock()
	if len(i.prefix) > i.pos && i.ver != ver || i.ver < ver && i.ver > 0 {
		panic(pathAbort{kind: abInfeasible, why: "superseded"})
	}
	i.hot, i.ver, i.sites = h, ver, sites
	if ver == 0 {
		i.preempt = 0 // the first time, only to see what is accessed
	}
}

// endRaces looks for places of conflicts that were not known.
func (i *Interp) endRaces() {
	h := i.hot
	if h == nil {
		return
	}
	var fresh []site
	for _, a := range i.acc {
		for _, x := range a.l {
			for _, y := range a.l {
				if x.g != y.g && (x.write || y.write) {
					fresh = append(fresh, x.at)
					break
				}
			}
		}
	}
	e := i.e
	e.mu.Lock()
	defer e.mu.Unlock()
	if i.ver != h.ver {
		// explored again anyway, but what was found is worth knowing
		for _, s := range fresh {
			if !h.sites[s] {
				h.add(e, fresh)
				break
			}
		}
		return
	}
	grown := i.ver == 0
	for _, s := range fresh {
		if !h.sites[s] {
			grown = true
		}
	}
	if grown {
		h.add(e, fresh)
	}
}

// add is called with the explorer locked.
func (h *hotSet) add(e *Explorer, fresh []site) {
	n := map[site]bool{}
	for s := range h.sites {
		n[s] = true
	}
	for _, s := range fresh {
		n[s] = true
	}
	h.sites = n
	h.ver++
	e.queue = append(e.queue, workItem{h.prefix, h.model, h.ver})
	e.cond.Signal()
}

// at returns the statement of the repository that is being executed.
func (fr *frame) site() (site, bool) {
	for f := fr; f != nil; f = f.caller {
		if f.fi != nil && f.fi.repo && f.cur != nil {
			if f.cur.line == 0 {
				return site{}, false
			}
			return site{f.fi, f.cur.line, f.cur.mem == memRMW}, true
		}
	}
	return site{}, false
}

func (fr *frame) record(key any, write bool) {
	i := fr.i
	s, ok := fr.site()
	if !ok {
		return
	}
	a := i.acc[key]
	if a == nil {
		a = &accesses{}
		i.acc[key] = a
	}
	n := access{i.cur.id, write, s}
	for _, x := range a.l {
		if x == n {
			return
		}
	}
	a.l = append(a.l, n)
}

func (fr *frame) recordCells(p *Value, write bool, depth int) {
	switch x := (*p).(type) {
	case Struct:
		if depth < 4 {
			for k := range x {
				fr.recordCells(&x[k], write, depth+1)
			}
		}
	case Array:
		for k := 0; k < len(x) && k < 32; k++ {
			fr.recordCells(&x[k], write, depth+1)
		}
	default:
		fr.record(p, write)
	}
}

func (fr *frame) recordSlice(s []Value, write bool) {
	for k := 0; k < len(s) && k < 64; k++ {
		fr.recordCells(&s[k], write, 1)
	}
}

// memPoint is called before an instruction which may access shared memory.
func (fr *frame) memPoint(in *inst) {
	i := fr.i
	if i.tolerant > 0 {
		return
	}
	switch x := in.in.(type) {
	case *ssa.Select:
		for k := 0; k < len(x.States); k++ {
			if ch, ok := fr.get(&in.ops[2*k]).(*Chan); ok && ch != nil {
				fr.record(ch, true)
			}
		}
	case *ssa.Store, *ssa.UnOp:
		_, write := x.(*ssa.Store)
		if p, ok := fr.get(&in.ops[0]).(*Value); ok && p != nil {
			fr.recordCells(p, write, 0)
		}
	case *ssa.Lookup, *ssa.Range:
		if m, ok := fr.get(&in.ops[0]).(*MapVal); ok && m != nil {
			fr.record(m, false)
			fr.mapPoint(m, false, in.in)
		}
	case *ssa.Next:
		if it, ok := fr.get(&in.ops[0]).(*MapIter); ok && it.m != nil {
			fr.record(it.m, false)
			fr.mapPoint(it.m, false, in.in)
		}
	case *ssa.MapUpdate:
		if m, ok := fr.get(&in.ops[0]).(*MapVal); ok && m != nil {
			fr.record(m, true)
			fr.mapPoint(m, true, in.in)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			fr.recordBuiltin(b.Name(), in)
		}
	}
	if i.preempt <= 0 || !fr.fi.repo || in.line == 0 {
		return
	}
	if in.line == fr.mline && in.mem != memRMW {
		return
	}
	if !i.sites[site{fr.fi, in.line, in.mem == memRMW}] {
		return
	}
	fr.mline = in.line
	at := fr.pauseAt(in, false)
	if at.Nth > 4 {
		return
	}
	top := i.cur.top
	i.yield(at)
	i.cur.top = top
}

func (fr *frame) recordBuiltin(name string, in *inst) {
	arg := func(k int) Value {
		if k+1 < len(in.ops) {
			return fr.get(&in.ops[k+1])
		}
		return nil
	}
	switch name {
	case "len":
		if m, ok := arg(0).(*MapVal); ok && m != nil {
			fr.record(m, false)
		}
	case "delete", "clear":
		switch m := arg(0).(type) {
		case *MapVal:
			if m != nil {
				fr.record(m, true)
				fr.mapPoint(m, true, in.in)
			}
		case []Value:
			fr.recordSlice(m, true)
		}
	case "copy":
		d, _ := arg(0).([]Value)
		s, _ := arg(1).([]Value)
		n := min(len(d), len(s))
		if s != nil {
			fr.recordSlice(s[:n], false)
		} else {
			n = len(d)
		}
		fr.recordSlice(d[:n], true)
	case "append":
		d, _ := arg(0).([]Value)
		s, _ := arg(1).([]Value)
		fr.recordSlice(s, false)
		if len(d)+len(s) <= cap(d) {
			fr.recordSlice(d[len(d):len(d)+len(s)], true)
		} else {
			fr.recordSlice(d, false)
		}
	}
}

// yieldOn is a possible preemption at a synchronisation operation. Where memory
// accesses count too, the statement has been through memPoint.
func (fr *frame) yieldOn(key any) {
	if fr.i.races {
		fr.recordSync(key)
		return
	}
	fr.i.yieldPoint()
}

func (fr *frame) recordSync(key any) {
	if fr == nil || !fr.i.races {
		return
	}
	switch key.(type) {
	case *Value, *Chan, *syncState:
		fr.record(key, true)
	}
}

// yieldMap is a possible preemption at an access to a map.
func (i *Interp) yieldMap() {
	if !i.races {
		i.yieldPoint()
	}
}
