package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Accesses to maps at the same time. Go ends the whole program when it notices
// that a map is written while another goroutine accesses it, so two accesses to
// a map which nothing puts in an order, one of them a write, are a violation
// wherever preemption at memory accesses is explored. The order is that of the
// synchronisation operations (vector clocks); atomics, channels and the like
// are taken to order more than they do, so nothing ordered is reported.

type vclock []int32

func (v vclock) get(g int) int32 {
	if g < len(v) {
		return v[g]
	}
	return 0
}

func (v *vclock) set(g int, c int32) {
	for len(*v) <= g {
		*v = append(*v, 0)
	}
	(*v)[g] = c
}

func (v *vclock) join(o vclock) {
	for g, c := range o {
		if c > v.get(g) {
			v.set(g, c)
		}
	}
}

type readersOf struct{ st *syncState }

type mapAccess struct {
	g     int
	c     int32
	write bool
	where string
}

type hbState struct {
	clocks map[int]*vclock
	sync   map[any]*vclock
	maps   map[*MapVal][]mapAccess
	told   bool
}

// armHB starts from a state in which everything before is in order.
func (i *Interp) armHB() {
	i.hb = &hbState{clocks: map[int]*vclock{}, sync: map[any]*vclock{}, maps: map[*MapVal][]mapAccess{}}
}

func (h *hbState) clock(g int) *vclock {
	v := h.clocks[g]
	if v == nil {
		v = &vclock{}
		v.set(g, 1)
		h.clocks[g] = v
	}
	return v
}

func (i *Interp) release(key any) {
	if i.hb == nil {
		return
	}
	s := i.hb.sync[key]
	if s == nil {
		s = &vclock{}
		i.hb.sync[key] = s
	}
	v := i.hb.clock(i.cur.id)
	s.join(*v)
	v.set(i.cur.id, v.get(i.cur.id)+1)
}

func (i *Interp) acquire(key any) {
	if i.hb == nil {
		return
	}
	if s := i.hb.sync[key]; s != nil {
		i.hb.clock(i.cur.id).join(*s)
	}
}

func (i *Interp) both(key any) {
	i.acquire(key)
	i.release(key)
}

func (i *Interp) spawned(g *G) {
	if i.hb == nil {
		return
	}
	p := i.hb.clock(i.cur.id)
	c := &vclock{}
	c.join(*p)
	c.set(g.id, 1)
	i.hb.clocks[g.id] = c
	p.set(i.cur.id, p.get(i.cur.id)+1)
}

func (fr *frame) mapPoint(m *MapVal, write bool, in ssa.Instruction) {
	i := fr.i
	h := i.hb
	if h == nil || h.told || fr.fi == nil || !fr.fi.repo || i.tolerant > 0 {
		return
	}
	pos := in.Pos()
	if !pos.IsValid() && fr.cur != nil {
		pos = fr.cur.in.Pos()
	}
	p := i.p.prog.Fset.Position(pos)
	if !p.IsValid() {
		return
	}
	v := h.clock(i.cur.id)
	n := mapAccess{i.cur.id, v.get(i.cur.id), write, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)}
	for _, a := range h.maps[m] {
		if a == n {
			return
		}
		if a.g != n.g && (a.write || write) && v.get(a.g) < a.c {
			h.told = true
			kind := func(w bool) string {
				if w {
					return "written"
				}
				return "read"
			}
			x, y := a, n
			if y.where < x.where {
				x, y = y, x
			}
			i.recordViolation("maprace@"+x.where+"|"+y.where, fmt.Sprintf("a map is %s at %s and %s at %s at the same time", kind(x.write), x.where, kind(y.write), y.where), fr.where(), nil, i.model)
			return
		}
	}
	h.maps[m] = append(h.maps[m], n)
}

// raceShows tells whether the race detector reported these two accesses to a map.
func raceShows(out, id string) bool {
	w := strings.Split(strings.TrimPrefix(id, "maprace@"), "|")
	for _, r := range strings.Split(out, "==================") {
		if !strings.Contains(r, "WARNING: DATA RACE") || !mapFrame.MatchString(r) {
			continue
		}
		ok := true
		for _, x := range w {
			ok = ok && regexp.MustCompile(`/`+regexp.QuoteMeta(x)+`\b`).MatchString(r)
		}
		if ok {
			return true
		}
	}
	// or Go has noticed itself
	return strings.Contains(out, "fatal error: concurrent map")
}

var mapFrame = regexp.MustCompile(`runtime\.map|internal/runtime/maps`)
