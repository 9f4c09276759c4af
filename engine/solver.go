package main

// One persistent SMT solver process per worker, driven in SMT-LIB2 with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	queries int64
	sat     int64
	unsat   int64
	unknown int64
	dur     time.Duration
	dead    bool
	bin     string
	timeout int
	sent    int64
	fresh   bool
	scratch bool
	emitted []*Term // defined for the current query
	pcs     []pcEntry
	uf      []int32
	stamp   int32
	cache   *queryCache
	log     io.Writer
	tc      *TermCtx
}

type satRes int

const (
	resUnsat satRes = iota
	resSat
	resUnknown
)

func newSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	args := []string{"-in"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.dead = false
	s.fresh = true
	return nil
}

func (s *Solver) header(timeout int) {
	if strings.Contains(s.bin, "cvc5") {
		s.buf.WriteString("(set-option :produce-models true)\n")
	} else {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", timeout)
	}
	s.buf.WriteString("(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) beginPath() {
	if s.dead {
		s.start()
	}
	s.pcs = s.pcs[:0]
	s.uf = s.uf[:0]
	s.stamp = 0
}
func (s *Solver) endPath() {}

func (s *Solver) ask(slice []*Term, extra *Term, scratch bool) (string, error) {
	to := s.timeout
	if scratch {
		s.buf.WriteString("(reset)\n")
		s.header(to)
	} else {
		if to > 5000 {
			to = 5000
		}
		if s.fresh {
			s.header(to)
			s.fresh = false
		}
		s.buf.WriteString("(push 1)\n")
	}
	s.emitted = s.emitted[:0]
	for _, t := range slice {
		s.emit(t)
	}
	s.emit(extra)
	for _, t := range slice {
		s.buf.WriteString("(assert " + t.ref() + ")\n")
	}
	s.buf.WriteString("(assert " + extra.ref() + ")\n(check-sat)\n")
	s.scratch = scratch
	if err := s.flush(); err != nil {
		return "", err
	}
	// watchdog: the solver's soft timeout is not always honoured
	wd := time.AfterFunc(time.Duration(to)*time.Millisecond*3+5*time.Second, func() { s.cmd.Process.Kill() })
	l, err := s.readLine()
	wd.Stop()
	return l, err
}

func (s *Solver) endQuery() {
	if s.scratch {
		s.buf.WriteString("(reset)\n")
		s.fresh = true
	} else {
		s.buf.WriteString("(pop 1)\n")
	}
	for _, t := range s.emitted {
		t.emitted = false
	}
	s.emitted = s.emitted[:0]
}

// emit makes sure t (and everything below) is defined in the current scope.
func (s *Solver) emit(t *Term) {
	if t == nil || t.op == OpConst || t.emitted {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.emitted {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 {
			switch f.i {
			case 0:
				ch = f.t.a
			case 1:
				ch = f.t.b
			case 2:
				ch = f.t.c
			}
			f.i++
			if ch != nil && ch.op != OpConst && !ch.emitted {
				break
			}
			ch = nil
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		x := f.t
		if x.op == OpVar {
			fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", x.name, sortName(x.w))
		} else {
			fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", x.id, sortName(x.w), x.body())
		}
		x.emitted = true
		s.emitted = append(s.emitted, x)
		st = st[:len(st)-1]
	}
}

// Assert adds t to the path condition. Nothing is sent yet: Check sends only
// the constraints that share variables with its query.
func (s *Solver) Assert(t *Term) {
	if t.isConst() && t.k != 0 {
		return
	}
	if t.op == OpAnd {
		s.Assert(t.a)
		s.Assert(t.b)
		return
	}
	vs := s.termVars(t)
	if len(vs) == 0 {
		s.pcs = append(s.pcs, pcEntry{t, -1})
		return
	}
	r := s.find(vs[0].idx)
	for _, v := range vs[1:] {
		q := s.find(v.idx)
		if q != r {
			s.uf[q] = r
		}
	}
	s.pcs = append(s.pcs, pcEntry{t, vs[0].idx})
}

type pcEntry struct {
	t *Term
	v int32
}

func (s *Solver) find(i int32) int32 {
	for int(i) >= len(s.uf) {
		s.uf = append(s.uf, int32(len(s.uf)))
	}
	for s.uf[i] != i {
		s.uf[i] = s.uf[s.uf[i]]
		i = s.uf[i]
	}
	return i
}

func (s *Solver) termVars(t *Term) []*Term {
	s.stamp++
	var out []*Term
	st := []*Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == nil || x.op == OpConst || x.seen == s.stamp {
			continue
		}
		x.seen = s.stamp
		if x.op == OpVar {
			out = append(out, x)
			continue
		}
		st = append(st, x.a, x.b, x.c)
	}
	return out
}

type cacheVal struct {
	res   satRes
	model map[string]uint64
}

// queryCache is shared by all workers of one harness run.
type queryCache struct {
	mu   [64]sync.Mutex
	m    [64]map[[2]uint64]cacheVal
	hits atomic.Int64
}

func newQueryCache() *queryCache {
	c := &queryCache{}
	for i := range c.m {
		c.m[i] = map[[2]uint64]cacheVal{}
	}
	return c
}

func (s *Solver) flush() error {
	if s.log != nil {
		io.WriteString(s.log, s.buf.String())
	}
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

var solverErrors atomic.Int64
var lastSolverError atomic.Value

// Check decides whether extra is consistent with the path condition (which is
// known to be satisfiable). On sat a model of the variables involved is
// returned: the other variables keep their values.
// slowQuery has slower queries printed (for development).
var slowQuery, _ = time.ParseDuration(os.Getenv("ZZ_SLOW"))

func (s *Solver) Check(extra *Term) (satRes, map[*Term]uint64) {
	if s.dead {
		s.unknown++
		return resUnknown, nil
	}
	s.queries++
	if extra.isConst() {
		if extra.k == 0 {
			s.unsat++
			return resUnsat, nil
		}
		s.sat++
		return resSat, map[*Term]uint64{}
	}
	// slice
	roots := map[int32]bool{}
	for _, v := range s.termVars(extra) {
		roots[s.find(v.idx)] = true
	}
	var slice []*Term
	seen := map[*Term]bool{}
	k1, k2 := extra.h1, extra.h2
	for _, p := range s.pcs {
		if p.v >= 0 && roots[s.find(p.v)] && !seen[p.t] {
			seen[p.t] = true
			slice = append(slice, p.t)
			k1 += mix64(p.t.h1)
			k2 += mix64(p.t.h2 ^ 0x1234567)
		}
	}
	// variables of the slice
	vars := map[string]*Term{}
	for _, t := range append(slice[:len(slice):len(slice)], extra) {
		for _, v := range s.termVars(t) {
			vars[v.name] = v
		}
	}
	key := [2]uint64{k1, k2}
	sh := k1 & 63
	if s.cache != nil {
		s.cache.mu[sh].Lock()
		cv, ok := s.cache.m[sh][key]
		s.cache.mu[sh].Unlock()
		if ok {
			s.cache.hits.Add(1)
			if cv.res == resUnsat {
				s.unsat++
				return resUnsat, nil
			}
			s.sat++
			m := map[*Term]uint64{}
			for n, v := range cv.model {
				if t := vars[n]; t != nil {
					m[t] = v
				}
			}
			return resSat, m
		}
	}
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	slice, extra = s.narrow(slice, extra)
	if extra.isConst() && extra.k == 0 {
		s.unsat++
		s.store(sh, key, cacheVal{resUnsat, nil})
		return resUnsat, nil
	}
	s.sent++
	l, err := s.ask(slice, extra, false)
	if err == nil && l != "sat" && l != "unsat" && !strings.HasPrefix(l, "(error") {
		// the incremental core gave up: once more from scratch, with preprocessing
		s.endQuery()
		l, err = s.ask(slice, extra, true)
	}
	if d := time.Since(t0); slowQuery > 0 && d > slowQuery {
		fmt.Fprintf(os.Stderr, "SLOW %s %v\n", l, d)
		for _, t := range slice {
			fmt.Fprintf(os.Stderr, "   pc %s\n", t)
		}
		fmt.Fprintf(os.Stderr, "   ?? %s\n", extra)
	}
	if err != nil {
		s.fail("solver: " + err.Error())
		return resUnknown, nil
	}
	var res satRes
	var m map[*Term]uint64
	switch l {
	case "sat":
		res = resSat
		s.sat++
		m = map[*Term]uint64{}
		var names []string
		for n := range vars {
			names = append(names, n)
		}
		for _, n := range names {
			s.buf.WriteString("(get-value (" + n + "))\n")
		}
		s.flush()
		byn := map[string]uint64{}
		for _, n := range names {
			l, err := s.readLine()
			if err != nil {
				s.fail("read model")
				return resUnknown, nil
			}
			v := parseVal(l)
			m[vars[n]] = v
			byn[n] = v
		}
		s.store(sh, key, cacheVal{resSat, byn})
	case "unsat":
		res = resUnsat
		s.unsat++
		s.store(sh, key, cacheVal{resUnsat, nil})
	default:
		res = resUnknown
		s.unknown++
		if strings.HasPrefix(l, "(error") {
			s.fail(l)
			return resUnknown, nil
		}
	}
	s.endQuery()
	return res, m
}

func (s *Solver) store(sh uint64, key [2]uint64, v cacheVal) {
	if s.cache == nil {
		return
	}
	s.cache.mu[sh].Lock()
	s.cache.m[sh][key] = v
	s.cache.mu[sh].Unlock()
}

func (s *Solver) fail(msg string) {
	solverErrors.Add(1)
	lastSolverError.Store(msg)
	s.dead = true
	s.unknown++
	s.buf.Reset()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func parseVal(l string) uint64 {
	// ((name #x0a)) | ((name true)) | ((name (_ bv10 8)))
	l = strings.TrimRight(l, ")")
	if i := strings.LastIndex(l, "#x"); i >= 0 {
		v, _ := strconv.ParseUint(l[i+2:], 16, 64)
		return v
	}
	if i := strings.LastIndex(l, "#b"); i >= 0 {
		v, _ := strconv.ParseUint(l[i+2:], 2, 64)
		return v
	}
	if i := strings.LastIndex(l, "bv"); i >= 0 {
		f := strings.Fields(l[i+2:])
		if len(f) > 0 {
			v, err := strconv.ParseUint(f[0], 10, 64)
			if err == nil {
				return v
			}
		}
	}
	if strings.HasSuffix(l, "true") {
		return 1
	}
	return 0
}
