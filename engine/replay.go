package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// replayer builds the harnesses natively (against the same working tree) and
// runs them on concrete inputs.
type replayer struct {
	once  sync.Once
	bin   string
	err   error
	dir   string
	repo  string
	hs    *harnessSet
	n     int
	mu    sync.Mutex
	dur   time.Duration
	pbin  map[string]string // binaries with pauses, by their places
	racer *replayer
	race  bool // with the race detector
}

func pauseKey(p pause) string {
	return fmt.Sprintf("%s:%d:%v:%v", filepath.Base(p.File), p.Line, p.After, p.Mid)
}

// pauseVariants are the schedules to try natively, where the goroutines run at
// the same time and need not reach a place in the order of the counterexample.
func pauseVariants(ps []pause) [][]pause {
	var out [][]pause
	seen := map[string]bool{}
	add := func(f func(pause) int) {
		var v []pause
		for _, p := range ps {
			p.Nth = f(p)
			if p.Nth < 1 {
				p.Nth = 1
			}
			v = append(v, p)
		}
		k := fmt.Sprint(v)
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	for _, d := range []int{0, -1, 1, 2} {
		d := d
		add(func(p pause) int { return p.Nth + d })
	}
	add(func(p pause) int { return 1 })
	add(func(p pause) int { return 2 })
	return out
}

// buildPausing builds the replay program from a copy of the source in which the
// statements at which goroutines are preempted are preceded by a call to
// zzsym.At, which makes the goroutine wait there.
func (r *replayer) buildPausing(ps []pause) (string, error) {
	byFile := map[string][]pause{}
	var keys []string
	for _, p := range ps {
		dup := false
		for _, q := range byFile[p.File] {
			dup = dup || pauseKey(q) == pauseKey(p)
		}
		if !dup {
			byFile[p.File] = append(byFile[p.File], p)
			keys = append(keys, pauseKey(p))
		}
	}
	sort.Strings(keys)
	k := strings.Join(keys, " ")
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.pbin[k]; ok {
		if b == "" {
			return "", fmt.Errorf("does not build")
		}
		return b, nil
	}
	if r.pbin == nil {
		r.pbin = map[string]string{}
	}
	r.pbin[k] = ""
	if len(r.pbin) > 40 {
		return "", fmt.Errorf("too many")
	}
	dir, err := os.MkdirTemp(r.dir, "pausing")
	if err != nil {
		return "", err
	}
	files := map[string]string{}
	for o, f := range r.hs.files {
		files[o] = f
	}
	n := 0
	for f, l := range byFile {
		from := f
		if o, ok := files[f]; ok {
			from = o
		}
		src, err := os.ReadFile(from)
		if err != nil {
			return "", err
		}
		out, err := insertPauses(src, l)
		if err != nil {
			return "", err
		}
		n++
		to := filepath.Join(dir, fmt.Sprintf("p%d.go", n))
		if err := os.WriteFile(to, out, 0o644); err != nil {
			return "", err
		}
		files[f] = to
	}
	ov, err := writeOverlay(dir, r.repo, &harnessSet{files: files, list: r.hs.list})
	if err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "zzreplay")
	cmd := r.buildCmd(ov, bin)
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("build with pauses failed: %v: %s", err, out)
	}
	r.pbin[k] = bin
	return bin, nil
}

// insertPauses adds the calls without changing line numbers.
func insertPauses(src []byte, ps []pause) ([]byte, error) {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	type edit struct {
		off, del int
		text     string
	}
	edits := []edit{{fs.Position(af.Name.End()).Offset, 0, "; import zzpause \"" + symPkg + "\""}}
	for _, p := range ps {
		// the innermost statement of a list that covers the line
		var best ast.Stmt
		try := func(l []ast.Stmt) {
			for _, s := range l {
				if fs.Position(s.Pos()).Line <= p.Line && p.Line <= fs.Position(s.End()).Line {
					best = s
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				try(x.List)
			case *ast.CaseClause:
				try(x.Body)
			case *ast.CommClause:
				try(x.Body)
			}
			return true
		})
		if best == nil {
			return nil, fmt.Errorf("no statement at line %d", p.Line)
		}
		off := func(q token.Pos) int { return fs.Position(q).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		call := fmt.Sprintf("zzpause.At(%q)", pauseKey(p))
		switch {
		case p.Mid:
			lhs, rhs, op := ast.Expr(nil), "1", ""
			switch x := best.(type) {
			case *ast.IncDecStmt:
				lhs, op = x.X, strings.TrimSuffix(x.Tok.String(), x.Tok.String()[:1])
			case *ast.AssignStmt:
				if len(x.Lhs) == 1 {
					lhs, rhs, op = x.Lhs[0], "("+text(x.Rhs[0])+")", strings.TrimSuffix(x.Tok.String(), "=")
					if op == "" {
						lhs = nil
					}
				}
			}
			if lhs == nil {
				edits = append(edits, edit{off(best.Pos()), 0, call + "; "})
				break
			}
			edits = append(edits, edit{off(best.Pos()), off(best.End()) - off(best.Pos()),
				fmt.Sprintf("{ zzp := &(%s); zzv := *zzp %s %s; %s; *zzp = zzv }", text(lhs), op, rhs, call)})
		case p.After:
			if _, ok := best.(*ast.ReturnStmt); ok {
				return nil, fmt.Errorf("nothing after the statement at line %d", p.Line)
			}
			edits = append(edits, edit{off(best.End()), 0, "; " + call})
		default:
			edits = append(edits, edit{off(best.Pos()), 0, call + "; "})
		}
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
	out := append([]byte{}, src...)
	for _, e := range edits {
		out = append(out[:e.off:e.off], append([]byte(e.text), out[e.off+e.del:]...)...)
	}
	return out, nil
}

func (r *replayer) buildCmd(ov, bin string) *exec.Cmd {
	args := []string{"build", "-overlay", ov, "-o", bin}
	if r.race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./zzreplay")...)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	return cmd
}

// racing is a replayer with the race detector.
func (r *replayer) racing() *replayer {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.racer == nil {
		dir, err := os.MkdirTemp(r.dir, "race")
		if err != nil {
			return r
		}
		r.racer = &replayer{dir: dir, repo: r.repo, hs: r.hs, race: true}
	}
	return r.racer
}

func (r *replayer) build() error {
	r.once.Do(func() {
		t0 := time.Now()
		ov, err := writeOverlay(r.dir, r.repo, r.hs)
		if err != nil {
			r.err = err
			return
		}
		r.bin = filepath.Join(r.dir, "zzreplay")
		cmd := r.buildCmd(ov, r.bin)
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("native build of the harnesses failed: %v: %s", err, out)
		}
		r.dur = time.Since(t0)
	})
	return r.err
}

type replayFile struct {
	Property string     `json:"property,omitempty"`
	Harness  string     `json:"harness"`
	ID       string     `json:"id,omitempty"`
	Msg      string     `json:"msg,omitempty"`
	Where    string     `json:"where,omitempty"`
	Inputs   []inputVal `json:"inputs"`
	Pauses   []pause    `json:"preemptions,omitempty"`
	Thorough bool       `json:"thorough"`
	Known    []string   `json:"known"`
	HowTo    string     `json:"how_to_replay,omitempty"`
	Output   string     `json:"native_output,omitempty"`
}

type runResult struct {
	out     string
	timeout bool
	code    int
	done    bool
}

func (r *replayer) run(f *replayFile, tmo time.Duration) (*runResult, error) {
	if strings.HasPrefix(f.ID, "maprace@") && !r.race {
		return r.racing().run(f, tmo)
	}
	bin := ""
	if len(f.Pauses) > 0 {
		var err error
		if bin, err = r.buildPausing(f.Pauses); err != nil {
			return nil, err
		}
	} else {
		if err := r.build(); err != nil {
			return nil, err
		}
		bin = r.bin
	}
	r.mu.Lock()
	r.n++
	p := filepath.Join(r.dir, fmt.Sprintf("in%d.json", r.n))
	r.mu.Unlock()
	b, _ := json.Marshal(f)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(p)
	return r.runPath(bin, f.Harness, p, tmo)
}

func (r *replayer) runPath(bin, harness, p string, tmo time.Duration) (*runResult, error) {
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	wd, err := os.MkdirTemp(r.dir, "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(wd)
	cmd := exec.CommandContext(ctx, bin, harness, p)
	cmd.Dir = wd
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=2GiB")
	err = cmd.Run()
	res := &runResult{out: buf.String()}
	if ctx.Err() != nil {
		res.timeout = true
	}
	if ee, ok := err.(*exec.ExitError); ok {
		res.code = ee.ExitCode()
	}
	res.done = strings.Contains(res.out, "ZZ-DONE")
	return res, nil
}

// confirm tells whether the native run shows the same violation.
func (r *runResult) confirms(id string) bool {
	switch {
	case strings.HasPrefix(id, "panic@"):
		return !r.done && !r.timeout && r.code != 11 && r.code != 12
	case id == "deadlock":
		return r.timeout
	case strings.HasPrefix(id, "maprace@"):
		return raceShows(r.out, id)
	}
	for _, l := range strings.Split(r.out, "\n") {
		if l == "ZZ-VIOLATION "+id {
			return true
		}
	}
	return false
}

func (r *runResult) obs() []string {
	var o []string
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			o = append(o, l[4:])
		}
	}
	return o
}
