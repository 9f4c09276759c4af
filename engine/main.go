package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type hResult struct {
	Harness   string                 `json:"harness"`
	Package   string                 `json:"package"`
	Bounds    []string               `json:"bounds"`
	Cfg       string                 `json:"engine_bounds"`
	Paths     int                    `json:"paths"`
	Complete  int                    `json:"paths_completed"`
	Assumed   int                    `json:"paths_assumed_away"`
	Steps     int64                  `json:"ssa_instructions"`
	Queries   int64                  `json:"solver_queries"`
	Sent      int64                  `json:"solver_queries_not_answered_by_the_query_cache"`
	Sat       int64                  `json:"sat"`
	Unsat     int64                  `json:"unsat"`
	Unknown   int64                  `json:"unknown"`
	SolverS   float64                `json:"solver_s"`
	WallS     float64                `json:"wall_s"`
	MaxDec    int                    `json:"max_decisions_on_a_path"`
	SymVars   int                    `json:"max_symbolic_inputs"`
	Asserts   map[string]*assertStat `json:"assertions"`
	Covers    []string               `json:"witnesses_reached"`
	Missing   []string               `json:"witnesses_missing,omitempty"`
	Reduced   []string               `json:"reduced_bounds,omitempty"`
	Notes     []string               `json:"notes,omitempty"`
	Validated int                    `json:"native_replays_agreeing"`
	Mismatch  []string               `json:"native_replays_disagreeing,omitempty"`
	Unconf    []string               `json:"unconfirmed_counterexamples,omitempty"`
	ex        *Explorer
}

func main() {
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	hre := flag.String("harness", "", "only harnesses matching this regexp (development)")
	list := flag.Bool("list", false, "")
	workers := flag.Int("j", 8, "")
	maxPaths := flag.Int("paths", 2000000, "")
	budget := flag.Int("budget", 0, "seconds for the whole run")
	solver := flag.String("solver", "z3-new", "")
	verbose := flag.Bool("v", false, "")
	replay := flag.String("replay", "", "replay a counterexample file natively")
	novalidate := flag.Bool("novalidate", false, "")
	noev := flag.Bool("noevidence", false, "")
	cpuprof := flag.String("cpuprofile", "", "")
	showfn := flag.Bool("funcs", false, "")
	flag.BoolVar(&firstOnly, "first", false, "stop at the first violation (development)")
	flag.StringVar(&linesOut, "lines", "", "write the lines executed by each harness to this file (development)")
	flag.BoolVar(&engineDebug, "debug", false, "")
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(10 << 30)
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	rc := run(*verif, *repo, *prop, *tier, *hre, *list, *workers, *maxPaths, *budget, *solver, *verbose, *replay, *novalidate, *noev, *showfn)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

var (
	firstOnly bool
	linesOut  string
)

func run(verif, repo, prop, tier, hre string, list bool, workers, maxPaths, budget int, solver string, verbose bool, replay string, novalidate, noev, showfn bool) int {
	t0 := time.Now()
	if n := runtime.NumCPU(); workers > n {
		workers = n
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	if budget == 0 {
		budget = 240
		if tier == "thorough" {
			budget = 780
		}
	}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known_findings.json:", err)
		}
	}
	known := map[string]bool{}
	var knownIDs []string
	for _, k := range kf.Findings {
		known[k.ID] = true
		knownIDs = append(knownIDs, k.ID)
	}

	p, hs, err := loadProgram(verif, repo)
	if err != nil {
		fmt.Println("NOT DECIDED: cannot load the program:", err)
		if prop != "" && !noev {
			writeEvidence(verif, prop, tier, seed, nil, map[string]string{"load": err.Error()}, nil, 0, t0, nil)
		}
		return 0
	}
	tload := time.Since(t0)
	tmp, err := os.MkdirTemp("", "verifrun")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(tmp)
	rep := &replayer{dir: tmp, repo: repo, hs: hs}

	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Println(err)
			return 3
		}
		var rf replayFile
		json.Unmarshal(b, &rf)
		r, err := rep.run(&rf, 60*time.Second)
		if err != nil {
			fmt.Println(err)
			return 3
		}
		fmt.Print(r.out)
		fmt.Println("reproduces", rf.ID, ":", r.confirms(rf.ID))
		if r.confirms(rf.ID) {
			return 1
		}
		return 0
	}

	var sel []*Harness
	var re *regexp.Regexp
	if hre != "" {
		re = regexp.MustCompile(hre)
	}
	for _, h := range hs.list {
		ok := prop == ""
		for _, x := range h.Props {
			if x == prop {
				ok = true
			}
		}
		if re != nil && !re.MatchString(h.Name) {
			ok = false
		}
		if h.Thorough && tier != "thorough" && re == nil {
			ok = false
		}
		if ok {
			sel = append(sel, h)
		}
	}
	if firstOnly {
		// in the order they are asked for
		sort.SliceStable(sel, func(i, j int) bool { return strings.Index(hre, sel[i].Name+"$") < strings.Index(hre, sel[j].Name+"$") })
	}
	if list {
		for _, h := range sel {
			fmt.Printf("%-40s %v %s\n", h.Name, h.Props, h.File)
		}
		return 0
	}
	for f, m := range hs.dropped {
		fmt.Printf("NOT DECIDED: harness file %s does not compile against this tree: %s\n", f, m)
	}
	// harnesses where this property is listed first get the budget first
	var results []*hResult
	var viols []*Violation
	knownHit := map[string]bool{}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	funcs := map[string]bool{}
	stdfuncs := map[string]bool{}
	lines := map[string]map[string][]int{}
	for n, h := range sel {
		left := time.Until(deadline)
		share := left / time.Duration(len(sel)-n)
		if share*2 < left {
			share *= 2
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		sp := p.pkgs[h.Pkg]
		if sp == nil || sp.Func(h.Name) == nil {
			continue
		}
		un := h.intOpt("unwind", 40)
		cfg := pathCfg{unwind: un, maxAlloc: h.intOpt("alloc", 1<<17), maxSteps: int64(h.intOpt("steps", 20000000)), maxConc: h.intOpt("conc", 300)}
		p.forgetHits()
		opt := &Options{First: firstOnly, Workers: workers, SolverBin: solver, TimeoutMs: h.intOpt("smt", 20000), MaxPaths: maxPaths, Deadline: time.Now().Add(share), Known: known, Thorough: tier == "thorough", Seed: int64(seed), SampleKeep: h.intOpt("samples", 12)}
		ex := p.explore(sp.Func(h.Name), h.Name, opt, cfg)
		r := &hResult{Harness: h.Name, Package: h.Pkg, Bounds: h.Bounds, Cfg: fmt.Sprintf("symbolic branch forks per location %d, allocation %d, instructions per path %d, values enumerated per size/index %d", cfg.unwind, cfg.maxAlloc, cfg.maxSteps, cfg.maxConc),
			Paths: ex.paths, Complete: ex.complete, Assumed: ex.abKind[abInfeasible], Steps: ex.steps, Queries: ex.queries, Sent: ex.sent, Sat: ex.qsat, Unsat: ex.qunsat, Unknown: ex.qunk,
			SolverS: ex.solverT.Seconds(), WallS: ex.wall.Seconds(), MaxDec: ex.maxDec, SymVars: ex.symVars, Asserts: ex.asserts, Covers: sortedKeys(ex.covers), ex: ex}
		if ex.stopWhy != "" {
			r.Reduced = append(r.Reduced, ex.stopWhy)
		}
		for _, k := range sortedKeys(ex.aborts) {
			r.Reduced = append(r.Reduced, fmt.Sprintf("%d path(s) cut: %s", ex.aborts[k], k))
		}
		for _, k := range sortedKeys(ex.notes) {
			r.Notes = append(r.Notes, fmt.Sprintf("%s (%d paths)", k, ex.notes[k]))
		}
		for _, nd := range h.Needs {
			if ex.covers[nd] == 0 {
				r.Missing = append(r.Missing, nd)
			}
		}
		for fi := range ex.funcs {
			if fi.repo {
				funcs[fi.name] = true
			} else if fi.intr == nil && !strings.HasPrefix(fi.name, modPath) {
				stdfuncs[fi.name] = true
			}
		}
		if linesOut != "" {
			lines[h.Name] = p.hitLines(repo)
		}
		// counterexamples: replay on the native build
		tm := 30 * time.Second
		for _, id := range sortedKeys(ex.viol) {
			var v *Violation
			var rf *replayFile
			tries := h.intOpt("tries", 1)
			confirmed := false
			var last *runResult
			for _, v = range append([]*Violation{ex.viol[id]}, ex.more[id]...) {
				rf = &replayFile{Property: prop, Harness: h.Name, ID: v.ID, Msg: v.Msg, Where: v.Where, Inputs: v.Inputs, Thorough: opt.Thorough, Known: knownIDs}
				failed := false
				if strings.HasPrefix(v.ID, "maprace@") {
					// which does not depend on the schedule that much
					rr, err := rep.run(rf, tm)
					if err == nil {
						last = rr
						if confirmed = rr.confirms(v.ID); confirmed {
							break
						}
					}
				}
				if len(v.Pauses) > 0 {
					// with the preemptions forced
					for _, ps := range pauseVariants(v.Pauses) {
						rf.Pauses = ps
						rr, err := rep.run(rf, tm)
						if err != nil {
							break
						}
						last = rr
						if confirmed = rr.confirms(v.ID); confirmed {
							break
						}
					}
					if confirmed {
						break
					}
					rf.Pauses = nil
				}
				for k := 0; k < tries && !confirmed; k++ {
					rr, err := rep.run(rf, tm)
					if err != nil {
						r.Unconf = append(r.Unconf, id+": "+err.Error())
						failed = true
						break
					}
					last = rr
					confirmed = rr.confirms(v.ID)
				}
				if confirmed || failed {
					break
				}
			}
			if last != nil {
				v.Out = trunc(last.out, 3000)
				rf.Output = v.Out
			}
			if !confirmed {
				r.Unconf = append(r.Unconf, fmt.Sprintf("%s: %s at %s did not reproduce natively", id, v.Msg, v.Where))
				if verbose {
					b, _ := json.Marshal(v.Inputs)
					fmt.Println("UNCONFIRMED", id, v.Msg, v.Where, string(b), v.Stack, v.Pauses, v.Out)
				}
				continue
			}
			v.Replay = saveReplay(verif, rf)
			viols = append(viols, v)
		}
		for _, k := range sortedKeys(ex.knownHit) {
			in := ex.knownHit[k]
			rf := &replayFile{Harness: h.Name, Inputs: in.inputs, Thorough: opt.Thorough, Known: knownIDs}
			rr, err := rep.run(rf, tm)
			if err == nil && strings.Contains(rr.out, "ZZ-KNOWN "+k) {
				knownHit[k] = true
			} else if err == nil {
				r.Unconf = append(r.Unconf, "known finding "+k+" did not reproduce natively")
				if verbose {
					b, _ := json.Marshal(in.inputs)
					fmt.Println("UNCONFIRMED KNOWN", k, string(b), rr.out)
				}
			}
		}
		if !novalidate && h.Opt["validate"] != "0" {
			for _, s := range ex.samples {
				rr, err := rep.run(&replayFile{Harness: h.Name, Inputs: s.inputs, Thorough: opt.Thorough, Known: knownIDs}, tm)
				if err != nil {
					r.Notes = append(r.Notes, "no native validation: "+err.Error())
					break
				}
				if rr.done && !strings.Contains(rr.out, "ZZ-VIOLATION") && strings.Join(rr.obs(), "\n") == strings.Join(s.obs, "\n") {
					r.Validated++
				} else {
					b, _ := json.Marshal(s.inputs)
					r.Mismatch = append(r.Mismatch, trunc(fmt.Sprintf("inputs %s symbolic %v native %v", b, s.obs, trunc(rr.out, 600)), 1500))
				}
			}
		}
		results = append(results, r)
		if firstOnly && len(viols) > 0 {
			break
		}
		if verbose {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
			if showfn {
				for _, fi := range topFuncs(ex) {
					fmt.Println("   ", fi)
				}
			}
		} else {
			fmt.Printf("%s: %d paths (%d completed), %d queries (%d unsat), solver %.1fs, wall %.1fs, validated %d, reduced %d%s\n", h.Name, r.Paths, r.Complete, r.Queries, r.Unsat, r.SolverS, r.WallS, r.Validated, len(r.Reduced),
				map[bool]string{true: fmt.Sprintf(" MISMATCH %d UNCONFIRMED %d MISSING %v", len(r.Mismatch), len(r.Unconf), r.Missing), false: ""}[len(r.Mismatch)+len(r.Unconf)+len(r.Missing) > 0])
		}
	}
	if linesOut != "" {
		b, _ := json.Marshal(lines)
		os.WriteFile(linesOut, b, 0o644)
	}
	if n := solverErrors.Load(); n > 0 {
		fmt.Printf("solver errors: %d (last: %v)\n", n, lastSolverError.Load())
	}
	for _, k := range kf.Findings {
		if knownHit[k.ID] && (prop == "" || k.Property == prop) {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", k.Property, k.ID, k.What)
		}
	}
	for _, v := range viols {
		fmt.Printf("violation of %s in %s: %s at %s\n", v.ID, v.Harness, v.Msg, v.Where)
	}
	if prop != "" && !noev {
		writeEvidence(verif, prop, tier, seed, results, hs.dropped, viols, tload.Seconds(), t0, map[string][]string{"repo": sortedKeys(funcs), "std": sortedKeys(stdfuncs)})
	}
	if len(viols) > 0 {
		id := prop
		for _, v := range viols {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.Replay)
		}
		return 1
	}
	return 0
}

func topFuncs(ex *Explorer) []string {
	type e struct {
		n string
		c int64
	}
	var l []e
	for fi, c := range ex.funcs {
		l = append(l, e{fi.name, c})
	}
	sort.Slice(l, func(a, b int) bool { return l[a].c > l[b].c })
	var r []string
	for k, x := range l {
		if k > 60 {
			break
		}
		r = append(r, fmt.Sprintf("%8d %s", x.c, x.n))
	}
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func saveReplay(verif string, rf *replayFile) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	name := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(rf.Property+"-"+rf.Harness+"-"+rf.ID, "_")
	if len(name) > 120 {
		name = name[:120]
	}
	p := filepath.Join(dir, name+".json")
	rf.HowTo = "bash /verif/check.sh --replay " + p
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func writeEvidence(verif, prop, tier string, seed int, rs []*hResult, dropped map[string]string, viols []*Violation, tload float64, t0 time.Time, funcs map[string][]string) {
	var states, trans, val int64
	var queries, unsat, unk, disch int64
	var solverS float64
	var samples []any
	reduced := []string{}
	for _, r := range rs {
		states += int64(r.Complete)
		trans += r.Steps
		val += int64(r.Validated)
		queries += r.Queries
		unsat += r.Unsat
		unk += r.Unknown
		solverS += r.SolverS
		for _, a := range r.Asserts {
			disch += a.Const + a.Unsat
		}
		for _, x := range r.Reduced {
			reduced = append(reduced, trunc(r.Harness+": "+x, 300))
		}
		for k, s := range r.ex.samples {
			if k >= 2 || len(samples) >= 12 {
				break
			}
			var in []string
			for _, v := range s.inputs {
				in = append(in, fmt.Sprintf("%s=%#x", v.N, v.V))
			}
			samples = append(samples, map[string]any{"harness": r.Harness, "inputs": trunc(strings.Join(in, " "), 500), "observed": trunc(strings.Join(s.obs, " "), 400)})
		}
	}
	for f, m := range dropped {
		reduced = append(reduced, "not decided: "+f+": "+trunc(m, 200))
	}
	if samples == nil {
		samples = []any{"none: nothing explored"}
	}
	fl := []string{}
	if funcs != nil {
		fl = funcs["repo"]
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
		"explanation":         "bounded symbolic execution of the repository's go/ssa form, rebuilt from the working tree on this run; states = completed symbolic paths (each a set of inputs), transitions = SSA instructions executed, traces_validated = paths whose concrete instance was re-run natively with identical observations",
		"functions_encoded":   fl,
		"solver_queries":      queries,
		"solver_unsat":        unsat,
		"solver_unknown":      unk,
		"solver_s":            solverS,
		"assertion_instances": disch,
		"encode_s":            tload,
		"harnesses":           rs,
		"reduced_bounds":      reduced,
		"solver":              "z3 (z3-new), QF_BV",
	}
	if funcs != nil {
		cov["std_functions_encoded"] = len(funcs["std"])
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"logging, clocks, UUID generation and formatting of non-observed text are replaced by stubs",
			"goroutines are scheduled cooperatively (switching at blocking operations) unless a harness bound says otherwise",
			"bounds are those listed per harness; nothing is claimed outside them",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		for _, r := range rs {
			r.Mismatch, r.Notes = nil, nil
			if len(r.Reduced) > 5 {
				r.Reduced = r.Reduced[:5]
			}
		}
		if len(reduced) > 10 {
			cov["reduced_bounds"] = append(reduced[:10], "…")
		}
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	if len(b) > 60000 {
		delete(cov, "harnesses")
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}
