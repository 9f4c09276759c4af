package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one symbolic entry point.
type Harness struct {
	Name     string // function name
	Pkg      string // import path
	PkgName  string
	File     string
	Props    []string
	Bounds   []string
	Needs    []string
	Stubs    []string // stubs this harness activates
	Opt      map[string]string
	Thorough bool
}

type stubDecl struct{ target, fn, pkg string }

type harnessSet struct {
	files   map[string]string // overlay path under repo -> real file
	list    []*Harness
	stubs   []stubDecl
	pkgDirs map[string]bool
	dropped map[string]string
}

const modPath = "github.com/gostor/gotgt"

func scanHarnesses(verif, repo string, skip map[string]string) (*harnessSet, error) {
	hs := &harnessSet{files: map[string]string{}, pkgDirs: map[string]bool{}, dropped: skip}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		base := filepath.Base(rel)
		if dir != "pkg/zzsym" && dir != "zzreplay" && !strings.HasPrefix(base, "zz_verif_") {
			return fmt.Errorf("harness file %s must be named zz_verif_*.go", rel)
		}
		if _, drop := skip[rel]; drop {
			return nil
		}
		hs.files[filepath.Join(repo, rel)] = p
		if dir == "zzreplay" || dir == "pkg/zzsym" {
			return nil
		}
		hs.pkgDirs[dir] = true
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Pkg: modPath + "/" + dir, PkgName: f.Name.Name, File: rel, Opt: map[string]string{}}
			for _, c := range fd.Doc.List {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if !strings.HasPrefix(t, "zz:") {
					continue
				}
				w := strings.SplitN(t[3:], " ", 2)
				arg := ""
				if len(w) == 2 {
					arg = strings.TrimSpace(w[1])
				}
				switch w[0] {
				case "prop":
					for _, x := range strings.Split(arg, ",") {
						h.Props = append(h.Props, strings.TrimSpace(x))
					}
				case "bound":
					h.Bounds = append(h.Bounds, arg)
				case "need":
					h.Needs = append(h.Needs, strings.Fields(arg)...)
				case "opt":
					for _, x := range strings.Fields(arg) {
						kv := strings.SplitN(x, "=", 2)
						if len(kv) == 2 {
							h.Opt[kv[0]] = kv[1]
						}
					}
				case "thorough":
					h.Thorough = true
				case "stub":
					hs.stubs = append(hs.stubs, stubDecl{arg, fd.Name.Name, h.Pkg})
				}
			}
			if len(h.Props) > 0 {
				hs.list = append(hs.list, h)
			}
		}
		return nil
	})
	sort.Slice(hs.list, func(a, b int) bool { return hs.list[a].Name < hs.list[b].Name })
	return hs, err
}

func (h *Harness) intOpt(k string, d int) int {
	if s, ok := h.Opt[k]; ok {
		if v, err := strconv.Atoi(s); err == nil {
			return v
		}
	}
	return d
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) { env = append(env, k+"="+v) }
	set("GOFLAGS", "-mod=readonly")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	return env
}

// loadProgram type-checks and builds SSA for the harness packages over the
// current working tree. Harness files that no longer compile are dropped and
// reported (their properties are then not decided).
func loadProgram(verif, repo string) (*Program, *harnessSet, error) {
	skip := map[string]string{}
	for attempt := 0; ; attempt++ {
		hs, err := scanHarnesses(verif, repo, skip)
		if err != nil {
			return nil, nil, err
		}
		overlay := map[string][]byte{}
		for o, r := range hs.files {
			b, err := os.ReadFile(r)
			if err != nil {
				return nil, nil, err
			}
			if filepath.Dir(o) == filepath.Join(repo, "zzreplay") {
				continue
			}
			overlay[o] = b
		}
		var pats []string
		for d := range hs.pkgDirs {
			pats = append(pats, "./"+d)
		}
		sort.Strings(pats)
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: goEnv()}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, nil, err
		}
		bad := 0
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				if strings.Contains(e.Pos, "zz_verif_") {
					f := e.Pos
					if j := strings.Index(f, ".go:"); j >= 0 {
						f = f[:j+3]
					}
					if !filepath.IsAbs(f) {
						f = filepath.Join(repo, f)
					}
					for o := range hs.files {
						if o == f {
							rel, _ := filepath.Rel(repo, o)
							skip[rel] = e.Msg
							bad++
						}
					}
				} else if strings.HasPrefix(p.PkgPath, modPath) {
					other = append(other, e.Error())
				}
			}
		})
		if bad > 0 && attempt < 30 {
			continue
		}
		if len(other) > 0 {
			return nil, nil, fmt.Errorf("the repository does not compile: %s", other[0])
		}
		prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, stubs: map[string]*ssa.Function{}}
		for _, sp := range prog.AllPackages() {
			p.pkgs[sp.Pkg.Path()] = sp
		}
		// package initialisation of the repository's packages, dependencies first
		seen := map[*types.Package]bool{}
		var visit func(t *types.Package)
		visit = func(t *types.Package) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, im := range t.Imports() {
				visit(im)
			}
			if strings.HasPrefix(t.Path(), modPath+"/") && t.Path() != symPkg {
				if sp := prog.Package(t); sp != nil {
					p.initPat = append(p.initPat, sp)
				}
			}
		}
		for _, sp := range spkgs {
			if sp != nil {
				visit(sp.Pkg)
			}
		}
		if rt := p.pkgs["runtime"]; rt != nil {
			if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
				p.rtErr = o.Type()
			}
		}
		if ep := p.pkgs["errors"]; ep != nil {
			if o := ep.Pkg.Scope().Lookup("errorString"); o != nil {
				p.errT = types.NewPointer(o.Type())
			}
		}
		if p.rtErr == nil || p.errT == nil {
			return nil, nil, fmt.Errorf("runtime/errors packages not loaded")
		}
		for _, st := range hs.stubs {
			if sp := p.pkgs[st.pkg]; sp != nil {
				if f := sp.Func(st.fn); f != nil {
					p.stubs[st.target] = f
				}
			}
		}
		return p, hs, nil
	}
}

// writeOverlay creates the go build overlay (harness files + generated registry).
func writeOverlay(dir, repo string, hs *harnessSet) (string, error) {
	rep := map[string]string{}
	for o, r := range hs.files {
		rep[o] = r
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	im := map[string]string{}
	n := 0
	var order []string
	for _, h := range hs.list {
		if _, ok := im[h.Pkg]; !ok {
			n++
			im[h.Pkg] = fmt.Sprintf("p%d", n)
			order = append(order, h.Pkg)
		}
	}
	for _, p := range order {
		fmt.Fprintf(&sb, "\t%s %q\n", im[p], p)
	}
	sb.WriteString(")\n\nvar registry = map[string]func(){\n")
	for _, h := range hs.list {
		fmt.Fprintf(&sb, "\t%q: %s.%s,\n", h.Name, im[h.Pkg], h.Name)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(dir, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(repo, "zzreplay", "registry.go")] = reg
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(dir, "overlay.json")
	return ov, os.WriteFile(ov, b, 0o644)
}
