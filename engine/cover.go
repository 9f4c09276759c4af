package main

import (
	"path/filepath"
	"sort"
	"strings"
)

func (p *Program) eachInfo(f func(*fnInfo)) {
	p.fns.Range(func(_, v any) bool { f(v.(*fnInfo)); return true })
}

func (p *Program) forgetHits() {
	p.eachInfo(func(fi *fnInfo) {
		for _, b := range fi.blocks {
			b.hit.Store(false)
		}
	})
}

// hitLines lists the source lines of the repository whose code was executed.
func (p *Program) hitLines(repo string) map[string][]int {
	m := map[string]map[int]bool{}
	p.eachInfo(func(fi *fnInfo) {
		if !fi.repo {
			return
		}
		for _, b := range fi.blocks {
			if !b.hit.Load() {
				continue
			}
			for _, in := range b.b.Instrs {
				if !in.Pos().IsValid() {
					continue
				}
				at := p.prog.Fset.Position(in.Pos())
				f, err := filepath.Rel(repo, at.Filename)
				if err != nil || strings.HasPrefix(f, "..") || strings.Contains(f, "zz") {
					continue
				}
				if m[f] == nil {
					m[f] = map[int]bool{}
				}
				m[f][at.Line] = true
			}
		}
	})
	out := map[string][]int{}
	for f, ls := range m {
		for l := range ls {
			out[f] = append(out[f], l)
		}
		sort.Ints(out[f])
	}
	return out
}
