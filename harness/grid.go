package main

import (
	"github.com/booleworks/logicng-go/sat"
)

// Grids: contents that need long searches (see Matching.tla).
type gridEp struct {
	*solverEp
	rows, cols int
}

func (g *gridEp) cell(i, j int) int { return i*g.cols + j + 1 }

func (g *gridEp) row(i int) []int {
	r := make([]int, g.cols)
	for j := range r {
		r[j] = g.cell(i, j)
	}
	g.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func (g *gridEp) col(j int) []int {
	r := make([]int, g.rows)
	for i := range r {
		r[i] = g.cell(i, j)
	}
	g.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func (g *gridEp) need(i int) AST {
	r := g.row(i)
	switch g.Intn(4) {
	case 0:
		return AST{tPbc, 3, 1, r, ones(len(r))}
	case 1:
		return AST{tPbc, 0, 1, r, ones(len(r))}
	}
	c := AST{tOr}
	for _, v := range r {
		c = append(c, AST{tPos, v})
	}
	return c
}

func (g *gridEp) amo(vs []int) AST { return AST{tPbc, 1, 1, vs, ones(len(vs))} }

func (g *gridEp) addAST(a AST) {
	x := g.build(a)
	g.ev("add", M{"f": g.dump(x)})
	g.addF(x)
}

func (g *gridEp) any() AST {
	switch x := g.Intn(10); {
	case x < 4:
		return g.rlit(g.n)
	case x < 6:
		return AST{tNeg, g.Intn(g.n) + 1}
	case x < 8:
		return g.need(g.Intn(g.rows))
	case x == 8:
		return g.amo(g.col(g.Intn(g.cols)))
	}
	return g.amo(g.row(g.Intn(g.rows)))
}

// formula of the grid, used by calls with assumptions as well
func (g *gridEp) setFormula() { g.solverEp.gen = g.any }

func gridDriver(p profile, hard bool) driver {
	return func(e *Ep) {
		rows := e.Intn(4) + 2
		cols := max(2, rows+e.Intn(4)-1)
		if hard {
			cols = e.Intn(2) + 5
			rows = cols + 1 - e.Intn(2)
			if e.pct(10) {
				cols, rows = 7, 8-e.Intn(2)
			}
		}
		e.fresh(rows * cols)
		if e.pct(60) {
			_ = e.fac.PutConfiguration(e.encConfig())
		}
		cfg := sat.DefaultConfig().CNF(sat.CNFMethod(e.Intn(3))).ClauseMin(sat.ClauseMinimization(e.Intn(3))).
			InitPhase(e.pct(50)).Proofs(e.pct(p.proofs)).UseAtMost(e.pct(p.atmost))
		cfg.LowLevelConfig = e.llConfig()
		s := &solverEp{Ep: e, p: p, s: sat.NewSolver(e.fac, cfg)}
		s.props = cfg.ProofGeneration && p.proofs > 50
		s.wcore = s.props
		g := &gridEp{s, rows, cols}
		g.setFormula()
		e.begin(M{"rows": rows, "cols": cols})
		ok := e.try("fill", func() {
			var fs []AST
			for i := 0; i < rows; i++ {
				if hard || e.pct(70) {
					fs = append(fs, g.need(i))
				}
				if e.pct(20) {
					fs = append(fs, g.amo(g.row(i)))
				}
			}
			for j := 0; j < cols; j++ {
				if hard || e.pct(70) {
					fs = append(fs, g.amo(g.col(j)))
				}
			}
			e.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			for _, a := range fs {
				g.addAST(a)
			}
		})
		if !ok {
			return
		}
		steps := e.Intn(p.steps) + 2
		for i := 0; i < steps; i++ {
			if !e.try("solver", s.step) {
				return
			}
		}
		s.p.cancel = 0
		e.try("probe", func() {
			s.call(false)
			s.call(true)
		})
	}
}

func init() {
	base := profile{steps: 12, add: 5, call: 5, assume: 6, save: 4, bb: 2, atmost: 30, proofs: 15}
	mk := func(name string, hard bool, fn func(p *profile)) {
		p := base
		fn(&p)
		drivers[name] = gridDriver(p, hard)
	}
	mk("grid", false, func(p *profile) {})
	mk("grid_hard", true, func(p *profile) { p.steps = 5; p.add = 2 })
	mk("grid_core", false, func(p *profile) { p.proofs = 100; p.bb = 0; p.atmost = 10 })
	mk("grid_white", true, func(p *profile) { p.white = true; p.steps = 4; p.add = 2; p.atmost = 50 })
}
