package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/sat"
)

// Large contents: the variables are divided into blocks (see Large.tla), and
// each formula speaks about one block or is a conjunction of such formulas.
type block struct {
	sym  bool
	vars []int
}

func rename(a AST, vars []int) AST {
	lit := func(x int) int {
		if x > 0 {
			return vars[x-1]
		}
		return -vars[-x-1]
	}
	switch toInt(a[0]) {
	case tFalse, tTrue:
		return a
	case tPos, tNeg:
		return AST{a[0], vars[toInt(a[1])-1]}
	case tPbc:
		ls := toInts(a[3])
		r := make([]int, len(ls))
		for i, x := range ls {
			r[i] = lit(x)
		}
		return AST{tPbc, a[1], a[2], r, a[4]}
	}
	r := AST{a[0]}
	for _, x := range a[1:] {
		r = append(r, rename(x.(AST), vars))
	}
	return r
}

// rblocks divides n variables: several table blocks of w variables and
// possibly symmetric ones, interleaved or one after the other
func (e *Ep) rblocks(tables, w, syms, m int) []block {
	n := tables*w + syms*m
	order := make([]int, n)
	for i := range order {
		order[i] = i + 1
	}
	if e.pct(60) {
		e.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	var r []block
	for i := 0; i < tables+syms; i++ {
		k := w
		if i >= tables {
			k = m
		}
		r = append(r, block{i >= tables, order[:k:k]})
		order = order[k:]
	}
	return r
}

func (e *Ep) blockEvent(bs []block) A {
	r := A{}
	for _, b := range bs {
		r = append(r, M{"sym": b.sym, "vars": b.vars})
	}
	return r
}

// inBlock generates a formula over one table block
func (e *Ep) inBlock(b block, fn func() AST) AST {
	n := e.n
	e.n = len(b.vars)
	defer func() { e.n = n }()
	return rename(fn(), b.vars)
}

func (e *Ep) symFormula(b block, tight bool) AST {
	m := len(b.vars)
	vs := e.rvarset(m, m)
	for i := range vs {
		vs[i] = b.vars[vs[i]-1]
	}
	x := e.Intn(20)
	switch {
	case x < 3:
		return AST{tPos + e.Intn(2), vs[0]}
	case x == 3:
		t := tPos + e.Intn(2)
		r := AST{tOr}
		for _, v := range vs {
			r = append(r, AST{t, v})
		}
		return r
	}
	k := e.Intn(m + 1)
	if tight || e.pct(50) {
		k = []int{1, 2, 3, m / 2, m - 1, m - 2, m/2 + 1}[e.Intn(7)]
		if k < 0 {
			k = 0
		}
	}
	if m > 14 { // conflicting bounds in the middle are too hard for any solver
		k = []int{0, 1, 2, m - 1, m - 2, m}[e.Intn(6)]
	}
	c := e.Intn(5)
	if e.pct(50) {
		c = 1 + 2*e.Intn(2)
	}
	if e.pct(15) {
		for i := range vs {
			vs[i] = -vs[i]
		}
	}
	r := AST{tPbc, c, k, vs, ones(m)}
	if e.pct(10) {
		r = AST{tNot, r}
	}
	return r
}

// blockFormula is a formula over one block, or a conjunction of several
func (e *solverEp) blockFormula() AST {
	one := func() AST {
		b := e.blk[e.Intn(len(e.blk))]
		if b.sym {
			return e.symFormula(b, false)
		}
		return e.inBlock(b, e.localFormula)
	}
	if e.pct(85) {
		return one()
	}
	r := AST{tAnd}
	for i := e.Intn(3) + 1; i >= 0; i-- {
		r = append(r, one())
	}
	return r
}

// fill adds hard random clauses to the table blocks
func (e *solverEp) fill() {
	var fs []AST
	sol := e.rsolution(e.n)
	planted := e.pct(70) // satisfied by a hidden solution
	for _, b := range e.blk {
		if b.sym {
			a := e.symFormula(b, true)
			for i := 0; planted && !evalSet(a, sol) && i < 50; i++ {
				a = e.symFormula(b, true)
			}
			fs = append(fs, a)
			continue
		}
		w := len(b.vars)
		ratio := 2.5 + 2*e.Float64()
		for i := int(ratio * float64(w)); i > 0; i-- {
			fs = append(fs, e.inBlock(b, func() AST {
				for {
					c := AST{tOr}
					for _, v := range e.rvarset(w, min(w, 3)) {
						c = append(c, AST{tPos + e.Intn(2), v})
					}
					if !planted || evalSet(rename(c, b.vars), sol) {
						return c
					}
				}
			}))
		}
	}
	e.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, a := range fs {
		x := e.build(a)
		e.ev("add", M{"f": e.dump(x)})
		e.addF(x)
	}
}

func largeDriver(p profile, fill bool) driver {
	return func(e *Ep) {
		tables, w := e.Intn(6)+2, e.Intn(4)+3
		syms, m := e.Intn(3), e.Intn(12)+4
		if e.pct(10) {
			m = e.Intn(40) + 12
		}
		if fill {
			tables, w = e.Intn(5)+4, e.Intn(3)+6
			syms = e.Intn(2)
		}
		bs := e.rblocks(tables, w, syms, m)
		e.dups = e.pct(15)
		e.fresh(tables*w + syms*m)
		if e.pct(60) {
			_ = e.fac.PutConfiguration(e.encConfig())
		}
		cfg := sat.DefaultConfig().CNF(sat.CNFMethod(e.Intn(3))).ClauseMin(sat.ClauseMinimization(e.Intn(3))).
			InitPhase(e.pct(50)).Proofs(e.pct(p.proofs)).UseAtMost(e.pct(p.atmost))
		cfg.LowLevelConfig = e.llConfig()
		s := &solverEp{Ep: e, p: p, s: sat.NewSolver(e.fac, cfg), blk: bs}
		s.props = cfg.ProofGeneration && p.proofs > 50
		s.wcore = s.props
		e.begin(M{"blocks": e.blockEvent(bs), "cfg": fmt.Sprint(cfg.CNFMethod, cfg.ClauseMinimization, cfg.InitialPhase, cfg.ProofGeneration, cfg.UseAtMostClauses)})
		if fill {
			if !e.try("fill", s.fill) {
				return
			}
		}
		steps := e.Intn(p.steps) + 3
		for i := 0; i < steps; i++ {
			if !e.try("solver", s.step) {
				return
			}
		}
		s.p.cancel = 0
		e.try("probe", func() {
			s.call(false)
			s.call(true)
			s.backbone()
			s.optimize()
			if p.white {
				s.learned()
			}
		})
	}
}

func init() {
	base := profile{steps: 14, add: 9, call: 4, assume: 4, save: 3, bb: 1, enum: 1, count: 1, opt: 1, inc: 1, atmost: 25, proofs: 15, clauses: 50}
	mk := func(name string, fill bool, fn func(p *profile)) {
		p := base
		fn(&p)
		drivers[name] = largeDriver(p, fill)
	}
	mk("large", false, func(p *profile) {})
	mk("large_assume", true, func(p *profile) { p.assume = 14; p.add = 4; p.bb, p.enum, p.count, p.opt, p.inc = 0, 0, 0, 0, 0 })
	mk("large_state", false, func(p *profile) { p.save = 14; p.steps = 20; p.inc = 2; p.bb, p.enum, p.count = 0, 0, 0 })
	mk("large_core", true, func(p *profile) {
		p.proofs = 100
		p.assume = 6
		p.atmost = 10
		p.enum, p.count, p.opt, p.inc = 0, 0, 0, 0
	})
	mk("large_backbone", true, func(p *profile) { p.bb = 10; p.add = 5; p.enum, p.count, p.opt = 0, 0, 0 })
	mk("large_enum", false, func(p *profile) { p.enum = 8; p.count = 6; p.bb, p.opt = 0, 0 })
	mk("large_opt", false, func(p *profile) { p.opt = 12; p.enum, p.count, p.bb = 0, 0, 0 })
	mk("large_cancel", true, func(p *profile) { p.cancel = 70; p.bb, p.enum, p.count, p.opt = 4, 3, 2, 6 })
	mk("large_white", true, func(p *profile) {
		p.white = true
		p.atmost = 50
		p.assume = 12
		p.enum, p.count, p.inc = 0, 0, 0
	})
}

func (e *Ep) rsolution(n int) map[int]bool {
	sol := map[int]bool{}
	for v := 1; v <= n; v++ {
		if e.pct(50) {
			sol[v] = true
		}
	}
	return sol
}

// evalSet is used to pick interesting inputs only, never to judge a result.
func evalSet(a AST, s map[int]bool) bool {
	lit := func(x int) bool { return x > 0 && s[x] || x < 0 && !s[-x] }
	switch toInt(a[0]) {
	case tPos:
		return lit(toInt(a[1]))
	case tNeg:
		return lit(-toInt(a[1]))
	case tNot:
		return !evalSet(a[1].(AST), s)
	case tOr:
		for _, x := range a[1:] {
			if evalSet(x.(AST), s) {
				return true
			}
		}
		return false
	case tAnd:
		for _, x := range a[1:] {
			if !evalSet(x.(AST), s) {
				return false
			}
		}
		return true
	case tPbc:
		k := 0
		ls, cs := toInts(a[3]), toInts(a[4])
		for i := range ls {
			if lit(ls[i]) {
				k += cs[i]
			}
		}
		r := toInt(a[2])
		return [](bool){k == r, k <= r, k < r, k >= r, k > r}[toInt(a[1])]
	}
	return true
}
