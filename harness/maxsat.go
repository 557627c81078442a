package main

import (
	"fmt"
	"math"

	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/sat"
)

// boundsHandler records the bounds and stops at the k-th event (0: never).
type boundsHandler struct {
	stopper
	bounds A
}

func (b *boundsHandler) ShouldResume(ev event.Event) bool {
	switch x := ev.(type) {
	case maxsat.EventMaxSatNewLowerBound:
		b.bounds = append(b.bounds, []int{1, x.Bound})
	case maxsat.EventMaxSatNewUpperBound:
		b.bounds = append(b.bounds, []int{2, x.Bound})
	}
	return b.stopper.ShouldResume(ev)
}

type maxsatEp struct {
	*Ep
	s       *maxsat.Solver
	alg     int
	saved   []*maxsat.SolverState
	weights [][]int // weights in force at each saved state
	ws      []int
	cancel  int
	weighty bool
	bmo     bool
	size    int
}

const numAlgs = 7

func (e *Ep) maxsatConfig(alg int) *maxsat.Config {
	c := maxsat.DefaultConfig()
	c.CNFMethod = sat.CNFMethod(e.Intn(3))
	c.IncrementalStrategy = maxsat.IncrementalStrategy(e.Intn(2))
	c.WeightStrategy = maxsat.WeightStrategy(e.Intn(3))
	c.Symmetry = e.pct(50)
	c.Limit = []int{math.MaxInt, 0, 1, 2, 5}[e.Intn(5)]
	c.BMO = e.pct(50)
	return c
}

func newMaxSat(fac f.Factory, alg int, cfg *maxsat.Config) *maxsat.Solver {
	fns := []func(f.Factory, ...*maxsat.Config) *maxsat.Solver{
		maxsat.LinearSU, maxsat.LinearUS, maxsat.MSU3, maxsat.WMSU3, maxsat.WBO, maxsat.IncWBO, maxsat.OLL,
	}
	if cfg == nil {
		return fns[alg](fac)
	}
	if cfg.Symmetry && alg != 0 && alg != 3 && alg != 6 { // the configuration of the factory
		_ = fac.PutConfiguration(cfg)
		return fns[alg](fac)
	}
	return fns[alg](fac, cfg)
}

func (e *maxsatEp) mustBeUnweighted() bool { return !e.s.SupportsWeighted() }

func (e *maxsatEp) solvable() bool {
	if e.s.SupportsUnweighted() {
		return true
	}
	for _, w := range e.ws {
		if w > 1 {
			return true
		}
	}
	return false
}

func (e *maxsatEp) weight() int {
	if e.mustBeUnweighted() || !e.weighty && e.s.SupportsUnweighted() {
		return 1
	}
	if e.bmo {
		return []int{1, 1, 10, 10, 100, 1000}[e.Intn(6)]
	}
	switch e.Intn(8) {
	case 0:
		return e.Intn(200) + 1
	case 1:
		return 1
	}
	return e.Intn(6) + 1
}

func (e *maxsatEp) hard(x f.Formula) {
	e.ev("hard", M{"f": e.dump(x)})
	e.s.AddHardFormula(x)
}

func (e *maxsatEp) soft(x f.Formula, w int) {
	err := e.s.AddSoftFormula(x, w)
	e.ev("soft", M{"f": e.dump(x), "w": w, "err": err != nil})
	if err == nil {
		e.ws = append(e.ws, w)
	}
}

func (e *maxsatEp) save() {
	e.saved = append(e.saved, e.s.SaveState())
	e.weights = append(e.weights, append([]int{}, e.ws...))
	e.ev("save", nil)
}

func (e *maxsatEp) load(i int) {
	err := e.s.LoadState(e.saved[i])
	e.ev("load", M{"i": i + 1, "err": err != nil})
	if err == nil {
		e.ws = append([]int{}, e.weights[i]...)
	}
}

func (e *maxsatEp) solve(k int) {
	h := &boundsHandler{stopper: stopper{k: k, once: e.pct(50)}, bounds: A{}}
	var r maxsat.Result
	ok := true
	if k == 0 && e.pct(50) {
		r = e.s.Solve()
	} else {
		res, st := e.s.SolveWithHandler(h)
		r, ok = res, st.Success
		e.verdict(st, &h.stopper)
	}
	m := M{"ok": ok, "canceled": h.stopped, "sat": r.Satisfiable, "opt": r.Optimum, "model": []int{}, "bounds": h.bounds}
	if r.Model != nil {
		// only the user's variables, auxiliary variables of encodings are left out
		own := []int{}
		for _, l := range e.lits(r.Model.Literals) {
			if l <= e.n && -l <= e.n {
				own = append(own, l)
			}
		}
		m["model"] = own
	}
	e.ev("solve", m)
}

func (e *maxsatEp) rf() f.Formula {
	switch e.Intn(5) {
	case 0:
		return e.build(e.rform(Opts{n: e.n, depth: e.Intn(3), ops: 3, consts: e.pct(10), cc: e.pct(40), pbc: e.pct(30), impl: true}))
	case 1:
		return e.build(e.rcc(e.n))
	case 2:
		return e.mkLit(e.rlitI(e.n)).AsFormula()
	}
	return e.build(e.rclauses(e.n, 1, 3)[0])
}

func maxsatDriver(cancel int) driver {
	return func(e *Ep) {
		e.fresh(e.Intn(6)+2, e.pct(10))
		e.dups = e.pct(15)
		if e.pct(30) {
			_ = e.fac.PutConfiguration(e.encConfig())
		}
		m := &maxsatEp{Ep: e, alg: e.Intn(numAlgs), cancel: cancel, weighty: e.pct(75), bmo: e.pct(30)}
		var cfg *maxsat.Config
		if e.pct(80) {
			cfg = e.maxsatConfig(m.alg)
		}
		m.s = newMaxSat(e.fac, m.alg, cfg)
		e.begin(M{"alg": m.alg, "cfg": fmt.Sprintf("%+v", cfg)})
		for i := e.Intn(e.n) + 1; i > 0; i-- {
			if e.pct(85) {
				e.try("hard", func() { m.hard(m.rf()) })
			}
		}
		steps := e.Intn(12) + 3
		if e.pct(20) {
			steps += 12
		}
		for i := 0; i < steps; i++ {
			ok := e.try("maxsat", func() {
				switch x := e.Intn(20); {
				case x < 3:
					m.hard(m.rf())
				case x < 13:
					w := m.weight()
					if e.pct(3) {
						w = -e.Intn(2)
					}
					if e.pct(60) {
						m.soft(e.mkLit(e.rlitI(e.n)).AsFormula(), w)
					} else {
						m.soft(m.rf(), w)
					}
				case x < 16:
					if m.solvable() {
						k := 0
						if e.pct(m.cancel) {
							k = e.Intn(5) + 1
							if e.pct(50) {
								k = e.Intn(30) + 1
							}
						}
						m.solve(k)
					}
				case x < 18 || len(m.saved) == 0:
					m.save()
				default:
					m.load(e.Intn(len(m.saved)))
				}
			})
			if !ok {
				return
			}
		}
		if m.solvable() {
			e.try("maxsat", func() { m.solve(0); m.solve(0) })
		}
	}
}

// maxsatCores: few of many soft literals can be satisfied, so that there are
// many overlapping cores
func maxsatCores(e *Ep) {
	e.fresh(e.Intn(5)+5, e.pct(10))
	m := &maxsatEp{Ep: e, alg: e.Intn(numAlgs), weighty: e.pct(50), bmo: e.pct(20)}
	if e.pct(40) {
		m.alg = 4 + e.Intn(2)
	}
	var cfg *maxsat.Config
	if e.pct(85) {
		cfg = e.maxsatConfig(m.alg)
	}
	m.s = newMaxSat(e.fac, m.alg, cfg)
	e.begin(M{"alg": m.alg, "cfg": fmt.Sprintf("%+v", cfg)})
	sign := make([]int, e.n+1)
	for i := range sign {
		sign[i] = 1
		if e.pct(20) {
			sign[i] = -1
		}
	}
	few := func() {
		k := e.Intn(e.n-2) + 3
		ls, cs := []int{}, []int{}
		for _, v := range e.chosen(e.n, k) {
			ls, cs = append(ls, sign[v]*v), append(cs, 1)
		}
		m.hard(e.build(AST{tPbc, 1, e.Intn(len(ls)-1) + e.Intn(2), ls, cs}))
	}
	e.try("maxsat", func() {
		few()
		for round := e.Intn(3) + 1; round > 0; round-- {
			for i := e.Intn(3); i > 0; i-- {
				few()
			}
			if e.pct(50) {
				m.hard(m.rf())
			}
			for _, v := range e.Perm(e.n) {
				switch {
				case e.pct(75):
					m.soft(e.mkLit(sign[v+1]*(v+1)).AsFormula(), m.weight())
				case e.pct(50):
					m.soft(m.rf(), m.weight())
				}
			}
			if e.pct(30) {
				m.save()
			}
			if m.solvable() {
				m.solve(0)
			}
			if len(m.saved) > 0 && e.pct(30) {
				m.load(e.Intn(len(m.saved)))
				if m.solvable() {
					m.solve(0)
				}
			}
		}
	})
}

// maxsatWeights: many weighted soft formulas over a conflict graph or
// cardinality constraints, so that cores and cardinality constraints have to
// be split more than once.
func maxsatWeights(e *Ep) {
	m := &maxsatEp{Ep: e, alg: e.Intn(numAlgs)}
	if e.pct(40) {
		m.alg = numAlgs - 1
	}
	// the Fu-Malik algorithms need very long with many cores
	wbo := m.alg == 4 || m.alg == 5
	n := e.Intn(4) + 8
	if wbo {
		n = e.Intn(3) + 5
	}
	e.fresh(n, e.pct(10))
	var cfg *maxsat.Config
	if e.pct(50) {
		cfg = e.maxsatConfig(m.alg)
	}
	m.s = newMaxSat(e.fac, m.alg, cfg)
	weights := []int{1, 2, 3, 4, 5, 6}
	if e.pct(30) {
		weights = []int{1, 2, 6, 7}
	}
	if !m.s.SupportsWeighted() {
		weights = []int{1}
	}
	w := func() int { return weights[e.Intn(len(weights))] }
	e.begin(M{"alg": m.alg, "cfg": fmt.Sprintf("%+v", cfg)})
	e.try("maxsat", func() {
		graph := func(density int) {
			for i := 1; i <= e.n; i++ {
				for j := 1; j < i; j++ {
					if e.pct(density) {
						m.hard(e.build(AST{tOr, AST{tNeg, i}, AST{tNeg, j}}))
					}
				}
			}
		}
		cards := func() {
			for i := 0; i < 3; i++ {
				ls, cs := []int{}, []int{}
				for v := 1; v <= e.n; v++ {
					if e.pct(66) {
						ls, cs = append(ls, v), append(cs, 1)
					}
				}
				if len(ls) > 2 {
					m.hard(e.build(AST{tPbc, 1, 1 + e.Intn(len(ls)-1), ls, cs}))
				}
			}
		}
		clauses := 0
		switch e.Intn(4) {
		case 0:
			graph(45)
		case 1:
			cards()
		case 2:
			cards()
			clauses = e.n
		case 3:
			graph(60)
			clauses = 2 * e.n
		}
		for v := 1; v <= e.n; v++ {
			m.soft(e.mkLit(v).AsFormula(), w())
		}
		if wbo {
			clauses = min(clauses, 3)
		}
		for ; clauses > 0; clauses-- {
			a, b := 1+e.Intn(e.n), 1+e.Intn(e.n)
			if a != b {
				m.soft(e.build(AST{tOr, AST{tPos + e.Intn(2), a}, AST{tPos, b}}), w())
			}
		}
		if m.solvable() {
			m.solve(0)
		}
	})
}

func init() {
	drivers["maxsat_cores"] = maxsatCores
	drivers["maxsat_weights"] = maxsatWeights
	drivers["maxsat_gen"] = maxsatGen
	drivers["maxsat"] = maxsatDriver(0)
	drivers["maxsat_cancel"] = maxsatDriver(60)
}

// maxsatGen replays a behaviour of GenMaxSat.
func maxsatGen(e *Ep) {
	e.fresh(3)
	sp := sub(e.spec, "cfg")
	c := maxsat.DefaultConfig()
	c.CNFMethod = sat.CNFMethod(num(sp, "cnf"))
	c.IncrementalStrategy = maxsat.IncrementalStrategy(num(sp, "inc"))
	c.WeightStrategy = maxsat.WeightStrategy(num(sp, "ws"))
	c.Symmetry, c.BMO = flag2(sp, "sym"), flag2(sp, "bmo")
	if c.Limit = num(sp, "lim"); c.Limit == 1000 {
		c.Limit = math.MaxInt
	}
	m := &maxsatEp{Ep: e, alg: num(e.spec, "alg")}
	m.s = newMaxSat(e.fac, m.alg, c)
	e.begin(M{"alg": m.alg, "cfg": fmt.Sprintf("%+v", c)})
	for _, st := range sub(e.spec, "hist").([]any) {
		x := num(st, "x")
		ok := e.try("maxsat", func() {
			switch sub(st, "op").(string) {
			case "hard":
				m.hard(e.build(astOf(sub(st, "f"))))
			case "soft":
				m.soft(e.build(astOf(sub(st, "f"))), x)
			case "save":
				m.save()
			case "load":
				m.load(x - 1)
			case "solve":
				m.solve(x)
			}
		})
		if !ok {
			return
		}
	}
	if m.solvable() {
		e.try("maxsat", func() { m.solve(0) })
	}
}

// astOf turns a formula written by TLC into the harness's form.
func astOf(v any) AST {
	a := v.([]any)
	t := int(a[0].(float64))
	r := AST{t}
	for i, x := range a[1:] {
		switch {
		case t == tPbc && i >= 2:
			r = append(r, ints(x))
		case t == tPbc || t == tPos || t == tNeg:
			r = append(r, int(x.(float64)))
		default:
			r = append(r, astOf(x))
		}
	}
	return r
}
