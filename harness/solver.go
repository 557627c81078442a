package main

import (
	"fmt"
	"math/big"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

// stopper cancels at the k-th event, and from then on or only once.
type stopper struct {
	k       int
	once    bool
	seen    int
	stopped bool
	refused A // the events at which it asked to stop
	log     func(event.Event)
}

func eventName(ev event.Event) string {
	if ev == nil {
		return "none"
	}
	return ev.EventType()
}

// verdict records with the next event what a computation said about its
// handler.
func (e *Ep) verdict(st handler.State, h *stopper) {
	e.states = append(e.states, M{"ok": st.Success, "cause": eventName(st.CancelCause), "refused": append(A{}, h.refused...)})
}

func (s *stopper) ShouldResume(ev event.Event) bool {
	s.seen++
	if s.log != nil {
		s.log(ev)
	}
	if s.k > 0 && (s.seen == s.k || (!s.once && s.seen > s.k)) {
		s.stopped = true
		s.refused = append(s.refused, eventName(ev))
		return false
	}
	return true
}

// profile weighs the operations of a solver episode.
type profile struct {
	nmin, nmax                                                             int
	steps                                                                  int
	add, call, assume, save, bb, enum, count, opt, fos, occ, inc, unk, bdd int
	proofs                                                                 int // percent
	atmost                                                                 int // percent
	cancel                                                                 int // percent of the queries with a canceling handler
	counting                                                               int // percent of the queries with a handler that never cancels
	reuse                                                                  int // percent of the formulas with a subformula of an earlier one
	clauses                                                                int // percent of plain clauses among the additions
	dense                                                                  bool
	white                                                                  bool
}

func (e *Ep) pct(p int) bool { return e.Intn(100) < p }

func (e *Ep) llConfig() *sat.LowLevelConfig {
	c := sat.DefaultLowLevelConfig()
	if e.pct(50) {
		c.FirstReduceDB = e.Intn(6) + 1
		c.IncReduceDB = e.Intn(5) + 1
		c.SpecialIncReduceDB = e.Intn(5) + 1
		c.LBLBDFrozenClause = e.Intn(4) + 1
	}
	if e.pct(50) {
		c.SizeLBDQueue = e.Intn(4) + 1
		c.SizeTrailQueue = e.Intn(10) + 1
		c.FactorK = 0.5 + e.Float64()
		c.FactorR = 1 + e.Float64()/2
	}
	if e.pct(30) {
		c.ReduceOnSize = true
		c.ReduceOnSizeSize = e.Intn(6) + 1
	}
	if e.pct(30) {
		c.LBSizeMinimizingClause = e.Intn(5) + 1
		c.LBLBDMinimizingClause = e.Intn(5) + 1
	}
	if e.pct(15) {
		c.ClauseDecay = 0.05 + e.Float64()*0.9 // activities soon need rescaling
	}
	if e.pct(15) {
		c.VarInc = 1e97
	}
	if e.pct(20) {
		c.VarDecay = 0.6 + e.Float64()*0.35
		c.MaxVarDecay = c.VarDecay
	}
	return c
}

func (e *Ep) encConfig() *encoding.Config {
	c := encoding.DefaultConfig()
	c.AMOEncoder = encoding.AMOEncoder(e.Intn(8))
	c.AMKEncoder = encoding.AMKEncoder(e.Intn(4))
	c.ALKEncoder = encoding.ALKEncoder(e.Intn(4))
	c.EXKEncoder = encoding.EXKEncoder(e.Intn(3))
	c.PBCEncoder = encoding.PBCEncoder(e.Intn(4))
	c.BimanderGroupSize = encoding.BimanderGroupSize(e.Intn(3))
	c.BimanderFixedGroupSize = e.Intn(4) + 2
	c.NestingGroupSize = e.Intn(4) + 3
	c.ProductRecursiveBound = []int{2, 3, 5, 20}[e.Intn(4)]
	c.CommanderGroupSize = e.Intn(4) + 2
	c.BinaryMergeUseGAC = e.pct(50)
	c.BinaryMergeNoSupportForSingleBit = e.pct(50)
	c.BinaryMergeUseWatchDog = e.pct(50)
	return c
}

type inccc struct {
	data *encoding.CCIncrementalData
	kind int // 1 upper, 3 lower
	vars []int
	b    int
	at   int // number of saved states at creation
}

type solverEp struct {
	*Ep
	s       *sat.Solver
	p       profile
	saved   []*sat.SolverState
	valid   []bool
	incs    []inccc
	props   bool
	wcore   bool
	nprops  int
	objects map[f.Proposition]bool // the propositions that were added

	started bool
	blk     []block // large contents
	gen     func() AST
	pool    []AST // nested formulas of the episode
}

func (e *solverEp) handler() *stopper {
	if e.pct(e.p.cancel) {
		k := e.Intn(4) + 1
		if e.pct(50) {
			k = e.Intn(25) + 1
		}
		return &stopper{k: k, once: e.pct(50)}
	}
	return &stopper{}
}

func (e *solverEp) useHandler() bool { return e.p.cancel > 0 && e.pct(70) || e.pct(e.p.counting) }

func (e *solverEp) formula() AST {
	if e.gen != nil {
		return e.gen()
	}
	if e.blk != nil {
		return e.blockFormula()
	}
	if e.p.reuse == 0 {
		return e.localFormula()
	}
	if len(e.pool) > 0 && e.pct(e.p.reuse) {
		return e.reuse()
	}
	x := e.localFormula()
	if nested(x) {
		e.pool = append(e.pool, x)
	}
	return x
}

// nested tells whether a has a compound subformula below its root
func nested(a AST) bool {
	k := a[0].(int)
	if k < tNot || k > tEquiv {
		return false
	}
	for _, x := range a[1:] {
		if j := x.(AST)[0].(int); j >= tNot && j <= tEquiv {
			return true
		}
	}
	return false
}

func compounds(a AST, to []AST) []AST {
	k := a[0].(int)
	if k < tNot || k > tEquiv {
		return to
	}
	to = append(to, a)
	for _, x := range a[1:] {
		to = compounds(x.(AST), to)
	}
	return to
}

// reuse is a formula which has a subformula in common with an earlier one
func (e *solverEp) reuse() AST {
	cs := compounds(e.pool[e.Intn(len(e.pool))], nil)
	s := cs[e.Intn(len(cs))]
	switch e.Intn(6) {
	case 0:
		return s
	case 1:
		return AST{tNot, s}
	case 2:
		return AST{tOr, e.rlit(e.n), s}
	case 3:
		return AST{tEquiv, s, e.rlit(e.n)}
	case 4:
		return AST{tImpl, s, e.rlit(e.n)}
	}
	c2 := compounds(e.pool[e.Intn(len(e.pool))], nil)
	return AST{tOr, AST{tAnd, s, e.rlit(e.n)}, AST{tAnd, c2[e.Intn(len(c2))], e.rlit(e.n)}}
}

func (e *solverEp) localFormula() AST {
	o := Opts{n: e.n, depth: e.Intn(4), ops: 3, consts: e.pct(10), cc: e.pct(40), pbc: e.pct(25), impl: e.pct(70)}
	if e.pct(e.p.clauses) || e.p.white {
		kmax := 3
		if e.p.white && e.n > 1 {
			if e.pct(e.p.atmost / 4) {
				return e.rcc(e.n)
			}
			// clauses that are neither decided by propagation nor easy
			k := 3
			if e.pct(12) {
				k = 2 + 2*e.Intn(2)
			}
			ls := AST{tOr}
			for _, v := range e.rvarset(e.n, min(k, e.n)) {
				ls = append(ls, AST{tPos + e.Intn(2), v})
			}
			return ls
		}
		return e.rclauses(e.n, 1, kmax)[0]
	}
	if e.pct(20) {
		return e.rcc(e.n)
	}
	return e.rform(o)
}

func (e *solverEp) add() {
	k := 1
	if e.p.dense {
		k = e.Intn(2*e.n) + 1
	}
	if e.p.white && !e.started && e.blk == nil && e.gen == nil {
		k = 3*e.n + e.Intn(e.n)
		e.started = true
	}
	for i := 0; i < k; i++ {
		x := e.build(e.formula())
		e.ev("add", M{"f": e.dump(x)})
		e.addF(x)
	}
}

// structure adds a block of clauses and constraints in which the clauses are
// tight: literals are forced only by several of them together
func (e *solverEp) structure() {
	var fs []AST
	n := e.n
	pol := e.Intn(4) // 0: positive, 1: negative, else mixed
	lit := func(v int) AST {
		if pol == 0 || pol > 1 && e.pct(50) {
			return AST{tPos, v}
		}
		return AST{tPos + 1, v}
	}
	m := e.Intn(2*n) + 1
	for i := 0; i < m; i++ {
		k := 2
		if e.pct(30) {
			k = 3
		}
		c := AST{tOr}
		for _, v := range e.rvarset(n, k) {
			c = append(c, lit(v))
		}
		fs = append(fs, c)
	}
	for i := e.Intn(3); i >= 0; i-- {
		k := e.Intn(n-1) + 2
		b := e.Intn(k)
		if e.pct(60) {
			b = e.Intn((k+1)/2) + 1
		}
		c := []int{1, 1, 1, 2, 0, 3, 4}[e.Intn(7)]
		fs = append(fs, AST{tPbc, c, b, e.rvarset(n, k), ones(k)})
	}
	e.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, a := range fs {
		x := e.build(a)
		e.ev("add", M{"f": e.dump(x)})
		e.addF(x)
	}
}

// proposition makes a proposition of one kind or the other and remembers it
func (e *solverEp) proposition(x f.Formula, s string) f.Proposition {
	var p f.Proposition = f.NewStandardProposition(x, s)
	if e.pct(30) {
		p = f.NewExtendedProposition(x, backpack(s))
	}
	if e.objects == nil {
		e.objects = map[f.Proposition]bool{}
	}
	e.objects[p] = true
	return p
}

type backpack string

func (b backpack) String() string { return string(b) }

func (e *solverEp) addF(x f.Formula) {
	if e.props || e.pct(20) {
		e.nprops++
		e.s.AddProposition(e.proposition(x, fmt.Sprintf("P%d", e.nprops)))
	} else {
		e.s.Add(x)
	}
}

// fewVars are so few variables that all their assignments can be listed
func (e *solverEp) fewVars(min int) []int {
	if e.blk == nil {
		return e.someVars(min)
	}
	k := e.Intn(7) + 1
	if e.pct(20) {
		k = e.Intn(10) + 1
	}
	vs := e.rvarset(e.n, e.n)
	if e.pct(50) { // from few blocks
		vs = nil
		for len(vs) < k {
			vs = append(vs, e.blk[e.Intn(len(e.blk))].vars...)
		}
		seen := map[int]bool{}
		j := 0
		for _, v := range vs {
			if !seen[v] {
				seen[v] = true
				vs[j] = v
				j++
			}
		}
		vs = vs[:j]
	}
	return append([]int{}, vs[:e.min(k, len(vs))]...)
}

func (e *solverEp) min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (e *solverEp) someVars(min int) []int {
	k := e.Intn(e.n-min+1) + min
	return e.rvarset(e.n, k)
}

func (e *Ep) varsOf(is []int) []f.Variable {
	r := make([]f.Variable, len(is))
	for i, x := range is {
		r[i] = e.vars[x-1]
	}
	return r
}

func (e *Ep) litsOf(is []int) []f.Literal {
	r := make([]f.Literal, len(is))
	for i, x := range is {
		r[i] = e.mkLit(x)
	}
	return r
}

func (e *Ep) modelLits(m *model.Model) []int {
	if m == nil {
		return []int{}
	}
	return e.lits(m.Literals)
}

func (e *solverEp) call(assume bool) {
	params := sat.Params()
	fs := A{}
	if assume {
		seen := map[int]bool{}
		for i := e.Intn(4); i >= 0; i-- {
			switch e.Intn(4) {
			case 0, 1:
				l := e.rlitI(e.n)
				if seen[l] && !e.pct(15) {
					continue
				}
				seen[l] = true
				params.Literal(e.mkLit(l))
				fs = append(fs, e.dump(e.mkLit(l).AsFormula()))
			case 2:
				v := e.Intn(e.n) + 1
				if seen[v] && !e.pct(15) {
					continue
				}
				seen[v] = true
				if e.pct(50) {
					params.Variable(e.vars[v-1])
				} else {
					params.Proposition(e.proposition(e.vars[v-1].AsFormula(), "ass"))
				}
				fs = append(fs, AST{tPos, v})
			case 3:
				x := e.build(e.formula())
				fs = append(fs, e.dump(x))
				if e.pct(50) {
					params.Formula(x)
				} else {
					params.Proposition(e.proposition(x, "add"))
				}
			}
		}
	}
	var h *stopper
	if e.useHandler() {
		h = e.handler()
	}
	e.query(params, fs, h)
}

// query calls the solver with some additions
func (e *solverEp) query(params *sat.CallParams, fs A, h *stopper) {
	wantModel, wantUp, wantCore := e.pct(70), e.pct(e.p.fos*3), e.wcore
	req := e.someVars(0)
	if wantModel {
		params.WithModel(e.varsOf(req))
	}
	if wantUp {
		params.WithUPZeros()
	}
	if wantCore {
		params.WithCore()
	}
	if h != nil {
		params.Handler(h)
	}
	r := e.s.Call(params)
	if h != nil {
		e.verdict(r.State(), h)
	} else {
		e.verdict(r.State(), &stopper{})
	}
	m := M{"fs": fs, "ok": r.OK(), "canceled": h != nil && h.stopped, "sat": r.Sat(), "wantModel": wantModel, "req": req,
		"hasModel": r.Model() != nil, "model": e.modelLits(r.Model()), "hasUp": r.UpZeroLits() != nil,
		"up": e.lits(r.UpZeroLits()), "wantCore": wantCore, "hasCore": r.UnsatCore() != nil, "core": A{}}
	if r.UnsatCore() != nil {
		c, own := A{}, A{}
		for _, p := range r.UnsatCore().Propositions {
			c = append(c, e.dump(p.Formula()))
			own = append(own, e.objects[p])
		}
		m["core"], m["own"], m["mus"] = c, own, r.UnsatCore().IsGuaranteedMUS
	}
	e.ev("call", m)
}

func (e *solverEp) backbone() {
	vs := e.someVars(0)
	kind := e.Intn(3)
	var bb *sat.Backbone
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		bb, st = e.s.ComputeBackboneWithHandler(e.fac, e.varsOf(vs), h, sat.BackboneSort(kind))
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else if kind == 2 && e.pct(50) {
		bb = e.s.ComputeBackbone(e.fac, e.varsOf(vs))
	} else {
		bb = e.s.ComputeBackbone(e.fac, e.varsOf(vs), sat.BackboneSort(kind))
	}
	m := M{"vars": vs, "kind": kind, "ok": ok, "canceled": canceled}
	if ok {
		m["sat"], m["pos"], m["neg"], m["opt"] = bb.Sat, e.idxs(bb.Positive), e.idxs(bb.Negative), e.idxs(bb.Optional)
		m["all"], m["form"] = e.lits(bb.CompleteBackbone(e.fac)), e.dump(bb.ToFormula(e.fac))
	}
	e.ev("backbone", m)
}

func (e *solverEp) iterConfig(vs []int, h handler.Handler) *iter.Config {
	var st iter.Strategy
	switch e.Intn(5) {
	case 0:
		st = iter.NewNoSplitMEStrategy()
	case 1:
		k := 0
		if len(vs) > 0 {
			k = e.Intn(len(vs) + 1)
		}
		p := e.Perm(len(vs))
		sv := []f.Variable{}
		for i := 0; i < k; i++ {
			sv = append(sv, e.vars[vs[p[i]]-1])
		}
		st = iter.NewBasicStrategy(iter.NewFixedVarProvider(f.NewVarSet(sv...)), e.Intn(4)+3)
	case 2:
		st = iter.NewBasicStrategy(iter.NewLeastCommonVarProvider(0.1+0.9*e.Float64(), e.Intn(4)+1), e.Intn(4)+3)
	case 3:
		st = iter.NewBasicStrategy(iter.NewMostCommonVarProvider(0.1+0.9*e.Float64(), e.Intn(4)+1), e.Intn(4)+3)
	case 4:
		st = iter.DefaultStrategy()
	}
	return &iter.Config{Handler: h, Strategy: st}
}

func (e *solverEp) enumerate() {
	vs := e.fewVars(0)
	add := []int{}
	if e.pct(40) {
		add = e.someVars(0)
		if !e.pct(20) { // mostly disjoint
			in := map[int]bool{}
			for _, v := range vs {
				in[v] = true
			}
			a2 := []int{}
			for _, v := range add {
				if !in[v] {
					a2 = append(a2, v)
				}
			}
			add = a2
		}
	}
	var ms []*model.Model
	ok, canceled := true, false
	if !e.useHandler() && e.pct(40) {
		ms = enum.OnSolver(e.s, e.varsOf(vs), e.varsOf(add)...)
	} else {
		h := &stopper{}
		if e.p.cancel > 0 {
			h = e.handler()
		}
		var st handler.State
		var hd handler.Handler = h
		var lim *iter.LimitHandler
		if e.p.cancel > 0 && e.pct(15) {
			lim = iter.HandlerWithLimit(e.Intn(4) + 1)
			hd = lim
		}
		ms, st = enum.OnSolverWithConfig(e.s, e.varsOf(vs), e.iterConfig(vs, hd), e.varsOf(add)...)
		ok, canceled = st.Success, h.stopped || lim != nil
		if lim == nil {
			e.verdict(st, h)
		}
	}
	r := A{}
	for _, m := range ms {
		r = append(r, e.modelLits(m))
	}
	e.ev("enum", M{"vars": vs, "add": add, "ok": ok, "canceled": canceled, "models": r})
}

func bigInt(b *big.Int) int {
	if b == nil {
		return -1
	}
	if !b.IsInt64() || b.Int64() > 1<<30 {
		return -2
	}
	return int(b.Int64())
}

func (e *solverEp) countModels() {
	vs := e.fewVars(0)
	var c *big.Int
	ok, canceled := true, false
	if !e.useHandler() && e.pct(40) {
		c = count.OnSolver(e.s, e.varsOf(vs))
	} else {
		h := &stopper{}
		if e.p.cancel > 0 {
			h = e.handler()
		}
		var st handler.State
		c, st = count.OnSolverWithConfig(e.s, e.varsOf(vs), e.iterConfig(vs, h))
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	}
	e.ev("count", M{"vars": vs, "ok": ok, "canceled": canceled, "cnt": bigInt(c)})
}

func (e *solverEp) enumBdd() {
	vs := e.someVars(1)
	var b *bdd.BDD
	ok, canceled := true, false
	if !e.useHandler() && e.pct(40) {
		b = enum.ToBddOnSolver(e.s, e.varsOf(vs))
	} else {
		h := &stopper{}
		if e.p.cancel > 0 {
			h = e.handler()
		}
		var st handler.State
		b, st = enum.ToBddOnSolverWithConfig(e.s, e.varsOf(vs), e.iterConfig(vs, h))
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	}
	m := M{"vars": vs, "ok": ok, "canceled": canceled}
	if ok {
		m["f"] = e.dump(b.CNF())
	}
	e.ev("enumbdd", m)
}

func (e *solverEp) optimize() {
	k := e.Intn(5) + 1
	if e.pct(5) {
		k = 0
	}
	ls := []int{}
	if e.pct(75) {
		for _, v := range e.someVars(0) {
			if e.pct(50) {
				v = -v
			}
			ls = append(ls, v)
		}
	} else {
		for i := 0; i < k; i++ {
			ls = append(ls, e.rlitI(e.n))
		}
	}
	add := []int{}
	if e.pct(40) {
		add = e.someVars(0)
	}
	max := e.pct(50)
	var m *model.Model
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		h.log = func(ev event.Event) {
			if fb, is := ev.(sat.EventFoundBetterBound); is {
				e.ev("better", M{"lits": ls, "add": add, "model": e.modelLits(fb.Model())})
			}
		}
		var st handler.State
		if max {
			m, st = e.s.MaximizeWithHandler(e.litsOf(ls), h, e.varsOf(add)...)
		} else {
			m, st = e.s.MinimizeWithHandler(e.litsOf(ls), h, e.varsOf(add)...)
		}
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else if max {
		m = e.s.Maximize(e.litsOf(ls), e.varsOf(add)...)
	} else {
		m = e.s.Minimize(e.litsOf(ls), e.varsOf(add)...)
	}
	e.ev("opt", M{"max": max, "lits": ls, "add": add, "ok": ok, "canceled": canceled, "sat": m != nil, "model": e.modelLits(m)})
}

func (e *solverEp) save() {
	e.saved = append(e.saved, e.s.SaveState())
	e.valid = append(e.valid, true)
	e.ev("save", nil)
}

func (e *solverEp) load() {
	if len(e.saved) == 0 {
		e.save()
		return
	}
	i := e.Intn(len(e.saved))
	if e.pct(60) {
		for i = len(e.saved) - 1; i > 0 && !e.valid[i]; i-- {
		}
	}
	e.loadState(i)
}

func (e *solverEp) loadState(i int) {
	err := e.s.LoadState(e.saved[i])
	e.ev("load", M{"i": i + 1, "err": err != nil})
	if err == nil {
		for j := i + 1; j < len(e.saved); j++ {
			e.valid[j] = false
		}
		k := 0
		for _, x := range e.incs {
			if x.at <= i {
				e.incs[k] = x
				k++
			}
		}
		e.incs = e.incs[:k]
	}
}

func (e *solverEp) incremental() {
	if len(e.incs) > 0 && e.pct(60) {
		x := &e.incs[e.Intn(len(e.incs))]
		if x.kind == 1 {
			if x.b <= 0 {
				return
			}
			x.b = e.Intn(x.b)
			e.ev("constrain", M{"f": AST{tPbc, 1, x.b, x.vars, ones(len(x.vars))}})
			x.data.NewUpperBoundForSolver(x.b)
		} else {
			if x.b >= len(x.vars) {
				return
			}
			x.b += e.Intn(len(x.vars)-x.b) + 1
			e.ev("constrain", M{"f": AST{tPbc, 3, x.b, x.vars, ones(len(x.vars))}})
			x.data.NewLowerBoundForSolver(x.b)
		}
		return
	}
	pool := e.rvarset(e.n, e.n)
	sym := false
	if e.blk != nil {
		b := e.blk[e.Intn(len(e.blk))]
		pool, sym = append([]int{}, b.vars...), b.sym
		e.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	}
	if len(pool) < 3 {
		return
	}
	k := e.Intn(len(pool)-2) + 3
	if sym {
		k = len(pool)
	}
	vs := pool[:k:k]
	kind := []int{1, 3}[e.Intn(2)]
	b := e.Intn(k-2) + 2
	if kind == 1 {
		b = e.Intn(k-1) + 1
	}
	cc := e.fac.CC(csorts[kind], uint32(b), e.varsOf(vs)...)
	if cc.Sort() != f.SortCC {
		return
	}
	e.ev("constrain", M{"f": AST{tPbc, kind, b, vs, ones(k)}})
	data, err := e.s.AddIncrementalCC(cc)
	if err != nil {
		e.ev("panic", M{"msg": err.Error()})
		return
	}
	if data != nil {
		e.incs = append(e.incs, inccc{data, kind, vs, b, len(e.saved)})
	}
}

func (e *solverEp) step() {
	p := e.p
	ws := []int{p.add, p.call, p.assume, p.save, p.bb, p.enum, p.count, p.opt, p.fos, p.occ, p.inc, p.bdd}
	t := 0
	for _, w := range ws {
		t += w
	}
	x := e.Intn(t)
	i := 0
	for x >= ws[i] {
		x -= ws[i]
		i++
	}
	switch i {
	case 0:
		e.add()
	case 1:
		e.call(false)
	case 2:
		e.call(true)
	case 3:
		if e.pct(50) {
			e.save()
		} else {
			e.load()
		}
	case 4:
		e.backbone()
	case 5:
		e.enumerate()
	case 6:
		e.countModels()
	case 7:
		e.optimize()
	case 8:
		fs := e.s.FormulasOnSolver()
		e.ev("formulas", M{"fs": e.dumps(fs)})
	case 9:
		var vs *f.VarSet
		req := []int{}
		if e.pct(40) {
			req = e.someVars(1)
			vs = f.NewVarSet(e.varsOf(req)...)
		}
		occ := e.s.VarOccurrences(vs)
		ks, cs := []int{}, []int{}
		for v, c := range occ {
			if i, ok := e.names[v]; ok {
				ks = append(ks, i)
				cs = append(cs, c)
			}
		}
		e.ev("occs", M{"vars": ks, "cnt": cs, "some": vs != nil, "req": req, "fs": e.dumps(e.s.FormulasOnSolver())})
	case 10:
		e.incremental()
	case 11:
		e.enumBdd()
	}
	if e.p.white {
		e.learned()
	}
}

func (e *solverEp) learned() {
	cs := e.whiteLearned(e.s)
	if len(cs) == 0 {
		return
	}
	if len(cs) > 60 {
		cs = cs[len(cs)-60:]
	}
	e.ev("learned", M{"cs": cs})
}

func (e *Ep) satConfig(atmost int) *sat.Config {
	cfg := sat.DefaultConfig().CNF(sat.CNFMethod(e.Intn(3))).ClauseMin(sat.ClauseMinimization(e.Intn(3))).
		InitPhase(e.pct(50)).UseAtMost(e.pct(atmost))
	cfg.LowLevelConfig = e.llConfig()
	return cfg
}

func newSolverEp(e *Ep, p profile) *solverEp {
	n := p.nmin + e.Intn(p.nmax-p.nmin+1)
	structured := (p.white || !p.dense) && e.pct(35)
	if structured {
		n = e.Intn(5) + 4
		p.atmost *= 2
	}
	e.dups = e.pct(25)
	e.fresh(n)
	if e.pct(60) {
		_ = e.fac.PutConfiguration(e.encConfig())
	}
	cfg := e.satConfig(p.atmost).Proofs(e.pct(p.proofs))
	s := &solverEp{Ep: e, p: p}
	if e.pct(15) { // the configuration of the factory
		_ = e.fac.PutConfiguration(cfg)
		s.s = sat.NewSolver(e.fac)
	} else {
		s.s = sat.NewSolver(e.fac, cfg)
	}
	s.props = cfg.ProofGeneration && p.proofs > 50
	s.wcore = s.props
	e.begin(M{"cfg": M{"cnf": int(cfg.CNFMethod), "min": int(cfg.ClauseMinimization), "phase": cfg.InitialPhase,
		"proof": cfg.ProofGeneration, "amo": cfg.UseAtMostClauses}})
	if structured {
		e.try("structure", s.structure)
	}
	return s
}

func solverDriver(p profile) driver {
	return func(e *Ep) {
		s := newSolverEp(e, p)
		steps := e.Intn(p.steps) + 2
		if p.white {
			e.try("solver", s.add)
		}
		for i := 0; i < steps; i++ {
			if !e.try("solver", s.step) {
				return
			}
		}
		// final probes: the content must be what the model says
		s.p.cancel = 0
		e.try("probe", func() {
			s.call(false)
			s.call(true)
			if p.enum+p.count+p.opt+p.cancel > 0 {
				s.enumerate()
			}
		})
	}
}

// historyDriver replays a history made by the specification
func historyDriver(kind string, proofs int) driver {
	return func(e *Ep) {
		p := profile{nmin: 3, nmax: 3, atmost: 30, proofs: proofs}
		if sub(e.spec, "kind").(string) != kind {
			return
		}
		s := newSolverEp(e, p)
		for _, st := range sub(e.spec, "hist").([]any) {
			x := num(st, "x")
			fs := A{}
			for _, f := range sub(st, "fs").([]any) {
				fs = append(fs, astOf(f))
			}
			ok := e.try("solver", func() {
				switch op := sub(st, "op").(string); op {
				case "add":
					x := e.build(fs[0].(AST))
					e.ev("add", M{"f": e.dump(x)})
					s.addF(x)
				case "call", "cancel":
					params := sat.Params()
					xs := A{}
					for _, a := range fs {
						x := e.build(a.(AST))
						xs = append(xs, e.dump(x))
						if l, err := x.AsLiteral(); err == nil && e.pct(70) {
							params.Literal(l)
						} else if e.pct(50) {
							params.Formula(x)
						} else {
							params.Proposition(f.NewStandardProposition(x, "p"))
						}
					}
					var h *stopper
					if op == "cancel" {
						h = &stopper{k: e.Intn(3) + 1, once: e.pct(50)}
					}
					s.query(params, xs, h)
				case "save":
					s.save()
				case "load":
					s.loadState(x - 1)
				case "enum":
					s.enumerate()
				case "opt":
					s.optimize()
				case "bb":
					s.backbone()
				}
			})
			if !ok {
				return
			}
		}
		e.try("probe", func() {
			s.call(false)
			s.call(true)
			s.enumerate()
			s.backbone()
		})
	}
}

func init() {
	drivers["hist_state"], drivers["hist_leak"], drivers["hist_core"] = historyDriver("state", 15), historyDriver("leak", 15), historyDriver("state", 100)
	base := profile{nmin: 2, nmax: 6, steps: 10, add: 8, call: 4, assume: 3, save: 2, bb: 1, enum: 1, count: 1, opt: 1, atmost: 25, proofs: 15, clauses: 40, fos: 0, reuse: 15}
	mk := func(name string, fn func(p *profile)) {
		p := base
		fn(&p)
		drivers[name] = solverDriver(p)
	}
	mk("solver", func(p *profile) { p.steps = 12; p.inc = 1 })
	mk("solver_dense", func(p *profile) {
		*p = profile{nmin: 6, nmax: 9, steps: 6, add: 4, call: 5, assume: 5, atmost: 25, proofs: 15, clauses: 85, dense: true, save: 1}
	})
	mk("solver_assume", func(p *profile) {
		p.reuse = 35
		p.assume = 14
		p.add = 6
		p.save = 0
		p.bb, p.enum, p.count, p.opt = 0, 0, 0, 0
	})
	mk("solver_state", func(p *profile) {
		p.save = 14
		p.add = 8
		p.steps = 18
		p.inc = 2
		p.fos = 1
		p.reuse = 45
		p.clauses = 25
	})
	mk("solver_core", func(p *profile) {
		*p = profile{nmin: 2, nmax: 5, steps: 12, add: 6, call: 3, assume: 5, save: 3, proofs: 100, clauses: 50, atmost: 0, opt: 0}
	})
	mk("solver_intro", func(p *profile) { p.fos = 5; p.occ = 4; p.save = 4; p.bb, p.enum, p.count, p.opt = 0, 0, 0, 0 })
	mk("solver_backbone", func(p *profile) { p.bb = 10; p.enum, p.count, p.opt = 0, 0, 0 })
	mk("solver_enum", func(p *profile) { p.enum = 10; p.count = 5; p.bdd = 4; p.bb, p.opt = 0, 0; p.nmin = 3 })
	mk("solver_opt", func(p *profile) { p.opt = 12; p.enum, p.count, p.bb = 0, 0, 0 })
	mk("solver_inc", func(p *profile) { p.inc = 12; p.call, p.assume, p.enum = 5, 5, 2; p.nmin = 3; p.bb, p.count = 0, 0 })
	mk("solver_cancel", func(p *profile) {
		p.cancel = 70
		p.bb, p.enum, p.count, p.opt, p.bdd = 5, 5, 3, 6, 2
		p.steps = 12
	})
	mk("solver_handler", func(p *profile) {
		p.counting = 100
		p.bb, p.enum, p.count, p.opt, p.bdd = 4, 4, 3, 5, 2
	})
	mk("solver_white", func(p *profile) {
		*p = profile{nmin: 7, nmax: 11, steps: 10, add: 3, call: 5, assume: 10, save: 2, atmost: 0, proofs: 20, clauses: 100, dense: true, white: true}
	})
	mk("solver_white_am", func(p *profile) {
		*p = profile{nmin: 7, nmax: 11, steps: 10, add: 3, call: 5, assume: 10, save: 2, bb: 1, enum: 1, atmost: 50, proofs: 0, clauses: 100, dense: true, white: true}
	})
}
