package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

// replay of the constraints and tightening histories generated by TLC
// (GenEncoding, GenIncremental, GenPbc) on the real encoders.

func num(v any, key string) int {
	x, _ := v.(map[string]any)[key].(float64)
	return int(x)
}

func flag2(v any, key string) bool {
	x, _ := v.(map[string]any)[key].(bool)
	return x
}

func sub(v any, key string) any { return v.(map[string]any)[key] }

func ints(v any) []int {
	a, _ := v.([]any)
	r := make([]int, len(a))
	for i := range a {
		r[i] = int(a[i].(float64))
	}
	return r
}

func encFromSpec(v any) *encoding.Config {
	c := encoding.DefaultConfig()
	c.AMOEncoder = encoding.AMOEncoder(num(v, "amo"))
	c.AMKEncoder = encoding.AMKEncoder(num(v, "amk"))
	c.ALKEncoder = encoding.ALKEncoder(num(v, "alk"))
	c.EXKEncoder = encoding.EXKEncoder(num(v, "exk"))
	c.BimanderGroupSize = encoding.BimanderGroupSize(num(v, "bim"))
	c.BimanderFixedGroupSize = num(v, "bfix")
	c.NestingGroupSize = num(v, "nest")
	c.ProductRecursiveBound = num(v, "prod")
	c.CommanderGroupSize = num(v, "comm")
	return c
}

func pbcFromSpec(v any) *encoding.Config {
	c := encoding.DefaultConfig()
	c.PBCEncoder = encoding.PBCEncoder(num(v, "pbc"))
	c.BinaryMergeUseGAC = flag2(v, "gac")
	c.BinaryMergeNoSupportForSingleBit = flag2(v, "single")
	c.BinaryMergeUseWatchDog = flag2(v, "dog")
	return c
}

func upto(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i + 1
	}
	return r
}

// enter makes a factory, sometimes one that has been used for encodings before
func (e *Ep) enter(n int) {
	e.fac = f.NewFactory(e.pct(20))
	if e.pct(50) {
		// the order of the operands is not the order of creation
		for _, i := range e.Perm(n) {
			e.fac.Var(vname(i + 1))
		}
	}
	e.bind(n)
	if e.pct(20) {
		_, _ = encoding.EncodeCC(e.fac, e.fac.CC(f.LE, 2, e.vars...), e.encConfig())
	}
	if n > 10 {
		e.begin(M{"n": 0})
		return
	}
	e.begin(nil)
}

func (e *Ep) cardinality(cmp, rhs int, vs []int) f.Formula {
	return e.fac.CC(csorts[cmp], uint32(rhs), e.varsOf(vs)...)
}

// encodeGen encodes one constraint to a formula.
func encodeGen(e *Ep) {
	n, cmp, rhs := num(e.spec, "n"), num(e.spec, "cmp"), num(e.spec, "rhs")
	e.enter(n)
	cfg := encFromSpec(sub(e.spec, "enc"))
	cc := e.cardinality(cmp, rhs, upto(n))
	want := AST{tPbc, cmp, rhs, upto(n), ones(n)}
	if cc.Sort() != f.SortCC {
		// folded by the factory: the constructor is checked elsewhere
		e.ev("encode", M{"f": want, "cs": A{e.dump(cc)}, "folded": true})
		return
	}
	e.try("EncodeCC", func() {
		var cs []f.Formula
		var err error
		switch e.Intn(3) {
		case 0:
			cs, err = encoding.EncodeCC(e.fac, cc, cfg)
		case 1:
			res := encoding.ResultForFormula(e.fac)
			err = encoding.EncodeCCInResult(e.fac, cc, res, cfg)
			cs = res.Formulas()
		case 2:
			e.fac.PutConfiguration(cfg)
			cs, err = encoding.EncodeCC(e.fac, cc)
		}
		if err != nil {
			panic(err)
		}
		if flag2(e.spec, "wide") {
			k := rhs
			starts := []int{0}
			for i := 0; i < 3; i++ {
				starts = append(starts, e.Intn(n))
			}
			e.ev("wide", M{"f": want, "cs": e.dumps(cs), "m": n, "ks": []int{0, 1, max(0, k-1), k, min(n, k+1), n},
				"starts": starts, "pairs": k == 1})
			return
		}
		e.ev("encode", M{"f": want, "cs": e.dumps(cs), "cfg": fmt.Sprintf("%+v", *cfg)})
	})
}

// models asks the solver about every assignment of the variables
func (e *Ep) models(s *sat.Solver) {
	r := []int{}
	for a := 0; a < 1<<e.n; a++ {
		ls := make([]f.Literal, e.n)
		for i := range ls {
			ls[i] = e.mkLit((i + 1) * (2*(a>>i&1) - 1))
		}
		if s.Call(sat.WithAssumptions(ls)).Sat() {
			r = append(r, a)
		}
	}
	e.ev("models", M{"set": r})
}

func (e *Ep) encSolver(cfg *encoding.Config) *sat.Solver {
	e.fac.PutConfiguration(cfg)
	sc := sat.DefaultConfig().UseAtMost(false)
	if e.pct(30) {
		sc = sc.Proofs(true)
	}
	return sat.NewSolver(e.fac, sc)
}

// encodeSolverGen encodes one constraint on a solver.
func encodeSolverGen(e *Ep) {
	n, cmp, rhs := num(e.spec, "n"), num(e.spec, "cmp"), num(e.spec, "rhs")
	if n > 7 {
		return
	}
	e.enter(n)
	cfg := encFromSpec(sub(e.spec, "enc"))
	s := e.encSolver(cfg)
	e.ev("add", M{"f": AST{tPbc, cmp, rhs, upto(n), ones(n)}})
	e.try("Add", func() {
		s.Add(e.cardinality(cmp, rhs, upto(n)))
		e.models(s)
	})
}

// incrementalGen replays a history of tightenings on a formula result.
func incrementalGen(e *Ep) {
	n, kind, enc, hist := num(e.spec, "n"), num(e.spec, "kind"), num(e.spec, "enc"), ints(sub(e.spec, "hist"))
	e.enter(n)
	cfg := encoding.DefaultConfig()
	cfg.AMKEncoder, cfg.ALKEncoder = encoding.AMKEncoder(enc), encoding.ALKEncoder(enc)
	cc := e.cardinality(kind, hist[0], upto(n))
	if cc.Sort() != f.SortCC {
		return
	}
	e.try("EncodeIncremental", func() {
		res := encoding.ResultForFormula(e.fac)
		data, err := encoding.EncodeIncremental(e.fac, cc, res, cfg)
		seen := len(res.Formulas())
		e.ev("start", M{"kind": kind, "b": hist[0], "lits": upto(n), "cs": e.dumps(res.Formulas()), "ok": err == nil})
		if err != nil {
			return
		}
		for _, b := range hist[1:] {
			if e.pct(15) {
				e.refused(data, kind, hist[0])
			}
			var all []f.Formula
			if kind == 1 {
				all = data.NewUpperBound(b)
			} else {
				all = data.NewLowerBound(b)
			}
			e.ev("tighten", M{"b": b, "cs": e.dumps(all[seen:])})
			seen = len(all)
		}
	})
}

// refused gives a bound that does not tighten
func (e *Ep) refused(data *encoding.CCIncrementalData, kind, b int) {
	defer func() {
		if recover() != nil {
			e.ev("refused", M{"b": b})
		}
	}()
	if kind == 1 {
		data.NewUpperBound(b)
	} else {
		data.NewLowerBound(b)
	}
	e.ev("accepted", M{"b": b})
}

// incrementalSolverGen replays a history of tightenings on a solver.
func incrementalSolverGen(e *Ep) {
	n, kind, enc, hist := num(e.spec, "n"), num(e.spec, "kind"), num(e.spec, "enc"), ints(sub(e.spec, "hist"))
	if n > 6 {
		return
	}
	e.enter(n)
	cfg := encoding.DefaultConfig()
	cfg.AMKEncoder, cfg.ALKEncoder = encoding.AMKEncoder(enc), encoding.ALKEncoder(enc)
	cc := e.cardinality(kind, hist[0], upto(n))
	if cc.Sort() != f.SortCC {
		return
	}
	s := e.encSolver(cfg)
	if e.pct(60) {
		x := e.rform(Opts{n: n, depth: 2, ops: 3})
		e.ev("add", M{"f": x})
		s.Add(e.build(x))
	}
	e.try("AddIncrementalCC", func() {
		bound := func(b int) { e.ev("constrain", M{"f": AST{tPbc, kind, b, upto(n), ones(n)}}) }
		bound(hist[0])
		data, err := s.AddIncrementalCC(cc)
		e.models(s)
		if err != nil || data == nil {
			return
		}
		for _, b := range hist[1:] {
			bound(b)
			if kind == 1 {
				data.NewUpperBoundForSolver(b)
			} else {
				data.NewLowerBoundForSolver(b)
			}
			e.models(s)
		}
	})
}

// pbcGen encodes a pseudo-Boolean constraint, to a formula or on a solver.
func pbcGen(e *Ep) {
	con := sub(e.spec, "con")
	cs, cmp, rhs := ints(sub(con, "cs")), num(con, "cmp"), num(con, "rhs")
	n := len(cs)
	e.enter(n)
	cfg := pbcFromSpec(sub(e.spec, "enc"))
	lits := upto(n)
	for i := range lits {
		if e.pct(30) {
			lits[i] = -lits[i]
		}
	}
	ast := AST{tPbc, cmp, rhs, lits, cs}
	p := e.build(ast)
	if p.Sort() != f.SortPBC && p.Sort() != f.SortCC {
		e.ev("encode", M{"f": ast, "cs": A{e.dump(p)}, "folded": true})
		return
	}
	e.try("EncodePBC", func() {
		var r []f.Formula
		var err error
		if e.pct(50) {
			r, err = encoding.EncodePBC(e.fac, p, cfg)
		} else {
			res := encoding.ResultForFormula(e.fac)
			err = encoding.EncodePBCInResult(e.fac, p, res, cfg)
			r = res.Formulas()
		}
		if err != nil {
			panic(err)
		}
		e.ev("encode", M{"f": ast, "cs": e.dumps(r), "cfg": fmt.Sprintf("%+v", *cfg)})
	})
}

func pbcSolverGen(e *Ep) {
	con := sub(e.spec, "con")
	cs, cmp, rhs := ints(sub(con, "cs")), num(con, "cmp"), num(con, "rhs")
	e.enter(len(cs))
	s := e.encSolver(pbcFromSpec(sub(e.spec, "enc")))
	lits := upto(len(cs))
	for i := range lits {
		if e.pct(30) {
			lits[i] = -lits[i]
		}
	}
	ast := AST{tPbc, cmp, rhs, lits, cs}
	e.ev("add", M{"f": ast})
	e.try("Add", func() {
		s.Add(e.build(ast))
		e.models(s)
	})
}

// encodeMulti puts several constraints into one result: their auxiliary
// variables must not interfere.
func encodeMulti(e *Ep) {
	n := e.Intn(5) + 2
	e.dups = e.pct(30)
	e.enter(n)
	res := encoding.ResultForFormula(e.fac)
	one := e.pct(60)
	var incs []*encoding.CCIncrementalData
	_ = incs
	for i := e.Intn(3) + 1; i >= 0; i-- {
		ast := e.rcc(n)
		if e.pct(40) {
			ast = e.rpbc(n)
		}
		x := e.build(ast)
		if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
			continue
		}
		e.try("Encode", func() {
			if !one {
				res = encoding.ResultForFormula(e.fac)
			}
			seen := len(res.Formulas())
			var err error
			if x.Sort() == f.SortCC && e.pct(80) {
				err = encoding.EncodeCCInResult(e.fac, x, res, e.encConfig())
			} else {
				err = encoding.EncodePBCInResult(e.fac, x, res, e.encConfig())
			}
			if err != nil {
				panic(err)
			}
			e.ev("encode", M{"f": ast, "cs": e.dumps(res.Formulas()[seen:])})
		})
	}
}

// chosen gives k of the variables 1..n
func (e *Ep) chosen(n, k int) []int {
	r := []int{}
	for _, i := range e.Perm(n)[:max(0, min(n, k))] {
		r = append(r, i+1)
	}
	return r
}

// around gives assignments with numbers of true variables around the bounds
func (e *Ep) around(n int, bounds ...int) A {
	r := A{}
	for _, b := range bounds {
		for d := -1; d <= 1; d++ {
			if b+d >= 0 && b+d <= n {
				r = append(r, e.chosen(n, b+d))
			}
		}
	}
	return append(r, e.chosen(n, e.Intn(n+1)))
}

// incrementalWide tightens a constraint over many variables.
func incrementalWide(e *Ep) {
	n := e.Intn(14) + 8
	if e.tier != "quick" || e.pct(20) {
		n = e.Intn(32) + 8
	}
	e.enter(n)
	kind := 1 + 2*e.Intn(2)
	cfg := encoding.DefaultConfig()
	cfg.AMKEncoder, cfg.ALKEncoder = encoding.AMKEncoder(e.Intn(4)), encoding.ALKEncoder(e.Intn(4))
	b := e.Intn(n-1) + 1
	if e.pct(50) {
		// a loose constraint, so that there is much to tighten
		b = 1 + e.Intn(3)
		if kind == 1 {
			b = n - b
		}
	}
	small := e.pct(60)
	lits := upto(n)
	cc := e.cardinality(kind, b, lits)
	if cc.Sort() != f.SortCC {
		return
	}
	e.try("EncodeIncremental", func() {
		res := encoding.ResultForFormula(e.fac)
		data, err := encoding.EncodeIncremental(e.fac, cc, res, cfg)
		seen := len(res.Formulas())
		e.ev("wstart", M{"kind": kind, "b": b, "lits": lits, "cs": e.dumps(res.Formulas()), "m": n, "pts": e.around(n, b)})
		if err != nil {
			return
		}
		for i := e.Intn(4) + 1; i > 0; i-- {
			old := b
			if kind == 1 {
				if b == 0 {
					return
				}
				d := b
				if small {
					d = min(b, 6)
				}
				b = b - 1 - e.Intn(d)
			} else {
				if b == n {
					return
				}
				d := n - b
				if small {
					d = min(d, 6)
				}
				b += e.Intn(d) + 1
			}
			var all []f.Formula
			if kind == 1 {
				all = data.NewUpperBound(b)
			} else {
				all = data.NewLowerBound(b)
			}
			e.ev("wtighten", M{"b": b, "cs": e.dumps(all[seen:]), "m": n, "pts": e.around(n, b, old)})
			seen = len(all)
		}
	})
}

// ccWide encodes constraints over many variables, several with one factory.
func ccWide(e *Ep) {
	n := e.Intn(14) + 8
	if e.pct(25) {
		n = e.Intn(32) + 8
	}
	e.enter(n)
	for round := e.Intn(2) + 1; round > 0; round-- {
		vs := e.chosen(n, min(n, e.Intn(n-3)+4))
		k := len(vs)
		cmp, rhs := e.Intn(5), e.Intn(k+2)
		if e.pct(25) {
			cmp, rhs = e.Intn(2), 1
		} else if e.pct(30) {
			rhs = []int{1, 2, 3, k - 1, k - 2, k - 3}[e.Intn(6)]
		}
		cfg := e.encConfig()
		want := AST{tPbc, cmp, rhs, vs, ones(k)}
		e.try("EncodeCC", func() {
			cc := e.cardinality(cmp, rhs, vs)
			r := []f.Formula{cc}
			if cc.Sort() == f.SortCC {
				var err error
				if r, err = encoding.EncodeCC(e.fac, cc, cfg); err != nil {
					panic(err)
				}
			} else if cc.Sort() > f.SortLiteral {
				return
			}
			pts := A{}
			for d := -2; d <= 2; d++ {
				if rhs+d >= 0 && rhs+d <= k {
					t := []int{}
					for _, i := range e.Perm(k)[:rhs+d] {
						t = append(t, vs[i])
					}
					in := map[int]bool{}
					for _, v := range vs {
						in[v] = true
					}
					for v := 1; v <= n; v++ {
						if !in[v] && e.pct(50) {
							t = append(t, v)
						}
					}
					pts = append(pts, t)
				}
			}
			e.ev("points", M{"f": want, "cs": e.dumps(r), "m": n, "pts": pts, "cfg": fmt.Sprintf("%+v", *cfg)})
		})
	}
}

// pbcWide encodes a pseudo-Boolean constraint with many literals or large
// coefficients.
func pbcWide(e *Ep) {
	n := e.Intn(9) + 4
	e.enter(n)
	lits := e.chosen(n, n)
	cs := make([]int, n)
	limit := []int{3, 8, 20, 100, 700}[e.Intn(5)]
	lo, hi := 0, 0
	for i := range lits {
		if e.pct(25) {
			lits[i] = -lits[i]
		}
		cs[i] = e.Intn(limit) + 1
		if e.pct(15) {
			cs[i] = 1 << e.Intn(8)
		}
		if e.pct(15) {
			cs[i] = -cs[i]
			lo += cs[i]
		} else {
			hi += cs[i]
		}
	}
	value := func(t []int) int {
		in := map[int]bool{}
		for _, v := range t {
			in[v] = true
		}
		s := 0
		for i, l := range lits {
			if l > 0 && in[l] || l < 0 && !in[-l] {
				s += cs[i]
			}
		}
		return s
	}
	cmp := e.Intn(5)
	rhs := lo + e.Intn(hi-lo+1)
	base := e.chosen(n, e.Intn(n+1))
	if e.pct(60) {
		rhs = value(base) + e.Intn(3) - 1
	}
	// assignments with values close to the right-hand side
	pts := A{base}
	abs := func(x int) int { return max(x, -x) }
	for len(pts) < 9 {
		best := e.chosen(n, e.Intn(n+1))
		for k := e.Intn(30); k > 0; k-- {
			t := e.chosen(n, e.Intn(n+1))
			if abs(value(t)-rhs) < abs(value(best)-rhs) {
				best = t
			}
		}
		pts = append(pts, best)
	}
	cfg := encoding.DefaultConfig()
	cfg.PBCEncoder = encoding.PBCEncoder(e.Intn(3))
	cfg.BinaryMergeUseGAC = e.pct(50)
	cfg.BinaryMergeNoSupportForSingleBit = e.pct(50)
	cfg.BinaryMergeUseWatchDog = e.pct(50)
	if limit > 20 && cfg.PBCEncoder == 0 {
		cfg.PBCEncoder = 1 + encoding.PBCEncoder(e.Intn(2)) // as many variables as the bound
	}
	ast := AST{tPbc, cmp, rhs, lits, cs}
	x := e.build(ast)
	e.try("EncodePBC", func() {
		r := []f.Formula{x}
		if x.Sort() == f.SortPBC || x.Sort() == f.SortCC {
			var err error
			r, err = encoding.EncodePBC(e.fac, x, cfg)
			if err != nil {
				panic(err)
			}
		}
		e.ev("points", M{"f": ast, "cs": e.dumps(r), "m": n, "pts": pts, "cfg": fmt.Sprintf("%+v", *cfg)})
	})
}

func init() {
	drivers["cc_wide"] = ccWide
	drivers["inc_wide"] = incrementalWide
	drivers["pbc_wide"] = pbcWide
	drivers["enc_gen"] = encodeGen
	drivers["enc_solver_gen"] = encodeSolverGen
	drivers["inc_gen"] = incrementalGen
	drivers["inc_solver_gen"] = incrementalSolverGen
	drivers["pbc_gen"] = pbcGen
	drivers["pbc_solver_gen"] = pbcSolverGen
	drivers["enc_multi"] = encodeMulti
}
