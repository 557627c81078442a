package main

import (
	"fmt"
	"slices"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/np"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"

	"math/big"
)

var _ = event.SatCallStarted

// formulaEp works on the formulas of one factory.  pool holds the formulas
// made so far; every event names the handles of the formulas it touched.
type formulaEp struct {
	*Ep
	negRoot  int
	pool     []f.Formula
	all      []f.Formula // every formula ever seen, to look at again
	known    map[f.Formula]bool
	hs       A
	cancel   int
	o        Opts
	max      int // maximal number of nodes in the pool
	tst      *normalform.CNFAuxState
	pgst     *normalform.CNFAuxState
	accPG    bool
	anon     *transformation.Anonymizer
	anonPf   string
	defs     int
	conserve bool
	wide     bool      // more variables than can be enumerated: events carry sample points
	fixed    f.Formula // the only input, if given
	isFixed  bool
	toobig   bool // the event under construction is too large to be checked
}

// t dumps a formula and remembers its handle for the event.
func (e *formulaEp) t(x f.Formula) AST {
	if e.toobig || f.NumberOfNodes(e.fac, x) > 900 {
		e.toobig = true
		return AST{tTrue}
	}
	a := e.dump(x)
	e.hs = append(e.hs, A{int(x), a})
	if !e.known[x] {
		e.known[x] = true
		e.all = append(e.all, x)
	}
	return a
}

func (e *formulaEp) ts(xs []f.Formula) A {
	r := A{}
	for _, x := range xs {
		r = append(r, e.t(x))
	}
	return r
}

func (e *formulaEp) emit(op string, m M) {
	if e.toobig {
		e.toobig = false
		e.hs = nil
		if op == "defacc" {
			e.defs = 99
		}
		return
	}
	m["hs"] = e.hs
	if e.hs == nil {
		m["hs"] = A{}
	}
	if e.wide {
		if op == "nfaux" || op == "primes" {
			e.hs = nil
			return
		}
		var trees []AST
		for _, k := range []string{"f", "g", "tree", "raw"} {
			if a, ok := m[k].(AST); ok {
				trees = append(trees, a)
			}
		}
		m["pts"] = e.points(e.n, 9, trees...)
	}
	e.ev(op, m)
	e.hs = nil
}

func (e *formulaEp) keep(x f.Formula) {
	if f.NumberOfNodes(e.fac, x) <= e.max && e.inVars(x) {
		e.pool = append(e.pool, x)
	}
}

func (e *formulaEp) pick() f.Formula {
	if e.isFixed {
		return e.fixed
	}
	if len(e.pool) > 8 && e.pct(60) {
		return e.pool[len(e.pool)-1-e.Intn(8)]
	}
	return e.pool[e.Intn(len(e.pool))]
}

// big picks a formula of interest: the largest of a few.
func (e *formulaEp) bigger() f.Formula {
	x := e.pick()
	for i := 0; i < 2; i++ {
		y := e.pick()
		if f.NumberOfNodes(e.fac, y) > f.NumberOfNodes(e.fac, x) {
			x = y
		}
	}
	return x
}

// handler returns nil or a handler.
func (e *formulaEp) handler() *stopper {
	if e.pct(e.cancel) {
		return &stopper{k: e.Intn(12) + 1, once: e.pct(50)}
	}
	return &stopper{}
}

func (e *formulaEp) useHandler() bool { return e.cancel > 0 && e.pct(80) || e.pct(25) }

// ---- constructors -----------------------------------------------------------

func (e *formulaEp) key(xs ...any) A { return append(A{}, xs...) }

func (e *formulaEp) cons(key A, raw AST, x f.Formula) {
	a := e.t(x)
	e.emit("cons", M{"key": key, "raw": raw, "res": a, "h": int(x)})
	e.keep(x)
}

func handles(xs []f.Formula) A {
	r := A{}
	for _, x := range xs {
		r = append(r, int(x))
	}
	return r
}

func (e *formulaEp) operand() f.Formula {
	if len(e.pool) == 0 || e.pct(25) {
		return e.atom()
	}
	x := e.pick()
	switch e.Intn(8) {
	case 0:
		if len(e.pool) > 0 {
			return e.fac.Not(x)
		}
	case 1:
		ops := e.fac.Operands(x)
		if len(ops) > 0 {
			return ops[e.Intn(len(ops))]
		}
	}
	return x
}

func (e *formulaEp) atom() f.Formula {
	switch k := e.Intn(40); {
	case k == 0 && e.o.consts:
		return e.fac.Constant(e.pct(50))
	case k < 4 && e.o.cc:
		return e.build(e.rcc(e.n))
	case k < 7 && e.o.pbc:
		return e.build(e.rpbc(e.n))
	}
	return e.mkLit(e.rlitI(e.n)).AsFormula()
}

func (e *formulaEp) construct() {
	k := e.Intn(20)
	switch {
	case k < 2:
		x := e.operand()
		raw := AST{tNot, e.t(x)}
		e.cons(e.key("not", int(x)), raw, e.fac.Not(x))
	case k < 12:
		m := e.Intn(4)
		if e.pct(60) {
			m = 2
		}
		if e.wide && e.pct(40) {
			m = e.Intn(30) + 3
		}
		ops := make([]f.Formula, m)
		raw := AST{tAnd}
		name := "and"
		and := e.pct(50)
		if !and {
			raw, name = AST{tOr}, "or"
		}
		for i := range ops {
			ops[i] = e.operand()
			if i > 0 && e.pct(12) {
				ops[i] = e.fac.Not(ops[e.Intn(i)])
			} else if i > 0 && e.pct(8) {
				ops[i] = ops[e.Intn(i)]
			}
			raw = append(raw, e.t(ops[i]))
		}
		key := e.key(name, handles(ops))
		in := slices.Clone(ops)
		var x f.Formula
		switch {
		case e.pct(15):
			s := f.SortAnd
			if !and {
				s = f.SortOr
			}
			x, _ = e.fac.NaryOperator(s, in...)
		case and:
			x = e.fac.And(in...)
		default:
			x = e.fac.Or(in...)
		}
		e.cons(key, raw, x)
		e.scribble(in, ops)
	case k < 14:
		l, r := e.operand(), e.operand()
		if e.pct(10) {
			r = e.fac.Not(l)
		} else if e.pct(8) {
			r = l
		}
		raw := AST{tImpl, e.t(l), e.t(r)}
		if e.pct(20) {
			x, _ := e.fac.BinaryOperator(f.SortImpl, l, r)
			e.cons(e.key("impl", int(l), int(r)), raw, x)
		} else {
			e.cons(e.key("impl", int(l), int(r)), raw, e.fac.Implication(l, r))
		}
	case k < 16:
		l, r := e.operand(), e.operand()
		if e.pct(10) {
			r = e.fac.Not(l)
		} else if e.pct(8) {
			r = l
		}
		raw := AST{tEquiv, e.t(l), e.t(r)}
		e.cons(e.key("equiv", int(l), int(r)), raw, e.fac.Equivalence(l, r))
	case k < 17 && e.o.cc:
		// cardinality constraints, also over no variables
		m := e.Intn(e.n + 1)
		vs := e.rvarset(e.n, m)
		in := e.varsOf(vs)
		c := e.Intn(5)
		rhs := e.Intn(m + 2)
		raw := AST{tPbc, c, rhs, vs, ones(m)}
		var x f.Formula
		switch e.Intn(5) {
		case 0:
			raw[1], raw[2] = 1, 1
			x = e.fac.AMO(in...)
		case 1:
			raw[1], raw[2] = 0, 1
			x = e.fac.EXO(in...)
		default:
			x = e.fac.CC(csorts[c], uint32(rhs), in...)
		}
		e.cons(e.key("cc", raw[1], raw[2], vs), raw, x)
		for i := range in {
			in[i] = e.vars[0]
		}
	case k < 18 && e.o.pbc:
		raw := e.rpbc(e.n)
		if e.pct(5) {
			raw[3], raw[4] = []int{}, []int{}
		}
		if e.pct(10) { // coefficients one
			raw[4] = ones(len(toInts(raw[3])))
		}
		lits := e.litsOf(toInts(raw[3]))
		cs := slices.Clone(toInts(raw[4]))
		x := e.fac.PBC(csorts[toInt(raw[1])], toInt(raw[2]), lits, cs)
		e.cons(e.key("pbc", raw[1], raw[2], raw[3], raw[4]), raw, x)
		for i := range lits { // the caller goes on using its slices
			lits[i] = e.vars[0].AsLiteral()
			cs[i] = 77
		}
	case k < 19:
		m := e.Intn(e.n + 1)
		vs := e.rvarset(e.n, m)
		for i := range vs {
			if e.pct(50) {
				vs[i] = -vs[i]
			}
		}
		in := e.litsOf(vs)
		raw, name := AST{tAnd}, "and"
		and := e.pct(50)
		if !and {
			raw, name = AST{tOr}, "or"
		}
		for _, l := range in {
			raw = append(raw, e.t(l.AsFormula()))
		}
		key := e.key(name, handles(f.LiteralsAsFormulas(in)))
		if and {
			e.cons(key, raw, e.fac.Minterm(in...))
		} else {
			e.cons(key, raw, e.fac.Clause(in...))
		}
		for i := range in {
			in[i] = e.vars[0].AsLiteral()
		}
	default:
		x := e.atom()
		if x.Sort() == f.SortLiteral {
			l, _ := x.AsLiteral()
			name, ph, _ := e.fac.LitNamePhase(l)
			e.cons(e.key("lit", name, ph), e.dump(x), e.fac.Literal(name, ph))
		} else {
			e.keep(x)
		}
	}
}

// scribble changes a slice that was passed to the library; formulas must not
// depend on it afterwards.
func (e *formulaEp) scribble(in, orig []f.Formula) {
	if !slices.Equal(in, orig) {
		e.ev("panic", M{"msg": "operands passed by the caller were changed"})
	}
	for i := range in {
		in[i] = e.fac.Falsum()
	}
}

// fill makes pool formulas from random trees and constructor calls.
func (e *formulaEp) fill(k int) {
	for i := 0; i < k; i++ {
		if len(e.pool) < 3 || e.pct(40) {
			o := e.o
			o.depth = e.Intn(o.depth) + 1
			x := e.build(e.rform(o))
			e.keep(x)
		} else {
			e.construct()
		}
	}
	for len(e.pool) < 2 {
		e.keep(e.build(e.rlit(e.n)))
	}
}

func (e *formulaEp) again() {
	e.hs = nil
	for _, x := range e.all {
		e.t(x)
	}
	e.emit("again", M{})
}

// ---- evaluation --------------------------------------------------------------

func (e *formulaEp) litset(p int) []int {
	r := []int{}
	for v := 1; v <= e.n; v++ {
		if e.pct(p) {
			if e.pct(50) {
				r = append(r, v)
			} else {
				r = append(r, -v)
			}
		}
	}
	e.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func (e *formulaEp) assignment(ls []int) *assignment.Assignment {
	if e.pct(50) {
		a, err := assignment.New(e.fac, e.litsOf(ls)...)
		if err != nil {
			panic(err)
		}
		return a
	}
	a := assignment.Empty()
	for _, l := range e.litsOf(ls) {
		if err := a.AddLit(e.fac, l); err != nil {
			panic(err)
		}
	}
	return a
}

func (e *formulaEp) eval() {
	x := e.bigger()
	for i := 0; i < 4; i++ {
		ls := e.litset(75)
		pos := []int{}
		for _, l := range ls {
			if l > 0 {
				pos = append(pos, l)
			}
		}
		b := assignment.Evaluate(e.fac, x, e.assignment(ls))
		e.emit("eval", M{"f": e.t(x), "pos": pos, "b": b})
	}
}

func (e *formulaEp) restrict() {
	x := e.bigger()
	ls := e.litset(30)
	g := assignment.Restrict(e.fac, x, e.assignment(ls))
	e.emit("restrict", M{"f": e.t(x), "lits": ls, "g": e.t(g)})
}

func (e *formulaEp) decide() {
	x := e.bigger()
	for i := 0; i < 4; i++ {
		ls := e.litset([]int{30, 60, 85, 100}[e.Intn(4)])
		m := map[f.Variable]bool{}
		for _, l := range e.litsOf(ls) {
			m[l.Variable()] = l.IsPos()
		}
		kind := e.pct(50)
		var b bool
		if kind {
			b = assignment.EvaluatesToTrue(e.fac, x, m)
		} else {
			b = assignment.EvaluatesToFalse(e.fac, x, m)
		}
		e.emit("decide", M{"f": e.t(x), "lits": ls, "kind": kind, "b": b})
	}
}

// ---- structure ----------------------------------------------------------------

func (e *formulaEp) structure() {
	x := e.pick()
	fac := e.fac
	m := M{"f": e.t(x)}
	q := []func(){
		func() { m["vars"] = e.idxs(f.Variables(fac, x).Content()) },
		func() { m["lits"] = e.lits(f.Literals(fac, x).Content()) },
		func() { m["depth"] = f.Depth(fac, x) },
		func() { m["atoms"] = f.NumberOfAtoms(fac, x) },
		func() { m["nodes"] = f.NumberOfNodes(fac, x) },
		func() { m["subs"] = e.ts(f.SubNodes(fac, x)) },
		func() {
			p := A{}
			for v, c := range f.VariableProfile(fac, x) {
				p = append(p, []int{e.idx(v), c})
			}
			m["vprof"] = p
		},
		func() {
			p := A{}
			for v, c := range f.LiteralProfile(fac, x) {
				p = append(p, []int{e.lit(v), c})
			}
			m["lprof"] = p
		},
		func() { m["nnf"] = normalform.IsNNF(fac, x) },
		func() { m["cnf"] = normalform.IsCNF(fac, x) },
		func() { m["dnf"] = normalform.IsDNF(fac, x) },
		func() { m["aig"] = normalform.IsAIG(fac, x) },
		func() { m["minterm"] = normalform.IsMinterm(fac, x) },
		func() { m["maxterm"] = normalform.IsMaxterm(fac, x) },
		func() { m["pbc"] = encoding.ContainsPBC(fac, x) },
	}
	for _, i := range e.Perm(len(q)) {
		q[i]()
	}
	e.emit("struct", m)
	e.handle(x)
}

// handle asks for what a formula's handle alone tells, for the operands under
// every sort, and for the symbols of several formulas at once.
func (e *formulaEp) handle(x f.Formula) {
	fac := e.fac
	m := M{"f": e.t(x), "const": x.IsConstant(), "atomic": x.IsAtomic(), "pos": x.IsPos(), "neg": x.IsNeg(), "lit": 0, "var": 0, "named": 0}
	if l, err := x.AsLiteral(); err == nil {
		m["lit"] = e.lit(l)
	}
	if v, err := x.AsVariable(); err == nil {
		m["var"] = e.idx(v)
	}
	if name, phase, ok := fac.LiteralNamePhase(x); ok {
		i := e.idx(fac.Var(name))
		if !phase {
			i = -i
		}
		m["named"] = i
	}
	ops := A{}
	if op, ok := fac.NotOperand(x); ok {
		ops = append(ops, A{4, []AST{e.t(op)}})
	}
	if l, r, ok := fac.BinaryLeftRight(x); ok {
		ops = append(ops, A{7, []AST{e.t(l), e.t(r)}})
	}
	if os, ok := fac.NaryOperands(x); ok {
		ops = append(ops, A{5, e.ts(os)})
	}
	if c, r, ls, cs, ok := fac.PBCOps(x); ok {
		ops = append(ops, A{9, A{int(c), r, e.lits(ls), cs}})
	}
	m["views"], m["ops"] = ops, e.ts(fac.Operands(x))
	m["nots"] = e.ts([]f.Formula{x.Negate(fac), x.Negate(fac).Negate(fac)})
	fs := make([]f.Formula, e.Intn(4))
	for i := range fs {
		fs[i] = e.pick()
	}
	m["fs"] = e.ts(fs)
	m["vars"], m["lits"] = e.idxs(f.Variables(fac, fs...).Content()), e.lits(f.Literals(fac, fs...).Content())
	ls := e.litsOf(e.litset(60))
	if e.pct(50) {
		for i := range ls {
			ls[i] = ls[i].Variable().AsLiteral()
		}
	}
	vs, err := f.LiteralsAsVariables(ls)
	m["list"], m["err"], m["asvars"] = e.lits(ls), err != nil, e.idxs(vs)
	back := []f.Formula{}
	for _, l := range f.VariablesAsLiterals(vs) {
		back = append(back, l.AsFormula())
	}
	m["back"] = e.ts(append(append(back, f.VariablesAsFormulas(vs)...), f.LiteralsAsFormulas(ls)...))
	e.emit("handle", m)
}

// ---- normal forms ----------------------------------------------------------------

// auxfree: the formula's clauses need no auxiliary variables (syntactic: at-least-one
// constraints only)
func (e *formulaEp) auxfree(x f.Formula) bool {
	fac := e.fac
	switch x.Sort() {
	case f.SortNot:
		op, _ := fac.NotOperand(x)
		return e.auxfree(op)
	case f.SortImpl:
		l, r, _ := fac.BinaryLeftRight(x)
		return e.auxfree(l) && e.auxfree(r)
	case f.SortEquiv:
		l, r, _ := fac.BinaryLeftRight(x)
		return e.auxfree(l) && e.auxfree(r)
	case f.SortAnd, f.SortOr:
		for _, op := range fac.Operands(x) {
			if !e.auxfree(op) {
				return false
			}
		}
	case f.SortPBC:
		return false
	case f.SortCC:
		cmp, rhs, lits, _, _ := fac.PBCOps(x)
		seen := map[f.Literal]bool{}
		for _, l := range lits {
			if seen[l] {
				return false
			}
			seen[l] = true
		}
		if cmp == f.GE && rhs == 1 || cmp == f.GT && rhs == 0 {
			return true
		}
		return false
	}
	return true
}

// nfInput: a formula of moderate size
func (e *formulaEp) nfInput() f.Formula {
	x := e.bigger()
	for i := 0; f.NumberOfNodes(e.fac, x) > 60; i++ {
		if x = e.pick(); i > 200 {
			x = e.build(e.rlit(e.n))
		}
	}
	return x
}

func (e *formulaEp) nf() {
	x := e.nfInput()
	var g f.Formula
	ok, canceled := true, false
	kind := ""
	h := e.handler()
	useH := e.useHandler()
	fin := func(y f.Formula, st handler.State) {
		g, ok, canceled = y, st.Success, h.stopped
		e.verdict(st, h)
	}
	k := e.Intn(11)
	if e.wide {
		k = e.Intn(5)
		if !e.auxfree(x) {
			k = 0
			if encoding.ContainsPBC(e.fac, x) {
				return
			}
		}
	}
	if k > 0 && k < 5 && !e.wide && !e.auxfree(x) && f.NumberOfNodes(e.fac, x) > 14 {
		k = 7 + e.Intn(4)
	}
	if k == 3 && e.aigDeviates(x) {
		k = 0
	}
	big := f.NumberOfNodes(e.fac, x) > 25 || !e.auxfree(x)
	if k == 4 && big && !e.wide {
		k = 1
	}
	if (k == 1 || k == 2) && big {
		useH = true
		if h.k == 0 {
			h.k = 3000
		}
	}
	switch k {
	case 0:
		kind, g = "nnf", normalform.NNF(e.fac, x)
	case 1:
		kind = "cnf"
		if useH {
			y, st := normalform.FactorizedCNFWithHandler(e.fac, x, h)
			fin(y, st)
		} else {
			g = normalform.FactorizedCNF(e.fac, x)
		}
	case 2:
		kind = "dnf"
		if useH {
			y, st := normalform.FactorizedDNFWithHandler(e.fac, x, h)
			fin(y, st)
		} else {
			g = normalform.FactorizedDNF(e.fac, x)
		}
	case 3:
		kind, g = "aig", normalform.AIG(e.fac, x)
	case 4:
		kind, g = "cnf", normalform.CNF(e.fac, x, &normalform.CNFConfig{Algorithm: normalform.CNFFactorization})
	case 5:
		kind = "cnf"
		if useH {
			y, st := bdd.CNFWithHandler(e.fac, x, h)
			fin(y, st)
		} else {
			g = bdd.CNF(e.fac, x)
		}
	case 6:
		kind = "dnf"
		if useH {
			y, st := bdd.DNFWithHandler(e.fac, x, h)
			fin(y, st)
		} else {
			g = bdd.DNF(e.fac, x)
		}
	case 7, 9:
		kind = "cdnf"
		if useH {
			y, st := enum.CanonicalDNFWithHandler(e.fac, x, h)
			fin(y, st)
		} else {
			g = enum.CanonicalDNF(e.fac, x)
		}
	case 8, 10:
		kind = "ccnf"
		if useH {
			y, st := enum.CanonicalCNFWithHandler(e.fac, x, h)
			fin(y, st)
		} else {
			g = enum.CanonicalCNF(e.fac, x)
		}
	}
	m := M{"kind": kind, "f": e.t(x), "ok": ok, "canceled": canceled}
	if ok {
		if !e.inVars(g) && !e.auxfree(x) {
			a, n2 := e.compactAux(e.dump(g))
			if n2 <= 10 {
				m["g"], m["n2"] = a, n2
				e.emit("nfaux", m)
			}
			e.hs = nil
			return
		}
		m["g"] = e.t(g)
		e.keep(g)
	}
	e.emit("nf", m)
}

// aigDeviates: x has an equivalence with an operand which is no AIG itself (see
// the known finding on normalform.AIG)
func (e *formulaEp) aigDeviates(x f.Formula) bool {
	for _, s := range f.SubNodes(e.fac, x) {
		if s.Sort() == f.SortEquiv {
			l, r, _ := e.fac.BinaryLeftRight(s)
			if !onlyAndNot(e.fac, l) || !onlyAndNot(e.fac, r) {
				return true
			}
		}
	}
	return false
}

func onlyAndNot(fac f.Factory, x f.Formula) bool {
	switch x.Sort() {
	case f.SortImpl, f.SortEquiv, f.SortOr, f.SortCC, f.SortPBC:
		return false
	case f.SortNot:
		op, _ := fac.NotOperand(x)
		return onlyAndNot(fac, op)
	case f.SortAnd:
		for _, op := range fac.Operands(x) {
			if !onlyAndNot(fac, op) {
				return false
			}
		}
	}
	return true
}

// compactAux renumbers the auxiliary variables of a tree to n+1..n2
func (e *formulaEp) compactAux(a AST) (AST, int) {
	num := map[int]int{}
	ren := func(v int) int {
		if v <= e.n {
			return v
		}
		if _, ok := num[v]; !ok {
			num[v] = e.n + 1 + len(num)
		}
		return num[v]
	}
	var walk func(a AST) AST
	walk = func(a AST) AST {
		switch toInt(a[0]) {
		case tPos, tNeg:
			return AST{a[0], ren(toInt(a[1]))}
		case tFalse, tTrue, tPbc:
			return a
		}
		r := AST{a[0]}
		for _, x := range a[1:] {
			r = append(r, walk(x.(AST)))
		}
		return r
	}
	r := walk(a)
	return r, e.n + len(num)
}

func (e *formulaEp) defInput() f.Formula {
	x := e.bigger()
	for i := 0; f.NumberOfNodes(e.fac, x) > 40; i++ {
		if x = e.pick(); i > 200 {
			x = e.build(e.rlit(e.n))
		}
	}
	return x
}

var boundaries = []int{0, 1, 2, 3, 6, 12, 1000}

func (e *formulaEp) def() {
	x := e.defInput()
	b := boundaries[e.Intn(len(boundaries))]
	var g f.Formula
	switch e.Intn(8) {
	case 0:
		g = normalform.TseitinCNFDefault(e.fac, x)
	case 1:
		g = normalform.PGCNFDefault(e.fac, x)
	case 2:
		g = normalform.TseitinCNFWithBoundary(e.fac, x, b)
	case 3:
		g = normalform.PGCNFWithBoundary(e.fac, x, b)
	case 4:
		g = normalform.TseitinCNF(e.fac, x, b, normalform.NewCNFAuxState())
	case 5:
		g = normalform.PGCNF(e.fac, x, b, normalform.NewCNFAuxState())
	default:
		cfg := normalform.DefaultCNFConfig()
		cfg.Algorithm = normalform.CNFAlgorithm(e.Intn(4))
		cfg.FallbackAlgorithmForAdvancedEncoding = []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum}[e.Intn(2)]
		cfg.AtomBoundary = b
		cfg.DistributionBoundary = []int{-1, 0, 1, 2, 5, 20}[e.Intn(6)]
		cfg.CreatedClauseBoundary = []int{-1, 0, 1, 3, 10, 1000}[e.Intn(6)]
		if e.pct(30) {
			_ = e.fac.PutConfiguration(cfg)
			g = normalform.CNF(e.fac, x)
		} else {
			g = normalform.CNF(e.fac, x, cfg)
		}
	}
	e.emit("def", M{"f": e.t(x), "g": e.t(g)})
}

// defAcc transforms formulas one after another with one shared state.
func (e *formulaEp) defAcc() {
	if e.defs > 5 {
		return
	}
	e.defs++
	x := e.defInput()
	b := boundaries[e.Intn(len(boundaries))]
	var g f.Formula
	if e.accPG {
		g = normalform.PGCNF(e.fac, x, b, e.pgst)
	} else {
		g = normalform.TseitinCNF(e.fac, x, b, e.tst)
	}
	e.emit("defacc", M{"f": e.t(x), "g": e.t(g)})
}

// ---- constraints ---------------------------------------------------------------

func (e *formulaEp) constraint() {
	a := e.rpbc(e.n)
	if e.pct(30) {
		a = e.rcc(e.n)
	}
	x := e.build(a)
	switch e.Intn(4) {
	case 0:
		g := encoding.Normalize(e.fac, x)
		e.emit("equiv", M{"f": e.t(x), "g": e.t(g), "kind": "normalize"})
	case 1:
		g := encoding.NegatePBC(e.fac, x)
		e.hs = nil
		e.emit("equiv", M{"f": AST{tNot, e.t(x)}, "g": e.t(g), "kind": "negate"})
	case 2:
		if x.Sort() != f.SortCC {
			return
		}
		cs, err := encoding.EncodeCC(e.fac, x, e.encConfig())
		if err != nil {
			e.ev("panic", M{"msg": err.Error()})
			return
		}
		e.emit("enc", M{"f": e.t(x), "cs": e.ts(cs)})
	case 3:
		cs, err := encoding.EncodePBC(e.fac, x, e.encConfig())
		if err != nil {
			e.ev("panic", M{"msg": err.Error()})
			return
		}
		e.emit("enc", M{"f": e.t(x), "cs": e.ts(cs)})
	}
	e.keep(x)
}

// ---- counting --------------------------------------------------------------------

func (e *formulaEp) count() {
	k := e.Intn(3) + 1
	many := e.pct(40)
	if many {
		k = e.Intn(8) + 3
	}
	hidden := e.Intn(1 << e.n) // a model of most of the parts
	fs := make([]f.Formula, k)
	used := map[int]bool{}
	for i := range fs {
		switch {
		case many && e.pct(45):
			v := 1 + e.Intn(e.n)
			if hidden>>(v-1)&1 == 0 != e.pct(5) {
				v = -v
			}
			fs[i] = e.mkLit(v).AsFormula()
		case many && e.pct(70):
			v := 1 + e.Intn(e.n)
			fs[i] = e.fac.Or(e.mkLit(v*(2*(hidden>>(v-1)&1)-1)).AsFormula(), e.build(e.rclauses(e.n, 1, 3)[0]))
		default:
			fs[i] = e.pick()
		}
		if !many && e.pct(15) {
			vs := e.rvarset(e.n, min(e.n, 2+e.Intn(3)))
			fs[i] = e.build(AST{tPbc, []int{0, 1}[e.Intn(2)], 1, vs, ones(len(vs))})
		}
		for _, v := range f.Variables(e.fac, fs[i]).Content() {
			used[e.idx(v)] = true
		}
	}
	vs := []int{}
	for v := 1; v <= e.n; v++ {
		if used[v] || e.pct(40) {
			vs = append(vs, v)
		}
	}
	e.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	in := slices.Clone(fs)
	var c *big.Int
	var err error
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		c, err, st = count.CountWithHandler(e.fac, e.varsOf(vs), h, in...)
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else {
		c, err = count.Count(e.fac, e.varsOf(vs), in...)
	}
	if err != nil {
		// constraints other than at-most-one and exactly-one are refused
		for _, x := range fs {
			if e.hasOtherPBC(x) {
				return
			}
		}
		e.ev("panic", M{"msg": "count: " + err.Error()})
		return
	}
	e.emit("count", M{"fs": e.ts(fs), "vars": vs, "cnt": bigInt(c), "ok": ok, "canceled": canceled})
}

func (e *formulaEp) hasOtherPBC(x f.Formula) bool {
	for _, s := range f.SubNodes(e.fac, x) {
		if s.Sort() == f.SortPBC {
			return true
		}
		if s.Sort() == f.SortCC {
			c, rhs, _, _, _ := e.fac.PBCOps(s)
			if !(c == f.LE && rhs == 1 || c == f.LT && rhs == 2 || c == f.EQ && rhs == 1) {
				return true
			}
		}
	}
	return false
}

func (e *formulaEp) iterCfg(vs []int, h handler.Handler) *iter.Config {
	s := &solverEp{Ep: e.Ep}
	return s.iterConfig(vs, h)
}

func (e *formulaEp) countOnFormula() {
	x := e.bigger()
	vs := []int{}
	for v := 1; v <= e.n; v++ {
		if e.pct(60) {
			vs = append(vs, v)
		}
	}
	var c *big.Int
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		c, st = count.OnFormulaWithConfig(e.fac, x, e.varsOf(vs), e.iterCfg(vs, h))
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else {
		c = count.OnFormula(e.fac, x, e.varsOf(vs))
	}
	e.emit("count", M{"fs": e.ts([]f.Formula{x}), "vars": vs, "cnt": bigInt(c), "ok": ok, "canceled": canceled})
}

func (e *formulaEp) enumBdd(x f.Formula, vs []int) {
	var b *bdd.BDD
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		b, st = enum.ToBddOnFormulaWithConfig(e.fac, x, e.varsOf(vs), e.iterCfg(vs, h))
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else {
		b = enum.ToBddOnFormula(e.fac, x, e.varsOf(vs))
	}
	g := AST{tFalse}
	if ok {
		g = e.t(b.DNF())
	}
	e.emit("enumbdd", M{"f": e.t(x), "vars": vs, "g": g, "ok": ok, "canceled": canceled})
}

func (e *formulaEp) enumOnFormula() {
	x := e.bigger()
	vs := e.rvarset(e.n, e.Intn(e.n+1))
	if e.pct(35) {
		e.enumBdd(x, vs)
		return
	}
	var ms []*model.Model
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		ms, st = enum.OnFormulaWithConfig(e.fac, x, e.varsOf(vs), e.iterCfg(vs, h))
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else {
		ms = enum.OnFormula(e.fac, x, e.varsOf(vs))
	}
	r := A{}
	for _, m := range ms {
		r = append(r, e.modelLits(m))
	}
	e.emit("enum", M{"f": e.t(x), "vars": vs, "models": r, "ok": ok, "canceled": canceled})
}

// ---- knowledge compilation -----------------------------------------------------------

func (e *formulaEp) dnnf() {
	x := e.nfInput()
	var d *dnnf.DNNF
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		d, st = dnnf.CompileWithHandler(e.fac, x, h)
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else {
		d = dnnf.Compile(e.fac, x)
	}
	m := M{"f": e.t(x), "ok": ok, "canceled": canceled}
	if ok {
		m["g"] = e.t(d.Formula)
		m["cnt"] = bigInt(d.ModelCount())
	}
	e.emit("dnnf", m)
}

// ---- primes -----------------------------------------------------------------------------

func (e *formulaEp) litss(ls [][]f.Literal) A {
	r := A{}
	for _, l := range ls {
		r = append(r, e.lits(l))
	}
	return r
}

func (e *formulaEp) primes() {
	x := e.nfInput()
	e.emit("primes", e.primesOf(x))
}

func (e *formulaEp) primesOf(x f.Formula) M {
	sort := primeimplicant.CoverSort(e.Intn(2))
	var r *primeimplicant.PrimeResult
	ok, canceled := true, false
	maxm := e.pct(50)
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		if maxm {
			r, st = primeimplicant.CoverMaxWithHandler(e.fac, x, sort, h)
		} else {
			r, st = primeimplicant.CoverMinWithHandler(e.fac, x, sort, h)
		}
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else if maxm {
		r = primeimplicant.CoverMax(e.fac, x, sort)
	} else {
		r = primeimplicant.CoverMin(e.fac, x, sort)
	}
	m := M{"f": e.t(x), "ok": ok, "canceled": canceled, "implicants": sort == primeimplicant.CoverImplicants, "max": maxm}
	if ok {
		m["imps"], m["cates"] = e.litss(r.Implicants), e.litss(r.Implicates)
	}
	return m
}

func (e *formulaEp) minPrime() {
	x := e.nfInput()
	if e.pct(50) || !e.auxfree(x) {
		x = e.cnfFormula()
	}
	e.emit("minprime", e.minPrimeOf(x))
}

func (e *formulaEp) minPrimeOf(x f.Formula) M {
	ls, err := primeimplicant.Minimum(e.fac, x)
	kind := "implicant"
	if normalform.IsCNF(e.fac, x) && !e.conserve {
		kind = "prime"
	} else if e.auxfree(x) {
		kind = "syntactic"
		for _, s := range f.SubNodes(e.fac, x) {
			if s.Sort() == f.SortEquiv || s.Sort() == f.SortCC {
				kind = "implicant"
			}
		}
	}
	return M{"f": e.t(x), "lits": e.lits(ls), "err": err != nil, "kind": kind}
}

// ---- minimal unsatisfiable subsets ----------------------------------------------------------

func (e *formulaEp) unsatSet() []f.Formula {
	fs := []f.Formula{}
	if e.pct(60) {
		for _, c := range e.rclauses(e.n, 3*e.n+e.Intn(4), 3) {
			x := e.build(c)
			if len(fs) < 11 {
				fs = append(fs, x)
			}
		}
	} else {
		k := e.Intn(6) + 2
		for i := 0; i < k; i++ {
			fs = append(fs, e.pick())
		}
	}
	if e.pct(50) && len(fs) > 0 {
		fs = append(fs, e.fac.Not(fs[e.Intn(len(fs))]))
	}
	e.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return fs
}

func (e *formulaEp) mus() {
	e.musOf("mus", e.unsatSet())
}

func (e *formulaEp) musOf(op string, fs []f.Formula) {
	ps := make([]f.Proposition, len(fs))
	for i := range fs {
		ps[i] = f.NewStandardProposition(fs[i], fmt.Sprintf("p%d", i))
		if e.pct(20) {
			ps[i] = f.NewExtendedProposition(fs[i], backpack(fmt.Sprintf("p%d", i)))
		}
	}
	in := slices.Clone(ps)
	ins := e.pct(50)
	var c *explanation.UnsatCore
	var err error
	ok, canceled := true, false
	if e.useHandler() {
		h := e.handler()
		var st handler.State
		if ins {
			c, st, err = mus.ComputeInsertionBasedWithHandler(e.fac, &in, h)
		} else {
			c, st, err = mus.ComputeDeletionBasedWithHandler(e.fac, &in, h)
		}
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else if ins {
		c, err = mus.ComputeInsertionBased(e.fac, &in)
	} else {
		c, err = mus.ComputeDeletionBased(e.fac, &in)
	}
	if !slices.Equal(in, ps) {
		e.ev("panic", M{"msg": "propositions passed by the caller were changed"})
	}
	r, flag := []int{}, false
	if c != nil {
		flag = c.IsGuaranteedMUS
		for _, p := range c.Propositions {
			i := slices.Index(ps, p)
			r = append(r, i+1)
		}
	}
	e.emit(op, M{"ps": e.ts(fs), "r": r, "err": err != nil, "ok": ok, "canceled": canceled, "ins": ins, "flag": flag})
}

func (e *formulaEp) smus() {
	fs := e.unsatSet()
	if len(fs) > 7 {
		fs = fs[:7]
	}
	extra := []f.Formula{}
	if e.pct(40) {
		extra = append(extra, e.pick())
	}
	if e.pct(15) {
		extra = append(extra, e.mkLit(e.rlitI(e.n)).AsFormula())
	}
	e.smusOf("smus", fs, extra)
}

func (e *formulaEp) smusOf(op string, fs, extra []f.Formula) {
	ok, canceled, found := true, false, true
	r := []int{}
	h := e.handler()
	useH := e.useHandler()
	if e.pct(50) {
		ps := make([]f.Proposition, len(fs))
		for i := range fs {
			ps[i] = f.NewStandardProposition(fs[i], fmt.Sprintf("p%d", i))
		}
		var res []f.Proposition
		in := slices.Clone(ps)
		if useH {
			var st handler.State
			res, st = smus.ComputeWithHandler(e.fac, in, h, extra...)
			ok, canceled = st.Success, h.stopped
			e.verdict(st, h)
		} else {
			res = smus.Compute(e.fac, in, extra...)
		}
		found = res != nil
		for _, p := range res {
			r = append(r, slices.Index(ps, p)+1)
		}
	} else {
		var res []f.Formula
		in := slices.Clone(fs)
		if useH {
			var st handler.State
			res, st = smus.ComputeForFormulasWithHandler(e.fac, in, h, extra...)
			ok, canceled = st.Success, h.stopped
			e.verdict(st, h)
		} else {
			res = smus.ComputeForFormulas(e.fac, in, extra...)
		}
		found = res != nil
		used := map[int]bool{}
		for _, x := range res {
			i := 0
			for i < len(fs) && (fs[i] != x || used[i]) {
				i++
			}
			used[i] = true
			r = append(r, i+1)
		}
	}
	e.emit(op, M{"ps": e.ts(fs), "extra": e.ts(extra), "r": r, "found": found, "ok": ok, "canceled": canceled})
}

// ---- simplification ------------------------------------------------------------------------------

func (e *formulaEp) cnfFormula() f.Formula {
	ops := e.builds(e.clausesForSubsumption())
	return e.fac.And(ops...)
}

// clausesForSubsumption: short clauses, or long ones of which many contain others.
func (e *formulaEp) clausesForSubsumption() []AST {
	if e.pct(60) {
		return e.rclauses(e.n, e.Intn(9)+1, 4)
	}
	var r []AST
	for _, c := range e.rclauses(e.n, e.Intn(6)+2, 10) {
		r = append(r, c)
		for e.pct(45) && toInt(c[0]) == tOr {
			d := AST{tOr}
			for _, l := range c[1:] {
				if e.pct(60) {
					d = append(d, l)
				}
			}
			if len(d) > 2 {
				r = append(r, d)
			}
		}
	}
	e.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

// negTree: alternating conjunctions and disjunctions with mostly negative literals.
func (e *formulaEp) negTree(depth int) AST {
	k := 2 + e.Intn(4)
	if depth == 0 {
		k = 3 + e.Intn(8)
	}
	a := AST{tAnd + (depth+e.negRoot)%2}
	for ; k > 0; k-- {
		if depth < 3 && e.pct(25) {
			a = append(a, e.negTree(depth+1))
		} else if e.pct(75) {
			a = append(a, AST{tNeg, 1 + e.Intn(e.n)})
		} else {
			a = append(a, AST{tPos, 1 + e.Intn(e.n)})
		}
	}
	return a
}

func (e *formulaEp) dnfFormula() f.Formula {
	cs := e.clausesForSubsumption()
	ops := make([]f.Formula, len(cs))
	for i, c := range cs {
		if toInt(c[0]) == tOr {
			c[0] = tAnd
		}
		ops[i] = e.build(c)
	}
	return e.fac.Or(ops...)
}

func (e *formulaEp) simplify() {
	x := e.nfInput()
	if e.pct(20) {
		e.negRoot = e.Intn(2)
		x = e.build(e.negTree(0))
	}
	var g f.Formula
	ok, canceled := true, false
	name, nf := "", ""
	h := e.handler()
	useH := e.useHandler()
	fin := func(y f.Formula, st handler.State) {
		g, ok, canceled = y, st.Success, h.stopped
		e.verdict(st, h)
	}
	what := e.Intn(9)
	if e.wide && what == 2 {
		what = 3 // the prime implicants of a large formula are too many
	}
	if e.wide && what < 2 && (f.Variables(e.fac, x).Size() > 9 || f.NumberOfNodes(e.fac, x) > 40) {
		what += 5
	}
	switch what {
	case 0, 1:
		name = "advanced"
		cfg := simplification.DefaultConfig()
		cfg.FactorOut = e.pct(60)
		cfg.RestrictBackbone = e.pct(60)
		cfg.SimplifyNegations = e.pct(60)
		cfg.UseRatingFunction = e.pct(60)
		if useH {
			y, st := simplification.AdvancedWithHandler(e.fac, x, h, cfg)
			fin(y, st)
		} else if e.pct(50) {
			g = simplification.Advanced(e.fac, x)
		} else if e.pct(30) {
			_ = e.fac.PutConfiguration(cfg)
			g = simplification.Advanced(e.fac, x)
		} else {
			g = simplification.Advanced(e.fac, x, cfg)
		}
	case 2:
		name, nf = "qmc", "dnf"
		if useH {
			y, st := simplification.QMCWithHandler(e.fac, x, h)
			fin(y, st)
		} else {
			g = simplification.QMC(e.fac, x)
		}
	case 3:
		name, g = "distribute", simplification.Distribute(e.fac, x)
	case 4:
		name, g = "factorout", simplification.FactorOut(e.fac, x)
	case 5:
		name, g = "negations", simplification.MinimizeNegations(e.fac, x)
	case 6:
		name, g = "backbone", simplification.PropagateBackbone(e.fac, x)
	case 7:
		name = "units"
		if e.pct(50) {
			x = e.cnfFormula()
			nf = "cnf"
		}
		if !e.auxfree(x) {
			return
		}
		g = simplification.PropagateUnits(e.fac, x)
	case 8:
		e.subsume()
		return
	}
	m := M{"name": name, "nf": nf, "f": e.t(x), "ok": ok, "canceled": canceled}
	if ok && name != "units" && !e.auxfree(x) && !e.inVars(g) {
		// the negation normal form encodes the constraints
		a, n2 := e.compactAux(e.dump(g))
		if n2 <= 10 {
			m["g"], m["n2"], m["kind"] = a, n2, name
			e.emit("nfaux", m)
		}
		e.hs = nil
		return
	}
	if ok {
		m["g"] = e.t(g)
		e.keep(g)
	}
	e.emit("simp", m)
}

func (e *formulaEp) subsume() {
	kind := "cnf"
	var x, g f.Formula
	var err error
	if e.pct(50) {
		kind = "dnf"
	}
	switch {
	case e.pct(20):
		x = e.pick()
	case kind == "cnf":
		x = e.cnfFormula()
	default:
		x = e.dnfFormula()
	}
	ok, canceled := true, false
	h := e.handler()
	if e.useHandler() {
		var st handler.State
		if kind == "cnf" {
			g, err, st = simplification.CNFSubsumptionWithHandler(e.fac, x, h)
		} else {
			g, err, st = simplification.DNFSubsumptionWithHandler(e.fac, x, h)
		}
		ok, canceled = st.Success, h.stopped
		e.verdict(st, h)
	} else if kind == "cnf" {
		g, err = simplification.CNFSubsumption(e.fac, x)
	} else {
		g, err = simplification.DNFSubsumption(e.fac, x)
	}
	m := M{"kind": kind, "f": e.t(x), "err": err != nil, "ok": ok, "canceled": canceled}
	if ok && err == nil {
		m["g"] = e.t(g)
	}
	e.emit("subsume", m)
}

// ---- substitution etc. -------------------------------------------------------------------------

func (e *formulaEp) substitute() {
	x := e.bigger()
	k := e.Intn(4)
	many := e.pct(25)
	if many {
		k = e.Intn(9) + 3
	}
	if k > e.n {
		k = e.n
	}
	vs := e.rvarset(e.n, k)
	sub := A{}
	if e.pct(50) {
		s := transformation.NewSubstitution()
		mp := map[f.Variable]f.Formula{}
		litOnly := encoding.ContainsPBC(e.fac, x)
		for _, v := range vs {
			g := e.pick()
			if litOnly && g.Sort() > f.SortLiteral || many && (e.pct(50) || f.NumberOfNodes(e.fac, g) > 8) {
				g = e.mkLit(e.rlitI(e.n)).AsFormula()
			}
			if e.pct(10) {
				g = e.fac.Constant(e.pct(50))
			}
			sub = append(sub, A{v, e.t(g)})
			if e.pct(50) {
				s.AddVar(e.vars[v-1], g)
			} else {
				mp[e.vars[v-1]] = g
			}
		}
		s.AddMapping(mp)
		y, err := transformation.Substitute(e.fac, x, s)
		if err != nil {
			e.ev("panic", M{"msg": "substitute: " + err.Error()})
			return
		}
		e.emit("subst", M{"f": e.t(x), "sub": sub, "g": e.t(y)})
		e.keep(y)
		return
	}
	// literals by literals, both phases consistently
	m := map[f.Literal]f.Literal{}
	for _, v := range vs {
		l := e.rlitI(e.n)
		sub = append(sub, A{v, e.dump(e.mkLit(l).AsFormula())})
		m[e.mkLit(v)] = e.mkLit(l)
		m[e.mkLit(-v)] = e.mkLit(-l)
	}
	y := transformation.SubstituteLiterals(e.fac, x, &m)
	e.emit("subst", M{"f": e.t(x), "sub": sub, "g": e.t(y)})
	e.keep(y)
}

func (e *formulaEp) qe() {
	x := e.nfInput()
	vs := e.rvarset(e.n, e.Intn(min(e.n, 3)+1))
	if f.NumberOfNodes(e.fac, x) < 16 && e.pct(30) {
		vs = e.rvarset(e.n, min(e.n, 3+e.Intn(3)))
	}
	ex := e.pct(50)
	var g f.Formula
	if ex {
		g = transformation.ExistentialQE(e.fac, x, e.varsOf(vs)...)
	} else {
		g = transformation.UniversalQE(e.fac, x, e.varsOf(vs)...)
	}
	e.emit("qe", M{"ex": ex, "f": e.t(x), "vars": vs, "g": e.t(g)})
}

func (e *formulaEp) expand() {
	x := e.pick()
	if e.pct(50) {
		o := e.o
		o.cc, o.pbc = true, false
		x = e.build(e.rform(o))
	}
	g, err := transformation.ExpandAMOAndEXO(e.fac, x)
	if err != nil {
		if !e.hasOtherPBC(x) {
			e.ev("panic", M{"msg": "expand: " + err.Error()})
		}
		return
	}
	e.emit("expand", M{"f": e.t(x), "g": e.t(g)})
}

func (e *formulaEp) anonymize() {
	x := e.bigger()
	pf := "v"
	var g f.Formula
	if e.pct(25) {
		g = transformation.Anonymize(e.fac, x)
		// a fresh anonymizer: numbering by the variables of this formula
	} else {
		if e.anon == nil {
			e.anonPf = "anon"
			e.anon = transformation.NewAnonymizer(e.fac, e.anonPf)
		}
		pf = e.anonPf
		g = e.anon.Anonymize(x)
	}
	// number the new variables by their name
	num := map[f.Variable]int{}
	for i := 0; i < e.n; i++ {
		num[e.fac.Var(fmt.Sprintf("%s%d", pf, i))] = i + 1
	}
	saved := e.names
	e.names = num
	ga := e.dump(g)
	e.names = saved
	// the renaming is read off the occurrences, position by position
	mp := e.matchVars(x, g, num)
	if mp == nil && repeats(e.dump(x)) {
		return // a clause or term with a repeated literal is rebuilt without it
	}
	if mp == nil {
		e.ev("panic", M{"msg": "anonymized formula is no renaming"})
		return
	}
	e.emit("anon", M{"f": e.t(x), "g": ga, "map": mp})
}

// matchVars walks both formulas in parallel.
func (e *formulaEp) matchVars(x, g f.Formula, num map[f.Variable]int) []int {
	m := map[int]int{}
	ok := true
	var rec func(a, b f.Formula)
	rec = func(a, b f.Formula) {
		if !ok || a.Sort() != b.Sort() {
			ok = false
			return
		}
		put := func(l, k f.Literal) {
			t, is := num[k.Variable()]
			if !is || l.IsPos() != k.IsPos() {
				ok = false
				return
			}
			i := e.idx(l.Variable())
			if o, has := m[i]; has && o != t {
				ok = false
			}
			m[i] = t
		}
		switch a.Sort() {
		case f.SortLiteral:
			put(f.Literal(a), f.Literal(b))
		case f.SortCC, f.SortPBC:
			_, _, l1, _, _ := e.fac.PBCOps(a)
			_, _, l2, _, _ := e.fac.PBCOps(b)
			if len(l1) != len(l2) {
				ok = false
				return
			}
			for i := range l1 {
				put(l1[i], l2[i])
			}
		default:
			o1, o2 := e.fac.Operands(a), e.fac.Operands(b)
			if len(o1) != len(o2) {
				ok = false
				return
			}
			for i := range o1 {
				rec(o1[i], o2[i])
			}
		}
	}
	rec(x, g)
	if !ok {
		return nil
	}
	// complete to a total map on 1..n; unused variables get unused numbers
	used := map[int]bool{}
	for _, t := range m {
		used[t] = true
	}
	r := make([]int, e.n)
	next := 1
	for i := 1; i <= e.n; i++ {
		if t, is := m[i]; is {
			r[i-1] = t
			continue
		}
		for used[next] {
			next++
		}
		r[i-1] = next
		used[next] = true
	}
	return r
}

// ---- graphs ---------------------------------------------------------------------------------------

func (e *formulaEp) cgraph() {
	k := e.Intn(6)
	if !e.wide && e.pct(25) {
		k = e.Intn(12)
	}
	fs := make([]f.Formula, k)
	for i := range fs {
		if e.pct(60) {
			fs[i] = e.build(e.rclauses(e.n, 1, 3)[0])
		} else {
			fs[i] = e.pick()
		}
	}
	var g *graph.FormulaGraph
	if e.wide || e.pct(75) {
		g = graph.GenerateConstraintGraph(e.fac, fs...)
	} else { // by hand: the graph of these pairs of variables
		g = graph.NewFormulaGraph()
		fs = make([]f.Formula, e.Intn(min(2*e.n, 16)))
		for i := range fs {
			x, y := e.vars[e.Intn(e.n)].AsFormula(), e.vars[e.Intn(e.n)].AsFormula()
			fs[i] = e.fac.Or(x, y)
			if e.pct(25) {
				fs[i] = x
				g.AddNode(x)
			} else {
				g.Connect(x, y)
			}
		}
	}
	nodes := []int{}
	edges := A{}
	asVar := func(x f.Formula) int {
		v, _ := x.AsVariable()
		return e.idx(v)
	}
	for _, nd := range g.Nodes() {
		nodes = append(nodes, asVar(nd))
		for _, nb := range g.Neighbours(nd) {
			edges = append(edges, []int{asVar(nd), asVar(nb)})
		}
	}
	comps := graph.ComputeConnectedComponents(g)
	cs := A{}
	for _, c := range comps {
		cs = append(cs, e.idxs(c))
	}
	groups := A{}
	split := e.pct(80)
	if split {
		for _, gr := range graph.SplitFormulasByComponent(e.fac, fs, comps) {
			groups = append(groups, e.ts(gr))
		}
	}
	e.emit("cgraph", M{"fs": e.ts(fs), "nodes": nodes, "edges": edges, "comps": cs, "groups": groups, "split": split})
}

func (e *formulaEp) hyper() {
	var fs []f.Formula
	var g *graph.Hypergraph
	var err error
	if e.pct(50) {
		fs = e.builds(e.rclauses(e.n, e.Intn(6), 3))
		if e.pct(10) {
			fs = append(fs, e.pick())
		}
		for _, x := range fs {
			if x.IsConstant() {
				return
			}
		}
		g, err = graph.HypergraphFromClauses(e.fac, fs...)
	} else {
		x := e.cnfFormula()
		if e.pct(20) {
			x = e.pick()
		}
		if x.IsConstant() {
			return
		}
		if x.Sort() == f.SortAnd {
			fs = slices.Clone(e.fac.Operands(x))
		} else {
			fs = []f.Formula{x}
		}
		g, err = graph.HypergraphFromCNF(e.fac, x)
	}
	nodes := []int{}
	edges := A{}
	if err == nil {
		for _, nd := range g.Nodes {
			nodes = append(nodes, e.idx(nd.Content))
		}
		for _, ed := range g.Edges {
			r := []int{}
			for _, nd := range ed.Nodes {
				r = append(r, e.idx(nd.Content))
			}
			edges = append(edges, r)
		}
	}
	e.emit("hyper", M{"fs": e.ts(fs), "nodes": nodes, "edges": edges, "err": err != nil})
}

// ---- set cover -------------------------------------------------------------------------------------

func (e *formulaEp) cover() {
	k := e.Intn(8)
	u := e.Intn(8) + 1
	sets := make([][]int, k)
	p := 20 + e.Intn(50)
	for i := range sets {
		sets[i] = []int{}
		for x := 1; x <= u; x++ {
			if e.pct(p) {
				sets[i] = append(sets[i], x)
			}
		}
		if len(sets[i]) > 0 && e.pct(5) {
			sets[i] = append(sets[i], sets[i][e.Intn(len(sets[i]))])
		}
		if i > 0 && e.pct(10) {
			sets[i] = slices.Clone(sets[e.Intn(i)])
		}
		e.Shuffle(len(sets[i]), func(a, b int) { sets[i][a], sets[i][b] = sets[i][b], sets[i][a] })
	}
	r := np.MinimumSetCover(sets)
	if r == nil {
		r = [][]int{}
	}
	e.emit("cover", M{"sets": sets, "r": r})
}

// ---- definite answers ---------------------------------------------------------------------------------

func (e *formulaEp) pred() {
	x, y := e.bigger(), e.pick()
	kind := []string{"sat", "taut", "contra", "equiv", "implies"}[e.Intn(5)]
	var b bool
	if e.pct(30) {
		switch e.Intn(3) {
		case 0:
			y = normalform.NNF(e.fac, x)
		case 1:
			x = e.fac.Or(x, e.fac.Not(x), y)
		case 2:
			x = e.fac.And(x, y)
		}
	}
	switch kind {
	case "sat":
		b = sat.IsSatisfiable(e.fac, x)
	case "taut":
		b = sat.IsTautology(e.fac, x)
	case "contra":
		b = sat.IsContradiction(e.fac, x)
	case "equiv":
		if f.Variables(e.fac, y).Size() > 0 && !e.auxfree(y) {
			y = e.pick()
		}
		if !e.inVars(y) {
			return
		}
		b = sat.IsEquivalent(e.fac, x, y)
	case "implies":
		if !e.inVars(y) {
			return
		}
		b = sat.Implies(e.fac, x, y)
	}
	if !e.inVars(x) {
		return
	}
	e.emit("pred", M{"kind": kind, "f": e.t(x), "g": e.t(y), "b": b})
}

// inVars: no auxiliary variables
func (e *formulaEp) inVars(x f.Formula) bool {
	for _, v := range f.Variables(e.fac, x).Content() {
		if _, ok := e.names[v]; !ok {
			return false
		}
	}
	return true
}

// ---- drivers ----------------------------------------------------------------------------------------

type fprofile struct {
	nmin, nmax, depth, fill, steps, max int
	cancel, conserve                    int
	noPbc                               int // percent of episodes without constraints
	reorder, again                      bool
	ops                                 map[string]int
}

func (e *formulaEp) ops() map[string]func() {
	return map[string]func(){
		"cons": e.construct, "eval": e.eval, "restrict": e.restrict, "decide": e.decide, "struct": e.structure,
		"nf": e.nf, "def": e.def, "defacc": e.defAcc, "pbc": e.constraint, "count": e.count, "countf": e.countOnFormula,
		"enumf": e.enumOnFormula, "dnnf": e.dnnf, "primes": e.primes, "minprime": e.minPrime, "mus": e.mus, "smus": e.smus,
		"simp": e.simplify, "subsume": e.subsume, "subst": e.substitute, "qe": e.qe, "expand": e.expand, "anon": e.anonymize,
		"cgraph": e.cgraph, "draw": e.draw, "limits": e.limits, "drawgraph": e.drawGraph, "hyper": e.hyper, "cover": e.cover, "pred": e.pred, "again": e.again,
	}
}

// genDriver runs some operations on a formula made by the specification
func genDriver(conserve int, plan ...string) driver {
	return func(e *Ep) {
		p := fprofile{nmin: 4, nmax: 4, depth: 2, max: 60, noPbc: 100, conserve: conserve}
		x := newFormulaEp(e, p)
		x.o.consts = false
		ops := x.ops()
		if !e.try("build", func() { x.fixed, x.isFixed = e.build(astOf(sub(e.spec, "f"))), true }) {
			return
		}
		for _, k := range plan {
			if !e.try(k, ops[k]) {
				x.hs = nil
				return
			}
			x.hs, x.toobig = nil, false
		}
	}
}

func newFormulaEp(e *Ep, p fprofile) *formulaEp {
	n := p.nmin + e.Intn(p.nmax-p.nmin+1)
	e.dups = e.pct(25) && p.ops["anon"] == 0 // encodings with repeated literals are no renamings
	cons := e.pct(p.conserve)
	e.fresh(n, cons)
	x := &formulaEp{Ep: e, known: map[f.Formula]bool{}, cancel: p.cancel, max: p.max, conserve: cons}
	x.o = Opts{n: n, depth: p.depth, ops: 4, consts: e.pct(25), cc: true, pbc: true, impl: e.pct(80)}
	if e.pct(p.noPbc) {
		x.o.cc, x.o.pbc = false, false
	}
	if e.pct(20) {
		x.o.consts = true
	}
	x.tst, x.pgst = normalform.NewCNFAuxState(), normalform.NewCNFAuxState()
	x.accPG = e.pct(50)
	if e.pct(40) {
		_ = e.fac.PutConfiguration(e.encConfig())
	}
	if e.pct(25) {
		_ = e.fac.PutConfiguration(e.satConfig(50))
	}
	e.begin(M{"conserve": cons})
	return x
}

func formulaDriver(p fprofile) driver {
	names := []string{}
	tot := 0
	for k := range p.ops {
		names = append(names, k)
	}
	slices.Sort(names)
	for _, k := range names {
		tot += p.ops[k]
	}
	return func(e *Ep) {
		x := newFormulaEp(e, p)
		e.try("fill", func() { x.fill(p.fill) })
		ops := x.ops()
		steps := p.steps/2 + e.Intn(p.steps)
		for i := 0; i < steps; i++ {
			r := e.Intn(tot)
			for _, k := range names {
				if r < p.ops[k] {
					if !e.try(k, ops[k]) {
						x.hs = nil
						return
					}
					x.hs = nil
					break
				}
				r -= p.ops[k]
			}
		}
		e.try("again", x.again)
	}
}

func init() {
	mk := func(name string, p fprofile) { drivers[name] = formulaDriver(p) }
	mk("factory", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 6, steps: 40, max: 40, conserve: 40, ops: map[string]int{"cons": 20, "again": 1}})
	mk("eval", fprofile{nmin: 2, nmax: 6, depth: 4, fill: 8, steps: 14, max: 60, conserve: 20, ops: map[string]int{"cons": 4, "eval": 2, "restrict": 6, "decide": 4}})
	mk("struct", fprofile{nmin: 2, nmax: 6, depth: 4, fill: 10, steps: 14, max: 60, conserve: 30, ops: map[string]int{"cons": 6, "struct": 10, "nf": 2}})
	mk("nf", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 8, steps: 10, max: 40, conserve: 20, noPbc: 70, ops: map[string]int{"cons": 3, "nf": 12}})
	mk("def", fprofile{nmin: 2, nmax: 4, depth: 4, fill: 8, steps: 8, max: 40, conserve: 20, noPbc: 70, ops: map[string]int{"cons": 3, "def": 6, "defacc": 6}})
	mk("count", fprofile{nmin: 2, nmax: 8, depth: 3, fill: 8, steps: 8, max: 40, conserve: 10, noPbc: 60, ops: map[string]int{"count": 6, "countf": 3, "enumf": 2}})
	mk("dnnf", fprofile{nmin: 2, nmax: 6, depth: 4, fill: 8, steps: 10, max: 60, noPbc: 95, conserve: 10, ops: map[string]int{"cons": 3, "dnnf": 10}})
	mk("primes", fprofile{nmin: 2, nmax: 5, depth: 4, fill: 6, steps: 6, max: 40, noPbc: 60, conserve: 10, ops: map[string]int{"cons": 3, "primes": 6, "minprime": 5}})
	mk("mus", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 6, steps: 6, max: 25, noPbc: 60, conserve: 10, ops: map[string]int{"mus": 6, "smus": 5}})
	mk("simp", fprofile{nmin: 2, nmax: 5, depth: 4, fill: 8, steps: 12, max: 60, noPbc: 60, conserve: 10, ops: map[string]int{"cons": 3, "simp": 12, "subsume": 4}})
	mk("trans", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 8, steps: 12, max: 40, noPbc: 40, conserve: 20, ops: map[string]int{"cons": 3, "subst": 6, "qe": 4, "expand": 4, "anon": 5}})
	mk("limits", fprofile{nmin: 1, nmax: 6, depth: 4, fill: 2, steps: 12, max: 60, noPbc: 100, conserve: 30, ops: map[string]int{"limits": 1}})
	mk("draw", fprofile{nmin: 2, nmax: 8, depth: 4, fill: 6, steps: 12, max: 40, noPbc: 30, conserve: 30, ops: map[string]int{"cons": 2, "draw": 9, "drawgraph": 3}})
	mk("graph", fprofile{nmin: 2, nmax: 8, depth: 3, fill: 6, steps: 10, max: 20, noPbc: 40, conserve: 20, ops: map[string]int{"cons": 2, "cgraph": 6, "hyper": 5}})
	mk("cover", fprofile{nmin: 2, nmax: 2, depth: 1, fill: 1, steps: 5, max: 20, ops: map[string]int{"cover": 6}})
	mk("pred", fprofile{nmin: 2, nmax: 6, depth: 4, fill: 8, steps: 10, max: 60, noPbc: 50, conserve: 10, ops: map[string]int{"cons": 4, "pred": 10}})
	mk("pbc", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 4, steps: 10, max: 30, ops: map[string]int{"pbc": 10, "cons": 2}})
	mix := map[string]int{"cons": 6, "eval": 1, "restrict": 2, "decide": 1, "struct": 3, "nf": 6, "def": 3, "defacc": 2, "pbc": 3, "count": 2, "countf": 2,
		"enumf": 2, "dnnf": 3, "primes": 2, "minprime": 1, "mus": 1, "smus": 1, "simp": 6, "subst": 3, "qe": 2, "expand": 2, "anon": 2, "cgraph": 1, "hyper": 1, "pred": 2, "again": 1}
	drivers["gf_struct"] = genDriver(25, "struct", "eval", "restrict", "decide", "eval", "restrict", "decide")
	drivers["gf_nf"] = genDriver(25, "nf", "nf", "nf", "nf", "nf")
	drivers["gf_def"] = genDriver(25, "def", "def", "def", "defacc", "defacc", "def")
	drivers["gf_simp"] = genDriver(15, "simp", "simp", "simp", "simp", "simp")
	drivers["gf_count"] = genDriver(15, "count", "countf", "enumf")
	drivers["gf_dnnf"] = genDriver(15, "dnnf")
	drivers["gf_primes"] = genDriver(0, "primes", "primes", "minprime")
	drivers["gf_trans"] = genDriver(15, "subst", "subst", "qe", "qe")
	drivers["gf_pred"] = genDriver(15, "pred", "pred")
	mk("mix", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 6, steps: 24, max: 30, noPbc: 60, conserve: 25, ops: mix})
	canc := map[string]int{"nf": 6, "count": 3, "countf": 2, "enumf": 3, "dnnf": 4, "primes": 4, "mus": 4, "smus": 3, "simp": 6, "subsume": 3, "pred": 1}
	mk("fcancel", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 6, steps: 16, max: 30, noPbc: 60, cancel: 60, ops: canc})
	mk("fhandler", fprofile{nmin: 2, nmax: 5, depth: 3, fill: 6, steps: 16, max: 30, noPbc: 60, cancel: 0, ops: canc})
}

// repeats: some conjunction or disjunction has an operand twice or a literal
// and its negation (possible in clauses built from literals)
func repeats(a AST) bool {
	switch toInt(a[0]) {
	case tAnd, tOr:
		seen := map[string]bool{}
		for _, x := range a[1:] {
			k := fmt.Sprint(x)
			y := x.(AST)
			t := toInt(y[0])
			if seen[k] {
				return true
			}
			seen[k] = true
			if t == tPos || t == tNeg {
				if seen[fmt.Sprint(AST{tPos + tNeg - t, y[1]})] {
					return true
				}
			}
		}
		fallthrough
	case tNot, tImpl, tEquiv:
		for _, x := range a[1:] {
			if repeats(x.(AST)) {
				return true
			}
		}
	}
	return false
}
