package main

import (
	"math/big"
	"slices"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/np"
	"github.com/booleworks/logicng-go/sat"
)

// Wide episodes: formulas over many variables (see WideFormula.tla).  Results
// are compared with the input on a sample of assignments, chosen here such
// that both truth values occur; the formulas called trees combine formulas over
// disjoint sets of few variables, so that they can be decided exactly.

// digits writes a number to the base 1000, least significant digit first
func digits(b *big.Int) []int {
	r := []int{}
	if b == nil || b.Sign() < 0 {
		return []int{-1}
	}
	x, k, m := new(big.Int).Set(b), big.NewInt(1000), new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, k, m)
		r = append(r, int(m.Int64()))
	}
	return r
}

// evalT evaluates any tree; used to pick inputs, never to judge a result.
func evalT(a AST, s map[int]bool) bool {
	switch toInt(a[0]) {
	case tFalse:
		return false
	case tTrue:
		return true
	case tNot:
		return !evalT(a[1].(AST), s)
	case tImpl:
		return !evalT(a[1].(AST), s) || evalT(a[2].(AST), s)
	case tEquiv:
		return evalT(a[1].(AST), s) == evalT(a[2].(AST), s)
	case tAnd, tOr:
		for _, x := range a[1:] {
			if evalT(x.(AST), s) != (toInt(a[0]) == tAnd) {
				return toInt(a[0]) != tAnd
			}
		}
		return toInt(a[0]) == tAnd
	}
	return evalSet(a, s)
}

// want tries to give a the value b under s, which grows
func (e *Ep) want(a AST, b bool, s map[int]bool) {
	set := func(x int, b bool) {
		if x < 0 {
			x, b = -x, !b
		}
		if _, ok := s[x]; !ok {
			s[x] = b
		}
	}
	switch t := toInt(a[0]); t {
	case tPos:
		set(toInt(a[1]), b)
	case tNeg:
		set(-toInt(a[1]), b)
	case tNot:
		e.want(a[1].(AST), !b, s)
	case tAnd, tOr:
		if b == (t == tAnd) {
			for _, i := range e.Perm(len(a) - 1) {
				e.want(a[i+1].(AST), b, s)
			}
		} else if len(a) > 1 {
			e.want(a[e.Intn(len(a)-1)+1].(AST), b, s)
		}
	case tImpl:
		if b {
			if e.pct(50) {
				e.want(a[1].(AST), false, s)
			} else {
				e.want(a[2].(AST), true, s)
			}
		} else {
			e.want(a[1].(AST), true, s)
			e.want(a[2].(AST), false, s)
		}
	case tEquiv:
		c := e.pct(50)
		e.want(a[1].(AST), c, s)
		e.want(a[2].(AST), c == b, s)
	case tPbc:
		ls := toInts(a[3])
		for try := 0; try < 6; try++ {
			loc := map[int]bool{}
			p := e.Intn(101)
			for _, x := range ls {
				v := max(x, -x)
				if w, ok := s[v]; ok {
					loc[v] = w
				} else {
					loc[v] = e.pct(p)
				}
			}
			if evalT(a, loc) == b || try == 5 {
				for v, w := range loc {
					s[v] = w
				}
				return
			}
		}
	}
}

// points samples assignments of 1..n for the trees
func (e *Ep) points(n, k int, trees ...AST) A {
	r := A{}
	add := func(s map[int]bool) {
		t := []int{}
		for v := 1; v <= n; v++ {
			if s[v] {
				t = append(t, v)
			}
		}
		r = append(r, t)
	}
	for i := 0; i < k; i++ {
		s := map[int]bool{}
		if len(trees) > 0 && i > 0 {
			a := trees[e.Intn(len(trees))]
			for try := 0; try < 4; try++ {
				s = map[int]bool{}
				e.want(a, i%2 == 0, s)
				for v := 1; v <= n; v++ {
					if _, ok := s[v]; !ok {
						s[v] = e.pct(50)
					}
				}
				if evalT(a, s) == (i%2 == 0) {
					break
				}
			}
			add(s)
			v := e.Intn(n) + 1
			s[v] = !s[v]
			add(s)
			continue
		}
		for v := 1; v <= n; v++ {
			s[v] = e.pct(50)
		}
		add(s)
	}
	return r
}

// symmetric restricts the number of true literals over vs
func (e *Ep) symmetric(vs []int) AST {
	k := len(vs)
	ls := slices.Clone(vs)
	if e.pct(30) {
		for i := range ls {
			if e.pct(50) {
				ls[i] = -ls[i]
			}
		}
	}
	e.Shuffle(k, func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	b := e.Intn(k + 1)
	if e.pct(30) {
		b = []int{0, 1, 2, k - 1, k, k + 1}[e.Intn(6)]
	}
	return AST{tPbc, e.Intn(5), b, ls, ones(k)}
}

// tree combines formulas over blocks of at most w variables taken from vs
func (e *Ep) tree(vs []int, w int, o Opts, op int) AST {
	if o.sym && len(vs) > w && len(vs) <= 24 && e.pct(25) {
		return e.symmetric(vs)
	}
	if len(vs) <= w && (e.pct(70) || len(vs) < 3) || len(vs) < 2 {
		o.n = len(vs)
		return rename(e.rform(o), vs)
	}
	if op == 0 {
		op = []int{tAnd, tAnd, tOr, tOr, tImpl, tEquiv, tNot}[e.Intn(7)]
		if op == tEquiv && e.pct(60) {
			op = tAnd
		}
	}
	if op == tNot {
		return AST{tNot, e.tree(vs, w, o, tAnd+e.Intn(2))}
	}
	k := 2
	if op == tAnd || op == tOr {
		k = max(2, len(vs)/w)
		if k > 2 && e.pct(50) {
			k = e.Intn(k-1) + 2
		}
	}
	r := AST{op}
	cut := []int{0, len(vs)}
	for len(cut) < k+1 {
		c := e.Intn(len(vs)-1) + 1
		if !slices.Contains(cut, c) {
			cut = append(cut, c)
		}
		if len(vs) <= k {
			break
		}
	}
	slices.Sort(cut)
	for i := 1; i < len(cut); i++ {
		r = append(r, e.tree(vs[cut[i-1]:cut[i]], w, o, 0))
	}
	return r
}

type wideEp struct {
	*formulaEp
	order  []int
	reo    bool
	blocks bool
	past   []pastTree // trees that may be used again
	renew  bool
}

type pastTree struct {
	a    AST
	k    int
	flat bool
}

// rtree is a tree over some of the variables; the flat ones are conjunctions
// or disjunctions of formulas over few variables
func (e *wideEp) rtree(most int, flat bool) AST {
	if e.renew && len(e.past) > 0 && e.pct(40) {
		if p := e.past[e.Intn(len(e.past))]; p.k <= most && p.flat == flat {
			return p.a
		}
	}
	a := e.newTree(most, flat)
	vs := map[int]bool{}
	astVars(a, vs)
	if !e.o.sym {
		e.past = append(e.past, pastTree{a, len(vs), flat})
	}
	return a
}

func (e *wideEp) newTree(most int, flat bool) AST {
	n := e.n
	k := min(n, most)
	if k > 4 && e.pct(50) {
		k = e.Intn(k-3) + 4
	}
	start := e.Intn(n - k + 1)
	o := e.o
	o.depth = e.Intn(3) + 1
	w := e.Intn(4) + 2
	vs := e.order[start : start+k]
	if !flat {
		return e.tree(vs, w, o, 0)
	}
	r := AST{tAnd}
	if e.pct(25) {
		r[0] = tOr
	}
	for len(vs) > 0 {
		c := min(len(vs), e.Intn(w)+1)
		o.n = c
		r = append(r, rename(e.rform(o), vs[:c]))
		vs = vs[c:]
	}
	e.Shuffle(len(r)-1, func(i, j int) { r[i+1], r[j+1] = r[j+1], r[i+1] })
	return r
}

func (e *wideEp) fillWide(k int) {
	for i := 0; i < k; i++ {
		var a AST
		switch e.Intn(4) {
		case 0, 1:
			a = e.rtree(e.n, e.pct(50))
		case 2:
			o := e.o
			o.depth = e.Intn(4) + 1
			o.ops = e.Intn(8) + 2
			a = e.rform(o)
		case 3:
			a = AST{tAnd}
			for _, c := range e.rclauses(e.n, e.Intn(20)+3, 4) {
				a = append(a, c)
			}
		}
		e.keep(e.build(a))
	}
	for len(e.pool) < 2 {
		e.keep(e.build(e.rlit(e.n)))
	}
}

func (e *wideEp) plain() func() {
	o := e.o
	e.o.pbc, e.o.cc, e.o.consts = false, false, false
	return func() { e.o = o }
}

func (e *wideEp) count() {
	defer e.plain()()
	k := e.Intn(3) + 1
	var fs []f.Formula
	trees := A{}
	vs := []int{}
	for i, cut := 0, 0; i < k; i++ {
		// consecutive parts of the order, so the trees share no variables
		end := e.n
		if i < k-1 {
			end = cut + (e.n-cut)/(k-i)
		}
		part := e.order[cut:end]
		cut = end
		if len(part) < 2 {
			continue
		}
		m := len(part)
		if m > 3 {
			m = e.Intn(m-2) + 2
		}
		o := e.o
		o.depth = e.Intn(3) + 1
		w := e.Intn(4) + 2
		op := 0
		if m > 14 {
			op = tAnd
			if e.pct(15) {
				op = tOr
			}
		}
		a := e.tree(part[:m], w, o, op)
		trees = append(trees, a)
		fs = append(fs, e.build(a))
		vs = append(vs, part[:m]...)
	}
	for _, v := range e.order {
		if !slices.Contains(vs, v) && e.pct(40) {
			vs = append(vs, v)
		}
	}
	e.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	c, err := count.Count(e.fac, e.varsOf(vs), slices.Clone(fs)...)
	if err != nil {
		panic(err)
	}
	e.emit("bigcount", M{"trees": trees, "vars": vs, "cnt": digits(c)})
}

func (e *wideEp) dnnf() {
	defer e.plain()()
	flat := e.pct(60)
	a := e.rtree(map[bool]int{true: 90, false: 16}[flat], flat)
	x := e.build(a)
	vs := f.Variables(e.fac, x).Size()
	d := dnnf.Compile(e.fac, x)
	all := map[int]bool{}
	astVars(a, all)
	m := M{"tree": a, "f": e.t(x), "g": e.t(d.Formula), "cnt": digits(d.ModelCount()), "k": vs}
	e.emit("bigdnnf", m)
}

// diagram compiles a tree with an order that follows its blocks
func (e *wideEp) diagram() {
	defer e.plain()()
	e.o.sym = e.pct(50)
	a := e.rtree(e.n, e.pct(50))
	x := e.build(a)
	order := slices.Clone(e.order)
	nodes, cache := []int{10, 100, 5000}[e.Intn(3)], []int{1, 10, 1000}[e.Intn(3)]
	e.blocks = false
	k := bdd.NewKernelWithOrdering(e.fac, e.varsOf(order), int32(nodes), int32(cache))
	var b *bdd.BDD
	if e.pct(50) {
		b = bdd.CompileWithKernel(e.fac, x, k)
	} else {
		b, _ = bdd.CompileWithKernelAndHandler(e.fac, x, k, handler.NopHandler)
	}
	// another way to the same diagram
	var comb func(a AST) *bdd.BDD
	comb = func(a AST) *bdd.BDD {
		s := func(i int) *bdd.BDD { return comb(a[i].(AST)) }
		switch toInt(a[0]) {
		case tNot:
			return s(1).Negate()
		case tImpl:
			return s(1).Implies(s(2))
		case tEquiv:
			return s(1).Equivalence(s(2))
		case tAnd, tOr:
			r := s(1)
			for i := 2; i < len(a); i++ {
				if toInt(a[0]) == tAnd {
					r = r.And(s(i))
				} else {
					r = r.Or(s(i))
				}
			}
			return r
		}
		return bdd.CompileWithKernel(e.fac, e.build(a), k)
	}
	if e.reo {
		e.shift(k)
	}
	c := comb(a)
	if e.reo {
		e.shift(k)
	}
	m := M{"tree": a, "n": len(order), "cnt": digits(b.ModelCount()), "same": b.Index == c.Index}
	m["taut"], m["contra"] = b.IsTautology(), b.IsContradiction()
	sup := []int{}
	for _, v := range b.Support() {
		sup = append(sup, e.idx(v))
	}
	m["support"] = sup
	// literals fixed one after another
	ls := e.litset(25)
	r := b.Restrict(e.litsOf(ls)...)
	m["lits"], m["rcnt"] = ls, digits(r.ModelCount())
	md, err := b.FullModel()
	m["model"] = []int{}
	if err == nil {
		m["model"] = e.lits(md.Literals)
	}
	m["has"] = err == nil
	e.emit("bigbdd", m)
	e.hs = nil
	if q := b.NodeCount(); q < 60 && e.pct(50) {
		if g := b.ToFormula(e.fac); f.NumberOfNodes(e.fac, g) < 300 {
			e.emit("equiv", M{"f": e.t(x), "g": e.t(g)})
			e.hs = nil
		}
		vs, ex := e.rvarset(e.n, e.Intn(6)+1), e.pct(50)
		if len(vs) > 6 {
			vs = vs[:6]
		}
		var y *bdd.BDD
		if ex {
			y = b.Exists(e.varsOf(vs)...)
		} else {
			y = b.ForAll(e.varsOf(vs)...)
		}
		if g := y.ToFormula(e.fac); f.NumberOfNodes(e.fac, g) < 300 {
			e.emit("qe", M{"ex": ex, "f": e.t(x), "vars": vs, "g": e.t(g)})
			e.hs = nil
		}
		if n := b.NumberOfCNFClauses(); n.IsInt64() && n.Int64() < 60 {
			e.emit("nf", M{"kind": "cnf", "f": e.t(x), "g": e.t(b.CNF()), "ok": true, "canceled": false})
			e.hs = nil
		}
		if n := b.PathCountOne(); n.IsInt64() && n.Int64() < 60 {
			e.emit("nf", M{"kind": "dnf", "f": e.t(x), "g": e.t(b.DNF()), "ok": true, "canceled": false})
		}
	}
}

// shift changes the order of the variables
func (e *wideEp) shift(k *bdd.Kernel) {
	if !e.blocks && e.pct(40) {
		for i := e.Intn(6); i >= 0; i-- {
			j := e.Intn(e.n - 1)
			if err := k.SwapVariables(e.vars[e.order[j]-1], e.vars[e.order[j+1]-1]); err != nil {
				panic(err)
			}
		}
		return
	}
	if !e.blocks {
		k.AddAllVariablesAsBlock()
		e.blocks = true
	}
	k.Reorder(methods[e.Intn(len(methods))])
}

func (e *wideEp) preds() {
	e.o.sym = e.pct(50)
	defer func() { e.o.sym = false }()
	a := e.rtree(e.n, e.pct(50))
	x := e.build(a)
	m := M{"tree": a, "sat": sat.IsSatisfiable(e.fac, x), "taut": sat.IsTautology(e.fac, x), "contra": sat.IsContradiction(e.fac, x)}
	e.emit("bigpred", m)
}

// bigPrimes: formulas with few prime implicants and implicates
func (e *wideEp) bigPrimes() {
	defer e.plain()()
	n := e.n
	top := tAnd + e.Intn(2)
	a := AST{top}
	pos := 0
	part := func(k int) []int {
		k = min(k, n-pos)
		pos += k
		return e.order[pos-k : pos]
	}
	for i := e.Intn(2); i >= 0; i-- {
		vs := part(e.Intn(4) + 2)
		o := e.o
		o.n, o.depth = len(vs), e.Intn(3)+1
		a = append(a, rename(e.rform(o), vs))
	}
	if vs := part(e.Intn(25) + 3); len(vs) > 0 {
		g := AST{tAnd + tOr - top}
		for _, v := range vs {
			g = append(g, AST{tPos + e.Intn(2), v})
		}
		if e.pct(40) { // one level more
			if vs := part(e.Intn(6) + 2); len(vs) > 0 {
				h := AST{top}
				for _, v := range vs {
					h = append(h, AST{tPos + e.Intn(2), v})
				}
				g = append(g, h)
			}
		}
		a = append(a, g)
	}
	e.Shuffle(len(a)-1, func(i, j int) { a[i+1], a[j+1] = a[j+1], a[i+1] })
	m := e.primesOf(e.build(a))
	delete(m, "f")
	m["tree"] = a
	if x, ok := m["imps"].(A); ok && len(x)+len(m["cates"].(A)) > 250 {
		e.hs = nil
		return
	}
	e.emit("bigprimes", m)
}

func (e *wideEp) bigMinPrime() {
	defer e.plain()()
	var a AST
	if e.pct(30) {
		a = e.rtree(min(e.n, 24), e.pct(50))
	} else {
		a = AST{tAnd}
		vs := e.order[:min(e.n, e.Intn(30)+8)]
		for len(vs) > 0 {
			c := min(len(vs), e.Intn(6)+1)
			if e.pct(15) {
				c = min(len(vs), e.Intn(12)+1)
				o := AST{tOr}
				for _, v := range vs[:c] {
					o = append(o, AST{tPos + e.Intn(2), v})
				}
				a = append(a, o)
			} else {
				g := AST{tAnd}
				for _, x := range e.rclauses(c, e.Intn(2*c)+1, 4) {
					g = append(g, rename(x, vs[:c]))
				}
				a = append(a, g)
			}
			vs = vs[c:]
		}
	}
	m := e.minPrimeOf(e.build(a))
	delete(m, "f")
	m["tree"] = a
	e.emit("bigminprime", m)
}

// groups are formulas over disjoint sets of few variables, some of which are
// contradictory
func (e *wideEp) groups() []f.Formula {
	var fs []f.Formula
	vs := e.order
	bad := e.Intn(3)
	for len(vs) > 1 && len(fs) < 45 {
		c := min(len(vs), e.Intn(5)+2)
		k := e.Intn(c + 1)
		if e.pct(30) || bad > 0 {
			k = 2*c + e.Intn(4)
			bad--
		}
		for i := 0; i < min(k, 9); i++ {
			var a AST
			if e.pct(75) {
				a = e.rclauses(c, 1, 3)[0]
			} else {
				o := e.o
				o.n, o.depth, o.consts = c, e.Intn(2)+1, false
				a = e.rform(o)
			}
			fs = append(fs, e.build(rename(a, vs[:c])))
		}
		vs = vs[c:]
	}
	e.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return fs
}

// longCore: formulas of which many are needed for a contradiction
func (e *wideEp) longCore() []f.Formula {
	var fs []f.Formula
	c := min(e.Intn(2)+3, e.n)
	core := e.order[:c]
	if e.pct(50) {
		for i := 0; i < 1<<c; i++ {
			o := AST{tOr}
			for j, v := range core {
				o = append(o, AST{tPos + i>>j&1, v})
			}
			fs = append(fs, e.build(o))
		}
	} else {
		c = min(e.Intn(2)+6, e.n)
		core = e.order[:c]
		fs = append(fs, e.build(AST{tPos, core[0]}), e.build(AST{tNeg, core[c-1]}))
		for j := 1; j < c; j++ {
			fs = append(fs, e.build(AST{tImpl, AST{tPos, core[j-1]}, AST{tPos, core[j]}}))
		}
	}
	for i := e.Intn(20); i > 0; i-- {
		k := min(e.Intn(3)+1, e.n)
		at := 0
		if e.pct(50) {
			at = c + 4*e.Intn(6)
		}
		if at+k > e.n || at == 0 && k > c {
			continue
		}
		fs = append(fs, e.build(rename(e.rclauses(k, 1, 3)[0], e.order[at:at+k])))
	}
	e.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return fs
}

func (e *wideEp) bigMus() {
	if e.pct(25) {
		e.musOf("bigmus", e.longCore())
		return
	}
	e.musOf("bigmus", e.groups())
}

func (e *wideEp) bigSmus() {
	fs := e.groups()
	k := len(fs)
	if k > 3 && e.pct(40) {
		k -= e.Intn(k / 2)
	}
	e.smusOf("bigsmus", slices.Clone(fs[:k]), slices.Clone(fs[k:]))
}

func (e *wideEp) bigCover() {
	var sets [][]int
	u := 0
	for b := e.Intn(6) + 1; b > 0; b-- {
		m := e.Intn(9) + 1
		p := 20 + e.Intn(40)
		for i := e.Intn(7) + 1; i > 0; i-- {
			var s []int
			for x := 1; x <= m; x++ {
				if e.pct(p) {
					s = append(s, u+x)
				}
			}
			if len(s) == 0 && e.pct(80) {
				s = append(s, u+e.Intn(m)+1)
			}
			if len(s) > 0 && e.pct(5) {
				s = append(s, s[0])
			}
			e.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
			if s == nil {
				s = []int{}
			}
			sets = append(sets, s)
			if e.pct(5) {
				sets = append(sets, slices.Clone(s))
			}
		}
		u += m
	}
	e.Shuffle(len(sets), func(a, b int) { sets[a], sets[b] = sets[b], sets[a] })
	in := make([][]int, len(sets))
	for i := range sets {
		in[i] = slices.Clone(sets[i])
	}
	r := np.MinimumSetCover(in)
	if r == nil {
		r = [][]int{}
	}
	for i := range sets {
		if !slices.Equal(in[i], sets[i]) {
			e.ev("panic", M{"msg": "sets passed by the caller were changed"})
		}
	}
	e.emit("bigcover", M{"sets": sets, "r": r})
}

// flatnf: a normal form of a conjunction or disjunction of small formulas
func (e *wideEp) setFlat() {
	a := e.rtree(e.n, true)
	if toInt(a[0]) == tOr {
		// a disjunction of many parts explodes in conjunctive form
		a = a[:min(len(a), 6)]
	}
	e.pool = append(e.pool, e.build(a))
}

func wideDriver(p fprofile) driver {
	names := []string{}
	tot := 0
	for k := range p.ops {
		names = append(names, k)
	}
	slices.Sort(names)
	for _, k := range names {
		tot += p.ops[k]
	}
	return func(e *Ep) {
		x := &wideEp{formulaEp: newFormulaEp(e, p)}
		x.wide, x.reo, x.renew = true, p.reorder, p.again
		for _, i := range e.Perm(x.n) {
			x.order = append(x.order, i+1)
		}
		e.try("fill", func() { x.fillWide(p.fill) })
		ops := x.ops()
		ops["count"], ops["dnnf"], ops["bdd"], ops["preds"] = x.count, x.dnnf, x.diagram, x.preds
		ops["bigprimes"], ops["bigminprime"], ops["bigmus"], ops["bigsmus"], ops["bigcover"] = x.bigPrimes, x.bigMinPrime, x.bigMus, x.bigSmus, x.bigCover
		steps := p.steps/2 + e.Intn(p.steps)
		for i := 0; i < steps; i++ {
			r := e.Intn(tot)
			for _, k := range names {
				if r < p.ops[k] {
					if e.pct(40) && (k == "nf" || k == "def" || k == "simp") {
						x.setFlat()
					}
					if !e.try(k, ops[k]) {
						x.hs = nil
						return
					}
					x.hs, x.toobig = nil, false
					break
				}
				r -= p.ops[k]
			}
		}
		e.try("again", x.again)
	}
}

func init() {
	mk := func(name string, p fprofile) { drivers[name] = wideDriver(p) }
	mk("wide_struct", fprofile{nmin: 8, nmax: 80, depth: 5, fill: 6, steps: 10, max: 300, conserve: 20, noPbc: 30, ops: map[string]int{"struct": 8, "eval": 3, "restrict": 4}})
	mk("wide_nf", fprofile{nmin: 8, nmax: 30, depth: 4, fill: 5, steps: 8, max: 150, conserve: 20, noPbc: 80, ops: map[string]int{"nf": 10}})
	mk("wide_def", fprofile{nmin: 8, nmax: 24, depth: 4, fill: 5, steps: 6, max: 100, conserve: 20, noPbc: 80, ops: map[string]int{"def": 6, "defacc": 5}})
	mk("wide_simp", fprofile{nmin: 8, nmax: 24, depth: 4, fill: 5, steps: 8, max: 120, conserve: 10, noPbc: 80, ops: map[string]int{"simp": 12, "subsume": 4}})
	mk("wide_trans", fprofile{nmin: 8, nmax: 40, depth: 4, fill: 6, steps: 10, max: 150, conserve: 20, noPbc: 40, ops: map[string]int{"subst": 6, "qe": 4, "expand": 4, "anon": 5}})
	mk("wide_graph", fprofile{nmin: 8, nmax: 60, depth: 2, fill: 5, steps: 8, max: 60, conserve: 20, noPbc: 40, ops: map[string]int{"cgraph": 6, "hyper": 5}})
	mk("wide_count", fprofile{nmin: 10, nmax: 90, depth: 3, fill: 2, steps: 6, max: 60, noPbc: 100, ops: map[string]int{"count": 6}})
	mk("wide_dnnf", fprofile{nmin: 10, nmax: 80, depth: 3, fill: 2, steps: 6, max: 60, noPbc: 100, ops: map[string]int{"dnnf": 6}})
	mk("wide_bdd", fprofile{nmin: 10, nmax: 60, depth: 3, fill: 2, steps: 6, max: 60, noPbc: 100, ops: map[string]int{"bdd": 6}})
	mk("wide_reorder", fprofile{nmin: 10, nmax: 40, depth: 3, fill: 2, steps: 6, max: 60, noPbc: 100, reorder: true, ops: map[string]int{"bdd": 6}})
	mk("wide_primes", fprofile{nmin: 8, nmax: 36, depth: 3, fill: 2, steps: 6, max: 60, noPbc: 100, ops: map[string]int{"bigprimes": 5, "bigminprime": 5}})
	mk("wide_mus", fprofile{nmin: 8, nmax: 50, depth: 3, fill: 2, steps: 8, max: 60, noPbc: 60, ops: map[string]int{"bigmus": 6, "bigsmus": 4}})
	mk("wide_cover", fprofile{nmin: 8, nmax: 10, depth: 1, fill: 2, steps: 4, max: 60, noPbc: 100, ops: map[string]int{"bigcover": 4}})
	mk("wide_cons", fprofile{nmin: 8, nmax: 60, depth: 3, fill: 5, steps: 24, max: 90, conserve: 40, noPbc: 30, ops: map[string]int{"cons": 20, "again": 1}})
	mk("wide_mix", fprofile{nmin: 8, nmax: 20, depth: 3, fill: 5, steps: 14, max: 80, conserve: 15, noPbc: 80, again: true, ops: map[string]int{"cons": 4, "struct": 3, "nf": 4,
		"def": 2, "simp": 3, "subst": 2, "restrict": 2, "cgraph": 1, "expand": 1, "anon": 1, "qe": 1, "preds": 1, "bdd": 1, "dnnf": 1, "count": 1, "bigprimes": 1, "bigmus": 1, "again": 1}})
	mk("wide_cancel", fprofile{nmin: 8, nmax: 20, depth: 3, fill: 5, steps: 12, max: 80, noPbc: 80, cancel: 60, again: true, ops: map[string]int{"nf": 4, "simp": 4, "subsume": 2,
		"bigprimes": 3, "bigmus": 3, "bigsmus": 3, "def": 1}})
	mk("wide_pred", fprofile{nmin: 10, nmax: 60, depth: 3, fill: 2, steps: 8, max: 60, noPbc: 60, ops: map[string]int{"preds": 6}})
}
