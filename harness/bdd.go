package main

import (
	"fmt"
	"math/big"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
)

type bddKernel struct {
	k      *bdd.Kernel
	cap    int
	names  []int // named variables in the order of their indices
	blocks bool
	full   bool // all variables were named when the kernel was made
	defd   []bddBlock
	auto   bool
	any    *bdd.BDD
}

func (k *bddKernel) knows(v int) bool {
	for _, x := range k.names {
		if x == v {
			return true
		}
	}
	return false
}

// name records that the variables get named in this order
func (k *bddKernel) name(vs ...int) {
	for _, v := range vs {
		if !k.knows(v) {
			k.names = append(k.names, v)
		}
	}
}

type bddDiag struct {
	b *bdd.BDD
	k int
}

type bddEp struct {
	*Ep
	ks       []*bddKernel
	ds       []bddDiag
	reorder  bool
	cancel   int
	fsize    int
	deep     int
	noconsts bool
}

func (e *bddEp) order(b *bdd.BDD) []int {
	vs := b.VariableOrder()
	r := make([]int, len(vs))
	for i, v := range vs {
		if v != 0 {
			r[i] = e.idx(v)
		}
	}
	return r
}

func (e *bddEp) kord(k int) []int {
	return e.order(&bdd.BDD{Kernel: e.ks[k].k, Index: 0})
}

func (e *bddEp) addDiag(b *bdd.BDD, k int) { e.ds = append(e.ds, bddDiag{b, k}) }

func (e *bddEp) sizes(cap int) (int32, int32) {
	switch e.Intn(5) {
	case 0:
		return 1, 1
	case 1:
		return int32(e.Intn(60) + 3), int32(e.Intn(60) + 3)
	case 2:
		return int32(cap * 30), int32(cap * 20)
	case 3:
		return 1000, int32(e.Intn(10) + 1)
	}
	return int32(e.Intn(20) + 2*cap + 2), int32(e.Intn(30) + 3)
}

func (e *bddEp) kernel() {
	k := &bddKernel{}
	if e.pct(40) {
		k.cap = e.n
		if e.pct(30) {
			k.cap += e.Intn(4)
		}
		if e.pct(10) {
			k.cap = e.Intn(e.n) + 1
		}
		ns, cs := e.sizes(k.cap)
		k.k = bdd.NewKernel(e.fac, int32(k.cap), ns, cs)
	} else {
		p := e.Perm(e.n)
		if e.pct(15) {
			p = p[:e.Intn(e.n)+1]
		}
		for _, i := range p {
			k.names = append(k.names, i+1)
		}
		k.cap = len(p)
		ns, cs := e.sizes(k.cap)
		k.k = bdd.NewKernelWithOrdering(e.fac, e.varsOf(k.names), ns, cs)
	}
	e.ks = append(e.ks, k)
	e.ev("kernel", M{"cap": k.cap, "names": append([]int{}, k.names...)})
}

func (e *bddEp) form(depth int) AST {
	return e.rform(Opts{n: e.n, depth: depth, ops: 3, consts: e.pct(10), cc: e.pct(20), pbc: e.pct(15), impl: true})
}

// fits: the kernel has room for the variables of the formula
func (k *bddKernel) fits(vs []int) bool {
	m := len(k.names)
	for _, v := range vs {
		if !k.knows(v) {
			m++
		}
	}
	return m <= k.cap
}

func (e *bddEp) handler() *stopper {
	if e.cancel > 0 && e.pct(e.cancel) {
		k := e.Intn(6) + 1
		if e.pct(50) {
			k = e.Intn(40) + 1
		}
		return &stopper{k: k, once: e.pct(50)}
	}
	return &stopper{}
}

// alone compiles with an own kernel
func (e *bddEp) alone() {
	x := e.build(e.form(e.Intn(4)))
	given := []int{}
	h := e.handler()
	var b *bdd.BDD
	st := handler.Success()
	if e.pct(50) {
		if e.pct(60) {
			b, st = bdd.CompileWithHandler(e.fac, x, h)
		} else {
			b = bdd.Compile(e.fac, x)
		}
	} else {
		o := e.varOrder(x)
		given = o
		if e.pct(30) {
			// further variables
			for _, i := range e.Perm(e.n) {
				in := false
				for _, v := range given {
					in = in || v == i+1
				}
				if !in && e.pct(40) {
					given = append(given, i+1)
				}
			}
		}
		if len(given) == 0 {
			given = []int{e.Intn(e.n) + 1}
		}
		if e.pct(60) {
			b, st = bdd.CompileWithVarOrderAndHandler(e.fac, x, e.varsOf(given), h)
		} else {
			b = bdd.CompileWithVarOrder(e.fac, x, e.varsOf(given))
		}
	}
	e.verdict(st, h)
	m := M{"f": e.dump(x), "given": given, "ok": st.Success, "canceled": h.stopped}
	if st.Success {
		m["idx"], m["ord"] = b.Index, e.order(b)
		k := &bddKernel{k: b.Kernel, cap: len(b.VariableOrder()), names: e.order(b), full: true}
		e.ks = append(e.ks, k)
		e.addDiag(b, len(e.ks)-1)
	}
	e.ev("alone", m)
}

// varOrder computes an order of the variables of a formula
func (e *bddEp) varOrder(x f.Formula) []int {
	var vs []f.Variable
	switch e.Intn(6) {
	case 0:
		vs = bdd.BFSOrder(e.fac, x)
	case 1:
		vs = bdd.DFSOrder(e.fac, x)
	case 2:
		vs = bdd.MinToMaxOrder(e.fac, x)
	case 3:
		vs = bdd.MaxToMinOrder(e.fac, x)
	case 4:
		if x.IsConstant() || e.hasPbc(x) {
			vs = f.Variables(e.fac, x).Content()
			break
		}
		vs = bdd.ForceOrder(e.fac, x)
	default:
		vs = append([]f.Variable{}, f.Variables(e.fac, x).Content()...)
		e.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	}
	r := e.idxs(vs)
	e.ev("varorder", M{"f": e.dump(x), "ord": r})
	return r
}

func (e *Ep) hasPbc(x f.Formula) bool {
	for _, s := range f.SubNodes(e.fac, x) {
		if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
			return true
		}
	}
	return false
}

func (e *bddEp) compile() {
	ki := e.Intn(len(e.ks))
	k := e.ks[ki]
	x := e.build(e.form(e.Intn(4) + e.deep))
	vs := e.idxs(f.Variables(e.fac, x).Content())
	if !k.fits(vs) {
		return
	}
	h := e.handler()
	var b *bdd.BDD
	st := handler.Success()
	if e.pct(60) {
		b, st = bdd.CompileWithKernelAndHandler(e.fac, x, k.k, h)
	} else {
		b = bdd.CompileWithKernel(e.fac, x, k.k)
	}
	e.verdict(st, h)
	m := M{"k": ki + 1, "f": e.dump(x), "ok": st.Success, "canceled": h.stopped, "ord": e.kord(ki)}
	if st.Success {
		m["idx"] = b.Index
		k.name(vs...)
		e.addDiag(b, ki)
	} else {
		for _, v := range e.kord(ki) {
			if v != 0 {
				k.name(v)
			}
		}
	}
	e.ev("compile", m)
}

// lits chooses literals of different variables that fit the kernel
func (e *bddEp) someLits(k *bddKernel, least int, pos bool) []int {
	for {
		r := []int{}
		m := least
		if e.pct(60) {
			m += e.Intn(3)
		}
		for _, i := range e.Perm(e.n)[:min(m, e.n)] {
			v := i + 1
			if !pos && e.pct(50) {
				v = -v
			}
			r = append(r, v)
		}
		vs := []int{}
		for _, x := range r {
			vs = append(vs, abs(x))
		}
		if k.fits(vs) {
			k.name(vs...)
			return r
		}
		if least > 0 {
			least--
		}
	}
}

func (e *bddEp) literals() {
	ki := e.Intn(len(e.ks))
	ls := e.someLits(e.ks[ki], 1, e.pct(40))
	if len(ls) == 0 {
		return
	}
	b := bdd.CompileLiterals(e.litsOf(ls), e.ks[ki].k)
	e.ev("literals", M{"k": ki + 1, "ls": ls, "idx": b.Index, "ord": e.order(b)})
	e.addDiag(b, ki)
}

// pick prefers the recent diagrams
func (e *bddEp) pick() int {
	if e.pct(50) && len(e.ds) > 8 {
		return len(e.ds) - 1 - e.Intn(8)
	}
	return e.Intn(len(e.ds))
}

func (e *bddEp) combine() {
	i := e.pick()
	d := e.ds[i]
	if e.pct(15) {
		b := d.b.Negate()
		e.ev("negate", M{"i": i + 1, "idx": b.Index, "ord": e.order(b)})
		e.addDiag(b, d.k)
		return
	}
	same := []int{}
	for j, x := range e.ds {
		if x.k == d.k {
			same = append(same, j)
		}
	}
	j := same[e.Intn(len(same))]
	o := e.ds[j]
	var b *bdd.BDD
	kind := ""
	switch e.Intn(5) {
	case 0:
		kind, b = "and", d.b.And(o.b)
	case 1:
		kind, b = "or", d.b.Or(o.b)
	case 2:
		kind, b = "implies", d.b.Implies(o.b)
	case 3:
		kind, b = "impliedby", d.b.ImpliedBy(o.b)
	case 4:
		kind, b = "equiv", d.b.Equivalence(o.b)
	}
	e.ev("combine", M{"kind": kind, "i": i + 1, "j": j + 1, "idx": b.Index, "ord": e.order(b)})
	e.addDiag(b, d.k)
}

func (e *bddEp) quantify() {
	i := e.pick()
	d := e.ds[i]
	k := e.ks[d.k]
	switch e.Intn(3) {
	case 0:
		ls := e.someLits(k, e.Intn(2), false)
		b := d.b.Restrict(e.litsOf(ls)...)
		e.ev("restrict", M{"i": i + 1, "ls": ls, "idx": b.Index, "ord": e.order(b)})
		e.addDiag(b, d.k)
	case 1:
		vs := e.someLits(k, e.Intn(2), true)
		b := d.b.Exists(e.varsOf(vs)...)
		e.ev("exists", M{"i": i + 1, "vs": vs, "idx": b.Index, "ord": e.order(b)})
		e.addDiag(b, d.k)
	case 2:
		vs := e.someLits(k, e.Intn(2), true)
		b := d.b.ForAll(e.varsOf(vs)...)
		e.ev("forall", M{"i": i + 1, "vs": vs, "idx": b.Index, "ord": e.order(b)})
		e.addDiag(b, d.k)
	}
}

func (e *bddEp) bmodel(m *model.Model, err error, ev M) {
	ev["err"] = err != nil
	ev["ls"] = []int{}
	if err == nil {
		ls := []int{}
		for _, l := range m.Literals {
			ls = append(ls, e.lit(l))
		}
		ev["ls"] = ls
	}
	e.ev("model", ev)
}

func small(b *big.Int) int {
	if !b.IsInt64() || b.Int64() > 1<<30 || b.Int64() < 0 {
		return -1
	}
	return int(b.Int64())
}

// query asks something about a diagram; a query that computes with diagrams
// may reorder the kernel
func (e *bddEp) query(i int) {
	ki := e.ds[i].k
	before := fmt.Sprint(e.kord(ki))
	e.ask(i)
	if after := e.kord(ki); fmt.Sprint(after) != before {
		e.ev("autoreorder", M{"k": ki + 1, "ord": after})
	}
}

func (e *bddEp) ask(i int) {
	d := e.ds[i]
	k := e.ks[d.k]
	id := i + 1
	switch e.Intn(14) {
	case 0:
		e.ev("const", M{"i": id, "taut": d.b.IsTautology(), "contr": d.b.IsContradiction()})
	case 1:
		e.ev("count", M{"i": id, "c": small(d.b.ModelCount())})
	case 2:
		one := small(d.b.PathCountOne())
		zero := small(d.b.PathCountZero())
		e.ev("paths", M{"i": id, "one": one, "zero": zero})
	case 3:
		prof := A{}
		for v, c := range d.b.VariableProfile() {
			if v == 0 {
				prof = append(prof, []int{0, c})
			} else {
				prof = append(prof, []int{e.idx(v), c})
			}
		}
		sortPairs(prof)
		e.ev("nodes", M{"i": id, "count": d.b.NodeCount(), "profile": prof})
	case 4:
		e.ev("support", M{"i": id, "vs": e.idxs(d.b.Support())})
	case 5, 6:
		var vs []int
		if e.pct(40) {
			for v := 1; v <= e.n; v++ {
				vs = append(vs, v)
			}
		} else {
			vs = e.rvarset(e.n, e.Intn(e.n+1))
		}
		ms := A{}
		for _, m := range d.b.ModelEnumeration(e.varsOf(vs)...) {
			ms = append(ms, e.lits(m.Literals))
		}
		if vs == nil {
			vs = []int{}
		}
		e.ev("enum", M{"i": id, "vs": vs, "ms": ms})
	case 7:
		var x f.Formula
		switch e.Intn(3) {
		case 0:
			x = d.b.ToFormula(e.fac)
		case 1:
			x = d.b.ToFormula(e.fac, true)
		default:
			x = d.b.ToFormula(e.fac, false)
		}
		e.ev("formula", M{"i": id, "f": e.dump(x)})
	case 8:
		n := small(d.b.NumberOfCNFClauses())
		e.ev("cnf", M{"i": id, "f": e.dump(d.b.CNF()), "cl": n})
	case 9:
		e.ev("dnf", M{"i": id, "f": e.dump(d.b.DNF())})
	case 10, 11:
		switch e.Intn(3) {
		case 0:
			m, err := d.b.Model()
			e.bmodel(m, err, M{"i": id, "kind": 0})
		case 1:
			vs := []int{}
			for _, v := range e.rvarset(len(k.names), e.Intn(len(k.names)+1)) {
				vs = append(vs, k.names[v-1])
			}
			dflt := e.pct(50)
			m, err := d.b.ModelWithVariables(dflt, e.varsOf(vs)...)
			e.bmodel(m, err, M{"i": id, "kind": 1, "vs": vs, "dflt": dflt})
		case 2:
			if len(k.names) == k.cap {
				m, err := d.b.FullModel()
				e.bmodel(m, err, M{"i": id, "kind": 2})
			}
		}
	case 12:
		g, root := e.graph(d.b)
		e.ev("graph", M{"i": id, "g": g, "root": root})
	case 13:
		e.draw(i)
	}
}

func sortPairs(a A) {
	for i := range a {
		for j := i; j > 0 && a[j].([]int)[0] < a[j-1].([]int)[0]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (e *bddEp) graph(b *bdd.BDD) (A, int) {
	g := A{}
	ids := map[bdd.Node]int{}
	byName := map[string]int{}
	for v, i := range e.names {
		byName[v.Sprint(e.fac)] = i
	}
	var walk func(x bdd.Node) int
	walk = func(x bdd.Node) int {
		if !x.InnerNode() {
			if x.Label() == "$true" {
				return 1
			}
			return 0
		}
		if id, ok := ids[x]; ok {
			return id
		}
		lo, hi := walk(x.Low()), walk(x.High())
		g = append(g, []int{byName[x.Label()], lo, hi})
		ids[x] = len(g) + 1
		return len(g) + 1
	}
	root := walk(b.NodeRepresentation())
	return g, root
}

func (e *bddEp) swap() {
	ki := e.Intn(len(e.ks))
	k := e.ks[ki]
	if k.blocks {
		return
	}
	v, w := e.Intn(e.n)+1, e.Intn(e.n)+1
	err := k.k.SwapVariables(e.vars[v-1], e.vars[w-1])
	e.ev("swap", M{"k": ki + 1, "v": v, "w": w, "err": err != nil, "ord": e.kord(ki)})
}

var methods = []bdd.ReorderingMethod{bdd.ReorderNone, bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderSift, bdd.ReorderSiftIte,
	bdd.ReorderWin3, bdd.ReorderWin3Ite, bdd.ReorderRandom}

type bddBlock struct {
	a, b int
	fix  bool
}

// addBlocks defines blocks of indices whose variables are neighbours
func (e *bddEp) addBlocks(ki int) {
	k := e.ks[ki]
	if e.pct(50) {
		k.blocks = true
		k.k.AddAllVariablesAsBlock()
		for i := 0; i < k.cap; i++ {
			k.defd = append(k.defd, bddBlock{i, i, false})
		}
		e.ev("allblocks", M{"k": ki + 1})
		return
	}
	level := map[int]int{}
	for l, v := range e.kord(ki) {
		level[v] = l
	}
	lv := make([]int, k.cap)
	for i, v := range k.names {
		lv[i] = level[v]
	}
	var bs []bddBlock
	var split func(a, b int)
	split = func(a, b int) {
		for a <= b {
			m := a + e.Intn(b-a+1)
			bs = append(bs, bddBlock{a, m, e.pct(25)})
			if m > a && e.pct(60) {
				split(a, a+e.Intn(m-a))
				if e.pct(70) {
					split(m, m)
				}
			}
			a = m + 1
			if e.pct(10) {
				a++
			}
		}
	}
	split(0, k.cap-1)
	e.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	if e.pct(30) {
		bs = bs[:(len(bs)+1)/2]
	}
	for _, x := range bs {
		ok := true
		for _, y := range k.defd {
			if x.a == y.a && x.b == y.b || x.a < y.a && y.a <= x.b && x.b < y.b || y.a < x.a && x.a <= y.b && y.b < x.b {
				ok = false
			}
		}
		lo, hi := lv[x.a], lv[x.a]
		for i := x.a; i <= x.b; i++ {
			lo, hi = min(lo, lv[i]), max(hi, lv[i])
		}
		if !ok || hi-lo != x.b-x.a {
			continue
		}
		k.blocks = true
		k.defd = append(k.defd, x)
		k.k.AddVariableBlock(int32(x.a), int32(x.b), x.fix)
		e.ev("block", M{"k": ki + 1, "first": x.a + 1, "last": x.b + 1, "fixed": x.fix})
	}
}

func (e *bddEp) doReorder() {
	ki := e.Intn(len(e.ks))
	k := e.ks[ki]
	switch {
	case e.pct(12) && k.full:
		e.addBlocks(ki)
	case e.pct(15) && k.blocks:
		m := methods[e.Intn(len(methods))]
		k.k.ActivateReorderDuringBuild(m, int32(e.Intn(20)+1))
		k.auto = true
		e.ev("activate", M{"k": ki + 1, "on": true})
	default:
		m := methods[e.Intn(len(methods))]
		k.k.Reorder(m)
		e.ev("reorder", M{"k": ki + 1, "method": int(m), "ord": e.kord(ki)})
	}
}

func bddDriver(reorder bool, cancel int) driver {
	return func(e *Ep) {
		e.fresh(e.Intn(5)+2, e.pct(10))
		if e.pct(10) {
			e.fresh(7)
		}
		e.dups = e.pct(10)
		b := &bddEp{Ep: e, reorder: reorder, cancel: cancel}
		e.begin(nil)
		e.try("kernel", b.kernel)
		b.ks[0].full = len(b.ks[0].names) == b.ks[0].cap
		if reorder && b.ks[0].full && e.pct(65) {
			if !e.try("block", func() { b.addBlocks(0) }) {
				return
			}
			if e.pct(50) {
				k := b.ks[0]
				k.k.ActivateReorderDuringBuild(methods[e.Intn(len(methods))], int32(e.Intn(50)+1))
				k.auto = true
				e.ev("activate", M{"k": 1, "on": true})
			}
		}
		steps := e.Intn(50) + 10
		for i := 0; i < steps; i++ {
			x := e.Intn(100)
			ok := e.try("bdd", func() {
				switch {
				case len(b.ds) == 0 || x < 22:
					b.compile()
				case x < 25:
					b.alone()
				case x < 26 && !reorder:
					b.kernel()
				case x < 30:
					b.literals()
				case x < 55:
					b.combine()
				case x < 65:
					b.quantify()
				case x < 73 && reorder:
					if e.pct(50) {
						b.swap()
					} else {
						b.doReorder()
					}
				default:
					b.query(b.pick())
				}
			})
			if !ok {
				return
			}
		}
		for i := range b.ds {
			if e.pct(30) {
				if !e.try("bdd", func() { b.query(i) }) {
					return
				}
			}
		}
	}
}

// autoReorder: the table of nodes fills up, and the variables are reordered,
// while diagrams are restricted and quantified
func autoReorder(e *Ep) {
	e.fresh(e.Intn(4) + 6)
	b := &bddEp{Ep: e, reorder: true, deep: 1}
	e.begin(nil)
	k := &bddKernel{cap: e.n, full: true}
	for _, i := range e.Perm(e.n) {
		k.names = append(k.names, i+1)
	}
	k.k = bdd.NewKernelWithOrdering(e.fac, e.varsOf(k.names), int32(e.Intn(120)+2*e.n+2), int32(e.Intn(60)+3))
	b.ks = append(b.ks, k)
	e.ev("kernel", M{"cap": k.cap, "names": append([]int{}, k.names...)})
	e.try("bdd", func() {
		for i := 0; i < e.n; i++ {
			k.k.AddVariableBlock(int32(i), int32(i), false)
			e.ev("block", M{"k": 1, "first": i + 1, "last": i + 1, "fixed": false})
		}
		for i := e.Intn(4) + 1; i > 0; i-- {
			b.compile()
		}
		if len(b.ds) == 0 {
			return
		}
		k.k.ActivateReorderDuringBuild(methods[e.Intn(len(methods))], 100)
		k.auto = true
		e.ev("activate", M{"k": 1, "on": true})
		for i := e.Intn(40) + 15; i > 0; i-- {
			switch x := e.Intn(100); {
			case x < 10:
				b.compile()
			case x < 25:
				b.combine()
			case x < 92:
				b.quantify()
			default:
				b.query(b.pick())
			}
		}
	})
}

func init() {
	drivers["bdd_autoreorder"] = autoReorder
	drivers["bdd"] = bddDriver(false, 0)
	drivers["bdd_cancel"] = bddDriver(false, 30)
	drivers["bdd_reorder"] = bddDriver(true, 5)
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
