package main

import (
	"fmt"
	"sort"

	f "github.com/booleworks/logicng-go/formula"
)

// AST is the trace representation of a formula (see Prop.tla).
type AST = []any

const (
	tFalse = iota
	tTrue
	tPos
	tNeg
	tNot
	tAnd
	tOr
	tImpl
	tEquiv
	tPbc
)

var csorts = []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}

func cmpIdx(c f.CSort) int {
	for i, x := range csorts {
		if x == c {
			return i
		}
	}
	panic("unknown comparator")
}

// idx maps a variable to its number; unknown ones become auxiliary variables.
func (e *Ep) idx(v f.Variable) int {
	if i, ok := e.names[v]; ok {
		return i
	}
	if i, ok := e.aux[v]; ok {
		return i
	}
	i := e.n + len(e.aux) + 1
	e.aux[v] = i
	return i
}

func (e *Ep) lit(l f.Literal) int {
	if l.IsPos() {
		return e.idx(l.Variable())
	}
	return -e.idx(l.Variable())
}

func (e *Ep) lits(ls []f.Literal) []int {
	r := make([]int, len(ls))
	for i, l := range ls {
		r[i] = e.lit(l)
	}
	return r
}

func (e *Ep) idxs(vs []f.Variable) []int {
	r := make([]int, len(vs))
	for i, v := range vs {
		r[i] = e.idx(v)
	}
	return r
}

func (e *Ep) mkLit(i int) f.Literal {
	if i > 0 {
		return e.vars[i-1].AsLiteral()
	}
	return e.vars[-i-1].Negate(e.fac)
}

// dump reads a formula back from a factory.
func (e *Ep) dump(x f.Formula) AST { return e.dumpF(e.fac, x) }

func (e *Ep) dumpF(fac f.Factory, x f.Formula) AST {
	switch x.Sort() {
	case f.SortFalse:
		return AST{tFalse}
	case f.SortTrue:
		return AST{tTrue}
	case f.SortLiteral:
		l, _ := x.AsLiteral()
		if l.IsPos() {
			return AST{tPos, e.idx(l.Variable())}
		}
		return AST{tNeg, e.idx(l.Variable())}
	case f.SortNot:
		op, ok := fac.NotOperand(x)
		if !ok {
			panic(fmt.Sprintf("unknown not formula %d", x))
		}
		return AST{tNot, e.dumpF(fac, op)}
	case f.SortAnd, f.SortOr:
		ops, ok := fac.NaryOperands(x)
		if !ok {
			panic(fmt.Sprintf("unknown nary formula %d", x))
		}
		t := tAnd
		if x.Sort() == f.SortOr {
			t = tOr
		}
		r := AST{t}
		for _, o := range ops {
			r = append(r, e.dumpF(fac, o))
		}
		return r
	case f.SortImpl, f.SortEquiv:
		l, rr, ok := fac.BinaryLeftRight(x)
		if !ok {
			panic(fmt.Sprintf("unknown binary formula %d", x))
		}
		t := tImpl
		if x.Sort() == f.SortEquiv {
			t = tEquiv
		}
		return AST{t, e.dumpF(fac, l), e.dumpF(fac, rr)}
	case f.SortCC, f.SortPBC:
		c, rhs, ls, cs, ok := fac.PBCOps(x)
		if !ok {
			panic(fmt.Sprintf("unknown pbc %d", x))
		}
		coeffs := append([]int{}, cs...)
		return AST{tPbc, cmpIdx(c), rhs, e.lits(ls), coeffs}
	}
	panic(fmt.Sprintf("unknown sort %v", x.Sort()))
}

func (e *Ep) dumps(xs []f.Formula) A {
	r := A{}
	for _, x := range xs {
		r = append(r, e.dump(x))
	}
	return r
}

// Opts controls random formulas.
type Opts struct {
	sym    bool // formulas that count true literals among the large parts
	n      int
	depth  int
	ops    int  // maximal number of operands
	consts bool // constants may occur
	pbc    bool // constraints may occur
	cc     bool // cardinality constraints may occur
	impl   bool // implications and equivalences
}

func (e *Ep) rlit(n int) AST {
	v := e.Intn(n) + 1
	if e.Intn(2) == 0 {
		return AST{tPos, v}
	}
	return AST{tNeg, v}
}

func (e *Ep) rlitI(n int) int {
	v := e.Intn(n) + 1
	if e.Intn(2) == 0 {
		return v
	}
	return -v
}

// rvarset returns k different variables in random order.
func (e *Ep) rvarset(n, k int) []int {
	p := e.Perm(n)
	r := make([]int, k)
	for i := range r {
		r[i] = p[i] + 1
	}
	return r
}

func ones(k int) []int {
	r := make([]int, k)
	for i := range r {
		r[i] = 1
	}
	return r
}

// rcc is a cardinality constraint over different variables.
func (e *Ep) rcc(n int) AST {
	k := 2
	if n > 2 {
		k = e.Intn(n-1) + 2
	}
	if k > n {
		k = n
	}
	vs := e.rvarset(n, k)
	if e.dups && e.Intn(5) == 0 {
		// a variable that occurs more than once is counted that often
		for i := e.Intn(3) + 1; i > 0; i-- {
			vs = append(vs, vs[e.Intn(len(vs))])
		}
		k = len(vs)
	}
	switch e.Intn(4) {
	case 0:
		return AST{tPbc, 1, 1, vs, ones(k)}
	case 1:
		return AST{tPbc, 0, 1, vs, ones(k)}
	}
	return AST{tPbc, e.Intn(5), e.Intn(k + 1), vs, ones(k)}
}

func (e *Ep) rpbc(n int) AST {
	k := e.Intn(n) + 1
	vs := e.rvarset(n, k)
	if e.dups && e.Intn(5) == 0 {
		for i := e.Intn(2) + 1; i > 0; i-- {
			vs = append(vs, vs[e.Intn(len(vs))])
		}
		k = len(vs)
	}
	cs := make([]int, k)
	s := 0
	m := []int{2, 4, 10}[e.Intn(3)]
	for i := range vs {
		if e.Intn(2) == 0 {
			vs[i] = -vs[i]
		}
		for cs[i] == 0 {
			cs[i] = e.Intn(2*m+1) - m
		}
		if cs[i] > 0 {
			s += cs[i]
		} else {
			s -= cs[i]
		}
	}
	return AST{tPbc, e.Intn(5), e.Intn(2*s+3) - s - 1, vs, cs}
}

func (e *Ep) rform(o Opts) AST {
	if o.depth == 0 || e.Intn(12) == 0 {
		if o.consts && e.Intn(12) == 0 {
			return AST{e.Intn(2)}
		}
		if o.cc && e.Intn(6) == 0 {
			return e.rcc(o.n)
		}
		if o.pbc && e.Intn(6) == 0 {
			return e.rpbc(o.n)
		}
		return e.rlit(o.n)
	}
	s := o
	s.depth--
	k := e.Intn(10)
	switch {
	case k < 4 || (!o.impl && k >= 7 && k < 9):
		ops := 2
		if o.ops > 2 {
			ops = e.Intn(o.ops-1) + 2
		}
		r := AST{tAnd}
		if e.Intn(2) == 0 {
			r = AST{tOr}
		}
		for i := 0; i < ops; i++ {
			r = append(r, e.rform(s))
		}
		return r
	case k < 7:
		r := AST{tOr, e.rform(s), e.rform(s)}
		if e.Intn(2) == 0 {
			r[0] = tAnd
		}
		return r
	case k == 7:
		return AST{tImpl, e.rform(s), e.rform(s)}
	case k == 8:
		return AST{tEquiv, e.rform(s), e.rform(s)}
	}
	return AST{tNot, e.rform(s)}
}

// rcnf is a random clause set over n variables.
func (e *Ep) rclauses(n, m, kmax int) []AST {
	var r []AST
	for i := 0; i < m; i++ {
		k := e.Intn(kmax) + 1
		if k == 1 && e.Intn(3) > 0 {
			k = 2
		}
		if k > n {
			k = n
		}
		c := AST{tOr}
		for _, v := range e.rvarset(n, k) {
			c = append(c, AST{tPos + e.Intn(2), v})
		}
		if len(c) == 2 {
			c = c[1].(AST)
		}
		r = append(r, c)
	}
	return r
}

func toInts(x any) []int {
	switch v := x.(type) {
	case []int:
		return v
	case []any:
		r := make([]int, len(v))
		for i := range v {
			r[i] = toInt(v[i])
		}
		return r
	}
	panic("no ints")
}

func toInt(x any) int {
	switch v := x.(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	panic("no int")
}

// build creates the formula of an AST on the episode's factory.
func (e *Ep) build(a AST) f.Formula { return e.buildF(e.fac, a) }

func (e *Ep) buildF(fac f.Factory, a AST) f.Formula {
	switch toInt(a[0]) {
	case tFalse:
		return fac.Falsum()
	case tTrue:
		return fac.Verum()
	case tPos:
		return fac.Literal(e.vname(toInt(a[1])), true)
	case tNeg:
		return fac.Literal(e.vname(toInt(a[1])), false)
	case tNot:
		return fac.Not(e.buildF(fac, a[1].(AST)))
	case tAnd, tOr:
		ops := make([]f.Formula, 0, len(a)-1)
		for _, x := range a[1:] {
			ops = append(ops, e.buildF(fac, x.(AST)))
		}
		if toInt(a[0]) == tAnd {
			return fac.And(ops...)
		}
		return fac.Or(ops...)
	case tImpl:
		return fac.Implication(e.buildF(fac, a[1].(AST)), e.buildF(fac, a[2].(AST)))
	case tEquiv:
		return fac.Equivalence(e.buildF(fac, a[1].(AST)), e.buildF(fac, a[2].(AST)))
	case tPbc:
		c := csorts[toInt(a[1])]
		rhs := toInt(a[2])
		li := toInts(a[3])
		cs := append([]int{}, toInts(a[4])...)
		cc := rhs >= 0
		for i := range li {
			cc = cc && li[i] > 0 && cs[i] == 1
		}
		if cc {
			vs := make([]f.Variable, len(li))
			for i := range li {
				vs[i] = fac.Var(e.vname(li[i]))
			}
			return fac.CC(c, uint32(rhs), vs...)
		}
		ls := make([]f.Literal, len(li))
		for i := range li {
			if li[i] > 0 {
				ls[i] = fac.Lit(e.vname(li[i]), true)
			} else {
				ls[i] = fac.Lit(e.vname(-li[i]), false)
			}
		}
		return fac.PBC(c, rhs, ls, cs)
	}
	panic("bad ast")
}

func (e *Ep) builds(as []AST) []f.Formula {
	r := make([]f.Formula, len(as))
	for i, a := range as {
		r[i] = e.build(a)
	}
	return r
}

// astVars collects the variables of an AST.
func astVars(a AST, s map[int]bool) {
	switch toInt(a[0]) {
	case tFalse, tTrue:
	case tPos, tNeg:
		s[toInt(a[1])] = true
	case tPbc:
		for _, x := range toInts(a[3]) {
			if x < 0 {
				x = -x
			}
			s[x] = true
		}
	default:
		for _, x := range a[1:] {
			astVars(x.(AST), s)
		}
	}
}

func sortedVars(as ...AST) []int {
	s := map[int]bool{}
	for _, a := range as {
		astVars(a, s)
	}
	r := []int{}
	for v := range s {
		r = append(r, v)
	}
	sort.Ints(r)
	return r
}

// evalAST is used to pick interesting inputs only, never to judge a result.
func evalAST(a AST, as uint) bool {
	lit := func(x int) bool {
		if x > 0 {
			return as>>(uint(x)-1)&1 == 1
		}
		return as>>(uint(-x)-1)&1 == 0
	}
	switch toInt(a[0]) {
	case tFalse:
		return false
	case tTrue:
		return true
	case tPos:
		return lit(toInt(a[1]))
	case tNeg:
		return lit(-toInt(a[1]))
	case tNot:
		return !evalAST(a[1].(AST), as)
	case tAnd:
		for _, x := range a[1:] {
			if !evalAST(x.(AST), as) {
				return false
			}
		}
		return true
	case tOr:
		for _, x := range a[1:] {
			if evalAST(x.(AST), as) {
				return true
			}
		}
		return false
	case tImpl:
		return !evalAST(a[1].(AST), as) || evalAST(a[2].(AST), as)
	case tEquiv:
		return evalAST(a[1].(AST), as) == evalAST(a[2].(AST), as)
	}
	s := 0
	ls, cs := toInts(a[3]), toInts(a[4])
	for i := range ls {
		if lit(ls[i]) {
			s += cs[i]
		}
	}
	r := toInt(a[2])
	return [](bool){s == r, s <= r, s < r, s >= r, s > r}[toInt(a[1])]
}
