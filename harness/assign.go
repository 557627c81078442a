package main

import (
	"slices"

	"github.com/booleworks/logicng-go/assignment"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
)

var assignNames = []string{"a", "b", "B", "Z", "z", "_", "a1", "a10", "a2", "A", "x_1", "v#", "long_name_of_a_variable", "@x", "0", "9", "10", "az", "aZ", "x", "y"}

// assignments and models over variables whose order of creation differs from
// the order of their names
func assignEp(e *Ep) {
	e.fac = f.NewFactory(e.pct(20))
	n := e.Intn(8) + 1
	p := e.Perm(len(assignNames))[:n]
	names := []string{}
	for _, i := range p {
		names = append(names, assignNames[i])
	}
	slices.Sort(names)
	e.n, e.vars = n, make([]f.Variable, n)
	e.names, e.aux, e.called = map[f.Variable]int{}, map[f.Variable]int{}, names
	for _, i := range e.Perm(n) {
		if e.pct(30) {
			e.fac.Lit(names[i], false)
		}
		e.vars[i] = e.fac.Var(names[i])
		e.names[e.vars[i]] = i + 1
	}
	e.begin(M{"names": names})
}

func assignDriver(e *Ep) {
	assignEp(e)
	var as []*assignment.Assignment
	var ms []*model.Model
	some := func(clash bool) []int {
		r := []int{}
		for i := e.Intn(e.n + 2); i > 0; i-- {
			x := e.rlitI(e.n)
			if clash || !slices.Contains(r, -x) {
				r = append(r, x)
			}
		}
		return r
	}
	mkLits := func(xs []int) []f.Literal {
		r := []f.Literal{}
		for _, x := range xs {
			r = append(r, e.mkLit(x))
		}
		return r
	}
	show := func(x f.Formula) string { return x.Sprint(e.fac) }
	made := func(a *assignment.Assignment, err error) {
		if err == nil {
			as = append(as, a)
		}
	}
	e.try("assign", func() {
		for s := e.Intn(40) + 8; s > 0; s-- {
			if len(as) == 0 || e.pct(8) {
				xs := some(e.pct(25))
				in := mkLits(xs)
				was := slices.Clone(in)
				if len(xs) == 0 && e.pct(50) {
					e.ev("make", M{"ls": xs, "err": false})
					as = append(as, assignment.Empty())
					continue
				}
				a, err := assignment.New(e.fac, in...)
				e.ev("make", M{"ls": xs, "err": err != nil})
				made(a, err)
				if !slices.Equal(in, was) {
					e.ev("panic", M{"msg": "literals of the caller were changed"})
				}
				continue
			}
			if len(ms) == 0 || e.pct(8) {
				xs := some(e.pct(15))
				e.ev("model", M{"ls": xs})
				ms = append(ms, model.New(mkLits(xs)...))
				continue
			}
			i, j := e.Intn(len(as)), e.Intn(len(ms))
			a, m := as[i], ms[j]
			switch e.Intn(15) {
			case 0, 1, 2:
				x := e.rlitI(e.n)
				err := a.AddLit(e.fac, e.mkLit(x))
				e.ev("addlit", M{"i": i + 1, "x": x, "err": err != nil})
			case 3:
				e.ev("posvars", M{"i": i + 1, "xs": e.idxs(a.PosVars())})
			case 4:
				xs := []int{}
				for _, v := range a.NegVars() {
					name, ok := e.fac.VarName(v)
					k, found := slices.BinarySearch(e.called, name)
					if !ok || !found {
						k = -1
					}
					xs = append(xs, k+1)
				}
				e.ev("negvars", M{"i": i + 1, "xs": xs})
			case 5:
				e.ev("size", M{"i": i + 1, "m": a.Size()})
			case 6:
				e.ev("text", M{"i": i + 1, "text": a.Sprint(e.fac)})
			case 7:
				xs := some(false)
				slices.Sort(xs)
				xs = slices.Compact(xs)
				if e.pct(50) {
					e.ev("eval", M{"i": i + 1, "kind": "and", "xs": xs, "b": assignment.Evaluate(e.fac, e.fac.Minterm(mkLits(xs)...), a)})
				} else {
					e.ev("eval", M{"i": i + 1, "kind": "or", "xs": xs, "b": assignment.Evaluate(e.fac, e.fac.Clause(mkLits(xs)...), a)})
				}
			case 8:
				x := e.rlitI(e.n)
				r := assignment.Restrict(e.fac, e.mkLit(x).AsFormula(), a)
				t := ""
				switch r {
				case e.fac.Verum():
					t = "true"
				case e.fac.Falsum():
					t = "false"
				default:
					t = show(r)
				}
				e.ev("restrict", M{"i": i + 1, "x": x, "text": t})
			case 9:
				xs := some(e.pct(10))
				m.AddLiteral(mkLits(xs)...)
				e.ev("addlits", M{"i": j + 1, "ls": xs})
			case 10:
				k := model.FromAssignment(e.fac, *a)
				e.ev("from", M{"i": i + 1, "ls": e.lits(k.Literals)})
				ms = append(ms, k)
			case 11:
				k, err := m.Assignment(e.fac)
				e.ev("to", M{"i": j + 1, "err": err != nil})
				made(k, err)
			case 12:
				e.ev("mparts", M{"i": j + 1, "ls": e.lits(m.Literals), "m": m.Size(), "pos": e.idxs(m.PosVars()), "neglits": e.lits(m.NegLits()), "negvars": e.idxs(m.NegVars())})
			case 13:
				e.ev("mtext", M{"i": j + 1, "text": m.Sprint(e.fac)})
			case 14:
				ls := slices.Clone(m.Literals)
				slices.Sort(ls)
				bad := len(slices.Compact(slices.Clone(ls))) != len(ls)
				for _, l := range ls {
					bad = bad || slices.Contains(ls, l.Negate(e.fac))
				}
				if bad {
					continue
				}
				x := m.Formula(e.fac)
				got := []f.Literal{}
				switch x.Sort() {
				case f.SortTrue:
				case f.SortLiteral:
					got = append(got, f.Literal(x))
				case f.SortAnd:
					ops, _ := e.fac.NaryOperands(x)
					for _, o := range ops {
						if o.Sort() != f.SortLiteral {
							e.ev("panic", M{"msg": "no minterm"})
							return
						}
						got = append(got, f.Literal(o))
					}
				default:
					e.ev("panic", M{"msg": "no minterm"})
				}
				e.ev("mformula", M{"i": j + 1, "ls": e.lits(got)})
			}
		}
	})
}

func init() {
	drivers["assign"] = assignDriver
	// NegVars returns negative literals as variables
	drivers["known_negvars"] = func(e *Ep) {
		assignEp(e)
		e.try("known", func() {
			a, _ := assignment.New(e.fac, e.mkLit(-1))
			e.ev("make", M{"ls": []int{-1}, "err": false})
			all := true
			for _, v := range a.NegVars() {
				all = all && v == e.vars[0]
			}
			e.ev("variables", M{"fn": "assignment.NegVars", "all": all})
		})
	}
}
