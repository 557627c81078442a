package main

import (
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"

	f "github.com/booleworks/logicng-go/formula"
)

// Fixed inputs on which the code is known to break a property and could not be
// repaired (see known_findings.jsonl); the other drivers avoid these inputs.

func knownFormula(n int, fn func(x *formulaEp)) driver {
	return func(e *Ep) {
		e.fresh(n, false)
		x := &formulaEp{Ep: e, known: map[f.Formula]bool{}, max: 40}
		e.begin(M{"conserve": false})
		e.try("known", func() { fn(x) })
	}
}

func init() {
	// the AIG of an equivalence keeps its operands in one half
	drivers["known_aig"] = knownFormula(3, func(x *formulaEp) {
		a := x.build(AST{tEquiv, AST{tOr, AST{tPos, 1}, AST{tPos, 2}}, AST{tPos, 3}})
		g := normalform.AIG(x.fac, a)
		x.emit("nf", M{"kind": "aig", "f": x.t(a), "g": x.t(g), "ok": true, "canceled": false})
	})
	// the minimum prime implicant of a formula which is not in CNF
	drivers["known_minprime"] = knownFormula(2, func(x *formulaEp) {
		a := x.build(AST{tOr, AST{tAnd, AST{tNeg, 1}, AST{tPos, 2}}, AST{tAnd, AST{tPos, 1}, AST{tPos, 2}}, AST{tAnd, AST{tPos, 1}, AST{tNeg, 2}}})
		ls, err := primeimplicant.Minimum(x.fac, a)
		x.emit("minprime", M{"f": x.t(a), "lits": x.lits(ls), "err": err != nil, "kind": "prime"})
	})
}
