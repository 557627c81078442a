//go:build whitebox

package main

import "github.com/booleworks/logicng-go/sat"

// whiteLearned reads the learned clauses and fixed literals over known variables.
func (e *Ep) whiteLearned(s *sat.Solver) [][]int {
	names, phases := sat.VerifLearned(s)
	r := [][]int{}
next:
	for i, ns := range names {
		c := []int{}
		for j, n := range ns {
			v, ok := e.names[e.fac.Var(n)]
			if !ok {
				continue next
			}
			if !phases[i][j] {
				v = -v
			}
			c = append(c, v)
		}
		r = append(r, c)
	}
	return r
}
