package sat

import f "github.com/booleworks/logicng-go/formula"

// VerifLearned returns the learned clauses and, as unit clauses, the literals
// fixed on the lowest level, each as list of variable names and phases.
func VerifLearned(s *Solver) (names [][]string, phases [][]bool) {
	c := s.core
	add := func(lits []int32) {
		var ns []string
		var ps []bool
		for _, l := range lits {
			n, ok := c.idx2name[Vari(l)]
			if !ok {
				return
			}
			ns = append(ns, n)
			ps = append(ps, !Sign(l))
		}
		names = append(names, ns)
		phases = append(phases, ps)
	}
	for _, cl := range c.learnts {
		if !cl.isAtMost {
			add(cl.data)
		}
	}
	end := len(c.trail)
	if len(c.trailLim) > 0 {
		end = c.trailLim[0]
	}
	for _, l := range c.trail[:end] {
		add([]int32{l})
	}
	return names, phases
}

var _ f.Formula
