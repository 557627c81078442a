From c55efe05ece7ac14d9951ac3bc1c60615186baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 01/44] fix: reset the clause in the direct sorter of
 cardinality networks

---
 encoding/cc_cardinality_network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cc_cardinality_network.go b/encoding/cc_cardinality_network.go
index ac60705..4556dd7 100644
--- a/encoding/cc_cardinality_network.go
+++ b/encoding/cc_cardinality_network.go
@@ -244,7 +244,7 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 	}
 	for bitmask < int(math.Pow(2, float64(n))) {
 		count := 0
-		clear(clause)
+		clause = clause[:0]
 		for i := range n {
 			if ((1 << i) & bitmask) != 0 {
 				count++
-- 
2.43.0


From 4b2db6f27a2d6b37c1265ef149d42db1de4d6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 02/44] fix: encode at-most constraints with a negative bound
 as contradiction

---
 encoding/cc_encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/cc_encoding.go b/encoding/cc_encoding.go
index 97bce7c..8ae874a 100644
--- a/encoding/cc_encoding.go
+++ b/encoding/cc_encoding.go
@@ -175,6 +175,10 @@ func exo(result Result, config *Config, vars []f.Variable) {
 }
 
 func amk(result Result, config *Config, rhs int, vars []f.Variable) {
+	if rhs < 0 { // an at-most constraint with a negative bound cannot be satisfied
+		result.AddClause()
+		return
+	}
 	if rhs >= len(vars) { // there is no constraint
 		return
 	}
@@ -265,6 +269,10 @@ func amkIncremental(
 	vars []f.Variable,
 	rhs int,
 ) (*CCIncrementalData, error) {
+	if rhs < 0 {
+		result.AddClause()
+		return nil, errorx.BadInput("contradiction AMK with rhs < 0")
+	}
 	if rhs >= len(vars) {
 		return nil, errorx.BadInput("tautology AMK with rhs > len(vars)")
 	}
-- 
2.43.0


From b4be352bbd46732ae691a7dbb96926b7bcf17c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 03/44] fix: model iteration with unknown variables,
 cancellation and overlapping additional variables

---
 model/iter/iteration.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc06f08..dc061b2 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -51,14 +51,15 @@ func (m *ModelIterator[R]) Iterate(
 		return emptyElement, handler.Cancelation(e)
 	}
 	knownVariables := solver.CoreSolver().KnownVariables(solver.Factory())
-	additionalVarsNotOnSolver := difference(m.additionalVars, knownVariables)
+	additionalVarsNotOnSolver := difference(difference(m.additionalVars, knownVariables), m.vars)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
+	iterVars := difference(m.vars, dontCareVariablesNotOnSolver)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
-	if vars := m.strategy.SplitVarsForRecursionDepth(m.vars, solver, 0); vars.Size() > 0 {
+	if vars := m.strategy.SplitVarsForRecursionDepth(iterVars, solver, 0); vars.Size() > 0 {
 		initialSplitVars.AddAll(vars)
 	}
-	state := m.iterRecursive(collector, solver, []f.Literal{}, m.vars, initialSplitVars.AsImmutable(), 0)
+	state := m.iterRecursive(collector, solver, []f.Literal{}, iterVars, initialSplitVars.AsImmutable(), 0)
 	return collector.Result(), state
 }
 
@@ -76,6 +77,10 @@ func (m *ModelIterator[R]) iterRecursive(
 	iterFinished, iterState := iterate(collector, solver, iterVars, m.additionalVars, maxModelsForIter, m.hdl)
 	if !iterState.Success {
 		collector.Commit(m.hdl)
+		err := solver.LoadState(state)
+		if err != nil {
+			panic(err)
+		}
 		return iterState
 	}
 	if !iterFinished {
@@ -127,7 +132,15 @@ func (m *ModelIterator[R]) iterRecursive(
 			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
 			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
-			m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			if s := m.iterRecursive(
+				collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1,
+			); !s.Success {
+				err := solver.LoadState(state)
+				if err != nil {
+					panic(err)
+				}
+				return s
+			}
 			if s := collector.Commit(m.hdl); !s.Success {
 				err := solver.LoadState(state)
 				if err != nil {
@@ -166,7 +179,12 @@ func iterate[R any](
 
 	foundModels := 0
 	state := handler.Success()
-	for iterSATCall(solver, hdl) {
+	for {
+		var satisfiable bool
+		satisfiable, state = iterSATCall(solver, hdl)
+		if !state.Success || !satisfiable {
+			break
+		}
 		modelFromSolver := solver.CoreSolver().Model()
 		foundModels++
 		if foundModels >= maxModels {
@@ -194,9 +212,9 @@ func iterate[R any](
 	return true, succ
 }
 
-func iterSATCall(solver *sat.Solver, hdl handler.Handler) bool {
+func iterSATCall(solver *sat.Solver, hdl handler.Handler) (bool, handler.State) {
 	sResult := solver.Call(sat.Params().Handler(hdl))
-	return sResult.OK() && sResult.Sat()
+	return sResult.OK() && sResult.Sat(), sResult.State()
 }
 
 func generateBlockingClause(modelFromSolver []bool, relevantVars []int32) []int32 {
-- 
2.43.0


From 66f035db65c57aed8902414bd5f2a59727ca0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 04/44] fix: cancel the SAT solver when the handler stops it at
 a conflict

---
 sat/core.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index df4873e..15e228f 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -394,7 +394,12 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 	status := f.TristateUndef
 	for status == f.TristateUndef {
-		status, _ = m.search(hdl)
+		var state handler.State
+		status, state = m.search(hdl)
+		if !state.Success {
+			m.cancelUntil(0)
+			return f.TristateFalse, state
+		}
 	}
 
 	if m.config.ProofGeneration && len(m.assumptions) == 0 {
@@ -437,6 +442,9 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 		confl := m.propagate()
 		if confl != nil {
 			if e := event.SatConflictDetected; !hdl.ShouldResume(e) {
+				if m.decisionLevel() == 0 {
+					m.qhead = 0 // the conflict must be found again by the next call
+				}
 				return f.TristateUndef, handler.Cancelation(e)
 			}
 			m.conflicts++
-- 
2.43.0


From 8756929df779be069ba026401a1b75b18277c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 05/44] fix: solve with assumptions without propositions on a
 proof generating solver

---
 sat/core.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index 15e228f..c4a1872 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -434,6 +434,15 @@ func (m *CoreSolver) SolveWithAssumptions(
 	return
 }
 
+// assumptionProp returns the proposition of the i-th assumption or nil for
+// assumptions which have no proposition, e.g. in backbone computations.
+func (m *CoreSolver) assumptionProp(i int) f.Proposition {
+	if i < len(m.assumptionProps) {
+		return m.assumptionProps[i]
+	}
+	return nil
+}
+
 func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 	if !m.ok {
 		return f.TristateFalse, succ
@@ -509,7 +518,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else if m.value(p) == f.TristateFalse {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					m.analyzeFinal(Not(p))
@@ -517,7 +526,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					next = p
-- 
2.43.0


From fe260491fbd9bf7b0205f4f86cab7edd27dce257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 06/44] fix: do not reorder the literals passed to the solver
 in place

---
 sat/solver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/solver.go b/sat/solver.go
index a3f64ae..29899f8 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -147,6 +147,7 @@ func (s *Solver) addClause(formula f.Formula, proposition f.Proposition) {
 
 func (s *Solver) generateClauseVector(literals []f.Literal) []int32 {
 	clause := make([]int32, len(literals))
+	literals = slices.Clone(literals)
 	slices.Sort(literals)
 	for i, lit := range literals {
 		_, phase, _ := s.fac.LitNamePhase(lit)
-- 
2.43.0


From 1a29d2f93a31e8091aeae57b64bf278be5c01345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 07/44] fix: keep assumptions aligned with their propositions
 and drop duplicates

---
 sat/call.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sat/call.go b/sat/call.go
index b496e1e..2d717ae 100644
--- a/sat/call.go
+++ b/sat/call.go
@@ -1,6 +1,8 @@
 package sat
 
 import (
+	"slices"
+
 	"github.com/booleworks/logicng-go/errorx"
 	"github.com/booleworks/logicng-go/explanation"
 	f "github.com/booleworks/logicng-go/formula"
@@ -237,8 +239,17 @@ func initCall(solver *Solver, hdl handler.Handler, addProps []f.Proposition) *ca
 	}
 	adds := splitPropsIntoLitsAndFormulas(addProps)
 	if len(adds.lits) > 0 {
-		c.solver.core.assumptions = c.solver.generateClauseVector(adds.lits)
-		c.solver.core.assumptionProps = adds.propsForLits
+		assumptions := make([]int32, 0, len(adds.lits))
+		props := make([]f.Proposition, 0, len(adds.lits))
+		for i, lit := range adds.lits {
+			assumption := c.solver.generateClauseVector([]f.Literal{lit})[0]
+			if !slices.Contains(assumptions, assumption) {
+				assumptions = append(assumptions, assumption)
+				props = append(props, adds.propsForLits[i])
+			}
+		}
+		c.solver.core.assumptions = assumptions
+		c.solver.core.assumptionProps = props
 	}
 	if len(adds.props) > 0 {
 		c.initialState = c.solver.SaveState()
-- 
2.43.0


From 011046ef5b5921331a290d388418bce898ccb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 08/44] fix: forget decision levels of unassigned variables
 when a solver state is loaded

---
 sat/core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/core.go b/sat/core.go
index c4a1872..6d9b283 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -631,6 +631,7 @@ func (m *CoreSolver) completeBacktrack() {
 		vari := m.vars[v]
 		vari.assignment = f.TristateUndef
 		vari.reason = nil
+		vari.level = -1
 		if !m.orderHeap.inHeap(int32(v)) && vari.decision {
 			m.orderHeap.insert(int32(v))
 		}
-- 
2.43.0


From 1f6701f1356d669ff3d505e3cd96a0303436c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 09/44] fix: consider all antecedents of at-most clauses in
 basic clause minimization

---
 sat/core.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index 6d9b283..457cab2 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1077,12 +1077,15 @@ func (m *CoreSolver) simplifyClause(outLearnt *[]int32) {
 				j++
 			} else {
 				var k int
-				if c.size() == 2 {
+				if c.size() == 2 || c.isAtMost {
 					k = 0
 				} else {
 					k = 1
 				}
 				for ; k < c.size(); k++ {
+					if c.isAtMost && m.value(c.get(k)) != f.TristateTrue {
+						continue
+					}
 					if !m.seen[Vari(c.get(k))] && m.v(c.get(k)).level > 0 {
 						(*outLearnt)[j] = (*outLearnt)[i]
 						j++
-- 
2.43.0


From 7baab837f58b87c4508f86711883b4a22d47f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 10/44] fix: encode cardinality constraints to clauses if
 proofs are generated

---
 sat/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index 29899f8..603f142 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -81,7 +81,7 @@ func (s *Solver) AddProposition(propositions ...f.Proposition) {
 
 func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	if formula.Sort() == f.SortCC {
-		if s.config.UseAtMostClauses {
+		if s.config.UseAtMostClauses && !s.config.ProofGeneration { // at-most clauses cannot be traced in proofs
 			comparator, rhs, literals, _, _ := s.fac.PBCOps(formula)
 			if comparator == f.LE {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs)
-- 
2.43.0


From 21e11baff1d96955ccc5a4e3f6517848bda78ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 11/44] fix: keep additional variables out of split assignments
 and copy their literals per model

---
 model/enum/enumeration.go | 4 +++-
 model/iter/iteration.go   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/model/enum/enumeration.go b/model/enum/enumeration.go
index 9ea035d..443b700 100644
--- a/model/enum/enumeration.go
+++ b/model/enum/enumeration.go
@@ -1,6 +1,8 @@
 package enum
 
 import (
+	"slices"
+
 	"github.com/booleworks/logicng-go/event"
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
@@ -97,7 +99,7 @@ func (c *modelEnumCollector) AddModel(
 ) handler.State {
 	e := iter.EventIteratorFoundModels{NumberOfModels: len(c.baseModels)}
 	mdl := solver.CoreSolver().CreateModel(solver.Factory(), modelFromSolver, relevantAllIndices)
-	modelLiterals := c.additionalVariablesNotOnSolver.Content()
+	modelLiterals := slices.Clone(c.additionalVariablesNotOnSolver.Content())
 	modelLiterals = append(modelLiterals, mdl.Literals...)
 	c.uncommittedModels = append(c.uncommittedModels, modelLiterals)
 	if !hdl.ShouldResume(e) {
diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc061b2..13cf998 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -129,8 +129,12 @@ func (m *ModelIterator[R]) iterRecursive(
 		}
 		recursiveSplitVars := m.strategy.SplitVarsForRecursionDepth(remainingVars.AsImmutable(), solver, recursionDepth+1)
 		for _, newSplitAssignment := range newSplitAssignments {
-			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
-			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
+			recursiveSplitAssignment := make([]f.Literal, 0, newSplitAssignment.Size())
+			for _, literal := range newSplitAssignment.Literals {
+				if newSplitVars.Contains(literal.Variable()) {
+					recursiveSplitAssignment = append(recursiveSplitAssignment, literal)
+				}
+			}
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
 			if s := m.iterRecursive(
 				collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1,
-- 
2.43.0


From 2b02c8f9b9f1f0f5274195715bc7e6a2d14fbf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 12/44] fix: terminate the proof before computing the core of a
 call with assumptions

---
 sat/unsat_core.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sat/unsat_core.go b/sat/unsat_core.go
index 627c096..95361ed 100644
--- a/sat/unsat_core.go
+++ b/sat/unsat_core.go
@@ -28,7 +28,9 @@ func (s *Solver) computeUnsatCore() *e.UnsatCore {
 		return e.NewUnsatCore([]f.Proposition{emptyClause}, true)
 	}
 
-	result := drupCompute(&clauses, &s.core.pgProof)
+	// the proof of a call with assumptions does not end with the empty clause
+	proof := append(slices.Clone(s.core.pgProof), []int32{0})
+	result := drupCompute(&clauses, &proof)
 
 	if result.trivialUnsat {
 		return handleTrivialCase(s)
-- 
2.43.0


From 7ddd824dca9e509f35a0383b2a645f81aab7deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 13/44] fix: record clauses without duplicate literals for the
 proof checker

---
 sat/core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index 457cab2..fea4d35 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -260,6 +260,10 @@ func (m *CoreSolver) addUnitClause(lit int32, proposition f.Proposition) bool {
 func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	m.assertNotInCall()
 	if m.config.ProofGeneration {
+		// the proof checker cannot handle duplicate literals in a clause
+		ps = slices.Clone(ps)
+		slices.Sort(ps)
+		ps = slices.Compact(ps)
 		slice := make([]int32, len(ps))
 		for i, p := range ps {
 			slice[i] = (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-- 
2.43.0


From 50acd3864e55b38ab200cce905d638b3152706de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 14/44] fix: do not share the caller's slices in pseudo-Boolean
 constraints

---
 formula/factory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formula/factory.go b/formula/factory.go
index 5472f5e..d8f54f7 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -2,6 +2,7 @@ package formula
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/booleworks/logicng-go/configuration"
@@ -726,8 +727,8 @@ func (fac *CachingFactory) constructPBC(comparator CSort, rhs int, literals []Li
 		return fac.Constant(evaluateTrivialPBConstraint(comparator, rhs))
 	}
 	pbc := pbc{
-		literals:     literals,
-		coefficients: coefficients,
+		literals:     slices.Clone(literals),
+		coefficients: slices.Clone(coefficients),
 		rhs:          rhs,
 		comparator:   comparator,
 	}
-- 
2.43.0


From 08faa33065d092e63d8fb536a5aa502eecb1d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 15/44] fix: drop tautological clauses before compiling a DNNF

---
 dnnf/compiler.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 7f0aef4..41189f4 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -51,7 +51,41 @@ type compiler struct {
 func simplifyFormula(fac f.Factory, formula f.Formula) f.Formula {
 	simp := simplification.PropagateBackbone(fac, formula)
 	simp, _ = simplification.CNFSubsumption(fac, simp) // formula is in cnf - no error possible
-	return simp
+	return removeTautologies(fac, simp)
+}
+
+// removeTautologies drops all clauses with complementary literals, which occur
+// in formulas of factories which conserve their variables.
+func removeTautologies(fac f.Factory, cnf f.Formula) f.Formula {
+	switch cnf.Sort() {
+	case f.SortAnd:
+		var clauses []f.Formula
+		for _, clause := range fac.Operands(cnf) {
+			if !isTautologicalClause(fac, clause) {
+				clauses = append(clauses, clause)
+			}
+		}
+		return fac.And(clauses...)
+	case f.SortOr:
+		if isTautologicalClause(fac, cnf) {
+			return fac.Verum()
+		}
+	}
+	return cnf
+}
+
+func isTautologicalClause(fac f.Factory, clause f.Formula) bool {
+	if clause.Sort() != f.SortOr {
+		return false
+	}
+	literals := make(map[f.Formula]bool)
+	for _, literal := range fac.Operands(clause) {
+		if literals[literal.Negate(fac)] {
+			return true
+		}
+		literals[literal] = true
+	}
+	return false
 }
 
 func newCompiler(fac f.Factory, formula f.Formula) *compiler {
-- 
2.43.0


From 66bc2db145bbe6573b68f68c4a4532ebee7d8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 16/44] fix: represent 'sum < 0' as cardinality constraint no
 matter how it is built

---
 formula/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formula/factory.go b/formula/factory.go
index d8f54f7..55c1ac1 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -692,7 +692,7 @@ func (fac *CachingFactory) isCC(comparator CSort, rhs int, literals []Literal, c
 		}
 	}
 	return comparator == LE && rhs >= 0 ||
-		comparator == LT && rhs >= 1 ||
+		comparator == LT && rhs >= 0 ||
 		comparator == GE && rhs >= 0 ||
 		comparator == GT && rhs >= 0 ||
 		comparator == EQ && rhs >= 0
-- 
2.43.0


From f7d462531027b76ac3d3e68f662d642be9d88bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 17/44] fix: never negate the clauses of a constraint when
 building an AIG

---
 normalform/aig.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/normalform/aig.go b/normalform/aig.go
index 7dc3d54..37ffa7c 100644
--- a/normalform/aig.go
+++ b/normalform/aig.go
@@ -1,6 +1,7 @@
 package normalform
 
 import (
+	"github.com/booleworks/logicng-go/encoding"
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
@@ -39,6 +40,14 @@ func IsAIG(fac f.Factory, formula f.Formula) bool {
 // AIG returns the given formula as AIG (and-inverter-graph), therefore only
 // containing conjunctions and negations.
 func AIG(fac f.Factory, formula f.Formula) f.Formula {
+	if encoding.ContainsPBC(fac, formula) {
+		// the encodings of the constraints must not occur under a negation
+		return aigRec(fac, NNF(fac, formula))
+	}
+	return aigRec(fac, formula)
+}
+
+func aigRec(fac f.Factory, formula f.Formula) f.Formula {
 	cached, ok := f.LookupTransformationCache(fac, f.TransAIG, formula)
 	if ok {
 		return cached
@@ -49,32 +58,30 @@ func AIG(fac f.Factory, formula f.Formula) f.Formula {
 		result = formula
 	case f.SortNot:
 		op, _ := fac.NotOperand(formula)
-		result = fac.Not(AIG(fac, op))
+		result = fac.Not(aigRec(fac, op))
 	case f.SortImpl:
 		left, right, _ := fac.BinaryLeftRight(formula)
-		result = fac.Not(fac.And(AIG(fac, left), fac.Not(AIG(fac, right))))
+		result = fac.Not(fac.And(aigRec(fac, left), fac.Not(aigRec(fac, right))))
 	case f.SortEquiv:
 		left, right, _ := fac.BinaryLeftRight(formula)
 		result = fac.And(
-			fac.Not(fac.And(AIG(fac, left), fac.Not(AIG(fac, right)))),
+			fac.Not(fac.And(aigRec(fac, left), fac.Not(aigRec(fac, right)))),
 			fac.Not(fac.And(fac.Not(left), right)),
 		)
 	case f.SortAnd:
 		ops, _ := fac.NaryOperands(formula)
 		nops := make([]f.Formula, len(ops))
 		for i, op := range ops {
-			nops[i] = AIG(fac, op)
+			nops[i] = aigRec(fac, op)
 		}
 		result = fac.And(nops...)
 	case f.SortOr:
 		ops, _ := fac.NaryOperands(formula)
 		nops := make([]f.Formula, len(ops))
 		for i, op := range ops {
-			nops[i] = fac.Not(AIG(fac, op))
+			nops[i] = fac.Not(aigRec(fac, op))
 		}
 		result = fac.Not(fac.And(nops...))
-	case f.SortCC, f.SortPBC:
-		result = AIG(fac, CNF(fac, formula))
 	default:
 		panic(errorx.UnknownEnumValue(formula.Sort()))
 	}
-- 
2.43.0


From ee54758cec91561f2e40aeff34c67f758075947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 18/44] fix: compile DNNFs from a CNF with the same number of
 models

---
 dnnf/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 41189f4..b3bc9c5 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -25,7 +25,8 @@ func Compile(fac f.Factory, formula f.Formula) *DNNF {
 func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (*DNNF, handler.State) {
 	originalVariables := f.NewMutableVarSet()
 	originalVariables.AddAll(f.Variables(fac, formula))
-	cnf := normalform.CNF(fac, formula)
+	// the configured CNF algorithm might not preserve the number of models
+	cnf := normalform.CNF(fac, formula, normalform.DefaultCNFConfig())
 	originalVariables.AddAll(f.Variables(fac, cnf))
 	simplifiedFormula := simplifyFormula(fac, cnf)
 	compiler := newCompiler(fac, simplifiedFormula)
-- 
2.43.0


From 65615bb6d3254c39e22c790eb53cc25b3d90250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 19/44] fix: at-most clauses on the solver are only used for
 constraints with distinct literals

---
 sat/solver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index 603f142..f3c4057 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -81,7 +81,8 @@ func (s *Solver) AddProposition(propositions ...f.Proposition) {
 
 func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	if formula.Sort() == f.SortCC {
-		if s.config.UseAtMostClauses && !s.config.ProofGeneration { // at-most clauses cannot be traced in proofs
+		// at-most clauses cannot be traced in proofs and cannot count a literal more than once
+		if s.config.UseAtMostClauses && !s.config.ProofGeneration && s.hasDistinctLiterals(formula) {
 			comparator, rhs, literals, _, _ := s.fac.PBCOps(formula)
 			if comparator == f.LE {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs)
@@ -108,6 +109,11 @@ func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	}
 }
 
+func (s *Solver) hasDistinctLiterals(cc f.Formula) bool {
+	_, _, literals, _, _ := s.fac.PBCOps(cc)
+	return f.NewMutableLitSet(literals...).Size() == len(literals)
+}
+
 func (s *Solver) addFormulaAsCNF(formula f.Formula, proposition f.Proposition) {
 	switch s.config.CNFMethod {
 	case CNFFactory:
-- 
2.43.0


From 39f87c4a19bd6de5f1d0c8f5b700845547ed4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 20/44] fix: restore the MaxSAT solver when it is canceled and
 do not keep the result of a canceled search

---
 maxsat/algorithm.go | 4 ++--
 maxsat/solver.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ddc457b..8aadbd0 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -104,11 +104,11 @@ func (m *maxSatAlgorithm) innerSearch(
 	}
 	stateBeforeSolving := m.saveState()
 	result, state := search()
+	_ = m.loadState(stateBeforeSolving)
+	m.hdl = nil
 	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) {
 		return Result{}, handler.Cancelation(e)
 	}
-	_ = m.loadState(stateBeforeSolving)
-	m.hdl = nil
 	return result, state
 }
 
diff --git a/maxsat/solver.go b/maxsat/solver.go
index 2f5e80c..852e759 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -231,7 +231,7 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	}
 	var state handler.State
 	m.result, state = m.solver.search(hdl)
-	m.ok = true
+	m.ok = state.Success
 	return m.result, state
 }
 
-- 
2.43.0


From a826b50fbf6482f3291a4a620cd3a9e26546c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 21/44] fix: add falsum as empty clause to MaxSAT solvers

---
 maxsat/algorithm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index 8aadbd0..5b56a70 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -263,8 +263,9 @@ func (m *maxSatAlgorithm) getModel() []bool {
 }
 
 func (m *maxSatAlgorithm) addClause(formula f.Formula, weight int) {
-	clauseVec := make([]int32, f.NumberOfAtoms(m.fac, formula))
-	for i, lit := range f.Literals(m.fac, formula).Content() {
+	literals := f.Literals(m.fac, formula).Content()
+	clauseVec := make([]int32, len(literals))
+	for i, lit := range literals {
 		variable := lit.Variable()
 		index, ok := m.var2index[variable]
 		if !ok {
-- 
2.43.0


From a282a7779d447ad2edd690af592a1dd334fbae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 22/44] fix: do not forbid a literal whose coefficient does not
 exceed the bound in the MaxSAT weight encoding

---
 maxsat/enc_swc.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/maxsat/enc_swc.go b/maxsat/enc_swc.go
index d05d518..32562ab 100644
--- a/maxsat/enc_swc.go
+++ b/maxsat/enc_swc.go
@@ -59,11 +59,8 @@ func (m *swc) encode(s *sat.CoreSolver, lits *[]int32, coeffs *[]int, rhs int) {
 			addUnitClause(s, sat.Not(simpLits[i]))
 		}
 	}
-	if len(*lits) == 1 {
-		addUnitClause(s, sat.Not((*lits)[0]))
-		return
-	}
-	if len(*lits) == 0 {
+	if len(*lits) <= 1 {
+		// the coefficient of a single literal does not exceed the right-hand side
 		return
 	}
 	n := len(*lits)
-- 
2.43.0


From 4f8aa735e8eb2aeb68538228f78e79b3023fd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 23/44] fix: search all weights in the non-incremental WMSU3
 and keep the solver's weight for the next search

---
 maxsat/alg_wmsu3.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 027fa52..d2fc568 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -36,11 +36,11 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 		panic(errorx.BadInput("wmsu3 does not support unweighted MaxSAT instances"))
 	}
 	m.encoder = newEncoder()
-	isBMO := m.bmoMode && m.isBmo(true)
-	if !isBMO {
-		m.currentWeight = 1
-	}
 	return m.innerSearch(hdl, func() (Result, handler.State) {
+		isBMO := m.bmoMode && m.incrementalStrategy == IncIterative && m.isBmo(true)
+		if !isBMO {
+			m.currentWeight = 1
+		}
 		switch m.incrementalStrategy {
 		case IncNone:
 			return m.none()
-- 
2.43.0


From ab3ca34761c5f4e3eaa39dcda76136ac374bc7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 24/44] fix: do not change cached counts of BDD nodes

---
 bdd/operation.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index c292588..a780bcd 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -181,9 +181,7 @@ func (k *Kernel) allUnsatRec(r int32, models *[][]byte, allunsatProfile *[]byte)
 func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
-	satcount := k.satCountRec(r, cacheidSatcou)
-	satcount.Mul(satcount, size)
-	return satcount
+	return new(big.Int).Mul(size, k.satCountRec(r, cacheidSatcou))
 }
 
 func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
@@ -210,7 +208,7 @@ func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountOne(r int32) *big.Int {
-	return k.pathCountRecOne(r, cacheidPathcouOne)
+	return new(big.Int).Set(k.pathCountRecOne(r, cacheidPathcouOne))
 }
 
 func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
@@ -226,7 +224,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecOne(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecOne(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecOne(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
@@ -234,7 +232,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountZero(r int32) *big.Int {
-	return k.pathCountRecZero(r, cacheidPathcouZero)
+	return new(big.Int).Set(k.pathCountRecZero(r, cacheidPathcouZero))
 }
 
 func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
@@ -250,7 +248,7 @@ func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecZero(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecZero(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecZero(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
-- 
2.43.0


From 7162b60c25eac04a76e1763321c5ef152cad34db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 25/44] fix: protect restricted and quantified BDDs from
 garbage collection

---
 bdd/bdd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index ca2d54a..acaa28d 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -337,21 +337,24 @@ func (b *BDD) NumberOfCNFClauses() *big.Int {
 // the respective variables anymore.
 func (b *BDD) Restrict(restriction ...f.Literal) *BDD {
 	resBdd := CompileLiterals(restriction, b.Kernel)
-	return newBdd(b.Kernel.restrict(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.restrict(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Exists performs existential quantifier elimination for a given set of
 // variables and return the resulting BDD.
 func (b *BDD) Exists(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.exists(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.exists(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // ForAll performs universal quantifier elimination for a given set of
 // variables and returns the resulting BDD.
 func (b *BDD) ForAll(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.forAll(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.forAll(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Model returns an arbitrary model of the BDD.  An error is returned if the
-- 
2.43.0


From 9c3ef345c2780abf33bfa346b9f2b6db06510556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 26/44] fix: keep the references of BDD nodes below other roots
 when reordering

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index cfd9500..b937cbe 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -200,7 +200,7 @@ func (r *reordering) reorderDone() {
 	}
 	for n := int32(2); n < r.k.nodesize; n++ {
 		if r.k.marked(n) {
-			r.k.unmark(n)
+			r.k.unmarkNode(n)
 		} else {
 			r.k.setRefcou(n, 0)
 		}
-- 
2.43.0


From a64dd0b65d9e815e9ceccb9c7157a62b91bdf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 27/44] fix: restart the negation of a BDD after a reordering

---
 bdd/construction.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index ff06d3f..5e2327a 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -74,9 +74,15 @@ func (k *Kernel) notRec(r int32) (int32, bool) {
 	if entry.a == r && entry.c == bddNot.v {
 		return entry.res, false
 	}
-	node, _ := k.notRec(k.low(r))
+	node, reorder := k.notRec(k.low(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
-	node, _ = k.notRec(k.high(r))
+	node, reorder = k.notRec(k.high(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
 	res, reorder := k.makeNode(k.level(r), k.readRef(2), k.readRef(1))
 	if reorder {
-- 
2.43.0


From adb9fdd477f9e7e871e3e1b396ad4ac1253e4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 28/44] fix: recompute the levels of the quantified variables
 after a reordering of a BDD kernel

---
 bdd/construction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index 5e2327a..1f17031 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -99,8 +99,8 @@ func (k *Kernel) restrict(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2svartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2svartable(variable)
 		return k.restrictRec(r, (variable<<3)|cacheidRestrict)
 	})
 }
@@ -151,8 +151,8 @@ func (k *Kernel) exists(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddOr, variable<<3)
 	})
 }
@@ -161,8 +161,8 @@ func (k *Kernel) forAll(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)
 	})
 }
-- 
2.43.0


From 5bd413253842f9a1952870700f1f58cf86558582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 29/44] fix: keep the variables of a block together when a
 block is moved over variables without a block

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index b937cbe..0395c31 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -571,7 +571,7 @@ func (r *reordering) blockdown(left *bddTree) {
 	}
 
 	// Move right to where left started
-	for r.k.var2level[rseq[0]] > leftstart {
+	for r.k.var2level[rseq[rightsize]] > leftstart+rightsize {
 		for n = rightsize; n > 0; n-- {
 			if r.k.var2level[rseq[n]]-1 != r.k.var2level[rseq[n-1]] && r.k.var2level[rseq[n]] > leftstart {
 				r.reorderVarup(rseq[n])
-- 
2.43.0


From d4dfee6dc19ac62dc7c59102a50d13347a552626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 30/44] fix: define variable blocks on a reordered BDD kernel
 by the levels of their variables

---
 bdd/reordering.go |  2 +-
 bdd/tree.go       | 53 +++++++++++++++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index 0395c31..d6478d9 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -131,7 +131,7 @@ func (r *reordering) addVariableBlock(first, last int32, fixed bool) {
 	if first < 0 || first >= r.k.varnum || last < 0 || last >= r.k.varnum {
 		panic(errorx.IllegalState("invalid var range from %d to %d", first, last))
 	}
-	t := addRange(r.varTree, first, last, fixed, r.blockId, r.k.level2var)
+	t := addRange(r.varTree, first, last, fixed, r.blockId, r.k.var2level)
 	if t == nil {
 		panic(errorx.IllegalState("could not add range to tree"))
 	}
diff --git a/bdd/tree.go b/bdd/tree.go
index 5e15ac3..93e1393 100644
--- a/bdd/tree.go
+++ b/bdd/tree.go
@@ -28,11 +28,11 @@ func newBddTree(id int32) *bddTree {
 	}
 }
 
-func addRange(tree *bddTree, first, last int32, fixed bool, id int32, level2var []int32) *bddTree {
-	return addRangeRec(tree, nil, first, last, fixed, id, level2var)
+func addRange(tree *bddTree, first, last int32, fixed bool, id int32, var2level []int32) *bddTree {
+	return addRangeRec(tree, nil, first, last, fixed, id, var2level)
 }
 
-func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, level2var []int32) *bddTree {
+func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, var2level []int32) *bddTree {
 	if first < 0 || last < 0 || last < first {
 		return nil
 	}
@@ -44,7 +44,7 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 		t.fixed = fixed
 		t.seq = make([]int32, last-first+1)
 		t.last = last
-		t.updateSeq(level2var)
+		t.updateSeq(var2level)
 		t.prev = prev
 		return t
 	}
@@ -54,14 +54,18 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 		return t
 	}
 
+	// The sections are sorted by their current levels
+	newFirst, newLast := levelRange(first, last, var2level)
+	tFirst, tLast := levelRange(t.first, t.last, var2level)
+
 	// Before this section -> insert
-	if last < t.first {
+	if newLast < tFirst {
 		tnew := newBddTree(id)
 		tnew.first = first
 		tnew.last = last
 		tnew.fixed = fixed
 		tnew.seq = make([]int32, last-first+1)
-		tnew.updateSeq(level2var)
+		tnew.updateSeq(var2level)
 		tnew.next = t
 		tnew.prev = t.prev
 		t.prev = tnew
@@ -69,8 +73,8 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 	}
 
 	// After this section -> go to next
-	if first > t.last {
-		next := addRangeRec(t.next, t, first, last, fixed, id, level2var)
+	if newFirst > tLast {
+		next := addRangeRec(t.next, t, first, last, fixed, id, var2level)
 		if next != nil {
 			t.next = next
 		}
@@ -79,7 +83,7 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 
 	// Inside this section -> insert in next level
 	if first >= t.first && last <= t.last {
-		nextlevel := addRangeRec(t.nextlevel, nil, first, last, fixed, id, level2var)
+		nextlevel := addRangeRec(t.nextlevel, nil, first, last, fixed, id, var2level)
 		if nextlevel != nil {
 			t.nextlevel = nextlevel
 		}
@@ -87,22 +91,28 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 	}
 
 	// Covering this section -> insert above this level
-	if first <= t.first {
+	if newFirst <= tFirst {
 		var tnew *bddTree
 		thisTree := t
 
 		for {
 			// Partial cover ->error
-			if last >= thisTree.first && last < thisTree.last {
+			thisFirst, thisLast := levelRange(thisTree.first, thisTree.last, var2level)
+			if newLast >= thisFirst && newLast < thisLast {
 				return nil
 			}
-			if thisTree.next == nil || last < thisTree.next.first {
+			isLast := thisTree.next == nil
+			if !isLast {
+				nextFirst, _ := levelRange(thisTree.next.first, thisTree.next.last, var2level)
+				isLast = newLast < nextFirst
+			}
+			if isLast {
 				tnew = newBddTree(id)
 				tnew.first = first
 				tnew.last = last
 				tnew.fixed = fixed
 				tnew.seq = make([]int32, last-first+1)
-				tnew.updateSeq(level2var)
+				tnew.updateSeq(var2level)
 				tnew.nextlevel = t
 				tnew.next = thisTree.next
 				tnew.prev = t.prev
@@ -120,15 +130,26 @@ func addRangeRec(t, prev *bddTree, first, last int32, fixed bool, id int32, leve
 	return nil
 }
 
-func (t *bddTree) updateSeq(bddvar2level []int32) {
+// levelRange returns the lowest and the highest current level of the variables
+// from first to last.
+func levelRange(first, last int32, var2level []int32) (int32, int32) {
+	low, high := var2level[first], var2level[first]
+	for n := first + 1; n <= last; n++ {
+		low = min(low, var2level[n])
+		high = max(high, var2level[n])
+	}
+	return low, high
+}
+
+func (t *bddTree) updateSeq(var2level []int32) {
 	var n int32
 	low := t.first
 	for n = t.first; n <= t.last; n++ {
-		if bddvar2level[n] < bddvar2level[low] {
+		if var2level[n] < var2level[low] {
 			low = n
 		}
 	}
 	for n = t.first; n <= t.last; n++ {
-		t.seq[bddvar2level[n]-bddvar2level[low]] = n
+		t.seq[var2level[n]-var2level[low]] = n
 	}
 }
-- 
2.43.0


From 1e945a0a47bd7552127db07eefd68f9f0be6bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 31/44] fix: represent pseudo-Boolean constraints in BDDs and
 DNNFs without auxiliary variables

---
 bdd/bdd.go       | 72 ++++++++++++++++++++++++++++++++++++++++++++++--
 bdd/ordering.go  |  1 -
 dnnf/compiler.go | 37 ++++++++++++++++++++++++-
 3 files changed, 106 insertions(+), 4 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index acaa28d..dd588b2 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -8,7 +8,6 @@ import (
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
 	"github.com/booleworks/logicng-go/model"
-	"github.com/booleworks/logicng-go/normalform"
 )
 
 // A BDD is a canonical representation of a Boolean formula. It contains a
@@ -212,12 +211,81 @@ func compile(fac f.Factory, formula f.Formula, kernel *Kernel, hdl handler.Handl
 		}
 		return res, state
 	case f.SortCC, f.SortPBC:
-		return compile(fac, normalform.NNF(fac, formula), kernel, hdl)
+		comparator, rhs, literals, coefficients, _ := fac.PBCOps(formula)
+		builder := pbcBuilder{comparator, rhs, literals, coefficients, make(map[[2]int]int32), kernel, hdl}
+		defer builder.release()
+		root, state := builder.build(0, 0)
+		if !state.Success {
+			return 0, state
+		}
+		return kernel.addRef(root, hdl)
 	default:
 		panic(errorx.UnknownEnumValue(formula.Sort()))
 	}
 }
 
+// pbcBuilder creates the BDD of a pseudo-Boolean constraint without the
+// auxiliary variables of its encoding. It deals with one literal after the
+// other, keeping track of the sum of the coefficients chosen so far.
+type pbcBuilder struct {
+	comparator   f.CSort
+	rhs          int
+	literals     []f.Literal
+	coefficients []int
+	built        map[[2]int]int32 // referenced BDDs by number of literals dealt with and sum
+	kernel       *Kernel
+	hdl          handler.Handler
+}
+
+func (b *pbcBuilder) build(pos, sum int) (int32, handler.State) {
+	if pos == len(b.literals) {
+		if b.comparator.Evaluate(sum, b.rhs) {
+			return bddTrue, succ
+		}
+		return bddFalse, succ
+	}
+	key := [2]int{pos, sum}
+	if res, ok := b.built[key]; ok {
+		return res, succ
+	}
+	idx := b.kernel.getOrAddVarIndex(b.literals[pos].Variable())
+	without, state := b.build(pos+1, sum)
+	if !state.Success {
+		return 0, state
+	}
+	with, state := b.build(pos+1, sum+b.coefficients[pos])
+	if !state.Success {
+		return 0, state
+	}
+	chosen, other := b.kernel.ithVar(idx), b.kernel.nithVar(idx)
+	if b.literals[pos].IsNeg() {
+		chosen, other = other, chosen
+	}
+	// (chosen => with) & (other => without)
+	left, state := b.kernel.addRef(b.kernel.implication(chosen, with), b.hdl)
+	if !state.Success {
+		return 0, state
+	}
+	defer b.kernel.delRef(left)
+	right, state := b.kernel.addRef(b.kernel.implication(other, without), b.hdl)
+	if !state.Success {
+		return 0, state
+	}
+	defer b.kernel.delRef(right)
+	res, state := b.kernel.addRef(b.kernel.and(left, right), b.hdl)
+	if !state.Success {
+		return 0, state
+	}
+	b.built[key] = res
+	return res, succ
+}
+
+func (b *pbcBuilder) release() {
+	for _, node := range b.built {
+		b.kernel.delRef(node)
+	}
+}
+
 // ToFormula returns a formula representation of the BDD. This is done by using
 // the Shannon expansion. If followPathsToTrue is activated, the paths leading
 // to the true terminal are followed to generate the formula. If
diff --git a/bdd/ordering.go b/bdd/ordering.go
index 5e1b8f1..6d5abb6 100644
--- a/bdd/ordering.go
+++ b/bdd/ordering.go
@@ -135,7 +135,6 @@ func ForceOrder(fac f.Factory, formula f.Formula) []f.Variable {
 	originalVariables := f.NewMutableVarSet()
 	originalVariables.AddAll(vars)
 	nnf := normalform.NNF(fac, formula)
-	originalVariables.AddAll(f.Variables(fac, nnf))
 	cnf := normalform.PGCNFDefault(fac, nnf)
 	hypergraph, _ := graph.HypergraphFromCNF(fac, cnf)
 	nodes := make(map[f.Variable]*graph.HypergraphNode)
diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index b3bc9c5..631cb54 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -3,6 +3,7 @@ package dnnf
 import (
 	"math/bits"
 
+	"github.com/booleworks/logicng-go/bdd"
 	"github.com/booleworks/logicng-go/event"
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
@@ -26,7 +27,8 @@ func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (
 	originalVariables := f.NewMutableVarSet()
 	originalVariables.AddAll(f.Variables(fac, formula))
 	// the configured CNF algorithm might not preserve the number of models
-	cnf := normalform.CNF(fac, formula, normalform.DefaultCNFConfig())
+	expanded := expandConstraints(fac, formula, make(map[f.Formula]f.Formula))
+	cnf := normalform.CNF(fac, expanded, normalform.DefaultCNFConfig())
 	originalVariables.AddAll(f.Variables(fac, cnf))
 	simplifiedFormula := simplifyFormula(fac, cnf)
 	compiler := newCompiler(fac, simplifiedFormula)
@@ -37,6 +39,39 @@ func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (
 	return &DNNF{fac, dnnfFormula, originalVariables.AsImmutable()}, succ
 }
 
+// expandConstraints replaces all pseudo-Boolean constraints whose encodings
+// introduce auxiliary variables by equivalent formulas, since such an encoding
+// might have more models than its constraint.
+func expandConstraints(fac f.Factory, formula f.Formula, expanded map[f.Formula]f.Formula) f.Formula {
+	if res, ok := expanded[formula]; ok {
+		return res
+	}
+	res := formula
+	switch formula.Sort() {
+	case f.SortNot:
+		op, _ := fac.NotOperand(formula)
+		res = fac.Not(expandConstraints(fac, op, expanded))
+	case f.SortImpl, f.SortEquiv:
+		left, right, _ := fac.BinaryLeftRight(formula)
+		left, right = expandConstraints(fac, left, expanded), expandConstraints(fac, right, expanded)
+		res, _ = fac.BinaryOperator(formula.Sort(), left, right)
+	case f.SortAnd, f.SortOr:
+		operands := fac.Operands(formula)
+		ops := make([]f.Formula, len(operands))
+		for i, op := range operands {
+			ops[i] = expandConstraints(fac, op, expanded)
+		}
+		res, _ = fac.NaryOperator(formula.Sort(), ops...)
+	case f.SortCC, f.SortPBC:
+		positive, negative := normalform.NNF(fac, formula), normalform.NNF(fac, fac.Not(formula))
+		if !f.Variables(fac, formula).ContainsAll(f.Variables(fac, positive, negative)) {
+			res = bdd.Compile(fac, formula).ToFormula(fac)
+		}
+	}
+	expanded[formula] = res
+	return res
+}
+
 type compiler struct {
 	fac               f.Factory
 	originalCNF       f.Formula
-- 
2.43.0


From 82c463ba9178764ce2ca56ff05967f6f3067fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 32/44] fix: report syntax errors before evaluating the parse
 tree

---
 parser/propositional_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 65c873c..fa4c04d 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -52,11 +52,12 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser := NewLogicNGPropositionalParser(stream)
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
-	listener := &formulaListener{fac: p.fac}
-	antlr.ParseTreeWalkerDefault.Walk(listener, lngParser.Formula())
+	tree := lngParser.Formula()
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
+	listener := &formulaListener{fac: p.fac}
+	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
 	return listener.formula(), nil
 }
 
-- 
2.43.0


From 014b1b87bd2e45577d74aad65418e6224bf32fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 33/44] fix: parse numeric variable names in pseudo-Boolean
 constraints

---
 parser/propositional_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index fa4c04d..4f410a7 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -217,13 +217,13 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 0:
 		lit = c.LITERAL().GetText()
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 1:
-		lit = c.LITERAL().GetText()
+		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
 		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
-		lit = c.NUMBER(0).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(1).GetText())
+		lit = c.NUMBER(1).GetText()
+		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
-- 
2.43.0


From 03a909114a2462561aa67b8d7bcef01ad3b2c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 34/44] fix: reject text after the end of a formula

---
 parser/propositional_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 4f410a7..b2ef19b 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -53,6 +53,9 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
 	tree := lngParser.Formula()
+	if token := stream.LT(1); !errorListener.err && token.GetTokenType() != antlr.TokenEOF {
+		lngParser.NotifyErrorListeners("unexpected input '"+token.GetText()+"'", token, nil)
+	}
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
-- 
2.43.0


From 7728b1418db62e368957bc54e7d99a363ccfb5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 35/44] fix: return syntax errors when reading formula files

---
 io/formula_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index c2b4820..fbba57c 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -54,7 +54,11 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	scanner.Buffer(buf, 1024*1024)
 	for scanner.Scan() {
 		line := scanner.Text()
-		ops = append(ops, parser.ParseUnsafe(line))
+		op, err := parser.Parse(line)
+		if err != nil {
+			return nil, err
+		}
+		ops = append(ops, op)
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From eed9781c93a66fa73f9de0d4d3ae8d1424354771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 36/44] Revert "fix: reject text after the end of a formula"

This reverts commit 03a909114a2462561aa67b8d7bcef01ad3b2c67b.
---
 parser/propositional_parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index b2ef19b..4f410a7 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -53,9 +53,6 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
 	tree := lngParser.Formula()
-	if token := stream.LT(1); !errorListener.err && token.GetTokenType() != antlr.TokenEOF {
-		lngParser.NotifyErrorListeners("unexpected input '"+token.GetText()+"'", token, nil)
-	}
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
-- 
2.43.0


From 880ac07c7db2b01acc2ad3d62adbf8876c6f3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 37/44] fix: MaxSAT reader with comments, blank lines, varying
 white space and unterminated lines

---
 maxsat/reader.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index b17fa1d..0f11543 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
 
@@ -24,23 +25,25 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 	hardWeight := -1
 	scanner := bufio.NewScanner(file)
 	for scanner.Scan() {
-		line := scanner.Text()
-		if strings.HasPrefix(line, "p wcnf") {
-			header := strings.Split(strings.TrimSpace(line), " ")
+		header := strings.Fields(scanner.Text())
+		if len(header) < 2 || header[0] != "p" {
+			continue
+		}
+		if header[1] == "wcnf" {
 			if len(header) > 4 {
 				hardWeight, _ = strconv.Atoi(header[4])
 			}
 			break
-		} else if strings.HasPrefix(line, "p cnf") {
+		} else if header[1] == "cnf" {
 			pureMaxSat = true
 			break
 		}
 	}
 	for scanner.Scan() {
-		tokens := strings.Split(strings.TrimSpace(scanner.Text()), " ")
-		weight, err := strconv.Atoi(tokens[0])
-		if err != nil {
-			return err
+		line := scanner.Text()
+		tokens := strings.Fields(line)
+		if len(tokens) == 0 || strings.HasPrefix(line, "c") {
+			continue
 		}
 		var start int
 		if pureMaxSat {
@@ -48,16 +51,21 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		} else {
 			start = 1
 		}
+		if len(tokens) <= start || tokens[len(tokens)-1] != "0" {
+			return errorx.BadInput("line %s did not end with 0", line)
+		}
+		weight, err := strconv.Atoi(tokens[0])
+		if err != nil {
+			return err
+		}
 		literals := make([]f.Formula, len(tokens)-start-1)
 		for i := start; i < len(tokens)-1; i++ {
-			if len(tokens[i]) > 0 {
-				parsedLit, err := strconv.Atoi(tokens[i])
-				if err != nil {
-					return err
-				}
-				variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
-				literals[i-start] = fac.Literal(variable, parsedLit > 0)
+			parsedLit, err := strconv.Atoi(tokens[i])
+			if err != nil {
+				return err
 			}
+			variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
+			literals[i-start] = fac.Literal(variable, parsedLit > 0)
 		}
 		if pureMaxSat {
 			solver.AddSoftFormula(fac.Or(literals...), 1)
-- 
2.43.0


From 14de66084514f318efeef5604eca310f179db955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 38/44] fix: random formulas with at most two operands

---
 randomizer/formula_randomizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index 066e2ea..eedf7a0 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -220,7 +220,7 @@ func (r *FormulaRandomizer) And(maxDepth int) f.Formula {
 	if maxDepth == 0 {
 		return r.Atom()
 	}
-	operands := make([]f.Formula, 2+r.random.Intn(r.config.MaximumOpsAnd-2))
+	operands := make([]f.Formula, 2+r.random.Intn(max(1, r.config.MaximumOpsAnd-2)))
 	for i := range operands {
 		operands[i] = r.Formula(maxDepth - 1)
 	}
@@ -236,7 +236,7 @@ func (r *FormulaRandomizer) Or(maxDepth int) f.Formula {
 	if maxDepth == 0 {
 		return r.Atom()
 	}
-	operands := make([]f.Formula, 2+r.random.Intn(r.config.MaximumOpsOr-2))
+	operands := make([]f.Formula, 2+r.random.Intn(max(1, r.config.MaximumOpsOr-2)))
 	for i := range operands {
 		operands[i] = r.Formula(maxDepth - 1)
 	}
-- 
2.43.0


From e8a1abd742a0fbf40ed35517c17279b58d24080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 39/44] fix: reproducible variables of random constraints

---
 randomizer/formula_randomizer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index eedf7a0..53417e2 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -357,12 +357,13 @@ func (r *FormulaRandomizer) ConstraintSet(numConstraints, maxDepth int) []f.Form
 func (r *FormulaRandomizer) ccVariables() []f.Variable {
 	variables := make(map[f.Variable]present)
 	bound := r.random.Intn(r.config.MaximumOpsCC-1) + 2
+	vars := make([]f.Variable, 0, bound)
 	for range bound {
-		variables[r.Variable()] = present{}
-	}
-	vars := make([]f.Variable, 0, len(variables))
-	for v := range variables {
-		vars = append(vars, v)
+		v := r.Variable()
+		if _, ok := variables[v]; !ok {
+			variables[v] = present{}
+			vars = append(vars, v)
+		}
 	}
 	return vars
 }
-- 
2.43.0


From 65c7c442df64a422a4ec39684237711673074d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 40/44] fix: no auxiliary literal for factorized formulas in a
 shared PG state

---
 normalform/cnf.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index d5480f6..834df39 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -276,14 +276,12 @@ func PGCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int, state
 	if IsCNF(fac, nnf) {
 		return nnf
 	}
-	var pg f.Formula
 	if f.NumberOfAtoms(fac, nnf) < boundaryForFactorization {
-		pg = FactorizedCNF(fac, nnf)
-	} else {
-		pg = computeTransformation(fac, nnf, state)
-		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
-		pg = assignment.Restrict(fac, pg, topLevel)
+		return FactorizedCNF(fac, nnf)
 	}
+	pg := computeTransformation(fac, nnf, state)
+	topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
+	pg = assignment.Restrict(fac, pg, topLevel)
 	state.LiteralMap[formula] = state.LiteralMap[nnf]
 	return pg
 }
-- 
2.43.0


From 19f3d03009bc8f5ed318830ce2bf119ba1191c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 41/44] fix: insertion-based MUS of an empty set of
 propositions reports that it is satisfiable

---
 explanation/mus/mus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explanation/mus/mus.go b/explanation/mus/mus.go
index b3c508b..d311d24 100644
--- a/explanation/mus/mus.go
+++ b/explanation/mus/mus.go
@@ -32,6 +32,9 @@ func ComputeInsertionBasedWithHandler(
 	}
 	currentFormula := make([]f.Proposition, len(*propositions))
 	copy(currentFormula, *propositions)
+	if len(currentFormula) == 0 {
+		return nil, handler.Success(), errorx.BadInput("formula set is satisfiable")
+	}
 	mus := make([]f.Proposition, 0, len(*propositions))
 
 	for len(currentFormula) > 0 {
-- 
2.43.0


From cdd46863b572dc6a50df49533f4e6c06e6ac3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:48 +0000
Subject: [PATCH 42/44] fix: the label function of a generator applies to
 literals in a drawing of the formula as DAG

---
 formula/graphical.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formula/graphical.go b/formula/graphical.go
index c0ab29e..1006f6c 100644
--- a/formula/graphical.go
+++ b/formula/graphical.go
@@ -176,7 +176,7 @@ type dagGenerator struct {
 
 func (g *dagGenerator) initNodes(formula Formula) {
 	for _, lit := range Literals(g.fac, formula).Content() {
-		label := litString(g.fac, lit)
+		label := g.LabelOrDefault(lit.AsFormula(), litString(g.fac, lit))
 		nodeId := fmt.Sprintf("%s%d", id, len(g.nodes))
 		literalNode := graphical.NewNode(nodeId, label, g.NodeStyle(lit.AsFormula()), true)
 		g.representation.AddNode(literalNode)
-- 
2.43.0


From dc49d3e644f1b9a6fd325f928eabe082c7bf55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 43/44] fix: handlers with limits can be used again after they
 have canceled a computation

---
 bdd/handler.go        | 1 +
 normalform/handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bdd/handler.go b/bdd/handler.go
index 4dfd375..fc75cd3 100644
--- a/bdd/handler.go
+++ b/bdd/handler.go
@@ -22,6 +22,7 @@ func HandlerWithNodes(bound int) *NodesHandler {
 func (n *NodesHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.BddComputationStarted:
+		n.canceled = false
 		n.count = 0
 	case event.BddNewRefAdded:
 		n.count++
diff --git a/normalform/handler.go b/normalform/handler.go
index 87ec8c4..dcbb09e 100644
--- a/normalform/handler.go
+++ b/normalform/handler.go
@@ -22,6 +22,7 @@ func NewFactorizationHandler(distributionBoundary, clauseBoundary int) *Factoriz
 func (f *FactorizationHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.FactorizationStarted:
+		f.canceled = false
 		f.currentDistributions = 0
 		f.currentClauses = 0
 	case event.DistributionPerformed:
-- 
2.43.0


From 63524150a2768d9b35786dcce268fca57772757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:06 +0000
Subject: [PATCH 44/44] fix: read long lines of DIMACS files

---
 io/dimacs_reader.go | 2 ++
 maxsat/reader.go    | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/io/dimacs_reader.go b/io/dimacs_reader.go
index 5184cb0..eaddbe9 100644
--- a/io/dimacs_reader.go
+++ b/io/dimacs_reader.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"strings"
 
@@ -38,6 +39,7 @@ func ReadDimacsFile(fac f.Factory, file *os.File, prefix ...string) (*[]f.Formul
 	}
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, 64*1024), math.MaxInt)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if !strings.HasPrefix(line, "c") && !strings.HasPrefix(line, "p") && strings.TrimSpace(line) != "" {
diff --git a/maxsat/reader.go b/maxsat/reader.go
index 0f11543..5900b7a 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -24,6 +24,7 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 	pureMaxSat := false
 	hardWeight := -1
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, 64*1024), math.MaxInt)
 	for scanner.Scan() {
 		header := strings.Fields(scanner.Text())
 		if len(header) < 2 || header[0] != "p" {
@@ -75,5 +76,5 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 			solver.AddSoftFormula(fac.Or(literals...), weight)
 		}
 	}
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0

