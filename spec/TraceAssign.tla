----------------------------- MODULE TraceAssign -----------------------------
(* Explains recorded uses of real assignments and models by Assign.           *)
EXTENDS Assign, TraceBase
Init == TraceInit /\ AssignInit
Query(p) == (p) = TRUE /\ UNCHANGED avars
Next == \/ IsEvent("begin") /\ NewNames(e.names)
        \/ IsEvent("make") /\ Make(e.ls, e.err)
        \/ IsEvent("addlit") /\ AddLit(e.i, e.x, e.err)
        \/ IsEvent("posvars") /\ Query(GoodVars(e.i, e.xs, 1))
        \/ IsEvent("negvars") /\ Query(GoodVars(e.i, e.xs, -1))
        \/ IsEvent("variables") /\ Query(e.all)   \* NegVars are variables and no literals
        \/ IsEvent("size") /\ Query(e.m = Cardinality(As[e.i]))
        \/ IsEvent("text") /\ Query(e.text = Text(Ordered(As[e.i])))
        \/ IsEvent("eval") /\ Query(GoodEval(e.i, e.kind, e.xs, e.b))
        \/ IsEvent("restrict") /\ Query(e.text = Restricted(e.i, e.x))
        \/ IsEvent("model") /\ NewModel(e.ls)
        \/ IsEvent("addlits") /\ AddLits(e.i, e.ls)
        \/ IsEvent("from") /\ FromAssignment(e.i, e.ls)
        \/ IsEvent("to") /\ ToAssignment(e.i, e.err)
        \/ IsEvent("mparts") /\ Query(GoodModel(e.i, e.ls, e.m, e.pos, e.neglits, e.negvars))
        \/ IsEvent("mtext") /\ Query(e.text = Text(Ms[e.i]))
        \/ IsEvent("mformula") /\ Query(GoodFormula(e.i, e.ls))
=============================================================================
