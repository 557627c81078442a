----------------------------- MODULE TraceSets ------------------------------
(* Explains recorded uses of the real sets by Sets.                           *)
EXTENDS Sets, TraceBase
Init == TraceInit /\ SetsInit
Query(p) == (p) = TRUE /\ UNCHANGED svars
Next == \/ IsEvent("begin") /\ NewUniverse(e.n)
        \/ IsEvent("make") /\ Make(e.mut, e.xs)
        \/ IsEvent("copy") /\ Copy(e.mut, e.is)
        \/ IsEvent("view") /\ View(e.i)
        \/ IsEvent("add") /\ Add(e.i, e.xs)
        \/ IsEvent("remove") /\ Remove(e.i, e.xs)
        \/ IsEvent("addall") /\ AddAll(e.i, e.j)
        \/ IsEvent("removeall") /\ RemoveAll(e.i, e.j)
        \/ IsEvent("content") /\ Query(GoodContent(e.i, e.xs))
        \/ IsEvent("size") /\ Query(GoodSize(e.i, e.m, e.empty))
        \/ IsEvent("contains") /\ Query(GoodContains(e.i, e.x, e.b))
        \/ IsEvent("containsall") /\ Query(GoodContainsAll(e.i, e.j, e.b))
=============================================================================
