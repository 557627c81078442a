--------------------------- MODULE TraceRandomizer ---------------------------
(* Explains recorded draws of two randomizers with the same configuration.    *)
EXTENDS Randomizer, TraceBase
VARIABLE cfg
Init == TraceInit /\ cfg = <<>>
Query(p) == (p) = TRUE /\ UNCHANGED cfg
TBegin == IsEvent("begin") /\ cfg' = [e.cfg EXCEPT !.cmps = Range(@)]
TDraw == IsEvent("draw") /\ Query(GoodDraw(e.f, e.again, e.kind, e.d, cfg))
TSet == IsEvent("set") /\ Query(GoodSet(e.fs, e.again, e.d, e.k, cfg))
Next == TBegin \/ TDraw \/ TSet
=============================================================================
