---------------------------- MODULE TraceMatching ----------------------------
(* Explains recorded executions of the real solver on grids.                   *)
EXTENDS Matching, TraceBase
tvars == <<l, rows, cols, G, saved>>
Init == TraceInit /\ MInit
TBegin == IsEvent("begin") /\ MNew(e.rows, e.cols)
TAdd == IsEvent("add") /\ MAdd(e.f)
TSave == IsEvent("save") /\ MSave
TLoad == IsEvent("load") /\ IF e.err THEN MLoadRefused(e.i) ELSE MLoad(e.i)
Query(op, p) == IsEvent(op) /\ (p) = TRUE /\ UNCHANGED mvars
TCall == Query("call", LET X == GSeq(G, e.fs, 1) IN
  IF ~e.ok THEN e.canceled /\ ~e.hasModel /\ ~e.hasCore
  ELSE /\ e.sat <=> GSat(X)
       /\ e.hasModel <=> (e.sat /\ e.wantModel)
       /\ e.hasModel => MGoodModel(e.model, Range(e.req), X)
       /\ e.hasUp => \A i \in DOMAIN e.up : Abs(e.up[i]) \in AllVars => GForced(X, e.up[i])
       /\ e.hasCore <=> (~e.sat /\ e.wantCore)
       /\ e.hasCore => MGoodCore(e.core))
TBackbone == Query("backbone", IF e.ok THEN (MGoodBackbone(e, Range(e.vars), e.kind) /\ BackboneForms(e)) ELSE e.canceled)
TLearned == Query("learned", \A i \in DOMAIN e.cs : GFollows(G, e.cs[i]))
Next == TBegin \/ TAdd \/ TSave \/ TLoad \/ TCall \/ TBackbone \/ TLearned
=============================================================================
