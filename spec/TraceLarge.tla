----------------------------- MODULE TraceLarge -----------------------------
(* Explains recorded executions of the real solver with large contents.        *)
EXTENDS Large, TraceBase

tvars == <<l, B, W, P, saved>>
Init == TraceInit /\ LInit

TBegin == IsEvent("begin") /\ LNew(e.blocks)
TAdd == IsEvent("add") /\ LAdd(e.f)
TConstrain == IsEvent("constrain") /\ LConstrain(e.f)
TSave == IsEvent("save") /\ LSave
TLoad == IsEvent("load") /\ IF e.err THEN LLoadRefused(e.i) ELSE LLoad(e.i)
Query(op, p) == IsEvent(op) /\ (p) = TRUE /\ UNCHANGED lvars
TCall == Query("call",
  LET X == AddSeq(B, e.fs, 1) IN
  /\ e.ok => /\ e.sat <=> IsSat(X)
             /\ e.hasModel <=> (e.sat /\ e.wantModel)
             /\ e.hasModel => LGoodModel(e.model, Range(e.req), X)
             /\ e.hasUp => LGoodUp(e.up, X)
             /\ e.hasCore <=> (~e.sat /\ e.wantCore)
             /\ e.hasCore => LGoodCore(e.core, e.fs)
  /\ ~e.ok => e.canceled /\ ~e.hasModel /\ ~e.hasCore)
TBackbone == Query("backbone", IF e.ok THEN (LGoodBackbone(e, Range(e.vars), e.kind) /\ BackboneForms(e)) ELSE e.canceled)
TEnum == Query("enum", IF e.ok THEN LEnumOK(e.models, e.vars, Range(e.add))
                       ELSE e.canceled /\ LEnumPart(e.models, e.vars, Range(e.add)))
TCount == Query("count", IF e.ok THEN BigOf(e.cnt) = LProjCount(B, e.vars) ELSE e.canceled)
TOpt == Query("opt",
  /\ e.ok => /\ e.sat <=> IsSat(B)
             /\ e.sat => LGoodOptimum(e.max, e.lits, Range(e.add), e.model, FALSE)
  /\ ~e.ok => e.canceled /\ (e.sat => LGoodOptimum(e.max, e.lits, Range(e.add), e.model, TRUE)))
TBetter == Query("better", LGoodOptimum(TRUE, e.lits, Range(e.add), e.model, TRUE))
TLearned == Query("learned", \A i \in DOMAIN e.cs : Follows(B, e.cs[i]))

Next == \/ TBegin \/ TAdd \/ TConstrain \/ TSave \/ TLoad \/ TCall \/ TBackbone \/ TEnum
        \/ TCount \/ TOpt \/ TBetter \/ TLearned
=============================================================================
