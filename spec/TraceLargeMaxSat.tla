-------------------------- MODULE TraceLargeMaxSat --------------------------
(* Explains recorded executions of the real MaxSAT solvers by LargeMaxSat.    *)
EXTENDS LargeMaxSat, TraceBase
Init == TraceInit /\ LMInit

TBegin == IsEvent("begin") /\ New(e.blocks)
THard == IsEvent("hard") /\ AddHard(e.f)
TSoft == IsEvent("soft") /\ ~e.err /\ AddSoft(e.f, e.w)
TSave == IsEvent("save") /\ Save
TLoad == IsEvent("load") /\ IF e.err THEN LoadRefused(e.i) ELSE Load(e.i)
TSolve == /\ IsEvent("solve")
          /\ (IF e.ok THEN GoodResult(e.sat, e.opt, e.model) ELSE e.canceled) = TRUE
          /\ GoodBounds(e.bounds) = TRUE
          /\ UNCHANGED lmvars
Next == TBegin \/ THard \/ TSoft \/ TSave \/ TLoad \/ TSolve
=============================================================================
