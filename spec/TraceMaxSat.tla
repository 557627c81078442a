----------------------------- MODULE TraceMaxSat -----------------------------
(* Explains recorded executions of the real MaxSAT solvers by MaxSat.         *)
EXTENDS MaxSat, TraceBase
Init == TraceInit /\ MaxSatInit

TBegin == IsEvent("begin") /\ New(e.n)
THard == IsEvent("hard") /\ AddHard(e.f)
TSoft == IsEvent("soft") /\ IF e.err THEN AddSoftRefused(e.w) ELSE AddSoft(e.f, e.w)
TSave == IsEvent("save") /\ Save
TLoad == IsEvent("load") /\ IF e.err THEN LoadRefused(e.i) ELSE Load(e.i)
TSolve == /\ IsEvent("solve")
          /\ (IF e.ok THEN GoodResult(e.sat, e.opt, e.model) ELSE e.canceled) = TRUE
          /\ GoodBounds(e.bounds) = TRUE
          /\ UNCHANGED mvars
Next == TBegin \/ THard \/ TSoft \/ TSave \/ TLoad \/ TSolve
=============================================================================
