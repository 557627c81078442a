--------------------------- MODULE GenIncremental ---------------------------
(* All histories of tightening one incremental constraint over up to MaxVars  *)
(* variables: the state graph of the abstract incremental constraint, one     *)
(* behaviour for each maximal path, for every encoder.                       *)
EXTENDS GenBase
VARIABLES n, kind, enc, b, hist
vars == <<n, kind, enc, b, hist>>
MaxVars == IF Thorough THEN 9 ELSE 8
AtMost == 1
AtLeast == 3
Init == /\ n \in 2..MaxVars /\ kind \in {AtMost, AtLeast} /\ enc \in 0..3
        /\ b \in (IF kind = AtMost THEN 1..(n-1) ELSE 2..(n-1))
        /\ hist = <<b>>
(* at-most down to 0, at-least up to n *)
Tighten == \E x \in 0..n : /\ IF kind = AtMost THEN x < b ELSE x > b
                           /\ b' = x /\ hist' = Append(hist, x)
                           /\ UNCHANGED <<n, kind, enc>>
Next == Tighten
AtEnd == b = IF kind = AtMost THEN 0 ELSE n
Written == AtEnd => Emit([n |-> n, kind |-> kind, enc |-> enc, hist |-> hist])
InRange == b \in 0..n
=============================================================================
