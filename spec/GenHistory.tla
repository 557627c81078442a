------------------------------ MODULE GenHistory ------------------------------
(* All short histories of a SAT solver, as behaviours of Solver: additions,     *)
(* calls with additions of their own, saved and loaded states, queries and       *)
(* canceled queries.  The formulas share subformulas.  Invariants of Solver are  *)
(* checked along the way; the real solver replays every history.                 *)
EXTENDS Solver, GenBase
VARIABLES hist, kind
vars == <<svars, hist, kind>>
A == <<6, <<5, <<2,1>>, <<2,2>>>>, <<5, <<3,1>>, <<2,3>>>>>>
B == <<6, <<4, A>>, <<5, <<2,2>>, <<3,3>>>>>>
C == <<9, 1, 1, <<1,2,3>>, <<1,1,1>>>>
D == <<8, <<5, <<2,1>>, <<2,2>>>>, <<3,3>>>>
U == <<2, 1>>
V == <<6, <<3,1>>, <<3,2>>>>
Formulas == IF kind = "state" THEN {A, B, V} ELSE {A, B, C}
Extra == IF kind = "state" THEN {<<U>>} ELSE {<<U, D>>, <<B>>, <<V, <<3,3>>>>}
Depth == IF kind = "state" THEN (IF Thorough THEN 7 ELSE 6) ELSE IF Thorough THEN 5 ELSE 4
Log(op, fs, x) == hist' = Append(hist, [op |-> op, fs |-> fs, x |-> x]) /\ UNCHANGED kind
Last == Len(hist) = Depth
HAdd == \E f \in Formulas : Add(f) /\ Log("add", <<f>>, 0)
HCall == \E fs \in Extra : UNCHANGED svars /\ Log("call", fs, 0)
HCancel == kind = "leak" /\ \E fs \in {<<B>>, <<U>>} : UNCHANGED svars /\ Log("cancel", fs, 1)
HSave == kind = "state" /\ Save /\ Log("save", <<>>, 0)
HLoad == kind = "state" /\ \E i \in DOMAIN saved : Load(i) /\ Log("load", <<>>, i)
HRefused == kind = "state" /\ \E i \in DOMAIN saved : LoadRefused(i) /\ Log("load", <<>>, i)
HQuery == \E q \in (IF kind = "state" THEN {"enum"} ELSE {"enum", "opt", "bb"}) : UNCHANGED svars /\ Log(q, <<>>, 0)
Init == /\ kind \in {"state", "leak"} /\ hist = <<>>
        /\ n = 3 /\ M = Universe[3] /\ P = {} /\ saved = <<>>
(* the same addition or query twice in a row, or three saves, add nothing          *)
Count(h, op) == Cardinality({i \in DOMAIN h : h[i].op = op})
Useful(h) == /\ \A i, j \in DOMAIN h : (i < j /\ h[i].op = "add" /\ h[i] = h[j])
                    => \E k \in i..j : h[k].op \in {"load", "call", "cancel"}
             /\ kind = "state" => Count(h, "call") + Count(h, "enum") <= 2 /\ h[1].op \in {"add", "save"}
             /\ Count(h, "enum") <= 1 /\ Count(h, "opt") <= 1 /\ Count(h, "bb") <= 1
             /\ h[1].op \notin {"load"}
             /\ \A i \in 2..Len(h) : h[i] # h[i-1]
             /\ Cardinality({i \in DOMAIN h : h[i].op = "save"}) <= 2
             /\ \A i \in 2..Len(h) : ~(h[i].op = "save" /\ h[i-1].op = "load")
Next == /\ ~Last
        /\ HAdd \/ HCall \/ HCancel \/ HSave \/ HLoad \/ HRefused \/ HQuery
        /\ Useful(hist')
Relevant == kind = "state" => Count(hist, "load") > 0
Written == Last /\ Relevant => Emit([kind |-> kind, hist |-> hist])
=============================================================================
