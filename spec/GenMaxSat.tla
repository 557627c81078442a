------------------------------ MODULE GenMaxSat ------------------------------
(* Random behaviours of the MaxSAT solver (TLC simulation) over a small pool  *)
(* of formulas, for every algorithm and configuration: adding, saving,        *)
(* loading, searching, canceled searches.  The invariants of MaxSat are       *)
(* checked along the way.                                                     *)
EXTENDS MaxSat, GenBase
VARIABLES alg, cfg, hist
vars == <<n, H, S, saved, alg, cfg, hist>>

Depth == 12
Pool == <<
  <<2,1>>, <<2,2>>, <<2,3>>, <<3,1>>, <<3,2>>, <<3,3>>,
  <<6,<<2,1>>,<<2,2>>>>, <<6,<<3,1>>,<<2,3>>>>, <<6,<<3,2>>,<<3,3>>>>, <<6,<<2,1>>,<<3,2>>,<<2,3>>>>,
  <<5,<<2,1>>,<<3,2>>>>, <<8,<<2,1>>,<<2,3>>>>, <<4,<<8,<<2,2>>,<<2,3>>>>>>, <<7,<<2,2>>,<<5,<<2,1>>,<<2,3>>>>>>,
  <<9,1,1,<<1,2,3>>,<<1,1,1>>>>, <<9,0,1,<<1,2,3>>,<<1,1,1>>>>, <<9,3,2,<<1,2,3>>,<<1,1,1>>>>,
  <<9,1,2,<<1,-2,3>>,<<1,2,2>>>>, <<0>>, <<1>> >>
\* 0 LinearSU, 1 LinearUS, 2 MSU3, 3 WMSU3, 4 WBO, 5 IncWBO, 6 OLL
Weights == IF alg \in {1, 2} THEN {1} ELSE {1, 2, 3, 10}
Searchable == alg # 3 \/ \E i \in DOMAIN S : S[i].w > 1
Log(x) == hist' = Append(hist, x) /\ UNCHANGED <<alg, cfg>>

Init == /\ n = 3 /\ H = Universe[3] /\ S = <<>> /\ saved = <<>> /\ hist = <<>>
        /\ alg \in 0..6
        /\ cfg \in [cnf : 0..2, inc : 0..1, ws : 0..2, sym : BOOLEAN, bmo : BOOLEAN, lim : {0, 1, 1000}]
\* one random choice instead of branching: simulation computes all successors
One(set) == {RandomElement(set)}
GHard == \E i \in One(DOMAIN Pool \ {19}) : AddHard(Pool[i]) /\ Log([op |-> "hard", f |-> Pool[i], x |-> 0])
GSoft == \E i \in One(DOMAIN Pool), w \in One(Weights) : AddSoft(Pool[i], w) /\ Log([op |-> "soft", f |-> Pool[i], x |-> w])
GSoftLit == \E i \in One(1..6), w \in One(Weights) : AddSoft(Pool[i], w) /\ Log([op |-> "soft", f |-> Pool[i], x |-> w])
GSave == Save /\ Log([op |-> "save", f |-> <<1>>, x |-> 0])
GLoad == \E i \in DOMAIN saved : Load(i) /\ Log([op |-> "load", f |-> <<1>>, x |-> i])
GLoadRefused == \E i \in DOMAIN saved : LoadRefused(i) /\ Log([op |-> "load", f |-> <<1>>, x |-> i])
GSolve == Searchable /\ UNCHANGED mvars /\ Log([op |-> "solve", f |-> <<1>>, x |-> 0])
GCancel == Searchable /\ UNCHANGED mvars /\ \E k \in One(1..12) : Log([op |-> "solve", f |-> <<1>>, x |-> k])
Finish == /\ Len(hist) = Depth
          /\ Emit([alg |-> alg, cfg |-> cfg, hist |-> hist])
          /\ hist' = Append(hist, [op |-> "done", f |-> <<1>>, x |-> 0])
          /\ UNCHANGED <<n, H, S, saved, alg, cfg>>
Next == \/ /\ Len(hist) < Depth
           /\ GHard \/ GSoft \/ GSoftLit \/ GSave \/ GLoad \/ GLoadRefused \/ GSolve \/ GCancel
        \/ Finish
=============================================================================
