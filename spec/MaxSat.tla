------------------------------- MODULE MaxSat -------------------------------
(***************************************************************************)
(* The MaxSAT solver as its user sees it: the models H of the hard formulas, *)
(* the sequence S of soft formulas with their weights, and saved states.     *)
(* Clauses, selector variables, relaxation, the algorithm and its bounds are *)
(* not part of this state.                                                   *)
(***************************************************************************)
EXTENDS Prop

VARIABLES n,      \* number of user variables
          H,      \* models of the hard formulas
          S,      \* sequence of soft formulas [mods, w]
          saved   \* sequence of saved states [H, S, valid]
mvars == <<n, H, S, saved>>

MaxSatInit == n = 0 /\ H = {0} /\ S = <<>> /\ saved = <<>>
New(k) == n' = k /\ H' = Universe[k] /\ S' = <<>> /\ saved' = <<>>

AddHard(f) == H' = H \cap Mod(f, n) /\ UNCHANGED <<n, S, saved>>
AddSoft(f, w) == w >= 1 /\ S' = Append(S, [mods |-> Mod(f, n), w |-> w]) /\ UNCHANGED <<n, H, saved>>
AddSoftRefused(w) == w < 1 /\ UNCHANGED mvars
Save == saved' = Append(saved, [H |-> H, S |-> S, valid |-> TRUE]) /\ UNCHANGED <<n, H, S>>
Load(i) == /\ i \in DOMAIN saved /\ saved[i].valid
           /\ H' = saved[i].H /\ S' = saved[i].S
           /\ saved' = [j \in DOMAIN saved |-> IF j > i THEN [saved[j] EXCEPT !.valid = FALSE] ELSE saved[j]]
           /\ UNCHANGED n
LoadRefused(i) == ~saved[i].valid /\ UNCHANGED mvars

(* the total weight of the soft formulas an assignment violates *)
CostOf(a) == Sum([i \in DOMAIN S |-> IF a \in S[i].mods THEN 0 ELSE S[i].w])
Optimum == LET cs == {CostOf(a) : a \in H} IN CHOOSE c \in cs : \A d \in cs : c <= d
TotalWeight == Sum([i \in DOMAIN S |-> S[i].w])

(* a completed search *)
GoodResult(sat, opt, mdl) ==
  /\ sat <=> H # {}
  /\ sat => /\ opt = Optimum
            /\ NoDup(mdl) /\ Consistent(Range(mdl))
            \* no matter how the variables the solver does not know are chosen
            /\ LET as == Agreeing({x \in Range(mdl) : Abs(x) <= n}, n)
               IN as # {} /\ \A a \in as : a \in H /\ CostOf(a) = opt
(* the bounds announced during a search, in order: <<1, lower>> or <<2, upper>> *)
GoodBounds(bs) ==
  /\ \A i \in DOMAIN bs : bs[i][2] >= 0
  /\ H # {} => \A i \in DOMAIN bs : IF bs[i][1] = 1 THEN bs[i][2] <= Optimum ELSE bs[i][2] >= Optimum
  /\ H = {} => \A i \in DOMAIN bs : bs[i][1] = 1
  /\ \A i, j \in DOMAIN bs : i < j /\ bs[i][1] = bs[j][1] =>
        IF bs[i][1] = 1 THEN bs[i][2] <= bs[j][2] ELSE bs[i][2] >= bs[j][2]

TypeOK == /\ H \subseteq Universe[n]
          /\ \A i \in DOMAIN S : S[i].mods \subseteq Universe[n] /\ S[i].w >= 1
OptimumInRange == H # {} => Optimum \in 0..TotalWeight
(* adding formulas never makes the optimum better *)
SavedIsPrefix == \A i \in DOMAIN saved : saved[i].valid =>
   /\ H \subseteq saved[i].H /\ Len(saved[i].S) <= Len(S)
   /\ \A j \in DOMAIN saved[i].S : saved[i].S[j] = S[j]
=============================================================================
