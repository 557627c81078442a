---------------------------- MODULE LargeMaxSat ----------------------------
(***************************************************************************)
(* The MaxSAT solver (see MaxSat) over many variables.  The variables are    *)
(* divided into blocks and every formula speaks about one block, so that the *)
(* optimum is the sum of the optima of the blocks.  The solver knows nothing *)
(* of the blocks.                                                           *)
(*                                                                          *)
(* A table block has the set M of its local models and its soft formulas S;  *)
(* a symmetric block (many variables) has the set C of the allowed numbers   *)
(* of true variables, and soft formulas that are single literals.           *)
(***************************************************************************)
EXTENDS Prop

VARIABLES D,       \* the blocks' variables: sequence of [sym, vars]
          B,       \* the blocks' content
          Z,       \* the weight of the soft formulas that are false
          saved
lmvars == <<D, B, Z, saved>>

RECURSIVE Place(_,_,_)
Place(s, x, i) == IF s[i] = x THEN i ELSE Place(s, x, i+1)
LocV(b, v) == Place(D[b].vars, v, 1)
LocL(b, x) == IF x > 0 THEN LocV(b, x) ELSE -LocV(b, -x)
RECURSIVE LocF(_,_)
LocF(b, f) ==
  LET t == f[1] IN
  CASE t \in {2,3} -> <<t, LocV(b, f[2])>>
    [] t \in {0,1} -> f
    [] t = 9 -> <<9, f[2], f[3], [i \in DOMAIN f[4] |-> LocL(b, f[4][i])], f[5]>>
    [] OTHER -> [i \in DOMAIN f |-> IF i = 1 THEN t ELSE LocF(b, f[i])]
Size(b) == Len(D[b].vars)
Zeros(m) == [i \in 1..m |-> 0]
Fresh(w) == IF w.sym THEN [C |-> 0..Len(w.vars), cost |-> 0, gain |-> Zeros(Len(w.vars))]
                     ELSE [M |-> Universe[Len(w.vars)], S |-> <<>>]
LMInit == D = <<>> /\ B = <<>> /\ Z = 0 /\ saved = <<>>
New(ws) == D' = ws /\ B' = [i \in DOMAIN ws |-> Fresh(ws[i])] /\ Z' = 0 /\ saved' = <<>>
BlockOf(f) == CHOOSE b \in DOMAIN D : Vars(f) \subseteq Range(D[b].vars)

(* a cardinality constraint over the variables of a symmetric block            *)
Counts(f) == LET k == Len(f[4]) up == f[4][1] > 0 IN {j \in 0..k : Cmp(f[2], IF up THEN j ELSE k - j, f[3])}
AddHard(f) ==
  /\ UNCHANGED <<D, Z, saved>>
  /\ LET b == IF Vars(f) = {} THEN 1 ELSE BlockOf(f) IN
     B' = [B EXCEPT ![b] = IF D[b].sym THEN [@ EXCEPT !.C = IF f[1] = 0 THEN {} ELSE IF f[1] = 1 THEN @ ELSE @ \cap Counts(f)]
                           ELSE [@ EXCEPT !.M = @ \cap Mod(LocF(b, f), Size(b))]]
(* gain: what the cost grows by when the variable is true                      *)
AddSoft(f, w) ==
  /\ w >= 1 /\ UNCHANGED <<D, saved>>
  /\ IF Vars(f) = {} THEN Z' = Z + (IF Ev(f, {}) THEN 0 ELSE w) /\ UNCHANGED B
     ELSE LET b == BlockOf(f) IN
          /\ UNCHANGED Z
          /\ B' = [B EXCEPT ![b] =
               IF D[b].sym THEN LET x == LocL(b, LitOf(f)) IN
                    IF x > 0 THEN [@ EXCEPT !.cost = @ + w, !.gain[x] = @ - w] ELSE [@ EXCEPT !.gain[-x] = @ + w]
               ELSE [@ EXCEPT !.S = Append(@, [mods |-> Mod(LocF(b, f), Size(b)), w |-> w])]]
Save == saved' = Append(saved, [B |-> B, Z |-> Z, valid |-> TRUE]) /\ UNCHANGED <<D, B, Z>>
Load(i) == /\ saved[i].valid
           /\ B' = saved[i].B /\ Z' = saved[i].Z
           /\ saved' = [j \in DOMAIN saved |-> IF j > i THEN [saved[j] EXCEPT !.valid = FALSE] ELSE saved[j]]
           /\ UNCHANGED D
LoadRefused(i) == ~saved[i].valid /\ UNCHANGED lmvars

(* the k smallest elements of a sequence, summed up                            *)
Least(s) == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[i] <= s[j]
Drop(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
RECURSIVE SumLeast(_,_)
SumLeast(s, k) == IF k = 0 THEN 0 ELSE LET i == Least(s) IN s[i] + SumLeast(Drop(s, i), k-1)
MinOf(X) == CHOOSE c \in X : \A d \in X : c <= d
LocalCost(x, a) == Sum([i \in DOMAIN x.S |-> IF a \in x.S[i].mods THEN 0 ELSE x.S[i].w])
BSat(b) == IF D[b].sym THEN B[b].C # {} ELSE B[b].M # {}
BOpt(b) == LET x == B[b] IN
  IF D[b].sym THEN x.cost + MinOf({SumLeast(x.gain, k) : k \in x.C})
  ELSE MinOf({LocalCost(x, a) : a \in x.M})
Sat == \A b \in DOMAIN D : BSat(b)
Optimum == Z + Sum([b \in DOMAIN D |-> BOpt(b)])

(* the cost of block b under the literals L whatever the other variables are; -1: not a model *)
BCost(b, L) == LET x == B[b] K == {y \in L : Abs(y) \in Range(D[b].vars)} IN
  IF D[b].sym
  THEN LET T == {LocV(b, y) : y \in {z \in K : z > 0}} IN
       IF Cardinality(T) \in x.C THEN x.cost + Sum([i \in DOMAIN x.gain |-> IF i \in T THEN x.gain[i] ELSE 0]) ELSE -1
  ELSE LET A == Agreeing({LocL(b, y) : y \in K}, Size(b))
           cs == {LocalCost(x, a) : a \in A} IN
       IF A \subseteq x.M /\ Cardinality(cs) = 1 THEN CHOOSE c \in cs : TRUE ELSE -1
GoodResult(sat, opt, mdl) ==
  /\ sat = Sat
  /\ sat => /\ opt = Optimum
            /\ NoDup(mdl) /\ Consistent(Range(mdl))
            /\ LET cs == [b \in DOMAIN D |-> BCost(b, Range(mdl))] IN
               (\A b \in DOMAIN D : cs[b] >= 0) /\ Z + Sum(cs) = opt
GoodBounds(bs) ==
  /\ \A i \in DOMAIN bs : bs[i][2] >= 0
  /\ Sat => LET o == Optimum IN \A i \in DOMAIN bs : IF bs[i][1] = 1 THEN bs[i][2] <= o ELSE bs[i][2] >= o
  /\ ~Sat => \A i \in DOMAIN bs : bs[i][1] = 1
  /\ \A i \in 1..(Len(bs)-1) : bs[i][1] = bs[i+1][1] =>
        IF bs[i][1] = 1 THEN bs[i][2] <= bs[i+1][2] ELSE bs[i][2] >= bs[i+1][2]
=============================================================================
