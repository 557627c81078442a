------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* Cardinality and pseudo-Boolean encodings.  An encoding session collects   *)
(* clauses C over the constraint variables 1..n and auxiliary variables; it  *)
(* is exact if the clauses, projected to 1..n, admit exactly the assignments *)
(* W that satisfy the constraints encoded so far, with the bounds now in     *)
(* force.                                                                   *)
(***************************************************************************)
EXTENDS Prop

VARIABLES n,    \* constraint variables
          C,    \* clauses produced so far (sets of literals)
          W,    \* admitted assignments of 1..n
          inc   \* the incremental constraint [kind, lits, b] or NoInc
evars == <<n, C, W, inc>>
NoInc == [kind |-> "none", lits |-> <<>>, b |-> 0]

EncodingInit == n = 0 /\ C = {} /\ W = {0} /\ inc = NoInc
NewSession(k) == n' = k /\ C' = {} /\ W' = Universe[k] /\ inc' = NoInc

ClausesIn(cs) == UNION {CNFClauses(cs[i]) : i \in DOMAIN cs}
Exact == ProjModels(C, n) = W

(* encode constraint f; cs are all clauses newly produced; Exact holds again  *)
Encode(f, cs) == LET c == C \cup ClausesIn(cs)
                     w == W \cap Mod(f, n)
                 IN /\ (\A i \in DOMAIN cs : IsClause(cs[i])) = TRUE
                    /\ (ProjModels(c, n) = w) = TRUE
                    /\ C' = c /\ W' = w
                    /\ UNCHANGED n

Bound(kind, b, lits) == <<9, kind, b, lits, Ones(Len(lits))>>
AtMost == 1
AtLeast == 3
(* encode lits <= b (>= b) such that it can be tightened later; trivial       *)
(* constraints cannot be tightened                                           *)
Start(kind, b, lits, cs, ok) ==
  /\ Encode(Bound(kind, b, lits), cs)
  /\ inc' = IF ok THEN [kind |-> kind, lits |-> lits, b |-> b] ELSE NoInc
  /\ ~ok => \/ kind = AtMost /\ (b <= 0 \/ b >= Len(lits))
            \/ kind = AtLeast /\ (b <= 1 \/ b >= Len(lits))
Tightens(b) == IF inc.kind = AtMost THEN b < inc.b ELSE b > inc.b
Tighten(b, cs) ==
  /\ inc.kind \in {AtMost, AtLeast} /\ Tightens(b)
  /\ Encode(Bound(inc.kind, b, inc.lits), cs)
  /\ inc' = [inc EXCEPT !.b = b]
Refuse(b) == inc.kind \in {AtMost, AtLeast} /\ ~Tightens(b) /\ UNCHANGED evars

(***************************************************************************)
(* Constraints over more variables than can be enumerated: the clauses must  *)
(* agree with the constraint on all assignments of a sample in which every   *)
(* number of true variables occurs.                                         *)
(***************************************************************************)
Window(s, k, m) == {((s + i) % m) + 1 : i \in 0..(k-1)}   \* k cyclically consecutive variables
LitsFor(T, m) == {IF v \in T THEN v ELSE -v : v \in 1..m}
AgreesOn(cls, f, m, T) == SatWith(cls, LitsFor(T, m)) = Ev(f, T)
(* extension: are there values for the other variables with T true           *)
WideSample(m, ks, starts) == {Window(s, k, m) : s \in starts, k \in ks}
GoodWide(f, cs, m, ks, starts, pairs) ==
  LET cls == ClausesIn(cs) IN
  /\ \A i \in DOMAIN cs : IsClause(cs[i])
  /\ \A T \in WideSample(m, ks, starts) : AgreesOn(cls, f, m, T)
  /\ pairs => \A i \in 1..m : AgreesOn(cls, f, m, {i}) /\ \A j \in (i+1)..m : AgreesOn(cls, f, m, {i, j})
(* a sample chosen by the harness; m variables                                 *)
GoodPoints(f, cs, m, pts) ==
  LET cls == ClausesIn(cs) IN
  /\ \A i \in DOMAIN cs : IsClause(cs[i])
  /\ \A i \in DOMAIN pts : AgreesOn(cls, f, m, Range(pts[i]))
(* a wide incremental constraint: C collects its clauses, inc the bound in force *)
WideBound == Bound(inc.kind, inc.b, inc.lits)
WideStep(cs, m, pts, i) ==
  LET c == C \cup ClausesIn(cs) f == Bound(i.kind, i.b, i.lits) IN
  /\ (\A k \in DOMAIN cs : IsClause(cs[k])) = TRUE
  /\ (\A k \in DOMAIN pts : AgreesOn(c, f, m, Range(pts[k]))) = TRUE
  /\ C' = c /\ inc' = i /\ UNCHANGED <<n, W>>
WideStart(kind, b, lits, cs, m, pts) == WideStep(cs, m, pts, [kind |-> kind, lits |-> lits, b |-> b])
WideTighten(b, cs, m, pts) == Tightens(b) /\ WideStep(cs, m, pts, [inc EXCEPT !.b = b])
=============================================================================
