------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* The SAT solver as its user sees it.  Its content is the set M of models   *)
(* (over the user's variables 1..n) of everything added so far; clauses,     *)
(* encodings, auxiliary variables, learned clauses and the trail are not     *)
(* part of this state, so any influence of them on an answer is an error.    *)
(* Every query is an action that leaves the state as it is and constrains    *)
(* the answer.                                                              *)
(***************************************************************************)
EXTENDS Prop

VARIABLES n,       \* number of user variables
          M,       \* models of the content
          P,       \* propositions (formulas) added so far
          saved    \* sequence of saved states [M, P, valid]
svars == <<n, M, P, saved>>

SolverInit == n = 0 /\ M = {0} /\ P = {} /\ saved = <<>>

New(k) == n' = k /\ M' = Universe[k] /\ P' = {} /\ saved' = <<>>

(* ---- changing the content --------------------------------------------- *)
Add(f) == /\ M' = M \cap Mod(f, n)
          /\ P' = P \cup {f}
          /\ UNCHANGED <<n, saved>>

(* an incremental constraint with bound rhs is in force from now on          *)
Constrain(f) == M' = M \cap Mod(f, n) /\ UNCHANGED <<n, P, saved>>

Save == saved' = Append(saved, [M |-> M, P |-> P, valid |-> TRUE]) /\ UNCHANGED <<n, M, P>>

(* Loading state i makes all states saved after it invalid.                  *)
Load(i) == /\ i \in DOMAIN saved /\ saved[i].valid
           /\ M' = saved[i].M /\ P' = saved[i].P
           /\ saved' = [j \in DOMAIN saved |-> IF j > i THEN [saved[j] EXCEPT !.valid = FALSE] ELSE saved[j]]
           /\ UNCHANGED n
LoadRefused(i) == ~saved[i].valid /\ UNCHANGED svars

(* ---- queries ----------------------------------------------------------- *)
Essential(X) == {v \in 1..n : DependsOn(X, v, n)}
ModelVars(mdl) == {Abs(mdl[i]) : i \in DOMAIN mdl}

(* mdl is a model of X, restricted to the requested variables req            *)
GoodModel(mdl, req, X) ==
  /\ NoDup(mdl) /\ Consistent(Range(mdl))
  /\ ModelVars(mdl) \subseteq req
  /\ (req \cap Essential(X)) \subseteq ModelVars(mdl)
  /\ Agreeing(Range(mdl), n) \cap X # {}

GoodUpZero(up, X) == \A i \in DOMAIN up : Abs(up[i]) \in 1..n => X \subseteq LitModels(up[i], n)

(* a call with additional formulas and literals *)
CallModels(fs) == M \cap ModSeq(fs, n)
AnswerSat(fs, sat) == sat <=> CallModels(fs) # {}
GoodCore(core, fs) == /\ \A i \in DOMAIN core : core[i] \in P \cup Range(fs)
                      /\ ModSeq(core, n) = {}
(* the core names the propositions that were added themselves, not copies, and   *)
(* is minimal where it is said to be                                            *)
CoreObjects(core, own, fs) == \A i \in DOMAIN core : own[i] \/ core[i] \in Range(fs)
SeqBut(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
GuaranteedMus(core) == \A i \in DOMAIN core : ModSeq(SeqBut(core, i), n) # {}

(* backbone over the variables vs; kind 0 positive, 1 negative, 2 both       *)
BBPos(vs) == {v \in vs : M \subseteq LitModels(v, n)}
BBNeg(vs) == {v \in vs : M \subseteq LitModels(-v, n)}
GoodBackbone(b, vs, kind) ==
  /\ b.sat <=> M # {}
  /\ b.sat => /\ NoDup(b.pos) /\ NoDup(b.neg) /\ NoDup(b.opt)
              /\ Range(b.pos) = IF kind \in {0,2} THEN BBPos(vs) ELSE {}
              /\ Range(b.neg) = IF kind \in {1,2} THEN BBNeg(vs) ELSE {}
              /\ Range(b.opt) = IF kind = 2 THEN vs \ (BBPos(vs) \cup BBNeg(vs)) ELSE {}
  /\ ~b.sat => b.pos = <<>> /\ b.neg = <<>> /\ b.opt = <<>>

(* enumeration over the sequence vs with additional variables add            *)
EnumOK(models, vs, add) ==
  LET key(mdl) == LET T == Range(mdl) IN [i \in DOMAIN vs |-> vs[i] \in T]
      keys == [i \in DOMAIN models |-> key(models[i])]
      want == {[i \in DOMAIN vs |-> Bit(a, vs[i]) = 1] : a \in M}
  IN /\ \A i \in DOMAIN models :
           /\ NoDup(models[i]) /\ Consistent(Range(models[i]))
           /\ ModelVars(models[i]) = Range(vs) \cup add
           /\ Agreeing(Range(models[i]), n) \cap M # {}
     /\ Cardinality(Range(keys)) = Len(models)
     /\ Range(keys) = want
(* an incomplete enumeration: correct and without duplicates                 *)
EnumPartial(models, vs, add) ==
  LET key(mdl) == LET T == Range(mdl) IN [i \in DOMAIN vs |-> vs[i] \in T]
      keys == [i \in DOMAIN models |-> key(models[i])]
  IN /\ \A i \in DOMAIN models :
           /\ NoDup(models[i]) /\ Consistent(Range(models[i]))
           /\ ModelVars(models[i]) = Range(vs) \cup add
           /\ Agreeing(Range(models[i]), n) \cap M # {}
     /\ Cardinality(Range(keys)) = Len(models)
ProjCount(vs) == Cardinality({[i \in DOMAIN vs |-> Bit(a, vs[i]) = 1] : a \in M})

(* optimization *)
Satisfied(ls, a) == Cardinality({i \in DOMAIN ls : LitTrue(a, ls[i])})
Best(max, ls) == LET vals == {Satisfied(ls, a) : a \in M}
                 IN IF max THEN CHOOSE x \in vals : \A y \in vals : y <= x
                    ELSE CHOOSE x \in vals : \A y \in vals : y >= x
OptVars(ls, add) == {Abs(ls[i]) : i \in DOMAIN ls} \cup add
GoodOptimum(max, ls, add, mdl) ==
  LET best == Best(max, ls) IN
  /\ NoDup(mdl) /\ Consistent(Range(mdl))
  /\ ModelVars(mdl) \subseteq OptVars(ls, add)
  /\ (OptVars(ls, add) \cap Essential(M)) \subseteq ModelVars(mdl)
  /\ \E a \in Agreeing(Range(mdl), n) \cap M : Satisfied(ls, a) = best
GoodPartialOptimum(ls, add, mdl) ==
  /\ NoDup(mdl) /\ Consistent(Range(mdl))
  /\ ModelVars(mdl) \subseteq OptVars(ls, add)
  /\ Agreeing(Range(mdl), n) \cap M # {}

(* the clauses reported to be on the solver; they contain auxiliary variables *)
RECURSIVE ClausesOf(_)
ClausesOf(fs) == UNION {CNFClauses(fs[i]) : i \in DOMAIN fs}
IsConstraint(f) == f[1] = 9
GoodFormulas(fs) ==
  LET cl == SelectSeq(fs, LAMBDA f : ~IsConstraint(f))
      cc == SelectSeq(fs, IsConstraint)   \* at-most constraints kept natively
  IN /\ \A i \in DOMAIN cl : IsCNFShape(cl[i])
     /\ \A i \in DOMAIN cc : Vars(cc[i]) \subseteq 1..n
     /\ ProjModels(ClausesOf(cl), n) \cap ModSeq(cc, n) = M

TypeOK == /\ M \subseteq Universe[n]
          /\ \A i \in DOMAIN saved : saved[i].M \subseteq Universe[n]
(* content only grows between a save and a valid load: the saved models are   *)
(* a superset of the present ones                                            *)
SavedSuperset == \A i \in DOMAIN saved : saved[i].valid => M \subseteq saved[i].M
=============================================================================
