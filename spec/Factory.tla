------------------------------- MODULE Factory -------------------------------
(***************************************************************************)
(* A formula factory as its user sees it: a growing, immutable table from    *)
(* handles to formula trees, and a memo of the constructor calls made.  All  *)
(* computations on formulas are actions that may extend the table but never  *)
(* change it, and whose result is constrained by the meaning of the inputs   *)
(* alone, never by the history.                                             *)
(***************************************************************************)
EXTENDS Syntax

VARIABLES n,      \* variables in use are 1..n
          mode,   \* TRUE: the factory conserves variables
          reg,    \* handle -> formula tree
          memo    \* constructor call -> handle
fvars == <<n, mode, reg, memo>>

FactoryInit == n = 0 /\ mode = FALSE /\ reg = <<>> /\ memo = <<>>
NewFactory(k, conserve) == n' = k /\ mode' = conserve /\ reg' = <<>> /\ memo' = <<>>

(* hs: sequence of pairs handle, tree as found in the factory now             *)
NewOnes(hs) == {i \in DOMAIN hs : hs[i][1] \notin DOMAIN reg}
Handles(hs, I) == {hs[i][1] : i \in I}
(* known formulas are as they were; new ones are really new                  *)
Coherent(hs) ==
  LET nw == NewOnes(hs) hd == Handles(hs, nw)
      tr == {hs[i][2] : i \in nw} IN
  /\ \A i \in DOMAIN hs \ nw : reg[hs[i][1]] = hs[i][2]
  /\ Cardinality({<<hs[i][1], hs[i][2]>> : i \in nw}) = Cardinality(hd)   \* a handle has one tree
  /\ Cardinality(tr) = Cardinality(hd)                                    \* a tree has one handle
  /\ \A h \in DOMAIN reg : reg[h] \notin tr
See(hs) ==
  /\ Coherent(hs) = TRUE
  /\ LET nw == NewOnes(hs) IN
     reg' = [h \in DOMAIN reg \cup Handles(hs, nw) |->
               IF h \in DOMAIN reg THEN reg[h] ELSE hs[CHOOSE i \in nw : hs[i][1] = h][2]]

(* A constructor call: key identifies the call, raw is the operator applied   *)
(* to the operands, res the resulting formula and h its handle.              *)
ConstantOperand(raw) == raw[1] \in 4..8 /\ \E i \in 2..Len(raw) : raw[i][1] \in {0,1}
GoodCons(raw, res) ==
  /\ Equiv(raw, res, n)
  /\ Vars(res) \subseteq Vars(raw)
  /\ (mode /\ ~ConstantOperand(raw)) => Vars(res) = Vars(raw)
Recall(key, h) ==
  /\ (key \in DOMAIN memo => memo[key] = h) = TRUE
  /\ memo' = [k \in DOMAIN memo \cup {key} |-> IF k = key THEN h ELSE memo[k]]

Cons(key, raw, res, h) == GoodCons(raw, res) = TRUE /\ Recall(key, h)

(* one tree per handle and one handle per tree                               *)
HashConsed == \A g, h \in DOMAIN reg : reg[g] = reg[h] => g = h
=============================================================================
