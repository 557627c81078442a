-------------------------------- MODULE Prop --------------------------------
(***************************************************************************)
(* Propositional logic with pseudo-Boolean constraints: the vocabulary of   *)
(* all other modules.                                                       *)
(*                                                                          *)
(* Formulas (as they appear in traces) are tuples:                          *)
(*   <<0>> false   <<1>> true   <<2,v>> v   <<3,v>> ~v   <<4,f>> not f       *)
(*   <<5,f1,..,fk>> and         <<6,f1,..,fk>> or                            *)
(*   <<7,l,r>> l => r           <<8,l,r>> l <=> r                            *)
(*   <<9,cmp,rhs,lits,coeffs>>  sum(coeffs*lits) cmp rhs, cmp 0..4 is        *)
(*                              =, <=, <, >=, >                              *)
(* Variables are 1..n (and above n: auxiliary variables), literals v or -v.  *)
(* An assignment of n variables is an integer in 0..2^n-1; bit v-1 is v.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxN == 11
Universe == [n \in 0..MaxN |-> 0..(2^n - 1)]
PosTab == [n \in 1..MaxN |-> [v \in 1..n |-> {a \in 0..(2^n-1) : (a \div 2^(v-1)) % 2 = 1}]]

Abs(x) == IF x < 0 THEN -x ELSE x
Bit(a, v) == (a \div 2^(v-1)) % 2
LitTrue(a, l) == IF l > 0 THEN Bit(a, l) = 1 ELSE Bit(a, -l) = 0
Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SumSeq(_,_)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i+1)
Sum(s) == SumSeq(s, 1)

Cmp(c, x, y) == CASE c = 0 -> x = y [] c = 1 -> x <= y [] c = 2 -> x < y
                  [] c = 3 -> x >= y [] c = 4 -> x > y

(* weight of literals lits with coefficients cs under assignment a *)
RECURSIVE WSum(_,_,_,_)
WSum(ls, cs, a, i) == IF i > Len(ls) THEN 0
  ELSE (IF LitTrue(a, ls[i]) THEN cs[i] ELSE 0) + WSum(ls, cs, a, i+1)
Weight(ls, cs, a) == WSum(ls, cs, a, 1)

Ones(k) == [i \in 1..k |-> 1]

LitModels(l, n) == IF l > 0 THEN PosTab[n][l] ELSE Universe[n] \ PosTab[n][-l]

(* set of models of a formula over the variables 1..n *)
RECURSIVE Mod(_,_), ModAnd(_,_,_), ModOr(_,_,_)
Mod(f, n) ==
  LET t == f[1] IN
  CASE t = 2 -> PosTab[n][f[2]]
    [] t = 3 -> Universe[n] \ PosTab[n][f[2]]
    [] t = 5 -> ModAnd(f, n, 2)
    [] t = 6 -> ModOr(f, n, 2)
    [] t = 4 -> Universe[n] \ Mod(f[2], n)
    [] t = 7 -> (Universe[n] \ Mod(f[2], n)) \cup Mod(f[3], n)
    [] t = 8 -> LET x == Mod(f[2], n) y == Mod(f[3], n)
                IN (x \cap y) \cup (Universe[n] \ (x \cup y))
    [] t = 9 -> {a \in Universe[n] : Cmp(f[2], Weight(f[4], f[5], a), f[3])}
    [] t = 0 -> {}
    [] t = 1 -> Universe[n]
ModAnd(f, n, i) == IF i > Len(f) THEN Universe[n]
  ELSE IF i = Len(f) THEN Mod(f[i], n) ELSE Mod(f[i], n) \cap ModAnd(f, n, i+1)
ModOr(f, n, i) == IF i > Len(f) THEN {}
  ELSE IF i = Len(f) THEN Mod(f[i], n) ELSE Mod(f[i], n) \cup ModOr(f, n, i+1)

(* conjunction of a sequence of formulas *)
RECURSIVE ModAll(_,_,_)
ModAll(fs, n, i) == IF i > Len(fs) THEN Universe[n] ELSE Mod(fs[i], n) \cap ModAll(fs, n, i+1)
ModSeq(fs, n) == ModAll(fs, n, 1)

(* truth value under one (possibly large) assignment given as set of true vars *)
RECURSIVE Ev(_,_)
Ev(f, T) ==
  LET t == f[1] IN
  CASE t = 2 -> f[2] \in T
    [] t = 3 -> f[2] \notin T
    [] t = 5 -> \A i \in 2..Len(f) : Ev(f[i], T)
    [] t = 6 -> \E i \in 2..Len(f) : Ev(f[i], T)
    [] t = 4 -> ~Ev(f[2], T)
    [] t = 7 -> Ev(f[2], T) => Ev(f[3], T)
    [] t = 8 -> Ev(f[2], T) = Ev(f[3], T)
    [] t = 9 -> Cmp(f[2], Sum([i \in DOMAIN f[4] |->
                   IF (f[4][i] > 0) = (Abs(f[4][i]) \in T) THEN f[5][i] ELSE 0]), f[3])
    [] t = 0 -> FALSE
    [] t = 1 -> TRUE

(* syntax *)
RECURSIVE Vars(_)
Vars(f) == LET t == f[1] IN
  CASE t \in {2,3} -> {f[2]}
    [] t \in {0,1} -> {}
    [] t = 9 -> {Abs(f[4][i]) : i \in DOMAIN f[4]}
    [] OTHER -> UNION {Vars(f[i]) : i \in 2..Len(f)}

RECURSIVE Lits(_)
Lits(f) == LET t == f[1] IN
  CASE t = 2 -> {f[2]} [] t = 3 -> {-f[2]}
    [] t \in {0,1} -> {}
    [] t = 9 -> {f[4][i] : i \in DOMAIN f[4]}
    [] OTHER -> UNION {Lits(f[i]) : i \in 2..Len(f)}

IsAtom(f) == f[1] \in {0,1,2,3,9}
IsLit(f) == f[1] \in {2,3}
LitOf(f) == IF f[1] = 2 THEN f[2] ELSE -f[2]
IsClause(f) == IsLit(f) \/ f[1] \in {0,1} \/ (f[1] = 6 /\ \A i \in 2..Len(f) : IsLit(f[i]))
IsTerm(f) == IsLit(f) \/ f[1] \in {0,1} \/ (f[1] = 5 /\ \A i \in 2..Len(f) : IsLit(f[i]))
(* constants occur only as the whole formula *)
IsCNFShape(f) == \/ f[1] \in {0,1,2,3}
                 \/ f[1] = 6 /\ \A i \in 2..Len(f) : IsLit(f[i])
                 \/ f[1] = 5 /\ \A i \in 2..Len(f) : IsLit(f[i]) \/
                        (f[i][1] = 6 /\ \A j \in 2..Len(f[i]) : IsLit(f[i][j]))
IsDNFShape(f) == \/ f[1] \in {0,1,2,3}
                 \/ f[1] = 5 /\ \A i \in 2..Len(f) : IsLit(f[i])
                 \/ f[1] = 6 /\ \A i \in 2..Len(f) : IsLit(f[i]) \/
                        (f[i][1] = 5 /\ \A j \in 2..Len(f[i]) : IsLit(f[i][j]))
RECURSIVE IsNNFShape(_)
IsNNFShape(f) == f[1] \in {0,1,2,3} \/ (f[1] \in {5,6} /\ \A i \in 2..Len(f) : IsNNFShape(f[i]))
RECURSIVE IsAIGShape(_)
IsAIGShape(f) == f[1] \in {0,1,2,3} \/ (f[1] = 4 /\ IsAIGShape(f[2]))
              \/ (f[1] = 5 /\ Len(f) = 3 /\ \A i \in 2..Len(f) : IsAIGShape(f[i]))

(* Projection of assignments to a sequence of variables: bit i-1 of the      *)
(* result is variable vs[i].                                                *)
RECURSIVE ProjA(_,_,_)
ProjA(a, vs, i) == IF i > Len(vs) THEN 0 ELSE Bit(a, vs[i]) * 2^(i-1) + ProjA(a, vs, i+1)
ProjSet(M, vs) == {ProjA(a, vs, 1) : a \in M}

(* assignment over 1..n from a sequence/set of literals; all others false *)
RECURSIVE MkA(_,_)
MkA(ls, i) == IF i > Len(ls) THEN 0 ELSE (IF ls[i] > 0 THEN 2^(ls[i]-1) ELSE 0) + MkA(ls, i+1)
(* all assignments over 1..n that agree with the literals in set L *)
Agreeing(L, n) == {a \in Universe[n] : \A x \in L : LitTrue(a, x)}

Consistent(L) == \A x \in L : -x \notin L
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

(* cofactors and quantification *)
WithBit(a, v, b) == a - Bit(a, v) * 2^(v-1) + b * 2^(v-1)
Exists1(M, v, n) == {a \in Universe[n] : WithBit(a, v, 0) \in M \/ WithBit(a, v, 1) \in M}
Forall1(M, v, n) == {a \in Universe[n] : WithBit(a, v, 0) \in M /\ WithBit(a, v, 1) \in M}
DependsOn(M, v, n) == \E a \in Universe[n] : (WithBit(a, v, 0) \in M) # (WithBit(a, v, 1) \in M)

(***************************************************************************)
(* Clauses with auxiliary variables: a formula in CNF shape as set of sets   *)
(* of literals, and a decision procedure (unit propagation and branching).   *)
(***************************************************************************)
ClauseSet(f) == IF IsLit(f) THEN {LitOf(f)} ELSE {LitOf(f[i]) : i \in 2..Len(f)}
CNFClauses(f) == CASE f[1] = 1 -> {} [] f[1] = 0 -> {{}}
   [] f[1] = 5 -> {ClauseSet(f[i]) : i \in 2..Len(f)}
   [] OTHER -> {ClauseSet(f)}

(* assign all literals of L (consistent) in clause set C *)
Assign(C, L) == LET N == {-x : x \in L} IN {c \ N : c \in {d \in C : d \cap L = {}}}
(* the clauses connected with the variables X *)
RECURSIVE Component(_,_)
Component(C, X) == LET D == {c \in C : c \cap X # {}}
                       U == UNION D
                       Y == U \cup {-x : x \in U}
                   IN IF Y \subseteq X THEN D ELSE Component(C, X \cup Y)
RECURSIVE Dpll(_)
Dpll(C) ==
  IF C = {} THEN TRUE
  ELSE IF {} \in C THEN FALSE
  ELSE LET us == {c \in C : Cardinality(c) = 1} IN
    IF us # {} THEN
      LET L == UNION us IN IF Consistent(L) THEN Dpll(Assign(C, L)) ELSE FALSE
    ELSE LET all  == UNION C
             pure == {y \in all : -y \notin all}
         IN IF pure # {} THEN Dpll({d \in C : d \cap pure = {}})
            ELSE (* branch within one of the independent parts *)
                 LET x == CHOOSE y \in (CHOOSE c \in C : \A d \in C : Cardinality(c) <= Cardinality(d)) : TRUE
                     K == Component(C, {x, -x})
                 IN (Dpll(Assign(K, {x})) \/ Dpll(Assign(K, {-x}))) /\ (K = C \/ Dpll(C \ K))
(* is the clause set satisfiable together with the literals L *)
SatWith(C, L) == Consistent(L) /\ Dpll(Assign(C, L))
LitsOf(a, n) == {IF Bit(a, v) = 1 THEN v ELSE -v : v \in 1..n}
(* unit propagation: the remaining clauses, with the derived literals over
   1..n kept as unit clauses; {{}} on conflict *)
RECURSIVE Propagated(_,_,_)
Propagated(C, D, n) == IF {} \in C THEN {{}}
  ELSE LET us == {c \in C : Cardinality(c) = 1} L == UNION us IN
    IF us = {} THEN C \cup {{x} : x \in D}
    ELSE IF ~Consistent(L) THEN {{}}
    ELSE Propagated(Assign(C, L), D \cup {x \in L : Abs(x) <= n}, n)
(* projection of the models of a clause set with auxiliary variables to 1..n:
   branch over v..n (assigned so far: a), propagating and pruning *)
RECURSIVE ProjFrom(_,_,_,_)
ProjFrom(C, v, a, n) ==
  IF {} \in C THEN {}
  ELSE IF v > n THEN IF Dpll(C) THEN {a} ELSE {}
  ELSE ProjFrom(Propagated(Assign(C, {v}), {}, n), v+1, a + 2^(v-1), n)
       \cup ProjFrom(Propagated(Assign(C, {-v}), {}, n), v+1, a, n)
ProjModels(C, n) == ProjFrom(C, 1, 0, n)
=============================================================================
