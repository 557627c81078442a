---------------------------- MODULE WideProblems ----------------------------
(***************************************************************************)
(* Optimization and extraction problems over more variables than can be      *)
(* enumerated: prime implicants of trees (see WideFormula), minimal and      *)
(* smallest unsatisfiable subsets, and set covers of independent parts.      *)
(***************************************************************************)
EXTENDS WideFormula

Infinite == 100000
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
Lesser(a, b) == IF a <= b THEN a ELSE b
(* ---- prime implicants --------------------------------------------------------- *)
(* the cofactors of a set of assignments of 1..k with respect to k                  *)
Low(M, k) == {a \in M : a < 2^(k-1)}
High(M, k) == {a - 2^(k-1) : a \in {b \in M : b >= 2^(k-1)}}
RECURSIVE LocalPrimes(_,_)   \* all prime implicants
LocalPrimes(M, k) ==
  IF M = {} THEN {} ELSE IF M = Universe[k] THEN {{}}
  ELSE LET lo == Low(M, k) hi == High(M, k) B == LocalPrimes(lo \cap hi, k-1) IN
       B \cup {p \cup {-k} : p \in LocalPrimes(lo, k-1) \ B} \cup {p \cup {k} : p \in LocalPrimes(hi, k-1) \ B}
RECURSIVE LocalShort(_,_)    \* size of a shortest implicant
LocalShort(M, k) ==
  IF M = {} THEN Infinite ELSE IF M = Universe[k] THEN 0
  ELSE LET lo == Low(M, k) hi == High(M, k) IN
       Smallest({LocalShort(lo \cap hi, k-1), 1 + LocalShort(lo, k-1), 1 + LocalShort(hi, k-1)})
LocalSet(f, b) == LET V == Vars(f) k == Cardinality(V) IN
  IF k = 0 THEN IF Ev(f, {}) = b THEN Universe[0] ELSE {}
  ELSE IF b THEN LocalMod(f, V) ELSE Universe[k] \ LocalMod(f, V)
(* runs of counts of true literals with the same value                              *)
Runs(f, b) == LET k == Len(f[4]) A == {j \in 0..k : Cmp(f[2], j, f[3]) = b} IN
  {r \in A \X A : r[1] <= r[2] /\ r[1]..r[2] \subseteq A}
RECURSIVE Short(_,_), ShortSum(_,_,_), ShortMin(_,_,_)
(* size of a shortest term which makes f have the value b                           *)
Short(f, b) ==
  LET V == Vars(f) t == f[1] IN
  IF Cardinality(V) <= Few THEN LocalShort(LocalSet(f, b), Cardinality(V))
  ELSE CASE t = 4 -> Short(f[2], ~b)
         [] t = 5 -> IF b THEN ShortSum(f, b, 2) ELSE ShortMin(f, b, 2)
         [] t = 6 -> IF b THEN ShortMin(f, b, 2) ELSE ShortSum(f, b, 2)
         [] t = 7 -> IF b THEN Lesser(Short(f[2], FALSE), Short(f[3], TRUE)) ELSE Short(f[2], TRUE) + Short(f[3], FALSE)
         [] t = 8 -> Lesser(Short(f[2], TRUE) + Short(f[3], b), Short(f[2], FALSE) + Short(f[3], ~b))
         [] t = 9 -> Smallest({Infinite} \cup {r[1] + Len(f[4]) - r[2] : r \in Runs(f, b)})
ShortSum(f, b, i) == IF i > Len(f) THEN 0 ELSE Lesser(Infinite, Short(f[i], b) + ShortSum(f, b, i+1))
ShortMin(f, b, i) == IF i > Len(f) THEN Infinite ELSE Lesser(Short(f[i], b), ShortMin(f, b, i+1))
(* number of prime terms which make f have the value b                              *)
RECURSIVE NPrimes(_,_), PrimesMul(_,_,_), PrimesAdd(_,_,_)
NPrimes(f, b) ==
  LET V == Vars(f) t == f[1] IN
  IF Cardinality(V) <= Few THEN BigOf(Cardinality(LocalPrimes(LocalSet(f, b), Cardinality(V))))
  ELSE IF ~TreeCan(f, ~b) THEN BigOf(1)
  ELSE CASE t = 4 -> NPrimes(f[2], ~b)
         [] t = 5 -> IF b THEN PrimesMul(f, b, 2) ELSE PrimesAdd(f, b, 2)
         [] t = 6 -> IF b THEN PrimesAdd(f, b, 2) ELSE PrimesMul(f, b, 2)
         [] t = 7 -> IF b THEN BigAdd(NPrimes(f[2], FALSE), NPrimes(f[3], TRUE)) ELSE BigMul(NPrimes(f[2], TRUE), NPrimes(f[3], FALSE))
         [] t = 8 -> BigAdd(BigMul(NPrimes(f[2], TRUE), NPrimes(f[3], b)), BigMul(NPrimes(f[2], FALSE), NPrimes(f[3], ~b)))
PrimesMul(f, b, i) == IF i > Len(f) THEN BigOf(1) ELSE BigMul(NPrimes(f[i], b), PrimesMul(f, b, i+1))
PrimesAdd(f, b, i) == IF i > Len(f) THEN Zero ELSE BigAdd(NPrimes(f[i], b), PrimesAdd(f, b, i+1))

PrimeTerm(f, b, L) == /\ Consistent(L) /\ ~TreeMay(f, ~b, L)
                      /\ \A x \in L : TreeMay(f, ~b, L \ {x})
Covers(f, b, terms, pts) ==
  \A i \in DOMAIN pts : Ev(f, Range(pts[i])) = b
     => \E j \in DOMAIN terms : \A x \in terms[j] : (x > 0) = (Abs(x) \in Range(pts[i]))
GoodTerms(f, b, ts, all, pts) ==
  LET S == [i \in DOMAIN ts |-> IF b THEN Range(ts[i]) ELSE {-x : x \in Range(ts[i])}] IN
  /\ \A i \in DOMAIN ts : PrimeTerm(f, b, S[i]) /\ NoDup(ts[i])
  /\ Covers(f, b, S, pts)
  /\ all => BigOf(Cardinality(Range(S))) = NPrimes(f, b)
GoodBigPrimes(e) == /\ GoodTerms(e.tree, TRUE, e.imps, e.implicants, e.pts)
                    /\ GoodTerms(e.tree, FALSE, e.cates, ~e.implicants, e.pts)
GoodBigMinPrime(e) ==
  IF e.err THEN ~TreeSat(e.tree)
  ELSE /\ NoDup(e.lits) /\ Consistent(Range(e.lits)) /\ ~TreeMay(e.tree, FALSE, Range(e.lits))
       /\ e.kind = "prime" => Len(e.lits) = Short(e.tree, TRUE)

(* ---- unsatisfiable subsets of formulas that fall into independent groups ---------- *)
GroupsOf(ps) == Groups(Range(ps))
(* the formulas with index in I exclude each other                                     *)
Clash(ps, mods, G, I) ==
  \/ \E i \in I : Vars(ps[i]) = {} /\ ~Ev(ps[i], {})
  \/ \E K \in G : LET J == {i \in I : Vars(ps[i]) # {} /\ Vars(ps[i]) \subseteq K} IN
       J # {} /\ ~\E a \in Universe[Cardinality(K)] : \A i \in J : a \in mods[i]
ModsOf(ps, G) == [i \in DOMAIN ps |-> IF Vars(ps[i]) = {} THEN {} ELSE LocalMod(ps[i], CHOOSE K \in G : Vars(ps[i]) \subseteq K)]
SmallGroups(ps) == \A K \in GroupsOf(ps) : Cardinality(K) <= Few
GoodBigMus(ps, err, r) ==
  LET G == GroupsOf(ps) mods == ModsOf(ps, G) bad(I) == Clash(ps, mods, G, I) IN
  IF err THEN ~bad(DOMAIN ps)
  ELSE /\ NoDup(r) /\ Range(r) \subseteq DOMAIN ps
       /\ bad(Range(r)) /\ \A x \in Range(r) : ~bad(Range(r) \ {x})
(* extra formulas are free of charge                                                   *)
GoodBigSmus(ps, extra, found, r) ==
  LET q == ps \o extra k == Len(ps) E == {i \in DOMAIN q : i > k}
      G == GroupsOf(q) mods == ModsOf(q, G) bad(I) == Clash(q, mods, G, I \cup E) IN
  IF ~found THEN ~bad(DOMAIN ps)
  ELSE /\ NoDup(r) /\ Range(r) \subseteq DOMAIN ps
       /\ bad(Range(r))
       /\ Len(r) > 0 => ~bad({})
       /\ Len(r) > 1 => \A i \in DOMAIN ps : Vars(ps[i]) = {} => Ev(ps[i], {})
       /\ \A K \in G : LET I == {i \in 1..k : Vars(ps[i]) # {} /\ Vars(ps[i]) \subseteq K} IN
            \A S \in SUBSET I : Cardinality(S) < Len(r) => ~bad(S)

(* ---- set covers ---------------------------------------------------------------------- *)
RECURSIVE LinkedSets(_,_)
LinkedSets(S, X) == LET Y == X \cup UNION {s \in S : s \cap X # {}} IN IF Y = X THEN X ELSE LinkedSets(S, Y)
SmallestCover(S) == LET U == UNION S IN Smallest({Cardinality(T) : T \in {T \in SUBSET S : UNION T = U}})
RECURSIVE SumOver(_,_)
SumOver(S, C) == IF C = {} THEN 0
  ELSE LET K == CHOOSE K \in C : TRUE IN SmallestCover({s \in S : s # {} /\ s \subseteq K}) + SumOver(S, C \ {K})
GoodBigCover(sets, r) ==
  LET S == {Range(sets[i]) : i \in DOMAIN sets} IN
  /\ {Range(r[i]) : i \in DOMAIN r} \subseteq S
  /\ UNION {Range(r[i]) : i \in DOMAIN r} = UNION S
  /\ Len(r) = SumOver(S, {LinkedSets(S, s) : s \in S \ {{}}})
=============================================================================
