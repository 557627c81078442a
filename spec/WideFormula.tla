---------------------------- MODULE WideFormula ----------------------------
(***************************************************************************)
(* Contracts of the functions on formulas (see Contracts) over more          *)
(* variables than can be enumerated.                                        *)
(*                                                                          *)
(* Equivalence of two formulas is decided exactly where they are             *)
(* conjunctions (or disjunctions) of parts over disjoint sets of few         *)
(* variables, and otherwise on a sample of assignments.  Counting is exact   *)
(* for trees: formulas whose subformulas over more than Few variables have   *)
(* operands without common variables, or count the literals that are true.  *)
(***************************************************************************)
EXTENDS Contracts, Big

Few == 7
(* numbering of a set of variables *)
Numbered(K) == [v \in K |-> Cardinality({u \in K : u <= v})]
LocalMod(f, K) == Mod(Rename(f, Numbered(K)), Cardinality(K))
LocalLits(L, K) == LET m == Numbered(K) IN {IF x > 0 THEN m[x] ELSE -m[-x] : x \in {y \in L : Abs(y) \in K}}

(* ---- symmetric formulas ---------------------------------------------------- *)
(* at least/at most/exactly so many of some literals over different variables   *)
IsSym(f) == f[1] = 9 /\ (\A i \in DOMAIN f[5] : f[5][i] = 1) /\ Cardinality(Vars(f)) = Len(f[4])
RECURSIVE SymSum(_,_,_,_)   \* sum of the binomials (m, j) for j with count j + d allowed
SymSum(f, m, d, j) == IF j > m THEN <<>>
  ELSE LET r == SymSum(f, m, d, j+1) IN IF Cmp(f[2], j + d, f[3]) THEN BigAdd(BigChoose(m, j), r) ELSE r
(* ---- counting -------------------------------------------------------------- *)
(* number of assignments of Vars(f) which agree with the literals L and satisfy f *)
FreeIn(V, L) == Cardinality(V) - Cardinality({x \in L : Abs(x) \in V})
RECURSIVE TreeCount(_,_), ProdAnd(_,_,_), ProdOr(_,_,_)
NotCount(f, L) == BigSub(BigPow2(FreeIn(Vars(f), L)), TreeCount(f, L))
TreeCount(f, L) ==
  LET V == Vars(f) t == f[1] IN
  IF Cardinality(V) <= Few
  THEN LET k == Cardinality(V) IN
       IF k = 0 THEN BigOf(IF Ev(f, {}) THEN 1 ELSE 0)
       ELSE BigOf(Cardinality(LocalMod(f, V) \cap Agreeing(LocalLits(L, V), k)))
  ELSE CASE t = 4 -> NotCount(f[2], L)
         [] t = 5 -> ProdAnd(f, L, 2)
         [] t = 6 -> BigSub(BigPow2(FreeIn(V, L)), ProdOr(f, L, 2))
         [] t = 7 -> BigSub(BigPow2(FreeIn(V, L)), BigMul(TreeCount(f[2], L), NotCount(f[3], L)))
         [] t = 8 -> BigAdd(BigMul(TreeCount(f[2], L), TreeCount(f[3], L)), BigMul(NotCount(f[2], L), NotCount(f[3], L)))
         [] t = 9 -> LET S == Range(f[4]) IN SymSum(f, FreeIn(V, L), Cardinality(S \cap L), 0)
ProdAnd(f, L, i) == IF i > Len(f) THEN BigOf(1) ELSE BigMul(TreeCount(f[i], L), ProdAnd(f, L, i+1))
ProdOr(f, L, i) == IF i > Len(f) THEN BigOf(1) ELSE BigMul(NotCount(f[i], L), ProdOr(f, L, i+1))
(* the operands of the large subformulas have no variables in common          *)
RECURSIVE IsTree(_)
IsTree(f) == \/ Cardinality(Vars(f)) <= Few
             \/ IsSym(f)
             \/ /\ f[1] \in 4..8
                /\ \A i \in 2..Len(f) : IsTree(f[i])
                /\ \A i, j \in 2..Len(f) : i < j => Vars(f[i]) \cap Vars(f[j]) = {}
Zero == <<>>
(* satisfiable, falsifiable                                                     *)
RECURSIVE TreeMay(_,_,_)   \* with the literals L
TreeMay(f, b, L) ==
  LET V == Vars(f) t == f[1] I == 2..Len(f) IN
  IF Cardinality(V) <= Few
  THEN IF V = {} THEN Ev(f, {}) = b
       ELSE LET k == Cardinality(V) A == Agreeing(LocalLits(L, V), k) m == LocalMod(f, V) IN
            IF b THEN m \cap A # {} ELSE ~(A \subseteq m)
  ELSE CASE t = 4 -> TreeMay(f[2], ~b, L)
         [] t = 5 -> IF b THEN \A i \in I : TreeMay(f[i], TRUE, L) ELSE \E i \in I : TreeMay(f[i], FALSE, L)
         [] t = 6 -> IF b THEN \E i \in I : TreeMay(f[i], TRUE, L) ELSE \A i \in I : TreeMay(f[i], FALSE, L)
         [] t = 7 -> IF b THEN TreeMay(f[2], FALSE, L) \/ TreeMay(f[3], TRUE, L)
                     ELSE TreeMay(f[2], TRUE, L) /\ TreeMay(f[3], FALSE, L)
         [] t = 8 -> \E x \in BOOLEAN : TreeMay(f[2], x, L) /\ TreeMay(f[3], x = b, L)
         [] t = 9 -> LET d == Cardinality(Range(f[4]) \cap L) IN \E j \in 0..FreeIn(V, L) : Cmp(f[2], j + d, f[3]) = b
TreeCan(f, b) == TreeMay(f, b, {})
TreeSat(f) == TreeCan(f, TRUE)
TreeTaut(f) == ~TreeCan(f, FALSE)
RECURSIVE TreeDepends(_,_)
TreeDepends(f, v) ==
  LET V == Vars(f) t == f[1] IN
  IF v \notin V THEN FALSE
  ELSE IF Cardinality(V) <= Few THEN DependsOn(LocalMod(f, V), Numbered(V)[v], Cardinality(V))
  ELSE IF t = 9 THEN \E j \in 1..Len(f[4]) : Cmp(f[2], j, f[3]) # Cmp(f[2], j-1, f[3])
  ELSE LET i == CHOOSE i \in 2..Len(f) : v \in Vars(f[i]) IN
       /\ TreeDepends(f[i], v)
       /\ CASE t = 4 -> TRUE
            [] t = 8 -> TRUE
            [] t = 5 -> \A j \in (2..Len(f)) \ {i} : TreeSat(f[j])
            [] t = 6 -> \A j \in (2..Len(f)) \ {i} : ~TreeTaut(f[j])
            [] t = 7 -> IF i = 2 THEN ~TreeTaut(f[3]) ELSE TreeSat(f[2])

RECURSIVE CountAll(_,_)
CountAll(ts, i) == IF i > Len(ts) THEN BigOf(1) ELSE BigMul(TreeCount(ts[i], {}), CountAll(ts, i+1))
GoodBigCount(ts, vs, c) ==
  LET V == UNION {Vars(ts[i]) : i \in DOMAIN ts} IN
  c = BigMul(CountAll(ts, 1), BigPow2(Cardinality(Range(vs) \ V)))

(* ---- equivalence ------------------------------------------------------------- *)
SameAt(f, g, pts) == \A i \in DOMAIN pts : Ev(f, Range(pts[i])) = Ev(g, Range(pts[i]))
Parts(f, t) == IF f[1] = t THEN {f[i] : i \in 2..Len(f)} ELSE {f}
RECURSIVE Joined(_,_)
Joined(P, X) == LET Y == X \cup UNION {Vars(p) : p \in {q \in P : Vars(q) \cap X # {}}} IN IF Y = X THEN X ELSE Joined(P, Y)
Groups(P) == {Joined(P, Vars(p)) : p \in {q \in P : Vars(q) # {}}}
(* models of the parts within K; for disjunctions the assignments satisfying none *)
Inside(P, K, t) ==
  LET k == Cardinality(K) ms == {LocalMod(p, K) : p \in {q \in P : Vars(q) \subseteq K}} IN
  {a \in Universe[k] : \A m \in ms : IF t = 5 THEN a \in m ELSE a \notin m}
(* f = AND/OR of parts in disjoint groups; g divides in the same way            *)
Divides(P, Q, G) == /\ \A K \in G : Cardinality(K) <= Few
                    /\ \A q \in Q : Vars(q) = {} \/ \E K \in G : Vars(q) \subseteq K
SameParts(f, g, t) ==
  LET P == Parts(f, t) Q == Parts(g, t) G == Groups(P) IN
  (G # {} /\ Divides(P, Q, G)) =>
     IF \E K \in G : Inside(P, K, t) = {} THEN \E K \in G : Inside(Q, K, t) = {}
     ELSE \A K \in G : Inside(P, K, t) = Inside(Q, K, t)
Same(f, g, pts) == /\ SameAt(f, g, pts)
                   /\ f[1] = 5 => SameParts(f, g, 5)
                   /\ f[1] = 6 => SameParts(f, g, 6)

WideCons(raw, res, conserve, pts) ==
  /\ SameAt(raw, res, pts)
  /\ Vars(res) \subseteq Vars(raw)
  /\ (conserve /\ ~(raw[1] \in 4..8 /\ \E i \in 2..Len(raw) : raw[i][1] \in {0,1})) => Vars(res) = Vars(raw)
WideRestrict(f, L, g, pts) ==
  /\ Vars(g) \cap {Abs(x) : x \in L} = {}
  /\ \A i \in DOMAIN pts :
       LET T == (Range(pts[i]) \ {-x : x \in L}) \cup {x \in L : x > 0} IN Ev(f, T) = Ev(g, T)
WideNF(kind, f, g, pts) ==
  /\ Vars(g) \subseteq Vars(f) /\ Same(f, g, pts)
  /\ CASE kind = "nnf" -> IsNNFShape(g) [] kind = "cnf" -> IsCNFShape(g)
       [] kind = "dnf" -> IsDNFShape(g) [] kind = "aig" -> IsAIG(g)
(* g has auxiliary variables above n *)
WideDef(f, g, n, pts) ==
  /\ IsCNFShape(g)
  /\ LET C == CNFClauses(g) IN
     \A i \in DOMAIN pts : SatWith(C, {IF v \in Range(pts[i]) THEN v ELSE -v : v \in 1..n}) = Ev(f, Range(pts[i]))
WideDefAll(C, fs, n, pts) ==
  \A i \in DOMAIN pts : SatWith(C, {IF v \in Range(pts[i]) THEN v ELSE -v : v \in 1..n})
                        = (\A j \in DOMAIN fs : Ev(fs[j], Range(pts[i])))
WideSubst(f, sub, g, pts) ==
  LET D == {sub[i][1] : i \in DOMAIN sub} IN
  \A i \in DOMAIN pts :
    LET T == Range(pts[i]) IN
    Ev(g, T) = Ev(f, {v \in T : v \notin D} \cup {sub[j][1] : j \in {j \in DOMAIN sub : Ev(sub[j][2], T)}})
WideQE(ex, f, vs, g, pts) ==
  /\ Vars(g) \cap Range(vs) = {}
  /\ \A i \in DOMAIN pts :
       LET T == Range(pts[i]) \ Range(vs) IN
       Ev(g, T) = IF ex THEN \E S \in SUBSET Range(vs) : Ev(f, T \cup S)
                  ELSE \A S \in SUBSET Range(vs) : Ev(f, T \cup S)

(* ---- decomposable negation normal form ------------------------------------------ *)
(* the count that follows from decomposability and determinism                       *)
RECURSIVE StructCount(_), StructAnd(_,_), StructOr(_,_,_)
StructCount(g) == CASE g[1] = 0 -> Zero [] g[1] \in {1,2,3} -> BigOf(1)
  [] g[1] = 5 -> StructAnd(g, 2)
  [] g[1] = 6 -> StructOr(g, Vars(g), 2)
StructAnd(g, i) == IF i > Len(g) THEN BigOf(1) ELSE BigMul(StructCount(g[i]), StructAnd(g, i+1))
StructOr(g, V, i) == IF i > Len(g) THEN Zero
  ELSE BigAdd(BigMul(StructCount(g[i]), BigPow2(Cardinality(V) - Cardinality(Vars(g[i])))), StructOr(g, V, i+1))
(* k: number of variables of the compiled formula                                     *)
GoodBigDnnf(tree, g, cnt, k, n, pts) ==
  LET c == TreeCount(tree, {}) d == Cardinality(Vars(tree)) - k IN
  /\ IsNNFShape(g) /\ Decomposable(g)
  /\ BigMul(cnt, BigPow2(d)) = c
  /\ (\A v \in Vars(g) : v <= n) =>   \* without auxiliary variables
       /\ Vars(g) \subseteq Vars(tree)
       /\ BigMul(StructCount(g), BigPow2(Cardinality(Vars(tree) \ Vars(g)))) = c
       /\ SameAt(tree, g, pts)

(* ---- diagrams -------------------------------------------------------------------- *)
GoodBigBdd(e) ==
  LET f == e.tree k == Cardinality(Vars(f)) L == Range(e.lits) IN
  /\ e.cnt = BigMul(TreeCount(f, {}), BigPow2(e.n - k))
  /\ e.same
  /\ e.taut = TreeTaut(f) /\ e.contra = ~TreeSat(f)
  /\ Range(e.support) = {v \in Vars(f) : TreeDepends(f, v)}
  /\ e.rcnt = BigMul(TreeCount(f, L), BigPow2(e.n - k + Cardinality({x \in L : Abs(x) \in Vars(f)})))
  /\ e.has = TreeSat(f)
  /\ e.has => /\ Consistent(Range(e.model)) /\ {Abs(x) : x \in Range(e.model)} = 1..e.n /\ Len(e.model) = e.n
              /\ Ev(f, {x \in Range(e.model) : x > 0})
=============================================================================
