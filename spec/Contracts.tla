------------------------------ MODULE Contracts ------------------------------
(***************************************************************************)
(* What the functions on formulas promise, as relations between inputs and   *)
(* results.  n is the number of variables of the episode.                   *)
(***************************************************************************)
EXTENDS Syntax

(* ---- evaluation and restriction ---------------------------------------- *)
GoodEval(f, pos, b) == b = Ev(f, pos)
GoodRestrict(f, L, g, n) ==
  /\ Vars(g) \cap {Abs(x) : x \in L} = {}
  /\ Agreeing(L, n) \cap Mod(g, n) = Agreeing(L, n) \cap Mod(f, n)
GoodDecide(f, L, kind, b, n) ==
  LET A == Agreeing(L, n)
      X == IF kind THEN A \subseteq Mod(f, n) ELSE A \cap Mod(f, n) = {} IN
  /\ b => X
  /\ (X /\ Vars(f) \subseteq {Abs(x) : x \in L}) => b

(* ---- structure ----------------------------------------------------------- *)
(* counts as sequence of <<key, count>> *)
ProfileOK(prof, keys, count(_)) ==
  /\ {prof[i][1] : i \in DOMAIN prof} = keys /\ Len(prof) = Cardinality(keys)
  /\ \A i \in DOMAIN prof : prof[i][2] = count(prof[i][1])
GoodStructure(s) ==
  LET f == s.f IN
  /\ Range(s.vars) = Vars(f) /\ NoDup(s.vars)
  /\ Range(s.lits) = Lits(f) /\ NoDup(s.lits)
  /\ s.depth = Depth(f) /\ s.atoms = Atoms(f) /\ s.nodes = Nodes(f)
  /\ Range(s.subs) = Subs(f) /\ NoDup(s.subs)
  /\ ProfileOK(s.vprof, Vars(f), LAMBDA v : VarOcc(f, v))
  /\ ProfileOK(s.lprof, Lits(f), LAMBDA x : LitOcc(f, x))
  /\ s.nnf = IsNNFShape(f) /\ s.cnf = IsCNFShape(f) /\ s.dnf = IsDNFShape(f)
  /\ s.aig = IsAIG(f) /\ s.minterm = IsMinterm(f) /\ s.maxterm = IsMaxterm(f)
  /\ s.pbc = HasPBC(f)

(* what the handle of a formula tells about the head of its syntax tree, its    *)
(* operands under the view that fits, and the symbols of several formulas      *)
LitAst(x) == IF x > 0 THEN <<2, x>> ELSE <<3, -x>>
GoodHandle(s) ==
  LET f == s.f
      isLit == f[1] \in {2, 3}
      sub == CASE f[1] \in 4..8 -> [i \in 1..(Len(f) - 1) |-> f[i + 1]] [] OTHER -> <<>> IN
  /\ s.const = (f[1] \in {0, 1}) /\ s.atomic = (f[1] \in {0, 1, 2, 3, 9})
  /\ s.pos = (f[1] \notin {0, 3, 4}) /\ s.neg = ~s.pos
  /\ s.lit = (CASE f[1] = 2 -> f[2] [] f[1] = 3 -> -f[2] [] OTHER -> 0) /\ s.named = s.lit
  /\ s.var = (IF f[1] = 2 THEN f[2] ELSE 0)
  /\ s.ops = sub
  /\ s.views = (CASE f[1] \in {4, 5} -> <<<<f[1], sub>>>> [] f[1] = 6 -> <<<<5, sub>>>>
                   [] f[1] \in {7, 8} -> <<<<7, sub>>>>
                   [] f[1] = 9 -> <<<<9, <<f[2], f[3], f[4], f[5]>>>>>> [] OTHER -> <<>>)
  /\ s.nots = <<CASE f[1] \in {0, 1} -> <<1 - f[1]>> [] isLit -> <<5 - f[1], f[2]>>
                  [] f[1] = 4 -> f[2] [] OTHER -> <<4, f>>, f>>
  /\ Range(s.vars) = UNION {Vars(s.fs[i]) : i \in DOMAIN s.fs} /\ NoDup(s.vars)
  /\ Range(s.lits) = UNION {Lits(s.fs[i]) : i \in DOMAIN s.fs} /\ NoDup(s.lits)
  /\ s.err = (\E i \in DOMAIN s.list : s.list[i] < 0)
  /\ s.asvars = (IF s.err THEN <<>> ELSE s.list)
  /\ LET back == s.asvars \o s.asvars \o s.list IN s.back = [i \in DOMAIN back |-> LitAst(back[i])]

(* ---- equivalent normal forms ---------------------------------------------- *)
FullTerms(ts, vs, M, n) ==   \* exactly one term over vs per element of M
  /\ \A i \in DOMAIN ts : IsMinterm(ts[i]) /\ ts[i][1] # 0 /\ Consistent(TermLits(ts[i]))
                          /\ {Abs(x) : x \in TermLits(ts[i])} = vs
                          /\ Cardinality(Agreeing(TermLits(ts[i]), n)) * 2^Cardinality(vs) = 2^n
  /\ Cardinality({TermLits(ts[i]) : i \in DOMAIN ts}) = Len(ts)
  /\ UNION {TermMods(TermLits(ts[i]), n) : i \in DOMAIN ts} = M
NegLits(L) == {-x : x \in L}
NegTerm(g) == IF g[1] = 6 THEN [i \in DOMAIN g |-> IF i = 1 THEN 5 ELSE <<5 - g[i][1], g[i][2]>>]
              ELSE IF IsLit(g) THEN <<5 - g[1], g[2]>> ELSE <<1 - g[1]>>
GoodNF(kind, f, g, n) ==
  /\ Vars(g) \subseteq Vars(f)
  /\ Equiv(f, g, n)
  /\ CASE kind = "nnf" -> IsNNFShape(g)
       [] kind = "cnf" -> IsCNFShape(g)
       [] kind = "dnf" -> IsDNFShape(g)
       [] kind = "aig" -> IsAIG(g)
       [] kind = "cdnf" ->
            LET M == Mod(f, n) IN
            \/ g[1] = 0 /\ M = {}
            \/ Cardinality(Vars(f)) <= 1 /\ g[1] = 1 /\ M = Universe[n]
            \/ M # {} /\ IsDNFShape(g) /\ FullTerms(Ops(g, 6), Vars(f), M, n)
       [] kind = "ccnf" ->
            LET N == Universe[n] \ Mod(f, n) IN
            \/ g[1] = 1 /\ N = {}
            \/ Cardinality(Vars(f)) <= 1 /\ g[1] = 0 /\ N = Universe[n]
            \/ N # {} /\ IsCNFShape(g)
               /\ LET o == Ops(g, 5) IN FullTerms([i \in DOMAIN o |-> NegTerm(o[i])], Vars(f), N, n)
       [] kind = "any" -> TRUE

(* ---- definitional normal forms -------------------------------------------- *)
(* constraints inside f became clauses over auxiliary variables n+1..n2        *)
GoodNFAux(kind, f, g, n, n2) ==
  /\ HasPBC(f) /\ Vars(g) \subseteq Vars(f) \cup (n+1)..n2
  /\ {a % 2^n : a \in Mod(g, n2)} = Mod(f, n)
  /\ CASE kind = "nnf" -> IsNNFShape(g) [] kind = "cnf" -> IsCNFShape(g)
       [] kind = "dnf" -> IsDNFShape(g) [] kind = "aig" -> IsAIG(g)
       [] kind \in {"advanced", "negations"} -> TRUE
GoodDef(f, g, n) == IsCNFShape(g) /\ ProjModels(CNFClauses(g), n) = Mod(f, n)

(* ---- counting -------------------------------------------------------------- *)
(* number of assignments of vs (a superset of the variables) satisfying fs    *)
CountOver(M, vs, n) == Cardinality(ProjSet(M, vs))
GoodCount(fs, vs, c, n) == c = CountOver(ModSeq(fs, n), vs, n)

(* ---- decomposable negation normal form ------------------------------------ *)
RECURSIVE Decomposable(_), Deterministic(_,_)
Decomposable(f) ==
  f[1] \in {5,6} =>
    /\ \A i \in 2..Len(f) : Decomposable(f[i])
    /\ f[1] = 5 => \A i, j \in 2..Len(f) : i < j => Vars(f[i]) \cap Vars(f[j]) = {}
Deterministic(f, n) ==
  f[1] \in {5,6} =>
    /\ \A i \in 2..Len(f) : Deterministic(f[i], n)
    /\ f[1] = 6 => \A i, j \in 2..Len(f) : i < j => Mod(f[i], n) \cap Mod(f[j], n) = {}
(* satisfiability of a decomposable g together with the literals L             *)
RECURSIVE SatDec(_,_)
SatDec(g, L) == CASE g[1] \in {2,3} -> -LitOf(g) \notin L
   [] g[1] = 5 -> \A i \in 2..Len(g) : SatDec(g[i], L)
   [] g[1] = 6 -> \E i \in 2..Len(g) : SatDec(g[i], L)
   [] OTHER -> g[1] = 1
(* g may define auxiliary variables (above n) if the clauses of f needed them  *)
GoodDnnf(f, g, cnt, n) ==
  /\ IsNNFShape(g) /\ Decomposable(g)
  /\ \A v \in Vars(g) : v > n \/ v \in Vars(f)
  /\ IF \A v \in Vars(g) : v <= n
     THEN Deterministic(g, n) /\ Equiv(f, g, n)
     ELSE {a \in Universe[n] : SatDec(g, LitsOf(a, n))} = Mod(f, n)
  /\ cnt * 2^(n - Cardinality(Vars(f))) = Cardinality(Mod(f, n))

(* ---- prime implicants ------------------------------------------------------ *)
ImpliesM(L, M, n) == Agreeing(L, n) \subseteq M
IsPrime(L, M, n) == Consistent(L) /\ ImpliesM(L, M, n) /\ \A x \in L : ~ImpliesM(L \ {x}, M, n)
(* a cover by prime implicants of the set M *)
PrimeCover(Ls, M, n) == /\ \A i \in DOMAIN Ls : IsPrime(Range(Ls[i]), M, n) /\ NoDup(Ls[i])
                        /\ UNION {Agreeing(Range(Ls[i]), n) : i \in DOMAIN Ls} = M
Neg2(s) == [i \in DOMAIN s |-> [j \in DOMAIN s[i] |-> -s[i][j]]]
(* all literal sets over 1..n that are prime implicants of M                   *)
RECURSIVE LitSets(_)
LitSets(k) == IF k = 0 THEN {{}} ELSE LET R == LitSets(k-1) IN R \cup {s \cup {k} : s \in R} \cup {s \cup {-k} : s \in R}
AllPrimes(M, n) == {L \in LitSets(n) : IsPrime(L, M, n)}
(* the requested kind is complete, the other one is a cover                    *)
GoodPrimes(f, imps, cates, implicants, n) ==
  LET M == Mod(f, n) N == Universe[n] \ M nc == Neg2(cates)
      sets(s) == {Range(s[i]) : i \in DOMAIN s} IN
  /\ PrimeCover(imps, M, n) /\ PrimeCover(nc, N, n)
  /\ IF implicants THEN sets(imps) = AllPrimes(M, n) ELSE sets(nc) = AllPrimes(N, n)
(* shortest implicant *)
HasImplicant(M, k, n) == \E S \in {T \in SUBSET (1..n) : Cardinality(T) = k} :
    \E a \in M : ImpliesM({IF Bit(a, v) = 1 THEN v ELSE -v : v \in S}, M, n)
(* T satisfies f reading every literal as a symbol of its own (f without       *)
(* equivalences and constraints); pol is the polarity                          *)
RECURSIVE SynSat(_,_,_)
SynSat(f, T, pol) ==
  CASE f[1] = 2 -> (IF pol THEN f[2] ELSE -f[2]) \in T
    [] f[1] = 3 -> (IF pol THEN -f[2] ELSE f[2]) \in T
    [] f[1] = 0 -> ~pol [] f[1] = 1 -> pol
    [] f[1] = 4 -> SynSat(f[2], T, ~pol)
    [] f[1] = 7 -> IF pol THEN SynSat(f[2], T, FALSE) \/ SynSat(f[3], T, TRUE)
                   ELSE SynSat(f[2], T, TRUE) /\ SynSat(f[3], T, FALSE)
    [] f[1] = 5 -> IF pol THEN \A i \in 2..Len(f) : SynSat(f[i], T, pol)
                   ELSE \E i \in 2..Len(f) : SynSat(f[i], T, pol)
    [] f[1] = 6 -> IF pol THEN \E i \in 2..Len(f) : SynSat(f[i], T, pol)
                   ELSE \A i \in 2..Len(f) : SynSat(f[i], T, pol)
(* kind "prime": a prime implicant of minimal size; "syntactic": an implicant of *)
(* no larger than those covering the formula literally; else an implicant       *)
GoodMinPrime(f, L, kind, n) ==
  LET M == Mod(f, n) IN
  /\ Consistent(Range(L)) /\ NoDup(L) /\ ImpliesM(Range(L), M, n)
  /\ CASE kind = "prime" -> \A k \in 0..(Len(L)-1) : ~HasImplicant(M, k, n)
       [] kind = "syntactic" -> \A T \in LitSets(n) : Cardinality(T) < Len(L) => ~SynSat(f, T, TRUE)
       [] kind = "implicant" -> TRUE

(* ---- minimal unsatisfiable subsets ------------------------------------------ *)
SeqWithout(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
(* r: indices into ps *)
PickSeq(ps, r) == [i \in DOMAIN r |-> ps[r[i]]]
GoodMus(ps, r, n) ==
  /\ NoDup(r) /\ Range(r) \subseteq DOMAIN ps
  /\ ModSeq(PickSeq(ps, r), n) = {}
  /\ \A i \in DOMAIN r : ModSeq(PickSeq(ps, SeqWithout(r, i)), n) # {}
ModIdx(ps, S, n) == {a \in Universe[n] : \A i \in S : a \in ps[i]}
GoodSmus(ps, extra, ok, r, n) ==
  LET X == ModSeq(extra, n) mods == [i \in DOMAIN ps |-> Mod(ps[i], n)]
      unsat(S) == ~\E a \in X : \A i \in S : a \in mods[i] IN
  IF ok THEN /\ NoDup(r) /\ Range(r) \subseteq DOMAIN ps
             /\ unsat(Range(r))
             /\ \A S \in SUBSET DOMAIN ps : Cardinality(S) < Len(r) => ~unsat(S)
  ELSE ~unsat(DOMAIN ps)

(* ---- simplification ---------------------------------------------------------- *)
Subsumed(c, C) == \E d \in C : d # c /\ d \subseteq c
GoodSubsumption(kind, f, g) ==
  LET A == IF kind = "cnf" THEN CNFClauses(f) ELSE DNFTerms(f)
      B == IF kind = "cnf" THEN CNFClauses(g) ELSE DNFTerms(g) IN
  /\ IF kind = "cnf" THEN IsCNFShape(g) ELSE IsDNFShape(g)
  /\ B = {c \in A : ~Subsumed(c, A)}

(* ---- substitution, renaming, elimination ------------------------------------- *)
(* sub: sequence of <<v, formula>>; the value of v becomes the formula's value   *)
SubstA(a, sub, n) ==
  Sum([v \in 1..n |->
        LET I == {i \in DOMAIN sub : sub[i][1] = v} IN
        IF I = {} THEN Bit(a, v) * 2^(v-1)
        ELSE IF a \in Mod(sub[CHOOSE i \in I : TRUE][2], n) THEN 2^(v-1) ELSE 0])
GoodSubst(f, sub, g, n) ==
  LET mods == [i \in DOMAIN sub |-> Mod(sub[i][2], n)]
      val(a) == Sum([v \in 1..n |->
        LET I == {i \in DOMAIN sub : sub[i][1] = v} IN
        IF I = {} THEN Bit(a, v) * 2^(v-1)
        ELSE IF a \in mods[CHOOSE i \in I : TRUE] THEN 2^(v-1) ELSE 0])
      M == Mod(f, n) IN
  \A a \in Universe[n] : a \in Mod(g, n) <=> val(a) \in M

RECURSIVE QuantE(_,_,_), QuantA(_,_,_)
QuantE(M, vs, n) == IF vs = <<>> THEN M ELSE QuantE(Exists1(M, Head(vs), n), Tail(vs), n)
QuantA(M, vs, n) == IF vs = <<>> THEN M ELSE QuantA(Forall1(M, Head(vs), n), Tail(vs), n)
GoodQE(ex, f, vs, g, n) ==
  /\ Vars(g) \cap Range(vs) = {}
  /\ Mod(g, n) = IF ex THEN QuantE(Mod(f, n), vs, n) ELSE QuantA(Mod(f, n), vs, n)

(* renaming of the variables of a tree *)
RECURSIVE Rename(_,_)
Rename(f, m) == CASE f[1] \in {2,3} -> <<f[1], m[f[2]]>>
   [] f[1] \in {0,1} -> f
   [] f[1] = 9 -> <<9, f[2], f[3], [i \in DOMAIN f[4] |-> IF f[4][i] > 0 THEN m[f[4][i]] ELSE -m[-f[4][i]]], f[5]>>
   [] OTHER -> [i \in DOMAIN f |-> IF i = 1 THEN f[1] ELSE Rename(f[i], m)]
Injective(m) == \A x, y \in DOMAIN m : m[x] = m[y] => x = y

RECURSIVE OnlyPlainCC(_)
(* no at-most-one/exactly-one constraint over variables left                   *)
OnlyPlainCC(f) == IF f[1] = 9 THEN ~(\A i \in DOMAIN f[5] : f[5][i] = 1 /\ f[4][i] > 0)
                        \/ ~((f[2] \in {0,1} /\ f[3] = 1) \/ (f[2] = 2 /\ f[3] = 2))
                  ELSE IF f[1] \in 4..8 THEN \A i \in 2..Len(f) : OnlyPlainCC(f[i]) ELSE TRUE
GoodExpand(f, g, n) == Vars(g) \subseteq Vars(f) /\ Equiv(f, g, n) /\ OnlyPlainCC(g)

(* ---- graphs -------------------------------------------------------------------- *)
(* edges: sequence of pairs, each edge in both directions                          *)
GoodGraph(fs, nodes, edges) ==
  /\ NoDup(nodes) /\ Range(nodes) = UNION {Vars(fs[i]) : i \in DOMAIN fs}
  /\ NoDup(edges)
  /\ Range(edges) = UNION {{<<x, y>> \in Vars(fs[i]) \X Vars(fs[i]) : x # y} : i \in DOMAIN fs}
Linked(fs, x, y) == \E i \in DOMAIN fs : {x, y} \subseteq Vars(fs[i])
RECURSIVE Reach(_,_,_)
Reach(fs, S, V) == LET T == {y \in V : \E x \in S : Linked(fs, x, y)} \cup S
                   IN IF T = S THEN S ELSE Reach(fs, T, V)
GoodComponents(fs, comps) ==
  LET V == UNION {Vars(fs[i]) : i \in DOMAIN fs} IN
  /\ {Range(comps[i]) : i \in DOMAIN comps} = {Reach(fs, {v}, V) : v \in V}
  /\ Len(comps) = Cardinality({Reach(fs, {v}, V) : v \in V})
  /\ \A i \in DOMAIN comps : NoDup(comps[i])
(* groups: for each component the formulas in it, then one for each falsity           *)
GoodSplit(fs, comps, groups) ==
  /\ Len(groups) >= Len(comps)
  /\ (Len(groups) > Len(comps)) = (\E i \in DOMAIN fs : fs[i] = <<0>>)
  /\ \A c \in (Len(comps) + 1)..Len(groups) : groups[c] = <<<<0>>>>
  /\ \A c \in DOMAIN comps : \A i \in DOMAIN groups[c] : Vars(groups[c][i]) # {}
  /\ \A i \in DOMAIN fs : Vars(fs[i]) # {} =>
       \A c \in DOMAIN comps : (fs[i] \in Range(groups[c])) <=> Vars(fs[i]) \subseteq Range(comps[c])
  /\ \A c \in DOMAIN groups : Range(groups[c]) \subseteq Range(fs)
GoodHypergraph(cl, nodes, edges) ==
  /\ NoDup(nodes) /\ Range(nodes) = UNION {Vars(cl[i]) : i \in DOMAIN cl}
  /\ Len(edges) = Len(cl)
  /\ \A i \in DOMAIN cl : Range(edges[i]) = Vars(cl[i]) /\ NoDup(edges[i])

(* ---- set cover ------------------------------------------------------------------ *)
GoodCover(sets, r) ==
  LET U == UNION {Range(sets[i]) : i \in DOMAIN sets}
      S == {Range(sets[i]) : i \in DOMAIN sets} IN
  /\ {Range(r[i]) : i \in DOMAIN r} \subseteq S
  /\ UNION {Range(r[i]) : i \in DOMAIN r} = U
  /\ \A T \in SUBSET S : Cardinality(T) < Len(r) => UNION T # U

(* a handler with limits for distributions, clauses (-1: none) or nodes:      *)
(* dist, clauses and refs are what the computation does without a limit       *)
(* "past" and "future": a handler with an end in the past or far in the future    *)
WithinLimits(e) == IF e.end = "future" THEN TRUE ELSE IF e.end = "past" THEN e.all = 0
                   ELSE IF e.kind = "bdd" THEN e.refs = 0 \/ e.refs < e.lr
                   ELSE (e.ld = -1 \/ e.dist <= e.ld) /\ (e.lc = -1 \/ e.clauses <= e.lc)
=============================================================================
