-------------------------------- MODULE Bdd ---------------------------------
(***************************************************************************)
(* Decision diagrams as their user sees them: kernels with a variable order  *)
(* and diagrams that represent Boolean functions.  A function is the set of  *)
(* its models over the variables 1..n.  Nodes, reference counts, tables,     *)
(* caches, garbage collection and growth are not part of this state: they    *)
(* must not be observable, except that two diagrams of a kernel carry the    *)
(* same node index exactly if they represent the same function.              *)
(***************************************************************************)
EXTENDS Prop

VARIABLES n,  \* number of user variables
          K,  \* kernels [cap, ord, names, auto, blocks]; ord: variable at each level, 0: not yet named
              \* names: the variables by the indices they got when the kernel was made
          D   \* diagrams [k, mods, idx]
bvars == <<n, K, D>>

BddInit == n = 1 /\ K = <<>> /\ D = <<>>
New(k) == n' = k /\ K' = <<>> /\ D' = <<>>

Named(ord) == {ord[i] : i \in DOMAIN ord} \ {0}
Zeros(ord) == Cardinality({i \in DOMAIN ord : ord[i] = 0})
PosOf(ord, v) == CHOOSE i \in DOMAIN ord : ord[i] = v
SwapIn(ord, v, w) == [i \in DOMAIN ord |-> IF ord[i] = v THEN w ELSE IF ord[i] = w THEN v ELSE ord[i]]

(* positions of a set of variables form an interval *)
Contiguous(ord, vs) == LET ps == {PosOf(ord, v) : v \in vs} IN
  \A p, q \in ps : p < q => \A i \in p..q : i \in ps
SameRelative(o1, o2, vs) == \A v, w \in vs : PosOf(o1, v) < PosOf(o1, w) <=> PosOf(o2, v) < PosOf(o2, w)
(* blocks of variables [vs, fixed] stay together, and their unblocked
   variables and the children of fixed blocks keep their order *)
Children(bs, b) == {c \in bs : c.vs # b.vs /\ c.vs \subseteq b.vs
                      /\ ~\E d \in bs : d.vs # c.vs /\ d.vs # b.vs /\ c.vs \subseteq d.vs /\ d.vs \subseteq b.vs}
RespectsBlocks(bs, o1, o2) ==
  \A b \in bs : /\ Contiguous(o2, b.vs)
                /\ LET cs == Children(bs, b) IN
                     /\ cs = {} => SameRelative(o1, o2, b.vs)
                     /\ b.fixed => \A c, d \in cs : c # d =>
                          \A v \in c.vs, w \in d.vs : PosOf(o1, v) < PosOf(o1, w) <=> PosOf(o2, v) < PosOf(o2, w)
Permutation(o1, o2) == Len(o1) = Len(o2) /\ Named(o1) = Named(o2) /\ Zeros(o1) = Zeros(o2)

(* the order of kernel k after a step that names the variables of vs, if they
   are new, and may reorder *)
GoodOrder(k, vs, ord) ==
  LET old == K[k].ord IN
  /\ Len(ord) = K[k].cap
  /\ Named(ord) = Named(old) \cup vs
  /\ Zeros(ord) = Zeros(old) - Cardinality(vs \ Named(old))
  /\ IF K[k].auto THEN (Zeros(old) = 0 => RespectsBlocks(K[k].blocks, old, ord))
     ELSE \A i \in DOMAIN old : old[i] # 0 => ord[i] = old[i]
SetOrder(k, ord) == [K EXCEPT ![k].ord = ord]

(* canonicity *)
Canonical(k, mods, idx) == \A i \in DOMAIN D : D[i].k = k => (D[i].idx = idx <=> D[i].mods = mods)
ConstIdx(mods, idx) == /\ idx = 0 <=> mods = {}
                       /\ idx = 1 <=> mods = Universe[n]
Add(k, mods, idx, ord) ==
  /\ k \in DOMAIN K
  /\ (Canonical(k, mods, idx) /\ ConstIdx(mods, idx)) = TRUE
  /\ D' = Append(D, [k |-> k, mods |-> mods, idx |-> idx])
  /\ K' = SetOrder(k, ord)
  /\ UNCHANGED n

MakeKernel(cap, names) ==
  /\ Len(names) <= cap
  /\ K' = Append(K, [cap |-> cap, ord |-> [i \in 1..cap |-> IF i <= Len(names) THEN names[i] ELSE 0],
                     names |-> names, auto |-> FALSE, blocks |-> {}])
  /\ UNCHANGED <<n, D>>

(* variables in the order of their first occurrence *)
RECURSIVE FirstOcc(_,_), FirstOccs(_,_,_)
FirstOcc(f, seen) ==
  CASE f[1] \in {2, 3} -> IF f[2] \in Range(seen) THEN seen ELSE Append(seen, f[2])
    [] f[1] \in {0, 1} -> seen
    [] OTHER -> FirstOccs(f, 2, seen)
FirstOccs(f, i, seen) == IF i > Len(f) THEN seen ELSE FirstOccs(f, i+1, FirstOcc(f[i], seen))
RECURSIVE HasPbc(_)
HasPbc(f) == IF IsAtom(f) THEN f[1] = 9 ELSE \E i \in 2..Len(f) : HasPbc(f[i])

(* a diagram with a kernel of its own; given order or order of occurrence *)
CompileAlone(f, given, ord, idx) ==
  /\ NoDup(ord)
  /\ IF given # <<>> THEN ord = given ELSE Range(ord) = Vars(f) /\ (~HasPbc(f) => ord = FirstOcc(f, <<>>))
  /\ LET m == Mod(f, n) IN
     /\ ConstIdx(m, idx)
     /\ K' = Append(K, [cap |-> Len(ord), ord |-> ord, names |-> ord, auto |-> FALSE, blocks |-> {}])
     /\ D' = Append(D, [k |-> Len(K) + 1, mods |-> m, idx |-> idx])
     /\ UNCHANGED n
CompileOn(k, f, ord, idx) == GoodOrder(k, Vars(f), ord) /\ Add(k, Mod(f, n), idx, ord)
(* a canceled compilation may have named some of the variables *)
Canceled(k, vs, ord) == /\ \E ws \in SUBSET vs : GoodOrder(k, ws, ord)
                        /\ K' = SetOrder(k, ord) /\ UNCHANGED <<n, D>>

RECURSIVE QuantE(_,_,_), QuantA(_,_,_)
QuantE(M, vs, i) == IF i > Len(vs) THEN M ELSE QuantE(Exists1(M, vs[i], n), vs, i+1)
QuantA(M, vs, i) == IF i > Len(vs) THEN M ELSE QuantA(Forall1(M, vs[i], n), vs, i+1)
RECURSIVE RestrictTo(_,_,_)
RestrictTo(M, ls, i) == IF i > Len(ls) THEN M
  ELSE RestrictTo({a \in Universe[n] : WithBit(a, Abs(ls[i]), IF ls[i] > 0 THEN 1 ELSE 0) \in M}, ls, i+1)

Binary(kind, x, y) == LET U == Universe[n] IN
  CASE kind = "and" -> x \cap y [] kind = "or" -> x \cup y
    [] kind = "implies" -> (U \ x) \cup y [] kind = "impliedby" -> x \cup (U \ y)
    [] kind = "equiv" -> (x \cap y) \cup (U \ (x \cup y))

Negate(i, ord, idx) == GoodOrder(D[i].k, {}, ord) /\ Add(D[i].k, Universe[n] \ D[i].mods, idx, ord)
Combine(kind, i, j, ord, idx) == /\ D[i].k = D[j].k /\ GoodOrder(D[i].k, {}, ord)
                                 /\ Add(D[i].k, Binary(kind, D[i].mods, D[j].mods), idx, ord)
Restrict(i, ls, ord, idx) == /\ GoodOrder(D[i].k, {Abs(x) : x \in Range(ls)}, ord)
                             /\ Add(D[i].k, RestrictTo(D[i].mods, ls, 1), idx, ord)
Exists(i, vs, ord, idx) == GoodOrder(D[i].k, Range(vs), ord) /\ Add(D[i].k, QuantE(D[i].mods, vs, 1), idx, ord)
ForAll(i, vs, ord, idx) == GoodOrder(D[i].k, Range(vs), ord) /\ Add(D[i].k, QuantA(D[i].mods, vs, 1), idx, ord)

Swap(k, v, w, ord) == ord = SwapIn(K[k].ord, v, w) /\ K' = SetOrder(k, ord) /\ UNCHANGED <<n, D>>
SwapRefused(k, v, w) == (v \notin Named(K[k].ord) \/ w \notin Named(K[k].ord)) /\ UNCHANGED bvars
(* without blocks nothing is reordered *)
Reorder(k, ord) == /\ Permutation(K[k].ord, ord)
                   /\ Zeros(ord) = 0 => RespectsBlocks(K[k].blocks, K[k].ord, ord)
                   /\ K[k].blocks = {} => ord = K[k].ord
                   /\ K' = SetOrder(k, ord) /\ UNCHANGED <<n, D>>
(* a query on a kernel with automatic reordering *)
AutoReorder(k, ord) == K[k].auto /\ Reorder(k, ord)
AddBlock(k, first, last, fixed) ==
  LET vs == {K[k].names[i] : i \in first..last} IN
  /\ (Len(K[k].names) = K[k].cap /\ Contiguous(K[k].ord, vs)
      /\ \A b \in K[k].blocks : b.vs \subseteq vs \/ vs \subseteq b.vs \/ b.vs \cap vs = {}) = TRUE
  /\ K' = [K EXCEPT ![k].blocks = IF \E b \in @ : b.vs = vs THEN @ ELSE @ \cup {[vs |-> vs, fixed |-> fixed]}]
  /\ UNCHANGED <<n, D>>
AllBlocks(k) == /\ K' = [K EXCEPT ![k].blocks = @ \cup {[vs |-> {v}, fixed |-> FALSE] :
                              v \in {w \in Named(K[k].ord) : ~\E b \in @ : b.vs = {w}}}]
                /\ UNCHANGED <<n, D>>
Activate(k, on) == K' = [K EXCEPT ![k].auto = on] /\ UNCHANGED <<n, D>>

(***************************************************************************)
(* What can be asked about a function M under an order                      *)
(***************************************************************************)
Levels(ord) == SelectSeq(ord, LAMBDA v : v # 0)
Cof(M, v, b) == {a \in Universe[n] : WithBit(a, v, b) \in M}
Const(M) == M = {} \/ M = Universe[n]
RECURSIVE Paths(_,_,_,_)
Paths(M, o, i, end) ==
  IF M = {} THEN (IF end THEN 0 ELSE 1) ELSE IF M = Universe[n] THEN (IF end THEN 1 ELSE 0)
  ELSE LET c0 == Cof(M, o[i], 0) c1 == Cof(M, o[i], 1) IN
       IF c0 = c1 THEN Paths(c0, o, i+1, end) ELSE Paths(c0, o, i+1, end) + Paths(c1, o, i+1, end)
(* the nodes: non-constant cofactors by a prefix of the order, with their variable *)
RECURSIVE NodesFrom(_,_,_)
NodesFrom(S, o, i) ==
  LET live == {M \in S : ~Const(M)} IN
  IF live = {} \/ i > Len(o) THEN {}
  ELSE LET here == {M \in live : Cof(M, o[i], 0) # Cof(M, o[i], 1)}
       IN {<<o[i], M>> : M \in here}
          \cup NodesFrom((live \ here) \cup {Cof(M, o[i], b) : M \in here, b \in {0, 1}}, o, i+1)
Nodes(M, o) == NodesFrom({M}, o, 1)
Support(M) == {v \in 1..n : DependsOn(M, v, n)}

GoodCount(i, c) == c * 2^n = Cardinality(D[i].mods) * 2^(K[D[i].k].cap)
GoodPaths(i, one, zero) == LET o == Levels(K[D[i].k].ord) IN
  /\ one = Paths(D[i].mods, o, 1, TRUE) /\ zero = Paths(D[i].mods, o, 1, FALSE)
GoodNodes(i, count, profile) ==
  LET ns == Nodes(D[i].mods, Levels(K[D[i].k].ord)) IN
  /\ count = Cardinality(ns)
  /\ \A v \in Named(K[D[i].k].ord) :
       Cardinality({x \in ns : x[1] = v}) = Sum([j \in DOMAIN profile |-> IF profile[j][1] = v THEN profile[j][2] ELSE 0])
  /\ {profile[j][1] : j \in DOMAIN profile} \ {0} \subseteq Named(K[D[i].k].ord)
GoodSupport(i, vs) == NoDup(vs) /\ Range(vs) = Support(D[i].mods)
GoodEnumeration(i, vs, ms) ==
  LET known == SelectSeq(vs, LAMBDA v : v \in Named(K[D[i].k].ord)) IN
  /\ \A j \in DOMAIN ms : NoDup(ms[j]) /\ Consistent(Range(ms[j])) /\ {Abs(x) : x \in Range(ms[j])} = Range(known)
  /\ NoDup([j \in DOMAIN ms |-> MkA(ms[j], 1)])
  /\ {MkA(ms[j], 1) : j \in DOMAIN ms} =
       {MkA([j \in DOMAIN known |-> IF Bit(a, known[j]) = 1 THEN known[j] ELSE -known[j]], 1) : a \in D[i].mods}
GoodFormula(i, f) == Vars(f) \subseteq Support(D[i].mods) /\ Mod(f, n) = D[i].mods
(* one clause per path to 0, one term per path to 1 *)
NumClauses(f) == CASE f[1] = 1 -> 0 [] f[1] = 5 -> Len(f) - 1 [] OTHER -> 1
NumTerms(f) == CASE f[1] = 0 -> 0 [] f[1] = 6 -> Len(f) - 1 [] OTHER -> 1
GoodCNF(i, f, k) == /\ IsCNFShape(f) /\ GoodFormula(i, f)
                    /\ k = Paths(D[i].mods, Levels(K[D[i].k].ord), 1, FALSE)
                    /\ NumClauses(f) = k
GoodDNF(i, f) == /\ IsDNFShape(f) /\ GoodFormula(i, f)
                 /\ NumTerms(f) = Paths(D[i].mods, Levels(K[D[i].k].ord), 1, TRUE)
GoodModel(i, err, ls) ==
  IF D[i].mods = {} THEN err
  ELSE ~err /\ NoDup(ls) /\ Consistent(Range(ls)) /\ Agreeing(Range(ls), n) \subseteq D[i].mods
GoodModelWith(i, vs, dflt, err, ls) ==
  /\ GoodModel(i, err, ls)
  /\ ~err => \A v \in Range(vs) :
        /\ v \in Range(ls) \/ -v \in Range(ls)
        /\ v \notin Support(D[i].mods) => (IF dflt THEN v ELSE -v) \in Range(ls)
GoodFullModel(i, err, ls) ==
  GoodModel(i, err, ls) /\ (~err => {Abs(x) : x \in Range(ls)} = Named(K[D[i].k].ord))
(* the reduced ordered graph: nodes <<var, low, high>>, ids 0, 1, then 2.. *)
RECURSIVE FunOf(_,_)
FunOf(g, id) == IF id = 0 THEN {} ELSE IF id = 1 THEN Universe[n]
  ELSE LET x == g[id-1] IN (PosTab[n][x[1]] \cap FunOf(g, x[3])) \cup ((Universe[n] \ PosTab[n][x[1]]) \cap FunOf(g, x[2]))
GoodGraph(i, g, root) ==
  LET o == Levels(K[D[i].k].ord) IN
  /\ NoDup(g)
  /\ \A j \in DOMAIN g : /\ g[j][1] \in Range(o) /\ g[j][2] # g[j][3]
                         /\ \A c \in {g[j][2], g[j][3]} : c > 1 => PosOf(o, g[c-1][1]) > PosOf(o, g[j][1])
  /\ FunOf(g, root) = D[i].mods
=============================================================================
