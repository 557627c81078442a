-------------------------------- MODULE Large --------------------------------
(***************************************************************************)
(* The SAT solver (see Solver) with contents over many variables.  The       *)
(* variables are divided into blocks, and every formula added speaks about   *)
(* one block or is a conjunction of such formulas, so that the content is a  *)
(* product of local relations and every question about it can be answered    *)
(* block by block.  The solver knows nothing of the blocks.                  *)
(*                                                                          *)
(* A table block is the set T of its local models; a symmetric block (many   *)
(* variables) is given by literals fixed and by the set of the numbers of    *)
(* variables that may be true.                                              *)
(***************************************************************************)
EXTENDS Prop, Big

VARIABLES B,       \* sequence of blocks
          W,       \* the blocks without any content: [sym, vars]
          P,       \* propositions added so far
          saved
lvars == <<B, W, P, saved>>

(* ---- one block ---------------------------------------------------------- *)
(* table block [M, w]; symmetric block [m, S, pos, neg] *)
RECURSIVE IndexIn(_,_,_)
IndexIn(s, x, i) == IF s[i] = x THEN i ELSE IndexIn(s, x, i+1)
LocV(b, v) == IndexIn(W[b].vars, v, 1)
LocL(b, x) == IF x > 0 THEN LocV(b, x) ELSE -LocV(b, -x)
RECURSIVE LocF(_,_)
LocF(b, f) ==
  LET t == f[1] IN
  CASE t \in {2,3} -> <<t, LocV(b, f[2])>>
    [] t \in {0,1} -> f
    [] t = 9 -> <<9, f[2], f[3], [i \in DOMAIN f[4] |-> LocL(b, f[4][i])], f[5]>>
    [] OTHER -> [i \in DOMAIN f |-> IF i = 1 THEN t ELSE LocF(b, f[i])]

Empty(w) == IF w.sym THEN [m |-> Len(w.vars), S |-> 0..Len(w.vars), pos |-> {}, neg |-> {}]
                     ELSE [M |-> Universe[Len(w.vars)]]
Sym(b) == W[b].sym
BVars(b) == Range(W[b].vars)

(* the counts of free variables a symmetric block allows *)
Free(x) == x.m - Cardinality(x.pos) - Cardinality(x.neg)
FreeCounts(x) == IF x.pos \cap x.neg # {} THEN {}
                 ELSE {k \in 0..Free(x) : (k + Cardinality(x.pos)) \in x.S}

BSat(b, x) == IF Sym(b) THEN FreeCounts(x) # {} ELSE x.M # {}

(* block x with a literal (global) or a formula of the block added           *)
BLit(b, x, l) == IF Sym(b) THEN IF l > 0 THEN [x EXCEPT !.pos = @ \cup {l}] ELSE [x EXCEPT !.neg = @ \cup {-l}]
                 ELSE [x EXCEPT !.M = @ \cap LitModels(LocL(b, l), Len(W[b].vars))]
RECURSIVE BLits(_,_,_,_)
BLits(b, x, ls, i) == IF i > Len(ls) THEN x ELSE BLits(b, BLit(b, x, ls[i]), ls, i+1)
(* a cardinality constraint over all variables of a symmetric block; each     *)
(* variable once or, if negated, counted from the other side                  *)
SymCounts(b, f) ==
  LET k == Len(f[4])
      up == \A i \in DOMAIN f[4] : f[4][i] > 0
  IN {j \in 0..k : Cmp(f[2], IF up THEN j ELSE k - j, f[3])}
BAdd(b, x, f) ==
  IF ~Sym(b) THEN [x EXCEPT !.M = @ \cap Mod(LocF(b, f), Len(W[b].vars))]
  ELSE CASE f[1] = 1 -> x
         [] f[1] = 0 -> [x EXCEPT !.S = {}]
         [] f[1] = 2 -> BLit(b, x, f[2])
         [] f[1] = 3 -> BLit(b, x, -f[2])
         [] f[1] = 9 -> [x EXCEPT !.S = @ \cap SymCounts(b, f)]
         [] f[1] = 6 -> (* the clauses that mean "at least one" and "not all" *)
              IF f[2][1] = 2 THEN [x EXCEPT !.S = @ \ {0}] ELSE [x EXCEPT !.S = @ \ {x.m}]
         [] f[1] = 4 /\ f[2][1] = 9 -> [x EXCEPT !.S = @ \ SymCounts(b, f[2])]

BForced(b, x, l) ==
  IF ~Sym(b) THEN x.M \subseteq LitModels(LocL(b, l), Len(W[b].vars))
  ELSE ~BSat(b, BLit(b, x, -l))
BDepends(b, x, v) ==
  IF ~Sym(b) THEN DependsOn(x.M, LocV(b, v), Len(W[b].vars))
  ELSE BSat(b, x) /\ (v \in x.pos \cup x.neg \/ FreeCounts(x) # 0..Free(x))

Choose(a, b) == BigChoose(a, b)
(* number of projections to the variables vs, as big number *)
BProjCount(b, x, vs) ==
  LET mine == SelectSeq(vs, LAMBDA v : v \in BVars(b)) IN
  IF ~Sym(b) THEN BigOf(Cardinality(ProjSet(x.M, [i \in DOMAIN mine |-> LocV(b, mine[i])])))
  ELSE IF ~BSat(b, x) THEN BigOf(0)
  ELSE LET q == Cardinality(Range(mine) \ (x.pos \cup x.neg))
           r == Free(x) - q
           fc == FreeCounts(x)
           js == {j \in 0..q : \E i \in 0..r : (i+j) \in fc}
           RECURSIVE Tot(_)
           Tot(j) == IF j > q THEN BigOf(0) ELSE IF j \in js THEN BigAdd(BigChoose(q, j), Tot(j+1)) ELSE Tot(j+1)
       IN Tot(0)

(* largest or smallest number of satisfied literals among ls *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Count(ls, l) == Cardinality({i \in DOMAIN ls : ls[i] = l})
BBest(b, x, max, ls) ==
  LET mine == SelectSeq(ls, LAMBDA y : Abs(y) \in BVars(b)) IN
  IF mine = <<>> THEN 0
  ELSE IF ~Sym(b) THEN
    LET loc == [i \in DOMAIN mine |-> LocL(b, mine[i])]
        vals == {Cardinality({i \in DOMAIN loc : LitTrue(a, loc[i])}) : a \in x.M}
    IN IF max THEN MaxOf(vals) ELSE MinOf(vals)
  ELSE LET fixed == Cardinality({i \in DOMAIN mine : mine[i] \in x.pos \/ (mine[i] < 0 /\ -mine[i] \in x.neg)})
           fv == SelectSeq(W[b].vars, LAMBDA v : v \notin (x.pos \cup x.neg))
           base == fixed + Sum([i \in DOMAIN fv |-> Count(mine, -fv[i])])
           gain == [i \in DOMAIN fv |-> Count(mine, fv[i]) - Count(mine, -fv[i])]
           sorted == SortSeq(gain, LAMBDA p, q : IF max THEN p > q ELSE p < q)
           vals == {base + Sum(SubSeq(sorted, 1, k)) : k \in FreeCounts(x)}
       IN IF max THEN MaxOf(vals) ELSE MinOf(vals)

(* ---- the whole content --------------------------------------------------- *)
Blocks == DOMAIN W
NV == UNION {BVars(b) : b \in Blocks}
BlockOf(v) == CHOOSE b \in Blocks : v \in BVars(b)
(* blocks a formula (no conjunction) speaks about *)
RECURSIVE AddTo(_,_), AddOps(_,_,_)
AddTo(X, f) ==
  CASE f[1] = 1 -> X
    [] f[1] = 0 -> [b \in DOMAIN X |-> BAdd(b, X[b], f)]
    [] f[1] = 5 -> AddOps(X, f, 2)
    [] OTHER -> LET b == BlockOf(CHOOSE v \in Vars(f) : TRUE) IN [X EXCEPT ![b] = BAdd(b, @, f)]
AddOps(X, f, i) == IF i > Len(f) THEN X ELSE AddOps(AddTo(X, f[i]), f, i+1)
RECURSIVE AddSeq(_,_,_)
AddSeq(X, fs, i) == IF i > Len(fs) THEN X ELSE AddSeq(AddTo(X, fs[i]), fs, i+1)

Nothing == [b \in Blocks |-> Empty(W[b])]
IsSat(X) == \A b \in Blocks : BSat(b, X[b])
RECURSIVE AddLits(_,_,_)
AddLits(X, ls, i) == IF i > Len(ls) THEN X
  ELSE LET b == BlockOf(Abs(ls[i])) IN AddLits([X EXCEPT ![b] = BLit(b, @, ls[i])], ls, i+1)
Agrees(X, ls) == IsSat(AddLits(X, ls, 1))
Forced(X, l) == LET b == BlockOf(Abs(l)) IN ~IsSat(X) \/ BForced(b, X[b], l)
Needed(X, v) == IsSat(X) /\ BDepends(BlockOf(v), X[BlockOf(v)], v)
(* a clause follows from independent relations iff it does from one of them *)
Follows(X, c) ==
  ~IsSat(X) \/ \E b \in Blocks :
     LET mine == SelectSeq(c, LAMBDA y : Abs(y) \in BVars(b))
     IN mine # <<>> /\ ~BSat(b, BLits(b, X[b], [i \in DOMAIN mine |-> -mine[i]], 1))
RECURSIVE ProjCountFrom(_,_,_)
ProjCountFrom(X, vs, b) == IF b > Len(W) THEN BigOf(1) ELSE BigMul(BProjCount(b, X[b], vs), ProjCountFrom(X, vs, b+1))
LProjCount(X, vs) == IF IsSat(X) THEN ProjCountFrom(X, vs, 1) ELSE BigOf(0)
LBest(X, max, ls) == Sum([b \in Blocks |-> BBest(b, X[b], max, ls)])
SatisfiedBy(ls, mdl) == Cardinality({i \in DOMAIN ls : ls[i] \in Range(mdl)})

(* ---- the solver ---------------------------------------------------------- *)
LInit == B = <<>> /\ W = <<>> /\ P = {} /\ saved = <<>>
LNew(w) == W' = w /\ B' = [b \in DOMAIN w |-> Empty(w[b])] /\ P' = {} /\ saved' = <<>>
LAdd(f) == B' = AddTo(B, f) /\ P' = P \cup {f} /\ UNCHANGED <<W, saved>>
LConstrain(f) == B' = AddTo(B, f) /\ UNCHANGED <<W, P, saved>>
LSave == saved' = Append(saved, [B |-> B, P |-> P, valid |-> TRUE]) /\ UNCHANGED <<B, W, P>>
LLoad(i) == /\ i \in DOMAIN saved /\ saved[i].valid
            /\ B' = saved[i].B /\ P' = saved[i].P
            /\ saved' = [j \in DOMAIN saved |-> IF j > i THEN [saved[j] EXCEPT !.valid = FALSE] ELSE saved[j]]
            /\ UNCHANGED W
LLoadRefused(i) == ~saved[i].valid /\ UNCHANGED lvars

MVars(mdl) == {Abs(mdl[i]) : i \in DOMAIN mdl}
WellFormed(mdl) == NoDup(mdl) /\ Consistent(Range(mdl))
LGoodModel(mdl, req, X) ==
  /\ WellFormed(mdl)
  /\ MVars(mdl) \subseteq req
  /\ \A v \in req \ MVars(mdl) : ~Needed(X, v)
  /\ Agrees(X, mdl)
LGoodUp(up, X) == \A i \in DOMAIN up : Abs(up[i]) \in NV => Forced(X, up[i])
LGoodCore(core, fs) == /\ \A i \in DOMAIN core : core[i] \in P \cup Range(fs)
                       /\ ~IsSat(AddSeq(Nothing, core, 1))
LGoodBackbone(bb, vs, kind) ==
  /\ bb.sat <=> IsSat(B)
  /\ bb.sat =>
       LET ps == {v \in vs : Forced(B, v)} ns == {v \in vs : Forced(B, -v)} IN
       /\ NoDup(bb.pos) /\ NoDup(bb.neg) /\ NoDup(bb.opt)
       /\ Range(bb.pos) = IF kind \in {0,2} THEN ps ELSE {}
       /\ Range(bb.neg) = IF kind \in {1,2} THEN ns ELSE {}
       /\ Range(bb.opt) = IF kind = 2 THEN vs \ (ps \cup ns) ELSE {}
  /\ ~bb.sat => bb.pos = <<>> /\ bb.neg = <<>> /\ bb.opt = <<>>
LEnumPart(models, vs, add) ==
  LET key(mdl) == Range(mdl) \cap (Range(vs) \cup {-v : v \in Range(vs)})
  IN /\ \A i \in DOMAIN models : /\ WellFormed(models[i])
                                 /\ MVars(models[i]) = Range(vs) \cup add
                                 /\ Agrees(B, models[i])
     /\ Cardinality({key(models[i]) : i \in DOMAIN models}) = Len(models)
LEnumOK(models, vs, add) == LEnumPart(models, vs, add) /\ BigOf(Len(models)) = LProjCount(B, vs)
LGoodOptimum(max, ls, add, mdl, partial) ==
  LET ov == {Abs(ls[i]) : i \in DOMAIN ls} \cup add
      X == AddLits(B, mdl, 1)
  IN /\ WellFormed(mdl)
     /\ MVars(mdl) \subseteq ov
     /\ \A v \in ov \ MVars(mdl) : partial \/ ~Needed(B, v)
     /\ IsSat(X)
     /\ ~partial => LBest(X, max, ls) = LBest(B, max, ls)
=============================================================================
