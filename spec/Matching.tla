------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* The SAT solver (see Solver) with contents that are hard to search: a grid  *)
(* of variables, row i and column j hold variable (i-1)*cols+j.  The content  *)
(* demands that some rows have at least one, some rows at most one and some   *)
(* columns at most one true variable, and fixes variables.  Whether there is  *)
(* a model is decided by Hall's theorem on the open rows, not by search.      *)
(***************************************************************************)
EXTENDS Prop
VARIABLES rows, cols,  \* size of the grid
          G,           \* the content [need, amoR, amoC, pos, neg, dead]
          saved
mvars == <<rows, cols, G, saved>>

Cell(i, j) == (i-1)*cols + j
RowOf(v) == ((v-1) \div cols) + 1
ColOf(v) == ((v-1) % cols) + 1
RowVars(i) == {Cell(i, j) : j \in 1..cols}
ColVars(j) == {Cell(i, j) : i \in 1..rows}
Nothing == [need |-> {}, amoR |-> {}, amoC |-> {}, pos |-> {}, neg |-> {}, dead |-> FALSE]

GLit(g, x) == IF x > 0 THEN [g EXCEPT !.pos = @ \cup {x}] ELSE [g EXCEPT !.neg = @ \cup {-x}]
RECURSIVE GLits(_,_,_)
GLits(g, ls, i) == IF i > Len(ls) THEN g ELSE GLits(GLit(g, ls[i]), ls, i+1)

Pairs(S) == {c \in SUBSET S : Cardinality(c) = 2}
(* a formula of the grid: a literal, a clause or constraint over one row or   *)
(* column, or a conjunction of such                                           *)
RECURSIVE GAdd(_,_), GOps(_,_,_)
GAdd(g, f) ==
  LET t == f[1] vs == Vars(f) IN
  CASE t = 1 -> g
    [] t = 0 -> [g EXCEPT !.dead = TRUE]
    [] t = 2 -> GLit(g, f[2])
    [] t = 3 -> GLit(g, -f[2])
    [] t = 6 -> [g EXCEPT !.need = @ \cup {RowOf(v) : v \in vs}]
    [] t = 5 -> GOps(g, f, 2)
    [] t = 9 -> LET r == \E i \in 1..rows : vs = RowVars(i)
                    i == RowOf(CHOOSE v \in vs : TRUE)
                    j == ColOf(CHOOSE v \in vs : TRUE)
                IN IF r THEN [g EXCEPT !.need = IF f[2] \in {0,3} THEN @ \cup {i} ELSE @,
                                       !.amoR = IF f[2] \in {0,1} THEN @ \cup {i} ELSE @]
                   ELSE [g EXCEPT !.amoC = @ \cup {j}]
GOps(g, f, i) == IF i > Len(f) THEN g ELSE GOps(GAdd(g, f[i]), f, i+1)
RECURSIVE GSeq(_,_,_)
GSeq(g, fs, i) == IF i > Len(fs) THEN g ELSE GSeq(GAdd(g, fs[i]), fs, i+1)

Open(g) == {i \in g.need : RowVars(i) \cap g.pos = {}}
(* columns an open row can use; 0 stands for a column without restriction     *)
Choices(g, i) == {IF j \in g.amoC THEN j ELSE 0 :
                    j \in {k \in 1..cols : Cell(i, k) \notin g.neg
                                           /\ ~(k \in g.amoC /\ ColVars(k) \cap g.pos # {})}}
GSat(g) ==
  /\ ~g.dead
  /\ g.pos \cap g.neg = {}
  /\ \A i \in g.amoR : Cardinality(RowVars(i) \cap g.pos) <= 1
  /\ \A j \in g.amoC : Cardinality(ColVars(j) \cap g.pos) <= 1
  /\ LET op == {i \in Open(g) : 0 \notin Choices(g, i)}
         ch == [i \in op |-> Choices(g, i)]
     IN \A S \in SUBSET op : Cardinality(UNION {ch[i] : i \in S}) >= Cardinality(S)

AllVars == 1..(rows*cols)
GForced(g, x) == ~GSat(GLit(g, -x))
(* does the content depend on variable v, i.e. is there a model that is none   *)
(* after changing v                                                           *)
GNeeded(g, v) ==
  LET i == RowOf(v) j == ColOf(v) IN
  \/ v \in g.pos \cup g.neg
  \/ GForced(g, v) \/ GForced(g, -v)
  (* v true and its row needs it, nothing else in the row *)
  \/ i \in g.need /\ GSat([GLit(g, v) EXCEPT !.neg = @ \cup (RowVars(i) \ {v})])
  (* v false, another variable of its row or column true *)
  \/ i \in g.amoR /\ \E w \in RowVars(i) \ {v} : GSat(GLit(GLit(g, w), -v))
  \/ j \in g.amoC /\ \E w \in ColVars(j) \ {v} : GSat(GLit(GLit(g, w), -v))

MInit == rows = 0 /\ cols = 0 /\ G = [need |-> {}, amoR |-> {}, amoC |-> {}, pos |-> {}, neg |-> {}, dead |-> FALSE] /\ saved = <<>>
MNew(r, c) == rows' = r /\ cols' = c /\ G' = Nothing /\ saved' = <<>>
MAdd(f) == G' = GAdd(G, f) /\ UNCHANGED <<rows, cols, saved>>
MSave == saved' = Append(saved, [G |-> G, valid |-> TRUE]) /\ UNCHANGED <<rows, cols, G>>
MLoad(i) == /\ i \in DOMAIN saved /\ saved[i].valid
            /\ G' = saved[i].G
            /\ saved' = [j \in DOMAIN saved |-> IF j > i THEN [saved[j] EXCEPT !.valid = FALSE] ELSE saved[j]]
            /\ UNCHANGED <<rows, cols>>
MLoadRefused(i) == ~saved[i].valid /\ UNCHANGED mvars

MV(mdl) == {Abs(mdl[i]) : i \in DOMAIN mdl}
MGoodModel(mdl, req, g) ==
  /\ NoDup(mdl) /\ Consistent(Range(mdl)) /\ MV(mdl) \subseteq req
  /\ \A v \in req \ MV(mdl) : ~GNeeded(g, v)
  /\ GSat(GLits(g, mdl, 1))
MGoodCore(core) == ~GSat(GSeq(Nothing, core, 1))
MGoodBackbone(bb, vs, kind) ==
  /\ bb.sat <=> GSat(G)
  /\ bb.sat => LET ps == {v \in vs : GForced(G, v)} ns == {v \in vs : GForced(G, -v)} IN
       /\ NoDup(bb.pos) /\ NoDup(bb.neg) /\ NoDup(bb.opt)
       /\ Range(bb.pos) = IF kind \in {0,2} THEN ps ELSE {}
       /\ Range(bb.neg) = IF kind \in {1,2} THEN ns ELSE {}
       /\ Range(bb.opt) = IF kind = 2 THEN vs \ (ps \cup ns) ELSE {}
(* a clause follows iff the content is unsatisfiable with all its literals false *)
GFollows(g, c) == ~GSat(GLits(g, [i \in DOMAIN c |-> -c[i]], 1))
=============================================================================
