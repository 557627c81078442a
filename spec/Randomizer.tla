----------------------------- MODULE Randomizer ------------------------------
(* What the formula randomizer may produce under a configuration.  The         *)
(* configuration says which weights are positive: constant, pos, neg, or, and, *)
(* not, impl, equiv, pbc, cc, amo, exo, the comparators cmps, coefpos, coefneg, *)
(* and the maximal numbers maxand, maxor, maxpbc, maxcc, maxcoeff, nv.          *)
EXTENDS Syntax

CCShaped(f) == /\ \A i \in DOMAIN f[4] : f[4][i] > 0 /\ f[5][i] = 1
               /\ f[3] >= 0
AmoShaped(f) == CCShaped(f) /\ f[2] = 1 /\ f[3] = 1
ExoShaped(f) == CCShaped(f) /\ f[2] = 0 /\ f[3] = 1
\* a constraint drawn as pseudo-Boolean constraint, or as one of the others
AsPBC(f, c) == /\ c.pbc /\ Len(f[4]) <= c.maxpbc /\ f[2] \in c.cmps
               /\ \A i \in DOMAIN f[5] : /\ Abs(f[5][i]) \in 1..c.maxcoeff
                                         /\ f[5][i] < 0 => c.coefneg
                                         /\ f[5][i] > 0 => c.coefpos
               /\ \A i \in DOMAIN f[4] : IF f[4][i] > 0 THEN c.pos ELSE c.neg
AsCC(f, c) == c.cc /\ CCShaped(f) /\ Len(f[4]) <= c.maxcc /\ f[2] \in c.cmps
AsAmo(f, c) == c.amo /\ AmoShaped(f) /\ Len(f[4]) <= c.maxcc
AsExo(f, c) == c.exo /\ ExoShaped(f) /\ Len(f[4]) <= c.maxcc
GoodConstraint(f, c) ==
  /\ Len(f[4]) = Cardinality({Abs(x) : x \in Range(f[4])}) \/ c.pbc
  /\ AsPBC(f, c) \/ AsCC(f, c) \/ AsAmo(f, c) \/ AsExo(f, c)

RECURSIVE Allowed(_,_,_)
\* f may occur where formulas of depth d are drawn; directly nested conjunctions
\* and disjunctions are merged
Allowed(f, d, c) ==
  CASE f[1] \in {0,1} -> c.constant
    [] f[1] = 2 -> c.pos \/ c.not
    [] f[1] = 3 -> c.neg \/ c.not
    [] f[1] = 4 -> d > 0 /\ c.not /\ Allowed(f[2], d-1, c)
    [] f[1] = 5 -> d > 0 /\ c.and /\ Len(f) - 1 \in 2..(c.maxand^d) /\ \A i \in 2..Len(f) : Allowed(f[i], d-1, c)
    [] f[1] = 6 -> d > 0 /\ c.or /\ Len(f) - 1 \in 2..(c.maxor^d) /\ \A i \in 2..Len(f) : Allowed(f[i], d-1, c)
    [] f[1] = 7 -> d > 0 /\ c.impl /\ Allowed(f[2], d-1, c) /\ Allowed(f[3], d-1, c)
    [] f[1] = 8 -> d > 0 /\ c.equiv /\ Allowed(f[2], d-1, c) /\ Allowed(f[3], d-1, c)
    [] OTHER -> GoodConstraint(f, c)
\* what was asked for may be drawn even if its weight is zero
Asked(kind, c) == [c EXCEPT !.constant = @ \/ kind = "constant",
   !.pos = @ \/ kind = "variable", !.or = @ \/ kind = "or", !.and = @ \/ kind = "and", !.not = @ \/ kind = "not",
   !.impl = @ \/ kind = "impl", !.equiv = @ \/ kind = "equiv", !.pbc = @ \/ kind = "pbc", !.cc = @ \/ kind = "cc",
   !.amo = @ \/ kind = "amo", !.exo = @ \/ kind = "exo"]
OfKind(f, kind, d) ==
  CASE kind = "constant" -> f[1] \in {0,1}
    [] kind = "variable" -> f[1] = 2
    [] kind = "literal" -> f[1] \in {2,3}
    [] kind = "atom" -> f[1] \in {0,1,2,3,9}
    [] kind = "not" -> IF d = 0 THEN IsAtom(f) ELSE d >= 2 => f[1] = 4
    [] kind = "and" -> IF d = 0 THEN IsAtom(f) ELSE f[1] = 5
    [] kind = "or" -> IF d = 0 THEN IsAtom(f) ELSE f[1] = 6
    [] kind = "impl" -> IF d = 0 THEN IsAtom(f) ELSE f[1] = 7
    [] kind = "equiv" -> IF d = 0 THEN IsAtom(f) ELSE f[1] = 8
    [] kind = "cc" -> f[1] = 9 /\ CCShaped(f)
    [] kind = "amo" -> f[1] = 9 /\ AmoShaped(f)
    [] kind = "exo" -> f[1] = 9 /\ ExoShaped(f)
    [] kind = "pbc" -> f[1] = 9
    [] OTHER -> TRUE
GoodDraw(f, again, kind, d, c) ==
  /\ again = f
  /\ Vars(f) \subseteq 1..c.nv
  /\ Depth(f) <= d
  /\ OfKind(f, kind, d)
  /\ Allowed(f, d, Asked(kind, c))
GoodSet(fs, again, d, k, c) ==
  /\ Len(fs) = k /\ again = fs
  /\ \A i \in DOMAIN fs : Vars(fs[i]) \subseteq 1..c.nv /\ Depth(fs[i]) <= d /\ Allowed(fs[i], d, c)
=============================================================================
