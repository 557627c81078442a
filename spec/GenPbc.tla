------------------------------- MODULE GenPbc -------------------------------
(* Pseudo-Boolean constraints: all over two literals with coefficients from   *)
(* -3..3 and a random part of those over three and four literals, with every  *)
(* comparator and a right-hand side from the whole range of the sum.          *)
EXTENDS GenBase, Randomization
VARIABLE c
Abs(x) == IF x < 0 THEN -x ELSE x
Coeffs(k) == (-k..k) \ {0}
Pos(cs, i) == IF cs[i] > 0 THEN cs[i] ELSE 0
Neg(cs, i) == IF cs[i] < 0 THEN cs[i] ELSE 0
RECURSIVE Upper(_,_), Lower(_,_)
Upper(cs, i) == IF i > Len(cs) THEN 0 ELSE Pos(cs, i) + Upper(cs, i+1)
Lower(cs, i) == IF i > Len(cs) THEN 0 ELSE Neg(cs, i) + Lower(cs, i+1)
Rhs(cs) == (Lower(cs, 1) - 1)..(Upper(cs, 1) + 1)
(* encoder 0 sequential weight counter, 1 binary merge, 2 adder networks      *)
Encs == {[pbc |-> x, gac |-> FALSE, single |-> FALSE, dog |-> FALSE] : x \in {0, 2}}
   \cup {[pbc |-> 1, gac |-> g, single |-> s, dog |-> d] : g, s, d \in BOOLEAN}
Vecs(n, k) == [1..n -> Coeffs(k)]
Cases(vecs) == UNION {{[cs |-> v, cmp |-> cmp, rhs |-> r] : cmp \in 0..4, r \in Rhs(v)} : v \in vecs}
Two == Cases(Vecs(1, 3) \cup Vecs(2, 3))
More == Cases(RandomSubset(IF Thorough THEN 60 ELSE 8, Vecs(3, 4))
        \cup RandomSubset(IF Thorough THEN 60 ELSE 6, Vecs(4, 3))
        \cup RandomSubset(IF Thorough THEN 30 ELSE 3, [1..5 -> {1, 2, 3, 7}]))
Init == \/ \E x \in Two, e \in (IF Thorough THEN Encs ELSE RandomSubset(2, Encs)) : c = [con |-> x, enc |-> e]
        \/ \E x \in More, e \in (IF Thorough THEN Encs ELSE RandomSubset(3, Encs)) : c = [con |-> x, enc |-> e]
Next == FALSE /\ UNCHANGED c
Written == Emit(c)
=============================================================================
