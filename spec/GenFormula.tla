----------------------------- MODULE GenFormula -----------------------------
(* Formulas up to a size, up to renaming of variables: all with up to three    *)
(* leaves, and a random selection (all, in the thorough tier for the           *)
(* connectives without implication) of those with four.  Every inner formula    *)
(* may be negated.  The real code is run on each of them.                       *)
EXTENDS GenBase, FiniteSets
VARIABLE c
Pat2 == {<<1,1>>, <<1,2>>}
Pat3 == {<<1,1,1>>, <<1,1,2>>, <<1,2,1>>, <<1,2,2>>, <<1,2,3>>}
Pat4 == {p \in [1..4 -> 1..4] : p[1] = 1 /\ \A i \in 2..4 : \E m \in 0..3 : (\A j \in 1..(i-1) : p[j] <= m) /\ (\E j \in 1..(i-1) : p[j] = m) /\ p[i] <= m + 1}
Lit(v, s) == IF s THEN <<2, v>> ELSE <<3, v>>
Signs(k) == [1..k -> BOOLEAN]
Ops == [t : 5..8, neg : BOOLEAN]
Node(o, l, r) == IF o.neg THEN <<4, <<o.t, l, r>>>> ELSE <<o.t, l, r>>
L(p, s) == [i \in DOMAIN p |-> Lit(p[i], s[i])]
Two == {Node(o, L(p, s)[1], L(p, s)[2]) : p \in Pat2, s \in Signs(2), o \in Ops}
Three == {LET x == L(p, s) IN Node(o, Node(q, x[1], x[2]), x[3]) : p \in Pat3, s \in Signs(3), o \in Ops, q \in Ops}
         \cup {LET x == L(p, s) IN Node(o, x[1], Node(q, x[2], x[3])) : p \in Pat3, s \in Signs(3), o \in {x \in Ops : x.t = 7}, q \in Ops}
Shape(h, x, o, q, r) ==
  CASE h = 1 -> Node(o, Node(q, x[1], x[2]), Node(r, x[3], x[4]))
    [] h = 2 -> Node(o, Node(q, Node(r, x[1], x[2]), x[3]), x[4])
    [] h = 3 -> Node(o, Node(q, x[1], Node(r, x[2], x[3])), x[4])
    [] h = 4 -> Node(o, x[1], Node(q, x[2], Node(r, x[3], x[4])))
    [] h = 5 -> Node(o, x[1], Node(q, Node(r, x[2], x[3]), x[4]))
Sampled == {<<i, Shape(RandomElement(1..5), L(RandomElement(Pat4), RandomElement(Signs(4))),
                      RandomElement(Ops), RandomElement(Ops), RandomElement(Ops))>> : i \in 1..(IF Thorough THEN 20000 ELSE 1200)}
Init == \/ \E f \in Two \cup Three : c = [i |-> 0, f |-> f]
        \/ \E x \in Sampled : c = [i |-> x[1], f |-> x[2]]
Next == FALSE /\ UNCHANGED c
Written == Emit(c)
=============================================================================
