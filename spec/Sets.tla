-------------------------------- MODULE Sets --------------------------------
(***************************************************************************)
(* The sets of variables, literals and formulas of the library.  A universe  *)
(* of elements 1..k is numbered by ascending identifier.  Mutable sets are   *)
(* variables of a program, immutable ones are values; the immutable view of  *)
(* a mutable set is the value it has at that time.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES k, S   \* size of the universe; the sets [mut, els]
svars == <<k, S>>
SetsInit == k = 0 /\ S = <<>>
NewUniverse(m) == k' = m /\ S' = <<>>

Elems(xs) == {xs[i] : i \in DOMAIN xs}
Ascending(xs) == \A i \in 1..(Len(xs)-1) : xs[i] < xs[i+1]

Make(mut, xs) == S' = Append(S, [mut |-> mut, els |-> Elems(xs)]) /\ UNCHANGED k
Copy(mut, is) == S' = Append(S, [mut |-> mut, els |-> UNION {S[is[j]].els : j \in DOMAIN is}]) /\ UNCHANGED k
View(i) == S[i].mut /\ S' = Append(S, [mut |-> FALSE, els |-> S[i].els]) /\ UNCHANGED k
Change(i, T) == S[i].mut /\ S' = [S EXCEPT ![i].els = T] /\ UNCHANGED k
Add(i, xs) == Change(i, S[i].els \cup Elems(xs))
Remove(i, xs) == Change(i, S[i].els \ Elems(xs))
AddAll(i, j) == Change(i, S[i].els \cup S[j].els)
RemoveAll(i, j) == Change(i, S[i].els \ S[j].els)

GoodContent(i, xs) == Ascending(xs) /\ Elems(xs) = S[i].els
GoodSize(i, m, empty) == m = Cardinality(S[i].els) /\ (empty <=> S[i].els = {})
GoodContains(i, x, b) == b <=> x \in S[i].els
GoodContainsAll(i, j, b) == b <=> S[j].els \subseteq S[i].els
=============================================================================
