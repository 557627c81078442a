------------------------------- MODULE Assign -------------------------------
(***************************************************************************)
(* Assignments and models.  The variables are numbered in the order of their *)
(* names; a literal is a number, negative literals are negative numbers.  An *)
(* assignment maps some variables to true and some to false and never both; *)
(* it refuses a literal that contradicts it and stays as it was.  A model is *)
(* a sequence of literals.  Assignments and models are objects of a program: *)
(* changing one never changes another.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES Names, As, Ms   \* names of the variables; assignments; models
avars == <<Names, As, Ms>>
AssignInit == Names = <<>> /\ As = <<>> /\ Ms = <<>>
NewNames(ns) == Names' = ns /\ As' = <<>> /\ Ms' = <<>>

Elems(xs) == {xs[i] : i \in DOMAIN xs}
Consistent(ls) == \A x \in ls : -x \notin ls
Sel(xs, P(_)) == SelectSeq(xs, P)
Pos(x) == x > 0
Neg(x) == x < 0

(* assignments *)
Make(ls, err) == /\ err <=> ~Consistent(Elems(ls))
                 /\ As' = IF err THEN As ELSE Append(As, Elems(ls))
                 /\ UNCHANGED <<Names, Ms>>
AddLit(i, x, err) == /\ err <=> -x \in As[i]
                     /\ As' = IF err THEN As ELSE [As EXCEPT ![i] = @ \cup {x}]
                     /\ UNCHANGED <<Names, Ms>>
LitText(x) == IF x < 0 THEN "~" \o Names[-x] ELSE Names[x]
RECURSIVE Joined(_, _)
Joined(xs, i) == IF i > Len(xs) THEN ""
                 ELSE (IF i = 1 THEN "" ELSE ", ") \o LitText(xs[i]) \o Joined(xs, i + 1)
Text(xs) == "[" \o Joined(xs, 1) \o "]"
(* the literals of an assignment in the order of the names of their variables *)
Ordered(ls) == Sel([v \in 1..Len(Names) |-> IF v \in ls THEN v ELSE IF -v \in ls THEN -v ELSE 0], LAMBDA x : x # 0)
Value(i, x) == x \in As[i] \/ (x < 0 /\ -x \notin As[i])
GoodVars(i, xs, sign) == Elems(xs) = {v \in 1..Len(Names) : sign * v \in As[i]} /\ Len(xs) = Cardinality(Elems(xs))
GoodEval(i, kind, xs, b) == IF kind = "and" THEN b <=> \A x \in Elems(xs) : Value(i, x)
                            ELSE b <=> \E x \in Elems(xs) : Value(i, x)
Restricted(i, x) == IF x \in As[i] THEN "true" ELSE IF -x \in As[i] THEN "false" ELSE LitText(x)

(* models *)
NewModel(ls) == Ms' = Append(Ms, ls) /\ UNCHANGED <<Names, As>>
AddLits(i, ls) == Ms' = [Ms EXCEPT ![i] = @ \o ls] /\ UNCHANGED <<Names, As>>
(* the model of an assignment lists its literals once in some order *)
FromAssignment(i, ls) == /\ Elems(ls) = As[i] /\ Len(ls) = Cardinality(As[i])
                         /\ NewModel(ls)
ToAssignment(i, err) == Make(Ms[i], err)
GoodModel(i, ls, size, pos, neglits, negvars) ==
   /\ ls = Ms[i] /\ size = Len(Ms[i])
   /\ pos = Sel(Ms[i], Pos) /\ neglits = Sel(Ms[i], Neg)
   /\ negvars = [j \in DOMAIN neglits |-> -neglits[j]]
GoodFormula(i, ls) == Elems(ls) = Elems(Ms[i]) /\ Len(ls) = Cardinality(Elems(ls))
=============================================================================
