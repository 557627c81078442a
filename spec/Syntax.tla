------------------------------- MODULE Syntax -------------------------------
(* Syntactic measures and shapes of formula trees.                          *)
EXTENDS Prop

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

RECURSIVE Depth(_), Atoms(_), Nodes(_), Subs(_), VarOcc(_,_), LitOcc(_,_)
Depth(f) == IF IsAtom(f) THEN 0 ELSE 1 + MaxOf({Depth(f[i]) : i \in 2..Len(f)})
Atoms(f) == IF IsAtom(f) THEN 1 ELSE Sum([i \in 1..(Len(f)-1) |-> Atoms(f[i+1])])
Nodes(f) == IF f[1] = 9 THEN 1 + Len(f[4])
            ELSE IF IsAtom(f) THEN 1 ELSE 1 + Sum([i \in 1..(Len(f)-1) |-> Nodes(f[i+1])])
Subs(f) == IF IsAtom(f) THEN {f} ELSE {f} \cup UNION {Subs(f[i]) : i \in 2..Len(f)}
VarOcc(f, v) == CASE f[1] \in {0,1} -> 0
   [] f[1] \in {2,3} -> IF f[2] = v THEN 1 ELSE 0
   [] f[1] = 9 -> Cardinality({i \in DOMAIN f[4] : Abs(f[4][i]) = v})
   [] OTHER -> Sum([i \in 1..(Len(f)-1) |-> VarOcc(f[i+1], v)])
LitOcc(f, x) == CASE f[1] \in {0,1} -> 0
   [] f[1] \in {2,3} -> IF LitOf(f) = x THEN 1 ELSE 0
   [] f[1] = 9 -> Cardinality({i \in DOMAIN f[4] : f[4][i] = x})
   [] OTHER -> Sum([i \in 1..(Len(f)-1) |-> LitOcc(f[i+1], x)])

RECURSIVE HasPBC(_), IsAIG(_), HasOp(_,_)
HasPBC(f) == f[1] = 9 \/ (f[1] \in 4..8 /\ \E i \in 2..Len(f) : HasPBC(f[i]))
IsAIG(f) == \/ f[1] \in {0,1,2,3}
            \/ f[1] \in {4,5} /\ \A i \in 2..Len(f) : IsAIG(f[i])
HasOp(f, ops) == f[1] \in ops \/ (f[1] \in 4..8 /\ \E i \in 2..Len(f) : HasOp(f[i], ops))
IsMinterm(f) == f[1] \in {0,1,2,3} \/ (f[1] = 5 /\ \A i \in 2..Len(f) : IsLit(f[i]))
IsMaxterm(f) == f[1] \in {0,1,2,3} \/ (f[1] = 6 /\ \A i \in 2..Len(f) : IsLit(f[i]))

(* literals of a clause or term, operands of a conjunction/disjunction       *)
TermLits(f) == IF IsLit(f) THEN {LitOf(f)} ELSE IF f[1] \in {0,1} THEN {} ELSE {LitOf(f[i]) : i \in 2..Len(f)}
Ops(f, t) == IF f[1] = t THEN [i \in 1..(Len(f)-1) |-> f[i+1]] ELSE <<f>>
(* the terms of a DNF / clauses of a CNF as literal sets                      *)
DNFTerms(f) == IF f[1] = 0 THEN {} ELSE LET o == Ops(f, 6) IN {TermLits(o[i]) : i \in DOMAIN o}
DNFLen(f) == IF f[1] = 0 THEN 0 ELSE Len(Ops(f, 6))
CNFLen(f) == IF f[1] = 1 THEN 0 ELSE Len(Ops(f, 5))

(* equivalence of two formulas over 1..n *)
Equiv(f, g, n) == Mod(f, n) = Mod(g, n)
TermMods(L, n) == Agreeing(L, n)
ClauseMods(L, n) == Universe[n] \ Agreeing({-x : x \in L}, n)
=============================================================================
