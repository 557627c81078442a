----------------------------- MODULE GenEncoding -----------------------------
(* All cardinality constraints over up to MaxVars variables, with every       *)
(* comparator, every bound and every encoder configuration; one initial       *)
(* state each.                                                               *)
EXTENDS GenBase, FiniteSets
VARIABLE c
MaxAmo == 10
MaxCard == IF Thorough THEN 10 ELSE 9
Base == [amo |-> 7, amk |-> 3, alk |-> 3, exk |-> 2, bim |-> 1, bfix |-> 3, nest |-> 4, prod |-> 20, comm |-> 3]
AmoConfigs ==
  {[Base EXCEPT !.amo = x] : x \in {0, 1, 5, 7}}                                      \* pure, ladder, binary, best
  \cup {[Base EXCEPT !.amo = 2, !.prod = x] : x \in {2, 3, 4, 20}}                    \* product
  \cup {[Base EXCEPT !.amo = 3, !.nest = x] : x \in 3..6}                             \* nested
  \cup {[Base EXCEPT !.amo = 4, !.comm = x] : x \in 2..5}                             \* commander
  \cup {[Base EXCEPT !.amo = 6, !.bim = x] : x \in {0, 1}}                            \* bimander
  \cup {[Base EXCEPT !.amo = 6, !.bim = 2, !.bfix = x] : x \in 1..5}
AmkConfigs == {[Base EXCEPT !.amk = x] : x \in 0..3}
AlkConfigs == {[Base EXCEPT !.alk = x] : x \in 0..3}
ExkConfigs == {[Base EXCEPT !.exk = x] : x \in 0..2}
(* comparators: 0 =, 1 <=, 2 <, 3 >=, 4 > *)
Case(n, cmp, rhs, enc, wide) == [n |-> n, cmp |-> cmp, rhs |-> rhs, enc |-> enc, wide |-> wide]
AmoCases == {Case(n, x[1], x[2], enc, FALSE) : n \in 1..MaxAmo, x \in {<<0, 1>>, <<1, 1>>, <<2, 2>>}, enc \in AmoConfigs}
LeCases == UNION {{Case(n, 1, k, enc, FALSE) : k \in {0} \cup 2..(n+1), enc \in AmkConfigs} : n \in 1..MaxCard}
LtCases == UNION {{Case(n, 2, k, enc, FALSE) : k \in {0, 1} \cup 3..(n+2), enc \in AmkConfigs} : n \in 1..MaxCard}
GeCases == UNION {{Case(n, 3, k, enc, FALSE) : k \in 0..(n+1), enc \in AlkConfigs} : n \in 1..MaxCard}
GtCases == UNION {{Case(n, 4, k, enc, FALSE) : k \in 0..n, enc \in AlkConfigs} : n \in 1..MaxCard}
EqCases == UNION {{Case(n, 0, k, enc, FALSE) : k \in {0} \cup 2..(n+1), enc \in ExkConfigs} : n \in 1..MaxCard}
(* more variables: checked on a sample of assignments *)
WideN == IF Thorough THEN {11, 12, 13, 14, 15, 16, 17, 19, 21, 22, 25, 26, 30, 37} ELSE {11, 12, 13, 15, 16, 18, 21, 26}
WideAmo == {Case(n, cmp, 1, enc, TRUE) : n \in WideN, cmp \in {0, 1}, enc \in AmoConfigs}
WideK(n) == {2, 3, n \div 3, n \div 2, n-3, n-1}
WideCard == UNION {{Case(n, 1, k, enc, TRUE) : k \in WideK(n), enc \in AmkConfigs}
             \cup {Case(n, 3, k, enc, TRUE) : k \in WideK(n), enc \in AlkConfigs}
             \cup {Case(n, 0, k, enc, TRUE) : k \in WideK(n), enc \in ExkConfigs} : n \in WideN \cap 11..(IF Thorough THEN 22 ELSE 16)}
Init == \/ c \in AmoCases \/ c \in LeCases \/ c \in LtCases \/ c \in GeCases \/ c \in GtCases \/ c \in EqCases
        \/ c \in WideAmo \/ c \in WideCard
Next == FALSE /\ UNCHANGED c
Written == Emit(c)
=============================================================================
