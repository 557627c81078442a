------------------------------ MODULE GenDimacs ------------------------------
(* Small clause files: every header, sequence of up to two (three) clause      *)
(* lines, comment and blank lines in between, and way to write blanks.          *)
EXTENDS GenBase, Randomization
VARIABLE c
Lits == {<<>>, <<"1">>, <<"-2">>, <<"1", "2">>, <<"-1", "2">>, <<"1", "-1">>, <<"2", "2">>, <<"3", "-1", "-2">>}
Heads == {[kind |-> "cnf", words |-> <<"p", "cnf", "3", "2">>],
          [kind |-> "wcnf", words |-> <<"p", "wcnf", "3", "2">>],
          [kind |-> "wcnf", words |-> <<"p", "wcnf", "3", "2", "10">>]}
Weights == {"1", "3", "10"}
Line(h, w, x) == (IF h.kind = "wcnf" THEN <<w>> ELSE <<>>) \o x \o <<"0">>
Lines(h) == {Line(h, w, x) : w \in IF h.kind = "wcnf" THEN Weights ELSE {"1"}, x \in Lits}
Seps == {" ", "  ", "\t"}
Extra == {"none", "before", "between", "after"}  \* comment
Init == \E h \in Heads, sep \in Seps, lead \in BOOLEAN, com \in Extra, blank \in Extra,
           k \in 0..(IF Thorough THEN 3 ELSE 2) :
          \E ls \in LET L == Lines(h) IN RandomSubset(IF k = 0 THEN 1 ELSE IF Thorough THEN 12 ELSE 3, [1..k -> L]) :
            c = [head |-> h.words, kind |-> h.kind, lines |-> ls, sep |-> sep, lead |-> lead, com |-> com, blank |-> blank]
Next == FALSE /\ UNCHANGED c
Written == Emit(c)
=============================================================================
