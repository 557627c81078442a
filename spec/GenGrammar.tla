----------------------------- MODULE GenGrammar ------------------------------
(* Texts, as sequences of tokens: every sequence of up to three (four) tokens; *)
(* every chain of binary operators over four (five) names with at most one     *)
(* pair of parentheses, negated or not; every comparison of one or two terms.  *)
EXTENDS GenBase, FiniteSets
VARIABLE c
Tok == {"a", "~b", "3", "~", "(", ")", "&", "|", "=>", "<=>", "$true", "$false", "+", "*", "<=", "="}
Bin == {"&", "|", "=>", "<=>"}
Names == <<"a", "b", "c", "d", "e">>
Len0 == IF Thorough THEN 5 ELSE 4
Short(p) == {p} \cup {p \o <<t>> : t \in Tok} \cup (IF Thorough THEN {p \o <<t, u>> : t, u \in Tok} ELSE {})
RECURSIVE Chain(_,_,_,_,_)
\* the chain from operand i on; parentheses around operands lo..hi
Chain(ops, lo, hi, mark, i) ==
  LET pre == IF i = lo THEN mark \o <<"(">> ELSE <<>>
      post == IF i = hi THEN <<")">> ELSE <<>>
      here == pre \o <<Names[i]>> \o post IN
  IF i > Len(ops) THEN here ELSE here \o <<ops[i]>> \o Chain(ops, lo, hi, mark, i+1)
Chains(o) == LET all == {<<o>> \o x : x \in [1..(Len0 - 2) -> Bin]} IN
  UNION {{Chain(ops, lo, hi, mark, 1) : lo \in 0..Len0, hi \in 1..Len0, mark \in {<<>>, <<"~">>}} : ops \in all}
Sound(t) == Cardinality({i \in DOMAIN t : t[i] = "("}) = Cardinality({i \in DOMAIN t : t[i] = ")"})
Terms == {<<"a">>, <<"~b">>, <<"3">>, <<"2", "*", "a">>, <<"-1", "*", "~b">>, <<"2", "*", "3">>, <<"0", "*", "c">>}
Comps(cmp) == UNION {{pre \o s \o <<cmp, r>> \o post : s \in Terms \cup {x \o <<"+">> \o y : x, y \in Terms}, r \in {"0", "1", "-1"}}
                     : pre \in {<<>>, <<"~">>, <<"a", "=>">>}, post \in {<<>>, <<"&", "b">>}}
Texts == [k : {"short"}, p : [1..2 -> Tok]] \cup [k : {"one"}, p : {<<>>}] \cup [k : {"chain"}, p : Bin] \cup [k : {"comp"}, p : {"=", "<=", "<", ">=", ">"}]
Of(x) == CASE x.k = "short" -> Short(x.p)
  [] x.k = "one" -> {<<t>> : t \in Tok}
  [] x.k = "chain" -> {t \in Chains(x.p) : Sound(t)}
  [] OTHER -> Comps(x.p)
Init == c \in Texts
Next == FALSE /\ UNCHANGED c
Written == Emit([k |-> c.k, texts |-> Of(c)])
=============================================================================
