------------------------------- MODULE Grammar -------------------------------
(* The language of propositional and pseudo-Boolean formulas: what a text,    *)
(* given as a sequence of characters, means.  The lexical rule is the longest *)
(* match; the syntax is that of parser/LogicNGPropositional.g4.  Texts denote *)
(* syntax trees over indices into a list of names.                            *)
EXTENDS Prop

Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
RECURSIVE Renamed(_,_)
Renamed(f, m) == CASE f[1] \in {2,3} -> <<f[1], m[f[2]]>>
   [] f[1] \in {0,1} -> f
   [] f[1] = 9 -> <<9, f[2], f[3], [i \in DOMAIN f[4] |-> IF f[4][i] > 0 THEN m[f[4][i]] ELSE -m[-f[4][i]]], f[5]>>
   [] OTHER -> [i \in DOMAIN f |-> IF i = 1 THEN f[1] ELSE Renamed(f[i], m)]
Letters == Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
Digits == Chars("0123456789")
Cont == Letters \cup Digits \cup {"_", "#"}
Start == Cont \cup {"@"}
Blank == {" ", "\t", "\r", "\n"}
DigitVal == [d \in Digits |-> CHOOSE v \in 0..9 : ToString(v) = d]

(***************************************************************************)
(* Tokens <<kind, chars, value>>                                             *)
(***************************************************************************)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE ""
RECURSIVE RunEnd(_,_,_), NumVal(_,_,_,_)
RunEnd(s, i, set) == IF i <= Len(s) /\ s[i] \in set THEN RunEnd(s, i+1, set) ELSE i  \* first position outside
NumVal(s, i, j, acc) == IF i >= j THEN acc ELSE NumVal(s, i+1, j, 10 * acc + DigitVal[s[i]])
Word(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[i+k-1] = w[k]
TrueW == <<"$", "t", "r", "u", "e">>
FalseW == <<"$", "f", "a", "l", "s", "e">>

\* the token at position i: <<kind, chars, value, next>>
TokenAt(s, i) ==
  LET c == s[i] IN
  CASE c \in Start ->
         LET d == RunEnd(s, i, Digits)  w == RunEnd(s, i+1, Cont) IN
         IF c \in Digits /\ d >= w THEN <<"num", SubSeq(s, i, d-1), NumVal(s, i, d, 0), d>>
         ELSE <<"lit", SubSeq(s, i, w-1), 1, w>>
    [] c = "-" /\ At(s, i+1) \in Digits ->
         LET d == RunEnd(s, i+1, Digits) IN <<"num", SubSeq(s, i, d-1), -NumVal(s, i+1, d, 0), d>>
    [] c = "~" /\ At(s, i+1) \in Start -> LET w == RunEnd(s, i+2, Cont) IN <<"lit", SubSeq(s, i+1, w-1), -1, w>>
    [] c = "~" -> <<"not", <<>>, 0, i+1>>
    [] c = "$" /\ Word(s, i, TrueW) -> <<"true", <<>>, 0, i+5>>
    [] c = "$" /\ Word(s, i, FalseW) -> <<"false", <<>>, 0, i+6>>
    [] c = "<" /\ At(s, i+1) = "=" /\ At(s, i+2) = ">" -> <<"equiv", <<>>, 0, i+3>>
    [] c = "<" /\ At(s, i+1) = "=" -> <<"cmp", <<>>, 1, i+2>>
    [] c = "<" -> <<"cmp", <<>>, 2, i+1>>
    [] c = ">" /\ At(s, i+1) = "=" -> <<"cmp", <<>>, 3, i+2>>
    [] c = ">" -> <<"cmp", <<>>, 4, i+1>>
    [] c = "=" /\ At(s, i+1) = ">" -> <<"impl", <<>>, 0, i+2>>
    [] c = "=" -> <<"cmp", <<>>, 0, i+1>>
    [] c = "&" -> <<"and", <<>>, 0, i+1>>
    [] c = "|" -> <<"or", <<>>, 0, i+1>>
    [] c = "(" -> <<"(", <<>>, 0, i+1>>
    [] c = ")" -> <<")", <<>>, 0, i+1>>
    [] c = "*" -> <<"*", <<>>, 0, i+1>>
    [] c = "+" -> <<"+", <<>>, 0, i+1>>
    [] OTHER -> <<"bad", <<>>, 0, i+1>>
RECURSIVE Lex(_,_,_)
Lex(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \in Blank THEN Lex(s, i+1, acc)
  ELSE LET t == TokenAt(s, i) IN Lex(s, t[4], Append(acc, <<t[1], t[2], t[3]>>))
Tokens(s) == Lex(s, 1, <<>>)
LexOk(ts) == \A i \in DOMAIN ts : ts[i][1] # "bad"

(* the names a text mentions, after those already known *)
RECURSIVE NamesOf(_,_,_)
NamesOf(ts, i, known) ==
  IF i > Len(ts) THEN known
  ELSE NamesOf(ts, i+1, IF ts[i][1] \in {"lit", "num"} /\ ts[i][2] \notin Range(known) THEN Append(known, ts[i][2]) ELSE known)

(***************************************************************************)
(* Syntax: parsers return <<tree, next position>>, position 0 for an error   *)
(***************************************************************************)
Err == <<<<0>>, 0>>
Kind(ts, i) == IF i <= Len(ts) THEN ts[i][1] ELSE "end"
Index(names, w) == CHOOSE k \in DOMAIN names : names[k] = w
LitInt(ts, i, names) == IF ts[i][1] = "num" THEN Index(names, ts[i][2]) ELSE ts[i][3] * Index(names, ts[i][2])

\* mul: a literal, a number as a literal, a number times a literal
\* <<coefficient, literal, next>>
PMul(ts, i, names) ==
  IF Kind(ts, i) = "num" /\ Kind(ts, i+1) = "*" /\ Kind(ts, i+2) \in {"lit", "num"}
  THEN <<ts[i][3], LitInt(ts, i+2, names), i+3>>
  ELSE IF Kind(ts, i) \in {"lit", "num"} THEN <<1, LitInt(ts, i, names), i+1>>
  ELSE <<0, 0, 0>>
RECURSIVE PAdd(_,_,_,_,_)
PAdd(ts, i, names, lits, coeffs) ==
  LET m == PMul(ts, i, names) IN
  IF m[3] = 0 THEN <<lits, coeffs, 0>>
  ELSE IF Kind(ts, m[3]) = "+" THEN PAdd(ts, m[3] + 1, names, Append(lits, m[2]), Append(coeffs, m[1]))
  ELSE <<Append(lits, m[2]), Append(coeffs, m[1]), m[3]>>
PComparison(ts, i, names) ==
  LET a == PAdd(ts, i, names, <<>>, <<>>) IN
  IF a[3] = 0 \/ Kind(ts, a[3]) # "cmp" \/ Kind(ts, a[3] + 1) # "num" THEN Err
  ELSE <<<<9, ts[a[3]][3], ts[a[3] + 1][3], a[1], a[2]>>, a[3] + 2>>

RECURSIVE PEquiv(_,_,_), PImpl(_,_,_), PDisj(_,_,_), PConj(_,_,_), PLit(_,_,_), POps(_,_,_,_,_)
PSimp(ts, i, names) ==
  CASE Kind(ts, i) \in {"lit", "num"} ->
         IF Kind(ts, i+1) \in {"+", "cmp"} \/ (Kind(ts, i) = "num" /\ Kind(ts, i+1) = "*") THEN PComparison(ts, i, names)
         ELSE LET x == LitInt(ts, i, names) IN <<IF x > 0 THEN <<2, x>> ELSE <<3, -x>>, i+1>>
    [] Kind(ts, i) = "true" -> <<<<1>>, i+1>>
    [] Kind(ts, i) = "false" -> <<<<0>>, i+1>>
    [] Kind(ts, i) = "(" -> LET r == PEquiv(ts, i+1, names) IN
         IF r[2] = 0 \/ Kind(ts, r[2]) # ")" THEN Err ELSE <<r[1], r[2] + 1>>
    [] OTHER -> Err
PLit(ts, i, names) == IF Kind(ts, i) = "not"
  THEN LET r == PLit(ts, i+1, names) IN IF r[2] = 0 THEN Err ELSE <<<<4, r[1]>>, r[2]>>
  ELSE PSimp(ts, i, names)
POps(ts, i, names, op, acc) ==
  LET r == IF op = "and" THEN PLit(ts, i, names) ELSE PConj(ts, i, names) IN
  IF r[2] = 0 THEN Err
  ELSE IF Kind(ts, r[2]) = op THEN POps(ts, r[2] + 1, names, op, Append(acc, r[1]))
  ELSE IF acc = <<>> THEN r
  ELSE <<(IF op = "and" THEN <<5>> ELSE <<6>>) \o Append(acc, r[1]), r[2]>>
PConj(ts, i, names) == POps(ts, i, names, "and", <<>>)
PDisj(ts, i, names) == POps(ts, i, names, "or", <<>>)
PImpl(ts, i, names) == LET l == PDisj(ts, i, names) IN
  IF l[2] = 0 \/ Kind(ts, l[2]) # "impl" THEN l
  ELSE LET r == PImpl(ts, l[2] + 1, names) IN IF r[2] = 0 THEN Err ELSE <<<<7, l[1], r[1]>>, r[2]>>
PEquiv(ts, i, names) == LET l == PImpl(ts, i, names) IN
  IF l[2] = 0 \/ Kind(ts, l[2]) # "equiv" THEN l
  ELSE LET r == PEquiv(ts, l[2] + 1, names) IN IF r[2] = 0 THEN Err ELSE <<<<8, l[1], r[1]>>, r[2]>>

(* the tree of a text; <<>> if the text is not in the language *)
Parse(s, names) ==
  LET ts == Tokens(s) IN
  IF ~LexOk(ts) THEN <<>>
  ELSE IF ts = <<>> THEN <<1>>
  ELSE LET r == PEquiv(ts, 1, names) IN IF r[2] = Len(ts) + 1 THEN r[1] ELSE <<>>
(* the tree of the text up to the first token that cannot continue a formula; *)
(* <<>> if there is none or if the text is in the language                    *)
ParsePrefix(s, names) ==
  LET ts == Tokens(s)
      r == IF ts = <<>> THEN Err ELSE PEquiv(ts, 1, names) IN
  IF r[2] = 0 \/ r[2] = Len(ts) + 1 THEN <<>> ELSE r[1]
AllNames(s, known) == NamesOf(Tokens(s), 1, known)
Trailing(s, known) == ParsePrefix(s, AllNames(s, known)) # <<>>
InLanguage(s, known) == Parse(s, AllNames(s, known)) # <<>>
=============================================================================
