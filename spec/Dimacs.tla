------------------------------- MODULE Dimacs --------------------------------
(* Clause files: one clause per line, ended by 0; comments start with c; the   *)
(* header "p cnf V C" or "p wcnf V C [top]"; any blanks between the words.      *)
(* A file is a sequence of lines, a line a sequence of characters.              *)
EXTENDS Grammar, Syntax

RECURSIVE WordsOf(_,_), WordEnd(_,_)
WordEnd(s, i) == IF i <= Len(s) /\ s[i] \notin Blank THEN WordEnd(s, i+1) ELSE i
WordsOf(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in Blank THEN WordsOf(s, i+1)
  ELSE LET j == WordEnd(s, i) IN <<SubSeq(s, i, j-1)>> \o WordsOf(s, j)
Words(s) == WordsOf(s, 1)
IsInt(w) == LET k == IF w[1] = "-" THEN 2 ELSE 1 IN k <= Len(w) /\ RunEnd(w, k, Digits) = Len(w) + 1
IntOf(w) == IF w[1] = "-" THEN -NumVal(w, 2, Len(w) + 1, 0) ELSE NumVal(w, 1, Len(w) + 1, 0)
Is(w, t) == w = t
CNF == <<"c", "n", "f">>
WCNF == <<"w", "c", "n", "f">>
IsBlankLine(s) == \A i \in DOMAIN s : s[i] \in Blank
IsComment(s) == ~IsBlankLine(s) /\ s[1] = "c"
IsHeader(s) == ~IsBlankLine(s) /\ s[1] = "p"
ClauseLines(lines) == SelectSeq(lines, LAMBDA s : ~IsBlankLine(s) /\ ~IsComment(s) /\ ~IsHeader(s))
Header(lines) == LET hs == SelectSeq(lines, IsHeader) IN Words(hs[1])
(* numbers of a clause line without the final 0 *)
Numbers(s) == LET w == Words(s) IN [i \in DOMAIN w |-> IntOf(w[i])]
Ended(s) == LET w == Words(s) IN w # <<>> /\ IsInt(w[Len(w)]) /\ IntOf(w[Len(w)]) = 0
AllInts(s) == LET w == Words(s) IN \A i \in DOMAIN w : IsInt(w[i])
Front(q) == SubSeq(q, 1, Len(q) - 1)
Clauses(lines) == LET c == ClauseLines(lines) IN [i \in DOMAIN c |-> Front(Numbers(c[i]))]

(* models of a clause (a sequence of numbers) over 1..n *)
ModClause(c, n) == {a \in Universe[n] : \E i \in DOMAIN c : LitTrue(a, c[i])}
ModClauses(cs, n) == {a \in Universe[n] : \A k \in DOMAIN cs : \E i \in DOMAIN cs[k] : LitTrue(a, cs[k][i])}

(***************************************************************************)
(* Reading and writing a CNF                                                *)
(***************************************************************************)
WellFormed(lines) == LET c == ClauseLines(lines) IN \A i \in DOMAIN c : Ended(c[i])
GoodRead(lines, err, fs, n) ==
  /\ err = ~WellFormed(lines)
  /\ ~err => LET cs == Clauses(lines) IN
       /\ Len(fs) = Len(cs)
       /\ \A i \in DOMAIN cs :
            /\ Vars(fs[i]) \subseteq {Abs(x) : x \in Range(cs[i])}
            /\ Mod(fs[i], n) = ModClause(cs[i], n)
(* the same for many variables, without enumerating assignments: a clause is  *)
(* the set of its literals; with a complementary pair it may be the true formula *)
ClauseFor(f, L) == IF f = <<1>> THEN \E x \in L : -x \in L
                   ELSE IF L = {} THEN f = <<0>> ELSE IsMaxterm(f) /\ TermLits(f) = L
GoodReadWide(lines, err, fs) ==
  /\ err = ~WellFormed(lines)
  /\ ~err => LET cs == Clauses(lines) IN
       /\ Len(fs) = Len(cs)
       /\ \A i \in DOMAIN cs : ClauseFor(fs[i], Range(cs[i]))
GoodWriteWide(f, err, lines, map) ==
  /\ err = ~IsCNFShape(f)
  /\ ~err =>
     LET vs == Vars(f)
         cs == Clauses(lines)
         var == [i \in 1..Len(map) |-> (CHOOSE p \in DOMAIN map : map[p][2] = i)]
         of(x) == IF x > 0 THEN map[var[x]][1] ELSE -map[var[-x]][1] IN
     /\ {map[i][1] : i \in DOMAIN map} = vs /\ Len(map) = Cardinality(vs)
     /\ {map[i][2] : i \in DOMAIN map} = 1..Cardinality(vs)
     /\ IsHeader(lines[1]) /\ Len(SelectSeq(lines, IsHeader)) = 1
     /\ Header(lines)[2] = CNF
     /\ IntOf(Header(lines)[3]) = Cardinality(vs)
     /\ IntOf(Header(lines)[4]) = Len(cs)
     /\ LET c == ClauseLines(lines) IN \A i \in DOMAIN c : Ended(c[i]) /\ AllInts(c[i])
     /\ \A i \in DOMAIN cs : \A j \in DOMAIN cs[i] : Abs(cs[i][j]) \in 1..Cardinality(vs)
     /\ {{of(cs[i][j]) : j \in DOMAIN cs[i]} : i \in DOMAIN cs} = (IF f[1] = 0 THEN {{}} ELSE IF f[1] = 1 THEN {} ELSE LET o == Ops(f, 5) IN {TermLits(o[i]) : i \in DOMAIN o})
(* map: pairs <<variable, number>> *)
GoodWrite(f, err, lines, map, n) ==
  /\ err = ~IsCNFShape(f)
  /\ ~err =>
     LET vs == Vars(f)
         num == [v \in vs |-> (CHOOSE i \in DOMAIN map : map[i][1] = v)]
         of(v) == map[num[v]][2]
         cs == Clauses(lines)
         back == [x \in 1..Cardinality(vs) |-> CHOOSE v \in vs : of(v) = x]
         real == [i \in DOMAIN cs |-> [j \in DOMAIN cs[i] |->
                    IF cs[i][j] > 0 THEN back[cs[i][j]] ELSE -back[-cs[i][j]]]] IN
     /\ {map[i][1] : i \in DOMAIN map} = vs /\ Len(map) = Cardinality(vs)
     /\ {map[i][2] : i \in DOMAIN map} = 1..Cardinality(vs)
     /\ Header(lines) = <<<<"p">>, CNF, Header(lines)[3], Header(lines)[4]>>
     /\ IsHeader(lines[1]) /\ Len(SelectSeq(lines, IsHeader)) = 1
     /\ IntOf(Header(lines)[3]) = Cardinality(vs)
     /\ IntOf(Header(lines)[4]) = Len(cs)
     /\ LET c == ClauseLines(lines) IN \A i \in DOMAIN c : Ended(c[i]) /\ AllInts(c[i])
     /\ \A i \in DOMAIN cs : \A j \in DOMAIN cs[i] : Abs(cs[i][j]) \in 1..Cardinality(vs)
     /\ ModClauses(real, n) = Mod(f, n)

(***************************************************************************)
(* Reading a MaxSAT problem: hard clauses and soft clauses with weights      *)
(***************************************************************************)
Weighted(lines) == Header(lines)[2] = WCNF
WellFormedMax(lines) == LET c == ClauseLines(lines) IN
  \A i \in DOMAIN c : /\ Ended(c[i]) /\ AllInts(c[i])
                      /\ Weighted(lines) => Len(Words(c[i])) > 1
Top(lines) == IF Weighted(lines) /\ Len(Header(lines)) > 4 THEN IntOf(Header(lines)[5]) ELSE -1
Hards(lines) == LET cs == Clauses(lines) IN
  IF ~Weighted(lines) THEN {} ELSE {Tail(cs[i]) : i \in {j \in DOMAIN cs : cs[j][1] = Top(lines)}}
\* sequence of <<weight, clause>>
Softs(lines) == LET cs == Clauses(lines) IN
  IF ~Weighted(lines) THEN [i \in DOMAIN cs |-> <<1, cs[i]>>]
  ELSE LET s == SelectSeq(cs, LAMBDA c : c[1] # Top(lines)) IN [i \in DOMAIN s |-> <<s[i][1], Tail(s[i])>>]
Satisfied(c, a) == \E i \in DOMAIN c : LitTrue(a, c[i])
Cost(lines, a) == LET s == Softs(lines) IN Sum([i \in DOMAIN s |-> IF Satisfied(s[i][2], a) THEN 0 ELSE s[i][1]])
(* costs: what the solver finds for single assignments <<a, satisfiable, optimum>> *)
GoodMax(lines, err, costs, n) ==
  /\ err = ~WellFormedMax(lines)
  /\ ~err => \A k \in DOMAIN costs :
       LET a == costs[k][1]
           ok == \A c \in Hards(lines) : Satisfied(c, a) IN
       /\ costs[k][2] = ok
       /\ ok => costs[k][3] = Cost(lines, a)
=============================================================================
