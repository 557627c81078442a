---------------------------- MODULE TraceGrammar -----------------------------
(* Explains recorded parsing, printing, writing and reading by Grammar.       *)
EXTENDS Grammar, TraceBase
VARIABLE names  \* the names of the variables 1, 2, ..
gvars == <<names>>
Init == TraceInit /\ names = <<>>
Query(p) == (p) = TRUE /\ UNCHANGED gvars

MaxVars == 9
Max0(set) == IF set = {} THEN 0 ELSE CHOOSE x \in set : \A y \in set : y <= x
\* g over the known variables and the others, named ext, means the same as tree
SameMeaning(g, ext, tree, all) ==
  LET to == [k \in 1..(Len(names) + Len(ext)) |->
              IF k <= Len(names) THEN k ELSE Index(all, ext[k - Len(names)])]
      h == Renamed(g, to)
      used == Vars(tree)
      \* only the variables in use, renumbered
      rank == [v \in used |-> Cardinality({w \in used : w <= v})]
      n == Cardinality(used) IN
  /\ Vars(h) \subseteq used
  /\ n <= MaxVars => Mod(Renamed(h, rank), n) = Mod(Renamed(tree, rank), n)
\* a text was parsed: a formula with its meaning, or an error
GoodParse(text, ok, f, ext) ==
  LET all == AllNames(text, names)
      tree == Parse(text, all) IN
  /\ ok <=> tree # <<>>
  /\ ok => /\ \A i \in DOMAIN ext : ext[i] \in Range(all)
           /\ SameMeaning(f, ext, tree, all)
\* KNOWN FINDING text-after-formula: text after a complete formula is ignored
\* (text1 is the event for the listed input, it has to be an error)
IgnoresRest(text, ok, f, ext) ==
  LET all == AllNames(text, names)
      tree == ParsePrefix(text, all) IN
  /\ tree # <<>>
  /\ ok => (\A i \in DOMAIN ext : ext[i] \in Range(all)) /\ SameMeaning(f, ext, tree, all)
\* a printed formula: its text denotes exactly this formula, parsing gives the
\* formula back (same), and elsewhere an equivalent one that prints alike
\* (on a factory that simplifies in the same way)
GoodPrint(f, text, same, like, text2, f2) ==
  /\ Parse(text, names) = f
  /\ same
  /\ like => text2 = text /\ Vars(f2) = Vars(f)
  /\ SameMeaning(f2, <<>>, f, names)
\* a formula written to a file and read: the file has the formula, or its
\* conjuncts one per line; reading the file gives them back
GoodFile(f, split, lines, back, same) ==
  LET parts == IF split /\ f[1] = 5 THEN Tail(f) ELSE <<f>> IN
  /\ Len(lines) = Len(parts)
  /\ \A i \in DOMAIN parts : Parse(lines[i], names) = parts[i]
  /\ back = parts
  /\ same
\* a file of texts, one per line
GoodRead(lines, err, err2, back) ==
  (\E i \in DOMAIN lines : Trailing(lines[i], names)) \/
  /\ err = (\E i \in DOMAIN lines : ~InLanguage(lines[i], names))
  /\ err2 = err
  /\ ~err => /\ Len(back) = Len(lines)
             /\ \A i \in DOMAIN lines : LET all == AllNames(lines[i], names) IN
                  SameMeaning(back[i], <<>>, Parse(lines[i], all), all)

TBegin == IsEvent("begin") /\ names' = e.names
TText == IsEvent("text") /\ Query(IF Trailing(e.text, names) THEN IgnoresRest(e.text, e.ok, e.f, e.ext)
                                  ELSE GoodParse(e.text, e.ok, e.f, e.ext))
TText1 == IsEvent("text1") /\ Query(GoodParse(e.text, e.ok, e.f, e.ext))
TPrint == IsEvent("print") /\ Query(GoodPrint(e.f, e.text, e.same, e.like, e.text2, e.f2))
TFile == IsEvent("file") /\ Query(GoodFile(e.f, e.split, e.lines, e.back, e.same))
TRead == IsEvent("read") /\ Query(GoodRead(e.lines, e.err, e.err2, e.back))
Next == TBegin \/ TText1 \/ TText \/ TPrint \/ TFile \/ TRead
=============================================================================
