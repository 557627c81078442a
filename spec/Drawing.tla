------------------------------ MODULE Drawing -------------------------------
(***************************************************************************)
(* Drawings of formulas and graphs: a picture is a sequence of nodes          *)
(* [id, label, shape, stroke, text, back, term] and a sequence of edges       *)
(* [s, d, label, type, color], as read back from the Dot or Mermaid text.     *)
(* A picture is right if the formula can be read off it: as a tree, with one  *)
(* node per occurrence, or with one node per distinct subformula.             *)
(***************************************************************************)
EXTENDS Syntax, TLC

Two(v) == IF v < 10 THEN "0" \o ToString(v) ELSE ToString(v)
VarName(v) == "v" \o Two(v)
LitName(x) == IF x > 0 THEN VarName(x) ELSE "~" \o VarName(-x)
(* operands in the order in which they are drawn                             *)
Kids(f) == CASE f[1] \in {0, 1, 2, 3} -> <<>>
             [] f[1] = 9 -> [i \in DOMAIN f[4] |-> IF f[4][i] > 0 THEN <<2, f[4][i]>> ELSE <<3, -f[4][i]>>]
             [] OTHER -> [i \in 1..(Len(f)-1) |-> f[i+1]]
Printed(prints, f) == prints[CHOOSE i \in DOMAIN prints : prints[i][1] = f][2]
LabelOf(mode, prints, f) ==
  IF mode = "own" THEN "n" \o ToString(f[1]) \o (IF IsLit(f) THEN LitName(LitOf(f)) ELSE "")
  ELSE CASE f[1] = 0 -> "$false" [] f[1] = 1 -> "$true" [] IsLit(f) -> LitName(LitOf(f))
         [] f[1] = 4 -> "~" [] f[1] = 5 -> "&" [] f[1] = 6 -> "|" [] f[1] = 7 -> "=>" [] f[1] = 8 -> "<=>"
         [] f[1] = 9 -> Printed(prints, f)
EdgeLabel(f, i) == IF f[1] = 7 THEN IF i = 1 THEN "l" ELSE "r" ELSE ""

(* styles: shape 0 default, 1 rectangle, 2 ellipse, 3 circle;                *)
(* edge type 0 default, 1 solid, 2 dotted, 3 bold                            *)
Colors == <<"", "#ea2027", "#009432">>
NodeStyle(st, f) == LET t == f[1] IN
  CASE st.mode = "none" -> <<0, "", "", "">>
    [] st.mode = "fixed" -> st.node
    [] st.mode = "own" -> <<t % 4, Colors[(t % 3) + 1], Colors[((t+1) % 3) + 1], Colors[((t+2) % 3) + 1]>>
EdgeStyle(st, f, g) == LET a == f[1] b == g[1] IN
  CASE st.mode = "none" -> <<0, "">>
    [] st.mode = "fixed" -> st.edge
    [] st.mode = "own" -> <<(a + 2*b) % 4, Colors[((a + b) % 3) + 1]>>
Shown(fmt, s) == IF fmt = "mermaid" /\ s[1] = 0 THEN <<2, s[2], s[3], s[4]>> ELSE s
StyleAt(x) == <<x.shape, x.stroke, x.text, x.back>>

NodeAt(p, id) == p.nodes[CHOOSE i \in DOMAIN p.nodes : p.nodes[i].id = id]
Out(p, id) == SelectSeq(p.edges, LAMBDA x : x.s = id)
In(p, id) == SelectSeq(p.edges, LAMBDA x : x.d = id)
RECURSIVE Reads(_,_,_)
(* the formula f can be read off the picture at the node id                  *)
Reads(p, id, f) ==
  LET x == NodeAt(p, id) o == Out(p, id) k == Kids(f) IN
  /\ x.label = LabelOf(p.lab, p.prints, f)
  /\ StyleAt(x) = Shown(p.fmt, NodeStyle(p.st, f))
  /\ p.aligned => (x.term <=> k = <<>>)
  /\ Len(o) = Len(k)
  /\ \A i \in DOMAIN k : /\ o[i].label = EdgeLabel(f, i)
                         /\ <<o[i].type, o[i].color>> = EdgeStyle(p.st, f, k[i])
                         /\ Reads(p, o[i].d, k[i])
Frame(p, directed) ==
  /\ p.bad = 0 /\ p.same
  /\ NoDup([i \in DOMAIN p.nodes |-> p.nodes[i].id])
  /\ {p.edges[i].s : i \in DOMAIN p.edges} \cup {p.edges[i].d : i \in DOMAIN p.edges} \subseteq {p.nodes[i].id : i \in DOMAIN p.nodes}
  /\ p.nodirection \/ p.directed = directed   \* no edge, no direction
  /\ p.fmt = "dot" => p.back = p.wantback /\ p.aligned = p.wantaligned
RECURSIVE TreeSize(_), AllSubs(_)
TreeSize(f) == 1 + Sum([i \in DOMAIN Kids(f) |-> TreeSize(Kids(f)[i])])
AllSubs(f) == {f} \cup UNION {AllSubs(Kids(f)[i]) : i \in DOMAIN Kids(f)}
GoodDrawing(p, kind, f) ==
  LET roots == {p.nodes[i].id : i \in DOMAIN p.nodes} \ {p.edges[i].d : i \in DOMAIN p.edges} IN
  /\ Frame(p, TRUE)
  /\ Cardinality(roots) = 1
  /\ Len(p.nodes) = (IF kind = "tree" THEN TreeSize(f) ELSE Cardinality(AllSubs(f)))
  /\ kind = "tree" => \A i \in DOMAIN p.nodes : Len(In(p, p.nodes[i].id)) <= 1
  /\ Reads(p, CHOOSE r \in roots : TRUE, f)

(* an undirected graph: every pair of neighbours is drawn once               *)
GoodGraphDrawing(p, fs) ==
  LET lab(id) == NodeAt(p, id).label
      V == UNION {Vars(fs[i]) : i \in DOMAIN fs}
      name(v) == IF p.lab = "own" THEN "n2" \o VarName(v) ELSE VarName(v)
      pairs == [i \in DOMAIN p.edges |-> {lab(p.edges[i].s), lab(p.edges[i].d)}] IN
  /\ Frame(p, FALSE)
  /\ NoDup([i \in DOMAIN p.nodes |-> p.nodes[i].label])
  /\ {p.nodes[i].label : i \in DOMAIN p.nodes} = {name(v) : v \in V}
  /\ NoDup(pairs)
  /\ Range(pairs) = UNION {{{name(x), name(y)} : x \in Vars(fs[i]), y \in Vars(fs[i])} : i \in DOMAIN fs} \ {{name(v)} : v \in V}
  /\ \A i \in DOMAIN p.nodes : StyleAt(p.nodes[i]) = Shown(p.fmt, NodeStyle(p.st, <<2, 1>>))
  /\ \A i \in DOMAIN p.edges : <<p.edges[i].type, p.edges[i].color>> = EdgeStyle(p.st, <<2, 1>>, <<2, 1>>) /\ p.edges[i].label = ""
=============================================================================
