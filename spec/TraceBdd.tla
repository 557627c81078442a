------------------------------ MODULE TraceBdd ------------------------------
(* Explains recorded executions of the real decision diagrams by Bdd.         *)
EXTENDS Bdd, TraceBase
Init == TraceInit /\ BddInit

\* = TRUE: evaluated as one expression, not expanded as an action
Query(p) == (p) = TRUE /\ UNCHANGED bvars
TBegin == IsEvent("begin") /\ New(e.n)
TKernel == IsEvent("kernel") /\ MakeKernel(e.cap, e.names)
TAlone == IsEvent("alone") /\ IF e.ok THEN CompileAlone(e.f, e.given, e.ord, e.idx) ELSE e.canceled /\ UNCHANGED bvars
TCompile == /\ IsEvent("compile")
            /\ IF e.ok THEN CompileOn(e.k, e.f, e.ord, e.idx) ELSE e.canceled /\ Canceled(e.k, Vars(e.f), e.ord)
TLiterals == /\ IsEvent("literals") /\ GoodOrder(e.k, {Abs(x) : x \in Range(e.ls)}, e.ord)
             /\ Add(e.k, Agreeing(Range(e.ls), n), e.idx, e.ord)
TNegate == IsEvent("negate") /\ Negate(e.i, e.ord, e.idx)
TCombine == IsEvent("combine") /\ Combine(e.kind, e.i, e.j, e.ord, e.idx)
TRestrict == IsEvent("restrict") /\ Restrict(e.i, e.ls, e.ord, e.idx)
TExists == IsEvent("exists") /\ Exists(e.i, e.vs, e.ord, e.idx)
TForAll == IsEvent("forall") /\ ForAll(e.i, e.vs, e.ord, e.idx)
TSwap == IsEvent("swap") /\ IF e.err THEN SwapRefused(e.k, e.v, e.w) ELSE Swap(e.k, e.v, e.w, e.ord)
TReorder == IsEvent("reorder") /\ Reorder(e.k, e.ord)
TAutoReorder == IsEvent("autoreorder") /\ AutoReorder(e.k, e.ord)
TBlock == IsEvent("block") /\ AddBlock(e.k, e.first, e.last, e.fixed)
TAllBlocks == IsEvent("allblocks") /\ AllBlocks(e.k)
TActivate == IsEvent("activate") /\ Activate(e.k, e.on)

TConst == IsEvent("const") /\ Query((e.taut <=> D[e.i].mods = Universe[n]) /\ (e.contr <=> D[e.i].mods = {}))
TCount == IsEvent("count") /\ Query(GoodCount(e.i, e.c))
TPaths == IsEvent("paths") /\ Query(GoodPaths(e.i, e.one, e.zero))
TNodes == IsEvent("nodes") /\ Query(GoodNodes(e.i, e.count, e.profile))
TSupport == IsEvent("support") /\ Query(GoodSupport(e.i, e.vs))
TEnum == IsEvent("enum") /\ Query(GoodEnumeration(e.i, e.vs, e.ms))
TFormula == IsEvent("formula") /\ Query(GoodFormula(e.i, e.f))
TCnf == IsEvent("cnf") /\ Query(GoodCNF(e.i, e.f, e.cl))
TDnf == IsEvent("dnf") /\ Query(GoodDNF(e.i, e.f))
TModel == /\ IsEvent("model")
          /\ Query(CASE e.kind = 0 -> GoodModel(e.i, e.err, e.ls)
                     [] e.kind = 1 -> GoodModelWith(e.i, e.vs, e.dflt, e.err, e.ls)
                     [] e.kind = 2 -> GoodFullModel(e.i, e.err, e.ls))
TGraph == IsEvent("graph") /\ Query(GoodGraph(e.i, e.g, e.root))
\* a drawing of the diagram
TDraw == IsEvent("draw")
  /\ Query(/\ e.bad = 0 /\ e.same
           /\ GoodGraph(e.i, e.g, e.root) /\ Len(e.g) = Cardinality(Nodes(D[e.i].mods, Levels(K[D[e.i].k].ord)))
           /\ (e.zero <=> D[e.i].mods # Universe[n]) /\ (e.one <=> D[e.i].mods # {}))
TOrder == IsEvent("order") /\ Query(GoodOrder(D[e.i].k, {}, e.ord) /\ (~K[D[e.i].k].auto => e.ord = K[D[e.i].k].ord))
\* a variable order computed for a formula
TVarOrder == IsEvent("varorder") /\ Query(NoDup(e.ord) /\ Range(e.ord) = Vars(e.f))
Next == \/ TBegin \/ TKernel \/ TAlone \/ TCompile \/ TLiterals \/ TNegate \/ TCombine \/ TRestrict \/ TExists \/ TForAll
        \/ TSwap \/ TReorder \/ TAutoReorder \/ TBlock \/ TAllBlocks \/ TActivate
        \/ TConst \/ TCount \/ TPaths \/ TNodes \/ TSupport \/ TEnum \/ TFormula \/ TCnf \/ TDnf \/ TModel \/ TGraph \/ TDraw
        \/ TOrder \/ TVarOrder
=============================================================================
