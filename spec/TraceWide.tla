------------------------------ MODULE TraceWide ------------------------------
(* Explains recorded computations on formulas over many variables.            *)
EXTENDS Factory, WideProblems, TraceBase

VARIABLE acc   \* shared state of definitional transformations: clauses, formulas
tvars == <<l, fvars, acc>>
NoAcc == [C |-> {}, fs |-> <<>>]
Init == TraceInit /\ FactoryInit /\ acc = NoAcc
Keep == UNCHANGED <<n, mode, memo, acc>>
Pure(op, p) == IsEvent(op) /\ See(e.hs) /\ Keep /\ (p) = TRUE
TBegin == IsEvent("begin") /\ NewFactory(e.n, e.conserve) /\ acc' = NoAcc
TAgain == Pure("again", TRUE)
TCons == /\ IsEvent("cons") /\ See(e.hs)
         /\ WideCons(e.raw, e.res, mode, e.pts) = TRUE
         /\ Recall(e.key, e.h)
         /\ UNCHANGED <<n, mode, acc>>
TEval == Pure("eval", GoodEval(e.f, Range(e.pos), e.b))
TStruct == Pure("struct", GoodStructure(e))
THandle == Pure("handle", GoodHandle(e))
TRestrict == Pure("restrict", WideRestrict(e.f, Range(e.lits), e.g, e.pts))
TNf == Pure("nf", IF e.ok THEN WideNF(e.kind, e.f, e.g, e.pts) ELSE e.canceled)
TDef == Pure("def", WideDef(e.f, e.g, n, e.pts))
TDefAcc == /\ IsEvent("defacc") /\ See(e.hs)
           /\ IsCNFShape(e.g) = TRUE
           /\ acc' = [C |-> acc.C \cup CNFClauses(e.g), fs |-> Append(acc.fs, e.f)]
           /\ WideDefAll(acc'.C, acc'.fs, n, e.pts) = TRUE
           /\ UNCHANGED <<n, mode, memo>>
TSimp == Pure("simp", IF ~e.ok THEN e.canceled
                      ELSE IF e.name = "units" /\ \E v \in Vars(e.g) : v > n THEN WideDef(e.f, e.g, n, e.pts)
                      ELSE /\ Vars(e.g) \subseteq Vars(e.f) /\ Same(e.f, e.g, e.pts)
                           /\ (e.nf = "cnf" => IsCNFShape(e.g)) /\ (e.nf = "dnf" => IsDNFShape(e.g)))
TSubsume == Pure("subsume", IF e.ok THEN IF e.err THEN ~(IF e.kind = "cnf" THEN IsCNFShape(e.f) ELSE IsDNFShape(e.f))
                                         ELSE GoodSubsumption(e.kind, e.f, e.g) /\ SameAt(e.f, e.g, e.pts)
                            ELSE e.canceled)
TSubst == Pure("subst", WideSubst(e.f, e.sub, e.g, e.pts))
TQe == Pure("qe", WideQE(e.ex, e.f, e.vars, e.g, e.pts))
TExpand == Pure("expand", Vars(e.g) \subseteq Vars(e.f) /\ OnlyPlainCC(e.g) /\ Same(e.f, e.g, e.pts))
TEquiv == Pure("equiv", Vars(e.g) \subseteq Vars(e.f) /\ Same(e.f, e.g, e.pts))
TAnon == Pure("anon", NoDup(e.map) /\ SameAt(Rename(e.f, e.map), e.g, e.pts) /\ Vars(e.g) = Vars(Rename(e.f, e.map)))
TCGraph == Pure("cgraph", GoodGraph(e.fs, e.nodes, e.edges) /\ GoodComponents(e.fs, e.comps)
                          /\ (e.split => GoodSplit(e.fs, e.comps, e.groups)))
THyper == Pure("hyper", IF e.err THEN ~(\A i \in DOMAIN e.fs : IsClause(e.fs[i]))
                        ELSE GoodHypergraph(e.fs, e.nodes, e.edges))
TBigCount == Pure("bigcount", (\A i \in DOMAIN e.trees : IsTree(e.trees[i])) /\ GoodBigCount(e.trees, e.vars, e.cnt))
TBigDnnf == Pure("bigdnnf", IsTree(e.tree) /\ GoodBigDnnf(e.tree, e.g, e.cnt, e.k, n, e.pts))
TBigBdd == Pure("bigbdd", IsTree(e.tree) /\ GoodBigBdd(e))
TBigPred == Pure("bigpred", IsTree(e.tree) /\ e.sat = TreeSat(e.tree) /\ e.taut = TreeTaut(e.tree) /\ e.contra = ~TreeSat(e.tree))
TBigPrimes == Pure("bigprimes", IsTree(e.tree) /\ (IF e.ok THEN GoodBigPrimes(e) ELSE e.canceled))
TBigMinPrime == Pure("bigminprime", IsTree(e.tree) /\ GoodBigMinPrime(e))
TBigMus == Pure("bigmus", SmallGroups(e.ps) /\ (IF e.ok THEN GoodBigMus(e.ps, e.err, e.r) /\ (e.flag = ~e.err) ELSE e.canceled))
TBigSmus == Pure("bigsmus", SmallGroups(e.ps \o e.extra) /\ (IF e.ok THEN GoodBigSmus(e.ps, e.extra, e.found, e.r) ELSE e.canceled))
TBigCover == Pure("bigcover", GoodBigCover(e.sets, e.r))
Next == \/ TBegin \/ TAgain \/ TCons \/ TEval \/ TStruct \/ THandle \/ TRestrict \/ TNf \/ TDef \/ TDefAcc \/ TSimp \/ TSubsume \/ TSubst
        \/ TQe \/ TExpand \/ TAnon \/ TCGraph \/ THyper \/ TBigCount \/ TBigDnnf \/ TBigBdd \/ TBigPred \/ TEquiv
        \/ TBigPrimes \/ TBigMinPrime \/ TBigMus \/ TBigSmus \/ TBigCover
=============================================================================
