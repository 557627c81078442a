---------------------------- MODULE TraceFormula ----------------------------
(* Explains recorded computations on formulas of one factory.  Every event     *)
(* carries in hs the handles and trees of the formulas it touched; they must   *)
(* agree with the immutable table of the factory (Factory.tla), and the result *)
(* must satisfy the function's contract (Contracts.tla), whatever came before. *)
EXTENDS Factory, Contracts, Drawing, TraceBase

VARIABLE acc   \* shared state of definitional transformations: [C, M, D]
tvars == <<l, fvars, acc>>
NoAcc == [C |-> {}, M |-> {}]
Init == TraceInit /\ FactoryInit /\ acc = NoAcc

Same == UNCHANGED <<n, mode, memo, acc>>
\* (p) = TRUE: evaluated as one expression instead of being expanded as an action
Pure(op, p) == IsEvent(op) /\ See(e.hs) /\ Same /\ (p) = TRUE
Done == e.ok
Stopped == ~e.ok /\ e.canceled

TBegin == IsEvent("begin") /\ NewFactory(e.n, e.conserve) /\ acc' = [C |-> {}, M |-> Universe[e.n]]
TAgain == Pure("again", TRUE)
TCons == /\ IsEvent("cons") /\ See(e.hs)
         /\ Cons(e.key, e.raw, e.res, e.h)
         /\ UNCHANGED <<n, mode, acc>>
TEval == Pure("eval", GoodEval(e.f, Range(e.pos), e.b))
TRestrict == Pure("restrict", GoodRestrict(e.f, Range(e.lits), e.g, n))
TDecide == Pure("decide", GoodDecide(e.f, Range(e.lits), e.kind, e.b, n))
TStruct == Pure("struct", GoodStructure(e))
THandle == Pure("handle", GoodHandle(e))
TNf == Pure("nf", (IF e.ok THEN GoodNF(e.kind, e.f, e.g, n) ELSE e.canceled))
TNfAux == Pure("nfaux", (IF e.ok THEN GoodNFAux(e.kind, e.f, e.g, n, e.n2) ELSE e.canceled))
TDef == Pure("def", GoodDef(e.f, e.g, n))
(* a transformation with shared state: exact alone and together               *)
TDefAcc == /\ IsEvent("defacc") /\ See(e.hs)
           /\ IsCNFShape(e.g) = TRUE
           /\ acc' = [C |-> acc.C \cup CNFClauses(e.g), M |-> acc.M \cap Mod(e.f, n)]
           /\ (ProjModels(acc'.C, n) = acc'.M) = TRUE
           /\ UNCHANGED <<n, mode, memo>>
TCount == Pure("count", (IF e.ok THEN GoodCount(e.fs, e.vars, e.cnt, n) ELSE e.canceled))
TDnnf == Pure("dnnf", (IF e.ok THEN GoodDnnf(e.f, e.g, e.cnt, n) ELSE e.canceled))
TPrimes == Pure("primes", (IF e.ok THEN GoodPrimes(e.f, e.imps, e.cates, e.implicants, n) ELSE e.canceled))
TMinPrime == Pure("minprime", (IF e.err THEN Mod(e.f, n) = {} ELSE GoodMinPrime(e.f, e.lits, e.kind, n)))
TMus == Pure("mus", IF e.ok THEN IF e.err THEN ModSeq(e.ps, n) # {} ELSE GoodMus(e.ps, e.r, n) /\ e.flag
                    ELSE e.canceled)
TSmus == Pure("smus", (IF e.ok THEN GoodSmus(e.ps, e.extra, e.found, e.r, n) ELSE e.canceled))
TSimp == Pure("simp", (IF ~e.ok THEN e.canceled
                          ELSE IF e.name = "units" /\ \E v \in Vars(e.g) : v > n
                          THEN GoodDef(e.f, e.g, n) \* the CNF needed auxiliary variables
                          ELSE /\ Vars(e.g) \subseteq Vars(e.f) /\ Equiv(e.f, e.g, n)
                               /\ (e.nf = "cnf" => IsCNFShape(e.g)) /\ (e.nf = "dnf" => IsDNFShape(e.g))))
TSubsume == Pure("subsume", (IF e.ok THEN IF e.err THEN ~(IF e.kind = "cnf" THEN IsCNFShape(e.f) ELSE IsDNFShape(e.f))
                                             ELSE GoodSubsumption(e.kind, e.f, e.g) /\ Equiv(e.f, e.g, n)
                                ELSE e.canceled))
TSubst == Pure("subst", GoodSubst(e.f, e.sub, e.g, n))
TQe == Pure("qe", GoodQE(e.ex, e.f, e.vars, e.g, n))
TExpand == Pure("expand", GoodExpand(e.f, e.g, n))
TAnon == Pure("anon", NoDup(e.map) /\ Equiv(Rename(e.f, e.map), e.g, n)
                      /\ Vars(e.g) = Vars(Rename(e.f, e.map)))
TCGraph == Pure("cgraph", GoodGraph(e.fs, e.nodes, e.edges) /\ GoodComponents(e.fs, e.comps)
                          /\ (e.split => GoodSplit(e.fs, e.comps, e.groups)))
TDraw == Pure("draw", GoodDrawing(e, e.kind, e.f))
TDrawGraph == Pure("drawgraph", GoodGraphDrawing(e, e.fs))
TLimits == Pure("limits", /\ e.ok <=> WithinLimits(e)
                          /\ e.ok => Equiv(e.f, e.g, n) /\ IF e.kind = "cnf" THEN IsCNFShape(e.g) ELSE IsDNFShape(e.g))
THyper == Pure("hyper", (IF e.err THEN ~(\A i \in DOMAIN e.fs : IsClause(e.fs[i]))
                            ELSE GoodHypergraph(e.fs, e.nodes, e.edges)))
TCover == Pure("cover", GoodCover(e.sets, e.r))
(* normalization and negation of constraints, and other equivalences           *)
TEquiv == Pure("equiv", Vars(e.g) \subseteq Vars(e.f) /\ Equiv(e.f, e.g, n))
(* a definite answer about formulas                                             *)
TPred == Pure("pred", e.b = CASE e.kind = "sat" -> Mod(e.f, n) # {}
                                 [] e.kind = "taut" -> Mod(e.f, n) = Universe[n]
                                 [] e.kind = "contra" -> Mod(e.f, n) = {}
                                 [] e.kind = "equiv" -> Mod(e.f, n) = Mod(e.g, n)
                                 [] e.kind = "implies" -> Mod(e.f, n) \subseteq Mod(e.g, n))
TEnum == Pure("enum", LET M == ModSeq(<<e.f>>, n) IN
            IF e.ok THEN (\A i \in DOMAIN e.models : NoDup(e.models[i]) /\ Consistent(Range(e.models[i]))
                                                  /\ {Abs(x) : x \in Range(e.models[i])} = Range(e.vars))
                      /\ LET ps == [i \in DOMAIN e.models |-> ProjA(CHOOSE a \in Agreeing(Range(e.models[i]), n) : TRUE, e.vars, 1)]
                         IN NoDup(ps) /\ Range(ps) = ProjSet(M, e.vars)
            ELSE e.canceled)
TEnumBdd == Pure("enumbdd", IF e.ok THEN LET P == ProjSet(ModSeq(<<e.f>>, n), e.vars)
                                             G == Mod(e.g, n)
                                    IN /\ Vars(e.g) \subseteq Range(e.vars)
                                       /\ G = {a \in Universe[n] : ProjA(a, e.vars, 1) \in P}
                            ELSE e.canceled)
(* constraints: clauses with auxiliary variables                               *)
TEnc == Pure("enc", (\A i \in DOMAIN e.cs : IsClause(e.cs[i]))
                    /\ ProjModels(UNION {CNFClauses(e.cs[i]) : i \in DOMAIN e.cs}, n) = Mod(e.f, n))
Next == \/ TBegin \/ TAgain \/ TCons \/ TEval \/ TRestrict \/ TDecide \/ TStruct \/ THandle \/ TNf \/ TNfAux \/ TDef \/ TDefAcc
        \/ TCount \/ TDnnf \/ TPrimes \/ TMinPrime \/ TMus \/ TSmus \/ TSimp \/ TSubsume \/ TSubst \/ TQe
        \/ TExpand \/ TAnon \/ TDraw \/ TDrawGraph \/ TLimits \/ TCGraph \/ THyper \/ TCover \/ TEquiv \/ TPred \/ TEnum \/ TEnumBdd \/ TEnc
=============================================================================
