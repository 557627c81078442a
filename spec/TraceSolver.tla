----------------------------- MODULE TraceSolver -----------------------------
(* Explains recorded executions of the real solver by the actions of Solver.  *)
EXTENDS Solver, TraceBase

tvars == <<l, n, M, P, saved>>
Init == TraceInit /\ SolverInit

TBegin == IsEvent("begin") /\ New(e.n)
TAdd == IsEvent("add") /\ Add(e.f)
TConstrain == IsEvent("constrain") /\ Constrain(e.f)
TSave == IsEvent("save") /\ Save
TLoad == /\ IsEvent("load")
         /\ IF e.err THEN LoadRefused(e.i) ELSE Load(e.i)
\* (p) = TRUE: evaluated as one expression instead of being expanded as an action
Query(op, p) == IsEvent(op) /\ (p) = TRUE /\ UNCHANGED svars
TCall == Query("call",
         /\ e.ok => /\ AnswerSat(e.fs, e.sat)
                    /\ e.hasModel <=> (e.sat /\ e.wantModel)
                    /\ e.hasModel => GoodModel(e.model, Range(e.req), CallModels(e.fs))
                    /\ e.hasUp => GoodUpZero(e.up, CallModels(e.fs))
                    /\ e.hasCore <=> (~e.sat /\ e.wantCore)
                    /\ e.hasCore => GoodCore(e.core, e.fs) /\ CoreObjects(e.core, e.own, e.fs) /\ (e.mus => GuaranteedMus(e.core))
         /\ ~e.ok => e.canceled /\ ~e.hasModel /\ ~e.hasCore)
TBackbone == Query("backbone",
             /\ e.ok => (GoodBackbone(e, Range(e.vars), e.kind) /\ BackboneForms(e))
             /\ ~e.ok => e.canceled)
TEnum == Query("enum",
         /\ IF e.ok THEN EnumOK(e.models, e.vars, Range(e.add)) ELSE e.canceled /\ EnumPartial(e.models, e.vars, Range(e.add)))
TCount == Query("count",
          /\ e.ok => e.cnt = ProjCount(e.vars)
          /\ ~e.ok => e.canceled)
TEnumBdd == Query("enumbdd",
            /\ e.ok => /\ Mod(e.f, n) = {a \in Universe[n] : \E b \in M : \A i \in DOMAIN e.vars : Bit(a, e.vars[i]) = Bit(b, e.vars[i])}
                       /\ Vars(e.f) \subseteq Range(e.vars)
            /\ ~e.ok => e.canceled)
TOpt == Query("opt",
        /\ e.ok => /\ e.sat <=> M # {}
                   /\ e.sat => GoodOptimum(e.max, e.lits, Range(e.add), e.model)
        /\ ~e.ok => e.canceled /\ (e.sat => GoodPartialOptimum(e.lits, Range(e.add), e.model)))
(* an intermediate result announced to the handler *)
TBetter == Query("better",
           /\ GoodPartialOptimum(e.lits, Range(e.add), e.model))
TFormulas == Query("formulas", GoodFormulas(e.fs))
(* variable occurrences, compared with the formulas on the solver at that time; *)
(* equal clauses are reported once there                                       *)
RECURSIVE OccIn(_,_)
OccIn(f, v) == CASE f[1] \in {2,3} -> IF f[2] = v THEN 1 ELSE 0
                 [] f[1] \in {0,1} -> 0
                 [] f[1] = 9 -> Cardinality({i \in DOMAIN f[4] : Abs(f[4][i]) = v})
                 [] OTHER -> Sum([i \in 1..(Len(f)-1) |-> OccIn(f[i+1], v)])
TOccs == Query("occs",
         /\ GoodFormulas(e.fs)
         /\ \A i \in DOMAIN e.vars :
               LET occ == Sum([j \in DOMAIN e.fs |-> OccIn(e.fs[j], e.vars[i])])
               IN e.cnt[i] >= occ /\ (occ = 0 => e.cnt[i] = 0)
         /\ IF e.some THEN Range(e.vars) = Range(e.req)
            ELSE UNION {Vars(e.fs[i]) : i \in DOMAIN e.fs} \cap (1..n) \subseteq Range(e.vars))
(* the assignments of 1..n the solver accepts, each asked separately          *)
TModels == Query("models", Range(e.set) = M)
(* white box: a learned clause or permanent literal follows from the content  *)
TLearned == Query("learned",
            /\ \A i \in DOMAIN e.cs : \A a \in M : \E j \in DOMAIN e.cs[i] : LitTrue(a, e.cs[i][j]))

Next == \/ TBegin \/ TAdd \/ TConstrain \/ TSave \/ TLoad \/ TCall \/ TBackbone \/ TEnum
        \/ TCount \/ TEnumBdd \/ TOpt \/ TBetter \/ TFormulas \/ TOccs \/ TLearned \/ TModels
=============================================================================
