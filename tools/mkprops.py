import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":list(dict.fromkeys(files)),"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs:a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Factory hash-consing, immutability and meaning-preserving constructors",
"Calling a formula constructor twice with the same arguments on one factory returns the identical formula, and a formula once created never changes its structure or meaning, whatever is created or computed on the factory afterwards. Every constructor returns a formula that is logically equivalent to the operator applied to its operands, even though it flattens, removes duplicates, detects complementary operands and folds constants. In the mode that conserves variables, simplifications that would lose a variable by complementary operands are not applied, and the meaning is still preserved.",
["histories","inputs"],"every sequence of constructor calls with arbitrary operands (constants, duplicates, complementary and nested operands, constraints over empty lists), in both factory modes, on one factory",
"Tests build a few fixed formulas per constructor; hash-consing and condensation depend on the order and combination of operands and on everything the factory has stored so far.",
["formula/factory.go","formula/formula.go","formula/formula.go"],
[("constructors condense operands and look up stored formulas","formula/factory.go And/Or/Not/Implication/Equivalence/CC/PBC"),("type and id are packed in one handle","formula/formula.go")],
[("formula containers","handle to structure","formula/factory.go CachingFactory")],["result handles and operands read back through the factory"])
p("C02","Parsing inverts printing and follows the documented grammar",
"Printing any formula and parsing the text on the same factory yields the identical formula, and on a fresh factory an equivalent one with the same printed text. Parsing any text of the documented grammar (operators, precedences, parentheses, whitespace, constants, pseudo-Boolean constraints) yields a formula with the meaning the grammar gives it, and text outside the grammar is reported as an error. Writing formulas to a file, one per line, and reading them back yields the same formulas.",
["inputs"],"every formula over parsable variable names, every token sequence of the grammar with optional white space and redundant parentheses, every malformed text",
"Tests parse a few dozen fixed strings; precedence, associativity and constraint printing interact in combinations that samples do not reach.",
["parser/LogicNGPropositional.g4","parser/propositional_parser.go","formula/formula.go","formula/printer.go","io/formula_reader.go","io/formula_writer.go"],
[("ANTLR grammar","parser/LogicNGPropositional.g4"),("string representation","formula/ Sprint")],None,["Parse, Sprint, ReadFormula(s), WriteFormula"])
p("C03","Evaluation and restriction agree with propositional semantics",
"Evaluating a formula under an assignment returns its truth value with unassigned variables read as false. Restricting a formula by an assignment yields a formula without the assigned variables that is equivalent to the original whenever the assignment holds. The three-valued checks whether a partial assignment already decides a formula answer true or false only if all extensions agree, and always give that answer when nothing is left unassigned.",
["inputs"],"every formula including cardinality and pseudo-Boolean constraints and every total or partial assignment",
"Tests evaluate a handful of formulas on a handful of assignments; constraints and nested operators under partial assignments have exponentially many cases.",
["assignment/evaluate.go","assignment/restrict.go","assignment/assignment.go","assignment/evaluate_to_constant.go","formula/factory.go"],
[("recursive evaluation and restriction per formula type","assignment/")],None,["Evaluate, Restrict, EvaluatesToTrue, EvaluatesToFalse"])
p("C04","Structural functions describe the formula's syntax tree exactly",
"The set of variables, the set of literals, the depth, the number of atoms and nodes, the sub-formulas, and the variable and literal occurrence counts reported for a formula are exactly those of its syntax tree. The syntactic predicates (negation, conjunctive, disjunctive normal form, and-inverter graph, minterm, maxterm, contains a pseudo-Boolean constraint) hold exactly for formulas of that form. What a formula handle tells about itself (constant, atomic, positive, negated, the literal or variable it is, name and phase, operands) and the variables and literals of several formulas together agree with the syntax trees as well.",
["inputs","histories"],"every formula, in any order of the queries on a factory with any cached state",
"Tests check few formulas; cached results are shared between functions and formulas, so the answer can depend on the history of queries.",
["formula/function.go","formula/formula_depth.go","formula/formula_profile.go","formula/number_of_atoms.go","formula/number_of_nodes.go","formula/subnode.go","formula/factory.go","normalform/term.go","encoding/pbc_encoding.go"],
[("recursive functions with per-factory caches","formula/")],None,["Variables, Literals, Depth, NumberOfAtoms, NumberOfNodes, SubNodes, VariableProfile, LiteralProfile, IsNNF, IsCNF, IsDNF, IsAIG, IsMinterm, IsMaxterm, ContainsPBC"])
p("C05","Equivalent normal forms keep the meaning and have the promised shape",
"Negation normal form, factorized conjunctive and disjunctive normal form, and-inverter graph, the forms extracted from decision diagrams and the canonical forms are in the promised syntactic form and logically equivalent to the input formula. The canonical disjunctive (conjunctive) form contains exactly one full term per model (one full clause per non-model) of the input.",
["inputs","configurations"],"every formula (constraints are encoded with auxiliary variables, then the projection to the original variables counts), every configuration of the normal-form computation",
"Tests check equivalence for a few fixed formulas and shapes.",
["normalform/nnf.go","normalform/cnf.go","normalform/cnf.go","normalform/dnf.go","normalform/aig.go","bdd/normalform.go","model/enum/normalform.go"],
[("recursive transformation with caching","normalform/"),("path enumeration on the decision diagram","bdd/normalform.go"),("canonical forms by model enumeration","model/enum")],None,["results of the transformations"])
p("C06","Definitional CNF has exactly the input's models after projection",
"The Tseitin and Plaisted-Greenbaum transformations return a conjunctive normal form whose models, projected to the original variables, are exactly the models of the input formula, for every factorization boundary. This also holds when several formulas are transformed one after another with a shared auxiliary state or on one factory, and for the conjunction of all of these results. The default conjunctive normal form does so for each of its algorithms and boundaries.",
["inputs","histories","configurations"],"every formula, every boundary and algorithm, every sequence of transformations sharing a state or a factory",
"Tests check equisatisfiability of single formulas with a solver; sharing definitions between several formulas is hardly covered.",
["normalform/cnf.go","normalform/cnf.go","normalform/cnf.go","normalform/cnf.go"],
[("definitions for subformulas shared by state and caches","normalform/")],[("auxiliary state","literal for each defined subformula","normalform CNFAuxState")],["TseitinCNF*, PGCNF*, CNF"])
p("C07","Every cardinality encoding is exact for its constraint",
"For every cardinality constraint and every selectable encoding, the encoded clauses are satisfiable together with an assignment of the constraint's variables exactly if the assignment satisfies the constraint. This holds for encodings to formulas as well as for encodings added directly to a solver, for every number of variables and every bound.",
["inputs","configurations"],"all comparators, all bounds (also trivial and unsatisfiable ones), all numbers of variables, all encodings with sensible parameters",
"Tests count models for a few sizes per encoding; constraint boundaries, powers of two and parameter combinations matter.",
["encoding/cc_encoding.go","encoding/amo.go","encoding/cc_encoding.go","encoding/cc_cardinality_network.go","encoding/cc_totalizer.go","encoding/cc_modular_totalizer.go","encoding/cc_cardinality_network.go"],
[("per-constraint encoders","encoding/cc_*.go"),("result adapters","encoding/result.go")],None,["EncodeCC, Solver.Add"])
p("C08","Tightening an incremental cardinality constraint is exact",
"After an incrementally encoded at-most or at-least constraint has been given any sequence of tighter and tighter bounds, its clauses together with the clauses of the tightenings admit exactly the assignments that satisfy the tightest bound, both as formulas and on a solver. A bound that does not tighten the one in force is rejected.",
["histories","inputs","configurations"],"every decreasing sequence of upper bounds and increasing sequence of lower bounds within the number of variables, for each encoder that supports it",
"Tests step through one sequence for one size; the bound indexing is encoder specific.",
["encoding/cc_incremental_data.go","sat/solver.go"],[("bound literals kept per encoder","encoding/cc_incremental_data.go")],[("incremental data","output literals, current bound","encoding CCIncrementalData")],["NewUpperBound*, NewLowerBound*, AddIncrementalCC"])
p("C09","Pseudo-Boolean encodings, normalization and negation are exact",
"For every pseudo-Boolean constraint and every selectable encoding the encoded clauses are satisfiable together with an assignment of the constraint's variables exactly if the assignment satisfies the constraint. Normalizing or negating a pseudo-Boolean constraint yields a formula equivalent to the constraint or to its negation.",
["inputs","configurations"],"all comparators, positive, negative, zero and repeated coefficients and literals of both signs, all right-hand sides, all encodings and their options",
"Tests use few coefficient vectors; gcd, saturation, sign and duplicate handling have many combinations.",
["encoding/pbc_encoding.go","encoding/pbc_swc.go","encoding/pbc_binary_merge.go","encoding/pbc_adder.go","encoding/normalize.go"],
[("normalization then encoder","encoding/")],None,["EncodePBC, Normalize, NegatePBC, Solver.Add"])
p("C10","SAT solver verdicts and models are correct for every formula and setup",
"After any sequence of added formulas, propositions and constraints the solver answers satisfiable exactly if their conjunction is satisfiable, whatever configuration is used, and repeated calls give the same answer. A returned model assigns only requested variables, among them all requested ones the content depends on, and can be extended to satisfy everything that was added. The derived checks for tautology, contradiction, equivalence and implication agree with propositional semantics.",
["inputs","histories","configurations"],"every sequence of additions and calls, all solver configurations (clause transformation, minimization, initial phase, proof recording, native at-most constraints, low-level settings), small and large formulas",
"Tests run fixed benchmark files under a few configurations; a wrong learned clause or a lost watcher only shows on specific search paths.",
["sat/core.go","sat/solver.go","sat/call.go","sat/config.go","sat/formulas_on_solver.go","sat/predicate.go"],
[("CDCL search with learning, minimization, restarts and clause deletion","sat/core.go"),("clause transformation to the solver","sat/solver.go, sat/pg_on_solver.go")],
[("solver state","clauses, trail, learned clauses, variable names","sat CoreSolver")],["Sat, Call, IsTautology, IsContradiction, IsEquivalent, Implies"])
p("C11","Assumptions and per-call additions never leak into later calls",
"A call with additional literals, variables, formulas or propositions answers for the conjunction of the solver's content and these additions. After the call, with whatever outcome, the solver answers every later query exactly as if that call had not been made.",
["histories","configurations"],"every interleaving of additions and calls with any combination of per-call assumptions and formulas, and any outcome of these calls",
"Tests make one or two calls; leftover trail, learned or top-level state only shows in longer interleavings.",
["sat/call.go","sat/core.go","sat/call.go"],[("assumption literals, and state restore for added formulas","sat/call.go"),("assumption levels","sat/core.go search")],[("assumptions","literals and propositions of the call","sat/core.go")],["Call with parameters, later calls"])
p("C12","Loading a solver state restores it; states are invalidated correctly",
"Loading a saved solver state makes the solver answer every query as it did when the state was saved, independently of what was added, solved, enumerated or optimized since. Loading a state that was invalidated by loading an older state is reported as an error and leaves the solver usable.",
["histories","configurations"],"every nesting and order of save, load, addition and call, on formulas with known and with new variables, in every configuration",
"Tests follow one nesting pattern; what must be undone depends on what happened in between.",
["sat/solver.go","sat/core.go","maxsat/solver.go"],[("save and load of sizes, trail and variable names","sat/core.go SaveState, LoadState")],[("saved states","sizes of the containers at the time of saving","sat SolverState")],["SaveState, LoadState, all queries"])
p("C13","Unsatisfiable cores are unsatisfiable subsets of what was added",
"If a call is unsatisfiable and a core was requested, the returned core consists only of propositions that were added to the solver as propositions or passed with the call (the same objects, so that what is attached to them is found again), and their conjunction is unsatisfiable. A core that is declared to be minimal is minimal. This holds for any mixture of added propositions, assumptions, saved and restored states and repeated calls.",
["inputs","histories","configurations"],"every unsatisfiable history with proof recording on",
"Tests extract cores from fixed instances; the proof bookkeeping depends on the history of additions, calls and restores.",
["sat/unsat_core.go","sat/call.go","sat/proofs.go"],[("proof recording and trimming","sat/core.go, sat/proofs.go")],[("proof","recorded clauses with proposition ids","sat CoreSolver")],["UnsatCore"])
p("C14","Solver introspection reports true facts about the solver content",
"The literals reported as forced at the top level are implied by the solver content. The formulas reported to be on the solver have, projected to the original variables, the same models as the content, and variable occurrence counts only mention variables in the content. The unit-propagation result of a formula is the set of literals obtained by exhaustive unit propagation, and failing propagation implies unsatisfiability.",
["histories","inputs"],"every history of additions, calls, saves and loads before the query",
"Tests query freshly filled solvers.",
["sat/formulas_on_solver.go","sat/solver.go","sat/unit_propagator.go","sat/call.go"],[("reads clauses and trail of the solver","sat/formulas_on_solver.go")],None,["UpZeroLits, FormulasOnSolver, VarOccurrences, UnitPropagator"])
p("C15","Backbones contain exactly the literals every model agrees on",
"The backbone of a satisfiable content restricted to a set of variables contains exactly the variables that are true in all models as positive, those that are false in all models as negative, and all others as optional. Unsatisfiability is reported as such, the requested kind (positive, negative, both) is respected, the backbone as one list or as a formula has exactly these literals, and the solver answers later queries as before.",
["inputs","histories","configurations"],"every content, variable set (also unknown variables), backbone kind and option combination, repeated computation",
"Tests compare against fixed instances; the candidate filtering heuristics have many option combinations.",
["sat/backbone.go","sat/backbone.go","sat/core.go"],[("iterative candidate elimination","sat/core.go computeBackbone")],None,["ComputeBackbone"])
p("C16","Model enumeration yields every projected model exactly once",
"Enumerating models over a set of variables yields each projection of a model to these variables exactly once and nothing else, for every strategy of splitting the search. With additional variables each yielded model can be extended to satisfy the content and assigns each of the additional variables once. Enumeration into a decision diagram represents the same set, and the solver answers later queries as before.",
["inputs","configurations","histories"],"every content, variable set, additional variable set (also overlapping or unknown variables), split strategy and bound, with constraint encodings on the solver",
"Tests check a few formulas; split recursion, blocking clauses and unknown variables interact.",
["model/iter/iteration.go","model/iter/strategy.go","model/enum/enumeration.go","model/enum/enumeration_bdd.go"],[("split recursion with blocking clauses and state restore","model/iter/iteration.go"),("collector","model/enum/enumeration.go")],None,["OnFormula, OnSolver, ToBdd*"])
p("C17","Model counts are exact",
"The model count of a set of formulas over a superset of their variables equals the number of assignments of these variables that satisfy all formulas. Counting by enumeration on a formula or a solver gives the number of different projected models.",
["inputs","configurations"],"every set of formulas, every superset of variables",
"Tests compare few formulas with few methods.",
["model/count/dnnf_counting.go","model/count/sat_counting.go","dnnf/dnnf.go"],[("simplification, component split, decomposition, counting","model/count/dnnf_counting.go")],None,["Count, OnFormula, OnSolver"])
p("C18","Optimization on the solver returns a model with the optimal value",
"Maximizing (minimizing) the number of satisfied literals on a solver returns a model of the content whose number of satisfied literals among the given ones is the largest (smallest) over all models, and reports unsatisfiability exactly if there is no model. The solver answers later queries as before.",
["inputs","histories","configurations"],"every content, literal list (also duplicate, complementary or unknown literals), additional variables, repeated optimization",
"Tests check few instances; the search for the bound uses an incremental constraint and saved states.",
["sat/optimizer_function.go","encoding/cc_incremental_data.go"],[("bound tightening with an incremental constraint","sat/optimizer_function.go")],None,["Maximize, Minimize"])
p("C19","MaxSAT results are optimal for every algorithm and configuration",
"For every set of hard and weighted soft formulas each algorithm reports unsatisfiability exactly if the hard formulas are unsatisfiable, and otherwise the minimal total weight of violated soft formulas together with a model of the hard formulas that attains it. This also holds when more formulas are added after solving, when solving is repeated and when states are saved and loaded.",
["inputs","histories","configurations"],"every hard and soft set and weights, all algorithms and configurations that support them, every history of additions, solves, saves and loads",
"Tests compare to known optima of fixed instances with a single solve.",
["maxsat/solver.go","maxsat/algorithm.go","maxsat/alg_linear_su.go","maxsat/alg_linear_us.go","maxsat/alg_msu3.go","maxsat/alg_wmsu3.go","maxsat/alg_wbo.go","maxsat/alg_incwbo.go","maxsat/alg_oll.go","maxsat/encoder.go"],[("core-guided and linear search","maxsat/alg_*.go"),("soft formula relaxation","maxsat/solver.go")],[("hard and soft formulas, bounds","","maxsat/algorithm.go")],["Solve, AddHardFormula, AddSoftFormula, SaveState, LoadState"])
p("C20","Canceling at any point never yields a wrong result or a damaged solver",
"When a handler stops a computation at any event, the caller learns that it was canceled and gets no result presented as complete, the state returned names an event at which the handler asked to stop (and none if nothing was canceled), and any partial result handed out is correct as far as it goes. When the handler never stops the computation, the result is the same as without a handler. After a cancellation the solver answers all later queries as if the canceled computation had not been started. A handler with a limit on the size of the result cancels exactly the computations that exceed it, each counted on its own.",
["fault_sequences","histories"],"cancellation at every event of solving, assumptions, enumeration, backbone, optimization, MaxSAT, decision diagrams, decomposition, primes, cores, normal forms and simplifiers, followed by any later queries",
"Tests cancel at one or two hand-picked events and check the cancellation flag only.",
["handler/handler.go","event/event.go","sat/core.go","sat/call.go","sat/optimizer_function.go","sat/backbone.go","model/iter/iteration.go","maxsat/solver.go","bdd/construction.go","dnnf/compiler.go","primeimplicant/computation.go","explanation/mus","explanation/smus","simplification/advanced.go","normalform/cnf.go"],[("handler state is checked and propagated by each caller","all of the above")],None,["the handler state and result of every function with a handler, later queries"])
p("C21","Decision diagrams represent their formula canonically under all operations",
"A diagram compiled from a formula, or combined from others by negation, conjunction, disjunction, implication, equivalence, restriction or quantification, represents exactly the resulting Boolean function. Two diagrams on one kernel are the same node exactly if they represent the same function, however much was computed in between. Models, enumerations, model counts, path counts, support, node counts and extracted formulas are those of the represented function.",
["inputs","histories","configurations"],"every sequence of compilations and operations on a kernel, every variable order, node table and cache size",
"Tests use small diagrams that never trigger table growth or garbage collection and few operation sequences.",
["bdd/bdd.go","bdd/construction.go","bdd/operation.go","bdd/kernel.go","bdd/cache.go","bdd/function.go","bdd/node.go","bdd/ordering.go"],[("unique table, operation caches, reference counts and garbage collection","bdd/kernel.go, bdd/cache.go")],[("node table","level, low, high, reference count","bdd/kernel.go")],["BDD methods"])
p("C22","Reordering and swapping variables preserve all diagrams",
"Reordering a kernel by any method, swapping variables, and reordering during construction leave every diagram that is in use representing the same function. The reported variable order is a permutation of the kernel's variables, each diagram respects it, and canonicity still holds afterwards. The variables of a variable block stay together, and neither the variables of a block without child blocks nor the child blocks of a fixed block change their relative order.",
["histories","configurations"],"every sequence of diagrams, reorderings, variable blocks and swaps",
"Tests reorder a few fixed formulas; in-place node rewriting depends on table layout and sharing.",
["bdd/reordering.go","bdd/tree.go","bdd/kernel.go"],[("level swapping in place with reference counts","bdd/reordering.go")],[("variable order","var2level, level2var","bdd/kernel.go")],["Reorder, SwapVariables, variable order, diagrams before and after"])
p("C23","Decomposable negation normal forms are correct, decomposable, deterministic",
"The compiled form of a formula is in negation normal form, the operands of each conjunction share no variable, the operands of each disjunction exclude each other, and it is equivalent to the formula. Its model count is the number of models over the formula's variables.",
["inputs"],"every formula",
"Tests count models of fixed formulas only.",
["dnnf/compiler.go","dnnf/dnnf.go","dnnf/dtree.go","dnnf/dtree_generator.go","sat/dnnf_solver.go"],[("recursive decomposition with component cache and learning","dnnf/compiler.go")],None,["Compile, ModelCount"])
p("C24","Prime implicant covers are prime, complete and correct",
"Each reported prime implicant implies the formula and loses this if any literal is dropped, and their disjunction is equivalent to the formula; dually for prime implicates. The minimum prime implicant implies the formula and no implicant of the formula has fewer literals.",
["inputs","configurations"],"every satisfiable or unsatisfiable formula, both directions of the computation, both cover sorts",
"Tests check a few formulas.",
["primeimplicant/computation.go","primeimplicant/minimum_implicant.go","primeimplicant/computation.go"],[("dual-rail optimization and literal-wise reduction","primeimplicant/")],None,["CoverMin, CoverMax, Minimum"])
p("C25","Minimal unsatisfiable subsets are unsatisfiable and minimal",
"A computed minimal unsatisfiable subset consists of given propositions, is unsatisfiable, and becomes satisfiable when any one is dropped, and it is marked as guaranteed to be minimal. A computed smallest unsatisfiable subset is unsatisfiable together with the additional constraints and no subset with fewer elements is; if there is none, this is reported.",
["inputs"],"every list of formulas, with and without additional constraints",
"Tests check fixed instances.",
["explanation/mus/mus.go","explanation/smus/smus.go"],[("deletion, insertion and hitting-set loops","explanation/")],None,["ComputeDeletionBased, ComputeInsertionBased, smus.Compute*"])
p("C26","Simplifications preserve the meaning of the formula",
"Each simplifier (backbone propagation, unit propagation, distribution, factoring out, negation minimization, subsumption on both normal forms, two-level minimization, the combined advanced simplifier) returns a formula equivalent to its input. Subsumption removes all and only subsumed clauses or terms, and results in a normal form remain in that form.",
["inputs","configurations"],"every formula, every option combination and rating function",
"Tests check a few formulas per simplifier.",
["simplification/advanced.go","simplification/backbone.go","simplification/distribution.go","simplification/factor_out.go","simplification/negation_simplifier.go","simplification/subsumption.go","simplification/advanced.go","simplification/unit_propagation.go"],[("local rewriting and cover computation","simplification/")],None,["results of the simplifiers"])
p("C27","Substitution, anonymization, expansion and elimination are exact",
"Substituting variables by formulas (or literals by literals) simultaneously yields a formula with the truth value of the original under the substituted values. Anonymization is an injective renaming of variables, consistent over several formulas. Expanding at-most-one and exactly-one constraints preserves the meaning without auxiliary variables, and existential (universal) elimination yields the disjunction (conjunction) over all values of the eliminated variables.",
["inputs","histories"],"every formula and substitution (also swapping variables and mapping to formulas with the same variables), every list of eliminated variables",
"Tests check few substitutions.",
["transformation/substitution.go","transformation/literal_substitution.go","transformation/anonymizer.go","transformation/pure_expansion.go","transformation/qe.go"],[("recursive rebuild","transformation/")],None,["results of the transformations"])
p("C28","Constraint graphs, components and hypergraphs mirror variable sharing",
"The constraint graph links exactly the pairs of variables that occur together in one of the formulas. Its connected components partition the variables into the finest independent groups, and splitting formulas by components puts every formula in the group of its variables. The hypergraph of a clause set has one edge per clause with exactly the clause's variables.",
["inputs"],"every list of formulas",
"Tests check fixed graphs.",
["graph/constraint_graph.go","graph/connected_components.go","graph/hypergraph.go","graph/formula_graph.go"],[("traversal","graph/")],None,["GenerateConstraintGraph, ComputeConnectedComponents, SplitFormulasByComponent, HypergraphFromCNF"])
p("C29","DIMACS files are written and read without loss",
"Writing a formula in conjunctive normal form as DIMACS and reading the file yields a clause list with the same meaning under the returned variable numbering, with correct variable and clause numbers in the header. Reading a weighted or unweighted DIMACS file into a MaxSAT solver yields exactly the hard and weighted soft clauses in the file.",
["inputs"],"every conjunctive normal form, every well-formed file of clauses with comments and varying white space",
"Tests read fixed files.",
["io/dimacs_reader.go","io/dimacs_writer.go","maxsat/reader.go"],[("line parsers","io/, maxsat/reader.go")],None,["WriteDimacs, ReadDimacs, ReadDimacsToSolver"])
p("C30","Minimum set covers cover everything with the fewest sets",
"The computed set cover consists of given sets, covers every element that occurs in any of them, and no selection of fewer sets does.",
["inputs"],"every list of sets, also with duplicates, empty sets and a single set",
"Tests check few instances.",
["np/set_cover.go"],[("MaxSAT formulation","np/set_cover.go")],None,["MinimumSetCover"])
p("C31","Random formulas are reproducible and respect their configuration",
"Two randomizers with the same seed and configuration on fresh factories produce the same sequence of formulas. Generated formulas only use the configured number of variables, respect the requested maximal depth and the configured maximal numbers of operands (operands of directly nested conjunctions or disjunctions are merged by the factory), and contain no formula type whose weight is zero unless that type was asked for.",
["inputs","configurations","histories"],"every seed, configuration and sequence of requests",
"Tests check statistical frequencies of one seed.",
["randomizer/formula_randomizer.go"],[("weighted random choice from one seeded source","randomizer/")],None,["Formula, And, Or, CC, PBC, ConstraintSet, ..."])
p("C32","Results never depend on what was computed before on the factory",
"Every computation on a formula gives a correct result whatever other computations, on this or on other formulas, were run before on the same factory. In particular cached intermediate results of one function are never mistaken for those of another function, formula, or configuration, and inputs passed by the caller are left unchanged.",
["histories"],"every sequence of different computations on shared formulas of one factory",
"Tests use a new factory for nearly every computation.",
["formula/factory.go","formula/factory.go","normalform","encoding","simplification","transformation","bdd/kernel.go"],[("caches keyed by function sort and formula","formula/factory.go")],[("function, predicate and transformation caches","","formula/factory.go")],["results of all functions after arbitrary histories"])
p("C33","Every clause the solver learns follows from its content",
"Each clause the SAT solver derives while solving, under any configuration and with any assumptions, is a logical consequence of the constraints added so far, and each literal it fixes permanently is implied by them. This holds after any interleaving of additions, calls with assumptions, and saved and restored states.",
["histories","configurations","inputs"],"every search path of the solver, all minimization, restart and deletion settings",
"Tests only look at the final verdict; an unsound learned clause can stay without effect on the sampled instances.",
["sat/core.go"],[("conflict analysis and clause minimization","sat/core.go analyze, simplifyClause")],[("learned clauses, level-zero trail","","sat/core.go")],["learned clauses and top-level trail of the core solver (read by an in-package overlay)"],"in-package accessor supplied by a build overlay, no change to the repository")
p("C34","Drawings show exactly the formula, graph or diagram",
"The Dot and Mermaid text generated for a formula (as tree or as DAG), for a constraint graph or for a decision diagram describes exactly the nodes and edges of the drawn object: read back it is the same formula, graph or Boolean function, with the negative and positive branches of a diagram told apart. Every node has one identifier, labels and styles given by the caller are used for exactly the nodes and edges they were given for, and writing to a file gives the same text.",
["inputs","configurations"],"every formula, graph and diagram, every style and label function, both languages",
"Tests compare the text for a few objects with stored files.",
["formula/graphical.go","bdd/graphical.go","graph/graphical.go","graphical/dot_writer.go","graphical/mermaid_writer.go","graphical/generator.go"],[("traversal of the drawn object","*/graphical.go"),("text writers","graphical/")],None,["generated Dot and Mermaid text"])
p("C35","Sets of variables, literals and formulas behave like sets with sorted content",
"Immutable and mutable sets of variables, literals or formulas contain exactly the elements they were built from or that were added and not removed. Their content lists each element once in ascending order, and size, emptiness and containment of elements or of other sets agree with mathematical sets. Adding to or removing from a set never changes another set that was built from it or that it was built from.",
["histories","inputs"],"every sequence of set constructions, additions, removals and queries",
"Tests use a few small sets; the cached sorted content must stay in step with the elements over every history.",
["formula/set.go"],[("map with sorted content","formula/set.go")],[("elements and content","","formula/set.go")],["VarSet, LitSet, FormulaSet, Mutable*"])
p("C36","Assignments and models record exactly the literals they were given",
"An assignment contains exactly the literals added to it, refuses a literal whose complement it already contains with an error and is then unchanged, and every view of it agrees: positive and negative variables, size, text sorted by variable name, evaluation and restriction. A model lists its literals in order of addition and its views and its formula agree with that list. Converting models to assignments and back keeps the literals, and changing one object never changes another.",
["histories","inputs"],"every sequence of constructions, additions, conversions and queries, variables created in any order",
"Tests use a handful of literals and compare few views with each other.",
["assignment/assignment.go","model/model.go"],[("phases of literals in the assignment","assignment/assignment.go"),("model as list of literals","model/model.go")],[("positive and negative literals","","assignment/assignment.go")],["Assignment, Model"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import os
for x in P:
    for fl in x["anchors"]["files"]:
        if not os.path.exists('/repo/'+fl): print(x["id"],fl)
