#!/usr/bin/env python3
"""regenerates known_findings.jsonl: open findings (with "match") and fixed ones"""
import json, re, subprocess
log = dict((m, c) for c, m in (l.split(' ', 1) for l in subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--oneline', '317b5d5..HEAD'], text=True).splitlines()))
OPEN = [
    dict(property='C05', id='aig-equivalence', driver='known_aig',
         what='normalform.AIG((a | b) <=> c) leaves "a | b" inside the second half: the result is no and-inverter graph '
              '(the stable test TestAIGNot expects exactly this result, so it is not repaired)',
         match={'event': [r'"kind":"aig"', re.escape('"f":[8,[6,[2,1],[2,2]],[2,3]]'),
                          re.escape('"g":[5,[4,[5,[4,[5,[3,1],[3,2]]],[3,3]]],[4,[5,[4,[6,[2,1],[2,2]]],[2,3]]]]')]}),
    dict(property='C24', id='minprime-not-cnf', driver='known_minprime',
         what='primeimplicant.Minimum(~a & b | a & b | a & ~b) returns {a, b} instead of {a} or {b}: for formulas which are '
              'not in CNF only implicants that satisfy the formula literally are considered (a repair needs another algorithm)',
         match={'event': [r'"op":"minprime"', r'"lits":\[(1,2|2,1)\]',
                          re.escape('"f":[6,[5,[3,1],[2,2]],[5,[2,1],[2,2]],[5,[2,1],[3,2]]]')]}),
    dict(property='C02', id='text-after-formula', driver='known_trailing',
         what='Parse("a b") returns a and no error: text after a complete formula is ignored (rejecting it breaks the stable tests '
              'TestSolverCallHandler and TestSolverMidFormula, which in this checkout read git-lfs pointer files such as "size 123")',
         match={'event': [r'"op":"text1"', re.escape('"text":["a"," ","b"]'), r'"ok":true', re.escape('"f":[2,1]')]}),
    dict(property='C36', id='negvars-are-literals', driver='known_negvars',
         what='Assignment.NegVars() of the assignment {~a} returns the negative literal ~a cast to a variable instead of the variable a '
              '(documented: "this function return the variables, not the negative literals"); the stable test TestAddLiteral expects the literal, so it is not repaired',
         match={'event': [r'"op":"variables"', r'"fn":"assignment.NegVars"']}),
]
FIXED = [
    ('C07', 'reset the clause in the direct sorter of cardinality networks', 'cardinality networks over three inputs lost or duplicated clauses'),
    ('C07', 'encode at-most constraints with a negative bound as contradiction', 'x + y < 0 was encoded as tautology or panicked'),
    ('C16', 'model iteration with unknown variables, cancellation and overlapping additional variables', 'panic/duplicates/missing models in model iteration'),
    ('C20', 'cancel the SAT solver when the handler stops it at a conflict', 'a handler that stopped at a conflict was ignored'),
    ('C15', 'solve with assumptions without propositions on a proof generating solver', 'backbones and minimization panicked on a solver with proofs'),
    ('C01', 'do not reorder the literals passed to the solver in place', 'adding a formula to a solver reordered the operands stored in the factory'),
    ('C13', 'keep assumptions aligned with their propositions and drop duplicates', 'core named the wrong assumption / duplicate assumptions'),
    ('C12', 'forget decision levels of unassigned variables when a solver state is loaded', 'wrong results after LoadState'),
    ('C33', 'consider all antecedents of at-most clauses in basic clause minimization', 'learnt clause did not follow'),
    ('C13', 'encode cardinality constraints to clauses if proofs are generated', 'core panicked or was satisfiable with native at-most constraints'),
    ('C16', 'keep additional variables out of split assignments and copy their literals per model', 'models of the iteration shared literals / wrong additional variables'),
    ('C13', 'terminate the proof before computing the core of a call with assumptions', 'core computation panicked'),
    ('C13', 'record clauses without duplicate literals for the proof checker', 'core computation panicked with index out of range if an added clause had duplicate literals'),
    ('C01', "do not share the caller's slices in pseudo-Boolean constraints", 'changing the slice passed to fac.PBC changed the stored constraint'),
    ('C23', 'drop tautological clauses before compiling a DNNF', 'DNNF not decomposable and wrong model count in factories that conserve variables'),
    ('C01', "represent 'sum < 0' as cardinality constraint no matter how it is built", 'fac.CC(LT, 0, x, y) and fac.PBC of the same constraint were different formulas'),
    ('C05', 'never negate the clauses of a constraint when building an AIG', 'AIG of a negated constraint had wrong models'),
    ('C23', 'compile DNNFs from a CNF with the same number of models', 'wrong DNNF model count if the factory is configured with Plaisted-Greenbaum CNFs'),
    ('C10', 'at-most clauses on the solver are only used for constraints with distinct literals', 'adding a cardinality constraint with a repeated variable to a solver with at-most clauses panicked'),
    ('C20', 'restore the MaxSAT solver when it is canceled and do not keep the result of a canceled search', 'a MaxSAT solver canceled at the finished event kept its relaxation variables; after any cancellation Solve returned the empty result'),
    ('C19', 'add falsum as empty clause to MaxSAT solvers', 'a hard formula $false was added as the first variable'),
    ('C19', 'do not forbid a literal whose coefficient does not exceed the bound in the MaxSAT weight encoding', 'LinearSU and WMSU3 did not find the optimum or did not terminate'),
    ('C19', "search all weights in the non-incremental WMSU3 and keep the solver's weight for the next search", 'non-incremental WMSU3 with BMO did not terminate; a second search panicked'),
    ('C21', 'do not change cached counts of BDD nodes', 'the second model or path count of a BDD was wrong'),
    ('C21', 'protect restricted and quantified BDDs from garbage collection', 'BDDs returned by Restrict, Exists and ForAll were collected'),
    ('C22', 'keep the references of BDD nodes below other roots when reordering', 'BDDs below other BDDs were collected after a reordering'),
    ('C22', 'restart the negation of a BDD after a reordering', 'negation during an automatic reordering created invalid nodes'),
    ('C22', 'recompute the levels of the quantified variables after a reordering of a BDD kernel', 'restriction and quantification during an automatic reordering dealt with wrong variables'),
    ('C22', 'keep the variables of a block together when a block is moved over variables without a block', 'variables of a block were torn apart'),
    ('C22', 'define variable blocks on a reordered BDD kernel by the levels of their variables', 'adding a block to a reordered kernel panicked or corrupted the order'),
    ('C21', 'represent pseudo-Boolean constraints in BDDs and DNNFs without auxiliary variables', 'compiling a pseudo-Boolean constraint to a BDD panicked or gave a BDD over auxiliary variables; the DNNF had a wrong model count'),
    ('C02', 'report syntax errors before evaluating the parse tree', 'parsing "(" panicked instead of returning an error'),
    ('C02', 'parse numeric variable names in pseudo-Boolean constraints', 'parsing "3 <= 1" panicked, "2*3 <= 1" exchanged coefficient and variable'),
    ('C02', 'return syntax errors when reading formula files', 'ReadFormulas panicked on a malformed line'),
    ('C29', 'MaxSAT reader with comments, blank lines, varying white space and unterminated lines', 'ReadDimacsToSolver failed or lost clauses if a file had comments after the header, blank lines or other white space; a line without the final 0 panicked or lost a literal'),
    ('C31', 'random formulas with at most two operands', 'Randomizer.And/Or panicked with a maximum of two operands'),
    ('C31', 'reproducible variables of random constraints', 'two randomizers with the same seed generated constraints with differently ordered variables'),
    ('C06', 'no auxiliary literal for factorized formulas in a shared PG state', 'with a shared state PGCNF used literal 0 for a formula that had been factorized before: the result was $false for a satisfiable formula'),
    ('C25', 'insertion-based MUS of an empty set of propositions reports that it is satisfiable', 'the empty set was returned as unsatisfiable subset'),
    ('C34', 'the label function of a generator applies to literals in a drawing of the formula as DAG', 'literals in the drawing of a formula as DAG had the default label although a label function was given'),
    ('C20', 'handlers with limits can be used again after they have canceled a computation', 'a handler with limits that had canceled once canceled every later computation'),
    ('C29', 'read long lines of DIMACS files', 'a line of more than 64 KB ended the reading of a MaxSAT file without an error and was an error for a CNF file'),
]
exec(open('/verif/tools/known_more.py').read()) if __import__('os').path.exists('/verif/tools/known_more.py') else None
with open('/verif/known_findings.jsonl', 'w') as fh:
    for d in OPEN:
        fh.write(json.dumps(d) + '\n')
    for p, subj, what in FIXED:
        c = log.pop('fix: ' + subj)
        fh.write(json.dumps(dict(property=p, id='fixed-' + c, fixed='fixed: property=%s %s %s' % (p, c, what))) + '\n')
log = {k: v for k, v in log.items() if k.startswith('fix: ') and 'Revert "%s"' % k not in log}
if log:
    print('not recorded:', log)
