"""What runs for each property: random/replayed episodes of the real code
(driver) checked by TLC against a trace specification (module), and models
checked by TLC on their own or used to generate behaviours."""


def job(driver, module, quick, thorough=None, **kw):
    d = dict(driver=driver, module=module, quick=quick, thorough=thorough or quick * 20)
    d.update(kw)
    return d


F = 'TraceFormula'
S = 'TraceSolver'
E = 'TraceEncoding'
X = 'TraceMaxSat'
B = 'TraceBdd'
G = 'TraceGrammar'
D = 'TraceDimacs'
L = 'TraceLarge'
H = 'TraceMatching'
R = 'TraceRandomizer'
W = 'TraceWide'
ALL = 10 ** 9  # all behaviours the generator wrote


def gen(name, **kw):
    """a model whose behaviours are written to a file and replayed on the real code"""
    return dict(name=name, module=name, gen=True, workers=1, args=['-seed', '$SEED'], **kw)


def sim(name, num, depth):
    """random behaviours of a model (TLC simulation), replayed on the real code"""
    return dict(name=name, module=name, gen=True, workers=1, simulate=num, depth=depth)


CHECKS = {
    'C01': dict(jobs=[job('factory', F, 3200), job('wide_cons', W, 800)]),
    'C02': dict(models=[gen('GenGrammar')],
                jobs=[job('parse', G, 2400), job('print', G, 2400), job('parse_gen', G, ALL, ALL, gen='GenGrammar'), job('known_trailing', G, 1, 1)]),
    'C03': dict(models=[gen('GenFormula')], jobs=[job('eval', F, 3200), job('wide_struct', W, 800), job('gf_struct', F, ALL, ALL, gen='GenFormula')]),
    'C04': dict(models=[gen('GenFormula')], jobs=[job('struct', F, 3200), job('wide_struct', W, 800), job('gf_struct', F, ALL, ALL, gen='GenFormula')]),
    'C05': dict(models=[gen('GenFormula')], jobs=[job('nf', F, 4000), job('known_aig', F, 1, 1), job('wide_nf', W, 1600, soft=True, eptimeout=30), job('gf_nf', F, ALL, ALL, gen='GenFormula')]),
    'C06': dict(models=[gen('GenFormula')], jobs=[job('def', F, 9600), job('wide_def', W, 1600, soft=True, eptimeout=30), job('gf_def', F, ALL, ALL, gen='GenFormula')]),
    'C07': dict(models=[gen('GenEncoding')],
                jobs=[job('enc_gen', E, ALL, ALL, gen='GenEncoding'), job('enc_solver_gen', S, ALL, ALL, gen='GenEncoding'),
                      job('enc_multi', E, 3200), job('cc_wide', E, 4000)]),
    'C08': dict(models=[gen('GenIncremental')],
                jobs=[job('inc_gen', E, ALL, ALL, gen='GenIncremental'), job('inc_solver_gen', S, ALL, ALL, gen='GenIncremental'),
                      job('solver_inc', S, 1600), job('inc_wide', E, 2400)]),
    'C09': dict(models=[gen('GenPbc')],
                jobs=[job('pbc_gen', E, ALL, ALL, gen='GenPbc'), job('pbc_solver_gen', S, ALL, ALL, gen='GenPbc'),
                      job('pbc', F, 6400), job('enc_multi', E, 1600), job('pbc_wide', E, 1600)]),
    'C10': dict(models=[gen('GenFormula')], jobs=[job('solver', 'TraceSolver', 1600), job('solver_dense', 'TraceSolver', 800), job('pred', F, 1200), job('large', L, 1200), job('grid_hard', H, 320, 1600, soft=True, eptimeout=30), job('wide_pred', W, 400), job('gf_pred', F, ALL, ALL, gen='GenFormula')]),
    'C11': dict(models=[gen('GenHistory')], jobs=[job('solver_assume', 'TraceSolver', 2400), job('large_assume', L, 400), job('grid', H, 480, 2400), job('hist_leak', S, ALL, ALL, gen='GenHistory')]),
    'C12': dict(models=[gen('GenHistory')], jobs=[job('solver_state', 'TraceSolver', 2400), job('large_state', L, 1200), job('grid', H, 480, 2400), job('hist_state', S, ALL, ALL, gen='GenHistory')]),
    'C13': dict(models=[gen('GenHistory')], jobs=[job('solver_core', 'TraceSolver', 2400), job('large_core', L, 400), job('grid_core', H, 400, 2000), job('hist_core', S, ALL, ALL, gen='GenHistory')]),
    'C14': dict(jobs=[job('solver_intro', 'TraceSolver', 2400)]),
    'C15': dict(jobs=[job('solver_backbone', 'TraceSolver', 2400), job('large_backbone', L, 400), job('grid', H, 400, 2000)]),
    'C16': dict(jobs=[job('solver_enum', 'TraceSolver', 1600), job('large_enum', L, 400)]),
    'C17': dict(models=[gen('GenFormula')], jobs=[job('count', F, 3200), job('large_enum', L, 400), job('wide_count', W, 800, soft=True, eptimeout=30), job('gf_count', F, ALL, ALL, gen='GenFormula')]),
    'C18': dict(jobs=[job('solver_opt', 'TraceSolver', 1600), job('large_opt', L, 1200)]),
    'C19': dict(models=[sim('GenMaxSat', 3000, 14)],
                jobs=[job('maxsat', X, 6000), job('maxsat_gen', X, ALL, ALL, gen='GenMaxSat'), job('maxsat_cores', 'TraceMaxSat', 1600), job('maxsat_weights', 'TraceMaxSat', 2000, soft=True, eptimeout=20), job('maxsat_large', 'TraceLargeMaxSat', 1200, soft=True, eptimeout=30)]),
    'C20': dict(jobs=[job('maxsat_cancel', X, 2400), job('solver_cancel', 'TraceSolver', 1600), job('solver_handler', 'TraceSolver', 600),
                      job('fcancel', F, 2400), job('fhandler', F, 800), job('bdd_cancel', B, 600), job('large_cancel', L, 400), job('maxsat_large_cancel', 'TraceLargeMaxSat', 400, soft=True, eptimeout=30), job('wide_cancel', W, 800, soft=True, eptimeout=30), job('limits', F, 1200)]),
    'C21': dict(jobs=[job('bdd', B, 3200), job('bdd_cancel', B, 1200), job('wide_bdd', W, 320)]),
    'C22': dict(jobs=[job('bdd_reorder', B, 4000), job('bdd_autoreorder', B, 2400), job('wide_reorder', W, 400)]),
    'C23': dict(models=[gen('GenFormula')], jobs=[job('dnnf', F, 4800), job('wide_dnnf', W, 800, soft=True, eptimeout=30), job('gf_dnnf', F, ALL, ALL, gen='GenFormula')]),
    'C24': dict(models=[gen('GenFormula')], jobs=[job('primes', F, 3200), job('known_minprime', F, 1, 1), job('wide_primes', W, 800, soft=True, eptimeout=30), job('gf_primes', F, ALL, ALL, gen='GenFormula')]),
    'C25': dict(jobs=[job('mus', F, 4800), job('wide_mus', W, 320, soft=True, eptimeout=30)]),
    'C26': dict(models=[gen('GenFormula')], jobs=[job('simp', F, 4800), job('wide_simp', W, 1600, soft=True, eptimeout=30), job('gf_simp', F, ALL, ALL, gen='GenFormula')]),
    'C27': dict(models=[gen('GenFormula')], jobs=[job('trans', F, 3200), job('wide_trans', W, 1600), job('gf_trans', F, ALL, ALL, gen='GenFormula')]),
    'C28': dict(jobs=[job('graph', F, 4000), job('wide_graph', W, 480)]),
    'C29': dict(models=[gen('GenDimacs')],
                jobs=[job('dimacs', D, 2400), job('dimacs_max', D, 1600), job('dimacs_wide', D, 1200), job('dimacs_gen', D, ALL, ALL, gen='GenDimacs')]),
    'C31': dict(jobs=[job('randomizer', R, 16000)]),
    'C33': dict(jobs=[job('solver_white', S, 1600, whitebox=True), job('solver_white_am', S, 800, whitebox=True), job('solver_dense', S, 400), job('large_white', L, 400, whitebox=True), job('grid_white', H, 160, 800, whitebox=True, soft=True, eptimeout=30)]),
    'C30': dict(jobs=[job('cover', F, 8000), job('wide_cover', W, 3200)]),
    'C34': dict(jobs=[job('draw', F, 3200), job('bdd', B, 800)]),
    'C35': dict(jobs=[job('sets', 'TraceSets', 8000)]),
    'C36': dict(jobs=[job('assign', 'TraceAssign', 12000), job('known_negvars', 'TraceAssign', 1, 1)]),
    'C32': dict(jobs=[job('mix', F, 2400), job('wide_mix', W, 1200, soft=True, eptimeout=30)]),
}

NOTES = {
    '*': 'Bounded: every recorded step of the real code is decided by TLC against the specification over all assignments '
         'of up to 10 variables; the inputs, configurations and histories are sampled (and, where a model generates them, '
         'enumerated). Trusts TLC and the harness that records the events.',
}
