"""C17: noise-averaged infidelities are means over the realisations."""
from vlib.core import *
from vlib.costs import *

META = dict(
    rule='All noise-averaging costs with all options on random control '
         'problems with noise operators or control noise and one to four '
         'explicit realisations; compared with the mean over matrix '
         'exponentials. Permuting, duplicating and splitting the ensemble, '
         'zero noise, the relations between the different costs and the '
         'gradient as mean of single-realisation gradients are checked on '
         'the code itself. Non-trivial: at least two realisations with '
         'different infidelities.',
    assumptions=['truncated evolutions have singular values above 0.05 if '
                 'they are rescaled'])
NOISY = ('opnoise', 'opnoise', 'statenoise', 'liouvmc', 'incleak')


def usable(case, r):
    return restricted_ok(case['c'], r)


def with_samples(s, samples):
    return dict(s, noise=dict(s['noise'], samples=np.asarray(
        samples).tolist()))


def evaluate(case, s=None, y=None):
    s = s or case['s']
    solver = build_solver(s)
    cost = cost_of(dict(case, s=s), solver)
    solver.set_optimization_parameters(
        np.array(s['m']['y']) if y is None else y)
    return arr(cost.costs())


@subcheck('mean', cost_case(NOISY, max_traces=4, max_x=6, dims=(2, 3, 4),
                            units=True),
          quick=600, thorough=15000, shards=3)
def mean(case, rec):
    c, s = case['c'], case['s']
    y = np.array(s['m']['y'])
    r = RefSolver(s, y)
    if not usable(case, r):
        rec.nontrivial(False)
        return
    solver = build_solver(s)
    cost = cost_of(case, solver)
    solver.set_optimization_parameters(y)
    exp = ref_cost(c, r)
    for _ in range(2):
        close(cost.costs(), exp, 'averaged infidelity', 1e-8, shape=False)
    y2 = other_pulse(s['m'])
    r2 = RefSolver(s, y2)
    if usable(case, r2):
        solver.set_optimization_parameters(y2)
        close(cost.costs(), ref_cost(c, r2), 'averaged infidelity of new '
              'parameters', 1e-8, shape=False)
        tau = other_times(s['m'])
        r3 = RefSolver(s, y2, tau)
        if usable(case, r3):
            solver.set_times(np.array(tau))
            close(cost.costs(), ref_cost(c, r3), 'averaged infidelity of new '
                  'times', 1e-8, shape=False)
    single = [ref_cost(c, RefSolver(with_samples(
        s, np.array(s['noise']['samples'])[:, [i]]), y))
        for i in range(r.n_traces)]
    close(np.mean(single), exp, 'oracle', 1e-9)
    rec.label(c['kind'])
    rec.label('neglect', c.get('neglect'))
    rec.label('comp', c.get('comp') is not None)
    rec.nontrivial(r.n_traces > 1 and np.ptp(single) > 1e-6)


@subcheck('nearly_ideal', nearly_case(('opnoise', 'statenoise', 'liouvmc', 'incleak')),
          quick=200, thorough=8000)
def nearly(case, rec):
    nearly_ideal(case, rec)


@subcheck('large', large_cost(
    NOISY, profiles=('traces', 'traces', 'mix', 'dim')),
    quick=60, thorough=2000, shards=3)
def large(case, rec):
    """Up to 25 realisations, nine levels."""
    mean(case, rec)


@subcheck('ensembles', st.tuples(
    cost_case(NOISY, max_traces=4, max_x=5, max_y=3), st.randoms(
        use_true_random=False).map(lambda r: r.random())).map(
            lambda t: dict(t[0], seed=t[1])),
    quick=300, thorough=8000, shards=3)
def ensembles(case, rec):
    c, s = case['c'], case['s']
    y = np.array(s['m']['y'])
    sm = np.array(s['noise']['samples'])          # (op, trace, t)
    n = sm.shape[1]
    if not usable(case, RefSolver(s, y)):
        rec.nontrivial(False)
        return
    base = evaluate(case)
    singles = [evaluate(case, with_samples(s, sm[:, [i]]))
               for i in range(n)]
    close(np.mean(singles), base, 'mean of single realisations', 1e-8,
          shape=False)
    order = np.argsort(np.sin(1 + np.arange(n) * (1 + 10 * case['seed'])))
    close(evaluate(case, with_samples(s, sm[:, order])), base,
          'infidelity with permuted realisations', 1e-8)
    close(evaluate(case, with_samples(s, np.concatenate((sm, sm), axis=1))),
          base, 'infidelity with duplicated realisations', 1e-8)
    if c['kind'] in ('opnoise', 'statenoise') and c.get('comp') is None:
        require(np.all(base > -1e-9) and np.all(base < 1 + 1e-9),
                'infidelity out of range')
    rec.label(c['kind'])
    rec.nontrivial(n > 1 and np.ptp(np.ravel(singles)) > 1e-6)


@subcheck('limits', cost_case(('opnoise', 'statenoise', 'liouvmc',
                               'incleak'), max_x=5, max_y=3),
          quick=300, thorough=8000, shards=2)
def limits(case, rec):
    """Zero noise, and relations between the costs."""
    c, s = case['c'], case['s']
    y = np.array(s['m']['y'])
    r = RefSolver(s, y)
    if not usable(case, r):
        rec.nontrivial(False)
        return
    zero = with_samples(s, 0 * np.array(s['noise']['samples']))
    if s['kind'] == 'mc' and s['noise']['naf'] == 'y':
        zero = None       # adds an offset to the samples
    if zero:
        got = evaluate(case, zero)
        if c.get('neglect') or c.get('no_target'):
            v = restrict(r.fwd()[-1], c.get('comp'), c.get('flag'))
            f = f_ent if c['kind'] == 'opnoise' else f_state
            close(got, 1 - f(v, v), 'infidelity without noise', 1e-8,
                  shape=False)
        else:
            plain = {'opnoise': 'op', 'liouvmc': 'op', 'statenoise': 'state',
                     'incleak': 'leak'}[c['kind']]
            cc = dict(c, kind=plain)
            if c['kind'] == 'liouvmc':
                cc['flag'] = False
            close(got, evaluate({'s': s, 'c': cc}),
                  'infidelity without noise', 1e-8, shape=False)
    if c['kind'] == 'liouvmc':
        cc = dict(c, kind='opnoise', neglect=False, no_target=False,
                  flag=False)
        close(evaluate(case), evaluate({'s': s, 'c': cc}),
              'infidelity of the averaged channel', 1e-8)
    if c['kind'] == 'incleak':
        cc = dict(c, kind='leakliou', mc=True)
        close(evaluate(case), evaluate({'s': s, 'c': cc}),
              'leakage of the averaged channel', 1e-8, shape=False)
    rec.label(c['kind'])
    rec.nontrivial(np.any(np.array(s['noise']['samples'])))


@subcheck('gradient_mean', cost_case(('opnoise',), max_x=5, max_y=3,
                                     max_traces=4, approx=(None,)),
          quick=200, thorough=5000, shards=2)
def gradient_mean(case, rec):
    s = case['s']
    y = np.array(s['m']['y'])
    if not usable(case, RefSolver(s, y)):
        rec.nontrivial(False)
        return
    sm = np.array(s['noise']['samples'])

    def grad(s):
        solver = build_solver(s)
        cost = cost_of(dict(case, s=s), solver)
        solver.set_optimization_parameters(y)
        return arr(cost.grad())
    singles = [grad(with_samples(s, sm[:, [i]])) for i in range(sm.shape[1])]
    close(grad(s), np.mean(singles, axis=0),
          'gradient as mean of the single gradients', 1e-7)
    rec.nontrivial(len(singles) > 1 and
                   np.max(np.abs(singles[0] - singles[1])) > 1e-6)
