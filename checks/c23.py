"""C23: optimizers."""
import copy
import time as _time
from vlib.core import *
from vlib.gen import *
from vlib.models import fwd_of
from vlib.solvers import solver_spec, build_solver, RefSolver

META = dict(
    rule='Histories of one to three optimizations with optimizers of any '
         'method, sharing simulator and optimizer or not, on analytic costs '
         '(linear residuals and quadratic costs with known constrained '
         'optimum, non convex ones) which record every evaluation, and on '
         'small quantum systems. Any shape of the pulse, bounds, weights, '
         'termination conditions. Non-trivial: more than two evaluations and '
         'at least two parameters.',
    assumptions=['The algorithms of scipy.optimize themselves are not '
                 'verified.', 'Wall time: evaluations sleep for a fixed time, '
                 'so that the number of evaluations is limited independently '
                 'of the load of the machine.'])

GRAD = ['lsq', 'L-BFGS-B', 'BFGS', 'CG', 'TNC', 'SLSQP']
BOUNDED = ['lsq', 'L-BFGS-B', 'Nelder-Mead', 'Powell', 'TNC', 'SLSQP']
METHODS = ['lsq', 'lsq', 'L-BFGS-B', 'L-BFGS-B', 'Nelder-Mead', 'Powell',
           'BFGS', 'CG', 'TNC', 'SLSQP']


def weights_of(k):
    return st.one_of(st.none(), st.lists(st.sampled_from(
        [1., .5, 2., 3., .25, 10.]), min_size=k, max_size=k))


@st.composite
def problem(draw, kinds=('lin', 'sq', 'osc')):
    t, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    n = t * c
    kind = draw(st.sampled_from(kinds))
    p = {'t': t, 'c': c, 'kind': kind,
         'a': [draw(st.sampled_from([.5, 1., 2., 3.])) for _ in range(n)],
         'opt': draw(table(t, c, -16, 16)),
         'init': draw(table(t, c, -16, 16))}
    if kind == 'lin':
        p['k'] = n
        p['perm'] = list(draw(st.permutations(range(n))))
    else:
        p['k'] = draw(st.integers(1, 3))
        p['group'] = [draw(st.integers(0, p['k'] - 1)) for _ in range(n)]
    p['box'] = draw(st.one_of(st.none(), st.tuples(
        table(t, c, 1, 12), table(t, c, 1, 12)).map(list)))
    return p


def make_spy(p, sleep=0., stats=True):
    from qopt.simulator import Simulator
    from qopt.performance_statistics import PerformanceStatistics
    a = np.array(p['a'])
    opt = np.array(p['opt'])

    class Spy(Simulator):
        def __init__(self):
            self.stats = PerformanceStatistics() if stats else None
            self.log = []

        @property
        def cost_indices(self):
            return ['cost %d' % i for i in range(p['k'])]

        def f(self, y):
            d = (np.asarray(y) - opt).flatten()
            if p['kind'] == 'lin':
                return (a * d)[p['perm']]
            v = a * d ** 2 if p['kind'] == 'sq' else \
                a * (1.5 + np.sin(3 * d) + .1 * d ** 2)
            return np.array([np.sum(v[np.array(p['group']) == i])
                             for i in range(p['k'])]) + np.array(
                                 p.get('shift', 0.))

        def g(self, y):
            """shape (num_t, num_f, num_ctrl)"""
            d = (np.asarray(y) - opt).flatten()
            n = len(d)
            out = np.zeros((p['k'], n))
            for k in range(p['k']):
                for i in range(n):
                    if p['kind'] == 'lin':
                        out[k, i] = a[i] * (p['perm'][k] == i)
                    elif p['group'][i] == k:
                        out[k, i] = 2 * a[i] * d[i] if p['kind'] == 'sq' \
                            else a[i] * (3 * np.cos(3 * d[i]) + .2 * d[i])
            return out.reshape(p['k'], p['t'], p['c']).transpose(1, 0, 2)

        def wrapped_cost_functions(self, pulse=None):
            require(np.shape(pulse) == (p['t'], p['c']),
                    'shape of the pulse: %r' % (np.shape(pulse),))
            if sleep:
                _time.sleep(sleep)
            out = self.f(pulse)
            self.log.append(('f', np.array(pulse), out.copy()))
            return out

        def wrapped_jac_function(self, pulse=None):
            require(np.shape(pulse) == (p['t'], p['c']),
                    'shape of the pulse: %r' % (np.shape(pulse),))
            out = self.g(pulse)
            self.log.append(('g', np.array(pulse), out.copy()))
            return out
    return Spy()


def box_of(p, on=True):
    if p['box'] is None or not on:
        return None
    init = np.array(p['init'])
    return init - np.array(p['box'][0]), init + np.array(p['box'][1])


def make_opt(o, p, sim):
    from qopt.optimize import LeastSquaresOptimizer, \
        ScalarMinimizingOptimizer
    kw = {}
    for key in ('store_optimizer', 'save_intermediary_steps',
                'use_jacobian_function'):
        if o.get(key) is not None:
            kw[key] = o[key]
    weights = o.get('weights')
    if weights is not None:
        weights = np.array(weights) if o.get('as_array') else list(weights)
        kw['cost_func_weights'] = weights
    cond = o.get('cond')
    if cond is not None:
        cond = dict(cond)
        kw['termination_cond'] = cond
    box = box_of(p, o['method'] in BOUNDED)
    if o['method'] == 'lsq':
        if box is not None:
            kw['bounds'] = [box[0].T.flatten(), box[1].T.flatten()]
        opt = LeastSquaresOptimizer(sim, **kw)
    else:
        if box is not None:
            kw['bounds'] = list(zip(box[0].T.flatten(), box[1].T.flatten()))
        if not o.get('default_method') or o['method'] != 'L-BFGS-B':
            kw['method'] = o['method']
        opt = ScalarMinimizingOptimizer(sim, **kw)
    opt._verif_args = (cond, dict(o['cond']) if cond is not None else None,
                       weights, o.get('weights'))
    return opt


def unchanged_args(opt):
    cond, cond0, w, w0 = opt._verif_args
    require(cond == cond0, 'the termination conditions of the caller were '
            'changed to %r' % (cond,))
    if w is not None:
        require(np.array_equal(w, w0), 'the weights of the caller were '
                'changed to %r' % (w,))


def objective(o, costs):
    """What the algorithm minimizes and what it reports."""
    w = np.asarray(o.get('weights') or 1.)
    v = w * costs
    return (np.sum(v ** 2), v) if o['method'] == 'lsq' else (
        np.sum(v), np.sum(v))


def snapshot(res):
    out = {k: copy.copy(getattr(res, k)) for k in (
        'final_cost', 'indices', 'final_parameters', 'final_grad_norm',
        'init_parameters', 'num_iter', 'termination_reason', 'status')}
    if res.optim_summary is not None:
        s = res.optim_summary
        out['sum'] = (s.iter_num, np.array(s.costs), np.array(s.parameters),
                      np.array(s.gradients))
    if res.optimization_stats is not None:
        s = res.optimization_stats
        out['stats'] = (s.start_t_opt, s.end_t_opt)
    return out


def same_snapshot(a, b, what):
    require(a.keys() == b.keys(), what + ': fields')
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, tuple):
            ok = len(x) == len(y) and all(np.array_equal(i, j)
                                          for i, j in zip(x, y))
        else:
            ok = np.array_equal(x, y)
        require(ok, '%s: %s was %r and is %r' % (what, k, x, y))


def check_result(o, p, sim, opt, init, res, log, stats=True):
    """Everything that holds for the result of any optimization."""
    box = box_of(p, o['method'] in BOUNDED)
    fs = [e for e in log if e[0] == 'f']
    gs = [e for e in log if e[0] == 'g']
    par = arr(res.final_parameters)
    require(par.shape == (p['t'], p['c']), 'shape of the final parameters %r'
            % (par.shape,))
    if box is not None:
        slack = 1e-10 * (1 + np.abs(par))
        require(np.all(par >= box[0] - slack)
                and np.all(par <= box[1] + slack),
                'final parameters out of bounds')
        if o['method'] not in ('SLSQP',):
            for e in log:
                require(np.all(e[1] >= box[0] - 1e-7 * (1 + np.abs(e[1])))
                        and np.all(e[1] <= box[1] + 1e-7 * (
                            1 + np.abs(e[1]))), 'evaluated out of bounds')
    value, report = objective(o, sim.f(par))
    require(np.size(res.final_cost) == np.size(report), 'form of the final '
            'costs %r' % (res.final_cost,))
    close(res.final_cost, report, 'reported final costs', 1e-9, 1e-9,
          shape=False)
    require(len(fs) > 0, 'nothing was evaluated')
    require(np.allclose(fs[0][1], init, rtol=0, atol=1e-12)
            or box is not None, 'the optimization starts at other parameters')
    if o['method'] != 'SLSQP':
        start = objective(o, sim.f(init))[0]
        require(value <= start + 1e-12 * (1 + abs(start)),
                'the result (%r) is worse than the initial parameters (%r)'
                % (value, start))
    close(res.init_parameters, init, 'initial parameters in the result', 0, 0)
    require(list(res.indices) == sim.cost_indices, 'indices of the result')
    require((res.optimizer is opt) == bool(o.get('store_optimizer'))
            and (res.optimizer is None) != bool(o.get('store_optimizer')),
            'stored optimizer: %r' % (res.optimizer,))
    require(res.status is not None and isinstance(res.termination_reason,
                                                  (str, bytes)),
            'status or termination reason')
    if o.get('use_jacobian_function') is False or o['method'] in (
            'Nelder-Mead', 'Powell'):
        if res.status != 5:
            require(not gs, 'the Jacobian was evaluated although it must not '
                    'be used')
    else:
        require(gs, 'the Jacobian was not used')
    if res.final_grad_norm is not None and o.get(
            'use_jacobian_function') is not False \
            and o['method'] in ('lsq', 'L-BFGS-B') and res.status != 5:
        w = np.asarray(o.get('weights') or np.ones(p['k']))
        g = np.einsum('tfc,f->ftc', sim.g(par), w).reshape(p['k'], -1)
        exp = g.T @ (w * sim.f(par)) if o['method'] == 'lsq' else g.sum(0)
        close(res.final_grad_norm, np.linalg.norm(exp), 'norm of the final '
              'gradient', 1e-8, 1e-8)
    summ = res.optim_summary
    if o.get('save_intermediary_steps') is False:
        require(summ is None, 'history recorded although it was not requested')
    else:
        require(summ is not None, 'no history')
        require(len(summ.costs) == len(summ.parameters) == len(fs)
                == summ.iter_num, 'history of %d costs, %d parameters, %d '
                'iterations, but %d evaluations' % (
                    len(summ.costs), len(summ.parameters), summ.iter_num,
                    len(fs)))
        for i, e in enumerate(fs):
            close(summ.parameters[i], e[1], 'parameters %d of the history'
                  % i, 0, 0)
            close(summ.costs[i], e[2], 'costs %d of the history' % i, 1e-12,
                  1e-12)
        require(len(summ.gradients) == len(gs), '%d gradients in the history,'
                ' %d evaluated' % (len(summ.gradients), len(gs)))
        for i, e in enumerate(gs):
            close(summ.gradients[i], e[2], 'gradient %d of the history' % i,
                  1e-12, 1e-12)
        require(list(summ.indices) == sim.cost_indices,
                'indices of the history')
    if stats:
        s = res.optimization_stats
        require(s is not None and s.start_t_opt <= s.end_t_opt
                and s.end_t_opt <= _time.time() + 1
                and list(s.indices) == sim.cost_indices, 'statistics')
    else:
        require(res.optimization_stats is None, 'statistics not requested')
    # Nelder-Mead also counts the call that exceeds the limit
    require(1 <= res.num_iter <= len(fs) + 1, 'num_iter %r '
            'with %d evaluations' % (res.num_iter, len(fs)))
    return fs, gs, value


@st.composite
def history_case(draw):
    p = draw(problem())
    opts = []
    for _ in range(draw(st.integers(1, 3))):
        m = draw(st.sampled_from(METHODS))
        if p['kind'] == 'lin' and m != 'lsq':
            m = 'lsq'
        cond = {}
        for key, vals in (('max_iterations', [1, 2, 5, 100]),
                          ('min_cost_gain', [1e-3, 1e-9]),
                          ('min_gradient_norm', [1e-2, 1e-9]),
                          ('min_amplitude_change', [1e-3, 1e-9]),
                          ('max_cost_func_calls', [5, 50, 1e5])):
            if draw(st.integers(0, 4)) == 0:
                cond[key] = draw(st.sampled_from(vals))
        opts.append({
            'method': m, 'weights': draw(weights_of(p['k'])),
            'as_array': draw(st.booleans()),
            'cond': draw(st.sampled_from([None, cond, cond])),
            'use_jacobian_function': draw(st.sampled_from(
                [None, True, False])),
            'store_optimizer': draw(st.sampled_from([None, True, False])),
            'save_intermediary_steps': draw(st.sampled_from(
                [None, None, True, False])),
            'default_method': draw(st.booleans())})
    runs = draw(st.lists(st.tuples(
        st.integers(0, len(opts) - 1), st.booleans()).map(list),
        min_size=1, max_size=4))
    return {'p': p, 'opts': opts, 'runs': runs, 'stats': draw(st.booleans()),
            'other': draw(table(p['t'], p['c'], -2, 2))}


@subcheck('history', history_case(), quick=400, thorough=8000, shards=6)
def history(case, rec):
    p = case['p']
    sim = make_spy(p, stats=case['stats'])
    opts = [make_opt(o, p, sim) for o in case['opts']]
    kept = []
    first = {}
    total = 0
    for k, second in case['runs']:
        init = np.array(p['init'])
        if second:
            init = init + .25 * np.array(case['other'])
            if p['box'] is not None:
                init = np.clip(init, *box_of(p))
        passed = init.copy()
        sim.log = []
        res = opts[k].run_optimization(passed)
        log = sim.log
        require(np.array_equal(passed, init), 'the initial parameters of the '
                'caller were changed')
        unchanged_args(opts[k])
        fs, _, _ = check_result(case['opts'][k], p, sim, opts[k], init, res,
                                log, case['stats'])
        total = max(total, len(fs))
        for r, snap in kept:
            same_snapshot(snap, snapshot(r), 'an earlier result was changed')
        kept.append((res, snapshot(res)))
        # the run only depends on its optimizer and the initial parameters
        key = (k, second)
        if key in first:
            old = first[key]
            require(len(old) == len(log) and all(
                a[0] == b[0] and np.array_equal(a[1], b[1])
                for a, b in zip(old, log)), 'the repeated optimization '
                'evaluated something else')
        first[key] = log
        rec.label(case['opts'][k]['method'])
    rec.label('weights', any(o['weights'] for o in case['opts']))
    rec.label('bounds', p['box'] is not None)
    rec.label(p['kind'])
    rec.nontrivial(total > 2 and p['t'] * p['c'] > 1)


@st.composite
def converge_case(draw):
    m = draw(st.sampled_from(METHODS))
    p = draw(problem(('lin',) if m == 'lsq' else ('sq',)))
    if m in ('Nelder-Mead',):
        p['box'] = None
    jac = draw(st.sampled_from([None, True, False]))
    return {'p': p, 'o': {'method': m, 'weights': draw(weights_of(p['k'])),
                          'use_jacobian_function': jac},
            'strict': draw(st.booleans())}


@subcheck('convergence', converge_case(), quick=200, thorough=4000, shards=2)
def convergence(case, rec):
    """Convex problems are solved, with and without bounds."""
    p, o = case['p'], case['o']
    if o['method'] == 'Nelder-Mead' and p['t'] * p['c'] > 4:
        rec.nontrivial(False)
        return
    sim = make_spy(p)
    # conditions of other optimizers do not matter
    if case['strict']:
        make_opt(dict(o, cond={'max_iterations': 1, 'min_cost_gain': 1e3,
                               'min_gradient_norm': 1e9,
                               'max_wall_time': -1.,
                               'max_cost_func_calls': 1,
                               'min_amplitude_change': 1e3}), p, sim)
    opt = make_opt(o, p, sim)
    init = np.array(p['init'])
    res = opt.run_optimization(init.copy())
    fs, gs, value = check_result(o, p, sim, opt, init, res, sim.log)
    best = np.array(p['opt'])
    box = box_of(p, o['method'] in BOUNDED)
    if box is not None:
        best = np.clip(best, *box)
    goal = objective(o, sim.f(best))[0]
    start = objective(o, sim.f(init))[0]
    tol = 1e-4 * (1 + goal) + 1e-6 * start
    require(value <= goal + tol, '%s stopped at %r after %d evaluations, the '
            'optimum is %r (%s)' % (o['method'], value, len(fs), goal,
                                    res.termination_reason))
    rec.label(o['method'])
    rec.label('active bounds', box is not None
              and not np.array_equal(best, p['opt']))
    rec.nontrivial(len(fs) > 2 and start > goal + 1e-3
                   and p['t'] * p['c'] > 1)


@st.composite
def wrapper_case(draw):
    p = draw(problem())
    return {'p': p, 'o': {'method': draw(st.sampled_from(
        ['lsq', 'L-BFGS-B', 'BFGS'])), 'weights': draw(weights_of(p['k']))}}


@subcheck('wrappers', wrapper_case(), quick=150, thorough=2000)
def wrappers(case, rec):
    """Linear parameters, order and weights of the wrapped functions."""
    p, o = case['p'], case['o']
    sim = make_spy(p)
    opt = make_opt(o, p, sim)
    y = np.array(p['init'])
    opt.prepare_optimization(y.copy())
    w = np.asarray(o['weights'] or np.ones(p['k']))
    f = opt.cost_func_wrapper(y.T.flatten())
    g = opt.cost_jacobian_wrapper(y.T.flatten())
    jac = np.stack([(w[k] * sim.g(y)[:, k, :]).T.flatten()
                    for k in range(p['k'])])
    if o['method'] == 'lsq':
        close(f, w * sim.f(y), 'weighted costs')
        close(g, jac, 'weighted Jacobian')
    else:
        close(f, np.sum(w * sim.f(y)), 'sum of the weighted costs', shape=False)
        close(g, jac.sum(axis=0), 'gradient')
    close(opt.optim_iter_summary.costs[0], sim.f(y), 'recorded costs')
    rec.nontrivial(p['t'] > 1 and p['c'] > 1 and p['k'] > 1
                   and o['weights'] is not None)


CONDS = ['iter', 'calls', 'gradient', 'gain', 'change']


@st.composite
def stop_case(draw):
    m = draw(st.sampled_from(['lsq', 'L-BFGS-B', 'Nelder-Mead']))
    p = draw(problem(('osc', 'sq') if m != 'lsq' else ('osc', 'lin', 'sq')))
    cond = draw(st.sampled_from(CONDS))
    return {'p': p, 'cond': cond, 'n': draw(st.integers(1, 6)),
            'o': {'method': m, 'weights': draw(weights_of(p['k']))},
            'base': draw(st.booleans())}


@subcheck('termination', stop_case(), quick=250, thorough=4000, shards=2)
def termination(case, rec):
    """Every condition stops the optimization."""
    p, o, n = case['p'], case['o'], case['n']
    m = o['method']
    npar = p['t'] * p['c']
    tight = {'min_cost_gain': 1e-14, 'min_gradient_norm': 1e-14,
             'min_amplitude_change': 1e-14, 'max_iterations': 300}
    if m == 'lsq':
        tight = {k: v if k == 'max_iterations' else 1e-13
                 for k, v in tight.items()}
    cond = dict(tight)
    limit = None
    if case['cond'] == 'iter':
        cond['max_iterations'] = n
        limit = {'lsq': n, 'L-BFGS-B': 21 * n + 1,
                 'Nelder-Mead': npar + 1 + n * (npar + 2)}[m]
    elif case['cond'] == 'calls':
        cond['max_cost_func_calls'] = n
        limit = {'lsq': n, 'L-BFGS-B': n + 21, 'Nelder-Mead':
                 max(n, 1) + npar + 1}[m]
    elif case['cond'] == 'gradient':
        cond['min_gradient_norm'] = 1e9
        limit = {'lsq': 1, 'L-BFGS-B': 1}.get(m)
    elif case['cond'] == 'gain':
        cond['min_cost_gain'] = 1e9
        if m == 'Nelder-Mead':
            cond['min_amplitude_change'] = 1e9
            limit = npar + 1
        elif m == 'L-BFGS-B':
            limit = 22
    elif case['cond'] == 'change':
        cond['min_amplitude_change'] = 1e9
        if m == 'lsq':
            limit = 2
    logs = []
    for c in (tight, cond):
        sim = make_spy(p)
        opt = make_opt(dict(o, cond=c), p, sim)
        init = np.array(p['init'])
        res = opt.run_optimization(init.copy())
        fs, _, _ = check_result(o, p, sim, opt, init, res, sim.log)
        logs.append([e[1] for e in fs])
    if limit is not None:
        require(len(logs[1]) <= limit, '%s with %r evaluated %d times, at '
                'most %d expected' % (m, cond, len(logs[1]), limit))
    if case['cond'] in ('iter', 'calls') and m != 'lsq' and len(logs[0]) > \
            2 * (limit or 0) and len(logs[1]) < len(logs[0]):
        require(res.status not in (0, 5), 'status %r when the limit was '
                'reached' % (res.status,))
    # weaker conditions only stop earlier
    require(len(logs[1]) <= len(logs[0]) and all(
        np.allclose(a, b, rtol=1e-9, atol=1e-9)
        for a, b in zip(*logs)), 'the conditions change the path')
    rec.label(m + ' ' + case['cond'])
    rec.nontrivial(len(logs[0]) > len(logs[1]))


@st.composite
def algorithm_case(draw):
    m = draw(st.sampled_from(METHODS))
    p = draw(problem(('sq', 'osc') if m == 'lsq' else ('sq', 'osc', 'lin')))
    o = {'method': m, 'weights': draw(weights_of(p['k'])),
         'use_jacobian_function': draw(st.booleans()),
         'cond': {'max_iterations': draw(st.integers(1, 6)),
                  'max_cost_func_calls': draw(st.sampled_from([5, 20, 1000])),
                  'min_cost_gain': draw(st.sampled_from([1e-3, 1e-9])),
                  'min_amplitude_change': draw(st.sampled_from([1e-3, 1e-9])),
                  'min_gradient_norm': draw(st.sampled_from([1e-2, 1e-9]))}}
    if m == 'lsq':
        o['variant'] = draw(st.sampled_from(
            ['trf', 'dogbox'] + ['lm'] * (p['kind'] == 'lin')))
    elif p['kind'] == 'lin':
        p['kind'] = 'sq'
        p['group'] = [i % p['k'] for i in range(p['t'] * p['c'])]
    return {'p': p, 'o': o}


def by_scipy(o, p, box, noise=0.):
    """The same optimization, handed over to scipy directly.

    With noise, the costs are rounded differently.
    """
    import scipy.optimize as so
    sim = make_spy(p)
    w = np.array(o['weights'] if o['weights'] is not None
                 else np.ones(p['k']))
    c = o['cond']
    shape = (p['c'], p['t'])

    rs = np.random.RandomState(1)

    def f(x):
        return w * sim.f(x.reshape(shape).T) * (
            1 + noise * rs.uniform(-1, 1, len(w)))

    def g(x):    # one row for each cost, controls before times
        return np.einsum('tfc,f->fct', sim.g(x.reshape(shape).T), w
                         ).reshape(p['k'], -1)
    x0 = np.array(p['init']).T.flatten()
    lo, hi = (b.T.flatten() for b in box) if box is not None else (0, 0)
    if o['method'] == 'lsq':
        return so.least_squares(
            f, x0, jac=g if o['use_jacobian_function'] else '2-point',
            bounds=(lo, hi) if box is not None else (-np.inf, np.inf),
            method=o['variant'], ftol=c['min_cost_gain'],
            xtol=c['min_amplitude_change'], gtol=c['min_gradient_norm'],
            max_nfev=min(c['max_iterations'], c['max_cost_func_calls']))
    opts = {'L-BFGS-B': {'ftol': c['min_cost_gain'],
                         'gtol': c['min_gradient_norm'],
                         'maxiter': c['max_iterations'],
                         'maxfun': c['max_cost_func_calls']},
            'Nelder-Mead': {'fatol': c['min_cost_gain'],
                            'xatol': c['min_amplitude_change'],
                            'maxiter': c['max_iterations'],
                            'maxfev': c['max_cost_func_calls']},
            'TNC': {'maxfun': c['max_iterations']}}.get(
                o['method'], {'maxiter': c['max_iterations']})
    return so.minimize(
        lambda x: np.sum(f(x)), x0,
        jac=(lambda x: np.sum(g(x), axis=0)) if o['use_jacobian_function']
        and o['method'] not in ('Nelder-Mead', 'Powell') else None,
        bounds=list(zip(lo, hi)) if box is not None else None,
        method=o['method'], options=opts)


@subcheck('algorithm', algorithm_case(), quick=150, thorough=3000, shards=2)
def algorithm(case, rec):
    """The chosen algorithm runs with the chosen settings."""
    from qopt.optimize import LeastSquaresOptimizer
    p, o = case['p'], case['o']
    box = box_of(p, o['method'] in BOUNDED and o.get('variant') != 'lm')
    sim = make_spy(p)
    if o['method'] == 'lsq':
        kw = {} if box is None else {'bounds': [b.T.flatten() for b in box]}
        opt = LeastSquaresOptimizer(
            sim, method=o['variant'], termination_cond=dict(o['cond']),
            use_jacobian_function=o['use_jacobian_function'],
            cost_func_weights=o['weights'], **kw)
    else:
        opt = make_opt(o, p, sim)
    res = opt.run_optimization(np.array(p['init']))
    exp, other = by_scipy(o, p, box), by_scipy(o, p, box, 4e-16)
    if (exp.nfev, exp.status) != (other.nfev, other.status) or not \
            np.allclose(exp.x, other.x, 1e-6, 1e-6):
        rec.label('decided by rounding')
        rec.nontrivial(False)
        return
    close(arr(res.final_parameters).T.flatten(), exp.x, 'final parameters',
          1e-5, 1e-5)
    close(res.final_cost, exp.fun, 'final cost', 1e-5, 1e-4)
    require(res.num_iter == exp.nfev, '%d evaluations reported, %d expected'
            % (res.num_iter, exp.nfev))
    require(res.status == exp.status and res.termination_reason
            == exp.message, 'status %r (%s), expected %r (%s)' % (
                res.status, res.termination_reason, exp.status, exp.message))
    rec.label(o.get('variant', o['method']))
    rec.nontrivial(exp.nfev > 2)


@st.composite
def wall_case(draw):
    m = draw(st.sampled_from(['lsq', 'L-BFGS-B', 'Nelder-Mead', 'BFGS',
                              'Powell']))
    p = draw(problem(('osc', 'osc', 'sq')))
    if draw(st.booleans()):
        # costs of either sign, whose norm is not their sum
        p['shift'] = draw(nums(p['k'], -48, 16))
    return {'p': p, 'o': {
        'method': m, 'weights': draw(weights_of(p['k'])),
        'sleep': draw(st.sampled_from([.01, .003])),
        'use_jacobian_function': draw(st.booleans()),
        'store_optimizer': draw(st.booleans()),
        'save_intermediary_steps': draw(st.sampled_from([None, False])),
        'cond': {'max_wall_time': draw(st.sampled_from([.02, .06])),
                 'min_cost_gain': 1e-13, 'min_amplitude_change': 1e-13,
                 'min_gradient_norm': 1e-13}}}


@subcheck('wall_time', wall_case(), quick=60, thorough=600, shards=6)
def wall_time(case, rec):
    """The result of an optimization that ran out of time."""
    p, o = case['p'], case['o']
    sleep, wall = o.get('sleep', .01), o['cond']['max_wall_time']
    sim = make_spy(p, sleep)
    opt = make_opt(o, p, sim)
    init = np.array(p['init'])
    for run in range(2):
        sim.log = []
        t = _time.monotonic()
        res = opt.run_optimization(init.copy())
        took = _time.monotonic() - t
        fs = [e for e in sim.log if e[0] == 'f']
        require(len(fs) <= wall / sleep + 2, '%d evaluations of %g s within '
                '%g s' % (len(fs), sleep, wall))
        if not fs:
            require(took >= wall, 'nothing was evaluated after %g s' % took)
            require(res.final_parameters is None, 'final parameters without '
                    'any evaluation')
            continue
        check_result(o, p, sim, opt, init, res, sim.log)
        if res.status != 5:
            rec.label('converged before')
            rec.nontrivial(False)
            continue
        w = np.asarray(o['weights'] or np.ones(p['k']))
        close(objective(o, sim.f(res.final_parameters))[0],
              min(objective(o, e[2])[0] for e in fs), 'best evaluated costs')
        require(any(np.array_equal(e[1], res.final_parameters) for e in fs),
                'the final parameters were never evaluated')
        if o['use_jacobian_function']:
            g = np.einsum('tfc,f->ftc', sim.g(res.final_parameters), w
                          ).reshape(p['k'], -1)
            exp = np.linalg.norm(g if o['method'] == 'lsq' else g.sum(0))
            close(res.final_grad_norm, exp, 'norm of the gradient', 1e-9,
                  1e-9)
        rec.label('out of time')
    rec.nontrivial(len(fs) > 1)


@st.composite
def real_case(draw):
    s = draw(solver_spec(kinds=('schroedinger',), dims=(2, 2, 3), max_y=3,
                         max_x=6, max_ctrl=2, approx=(None,)))
    s['m']['init'] = 'default'
    m = s['m']
    return {'s': s, 'method': draw(st.sampled_from(['lsq', 'L-BFGS-B'])),
            'target': draw(cmat(m['d'])), 'box': draw(st.booleans()),
            'weights': draw(weights_of(2)),
            'iter': draw(st.sampled_from([2, 5, 20]))}


@subcheck('quantum', real_case(), quick=60, thorough=1500, shards=3)
def quantum(case, rec):
    """Optimization of a quantum gate."""
    from qopt.cost_functions import OperationInfidelity
    from qopt.simulator import Simulator
    from qopt.matrix import DenseOperator
    from qopt.optimize import LeastSquaresOptimizer, \
        ScalarMinimizingOptimizer
    m = case['s']['m']
    target = unitary_of(to_c(case['target']))

    def build():
        s = build_solver(case['s'])
        return s, [OperationInfidelity(s, DenseOperator(target.copy()),
                                       label=['first']),
                   OperationInfidelity(s, DenseOperator(np.eye(
                       m['d'], dtype=complex)), label=['second'])]
    s, costs = build()
    sim = Simulator([s], costs)
    y = np.array(m['y'])
    n = y.size
    kw = dict(termination_cond={'max_iterations': case['iter']})
    if case['weights']:
        kw['cost_func_weights'] = case['weights']
    lo, hi = y - .5, y + .25
    if case['method'] == 'lsq':
        if case['box']:
            kw['bounds'] = [lo.T.flatten(), hi.T.flatten()]
        res = LeastSquaresOptimizer(sim, **kw).run_optimization(y.copy())
    else:
        if case['box']:
            kw['bounds'] = list(zip(lo.T.flatten(), hi.T.flatten()))
        res = ScalarMinimizingOptimizer(sim, **kw).run_optimization(y.copy())
    w = np.asarray(case['weights'] or [1., 1.])

    def evaluate(x):
        d = m['d']
        u = fwd_of(RefSolver(case['s'], x).props(), np.eye(d))[-1]
        return np.array([1 - abs(np.trace(t.conj().T @ u)) ** 2 / d ** 2
                         for t in (target, np.eye(d))])
    par = arr(res.final_parameters)
    require(par.shape == y.shape, 'shape of the final parameters')
    v = w * evaluate(par)
    if case['method'] == 'lsq':
        close(res.final_cost, v, 'final costs', 1e-7)
        f, f0 = np.linalg.norm(v), np.linalg.norm(w * evaluate(y))
    else:
        close(res.final_cost, v.sum(), 'final costs', 1e-7, shape=False)
        f, f0 = v.sum(), (w * evaluate(y)).sum()
    require(f <= f0 + 1e-7, 'worse than the initial pulse')
    if case['box']:
        require(np.all(par >= lo - 1e-9) and np.all(par <= hi + 1e-9),
                'bounds')
    summ = res.optim_summary
    require(len(summ.costs) == len(summ.parameters) == summ.iter_num,
            'history')
    for c, x in list(zip(summ.costs, summ.parameters))[:5]:
        close(c, evaluate(x), 'costs of the history', 1e-7)
    require(list(res.indices) == ['first', 'second'], 'indices')
    rec.label('improved', f < f0 - 1e-3)
    rec.nontrivial(n > 1 and summ.iter_num > 1 and f < f0 - 1e-6)
