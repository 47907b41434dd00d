"""C25: optimization of several initial pulses in parallel."""
import copy
from vlib.core import *
from vlib.gen import *
from qopt.simulator import Simulator
from qopt.performance_statistics import PerformanceStatistics

META = dict(
    rule='Zero to seven initial pulses (list or array), one to four or all '
         'processes, least squares and scalar optimizers with weights, '
         'bounds and conditions on analytic costs and two level gates. '
         'Compared with sequential runs of fresh optimizers. Non-trivial: '
         'more pulses than one and different final results.',
    assumptions=['Scheduling of the pool is not controlled; pulses take '
                 'generated times to finish, so that they finish in any '
                 'order.'], budget_s=400)


class Analytic(Simulator):
    """Module level, so that it can be sent to other processes."""

    def __init__(self, opt, stats, sleep):
        self.opt = np.array(opt)
        self.stats = PerformanceStatistics() if stats else None
        self.sleep = sleep
        self.calls = 0

    @property
    def cost_indices(self):
        return ['cost %d' % i for i in range(self.opt.size)]

    def wrapped_cost_functions(self, pulse=None):
        self.calls += 1
        if self.sleep and self.calls == 1:
            time.sleep(self.sleep * abs(float(pulse.flat[0])))
        if self.stats is not None:
            self.stats.cost_func_eval_times.append([self.calls])
        d = (np.asarray(pulse) - self.opt).flatten()
        return 2 + np.sin(d) + .25 * d ** 2

    def wrapped_jac_function(self, pulse=None):
        d = (np.asarray(pulse) - self.opt).flatten()
        n = len(d)
        return np.diag(np.cos(d) + .5 * d).reshape(
            n, *self.opt.shape).transpose(1, 0, 2)


@st.composite
def parallel_case(draw):
    t, c = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    n = draw(st.integers(0, 7))
    return {'opt': draw(table(t, c)), 'n': n,
            'pulses': [draw(table(t, c, -24, 24)) for _ in range(n)],
            'as': draw(st.sampled_from(['array', 'list', 'tuple'])),
            'processes': draw(st.sampled_from([1, 2, 2, 3, 4, None])),
            'method': draw(st.sampled_from(['lsq', 'L-BFGS-B',
                                            'Nelder-Mead'])),
            'quantum': draw(st.sampled_from([False, False, True])),
            'weights': draw(st.booleans()), 'box': draw(st.booleans()),
            'summary': draw(st.booleans()), 'stats': draw(st.booleans()),
            'store': draw(st.booleans()),
            'iter': draw(st.sampled_from([3, 20, 200])),
            'sleep': draw(st.sampled_from([0., .01])),
            'used': draw(st.booleans())}


def build(case):
    from qopt.optimize import LeastSquaresOptimizer, \
        ScalarMinimizingOptimizer
    shape = np.shape(case['opt'])
    if case['quantum']:
        from qopt.matrix import DenseOperator
        from qopt.solver_algorithms import SchroedingerSolver
        from qopt.cost_functions import OperationInfidelity
        ctrl = [DenseOperator.pauli_x(), DenseOperator.pauli_y()][:shape[1]]
        s = SchroedingerSolver(h_drift=[DenseOperator.pauli_z()],
                               h_ctrl=ctrl, tau=np.ones(shape[0]))
        sim = Simulator([s], [OperationInfidelity(
            s, DenseOperator.pauli_x())],
            record_performance_statistics=case['stats'])
    else:
        sim = Analytic(case['opt'], case['stats'], case['sleep'])
    kw = dict(save_intermediary_steps=case['summary'],
              store_optimizer=case['store'],
              termination_cond={'max_iterations': case['iter']})
    n = int(np.prod(shape))
    if case['weights']:
        kw['cost_func_weights'] = (1 + np.arange(len(sim.cost_indices)))
    if case['method'] == 'lsq':
        kw['bounds'] = [-4 * np.ones(n), 4 * np.ones(n)] \
            if case['box'] else None
        return LeastSquaresOptimizer(sim, **kw)
    if case['box']:
        kw['bounds'] = [(-4, 4)] * n
    return ScalarMinimizingOptimizer(sim, method=case['method'], **kw)


@subcheck('parallel', parallel_case(), quick=100, thorough=2000, shards=4)
def parallel(case, rec):
    from qopt.parallel import run_optimization_parallel
    shape = np.shape(case['opt'])
    pulses = [np.array(p) for p in case['pulses']]
    optimizer = build(case)
    if case['used'] and pulses:
        # an earlier optimization does not matter
        old = optimizer.run_optimization(pulses[0] / 2)
        old_par = np.array(old.final_parameters)
        n_old = len(old.optim_summary.costs) if case['summary'] else 0
    given = np.array(pulses).reshape(len(pulses), *shape) \
        if case['as'] == 'array' else [p.copy() for p in pulses]
    if case['as'] == 'tuple':
        given = tuple(given)
    calls = getattr(optimizer.system_simulator, 'calls', None)
    cond = dict(optimizer.termination_conditions)
    summary = optimizer.optim_iter_summary
    data = run_optimization_parallel(optimizer, given,
                                     processes=case['processes'])
    require(len(data) == len(pulses), '%d results for %d pulses' % (
        len(data), len(pulses)))
    for field in ('final_costs', 'final_parameters', 'init_parameters',
                  'costs', 'parameters', 'status',
                  'optimization_statistics'):
        require(len(getattr(data, field)) == len(pulses), '%d %s for %d '
                'pulses' % (len(getattr(data, field)), field, len(pulses)))
    finals = []
    for i, p in enumerate(pulses):
        require(np.array_equal(given[i], p), 'the initial pulses of the '
                'caller were changed')
        ref = build(case).run_optimization(p.copy())
        what = 'pulse %d of %d: ' % (i, len(pulses))
        close(data.init_parameters[i], p, what + 'initial parameters', 0, 0)
        close(data.final_parameters[i], ref.final_parameters,
              what + 'final parameters', 1e-9, 1e-9)
        close(data.final_costs[i], ref.final_cost, what + 'final costs',
              1e-9, 1e-9, shape=False)
        require(data.status[i] == ref.status, what + 'status')
        exp = ref.optim_summary.costs if case['summary'] else []
        par = ref.optim_summary.parameters if case['summary'] else []
        require(len(data.costs[i]) == len(exp) == len(data.parameters[i]),
                what + '%d costs and %d parameters recorded, expected %d' % (
                    len(data.costs[i]), len(data.parameters[i]), len(exp)))
        for a, b in zip(data.costs[i], exp):
            close(a, b, what + 'history of the costs', 1e-9, 1e-9)
        for a, b in zip(data.parameters[i], par):
            close(a, b, what + 'history of the parameters', 1e-9, 1e-9)
        s = data.optimization_statistics[i]
        if case['stats']:
            require(s is not None and s.start_t_opt <= s.end_t_opt,
                    what + 'statistics')
            require(len(s.cost_func_eval_times) == len(
                ref.optimization_stats.cost_func_eval_times),
                what + '%d timings recorded, expected %d' % (
                    len(s.cost_func_eval_times), len(
                        ref.optimization_stats.cost_func_eval_times)))
        else:
            require(s is None, what + 'statistics')
        finals.append(np.asarray(ref.final_parameters).round(6).tolist())
    if pulses:
        require(list(data.indices) == build(case).system_simulator.cost_indices
                , 'indices')
    # the optimizer of the caller is not involved
    require(optimizer.optim_iter_summary is summary
            and getattr(optimizer.system_simulator, 'calls', None) == calls
            and optimizer.termination_conditions == cond,
            'the optimizer of the caller was used')
    if case['used'] and pulses:
        require(np.array_equal(old.final_parameters, old_par) and (
            not case['summary'] or len(old.optim_summary.costs) == n_old),
            'an earlier result was changed')
    rec.label('%s processes' % case['processes'])
    rec.label('more pulses than processes', case['processes'] is not None
              and len(pulses) > case['processes'])
    rec.label('quantum', case['quantum'])
    rec.nontrivial(len({json.dumps(f) for f in finals}) > 1)


class Stop(Exception):
    """An error of the user's."""


ERRORS = {'stop': Stop, 'float': FloatingPointError, 'value': ValueError,
          'linalg': np.linalg.LinAlgError, 'runtime': RuntimeError,
          'key': KeyError, 'overflow': OverflowError, 'type': TypeError,
          'assertion': AssertionError, 'index': IndexError,
          'todo': NotImplementedError, 'attribute': AttributeError}


class Failing(Analytic):
    """Fails for large values, possibly after some evaluations."""

    def wrapped_cost_functions(self, pulse=None):
        if self.calls == 0:
            self.fails = abs(pulse.flat[0]) > 8
        if self.fails and self.calls >= self.after:
            raise ERRORS[self.error]('failed')
        return super().wrapped_cost_functions(pulse)


@subcheck('failing', st.fixed_dictionaries({
    'bad': st.lists(st.booleans(), min_size=1, max_size=5),
    'error': st.sampled_from(sorted(ERRORS)), 'after': st.integers(0, 1),
    'processes': st.sampled_from([1, 2, 3])}), quick=25, thorough=300)
def failing(case, rec):
    """Failing runs raise like they do one after the other."""
    from qopt.optimize import ScalarMinimizingOptimizer
    from qopt.parallel import run_optimization_parallel
    sim = Failing([[.5], [-1.]], True, 0.)
    sim.error, sim.after = case['error'], case['after']
    opt = ScalarMinimizingOptimizer(sim, bounds=[(-20, 20)] * 2,
                                    termination_cond={'max_iterations': 3})
    pulses = [np.array([[19. if b else .1 * i], [.3]])
              for i, b in enumerate(case['bad'])]
    try:
        data = run_optimization_parallel(opt, pulses,
                                         processes=case['processes'])
    except Exception as err:
        require(any(case['bad']), 'a run which does not fail by itself '
                'raised %r' % err)
    else:
        require(len(data) == len(pulses), '%d results for %d pulses, of '
                'which %d fail with %s' % (len(data), len(pulses),
                                           sum(case['bad']), case['error']))
        require(not any(case['bad']), 'failed runs (%s) yield results'
                % case['error'])
    rec.label(case['error'])
    rec.nontrivial(0 < sum(case['bad']) < len(pulses))


@subcheck('annealing', st.fixed_dictionaries({
    'n': st.integers(1, 4), 'processes': st.integers(1, 3),
    'opt': table(2, 1)}), quick=10, thorough=100)
def annealing(case, rec):
    """Every result belongs to its own initial pulse."""
    from qopt.optimize import SimulatedAnnealing
    from qopt.parallel import run_optimization_parallel
    sim = Analytic(case['opt'], True, 0.)
    opt = SimulatedAnnealing(sim, np.array(
        [-50 * np.ones((2, 1)), 50 * np.ones((2, 1))]), steps=5, updates=0)
    pulses = [np.array([[10. * i], [-10. * i]]) for i in range(case['n'])]
    data = run_optimization_parallel(opt, pulses,
                                     processes=case['processes'])
    require(len(data) == case['n'], 'number of results')
    for i, p in enumerate(pulses):
        x = arr(data.final_parameters[i])
        require(np.all(np.abs(x - p) <= 5), 'result %d is %s' % (
            i, x.tolist()))
        close(data.final_costs[i], np.linalg.norm(
            Analytic(case['opt'], False, 0.).wrapped_cost_functions(x)),
            'costs of result %d' % i, shape=False)
    rec.nontrivial(case['n'] > 1)


@subcheck('many', st.fixed_dictionaries({
    'n': st.sampled_from([33, 65, 70, 101, 130, 257]),
    'processes': st.sampled_from([1, 2, 4, None]),
    'seed': st.integers(0, 2 ** 31), 'sleep': st.booleans()}), quick=5,
    thorough=60)
def many(case, rec):
    """Hundreds of initial pulses."""
    from qopt.optimize import LeastSquaresOptimizer
    from qopt.parallel import run_optimization_parallel
    n = case['n']
    b = Bulk(case['seed'])
    pulses = np.array(b.table(n, 2, -24, 24)).reshape(n, 2, 1)

    def make():
        return LeastSquaresOptimizer(
            Analytic([[.5], [-1.]], True, .001 * case['sleep']),
            termination_cond={'max_iterations': 3})
    data = run_optimization_parallel(make(), pulses,
                                     processes=case['processes'])
    require(len(data) == n and len(data.final_parameters) == n
            and len(data.costs) == n and len(data.status) == n,
            '%d results for %d pulses' % (len(data), n))
    close(np.array(data.init_parameters), pulses, 'initial parameters', 0, 0)
    for i, p in enumerate(pulses):
        ref = make().run_optimization(p.copy())
        close(data.final_parameters[i], ref.final_parameters,
              'final parameters of pulse %d of %d' % (i, n))
        close(data.final_costs[i], ref.final_cost, 'costs of pulse %d' % i)
        require(len(data.costs[i]) == len(ref.optim_summary.costs),
                'length of history %d' % i)
    rec.label('%s processes' % case['processes'])
    rec.nontrivial(len(np.unique(pulses)) > 2)
