"""C24: simulated annealing."""
import contextlib
import io
import math
import random
from vlib.core import *
from vlib.gen import *
from qopt.optimize import PulseAnnealer, SimulatedAnnealing

META = dict(
    rule='Annealing of recorded analytic costs: any shape, bounds per '
         'parameter (integer or not, also active at the start), step size, '
         'step ratio, temperatures, number of steps and updates, repeated '
         'runs. The recorded evaluations are checked against a model of the '
         'Metropolis algorithm which tracks all possible current states. '
         'Non-trivial: at least one improvement and one rejected or uphill '
         'move.',
    assumptions=['The schedule of simanneal (exponential cooling) is part of '
                 'the model; moves with a probability below 1e-26 are '
                 'excluded.'])


@st.composite
def anneal_case(draw):
    t, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {'t': t, 'c': c, 'k': draw(st.integers(1, 3)),
            'init': draw(st.one_of(
                table(t, c, -8, 8, 1), table(t, c, -16, 16))),
            'opt': draw(table(t, c, -16, 16, 2)),
            'lo': draw(table(t, c, 0, 20, draw(st.sampled_from([1, 4])))),
            'hi': draw(table(t, c, 0, 20, draw(st.sampled_from([1, 4])))),
            'step': draw(st.integers(1, 4)),
            'ratio': draw(st.sampled_from([1., 1., .75, .5, .25])),
            'tmax': draw(st.sampled_from([.01, 1., 10.])),
            'tmin': draw(st.sampled_from([1e-6, 1e-3, .005])),
            'steps': draw(st.integers(1, 60)),
            'updates': draw(st.sampled_from([0, 0, 3])),
            'seed': draw(st.integers(0, 10 ** 6)),
            'runs': draw(st.sampled_from([1, 1, 2])),
            'store': draw(st.booleans()), 'stats': draw(st.booleans()),
            'defaults': draw(st.booleans())}


def spy(case):
    from qopt.simulator import Simulator
    from qopt.performance_statistics import PerformanceStatistics
    opt = np.array(case['opt'])

    class Spy(Simulator):
        def __init__(self):
            self.stats = PerformanceStatistics() if case['stats'] else None
            self.log = []

        @property
        def cost_indices(self):
            return ['cost %d' % i for i in range(case['k'])]

        def f(self, y):
            d = (y - opt).flatten()
            return np.array([np.sum(np.abs(d) ** (1 + .5 * k) * (
                1 + np.arange(len(d)))) for k in range(case['k'])])

        def wrapped_cost_functions(self, pulse=None):
            require(np.shape(pulse) == opt.shape, 'shape of the pulse')
            out = self.f(pulse)
            self.log.append((np.array(pulse), float(np.linalg.norm(out))))
            return out

        def wrapped_jac_function(self, pulse=None):
            raise Violation('annealing needs no Jacobian')
    return Spy()


def reachable(new, old, case, lo, hi):
    d = new - old
    if np.any(np.abs(d) > case['step'] + 1e-9):
        return False
    whole = np.abs(d - np.round(d)) < 1e-9
    clipped = (np.abs(new - lo) < 1e-12) | (np.abs(new - hi) < 1e-12)
    return bool(np.all(whole | clipped))


def check_path(log, case, lo, hi):
    """Metropolis algorithm with every possible current state."""
    states = [log[0]]
    worse = 0
    fac = -math.log(case['tmax'] / case['tmin'])
    for i, (s, e) in enumerate(log[1:], 1):
        T = case['tmax'] * math.exp(fac * i / case['steps'])
        sources = [c for c in states if reachable(s, c[0], case, lo, hi)]
        require(sources, 'step %d evaluates %s, which no allowed move '
                'reaches from %s' % (i, s.tolist(),
                                     [c[0].tolist() for c in states][:4]))
        new = []
        for c in sources:
            dE = e - c[1]
            if dE < 60 * T:
                new.append((s, e))
            if dE > 1e-12 * T and math.exp(-dE / T) < 1 - 1e-12:
                new.append(c)
                worse += dE > 0
        states = []
        for c in new:
            if not any(np.array_equal(c[0], o[0]) for o in states):
                states.append(c)
    return worse


@subcheck('anneal', anneal_case(), quick=400, thorough=8000, shards=6)
def anneal(case, rec):
    init = np.array(case['init'])
    lo, hi = init - np.array(case['lo']), init + np.array(case['hi'])
    sim = spy(case)
    bounds = np.array([lo, hi])
    kw = dict(initial_temperature=case['tmax'],
              final_temperature=case['tmin'], step_size=case['step'],
              step_ratio=case['ratio'], steps=case['steps'],
              updates=case['updates'])
    if case['defaults']:
        case = dict(case, tmax=1., tmin=1e-6, step=1, ratio=1.)
        kw = dict(steps=case['steps'], updates=case['updates'])
    if case['store']:
        kw['store_optimizer'] = True
    opt = SimulatedAnnealing(sim, bounds, **kw)
    paths = []
    kept = []
    for run in range(case['runs'] + 1):
        # the last run repeats the first one
        seed = case['seed'] + (run if run < case['runs'] else 0)
        np.random.seed(seed)
        random.seed(seed)
        sim.log = []
        passed = init.copy()
        with contextlib.redirect_stderr(io.StringIO()):
            res = opt.run_optimization(passed)
        log = sim.log
        require(np.array_equal(passed, init), 'the initial pulse of the '
                'caller was changed')
        require(np.array_equal(bounds, [lo, hi]), 'the bounds were changed')
        require(len(log) == case['steps'] + 1, '%d evaluations for %d steps'
                % (len(log), case['steps']))
        require(np.array_equal(log[0][0], init), 'first evaluated pulse')
        for s, e in log:
            require(np.all(s >= lo - 1e-12) and np.all(s <= hi + 1e-12),
                    'evaluated %s out of bounds' % s.tolist())
        worse = check_path(log, case, lo, hi)
        best = min(e for _, e in log)
        close(res.final_cost, best, 'reported costs', 1e-12, 1e-12,
              shape=False)
        par = arr(res.final_parameters)
        require(par.shape == init.shape, 'shape of the final parameters')
        require(any(np.array_equal(par, s) and e <= best * (1 + 1e-12)
                    for s, e in log), 'the final parameters %s were not '
                'evaluated with the reported costs' % par.tolist())
        close(res.init_parameters, init, 'initial parameters in the result',
              0, 0)
        require(list(res.indices) == sim.cost_indices, 'indices')
        require((res.optimizer is opt) == case['store'], 'stored optimizer')
        if case['stats']:
            s = res.optimization_stats
            require(s is not None and s.start_t_opt <= s.end_t_opt,
                    'statistics')
        paths.append(log)
        for r, p, c in kept:
            require(np.array_equal(r.final_parameters, p)
                    and r.final_cost == c, 'an earlier result was changed')
        kept.append((res, par.copy(), res.final_cost))
    require(all(np.array_equal(a[0], b[0])
                for a, b in zip(paths[0], paths[-1])),
            'the annealing is not reproducible with the same seeds')
    rec.label('ratio %g' % case['ratio'])
    rec.label('worse accepted or rejected', worse)
    rec.label('starts at a bound', np.any(lo == init) or np.any(hi == init))
    rec.nontrivial(worse and kept[-1][2] < paths[0][0][1])


@subcheck('moves', st.fixed_dictionaries({
    't': st.integers(1, 3), 'c': st.integers(1, 3), 'step': st.integers(1, 4),
    'ratio': st.sampled_from([1., .75, .5, .25, .1]),
    'seed': st.integers(0, 10 ** 6)}), quick=60, thorough=1000)
def moves(case, rec):
    """Distribution of the moves."""
    shape = (case['t'], case['c'])
    big = np.array([-1e6 * np.ones(shape), 1e6 * np.ones(shape)])
    np.random.seed(case['seed'])
    a = PulseAnnealer(np.zeros(shape), big, lambda y: 0., case['step'],
                      case['ratio'], 1., .1, 10, 0)
    s, r = case['step'], case['ratio']
    n = 600
    diffs = []
    for _ in range(n):
        old = a.state
        before = old.copy()
        a.move()
        require(np.array_equal(old, before), 'move changed the old state')
        diffs.append(np.array(a.state) - before)
    d = np.array(diffs)
    require(np.all(d == np.round(d)) and np.all(np.abs(d) <= s),
            'moves by %r' % (np.unique(d),))
    total = d.size
    for v in range(-s, s + 1):
        q = r / (2 * s + 1) + (1 - r) * (v == 0)
        got = np.sum(d == v) / total
        require(abs(got - q) <= 7 * math.sqrt(q * (1 - q) / total) + 1e-12,
                'moves by %d in %.3f of the cases, expected %.3f'
                % (v, got, q))
        per = np.mean(d == v, axis=0)
        require(np.all(np.abs(per - q) <= 7 * math.sqrt(q * (1 - q) / n)
                       + 1e-12), 'moves by %d differ between the '
                'parameters: %s' % (v, per.tolist()))
    # the entries move independently
    f = d.reshape(n, -1)
    for i in range(f.shape[1]):
        for j in range(i):
            c = np.mean(f[:, i] * f[:, j]) / np.mean(f ** 2)
            require(abs(c) < 7 * 3 / math.sqrt(n * r), 'moves of the '
                    'parameters are correlated: %.3f' % c)
            q = (r * 2 * s / (2 * s + 1)) ** 2
            both = np.mean((f[:, i] != 0) & (f[:, j] != 0))
            require(abs(both - q) < 7 * math.sqrt(q * (1 - q) / n) + 1e-9,
                    'parameters move together in %.3f of the moves, expected '
                    '%.3f' % (both, q))
    rec.nontrivial(case['t'] * case['c'] > 1)


@subcheck('invalid_step', st.sampled_from([0, .5, 1., '1']), quick=8,
          thorough=8)
def invalid_step(case, rec):
    a = PulseAnnealer(np.zeros((2, 1)), np.array(
        [-np.ones((2, 1)), np.ones((2, 1))]), lambda y: 0., case, 1., 1., .1,
        10, 0)
    must_raise((ValueError,), a.move, 'step size %r' % (case,))


@subcheck('quantum', st.fixed_dictionaries({
    't': st.integers(1, 3), 'seed': st.integers(0, 1000),
    'steps': st.integers(1, 40)}), quick=30, thorough=500)
def quantum(case, rec):
    """A Rabi pulse with discrete amplitudes."""
    from qopt.matrix import DenseOperator
    from qopt.solver_algorithms import SchroedingerSolver
    from qopt.cost_functions import OperationInfidelity
    from qopt.simulator import Simulator
    x = DenseOperator.pauli_x()
    n = case['t']
    s = SchroedingerSolver(h_drift=[0 * x], h_ctrl=[x], tau=np.ones(n) * .1,
                           calculate_propagator_derivatives=False)
    sim = Simulator([s], [OperationInfidelity(s, x)])
    bounds = np.array([np.zeros((n, 1)), 15 * np.ones((n, 1))])
    np.random.seed(case['seed'])
    random.seed(case['seed'])
    init = np.ones((n, 1))
    with contextlib.redirect_stderr(io.StringIO()):
        res = SimulatedAnnealing(sim, bounds, steps=case['steps'],
                                 step_size=2).run_optimization(init.copy())
    par = arr(res.final_parameters)

    def f(p):
        return 1 - np.sin(.1 * np.sum(p)) ** 2
    close(res.final_cost, f(par), 'costs of the final pulse', 1e-9,
          shape=False)
    require(f(par) <= f(init) + 1e-12, 'worse than the initial pulse')
    require(np.all(par >= 0) and np.all(par <= 15) and np.array_equal(
        par, np.round(par)), 'integers within bounds')
    rec.nontrivial(f(par) < f(init))
