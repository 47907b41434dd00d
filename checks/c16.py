"""C16: analytic gradients are the derivatives of the costs."""
from vlib.core import *
from vlib.costs import *
from vlib.ff import ff_gradient, grad_case

META = dict(
    rule='Every cost function with an analytic gradient, with all options, '
         'on random closed, noisy and open control problems with transfer '
         'and amplitude functions. The Jacobian by the raw parameters is '
         'compared with a seven point difference formula applied to an '
         'independent reference of the cost, and the cost itself with that '
         'reference. Non-trivial: the Jacobian is not zero.',
    assumptions=['truncated evolutions have singular values above 0.15 if '
                 'they are rescaled',
                 'gradients of filter function infidelities: with the '
                 'assumptions of C18',
                 'noise amplitudes that depend on the controls: see the '
                 'known findings; there the derivative at fixed noise '
                 'amplitudes is accepted too'])

class FrozenRef(RefSolver):
    """The noise Hamiltonians stay those at other parameters."""

    def __init__(self, s, y, at):
        super().__init__(s, y)
        self.at = at

    def gens(self, trace=None):
        base = super().gens()
        if trace is None:
            return base
        return [b + n - z for b, n, z in zip(
            base, self.at.gens(trace), self.at.gens())]


def depends(s):
    """The noise amplitudes depend on the controls."""
    return (s['kind'] == 'mc' and s['noise']['naf']) or (
        s['kind'] == 'mcctrl' and s['m']['amp']['kind'] != 'identity')


def smooth(c, s, y):
    return restricted_ok(c, RefSolver(s, y), .15)


@subcheck('gradient', cost_case(WITH_GRAD, max_x=6, max_y=3, units=True,
                                approx=(None,)).filter(
    lambda c: c['s']['m']['n'] * c['s']['m']['p'] <= 6),
    quick=500, thorough=10000, shards=6)
def gradient(case, rec):
    from qopt.simulator import Simulator
    c, s = case['c'], case['s']
    y = np.array(s['m']['y'])
    if not smooth(c, s, y):
        rec.nontrivial(False)
        return
    solver = build_solver(s)
    sim = Simulator([solver], [cost_of(case, solver)])
    Y = s['m'].get('Y', 1.)
    got = sim.wrapped_jac_function(y) * Y
    exp, err = jac_err(lambda v: ref_cost(c, RefSolver(s, v * Y)), y / Y)
    tol = 2e-6 + err
    if depends(s) and c['kind'] == 'opnoise':
        at = RefSolver(s, y)
        alt = jac(lambda v: ref_cost(c, FrozenRef(s, v * Y, at)), y / Y)
        if arr(got).shape == alt.shape and np.max(np.abs(got - alt)) < \
                tol * (1 + np.max(np.abs(alt))):
            exp = alt
        rec.label('noise depends on controls')
    close(got, exp, 'Jacobian of %s' % c['kind'], tol, tol)
    close(sim.wrapped_cost_functions(y), ref_cost(c, RefSolver(s, y)),
          'costs of %s' % c['kind'], 1e-7, shape=False)
    close(sim.wrapped_jac_function(y) * Y, exp, 'repeated Jacobian', tol,
          tol)
    args_unchanged(sim.cost_funcs[0])
    # one step away
    y2 = other_pulse(s['m'])
    if smooth(c, s, y2) and y.size <= 3 and not depends(s):
        exp2, err = jac_err(lambda v: ref_cost(c, RefSolver(s, v * Y)),
                            y2 / Y)
        close(sim.wrapped_jac_function(y2) * Y, exp2,
              'Jacobian of %s at new parameters' % c['kind'], 2e-6 + err,
              2e-6)
    rec.label(c['kind'])
    rec.label('units', 'T' in s['m'])
    rec.label(s['kind'])
    rec.label('comp', c.get('comp') is not None)
    rec.label('flag', c.get('comp') is not None and c.get('flag'))
    rec.label('amp:' + s['m']['amp']['kind'])
    rec.label('tf', s['m']['tf'] is not None)
    rec.nontrivial(np.max(np.abs(exp)) > 1e-5)


def small(c):
    return c['s']['m']['n'] * c['s']['m']['p'] <= 4


@subcheck('subspace', cost_case(
    ('op', 'opsup', 'state'), max_x=5, max_y=2, approx=(None,),
    dims=(3, 3, 4), proper=True).filter(small),
    quick=250, thorough=5000, shards=4)
def subspace(case, rec):
    """A proper subset of computational states."""
    gradient(case, rec)


@subcheck('noise_subspace', cost_case(
    ('opnoise',), max_x=5, max_y=2, approx=(None,), dims=(3,), proper=True)
    .filter(lambda c: small(c) and not depends(c['s'])),
    quick=250, thorough=5000, shards=4)
def noise_subspace(case, rec):
    """Noise-averaged infidelity with computational states."""
    gradient(case, rec)


@subcheck('large', st.tuples(large_cost(
    ('op', 'op', 'opsup', 'state', 'opnoise', 'leak'), naf=False,
    profiles=('steps', 'controls', 'dim', 'traces', 'mix') * 2 + ('long',)
    ).filter(
        lambda c: not depends(c['s'])), st.integers(0, 2 ** 31)).map(
            lambda t: dict(t[0], seed=t[1])),
    quick=60, thorough=2000, shards=6)
def large(case, rec):
    """Directional derivatives for many steps, controls, levels, traces."""
    from qopt.simulator import Simulator
    c, s = case['c'], case['s']
    y = np.array(s['m']['y'])
    if not smooth(c, s, y):
        rec.nontrivial(False)
        return
    solver = build_solver(s)
    sim = Simulator([solver], [cost_of(case, solver)])
    Y = s['m'].get('Y', 1.)
    got = arr(sim.wrapped_jac_function(y)) * Y
    require(got.shape == (y.shape[0], 1, y.shape[1]),
            'Jacobian of shape %s' % (got.shape,))
    rng = np.random.RandomState(case['seed'])
    one = np.zeros(y.shape)
    one[rng.randint(y.shape[0]), rng.randint(y.shape[1])] = 1
    for v in (rng.normal(size=y.shape) / np.sqrt(y.size), one):
        exp, err = along(lambda x: ref_cost(c, RefSolver(s, x * Y)), y / Y,
                         v)
        close(np.einsum('tfc,tc->f', got, v), exp,
              'directional derivative of %s' % c['kind'], 2e-6 + err,
              2e-6)
    rec.label(s['kind'])
    rec.label(s['profile'])
    rec.nontrivial(np.max(np.abs(got)) > 1e-5)


@subcheck('traces', st.tuples(large_cost(
    ('opnoise',), naf=False, profiles=('traces', 'few', 'few')).filter(
        lambda c: not depends(c['s'])), st.integers(0, 2 ** 31)).map(
            lambda t: dict(t[0], seed=t[1])),
    quick=100, thorough=3000, shards=3)
def traces(case, rec):
    """Averages over one to 25 noise realisations."""
    large(case, rec)
    c = case['c']
    rec.label('deviation from the mean', c['neglect'])
    rec.label('deviation from the ideal', c['no_target'])


@subcheck('several_costs', st.lists(
    cost_case(WITH_GRAD, max_x=5, max_y=2, approx=(None,), dims=(2,)),
    min_size=1, max_size=1).flatmap(
        lambda l: st.tuples(st.just(l[0]), st.lists(cost_spec(
            l[0]['s'], {'lindblad': 'opsup', 'schroedinger': 'op'}.get(
                l[0]['s']['kind'], 'opnoise')), min_size=1, max_size=2)))
    .filter(lambda t: t[0]['c']['kind'] not in KET)
    .map(lambda t: {'s': t[0]['s'], 'c': [t[0]['c']] + t[1]}),
    quick=100, thorough=2000, shards=2)
def several(case, rec):
    """Several costs of one solver, each with its own row."""
    from qopt.simulator import Simulator
    s, cs = case['s'], case['c']
    if depends(s):
        rec.nontrivial(False)
        return
    y = np.array(s['m']['y'])
    if not all(smooth(c, s, y) for c in cs):
        rec.nontrivial(False)
        return
    solver = build_solver(s)
    sim = Simulator([solver], [cost_of({'s': s, 'c': c}, solver)
                               for c in cs])

    def f(v):
        r = RefSolver(s, v)
        return np.array([ref_cost(c, r) for c in cs])
    exp, err = jac_err(f, y)
    close(sim.wrapped_cost_functions(y), f(y), 'costs', 1e-7)
    close(sim.wrapped_jac_function(y), exp, 'Jacobian', 2e-6 + err, 2e-6)
    rec.nontrivial(np.max(np.abs(exp)) > 1e-5)


@st.composite
def average_case(draw):
    s = draw(solver_spec(kinds=('schroedinger',), dims=(2,), max_x=5,
                         max_ctrl=2, approx=(None,)))
    s['m']['init'] = 'default'
    return {'s': s, 't': draw(cmat(2, lo=-8, hi=8)),
            'commute': draw(st.booleans())}


@subcheck('average', average_case(), quick=60, thorough=2000)
def average(case, rec):
    """Derivatives of the average gate fidelity by the control amplitudes."""
    from qopt import cost_functions as cf
    from qopt.matrix import DenseOperator
    s = case['s']
    m = s['m']
    y = np.array(m['y'])
    if case['commute']:
        # the first order formula is exact for commuting Hamiltonians
        m['h_ctrl'] = [m['h_ctrl'][0]] * m['c']
        m['h_drift'] = [m['h_ctrl'][0]] * len(m['h_drift'])
    t = unitary_of(to_c(case['t']))
    ref = RefSolver(s, y)

    def fid(u):
        U = np.eye(2, dtype=complex)
        for p in ref.rm.props_u(u):
            U = p @ U
        return np.array([(np.abs(np.trace(t.conj().T @ U)) ** 2 + 2) / 6])

    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    props, past = solver.propagators, solver.forward_propagators
    close(cf.averge_gate_fidelity(past[-1], op(t)), fid(ref.u)[0],
          'average gate fidelity', 1e-8)
    exp, err = jac_err(fid, ref.u)
    exp = exp[:, 0, :]
    du = np.empty(exp.shape, dtype=object)
    for k, per_ctrl in enumerate(solver.frechet_deriv_propagators):
        for j, d in enumerate(per_ctrl):
            du[j, k] = d
    got = cf.derivative_average_gate_fid_with_du(props, past, du, op(t))
    close(got, exp, 'derivative of the average gate fidelity', 2e-6 + err,
          2e-6)
    if case['commute'] and len(set(solver.transferred_time)) == 1:
        h = np.empty(exp.shape, dtype=object)
        for j, k in np.ndindex(*exp.shape):
            h[j, k] = DenseOperator(to_herm(m['h_ctrl'][k]))
        got = cf.derivative_average_gate_fidelity(
            h, props, past, solver.transferred_time[0], op(t))
        close(got, exp, 'first order derivative', 2e-6 + err, 2e-6)
        rec.label('first order')
    close([p.data for p in props], ref.props(), 'propagators afterwards',
          1e-8)
    rec.nontrivial(np.max(np.abs(exp)) > 1e-5)


subcheck('filter_functions', grad_case(), quick=120, thorough=2000, shards=6)(
    ff_gradient)


def finding(kind):
    """Derivative of a noise-averaged infidelity, one control, one step."""
    from qopt.simulator import Simulator
    m = {'d': 2, 'c': 1, 'n': 1, 'p': 1, 'tf': None, 'tau': [1.],
         'amp': {'kind': 'identity', 'p': 1, 'c': 1}, 'method': 'Frechet',
         'h_ctrl': [{'style': 'pauli', 'd': 2, 'k': 1, 'at': 0, 's': .5}],
         'y': [[1.]], 'tau_list': False, 'drift_style': 'one',
         'h_drift': [{'style': 'pauli', 'd': 2, 'k': 3, 'at': 0, 's': .25}],
         'init': 'default'}
    s = {'kind': kind, 'm': m, 'deriv': False, 'approx': None,
         'noise': {'samples': [[[.25], [-.5]]], 'naf': 'u',
                   'h': [{'style': 'pauli', 'd': 2, 'k': 3, 'at': 0,
                          's': .5}]}}
    if kind == 'mcctrl':
        m['amp'] = {'kind': 'unary', 'f': 'square', 'p': 1, 'c': 1}
    c = {'kind': 'opnoise', 'comp': None, 'flag': False, 'neglect': False,
         'no_target': False, 'target': {'re': [[0., 1.], [1., 0.]],
                                        'im': [[0., 0.], [0., 0.]]}}
    y = np.array(m['y'])
    solver = build_solver(s)
    got = Simulator([solver], [cost_of({'s': s, 'c': c}, solver)]
                    ).wrapped_jac_function(y)
    exp = jac(lambda v: ref_cost(c, RefSolver(s, v)), y)
    return not np.allclose(got, exp, atol=1e-6)


@known_probe('C16-noise-amplitude-function')
def probe_naf():
    return finding('mc')


@known_probe('C16-control-noise-amplitude-function')
def probe_ctrl():
    return finding('mcctrl')
