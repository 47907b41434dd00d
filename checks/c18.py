"""C18: filter function infidelities and their gradient."""
import scipy.linalg as la
from vlib.core import *
from vlib.costs import *
from vlib.ff import *

META = dict(
    rule='Random closed control problems (with transfer and amplitude '
         'functions), one to three noise operators with constant, stepwise '
         'or amplitude dependent susceptibilities and names in any order, '
         'one spectrum for all or one for each operator, and frequency grids '
         'of three to eight unevenly spaced points. The reference integrates '
         'the interaction picture noise operators in the eigenbasis of '
         'every time step and the spectrum by the trapezoidal rule on the same '
         'grid; gradients are compared with its seven point differences. '
         'Non-trivial: the infidelity and its gradient do not vanish.',
    assumptions=['the trapezoidal rule on the given grid defines the '
                 'frequency integral', 'noise operators are traceless (the '
                 'identity does not dephase)',
                 'gradients: the derivative of the filter functions comes '
                 'from the external package, which is undefined (NaN) for '
                 'degenerate Hamiltonians and for vanishing amplitude '
                 'dependent susceptibilities and numerically unstable where '
                 'a frequency of the grid hits a transition frequency; such '
                 'gradients are not compared',
                 'gradients: two-level control Hamiltonians are traceless, '
                 'see the known finding C18-two-level-trace'])


@subcheck('infidelity', ff_case(), quick=300, thorough=8000, shards=4)
def value(case, rec):
    y = np.array(case['s']['m']['y'])
    seen = {}
    solver = build(case, seen)
    cost = build_ff(case, solver)
    solver.set_optimization_parameters(y)
    exp = infidelity(case, y)
    close(cost.costs(), exp, 'infidelity', 1e-8, 1e-7)
    given_to_user(case, seen, y)
    solver.create_pulse_sequence()
    close(cost.costs(), exp, 'infidelity after creating the pulse sequence '
          'again', 1e-8, 1e-7)
    y2 = other_pulse(case['s']['m'])
    solver.set_optimization_parameters(y2)
    close(cost.costs(), infidelity(case, y2),
          'infidelity of new parameters', 1e-8, 1e-7)
    given_to_user(case, seen, y2)
    if case['z']['style'] != 'default':
        later = json.loads(json.dumps(case))
        later['s']['m']['tau'] = other_times(case['s']['m'])
        solver.set_times(np.array(later['s']['m']['tau']))
        close(cost.costs(), infidelity(later, y2),
              'infidelity of new times', 1e-8, 1e-7)
    # quadratic in the noise operators, linear in the spectrum
    twice = json.loads(json.dumps(case))
    if case['z']['style'] != 'default':
        for h in ('a', 'b'):
            twice['z'][h] = (2 * np.array(case['z'][h])).tolist()
        twice['z']['q'] = (2 * np.array(case['z']['q'])).tolist()
        two = build(twice)
        two.set_optimization_parameters(y)
        close(build_ff(twice, two).costs(), 4 * exp,
              'infidelity of doubled susceptibilities', 1e-8, 1e-7)
    rec.label(case['z']['style'])
    rec.label('%d operators' % len(exp))
    rec.label('own spectra', case['sp']['per_op'] and len(exp) > 1)
    rec.nontrivial(np.max(exp) > 1e-6)


BASES = ('none', 'pauli', 'ggm', 'rotated')


def basis_of(name, d):
    import filter_functions as ff
    if name == 'pauli' and d == 2:
        return ff.Basis.pauli(1)
    b = ff.Basis.ggm(d)
    if name == 'rotated':
        v = np.exp(2j * np.pi * np.outer(range(d), range(d)) / d) / np.sqrt(d)
        b = ff.Basis(v @ np.asarray(b) @ v.conj().T)
    return b


@subcheck('sequence', st.tuples(
    ff_case(), st.sampled_from(BASES), st.sampled_from(BASES),
    st.booleans()).map(list), quick=120, thorough=3000, shards=2)
def sequence(case, rec):
    """The pulse sequence handed over to the external package."""
    case, own, given, new = case
    d = case['s']['m']['d']
    y = np.array(case['s']['m']['y'])
    kw = {} if own == 'none' else {'filter_function_basis': basis_of(own, d)}
    solver = build(case, **kw)
    kw = {} if given == 'none' else {'ff_basis': basis_of(given, d)}
    if new:
        ps = solver.create_pulse_sequence(y.copy(), **kw)
    else:
        solver.set_optimization_parameters(y.copy())
        ps = solver.create_pulse_sequence(**kw)
    require(ps is solver.pulse_sequence, 'the pulse sequence is returned')
    r = RefSolver(case['s'], y)
    nx, nc = len(r.xt), len(r.u[0])
    close(ps.dt, r.xt, 'time steps of the pulse sequence')
    require(sorted(ps.c_oper_identifiers) == sorted(
        'Control%d' % i for i in range(nc)), 'names of the controls')
    for name, h, a in zip(ps.c_oper_identifiers, ps.c_opers, ps.c_coeffs):
        i = int(name[7:])
        close(h, to_herm(case['s']['m']['h_ctrl'][i]), name)
        close(a, r.u[:, i], 'amplitudes of ' + name)
    z = case['z']
    sus = suscept(z, r.u, case['s']['m'].get('U', 1.))
    names = z['names'] if z['style'] != 'default' \
        else solver.filter_function_n_oper_identifiers
    require(len(names) == len(z['h']) == len(set(names)) and sorted(
        names) == sorted(ps.n_oper_identifiers),
        'names of the noise operators %r' % (ps.n_oper_identifiers,))
    for name, h, a in zip(ps.n_oper_identifiers, ps.n_opers, ps.n_coeffs):
        k = list(names).index(name)
        close(h, traceless(z['h'][k]), 'noise operator ' + name)
        close(a, sus[k], 'susceptibility of ' + name)
    U = np.eye(d)
    for l, (h, dt) in enumerate(zip(r.rm.hams(r.u), r.xt)):
        U = la.expm(-1j * h * dt) @ U
        close(ps.propagators[l + 1], U, 'propagator after step %d' % l, 1e-8)
    close(ps.total_propagator, U, 'total propagator', 1e-8)
    for name in (given, own):
        if name != 'none':
            close(ps.basis, basis_of(name, d), 'basis')
            break
    w = np.array(case['sp']['omega'])
    F = ps.get_filter_function(w)
    exp = filter_functions(case, y)
    for i, name in enumerate(ps.n_oper_identifiers):
        close(F[i, i].real, exp[list(names).index(name)],
              'filter function of ' + name, 1e-8, 1e-7)
    close(build_ff(case, solver).costs(), infidelity(case, y), 'infidelity',
          1e-8, 1e-7)
    rec.label('basis ' + given)
    rec.label('own basis ' + own)
    rec.nontrivial(np.max(np.abs(exp)) > 1e-6)


@st.composite
def spectra_case(draw):
    c = draw(ff_case(max_x=4))
    T = c['sp']['T']
    c['others'] = []
    for _ in range(draw(st.integers(1, 3))):
        sp = dict(c['sp'], kind=draw(st.sampled_from(
            ['white', 'lorentz', 'exp'])), amp=draw(nums(
                len(c['sp']['amp']), 1, 12)))
        if draw(st.booleans()):     # the same number of frequencies
            k = len(sp['omega'])
            sp['omega'] = [x / 8 / T for x in sorted(draw(st.lists(
                st.integers(0, 64), min_size=k, max_size=k, unique=True)))]
        c['others'].append(sp)
    c['unit'] = draw(st.sampled_from([0, 0, -15, -9, 6]))
    return c


@subcheck('spectra', spectra_case(), quick=150, thorough=4000, shards=2)
def spectra(case, rec):
    """Several costs with their own spectra, and replaced spectra."""
    y = np.array(case['s']['m']['y'])
    U = 10. ** case['unit']

    def psd(sp):
        return lambda w: U * spectrum(sp, w)
    from qopt.cost_functions import OperatorFilterFunctionInfidelity
    sps = [case['sp']] + case['others']
    solver = build(case)
    cs = [OperatorFilterFunctionInfidelity(solver, psd(sp),
                                           np.array(sp['omega']))
          for sp in sps]
    solver.set_optimization_parameters(y)
    exps = [infidelity(dict(case, sp=sp), y) for sp in sps]
    for c, e in list(zip(cs, exps)) + list(zip(cs, exps))[:1]:
        close(arr(c.costs()) / U, e, 'infidelity of one of several costs',
              1e-9, 1e-7)
    first = sps[0]
    for sp in sps[::-1]:
        # other noise, at the frequencies of the first cost
        cs[0].noise_power_spec_density = psd(sp)
        close(arr(cs[0].costs()) / U,
              infidelity(dict(case, sp=dict(sp, omega=first['omega'])), y),
              'infidelity of a replaced spectrum', 1e-9, 1e-7)
    rec.label('%d spectra' % len(sps))
    rec.label('small', U < 1)
    rec.nontrivial(np.max(exps) > 1e-6)


@subcheck('own_frequencies', ff_case(), quick=60, thorough=1500)
def own_frequencies(case, rec):
    """Without a given grid the frequencies are those of the package."""
    from filter_functions.util import get_sample_frequencies
    y = np.array(case['s']['m']['y'])
    solver = build(case)
    cost = build_ff(case, solver, omega=False)
    solver.set_optimization_parameters(y)
    got = cost.costs()
    w = np.array(cost.omega)
    require(w.ndim == 1 and len(w) > 10 and np.all(np.diff(w) > 0)
            and np.all(w >= 0), 'default frequencies %r' % (w[:5],))
    close(w, get_sample_frequencies(solver.pulse_sequence, n_samples=200,
                                    spacing='log'),
          'default frequencies', 1e-12, 1e-9)
    exp = infidelity(dict(case, sp=dict(case['sp'], omega=w.tolist())), y)
    close(got, exp, 'infidelity', 1e-8, 1e-7)
    rec.label(case['z']['style'])
    rec.nontrivial(np.max(exp) > 1e-6)


subcheck('gradient', grad_case(), quick=200, thorough=4000, shards=6)(
    ff_gradient)


@st.composite
def large_ff(draw):
    s = draw(large_spec(kinds=('schroedinger', 'schroedinger', 'mc'),
                        naf=False))
    m = s['m']
    b = Bulk(draw(st.integers(0, 2 ** 31)))
    T = m.get('T', 1.)
    nx = num_x_of(m['tf'], m['n']) if m['tf'] else m['n']
    style = draw(st.sampled_from(['list', 'callable', 'callable']))
    if s['kind'] == 'mc' and draw(st.booleans()):
        style = 'default'
    k = len(s['noise']['h']) if style == 'default' else draw(
        st.integers(1, 12))
    z = {'style': style, 'names': ['N%d' % (k - i) for i in range(k)],
         'h': s['noise']['h'] if style == 'default' else
         [b.herm(m['d']) for _ in range(k)],
         'a': b.table(k, nx, -8, 8), 'b': b.table(k, m['c'], -8, 8),
         'q': b.nums(k, -4, 4), 'qobj': draw(st.booleans())}
    w = np.sort(b.rng.uniform(.01, 6, draw(st.integers(3, 60))))
    sp = {'omega': [float(x) / T for x in w], 'T': T,
          'per_op': draw(st.booleans()),
          'kind': draw(st.sampled_from(['white', 'lorentz', 'exp'])),
          'amp': b.nums(k, 1, 12)}
    if m['d'] == 2:
        m['h_ctrl'] = [dict(h, m={'re': traceless(dict(h, scale=1)).real
                                  .tolist(),
                                  'im': traceless(dict(h, scale=1)).imag
                                  .tolist()}) for h in m['h_ctrl']]
    return {'s': s, 'z': z, 'sp': sp, 'seed': draw(st.integers(0, 2 ** 31))}


@subcheck('large', large_ff(), quick=50, thorough=1500, shards=4)
def large(case, rec):
    """Many steps, controls, noise operators and frequencies."""
    from qopt.simulator import Simulator
    m = case['s']['m']
    y, Y = np.array(m['y']), m.get('Y', 1.)
    solver = build(case)
    sim = Simulator([solver], [build_ff(case, solver)])
    base = infidelity(case, y)
    close(sim.wrapped_cost_functions(y), base, 'infidelity', 1e-8, 1e-7)
    rec.label(case['s']['profile'])
    rec.nontrivial(np.max(base) > 1e-6)
    if not smooth(case, y) or m['n'] * m['c'] > 60:
        return
    got = arr(sim.wrapped_jac_function(y)) * Y
    require(got.shape == (m['n'], len(base), m['p']), 'shape of the Jacobian '
            '%s' % (got.shape,))
    v = np.random.RandomState(case['seed']).normal(size=y.shape) \
        / np.sqrt(y.size)
    exp, err = along(lambda x: infidelity(case, x * Y), y / Y, v)
    scale = 1 + np.max(np.abs(got))
    if err < 1e-4 * scale:
        close(np.einsum('tfc,tc->f', got, v), exp, 'directional derivative',
              1e-6 * scale + 2 * err, 1e-6)
        rec.label('gradient')


@subcheck('slow_noise', ff_case(kinds=['mc'], max_x=4, max_y=3),
          quick=120, thorough=3000, shards=2)
def slow_noise(case, rec):
    """Leading order agreement with sampled static noise."""
    from qopt.cost_functions import (OperationNoiseInfidelity,
                                     OperatorFilterFunctionInfidelity)
    s, z = case['s'], dict(case['z'], style='default')
    m = s['m']
    if m['init'] in ('ket', 'rect'):
        m = dict(m, init='default')
    z['h'] = s['noise']['h'][:1]
    T = m.get('T', 1.)
    eps, wmax = 1e-3, 1e-5 / T
    nx = len(RefSolver(s, np.array(m['y'])).xt)
    s = dict(s, m=m, noise=dict(s['noise'], h=z['h'], naf=None, samples=[
        [[eps] * nx, [-eps] * nx]]))
    cc = {'s': s, 'z': z, 'sp': case['sp']}
    solver = build(cc)
    solver.set_optimization_parameters(np.array(m['y']))
    mc = OperationNoiseInfidelity(solver, None).costs() / eps ** 2
    ff = OperatorFilterFunctionInfidelity(
        solver, lambda w: np.full(len(w), 2 * np.pi / wmax),
        np.array([0, wmax / 2, wmax])).costs()
    require(np.shape(ff) == (1,), 'one infidelity per noise operator')
    close(ff[0], mc, 'leading order infidelity of slow noise', 1e-4, 1e-3)
    rec.nontrivial(mc > 1e-3)


@subcheck('many_controls', st.tuples(st.integers(10, 13), nums(26, -8, 8),
                                     nums(2, 1, 8)).map(list),
          quick=30, thorough=300)
def many_controls(case, rec):
    """More than ten controls: names do not sort like numbers."""
    from qopt.solver_algorithms import SchroedingerSolver
    c, v, tau = case
    h = [{'style': 'pauli', 'd': 2, 'k': 1 + i % 3, 'at': 0,
          's': (i + 1) / 16} for i in range(c)]
    y = np.array(v[:2 * c]).reshape(2, c)
    m = {'d': 2, 'c': c, 'n': 2, 'p': c, 'tf': None, 'tau': tau,
         'amp': {'kind': 'identity', 'p': c, 'c': c}, 'method': 'Frechet',
         'h_ctrl': h, 'y': y.tolist(), 'tau_list': False,
         'drift_style': 'none', 'h_drift': [], 'init': 'default'}
    cc = {'s': {'kind': 'schroedinger', 'm': m, 'deriv': False,
                'approx': None},
          'z': {'style': 'callable', 'names': ['N'], 'h': [
              {'style': 'pauli', 'd': 2, 'k': 3, 'at': 0, 's': 1.}],
                'a': [[1., 1.]], 'b': [[(i - 3) / 8 for i in range(c)]],
                'q': [.125], 'qobj': False},
          'sp': {'omega': [.0, .5, 1.5], 'per_op': False, 'kind': 'lorentz',
                 'amp': [1.]}}
    solver = build(cc)
    cost = build_ff(cc, solver)
    solver.set_optimization_parameters(y)
    exp = infidelity(cc, y)
    close(cost.costs(), exp, 'infidelity', 1e-8, 1e-7)
    solver.create_pulse_sequence()
    close(cost.costs(), exp, 'infidelity after creating the pulse sequence '
          'again', 1e-8, 1e-7)
    if not smooth(cc, y):
        rec.nontrivial(False)
        return
    g = arr(cost.grad())
    e = 1e-4
    for k in (1, 2, 10 % c, c - 1):
        dy = np.zeros_like(y)
        dy[0, k] = e
        num = (infidelity(cc, y + dy) - infidelity(cc, y - dy)) / 2 / e
        close(g[0, :, k], num, 'gradient by control %d' % k, 1e-5, 1e-5)
    rec.nontrivial(np.max(np.abs(g)) > 1e-6)


def probe_case(drift, ctrl, y, h, style='list'):
    full = lambda a: {'style': 'full', 'd': 2, 'm': {
        're': np.real(a).tolist(), 'im': np.imag(a).tolist()}}
    m = {'d': 2, 'c': 1, 'n': len(y), 'p': 1, 'tf': None,
         'tau': [1.] * len(y), 'amp': {'kind': 'identity', 'p': 1, 'c': 1},
         'method': 'Frechet', 'h_ctrl': [full(ctrl)], 'y': y,
         'tau_list': False, 'drift_style': 'single',
         'h_drift': [full(drift)], 'init': 'default'}
    return {'s': {'kind': 'schroedinger', 'm': m, 'deriv': False,
                  'approx': None},
            'z': {'style': style, 'names': ['N'], 'h': [full(h)],
                  'a': [[0. if style == 'callable' else 1.] * len(y)],
                  'b': [[1.]], 'q': [0.], 'qobj': False},
            'sp': {'omega': [.25, .5, 1.5], 'per_op': False,
                   'kind': 'lorentz', 'amp': [1.]}}


def probe_wrong(case):
    solver = build(case)
    cost = build_ff(case, solver)
    y = np.array(case['s']['m']['y'])
    solver.set_optimization_parameters(y)
    with np.errstate(all='ignore'):
        g = arr(cost.grad())
    return not np.allclose(g, jac(lambda v: infidelity(case, v), y),
                           1e-5, 1e-6)


@known_probe('C18-two-level-trace')
def probe_trace():
    from vlib.gen import PAULI
    return probe_wrong(probe_case(PAULI[1], np.diag([0., 1.]), [[.5], [1.]],
                                  PAULI[3]))


@known_probe('C18-degenerate')
def probe_degenerate():
    from vlib.gen import PAULI
    return probe_wrong(probe_case(0 * PAULI[1], PAULI[1], [[0.], [1.]],
                                  PAULI[3]))


@known_probe('C18-vanishing-susceptibility')
def probe_vanishing():
    from vlib.gen import PAULI
    return probe_wrong(probe_case(PAULI[2], PAULI[1], [[0.], [1.]],
                                  PAULI[3], 'callable'))
