"""C07: derivatives of the propagators by the control amplitudes."""
from vlib.core import *
from vlib.solvers import *

META = dict(
    rule='Random closed, noisy and open solvers (dimension 2-4, up to three '
         'controls, five steps, transfer and amplitude functions, degenerate '
         'and zero operators), queried in random order. The derivatives are '
         'compared with those from the exponential of the augmented block '
         'matrix, with central differences of the solver itself, and the '
         'GRAPE approximation with its definition. Non-trivial: at least one '
         'control operator does not commute with the generator of its step.',
    assumptions=['the noise amplitudes are independent of the control '
                 'amplitudes where derivatives of noisy propagators are '
                 'checked'])


def noncommuting(ref):
    for t, g in enumerate(ref.gens()):
        for e in ref.dirs()[t]:
            if np.linalg.norm(g @ e - e @ g) > 1e-6:
                return True
    return False


@st.composite
def exact_case(draw):
    s = draw(solver_spec(dims=(2, 2, 3, 4), max_ctrl=3, max_y=4, max_x=6,
                         units=True, zero_steps=True))
    return {'s': s, 'pre': [draw(st.sampled_from(QUERIES))
                            for _ in range(draw(st.integers(0, 2)))]}


@subcheck('exact', exact_case(), quick=500, thorough=12000, shards=4)
def exact(case, rec):
    s = case['s']
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    ref = RefSolver(s, y)
    for q in case['pre']:
        check_query(s, solver, ref, q, 'before: ')
    check_query(s, solver, ref, 'd')
    if s['kind'].startswith('mc'):
        check_query(s, solver, ref, 'dn')
    # the derivatives do not disturb the propagators
    check_query(s, solver, ref, 'p', 'after: ')
    check_query(s, solver, ref, 'f', 'after: ')
    rec.label(s['kind'])
    rec.label('grape' if s['approx'] else 'analytic')
    rec.label('method:%s' % s['m']['method'])
    rec.nontrivial(noncommuting(ref))


@subcheck('large', st.tuples(
    large_spec(approx=('grape', None), profiles=(
        'steps', 'controls', 'dim', 'traces', 'mix') * 2 + ('long',)), st.sampled_from(QUERIES)).map(
        lambda t: {'s': t[0], 'pre': [t[1]]}),
    quick=40, thorough=1200, shards=4)
def large(case, rec):
    exact(case, rec)


@st.composite
def fd_case(draw):
    s = draw(solver_spec(dims=(2, 3), max_y=3, tf=False, amp=False, units=True,
                         approx=(None,), zero_steps=True))
    return {'s': s, 't': draw(st.integers(0, s['m']['n'] - 1)),
            'c': draw(st.integers(0, s['m']['c'] - 1))}


@subcheck('differences', fd_case(), quick=250, thorough=5000, shards=2)
def differences(case, rec):
    """Central differences of the code's own propagators."""
    s, t, c = case['s'], case['t'], case['c']
    if s['kind'] == 'mc':
        s['noise']['naf'] = None
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    noisy = s['kind'].startswith('mc')

    def props(v):
        solver.set_optimization_parameters(v)
        out = [[p.data.copy() for p in solver.propagators]]
        if noisy:
            out += [[p.data.copy() for p in tr]
                    for tr in solver.propagators_noise]
        return np.array(out)
    Y = s['m'].get('Y', 1.)
    eps = 1e-4
    e = np.zeros_like(y)
    e[t, c] = eps * Y
    # fourth order central differences
    num = (8 * (props(y + e) - props(y - e))
           - (props(y + 2 * e) - props(y - 2 * e))) / (12 * eps)
    solver.set_optimization_parameters(y)
    d = [solver.frechet_deriv_propagators]
    if noisy:
        d += list(solver.frechet_deriv_propagators_noise)
    n = len(solver.propagators)
    for k in range(len(d)):
        for tt in range(n):
            got = arr(d[k][c][tt]) * Y
            if tt == t:
                scale = 1 + np.max(np.abs(num[k, tt]))
                close(got, num[k, tt], 'derivative %d control %d step %d'
                      % (k - 1, c, tt), atol=1e-6 * scale ** 2)
            else:
                close(num[k, tt], np.zeros_like(num[k, tt]),
                      'dependence of step %d on step %d' % (tt, t), 1e-8)
    rec.label(s['kind'])
    rec.nontrivial(noncommuting(RefSolver(s, y)))


@st.composite
def grape_case(draw):
    s = draw(solver_spec(dims=(2, 3), max_y=2, tf=False, amp=False,
                         approx=('grape',), deriv=False))
    return {'s': s}


@subcheck('grape_limit', grape_case(), quick=150, thorough=3000)
def grape_limit(case, rec):
    """The approximation becomes exact for short time steps."""
    s = case['s']
    s['m']['tau'] = [.001 * t for t in s['m']['tau']]
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    ref = RefSolver(s, y)
    sets = [(solver.frechet_deriv_propagators, ref.dprops())]
    if s['kind'].startswith('mc'):
        sets += [(g, ref.dprops(k)) for k, g in
                 enumerate(solver.frechet_deriv_propagators_noise)]
    for got, exp in sets:
        for c in range(len(exp)):
            for t in range(len(exp[c])):
                g = max(np.linalg.norm(ref.gens(k)[t]) for k in
                        (range(ref.n_traces) if s['kind'].startswith('mc')
                         else [None]))
                tau = ref.xt[t]
                e = np.linalg.norm(ref.dirs()[t][c])
                b = 4 * tau ** 2 * (g + np.linalg.norm(ref.gens()[t])) * e
                close(got[c][t].data, exp[c][t], 'grape derivative',
                      atol=b + 1e-12, rtol=0)
    rec.label(s['kind'])
    rec.nontrivial(noncommuting(ref))
