"""Filter functions: cases, reference and the check of the gradient."""
import scipy.linalg as la
from vlib.core import *
from vlib.costs import *


@st.composite
def ff_case(draw, dims=(2, 3), max_x=5, max_y=3, max_ctrl=2, kinds=None,
            grad=False):
    kind = draw(st.sampled_from(kinds or ['schroedinger', 'schroedinger',
                                          'mc']))
    s = draw(solver_spec(kinds=(kind,), dims=dims, max_x=max_x, max_y=max_y,
                         max_ctrl=max_ctrl, max_traces=2, approx=(None,),
                         units=True))
    m = s['m']
    T = m.get('T', 1.)
    nx = num_x_of(m['tf'], m['n']) if m['tf'] else m['n']
    style = draw(st.sampled_from(['list', 'callable', 'callable']))
    if kind == 'mc' and draw(st.booleans()):
        style = 'default'
    k = len(s['noise']['h']) if style == 'default' else draw(
        st.integers(1, 3))
    names = draw(st.permutations(['Z', 'a', 'M1', 'M10', 'M2']))[:k]
    z = {'style': style, 'names': names,
         'h': s['noise']['h'] if style == 'default' else
         [draw(herm(m['d'])) for _ in range(k)],
         'a': draw(table(k, nx, -8, 8)), 'b': draw(table(k, m['c'], -8, 8)),
         'q': draw(nums(k, -4, 4)), 'qobj': draw(st.booleans()),
         # callables of the older interface receive the amplitudes only
         'old': draw(st.integers(0, 3)) == 0}
    w = draw(st.lists(st.integers(0, 64), min_size=3, max_size=8,
                      unique=True).map(sorted))
    sp = {'omega': [x / 8 / T for x in w], 'T': T, 'per_op': draw(st.booleans()),
          'kind': draw(st.sampled_from(['white', 'lorentz', 'exp'])),
          'amp': draw(nums(k, 1, 12))}
    return {'s': s, 'z': z, 'sp': sp}


def spectrum(sp, omega, k=None):
    T = sp.get('T', 1.)
    w = np.asarray(omega, dtype=float) * T
    base = {'white': np.ones_like(w), 'lorentz': 1 / (1 + w ** 2),
            'exp': np.exp(-w / 2)}[sp['kind']] / T
    if k is None:
        if sp['per_op']:
            return np.array([a * base for a in sp['amp']])
        return sp['amp'][0] * base
    return (sp['amp'][k] if sp['per_op'] else sp['amp'][0]) * base


def suscept(z, u, Y=1.):
    """s[k, t]"""
    u = u / Y
    nx = len(u)
    if z['style'] == 'default':
        return np.ones((len(z['h']), nx))
    a = np.array(z['a'])[:, :nx]
    if z['style'] == 'list':
        return a
    return a[:, :1] + np.array(z['b']) @ u.T \
        + np.array(z['q'])[:, None] * u[None, :, 0] ** 2


def suscept_deriv(z, u, Y=1.):
    """ds[k, ctrl, t]"""
    u = u / Y
    out = np.repeat(np.array(z['b'])[:, :, None], len(u), axis=2)
    out[:, 0] += 2 * np.array(z['q'])[:, None] * u[None, :, 0]
    return out / Y


def traceless(h):
    a = to_herm(h)
    return a - np.trace(a) / len(a) * np.eye(len(a))


def build(case, seen=None, **kw):
    s, z = case['s'], case['z']
    Y = s['m'].get('U', 1.)
    hs = [traceless(h) for h in z['h']]
    if z['qobj']:
        import qutip
        hs = [qutip.Qobj(h) for h in hs]
    if z['style'] == 'list':
        kw['filter_function_h_n'] = [
            [h, list(a), n] for h, a, n in zip(
                hs, suscept(z, np.zeros((len(z['a'][0]), 1))), z['names'])]
    elif z['style'] == 'callable':
        def h_n(y, x, u):
            if seen is not None and y is not None:
                seen['h_n'] = np.array(y), np.array(x), np.array(u)
            return [[h, a, n] for h, a, n in zip(hs, suscept(z, u, Y),
                                                 z['names'])]

        def h_n_deriv(y, x, u):
            if seen is not None and y is not None:
                seen['deriv'] = np.array(y), np.array(x), np.array(u)
            return suscept_deriv(z, u, Y)
        kw['filter_function_h_n'] = h_n
        kw['filter_function_n_coeffs_deriv'] = h_n_deriv
        if z.get('old'):
            f, df = [kw['filter_function_' + n]
                     for n in ('h_n', 'n_coeffs_deriv')]
            kw['filter_function_h_n'] = lambda u: f(None, None, u)
            kw['filter_function_n_coeffs_deriv'] = lambda u: df(None, None, u)
    else:
        kw['h_noise'] = [op(traceless(h)) for h in z['h']]
    return build_solver(s, **kw)


def build_ff(case, solver, omega=True):
    from qopt.cost_functions import OperatorFilterFunctionInfidelity
    sp = case['sp']
    return OperatorFilterFunctionInfidelity(
        solver, lambda w: spectrum(sp, w), np.array(sp['omega'])
        if omega else None)


def filter_functions(case, y):
    """F[k, omega]"""
    s, z, w = case['s'], case['z'], np.array(case['sp']['omega'])
    r = RefSolver(s, y)
    sus = suscept(z, r.u, s['m'].get('U', 1.))
    d = s['m']['d']
    B = np.zeros((len(z['h']), len(w), d, d), dtype=complex)
    U, t0 = np.eye(d, dtype=complex), 0.
    hs = [traceless(h) for h in z['h']]
    for l, (h, dt) in enumerate(zip(r.rm.hams(r.u), r.xt)):
        e, v = np.linalg.eigh(h)
        # int_0^dt exp(i (w + e_m - e_n) t) dt, stable for any frequency
        om = w[:, None, None] + e[None, :, None] - e[None, None, :]
        I = dt * np.exp(.5j * om * dt) * np.sinc(om * dt / 2 / np.pi)
        I *= np.exp(1j * w * t0)[:, None, None]
        V = U.conj().T @ v
        for k, n in enumerate(hs):
            B[k] += sus[k, l] * (V @ ((v.conj().T @ n @ v)[None] * I)
                                 @ V.conj().T)
        U = v @ np.diag(np.exp(-1j * e * dt)) @ v.conj().T @ U
        t0 += dt
    return np.sum(np.abs(B) ** 2, axis=(2, 3))


def infidelity(case, y):
    sp = case['sp']
    F = filter_functions(case, y)
    w = np.array(sp['omega'])
    d = case['s']['m']['d']
    out = []
    for k in range(len(F)):
        f = spectrum(sp, w, k) * F[k]
        out.append(np.sum((f[1:] + f[:-1]) * np.diff(w)) / 2
                   / (2 * np.pi * d))
    return np.array(out)


def smooth(case, y):
    """The external package can differentiate the filter functions."""
    r = RefSolver(case['s'], y)
    T, Y = [case['s']['m'].get(k, 1.) for k in 'TU']
    w = np.array(case['sp']['omega']) * T
    gap = 1.
    for h in r.rm.hams(r.u):
        e = np.linalg.eigvalsh(h) * T
        de = np.subtract.outer(e, e)[~np.eye(len(e), dtype=bool)]
        gap = min(gap, np.min(np.abs(de)),
                  np.min(np.abs(np.add.outer(w, de))))
    if case['z']['style'] == 'callable':
        if np.min(np.abs(suscept(case['z'], r.u, Y))) < 1e-2:
            return False
    return gap > 1e-2


@st.composite
def grad_case(draw):
    c = draw(ff_case(max_x=4, max_y=2).filter(
        lambda c: c['s']['m']['n'] * c['s']['m']['p'] <= 4))
    m = c['s']['m']
    unit = {'scale': 1 / m['T']} if 'T' in m else {}
    if m['d'] == 2:
        m['h_ctrl'] = [
            {'style': 'full', 'd': 2, 'm': {'re': traceless(h).real.tolist(),
                                            'im': traceless(h).imag.tolist()}}
            for h in m['h_ctrl']]
    if draw(st.integers(0, 3)):   # lift degeneracies
        h = draw(cmat(m['d'], lo=-4, hi=4))
        m['drift_style'] = 'single'
        m['h_drift'] = [{**unit, 'style': 'full', 'd': m['d'], 'm': {
            're': (np.array(h['re']) + np.diag(
                np.arange(m['d']) * 1.5)).tolist(), 'im': h['im']}}]
    return c


def given_to_user(case, seen, y):
    """the arguments of the functions of the user"""
    r = RefSolver(case['s'], y)
    m = case['s']['m']
    Y, U = m.get('Y', 1.), m.get('U', 1.)
    for k, (a, b, c) in seen.items():
        close(a / Y, y / Y, 'optimization parameters given to ' + k)
        close(b / Y, r.x / Y, 'transferred parameters given to ' + k)
        close(c / U, r.u / U, 'amplitudes given to ' + k)

def ff_gradient(case, rec):
    from qopt.simulator import Simulator
    y = np.array(case['s']['m']['y'])
    if not smooth(case, y):
        rec.label('not differentiable by the external package')
        rec.nontrivial(False)
        return
    seen = {}
    solver = build(case, seen)
    sim = Simulator([solver], [build_ff(case, solver)])
    Y = case['s']['m'].get('Y', 1.)
    got = sim.wrapped_jac_function(y) * Y
    given_to_user(case, seen, y)
    k = len(case['z']['h'])
    exp = jac(lambda v: infidelity(case, v * Y), y / Y, 1e-3)
    # accuracy of the differences
    tol = 1e-6 + 2 * np.max(np.abs(exp - jac(
        lambda v: infidelity(case, v * Y), y / Y, 2e-3)))
    if tol > 1e-3 * np.max(np.abs(exp)) + 1e-5:
        rec.nontrivial(False)
        return
    close(got, exp, 'gradient of the infidelity', tol, 1e-6)
    close(sim.wrapped_cost_functions(y), infidelity(case, y), 'infidelity',
          1e-8, 1e-7)
    close(sim.wrapped_jac_function(y) * Y, exp, 'repeated gradient', tol,
          1e-6)
    rec.label('units', 'T' in case['s']['m'])
    rec.label(case['z']['style'])
    rec.label('%d operators' % k)
    rec.label('tf', case['s']['m']['tf'] is not None)
    rec.label('amp:' + case['s']['m']['amp']['kind'])
    rec.nontrivial(np.max(np.abs(exp)) > 1e-6)
