"""C03: matrix exponentials."""
from vlib.core import *
from vlib.gen import *
from vlib.models import fwd_of
from vlib.solvers import solver_spec, build_solver, RefSolver
from qopt.matrix import DenseOperator
import scipy.linalg as la

META = dict(
    rule='Matrices of dimension 1 to 12 in units over 18 orders of '
         'magnitude from families (hermitian, '
         'skew-hermitian incl. (nearly) degenerate and Pauli type, unitary, general, '
         'non-orthogonally diagonalisable, Lindblad generators), real or '
         'complex tau and every method. Non-trivial: dimension > 1, tau != 0 '
         'and the matrix is not diagonal.',
    assumptions=['scipy.linalg.expm (checked against a scaled Taylor series '
                 'inside this check) is the reference; the spectral method '
                 'for general matrices is only specified for diagonalisable '
                 'ones and compared with a tolerance proportional to the '
                 'squared condition of the eigenvector matrix.'])


def expm_taylor(a):
    n = max(0, int(np.ceil(np.log2(max(np.linalg.norm(a, 1), 1e-3)))) + 4)
    b = a / 2 ** n
    out = np.eye(len(a), dtype=complex)
    term = np.eye(len(a), dtype=complex)
    for k in range(1, 18):
        term = term @ b / k
        out = out + term
    for _ in range(n):
        out = out @ out
    return out


@st.composite
def matrix_of(draw):
    fam = draw(st.sampled_from(['skew', 'skew', 'herm', 'general', 'normal',
                                'similar', 'lindblad', 'zero', 'near',
                                'near', 'bulk']))
    d = draw(st.integers(1, 5)) if fam != 'lindblad' else 2
    m = {'fam': fam, 'd': d}
    if draw(st.integers(0, 4)) == 0:      # other units
        m['unit'] = draw(st.sampled_from([-9, -6, -3, 3, 6, 9]))
    if fam in ('skew', 'near') and draw(st.integers(0, 4)) == 0:
        m['long'] = draw(st.sampled_from([4., 16., 64.]))
    if fam == 'bulk':
        m['d'] = draw(st.integers(6, 12))
        m['seed'] = draw(st.integers(0, 2 ** 31))
        m['skew'] = draw(st.booleans())
    if fam in ('skew', 'herm'):
        m['h'] = draw(herm(d))
    elif fam == 'general':
        m['a'] = draw(cmat(d, lo=-10, hi=10))
    elif fam == 'normal':
        m['a'] = draw(cmat(d, lo=-8, hi=8))
        m['v'] = draw(cmat(d, 1))
    elif fam == 'similar':
        m['a'] = draw(cmat(d, lo=-3, hi=3))
        m['v'] = draw(cmat(d, 1))
    elif fam == 'lindblad':
        m['h'] = draw(herm(2))
        m['a'] = draw(cmat(2, lo=-6, hi=6))
    elif fam == 'near':
        # nearly degenerate spectrum, any splitting
        m['a'] = draw(cmat(d, lo=-8, hi=8))
        m['w'] = draw(st.lists(st.tuples(st.integers(-1, 1), st.integers(
            -3, 3), st.floats(0, 15)).map(list), min_size=d, max_size=d))
    return m


def is_skew(m):
    return m['fam'] in ('skew', 'near') or (m['fam'] == 'bulk' and m['skew'])


def to_matrix(m):
    return _matrix(m) * m.get('long', 1.) * 10. ** m.get('unit', 0)


def _matrix(m):
    d, fam = m['d'], m['fam']
    if fam == 'bulk':
        b = Bulk(m['seed'])
        return -1j * to_herm(b.herm(d)) if m['skew'] else \
            to_c(b.cmat(d, lo=-4, hi=4))
    if fam == 'skew':
        return -1j * to_herm(m['h'])
    if fam == 'herm':
        return to_herm(m['h'])
    if fam == 'general':
        return to_c(m['a'])
    if fam == 'near':
        u = unitary_of(to_c(m['a']))
        a = -1j * u @ np.diag([w[0] + w[1] * 10. ** -w[2] for w in m['w']]) \
            @ u.conj().T
        return (a - a.conj().T) / 2
    if fam == 'normal':
        u = unitary_of(to_c(m['a']))
        return u @ np.diag(to_c(m['v'])[:, 0]) @ u.conj().T
    if fam == 'similar':
        w = np.eye(d) + to_c(m['a']) / max(1., 2 * np.linalg.norm(
            to_c(m['a']), 2))
        return w @ np.diag(to_c(m['v'])[:, 0]) @ np.linalg.inv(w)
    if fam == 'lindblad':
        h, l = to_herm(m['h']), to_c(m['a'])
        i = np.eye(2)
        ll = l.conj().T @ l
        return (-1j * np.kron(i, h) + 1j * np.kron(h.conj(), i)
                + np.kron(l.conj(), l)
                - .5 * np.kron(i, ll) - .5 * np.kron(ll.T, i))
    return np.zeros((d, d), dtype=complex)


@st.composite
def tau_of(draw):
    re = draw(st.sampled_from([0., .125, .5, 1., 1., 1.375, 2., -1., -.25]))
    im = draw(st.sampled_from([0., 0., 0., .5, -1.]))
    return [re, im]


def to_tau(t, m):
    k = 10. ** -m['unit'] if 'unit' in m else 1
    if 'long' in m or t[1] == 0:      # real times only for large phases
        return t[0] * k
    return complex(*t) * k


METHODS = ['spectral', 'Frechet', 'approx', 'first_order', 'second_order',
           'third_order']


@subcheck('exp', st.fixed_dictionaries({
    'm': matrix_of(), 'tau': tau_of(),
    'method': st.sampled_from(METHODS + ['spectral', 'default', 'prop']),
    'skew_flag': st.booleans()}), quick=1500, thorough=40000, shards=2)
def exp_methods(case, rec):
    a = to_matrix(case['m'])
    tau = to_tau(case['tau'], case['m'])
    A = DenseOperator(a.copy())
    d = len(a)
    method = case['method']
    x = a * tau
    full = expm_taylor(x)
    scale = max(1., np.linalg.norm(full, 2))
    close(la.expm(x), full, 'reference implementations differ',
          atol=1e-9 * scale)
    tol = 1e-9 * scale
    skew = is_skew(case['m']) and case['skew_flag']
    if method in ('spectral', 'default', 'prop') and not (
            skew and method == 'spectral'):
        w, v = np.linalg.eig(a)
        c = np.linalg.cond(v)
        if not c < 1e5:
            rec.label('spectral not applicable (defective)')
            rec.nontrivial(False)
            return
        tol = 1e-13 * c ** 2 * d * max(1., np.exp(np.max((w * tau).real))) \
            * max(1, np.abs(w * tau).max()) + tol
    exact = {'first_order': np.eye(d) + x,
             'second_order': np.eye(d) + x + x @ x / 2,
             'third_order': np.eye(d) + x + x @ x / 2 + x @ x @ x / 6}
    ref = exact.get(method, full)
    if method == 'prop':
        res = A.prop(tau)
        if np.linalg.norm(a) < 10:
            close(A.prop().data, A.prop(tau=1.).data, 'prop without time',
                  0, 1e-12)
    elif method == 'default':
        res = A.exp(tau) if case['skew_flag'] else A.exp(tau=tau)
    else:
        res = A.exp(tau=tau, method=method, is_skew_hermitian=skew)
    require(type(res) is DenseOperator, 'exp returns %s' % type(res))
    close(res.data, ref, 'exp by %s of a %s matrix' % (
        method, case['m']['fam']), atol=tol, rtol=1e-9)
    close(A.data, a, 'operand of exp', 0, 0)
    if is_skew(case['m']) and isinstance(tau, float) and \
            ref is full:
        close(res.data.conj().T @ res.data, np.eye(d), 'unitarity',
              atol=1e-8)
        # inverse and composition
        back = A.exp(tau=-tau, method='Frechet' if method == 'prop' or
                     method == 'default' else method, is_skew_hermitian=skew)
        close((res * back).data, np.eye(d), 'exp(A) exp(-A)', atol=1e-8)
    rec.label(method)
    rec.label(case['m']['fam'])
    rec.label('units', 'unit' in case['m'])
    rec.label('long', 'long' in case['m'])
    rec.nontrivial(d > 1 and tau != 0 and np.linalg.norm(
        a - np.diag(np.diag(a))) > 0)


@subcheck('unknown_method', st.fixed_dictionaries({
    'm': cmat(2), 'method': st.sampled_from(['pade', '', 'Spectral'])}),
    quick=20, thorough=100)
def unknown(case, rec):
    A = DenseOperator(to_c(case['m']))
    must_raise((ValueError, NotImplementedError),
               lambda: A.exp(method=case['method']), 'unknown method')


@st.composite
def chosen_case(draw):
    s = draw(solver_spec(kinds=('schroedinger', 'mc', 'mcctrl', 'lindblad'),
                         max_traces=3, max_y=3, max_x=6, dims=(2, 3),
                         approx=(None,)))
    s['m']['method'] = draw(st.sampled_from(
        ['first_order', 'second_order', 'third_order']))
    # (propagators computed along with derivatives are not truncated)
    s['deriv'] = False
    return {'s': s, 'order': list(draw(st.permutations(
        ['p', 'f', 'pn', 'fn']))) + ['d', 'dn'],
            'skew': draw(st.sampled_from([None, True, False]))}


@subcheck('chosen', chosen_case(), quick=100, thorough=3000, shards=2)
def chosen(case, rec):
    """Solvers use the chosen method, for every trace."""
    s = case['s']
    order = {'first_order': 1, 'second_order': 2, 'third_order': 3}[
        s['m']['method']]
    y = np.array(s['m']['y'])
    kw = {} if case['skew'] is None else {'is_skew_hermitian': case['skew']}
    if s['kind'] == 'lindblad':
        kw = {}
    solver = build_solver(s, **kw)
    solver.set_optimization_parameters(y)
    ref = RefSolver(s, y)

    def poly(a):
        out, term = np.eye(len(a), dtype=complex), np.eye(len(a))
        for k in range(1, order + 1):
            term = term @ a / k
            out = out + term
        return out

    def props(k):
        return [poly(g * dt) for g, dt in zip(ref.gens(k), ref.xt)]
    dirs = ref.dirs()
    far = 0.
    for q in case['order']:
        noisy = q.endswith('n')
        if noisy and s['kind'] not in ('mc', 'mcctrl'):
            continue
        name = {'p': 'propagators', 'f': 'forward_propagators',
                'd': 'frechet_deriv_propagators'}[q[0]] + '_noise' * noisy
        got = getattr(solver, name)
        for k in range(ref.n_traces) if noisy else [None]:
            g = got[k] if noisy else got
            if q[0] == 'f':
                exp = fwd_of(props(k), ref.init())
            elif q[0] == 'p':
                exp = props(k)
                far = max(far, np.max(np.abs(np.array(exp) - np.array(
                    ref.props(k)))))
            else:
                for t, a in enumerate(ref.gens(k)):
                    for c, e in enumerate(dirs[t]):
                        n = len(a)
                        blk = np.zeros((2 * n, 2 * n), dtype=complex)
                        blk[:n, :n] = blk[n:, n:] = a * ref.xt[t]
                        blk[:n, n:] = e * ref.xt[t]
                        close(g[c][t].data, poly(blk)[:n, n:],
                              '%s by %s, trace %s, control %d, step %d' % (
                                  name, s['m']['method'], k, c, t),
                              1e-8, 1e-8)
                continue
            for t, e in enumerate(exp):
                close(g[t].data, e, '%s by %s, trace %s, step %d' % (
                    name, s['m']['method'], k, t), 1e-8, 1e-8)
    rec.label(s['kind'])
    rec.label(s['m']['method'])
    rec.nontrivial(far > 1e-6)
