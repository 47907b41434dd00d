"""C04: Frechet derivatives of the matrix exponential."""
from vlib.core import *
from vlib.gen import *
from checks.c03 import to_matrix, tau_of, to_tau, matrix_of, METHODS, \
    expm_taylor, is_skew
from vlib import core as _core
_core.SUBCHECKS.clear()   # importing c03 registered its own
from qopt.matrix import DenseOperator

META = dict(
    rule='Matrix (same families as the exponentials, incl. degenerate '
         'spectra), direction, tau, method, flags. Non-trivial: dimension > '
         '1, tau != 0, direction does not commute with the matrix.',
    assumptions=['Reference: upper right block of exp([[A,E],[0,A]]) by a '
                 'scaled Taylor series; Taylor methods: exact derivative of '
                 'the polynomial; method approx: finite difference error '
                 'bound 1e-4.'])


@st.composite
def dexp_case(draw):
    m = draw(matrix_of())
    n = 4 if m['fam'] == 'lindblad' else m['d']
    if n > 5:
        e = Bulk(draw(st.integers(0, 2 ** 31))).cmat(n, lo=-8, hi=8)
    else:
        e = draw(cmat(n, lo=-8, hi=8))
    return {'m': m, 'e': e, 'k': draw(
        st.sampled_from([0, 0, 0, -9, -3, 3, 9])), 'tau': draw(tau_of()),
            'method': draw(st.sampled_from(METHODS + ['spectral', 'default'])),
            'skew_flag': draw(st.booleans()),
            'compute': draw(st.booleans()),
            'as_array': draw(st.booleans()),
            'herm_e': draw(st.booleans())}


@subcheck('dexp', dexp_case(), quick=1500, thorough=40000, shards=2)
def dexp(case, rec):
    a, e = to_matrix(case['m']), to_c(case['e'])
    if case['herm_e']:
        e = -1j * (e + e.conj().T) / 2
    tau = to_tau(case['tau'], case['m'])
    # directions in any units
    unit = 10. ** case['m'].get('unit', 0)
    e = e * unit
    # (a difference quotient with a fixed step needs directions of order one)
    K = 10. ** case['k'] if case['method'] != 'approx' else 1.
    d = len(a)
    x, y = a * tau, e * tau
    block = np.zeros((2 * d, 2 * d), dtype=complex)
    block[:d, :d] = block[d:, d:] = x
    block[:d, d:] = y
    eb = expm_taylor(block)
    full, dfull = eb[:d, :d], eb[:d, d:]
    method = case['method']
    skew = is_skew(case['m']) and case['skew_flag']
    scale = max(1., np.linalg.norm(eb, 2))
    tol = ptol = 1e-9 * scale
    if method not in ('Frechet',) and not (skew and method == 'spectral'):
        w, v = np.linalg.eig(a)
        c = np.linalg.cond(v)
        if not c < 1e4 or (np.max(np.abs((w * tau).real)) > 20):
            rec.label('spectral not applicable (defective)')
            rec.nontrivial(False)
            return
        g = 1e-13 * c ** 3 * d ** 2 * scale * max(
            1, np.abs(w * tau).max()) * np.exp(2 * np.max(
                np.abs((w * tau).real)))
        ptol += g
        if method in ('spectral', 'default'):
            tol += g
        if method == 'approx':
            tol = 1e-4 * scale * max(1, np.linalg.norm(y) ** 2) \
                + 1e11 * g
            if tol > 1e-2 * scale * max(1, np.linalg.norm(y) ** 2):
                rec.nontrivial(False)
                return
    exact = {'first_order': y,
             'second_order': y + (x @ y + y @ x) / 2,
             'third_order': y + (x @ y + y @ x) / 2
             + (x @ x @ y + x @ y @ x + y @ x @ x) / 6}
    ref = exact.get(method, dfull)
    A = DenseOperator(a.copy())
    E = e * K if case['as_array'] else DenseOperator(e * K)
    kw = {} if method == 'default' else {'method': method}
    if skew and method != 'default':
        kw['is_skew_hermitian'] = True
    res = A.dexp(E, tau=tau, compute_expm=case['compute'], **kw)
    if case['compute']:
        require(isinstance(res, tuple) and len(res) == 2,
                'compute_expm must return exponential and derivative')
        prop, res = res
        require(type(prop) is DenseOperator, 'type of the exponential')
        close(prop.data, full, 'exponential returned by dexp(%s)' % method,
              atol=ptol, rtol=1e-9)
    require(type(res) is DenseOperator, 'dexp returns %s' % type(res))
    close(res.data / K, ref, 'dexp by %s of a %s matrix' % (
        method, case['m']['fam']), atol=tol, rtol=1e-9)
    close(A.data, a, 'operand of dexp', 0, 0)
    close(E.data if not case['as_array'] else E, e * K, 'direction of dexp',
          0, 0)
    rec.label(method)
    rec.label(case['m']['fam'])
    rec.label('degenerate spectrum', np.min(np.abs(
        np.subtract.outer(*[np.linalg.eigvals(a)] * 2)
        + 9 * np.eye(d))) < 1e-9 and d > 1)
    rec.label('units', 'unit' in case['m'])
    rec.nontrivial(d > 1 and tau != 0 and np.linalg.norm(x @ y - y @ x)
                   > 1e-9)


@subcheck('linear', st.fixed_dictionaries({
    'h': herm(3), 'e': cmat(3), 'f': cmat(3), 's': num(),
    'method': st.sampled_from(['spectral', 'Frechet', 'third_order'])}),
    quick=200, thorough=4000)
def linear(case, rec):
    """The derivative is linear in its direction."""
    a = -1j * to_herm(case['h'])
    e, f, s = to_c(case['e']), to_c(case['f']), case['s']
    kw = dict(tau=.5, method=case['method'], is_skew_hermitian=True)

    def D(x):
        return DenseOperator(a.copy()).dexp(DenseOperator(x), **kw).data
    close(D(e + s * f), D(e) + s * D(f), 'linearity', atol=1e-8)
    # derivative in the direction of the matrix itself
    close(D(a), .5 * a @ expm_taylor(.5 * a) if case['method'] !=
          'third_order' else .5 * a @ (np.eye(3) + .5 * a + .125 * a @ a),
          'radial derivative', atol=1e-8)
    rec.nontrivial(np.linalg.norm(a @ e - e @ a) > 1e-9)
    must_raise((NotImplementedError, ValueError),
               lambda: DenseOperator(a).dexp(DenseOperator(e), method='no'),
               'unknown method')
