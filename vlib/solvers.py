"""Random solvers (closed, noisy, open) with their reference dynamics."""
from .models import *
from .gen import *
import functools
from hypothesis import assume


# --------------------------------------------------------------- strategies
@st.composite
def noise_spec(draw, m, kind, max_traces=3):
    nx = num_x_of(m['tf'], m['n']) if m['tf'] else m['n']
    n_op = m['p'] if kind == 'mcctrl' else draw(st.integers(1, 2))
    traces = draw(st.integers(1, max_traces))
    z = {'samples': [draw(table(traces, nx, -8, 8)) for _ in range(n_op)],
         'h': [draw(herm(m['d'])) for _ in range(n_op)]
         if kind == 'mc' else [],
         'naf': draw(st.sampled_from([None, None, 'u', 'x', 'y']))
         if kind == 'mc' else None}
    return z


@st.composite
def diss_spec(draw, m, deriv=True):
    nl = draw(st.integers(1, 2))
    return {'L': [draw(cmat(m['d'], lo=-4, hi=4)) for _ in range(nl)],
            'mode': draw(st.sampled_from(['super', 'ops', 'func'])),
            # a_k(u, x) = (pa + u . pb)^2
            'pref': draw(st.booleans()),
            'pa': draw(nums(nl, -8, 8)),
            'pb': draw(table(nl, m['c'], -4, 4)),
            'both': draw(st.booleans())}


def tame(s):
    """No step with an exponent which overwhelms double precision."""
    r = RefSolver(s, np.array(s['m']['y']))
    return all(np.linalg.norm(g) * dt < 15
               for k in [None] + list(range(r.n_traces
                                            if 'noise' in s else 0))
               for g, dt in zip(r.gens(k), r.xt))


@st.composite
def solver_spec(draw, kinds=('schroedinger', 'mc', 'mcctrl', 'lindblad'),
                max_y=4, max_x=8, dims=(2, 3), max_ctrl=2, max_traces=3,
                approx=('grape', None, None), tf=True, amp=True, deriv=None,
                units=False, **kw):
    kind = draw(st.sampled_from(list(kinds)))
    if kind == 'lindblad':
        dims = [d for d in dims if d < 3] or (2,)
    m = draw(model(dims=dims, max_ctrl=max_ctrl, max_y=max_y, max_x=max_x,
                   tf=tf, amp=amp, **kw))
    s = {'kind': kind, 'm': m,
         'deriv': draw(st.booleans()) if deriv is None else deriv,
         'approx': draw(st.sampled_from(list(approx)))}
    if kind in ('mc', 'mcctrl'):
        s['noise'] = draw(noise_spec(m, kind, max_traces))
    if kind == 'lindblad':
        s['diss'] = draw(diss_spec(m))
        m['init'] = 'default'
        if m['method'] == 'spectral':
            # the dissipator need not be diagonalisable
            m['method'] = 'Frechet'
    assume(tame(s))
    if units and draw(st.integers(0, 3)) == 0:
        s = draw(in_units(s))
    return s


# ------------------------------------------------------------ other units
def _times(table_, f):
    return (np.array(table_, dtype=float) * f).tolist()


def rescale(s, T, Y, U=None):
    """The same experiment with times in units 1/T, parameters in 1/Y.

    The amplitudes are in units 1/U (1/Y if they are the parameters). All
    propagators stay the same, derivatives by the parameters scale with
    1 / Y, those by the amplitudes with 1 / U.
    """
    s = dict(s)
    m = s['m'] = dict(s['m'])
    z = s.get('noise')
    if z and z['naf']:
        Y = U = 1.
    if U is None or m['amp']['kind'] == 'identity':
        U = Y
    m['T'], m['Y'], m['U'] = T, Y, U
    m['tau'] = _times(m['tau'], T)
    m['y'] = _times(m['y'], Y)
    m['h_ctrl'] = [dict(h, scale=1 / (T * U)) for h in m['h_ctrl']]
    m['h_drift'] = [dict(h, scale=1 / T) for h in m['h_drift']]
    if m['tf']:
        m['tf'] = scale_tf(m['tf'], T, Y)
    if m['amp']['kind'] == 'custom':
        m['amp'] = dict(m['amp'], A=_times(m['amp']['A'], U / Y),
                        B=_times(m['amp']['B'], U / Y / Y))
    elif m['amp']['kind'] == 'unary':
        m['amp'] = dict(m['amp'], Y=Y, U=U)
    if z:
        z = s['noise'] = dict(z)
        z['h'] = [dict(h, scale=1 / T) for h in z['h']]
        if s['kind'] == 'mcctrl':
            z['samples'] = _times(z['samples'], Y)
    if 'diss' in s:
        dz = s['diss'] = dict(s['diss'])
        dz['L'] = [{k: _times(v, T ** -.5) for k, v in L.items()}
                   for L in dz['L']]
        dz['pb'] = _times(dz['pb'], 1 / U)
        if 'px' in dz:
            dz['px'] = _times(dz['px'], 1 / Y)
    return s


@st.composite
def in_units(draw, s):
    return rescale(s, 10. ** draw(st.sampled_from([-12, -9, -6, -3, 0, 3, 6])),
                   10. ** draw(st.sampled_from([-9, -6, -3, 0, 3, 6, 9])),
                   draw(st.sampled_from([None, 1., 1e-6, 1e-3, 1e4])))


# ------------------------------------------------------------ large problems
@st.composite
def large_spec(draw, kinds=('schroedinger', 'mc', 'mcctrl', 'lindblad'),
               approx=(None,), profiles=('steps', 'controls', 'dim',
                                         'traces', 'mix'), naf=True,
               units=True, small_pulse=False):
    """Many steps, many controls, large matrices or many realisations."""
    kind = draw(st.sampled_from(list(kinds)))
    prof = draw(st.sampled_from(list(profiles)))
    b = Bulk(draw(st.integers(0, 2 ** 31)))

    def size(lo, hi):
        return draw(st.integers(lo, hi))
    n = size(12, 40) if prof == 'steps' else size(6, 12) if prof == 'mix' \
        else size(100, 300) if prof == 'long' else size(1, 4)
    c = size(8, 13) if prof == 'controls' else size(3, 5) if prof == 'mix' \
        else size(1, 2)
    d = size(5, 9) if prof == 'dim' else size(3, 5) if prof == 'mix' else \
        size(2, 3)
    if kind == 'lindblad':
        d = size(3, 4) if prof == 'dim' else 2
    if small_pulse:
        n, c = min(n, 12), min(c, 12)
    amp = draw(st.sampled_from(['identity', 'identity', 'custom', 'unary']))
    p = c
    a = {'kind': 'identity', 'p': c, 'c': c}
    if amp == 'custom':
        p = max(1, c + size(-1, 1))
        a = {'kind': 'custom', 'p': p, 'c': c,
             'A': b.table(p, c, -8, 8), 'B': b.table(p, c, -2, 2)}
    elif amp == 'unary':
        a = {'kind': 'unary', 'p': c, 'c': c,
             'f': draw(st.sampled_from(sorted(UNARY)))}
    t = draw(large_tf(b, n, p, depth=prof != 'long')) if draw(
        st.integers(0, 3)) else None
    tau = b.nums(n, 1, 12)
    if t is not None and needs_even(t):
        tau = [tau[0]] * n
    nx = num_x_of(t, n) if t else n
    style = draw(st.sampled_from(['single', 'one', 'each', 'none']))
    m = {'d': d, 'c': c, 'n': n, 'p': p, 'tf': t, 'amp': a, 'tau': tau,
         'h_ctrl': [b.herm(d) for _ in range(c)],
         'method': draw(st.sampled_from(
             ['Frechet', None] + ['spectral'] * (kind != 'lindblad'))),
         'y': b.table(n, p, -8, 8), 'tau_list': draw(st.booleans()),
         'drift_style': style,
         'h_drift': [b.herm(d) for _ in range(
             {'each': nx, 'none': 0}.get(style, 1))],
         'init': 'default'}
    s = {'kind': kind, 'm': m, 'deriv': draw(st.booleans()),
         'approx': draw(st.sampled_from(list(approx)))}
    if kind in ('mc', 'mcctrl'):
        tr = size(8, 25) if prof == 'traces' else \
            size(1, 9) if prof == 'few' else size(2, 5)
        n_op = p if kind == 'mcctrl' else size(1, 4)
        s['noise'] = {'samples': [b.table(tr, nx, -4, 4)
                                  for _ in range(n_op)],
                      'h': [b.herm(d) for _ in range(n_op)]
                      if kind == 'mc' else [],
                      'naf': draw(st.sampled_from([None, None, 'u', 'x']))
                      if kind == 'mc' and naf else None}
    if kind == 'lindblad':
        nl = size(1, 5)
        s['diss'] = {'L': [b.cmat(d, lo=-2, hi=2) for _ in range(nl)],
                     'mode': draw(st.sampled_from(['super', 'ops', 'func'])),
                     'pref': draw(st.booleans()), 'pa': b.nums(nl, -4, 4),
                     'pb': b.table(nl, c, -2, 2),
                     'both': draw(st.booleans())}
    s['profile'] = prof
    assume(tame(s))
    if units and draw(st.integers(0, 3)) == 0:
        s = draw(in_units(s))
    return s


# --------------------------------------------------------------- references
def naf_ref(kind, samples, y, x, u):
    """samples (t, trace, op) -> amplitudes"""
    s = np.asarray(samples, dtype=float)
    if kind is None:
        return s
    if kind == 'u':
        return s * (1 + u[:, 0] ** 2)[:, None, None]
    if kind == 'x':
        return s * (.5 - x[:, -1])[:, None, None]
    if kind == 'y':
        return s + np.sum(y)
    raise HarnessError(kind)


def lind_super(L):
    d = len(L)
    eye = np.eye(d)
    LdL = L.conj().T @ L
    # column stacking: vec(A rho B) = (B^T kron A) vec(rho)
    return np.kron(L.conj(), L) - .5 * np.kron(eye, LdL) \
        - .5 * np.kron(LdL.T, eye)


def prefactors(dz, u, x):
    """(num_t, num_l)"""
    if not dz['pref']:
        return np.ones((len(u), len(dz['L'])))
    out = (np.array(dz['pa'])[None] + u @ np.array(dz['pb']).T) ** 2 \
        * np.array(dz.get('sign', 1.))
    if 'px' in dz:
        out = out + (x[:, -1:] * np.array(dz['px'])) ** 2
    return out


def prefactor_derivs(dz, u):
    """(num_t, num_ctrl, num_l)"""
    pb = np.array(dz['pb'])
    if not dz['pref']:
        return np.zeros((len(u), pb.shape[1], len(dz['L'])))
    lin = np.array(dz['pa'])[None] + u @ pb.T
    return 2 * lin[:, None, :] * pb.T[None] * np.array(dz.get('sign', 1.))


class RefSolver:
    """Generators, propagators and derivatives, straight from definitions."""

    def __init__(self, s, y, tau=None):
        self.s, self.m = s, s['m']
        self.rm = RefModel(self.m, tau)
        self.y = np.asarray(y, dtype=float)
        self.x = self.rm.x(self.y)
        self.u = amp_ref(self.m['amp'], self.x)
        self.xt = self.rm.xt
        self.kind = s['kind']

    @functools.cached_property
    def n_traces(self):
        return len(self.s['noise']['samples'][0])

    def gens(self, trace=None):
        hams = self.rm.hams(self.u)
        if self.kind == 'lindblad':
            dz = self.s['diss']
            eye = np.eye(self.m['d'])
            diss = [lind_super(to_c(L)) for L in dz['L']]
            pf = prefactors(dz, self.u, self.x)
            return [np.kron(eye, -1j * h) + np.kron((-1j * h).conj(), eye)
                    + sum(a * D for a, D in zip(pf[t], diss))
                    for t, h in enumerate(hams)]
        if trace is None:
            return [-1j * h for h in hams]
        z = self.s['noise']
        sm = np.array(z['samples'])[:, trace]          # (op, t)
        if self.kind == 'mcctrl':
            un = amp_ref(self.m['amp'], self.x + sm.T)
            return [-1j * h for h in self.rm.hams(un)]
        a = naf_ref(z['naf'], np.array(z['samples']).transpose(2, 1, 0),
                    self.y, self.x, self.u)[:, trace]  # (t, op)
        hn = [to_herm(h) for h in z['h']]
        return [-1j * (h + sum(a[t, k] * b for k, b in enumerate(hn)))
                for t, h in enumerate(hams)]

    def dirs(self):
        """[t][ctrl]"""
        hc = self.rm.h_ctrl
        if self.kind != 'lindblad':
            return [[-1j * h for h in hc]] * len(self.xt)
        eye = np.eye(self.m['d'])
        coh = [np.kron(eye, -1j * h) + np.kron((-1j * h).conj(), eye)
               for h in hc]
        dz = self.s['diss']
        dp = prefactor_derivs(dz, self.u)
        diss = [lind_super(to_c(L)) for L in dz['L']]
        return [[coh[c] + sum(dp[t, c, k] * D for k, D in enumerate(diss))
                 for c in range(len(hc))] for t in range(len(self.xt))]

    def props(self, trace=None):
        return [la.expm(g * dt) for g, dt in zip(self.gens(trace), self.xt)]

    def init(self):
        if self.kind == 'lindblad':
            return np.eye(self.m['d'] ** 2, dtype=complex)
        return self.rm.init_state()

    def fwd(self, trace=None):
        return fwd_of(self.props(trace), self.init())

    def rev(self, trace=None):
        return rev_of(self.props(trace))

    def dprops(self, trace=None, grape=False):
        """[ctrl][t]"""
        gens, dirs = self.gens(trace), self.dirs()
        out = [[None] * len(gens) for _ in self.rm.h_ctrl]
        for t, g in enumerate(gens):
            for c, e in enumerate(dirs[t]):
                if grape:
                    out[c][t] = self.xt[t] * e @ la.expm(g * self.xt[t])
                else:
                    n = len(g)
                    blk = np.zeros((2 * n, 2 * n), dtype=complex)
                    blk[:n, :n] = blk[n:, n:] = g
                    # (balanced: a large direction costs accuracy)
                    k = np.linalg.norm(e) * self.xt[t] or 1.
                    blk[:n, n:] = e / k
                    out[c][t] = k * la.expm(blk * self.xt[t])[:n, n:]
        return out


# ------------------------------------------------------------------ builders
def fixed_ntg(samples, always=False):
    """A trace generator which returns the given samples."""
    from qopt.noise import NoiseTraceGenerator
    arr_ = np.array(samples, dtype=float)

    class Fixed(NoiseTraceGenerator):
        draws = 0

        def _sample_noise(self):
            self.draws += 1
            self._noise_samples = arr_.copy()
    n_op, n_tr, n_s = arr_.shape
    return Fixed(n_samples_per_trace=n_s, always_redraw_samples=always,
                 n_traces=n_tr, n_noise_operators=n_op)


def diss_kwargs(s):
    dz, m = s['diss'], s['m']

    def spoil(*args):
        """a function which works in its arguments"""
        if dz.get('in_place'):
            for a in args:
                if a is not None:
                    a *= 0
    Ls = [to_c(L) for L in dz['L']]
    kw = {}
    if dz['mode'] == 'super' or dz['both']:
        kw['initial_diss_super_op'] = [op(lind_super(L)) for L in Ls]
        if dz['mode'] != 'super':   # overruled by the prioritised argument
            kw['initial_diss_super_op'] = [op(np.ones((m['d'] ** 2,) * 2))]
    if dz['mode'] == 'ops' or (dz['both'] and dz['mode'] == 'func'):
        kw['lindblad_operators'] = [op(L) for L in Ls]
    if dz['mode'] == 'func':
        def f(u, x):
            pf = prefactors(dz, u, x)
            spoil(u, x)
            return [op(sum(a * lind_super(L) for a, L in zip(row, Ls)))
                    for row in pf]

        def df(u, x):
            dp = prefactor_derivs(dz, u)
            spoil(u, x)
            return [[op(sum(a * lind_super(L) for a, L in zip(col, Ls)))
                     for col in row] for row in dp]
        kw['super_operator_function'] = f
        kw['super_operator_derivative_function'] = df
    elif dz['pref']:
        def pf(u, x):
            out = prefactors(dz, u, x)
            spoil(u, x)
            return out

        def dpf(u, x):
            out = prefactor_derivs(dz, u)
            spoil(u, x)
            return out
        kw['prefactor_function'] = pf
        kw['prefactor_derivative_function'] = dpf
    return kw


def build_solver(s, tau=None, **over):
    from qopt import solver_algorithms as q
    m = s['m']
    kw = solver_kwargs(m, tau)
    kw['frechet_deriv_approx_method'] = s['approx']
    if s['kind'] == 'lindblad':
        kw['calculate_unitary_derivatives'] = s['deriv']
        kw.update(diss_kwargs(s))
        cls = q.LindbladSolver
    else:
        kw['calculate_propagator_derivatives'] = s['deriv']
        cls = q.SchroedingerSolver
        if s['kind'] in ('mc', 'mcctrl'):
            z = s['noise']
            kw['noise_trace_generator'] = fixed_ntg(
                z['samples'], z.get('always', False))
            kw['processes'] = z.get('processes', 1)
            cls = q.SchroedingerSMCControlNoise
        if s['kind'] == 'mc':
            cls = q.SchroedingerSMonteCarlo
            kw['h_noise'] = [op(to_herm(h)) for h in z['h']]
            if z['naf']:
                kw['noise_amplitude_function'] = \
                    lambda noise_samples, optimization_parameters, \
                    transferred_parameters, control_amplitudes: naf_ref(
                        z['naf'], noise_samples, optimization_parameters,
                        transferred_parameters, control_amplitudes)
    kw.update(over)
    return cls(**kw)


QUERIES = ('p', 'f', 'r', 'd', 'pn', 'fn', 'rn', 'dn')


def check_query(s, solver, ref, q, where=''):
    """Compare one observable of the solver with the reference."""
    from .core import close, require, arr
    tol = dict(atol=1e-7, rtol=1e-7)
    noisy = s['kind'] in ('mc', 'mcctrl')
    Y = s['m'].get('U', 1.)
    if q.endswith('n') and not noisy:
        q = q[0]
    name = {'p': 'propagators', 'f': 'forward_propagators',
            'r': 'reversed_propagators',
            'd': 'frechet_deriv_propagators'}[q[0]]
    got = getattr(solver, name + ('_noise' if q.endswith('n') else ''))
    traces = range(ref.n_traces) if q.endswith('n') else [None]
    if q.endswith('n'):
        require(len(got) == ref.n_traces, '%s%s: %d traces, expected %d'
                % (where, name, len(got), ref.n_traces))
    # the approximation is never used if the derivatives were computed along
    # with the propagators
    grape = s['approx'] == 'grape' and not s['deriv']
    for k in traces:
        g = got if k is None else got[k]
        if q[0] == 'd':
            exp = ref.dprops(k)
            if s['approx'] == 'grape':
                exp_g = ref.dprops(k, grape=True)
            require(len(g) == len(exp), '%s%s: %d controls, expected %d'
                    % (where, name, len(g), len(exp)))
            for c in range(len(exp)):
                require(len(g[c]) == len(exp[c]), '%s%s: %d steps' %
                        (where, name, len(g[c])))
                for t in range(len(exp[c])):
                    e = exp_g[c][t] if grape else exp[c][t]
                    if s['approx'] == 'grape' and s['deriv']:
                        # either the analytic or the approximate derivative
                        # is documented, depending on what was cached
                        a = np.asarray(g[c][t].data) * Y
                        if np.allclose(a, exp_g[c][t] * Y, atol=1e-7):
                            continue
                    close(arr(g[c][t]) * Y, e * Y, '%s%s trace %s control %d step %d'
                          % (where, name, k, c, t), **tol)
        else:
            exp = {'p': ref.props, 'f': ref.fwd, 'r': ref.rev}[q[0]](k)
            require(len(g) == len(exp), '%s%s: %d steps, expected %d'
                    % (where, name, len(g), len(exp)))
            for t in range(len(exp)):
                close(g[t].data, exp[t], '%s%s trace %s step %d'
                      % (where, name, k, t), **tol)
