"""C09: open systems follow the Lindblad master equation (CPTP)."""
from scipy.integrate import solve_ivp
from vlib.core import *
from vlib.solvers import *
from qopt.solver_algorithms import LindbladSolver, SchroedingerSolver

META = dict(
    rule='Random open systems (dimension 2-3, one or two Lindblad operators, '
         'optionally with control dependent non-negative rates, given as '
         'dissipators, Lindblad operators or function). Compared with an '
         'independent integration of the master equation for the density '
         'matrix; complete positivity (Choi matrix), trace and Hermiticity '
         'preservation; agreement of the constructions; the unitary limit. '
         'Non-trivial: the dissipator is not zero and does not commute with '
         'the coherent part.',
    assumptions=['scipy DOP853 at tolerance 1e-10 integrates the reference',
                 'dimensions 2 and 3'])


@st.composite
def open_spec(draw, **kw):
    a = dict(kinds=('lindblad',), max_y=3, max_x=6, dims=(2, 2, 2, 3),
             units=True, zero_steps=True)
    a.update(kw)
    dims = a.pop('dims')
    s = draw(solver_spec(dims=(2,), **a))
    if draw(st.integers(0, 3)) == 0 and 3 in dims:
        m = draw(model(dims=(3,), max_y=2, max_x=3, max_ctrl=2,
                       methods=('Frechet', None)))
        m['init'] = 'default'
        s = dict(s, m=m, diss=draw(diss_spec(m)))
    return s


def nontrivial(ref, s):
    coh = RefSolver({'kind': 'schroedinger', 'm': s['m']}, ref.y)
    eye = np.eye(s['m']['d'])
    out = 0
    for g, h in zip(ref.gens(), coh.gens()):
        c = np.kron(eye, h) + np.kron(h.conj(), eye)
        out = max(out, np.max(np.abs((g - c) @ c - c @ (g - c))))
    return out > 1e-6


@st.composite
def signed_spec(draw):
    """Prefactors of any sign, as in time-local non-Markovian equations."""
    s = draw(open_spec())
    if s['diss']['pref'] and draw(st.booleans()):
        s['diss']['sign'] = [draw(st.sampled_from([1., -1.]))
                             for _ in s['diss']['L']]
    if s['diss']['pref'] and draw(st.booleans()):
        # also by the transferred parameters
        Y = s['m'].get('Y', 1.)
        s['diss']['px'] = [draw(num(-4, 4)) / Y for _ in s['diss']['L']]
        s['diss']['in_place'] = draw(st.booleans())
    return s


@subcheck('equation', st.tuples(signed_spec(), st.permutations(
    list(QUERIES[:4]))).map(lambda t: {'s': t[0], 'order': list(t[1])}),
    quick=300, thorough=8000, shards=2)
def equation(case, rec):
    s = case['s']
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    ref = RefSolver(s, y)
    for q in case['order']:
        check_query(s, solver, ref, q)
    rec.label(s['diss']['mode'])
    rec.label('rates' if s['diss']['pref'] else 'constant')
    rec.nontrivial(nontrivial(ref, s))


@subcheck('large', st.tuples(
    large_spec(kinds=('lindblad',)), st.permutations(list(QUERIES[:4]))).map(
        lambda t: {'s': t[0], 'order': list(t[1])}),
    quick=40, thorough=1200, shards=3)
def large(case, rec):
    """Many steps and controls, up to five Lindblad operators."""
    equation(case, rec)


@subcheck('long', st.tuples(
    large_spec(kinds=('lindblad',), profiles=('long',)), st.permutations(
        list(QUERIES[:3]))).map(lambda t: {'s': t[0], 'order': list(t[1])}),
    quick=6, thorough=150, shards=3)
def long(case, rec):
    """Hundreds of time steps."""
    equation(case, rec)


def psi_rho(v):
    """Density matrix from any square matrix."""
    a = v @ v.conj().T + .01 * np.eye(len(v))
    return a / np.trace(a)


@subcheck('density_matrix', st.tuples(open_spec(), cmat(3, lo=-8, hi=8)).map(
    lambda t: {'s': t[0], 'rho': t[1]}), quick=120, thorough=2500, shards=2)
def density_matrix(case, rec):
    """Integrate the master equation itself."""
    s = case['s']
    d = s['m']['d']
    y = np.array(s['m']['y'])
    rho = psi_rho(to_c(case['rho'])[:d, :d])
    vec = rho.reshape(-1, 1, order='F')
    solver = build_solver(s, initial_state=op(vec))
    solver.set_optimization_parameters(y)
    ref = RefSolver(s, y)
    hams = ref.rm.hams(ref.u)
    pf = prefactors(s['diss'], ref.u, ref.x)
    Ls = [to_c(L) for L in s['diss']['L']]
    got = solver.forward_propagators
    require(len(got) == len(hams) + 1, 'number of states')
    cur = rho
    close(got[0].data, vec, 'initial state')
    for t, h in enumerate(hams):
        def rhs(_, v):
            r = v.reshape(d, d)
            out = -1j * (h @ r - r @ h)
            for a, L in zip(pf[t], Ls):
                LdL = L.conj().T @ L
                out += a * (L @ r @ L.conj().T - .5 * (LdL @ r + r @ LdL))
            return out.reshape(-1)
        sol = solve_ivp(rhs, (0, ref.xt[t]), cur.reshape(-1).astype(complex),
                        method='DOP853', rtol=1e-10, atol=1e-12)
        cur = sol.y[:, -1].reshape(d, d)
        state = got[t + 1].data.reshape(d, d, order='F')
        close(state, cur, 'density matrix after step %d' % t, atol=1e-6)
        close(np.trace(state), 1, 'trace of the state', atol=1e-8)
        close(state, state.conj().T, 'Hermiticity of the state', atol=1e-8)
        require(np.min(np.linalg.eigvalsh((state + state.conj().T) / 2))
                > -1e-8, 'the state has negative probabilities')
    rec.nontrivial(nontrivial(ref, s))


@subcheck('cptp', open_spec().map(lambda s: {'s': s}), quick=200,
          thorough=5000)
def cptp(case, rec):
    s = case['s']
    d = s['m']['d']
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    one = np.eye(d).reshape(-1, order='F')
    for what, ps in (('propagator', solver.propagators),
                     ('forward', solver.forward_propagators),
                     ('reversed', solver.reversed_propagators)):
        for t, p in enumerate(ps):
            P = np.asarray(p.data)
            close(one @ P, one, '%s %d: trace preservation' % (what, t),
                  atol=1e-7)
            choi = np.zeros((d * d, d * d), dtype=complex)
            for i in range(d):
                for j in range(d):
                    e = np.zeros((d, d))
                    e[i, j] = 1
                    out = (P @ e.reshape(-1, order='F')).reshape(
                        d, d, order='F')
                    choi += np.kron(e, out)
            close(choi, choi.conj().T, '%s %d: Hermiticity preservation'
                  % (what, t), atol=1e-7)
            low = np.min(np.linalg.eigvalsh((choi + choi.conj().T) / 2))
            require(low > -1e-7, '%s %d is not completely positive (%g)'
                    % (what, t, low))
    rec.nontrivial(nontrivial(RefSolver(s, y), s))


@subcheck('constructions', open_spec(deriv=False).map(lambda s: {'s': s}),
          quick=150, thorough=3000)
def constructions(case, rec):
    """Dissipators, Lindblad operators and functions describe the same."""
    s = case['s']
    y = np.array(s['m']['y'])
    res = {}
    for mode in ('super', 'ops', 'func'):
        s2 = dict(s, diss=dict(s['diss'], mode=mode, both=False))
        kw = diss_kwargs(s2)
        keep = {k: [x.data.copy() for x in v] for k, v in kw.items()
                if isinstance(v, list)}
        solver = build_solver(s2, **kw)
        for v in (y * .5, y, y * 2, y):
            solver.set_optimization_parameters(v)
            solver.forward_propagators
        res[mode] = (np.array([f.data for f in solver.forward_propagators]),
                     np.array([[f.data for f in c] for c in
                               solver.frechet_deriv_propagators]))
        for k, v in keep.items():
            for a, b in zip(v, kw[k]):
                close(b.data, a, 'operators given by the user', 0, 0)
    for mode in ('ops', 'func'):
        close(res[mode][0], res['super'][0], 'propagation: %s, dissipators'
              % mode, atol=1e-8, rtol=1e-8)
        close(res[mode][1], res['super'][1], 'derivatives: %s, dissipators'
              % mode, atol=1e-8, rtol=1e-8)
    rec.nontrivial(nontrivial(RefSolver(s, y), s))


@subcheck('unitary_limit', open_spec().map(lambda s: {'s': s}),
          quick=150, thorough=3000)
def unitary_limit(case, rec):
    """Without dissipation the map is rho -> U rho U^dagger."""
    s = case['s']
    m = s['m']
    y = np.array(m['y'])
    kw = solver_kwargs(m)
    closed = SchroedingerSolver(**kw)
    closed.set_optimization_parameters(y)
    zero = dict(s, diss=dict(s['diss'], L=[
        {'re': [[0.] * m['d']] * m['d'], 'im': [[0.] * m['d']] * m['d']}
        for _ in s['diss']['L']]))
    solver = build_solver(zero)
    solver.set_optimization_parameters(y)
    for t, (a, b) in enumerate(zip(solver.propagators, closed.propagators)):
        u = b.data
        close(a.data, np.kron(u.conj(), u), 'unitary limit, step %d' % t,
              atol=1e-7)
    require(len(solver.propagators) == len(closed.propagators), 'steps')
    rec.nontrivial(np.max(np.abs(RefSolver(
        {'kind': 'schroedinger', 'm': m}, y).gens())) > 1e-6)
