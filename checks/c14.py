"""C14: state and gate fidelities of closed systems."""
from vlib.core import *
from vlib.costs import *
from qopt import cost_functions as cf
from qopt.matrix import DenseOperator

META = dict(
    rule='Random kets, density matrices and unitaries of dimension 2 to 8 '
         '(also products, equal, orthogonal and permuted ones), '
         'computational subspaces in any order, tensor structures, operators '
         'or plain arrays; and the cost classes evaluated on random closed '
         'control problems. Values are compared with explicit sums; range, '
         'phase and basis invariance and the equality case are checked '
         'separately. Non-trivial: the fidelity is neither 0 nor 1.',
    assumptions=['numpy is the reference'])


def ket_of(m):
    v = to_c(m)
    if not np.any(v):
        v[0] = 1
    return v / np.linalg.norm(v)


def wrap(a, how):
    return np.array(a) if how == 'array' else DenseOperator(
        np.array(a, dtype=complex))


@st.composite
def state_case(draw):
    d = draw(st.integers(2, 6))
    comp = draw(comp_states(d))
    dc = d if comp is None else len(comp)
    return {'d': d, 'comp': comp, 'psi': draw(cmat(d, 1)),
            't': draw(cmat(dc, 1)), 'flag': draw(st.booleans()),
            'how': draw(st.lists(st.sampled_from(['array', 'op']),
                                 min_size=2, max_size=2)),
            'v': draw(cmat(d, lo=-8, hi=8)), 'ph': draw(num()),
            'equal': draw(st.integers(0, 3)) == 0}


@subcheck('states', state_case(), quick=800, thorough=20000)
def states(case, rec):
    comp, flag = case['comp'], case['flag']
    psi, t = ket_of(case['psi']), ket_of(case['t'])
    cut = restrict(psi, comp)
    norm = np.linalg.norm(cut)
    if flag and comp is not None and norm < 1e-3:
        rec.nontrivial(False)
        return
    if case['equal'] and norm > 1e-3:
        t = cut / norm * np.exp(1j * case['ph'])
    exp = f_state(t, restrict(psi, comp, flag and comp is not None))
    a, b = wrap(t.conj().T, case['how'][0]), wrap(psi, case['how'][1])
    got = cf.state_fidelity(a, b, computational_states=comp,
                            rescale_propagated_state=flag)
    close(got, exp, 'state fidelity', 1e-10)
    require(-1e-12 <= got <= 1 + 1e-9, 'fidelity out of range: %r' % got)
    if case['equal'] and norm > 1e-3 and (comp is None or flag):
        close(got, 1., 'fidelity of equal states', 1e-9)
    close(arr(a), t.conj().T, 'target afterwards', 0, 0)
    close(arr(b), psi, 'state afterwards', 0, 0)
    ph = np.exp(1j * case['ph'])
    close(cf.state_fidelity(wrap(t.conj().T, 'op'), wrap(psi * ph, 'op'),
                            computational_states=comp,
                            rescale_propagated_state=flag), exp,
          'fidelity with another phase', 1e-10)
    if comp is None:
        v = unitary_of(to_c(case['v']))
        close(cf.state_fidelity(wrap((v @ t).conj().T, 'op'),
                                wrap(v @ psi, 'op')), exp,
              'fidelity in another basis', 1e-10)
        close(cf.state_fidelity(wrap(psi.conj().T, 'op'), wrap(t, 'op')),
              exp, 'fidelity with exchanged states', 1e-10)
        must_raise(ValueError, lambda: cf.state_fidelity(
            wrap(t, 'op'), wrap(psi.conj().T, 'op')),
            'fidelity of a ket with a bra')
    rec.label('comp', comp is not None)
    rec.label('rescale', flag and comp is not None)
    rec.nontrivial(1e-6 < exp < 1 - 1e-6 or case['equal'])


@st.composite
def sub_case(draw):
    dims = draw(st.sampled_from([[2, 2], [2, 3], [3, 2], [2, 2, 2], [3],
                                 [1, 2], [2, 1, 3], [4, 2]]))
    rem = draw(st.lists(st.integers(0, len(dims) - 1), unique=True,
                        min_size=0, max_size=len(dims) - 1))
    D = int(np.prod(dims))
    k = int(np.prod([x for i, x in enumerate(dims) if i not in rem]))
    return {'dims': dims, 'rem': rem, 't': draw(cmat(k, 1)),
            'psi': draw(cmat(D, 1)), 'rho': draw(cmat(D, lo=-6, hi=6)),
            'form': draw(st.sampled_from(['ket', 'rho', 'vec'])),
            'how': draw(st.lists(st.sampled_from(['array', 'op']),
                                 min_size=2, max_size=2)),
            'product': draw(st.booleans()),
            'factors': [draw(cmat(x, 1)) for x in dims]}


@subcheck('subspace_states', sub_case(), quick=600, thorough=15000)
def subspace_states(case, rec):
    dims, rem = case['dims'], case['rem']
    t = ket_of(case['t'])
    psi = ket_of(case['psi'])
    prod = case['product']
    if prod:      # product states: the removed factors must not matter
        fs = [ket_of(f) for f in case['factors']]
        psi = np.ones((1, 1))
        for f in fs:
            psi = np.kron(psi, f)
        kept = np.ones((1, 1))
        for i, f in enumerate(fs):
            if i not in rem:
                kept = np.kron(kept, f)
    form = case['form']
    if form == 'ket':
        rho, arg = psi @ psi.conj().T, psi
    else:
        a = to_c(case['rho'])
        rho = a @ a.conj().T + .125 * np.eye(len(a))
        rho /= np.trace(rho)
        if prod:
            rho = psi @ psi.conj().T
        arg = rho if form == 'rho' else rho.reshape(-1, 1, order='F')
    exp = (t.conj().T @ reduced(rho, dims, rem) @ t)[0, 0].real
    if prod:
        close(exp, f_state(t, kept), 'oracle', 1e-9)
    a, b = wrap(t.conj().T, case['how'][0]), wrap(arg, case['how'][1])
    got = cf.state_fidelity_subspace(a, b, dims=dims, remove=list(rem))
    close(got, exp, 'state fidelity on the subspace', 1e-9)
    require(-1e-9 <= got <= 1 + 1e-9, 'fidelity out of range: %r' % got)
    close(arr(a), t.conj().T, 'target afterwards', 0, 0)
    close(arr(b), arg, 'state afterwards', 0, 0)
    rec.label(form)
    rec.label('removed %d' % len(rem))
    rec.nontrivial(1e-6 < exp < 1 - 1e-6 and len(dims) > 1 and rem)


@st.composite
def gate_case(draw):
    d = draw(st.integers(2, 6))
    comp = draw(comp_states(d))
    dc = d if comp is None else len(comp)
    return {'d': d, 'comp': comp, 'u': draw(cmat(d, lo=-12, hi=12)),
            't': draw(cmat(dc, lo=-12, hi=12)), 'flag': draw(st.booleans()),
            'how': draw(st.lists(st.sampled_from(['array', 'op']),
                                 min_size=2, max_size=2)),
            'v': draw(cmat(d, lo=-8, hi=8)), 'w': draw(cmat(d, lo=-8, hi=8)),
            'ph': draw(num()), 'equal': draw(st.integers(0, 3)) == 0}


@subcheck('gates', gate_case(), quick=800, thorough=20000)
def gates(case, rec):
    comp, flag, d = case['comp'], case['flag'], case['d']
    u, t = unitary_of(to_c(case['u'])), unitary_of(to_c(case['t']))
    use = flag and comp is not None
    cut = restrict(u, comp)
    sv = np.linalg.svd(cut, compute_uv=False)
    if use and sv[-1] < 1e-3:
        rec.nontrivial(False)
        return
    if case['equal'] and sv[-1] > 1e-3:
        t = polar(cut) * np.exp(1j * case['ph'])
    exp = f_ent(t, restrict(u, comp, use))
    a, b = wrap(t, case['how'][0]), wrap(u, case['how'][1])
    kw = dict(computational_states=comp, map_to_closest_unitary=flag)
    got = cf.entanglement_fidelity(a, b, **kw)
    close(got, exp, 'entanglement fidelity', 1e-9)
    require(-1e-12 <= got <= 1 + 1e-9, 'fidelity out of range: %r' % got)
    if case['equal'] and sv[-1] > 1e-3 and (use or comp is None):
        close(got, 1., 'fidelity of equal gates', 1e-9)
    close(arr(a), t, 'target afterwards', 0, 0)
    close(arr(b), u, 'gate afterwards', 0, 0)
    ph = np.exp(1j * case['ph'])
    close(cf.entanglement_fidelity(wrap(t, 'op'), wrap(u * ph, 'op'), **kw),
          exp, 'fidelity with another phase', 1e-9)
    if comp is None:
        v, w = (unitary_of(to_c(case[k])) for k in 'vw')
        close(cf.entanglement_fidelity(wrap(v @ t @ w, 'op'),
                                       wrap(v @ u @ w, 'op')),
              exp, 'fidelity in other bases', 1e-9)
        close(cf.entanglement_fidelity(wrap(u, 'op'), wrap(t, 'op')), exp,
              'fidelity with exchanged gates', 1e-9)
        if d == 2:
            # mean over the six poles of the Bloch sphere (a 2-design)
            s = np.sqrt(.5)
            poles = [[1, 0], [0, 1], [s, s], [s, -s], [s, 1j * s],
                     [s, -1j * s]]
            avg = np.mean([f_state(t @ np.array(p)[:, None],
                                   u @ np.array(p)[:, None]) for p in poles])
            got = arr(cf.averge_gate_fidelity(wrap(u, 'op'), wrap(t, 'op')))
            close(got, avg, 'average gate fidelity', 1e-9)
            close(arr(cf.averge_gate_fidelity(wrap(u * ph, 'op'),
                                              wrap(t, 'op'))), avg,
                  'average gate fidelity with another phase', 1e-9)
            rec.label('average')
    rec.label('comp', comp is not None)
    rec.label('closest', use)
    rec.nontrivial(1e-6 < exp < 1 - 1e-6 or case['equal'])


@subcheck('costs', cost_case(('op', 'op', 'state', 'statesub', 'leak'),
                             dims=(2, 3, 4), max_x=8),
          quick=600, thorough=15000, shards=3)
def costs(case, rec):
    c, s = case['c'], case['s']
    y = np.array(s['m']['y'])
    r = RefSolver(s, y)
    if not restricted_ok(c, r):
        rec.nontrivial(False)
        return
    solver = build_solver(s)
    cost = cost_of(case, solver)
    solver.set_optimization_parameters(y)
    exp = ref_cost(c, r)
    for _ in range(2):
        got = arr(cost.costs())
        close(got, exp, 'costs (%s)' % c['kind'], 1e-8, shape=False)
        require(np.all(got >= -1e-9) and np.all(got <= 1 + 1e-9),
                'infidelity out of range: %r' % got)
    # the costs follow the parameters of the solver
    y2 = other_pulse(s['m'])
    solver.set_optimization_parameters(y2)
    r2 = RefSolver(s, y2)
    if restricted_ok(c, r2):
        close(arr(cost.costs()), ref_cost(c, r2), 'costs of new parameters',
              1e-8, shape=False)
    # and its time steps
    tau = other_times(s['m'])
    solver.set_times(np.array(tau))
    r3 = RefSolver(s, y2, tau)
    if restricted_ok(c, r3):
        close(arr(cost.costs()), ref_cost(c, r3), 'costs of new times', 1e-8,
              shape=False)
    args_unchanged(cost)
    rec.label(c['kind'])
    rec.label('comp', c.get('comp') is not None)
    rec.nontrivial(1e-6 < exp < 1 - 1e-6)


@subcheck('nearly_ideal', nearly_case(('op', 'state', 'statesub', 'leak')),
          quick=200, thorough=8000)
def nearly(case, rec):
    nearly_ideal(case, rec)


@subcheck('large', large_cost(
    ('op', 'state', 'leak'), profiles=('dim', 'dim', 'mix',
                                                   'steps', 'controls')),
    quick=50, thorough=1500, shards=2)
def large(case, rec):
    """Up to nine levels, 40 steps, 13 controls."""
    costs(case, rec)


@st.composite
def large_gate(draw):
    b = Bulk(draw(st.integers(0, 2 ** 31)))
    d = draw(st.sampled_from([7, 8, 9, 12, 16]))
    comp = draw(comp_states(d))
    dc = d if comp is None else len(comp)
    return {'d': d, 'comp': comp, 'u': b.cmat(d, lo=-4, hi=4),
            't': b.cmat(dc, lo=-4, hi=4), 'flag': draw(st.booleans()),
            'how': [draw(st.sampled_from(['array', 'op'])) for _ in '12'],
            'v': b.cmat(d, lo=-4, hi=4), 'w': b.cmat(d, lo=-4, hi=4),
            'ph': draw(num()), 'equal': draw(st.booleans())}


@subcheck('large_gates', large_gate(), quick=100, thorough=3000)
def large_gates(case, rec):
    gates(case, rec)


@st.composite
def large_sub(draw):
    b = Bulk(draw(st.integers(0, 2 ** 31)))
    dims = draw(st.lists(st.integers(1, 4), min_size=2, max_size=5).filter(
        lambda l: 4 <= np.prod(l) <= 48))
    rem = draw(st.lists(st.integers(0, len(dims) - 1), unique=True,
                        min_size=0, max_size=len(dims) - 1))
    D = int(np.prod(dims))
    k = int(np.prod([x for i, x in enumerate(dims) if i not in rem]))
    return {'dims': dims, 'rem': rem, 't': b.cmat(k, 1),
            'psi': b.cmat(D, 1), 'rho': b.cmat(D, lo=-6, hi=6),
            'form': draw(st.sampled_from(['ket', 'rho', 'vec'])),
            'how': [draw(st.sampled_from(['array', 'op'])) for _ in '12'],
            'product': draw(st.booleans()),
            'factors': [b.cmat(x, 1) for x in dims]}


@subcheck('large_subspaces', large_sub(), quick=100, thorough=3000)
def large_subspaces(case, rec):
    subspace_states(case, rec)


@st.composite
def norm_case(draw):
    s = draw(solver_spec(kinds=('schroedinger',), dims=(2, 3), max_x=6))
    s['m']['init'] = 'default'
    return {'s': s, 't': draw(cmat(s['m']['d'], lo=-8, hi=8)),
            'mode': draw(st.sampled_from(['scalar', 'vector'])),
            'ph': draw(num()), 'equal': draw(st.integers(0, 3)) == 0}


@subcheck('matrix_norm', norm_case(), quick=200, thorough=5000)
def matrix_norm(case, rec):
    s = case['s']
    y = np.array(s['m']['y'])
    u = RefSolver(s, y).fwd()[-1]
    if abs(u[0, 0]) < 1e-2:
        rec.nontrivial(False)
        return
    t = u.copy() if case['equal'] else unitary_of(to_c(case['t']))
    if abs(t[0, 0]) < 1e-2:
        rec.nontrivial(False)
        return
    t = t * np.conj(t[0, 0]) / abs(t[0, 0])     # documented convention
    solver = build_solver(s)
    cost = cf.OperatorMatrixNorm(solver, op(t), mode=case['mode'])
    solver.set_optimization_parameters(y)
    diff = u * np.conj(u[0, 0]) / abs(u[0, 0]) - t
    exp = np.sum(np.abs(diff)) if case['mode'] == 'scalar' else \
        np.concatenate((diff.real.ravel(), diff.imag.ravel()))
    close(cost.costs(), exp, 'matrix difference (%s)' % case['mode'], 1e-7)
    close(solver.forward_propagators[-1].data, u, 'propagator afterwards',
          1e-7)
    require(len(cost.label) == np.size(exp), '%d names of %d costs'
            % (len(cost.label), np.size(exp)))
    rec.label(case['mode'])
    rec.nontrivial(np.max(np.abs(diff)) > 1e-6 or case['equal'])
