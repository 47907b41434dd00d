"""C05: noise-free propagation solves the Schroedinger equation."""
from vlib.core import *
from vlib.solvers import *
from qopt.solver_algorithms import SchroedingerSolver

META = dict(
    rule='Random control models: dimension 2-4, up to three control '
         'operators (incl. Pauli-type, degenerate, zero), up to five steps of '
         'unequal duration, constant / per-step / missing drift, transfer '
         'functions (incl. concatenated and parallel), amplitude functions, '
         'exponential methods, units over many orders of magnitude, ket / rectangular / identity initial states. '
         'Non-trivial: at least two time steps and Hamiltonians of different '
         'steps that do not commute.',
    assumptions=['scipy.linalg.expm of the piecewise constant Hamiltonian is '
                 'the reference', 'dimensions up to 9, up to 40 steps and 13 '
                 'controls'])


@st.composite
def case_(draw):
    m = draw(model(dims=(2, 2, 3, 4), max_ctrl=3, max_y=5,
                   zero_steps=True))
    if draw(st.integers(0, 3)) == 0:
        m = draw(in_units({'kind': 'schroedinger', 'm': m}))['m']
    return {'m': m, 'deriv': draw(st.booleans()),
            'order': draw(st.permutations(['p', 'f', 'r']))}


def noncommuting(hams):
    for a in hams:
        for b in hams:
            if np.linalg.norm(a @ b - b @ a) > 1e-6:
                return True
    return False


@subcheck('propagation', case_(), quick=500, thorough=15000, shards=3)
def propagation(case, rec):
    m = case['m']
    ref = RefModel(m)
    kw = solver_kwargs(m)
    s = SchroedingerSolver(calculate_propagator_derivatives=case['deriv'],
                           **kw)
    y = np.array(m['y'])
    s.set_optimization_parameters(y)
    u = ref.u(y)
    props = ref.props_u(u)
    fwd = fwd_of(props, ref.init_state())
    rev = rev_of(props)
    tol = dict(atol=1e-8, rtol=1e-8)
    for o in case['order']:
        if o == 'p':
            got = s.propagators
            require(len(got) == len(props), 'number of propagators %d, '
                    'expected %d' % (len(got), len(props)))
            for t in range(len(props)):
                close(got[t].data, props[t], 'propagator %d' % t, **tol)
                close(got[t].data.conj().T @ got[t].data, np.eye(m['d']),
                      'unitarity of propagator %d' % t, **tol)
        elif o == 'f':
            got = s.forward_propagators
            require(len(got) == len(fwd), 'number of forward propagators')
            for t in range(len(fwd)):
                close(got[t].data, fwd[t], 'forward propagation %d' % t,
                      **tol)
        else:
            got = s.reversed_propagators
            require(len(got) == len(rev), 'number of reversed propagators')
            for t in range(len(rev)):
                close(got[t].data, rev[t], 'reversed propagation %d' % t,
                      **tol)
    # forward and backward products meet at every step
    f, r = s.forward_propagators, s.reversed_propagators
    n = len(props)
    for t in range(n + 1):
        close((r[n - t] * f[t]).data, fwd[-1], 'composition at step %d' % t,
              **tol)
    close(s.transferred_time / np.max(ref.xt), ref.xt / np.max(ref.xt),
          'durations of the time slices')
    # the given operators and arrays are untouched
    for h, hr in zip(kw['h_ctrl'], ref.h_ctrl):
        close(h.data, hr, 'control operator after the propagation', 0, 0)
    close(y, np.array(m['y']), 'optimization parameters', 0, 0)
    if 'initial_state' in kw:
        close(kw['initial_state'].data, ref.init_state(), 'initial state',
              0, 0)
    rec.label('drift:' + m['drift_style'])
    rec.label('init:' + m['init'])
    rec.label('method:%s' % m['method'])
    rec.label('tf:' + (m['tf'] or {'kind': 'none'})['kind'])
    rec.label('amp:' + m['amp']['kind'])
    rec.nontrivial(len(props) > 1 and noncommuting(ref.hams(u)))


@subcheck('large', st.tuples(
    large_spec(kinds=('schroedinger',)), st.booleans(),
    st.permutations(['p', 'f', 'r'])).map(
        lambda t: {'m': t[0]['m'], 'deriv': t[1], 'order': list(t[2])}),
    quick=60, thorough=2000, shards=3)
def large(case, rec):
    propagation(case, rec)


@subcheck('long', st.tuples(
    large_spec(kinds=('schroedinger',), profiles=('long',)), st.booleans(),
    st.permutations(['p', 'f', 'r']), st.integers(0, 2 ** 31),
    st.sampled_from(['default', 'ket', 'rect', 'default'])).map(
        lambda t: {'m': t[0]['m'], 'deriv': t[1], 'order': list(t[2]),
                   'seed': t[3], 'init': t[4]}),
    quick=12, thorough=300, shards=3)
def long(case, rec):
    """Hundreds of time steps."""
    m, d = case['m'], case['m']['d']
    b = Bulk(case['seed'])
    if case['init'] == 'ket':
        m = dict(m, init='ket', psi=b.cmat(d, 1))
    elif case['init'] == 'rect':
        m = dict(m, init='rect', psi=b.cmat(d, 2 + case['seed'] % 2 * (d - 2)))
    propagation(dict(case, m=m), rec)
    rec.label(case['init'])


@st.composite
def split_case(draw):
    m = draw(model(dims=(2, 3), max_ctrl=2, max_y=4, tf=False, amp=False))
    m['tau_list'] = False
    return {'m': m, 'k': [draw(st.integers(1, 3)) for _ in range(m['n'])],
            'phase': draw(num())}


@subcheck('metamorphic', split_case(), quick=250, thorough=5000)
def metamorphic(case, rec):
    """Refining a step, shifting the energy and undoing a pulse."""
    m = case['m']
    y = np.array(m['y'])

    def final(m, y, **over):
        kw = solver_kwargs(m)
        kw.update(over)
        s = SchroedingerSolver(**kw)
        s.set_optimization_parameters(y)
        return s.forward_propagators[-1].data
    base = final(m, y)
    # refine
    k = case['k']
    tau = np.concatenate([[t / q] * q for t, q in zip(m['tau'], k)])
    yy = np.concatenate([[r] * q for r, q in zip(m['y'], k)])
    drift = RefModel(m).h_drift
    fine = [op(h) for h, q in zip(drift, k) for _ in range(q)]
    close(final(m, yy, tau=tau, h_drift=fine), base, 'refined time steps',
          atol=1e-8)
    # energy shift -> phase
    shifted = [op(h + case['phase'] * np.eye(m['d'])) for h in drift]
    close(final(m, y, h_drift=shifted),
          base * np.exp(-1j * case['phase'] * np.sum(m['tau'])),
          'energy shift', atol=1e-8)
    # reversed order and sign of all Hamiltonians undoes the pulse
    neg = [op(-h) for h in drift[::-1]]
    both = SchroedingerSolver(
        h_ctrl=solver_kwargs(m)['h_ctrl'],
        h_drift=[op(h) for h in drift] + neg,
        tau=np.array(m['tau'] + m['tau'][::-1]),
        exponential_method=m['method'])
    both.set_optimization_parameters(np.concatenate((y, -y[::-1])))
    close(both.forward_propagators[-1].data, np.eye(m['d']), 'undone pulse',
          atol=1e-8)
    rec.nontrivial(np.linalg.norm(base - base[0, 0] * np.eye(len(base), len(
        base[0]))) > 1e-6 and max(k) > 1)


@st.composite
def rot_case(draw):
    return {'m': draw(model(dims=(2, 3), max_ctrl=2, max_y=4)),
            'w': draw(cmat(3))}


@subcheck('basis_change', rot_case(), quick=200, thorough=4000)
def basis_change(case, rec):
    """A unitary change of basis commutes with the propagation."""
    m = case['m']
    w = unitary_of(to_c(case['w'])[:m['d'], :m['d']])
    kw = solver_kwargs(m, init=False)
    s = SchroedingerSolver(**kw)
    y = np.array(m['y'])
    s.set_optimization_parameters(y)
    kw2 = solver_kwargs(m, init=False)

    def rot(a):
        return op(w @ a.data @ w.conj().T)
    kw2['h_ctrl'] = [rot(h) for h in kw2['h_ctrl']]
    kw2['h_drift'] = rot(kw2['h_drift']) if m['drift_style'] == 'single' \
        else [rot(h) for h in kw2['h_drift']]
    s2 = SchroedingerSolver(**kw2)
    s2.set_optimization_parameters(y)
    close(s2.forward_propagators[-1].data,
          w @ s.forward_propagators[-1].data @ w.conj().T, 'basis change',
          atol=1e-7)
    rec.nontrivial(np.linalg.norm(w - np.diag(np.diag(w))) > 1e-3)
