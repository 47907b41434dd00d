"""C08: every noise trace of a Monte Carlo solver is its own experiment."""
from vlib.core import *
from vlib.solvers import *
from qopt.solver_algorithms import (SchroedingerSolver,
                                    SchroedingerSMonteCarlo,
                                    SchroedingerSMCControlNoise)

META = dict(
    rule='Random control models with one or two noise operators (or control '
         'noise), up to four traces of explicit samples, noise amplitude '
         'functions of samples, raw, transferred parameters and control '
         'amplitudes, one or several processes. Every trace is compared with '
         'matrix exponentials of its own Hamiltonian; permuting, zeroing and '
         'splitting the traces permutes, removes and splits the results. '
         'Non-trivial: at least two different traces with non-zero samples '
         'and a noise operator that does not commute with the Hamiltonian.',
    assumptions=['scipy.linalg.expm is the reference'])


def noisy_nontrivial(ref):
    if ref.n_traces < 2:
        return False
    a = np.array([ref.gens(k) for k in range(ref.n_traces)])
    b = np.array(ref.gens())
    d = a - b[None]
    c = np.max(np.abs(a @ b[None] - b[None] @ a))
    return c > 1e-6 and np.max(np.abs(d[0] - d[1])) > 1e-6


@st.composite
def trace_case(draw):
    s = draw(solver_spec(kinds=('mc', 'mc', 'mcctrl'), max_traces=4,
                         dims=(2, 3, 4), max_y=4, units=True,
                         zero_steps=True))
    return {'s': s, 'order': draw(st.permutations(list(QUERIES)))}


@subcheck('traces', trace_case(), quick=400, thorough=10000, shards=3)
def traces(case, rec):
    s = case['s']
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    ref = RefSolver(s, y)
    for q in case['order']:
        check_query(s, solver, ref, q)
    rec.label(s['kind'])
    if s['kind'] == 'mc':
        rec.label('amplitude function %s' % s['noise']['naf'])
    rec.nontrivial(noisy_nontrivial(ref))


@subcheck('large', st.tuples(
    large_spec(kinds=('mc', 'mc', 'mcctrl'),
               profiles=('traces', 'traces', 'traces', 'mix', 'steps', 'dim',
                         'long')),
    st.permutations(['pn', 'fn', 'rn', 'p'])).map(
        lambda t: {'s': t[0], 'order': list(t[1])}),
    quick=50, thorough=1500, shards=3)
def large(case, rec):
    """Up to 25 realisations."""
    traces(case, rec)


@st.composite
def proc_case(draw):
    s = draw(solver_spec(kinds=('mc', 'mc', 'mcctrl'), max_traces=9,
                         deriv=False))
    s['noise']['processes'] = draw(st.sampled_from([2, 3, None]))
    if s['noise']['processes'] is None:
        s['noise']['processes'] = 2
    return {'s': s, 'q': draw(st.sampled_from(['pn', 'fn', 'rn']))}


@subcheck('processes', proc_case(), quick=24, thorough=300, shards=2)
def processes(case, rec):
    """The number of processes does not matter."""
    s = case['s']
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    ref = RefSolver(s, y)
    check_query(s, solver, ref, case['q'])
    one = build_solver(s, processes=1)
    one.set_optimization_parameters(y)
    for a, b in zip(solver.propagators_noise, one.propagators_noise):
        require(len(a) == len(b), 'number of steps')
        for p, q in zip(a, b):
            close(p.data, q.data, 'propagators of several processes', 1e-12,
                  1e-12)
    require(len(solver.propagators_noise) == len(one.propagators_noise),
            'number of traces')
    rec.nontrivial(noisy_nontrivial(ref))


@st.composite
def meta_case(draw):
    s = draw(solver_spec(kinds=('mc', 'mcctrl'), max_traces=4))
    n = len(s['noise']['samples'][0])
    return {'s': s, 'perm': draw(st.permutations(list(range(n)))),
            'k': draw(st.integers(0, n - 1))}


@subcheck('metamorphic', meta_case(), quick=200, thorough=4000)
def metamorphic(case, rec):
    s = case['s']
    y = np.array(s['m']['y'])
    samples = np.array(s['noise']['samples'])

    def fwd(sm, **kw):
        solver = build_solver(s, noise_trace_generator=fixed_ntg(sm), **kw)
        solver.set_optimization_parameters(y)
        return [[f.data for f in tr]
                for tr in solver.forward_propagators_noise], \
            [f.data for f in solver.forward_propagators]
    base, clean = fwd(samples)
    perm, clean2 = fwd(samples[:, case['perm']])
    close(np.array(perm), np.array(base)[case['perm']], 'permuted traces',
          1e-10)
    close(np.array(clean2), np.array(clean), 'unperturbed propagation',
          1e-10)
    single, _ = fwd(samples[:, [case['k']]])
    close(np.array(single[0]), np.array(base[case['k']]), 'single trace',
          1e-10)
    if s['noise']['naf'] != 'y':
        zero, _ = fwd(samples * 0)
        for tr in zero:
            close(np.array(tr), np.array(clean), 'traces without noise',
                  1e-9)
    if s['kind'] == 'mc' and s['noise']['naf'] is None:
        # the noise is part of the Hamiltonian: give it as drift
        k = case['k']
        hn = [to_herm(h) for h in s['noise']['h']]
        drift = RefModel(s['m']).h_drift
        h_drift = [op(h + sum(samples[i, k, t] * hn[i]
                              for i in range(len(hn))))
                   for t, h in enumerate(drift)]
        kw = solver_kwargs(s['m'])
        kw['h_drift'] = h_drift
        d = SchroedingerSolver(**kw)
        d.set_optimization_parameters(y)
        close(np.array([f.data for f in d.forward_propagators]),
              np.array(base[k]), 'noise given as drift', 1e-8)
    rec.label(s['kind'])
    rec.nontrivial(noisy_nontrivial(RefSolver(s, y)))


@st.composite
def redraw_case(draw):
    s = draw(solver_spec(kinds=('mc', 'mcctrl'), max_traces=3, approx=(None,)))
    s['noise']['always'] = draw(st.booleans())
    return {'s': s, 'y2': draw(table(s['m']['n'], s['m']['p'], -12, 12)),
            'order': draw(st.permutations(list(QUERIES)))}


@subcheck('one_realisation', redraw_case(), quick=150, thorough=3000)
def one_realisation(case, rec):
    """All results between two changes belong to the same noise samples."""
    from qopt.noise import NoiseTraceGenerator
    s = case['s']
    base = np.array(s['noise']['samples'])

    class Drifting(NoiseTraceGenerator):
        draws = 0

        def _sample_noise(self):
            self.draws += 1
            self._noise_samples = base / self.draws
    n_op, n_tr, n_s = base.shape
    ntg = Drifting(n_samples_per_trace=n_s, n_traces=n_tr,
                   n_noise_operators=n_op,
                   always_redraw_samples=s['noise']['always'])
    solver = build_solver(s, noise_trace_generator=ntg)
    for y in (s['m']['y'], case['y2']):
        y = np.array(y)
        solver.set_optimization_parameters(y)
        first = True
        for q in case['order']:
            if first:
                getattr(solver, 'propagators_noise')
                used = ntg.draws
                first = False
            s2 = dict(s, noise=dict(s['noise'],
                                    samples=(base / used).tolist()))
            check_query(s2, solver, RefSolver(s2, y), q,
                        'draw %d: ' % used)
        if not s['noise']['always']:
            require(ntg.draws == 1, 'stored samples were drawn again')
    if s['noise']['always'] and not np.array_equal(
            np.array(s['m']['y']), np.array(case['y2'])):
        require(ntg.draws >= 2, 'samples were not redrawn upon new '
                'parameters')
    rec.nontrivial(noisy_nontrivial(RefSolver(s, np.array(s['m']['y']))))
