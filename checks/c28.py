"""C28: unsupported input is rejected and changes nothing."""
import os
import tempfile
from vlib.core import *
from vlib.gen import *
from vlib.models import *
from vlib.solvers import solver_spec, build_solver, RefSolver
from qopt import cost_functions as cf
from qopt import matrix, noise, optimize
from qopt import solver_algorithms as sa
from qopt import transfer_function as q
from qopt.data_container import DataContainer
from qopt.matrix import DenseOperator

META = dict(
    rule='Random valid objects are given one invalid input: pulses of the '
         'wrong length, width, dimension or data type, inconsistent times, '
         'Hamiltonians, targets and noise terms, unknown option values, '
         'operands of unsupported types. Rejection means an exception; '
         'afterwards the object must give the results it gave before. '
         'Non-trivial: the object was evaluated before and after the '
         'rejection, or the rejected input differs from a valid one (which '
         'is accepted) only in the invalid aspect.',
    assumptions=[])


def rejects(fn, what, excs=Exception):
    try:
        out = fn()
    except excs:
        return
    except Exception as e:
        raise Violation('%s: raised %r instead of %s' % (what, e, excs))
    raise Violation('%s: accepted, result %r' % (what, out))


def bad_pulse(y, how):
    """a pulse next to y which does not fit"""
    n, p = y.shape
    if how == 'longer':
        return np.concatenate((y, y[-1:]))
    if how == 'shorter':
        return y[:-1]
    if how == 'wider':
        return np.concatenate((y, y[:, -1:]), axis=1)
    if how == 'narrower':
        return y[:, :-1]
    if how == 'flat':
        return y.flatten()
    if how == 'deep':
        return y[:, :, None]
    if how == 'transposed':
        return np.ascontiguousarray(y.T) if n != p else y.T[:, :, None]
    if how == 'int':
        return y.astype(int)
    if how == 'complex':
        return y.astype(complex)
    if how == 'bool':
        return y > 0
    raise HarnessError(how)


SHAPES = ['longer', 'shorter', 'wider', 'narrower', 'flat', 'deep',
          'transposed']


# --------------------------------------------------------- transfer functions
@st.composite
def pulse_case(draw):
    n, p = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    t = draw(any_tf(n, p))
    if not even_ok(t) or t['kind'] == 'identity':
        # (the identity passes everything on)
        t = {'kind': 'oversampling', 'p': p, 'ov': 1, 'bound': None}
    yt = [draw(num(1, 12))] * n if needs_even(t) else draw(nums(n, 1, 12))
    return {'tf': t, 'yt': yt, 'y': draw(table(n, p)),
            'how': draw(st.lists(st.sampled_from(
                SHAPES + ['int', 'complex', 'bool']), min_size=1,
                max_size=3, unique=True)),
            'times': draw(st.sampled_from(['set', 'unset', 'changed'])),
            'grad': draw(st.sampled_from(['wider', 'longer', 'flat']))}


def make_tf(t, yt):
    if t['kind'] == 'parallel':
        a, b = build_tf(t['t1']), build_tf(t['t2'])
        a.set_times(yt)
        b.set_times(yt)
        return (q.ParallelMTF if t['matrix'] else q.ParallelTF)(a, b)
    return build_tf(t)


@subcheck('transfer_function_input', pulse_case(), quick=150, shards=2)
def tf_input(case, rec):
    t, yt, y = case['tf'], np.array(case['yt']), np.array(case['y'])
    tf = make_tf(t, yt)
    if case['times'] == 'unset' and t['kind'] not in ('parallel', 'customM',
                                                      'concat'):
        rejects(lambda: tf(y), 'a pulse before the times are set',
                (RuntimeError, IndexError))
    tf.set_times(yt)
    before = np.array(tf(y))
    for how in case['how']:
        bad = bad_pulse(y, how)
        # wrong shape: IndexError, wrong data type: TypeError
        rejects(lambda: tf(bad), 'pulse %s, %s' % (bad.shape, bad.dtype),
                (IndexError, TypeError))
        close(tf(y), before, 'after a rejected pulse', 0, 0)
    times = [[yt.tolist(), yt.tolist()]] if len(yt) > 1 else [[1., 2.],
                                                              [1., 2.]]
    # a two dimensional array has no meaning as list of durations
    if not any(x.get('explicit') for x in leaves_of(t)):
        rejects(lambda: tf.set_times(np.array(times[0] if len(yt) > 1
                                              else times)), 'times in two '
                'dimensions')
    rec.label(t['kind'])
    if t['kind'] in ('exponential', 'concat', 'parallel'):
        return
    g = np.ones((before.shape[0], 1, y.shape[1]))
    g = bad_pulse(g[:, 0], case['grad'])
    g = g[:, None] if g.ndim > 1 else g
    rejects(lambda: tf.gradient_chain_rule(g), 'derivatives of shape %s for '
            '%s' % (g.shape, t['kind']))


@st.composite
def tf_case(draw):
    return {'n': draw(st.integers(1, 4)), 'yt': draw(nums(5, 1, 12)),
            'ov': draw(st.integers(1, 3)), 'b': draw(st.integers(0, 3)),
            'kind': draw(st.sampled_from([
                'bound', 'unsorted', 'type', 'parallel', 'parallel_ov',
                'parallel_num', 'custom', 'custom_explicit', 'custom_bound',
                'kernel'])),
            'name': draw(st.sampled_from(['m', 'left_n', '', 'N', 'right'])),
            'cls': draw(st.sampled_from(['oversampling', 'oversamplingM',
                                         'exponential'])),
            'seed': draw(st.integers(0, 99))}


@subcheck('transfer_function_setup', tf_case(), quick=100)
def tf_setup(case, rec):
    n, k, ov = case['n'], case['kind'], case['ov']
    yt = np.array(case['yt'][:n])

    def make(bound=None, ov=ov, p=1):
        return build_tf({'kind': case['cls'], 'p': p, 'ov': ov,
                         'bound': bound, 'offset': None, 'rise': 1.})
    rec.label(k)
    if k == 'bound':
        def use():
            tf = make([case['name'], case['b']])
            tf.set_times(yt)
            return tf(np.ones((n, 1)))
        rejects(use, 'bound type %r' % case['name'])
        if case['cls'] != 'exponential':
            case = dict(case)
        tf = make(['n', case['b']])
        tf.set_times(yt)
        require(tf(np.ones((n, 1))).shape == (ov * n + 2 * case['b'], 1),
                'shape')
    elif k == 'unsorted':
        t = np.concatenate(([0], np.cumsum(case['yt'])))
        i = case['seed'] % (len(t) - 1)
        bad = t.copy()
        bad[[i, i + 1]] = bad[[i + 1, i]]
        tf = make()
        rejects(lambda: tf.set_absolute_times(bad), 'unsorted times')
        rejects(lambda: tf.set_absolute_times(bad.tolist()), 'unsorted times')
        tf.set_absolute_times(t)
        close(tf.x_times, np.repeat(case['yt'], ov) / ov, 'times')
    elif k == 'type':
        tf = make()
        for bad in (tuple(yt), 'abc', None, 1.5):
            rejects(lambda: tf.set_times(bad), 'times %r' % (bad,))
            rejects(lambda: tf.set_absolute_times(bad), 'times %r' % (bad,))
        tf.set_times(yt.tolist())
        close(tf.x_times, np.repeat(yt, ov) / ov, 'times')
    elif k == 'parallel':
        # the parts disagree on the number of input steps
        for cls in (q.ParallelTF, q.ParallelMTF):
            a, b = make(), make()
            if cls is q.ParallelMTF and case['cls'] == 'oversampling':
                continue
            a.set_times(yt)
            b.set_times(np.append(yt, 1.))
            rejects(lambda: cls(a, b), 'different input steps')
    elif k == 'parallel_ov':
        a, b = make(), make(ov=ov + 1)
        a.set_times(yt)
        b.set_times(yt)
        rejects(lambda: q.ParallelTF(a, b), 'different oversampling')
        if case['cls'] != 'oversampling':
            rejects(lambda: q.ParallelMTF(a, b), 'different oversampling')
    elif k == 'parallel_num':
        # same number of output steps, different filters
        a, b = make(['n', ov]), make(['x', 1])
        a.set_times(yt)
        b.set_times(yt)
        if case['cls'] != 'oversampling':
            rejects(lambda: q.ParallelMTF(a, b), 'different bound types')
    elif k == 'custom':
        # without padding the steps must be divided evenly
        m = np.ones((ov * (n + 1) + 1, n + 1, 1))
        tf = q.CustomMTF(m)
        rejects(lambda: tf.set_times(np.ones(n + 1)), 'matrix %s without '
                'bound type' % (m.shape,), ValueError)
        tf = q.CustomMTF(m[:-1])
        tf.set_times(np.ones(n + 1))
        close(tf(np.ones((n + 1, 1))), np.full((ov * (n + 1), 1), n + 1.),
              'custom')
    elif k == 'custom_explicit':
        m = np.ones((ov * n, n, 1))
        tf = q.CustomMTF(m, x_times=np.ones(ov * n))
        rejects(lambda: tf.set_times(np.append(yt, 1.)), 'other number of '
                'steps', ValueError)
        tf.set_times(yt)
        close(tf(np.ones((n, 1))), np.full((ov * n, 1), float(n)), 'custom')
    elif k == 'custom_bound':
        tf = q.CustomMTF(np.ones((ov * n, n, 1)), bound_type=(case['name'],
                                                              1))
        rejects(lambda: tf.set_times(yt), 'bound type %r' % case['name'],
                ValueError)
    elif k == 'kernel':
        rejects(lambda: q.ConvolutionTF(np.ones((2, 2, 2)), num_ctrls=2),
                'a three dimensional kernel')


# -------------------------------------------------------------------- solvers
@st.composite
def solver_case(draw):
    s = draw(solver_spec(('schroedinger', 'mc', 'lindblad')))
    return {'s': s, 'how': draw(st.lists(st.sampled_from(
        SHAPES), min_size=1, max_size=3, unique=True)),
        'fresh': draw(st.booleans()),
        'via': draw(st.sampled_from(['set', 'set', 'pulse_sequence']))}


@subcheck('solver_pulse', solver_case(), quick=100, shards=2)
def solver_pulse(case, rec):
    """A pulse of the wrong shape is rejected; the solver keeps the last
    accepted pulse and all its results."""
    s = case['s']
    m = s['m']
    solver = build_solver(s)
    rejects(lambda: solver.propagators, 'propagators without a pulse')
    rejects(lambda: solver.forward_propagators, 'propagators without a pulse')
    y = np.array(m['y'])
    if not case['fresh']:
        solver.set_optimization_parameters(y)
        before = [p.data.copy() for p in solver.propagators]
    hit = 0
    for how in case['how']:
        bad = bad_pulse(y + .5, how)
        plain = not m['tf'] and m['amp']['kind'] == 'identity'
        if case['via'] == 'set':
            fn = lambda: solver.set_optimization_parameters(bad)
        else:
            fn = lambda: solver.create_pulse_sequence(new_amps=bad)
        # an amplitude function may accept any shape
        if m['tf'] or m['amp']['kind'] == 'identity' or how in (
                'longer', 'shorter'):
            rejects(fn, 'pulse %s instead of %s' % (bad.shape, y.shape),
                    (ValueError, IndexError) if m['tf'] or plain
                    else Exception)
            hit += 1
            if not case['fresh']:
                for a, b in zip(solver.propagators, before):
                    close(a.data, b, 'propagators after a rejected pulse', 0,
                          0)
    if case['fresh']:
        rejects(lambda: solver.propagators, 'propagators without a pulse')
        solver.set_optimization_parameters(y)
    close([p.data for p in solver.propagators], RefSolver(s, y).props(),
          'propagators', 1e-8, 1e-8)
    rec.label('filter', bool(m['tf']))
    rec.nontrivial(hit)


@st.composite
def setup_case(draw):
    d = draw(st.integers(2, 3))
    n = draw(st.integers(2, 4))
    return {'d': d, 'n': n, 'y': draw(table(n, 1)),
            'h': [draw(herm(d)) for _ in range(2)],
            'kind': draw(st.sampled_from([
                'drift_count', 'tau_2d', 'paranoia', 'dims', 'dims_rect',
                'frechet', 'method', 'processes', 'noise_term', 'noise_name',
                'no_pulse', 'state_type'])),
            'cls': draw(st.sampled_from(['schroedinger', 'mc'])),
            'extra': draw(st.integers(1, 3)),
            'name': draw(st.sampled_from(['', 'Grape', 'exact', 'pade',
                                          'fourth_order']))}


@subcheck('solver_setup', setup_case(), quick=100, shards=2)
def solver_setup(case, rec):
    """Inconsistent models and unknown methods."""
    d, n, k = case['d'], case['n'], case['kind']
    h0, h1 = (DenseOperator(to_herm(h)) for h in case['h'])
    y = np.array(case['y'])

    def make(**kw):
        args = dict(h_drift=[h0], h_ctrl=[h1], tau=[.5] * n)
        if case['cls'] == 'mc' or k == 'processes':
            args.update(
                h_noise=[h1], noise_trace_generator=noise.NTGQuasiStatic(
                    n_samples_per_trace=n, n_traces=2,
                    standard_deviation=[.5], sampling_mode='monte_carlo'))
        args.update(kw)
        cls = sa.SchroedingerSMonteCarlo if 'h_noise' in args else \
            sa.SchroedingerSolver
        return cls(**args)

    def run(**kw):
        s = make(**kw)
        s.set_optimization_parameters(y)
        return s.forward_propagators, getattr(s, 'forward_propagators_noise',
                                              None)
    run()      # the same model without the mistake is fine
    rec.label(k)
    if k == 'drift_count':
        bad = n + case['extra'] if case['extra'] < 3 or n < 3 else n - 1
        rejects(lambda: make(h_drift=[h0] * bad), '%d drift Hamiltonians for '
                '%d steps' % (bad, n), ValueError)
        run(h_drift=[h0] * n)
    elif k == 'tau_2d':
        rejects(lambda: run(tau=np.full((n, 2), .5)), 'tau in two dimensions')
    elif k == 'paranoia':
        rejects(lambda: make().consistency_checks(-case['extra']),
                'negative paranoia level', ValueError)
        for level in range(3):
            make().consistency_checks(level)
    elif k == 'dims':
        big = DenseOperator(np.eye(d + case['extra']))
        rejects(lambda: make(h_ctrl=[h1, big]), 'control '
                'of another dimension')
        rejects(lambda: make(h_drift=[big]), 'drift of '
                'another dimension')
        rejects(lambda: run(h_drift=[big]), 'drift')
    elif k == 'dims_rect':
        rect = DenseOperator(np.ones((d, d + case['extra'])))
        rejects(lambda: make(h_ctrl=[h1, rect]),
                'rectangular control')
        rejects(lambda: make(h_drift=[h0] * (n - 1) + [rect]), 'rectangular drift')
    elif k == 'frechet':
        s = make(frechet_deriv_approx_method=case['name'] or 'x')
        s.set_optimization_parameters(y)
        rejects(lambda: s.frechet_deriv_propagators, 'unknown approximation',
                ValueError)
    elif k == 'method':
        rejects(lambda: run(exponential_method=case['name'] or 'x'),
                'exponential method')
    elif k == 'processes':
        for bad in (-case['extra'], 0):
            rejects(lambda: run(processes=bad), '%d processes' % bad)
    elif k == 'noise_term':
        s = make(filter_function_h_n=[[h1.data, np.ones(n)]])
        s.set_optimization_parameters(y)
        rejects(lambda: s.create_pulse_sequence(), 'noise term without name')
    elif k == 'noise_name':
        s = make(filter_function_h_n=[[h1.data, np.ones(n), case['extra']]])
        s.set_optimization_parameters(y)
        rejects(lambda: s.create_pulse_sequence(), 'name which is no string')
    elif k == 'no_pulse':
        s = make()
        for f in ('propagators', 'forward_propagators',
                  'reversed_propagators', 'frechet_deriv_propagators'):
            rejects(lambda: getattr(s, f), f + ' without a pulse')
        rejects(s.create_pulse_sequence, 'pulse sequence without a pulse')
        s.set_optimization_parameters(y)
        require(len(s.propagators) == n, 'propagators')
    elif k == 'state_type':
        s = make(initial_state=np.eye(d))
        def rev():
            s.set_optimization_parameters(y)
            return s.reversed_propagators
        rejects(rev, 'reversed propagators of an array as initial state')


# ------------------------------------------------------------------ operators
@st.composite
def op_case(draw):
    d = draw(st.integers(2, 4))
    return {'d': d, 'm': draw(cmat(d)), 'kind': draw(st.sampled_from([
        'operand', 'data', 'ptrace', 'kron', 'exp', 'dexp', 'vectorize',
        'square', 'super', 'identity', 'angle_axis'])),
        'bad': draw(st.sampled_from(['str', 'list', 'none', 'dict', 'tuple'])),
        'oper': draw(st.sampled_from(['+', '-', '*', '/', '+=', '-=', '*=',
                                      'r*'])),
        'extra': draw(st.integers(1, 3)), 'name': draw(st.sampled_from(
            ['', 'pade', 'Spectral', 'frechet', 'fourth_order'])),
        'eps': draw(st.sampled_from([.01, .5, -.25]))}


@subcheck('operators', op_case(), quick=200)
def operators(case, rec):
    a = to_c(case['m'])
    A = DenseOperator(a.copy())
    d, k = case['d'], case['kind']
    bad = {'str': 'a', 'list': [1, 2], 'none': None, 'dict': {},
           'tuple': (1,)}[case['bad']]
    rec.label(k)
    if k == 'operand':
        def f():
            B = A.copy()
            o = case['oper']
            if o == '+':
                return A + bad
            if o == '-':
                return A - bad
            if o == '*':
                return A * bad
            if o == '/':
                return A / bad
            if o == 'r*':
                return bad * A
            if o == '+=':
                B += bad
            elif o == '-=':
                B -= bad
            else:
                B *= bad
            return B
        rejects(f, 'operand %r of %s' % (bad, case['oper']),
                (NotImplementedError, TypeError, ValueError))
    elif k == 'data':
        rejects(lambda: DenseOperator(bad), 'data %r' % (bad,), ValueError)
    elif k == 'ptrace':
        rejects(lambda: A.ptrace(dims=[d, case['extra'] + 1], remove=[0]),
                'dimensions', AssertionError)
        close(A.ptrace(dims=[d, 1], remove=[1]).data, a, 'trivial trace')
    elif k == 'kron':
        rejects(lambda: A.kron(bad), 'kron with %r' % (bad,), ValueError)
    elif k == 'exp':
        rejects(lambda: A.exp(.5, method=case['name'] or 'x'), 'method',
                (ValueError, NotImplementedError))
    elif k == 'dexp':
        for ce in (False, True):
            rejects(lambda: A.dexp(A, .5, compute_expm=ce,
                                   method=case['name'] or 'x'), 'method',
                    (ValueError, NotImplementedError))
    elif k == 'vectorize':
        r = np.ones((d, d + case['extra']))
        f = matrix.ket_vectorize_density_matrix
        rejects(lambda: f(r), 'rectangular matrix', ValueError)
        rejects(lambda: f(DenseOperator(r)), 'rectangular matrix', ValueError)
        rejects(lambda: f(bad), '%r' % (bad,))
    elif k == 'square':
        r = np.ones((d * d, 1 + case['extra']))
        f = matrix.convert_ket_vectorized_density_matrix_to_square
        rejects(lambda: f(r), 'not a ket', ValueError)
        rejects(lambda: f(DenseOperator(r)), 'not a ket', ValueError)
        rejects(lambda: f(bad), '%r' % (bad,))
    elif k == 'super':
        rejects(lambda: matrix.convert_unitary_to_super_operator(bad),
                '%r' % (bad,), ValueError)
        rejects(lambda: matrix.convert_unitary_to_super_operator(
            a.tolist()), 'nested list', ValueError)
    elif k == 'identity':
        rejects(lambda: DenseOperator(np.ones((d, d + 1))).identity_like(),
                'identity of rectangular shape', AssertionError)
    elif k == 'angle_axis':
        u = unitary_of(a[:2, :2])
        cf.angle_axis_representation(u)
        v = u.copy()
        v[case['extra'] // 2, case['extra'] % 2] += case['eps'] * 1j + .25
        if np.max(np.abs(v @ v.conj().T - np.eye(2))) > 1e-3:
            rejects(lambda: cf.angle_axis_representation(v), 'not unitary',
                    ValueError)
            rejects(lambda: cf.angle_axis_representation(DenseOperator(v)),
                    'not unitary', ValueError)
        rejects(lambda: cf.angle_axis_representation(u * (1 + case['eps'])),
                'not unitary', ValueError)
    close(A.data, a, 'the operator was changed', 0, 0)


# -------------------------------------------------- costs, noise, optimizers
@st.composite
def misc_case(draw):
    return {'kind': draw(st.sampled_from([
        'measure', 'no_gradient', 'mode', 'mode_grad', 'overlap',
        'overlap_sub', 'extension', 'dt', 'sampling', 'one_trace', 'append',
        'step_zero', 'step_float', 'scaling', 'plot_mode', 'missing',
        'simulator'])),
        'name': draw(st.sampled_from(['average', 'process', '', 'Vector'])),
        'd': draw(st.integers(2, 3)), 'm': draw(cmat(3)),
        'v': draw(st.sampled_from([0, .5, -1, .99])),
        'n': draw(st.integers(2, 5))}


@subcheck('options', misc_case(), quick=150)
def options(case, rec):
    d, k, name = case['d'], case['kind'], case['name']
    a = to_c(case['m'])[:d, :d]
    U = unitary_of(a)
    h = DenseOperator((a + a.conj().T) / 2)
    rec.label(k)

    def solver():
        s = sa.SchroedingerSMonteCarlo(
            h_drift=[h], h_ctrl=[h], tau=[.5, .25], h_noise=[h],
            noise_trace_generator=noise.NTGQuasiStatic(
                n_samples_per_trace=2, n_traces=2, standard_deviation=[.5],
                sampling_mode='monte_carlo'))
        s.set_optimization_parameters(np.ones((2, 1)))
        return s

    T = DenseOperator(U)
    if k == 'measure':
        rejects(lambda: cf.OperationInfidelity(
            solver(), T, fidelity_measure=name).costs(), 'measure %r' % name,
            NotImplementedError)
        rejects(lambda: cf.OperationNoiseInfidelity(
            solver(), T, fidelity_measure=name).costs(), 'measure %r' % name,
            NotImplementedError)
    elif k == 'no_gradient':
        ket = DenseOperator(np.eye(d)[:1])
        for c in (cf.StateNoiseInfidelity(solver(), ket),
                  cf.LiouvilleMonteCarloEntanglementInfidelity(solver(), T),
                  cf.IncoherentLeakageError(solver(), [0]),
                  cf.LeakageLiouville(solver(), [0], input_unitary=True)):
            rejects(c.grad, 'gradient of ' + type(c).__name__,
                    NotImplementedError)
    elif k == 'mode':
        rejects(lambda: cf.OperatorMatrixNorm(solver(), T, mode=name),
                'mode %r' % name, ValueError)
    elif k == 'mode_grad':
        rejects(cf.OperatorMatrixNorm(solver(), T, mode='scalar').grad,
                'gradient', NotImplementedError)
        rejects(cf.OperatorMatrixNorm(
            solver(), T, mode='rotation_axis').grad, 'gradient',
            NotImplementedError)
    elif k == 'overlap':
        rejects(lambda: cf.state_fidelity(
            target=U, propagated_state=U, computational_states=None),
            'matrices as states', ValueError)
        rejects(lambda: cf.state_fidelity(
            target=U[:, :1], propagated_state=U[:, :1],
            computational_states=None), 'ket as target', ValueError)
    elif k == 'overlap_sub':
        rejects(lambda: cf.state_fidelity_subspace(
            target=U[:, :1], propagated_state=np.kron(U[:, :1], U[:, :1]),
            dims=[d, d], remove=[0]), 'ket as target', ValueError)
    elif k == 'extension':
        rejects(lambda: noise.NTGColoredNoise(
            n_samples_per_trace=4, noise_spectral_density=lambda f: f * 0 + 1,
            dt=.5, low_frequency_extension_ratio=case['v']), 'ratio %g'
            % case['v'], ValueError)
    elif k == 'dt':
        for dt in ([.5], np.array([.5, .5])):
            rejects(lambda: noise.NTGColoredNoise(
                n_samples_per_trace=4, noise_spectral_density=lambda f:
                f * 0 + 1, dt=dt), 'dt %r' % dt, ValueError)
    elif k == 'sampling':
        def draw():
            return noise.NTGQuasiStatic(
                n_samples_per_trace=2, n_traces=3, standard_deviation=[1.],
                sampling_mode=name).noise_samples
        rejects(draw, 'sampling mode %r' % name, ValueError)
    elif k == 'one_trace':
        rejects(lambda: noise.NTGQuasiStatic(
            n_samples_per_trace=2, n_traces=1, standard_deviation=[1.],
            sampling_mode='uncorrelated_deterministic',
            correct_std_for_discrete_sampling=True), 'a single trace',
            (RuntimeError, RuntimeWarning))
    elif k == 'append':
        from qopt.optimization_data import OptimizationResult
        data = DataContainer()
        r = OptimizationResult(final_cost=np.zeros(2), indices=['a', 'b'],
                               final_parameters=np.zeros((1, 1)))
        data.append_optim_result(r)
        for bad in (['a'], ['b', 'a'], ['a', 'b', 'c'], ['a', 'c']):
            rejects(lambda: data.append_optim_result(OptimizationResult(
                final_cost=np.zeros(len(bad)), indices=bad,
                final_parameters=np.zeros((1, 1)))), 'costs %r' % bad)
            require(len(data) == 1 and len(data.final_parameters) == 1
                    and len(data.status) == 1 and len(data.costs) == 1
                    and len(data.parameters) == 1
                    and len(data.init_parameters) == 1,
                    'a rejected result was stored')
    elif k in ('step_zero', 'step_float'):
        step = 0 if k == 'step_zero' else case['v'] + .25
        an = optimize.PulseAnnealer(
            initial_state=np.zeros((2, 1)), bounds=np.array(
                [np.full((2, 1), -5), np.full((2, 1), 5)]), step_size=step,
            step_ratio=1., Tmax=1., Tmin=.1, steps=10, updates=0,
            energy_function=lambda p: float(np.sum(p ** 2)))
        rejects(an.move, 'step size %r' % step, ValueError)
    elif k == 'simulator':
        from qopt.simulator import Simulator
        n, c = case['n'], d
        good = dict(optimization_parameters=np.zeros((n, c)), num_ctrl=c,
                    times=np.ones(n), num_times=n)
        Simulator([], [], **good).check()
        for key, bad in (('times', np.ones(n + 1)), ('num_times', n - 1),
                         ('num_ctrl', c + 1),
                         ('optimization_parameters', np.zeros((c, n, 1))),
                         ('optimization_parameters', np.zeros((n + 1, c))),
                         ('optimization_parameters', np.zeros((n, c + 1)))):
            rejects(Simulator([], [], **dict(good, **{key: bad})).check,
                    'simulator with wrong %s' % key, ValueError)
    elif k in ('scaling', 'plot_mode', 'missing'):
        ntg = noise.NTGColoredNoise(
            n_samples_per_trace=16, noise_spectral_density=lambda f:
            f * 0 + 1., dt=.5)
        if k == 'scaling':
            rejects(lambda: ntg.plot_periodogram(2, scaling=name, draw_plot=
                                                 False), 'scaling %r' % name,
                    ValueError)
        elif k == 'plot_mode':
            rejects(lambda: ntg.plot_periodogram(2, log_plot=name),
                    'mode %r' % name, ValueError)
        else:
            for f in ('n_samples_per_trace', 'n_traces', 'n_noise_operators'):
                bad = noise.NTGColoredNoise(
                    **dict(dict(n_samples_per_trace=16, dt=.5, n_traces=2,
                                n_noise_operators=1,
                                noise_spectral_density=lambda f: f * 0 + 1.),
                           **{f: None}))
                rejects(lambda: bad.noise_samples, f + ' missing')
