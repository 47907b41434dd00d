"""C10: time bookkeeping and validation of the transfer functions."""
from vlib.core import *
from vlib.models import *

META = dict(
    rule='Random transfer functions (leaves, concatenations of concatenations'
         ', parallel ones; vector and matrix versions), histories of set '
         'times (relative, absolute, lists, column vectors, other numbers of '
         'steps). After each the number and the durations of the output steps'
         ', the padding and the shape of the output are compared with the '
         'reference, and ill-formed pulses must be rejected. Non-trivial: at '
         'least two steps of unequal duration, oversampling or padding.',
    assumptions=['exponential saturation only for equal steps, as documented'])


@st.composite
def tf_case(draw, matrix=None, max_n=5, p=None):
    matrix = draw(st.booleans()) if matrix is None else matrix
    if p is None and draw(st.integers(0, 4)) == 0:
        return draw(large_case(matrix))
    n = draw(st.integers(1, max_n))
    p = draw(st.integers(1, 3)) if p is None else p
    t = draw(any_tf(n, p, matrix_only=matrix, depth=2))
    if not even_ok(t):
        t = {'kind': 'oversamplingM', 'p': p, 'ov': 2, 'bound': ['n', 1],
             'offset': None}
    tau = draw(nums(n, 1, 16))
    if needs_even(t):
        tau = [tau[0]] * n
    c = {'t': t, 'n': n, 'tau': tau}
    return draw(timed(c)) if draw(st.integers(0, 3)) == 0 else c


@st.composite
def large_case(draw, matrix):
    seed = draw(st.integers(0, 2 ** 31))
    b = Bulk(seed)
    n, p = draw(st.sampled_from([2, 5, 9, 12, 17, 30])), draw(
        st.integers(1, 6))
    t = draw(large_tf(b, n, p, matrix))
    tau = b.nums(n, 1, 16)
    if needs_even(t):
        tau = [tau[0]] * n
    c = {'t': t, 'n': n, 'tau': tau, 'large': seed}
    return draw(timed(c)) if draw(st.integers(0, 3)) == 0 else c


@st.composite
def timed(draw, c):
    """Times in other units."""
    T = 10. ** draw(st.sampled_from([-12, -9, -6, -3, 3, 6]))
    return dict(c, T=T, t=scale_tf(c['t'], T, 1.),
                tau=[v * T for v in c['tau']])


@st.composite
def times_case(draw):
    c = draw(tf_case())
    # later times; other numbers of steps unless a custom matrix fixes it
    fixed = any(x['kind'] == 'customM' for x in leaves_of(c['t']))
    c['later'] = []
    for _ in range(draw(st.integers(0, 2))):
        n = c['n'] if fixed else draw(st.integers(1, 5))
        tau = [v * c.get('T', 1.) for v in draw(nums(n, 1, 16))]
        if needs_even(c['t']):
            tau = [tau[0]] * n
        if not needs_even(c['t']) and draw(st.integers(0, 3)) == 0:
            # time steps of no length are accepted
            for i in range(n):
                if draw(st.booleans()):
                    tau[i] = 0.
        c['later'].append([draw(st.sampled_from(
            ['array', 'list', 'column', 'absolute'])), tau])
        c['start'] = draw(st.sampled_from([0., 0., .5, -3.]))
    return c


def ker_ok(t, n):
    """The kernel must not be longer than the signal (mode mirror etc.)."""
    return True


@subcheck('times', times_case(), quick=800, thorough=20000, shards=3)
def times(case, rec):
    t = case['t']
    tf = build_tf(t)
    p = t['p']
    T = case.get('T', 1.)
    for how, tau in [['array', case['tau']]] + case['later']:
        arg = np.array(tau)
        if how == 'list':
            arg = list(tau)
        elif how == 'column':
            arg = np.array(tau)[:, None]
        if how == 'absolute':
            t0 = case['start'] * T
            tf.set_absolute_times(np.concatenate((
                [t0], t0 + np.cumsum(tau))))
        else:
            tf.set_times(arg)
            if how != 'list':
                # the caller uses the array for something else
                arg *= 3
        ref = RefTF(t, tau)
        nx = len(ref.xt)
        require(tf.num_x == nx, 'number of output steps %r, expected %d'
                % (tf.num_x, nx))
        close(tf.x_times / T, ref.xt / T, 'durations of the output steps',
              1e-11)
        y = np.arange(len(tau) * p, dtype=float).reshape(len(tau), p) / 4 - 1
        x = tf(y)
        require(np.shape(x) == (nx, p), 'shape of the output %s, expected %s'
                % (np.shape(x), (nx, p)))
        close(y, np.arange(len(tau) * p).reshape(len(tau), p) / 4 - 1,
              'input after the call', 0, 0)
        g = np.ones((nx, 2, p))
        require(np.shape(tf.gradient_chain_rule(g)) == (len(tau), 2, p),
                'shape of the gradient')
        close(g, np.ones((nx, 2, p)), 'derivatives after the call', 0, 0)
        bounds = [x['bound'] for x in leaves_of(t) if x.get('bound')]
        if not bounds and not any(x.get('explicit') for x in leaves_of(t)):
            close(np.sum(tf.x_times) / T, np.sum(tau) / T, 'total duration',
                  1e-11)
        if t['kind'] not in ('concat', 'parallel') and not t.get('explicit'):
            a, b = pads(t.get('bound'), t.get('ov', 1))
            require(tuple(tf.num_padding_elements) == (a, b), 'padding %r, '
                    'expected %r' % (tf.num_padding_elements, (a, b)))
    rec.label('units', 'T' in case)
    rec.label('large', 'large' in case)
    rec.label(t['kind'])
    rec.label('later times', bool(case['later']))
    rec.nontrivial(len(set(case['tau'])) > 1 or len(ref.xt) != len(tau))


@st.composite
def reject_case(draw):
    c = draw(tf_case())
    c['bad'] = draw(st.sampled_from(['unset', 'dtype', 'complex', 'ndim',
                                     'long', 'short', 'wide', 'narrow']))
    return c


@subcheck('rejection', reject_case(), quick=300, thorough=5000)
def rejection(case, rec):
    t = case['t']
    if any(x['kind'] == 'identity' for x in leaves_of(t)):
        # the identity passes everything
        rec.nontrivial(False)
        return
    tf = build_tf(t)
    n, p = case['n'], t['p']
    y = np.ones((n, p))
    bad = case['bad']
    if bad == 'unset':
        must_raise((RuntimeError, IndexError), lambda: tf(y),
                   'pulse before times')
        return
    tf.set_times(np.array(case['tau']))
    if bad == 'dtype':
        must_raise((TypeError,), lambda: tf(y.astype(int)), 'integer pulse')
    elif bad == 'complex':
        must_raise((TypeError,), lambda: tf(y.astype(complex)),
                   'complex pulse')
    else:
        b = {'ndim': y[0], 'long': np.ones((n + 1, p)),
             'short': np.ones((n - 1, p)), 'wide': np.ones((n, p + 1)),
             'narrow': np.ones((n, p - 1))}[bad]
        must_raise((IndexError,), lambda: tf(b), 'pulse of shape %s for %d '
                   'steps and %d controls' % (b.shape, n, p))
    # and the transfer function still works
    close(tf(y), RefTF(t, case['tau'])(y), 'after the rejection', 1e-9)
    rec.label(bad)
