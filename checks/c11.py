"""C11: transfer functions apply the affine map they document."""
from vlib.core import *
from vlib.models import *
from checks.c10 import tf_case, SUBCHECKS as _S

for _k in list(SUBCHECKS):
    del SUBCHECKS[_k]

META = dict(
    rule='Random transfer functions (identity, oversampling with all '
         'boundary types, exponential saturation, convolution with one and '
         'two dimensional kernels and all boundary modes, Gaussian filters '
         'and their derivatives, custom matrices, nested concatenation and '
         'parallelisation), random pulses. The output is compared with an '
         'explicit affine map assembled from the documented response of each '
         'stage; linearity, translation and the matrix / vector versions are '
         'compared with each other. Non-trivial: the map is not the identity '
         'and the pulse is not constant.',
    assumptions=['scipy.ndimage defines the convolution and Gaussian filters'])


# units of the pulse; not representable in fewer digits
SCALES = [1., 1 / 3, 3.3e-8, 7.7e6 / 9]


@st.composite
def pulse_case(draw, **kw):
    c = draw(tf_case(**kw))
    b = Bulk(c['large']).table if 'large' in c else \
        lambda *a: draw(table(*a))
    c['y'] = b(c['n'], c['t']['p'])
    c['z'] = b(c['n'], c['t']['p'])
    c['a'] = draw(num())
    c['Y'] = draw(st.sampled_from(SCALES))
    c['t'] = scale_tf(c['t'], 1., c['Y'])
    return c


def interesting(ref, y):
    n, p = y.shape
    if len(np.unique(y)) < 2:
        return False
    e = np.einsum('ij,kl->ikjl', np.eye(n), np.eye(p))
    return ref.L.shape != e.shape or np.max(np.abs(ref.L - e)) > 1e-9


@subcheck('map', pulse_case(), quick=1200, thorough=30000, shards=3)
def forward(case, rec):
    Y = case.get('Y', 1.)
    t, y = case['t'], np.array(case['y']) * Y
    tf = build_tf(t)
    tau = np.array(case['tau'])
    tf.set_times(tau)
    # the caller uses the array for something else
    tau *= 3
    ref = RefTF(t, case['tau'])
    close(tf(y) / Y, ref(y) / Y, 'transferred parameters', 1e-9)
    z = np.array(case['z']) * Y
    close(tf(z) / Y, ref(z) / Y, 'transferred parameters of the second '
          'pulse', 1e-9)
    # affine: f(a y + (1 - a) z) = a f(y) + (1 - a) f(z)
    a = case['a']
    close(tf(a * y + (1 - a) * z) / Y, (a * tf(y) + (1 - a) * tf(z)) / Y,
          'affine combination', 1e-8)
    rec.label(t['kind'])
    for x in leaves_of(t):
        rec.label('stage ' + x['kind'])
    rec.nontrivial(interesting(ref, y))


@subcheck('matrix', pulse_case(matrix=True), quick=500, thorough=10000)
def matrix_form(case, rec):
    """The transfer matrix describes the linear part of the map."""
    Y = case.get('Y', 1.)
    t, y = case['t'], np.array(case['y']) * Y
    tf = build_tf(t)
    tf.set_times(np.array(case['tau']))
    ref = RefTF(t, case['tau'])
    T = tf.transfer_matrix
    n, p = y.shape
    exp = np.stack([ref.L[:, k, :, k] for k in range(p)], axis=2)
    close(T, exp, 'transfer matrix', 1e-9)
    close((tf(y) - tf(np.zeros_like(y))) / Y, np.einsum(
        'ijk,jk->ik', T, y) / Y, 'matrix applied to the pulse', 1e-9)
    close(tf.transfer_matrix, exp, 'transfer matrix after use', 1e-9)
    rec.label(t['kind'])
    rec.nontrivial(interesting(ref, y))


@st.composite
def compose_case(draw):
    n, p = draw(st.integers(1, 4)), draw(st.integers(1, 2))
    t1 = draw(any_tf(n, p, depth=0, max_x=12))
    n1 = num_x_of(t1, n)
    t2 = draw(any_tf(n1, p, depth=0, max_x=24))
    n2 = num_x_of(t2, n1)
    t3 = draw(any_tf(n2, p, depth=0, max_x=40))
    ok = even_ok({'kind': 'concat', 't1': t1, 't2': {
        'kind': 'concat', 't1': t2, 't2': t3}})
    if not ok:
        t1 = t2 = t3 = {'kind': 'identity', 'p': p}
    tau = draw(nums(n, 1, 16))
    if any(needs_even(t) for t in (t1, t2, t3)):
        tau = [tau[0]] * n
    return {'t': [t1, t2, t3], 'p': p, 'tau': tau, 'y': draw(table(n, p))}


@subcheck('composition', compose_case(), quick=400, thorough=8000)
def composition(case, rec):
    """Concatenation applies the stages in sequence and is associative."""
    from qopt.transfer_function import ConcatenateTF
    y, tau = np.array(case['y']), np.array(case['tau'])

    def b():
        return [build_tf(t) for t in case['t']]
    s1, s2, s3 = b()
    s1.set_times(tau)
    s2.set_times(s1.x_times)
    s3.set_times(s2.x_times)
    exp = s3(s2(s1(y)))
    a1, a2, a3 = b()
    left = ConcatenateTF(ConcatenateTF(a1, a2), a3)
    c1, c2, c3 = b()
    right = ConcatenateTF(c1, ConcatenateTF(c2, c3))
    for name, tf in (('left', left), ('right', right)):
        tf.set_times(tau)
        close(tf(y), exp, name + ' concatenation', 1e-9)
        close(tf.x_times, s3.x_times, name + ' durations', 1e-12)
        require(tf.num_x == len(s3.x_times), 'number of steps')
    rec.nontrivial(len(exp) > 1 and any(t['kind'] != 'identity'
                                        for t in case['t']))


@subcheck('layouts', st.tuples(pulse_case(), st.sampled_from(LAYOUTS),
                               st.sampled_from(LAYOUTS)).map(
    lambda t: dict(t[0], how=t[1], how_tau=t[2])), quick=150, thorough=3000)
def layouts(case, rec):
    """The map depends on the numbers, not on how they are stored."""
    Y = case.get('Y', 1.)
    t, y = case['t'], np.array(case['y']) * Y
    how = case['how_tau']
    tf = build_tf(t)
    tf.set_times(stored(np.array(case['tau']),
                        how if how != 'float32' else ''))
    ref = RefTF(t, case['tau'])
    z = stored(y, case['how'])
    try:
        got = tf(z)
    except TypeError:
        # not one of the accepted types
        require(case['how'] == 'big_endian', 'refused: %s' % case['how'])
        rec.nontrivial(False)
        return
    rough = 3e-6 if case['how'] == 'float32' else 1e-9
    scale = 1 + np.max(np.abs(ref(y) / Y))
    close(got / Y, ref(y) / Y, 'transferred parameters', rough * scale)
    require(np.array_equal(z, stored(y, case['how'])), 'the pulse changed')
    rec.label(case['how'])
    rec.nontrivial(interesting(ref, y))
