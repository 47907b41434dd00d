"""C12: the chain rule of transfer functions is the exact adjoint."""
from checks.c10 import tf_case
from vlib.core import *
from vlib.models import *

for _k in list(SUBCHECKS):
    del SUBCHECKS[_k]

META = dict(
    rule='Random transfer functions and random derivatives of one to three '
         'functions by the transferred parameters. The derivatives by the '
         'raw parameters are compared with the adjoint of the explicit map '
         'and, through the inner product, with the difference quotient of '
         'the code\'s own evaluation (exact, since the maps are affine). '
         'Non-trivial: the adjoint is not the identity and the derivatives '
         'are not constant.',
    assumptions=[])


@st.composite
def grad_case(draw, **kw):
    c = draw(tf_case(**kw))
    t = c['t']
    nx = num_x_of(t, c['n'])
    c['f'] = draw(st.integers(1, 3))
    b = Bulk(c['large']).table if 'large' in c else \
        lambda *a: draw(table(*a))
    c['g'] = b(nx, c['f'] * t['p'])
    c['y'] = b(c['n'], t['p'])
    c['dy'] = b(c['n'], t['p'])
    # units of the derivatives; not representable in fewer digits
    c['G'] = draw(st.sampled_from([1., 1 / 3, 3.3e-12, 7.7e6 / 9]))
    return c


@subcheck('adjoint', grad_case(), quick=1200, thorough=30000, shards=3)
def adjoint(case, rec):
    t = case['t']
    p, n, f = t['p'], case['n'], case['f']
    tf = build_tf(t)
    tau = np.array(case['tau'])
    tf.set_times(tau)
    tau *= 3
    ref = RefTF(t, case['tau'])
    nx = len(ref.xt)
    g = np.array(case['g']).reshape(nx, f, p) / 3
    G = case.get('G', 1.)
    got = tf.gradient_chain_rule(g * G) / G
    close(got, ref.adjoint(g), 'derivatives by the raw parameters', 1e-9)
    # <g, F(y + dy) - F(y)> = <F^T g, dy> from the code alone
    y, dy = np.array(case['y']), np.array(case['dy'])
    d = tf(y + dy) - tf(y)
    for k in range(f):
        close(np.sum(got[:, k] * dy), np.sum(g[:, k] * d),
              'chain rule against the difference quotient', 1e-8)
    # linear in the derivatives
    close(tf.gradient_chain_rule(-2. * g), -2 * got, 'linearity', 1e-9)
    rec.label(t['kind'])
    for x in leaves_of(t):
        rec.label('stage ' + x['kind'])
    rec.nontrivial(len(np.unique(g)) > 1 and (
        ref.L.shape[0] != n or np.max(np.abs(
            ref.adjoint(g) - g)) > 1e-9))


@subcheck('layouts', st.tuples(grad_case(), st.sampled_from(
    [k for k in LAYOUTS if k not in ('float32', 'big_endian')])).map(
        lambda t: dict(t[0], how=t[1])), quick=150, thorough=3000)
def layouts(case, rec):
    """Derivatives in any memory layout."""
    t = case['t']
    tf = build_tf(t)
    tf.set_times(np.array(case['tau']))
    ref = RefTF(t, case['tau'])
    g = np.array(case['g']).reshape(len(ref.xt), case['f'], t['p']) / 3
    z = stored(g, case['how'])
    close(tf.gradient_chain_rule(z), ref.adjoint(g),
          'derivatives by the raw parameters', 1e-9)
    require(np.array_equal(z, g), 'the derivatives changed')
    rec.label(case['how'])
    rec.nontrivial(len(np.unique(g)) > 1)
