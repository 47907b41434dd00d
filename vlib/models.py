"""Random control models as plain data, their qopt objects and references.

References only use numpy / scipy and are written down from the definitions:
a linear map for transfer functions, the amplitude formulas, and propagators
as matrix exponentials of -i H tau.
"""
import itertools
import numpy as np
import scipy.linalg as la
import scipy.ndimage
from hypothesis import strategies as st

from .gen import *
from .core import Violation, HarnessError


# ------------------------------------------------------- transfer functions
@st.composite
def bound(draw, none=True):
    kinds = ['x', 'n', 'right_n'] + ([None] if none else [])
    k = draw(st.sampled_from(kinds))
    if k is None:
        return None
    return [k, draw(st.integers(0, 3))]


LEAVES = ['identity', 'oversampling', 'oversamplingM', 'exponential',
          'convolution', 'gauss', 'customM']
MATRIX_LEAVES = ['oversamplingM', 'exponential', 'customM']


@st.composite
def leaf_tf(draw, num_y, p, kinds=None, allow_uneven=True):
    kind = draw(st.sampled_from(kinds or LEAVES))
    t = {'kind': kind, 'p': p}
    if kind == 'oversampling':
        t['ov'] = draw(st.integers(1, 4))
        t['bound'] = draw(bound())
    elif kind == 'oversamplingM':
        t['ov'] = draw(st.integers(1, 4))
        t['bound'] = draw(bound())
        t['offset'] = draw(st.sampled_from([0., None, .5, -1.25]))
    elif kind == 'exponential':
        t['ov'] = draw(st.integers(1, 4))
        t['bound'] = draw(bound())
        t['offset'] = draw(st.sampled_from([0., None, .5, -1.25]))
        t['rise'] = draw(st.sampled_from([.0625, .25, .5, 1., 3.]))
    elif kind == 'convolution':
        # also longer than the pulse
        rows = draw(st.one_of(st.integers(1, min(4, num_y)),
                              st.integers(1, 11)))
        two_d = p > 1 and draw(st.integers(0, 3)) == 0
        if two_d:
            t['kernel'] = draw(table(rows, draw(st.integers(1, 4))))
        else:
            t['kernel'] = draw(nums(rows))
        t['mode'] = draw(st.sampled_from(
            ['nearest', 'reflect', 'constant', 'mirror', 'wrap', 'default']))
        t['cval'] = draw(st.sampled_from([0., 0., .5]))
    elif kind == 'gauss':
        t['sigma'] = draw(st.sampled_from([.25, .5, 1., 1.75]))
        t['order'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        t['mode'] = draw(st.sampled_from(
            ['nearest', 'reflect', 'constant', 'mirror', 'wrap', 'default']))
        t['truncate'] = draw(st.sampled_from([4., 2., 1.]))
    elif kind == 'customM':
        t['bound'] = draw(bound())
        t['ov'] = draw(st.integers(1, 3))
        t['offset'] = draw(st.sampled_from([0., None, .5]))
        t['mat'] = None  # drawn below, depends on the number of steps
        t['explicit'] = draw(st.booleans())
        nx = num_x_of(t, num_y)
        t['mat'] = draw(table(nx, num_y * p, -8, 8))
        if t['explicit']:
            t['xt'] = draw(nums(nx, 1, 8))
    return t


def num_x_of(t, num_y):
    k = t['kind']
    if k in ('identity', 'convolution', 'gauss'):
        return num_y
    if k == 'concat':
        return num_x_of(t['t2'], num_x_of(t['t1'], num_y))
    if k == 'parallel':
        return num_x_of(t['t1'], num_y)
    ov, b = t['ov'], t['bound']
    if b is None:
        return ov * num_y
    return {'n': ov * num_y + 2 * b[1], 'x': ov * (num_y + 2 * b[1]),
            'right_n': ov * num_y + b[1]}[b[0]]


@st.composite
def any_tf(draw, num_y, p, max_x=40, matrix_only=False, depth=1):
    shapes = ['leaf', 'leaf', 'leaf']
    if depth:
        shapes += ['concat', 'concat']
        if p > 1:
            shapes += ['parallel']
    shape = draw(st.sampled_from(shapes))
    kinds = MATRIX_LEAVES if matrix_only else None
    if shape == 'leaf':
        t = draw(leaf_tf(num_y, p, kinds))
    elif shape == 'concat':
        t1 = draw(any_tf(num_y, p, max_x, matrix_only, depth - 1))
        n1 = num_x_of(t1, num_y)
        t2 = draw(any_tf(n1, p, max_x, matrix_only, depth - 1))
        t = {'kind': 'concat', 'p': p, 't1': t1, 't2': t2,
             'matrix': matrix_only}
    else:
        p1 = draw(st.integers(1, p - 1))
        if matrix_only:
            # same oversampling and bound type are required
            t1 = draw(leaf_tf(num_y, p1, ['oversamplingM', 'exponential']))
            t2 = draw(leaf_tf(num_y, p - p1, ['oversamplingM',
                                              'exponential']))
            t2['ov'], t2['bound'] = t1['ov'], t1['bound']
        else:
            # (a custom matrix fixes its number of steps on construction and
            # is rejected in parallel to the others)
            t1 = draw(leaf_tf(num_y, p1, LEAVES[:-1]))
            n1 = num_x_of(t1, num_y)
            if n1 == num_y:
                t2 = draw(leaf_tf(num_y, p - p1, [
                    'identity', 'convolution', 'gauss']))
            else:
                t2 = draw(leaf_tf(num_y, p - p1, ['oversampling',
                                                  'oversamplingM']))
                t2['ov'], t2['bound'] = t1['ov'], t1['bound']
        t = {'kind': 'parallel', 'p': p, 't1': t1, 't2': t2,
             'matrix': matrix_only}
    if num_x_of(t, num_y) > max_x or num_x_of(t, num_y) < 1:
        t = {'kind': 'oversampling', 'p': p, 'ov': 1, 'bound': None} \
            if not matrix_only else \
            {'kind': 'oversamplingM', 'p': p, 'ov': 1, 'bound': None,
             'offset': None}
    return t


def other_pulse(m, k=None):
    """A second pulse: shifted, reordered, negated or altered in one value."""
    y, Y = np.array(m['y']), m.get('Y', 1.)
    if k is None:
        k = int(np.sum(np.abs(y)) / Y * 16) % 6
    z = y[::-1] + .5 * Y
    if k == 1:
        z = -y
    elif k == 2:
        z = np.roll(y, 1, axis=0)
    elif k == 3:
        z = y.copy()
        z[-1, 0] -= .25 * Y
    elif k == 4:
        z = y[:, ::-1].copy()
    return y - .25 * Y if np.array_equal(z, y) else z


def other_times(m):
    return [1.5 * v for v in m['tau'][::-1]]


def leaves_of(t):
    if t['kind'] in ('concat', 'parallel'):
        return leaves_of(t['t1']) + leaves_of(t['t2'])
    return [t]


def needs_even(t):
    """Exponential saturation is only supported for equal time steps."""
    return any(x['kind'] == 'exponential' for x in leaves_of(t))


def even_ok(t):
    """Do equal input steps reach every exponential stage as equal steps?"""
    def even_out(t):
        if t['kind'] == 'concat':
            # conservative: no later stage restores equal steps
            return even_out(t['t1']) and even_out(t['t2'])
        if t['kind'] == 'parallel':
            return even_out(t['t1'])
        if t['kind'] == 'customM' and t['explicit']:
            return len(set(t['xt'])) == 1
        return True
    if t['kind'] == 'concat':
        return even_ok(t['t1']) and even_ok(t['t2']) and (
            even_out(t['t1']) or not needs_even(t['t2']))
    if t['kind'] == 'parallel':
        return even_ok(t['t1']) and even_ok(t['t2'])
    return True


@st.composite
def large_tf(draw, b, n, p, matrix=False, depth=1):
    """Filters for many steps and controls, numbers from the Bulk b."""
    ov = draw(st.integers(1, 6)) if n < 12 else draw(st.integers(1, 2))
    if n < 12 and draw(st.integers(0, 3)) == 0:
        ov = draw(st.integers(7, max(9, min(33, 100 // n))))
    bd = draw(st.sampled_from([None, ['n', 2], ['x', 1], ['right_n', 3],
                               ['n', 5]]))
    modes = ['nearest', 'reflect', 'constant', 'mirror', 'wrap', 'default']
    kinds = ['oversamplingM', 'exponential', 'customM']
    if not matrix:
        kinds += ['oversampling', 'gauss', 'convolution']
    if depth:
        kinds += ['concat'] + ['parallel'] * (p > 1)
    k = draw(st.sampled_from(kinds))
    t = {'kind': k, 'p': p}
    if k in ('oversampling', 'oversamplingM', 'exponential'):
        t.update(ov=ov, bound=bd)
    if k in ('oversamplingM', 'exponential'):
        t['offset'] = draw(st.sampled_from([0., None, .5]))
    if k == 'exponential':
        t['rise'] = draw(st.sampled_from([.25, .75, 3.]))
    elif k == 'gauss':
        t.update(sigma=draw(st.sampled_from([.5, 1.75, 4.])),
                 order=draw(st.sampled_from([0, 0, 1])),
                 mode=draw(st.sampled_from(modes)), truncate=4.)
    elif k == 'convolution':
        rows = draw(st.one_of(st.integers(1, min(n, 9)),
                              st.sampled_from([11, 16, 25, 64])))
        # scipy.ndimage reads out of bounds for reflected kernels whose half
        # length reaches four times that of the signal
        rows = min(rows, 7 * n)
        t.update(kernel=b.table(rows, 2, -4, 4) if p > 1 and draw(
            st.booleans()) else b.nums(rows, -4, 4),
            mode=draw(st.sampled_from(modes)),
            cval=draw(st.sampled_from([0., .5])))
    elif k == 'customM':
        t.update(ov=ov, bound=bd, offset=draw(st.sampled_from([0., None,
                                                               .5])),
                 explicit=draw(st.booleans()))
        nx = num_x_of(t, n)
        t['mat'] = (b.rng.randint(-8, 9, (nx, n * p)) / 8 / np.sqrt(n)
                    ).tolist()
        if t['explicit']:
            t['xt'] = b.nums(nx, 1, 8)
    elif k == 'concat':
        t['t1'] = draw(large_tf(b, n, p, matrix, 0))
        t['t2'] = draw(large_tf(b, num_x_of(t['t1'], n), p, matrix, 0))
        t['matrix'] = matrix
    elif k == 'parallel':
        p1 = draw(st.integers(1, p - 1))
        t['matrix'] = matrix
        for name, q in (('t1', p1), ('t2', p - p1)):
            t[name] = {'kind': draw(st.sampled_from(
                ['oversamplingM', 'exponential'])), 'p': q, 'ov': ov,
                'bound': bd, 'offset': draw(st.sampled_from([None, .5])),
                'rise': 1.25}
    if not even_ok(t) or num_x_of(t, n) > 150:
        t = {'kind': 'oversamplingM', 'p': p, 'ov': 2, 'bound': bd,
             'offset': None}
    return t


def scale_tf(t, T, Y):
    t = dict(t)
    for k in ('t1', 't2'):
        if k in t:
            t[k] = scale_tf(t[k], T, Y)
    if t.get('rise'):
        t['rise'] *= T
    for k in ('offset', 'cval'):
        if t.get(k):
            t[k] *= Y
    if t.get('xt'):
        t['xt'] = [v * T for v in t['xt']]
    return t


def build_tf(t):
    from qopt import transfer_function as q
    k, p = t['kind'], t['p']
    b = tuple(t['bound']) if t.get('bound') else None
    if k == 'identity':
        return q.IdentityTF(num_ctrls=p)
    if k == 'oversampling':
        return q.OversamplingTF(num_ctrls=p, bound_type=b,
                                oversampling=t['ov'])
    if k == 'oversamplingM':
        return q.OversamplingMTF(oversampling=t['ov'], bound_type=b,
                                 num_ctrls=p, offset=t['offset'])
    if k == 'exponential':
        return q.ExponentialMTF(awg_rise_time=t['rise'],
                                oversampling=t['ov'], bound_type=b,
                                offset=t['offset'], num_ctrls=p)
    if k == 'convolution':
        kw = {} if t['mode'] == 'default' else {'mode': t['mode']}
        return q.ConvolutionTF(kernel=np.array(t['kernel']), num_ctrls=p,
                               cval=t['cval'], **kw)
    if k == 'gauss':
        kw = {} if t['mode'] == 'default' else {'mode': t['mode']}
        return q.GaussianConvolution(sigma=t['sigma'], num_ctrls=p,
                                     order=t['order'],
                                     truncate=t['truncate'], **kw)
    if k == 'customM':
        m = np.array(t['mat']).reshape(len(t['mat']), -1, p)
        return q.CustomMTF(m, bound_type=b, oversampling=t['ov'],
                           offset=t['offset'], num_ctrls=p,
                           x_times=np.array(t['xt']) if t['explicit']
                           else None)
    t1, t2 = build_tf(t['t1']), build_tf(t['t2'])
    if k == 'concat':
        return (q.ConcatenateMTF if t['matrix'] else q.ConcatenateTF)(t1, t2)
    return (q.ParallelMTF if t['matrix'] else q.ParallelTF)(t1, t2)


def pads(b, ov):
    if b is None:
        return 0, 0
    return {'n': (b[1], b[1]), 'x': (b[1] * ov, b[1] * ov),
            'right_n': (0, b[1])}[b[0]]


class RefTF:
    """Affine map y (num_y, p) -> x (num_x, p) and the durations of x.

    L: array (num_x, p, num_y, p), c: array (num_x, p), xt: (num_x,)
    """

    def __init__(self, t, y_times):
        yt = np.asarray(y_times, dtype=float)
        n, p, k = len(yt), t['p'], t['kind']
        if k == 'concat':
            r1 = RefTF(t['t1'], yt)
            r2 = RefTF(t['t2'], r1.xt)
            self.L = np.tensordot(r2.L, r1.L, axes=([2, 3], [0, 1]))
            self.c = np.tensordot(r2.L, r1.c, axes=([2, 3], [0, 1])) + r2.c
            self.xt = r2.xt
            return
        if k == 'parallel':
            r1, r2 = RefTF(t['t1'], yt), RefTF(t['t2'], yt)
            p1 = t['t1']['p']
            nx = len(r1.xt)
            self.L = np.zeros((nx, p, n, p))
            self.L[:, :p1, :, :p1] = r1.L
            self.L[:, p1:, :, p1:] = r2.L
            self.c = np.concatenate((r1.c, r2.c), axis=1)
            self.xt = r1.xt
            return
        ov = t.get('ov', 1)
        a, b = pads(t.get('bound'), ov)
        xt = [yt[0] / ov] * a
        for y in yt:
            xt += [y / ov] * ov
        xt += [yt[-1] / ov] * b
        self.xt = np.array(xt)
        nx = len(xt)
        m = np.zeros((nx, n))       # acts on every parameter alike
        self.c = np.zeros((nx, p))
        if k == 'identity':
            m = np.eye(n)
        elif k in ('oversampling', 'oversamplingM'):
            for i in range(n):
                for j in range(ov):
                    m[a + i * ov + j, i] = 1
        elif k == 'exponential':
            # within step i the signal relaxes from the previous level
            # (0 before the pulse) to the level of the step
            for i in range(n):
                for j in range(ov):
                    e = np.exp(-(j + 1) * yt[0] / ov / t['rise'])
                    m[a + i * ov + j, i] = 1 - e
                    if i > 0:
                        m[a + i * ov + j, i - 1] = e
            for j in range(b):
                m[a + n * ov + j, n - 1] = np.exp(
                    -(j + 1) * yt[0] / ov / t['rise'])
        elif k == 'gauss':
            mode = 'nearest' if t['mode'] == 'default' else t['mode']
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1
                m[:, i] = scipy.ndimage.gaussian_filter1d(
                    e, t['sigma'], order=t['order'], mode=mode,
                    truncate=t['truncate'])
        elif k == 'convolution':
            mode = 'nearest' if t['mode'] == 'default' else t['mode']
            ker = np.array(t['kernel'])
            if ker.ndim == 1:
                ker = ker[:, None]
            self.L = np.zeros((n, p, n, p))
            for i in range(n):
                for q in range(p):
                    e = np.zeros((n, p))
                    e[i, q] = 1
                    self.L[:, :, i, q] = scipy.ndimage.convolve(
                        e, ker, mode=mode, cval=0.)
            self.c = scipy.ndimage.convolve(np.zeros((n, p)), ker, mode=mode,
                                            cval=t['cval'])
            return
        elif k == 'customM':
            mm = np.array(t['mat']).reshape(nx, n, p)
            self.L = np.zeros((nx, p, n, p))
            for q in range(p):
                self.L[:, q, :, q] = mm[:, :, q]
            self.c += t['offset'] or 0.
            if t['explicit']:
                self.xt = np.array(t['xt'])
            return
        else:
            raise HarnessError(k)
        self.L = np.zeros((nx, p, n, p))
        for q in range(p):
            self.L[:, q, :, q] = m
        if k in ('oversamplingM', 'exponential'):
            self.c += t['offset'] or 0.

    def __call__(self, y):
        return np.tensordot(self.L, y, axes=([2, 3], [0, 1])) + self.c

    def adjoint(self, g):
        """g: (num_x, num_f, p) -> (num_y, num_f, p)"""
        return np.einsum('xpyq,xfp->yfq', self.L, g)


# ------------------------------------------------------- amplitude functions
UNARY = {
    'exp': (lambda x: np.exp(.5 * x), lambda x: .5 * np.exp(.5 * x)),
    'tanh': (lambda x: np.tanh(x), lambda x: 1 / np.cosh(x) ** 2),
    'square': (lambda x: x ** 2 + .25 * x, lambda x: 2. * x + .25),
    'sin': (lambda x: 2. * np.sin(x), lambda x: 2. * np.cos(x)),
    'affine': (lambda x: 1.5 - 2. * x, lambda x: -2.),
}


@st.composite
def amp_func(draw, p, num_ctrl):
    kinds = ['custom', 'custom']
    if p == num_ctrl:
        kinds = ['identity', 'identity', 'unary', 'custom']
    k = draw(st.sampled_from(kinds))
    a = {'kind': k, 'p': p, 'c': num_ctrl}
    if k == 'unary':
        a['f'] = draw(st.sampled_from(sorted(UNARY)))
    elif k == 'custom':
        a['A'] = draw(table(p, num_ctrl, -8, 8))
        a['B'] = draw(table(p, num_ctrl, -4, 4))
    return a


def unary(a):
    """function and derivative, parameters and amplitudes in any unit"""
    f, df = UNARY[a['f']]
    Y, U = a.get('Y', 1.), a.get('U', 1.)
    return lambda x: U * f(x / Y), lambda x: U / Y * df(x / Y)


def amp_ref(a, x):
    if a['kind'] == 'identity':
        return np.array(x)
    if a['kind'] == 'unary':
        f = unary(a)[0]
        return np.array([[f(v) for v in row] for row in x])
    A, B = np.array(a['A']), np.array(a['B'])
    return x @ A + x ** 2 @ B


def amp_jac(a, x):
    """du/dx: (num_t, num_par, num_ctrl)"""
    nt, p = x.shape
    if a['kind'] in ('identity', 'unary'):
        out = np.zeros((nt, p, p))
        for t in range(nt):
            for q in range(p):
                out[t, q, q] = 1. if a['kind'] == 'identity' else \
                    unary(a)[1](x[t, q])
        return out
    A, B = np.array(a['A']), np.array(a['B'])
    return A[None] + 2 * x[:, :, None] * B[None]


def build_amp(a):
    from qopt import amplitude_functions as q
    if a['kind'] == 'identity':
        return q.IdentityAmpFunc()
    if a['kind'] == 'unary':
        f, g = unary(a)
        return q.UnaryAnalyticAmpFunc(value_function=f, derivative_function=g)
    return q.CustomAmpFunc(value_function=lambda x: amp_ref(a, x),
                           derivative_function=lambda x: amp_jac(a, x))


# ----------------------------------------------------------- control models
@st.composite
def model(draw, dims=(2, 3), max_ctrl=2, max_y=4, tf=True, max_x=12,
          methods=('Frechet', 'spectral', None), max_par=3, drift=True,
          herm_scale=True, amp=True, tf_kinds=None, zero_steps=False):
    d = draw(st.sampled_from(list(dims)))
    c = draw(st.integers(1, max_ctrl))
    n = draw(st.integers(1, max_y))
    p = c
    a = {'kind': 'identity', 'p': c, 'c': c}
    if amp and draw(st.booleans()):
        p = draw(st.integers(1, max_par))
        a = draw(amp_func(p, c))
    t = None
    if tf and draw(st.integers(0, 2)) > 0:
        if tf_kinds:
            t = draw(leaf_tf(n, p, list(tf_kinds)))
            if num_x_of(t, n) > max_x or num_x_of(t, n) < 1:
                t = None
        else:
            t = draw(any_tf(n, p, max_x=max_x))
            if not even_ok(t):
                t = None
    tau = draw(nums(n, 1, 12))
    if t is not None and needs_even(t):
        tau = [tau[0]] * n
    elif zero_steps and n > 1 and draw(st.integers(0, 4)) == 0:
        # a step which has no duration (yet)
        tau[draw(st.integers(0, n - 1))] = 0.
    m = {'d': d, 'c': c, 'n': n, 'p': p, 'tf': t, 'amp': a, 'tau': tau,
         'h_ctrl': [draw(herm(d)) for _ in range(c)],
         'method': draw(st.sampled_from(list(methods))),
         'y': draw(table(n, p, -12, 12)),
         'tau_list': draw(st.booleans())}
    nx = num_x_of(t, n) if t else n
    style = draw(st.sampled_from(['single', 'one', 'each', 'none'])) \
        if drift else 'one'
    m['drift_style'] = style
    if style in ('single', 'one'):
        m['h_drift'] = [draw(herm(d))]
    elif style == 'each':
        m['h_drift'] = [draw(herm(d)) for _ in range(nx)]
    else:
        m['h_drift'] = []
    m['init'] = draw(st.sampled_from(['default', 'identity', 'ket', 'rect']))
    if m['init'] in ('ket', 'rect'):
        m['psi'] = draw(cmat(d, 1 if m['init'] == 'ket' else
                             draw(st.sampled_from([2, 2, d]))))
    return m


def op(a):
    from qopt.matrix import DenseOperator
    return DenseOperator(np.array(a, dtype=complex))


def default_tf(m):
    return m['tf'] or {'kind': 'identity', 'p': m['p']}


class RefModel:
    def __init__(self, m, tau=None):
        self.m = m
        self.tau = np.array(m['tau'] if tau is None else tau)
        self.tf = RefTF(default_tf(m), self.tau)
        self.xt = self.tf.xt
        self.h_ctrl = [to_herm(h) for h in m['h_ctrl']]
        nx = len(self.xt)
        if m['drift_style'] in ('single', 'one'):
            self.h_drift = [to_herm(m['h_drift'][0])] * nx
        elif m['drift_style'] == 'each':
            self.h_drift = [to_herm(h) for h in m['h_drift']]
        else:
            self.h_drift = [np.zeros((m['d'], m['d']))] * nx

    def x(self, y):
        return self.tf(np.asarray(y, dtype=float))

    def u(self, y):
        return amp_ref(self.m['amp'], self.x(y))

    def hams(self, u):
        return [hd + sum(u[t, k] * h for k, h in enumerate(self.h_ctrl))
                for t, hd in enumerate(self.h_drift)]

    def props(self, y):
        return self.props_u(self.u(y))

    def props_u(self, u):
        return [la.expm(-1j * h * dt)
                for h, dt in zip(self.hams(u), self.xt)]

    def init_state(self):
        m = self.m
        if m['init'] in ('ket', 'rect'):
            return to_c(m['psi'])
        return np.eye(m['d'], dtype=complex)


def fwd_of(props, init):
    out = [init]
    for p in props:
        out.append(p @ out[-1])
    return out


def rev_of(props):
    out = [np.eye(len(props[0]), dtype=complex)]
    for p in props[::-1]:
        out.append(out[-1] @ p)
    return out


def solver_kwargs(m, tau=None, init=True):
    """Keyword arguments common to all solvers, freshly built."""
    tau = m['tau'] if tau is None else tau
    kw = dict(h_ctrl=[op(to_herm(h)) for h in m['h_ctrl']],
              tau=list(tau) if m['tau_list'] else np.array(tau),
              exponential_method=m['method'])
    if m['drift_style'] == 'single':
        kw['h_drift'] = op(to_herm(m['h_drift'][0]))
    else:
        kw['h_drift'] = [op(to_herm(h)) for h in m['h_drift']]
    if m['tf']:
        kw['transfer_function'] = build_tf(m['tf'])
    if m['amp']['kind'] != 'identity' or m['d'] == 3:
        kw['amplitude_function'] = build_amp(m['amp'])
    if init and m['init'] != 'default':
        kw['initial_state'] = op(RefModel(m, tau).init_state())
    return kw
