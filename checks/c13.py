"""C13: amplitude functions, their values and their chain rule."""
from vlib.core import *
from vlib.costs import *

META = dict(
    rule='Random arrays of transferred parameters (one to six steps, one to '
         'four parameters and amplitudes), identity, elementwise functions '
         '(smooth, piecewise, with integer valued branches) and general '
         'functions of all parameters of a step, random gradients of one to '
         'four functions. Values and gradients are compared with the formulas'
         '; solvers with an amplitude function are compared with solvers '
         'driven directly by the converted amplitudes. Non-trivial: the '
         'function is not the identity and the parameters are not constant.',
    assumptions=['the user supplied derivative belongs to the user supplied '
                 'function'])

# functions with branches as users write them; the first branch is an int
BRANCHED = {
    'relu': (lambda x: 0 if x < 0 else x, lambda x: 0 if x < 0 else 1),
    'clip': (lambda x: -1 if x < -1 else 1 if x > 1 else x,
             lambda x: 1 if -1 <= x <= 1 else 0),
    'abs': (lambda x: abs(x), lambda x: 1 if x > 0 else -1),
    'sqr0': (lambda x: 0 if x < 0 else x * x, lambda x: 0 if x < 0 else 2 * x),
}
ALL = dict(UNARY, **BRANCHED)


@st.composite
def amp_case(draw):
    n, p = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    k = draw(st.sampled_from(['identity', 'unary', 'unary', 'branched',
                              'custom', 'custom']))
    c = p if k != 'custom' else draw(st.integers(1, 4))
    a = {'kind': k, 'p': p, 'c': c}
    if k == 'unary':
        a['f'] = draw(st.sampled_from(sorted(UNARY)))
    elif k == 'branched':
        a['f'] = draw(st.sampled_from(sorted(BRANCHED)))
    elif k == 'custom':
        a['A'] = draw(table(p, c, -8, 8))
        a['B'] = draw(table(p, c, -4, 4))
    f = draw(st.integers(1, 4))
    return {'a': a, 'x': draw(table(n, p)), 'x2': draw(table(n, p)), 'f': f,
            'g': draw(nums(n * f * c))}


def ref_value(a, x):
    if a['kind'] in ('unary', 'branched'):
        f = ALL[a['f']][0]
        return np.array([[float(f(v)) for v in row] for row in x])
    return amp_ref(a, x)


def ref_jac(a, x):
    """du/dx [t, par, ctrl]"""
    if a['kind'] in ('unary', 'branched'):
        df = ALL[a['f']][1]
        out = np.zeros(x.shape + (x.shape[1],))
        for t in range(len(x)):
            for q in range(x.shape[1]):
                out[t, q, q] = df(x[t, q])
        return out
    return amp_jac(a, x)


def build(a):
    from qopt import amplitude_functions as q
    if a['kind'] == 'branched':
        return q.UnaryAnalyticAmpFunc(*BRANCHED[a['f']])
    return build_amp(a)


@subcheck('values', amp_case(), quick=1500, thorough=40000, shards=2)
def values(case, rec):
    a = case['a']
    x, x2 = np.array(case['x']), np.array(case['x2'])
    n, p = x.shape
    f, c = case['f'], a['c']
    g = np.array(case['g']).reshape(n, f, c)
    amp = build(a)
    for arg in (x, x2, x):          # no memory of earlier calls
        keep, keep_g = arg.copy(), g.copy()
        close(amp(arg), ref_value(a, arg), 'control amplitudes', 1e-10)
        J = ref_jac(a, arg)
        close(amp.derivative_by_chain_rule(g, arg),
              np.einsum('tpc,tfc->tfp', J, g),
              'derivatives by the transferred parameters', 1e-10)
        require(np.array_equal(keep, arg) and np.array_equal(keep_g, g),
                'the arguments were modified')
    # steps are converted independently of each other
    if n > 1:
        close(amp(x[1:]), ref_value(a, x)[1:], 'amplitudes of later steps',
              1e-10)
        close(amp.derivative_by_chain_rule(g[:1], x[:1]),
              np.einsum('tpc,tfc->tfp', ref_jac(a, x), g)[:1],
              'derivatives of the first step', 1e-10)
    rec.label(a['kind'])
    rec.label('p!=c', p != c)
    rec.nontrivial(a['kind'] != 'identity' and np.ptp(x) > 0
                   and np.any(g))


@st.composite
def solver_case(draw):
    s = draw(solver_spec(max_x=8))
    m = s['m']
    p = m['p'] = draw(st.integers(1, 3))
    if s['kind'] == 'mcctrl':
        s['kind'] = 'schroedinger'
    if s['kind'] == 'mc' and s['noise']['naf']:
        s['noise']['naf'] = 'u'
    m['tf'] = None
    m['tau'] = draw(nums(m['n'], 1, 12))
    if m['drift_style'] == 'each':
        m['drift_style'] = 'one'
        m['h_drift'] = m['h_drift'][:1]
    if 'noise' in s:
        s['noise']['samples'] = [draw(table(2, m['n'], -8, 8))
                                 for _ in s['noise']['h']]
    m['amp'] = draw(amp_func(p, m['c']).filter(
        lambda a: a['kind'] != 'identity'))
    m['y'] = draw(table(m['n'], p, -12, 12))
    return {'s': s}


@subcheck('solver', solver_case(), quick=250, thorough=6000, shards=3)
def in_solver(case, rec):
    """Driving the amplitudes directly gives the same experiment."""
    s = case['s']
    m = s['m']
    y = np.array(m['y'])
    u = amp_ref(m['amp'], y)
    direct = dict(s, m=dict(m, p=m['c'], y=u.tolist(), amp={
        'kind': 'identity', 'p': m['c'], 'c': m['c']}))
    one, two = build_solver(s), build_solver(direct)
    one.set_optimization_parameters(y)
    two.set_optimization_parameters(u)
    names = ['propagators', 'forward_propagators', 'reversed_propagators']
    if s['kind'] == 'mc':
        names += [n + '_noise' for n in names]
    for n in names:
        close(arr(getattr(one, n)), arr(getattr(two, n)), n, 1e-9)
    for n in ['frechet_deriv_propagators'] + \
            ['frechet_deriv_propagators_noise'] * (s['kind'] == 'mc'):
        close(m.get('U', 1.) * arr(getattr(one, n)),
              m.get('U', 1.) * arr(getattr(two, n)), n, 1e-8)
    rec.label(s['kind'])
    rec.nontrivial(np.ptp(y) > 0)


@subcheck('jacobian', cost_case(
    ('op', 'op', 'opsup', 'leak'), max_x=8, max_y=3).filter(
        lambda c: c['s']['m']['amp']['kind'] != 'identity'),
          quick=200, thorough=4000, shards=3)
def jacobian(case, rec):
    """The Jacobian by x is the Jacobian by u times du/dx."""
    from qopt.simulator import Simulator
    s, m = case['s'], case['s']['m']
    if case['c'].get('flag') and case['c'].get('comp') is not None:
        case['c']['flag'] = False
    y = np.array(m['y'])
    r = RefSolver(s, y)
    if s['kind'] in ('mc', 'mcctrl'):
        s = dict(s, kind='schroedinger')
    sol = build_solver(s)
    sim = Simulator([sol], [cost_of(dict(case, s=s), sol)])
    got = sim.wrapped_jac_function(y)
    # direct: amplitudes on the transferred grid
    md = dict(m, tf=None, n=len(r.xt), tau=[float(v) for v in r.xt],
              p=m['c'], amp={'kind': 'identity', 'p': m['c'], 'c': m['c']})
    sd = dict(s, m=md)
    two = build_solver(sd)
    ju = Simulator([two], [cost_of(dict(case, s=sd), two)]
                   ).wrapped_jac_function(r.u)
    jx = np.einsum('tpc,tfc->tfp', amp_jac(m['amp'], r.x), ju)
    Y = m.get('Y', 1.)
    close(got * Y, r.rm.tf.adjoint(jx) * Y, 'Jacobian', 1e-9)
    rec.label('amp:' + m['amp']['kind'])
    rec.label('tf', m['tf'] is not None)
    rec.nontrivial(m['amp']['kind'] != 'identity' and np.any(
        np.abs(got) * Y > 1e-9))


# -------------------------------------------------- scales and large amounts
# functions without a scale of their own
SCALED = {
    'linear': (lambda x: 3 * x, lambda x: 3.),
    'square': (lambda x: x * x, lambda x: 2 * x),
    'cube': (lambda x: x ** 3, lambda x: 3 * x ** 2),
    'root': (lambda x: np.sqrt(np.abs(x)),
             lambda x: np.sign(x) / (2 * np.sqrt(np.abs(x) + (x == 0)))),
}


@st.composite
def scaled_case(draw):
    return {'f': draw(st.sampled_from(sorted(SCALED))),
            'n': draw(st.one_of(st.integers(1, 6), st.integers(7, 400))),
            'p': draw(st.one_of(st.integers(1, 4), st.integers(5, 30))),
            'nf': draw(st.integers(1, 3)),
            'scale': draw(st.sampled_from(
                [1e-12, 1e-9, 1e-6, 1e-3, 1., 1., 1e3, 1e6, 1e9])),
            'spread': draw(st.booleans()), 'repeat': draw(st.booleans()),
            'custom': draw(st.booleans()),
            'seed': draw(st.integers(0, 2 ** 31))}


@subcheck('scales', scaled_case(), quick=300, thorough=6000, shards=2)
def scales(case, rec):
    """Parameters of any magnitude, many steps, many equal or almost equal
    values; every number is compared relative to itself."""
    from qopt import amplitude_functions as q
    rng = np.random.RandomState(case['seed'])
    n, p, nf = case['n'], case['p'], case['nf']
    f, df = SCALED[case['f']]
    x = rng.normal(size=(n, p))
    if case['spread']:
        x *= 10. ** rng.randint(-6, 7, size=(n, p))
    if case['repeat']:
        # equal values and neighbours in the last digits
        x[rng.randint(n, size=n)] = x[rng.randint(n, size=n)]
        k = rng.randint(n)
        x[k] = x[0] * (1 + 1e-9 * rng.normal(size=p))
    x *= case['scale']
    g = rng.normal(size=(n, nf, p))
    if case['custom']:
        def jac_(v):
            out = np.zeros((len(v), p, p))
            for i in range(p):
                out[:, i, i] = [df(a) for a in v[:, i]]
            return out
        amp = q.CustomAmpFunc(value_function=f, derivative_function=jac_)
    else:
        amp = q.UnaryAnalyticAmpFunc(value_function=f, derivative_function=df)
    for v in (x, x[::-1] * 1.5, x):
        want = np.array([[f(a) for a in row] for row in v])
        got = np.asarray(amp(v))
        require(got.shape == v.shape, 'shape %s' % (got.shape,))
        close(got / (np.abs(want) + (want == 0)),
              want / (np.abs(want) + (want == 0)), 'amplitudes', 1e-11)
        want = g * np.array([[df(a) for a in row] for row in v])[:, None, :]
        got = np.asarray(amp.derivative_by_chain_rule(g, v))
        unit = np.abs(want) + (want == 0)
        close(got / unit, want / unit, 'derivatives', 1e-10)
    rec.label(case['f'])
    rec.label('custom', case['custom'])
    rec.label('tiny', case['scale'] < 1e-5)
    rec.nontrivial(True)
