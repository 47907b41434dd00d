"""C19: rotation angle and axis of single-qubit gates."""
from vlib.core import *
from vlib.solvers import *
from vlib.gen import PAULI

META = dict(
    rule='Rotations about random, nearly aligned and aligned axes with angles '
         'from 0 to 2 pi, including 10**-k away from 0, pi and 2 pi, times a '
         'random global phase, given as array or operator; products of '
         'such gates; simulated evolutions for the cost function. '
         'Non-trivial: the angle exceeds 1e-5 and more than one component of '
         'the axis is non-zero (gates) or the gates differ (costs).',
    assumptions=['angles below 2e-6 may be reported as zero (documented '
                 'tolerance of the representation); at an angle of pi the '
                 'sign of the axis is free'])


@st.composite
def rotation(draw):
    style = draw(st.sampled_from(['any', 'any', 'near', 'aligned', 'plane']))
    n = draw(nums(3, -16, 16))
    k = draw(st.integers(0, 2))
    if style == 'near':
        e = 10. ** -draw(st.integers(2, 9))
        n = [x * e for x in n]
        n[k] = draw(st.sampled_from([1., -1.]))
    elif style == 'aligned':
        n = [0.] * 3
        n[k] = draw(st.sampled_from([1., -1.]))
    elif style == 'plane':
        n[k] = 0.
    if not any(n):
        n[k] = 1.
    base = draw(st.sampled_from([0., 1., 2., 1.]))
    off = draw(st.one_of(
        num(-16, 16, 16), st.integers(2, 12).map(lambda e: 10. ** -e),
        st.integers(2, 12).map(lambda e: -10. ** -e), st.just(0.)))
    return {'n': n, 'pi': base, 'off': off,
            'phase': draw(st.sampled_from([0., 0., .5, 1., 1.5, .123, 1.77,
                                           .25, .9999])),
            'op': draw(st.booleans())}


def gate(r):
    n = np.array(r['n'])
    n = n / np.linalg.norm(n)
    b = np.pi * r['pi'] + r['off']
    return np.exp(1j * np.pi * r['phase']) * (
        np.cos(b / 2) * np.eye(2) + 1j * np.sin(b / 2) * sum(
            c * p for c, p in zip(n, PAULI[1:])))


def canonical(r):
    """Angle in [0, pi] and the axis."""
    n = np.array(r['n'])
    n = n / np.linalg.norm(n)
    b = (np.pi * r['pi'] + r['off']) % (2 * np.pi)
    return (b, n) if b <= np.pi else (2 * np.pi - b, -n)


def rebuilt(b, n):
    return np.cos(b / 2) * np.eye(2) + 1j * np.sin(b / 2) * sum(
        c * p for c, p in zip(n, PAULI[1:]))


def distance(u, v):
    """up to a global phase"""
    o = np.trace(u.conj().T @ v)
    if abs(o) < 1e-3:
        return 9.
    return np.max(np.abs(u * o / abs(o) - v))


def represent(u, as_op):
    from qopt.cost_functions import angle_axis_representation
    arg = op(u) if as_op else np.array(u)
    before = np.array(arg.data if as_op else arg)
    b, n = angle_axis_representation(arg)
    require(np.array_equal(before, arg.data if as_op else arg),
            'the gate was changed')
    b, n = arr(b), arr(n)
    require(b.shape == () and n.shape == (3,) and not np.iscomplexobj(b)
            and not np.iscomplexobj(n), 'form of angle and axis: %r, %r'
            % (b, n))
    require(np.isfinite(b) and -1e-12 <= b <= np.pi + 1e-12,
            'angle %r not in [0, pi]' % b)
    close(np.linalg.norm(n), 1., 'norm of the axis', 1e-5, 0)
    return float(b), n


@subcheck('gates', rotation(), quick=3000, thorough=100000, shards=2)
def gates(r, rec):
    u = gate(r)
    b, n = represent(u, r['op'])
    d = distance(u, rebuilt(b, n))
    require(d < 3e-6, 'angle %r and axis %s differ from the gate by %g:\n%s'
            % (b, n, d, u))
    eb, en = canonical(r)
    close(b, eb, 'angle', 3e-6, 0)
    if eb > 1e-3:
        if abs(eb - np.pi) < 1e-7 and np.dot(n, en) < 0:
            en = -en
        close(n, en, 'axis', 1e-6, 0)
    # the same rotation with another phase
    b2, n2 = represent(u * np.exp(.7j), False)
    close(b2, b, 'angle for another global phase', 3e-6, 0)
    # the inverse rotation
    b3, n3 = represent(u.conj().T, r['op'])
    close(b3, b, 'angle of the inverse', 3e-6, 0)
    if 1e-3 < eb < np.pi - 1e-6:
        close(n2, n, 'axis for another global phase', 1e-6, 0)
        close(n3, -n, 'axis of the inverse', 1e-6, 0)
    rec.label('small angle', eb < 1e-2)
    rec.label('near pi', abs(eb - np.pi) < 1e-2)
    rec.nontrivial(eb > 1e-5 and np.sum(np.abs(en) > 1e-12) > 1)


@subcheck('products', st.lists(rotation(), min_size=2, max_size=4),
          quick=1000, thorough=30000)
def products(rs, rec):
    u = np.eye(2)
    for r in rs:
        u = gate(r) @ u
    b, n = represent(u, rs[0]['op'])
    d = distance(u, rebuilt(b, n))
    require(d < 3e-6, 'angle %r and axis %s differ from the gate by %g:\n%s'
            % (b, n, d, u))
    rec.nontrivial(b > 1e-5)


@subcheck('not_unitary', st.tuples(
    rotation(), cmat(2, lo=-16, hi=16),
    st.sampled_from(['add', 'scale', 'left', 'right', 'entry']),
    st.integers(0, 3), st.sampled_from([1., .1, .01, -.1, -1., .5])
    ).map(list), quick=800, thorough=20000)
def not_unitary(case, rec):
    from qopt.cost_functions import angle_axis_representation
    r, m, how, k, s = case
    u = gate(r)
    if how == 'add':
        u = u + s * to_c(m)
    elif how == 'scale':
        u = u * (1 + s)
    elif how == 'left':
        u = np.diag([1 + s, 1.] if k % 2 else [1., 1 + s]) @ u
    elif how == 'right':
        u = u @ np.diag([1 + s, 1.] if k % 2 else [1., 1 + s])
    else:
        u = u.copy()
        u[k // 2, k % 2] += s
    dev = np.max(np.abs(u @ u.conj().T - np.eye(2)))
    if dev < 1e-3:
        if dev < 1e-12:
            represent(u, r['op'])
        rec.nontrivial(False)
        return
    must_raise(ValueError, lambda: angle_axis_representation(
        op(u) if r['op'] else u), 'a matrix that is not unitary:\n%s' % u)


@subcheck('costs', st.tuples(
    solver_spec(kinds=('schroedinger', 'mc'), dims=(2,), max_x=5, max_y=3),
    rotation(), st.sampled_from(['any', 'same'])).map(list),
    quick=150, thorough=4000, shards=2)
def axis_cost(case, rec):
    from qopt.cost_functions import OperatorMatrixNorm
    s, r, how = case
    s = json.loads(json.dumps(s))
    s['m']['init'] = 'default'
    y = np.array(s['m']['y'])
    final = RefSolver(s, y).fwd()[-1]
    target = gate(r) if how == 'any' else final * np.exp(1j * r['phase'])
    solver = build_solver(s)
    cost = OperatorMatrixNorm(solver, op(target), mode='rotation_axis')
    solver.set_optimization_parameters(y)
    (bt, nt), (bf, nf) = represent(target, False), represent(final, False)
    got = arr(cost.costs())
    require(got.shape == (3,), 'shape of the costs')
    options = [bt * nt - bf * nf]
    if abs(bf - np.pi) < 1e-5:      # the sign of the axis is free
        options.append(bt * nt + bf * nf)
    require(any(np.max(np.abs(got - o)) < 1e-5 for o in options),
            'difference of the rotation vectors: got %s, expected %s'
            % (got, options[0]))
    require(len(cost.label) == 3, 'one label per component')
    if how == 'same' and abs(bf - np.pi) > 1e-5:
        close(got, np.zeros(3), 'costs at the target', 1e-5, 0)
    rec.label(how)
    rec.nontrivial(how == 'same' or np.max(np.abs(options[0])) > 1e-3)
