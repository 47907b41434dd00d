"""C01: operator arithmetic is plain linear algebra, without side effects."""
from vlib.core import *
from vlib.gen import *
from qopt.matrix import DenseOperator
import scipy.sparse as sp

META = dict(
    rule='Each case draws dyadic complex matrices and either one operation '
         'with its operand or a sequence of operations on a pool of '
         'operators mirrored by plain numpy arrays. Non-trivial: the involved '
         'matrices are neither zero nor a multiple of the identity (single '
         'operations), respectively the sequence has at least three '
         'operations of which at least one works in place.',
    assumptions=['numpy matrix arithmetic is the reference'])

SCALARS = {
    'int': int, 'float': float, 'complex': complex, 'np.int8': np.int8,
    'np.int16': np.int16, 'np.int32': np.int32, 'np.int64': np.int64,
    'np.float16': np.float16, 'np.float32': np.float32,
    'np.float64': np.float64, 'np.complex64': np.complex64,
    'np.complex128': np.complex128}


# element types of arrays; all hold the numbers exactly
DTYPES = {
    'uint8': lambda b: np.abs(8 * b.real).astype(np.uint8),
    'int8': lambda b: (4 * b.real).astype(np.int8),
    'uint64': lambda b: np.abs(8 * b.real).astype(np.uint64),
    'int32': lambda b: (8 * b.real).astype(np.int32),
    'float32': lambda b: b.real.astype(np.float32),
    'complex64': lambda b: b.astype(np.complex64),
    'fortran': lambda b: np.asfortranarray(b),
    'strided': lambda b: np.repeat(np.repeat(b, 2, 0), 2, 1)[::2, ::2],
    'reversed': lambda b: np.ascontiguousarray(b[::-1, ::-1])[::-1, ::-1],
}


def mk_scalar(s):
    t = SCALARS[s['type']]
    if s['type'].endswith(('complex', 'complex64', 'complex128')):
        return t(complex(s['re'], s['im']))
    return t(s['re']) if 'int' not in s['type'] else t(int(s['re'] * 8))


def scalar(nonzero=False):
    v = num(-16, 16)
    if nonzero:
        v = st.sampled_from([k / 8 for k in range(-16, 17) if k])
    return st.fixed_dictionaries({
        'type': st.sampled_from(sorted(SCALARS)), 're': v, 'im': num()})


def trivial(a):
    return a.shape[0] == a.shape[1] and np.allclose(
        a, a.flat[0] * np.eye(len(a)))


def op_of(a):
    return DenseOperator(np.array(a, dtype=complex))


@st.composite
def binary_case(draw):
    op = draw(st.sampled_from(['add', 'sub', 'mul', 'iadd', 'isub', 'imul',
                               'truediv', 'itruediv', 'rmul', 'kron']))
    kinds = {'truediv': ['scalar'], 'itruediv': ['scalar'],
             'rmul': ['scalar', 'ndarray'], 'kron': ['op', 'ndarray']}
    kind = draw(st.sampled_from(kinds.get(op, ['op', 'ndarray', 'scalar'])))
    r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    if op == 'imul' and kind != 'scalar':
        c = draw(st.integers(1, 4))
    case = {'op': op, 'kind': kind, 'a': draw(cmat(r, c))}
    if kind == 'scalar':
        case['s'] = draw(scalar(nonzero=op.endswith('truediv')))
    else:
        if op in ('add', 'sub', 'iadd', 'isub'):
            sh = (r, c)
        elif op == 'mul':
            sh = (c, draw(st.integers(1, 4)))
        elif op == 'imul':
            sh = (c, c)
        elif op == 'rmul':
            sh = (draw(st.integers(1, 4)), r)
        else:
            sh = (draw(st.integers(1, 3)), draw(st.integers(1, 3)))
        case['b'] = draw(cmat(*sh))
        case['self_operand'] = draw(st.booleans())
        case['real_b'] = kind == 'ndarray' and draw(st.booleans())
        if kind == 'ndarray' and (op != 'imul' or case['a']) and draw(
                st.booleans()):
            case['dtype'] = draw(st.sampled_from(sorted(DTYPES)))
    return case


@subcheck('binary', binary_case(), quick=1500, thorough=40000, shards=2)
def binary(case, rec):
    op, kind = case['op'], case['kind']
    a = to_c(case['a'])
    A = op_of(a)
    B = None
    if kind == 'scalar':
        other = b = mk_scalar(case['s'])
        rec.label('scalar:' + case['s']['type'])
    else:
        b = to_c(case['b'])
        if case['real_b']:
            b = b.real.copy()
        if kind == 'op':
            if case['self_operand'] and b.shape == a.shape:
                b = a.copy()
                other = A
                rec.label('operand is the operator itself')
            else:
                other = B = op_of(b)
        elif 'dtype' in case:
            other = DTYPES[case['dtype']](b)
            b = np.array(other, dtype=complex)
            rec.label('array of ' + case['dtype'])
        else:
            other = b.copy()
    rec.label(op + ':' + kind)
    rec.nontrivial(not trivial(a))
    inplace = op in ('iadd', 'isub', 'imul', 'itruediv')
    tol = dict(atol=1e-12, rtol=1e-12)
    if op in ('add', 'iadd'):
        exp = a + b
    elif op in ('sub', 'isub'):
        exp = a - b
    elif op in ('mul', 'imul'):
        exp = a * complex(b) if kind == 'scalar' else a @ b
    elif op in ('truediv', 'itruediv'):
        exp = a / complex(b)
    elif op == 'rmul':
        exp = complex(b) * a if kind == 'scalar' else b @ a
    else:
        exp = np.kron(a, b)

    if op == 'add':
        res = A + other
    elif op == 'sub':
        res = A - other
    elif op == 'mul':
        res = A * other
    elif op == 'truediv':
        res = A / other
    elif op == 'rmul':
        res = other * A
    elif op == 'kron':
        res = A.kron(other)
    else:
        res = A
        if op == 'iadd':
            res += other
        elif op == 'isub':
            res -= other
        elif op == 'imul':
            res *= other
        else:
            res /= other
    require(type(res) is DenseOperator, '%s(%s) returns %s' % (op, kind,
                                                              type(res)))
    close(res.data, exp, '%s with %s' % (op, kind), **tol)
    if inplace:
        require(res is A, 'in-place %s does not return the operator' % op)
    else:
        require(res is not A, '%s returns its operand' % op)
        close(A.data, a, 'operand of ' + op, 0, 0)
        keep = res.data.copy()
        A.data[...] = 77.     # the result must not be a view of its operands
        if kind != 'scalar':
            if B is not None:
                B.data[...] = 55.
            elif kind == 'ndarray':
                other[...] = 55.
        close(res.data, keep, 'result of %s after changing its operands' % op,
              0, 0)
        return
    if kind != 'scalar' and other is not A:
        close(other.data if B is not None else other, b,
              'second operand of ' + op, 0, 0)


@st.composite
def large_case(draw):
    size = st.sampled_from([1, 2, 5, 7, 8, 9, 16, 17, 25, 33, 48])
    op = draw(st.sampled_from(['add', 'sub', 'mul', 'rmul', 'iadd', 'isub',
                               'imul', 'kron', 'unary', 'chain']))
    return {'op': op, 'seed': draw(st.integers(0, 2 ** 31)),
            'shape': [draw(size) for _ in range(3)],
            'array': draw(st.booleans()),
            'ua': draw(st.sampled_from([0, 0, -12, -9, -6, 6, 9])),
            'ub': draw(st.sampled_from([0, 0, -12, -6, 9]))}


@subcheck('large', large_case(), quick=250, thorough=8000)
def large(case, rec):
    """Larger matrices in any units."""
    rng = np.random.RandomState(case['seed'])
    op = case['op']
    n, m, k = case['shape']
    UA, UB = 10. ** case['ua'], 10. ** case['ub']

    def mat(*sh):
        return rng.normal(size=sh) + 1j * rng.normal(size=sh)
    if op == 'kron':
        n, m, k = min(n, 9), min(m, 9), min(k, 9)
    a = mat(n, m) * UA
    A = op_of(a)
    sh = {'mul': (m, k), 'rmul': (k, n), 'imul': (m, m), 'kron': (k, m)}.get(
        op, (n, m))
    b = mat(*sh) * UB
    B = b.copy() if case['array'] or op == 'rmul' else op_of(b)
    unit = UA * UB if op in ('mul', 'rmul', 'imul', 'kron') else max(UA, UB)
    exp = {'mul': lambda: np.einsum('ij,jk->ik', a, b),
           'imul': lambda: np.einsum('ij,jk->ik', a, b),
           'rmul': lambda: np.einsum('ij,jk->ik', b, a),
           'kron': lambda: np.einsum('ij,kl->ikjl', a, b).reshape(
               n * k, m * m),
           'add': lambda: a + b, 'iadd': lambda: a + b,
           'sub': lambda: a - b, 'isub': lambda: a - b}.get(op)
    if exp is not None:
        exp = exp()
        res = A
        if op == 'iadd':
            res += B
        elif op == 'isub':
            res -= B
        elif op == 'imul':
            res *= B
        else:
            res = {'add': lambda: A + B, 'sub': lambda: A - B,
                   'mul': lambda: A * B, 'rmul': lambda: B * A,
                   'kron': lambda: A.kron(B)}[op]()
            close(A.data, a, 'operand of ' + op, 0, 0)
        require((res is A) == op.startswith('i'), 'object returned by ' + op)
        close(res.data / unit, exp / unit, op, 1e-11, 1e-11)
        close(B if case['array'] or op == 'rmul' else B.data, b,
              'second operand of ' + op, 0, 0)
    elif op == 'unary':
        close(A.dag().data, a.conj().T, 'adjoint', 0, 0)
        close(A.transpose().data, a.T, 'transpose', 0, 0)
        close(A.conj().data, a.conj(), 'conjugate', 0, 0)
        close(A.copy().data, a, 'copy', 0, 0)
        close(A.flatten(), a.reshape(-1), 'flatten', 0, 0)
        close(A.norm() / UA, np.sqrt(np.sum(np.abs(a / UA) ** 2)), 'norm',
              1e-11)
        close(A.norm(2) / UA, np.linalg.svd(a / UA, compute_uv=False)[0],
              'spectral norm', 1e-10)
        s = mat(n, n) * UA
        S = op_of(s)
        close(S.tr() / UA, sum(s[i, i] for i in range(n)) / UA, 'trace',
              1e-11)
        close(S.identity_like().data, np.eye(n), 'identity', 0, 0)
        # nearly, but not exactly hermitian
        h = s + s.conj().T + np.diag(1j * rng.normal(size=n)) * UA * 1e-7
        close(op_of(h).tr() / UA, sum(h[i, i] for i in range(n)) / UA,
              'trace of a nearly hermitian matrix', 1e-11, 1e-13)
        close(A.data, a, 'operand', 0, 0)
        c = complex(rng.normal(), rng.normal()) * UB
        close((A * c).data / UA / UB, a * c / UA / UB, 'scaling', 1e-12,
              1e-12)
        close((c * A).data / UA / UB, a * c / UA / UB, 'scaling', 1e-12,
              1e-12)
        close((A / c).data / UA * UB, a / c / UA * UB, 'quotient', 1e-12,
              1e-12)
    else:
        # an operator with itself
        s = mat(n, n) * UA
        S = op_of(s)
        S *= S
        close(S.data / UA ** 2, np.einsum('ij,jk->ik', s, s) / UA ** 2,
              'in place square', 1e-11, 1e-11)
        S = op_of(s)
        S += S
        close(S.data, 2 * s, 'in place sum with itself', 0, 1e-14)
        S -= S
        close(S.data, 0 * s, 'in place difference from itself', 0, 0)
    rec.label(op)
    rec.label('units', case['ua'] != 0)
    rec.nontrivial(n * m > 4)


@st.composite
def unary_case(draw):
    sq = draw(st.booleans())
    r = draw(st.integers(1, 4))
    c = r if sq else draw(st.integers(1, 4))
    return {'a': draw(cmat(r, c)),
            'op': draw(st.sampled_from(
                ['dag', 'conj', 'conjugate', 'transpose', 'copy', 'tr',
                 'flatten', 'norm', 'identity_like', 'getset', 'construct',
                 'paulis', 'spectral', 'shape'])),
            'do_copy': draw(st.booleans()),
            'ord': draw(st.sampled_from(['fro', 'nuc', 1, 2, -1, 'default'])),
            'herm': draw(st.booleans()),
            'i': draw(st.integers(0, 10)), 'j': draw(st.integers(0, 10))}


@subcheck('unary', unary_case(), quick=1200, thorough=30000)
def unary(case, rec):
    op = case['op']
    a = to_c(case['a'])
    A = op_of(a)
    rec.label(op)
    rec.nontrivial(not trivial(a))
    if op in ('dag', 'conj', 'conjugate', 'transpose'):
        exp = {'dag': a.conj().T, 'conj': a.conj(), 'conjugate': a.conj(),
               'transpose': a.T}[op]
        res = getattr(A, op)(do_copy=case['do_copy'])
        close(res.data, exp, op)
        if case['do_copy']:
            require(res is not A, op + ' returns the operator itself')
            close(A.data, a, 'operand of ' + op, 0, 0)
            A.data[...] = 77.
            close(res.data, exp, op + ' result after changing the operand')
        else:
            require(res is A, op + ' in place must return the operator')
        # involution and default argument
        A = op_of(a)
        close(getattr(getattr(A, op)(), op)().data, a, op + ' twice')
        close(A.data, a, op + ' default must copy', 0, 0)
    elif op == 'copy':
        C = A.copy()
        close(C.data, a, 'copy')
        C *= 2.
        C.data[0, 0] += 1
        close(A.data, a, 'original after changing the copy', 0, 0)
    elif op == 'tr':
        if a.shape[0] == a.shape[1]:
            close(A.tr(), np.sum(np.diag(a)), 'trace')
    elif op == 'flatten':
        f = A.flatten()
        close(f, np.array([x for row in a for x in row]), 'flatten')
        f[...] = 3
        close(A.data, a, 'operator after changing the flattened array', 0, 0)
    elif op == 'norm':
        s = np.linalg.svd(a, compute_uv=False)
        o = case['ord']
        exp = {'fro': np.sqrt(np.sum(np.abs(a) ** 2)),
               'default': np.sqrt(np.sum(np.abs(a) ** 2)),
               'nuc': s.sum(), 2: s.max(),
               1: np.abs(a).sum(0).max(), -1: np.abs(a).sum(0).min()}[o]
        close(A.norm() if o == 'default' else A.norm(o), exp,
              'norm ' + str(o))
    elif op == 'identity_like':
        if a.shape[0] == a.shape[1]:
            I = A.identity_like()
            close(I.data, np.eye(len(a)), 'identity_like')
            close((I * A).data, a, 'identity * A')
            I.data[0, 0] = 5
            close(A.data, a, 'operator after changing its identity', 0, 0)
    elif op == 'getset':
        i, j = case['i'] % a.shape[0], case['j'] % a.shape[1]
        close(A[i, j], a[i, j], 'getitem')
        A[i, j] = 3 - 2j
        exp = a.copy()
        exp[i, j] = 3 - 2j
        close(A.data, exp, 'after setitem')
    elif op == 'shape':
        require(tuple(A.shape) == a.shape, 'shape %r' % (A.shape,))
    elif op == 'construct':
        import qutip
        for what, obj in (('array', a.copy()), ('real array', a.real.copy()),
                          ('integer array', (8 * a.real).astype(int)),
                          ('csr', sp.csr_matrix(a)),
                          ('operator', op_of(a)),
                          ('Qobj', qutip.Qobj(a))):
            exp = {'real array': a.real, 'integer array': 8 * a.real}.get(
                what, a)
            C = DenseOperator(obj)
            close(C.data, exp, 'constructed from ' + what)
            require(C.data.dtype == np.complex128,
                    'dtype %s from %s' % (C.data.dtype, what))
            # the result must be complex capable whatever it was made of
            close((C * 1j).data, 1j * exp, 'scaled, constructed from ' + what)
        must_raise(ValueError, lambda: DenseOperator(case['a']['re']),
                   'construction from a list')
    elif op == 'paulis':
        x, y, z, i = (DenseOperator.pauli_x(), DenseOperator.pauli_y(),
                      DenseOperator.pauli_z(), DenseOperator.pauli_0())
        for p in (x, y, z):
            close((p * p).data, np.eye(2), 'squared Pauli')
            close(p.data, p.dag().data, 'Pauli hermitian')
        close((x * y).data, (1j * z).data, 'xy = iz')
        close((y * z).data, (1j * x).data, 'yz = ix')
        close(i.data, np.eye(2), 'pauli_0')
        close(z.data, np.diag([1, -1]), 'pauli_z')
        close(x.data, [[0, 1], [1, 0]], 'pauli_x')
        close(DenseOperator.pauli_p().data, (.5 * (x + 1j * y)).data, 'p')
        close(DenseOperator.pauli_m().data, (.5 * (x - 1j * y)).data, 'm')
    elif op == 'spectral':
        if a.shape[0] == a.shape[1]:
            if case['herm']:
                a = (a + a.conj().T) / 2
            vals, vecs = op_of(a).spectral_decomposition(
                hermitian=case['herm'])
            close(a @ vecs, vecs * vals, 'eigenvalue equation', atol=1e-10)
            close(np.linalg.norm(vecs, axis=0), np.ones(len(a)), 'normalised')
            if case['herm']:
                close(vecs.conj().T @ vecs, np.eye(len(a)), 'orthonormal')
            close(np.sum(vals), np.trace(a), 'sum of eigenvalues')


BAD = {'str': 'x', 'none': None, 'list': [1.0], 'bytes': b'x'}


@subcheck('rejected', st.fixed_dictionaries({
    'a': cmat(2), 'bad': st.sampled_from(sorted(BAD)),
    'op': st.sampled_from(['add', 'sub', 'mul', 'iadd', 'isub', 'imul',
                           'truediv', 'itruediv', 'kron', 'shape'])}),
    quick=150, thorough=2000)
def rejected(case, rec):
    """Undefined operands raise and leave the operator unchanged."""
    a = to_c(case['a'])
    A = op_of(a)
    bad = BAD[case['bad']]
    op = case['op']
    rec.label(op)
    rec.nontrivial(not trivial(a))
    excs = (ValueError, NotImplementedError, TypeError)
    if op == 'shape':
        must_raise(ValueError, lambda: A * op_of(np.ones((3, 2))),
                   'product of incompatible shapes')
        must_raise(ValueError, lambda: A + op_of(np.ones((3, 3))),
                   'sum of incompatible shapes')
    elif op == 'kron':
        must_raise(excs, lambda: A.kron(bad), op)
    else:
        must_raise(excs, lambda: getattr(A, '__%s__' % op)(bad), op)
    close(A.data, a, 'operator after rejected ' + op, 0, 0)


@st.composite
def history(draw):
    d = draw(st.integers(1, 3))
    pool = [draw(cmat(d)) for _ in range(3)]
    op = st.fixed_dictionaries({
        'o': st.sampled_from(['add', 'sub', 'mul', 'iadd', 'isub', 'imul',
                              'iscale', 'idiv', 'idag', 'iconj', 'itrans',
                              'dag', 'copy', 'set', 'scale', 'exp',
                              'trunc_none']),
        'i': st.integers(0, 2), 'j': st.integers(0, 2), 'k': st.integers(0, 2),
        's': st.sampled_from([-2., -1., .5, 2.])})
    return {'d': d, 'pool': pool,
            'ops': draw(st.lists(op, min_size=1, max_size=8))}


@subcheck('history', history(), quick=500, thorough=15000)
def run_history(case, rec):
    """A pool of operators against a pool of arrays; nothing is shared."""
    ref = [to_c(m) for m in case['pool']]
    ops = [op_of(m) for m in ref]
    nin = 0
    for n, o in enumerate(case['ops']):
        i, j, k, s = o['i'], o['j'], o['k'], o['s']
        w = o['o']
        nin += w.startswith('i')
        if w == 'add':
            ops[k], ref[k] = ops[i] + ops[j], ref[i] + ref[j]
        elif w == 'sub':
            ops[k], ref[k] = ops[i] - ops[j], ref[i] - ref[j]
        elif w == 'mul':
            ops[k], ref[k] = ops[i] * ops[j], ref[i] @ ref[j]
        elif w == 'scale':
            ops[k], ref[k] = s * ops[i], s * ref[i]
        elif w == 'iadd':
            t = ops[i]
            t += ops[j]
            ref[i] = ref[i] + ref[j]
        elif w == 'isub':
            t = ops[i]
            t -= ops[j]
            ref[i] = ref[i] - ref[j]
        elif w == 'imul':
            t = ops[i]
            t *= ops[j]
            ref[i] = ref[i] @ ref[j]
        elif w == 'iscale':
            t = ops[i]
            t *= s
            ref[i] = ref[i] * s
        elif w == 'idiv':
            t = ops[i]
            t /= s
            ref[i] = ref[i] / s
        elif w == 'idag':
            ops[i].dag(do_copy=False)
            ref[i] = ref[i].conj().T
        elif w == 'iconj':
            ops[i].conj(do_copy=False)
            ref[i] = ref[i].conj()
        elif w == 'itrans':
            ops[i].transpose(do_copy=False)
            ref[i] = ref[i].T
        elif w == 'dag':
            ops[k], ref[k] = ops[i].dag(), ref[i].conj().T
        elif w == 'copy':
            ops[k], ref[k] = ops[i].copy(), ref[i].copy()
        elif w == 'set':
            ops[i][0, -1] = s
            ref[i] = ref[i].copy()
            ref[i][0, -1] = s
        elif w == 'exp':
            ops[i].exp(method='Frechet', tau=.1)
        elif w == 'trunc_none':
            pass
        for q in range(3):
            close(ops[q].data, ref[q], 'operator %d after step %d (%s)'
                  % (q, n, w), atol=1e-9, rtol=1e-9)
        if max(np.max(np.abs(r)) for r in ref) > 1e8:
            break
    rec.nontrivial(nin >= 1 and len(case['ops']) >= 3)
    rec.label('in place ops: %d' % min(nin, 3))
