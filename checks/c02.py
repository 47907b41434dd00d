"""C02: tensor products, partial traces, truncation, Liouville vectorisation."""
from vlib.core import *
from qopt import util
from vlib.gen import *
from qopt.matrix import (
    DenseOperator, convert_unitary_to_super_operator,
    ket_vectorize_density_matrix,
    convert_ket_vectorized_density_matrix_to_square, closest_unitary)

META = dict(
    rule='Dyadic complex matrices, kets and bras on up to three tensor '
         'factors of dimension 1 to 3, arbitrary subsets of removed factors '
         'and of kept indices. Non-trivial: more than one factor / a proper '
         'subspace / a matrix that is neither zero nor a multiple of the '
         'identity.',
    assumptions=['The partial trace oracle is the explicit double sum over '
                 'basis states; the closest unitary oracle is optimality over '
                 'sampled unitaries and the polar decomposition.'])


def op_of(a):
    return DenseOperator(np.array(a, dtype=complex))


def ptrace_ref(a, dims, remove):
    keep = [k for k in range(len(dims)) if k not in remove]
    dk = [dims[k] for k in keep]
    n = int(np.prod(dk)) if dk else 1
    out = np.zeros((n, n), dtype=complex)
    idx = list(np.ndindex(*dims))
    pos = {t: p for p, t in enumerate(np.ndindex(*dk))} if dk else {(): 0}
    for p, s in enumerate(idx):
        for q, t in enumerate(idx):
            if all(s[r] == t[r] for r in remove):
                out[pos[tuple(s[k] for k in keep)],
                    pos[tuple(t[k] for k in keep)]] += a[p, q]
    return out


@st.composite
def pt_case(draw):
    dims = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)
                .filter(lambda d: int(np.prod(d)) <= 18))
    n = int(np.prod(dims))
    remove = draw(st.lists(st.integers(0, len(dims) - 1), unique=True,
                           max_size=len(dims)))
    kind = draw(st.sampled_from(['matrix', 'ket', 'product']))
    case = {'dims': dims, 'remove': remove, 'kind': kind,
            'do_copy': draw(st.booleans())}
    if kind == 'matrix':
        case['a'] = draw(cmat(n))
    elif kind == 'ket':
        case['a'] = draw(cmat(n, 1))
    else:
        case['f'] = [draw(cmat(d)) for d in dims]
    return case


@subcheck('partial_trace', pt_case(), quick=400, thorough=12000, shards=2)
def partial_trace(case, rec):
    dims, remove = case['dims'], case['remove']
    rec.nontrivial(len([d for d in dims if d > 1]) > 1 and remove)
    rec.label(case['kind'])
    rec.label('removed %d of %d' % (len(remove), len(dims)))
    if case['kind'] == 'product':
        fs = [to_c(f) for f in case['f']]
        A = op_of(fs[0])
        for f in fs[1:]:
            A = A.kron(op_of(f))
        a = A.data.copy()
        ref = np.eye(1)
        for k, f in enumerate(fs):
            ref = np.kron(ref, f if k not in remove
                          else np.trace(f).reshape(1, 1))
    else:
        a = to_c(case['a'])
        A = op_of(a)
        rho = a if case['kind'] == 'matrix' else a @ a.conj().T
        if rho.shape != (1, 1) or case['kind'] == 'matrix':
            pass
        ref = ptrace_ref(rho, dims, remove)
    if a.shape == (1, 1) and case['kind'] != 'ket':
        return   # one by one: operator or ket, not distinguishable
    res = A.ptrace(dims=dims, remove=remove, do_copy=case['do_copy'])
    close(res.data, ref, 'partial trace')
    close(np.trace(res.data), np.trace(ref), 'trace of the partial trace')
    if case['do_copy']:
        close(A.data, a, 'operand of the partial trace', 0, 0)
    else:
        require(res is A, 'in place partial trace returns the operator')
    B = op_of(a)
    must_raise(AssertionError, lambda: B.ptrace(dims=list(dims) + [2],
                                                remove=remove),
               'partial trace with wrong dimensions')


@st.composite
def many_case(draw):
    k = draw(st.integers(4, 14))
    dims = []
    for _ in range(k):
        room = 64 // int(np.prod(dims + [1]))
        dims.append(draw(st.sampled_from(
            [d for d in (1, 1, 2, 2, 3, 4, 6) if d <= room])))
    dims = list(draw(st.permutations(dims)))
    return {'dims': dims, 'kind': draw(st.sampled_from(['matrix', 'ket'])),
            'remove': draw(st.lists(st.integers(0, k - 1), unique=True,
                                    max_size=k)),
            'seed': draw(st.integers(0, 2 ** 31)),
            'unit': draw(st.sampled_from([0, 0, -9, 6])),
            'do_copy': draw(st.booleans())}


@subcheck('many_subsystems', many_case(), quick=250, thorough=8000)
def many(case, rec):
    """Partial traces of four to 14 subsystems."""
    dims, remove = case['dims'], case['remove']
    n = int(np.prod(dims))
    rng = np.random.RandomState(case['seed'])
    U = 10. ** case['unit']
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    if case['kind'] == 'ket' and n > 1:
        a = a[:, :1]
        rho = a @ a.conj().T
    else:
        rho, U2 = a, U
    U2 = U ** 2 if a.shape[1] == 1 and n > 1 else U
    left = list(dims)
    ref = rho
    for r in sorted(remove, reverse=True):
        # one subsystem after the other
        lo, hi = int(np.prod(left[:r] + [1])), int(np.prod(
            left[r + 1:] + [1]))
        t = ref.reshape(lo, left[r], hi, lo, left[r], hi)
        ref = sum(t[:, i, :, :, i, :] for i in range(left[r])).reshape(
            lo * hi, lo * hi)
        del left[r]
    A = op_of(a * U)
    if n == 1:
        rec.nontrivial(False)
        return
    res = A.ptrace(dims=dims, remove=remove, do_copy=case['do_copy'])
    close(res.data / U2, ref, 'partial trace', 1e-11, 1e-11)
    if case['do_copy']:
        close(A.data, a * U, 'operand of the partial trace', 0, 0)
    rec.label('%d subsystems' % len(dims))
    rec.nontrivial(sum(d > 1 for d in dims) > 2 and remove
                   and len(left) and max(left) > 1)


@subcheck('large', st.fixed_dictionaries({
    'd': st.sampled_from([5, 6, 8, 9, 12, 16, 20]),
    'idx': st.integers(1, 20), 'seed': st.integers(0, 2 ** 31),
    'unit': st.sampled_from([0, 0, -12, -6, 9])}),
    quick=120, thorough=4000)
def large(case, rec):
    """Truncations, vectorisations, closest unitaries of large matrices."""
    d = case['d']
    rng = np.random.RandomState(case['seed'])
    U = 10. ** case['unit']
    a = (rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))) * U
    idx = rng.permutation(d)[:min(d, case['idx'])].tolist()
    A = op_of(a)
    sub = np.array([[a[i, j] for j in idx] for i in idx])
    close(A.truncate_to_subspace(idx).data, sub, 'truncation', 0, 0)
    u, s, v = np.linalg.svd(sub / U)
    if s[-1] > 1e-3:
        close(A.truncate_to_subspace(idx, map_to_closest_unitary=True).data,
              u @ v, 'closest unitary of the truncation', 1e-9)
        close(closest_unitary(op_of(sub)).data, u @ v, 'closest unitary',
              1e-9)
    k = a[:, :1]
    kn = np.array([[k[i, 0]] for i in idx])
    close(op_of(k).truncate_to_subspace(idx).data, kn, 'truncated ket', 0, 0)
    close(op_of(k).truncate_to_subspace(
        idx, map_to_closest_unitary=True).data,
        kn / np.sqrt(np.sum(np.abs(kn / U) ** 2)) / U, 'normalised ket',
        1e-11)
    r = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    vec = np.array([[r[i, j]] for j in range(d) for i in range(d)])
    V = ket_vectorize_density_matrix(op_of(r))
    close(V.data, vec, 'column stacking', 0, 0)
    close(convert_ket_vectorized_density_matrix_to_square(V).data, r,
          'vectorisation round trip', 0, 0)
    if d <= 9:
        S = convert_unitary_to_super_operator(A)
        close(S.data @ vec / U ** 2, ((a / U) @ r @ (a / U).conj().T
                                      ).T.reshape(-1, 1),
              'superoperator action', 1e-10, 1e-11)
    close(A.data, a, 'operand', 0, 0)
    rec.nontrivial(1 < len(idx) < d)


@subcheck('nearly_unitary', st.fixed_dictionaries({
    'd': st.integers(2, 8), 'k': st.integers(1, 8),
    'kind': st.sampled_from(['leaking', 'scaled', 'nonunitary']),
    'eps': st.integers(-9, -1), 'seed': st.integers(0, 2 ** 31)}),
    quick=250, thorough=8000)
def nearly_unitary(case, rec):
    """The closest unitary of truncations that leak only a little."""
    d, k, eps = case['d'], min(case['k'], case['d']), 10. ** case['eps']
    rng = np.random.RandomState(case['seed'])

    def rand_u(n):
        return unitary_of(rng.normal(size=(n, n))
                          + 1j * rng.normal(size=(n, n)))
    idx = rng.permutation(d)[:k].tolist()
    rest = [i for i in range(d) if i not in idx]
    a = np.zeros((d, d), dtype=complex)
    a[np.ix_(idx, idx)] = rand_u(k)
    if rest:
        a[np.ix_(rest, rest)] = rand_u(len(rest))
    if case['kind'] == 'leaking':
        a = unitary_of(eps * (rng.normal(size=(d, d))
                              + 1j * rng.normal(size=(d, d)))) @ a
    elif case['kind'] == 'scaled':
        a = a * (1 + eps * rng.uniform(-1, 1))
    else:
        a = a + eps * (rng.normal(size=(d, d))
                       + 1j * rng.normal(size=(d, d)))
    sub = a[np.ix_(idx, idx)]
    u, s, v = np.linalg.svd(sub)
    if s[-1] < .1:
        rec.nontrivial(False)
        return
    close(op_of(a).truncate_to_subspace(idx, map_to_closest_unitary=True
                                        ).data, u @ v,
          'closest unitary of the truncation', 0, 1e-12)
    close(closest_unitary(op_of(sub)).data, u @ v, 'closest unitary', 0,
          1e-12)
    for n in (1, -1):     # a vector that is nearly normalised
        vec = sub[:, :1] if n == 1 else sub[:1]
        close(op_of(vec).truncate_to_subspace(
            list(range(k)), map_to_closest_unitary=True).data
            if k > 1 else 0, vec / np.sqrt(np.sum(np.abs(vec) ** 2))
            if k > 1 else 0, 'normalised vector', 0, 1e-12)
    close(op_of(sub).truncate_to_subspace(list(range(k))).data, sub,
          'truncation', 0, 0)
    rec.nontrivial(k > 1 and (rest or case['kind'] != 'leaking'))


@st.composite
def kron_case(draw):
    return {k: draw(cmat(draw(st.integers(1, 3)), draw(st.integers(1, 3))))
            for k in 'ab'} | {'c': draw(cmat(draw(st.integers(1, 2)))),
                              'sq': [draw(cmat(2)), draw(cmat(2)),
                                     draw(cmat(3)), draw(cmat(3))]}


@subcheck('tensor_product', kron_case(), quick=300, thorough=8000)
def tensor_product(case, rec):
    a, b, c = to_c(case['a']), to_c(case['b']), to_c(case['c'])
    A, B, C = op_of(a), op_of(b), op_of(c)
    ref = np.zeros((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]),
                   dtype=complex)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            ref[i * b.shape[0]:(i + 1) * b.shape[0],
                j * b.shape[1]:(j + 1) * b.shape[1]] = a[i, j] * b
    close(A.kron(B).data, ref, 'tensor product')
    close(A.kron(b).data, ref, 'tensor product with array')
    close(A.kron(B).kron(C).data, A.kron(B.kron(C)).data, 'associativity')
    close(A.kron(B).dag().data, A.dag().kron(B.dag()).data, 'adjoint')
    p, q, r, s = [op_of(to_c(m)) for m in case['sq']]
    close((p.kron(r) * q.kron(s)).data, (p * q).kron(r * s).data,
          'mixed product', atol=1e-8)
    close(p.kron(r).tr(), p.tr() * r.tr(), 'trace of the product')
    rec.nontrivial(np.linalg.norm(ref) > 0 and a.size > 1 and b.size > 1)


@st.composite
def trunc_case(draw):
    n = draw(st.integers(2, 5))
    kind = draw(st.sampled_from(['square', 'ket', 'bra']))
    sh = {'square': (n, n), 'ket': (n, 1), 'bra': (1, n)}[kind]
    return {'n': n, 'kind': kind, 'a': draw(cmat(*sh)),
            'idx': draw(st.none() | subsets(n)),
            'unitary': draw(st.booleans())}


@subcheck('truncation', trunc_case(), quick=500, thorough=12000)
def truncation(case, rec):
    a, idx = to_c(case['a']), case['idx']
    A = op_of(a)
    if idx is None:
        res = A.truncate_to_subspace(None, case['unitary'])
        close(res.data, a, 'no truncation')
        rec.nontrivial(False)
        return
    rec.label(case['kind'] + (' mapped' if case['unitary'] else ''))
    if case['kind'] == 'square':
        ref = np.array([[a[i, j] for j in idx] for i in idx])
    elif case['kind'] == 'ket':
        ref = np.array([[a[i, 0]] for i in idx])
    else:
        ref = np.array([[a[0, i] for i in idx]])
    rec.nontrivial(len(idx) < case['n'] and np.linalg.norm(ref) > 0)
    if case['unitary']:
        if case['kind'] == 'square':
            sv = np.linalg.svd(ref, compute_uv=False)
            if sv.min() < 1e-3:
                rec.nontrivial(False)
                return
            u, p = np.linalg.svd(ref)[0], np.linalg.svd(ref)[2]
            ref = u @ p
        else:
            n = np.sqrt(np.sum(np.abs(ref) ** 2))
            if n < 1e-3:
                return
            ref = ref / n
    res = A.truncate_to_subspace(idx, map_to_closest_unitary=case['unitary'])
    close(res.data, ref, 'truncation of a ' + case['kind'], atol=1e-8)
    close(A.data, a, 'operand of the truncation', 0, 0)
    res.data[...] = 7
    close(A.data, a, 'operand after changing the truncation', 0, 0)


@st.composite
def liou_case(draw):
    d = draw(st.integers(1, 4))
    return {'d': d, 'a': draw(cmat(d)), 'b': draw(cmat(d)), 'r': draw(cmat(d))}


@subcheck('liouville', liou_case(), quick=500, thorough=15000)
def liouville(case, rec):
    a, b, r = (to_c(case[k]) for k in 'abr')
    d = case['d']
    rec.nontrivial(d > 1 and np.linalg.norm(r) > 0 and np.linalg.norm(a) > 0)
    vec_ref = np.array([[r[i, j]] for j in range(d) for i in range(d)])
    for what, mk, un in (('operator', op_of, lambda x: x.data),
                         ('array', lambda x: x.copy(), lambda x: x)):
        R = mk(r)
        v = ket_vectorize_density_matrix(R)
        require(type(v) is type(R), 'vectorised %s is %s' % (what, type(v)))
        close(un(v), vec_ref, 'column stacking of ' + what)
        back = convert_ket_vectorized_density_matrix_to_square(v)
        close(un(back), r, 'vectorisation round trip of ' + what, 0, 0)
        close(un(R), r, 'operand of the vectorisation', 0, 0)
        close(un(v), vec_ref, 'operand of the inverse vectorisation', 0, 0)
        A = mk(a)
        S = convert_unitary_to_super_operator(A)
        require(type(S) is type(A), 'super operator of %s is %s'
                % (what, type(S)))
        close(un(S) @ vec_ref, np.array(
            [[x] for x in (a @ r @ a.conj().T).T.flatten()]),
            'superoperator action', atol=1e-8)
        SB = convert_unitary_to_super_operator(mk(b))
        close(un(S) @ un(SB),
              un(convert_unitary_to_super_operator(mk(a @ b))),
              'superoperator of a product', atol=1e-8)
        close(un(A), a, 'operand of the superoperator', 0, 0)
    rows = np.zeros((d, d + 1), dtype=complex)
    must_raise(ValueError, lambda: ket_vectorize_density_matrix(op_of(rows)),
               'vectorisation of a rectangular matrix')
    must_raise(ValueError, lambda:
               convert_ket_vectorized_density_matrix_to_square(
                   op_of(np.ones((d * d, 2)))), 'squaring of a non-ket')


@st.composite
def cu_case(draw):
    d = draw(st.integers(1, 4))
    return {'d': d, 'a': draw(cmat(d)), 'w': draw(cmat(d)),
            'us': [draw(cmat(d)) for _ in range(3)]}


@subcheck('closest_unitary', cu_case(), quick=300, thorough=8000)
def closest(case, rec):
    a = to_c(case['a'])
    A = op_of(a)
    U = closest_unitary(A)
    require(type(U) is DenseOperator, 'type')
    u = U.data
    d = case['d']
    close(u.conj().T @ u, np.eye(d), 'unitarity of the closest unitary')
    if np.linalg.svd(a, compute_uv=False)[-1] > 1e-4:      # unique
        close(np.asarray(util.closest_unitary(a)), u, 'closest unitary of '
              'an array', atol=1e-7)
    close(A.data, a, 'operand of closest_unitary', 0, 0)
    dist = np.linalg.norm(a - u)
    op_dist = np.linalg.norm(a - u, 2)
    for m in case['us']:
        w = unitary_of(to_c(m))
        for v in (w, u @ unitary_of(.05 * to_c(m))):
            require(np.linalg.norm(a - v) >= dist - 1e-9,
                    'a sampled unitary is closer (Frobenius)')
            require(np.linalg.norm(a - v, 2) >= op_dist - 1e-9,
                    'a sampled unitary is closer (operator norm)')
    p = u.conj().T @ a    # polar factor: hermitian and positive
    close(p, p.conj().T, 'polar factor hermitian', atol=1e-8)
    require(np.min(np.linalg.eigvalsh((p + p.conj().T) / 2)) > -1e-8,
            'polar factor not positive')
    w = unitary_of(to_c(case['w']))
    close(closest_unitary(op_of(w)).data, w, 'closest unitary of a unitary',
          atol=1e-8)
    rec.nontrivial(d > 1 and np.linalg.norm(a) > 0)
