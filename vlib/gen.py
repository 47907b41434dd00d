"""Strategies for plain-data cases, and their conversion to arrays.

Numbers are dyadic rationals k/8: exactly representable, they shrink well and
hit coincidences (zeros, equal entries, degenerate spectra) often.
"""
from . import paths  # noqa: F401
import numpy as np
from hypothesis import strategies as st


def num(lo=-16, hi=16, denom=8):
    return st.integers(lo, hi).map(lambda k: k / denom)


def nums(n, lo=-16, hi=16, denom=8):
    return st.lists(num(lo, hi, denom), min_size=n, max_size=n)


def table(rows, cols, lo=-16, hi=16, denom=8):
    return st.lists(nums(cols, lo, hi, denom), min_size=rows, max_size=rows)


@st.composite
def cmat(draw, rows, cols=None, lo=-16, hi=16):
    """Complex matrix as {'re': [[..]], 'im': [[..]]}."""
    cols = rows if cols is None else cols
    style = draw(st.sampled_from(['full', 'full', 'full', 'real', 'imag',
                                  'sparse']))
    zero = [[0.0] * cols for _ in range(rows)]
    re = draw(table(rows, cols, lo, hi)) if style != 'imag' else zero
    im = draw(table(rows, cols, lo, hi)) if style not in ('real',) else zero
    if style == 'sparse':
        mask = draw(st.lists(st.booleans(), min_size=rows * cols,
                             max_size=rows * cols))
        it = iter(mask)
        for r in range(rows):
            for c in range(cols):
                if next(it):
                    re[r][c] = 0.0
                    im[r][c] = 0.0
    return {'re': re, 'im': im}


def to_c(m):
    return np.array(m['re'], dtype=float) + 1j * np.array(m['im'], dtype=float)


@st.composite
def herm(draw, d, style=None):
    """Hermitian matrix of dimension d (as plain data)."""
    style = style or draw(st.sampled_from(
        ['full', 'full', 'full', 'pauli', 'diag', 'degenerate', 'zero']))
    if style == 'full':
        return {'style': style, 'd': d, 'm': draw(cmat(d, lo=-8, hi=8))}
    if style == 'diag':
        return {'style': style, 'd': d, 'v': draw(nums(d, -8, 8))}
    if style == 'pauli':
        return {'style': style, 'd': d, 'k': draw(st.integers(0, 3)),
                'at': draw(st.integers(0, max(0, d - 2))),
                's': draw(num(-8, 8))}
    if style == 'degenerate':
        # rotation of diag(a, a, .., b): degenerate, not diagonal
        return {'style': style, 'd': d, 'a': draw(num(-8, 8)),
                'b': draw(num(-8, 8)), 'm': draw(cmat(d, lo=-8, hi=8))}
    return {'style': style, 'd': d}


PAULI = [np.eye(2, dtype=complex), np.array([[0, 1], [1, 0]], dtype=complex),
         np.array([[0, -1j], [1j, 0]]), np.diag([1. + 0j, -1.])]


def to_herm(h):
    if 'scale' in h:
        return h['scale'] * to_herm({k: v for k, v in h.items()
                                     if k != 'scale'})
    d = h['d']
    if h['style'] == 'full':
        m = to_c(h['m'])
        return (m + m.conj().T) / 2
    if h['style'] == 'diag':
        return np.diag(np.array(h['v'], dtype=complex))
    if h['style'] == 'pauli':
        out = np.zeros((d, d), dtype=complex)
        i = h['at']
        out[i:i + 2, i:i + 2] = h['s'] * PAULI[h['k']][:d, :d]
        return out
    if h['style'] == 'degenerate':
        u = unitary_of(to_c(h['m']))
        v = np.full(d, h['a'], dtype=complex)
        v[-1] = h['b']
        out = u @ np.diag(v) @ u.conj().T
        return (out + out.conj().T) / 2
    return np.zeros((d, d), dtype=complex)


def unitary_of(m):
    """Deterministically turn any matrix into a unitary (matrix exp)."""
    import scipy.linalg as la
    h = (m + m.conj().T) / 2
    w, v = np.linalg.eigh(h)
    return v @ np.diag(np.exp(-1j * w)) @ v.conj().T


def subsets(n, min_size=1):
    return st.lists(st.integers(0, n - 1), min_size=min_size, max_size=n,
                    unique=True)


# ------------------------------------------------ bulk data from one seed
class Bulk:
    """The same plain data as above, many numbers from a single seed."""

    def __init__(self, seed):
        self.rng = np.random.RandomState(seed)

    def nums(self, n, lo=-16, hi=16):
        return (self.rng.randint(lo, hi + 1, n) / 8).tolist()

    def table(self, r, c, lo=-16, hi=16):
        return (self.rng.randint(lo, hi + 1, (r, c)) / 8).tolist()

    def cmat(self, r, c=None, lo=-16, hi=16):
        c = r if c is None else c
        return {'re': self.table(r, c, lo, hi), 'im': self.table(r, c, lo,
                                                                 hi)}

    def herm(self, d):
        return {'style': 'full', 'd': d, 'm': self.cmat(d, lo=-4, hi=4)}


# -------------------------------------------------- the same numbers, stored
LAYOUTS = ('fortran', 'strided', 'reversed', 'readonly', 'transposed',
           'float32', 'big_endian', 'slice')


def stored(a, how):
    """The same numbers in another memory layout (or number type)."""
    a = np.ascontiguousarray(a)
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        out = np.full(tuple(2 * k for k in a.shape), 77, dtype=a.dtype)[
            tuple(slice(None, None, 2) for _ in a.shape)]
        out[...] = a
        return out
    if how == 'reversed':
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[s])[s]
    if how == 'readonly':
        out = a.copy()
        out.flags.writeable = False
        return out
    if how == 'transposed':
        return np.ascontiguousarray(a.T).T
    if how == 'float32':
        return a.astype(np.float32)
    if how == 'big_endian':
        return a.astype(a.dtype.newbyteorder('>'))
    if how == 'slice':
        out = np.full(tuple(k + 3 for k in a.shape), -55, dtype=a.dtype)[
            tuple(slice(1, -2) for _ in a.shape)]
        out[...] = a
        return out
    return a
