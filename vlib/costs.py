"""Random cost functions on random solvers, with their references."""
from .solvers import *
from .core import arr, close, require
import copy
import weakref

CLOSED = ('schroedinger', 'mc', 'mcctrl')
# cost kinds -> solver kinds which support them
COSTS = {'op': CLOSED, 'opsup': ('lindblad',), 'state': CLOSED,
         'statesub': CLOSED, 'opnoise': ('mc', 'mcctrl'),
         'statenoise': ('mc', 'mcctrl'), 'liouvmc': ('mc', 'mcctrl'),
         'leak': CLOSED, 'incleak': ('mc', 'mcctrl'),
         'leakliou': ('lindblad', 'schroedinger', 'mc', 'mcctrl')}
WITH_GRAD = ('op', 'opsup', 'state', 'statesub', 'opnoise', 'leak')
KET = ('state', 'statesub', 'statenoise')


@st.composite
def comp_states(draw, d, optional=True):
    """A proper or improper subset of the basis states, in any order."""
    if optional and draw(st.integers(0, 2)) == 0:
        return None
    return draw(subsets(d, draw(st.sampled_from([1, 2, 2, 2]))))


@st.composite
def cost_spec(draw, s, kind, proper=False):
    """Cost of the given kind for the solver description s.

    proper: computational states are given, and not all of them.
    """
    d = s['m']['d']
    c = {'kind': kind}
    if kind == 'statesub':
        dims = draw(st.sampled_from(
            {2: [[2], [1, 2]], 3: [[3], [3, 1]], 4: [[2, 2], [2, 2], [4]],
             6: [[2, 3], [3, 2]], 8: [[2, 2, 2]]}[d]))
        c['dims'] = dims
        c['remove'] = draw(st.lists(
            st.integers(0, len(dims) - 1), unique=True, min_size=1
            if len(dims) > 1 else 0, max_size=len(dims) - 1))
        keep = int(np.prod([x for i, x in enumerate(dims)
                            if i not in c['remove']]))
        c['target'] = draw(cmat(keep, 1))
        c['ket'] = draw(st.booleans())
        return c
    if kind in ('leak', 'incleak', 'leakliou'):
        c['comp'] = draw(comp_states(d, optional=False))
        if kind == 'leakliou':
            c['mc'] = s['kind'] in ('mc', 'mcctrl') and draw(st.booleans())
        return c
    if proper:
        c['comp'] = draw(st.permutations(range(d)))[
            :draw(st.integers(min(2, d - 1), d - 1))]
    else:
        c['comp'] = draw(comp_states(d))
    dc = d if c['comp'] is None else len(c['comp'])
    c['flag'] = draw(st.booleans())      # closest unitary / rescale
    if kind in ('state', 'statenoise'):
        c['target'] = draw(cmat(dc, 1))
        c['ket'] = draw(st.booleans())
    else:
        c['target'] = draw(cmat(dc, lo=-12, hi=12))
    if kind in ('opnoise', 'statenoise'):
        c['neglect'] = draw(st.booleans())
        c['no_target'] = draw(st.integers(0, 3)) == 0
    return c


@st.composite
def cost_case(draw, kinds, deriv=None, dims=(2, 3), proper=False, **kw):
    """{'s': solver, 'c': cost}"""
    kind = draw(st.sampled_from(list(kinds)))
    if kind == 'statesub':
        dims = (2, 4, 4, 4, 6, 8)
    s = draw(solver_spec(kinds=COSTS[kind], dims=dims, deriv=deriv, **kw))
    m = s['m']
    if kind in KET:
        if m['init'] != 'ket':
            m['init'] = 'ket'
            m['psi'] = draw(cmat(m['d'], 1))
        v = to_c(m['psi'])
        if not np.any(v):
            v[0] = 1
        v = v / np.linalg.norm(v)
        m['psi'] = {'re': v.real.tolist(), 'im': v.imag.tolist()}
    elif m['init'] in ('ket', 'rect'):
        m['init'] = 'default'
    return {'s': s, 'c': draw(cost_spec(s, kind, proper))}


# ------------------------------------------------------------------- targets
def unit_ket(c):
    if 'raw' in c['target']:
        return np.array(c['target']['raw'])
    v = to_c(c['target'])
    if not np.any(v):
        v[0] = 1
    return v / np.linalg.norm(v)


def target_of(c):
    if c['kind'] in KET:
        return unit_ket(c)
    if 'raw' in c['target']:
        return np.array(c['target']['raw'])
    return unitary_of(to_c(c['target']))


# ---------------------------------------------------------------- references
def polar(a):
    u, _, vh = la.svd(a)
    return u @ vh


def restrict(u, comp, flag=False):
    """Truncation to the computational states (of unitaries and kets)."""
    if comp is None:
        return u
    if u.shape[1] == 1:
        v = u[comp]
        return v / np.linalg.norm(v) if flag else v
    v = u[np.ix_(comp, comp)]
    return polar(v) if flag else v


def f_ent(t, v):
    d = len(t)
    return np.abs(np.trace(t.conj().T @ v)) ** 2 / d ** 2


def f_state(bra_of, ket):
    return np.abs((bra_of.conj().T @ ket)[0, 0]) ** 2


def reduced(rho, dims, remove):
    """Partial trace by explicit summation."""
    keep = [i for i in range(len(dims)) if i not in remove]
    t = rho.reshape(list(dims) + list(dims))
    letters = 'abcdefghijkl'
    n = len(dims)
    left = list(letters[:n])
    right = [left[i] if i in remove else letters[n + i] for i in range(n)]
    out = ''.join([left[i] for i in keep] + [right[i] for i in keep])
    k = int(np.prod([dims[i] for i in keep]))
    return np.einsum(''.join(left + right) + '->' + out, t).reshape(k, k)


def f_ent_super(t, P, comp):
    """<<Phi| (T^-1 o P restricted) |Phi>> by the Choi sum over e_ij."""
    D = int(round(np.sqrt(len(P))))
    comp = list(range(D)) if comp is None else comp
    d = len(comp)
    f = 0
    for i in range(d):
        for j in range(d):
            e = np.zeros((D, D), dtype=complex)
            e[comp[i], comp[j]] = 1
            out = (P @ e.reshape(-1, order='F')).reshape(D, D, order='F')
            out = t.conj().T @ out[np.ix_(comp, comp)] @ t
            f += out[i, j]
    return f.real / d ** 2


def leakage_super(P, comp):
    D = int(round(np.sqrt(len(P))))
    rho = np.zeros((D, D), dtype=complex)
    for i in comp:
        rho[i, i] = 1 / len(comp)
    out = (P @ rho.reshape(-1, order='F')).reshape(D, D, order='F')
    return sum(out[k, k].real for k in range(D) if k not in comp)


def to_super(u):
    return np.kron(u.conj(), u)


def ref_cost(c, r):
    """Value(s) of the cost for a RefSolver"""
    k = c['kind']
    comp = c.get('comp')
    flag = c.get('flag', False)
    closed = r.kind != 'lindblad'
    if k == 'op':
        return 1 - f_ent(target_of(c), restrict(r.fwd()[-1], comp, flag))
    if k == 'opsup':
        return 1 - f_ent_super(target_of(c), r.fwd()[-1], comp)
    if k == 'state':
        return 1 - f_state(target_of(c), restrict(r.fwd()[-1], comp, flag))
    if k == 'statesub':
        psi = r.fwd()[-1]
        t = target_of(c)
        return 1 - (t.conj().T @ reduced(psi @ psi.conj().T, c['dims'],
                                         c['remove']) @ t)[0, 0].real
    if k in ('opnoise', 'statenoise'):
        t = target_of(c)
        if c['neglect'] or c['no_target']:
            t = restrict(r.fwd()[-1], comp, flag)
        f = f_ent if k == 'opnoise' else f_state
        return np.mean([1 - f(t, restrict(r.fwd(i)[-1], comp, flag))
                        for i in range(r.n_traces)])
    if k == 'liouvmc':
        P = np.mean([to_super(r.fwd(i)[-1]) for i in range(r.n_traces)],
                    axis=0)
        return 1 - f_ent_super(target_of(c), P, comp)
    if k in ('leak', 'incleak'):
        us = [r.fwd()[-1]] if k == 'leak' else \
            [r.fwd(i)[-1] for i in range(r.n_traces)]
        return np.mean([1 - np.sum(np.abs(restrict(u, comp)) ** 2)
                        / len(comp) for u in us])
    if k == 'leakliou':
        if not closed:
            P = r.fwd()[-1]
        elif c['mc']:
            P = np.mean([to_super(r.fwd(i)[-1])
                         for i in range(r.n_traces)], axis=0)
        else:
            P = to_super(r.fwd()[-1])
        return leakage_super(P, comp)
    raise HarnessError(k)


# ------------------------------------------------------------------ builders
_ARGS = weakref.WeakKeyDictionary()


def build_cost(c, solver, lindblad=None, label=None):
    """Build the cost function from arguments of its own."""
    given = copy.deepcopy(c)
    if 'target' in c:
        t = target_of(c)
        t = op(t.conj().T if c['kind'] in KET and not c['ket'] else t)
    else:
        t = None
    before = None if t is None else t.data.copy()
    cost = _build_cost(given, solver, lindblad, label, t)
    _ARGS[cost] = (given, copy.deepcopy(c), t, before)
    args_unchanged(cost)
    return cost


def args_unchanged(cost):
    """The arguments of the caller are as they were."""
    given, c, t, before = _ARGS[cost]
    require(given == c, 'arguments of the cost function were changed: %r '
            'instead of %r' % (given, c))
    if t is not None:
        close(t.data, before, 'target of the caller after evaluations', 0, 0)


def _build_cost(c, solver, lindblad, label, t):
    from qopt import cost_functions as q
    k = c['kind']
    kw = {} if label is None else {'label': label}
    comp = c.get('comp')
    flag = c.get('flag', False)
    if k in ('op', 'opsup'):
        return q.OperationInfidelity(
            solver, t, super_operator_formalism=k == 'opsup',
            computational_states=comp, map_to_closest_unitary=flag, **kw)
    if k == 'state':
        return q.StateInfidelity(solver, t, computational_states=comp,
                                 rescale_propagated_state=flag, **kw)
    if k == 'statesub':
        return q.StateInfidelitySubspace(solver, t, dims=c['dims'],
                                         remove=c['remove'], **kw)
    if k == 'opnoise':
        return q.OperationNoiseInfidelity(
            solver, None if c['no_target'] else t, computational_states=comp,
            map_to_closest_unitary=flag,
            neglect_systematic_errors=c['neglect'], **kw)
    if k == 'statenoise':
        return q.StateNoiseInfidelity(
            solver, None if c['no_target'] else t, computational_states=comp,
            rescale_propagated_state=flag,
            neglect_systematic_errors=c['neglect'], **kw)
    if k == 'liouvmc':
        return q.LiouvilleMonteCarloEntanglementInfidelity(
            solver, t, computational_states=comp, **kw)
    if k == 'leak':
        return q.LeakageError(solver, comp, **kw)
    if k == 'incleak':
        return q.IncoherentLeakageError(solver, comp, **kw)
    if k == 'leakliou':
        return q.LeakageLiouville(
            solver, comp, input_unitary=lindblad is False, monte_carlo=c['mc'],
            **kw)
    raise HarnessError(k)


def cost_of(case, solver):
    return build_cost(case['c'], solver,
                      lindblad=case['s']['kind'] == 'lindblad')


def restricted_ok(c, r, tol=.05):
    """The truncated evolution can be rescaled / has a closest unitary."""
    if not c.get('flag') or c.get('comp') is None or c['kind'] == 'opsup':
        return True
    rs = [None]
    if c['kind'] in ('opnoise', 'statenoise'):
        rs = ([None] if c['neglect'] or c['no_target'] else []) + \
            list(range(r.n_traces))
    for i in rs:
        v = restrict(r.fwd(i)[-1], c['comp'])
        sv = np.linalg.svd(v, compute_uv=False)
        if sv[-1] < tol:
            return False
    return True


# ------------------------------------------------- numeric derivatives
STENCIL = {1: 3 / 4, 2: -3 / 20, 3: 1 / 60}


def jac_err(fun, y, h=5e-4):
    """Derivative by the seven point rule; difference to the five point one."""
    f0 = np.atleast_1d(fun(y))
    out = np.zeros((y.shape[0], f0.size, y.shape[1]))
    low = np.zeros(out.shape)
    for i in np.ndindex(*y.shape):
        for k, w in STENCIL.items():
            e = np.zeros_like(y)
            e[i] = k * h
            d = np.atleast_1d(fun(y + e)) - np.atleast_1d(fun(y - e))
            out[i[0], :, i[1]] += w / h * d
            low[i[0], :, i[1]] += {1: 2 / 3, 2: -1 / 12}.get(k, 0) / h * d
    return out, float(np.max(np.abs(out - low))) if out.size else 0.


def along(fun, y, v, h=5e-4):
    """Derivative along v by the seven point rule, and its error."""
    out = low = 0
    for k, w in STENCIL.items():
        d = np.atleast_1d(fun(y + k * h * v)) - np.atleast_1d(
            fun(y - k * h * v))
        out = out + w / h * d
        low = low + {1: 2 / 3, 2: -1 / 12}.get(k, 0) / h * d
    return out, float(np.max(np.abs(out - low)))


@st.composite
def large_cost(draw, kinds, dims=None, **kw):
    """{'s': large solver, 'c': cost}"""
    kind = draw(st.sampled_from(list(kinds)))
    s = draw(large_spec(kinds=COSTS[kind], **kw))
    m = s['m']
    b = Bulk(draw(st.integers(0, 2 ** 31)))
    if kind in KET:
        v = to_c(b.cmat(m['d'], 1))
        v[0] += 8
        v = v / np.linalg.norm(v)
        m['init'] = 'ket'
        m['psi'] = {'re': v.real.tolist(), 'im': v.imag.tolist()}
    c = {'kind': kind}
    if kind in ('leak', 'incleak', 'leakliou'):
        c['comp'] = draw(comp_states(m['d'], optional=False))
        c['mc'] = s['kind'] in ('mc', 'mcctrl') and draw(st.booleans())
    else:
        c['comp'] = draw(comp_states(m['d']))
    dc = m['d'] if c['comp'] is None else len(c['comp'])
    c['flag'] = draw(st.booleans())
    if kind in ('state', 'statenoise'):
        c['target'] = b.cmat(dc, 1)
        c['ket'] = draw(st.booleans())
    else:
        c['target'] = b.cmat(dc, lo=-8, hi=8)
    if kind in ('opnoise', 'statenoise'):
        c['neglect'] = draw(st.booleans())
        c['no_target'] = draw(st.integers(0, 3)) == 0
    return {'s': s, 'c': c}


# -------------------------------------- evolutions close to the ideal ones
class GivenRef:
    """Stands in for RefSolver: the final propagators are given."""

    def __init__(self, u, noise, kind):
        self.u, self.noise, self.kind = u, noise, kind
        self.n_traces = len(noise)

    def fwd(self, trace=None):
        return [self.u if trace is None else self.noise[trace]]


def given_solver(P, noise=None, d=None):
    """A solver whose final propagators are the given ones."""
    from qopt.solver_algorithms import SchroedingerSMonteCarlo
    noise = [P] if noise is None else noise
    d = len(P) if d is None else d

    class Given(SchroedingerSMonteCarlo):
        forward_propagators = property(
            lambda self: [op(np.eye(len(P))), op(P)])
        forward_propagators_noise = property(
            lambda self: [[op(np.eye(len(x))), op(x)] for x in noise])
    return Given(h_ctrl=[op(np.eye(d))], h_drift=[op(np.zeros((d, d)))],
                 h_noise=[op(np.eye(d))], tau=np.array([1.]),
                 noise_trace_generator=fixed_ntg(np.ones((1, len(noise), 1))))


@st.composite
def nearly_case(draw, kinds):
    d = draw(st.integers(2, 6))
    comp = draw(comp_states(d))
    return {'d': d, 'comp': comp, 'kind': draw(st.sampled_from(list(kinds))),
            'eps': draw(st.integers(-18, -1)), 'traces': draw(
                st.integers(1, 5)), 'flag': draw(st.booleans()),
            'ket': draw(st.booleans()), 'neglect': draw(st.booleans()),
            'no_target': draw(st.integers(0, 3)) == 0,
            'mc': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 31))}


def nearly_ideal(case, rec):
    """Tiny infidelities and leakages of nearly ideal evolutions."""
    d, kind = case['d'], case['kind']
    eps = 10. ** (case['eps'] / 3)
    rng = np.random.RandomState(case['seed'])

    def mat(n, k=None):
        k = n if k is None else k
        return rng.normal(size=(n, k)) + 1j * rng.normal(size=(n, k))
    c = {k: case[k] for k in ('kind', 'comp', 'flag', 'ket', 'neglect',
                              'no_target', 'mc')}
    if kind in ('leak', 'incleak', 'leakliou') and c['comp'] is None:
        c['comp'] = list(range(1, d))
    if kind == 'statesub':
        c['comp'] = None
        c['dims'], c['remove'] = {2: ([2], []), 3: ([3], []), 4: (
            [2, 2], [1]), 5: ([5], []), 6: ([3, 2], [0])}[d]
    comp = list(range(d)) if c['comp'] is None else c['comp']
    rest = [i for i in range(d) if i not in comp]
    # the ideal gate acts on the computational space and the rest separately
    ideal = np.zeros((d, d), dtype=complex)
    ideal[np.ix_(comp, comp)] = unitary_of(mat(len(comp)))
    if rest:
        ideal[np.ix_(rest, rest)] = unitary_of(mat(len(rest)))
    if kind == 'statesub':
        fs = [unitary_of(mat(x))[:, :1] for x in c['dims']]
        t = psi = np.ones((1, 1))
        for i, f in enumerate(fs):
            psi = np.kron(psi, f)
            if i not in c['remove']:
                t = np.kron(t, f)
        ideal = psi
        c['target'] = t
    elif kind in KET:
        c['target'] = ideal[np.ix_(comp, comp[:1])]
        ideal = ideal[:, comp[:1]]
    else:
        c['target'] = ideal[np.ix_(comp, comp)]
    c['target'] = {'raw': c['target'].tolist()}
    phase = np.exp(1j * rng.uniform(0, 6))
    us = [unitary_of(eps * mat(d)) @ ideal * phase
          for _ in range(case['traces'] + 1)]
    u, noise = us[0], us[1:]
    if kind == 'opsup':
        q = rng.uniform(0, 1, len(us))
        u = sum(x * to_super(v) for x, v in zip(q / q.sum(), us))
        noise = [u]
    sol = given_solver(u, noise, d)
    if kind == 'leakliou' and rng.randint(2) and not c['mc']:
        sol = given_solver(to_super(u), d=d)     # given as superoperator
        cost = build_cost(c, sol, lindblad=True)
    else:
        cost = build_cost(c, sol, lindblad=False)
    ref = GivenRef(u, noise, 'lindblad' if kind == 'opsup' else 'mc')
    exp = ref_cost(c, ref)
    got = arr(cost.costs())
    if got.shape == () or got.size == 1:
        got = got.reshape(())
    close(got, exp, 'cost %s of a nearly ideal evolution' % kind, 2e-13,
          1e-9)
    rec.label(kind)
    rec.label('below 1e-6', exp < 1e-6)
    rec.nontrivial(exp > 1e-11)


def jac(fun, y, h=5e-4):
    return jac_err(fun, y, h)[0]
