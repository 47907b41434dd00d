"""C15: process fidelity and leakage of open systems."""
from vlib.core import *
from vlib.costs import *
from qopt import cost_functions as cf
from qopt.matrix import DenseOperator

META = dict(
    rule='Random channels of dimension 2 to 4 from one to three Kraus '
         'operators (normalised to preserve the trace, also unitary ones and '
         'ones that leave the computational subspace invariant), computational '
         'subspaces in any order, and the cost classes on random open and '
         'noisy control problems. Values are compared with the sums over '
         'Kraus operators. Non-trivial: the value is neither 0 nor 1.',
    assumptions=['column stacking vectorisation as documented'])


def kraus_of(case):
    """Trace preserving set of Kraus operators."""
    d = case['d']
    ks = [to_c(k) for k in case['k']]
    if case['style'] == 'unitary':
        return [unitary_of(ks[0])]
    if case['style'] == 'block':
        # block diagonal in the computational subspace and its complement
        comp = case['comp'] or list(range(d))
        mask = np.zeros((d, d))
        rest = [i for i in range(d) if i not in comp]
        mask[np.ix_(comp, comp)] = 1
        mask[np.ix_(rest, rest)] = 1
        ks = [k * mask for k in ks]
    ks = [k + (.25 * np.eye(d) if i == 0 else 0) for i, k in enumerate(ks)]
    s = sum(k.conj().T @ k for k in ks)
    w, v = np.linalg.eigh(s)
    if w[0] < 1e-3:
        ks.append(np.eye(d))
        s = s + np.eye(d)
        w, v = np.linalg.eigh(s)
    inv = v @ np.diag(w ** -.5) @ v.conj().T
    return [k @ inv for k in ks]


@st.composite
def channel_case(draw):
    d = draw(st.integers(2, 4))
    comp = draw(comp_states(d))
    dc = d if comp is None else len(comp)
    return {'d': d, 'comp': comp, 'style': draw(st.sampled_from(
        ['any', 'any', 'unitary', 'block'])),
            'k': draw(st.lists(cmat(d, lo=-8, hi=8), min_size=1,
                               max_size=3)),
            't': draw(cmat(dc, lo=-12, hi=12)), 'ph': draw(num()),
            'how': draw(st.lists(st.sampled_from(['array', 'op']),
                                 min_size=2, max_size=2)),
            'w': draw(st.sampled_from([0., .25, .5, 1.]))}


def wrap(a, how):
    return np.array(a) if how == 'array' else DenseOperator(
        np.array(a, dtype=complex))


@subcheck('process_fidelity', channel_case(), quick=700, thorough=20000,
          shards=2)
def process_fidelity(case, rec):
    d, comp = case['d'], case['comp']
    ks = kraus_of(case)
    P = sum(to_super(k) for k in ks)
    t = unitary_of(to_c(case['t']))
    full = list(range(d)) if comp is None else comp
    exp = sum(np.abs(np.trace(t.conj().T @ k[np.ix_(full, full)])) ** 2
              for k in ks) / len(full) ** 2
    close(f_ent_super(t, P, comp), exp, 'oracle', 1e-9)
    a, b = wrap(t, case['how'][0]), wrap(P, case['how'][1])
    got = cf.entanglement_fidelity_super_operator(
        target=a, propagator=b, computational_states=comp)
    close(got, exp, 'process fidelity', 1e-9)
    require(-1e-9 <= got <= 1 + 1e-9, 'fidelity out of range: %r' % got)
    close(arr(a), t, 'target afterwards', 0, 0)
    close(arr(b), P, 'channel afterwards', 0, 0)
    ph = np.exp(1j * case['ph'])
    close(cf.entanglement_fidelity_super_operator(
        target=wrap(t * ph, 'op'), propagator=wrap(P, 'op'),
        computational_states=comp), exp, 'fidelity with another phase', 1e-9)
    if case['style'] == 'unitary':
        close(cf.entanglement_fidelity(
            wrap(t, 'op'), wrap(ks[0], 'op'), computational_states=comp),
            exp, 'closed system fidelity of the unitary channel', 1e-9)
    # linear in the channel
    q = case['w']
    other = np.eye(d * d)
    mix = [cf.entanglement_fidelity_super_operator(
        target=wrap(t, 'op'), propagator=wrap(x, 'op'),
        computational_states=comp)
        for x in (q * P + (1 - q) * other, P, other)]
    close(mix[0], q * mix[1] + (1 - q) * mix[2], 'fidelity of a mixture',
          1e-9)
    rec.label('comp', comp is not None)
    rec.label(case['style'])
    rec.nontrivial(1e-6 < exp < 1 - 1e-6)


def given(d, P, noise=None):
    """A solver whose final propagators are the given ones."""
    return given_solver(P, noise, d)


@subcheck('nearly_ideal', nearly_case(('opsup', 'leak', 'liouvmc', 'leakliou',
                                       'incleak')), quick=200,
          thorough=8000)
def nearly(case, rec):
    nearly_ideal(case, rec)


@subcheck('leakage', st.tuples(channel_case(), st.lists(
    st.integers(0, 7), min_size=1, max_size=7)).map(
        lambda t: dict(t[0], order=t[1])), quick=500, thorough=15000)
def leakage(case, rec):
    d = case['d']
    comp = case['comp'] or [0]
    ks = kraus_of(dict(case, comp=comp))
    P = sum(to_super(k) for k in ks)
    rest = [i for i in range(d) if i not in comp]
    exp = sum(np.sum(np.abs(k[np.ix_(rest, comp)]) ** 2) for k in ks
              ) / len(comp)
    # an ensemble of channels, leaking as much as their mean
    order = case.get('order', [0, 1, 0])
    each = [(P, exp), (np.eye(d * d), 0.)] + [
        (to_super(k), np.sum(np.abs(k[np.ix_(rest, comp)]) ** 2) / len(comp))
        for k in ks]
    sol = given(d, P, noise=[each[i % len(each)][0] for i in order])
    mean = np.mean([each[i % len(each)][1] for i in order])
    got = cf.LeakageLiouville(sol, list(comp)).costs()
    close(got, exp, 'leakage of the channel', 1e-9, shape=False)
    close(cf.LeakageLiouville(sol, list(comp), monte_carlo=True).costs(),
          mean, 'averaged leakage', 1e-9, shape=False)
    require(np.all(arr(got) >= -1e-9) and np.all(arr(got) <= 1 + 1e-9),
            'leakage out of range: %r' % got)
    if case['style'] == 'block' or not rest:
        close(got, 0, 'leakage of an invariant subspace', 1e-9, shape=False)
    if case['style'] == 'unitary':
        u = ks[0]
        sol = given(d, u, noise=[[u, np.eye(d)][i % 2] for i in order])
        part = exp * np.mean([i % 2 == 0 for i in order])
        for what, cost, e in (
                ('coherent', cf.LeakageError(sol, list(comp)), exp),
                ('incoherent', cf.IncoherentLeakageError(sol, list(comp)),
                 part),
                ('Liouville', cf.LeakageLiouville(
                    sol, list(comp), input_unitary=True), exp),
                ('averaged', cf.LeakageLiouville(
                    sol, list(comp), input_unitary=True, monte_carlo=True),
                 part)):
            for _ in range(2):
                close(cost.costs(), e, what + ' leakage', 1e-9, shape=False)
    rec.label(case['style'])
    rec.label('leaking', exp > 1e-6)
    rec.nontrivial(rest and (exp > 1e-6 or case['style'] == 'block'))


@st.composite
def large_channel(draw):
    d = draw(st.integers(5, 7))
    b = Bulk(draw(st.integers(0, 2 ** 31)))
    comp = draw(comp_states(d))
    dc = d if comp is None else len(comp)
    return {'d': d, 'comp': comp, 'style': draw(st.sampled_from(
        ['any', 'unitary', 'block'])),
            'k': [b.cmat(d, lo=-8, hi=8)
                  for _ in range(draw(st.integers(1, 6)))],
            't': b.cmat(dc, lo=-4, hi=4), 'ph': draw(num()),
            'how': [draw(st.sampled_from(['array', 'op'])) for _ in '12'],
            'w': draw(st.sampled_from([0., .25, .5, 1.]))}


@subcheck('large_channels', large_channel(), quick=60, thorough=2000)
def large_channels(case, rec):
    process_fidelity(case, rec)
    leakage(case, rec)


@subcheck('large_costs', large_cost(('opsup', 'liouvmc', 'leakliou', 'leak',
                                     'incleak')),
          quick=50, thorough=1500, shards=2)
def large_costs(case, rec):
    costs(case, rec)


@subcheck('costs', cost_case(('opsup', 'opsup', 'liouvmc', 'leakliou',
                              'leakliou', 'incleak', 'leak'), max_x=8,
                             dims=(2, 3, 4)),
          quick=400, thorough=10000, shards=3)
def costs(case, rec):
    c, s = case['c'], case['s']
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    cost = cost_of(case, solver)
    exps = []
    y2, tau = other_pulse(s['m']), other_times(s['m'])
    for yy, t in ((y, None), (y2, None), (None, tau)):
        if t is None:
            solver.set_optimization_parameters(yy)
            exps.append(ref_cost(c, RefSolver(s, yy)))
        else:
            solver.set_times(np.array(t))
            exps.append(ref_cost(c, RefSolver(s, y2, t)))
        for _ in range(2):
            got = arr(cost.costs())
            close(got, exps[-1], 'costs (%s)' % c['kind'], 1e-7, shape=False)
            require(np.all(got >= -1e-8) and np.all(got <= 1 + 1e-8),
                    'infidelity out of range: %r' % got)
    args_unchanged(cost)
    rec.label(c['kind'])
    rec.label(s['kind'])
    rec.label('comp', c.get('comp') is not None)
    rec.nontrivial(1e-6 < exps[0] < 1 - 1e-6)
