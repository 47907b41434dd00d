"""C22: the simulator."""
import time
from vlib.core import *
from vlib.costs import *

META = dict(
    rule='Simulators of one to three solvers (closed, noisy, open, own '
         'Hamiltonians and times), each with one or two cost functions of '
         'the library or a user defined one with several values, in any '
         'order. Histories of three to eight operations: costs and Jacobians of '
         'new, repeated and stored pulses, numeric gradients, comparisons, '
         'solvers set to something else in between. Costs are compared with '
         'the independent references, Jacobians with those of fresh '
         'simulators of a single cost. Non-trivial: at least two cost values '
         'and two different pulses.',
    assumptions=['Jacobians of the library cost functions are checked by '
                 'C16'])


@st.composite
def sim_case(draw):
    n_solver = draw(st.sampled_from([1, 2, 2, 3]))
    share = draw(st.integers(0, 3)) == 0
    grads = draw(st.booleans())
    base = draw(solver_spec(kinds=('schroedinger',), dims=(2, 2, 3), max_y=3,
                            max_x=5, max_ctrl=2, approx=(None,)))
    solvers = []
    for i in range(n_solver):
        s = json.loads(json.dumps(base))
        m = s['m']
        kinds = ['schroedinger', 'schroedinger', 'mc', 'mcctrl'] + (
            ['lindblad'] if m['d'] == 2 else [])
        s['kind'] = draw(st.sampled_from(kinds))
        s['deriv'] = draw(st.booleans())
        if i:
            m['h_ctrl'] = [draw(herm(m['d'])) for _ in range(m['c'])]
            if not share:
                m['tau'] = [t * draw(st.sampled_from([1, 2, .5]))
                            for t in m['tau'][:1]] * m['n']
                own = draw(st.sampled_from(['same', 'filter', 'amps',
                                            'both']))
                if own in ('filter', 'both'):
                    # another filter onto as many time steps
                    nx = num_x_of(m['tf'], m['n']) if m['tf'] else m['n']
                    t = draw(leaf_tf(nx, m['p'], ['gauss', 'convolution']))
                    m['tf'] = t if m['tf'] is None else {
                        'kind': 'concat', 'p': m['p'], 't1': m['tf'],
                        't2': t, 'matrix': False}
                if own in ('amps', 'both'):
                    m['amp'] = draw(amp_func(m['p'], m['c']))
        if s['kind'] in ('mc', 'mcctrl'):
            s['noise'] = draw(noise_spec(m, s['kind'], 2))
            s['noise']['naf'] = None
        if s['kind'] == 'lindblad':
            s['diss'] = draw(diss_spec(m))
            if m['method'] == 'spectral':
                m['method'] = 'Frechet'
        m['init'] = 'default'
        solvers.append(s)
    costs = []
    for i, s in enumerate(solvers):
        for _ in range(draw(st.integers(1, 2))):
            kinds = [k for k, v in COSTS.items() if s['kind'] in v
                     and k not in KET and (not grads or k in WITH_GRAD)]
            if draw(st.integers(0, 3)) == 0 or not kinds:
                costs.append({'on': i, 'kind': 'user', 'w': draw(table(
                    draw(st.integers(1, 3)), s['m']['c'])),
                    'form': draw(st.sampled_from(['flat', 'flat', 'square',
                                                  'list']))})
            else:
                c = draw(cost_spec(s, draw(st.sampled_from(kinds))))
                c['flag'] = False
                costs.append(dict(c, on=i, label=draw(st.booleans())))
    costs = draw(st.permutations(costs))
    m = base['m']
    pulses = [m['y']] + [draw(table(m['n'], m['p'], -12, 12))
                         for _ in range(2)]
    if draw(st.booleans()):
        # nearly the first one: reordered, negated, one value altered
        pulses[2] = other_pulse(m, draw(st.integers(0, 4))).tolist()
    ops = ['costs', 'costs', 'stored', 'disturb', 'numeric']
    numeric = draw(st.integers(0, 3)) == 0
    big = m['amp']['kind'] == 'identity' and draw(st.booleans())
    if big:
        # well beyond the unit interval
        f = draw(st.sampled_from([4., 9.]))
        pulses = [(f * np.array(p)).tolist() for p in pulses]
        for s in solvers:
            s['m']['y'] = pulses[0]
        ops += ['numeric']
    if grads:
        ops += ['jac', 'jac', 'compare']
    elif numeric and not big:
        # also for costs without an analytic gradient
        ops += ['jac', 'jac']
    hist = draw(st.lists(st.tuples(
        st.sampled_from(ops), st.integers(0, 2), st.booleans(),
        st.sampled_from([1e-3, 1e-4, 1e-5])).map(list),
        min_size=3, max_size=8))
    return {'solvers': solvers, 'costs': list(costs), 'pulses': pulses,
            'hist': hist, 'stats': draw(st.booleans()),
            'given': draw(st.booleans()), 'grads': grads,
            'numeric': numeric, 'share': share}


@st.composite
def large_sim(draw):
    """Up to five solvers and nine costs, longer pulses, more controls."""
    base = draw(large_spec(kinds=('schroedinger',), small_pulse=True,
                           profiles=('steps', 'controls', 'mix', 'dim')))
    b = Bulk(draw(st.integers(0, 2 ** 31)))
    scale = base['m']['h_ctrl'][0].get('scale')
    solvers, costs = [], []
    for i in range(draw(st.sampled_from([1, 3, 4, 5]))):
        s = json.loads(json.dumps(base))
        m = s['m']
        m['init'] = 'default'
        s['kind'] = str(b.rng.choice(['schroedinger', 'mc', 'mcctrl']))
        s['deriv'] = bool(b.rng.randint(0, 2))
        if i:
            m['h_ctrl'] = [b.herm(m['d']) for _ in range(m['c'])]
            if scale is not None:
                for h in m['h_ctrl']:
                    h['scale'] = scale
        nx = num_x_of(m['tf'], m['n']) if m['tf'] else m['n']
        Y, T = m.get('Y', 1.), m.get('T', 1.)
        if s['kind'] != 'schroedinger':
            n_op = m['p'] if s['kind'] == 'mcctrl' else 1
            unit = Y if s['kind'] == 'mcctrl' else 1 / T
            s['noise'] = {'samples': [
                (np.array(b.table(2, nx, -4, 4)) * unit).tolist()
                for _ in range(n_op)], 'naf': None,
                'h': [b.herm(m['d'])] if s['kind'] == 'mc' else []}
        solvers.append(s)
        for _ in range(draw(st.integers(1, 3))):
            if b.rng.randint(0, 4) == 0:
                costs.append({'on': i, 'kind': 'user', 'w': (np.array(b.table(
                    int(b.rng.randint(1, 5)), m['c']))
                    / m.get('U', 1.) ** 2).tolist(),
                    'form': str(b.rng.choice(['flat', 'square', 'list']))})
                continue
            kinds = [k for k, v in COSTS.items() if s['kind'] in v
                     and k not in KET and k in WITH_GRAD and k in (
                         'op', 'opnoise', 'leak', 'incleak')]
            c = draw(cost_spec(s, kinds[b.rng.randint(len(kinds))]))
            c['flag'] = False
            costs.append(dict(c, on=i, label=bool(b.rng.randint(0, 2))))
    order = b.rng.permutation(len(costs))
    m, Y = base['m'], base['m'].get('Y', 1.)
    pulses = [m['y']] + [(Y * np.array(b.table(m['n'], m['p'], -8, 8))
                          ).tolist() for _ in range(2)]
    hist = draw(st.lists(st.tuples(
        st.sampled_from(['costs', 'costs', 'jac', 'stored', 'disturb']),
        st.integers(0, 2), st.booleans(), st.just(1e-4)).map(list),
        min_size=3, max_size=5))
    return {'solvers': solvers, 'costs': [costs[i] for i in order],
            'pulses': pulses, 'hist': hist, 'stats': draw(st.booleans()),
            'given': draw(st.booleans()), 'grads': True, 'numeric': False,
            'share': draw(st.booleans())}


def user_cost(c, solver, analytic=True):
    from qopt.cost_functions import CostFunction
    w = np.array(c['w'])

    class Power(CostFunction):
        def amps(self):
            return np.asarray(self.solver.amplitude_function(
                self.solver.transferred_parameters))

        def costs(self):
            v = w @ np.sum(self.amps() ** 2, axis=0)
            if c['form'] == 'square':
                return np.stack([v, 2 * v])
            return list(v) if c['form'] == 'list' else v

        def grad(self):
            if not analytic:
                raise NotImplementedError('no analytic gradient')
            g = 2 * self.amps()[:, None, :] * w[None]
            return np.concatenate([g, 2 * g], axis=1) \
                if c['form'] == 'square' else g
    k = len(w) * (2 if c['form'] == 'square' else 1)
    return Power(solver, ['power %d' % i for i in range(k)])


def make_cost(case, j, solver):
    c = case['costs'][j]
    if c['kind'] == 'user':
        return user_cost(c, solver, case['grads'] or not case['numeric'])
    return build_cost(c, solver, label=['cost %d' % j]
                      if c.get('label') else None,
                      lindblad=case['solvers'][c['on']]['kind'] == 'lindblad')


def user_values(c, r):
    v = np.array(c['w']) @ np.sum(r.u ** 2, axis=0)
    return np.concatenate([v, 2 * v]) if c['form'] == 'square' else v


def reference(case, y):
    refs = [RefSolver(s, y) for s in case['solvers']]
    out = []
    for c in case['costs']:
        r = refs[c['on']]
        if c['kind'] == 'user':
            out.append(user_values(c, r))
        else:
            out.append(np.atleast_1d(ref_cost(c, r)))
    return np.concatenate(out)


def single_jacs(case, y):
    from qopt.simulator import Simulator
    out = []
    for j, c in enumerate(case['costs']):
        solver = build_solver(case['solvers'][c['on']])
        out.append(arr(Simulator([solver], [make_cost(case, j, solver)]
                                 ).wrapped_jac_function(y)))
        require(out[-1].ndim == 3, 'dimensions of the Jacobian')
        if c['kind'] == 'user':
            # the others are the subject of C16
            s = case['solvers'][c['on']]
            Y = s['m'].get('Y', 1.)
            exp, err = jac_err(lambda v: user_values(
                c, RefSolver(s, v * Y)), y / Y)
            close(out[-1] * Y, exp,
                  'Jacobian of a vector valued cost function',
                  2e-6 + err, 2e-6)
    return np.concatenate(out, axis=1)


@subcheck('history', sim_case(), quick=500, thorough=12000, shards=6)
def history(case, rec):
    from qopt.simulator import Simulator
    pulses = [np.array(p) for p in case['pulses']]
    over = {}
    if case['share']:
        # all solvers may use the same functions
        m = case['solvers'][0]['m']
        if m['tf']:
            over['transfer_function'] = build_tf(m['tf'])
        if m['amp']['kind'] != 'identity':
            over['amplitude_function'] = build_amp(m['amp'])
    solvers = [build_solver(s, **over) for s in case['solvers']]
    costs = [make_cost(case, j, solvers[c['on']])
             for j, c in enumerate(case['costs'])]
    kw = {} if case['stats'] else {'record_performance_statistics': False}
    if case['numeric']:
        kw['numeric_jacobian'] = True
    if case['given']:
        kw['optimization_parameters'] = pulses[0].copy()
    sim = Simulator(solvers, costs, **kw)
    stored = pulses[0] if case['given'] else None
    kept = []
    exp_costs = {}

    def expect(k):
        if k not in exp_costs:
            exp_costs[k] = reference(case, pulses[k])
        return exp_costs[k]

    names = sim.cost_indices
    exp_names = []
    for j, (c, spec) in enumerate(zip(costs, case['costs'])):
        require(isinstance(c.label, list) and c.label and all(
            isinstance(v, str) and v for v in c.label),
            'names of cost %d: %r' % (j, c.label))
        if spec.get('label'):
            require(c.label == ['cost %d' % j], 'name %r' % c.label)
        exp_names += list(c.label)
    require(list(names) == exp_names, 'names %r, expected %r'
            % (names, exp_names))
    if not any(c['kind'] == 'user' and c['form'] == 'square'
               for c in case['costs']):
        require(len(names) == len(expect(0)), 'one name per cost')
    for step, (what, k, flag, eps) in enumerate(case['hist']):
        y = pulses[k].copy()
        where = 'step %d (%s): ' % (step, what)
        before = (len(sim.stats.cost_func_eval_times),
                  len(sim.stats.grad_func_eval_times)) \
            if case['stats'] else None
        counts = None
        started = time.time()
        if what == 'costs':
            got = arr(sim.wrapped_cost_functions(y))
            close(got, expect(k), where + 'costs', 1e-7, 1e-7)
            kept.append((where, got, got.copy()))
            counts = (1, 0)
        elif what == 'stored':
            if flag or stored is None:
                sim.pulse = y
                stored = pulses[k]
                require(np.array_equal(sim.pulse, y), 'the stored pulse')
            kk = [i for i, p in enumerate(pulses)
                  if np.array_equal(p, stored)][0]
            todo = ['costs']
            if case['grads'] and not case['numeric']:
                # in any order
                todo.insert(int(eps < 5e-4), 'jac')
            for q in todo:
                if q == 'jac':
                    close(sim.wrapped_jac_function(),
                          single_jacs(case, pulses[kk]), where + 'Jacobian',
                          1e-9, 1e-9)
                else:
                    close(sim.wrapped_cost_functions(), expect(kk),
                          where + 'costs', 1e-7, 1e-7)
            counts = (1, len(todo) - 1)
        elif what == 'disturb':
            for s in solvers[:1 + flag]:
                s.set_optimization_parameters(y)
                s.forward_propagators
        elif what == 'jac' and not case['numeric']:
            got = arr(sim.wrapped_jac_function(y))
            close(got, single_jacs(case, y), where + 'Jacobian', 1e-9, 1e-9)
            kept.append((where, got, got.copy()))
            counts = (0, 1)
        elif what in ('jac', 'numeric'):
            if what == 'jac':
                got = arr(sim.wrapped_jac_function(y))
                # the default difference is not specified
                h, tol = 1e-4, 3e-5
                flag = True
            else:
                at = y
                if stored is not None and np.array_equal(y, stored):
                    at = None    # the pulse of the simulator
                got = arr(sim.numeric_gradient(at, delta_eps=eps,
                                               symmetric=flag))
                h, tol = eps, 1e-10 / eps
            exp = np.zeros((y.shape[0], len(expect(k)), y.shape[1]))
            for i in np.ndindex(*y.shape):
                e = np.zeros_like(y)
                e[i] = h
                f = reference(case, y + e)
                exp[i[0], :, i[1]] = (f - reference(case, y - e)) / 2 / h \
                    if flag else (f - expect(k)) / h
            scale = 1 + np.max(np.abs(expect(k)))
            if what == 'jac':
                scale += np.max(np.abs(exp))
                # curvature
                if np.max(np.abs(y)) > 1:
                    scale *= 30
            close(got, exp, where + 'numeric gradient', tol * scale, 1e-7)
            kept.append((where, got, got.copy()))
        elif what == 'compare':
            num = arr(sim.numeric_gradient(y, eps, flag))
            ana = num if case['numeric'] else single_jacs(case, y)
            if case['numeric']:
                continue
            d, rel = sim.compare_numeric_to_analytic_gradient(y, eps, flag)
            dn = np.linalg.norm(num - ana)
            tot = np.linalg.norm(num) + np.linalg.norm(ana)
            close(d, dn, where + 'norm of the difference', 1e-8, 1e-6)
            if tot > 1e-6:
                close(rel, 2 * dn / tot, where + 'relative difference', 1e-8
                      / tot + 1e-9, 1e-5)
        if case['stats'] and counts is not None:
            after = (len(sim.stats.cost_func_eval_times),
                     len(sim.stats.grad_func_eval_times))
            require((after[0] - before[0], after[1] - before[1]) == counts,
                    where + 'recorded %d costs and %d gradients, expected %r'
                    % (after[0] - before[0], after[1] - before[1], counts))
            for rec_ in (sim.stats.cost_func_eval_times[before[0]:]
                         + sim.stats.grad_func_eval_times[before[1]:]):
                require(len(rec_) == len(costs) and all(
                    t >= 0 for t in rec_), where + 'timings %r' % (rec_,))
                require(sum(rec_) <= time.time() - started + 1e-3,
                        where + 'timings %r exceed the elapsed time'
                        % (rec_,))
        require(np.array_equal(y, pulses[k]), where + 'the pulse was changed')
    for where, got, copy in kept:
        require(np.array_equal(got, copy), where + 'the result was changed '
                'by later operations')
    require(bool(sim.stats) == case['stats'], 'statistics')
    rec.label('%d solvers' % len(solvers))
    rec.label('numeric', case['numeric'])
    rec.label('user', any(c['kind'] == 'user' for c in case['costs']))
    for h in case['hist']:
        rec.label(h[0])
    rec.nontrivial(len(expect(0)) > 1 and len({h[1] for h in case['hist']})
                   > 1)


@subcheck('large', large_sim(), quick=25, thorough=600, shards=6)
def large(case, rec):
    history(case, rec)


@st.composite
def names_case(draw):
    kind = draw(st.sampled_from(sorted(COSTS) + ['ff', 'norm', 'norm']))
    if kind in ('ff', 'norm'):
        s = draw(solver_spec(kinds=('schroedinger', 'mc') if kind == 'norm'
                             else ('mc',), dims=(2,), max_x=4))
        s['m']['init'] = 'default'
        case = {'s': s, 'c': {'kind': kind, 'mode': draw(st.sampled_from(
            ['scalar', 'vector', 'rotation_axis']))}}
    else:
        case = draw(cost_case([kind], dims=(2, 3), max_x=4))
    case['names'] = draw(st.lists(st.text('abXYZ 0_', min_size=1, max_size=6),
                                  min_size=32, max_size=32, unique=True))
    return case


@subcheck('names', names_case(), quick=150, thorough=3000)
def names(case, rec):
    """One name for each cost value, the given ones or default ones."""
    from qopt import cost_functions as cf
    from qopt.simulator import Simulator
    s, c = case['s'], case['c']
    y = np.array(s['m']['y'])
    solver = build_solver(s)
    solver.set_optimization_parameters(y)
    w = np.linspace(.1, 1, 4)

    def make(label):
        if c['kind'] == 'ff':
            return cf.OperatorFilterFunctionInfidelity(
                solver, lambda f: np.ones_like(f), w, label=label)
        if c['kind'] == 'norm':
            return cf.OperatorMatrixNorm(solver, op(np.eye(s['m']['d'])),
                                         mode=c['mode'], label=label)
        return build_cost(c, solver, s['kind'] == 'lindblad', label)

    default = make(None)
    if c['kind'] == 'norm' and abs(
            solver.forward_propagators[-1].data[0, 0]) < 1e-2 or (
            c['kind'] not in ('norm', 'ff')
            and not restricted_ok(c, RefSolver(s, y))):
        rec.nontrivial(False)
        return
    n = arr(default.costs()).size
    lab = default.label
    # one default name for the filter function infidelities of all operators
    k = 1 if c['kind'] == 'ff' and len(lab) == 1 else n
    require(isinstance(lab, list) and len(lab) == k and all(
        isinstance(v, str) and v for v in lab) and len(set(lab)) == k,
        'default names of %d costs (%s): %r' % (n, c['kind'], lab))
    own = case['names'][:n]
    cost = make(list(own))
    require(list(cost.label) == own, 'names %r instead of %r'
            % (cost.label, own))
    two = make(case['names'][n:2 * n])
    require(list(cost.label) == own and default.label == lab,
            'names changed by another cost function')
    sim = Simulator([solver], [cost, default, two])
    require(list(sim.cost_indices) == own + lab + case['names'][n:2 * n],
            'names %r' % (sim.cost_indices,))
    close(arr(sim.wrapped_cost_functions(y)).size, 3 * n, 'number of costs',
          0, 0)
    rec.label(c['kind'])
    rec.nontrivial(True)
