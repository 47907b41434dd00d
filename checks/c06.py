"""C06: solver results are those of the current parameters, at any history."""
from vlib.core import *
import copy
from vlib.solvers import *

META = dict(
    rule='Random histories of up to ten calls on one solver (closed, Monte '
         'Carlo, control-noise, open system): new parameters, parameters '
         'written in place into the array handed over before, repeated '
         'parameters, parameters and times in units over many orders of '
         'magnitude, rejected parameters of wrong shape, new time steps, '
         'pulse sequences, and queries of all results in any order; after '
         'every query the result is compared with a stateless reference of '
         'the current parameters. Non-trivial: a query follows a change of '
         'the parameters (or times) that itself followed an earlier query.',
    assumptions=['the trace generator returns fixed samples',
                 'the number of time steps is not changed by new times'])


@st.composite
def history(draw):
    s = draw(solver_spec(max_y=3, max_x=6, units=True, zero_steps=True))
    m = s['m']
    T, Y = m.get('T', 1.), m.get('Y', 1.)
    even = bool(m['tf'] and needs_even(m['tf']))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(['set', 'set', 'buf', 'same', 'bad', 'times',
                                  'ps', 'alter', 'alter', 'copy', 'twin',
                                  'spoil',
                                  'q', 'q', 'q', 'q', 'q']))
        if k in ('set', 'buf', 'ps'):
            ops.append([k, [[v * Y for v in r] for r in
                            draw(table(m['n'], m['p'], -12, 12))]])
        elif k == 'bad':
            ops.append([k, draw(st.sampled_from(['long', 'short', 'wide']))])
        elif k == 'times':
            tau = [v * T for v in draw(nums(m['n'], 1, 12))]
            ops.append([k, [tau[0]] * m['n'] if even else tau])
        elif k == 'q':
            ops.append([k, draw(st.sampled_from(QUERIES))])
        elif k == 'alter':
            # one value, one step, another order, another sign
            ops.append([k, draw(st.sampled_from(
                ['value', 'value', 'step', 'permute', 'sign', 'swap'])),
                draw(st.integers(0, m['n'] - 1)),
                draw(st.integers(0, m['p'] - 1)),
                draw(st.sampled_from([.5, -1., 1e-3, 1e-5])) * Y])
        elif k == 'spoil':
            ops.append([k, draw(st.sampled_from(QUERIES))])
        elif k in ('copy', 'twin'):
            ops.append([k, [[v * Y for v in r] for r in
                            draw(table(m['n'], m['p'], -12, 12))],
                        draw(st.sampled_from(QUERIES))])
        else:
            ops.append([k])
    ops.append(['q', draw(st.sampled_from(QUERIES))])
    return {'s': s, 'ops': ops}


def altered(y, how, i, j, by):
    y = y.copy()
    if how == 'value':
        y[i, j] += by
    elif how == 'step':
        y[i] += by
    elif how == 'permute':
        y = np.roll(y, 1 + i, axis=0)
    elif how == 'swap':
        y = y[:, ::-1].copy()
    else:
        y = -y
    return y


def spoil(s, solver, q):
    name = {'p': 'propagators', 'f': 'forward_propagators',
            'r': 'reversed_propagators',
            'd': 'frechet_deriv_propagators'}[q[0]]
    if q.endswith('n') and s['kind'] in ('mc', 'mcctrl'):
        name += '_noise'

    def walk(x):
        if isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
        else:
            x *= 2.
            x.data[...] += 1
    walk(getattr(solver, name))


@subcheck('history', history(), quick=900, thorough=20000, shards=5)
def run_history(case, rec):
    s = case['s']
    m = s['m']
    solver = build_solver(s)
    y = np.array(m['y'])
    tau = list(m['tau'])
    buf = y.copy()
    solver.set_optimization_parameters(buf)
    T, Y = m.get('T', 1.), m.get('Y', 1.)
    changed = queried = False
    hit = False
    others = []
    for i, o in enumerate(case['ops']):
        where = 'call %d: ' % i
        if o[0] == 'set':
            y = np.array(o[1])
            buf = y.copy()
            solver.set_optimization_parameters(buf)
            changed = queried
        elif o[0] == 'buf':
            # an optimizer that works in place
            y = np.array(o[1])
            buf[...] = y
            solver.set_optimization_parameters(buf)
            changed = queried
            rec.label('in-place')
        elif o[0] == 'alter':
            y = altered(y, *o[1:])
            buf = y.copy()
            solver.set_optimization_parameters(buf)
            changed = queried
            rec.label('altered')
        elif o[0] == 'copy':
            # two solvers from here on
            old, solver = solver, copy.deepcopy(solver)
            z = np.array(o[1])
            old.set_optimization_parameters(z.copy())
            check_query(s, old, RefSolver(s, z, tau), o[2],
                        where + 'copied solver: ')
            others.append((old, z, list(tau)))
            rec.label('copied')
        elif o[0] == 'twin':
            # another solver with the same amplitude function and noise
            over = {'amplitude_function': solver.amplitude_function}
            if 'noise' in s:
                over['noise_trace_generator'] = solver.noise_trace_generator
            old = build_solver(s, **over)
            z = np.array(o[1])
            old.set_optimization_parameters(z.copy())
            check_query(s, old, RefSolver(s, z), o[2], where + 'twin: ')
            others.append((old, z, list(m['tau'])))
            rec.label('twin')
        elif o[0] == 'spoil':
            # the caller works in place with the results, before the next
            # parameters
            spoil(s, solver, o[1])
            y = y + .5 * Y
            buf = y.copy()
            solver.set_optimization_parameters(buf)
            changed = queried
            rec.label('results used in place')
        elif o[0] == 'same':
            solver.set_optimization_parameters(y.copy())
        elif o[0] == 'bad':
            bad = {'long': np.vstack((y, y)),
                   'short': y[:-1],
                   'wide': np.hstack((y, y, y))}[o[1]]
            try:
                solver.set_optimization_parameters(bad)
            except Exception:
                rec.label('rejected')
            else:
                rec.label('accepted-odd')
                # a custom amplitude function may digest it: start over
                solver.set_optimization_parameters(y.copy())
        elif o[0] == 'times':
            tau = list(o[1])
            arg = list(tau) if m['tau_list'] else np.array(tau)
            solver.set_times(arg)
            arg[0] = 3 * arg[0]
            changed = queried
            rec.label('new times')
        elif o[0] == 'ps':
            if s['kind'] == 'lindblad':
                continue
            y = np.array(o[1])
            ps = solver.create_pulse_sequence(new_amps=y.copy())
            ref = RefSolver(s, y, tau)
            tot = np.eye(m['d'])
            for p in RefSolver({'kind': 'schroedinger', 'm': m}, y,
                               tau).props():
                tot = p @ tot
            close(ps.total_propagator, tot, where + 'total propagator of the '
                  'pulse sequence', atol=1e-7)
            close(ps.dt / T, ref.xt / T,
                  where + 'times of the pulse sequence')
            changed = queried
            rec.label('pulse sequence')
        else:
            ref = RefSolver(s, y, tau)
            check_query(s, solver, ref, o[1], where)
            close(solver.transferred_parameters / Y, ref.x / Y,
                  where + 'transferred parameters')
            close(solver.transferred_time / T, ref.xt / T,
                  where + 'durations')
            hit = hit or changed
            queried = True
    for old, z, t in others:
        check_query(s, old, RefSolver(s, z, t), case['ops'][-1][1],
                    'other solver: ')
    rec.label(s['kind'])
    rec.label('units', 'T' in m)
    rec.nontrivial(hit)


@st.composite
def given_case(draw):
    s = draw(solver_spec(max_y=3, max_x=6, tf=False, amp=False, units=True,
                         kinds=('schroedinger', 'mc', 'lindblad')))
    if 'noise' in s:
        s['noise']['naf'] = None
    m = s['m']
    Y = m.get('Y', 1.)
    return {'s': s, 'u': [[v * Y for v in r] for r in
                          draw(table(m['n'], m['p'], -12, 12))],
            'q': [draw(st.sampled_from(QUERIES)) for _ in range(4)],
            'flag': draw(st.sampled_from([None, True, False]))}


@subcheck('given_amplitudes', given_case(), quick=200, thorough=4000,
          shards=2)
def given_amplitudes(case, rec):
    """Amplitudes given at construction drive the solver until parameters are
    set."""
    s = case['s']
    u, y = np.array(case['u']), np.array(s['m']['y'])
    kw = {}
    if case['flag'] is not None and not (
            s['kind'] == 'lindblad' and case['flag']
            or s['m']['method'] == 'spectral' and not case['flag']):
        kw['is_skew_hermitian'] = case['flag']
    solver = build_solver(s, ctrl_amps=u.copy(), **kw)
    for q in case['q'][:2]:
        check_query(s, solver, RefSolver(s, u), q, 'given amplitudes: ')
    solver.set_optimization_parameters(y)
    for q in case['q'][2:]:
        check_query(s, solver, RefSolver(s, y), q, 'parameters: ')
    solver.set_optimization_parameters(u)
    check_query(s, solver, RefSolver(s, u), case['q'][0], 'again: ')
    rec.label(s['kind'])
    rec.nontrivial(not np.array_equal(u, y))


@st.composite
def layout_case(draw):
    s = draw(solver_spec(max_y=4, max_x=8))
    return {'s': s, 'how': draw(st.sampled_from(
        [k for k in LAYOUTS if k != 'big_endian'])),
        'how_h': draw(st.sampled_from([k for k in LAYOUTS if k not in (
            'float32', 'big_endian')])),
        'q': [draw(st.sampled_from(QUERIES)) for _ in range(3)]}


@subcheck('layouts', layout_case(), quick=150, thorough=3000, shards=2)
def layouts(case, rec):
    """Results depend on the numbers, not on how they are stored."""
    s, m = case['s'], case['s']['m']
    y = np.array(m['y'])
    how = case['how']
    if how == 'float32' and leaves_with(m['tf'], ('gauss', 'convolution')):
        how = 'fortran'         # filters keep the precision of the pulse
    kw = {'h_ctrl': [op(stored(to_herm(h), case['how_h']))
                     for h in m['h_ctrl']]}
    if m['amp']['kind'] != 'identity' or s['kind'] != 'schroedinger':
        # (noise amplitudes and custom functions see the array itself)
        how = 'fortran' if how == 'float32' else how
    solver = build_solver(s, **kw)
    z = stored(y, how)
    solver.set_optimization_parameters(z)
    ref = RefSolver(s, y)
    for q in case['q']:
        check_query(s, solver, ref, q, how + ': ')
    require(np.array_equal(z, y), 'the pulse changed')
    rec.label(how)
    rec.label(s['kind'])
    rec.nontrivial(y.size > 1 and np.ptp(y) > 0)


def leaves_with(t, kinds):
    if t is None:
        return False
    if t['kind'] in ('concat', 'parallel'):
        return leaves_with(t['t1'], kinds) or leaves_with(t['t2'], kinds)
    return t['kind'] in kinds
