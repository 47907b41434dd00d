"""C27: figures show the computed data."""
import matplotlib.pyplot as plt
import scipy.linalg as la
from vlib.core import *
from vlib.gen import *
from vlib.models import *
from qopt import energy_spectrum, plotting, noise
from qopt import solver_algorithms as sa
from qopt.analyser import Analyser
from qopt.data_container import DataContainer
from qopt.matrix import DenseOperator
from qopt.optimization_data import OptimizationResult, OptimizationSummary

META = dict(
    rule='Spectra of random (also degenerate) Hamiltonians, pulses through '
         'random filters with equal and unequal time steps, noise of random '
         'spectra, qubit evolutions and optimization histories are drawn on '
         'a non-interactive canvas; positions, heights, values, colours and '
         'labels are read from the figure and compared with explicit '
         'formulas. Non-trivial: more than one point, bar or curve.',
    assumptions=['matplotlib and qutip place what they are given.'])


def new_figs(fn):
    plt.close('all')
    out = fn()
    return out, [plt.figure(n) for n in plt.get_fignums()]


# ------------------------------------------------------------------ spectra
@st.composite
def energy_case(draw):
    d = draw(st.integers(2, 7))
    n = draw(st.integers(1, 5))
    return {'h': [draw(herm(d)) for _ in range(n)],
            'x': draw(nums(n)), 'own_ax': draw(st.booleans()),
            'colors': draw(st.booleans()), 'label': draw(st.sampled_from(
                ['x', 'Detuning (MHz)'])),
            'size': draw(st.sampled_from([None, 4., 30.])),
            'container': draw(st.sampled_from(['list', 'array']))}


@subcheck('energy_spectrum', energy_case(), quick=100, shards=2)
def energy(case, rec):
    """Every eigenvalue is drawn over its x value; its colour mixes the
    colours of the basis vectors by their contributions."""
    hs = [to_herm(h) for h in case['h']]
    d = hs[0].shape[0]
    x = case['x'] if case['container'] == 'list' else np.array(case['x'])
    kw = {} if case['size'] is None else {'s': case['size']}
    if not case['colors']:
        kw['use_spectral_decomposition'] = False
    plt.close('all')
    own = plt.subplots()[1] if case['own_ax'] else None
    ax = energy_spectrum.plot_energy_spectrum(
        [DenseOperator(h) for h in hs], x, case['label'],
        **({} if own is None else {'ax': own}), **kw)
    require(own is None or ax is own, 'drawn into other axes')
    require(ax.get_xlabel() == case['label'], 'label %r' % ax.get_xlabel())
    pts, cols = [], []
    for c in ax.collections:
        off = np.asarray(c.get_offsets(), dtype=float)
        fc = np.asarray(c.get_facecolors())
        pts.append(off)
        cols.append(np.broadcast_to(fc, (len(off), 4)))
        if case['size'] is not None:
            close(c.get_sizes(), np.full(len(c.get_sizes()), case['size']),
                  'size of the points')
    pts, cols = np.concatenate(pts), np.concatenate(cols)
    require(len(pts) == d * len(hs), '%d points for %d eigenvalues' % (
        len(pts), d * len(hs)))
    vals = [np.linalg.eigh(h) for h in hs]
    want = sorted((case['x'][i], w) for i, (ws, _) in enumerate(vals)
                  for w in ws)
    order = np.lexsort((np.round(pts[:, 1], 9), pts[:, 0]))
    got = pts[order]
    want = np.array(sorted(want, key=lambda p: (p[0], round(p[1], 9))))
    close(got, want, 'points')
    base = plt.get_cmap('brg')(np.linspace(0, 1, d))[:, :3]
    clear = 0
    for i, (ws, vs) in enumerate(vals):
        if case['x'].count(case['x'][i]) > 1:
            continue
        mine = [k for k in range(len(pts)) if pts[k, 0] == case['x'][i]]
        for j, w in enumerate(ws):
            if np.min(np.abs(np.delete(ws, j) - w)) < 1e-3:
                continue
            k = min(mine, key=lambda k: abs(pts[k, 1] - w))
            if case['colors']:
                mix = np.abs(vs[:, j]) @ base
                close(cols[k, :3], mix / mix.max(), 'colour of energy %g' % w,
                      1e-6, 0)
            else:
                close(cols[k, :3], np.zeros(3), 'black', 1e-6, 0)
            clear += 1
    rec.label('colours', case['colors'])
    rec.nontrivial(clear > 1)


# ------------------------------------------------------------------- pulses
@st.composite
def pulse_case(draw):
    n, p = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    t = draw(any_tf(n, p))
    even = needs_even(t) or draw(st.integers(0, 2)) == 0
    if even and not even_ok(t):
        t = {'kind': 'oversampling', 'p': p, 'ov': 2, 'bound': ['n', 1]}
    yt = [draw(num(1, 16))] * n if even else draw(nums(n, 1, 16))
    return {'tf': t, 'yt': yt, 'y': draw(table(n, p)),
            'labels': draw(st.booleans())}


def bars(t, yt, y):
    """(left edges, widths, heights) of the input and the output as drawn"""
    if t['kind'] == 'concat':
        r = RefTF(t['t1'], yt)
        return bars(t['t2'], r.xt, apply_ref(r, y))
    r = RefTF(t, yt)
    while t['kind'] == 'parallel':
        t = t['t1']
    start = r.xt[:pads(t.get('bound'), t.get('ov', 1))[0]].sum()
    yt = np.asarray(yt)
    return ((np.cumsum(yt) - yt + start, yt, y),
            (np.cumsum(r.xt) - r.xt, r.xt, apply_ref(r, y)))


def apply_ref(r, y):
    return np.tensordot(r.L, y, axes=([2, 3], [0, 1])) + r.c


@subcheck('pulse', pulse_case(), quick=70, shards=2)
def pulse(case, rec):
    """Every step of the raw and of the transferred pulse is one bar."""
    tf = build_tf(case['tf']) if case['tf']['kind'] != 'parallel' else None
    yt = np.array(case['yt'])
    if tf is None:
        tf = parallel_of(case['tf'], yt)
    tf.set_times(yt)
    y = np.array(case['y'])
    keep = y.copy()
    has_labels = case['labels'] and case['tf']['kind'] != 'concat'
    kw = {'xlabel': 'ns', 'ylabel': 'mV'} if has_labels else {}
    out, figs = new_figs(lambda: tf.plot_pulse(y, **kw))
    close(y, keep, 'the pulse was changed', 0, 0)
    want = bars(case['tf'], yt, y)
    p = y.shape[1]
    require(len(figs) == p, '%d figures for %d controls' % (len(figs), p))
    for k, f in enumerate(figs):
        require(len(f.axes) == 1, 'axes')
        for fill, (left, width, height) in ((False, want[0]),
                                            (True, want[1])):
            ps = [q for q in f.axes[0].patches if q.get_fill() == fill]
            what = 'control %d, %s pulse: ' % (k, 'transferred' if fill
                                               else 'raw')
            close([q.get_width() for q in ps], width, what + 'widths')
            close([q.get_x() for q in ps], left, what + 'positions')
            close([q.get_y() + q.get_height() for q in ps], height[:, k],
                  what + 'heights')
    if has_labels:
        ax = figs[-1].axes[0]
        require((ax.get_xlabel(), ax.get_ylabel()) == ('ns', 'mV'), 'labels')
    rec.label(case['tf']['kind'])
    rec.label('unequal steps', len(set(case['yt'])) > 1)
    rec.nontrivial(len(want[1][0]) > 1)


def parallel_of(t, yt):
    """the parts must know their times when they are put in parallel"""
    from qopt import transfer_function as q
    a, b = build_tf(t['t1']), build_tf(t['t2'])
    a.set_times(yt)
    b.set_times(yt)
    return (q.ParallelMTF if t['matrix'] else q.ParallelTF)(a, b)


# -------------------------------------------------------------- periodogram
@subcheck('periodogram', st.fixed_dictionaries({
    'n': st.integers(20, 120), 'avg': st.integers(20, 60),
    'dt': st.sampled_from([.125, 1., 2.5, 1e-3]),
    'white': num(1, 16), 'pink': num(0, 16),
    'scaling': st.sampled_from([None, 'density', 'spectrum']),
    'log': st.sampled_from([None, 'semilogy', 'semilogx', 'loglog']),
    'draw': st.booleans(), 'seed': st.integers(0, 10 ** 6)}),
    quick=40, shards=1)
def periodogram(case, rec):
    """The drawn periodogram follows the spectrum; the returned number is the
    distance of the two curves."""
    n, dt = case['n'], case['dt']

    def psd(f):
        f = np.asarray(f, dtype=float)
        return case['white'] + case['pink'] / (1 + (f * dt * n) ** 2)

    def make():
        np.random.seed(case['seed'])
        return noise.NTGColoredNoise(n_samples_per_trace=n, dt=dt,
                                     noise_spectral_density=psd)
    kw = {} if case['scaling'] is None else {'scaling': case['scaling']}
    if case['log']:
        kw['log_plot'] = case['log']
    dev, figs = new_figs(lambda: make().plot_periodogram(case['avg'], **kw))
    require(len(figs) == 1, '%d figures' % len(figs))
    ax = figs[0].axes[0]
    ls = ax.get_lines()
    require(len(ls) == 2, '%d curves' % len(ls))
    scales = {None: ('linear', 'linear'), 'semilogy': ('linear', 'log'),
              'semilogx': ('log', 'linear'), 'loglog': ('log', 'log')}
    require((ax.get_xscale(), ax.get_yscale()) == scales[case['log']],
            'scales %s, %s' % (ax.get_xscale(), ax.get_yscale()))
    f = np.arange(n // 2 + 1) / (n * dt)
    for line in ls:
        close(line.get_xdata(), f, 'frequencies')
    names = [t.get_text() for t in ax.get_legend().get_texts()]
    require(names == ['Periodogram', 'Spectral Noise Density'], str(names))
    got, ref = (np.asarray(line.get_ydata(), dtype=float) for line in ls)
    close(ref, psd(f), 'spectral density')
    close(dev, np.linalg.norm(got[1:-1] - ref[1:-1]), 'deviation',
          shape=False)
    expected = psd(f) * (1 / (n * dt) if case['scaling'] == 'spectrum' else 1)
    ratio = (got / expected)[1:-1]
    tol = 8 / np.sqrt(case['avg'] * len(ratio))
    require(abs(ratio.mean() - 1) < tol, 'the periodogram is %g times the '
            'spectrum (tolerance %g)' % (ratio.mean(), tol))
    if not case['draw']:
        again, figs = new_figs(lambda: make().plot_periodogram(
            case['avg'], draw_plot=False, **kw))
        require(not figs, 'drawn against the request')
        close(again, dev, 'deviation without drawing', 1e-9, 1e-9)
    rec.label(case['scaling'])


# -------------------------------------------------------------- Bloch sphere
@st.composite
def bloch_case(draw):
    n = draw(st.integers(1, 4))
    p = draw(st.integers(1, 2))
    return {'drift': draw(herm(2)), 'ctrl': [draw(herm(2)) for _ in range(p)],
            'y': draw(table(n, p)), 'tau': draw(nums(n, 1, 16)),
            'ket': draw(cmat(2, 1)), 'set_first': draw(st.booleans()),
            'ret': draw(st.booleans())}


def bloch_of(v):
    x, y, z = PAULI[1:]
    return np.array([np.real(v.conj().T @ s @ v).item() for s in (x, y, z)])


def steps(case):
    h0 = to_herm(case['drift'])
    hs = [to_herm(h) for h in case['ctrl']]
    return [h0 + sum(u * h for u, h in zip(row, hs)) for row in case['y']]


def qubit_solver(case):
    return sa.SchroedingerSolver(
        h_drift=[DenseOperator(to_herm(case['drift']))],
        h_ctrl=[DenseOperator(to_herm(h)) for h in case['ctrl']],
        tau=case['tau'])


@subcheck('bloch_vectors', bloch_case(), quick=15, shards=2)
def bloch_vectors(case, rec):
    s = qubit_solver(case)
    s.set_optimization_parameters(np.array(case['y']))
    ket = to_c(case['ket'])
    if not np.any(ket):
        ket[0] = 1
    ket = ket / np.linalg.norm(ket)
    b = plotting.plot_bloch_vector_evolution(
        s.forward_propagators, DenseOperator(ket), return_bloch=True)
    pts = np.concatenate([np.reshape(np.asarray(q, dtype=float), (3, -1))
                          for q in b.points], axis=1)
    want = [bloch_of(ket)]
    v = ket
    for h, t in zip(steps(case), case['tau']):
        v = la.expm(-1j * h * t) @ v
        want.append(bloch_of(v))
    close(pts, np.array(want).T, 'Bloch vectors')
    require(plotting.plot_bloch_vector_evolution(
        s.forward_propagators, DenseOperator(ket)) is None or case['ret'],
        'returned without request')
    must_raise(ValueError, lambda: plotting.plot_bloch_vector_evolution(
        [DenseOperator(np.eye(3))], DenseOperator(np.eye(3)[:, :1])),
        'a three dimensional system')
    rec.nontrivial(np.max(np.abs(np.array(want) - want[0])) > .05)


@subcheck('bloch_sphere', bloch_case(), quick=12, shards=2)
def bloch_sphere(case, rec):
    s = qubit_solver(case)
    y = np.array(case['y'])
    if case['set_first']:
        s.set_optimization_parameters(y)
        b = s.plot_bloch_sphere(return_Bloch=True)
    else:
        s.set_optimization_parameters(y + 1)
        b = s.plot_bloch_sphere(new_amps=y, return_Bloch=True)
    paths_ = [np.asarray(c._segments3d) for c in b.axes.collections
              if hasattr(c, '_segments3d')]
    paths_ = [q for q in paths_ if len(q) == 499]
    require(len(paths_) == 1, 'no trajectory')
    total_t = sum(case['tau'])
    edges = np.concatenate(([0], np.cumsum(case['tau'])))
    hs = steps(case)
    props = [np.eye(2, dtype=complex)]
    for h, t in zip(hs, case['tau']):
        props.append(la.expm(-1j * h * t) @ props[-1])
    want = []
    for t in np.linspace(0, total_t, 500):
        k = min(int(np.searchsorted(edges, t, side='right')) - 1,
                len(hs) - 1)
        u = la.expm(-1j * hs[k] * (t - edges[k])) @ props[k]
        x, yy, z = bloch_of(u[:, :1])
        want.append([yy, -x, z])     # the axes of qutip
    want = np.array(want)
    close(paths_[0][:, 0], want[:-1], 'trajectory', 1e-6, 1e-6)
    close(paths_[0][:, 1], want[1:], 'trajectory', 1e-6, 1e-6)
    close(s.propagators[-1].data, la.expm(-1j * hs[-1] * case['tau'][-1]),
          'the solver shows other parameters')
    require(s.plot_bloch_sphere() is None or case['ret'], 'returned without '
            'request')
    rec.nontrivial(np.max(np.abs(want - want[0])) > .05)


# -------------------------------------------------------------------- costs
@st.composite
def costs_case(draw):
    k = draw(st.integers(1, 3))
    return {'k': k, 'runs': [
        [draw(nums(k, 1, 64)) for _ in range(draw(st.integers(1, 6)))]
        for _ in range(draw(st.integers(1, 4)))],
        'n': draw(st.integers(0, 3)), 'log': draw(st.sampled_from(
            [None, True, False])), 'own': draw(st.booleans())}


@subcheck('costs', costs_case(), quick=40)
def costs(case, rec):
    names = ['cost %d' % i for i in range(case['k'])]
    data = DataContainer()
    for r in case['runs']:
        data.append_optim_result(OptimizationResult(
            final_cost=np.array(r[-1]), indices=names,
            final_parameters=np.zeros((1, 1)), optim_summary=
            OptimizationSummary(indices=names, costs=[np.array(c) for c in r],
                                parameters=[np.zeros((1, 1))] * len(r))))
    a = Analyser(data)
    n = case['n'] % len(case['runs'])
    kw = {} if case['log'] is None else {'log_y': case['log']}
    if n:
        kw['n'] = n
    plt.close('all')
    own = plt.subplots()[1] if case['own'] else None
    if own is not None:
        kw['ax'] = own
    ax = a.plot_costs(**kw)
    require(own is None or ax is own, 'drawn into other axes')
    require(ax.get_yscale() == ('linear' if case['log'] is False else 'log'),
            'scale ' + ax.get_yscale())
    ls = ax.get_lines()
    require(len(ls) == case['k'], '%d curves' % len(ls))
    for j, line in enumerate(ls):
        close(line.get_ydata(), [c[j] for c in case['runs'][n]], 'costs')
        close(line.get_xdata(), np.arange(len(case['runs'][n])), 'iteration')
        require(line.get_label() == names[j], 'label')
    fig, ax = a.plot_absolute_costs()
    require(ax in fig.axes, 'axes of another figure')
    require(ax.get_yscale() == 'log', 'scale')
    ls = ax.get_lines()
    require(len(ls) == len(case['runs']), '%d curves for %d runs' % (
        len(ls), len(case['runs'])))
    for r, line in zip(case['runs'], ls):
        y = np.asarray(line.get_ydata(), dtype=float)
        close(y[~np.isnan(y)], np.linalg.norm(np.array(r), axis=1),
              'absolute costs')
    rec.nontrivial(len(case['runs']) > 1 or case['k'] > 1)


# ------------------------------------------------------- large amounts of data
big = st.one_of(st.integers(20, 90), st.integers(90, 300),
                st.integers(300, 700))


@subcheck('long_bloch', st.fixed_dictionaries({
    'n': big, 'ket': cmat(2, 1), 'seed': st.integers(0, 10 ** 6)}),
    quick=6, shards=2)
def long_bloch(case, rec):
    """Every one of many propagators has its vector."""
    rng = np.random.default_rng(case['seed'])
    ket = to_c(case['ket'])
    if not np.any(ket):
        ket[0] = 1
    ket = ket / np.linalg.norm(ket)
    us, v, want = [], ket, [bloch_of(ket)]
    for _ in range(case['n']):
        g = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
        u = la.expm(-.1j * (g + g.conj().T))
        v = u @ v
        want.append(bloch_of(v))
        us.append(u if not us else u @ us[-1])
    b = plotting.plot_bloch_vector_evolution(
        [DenseOperator(u) for u in [np.eye(2)] + us], DenseOperator(ket),
        return_bloch=True)
    pts = np.concatenate([np.reshape(np.asarray(q, dtype=float), (3, -1))
                          for q in b.points], axis=1)
    close(pts, np.array(want).T, 'Bloch vectors')
    plt.close('all')
    rec.nontrivial(True)


@subcheck('many_energies', st.fixed_dictionaries({
    'n': big, 'd': st.integers(2, 12), 'seed': st.integers(0, 10 ** 6),
    'order': st.sampled_from(['up', 'down', 'mixed'])}),
    quick=4, shards=2)
def many_energies(case, rec):
    rng = np.random.default_rng(case['seed'])
    n, d = case['n'], case['d']
    n = min(n, 2000 // d)
    hs = [g + g.conj().T for g in rng.normal(size=(n, d, d))
          + 1j * rng.normal(size=(n, d, d))]
    x = rng.permutation(n) / 8 - 3
    if case['order'] != 'mixed':
        x = np.sort(x)[::1 if case['order'] == 'up' else -1]
    plt.close('all')
    ax = energy_spectrum.plot_energy_spectrum(
        [DenseOperator(h) for h in hs], x, 'x')
    pts = np.concatenate([np.asarray(c.get_offsets(), dtype=float)
                          for c in ax.collections])
    plt.close('all')
    want = np.array([(a, w) for a, h in zip(x, hs)
                     for w in np.linalg.eigvalsh(h)])
    require(len(pts) == len(want), '%d points for %d eigenvalues' % (
        len(pts), len(want)))
    srt = lambda q: q[np.lexsort((q[:, 1], np.round(q[:, 0], 6)))]
    close(srt(pts), srt(want), 'points')
    rec.nontrivial(True)


@subcheck('long_pulse', st.fixed_dictionaries({
    'n': big, 'p': st.integers(1, 12), 'ov': st.integers(1, 5),
    'even': st.booleans(), 'seed': st.integers(0, 10 ** 6)}),
    quick=4, shards=2)
def long_pulse(case, rec):
    from qopt import transfer_function as q
    rng = np.random.default_rng(case['seed'])
    p, ov = case['p'], case['ov']
    n = min(case['n'], 1500 // (p * ov))
    yt = np.full(n, .5) if case['even'] else rng.uniform(.1, 2, n)
    y = rng.normal(size=(n, p))
    tf = q.OversamplingTF(num_ctrls=p, oversampling=ov)
    tf.set_times(yt)
    _, figs = new_figs(lambda: tf.plot_pulse(y))
    require(len(figs) == p, '%d figures for %d controls' % (len(figs), p))
    raw = (np.cumsum(yt) - yt, yt, y)
    xt = np.repeat(yt / ov, ov)
    out = (np.cumsum(xt) - xt, xt, np.repeat(y, ov, axis=0))
    for k, f in enumerate(figs):
        for fill, (left, width, height) in ((False, raw), (True, out)):
            ps = [b for b in f.axes[0].patches if b.get_fill() == fill]
            close([b.get_width() for b in ps], width, 'widths')
            close([b.get_x() for b in ps], left, 'positions')
            close([b.get_y() + b.get_height() for b in ps], height[:, k],
                  'heights')
    plt.close('all')
    rec.nontrivial(True)


@subcheck('long_costs', st.fixed_dictionaries({
    'k': st.integers(1, 8), 'runs': st.integers(1, 40),
    'n': st.integers(2, 400), 'pick': st.integers(0, 39),
    'seed': st.integers(0, 10 ** 6)}), quick=6, shards=1)
def long_costs(case, rec):
    rng = np.random.default_rng(case['seed'])
    names = ['cost %d' % i for i in range(case['k'])]
    lens = rng.integers(1, case['n'] + 1, size=case['runs'])
    lens[rng.integers(case['runs'])] = case['n']
    runs = [np.exp(rng.normal(size=(m, case['k']), scale=3)) for m in lens]
    data = DataContainer()
    for r in runs:
        data.append_optim_result(OptimizationResult(
            final_cost=r[-1], indices=names,
            final_parameters=np.zeros((1, 1)), optim_summary=
            OptimizationSummary(indices=names, costs=list(r),
                                parameters=[np.zeros((1, 1))] * len(r))))
    a = Analyser(data)
    n = case['pick'] % case['runs']
    plt.close('all')
    ls = a.plot_costs(n=n).get_lines()
    require(len(ls) == case['k'], '%d curves' % len(ls))
    for j, line in enumerate(ls):
        close(line.get_ydata(), runs[n][:, j], 'costs')
        close(line.get_xdata(), np.arange(len(runs[n])), 'iteration')
    plt.close('all')
    _, ax = a.plot_absolute_costs()
    ls = ax.get_lines()
    require(len(ls) == len(runs), '%d curves for %d runs' % (
        len(ls), len(runs)))
    for r, line in zip(runs, ls):
        y = np.asarray(line.get_ydata(), dtype=float)
        close(y[~np.isnan(y)], np.linalg.norm(r, axis=1), 'absolute costs')
    plt.close('all')
    rec.nontrivial(True)
