"""C26: stored data and their analysis."""
import copy
import os
import shutil
import tempfile
from vlib.core import *
from vlib.gen import *
from qopt.data_container import DataContainer
from qopt.optimization_data import OptimizationResult, OptimizationSummary
from qopt.performance_statistics import PerformanceStatistics
from qopt.analyser import Analyser

META = dict(
    rule='Histories of appending results (with and without history, '
         'statistics, single or several costs, pulses of any shape), storing '
         'and loading, deep copies, dictionaries, continued after each of '
         'them. Compared with a plain list of records. Non-trivial: at '
         'least two results and one conversion.',
    assumptions=['Files are written to a temporary directory.'])


@st.composite
def result_of(draw, k, scalar, unit=1.):
    t, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    n = draw(st.sampled_from([0, 1, 2, 4]))
    return {
        'final': [unit * v for v in draw(nums(1 if scalar else k, -16, 32))],
        'par': draw(table(t, c)), 'init': draw(st.one_of(
            st.none(), table(t, c))),
        'n': n, 'costs': [[unit * v for v in draw(nums(k, 0, 40))]
                          for _ in range(n)],
        'pars': [draw(table(t, c)) for _ in range(n)],
        'summary': draw(st.booleans()),
        'status': draw(st.sampled_from([None, -1, 0, 1, 2, 3, 4, 5])),
        'grad': draw(st.sampled_from([None, 0., .5])),
        'reason': draw(st.sampled_from(['done', 'Maximum Wall Time'])),
        'iter': draw(st.integers(0, 20)),
        't0': draw(st.integers(0, 100)) / 8,
        'dt': draw(st.integers(1, 100)) / 8,
        'f_times': draw(table(draw(st.integers(0, 3)), k, 0, 16)),
        'g_times': draw(table(draw(st.integers(0, 3)), k, 0, 16))}


@st.composite
def store_case(draw):
    k = draw(st.integers(1, 3))
    scalar = draw(st.booleans())
    unit = draw(st.sampled_from([1., 1., 2. ** -30, 2. ** 30]))
    results = draw(st.lists(result_of(k, scalar, unit), min_size=1,
                            max_size=5))
    stats = draw(st.booleans())
    ops = []
    for i in range(len(results)):
        ops.append(['append', i])
        for _ in range(draw(st.integers(0, 2))):
            ops.append([draw(st.sampled_from(
                ['file', 'default_file', 'deepcopy', 'copy_and_continue',
                 'dict', 'wrong', 'lists'])), i])
    return {'k': k, 'scalar': scalar, 'results': results, 'ops': ops,
            'unit': unit,
            'stats': stats, 'names': draw(st.booleans()),
            'append_time': draw(st.booleans()),
            'name': draw(st.sampled_from(['data.pickle', None, 'no suffix']))}


@st.composite
def large_case(draw):
    """Many results, long histories, many costs."""
    b = Bulk(draw(st.integers(0, 2 ** 31)))
    k = draw(st.sampled_from([1, 2, 3, 12]))
    scalar = draw(st.booleans())
    t, c = draw(st.integers(1, 8)), draw(st.integers(1, 12))
    lengths = [0, 1, 3, 20] if draw(st.booleans()) else [1, 60, 150]
    n_res = draw(st.sampled_from([8, 11, 25, 40]))
    results = []
    for i in range(n_res):
        n = int(b.rng.choice(lengths))
        results.append({
            'final': b.nums(1 if scalar else k, -16, 32),
            'par': b.table(t, c), 'init': b.table(t, c),
            'n': n, 'costs': [b.nums(k, 0, 40) for _ in range(n)],
            'pars': [b.table(t, c) for _ in range(n)],
            'summary': bool(b.rng.randint(0, 8)),
            'status': int(b.rng.randint(-1, 6)), 'grad': .5,
            'reason': 'done', 'iter': n, 't0': float(i), 'dt': i / 8 + 1,
            'f_times': b.table(n % 7, k, 0, 16),
            'g_times': b.table(n % 5, k, 0, 16)})
    ops = []
    for i in range(n_res):
        ops.append(['append', i])
        if b.rng.randint(0, 8) == 0:
            ops.append([str(b.rng.choice(
                ['file', 'default_file', 'deepcopy', 'copy_and_continue',
                 'dict', 'wrong', 'lists'])), i])
    return {'k': k, 'scalar': scalar, 'results': results, 'ops': ops,
            'stats': draw(st.booleans()), 'names': draw(st.booleans()),
            'append_time': draw(st.booleans()),
            'name': draw(st.sampled_from(['data.pickle', None, 'no suffix']))}


def make_result(r, case, names):
    summ = None
    if r['summary']:
        summ = OptimizationSummary(
            indices=names, iter_num=r['n'],
            costs=[np.array(c) for c in r['costs']],
            parameters=[np.array(p) for p in r['pars']],
            gradients=[np.array(p)[:, None, :] for p in r['pars'][:1]])
    stats = None
    if case['stats']:
        stats = PerformanceStatistics()
        stats.start_t_opt = r['t0']
        stats.end_t_opt = r['t0'] + r['dt']
        stats.indices = names
        stats.cost_func_eval_times = [list(t) for t in r['f_times']]
        stats.grad_func_eval_times = [list(t) for t in r['g_times']]
    return OptimizationResult(
        final_cost=r['final'][0] if case['scalar'] else np.array(r['final']),
        indices=names, final_parameters=np.array(r['par']),
        final_grad_norm=r['grad'],
        init_parameters=None if r['init'] is None else np.array(r['init']),
        num_iter=r['iter'], termination_reason=r['reason'],
        status=r['status'], optimization_stats=stats, optim_summary=summ)


def compare(data, model, case, names, what):
    require(len(data) == len(model), '%s: length %d, expected %d' % (
        what, len(data), len(model)))
    for f in ('final_costs', 'init_parameters', 'final_parameters', 'costs',
              'parameters', 'status', 'optimization_statistics'):
        require(len(getattr(data, f)) == len(model), '%s: %d %s for %d '
                'results' % (what, len(getattr(data, f)), f, len(model)))
    require(list(data.indices) == (names if model else []), what + ': names')
    require(list(data.index) == list(data.indices), what + ': index')
    for i, r in enumerate(model):
        w = '%s: result %d: ' % (what, i)
        close(data.final_costs[i], r['final'], w + 'final costs', 0, 0,
              shape=False)
        close(data.final_parameters[i], np.array(r['par']),
              w + 'final parameters', 0, 0)
        if r['init'] is None:
            require(data.init_parameters[i] is None, w + 'initial parameters')
        else:
            close(data.init_parameters[i], np.array(r['init']),
                  w + 'initial parameters', 0, 0)
        require(data.status[i] == r['status'], w + 'status')
        n = r['n'] if r['summary'] else 0
        require(len(data.costs[i]) == n == len(data.parameters[i]),
                w + 'length of the history')
        for j in range(n):
            close(data.costs[i][j], np.array(r['costs'][j]), w + 'costs', 0,
                  0)
            close(data.parameters[i][j], np.array(r['pars'][j]),
                  w + 'parameters', 0, 0)
        s = data.optimization_statistics[i]
        if case['stats']:
            require(s.start_t_opt == r['t0']
                    and s.end_t_opt == r['t0'] + r['dt']
                    and list(s.indices) == names
                    and s.cost_func_eval_times == r['f_times']
                    and s.grad_func_eval_times == r['g_times'],
                    w + 'statistics')
        else:
            require(s is None, w + 'statistics')


def total(table_, k):
    return np.array(table_).sum(axis=0) if table_ else np.zeros(1)


def analysis(data, model, case, names):
    a = Analyser(data)
    sq = [np.sum(np.square(r['final'])) for r in model]
    n = a.n_least_square
    require(isinstance(n, int) and 0 <= n < len(model)
            and sq[n] <= min(sq) * (1 + 1e-12), 'best run %r, squared costs '
            '%r' % (n, sq))
    runs = [r['costs'] if r['summary'] else [] for r in model]
    longest = max(len(c) for c in runs)
    got = arr(a.absolute_costs())
    require(got.shape == (len(model), longest), 'shape of the absolute costs '
            '%r' % (got.shape,))
    for i, c in enumerate(runs):
        if c:
            u = case.get('unit', 1.)
            close(got[i, :len(c)] / u,
                  np.linalg.norm(np.array(c), axis=1) / u,
                  'absolute costs of run %d' % i)
        require(np.all(np.isnan(got[i, len(c):])), 'absolute costs after the '
                'end of run %d: %s' % (i, got[i].tolist()))
    for i, c in enumerate(runs):
        if not c:
            continue
        ax = a.plot_costs(i, log_y=False)
        lines = ax.get_lines()
        require(len(lines) == case['k'], '%d lines for %d costs' % (
            len(lines), case['k']))
        for j, line in enumerate(lines):
            u = case.get('unit', 1.)
            close(np.asarray(line.get_ydata(), dtype=float) / u,
                  np.array(c)[:, j] / u, 'plotted costs %d' % j)
            require(line.get_label() == names[j], 'label %r'
                    % line.get_label())
        import matplotlib.pyplot as plt
        plt.close('all')
        break
    if case['stats']:
        k = case['k']
        ft = [total(r['f_times'], k) for r in model]
        gt = [total(r['g_times'], k) for r in model]
        for i in range(len(model)):
            close(a.integral_cost_fkt_times(i), ft[i], 'times of the cost '
                  'functions of run %d' % i, shape=bool(model[i]['f_times']))
            close(a.integral_grad_fkt_times(i), gt[i], 'times of the '
                  'gradients of run %d' % i, shape=bool(model[i]['g_times']))
        if model:
            close(a.integral_cost_fkt_times(), ft[0], 'times of the cost '
                  'functions of the first run', shape=False)
            close(a.integral_grad_fkt_times(), gt[0], 'times of the '
                  'gradients of the first run', shape=False)
        dts = np.array([r['dt'] for r in model])
        close(a.opt_times(), dts, 'times of the optimizations')
        fs, gs = sum(np.sum(f) for f in ft), sum(np.sum(g) for g in gt)
        close(a.total_cost_fkt_time(), fs, 'total time of the costs',
              shape=False)
        close(a.total_grad_fkt_time(), gs, 'total time of the gradients',
              shape=False)
        close(a.time_share_cost_fkt(), fs / dts.sum(), 'time share',
              shape=False)
        close(a.time_share_grad_fkt(), gs / dts.sum(), 'time share of the '
              'gradients', shape=False)


@subcheck('store', store_case(), quick=400, thorough=8000, shards=4)
def store(case, rec):
    names = ['cost %d' % i for i in range(case['k'])] if case['names'] else \
        ['a'] * case['k']
    tmp = tempfile.mkdtemp(prefix='c26_')
    try:
        ap = case.get('append_time', True)
        # without a name, the file is the storage path itself
        name = case.get('name', 'data.pickle')
        home = tmp if name else os.path.join(tmp, 'whole.path')
        saved = os.path.join(tmp, name) if name else home
        data = DataContainer(storage_path=home, file_name=name,
                             append_time_to_path=ap)
        model = []
        conv = 0
        others = []
        compare(data, model, case, names, 'empty')
        for what, i in case['ops']:
            r = case['results'][i]
            if what == 'append':
                res = make_result(r, case, list(names))
                data.append_optim_result(res)
                model.append(r)
            elif what == 'file':
                path = os.path.join(tmp, 'f %d.p' % i)
                if i % 2:
                    path = os.path.join(tmp, 'folder', 'f')
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                data.to_pickle(path)
                if i == 2:
                    path, old = os.path.join(tmp, 'moved'), path
                    os.replace(old, path)
                data = DataContainer.from_pickle(path)
                conv += 1
            elif what == 'default_file':
                data.to_pickle()
                data = DataContainer.from_pickle(saved)
                conv += 1
            elif what == 'deepcopy':
                # the original is changed, the copy must not be
                old, data = data, copy.deepcopy(data)
                require(type(data) is DataContainer and data is not old,
                        'deep copy')
                old.append_optim_result(make_result(r, case, list(names)))
                old.final_parameters[0][:] = 99.
                old.status[0] = 99
                old.indices.append('renamed')
                if old.costs[0]:
                    old.costs[0][0][:] = 99.
                    old.parameters[0].append('more')
                conv += 1
            elif what == 'copy_and_continue':
                others.append((copy.deepcopy(data), list(model)))
                conv += 1
            elif what == 'dict':
                res = make_result(r, case, list(names))
                d = res.to_dict()
                new = OptimizationResult.from_dict(d)
                for f in vars(res):
                    x, y = getattr(res, f), getattr(new, f)
                    require(x is y or np.array_equal(x, y),
                            'OptimizationResult.%s is %r after the conversion'
                            ' to a dictionary and back, expected %r'
                            % (f, y, x))
            elif what == 'wrong':
                bad = make_result(r, case, names + ['another'])
                must_raise((AssertionError, ValueError), lambda:
                           data.append_optim_result(bad), 'other costs')
            elif what == 'lists':
                data = DataContainer(
                    storage_path=home, file_name=name,
                    indices=list(data.indices), append_time_to_path=ap,
                    final_costs=list(data.final_costs),
                    init_parameters=list(data.init_parameters),
                    final_parameters=list(data.final_parameters),
                    costs=list(data.costs), parameters=list(data.parameters),
                    status=list(data.status),
                    optimization_stats=list(data.optimization_statistics))
                conv += 1
            if what != 'append' or len(model) < 6:
                compare(data, model, case, names, 'after ' + what)
            require((data.storage_path, data.file_name,
                     data.append_time_to_path) == (home, name, ap),
                    'after %s: file name and options of the container: %r'
                    % (what, (data.storage_path, data.file_name,
                              data.append_time_to_path)))
            for d, m in others:
                compare(d, m, case, names, 'copy after ' + what)
        compare(data, model, case, names, 'finally')
        analysis(data, model, case, names)
        # two fresh containers share nothing
        a, b = DataContainer(), DataContainer()
        a.append_optim_result(make_result(case['results'][0], case, names))
        require(len(b) == 0 and not b.final_costs and not b.status
                and not b.indices, 'containers share their data')
        rec.label('with files', any('file' in o[0] for o in case['ops']))
        rec.label('scalar', case['scalar'])
        rec.nontrivial(len(model) > 1 and conv)
    finally:
        shutil.rmtree(tmp)


@subcheck('large', large_case(), quick=20, thorough=500, shards=4)
def large(case, rec):
    store(case, rec)


@subcheck('summary', st.fixed_dictionaries({
    'n': st.integers(0, 3), 'k': st.integers(1, 2)}), quick=30, thorough=100)
def summary(case, rec):
    """Histories are independent of each other."""
    a, b = OptimizationSummary(), OptimizationSummary(indices=['x'])
    for i in range(case['n']):
        a.costs.append(np.zeros(case['k']))
        a.parameters.append(np.zeros((1, 1)))
        a.gradients.append(np.zeros((1, case['k'], 1)))
    require(b.costs == [] and b.parameters == [] and b.gradients == []
            and b.iter_num == 0 and b.indices == ['x'], 'shared histories')
    s, t = PerformanceStatistics(), PerformanceStatistics()
    s.cost_func_eval_times.append([1.])
    s.grad_func_eval_times.append([1.])
    require(t.cost_func_eval_times == [] and t.grad_func_eval_times == []
            and t.start_t_opt is None and t.end_t_opt is None,
            'shared statistics')
    r = OptimizationResult()
    require(r.final_parameters is None and r.optim_summary is None
            and r.status is None, 'empty result')
    rec.nontrivial(case['n'] > 0)
