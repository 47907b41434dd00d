"""C20: quasi-static noise."""
from vlib.core import *
from vlib.gen import *
from scipy import stats
from scipy.special import ndtri

META = dict(
    rule='Generators with one to four standard deviations (list, tuple or '
         'array, equal and different values over several orders of magnitude), '
         '1 to 30 realisations (deterministic) or 300 to 2000 (random), 1 to '
         '12 time steps, with and without correction of the standard '
         'deviation, given or drawn samples, stored or renewed. '
         'Non-trivial: more than one realisation and a positive standard '
         'deviation.',
    assumptions=['a random generator is accepted if its statistics lie within '
                 'six standard errors'])


@st.composite
def spec(draw, mode):
    k = draw(st.integers(1, 4))
    unit = draw(st.sampled_from([1., 1., 1., 2. ** -40, 2. ** 30]))
    std = [.001, .125, .5, 1., 1., 2.5, 40.]
    correct = draw(st.booleans())
    if mode != 'monte_carlo' and not correct:
        # one of the sources switched off (cannot be corrected: rejected)
        std += [0.]
    return {'mode': mode,
            'std': [unit * draw(st.sampled_from(std)) for _ in range(k)],
            'box': draw(st.sampled_from(['list', 'list', 'tuple', 'array'])),
            'traces': draw(st.integers(2, 30) if mode != 'monte_carlo' else
                           st.integers(300, 2000)),
            'n': draw(st.integers(1, 12)),
            'correct': correct, 'redraw': draw(st.booleans()),
            'default_mode': draw(st.booleans()),
            'again': draw(st.integers(1, 3))}


def build(s, std=None, **kw):
    from qopt.noise import NTGQuasiStatic
    if std is None:
        std = {'list': list, 'tuple': tuple, 'array': np.array}[s['box']](
            s['std'])
    args = dict(n_traces=s['traces'], always_redraw_samples=s['redraw'],
                correct_std_for_discrete_sampling=s['correct'])
    if s['mode'] == 'monte_carlo' or not s['default_mode']:
        args['sampling_mode'] = s['mode']
    args.update(kw)
    return NTGQuasiStatic(std, s['n'], **args)


def quantiles(n):
    return ndtri((np.arange(n) + .5) / n)


@subcheck('deterministic', spec('uncorrelated_deterministic'), quick=800,
          thorough=20000, shards=2)
def deterministic(s, rec):
    n, k = s['traces'], len(s['std'])
    std = {'list': list, 'tuple': tuple, 'array': np.array}[s['box']](
        s['std'])
    before = [float(x) for x in std]
    q = quantiles(n)
    exp = np.zeros((k, n * k, s['n']))
    for i, sd in enumerate(s['std']):
        f = sd / np.std(q) if s['correct'] else sd
        exp[i, i * n:(i + 1) * n] = (f * q)[:, None]
    for t in range(s['again']):       # several from the same arguments
        ntg = build(s, std)
        got = arr(ntg.noise_samples)
        # in units of the largest
        S = max(s['std']) or 1.
        close(got / S, exp / S, 'noise samples of generator %d' % t, 1e-9,
              1e-9)
        close(ntg.noise_samples / S, exp / S, 'noise samples read again',
              1e-9, 1e-9)
        require(ntg.n_traces == n * k and ntg.n_noise_operators == k
                and ntg.n_samples_per_trace == s['n'],
                'reported %r traces, %r operators, %r samples' % (
                    ntg.n_traces, ntg.n_noise_operators,
                    ntg.n_samples_per_trace))
        if s['correct']:
            for i in range(k):
                close(np.std(got[i, i * n:(i + 1) * n, 0]), s['std'][i],
                      'standard deviation', 0, 1e-9)
        close(np.mean(got, axis=1), np.zeros((k, s['n'])), 'mean',
              1e-9 * (max(s['std']) or 1.), 0)
    require([float(x) for x in std] == before,
            'the standard deviations of the caller became %r' % (std,))
    rec.label('%d operators' % k)
    rec.label('corrected', s['correct'])
    rec.label('single step', s['n'] == 1)


@subcheck('monte_carlo', spec('monte_carlo'), quick=200, thorough=4000,
          shards=2)
def monte_carlo(s, rec):
    n, k = s['traces'], len(s['std'])
    std = {'list': list, 'tuple': tuple, 'array': np.array}[s['box']](
        s['std'])
    before = [float(x) for x in std]
    ntg = build(s, std)
    a = arr(ntg.noise_samples).copy()
    require(a.shape == (k, n, s['n']), 'shape %r' % (a.shape,))
    require(ntg.n_traces == n and ntg.n_noise_operators == k
            and ntg.n_samples_per_trace == s['n'], 'reported sizes')
    require(np.array_equal(a, np.repeat(a[:, :, :1], s['n'], axis=2)),
            'quasi static noise changes in time')
    z = a[:, :, 0] / np.array(s['std'])[:, None]
    se = 6 / np.sqrt(n)
    for i in range(k):
        require(abs(np.mean(z[i])) < se, 'mean of operator %d: %g standard '
                'deviations' % (i, np.mean(z[i])))
        require(abs(np.std(z[i]) - 1) < se / np.sqrt(2) * 1.1,
                'standard deviation of operator %d: %g times the requested'
                % (i, np.std(z[i])))
        ks = stats.kstest(z[i], 'norm').statistic
        require(ks * np.sqrt(n) < 2.9, 'operator %d is not normal distributed '
                '(distance %g of %d samples)' % (i, ks, n))
        for j in range(i):
            c = np.mean(z[i] * z[j])
            require(abs(c) < se * 1.2, 'operators %d and %d are correlated: '
                    '%g' % (j, i, c))
        # successive realisations are independent
        c = np.mean(z[i][1:] * z[i][:-1])
        require(abs(c) < se * 1.2, 'realisations are correlated: %g' % c)
    b = arr(ntg.noise_samples)
    require(b.shape == a.shape, 'shape %r when read again' % (b.shape,))
    if s['redraw']:
        require(not np.any(b[:, :, 0] == a[:, :, 0]),
                'samples were not drawn again')
        z2 = b[:, :, 0] / np.array(s['std'])[:, None]
        require(np.all(np.abs(np.std(z2, axis=1) - 1) < se),
                'standard deviation of the renewed samples')
    else:
        require(np.array_equal(a, b), 'stored samples were drawn again')
    require([float(x) for x in std] == before,
            'the standard deviations of the caller changed')
    rec.label('redraw', s['redraw'])
    rec.label('%d operators' % k)


@subcheck('stored', st.tuples(
    st.sampled_from(['uncorrelated_deterministic', 'monte_carlo']),
    st.integers(1, 3), st.integers(2, 4), st.integers(1, 5), num(),
    st.booleans()).map(list), quick=200, thorough=3000)
def stored(case, rec):
    """Precalculated samples are used as they are."""
    from qopt.noise import NTGQuasiStatic, NoiseTraceGenerator
    mode, k, n, t, v, sizes = case
    a = (np.arange(k * n * t) + v).reshape(k, n, t)
    ntg = NTGQuasiStatic([1.] * k, t if sizes else None,
                         n_traces=n if sizes else None, noise_samples=a.copy(),
                         always_redraw_samples=False, sampling_mode=mode)
    close(ntg.noise_samples, a, 'given samples', 0, 0)
    close(ntg.noise_samples, a, 'given samples read again', 0, 0)
    if not sizes or mode == 'monte_carlo':
        require(ntg.n_traces == n, '%r traces, expected %d'
                % (ntg.n_traces, n))
    require(ntg.n_noise_operators == k, 'number of operators')
    require(ntg.n_samples_per_trace == t, 'number of samples')

    class Own(NoiseTraceGenerator):
        """A user defined generator."""
        draws = 0

        def _sample_noise(self):
            self.draws += 1
            self._noise_samples = a + self.draws
    for redraw in (False, True):
        for given in (False, True):
            own = Own(n_samples_per_trace=t if sizes else None,
                      n_traces=n if sizes else None,
                      n_noise_operators=k if sizes else None,
                      noise_samples=a.copy() if given else None,
                      always_redraw_samples=redraw)
            require((own.n_noise_operators, own.n_traces,
                     own.n_samples_per_trace) == (k, n, t),
                    'sizes %r, expected %r' % (
                        (own.n_noise_operators, own.n_traces,
                         own.n_samples_per_trace), (k, n, t)))
            first = arr(own.noise_samples).copy()
            second = arr(own.noise_samples)
            if redraw:
                require(np.array_equal(second, first + 1), 'samples are not '
                        'drawn again')
            else:
                require(np.array_equal(first, second) and np.array_equal(
                    first, a if given else a + 1), 'samples %r' % (first,))
    if n == 1 or k == 1:
        one = Own(n_samples_per_trace=t, always_redraw_samples=False)
        require((one.n_traces, one.n_noise_operators) == (1, 1),
                'default sizes')


@subcheck('functions', st.tuples(
    num(1, 40), num(1, 40), st.integers(1, 300), num(-80, 80),
    st.integers(1, 999)).map(list), quick=600, thorough=20000)
def functions(case, rec):
    """The sampling functions behind the generator."""
    from qopt.noise import (sample_1dim_gaussian_distribution,
                            inverse_cumulative_gaussian_distribution_function,
                            bell_curve_1dim, bell_curve_2dim)
    std, std2, n, mean, p = case
    p /= 1000
    close(inverse_cumulative_gaussian_distribution_function(p, std, mean),
          stats.norm.ppf(p, mean, std), 'inverse cumulative', 1e-9, 1e-9)
    x = arr(sample_1dim_gaussian_distribution(std, n, mean))
    close(x, mean + std * quantiles(n), 'samples', 1e-8, 1e-9)
    close(sample_1dim_gaussian_distribution(std, n), std * quantiles(n),
          'samples of zero mean', 1e-8, 1e-9)
    # equal probability in between
    cdf = stats.norm.cdf(x, mean, std)
    close(np.diff(cdf), np.full(n - 1, 1 / n), 'probability between samples',
          1e-8, 0)
    close(np.mean(x), mean, 'mean', 1e-8 * (1 + std), 1e-9)
    pts = np.linspace(-3, 3, 7) * std
    close(bell_curve_1dim(pts, std), stats.norm.pdf(pts, 0, std),
          'bell curve', 1e-12, 1e-9)
    close(bell_curve_2dim(pts, std, pts[::-1] + .5, std2),
          stats.norm.pdf(pts, 0, std) * stats.norm.pdf(
              pts[::-1] + .5, 0, std2), 'two dimensional bell curve', 1e-12,
          1e-9)
    rec.nontrivial(n > 1)
