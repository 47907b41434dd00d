"""C21: coloured noise."""
from vlib.core import *
from vlib.gen import *

META = dict(
    rule='Traces of 2 to 60 samples (odd, even, powers of two and neighbours), '
         'time steps and noise over many orders of magnitude, white, power law, '
         'Lorentzian, band limited and stepwise spectra, one to three '
         'operators, extension ratios one to five. Exact relations between '
         'noise of different spectra drawn from the same random state (if '
         'the state of numpy determines it), and the averaged periodogram of '
         '2000 realisations at every frequency. Non-trivial: the '
         'spectrum differs between frequencies or more than one realisation.',
    assumptions=['a random generator is accepted if its statistics lie within '
                 'seven standard errors'])


@st.composite
def spectrum_spec(draw, n_max=60):
    k = draw(st.integers(1, 6))
    # noise in any unit
    unit = draw(st.sampled_from([1., 1., 1., 2. ** -60, 2. ** 50]))
    return {'n': draw(st.one_of(st.integers(2, n_max),
                                st.sampled_from([2, 3, 4, 5, 7, 8, 9, 15, 16,
                                                 17, 31, 32, 33]))),
            'dt': draw(st.sampled_from([1, 1., .5, .3, 1e-3, 7e-6, 20.,
                                        .0625, 1e-9, 3e5])),
            'kind': draw(st.sampled_from(['white', 'scalar', 'power', 'power',
                                          'lorentz', 'band', 'steps'])),
            'a': draw(num(1, 40)) * unit, 'e': draw(st.sampled_from(
                [-2., -1., -.7, 1., 2.])),
            'c': draw(num(1, 16)), 'steps': draw(nums(k, 1, 40))}


def psd(s, f):
    """One sided density; frequencies in units of the sampling rate."""
    a = s['a'] * s['dt']
    x = np.asarray(f, dtype=float) * s['dt']
    if s['kind'] in ('white', 'scalar'):
        return np.full(x.shape, a)
    if s['kind'] == 'power':
        return a * x ** s['e']
    if s['kind'] == 'lorentz':
        return a / (1 + (x * 10 / s['c']) ** 2)
    if s['kind'] == 'band':
        return a * (np.abs(x - .25) < s['c'] / 32 + 1.234e-5)
    k = len(s['steps'])
    return a * np.array(s['steps'])[np.minimum(
        (x * 2 * k * .999).astype(int), k - 1)]


class Density:
    """Callable which checks what it is called with."""

    def __init__(self, s, factor=1.):
        self.s, self.factor, self.calls = s, factor, []

    def __call__(self, f):
        f = np.array(f)
        self.calls.append(f)
        if self.s['kind'] == 'scalar':
            return float(self.s['a'] * self.s['dt']) * self.factor
        return self.factor * psd(self.s, f)

    def check(self, n):
        dt = self.s['dt']
        require(len(self.calls) >= 1, 'the spectral density was never called')
        for f in self.calls:
            require(np.all(f > 0), 'the spectral density was evaluated at %s'
                    % f)
            require(np.all(f <= .5 / dt * (1 + 1e-9)),
                    'the spectral density was evaluated above the Nyquist '
                    'frequency: %s' % f)


def generate(s, dens, shape, seed=1, **kw):
    from qopt.noise import fast_colored_noise
    np.random.seed(seed)
    out = arr(fast_colored_noise(dens, s['dt'], s['n'], shape, **kw))
    require(not np.iscomplexobj(out), 'complex noise')
    return out


@subcheck('filter', st.tuples(
    spectrum_spec(), st.lists(st.integers(1, 3), min_size=1, max_size=2),
    num(2, 40), st.integers(0, 9), st.booleans()).map(list), quick=1500,
    thorough=40000, shards=2)
def linear_filter(case, rec):
    s, shape, factor, seed, pow2 = case
    shape = tuple(shape)
    kw = {'r_power_of_two': True} if pow2 else {}
    n = 2 ** (s['n'].bit_length() - 1) if pow2 else s['n']
    dens = Density(s)
    x = generate(s, dens, shape, seed, **kw)
    require(x.shape == shape + (n,), 'shape %r, expected %r'
            % (x.shape, shape + (n,)))
    dens.check(n)
    scale = np.max(np.abs(x))
    close(np.sum(x, axis=-1), np.zeros(shape), 'constant offset',
          1e-9 * scale * n, 0)
    if not np.array_equal(x, generate(s, dens, shape, seed, **kw)):
        rec.label('not determined by the state of numpy')
        rec.nontrivial(False)
        return
    # the same white noise
    white = dict(s, kind='white')
    w = generate(s, Density(white), shape, seed, **kw)
    f = np.arange(n // 2 + 1) / (n * s['dt'])
    ft, fw = np.fft.rfft(x), np.fft.rfft(w)
    gain = np.sqrt(psd(s, f[1:]) / (s['a'] * s['dt']))
    tol = 1e-9 * np.max(np.abs(ft)) + 1e-12 * np.sqrt(s['a'])
    close(ft[..., 1:], fw[..., 1:] * gain, 'noise relative to white noise at '
          'every frequency', tol, 1e-9)
    y = generate(s, Density(s, factor), shape, seed, **kw)
    close(y, np.sqrt(factor) * x, 'noise of %g times the density' % factor,
          1e-9 * scale, 1e-9)
    # the unit of time: S has the unit of time
    slow = dict(s, dt=s['dt'] * 4)
    z = generate(slow, Density(slow), shape, seed, **kw)
    close(z, x, 'noise in different units of time', 1e-9 * scale, 1e-9)
    rec.label(s['kind'])
    rec.label('odd', n % 2)
    rec.nontrivial(np.ptp(gain) > 1e-6 if n > 3 else True)


def check_density(x, s, n, what):
    """Averaged periodogram of x[realisation, n] against the density."""
    m = len(x)
    # twice the two-sided density, also at the Nyquist frequency
    p = np.mean(np.abs(np.fft.rfft(x)) ** 2, axis=0) * s['dt'] / n * 2
    exp = psd(s, np.arange(1, n // 2 + 1) / (n * s['dt']))
    for k, (a, b) in enumerate(zip(p[1:], exp)):
        se = 7 / np.sqrt(m) * (1.45 if 2 * (k + 1) == n else 1)
        require(abs(a - b) <= se * b + 1e-12 * np.max(exp),
                '%s: power %g at frequency %d of %d samples, expected %g'
                % (what, a, k + 1, n, b))


@subcheck('spectrum', st.tuples(spectrum_spec(24), st.integers(1, 3),
                                st.booleans()).map(list),
          quick=120, thorough=3000, shards=2)
def spectrum(case, rec):
    from qopt.noise import NTGColoredNoise
    s, k, redraw = case
    n, m = s['n'], 2000
    ntg = NTGColoredNoise(n_samples_per_trace=n,
                          noise_spectral_density=Density(s), dt=s['dt'],
                          n_traces=m, n_noise_operators=k,
                          always_redraw_samples=redraw)
    a = arr(ntg.noise_samples).copy()
    require(a.shape == (k, m, n), 'shape %r' % (a.shape,))
    require(ntg.n_traces == m and ntg.n_noise_operators == k
            and ntg.n_samples_per_trace == n, 'reported sizes')
    b = arr(ntg.noise_samples)
    require(a.shape == b.shape, 'shape when read again')
    if np.any(a):
        require(np.array_equal(a, b) != redraw, 'the samples were %s'
                % ('stored' if redraw else 'drawn again'))
    for i in range(k):
        check_density(a[i], s, n, 'operator %d' % i)
        # normal distributed, independent
        sd = np.std(a[i])
        if sd > 0:
            z = a[i] / sd
            require(abs(np.mean(np.mean(z ** 4, axis=1)) - 3 * np.mean(
                np.mean(z ** 2, axis=0) ** 2)) < 1.5, 'not normal: fourth '
                'moment %g' % np.mean(z ** 4))
            c = np.mean(z[1:] * z[:-1], axis=0)
            require(np.all(np.abs(c) < 7 / np.sqrt(m) * np.mean(
                z ** 2, axis=0).max()), 'realisations are correlated')
            for j in range(i):
                c = np.mean(z * a[j] / sd, axis=0)
                require(np.all(np.abs(c) < 7 / np.sqrt(m) * np.mean(
                    z ** 2, axis=0).max()), 'operators are correlated')
    rec.label(s['kind'])
    rec.label('odd', n % 2)


@subcheck('extension', st.tuples(
    spectrum_spec(20), st.integers(1, 5), st.integers(1, 2),
    st.integers(1, 3), st.integers(0, 9)).map(list), quick=400,
    thorough=10000)
def extension(case, rec):
    """Longer traces of which the beginning is used."""
    from qopt.noise import NTGColoredNoise
    s, r, k, m, seed = case
    n = s['n']

    def make(n, ratio):
        kw = {} if ratio is None else {'low_frequency_extension_ratio': ratio}
        d = Density(s)
        ntg = NTGColoredNoise(n, d, s['dt'], n_traces=m, n_noise_operators=k,
                              always_redraw_samples=False, **kw)
        np.random.seed(seed)
        x = arr(ntg.noise_samples).copy()
        d.check(n * (ratio or 1))
        return ntg, x
    ntg, x = make(n, r)
    require(x.shape == (k, m, n), 'shape %r' % (x.shape,))
    require(np.array_equal(ntg.noise_samples, x), 'stored samples')
    require(ntg.n_samples_per_trace == n, 'samples per trace')
    if np.array_equal(x, make(n, r)[1]):
        close(x, make(n * r, None)[1][:, :, :n], 'beginning of a longer '
              'trace', 1e-12 * np.max(np.abs(x)), 1e-12)
    for bad in (.5, 0, -1):
        must_raise(ValueError, lambda: NTGColoredNoise(
            n, Density(s), s['dt'], low_frequency_extension_ratio=bad),
            'extension ratio %r' % bad)
    must_raise(ValueError, lambda: NTGColoredNoise(
        n, Density(s), [s['dt']] * n), 'list of time steps')
    rec.label('ratio %d' % r)
    rec.nontrivial(r > 1)


@subcheck('variance', st.tuples(spectrum_spec(12), st.integers(2, 4)
                                ).map(list), quick=60, thorough=1000)
def variance(case, rec):
    """Power of cropped traces, including the lower frequencies."""
    from qopt.noise import NTGColoredNoise
    s, r = case
    m = 3000
    n = s['n'] * r
    ntg = NTGColoredNoise(s['n'], Density(s), s['dt'], n_traces=m,
                          low_frequency_extension_ratio=r)
    x = arr(ntg.noise_samples)[0]
    f = np.arange(1, n // 2 + 1) / (n * s['dt'])
    p = psd(s, f) / (n * s['dt'])
    if n % 2 == 0:
        # half of the band lies above the Nyquist frequency
        p[-1] /= 2
    exp = np.sum(p)
    got = np.mean(x ** 2, axis=0)
    require(np.all(np.abs(got - exp) <= 7 * np.sqrt(2 / m) * exp
                   + 1e-12 * s['a']),
            'variance %s, expected %g' % (got, exp))


@subcheck('periodogram', spectrum_spec(40), quick=60, thorough=1000)
def periodogram(s, rec):
    from qopt.noise import NTGColoredNoise
    m = 2000
    ntg = NTGColoredNoise(s['n'], Density(dict(
        s, kind='white' if s['kind'] == 'scalar' else s['kind'])), s['dt'],
        n_traces=3, n_noise_operators=2, always_redraw_samples=False)
    with np.errstate(all='ignore'):
        before = ntg.noise_samples
        kept = arr(before).copy()
        d = ntg.plot_periodogram(m, draw_plot=False)
        require(np.array_equal(before, kept) and np.array_equal(
            ntg.noise_samples, kept), 'the periodogram replaced the stored '
            'samples')
    f = np.arange(1, (s['n'] + 1) // 2) / (s['n'] * s['dt'])
    ref = np.linalg.norm(psd(s, f))
    require(np.isfinite(d) and d <= 3 * ref / np.sqrt(m)
            + 1e-12 * s['a'] * s['dt'],
            'deviation %g of the periodogram from the density of norm %g'
            % (d, ref))


@subcheck('long', st.fixed_dictionaries({
    's': spectrum_spec(20), 'n': st.sampled_from(
        [61, 100, 127, 128, 129, 255, 257, 333, 500, 513, 1000, 1001, 1024,
         1025, 1100, 2047, 2049, 3000, 4096, 4097, 5001, 8193, 10007]),
    'ratio': st.sampled_from([1, 1, 1, 2, 3, 10]),
    'm': st.sampled_from([40, 100, 301]), 'k': st.integers(1, 4),
    'direct': st.booleans()}), quick=40, thorough=1200, shards=2)
def long(case, rec):
    """Long traces: power in bands of neighbouring frequencies."""
    from qopt.noise import NTGColoredNoise, fast_colored_noise
    s = dict(case['s'], n=case['n'])
    n, r, m, k = case['n'], case['ratio'], case['m'], case['k']
    m, k = (m, 1) if n * r > 5000 else (m, k)
    N = n * r
    if case['direct']:
        x = arr(fast_colored_noise(Density(s), s['dt'], N, (k, m)))
    else:
        ntg = NTGColoredNoise(n, Density(s), s['dt'], n_traces=m,
                              n_noise_operators=k,
                              low_frequency_extension_ratio=r)
        x = arr(ntg.noise_samples)
        require(ntg.n_traces == m and ntg.n_noise_operators == k
                and ntg.n_samples_per_trace == n, 'reported sizes')
    full = case['direct'] or r == 1
    require(x.shape == (k, m, N if case['direct'] else n),
            'shape %r' % (x.shape,))
    f = np.arange(1, N // 2 + 1) / (N * s['dt'])
    exp = psd(s, f)
    for i in range(k):
        if full:
            p = np.mean(np.abs(np.fft.rfft(x[i])) ** 2, axis=0)[1:] \
                * s['dt'] / N * 2
            edges = np.unique(np.linspace(0, len(f), 12).astype(int))
            for a, b in zip(edges[:-1], edges[1:]):
                e = np.sum(exp[a:b])
                # sum of independent exponential variables
                sd = np.sqrt(2 * np.sum(exp[a:b] ** 2) / m)
                require(abs(np.sum(p[a:b]) - e) <= 7 * sd + 1e-9 * np.max(exp),
                        'power %g in frequencies %d to %d of %d samples, '
                        'expected %g' % (np.sum(p[a:b]), a + 1, b, N, e))
        w = exp / (N * s['dt'])
        if N % 2 == 0:
            w[-1] /= 2
        got = np.mean(x[i] ** 2)
        sd = np.sqrt(2 / m) * np.sum(w) if not full else \
            np.sqrt(2 * np.sum(w ** 2) / m)
        require(abs(got - np.sum(w)) <= 7 * sd + 1e-9 * np.sum(w),
                'variance %g, expected %g' % (got, np.sum(w)))
        for j in range(i):
            sd_i = np.std(x[i]) * np.std(x[j])
            c = np.mean(x[i] * x[j]) if sd_i > 0 else 0.
            # at most the number of realisations is independent
            require(abs(c) <= 8 * sd_i / np.sqrt(m), 'operators correlated')
    rec.label(s['kind'])
    rec.label('extended', r > 1)
    rec.nontrivial(n > 60)
