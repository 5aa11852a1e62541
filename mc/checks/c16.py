"""Every answer of the random generator is a choice point: the flare generator is run on all sequences of quantile
draws within the bounds. One flare: the full product of a three-letter quantile alphabet over all draws, and the set of
outcomes must be the full product of the required quantiles of energy, latitude, longitude, FWHM and temperature. Two
flares: the same with two letters. Hundreds of flares: draws that are all different and reach into the tails. Up to six flares: every number of clusters and waiting times up to a deviation bound.
The law functions are compared with the law on a grid of parameters."""
import itertools
import math
from statistics import NormalDist
import numpy as np
from mc.qrng import QuantileRng, golden, poisson_quantile

Q3 = (0.5, 0.1, 0.9)
Q2 = (0.2, 0.8)
Z = NormalDist().inv_cdf
LAWS = [(-0.829, 26.87, 1e33), (-1.0, 33.0, 3e32), (-2.0, 65.0, 1e33), (-0.5, 16.3, 4e31), (-1.5, 48.5, 2e32)]
# temperature [K], its spread, FWHM [day], its spread in dex; one per law
DIST = [(9000., 500., 0.125, 0.3), (12000., 1500., 0.02, 0.1), (6000., 50., 1.1, 0.7), (9000., 500., 0.125, 0.3), (20000., 3000., 2e-3, 0.05)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    deep = tier == 'thorough'
    out = [dict(mode='law', law=i) for i in range(len(LAWS))]
    for i in range(len(LAWS)):
        out.append(dict(mode='count', law=i))
    for i in ((0, 1, 2, 3, 4) if deep else (0, 2)):
        for first in Q3:
            for second in Q3:
                out.append(dict(mode='one', law=i, q=[first, second]))
        for first in Q2:
            for second in Q2:
                out.append(dict(mode='two', law=i, q=[first, second]))
    for n in range(1, 7 if not deep else 10):
        for cs in (1, 2, 4):
            out.append(dict(mode='many', law=0, n=n, cs=cs, bound=2 if n > 2 and not deep else 3))
    for i in range(len(LAWS)):
        for n in (1, 5, 40, 200) if not deep else (1, 2, 3, 4, 5, 8, 17, 40, 101, 200, 700):
            out.append(dict(mode='bulk', law=i, n=n))
    out.append(dict(mode='bulk', law=0, n=12000, huge=True))
    return out


def gen(c, rng, units=0, cs=2):
    a, b, e = LAWS[c['law']]
    tm, ts, fm, fs = DIST[c['law']]
    kw = [dict(dist_fwhm_mean=fm * 24 * u.hr, min_energy=e * u.erg), dict(dist_fwhm_mean=fm * u.day, min_energy=(e * u.erg).to(u.J))][units]
    return S.FlareGenerator(dist_teff_mean=tm * u.K, dist_teff_sigma=ts * u.K, dist_fwhm_logsigma=fs, alpha=a, beta=b,
                            cluster_size=cs, rng=rng, **kw)


def rate(c):
    a, b, e = LAWS[c['law']]
    return 10 ** (b + a * math.log10(e))


def explore(x, c):
    {'law': law, 'count': count, 'one': some, 'two': some, 'many': many, 'bulk': bulk}[c['mode']](x, c)


def law(x, c):
    a, b, emin = LAWS[c['law']]
    g = gen(c, np.random.default_rng(0), x.choose('units', [0, 1]))
    unit = x.choose('energy unit', [u.erg, u.J, u.Unit('1e33 erg')])
    t = x.choose('time', [1 * u.day, 5 * u.hr, 0 * u.s, 2 * u.yr])
    td = t.to_value(u.day)
    es = emin * np.array([1.0, 1.0001, 1.5, 3.0, 10., 250., 1e4])
    eq = (es * u.erg).to(unit)
    x.step('law')
    want = 10 ** (b + a * np.log10(es))
    x.close([g.frequency_greater_than(e).to_value(1 / u.day) for e in eq], want, 'frequency above an energy', rtol=1e-8)
    x.close(g.frequency_greater_than(eq).to_value(1 / u.day), want, 'frequency above energies (array)', rtol=1e-8)
    x.close([g.get_nexp_greater_than(e, t) for e in eq], want * td, 'expected number above an energy', rtol=1e-8)
    x.close(g.get_ntotal(t), want[0] * td, 'expected total number', rtol=1e-8)
    cdf = 1 - (es / emin) ** a
    x.close(g.cdf(eq), cdf, 'cumulative distribution', rtol=1e-8, atol=1e-12)
    x.close([g.cdf(e) for e in eq], cdf, 'cumulative distribution (one by one)', rtol=1e-8, atol=1e-12)
    x.close([float(g.cdf(e)) for e in eq], 1 - np.array([float(g.get_nexp_greater_than(e, 1 * u.day) / g.get_ntotal(1 * u.day)) for e in eq]),
            'distribution and frequency agree', rtol=1e-6, atol=1e-9)
    pdf = -a * es ** (a - 1) / emin ** a
    got = g.pdf(eq)
    got = got.to_value(1 / u.erg) if hasattr(got, 'unit') else got
    x.close(np.asarray(got) * es, pdf * es, 'density', rtol=1e-7)
    h = 1e-5
    num = [(float(g.cdf(e * (1 + h))) - float(g.cdf(e * (1 - h)))) / (2 * h) for e in eq]
    x.close(np.asarray(got) * es, num, 'density is the derivative of the distribution', rtol=1e-4, atol=1e-9)
    qs = np.array([0.0, 0.01, 0.25, 0.5, 0.9, 0.999, 1 - 1e-9])
    e = g.quantile_func(qs)
    x.require(e.shape == qs.shape, 'one energy per quantile')
    x.close(e.to_value(u.erg), emin * (1 - qs) ** (1 / a), 'quantile function', rtol=1e-7)
    x.close(g.cdf(e), qs, 'quantile function inverts the distribution', rtol=1e-9, atol=1e-9)
    x.close(float(np.squeeze(g.quantile_func(0.3).to_value(u.erg))), emin * 0.7 ** (1 / a), 'quantile of a number', rtol=1e-8)
    x.close(float(np.squeeze(g.quantile_func(0).to_value(u.erg))), emin, 'lowest quantile is the minimum energy', rtol=1e-9)
    for bad in (-0.1, 1.0, 1.5, [0.2, 1.0], [0.5, -1e-9, 0.2], float('nan')):
        x.refuses(lambda: g.quantile_func(bad), ValueError, f'quantile {bad}')
    x.state(c['law'], str(unit), td, e)


def count(x, c):
    """The number of flares is the Poisson draw, and its mean is the rate times the duration."""
    unit = x.choose('unit', [u.day, u.hr, u.s])
    lam = x.choose('duration', [0.0, 0.3, 2.0, 7.5])
    tau = (lam / rate(c) * u.day).to(unit)
    q = x.choose('quantile', [0.5, 0.02, 0.3, 0.8, 0.99])
    seen = []

    def pick(kind):
        if kind == 'poisson' and not seen:
            seen.append(q)
            return q
        return 0.5
    rng = QuantileRng(pick)
    g = gen(c, rng, x.choose('units', [0, 1]), cs=3)
    fl = g.generate_flare_series(tau)
    x.step('generate')
    n = poisson_quantile(q, lam) if lam > 0 else 0
    pois = [d for d in rng.draws if d[0] == 'poisson']
    x.require(lam == 0 or pois, 'the number of flares is a Poisson draw')
    if pois:
        x.close(pois[0][1][0], lam, 'mean of the Poisson draw', rtol=1e-8, atol=1e-12)
    x.require(len(fl) == n, 'number of flares is the drawn number', len(fl), n)
    for f in fl:
        x.require(f.energy >= g.min_energy * (1 - 1e-9), 'no flare below the minimum energy')
    x.state(c['law'], lam, q, n)


def sample(x, c, n, alphabet, fixed=(), cs=2, units=0, peaks=None):
    """n flares; every draw but the number and (unless peaks) the clusters is a choice."""
    lam = 1.37
    tau = lam / rate(c) * u.day
    state = dict(count=False, i=0)

    class R(QuantileRng):
        def poisson_answer(self, q, l):
            if not state['count']:
                state['count'] = True
                return n
            return q if peaks else poisson_quantile(q, l)

    def pick(kind):
        if kind == 'poisson':
            if not state['count']:
                return 0.5
            return x.choose('cluster', [2, 0, 1, 3, n, n + 1], dev=True) if peaks else 0.5
        if kind == 'exponential':
            return x.choose('wait', [0.5, 0.05, 0.95], dev=True) if peaks else 0.5
        state['i'] += 1
        if state['i'] <= len(fixed):
            return fixed[state['i'] - 1]
        return x.choose(kind, alphabet, dev=bool(peaks))
    rng = R(pick)
    g = gen(c, rng, units, cs)
    fl = g.generate_flare_series(tau)
    x.step('generate')
    x.require(len(fl) == n, 'number of flares is the drawn number', len(fl), n)
    return g, rng, fl, tau.to_value(u.day)


def seen_as(f):
    return tuple(float(f'{v:.5e}') for v in (f.energy.to_value(u.erg), f.lat.to_value(u.deg), f.lon.to_value(u.deg) % 360,
                                              f.fwhm.to_value(u.day), f.Teff.to_value(u.K)))


def admissible(c, alphabet):
    a, b, emin = LAWS[c['law']]
    tm, ts, fm, fs = DIST[c['law']]
    r = lambda v: float(f'{v:.5e}')
    return [[r(emin * (1 - q) ** (1 / a)) for q in alphabet], [r(math.degrees(math.asin(2 * q - 1))) for q in alphabet],
            [r(360 * q) for q in alphabet], [r(10 ** (math.log10(fm) + fs * Z(q))) for q in alphabet],
            [r(tm + ts * Z(q)) for q in alphabet]]


NAMES = ('energy', 'latitude', 'longitude', 'FWHM', 'temperature')


def some(x, c):
    n, alphabet = (1, Q3) if c['mode'] == 'one' else (2, Q2)
    g, rng, fl, tau = sample(x, c, n, alphabet, fixed=c['q'])
    adm = admissible(c, alphabet)
    out = []
    prev = 0.0
    for f in fl:
        s = seen_as(f)
        for v, name, ok in zip(s, NAMES, adm):
            x.require(any(abs(v - w) <= 2e-5 * abs(w) + 2e-5 for w in ok), f'{name} is a quantile of its distribution', v, ok)
        x.require(f.energy >= g.min_energy * (1 - 1e-9), 'no flare below the minimum energy')
        p = f.tpeak.to_value(u.day)
        x.require(math.isfinite(p) and p > prev, 'peak times are positive and ordered', p, prev)
        prev = p
        out.append(tuple(min(range(len(ok)), key=lambda k: abs(ok[k] - v)) for v, ok in zip(s, adm)))
    x.outcomes.append(tuple(out))
    x.state(out)


def finish(x, c, outcomes):
    """All combinations allowed by the first (fixed) draws occur: the quantities are drawn independently."""
    if c['mode'] not in ('one', 'two') or not outcomes:
        return
    n, k = (1, 3) if c['mode'] == 'one' else (2, 2)
    # two of the draws were fixed by the configuration, whichever they were
    x.require(len(set(outcomes)) == k ** (5 * n - 2), 'all combinations of the drawn quantities occur', len(set(outcomes)), k ** (5 * n - 2))
    x.require(len(set(outcomes)) == len(outcomes), 'different draws give different flares', len(set(outcomes)), len(outcomes))


def many(x, c):
    n = c['n']
    g, rng, fl, tau = sample(x, c, n, (0.5, 0.02, 0.98), cs=c['cs'], peaks=True)
    peaks = np.array([f.tpeak.to_value(u.day) for f in fl])
    d = np.diff(np.concatenate([[0.0], peaks]))
    x.require(np.all(np.isfinite(peaks)) and np.all(d > 0), 'peak times are positive and ordered', peaks)
    a, b, emin = LAWS[c['law']]
    uni = sorted(q for k, q in rng.quantiles if k == 'uniform')
    es = [float(g.cdf(f.energy)) for f in fl]
    lats = [(math.sin(f.lat.to_value(u.rad)) + 1) / 2 for f in fl]
    lons = [f.lon.to_value(u.deg) / 360 % 1 for f in fl]
    have = sorted(es + lats + lons)
    x.require(len(uni) == len(have), 'three uniform draws per flare', len(uni), len(have))
    x.close(have, uni, 'uniform draws of all flares', rtol=0, atol=1e-6)
    norm = sorted(q for k, q in rng.quantiles if k == 'normal')
    Phi = NormalDist().cdf
    tm, ts, fm, fs = DIST[c['law']]
    have = sorted([Phi((math.log10(f.fwhm.to_value(u.day)) - math.log10(fm)) / fs) for f in fl] + [Phi((f.Teff.to_value(u.K) - tm) / ts) for f in fl])
    x.require(len(norm) == len(have), 'two normal draws per flare')
    x.close(have, norm, 'normal draws of all flares', rtol=0, atol=1e-6)
    # peak times are relative to the duration
    for k in (3.5, 1e-3, 1e4) if n <= 2 else (3.5, 1e-3):
        x.close(peaks / tau, g_peaks(g, rng, tau, k), f'peak times scale with the duration (times {k})', rtol=1e-8)
    if any(k == 'exponential' for k, _, _ in rng.draws):
        mean = g_peaks(g, rng, tau, 3.5, mean=True)
        x.require(1 - 1e-9 <= mean[-1] < 1.5, 'the mean waiting times add up to one to one and a half durations', mean[-1])
        for q in (0.02, 0.97):      # exponential waiting times, each by itself
            x.close(g_peaks(g, rng, tau, 3.5, q=q), -math.log1p(-q) * mean, f'all waiting times at their {q} quantile', rtol=1e-7)
    x.state(n, c['cs'], peaks, have)


def bulk(x, c):
    n = c['n']
    huge = c.get('huge')
    cs = x.choose('cluster size', [2, 1, 5, 30][:1 if huge else None])
    start = x.choose('start', [0, 1000, 5000, 7919][:1 if huge else None])
    tau = x.choose('duration', [1.0, 1e-3, 365.0][:1 if huge else None])
    seq = golden(start)
    used = {'uniform': [], 'normal': []}
    first = []

    class R(QuantileRng):
        def poisson_answer(self, q, lam):
            if not first:
                first.append(lam)
                return n
            return poisson_quantile(q, lam)

    def pick(kind):
        q = next(seq)
        if kind in used:
            used[kind].append(q)
        return q
    rng = R(pick)
    g = gen(c, rng, n % 2, cs)
    fl = g.generate_flare_series(tau * u.day)
    x.step(f'generate {n}')
    x.require(len(fl) == n, 'number of flares is the drawn number', len(fl), n)
    x.close(first[0], rate(c) * tau, 'mean of the Poisson draw', rtol=1e-8)
    a, b, emin = LAWS[c['law']]
    Phi = NormalDist().cdf
    tm, ts, fm, fs = DIST[c['law']]
    uni, nrm = [], []
    for f in fl:
        uni += [1 - (f.energy.to_value(u.erg) / emin) ** a, (math.sin(f.lat.to_value(u.rad)) + 1) / 2, f.lon.to_value(u.deg) / 360 % 1]
        nrm += [Phi((math.log10(f.fwhm.to_value(u.day)) - math.log10(fm)) / fs), Phi((f.Teff.to_value(u.K) - tm) / ts)]
    for have, drawn, what in ((nrm, used['normal'], 'normal'), (uni, used['uniform'], 'uniform')):
        x.require(len(have) == len(drawn), f'every flare has its own {what} draws', len(have), len(drawn))
        x.close(np.sort(have), np.sort(drawn), f'every quantity is the requested quantile of its {what} draw', rtol=0, atol=1e-6)
    peaks = np.array([f.tpeak.to_value(u.day) for f in fl])
    x.require(np.all(np.isfinite(peaks)) and np.all(np.diff(np.concatenate([[0.0], peaks])) > 0), 'peak times are positive and ordered')
    x.close(peaks / tau, g_peaks(g, rng, tau, 3.5), 'peak times scale with the duration', rtol=1e-8)
    if any(k == 'exponential' for k, _, _ in rng.draws):
        mean = g_peaks(g, rng, tau, 3.5, mean=True)
        x.require(1 - 1e-9 <= mean[-1] < 1.5, 'the mean waiting times add up to one to one and a half durations', mean[-1])
        for q in (0.02, 0.97):      # exponential waiting times, each by itself
            x.close(g_peaks(g, rng, tau, 3.5, q=q), -math.log1p(-q) * mean, f'all waiting times at their {q} quantile', rtol=1e-7)
    x.state(c, cs, start, tau, peaks[:20])


def g_peaks(g, rng, tau, factor, mean=False, q=None):
    """Relative peak times for the same quantiles with another duration; optionally with mean waiting times."""
    qs = iter(list(rng.quantiles))
    counts = iter([v for k, _, v in rng.draws if k == 'poisson'])
    tau2 = factor * tau

    class Replay(QuantileRng):
        def poisson_answer(self, q, lam):
            return next(counts)

    def pick(kind):
        was = next(qs)[1]
        if kind == 'exponential' and (mean or q):
            return q or 1 - math.exp(-1)
        return was
    g.rng = Replay(pick)
    fl = g.generate_flare_series(tau2 * u.day)
    return np.array([f.tpeak.to_value(u.day) for f in fl]) / tau2
