"""All combinations of seed, mean, amplitude, period, time sampling, unit and origin of time. Oracle: with the Cholesky
factor of the documented covariance the standard deviates behind a series can be recovered; one seed must give one and the
same deviates for every parameter set, sampling, unit and origin (this fixes the covariance up to a constant), the deviates
of all seeds together must have unit variance, and clipped series must be the clipped version of unclipped ones. The
covariance matrix and mean reported by the Gaussian process are compared entry by entry."""
import itertools
import math
import numpy as np
from mc import ref

SEEDS = [0, 1, 2, 7, 42, 1234567]
PERIOD = [5 / 60, 1.0, 30.0]                    # h
SCALE = [1e-4, 4e-4, 2.5e-3]                      # times 1/freq, so that the variance does not depend on the period
N = 8
# sampling times in periods
SAMPLE = {
    'even': np.arange(N) * 0.7,
    'uneven': np.array([0.0, 0.5, 1.4, 2.0, 3.7, 4.3, 6.6, 9.0]),
    'backwards': np.arange(N)[::-1] * 0.9,
    'negative': np.arange(N) * 0.6 - 3.1,
    'mixed': np.array([3.0, 0.0, 5.0, 1.1, 4.0, 2.0, 7.7, 6.1]),
    'close': np.arange(N) * 0.25,
}


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    deep = tier == 'thorough'
    out = []
    seeds = SEEDS + list(range(100, 130)) if deep else SEEDS
    for s in seeds:
        for p in range(len(PERIOD)):
            out.append(dict(mode='series', seed=s, p=p))
    out.append(dict(mode='variance', seeds=[0, 400 if deep else 120]))
    for p in range(len(PERIOD)):
        out.append(dict(mode='gp', p=p))
        for n in (1, 2, 51, 300):
            out.append(dict(mode='dense', p=p, n=n))
        for n in (301, 600, 1100):
            out.append(dict(mode='long', p=p, n=n))
        for first in range(11):
            out.append(dict(mode='again', p=p, first=first, depth=3 if p == 0 or deep else 2))
    for p in range(len(PERIOD)):
        out.append(dict(mode='strong', p=p))
    out.append(dict(mode='off'))
    out.append(dict(mode='mean'))
    out.append(dict(mode='seeds'))
    first = ('off', 'mean', 'seeds', 'variance', 'gp')        # the short ones first
    return sorted(out, key=lambda c: c['mode'] not in first)


def explore(x, c):
    {'series': series, 'variance': variance, 'gp': gp, 'dense': dense, 'long': long_, 'again': again, 'strong': strong, 'off': off, 'mean': mean, 'seeds': seeds}[c['mode']](x, c)


def gran(mean=0.5, scale=1e-4, period_h=1.0, seed=0, dteff=200., unit=None):
    p = period_h * u.hr
    return S.Granulation(mean, scale, p if unit is None else p.to(unit), dteff * u.K, seed=seed)


def ask(x, g, t, via):
    if via == 'star':
        v = S.star([], grid=(3, 4), granulation=g).get_granulation_coverage(t)
    else:
        v = g.get_coverage(t)
    x.step(f'series of {t.size} at {via}')
    v = np.asarray(v)
    x.require(v.shape == t.shape, 'one value per time', v.shape, t.shape)
    x.require(np.all(np.isfinite(v)), 'finite coverage')
    x.require(v.min() >= 0 and v.max() <= 1, 'coverage in [0,1]', v.min(), v.max())
    return v.astype(float)


def deviates(series, mean, times_h, scale, period):
    k = ref.granule_cov(times_h, scale, period)
    k = k + 1e-12 * np.eye(len(times_h))
    return np.linalg.solve(np.linalg.cholesky(k), series - mean)


def base(c, x):
    t = SAMPLE['even'] * 1.0
    sc = 1e-4
    s = ask(x, gran(0.5, sc, 1.0, c['seed']), t * u.hr, 'granulation')
    return deviates(s, 0.5, t, sc, 1.0)


def series(x, c):
    per = PERIOD[c['p']]
    sample = x.choose('sampling', list(SAMPLE))
    sc = x.choose('amplitude', SCALE) * per
    mean = x.choose('mean', [0.5, 0.4])
    unit, punit, shift = x.choose('units', [(u.hr, u.hr, 0.0), (u.min, u.s, 100.0), (u.day, u.min, -30.0), (u.s, u.day, 5000.0)])
    via = 'star' if unit in (u.hr, u.day) else 'granulation'
    z = base(c, x)
    t = SAMPLE[sample] * per
    g = gran(mean, sc, per, c['seed'], unit=punit)
    s = ask(x, g, ((t + shift * per) * u.hr).to(unit), via)
    sd = math.sqrt(sc / per * math.sqrt(0.5))
    k = ref.granule_cov(t, sc, per) + 1e-12 * np.eye(N)
    want = np.clip(mean + np.linalg.cholesky(k) @ z, 0, 1)
    x.close(s, want, f'series of seed {c["seed"]}', rtol=0, atol=2e-3 * sd)
    again = ask(x, gran(mean, sc, per, c['seed']), ((t + shift * per) * u.hr), via)
    x.close(again, s, 'the same seed and times give the same series', rtol=0, atol=1e-4 * sd)
    x.state(c['seed'], per, sample, sc, mean, s)


def variance(x, c):
    """All seeds of the range: the deviates have mean zero, unit variance, and all seeds differ."""
    zs = np.array([base(dict(seed=s), x) for s in range(*c['seeds'])])
    n = zs.size
    x.require(abs(zs.mean()) < 6 / math.sqrt(n), 'mean of the deviates of all seeds', zs.mean())
    x.require(abs((zs**2).mean() - 1) < 6 * math.sqrt(2 / n), 'variance of the deviates of all seeds', (zs**2).mean())
    corr = np.abs(zs.T @ zs / len(zs) - np.eye(N)).max()
    x.require(corr < 7 / math.sqrt(len(zs)), 'the deviates are uncorrelated', corr)
    x.require(len({tuple(np.round(z, 6)) for z in zs}) == len(zs), 'different seeds give different series')
    x.state(zs)


def gp(x, c):
    per = PERIOD[c['p']]
    sc = x.choose('amplitude', [1e-4, 2.5e-3, 0.3]) * per
    mean = x.choose('mean', [0.5, 0.0, 0.9])
    sample = x.choose('sampling', list(SAMPLE))
    t = SAMPLE[sample] * per
    g = S.granules.build_gp(dict(mean=mean, scale=sc, period=per), t)
    x.step('build_gp')
    k = ref.granule_cov(t, sc, per)
    have = np.asarray(g.covariance)
    x.close(have, k, 'covariance of the process', rtol=1e-4, atol=1e-4 * sc / per)
    x.close(np.asarray(g.mean) * np.ones(N), np.full(N, mean), 'mean of the process', rtol=1e-5, atol=1e-7)
    kern = np.asarray(S.granules.GranulationKernel(sc, per)(t, t))
    x.close(kern, k, 'kernel', rtol=1e-4, atol=1e-4 * sc / per)
    x.state(per, sc, mean, have)


def strong(x, c):
    """Amplitudes far beyond what [0, 1] can hold: the series is clipped, but never undefined."""
    per = PERIOD[c['p']]
    sc = x.choose('amplitude', [1.0, 100.0, 1e4, 1e6]) * per
    t = x.choose('sampling', [('even', SAMPLE['even']), ('mixed', SAMPLE['mixed']), ('one time', np.full(40, 2.5)), ('dense', np.linspace(0, 1e-3, 250)),
                              ('fine', np.linspace(0, 1, 250))])[1] * per
    g = gran(0.5, sc, per, 3)
    s = ask(x, g, (t + 7 * per) * u.hr, 'granulation')
    x.close(ask(x, g, (t + 7 * per) * u.hr, 'star'), s, 'a star reports the coverage of its granulation', rtol=0, atol=1e-6)
    if len(t) == N:
        sd = math.sqrt(sc / per)
        want = 0.5 + np.linalg.cholesky(ref.granule_cov(t, sc, per)) @ base(dict(seed=3), x)
        sure = np.abs(want - 0.5) > 0.5 + 0.01 * sd
        x.require(np.all((s > 0.5)[sure] == (want > 0.5)[sure]), 'side on which a strong series is clipped', s.tolist(), want.tolist())
    x.state('strong', per, sc, s)


def dense(x, c):
    """Samplings far denser than the period, long ones, and repeated times."""
    per = PERIOD[c['p']]
    step = x.choose('step', [0.02, 0.002, 1e-4, 0.0, 5.0])
    sc = x.choose('amplitude', [1e-4, 2e-3, 1.0]) * per
    seed = x.choose('seed', [0, 5, 9])
    t = np.arange(c['n']) * step * per + 2 * per
    s = ask(x, gran(0.5, sc, per, seed), t * u.hr, x.choose('via', ['star', 'granulation']))
    sd = math.sqrt(sc / per * math.sqrt(0.5))
    # correlation 1 - (f dt)^2/2 ...: neighbours of a dense series stay close, and the first value has the right spread
    if step in (0.0, 1e-4) and c['n'] > 1:
        x.require(np.abs(np.diff(s)).max() <= 0.02 * sd + 2e-5, 'a densely sampled series is continuous', np.abs(np.diff(s)).max(), sd)
    if c['n'] > 10 and step == 5.0:
        x.require(s.std() > 0.3 * min(sd, 0.3), 'the series fluctuates', s.std(), sd)
    x.state(c, step, sc, seed, s[:20])


def long_(x, c):
    """Long series: the deviates behind them are standard and independent."""
    per, n = PERIOD[c['p']], c['n']
    step = x.choose('step', [0.7, 5.0, 'uneven'])
    seed = x.choose('seed', [0, 5])
    i = np.arange(n)
    t = (i * 0.9 + 0.2 * np.sin(i * 1.7) if step == 'uneven' else i * step) * per
    sc = 4e-4 * per
    s = ask(x, gran(0.5, sc, per, seed), t * u.hr, 'star')
    z = deviates(s, 0.5, t, sc, per)
    x.require(abs(z.mean()) < 6 / math.sqrt(n), 'mean of the deviates of a long series', z.mean())
    x.require(abs((z**2).mean() - 1) < 6 * math.sqrt(2 / n), 'variance of the deviates of a long series', (z**2).mean())
    for lag in (1, 2, 3):
        x.require(abs((z[lag:] * z[:-lag]).mean()) < 6 / math.sqrt(n - lag), 'the deviates of a long series are independent', lag, (z[lag:] * z[:-lag]).mean())
    x.state('long', c, step, seed, s[:20])


REASK = [
    (0.0, 0.5, 1.4, 2.0, 3.7, 6.0), (0.0, 0.9, 1.8, 2.9, 4.1, 6.0), (0.0, 2.0, 1.4, 0.5, 3.7, 6.0), (6.0, 3.7, 2.0, 1.4, 0.5, 0.0),
    (10.0, 10.5, 11.4, 12.0, 13.7, 16.0), (0.0, 0.5, 1.4, 2.0, 3.7, 6.0, 7.0), (0.0, 0.5, 1.4),
]


def again(x, c):
    """One object asked again and again, and edited in between: every answer is that of a new object."""
    per = PERIOD[c['p']]
    seed = 5
    par = dict(mean=0.5, scale=4e-4 * per, period_h=per)
    g = gran(seed=seed, **par)
    star = S.star([], grid=(3, 4), granulation=g)
    asks = list(range(len(REASK))) + ['mean', 'scale', 'period', 'seed']
    for k in range(c['depth']):
        what = asks[c['first']] if k == 0 else x.choose('times', asks)
        if what == 'mean':
            par['mean'] = 0.4
            g.params = {**g.params, 'mean': 0.4}
            continue
        if what == 'scale':
            par['scale'] *= 2
            g.params = {**g.params, 'scale': g.params['scale'] * 2}
            continue
        if what == 'period':
            par['period_h'] *= 1.5
            g.params = {**g.params, 'period': g.params['period'] * 1.5}
            continue
        if what == 'seed':
            seed = 6
            g.seed = 6
            continue
        t = np.array(REASK[what]) * per * u.hr
        got = np.asarray(star.get_granulation_coverage(t) if k != 1 else g.get_coverage(t), float)
        x.step(f'ask {what}')
        want = ask(x, gran(seed=seed, **par), t, 'granulation')
        x.close(got, want, 'answer of an object asked before', rtol=0, atol=1e-6)
        x.state('again', c, what, got)


def off(x, c):
    kind = x.choose('variant', ['default', 'off', 'no difference', 'nothing', 'int zero', 'no difference in other unit', 'None'])
    t = x.choose('times', [np.arange(5.), np.array([3.]), np.arange(200) * 0.01])
    unit = x.choose('unit', [u.hr, u.day, u.s])
    star = S.star([], grid=(3, 4)) if kind == 'default' else S.star([], grid=(3, 4), granulation={
        'off': lambda: S.Granulation.off(seed=3), 'no difference': lambda: gran(0.4, 0.1, 1.0, 1, dteff=0.), 'nothing': lambda: gran(0.0, 0.0, 1.0, 1),
        'int zero': lambda: gran(0, 0, 1.0, 1), 'no difference in other unit': lambda: S.Granulation(0.3, 0.2, 3 * u.min, 0 * u.mK, seed=1),
        'None': lambda: None}[kind]())
    v = np.asarray(star.get_granulation_coverage(t * unit))
    x.step(kind)
    x.require(v.shape == t.shape and np.all(v == 0), f'no granulation ({kind})', v[:5])
    # each of the two alone is not off
    if kind == 'nothing':
        w = ask(x, gran(0.3, 0.0, 1.0, 1), t * unit, 'star')
        x.close(w, np.full(t.shape, 0.3), 'mean without amplitude', rtol=0, atol=1e-4)
        for d in (0.4, 1e-3, -0.5, -300., 1e-9):       # any difference of temperature counts
            w = ask(x, gran(0.3, 0.0, 1.0, 1, dteff=d), t * unit, 'star')
            x.close(w, np.full(t.shape, 0.3), f'temperature difference of {d} K', rtol=0, atol=1e-4)
        for m, sc in ((1e-3, 0.0), (1e-5, 0.0), (1e-5, 1e-12)):
            w = ask(x, gran(m, sc, 1.0, 1), t * unit, 'star')
            x.close(w, np.full(t.shape, m), f'mean coverage {m}', rtol=0, atol=0.5 * m)
        w = ask(x, gran(0.0, 1e-6, 1.0, 1), np.arange(60.) * 3 * u.hr, 'star')
        x.require(3e-4 < w.max() < 5e-3 and (w == 0).sum() > 5, 'small amplitude without mean', w.max())
        w = ask(x, gran(0.0, 0.01, 1.0, 1), np.arange(60.) * 3 * u.hr, 'star')
        x.require(w.max() > 0.01 and (w == 0).sum() > 5, 'amplitude without mean is clipped at zero', w.max())
    x.state(kind, str(unit), v)


def mean(x, c):
    """Changing the mean shifts the series; large amplitudes are clipped, nothing else."""
    seed = x.choose('seed', SEEDS)
    per = x.choose('period', PERIOD)
    m = x.choose('mean', [0, 1, 0.05, 0.97, 0.3, 1.5, -0.5])
    amp = x.choose('amplitude', [1e-4, 1e-2, 1.0, 50.]) * per
    t = SAMPLE['uneven'] * per * u.hr
    small = 1e-6 * per
    a = ask(x, gran(0.5, small, per, seed), t, 'granulation') - 0.5
    k1 = ref.granule_cov(SAMPLE['uneven'] * per, small, per) + 1e-12 * np.eye(N)
    k2 = ref.granule_cov(SAMPLE['uneven'] * per, amp, per) + 1e-12 * np.eye(N)
    z = np.linalg.solve(np.linalg.cholesky(k1), a)
    want = np.clip(m + np.linalg.cholesky(k2) @ z, 0, 1)
    got = ask(x, gran(m, amp, per, seed), t, 'star')
    x.close(got, want, f'mean {m}, amplitude {amp}', rtol=0, atol=2e-3 * math.sqrt(amp / per) + 1e-9)
    x.state(seed, per, m, amp, got)


def seeds(x, c):
    """Different seeds differ, also through the star."""
    t = np.arange(4.) * u.hr
    seen = {}
    for s in list(range(40)) + [10**6, 2**31 - 1]:
        v = ask(x, gran(0.5, 1e-3, 1.0, s), t, 'star')
        key = tuple(np.round(v, 9))
        x.require(key not in seen, 'different seeds give different series', s, seen.get(key))
        seen[key] = s
    x.state(sorted(seen))
