"""Every answer of the random generator is a choice point: one facula with the full product of three quantile letters over
all draws, two with the full product of two letters, three up to a deviation bound; the set of outcomes must be the full
product of required quantiles (radius and lifetime moving together). Births: the Poisson mean against coverage divided by
the time-integrated area of a typical facula for all combinations of settings, durations, radii and coverages. Bulk: up to
hundreds of faculae from draws that are all different and reach into the tails; every draw must be found again."""
import math
from statistics import NormalDist
import numpy as np
from mc import ref
from mc.qrng import QuantileRng, golden

Q3 = (0.5, 0.1, 0.9)
Q2 = (0.2, 0.8)
Z = NormalDist().inv_cdf
# peak radius [km], log sigma, depth [km], peak lifetime [h], log sigma
GENS = [(800., 0.2, 100., 6., 0.2), (5000., 0.05, 900., 30., 0.5), (100., 0.0, 10., 1., 0.3), (20000., 0.4, 50., 200., 0.0)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for i in range(len(GENS)):
        out.append(dict(mode='some', g=i, n=1, k=3))
        out.append(dict(mode='some', g=i, n=2, k=2))
        out.append(dict(mode='some', g=i, n=2, k=3, q=[0.1]))
        out.append(dict(mode='some', g=i, n=3, k=2))
        if deep:
            out += [dict(mode='some', g=i, n=4, k=2, q=[a]) for a in Q2]
            out += [dict(mode='some', g=i, n=3, k=3, q=[a, b]) for a in Q3 for b in Q3]
        for cov in (0.1, 0, 0.0, 0.4, 1, 1e-4):
            out.append(dict(mode='birth', g=i, cov=cov))
        for n in (1, 7, 60, 300) if not deep else (1, 2, 3, 4, 5, 7, 11, 23, 60, 128, 300, 1000):
            out.append(dict(mode='bulk', g=i, n=n))
    for via in ('generate', 'birth'):
        out.append(dict(mode='bulk', g=0, n=12000, huge=via))
    out.append(dict(mode='refuse', g=0))
    return out


def gen(c, rng, cov=0.1, units=0, **kw):
    r, rs, d, t, ts = GENS[c['g']]
    if units == 0:
        q = dict(dist_r_peak=r * u.km, depth=d * u.km, dist_life_peak=t * u.hr, floor_teff_slope=0.1 * u.K / u.km,
                 floor_teff_min_rad=50 * u.km, wall_teff_slope=-0.2 * u.K / u.km)
    else:
        q = dict(dist_r_peak=(r * u.km).to(u.R_sun), depth=(d * u.km).to(u.m), dist_life_peak=(t * u.hr).to(u.day),
                 floor_teff_slope=1e-4 * u.K / u.m, floor_teff_min_rad=5e4 * u.m, wall_teff_slope=-2e-4 * u.K / u.m)
    a = dict(dist_r_logsigma=rs, dist_life_logsigma=ts, floor_teff_base_dteff=-100 * u.K, wall_teff_intercept=110 * u.K,
             coverage=cov, dist='iso', grid_params=(3, 4), gridmaker=S.gridmaker((3, 4)), rng=rng)
    a.update(q)
    a.update(kw)
    return S.FaculaGenerator(**a)


def explore(x, c):
    {'some': some, 'birth': birth, 'refuse': refuse, 'bulk': bulk}[c['mode']](x, c)


def common(x, c, f, g):
    r, rs, d, t, ts = GENS[c['g']]
    x.require(bool(f.is_growing), 'a new facula is growing')
    x.close((f.radius / f.r_max).to_value(u.dimensionless_unscaled), math.exp(-2), 'a new facula starts at its maximum radius over e squared', rtol=1e-8)
    x.close(f.depth.to_value(u.km), d, 'depth', rtol=1e-8)
    x.close([f.floor_teff_slope.to_value(u.K / u.km), f.floor_teff_min_rad.to_value(u.km), f.floor_teff_base_dteff.to_value(u.K),
             f.wall_teff_slope.to_value(u.K / u.km), f.wall_teff_intercept.to_value(u.K)], [0.1, 50., -100., -0.2, 110.], 'temperature law', rtol=1e-8)
    x.require(f.gridmaker == g.gridmaker, 'a new facula lives on the grid of its generator')


def identify(x, c, f, alphabet):
    r, rs, d, t, ts = GENS[c['g']]
    adm = [(r * 10 ** (rs * Z(q)), t * 10 ** (ts * Z(q))) for q in alphabet]
    rm, life = f.r_max.to_value(u.km), f.lifetime.to_value(u.hr)
    lat, lon = f.lat.to_value(u.deg), f.lon.to_value(u.deg) % 360
    k = [i for i, (a, b) in enumerate(adm) if abs(rm - a) <= 1e-6 * a and abs(life - b) <= 1e-6 * b]
    x.require(k, 'maximum radius and lifetime are the same quantile of their distributions', rm, life, adm)
    out = [k[0]]
    for v, ok, name in ((lat, [math.degrees(math.asin(2 * q - 1)) for q in alphabet], 'latitude'), (lon, [360 * q for q in alphabet], 'longitude')):
        j = min(range(len(ok)), key=lambda i: abs(ok[i] - v))
        x.require(abs(ok[j] - v) <= 1e-6 * abs(ok[j]) + 1e-6, f'{name} is a quantile of its distribution', v, ok)
        out.append(j)
    return tuple(out)


def some(x, c):
    n = c['n']
    alphabet = Q3 if c['k'] == 3 else Q2
    fixed = list(c.get('q', []))

    def pick(kind):
        if fixed:
            return fixed.pop(0)
        return x.choose(kind, alphabet)
    g = gen(c, QuantileRng(pick), units=n % 2)
    new = g.generate_faculae(n)
    x.step('generate')
    x.require(len(new) == n, 'as many faculae as asked for', len(new), n)
    out = []
    for f in new:
        common(x, c, f, g)
        out.append(identify(x, c, f, alphabet))
    x.outcomes.append(tuple(out))
    x.state(out)


def finish(x, c, outcomes):
    if c['mode'] != 'some' or not outcomes:
        return
    free = c['k'] ** (3 * c['n'] - len(c.get('q', [])))
    x.require(len(set(outcomes)) == free == len(outcomes), 'all combinations of the drawn quantities occur, each once',
              len(set(outcomes)), len(outcomes), free)


def birth(x, c):
    r, rs, d, tl, ts = GENS[c['g']]
    cov = c['cov']
    units = x.choose('units', [0, 1])
    t = x.choose('time', [0.7 * u.day, 0 * u.day, 5 * u.hr, 3 * u.day, 90 * u.min, 2 * u.yr, 1e-3 * u.s])
    rad = x.choose('radius', [0.2 * u.R_sun, 139140 * u.km, 0.1 * u.R_sun, 1.1 * u.R_sun])
    n = x.choose('drawn', [1, 0, 3])
    got = []

    class R(QuantileRng):
        def poisson_answer(self, q, lam):
            got.append(lam)
            return n
    via = x.choose('via', ['generator', 'star'])
    g = gen(c, R(lambda kind: 0.6), cov, units)
    rk = rad.to_value(u.km)
    # area pi r^2, r rising from rmax/e^2 to rmax and back, each within one lifetime
    life_area = math.pi * r * r * (1 - math.exp(-4)) / 4 * tl * 2
    lam = cov * 4 * math.pi * rk * rk * t.to_value(u.hr) / life_area
    x.close(g.get_n_faculae_expected(t, rad), lam, 'expected number of births', rtol=1e-7)
    if via == 'generator':
        new = g.birth_faculae(t, rad)
    else:
        star = S.star([], grid=(3, 4), r_km=rk, fac_generator=g)
        old = S.facula(grid=(3, 4))
        star.add_fac(old)
        star.birth_faculae(t)
        x.require(star.faculae.faculae[0] is old, 'births keep the faculae that are there')
        new = star.faculae.faculae[1:]
    x.step('birth')
    x.require(got or lam == 0, 'the number of births is a Poisson draw')
    if got:
        x.require(len(got) == 1, 'one Poisson draw')
        x.close(got[0], lam, 'mean of the Poisson draw', rtol=1e-7)
        x.require(len(new) == n, 'as many faculae as drawn', len(new), n)
    else:
        x.require(len(new) == 0, 'no faculae without a draw')
    for f in new:
        common(x, c, f, g)
    x.state(c['g'], cov, lam, len(new))


def bulk(x, c):
    r, rs, d, t, ts = GENS[c['g']]
    n = c['n']
    huge = c.get('huge')
    via = x.choose('via', [huge] if huge else ['generate', 'birth'])
    start = x.choose('start', [0, 1000, 5000, 7919][:1 if huge else None])
    seq = golden(start)
    used = {'uniform': [], 'normal': []}

    class R(QuantileRng):
        def poisson_answer(self, q, lam):
            return n

    def pick(kind):
        q = next(seq)
        if kind in used:
            used[kind].append(q)
        return q
    g = gen(c, R(pick), units=n % 2)
    new = list(g.generate_faculae(n) if via == 'generate' else g.birth_faculae(1 * u.day, 0.3 * u.R_sun))
    x.step(f'{via} {n}')
    x.require(len(new) == n, 'as many faculae as drawn', len(new), n)
    Phi = NormalDist().cdf
    nrm, uni = [], []
    for f in new:
        common(x, c, f, g)
        zr = math.log10(f.r_max.to_value(u.km) / r)
        zt = math.log10(f.lifetime.to_value(u.hr) / t)
        x.require(abs(zr * ts - zt * rs) < 1e-9 * (1 + abs(zr) + abs(zt)), 'radius and lifetime are driven by the same draw', zr, zt)
        x.require((rs > 0 or abs(zr) < 1e-9) and (ts > 0 or abs(zt) < 1e-9), 'no spread where none is asked for')
        nrm.append(Phi(zr / rs if rs else zt / ts))
        uni.append((math.sin(f.lat.to_value(u.rad)) + 1) / 2)
        uni.append(f.lon.to_value(u.deg) / 360 % 1)
    for have, drawn, what in ((nrm, used['normal'], 'normal'), (uni, used['uniform'], 'uniform')):
        x.require(len(have) == len(drawn), f'every facula has its own {what} draws', len(have), len(drawn))
        x.close(np.sort(have), np.sort(drawn), f'every quantity is the requested quantile of its {what} draw', rtol=0, atol=1e-6)
    x.state(c, via, start, nrm[:20], uni[:20])


def refuse(x, c):
    rng = QuantileRng(lambda k: 0.5)
    for cov in ('0.1', None, [0.1], 0.1 * u.m, (0.1,), {}):
        x.refuses(lambda: gen(c, rng, cov), TypeError, f'coverage {cov!r}')
    for d in ('isotropic', '', 'ISO', 'random'):
        x.refuses(lambda: gen(c, rng, dist=d).generate_faculae(1), ValueError, f'distribution {d!r}')
    x.refuses(lambda: gen(c, rng, dist='solar').generate_faculae(1), (NotImplementedError, ValueError), 'distribution solar')
    g = gen(c, rng)
    x.require(len(g.generate_faculae(0)) == 0, 'no faculae if none are asked for')
    x.step('refuse')
    x.state('refuse')
