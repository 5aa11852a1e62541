"""Every answer of the random generator is a choice point. Spots: the full product of quantile letters over all draws for
one and two spots (iso and solar), including umbra ratios drawn at or below zero; the set of outcomes must be the full
product of the required quantiles. Births: Poisson mean against coverage / time-integrated area of a typical spot for all
combinations of rates, areas, durations, radii and coverages. Mature spots: all draw sequences up to a deviation bound.
Bulk: up to hundreds of spots from draws that are all different and reach into the tails; every draw must be found again."""
import math
from statistics import NormalDist
import numpy as np
from mc import ref
from mc.qrng import QuantileRng, golden, poisson_quantile

Q3 = (0.5, 0.1, 0.9)
Q2 = (0.2, 0.8)
Z = NormalDist().inv_cdf
BAD = 1e-8            # quantile of a non-positive umbra ratio

# mean area [MSH], log sigma, init area [MSH], growth [1/day], decay [MSH/day]
GENS = [(500., 0.2, 10., 0.52, 10.89), (2000., 0.6, 50., 0.1, 100.), (300., 0.0, 300., 2.0, 5.), (80., 0.3, 20., 0.52, 0.),
        (80., 0.3, 20., 0., 10.), (80., 0.3, 20., 0., 0.), (60., 0.3, 60., 0., 10.), (1000., 1.0, 1., 3., 0.5),
        (200., 0.2, 20., 1e-4, 3e-3), (200., 0.2, 20., 50., 1e5), (1e5, 0.3, 1e3, 0.5, 2e3), (3., 0.1, 0.5, 1.5, 1.)]


def setup():
    global S, u, MSH
    from mc import sut as S
    from astropy import units as u
    MSH = S.MSH


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for i in ((0, 1, 3) if not deep else range(len(GENS))):
        for dist in ('iso', 'solar'):
            for first in Q3:
                out.append(dict(mode='one', g=i, dist=dist, q=[first]))
            for first in Q2:
                for second in Q2:
                    out.append(dict(mode='two', g=i, dist=dist, q=[first, second]))
    for dist in ('iso', 'solar'):
        for n in (1, 2, 3):
            out.append(dict(mode='ratio', g=0, dist=dist, n=n, bound=4 if deep else 3))
    out.append(dict(mode='hemi', g=0))
    for i in range(len(GENS)):
        out.append(dict(mode='birth', g=i))
    for i in range(len(GENS)):
        for cov in (0.0, 1e-6, 0.003, 0.1, 0.6, 1.0):
            out.append(dict(mode='mature', g=i, cov=cov, bound=1 if i > 7 else 2 if deep or cov in (0.003, 1.0) else 1))
    for i in range(len(GENS)):
        for n in (1, 7) if i > 7 else (1, 7, 60, 300) if not deep else (1, 2, 3, 4, 5, 7, 11, 23, 60, 128, 300, 1000):
            out.append(dict(mode='bulk', g=i, n=n))
    for via in ('generate', 'birth', 'mature'):
        out.append(dict(mode='bulk', g=0, n=1500 if via == 'mature' else 12000, huge=via))
    out.append(dict(mode='refuse', g=0))
    return out


def gen(c, rng, dist='iso', cov=0.1, units=0, gm=None):
    a, sg, a0, g, w = GENS[c['g']]
    if units == 0:
        kw = dict(dist_area_mean=a * MSH, init_area=a0 * MSH, growth_rate=g / u.day, decay_rate=w * MSH / u.day)
    else:
        kw = dict(dist_area_mean=(a * MSH).to(u.km**2), init_area=(a0 * MSH).to(u.m**2), growth_rate=(g / u.day).to(1 / u.hr),
                  decay_rate=(w * MSH / u.day).to(u.km**2 / u.s))
    return S.SpotGenerator(dist_area_logsigma=sg, umbra_teff=2500 * u.K, penumbra_teff=2700 * u.K, distribution=dist, coverage=cov,
                           grid_params=(3, 4), gridmaker=gm or S.gridmaker((3, 4)), rng=rng, **kw)


def explore(x, c):
    {'one': some, 'two': some, 'ratio': ratio, 'hemi': hemi, 'birth': birth, 'mature': mature, 'refuse': refuse, 'bulk': bulk}[c['mode']](x, c)


def r6(v):
    return float(f'{v:.6e}')


def seen(s):
    return (s.area_max.to_value(MSH), s.total_area_over_umbra_area, s.coords['lat'].to_value(u.deg), s.coords['lon'].to_value(u.deg) % 360)


def common(x, c, s, g):
    a, sg, a0, gr, w = GENS[c['g']]
    x.require(s.is_growing is True or s.is_growing == True, 'a new spot is growing')
    x.close(s.area_current.to_value(MSH), a0, 'a new spot has the initial area', rtol=1e-8)
    x.close([s.teff_umbra.to_value(u.K)], [2500.], 'umbra temperature')
    x.close([s.teff_penumbra.to_value(u.K)], [2700.], 'penumbra temperature')
    x.close(s.growth_rate.to_value(1 / u.day), gr, 'growth rate', rtol=1e-8)
    x.close(s.decay_rate.to_value(MSH / u.day), w, 'decay rate', rtol=1e-8)
    x.require(s.gridmaker == g.gridmaker, 'a new spot lives on the grid of its generator')
    x.require(s.total_area_over_umbra_area > 0, 'the umbra ratio is positive', s.total_area_over_umbra_area)


def admissible(c, dist, alphabet):
    a, sg, *_ = GENS[c['g']]
    amax = [a * math.exp(sg * Z(q)) for q in alphabet]
    rat = [5 + Z(q) for q in alphabet]
    lon = [360 * q for q in alphabet]
    if dist == 'iso':
        lat = [math.degrees(math.asin(2 * q - 1)) for q in alphabet]
    else:
        lat = [s * (15 + 5 * Z(q)) for q in alphabet for s in (1, -1)]
    return [amax, rat, lat, lon]


NAMES = ('maximum area', 'umbra ratio', 'latitude', 'longitude')


def identify(x, s, adm):
    out = []
    for v, name, ok in zip(seen(s), NAMES, adm):
        k = min(range(len(ok)), key=lambda k: abs(ok[k] - v))
        x.require(abs(v - ok[k]) <= 1e-6 * abs(ok[k]) + 1e-6, f'{name} is a quantile of its distribution', v, ok)
        out.append(k)
    return tuple(out)


def some(x, c):
    n, alphabet = (1, Q3) if c['mode'] == 'one' else (2, Q2)
    i = [0]

    def pick(kind):
        if kind in ('choice', 'integers'):
            return x.choose('hemisphere', [0.25, 0.75])
        i[0] += 1
        if i[0] <= len(c['q']):
            return c['q'][i[0] - 1]
        return x.choose(kind, alphabet)
    g = gen(c, QuantileRng(pick), c['dist'])
    spots = g.generate_spots(n)
    x.step('generate')
    x.require(len(spots) == n, 'as many spots as asked for', len(spots), n)
    adm = admissible(c, c['dist'], alphabet)
    out = []
    for s in spots:
        common(x, c, s, g)
        out.append(identify(x, s, adm))
    x.outcomes.append(tuple(out))
    x.state(out)


def finish(x, c, outcomes):
    if not outcomes:
        return
    if c['mode'] == 'hemi':
        north = sum(1 for v in outcomes if v > 0)
        x.require(2 * north == len(outcomes), 'northern and southern spots are equally likely', north, len(outcomes))
        return
    if c['mode'] not in ('one', 'two'):
        return
    n, k = (1, 3) if c['mode'] == 'one' else (2, 2)
    fixed = len(c['q'])
    free = k ** (4 * n - fixed)
    if c['dist'] == 'solar':
        free *= 2 ** n
    if GENS[c['g']][1] == 0:
        return      # the area does not depend on its draw
    x.require(len(set(outcomes)) == free, 'all combinations of the drawn quantities occur', len(set(outcomes)), free)
    x.require(len(outcomes) == free, 'different draws give different spots', len(outcomes), free)


def hemi(x, c):
    """The hemisphere is even for a fine alphabet."""
    def pick(kind):
        if kind in ('choice', 'integers', 'uniform'):
            return x.choose(kind, [0.05, 0.15, 0.25, 0.35, 0.45, 0.55, 0.65, 0.75, 0.85, 0.95])
        return 0.5
    g = gen(c, QuantileRng(pick), 'solar')
    s = g.generate_spots(1)[0]
    x.step('generate')
    lat = s.coords['lat'].to_value(u.deg)
    x.close(abs(lat), 15.0, 'median distance from the equator', rtol=1e-6)
    x.outcomes.append(lat)
    x.state(lat, s.coords['lon'])


def ratio(x, c):
    n = c['n']
    bad = [0]

    def pick(kind):
        if kind == 'normal':
            opts = [0.5, 0.1, 0.9] + ([BAD] if bad[0] < 2 else [])
            q = x.choose(kind, opts, dev=True)
            bad[0] += q == BAD
            return q
        if kind in ('choice', 'integers'):
            return x.choose('hemisphere', [0.25, 0.75], dev=True)
        return x.choose(kind, Q3, dev=True)
    g = gen(c, QuantileRng(pick), c['dist'])
    spots = g.generate_spots(n)
    x.step('generate')
    x.require(len(spots) == n, 'as many spots as asked for', len(spots), n)
    adm = admissible(c, c['dist'], (0.5, 0.1, 0.9, BAD))
    adm[1] = [v for v in adm[1] if v > 0]
    for s in spots:
        common(x, c, s, g)
        identify(x, s, adm)
    x.state([seen(s) for s in spots])


def lifetime_area(i):
    """Time-integrated area of a typical spot [MSH day]; infinite if it never ends."""
    a, sg, a0, g, w = GENS[i]
    if w == 0 or g == 0:
        return math.inf
    return (a - a0) / math.log(1 + g) + a * a / (2 * w)


def birth(x, c):
    units = x.choose('units', [0, 1])
    cov = x.choose('coverage', [0.1, 0, 0.0, 0.37, 1, 1e-6])
    t = x.choose('time', [0.7 * u.day, 0 * u.day, 5 * u.hr, 3 * u.day, 90 * u.min, 2 * u.yr, 1e-3 * u.s])
    rad = x.choose('radius', [0.2 * u.R_sun, 139140 * u.km, 0.1 * u.R_sun, 1.1 * u.R_sun])
    n = x.choose('drawn', [1, 0, 3])
    got = []

    class R(QuantileRng):
        def poisson_answer(self, q, lam):
            got.append(lam)
            return n
    via = x.choose('via', ['generator', 'star'])
    rng = R(lambda kind: 0.6)
    g = gen(c, rng, 'iso', cov, units)
    rk = rad.to_value(u.km)
    lam = cov * 4 * math.pi * (rk ** 2 / ref.MSH_KM2) * t.to_value(u.day) / lifetime_area(c['g'])
    x.close(g.get_n_spots_to_birth(t, rad), lam, 'expected number of births', rtol=1e-7, atol=0)
    if via == 'generator':
        new = g.birth_spots(t, rad)
    else:
        star = S.star([], grid=(3, 4), r_km=rk, spot_generator=g)
        old = S.spot(grid=(3, 4))
        star.add_spot(old)
        star.birth_spots(t)
        x.require(star.spots.spots[0] is old, 'births keep the spots that are there')
        new = star.spots.spots[1:]
    x.step('birth')
    x.require(got or lam == 0, 'the number of births is a Poisson draw')
    if got:
        x.require(len(got) == 1, 'one Poisson draw')
        x.close(got[0], lam, 'mean of the Poisson draw', rtol=1e-7)
        x.require(len(new) == n, 'as many spots as drawn', len(new), n)
    else:
        x.require(len(new) == 0, 'no spots without a draw')
    for s in new:
        common(x, c, s, g)
    x.state(c['g'], cov, lam, len(new))


def mature(x, c):
    a, sg, a0, gr, w = GENS[c['g']]
    cov = c['cov']
    # star so small that a few spots suffice: a typical spot covers about a tenth of what is asked for at most
    typical = a * ref.MSH_KM2
    rk = math.sqrt(typical / (4 * math.pi * max(cov, 0.01) * c.get('typ', 0.8)))
    k = [0]

    def pick(kind):
        k[0] += 1
        if kind in ('choice', 'integers'):
            return x.choose('hemisphere', [0.25, 0.75], dev=True)
        return x.choose(kind, (0.5, 0.1, 0.9, 0.35), dev=True)
    via, dist, units = x.choose('variant', [('generator', 'iso', 0), ('star', 'solar', 1)])
    g = gen(c, QuantileRng(pick), dist, units=units)
    rad = rk * u.km
    if via == 'generator':
        spots = list(g.generate_mature_spots(cov, rad))
    else:
        star = S.star([], grid=(3, 4), r_km=rk, spot_generator=g)
        first = S.spot(grid=(3, 4))
        star.add_spot(first)
        star.generate_mature_spots(cov)
        x.require(star.spots.spots[0] is first, 'spots that are there stay')
        spots = list(star.spots.spots[1:])
    x.step('mature')
    shares = [s.area_current.to_value(u.km**2) / (4 * math.pi * rk**2) for s in spots]
    total = sum(shares)
    x.require(total >= cov * (1 - 1e-9), 'mature spots cover the requested share', total, cov)
    if spots:
        x.require(total - shares[-1] < cov * (1 + 1e-9), 'no spot more than needed', total, shares[-1], cov)
    if cov == 0:
        x.require(not spots, 'no spots for zero coverage')
    adm = admissible(c, dist, (0.5, 0.1, 0.9, 0.35))
    life = math.inf if w == 0 or gr == 0 else a / w - math.log(a0 / a) / gr
    for s in spots:
        i = identify(x, s, adm)
        amax = adm[0][i[0]]
        have = s.area_current.to_value(MSH)
        if w == 0 or gr == 0:
            ok = [a0 + q * (amax - a0) for q in (0.5, 0.1, 0.9, 0.35)]
        else:
            m = ref.Spot(a0, amax, gr, w, True) if amax >= a0 else None
            if m is None:
                continue
            ok = [m.area_at(q * life) for q in (0.5, 0.1, 0.9, 0.35)]
        x.require(any(abs(have - v) <= 1e-6 * max(amax, v) for v in ok), 'a mature spot is a generated spot aged by a share of the mean lifetime',
                  have, ok)
    x.state(c['g'], cov, shares)


def bulk(x, c):
    a, sg, a0, gr, w = GENS[c['g']]
    n = c['n']
    huge = c.get('huge')
    dist = x.choose('distribution', ['iso', 'solar'][:1 if huge else None])
    via = x.choose('via', [huge] if huge else ['generate', 'birth', 'mature'])
    start = x.choose('start', [0, 1000, 5000, 7919][:1 if huge else None])
    seq = golden(start)
    used = {'uniform': [], 'normal': []}
    count = []

    class R(QuantileRng):
        def poisson_answer(self, q, lam):
            count.append(lam)
            return n

    def pick(kind):
        q = next(seq)
        if kind in used:
            used[kind].append(q)
        return q
    g = gen(c, R(pick), dist)
    typical = a * ref.MSH_KM2
    rk = math.sqrt(typical * n / (4 * math.pi * 0.5))
    if via == 'generate':
        spots = list(g.generate_spots(n))
    elif via == 'birth':
        spots = list(g.birth_spots(30 * u.day, rk * u.km))
        if not count:
            x.require(len(spots) == 0, 'no spots without a draw')
            return
    else:
        spots = list(g.generate_mature_spots(0.5, rk * u.km))
    x.step(f'{via} {n}')
    if via != 'mature':
        x.require(len(spots) == n, 'as many spots as drawn', len(spots), n)
    else:
        shares = [s.area_current.to_value(u.km**2) / (4 * math.pi * rk**2) for s in spots]
        x.require(sum(shares) >= 0.5 * (1 - 1e-9) and sum(shares[:-1]) < 0.5 * (1 + 1e-9), 'mature spots cover the requested share and no spot is more than needed',
                  sum(shares), shares[-1])
    Phi = NormalDist().cdf
    nrm, uni = [], []
    for s in spots:
        if via != 'mature':
            common(x, c, s, g)
        if sg:
            nrm.append(Phi(math.log(s.area_max.to_value(MSH) / a) / sg))
        nrm.append(Phi(s.total_area_over_umbra_area - 5))
        lat = s.coords['lat'].to_value(u.deg)
        if dist == 'iso':
            uni.append((math.sin(math.radians(lat)) + 1) / 2)
        else:
            nrm.append(min((Phi((lat - 15) / 5), Phi((-lat - 15) / 5)), key=lambda v: min(abs(v - q) for q in used['normal'])))
        uni.append(s.coords['lon'].to_value(u.deg) / 360 % 1)
    for have, drawn, what in ((nrm, used['normal'], 'normal'), (uni, used['uniform'], 'uniform')):
        x.require(len(have) <= len(drawn), f'every spot has its own {what} draws', len(have), len(drawn))
        d = np.sort(drawn)
        h = np.sort(have)
        k = np.clip(np.searchsorted(d, h), 1, len(d) - 1) if len(d) > 1 else np.zeros(len(h), int)
        near = np.where(np.abs(d[k] - h) < np.abs(d[k - 1] - h), k, k - 1) if len(d) > 1 else k
        x.require(np.all(np.abs(d[near] - h) < 1e-6), f'every quantity is the requested quantile of a {what} draw', h[np.abs(d[near] - h) >= 1e-6][:3])
        spare = len(set(np.round(d, 5)))
        x.require(len(set(near.tolist())) == len(h) or spare < len(d), f'no {what} draw is used twice', len(set(near.tolist())), len(h))
    if n >= 60 and dist == 'solar':
        north = sum(1 for s in spots if s.coords['lat'] > 0 * u.deg)
        x.require(0.2 * len(spots) < north < 0.8 * len(spots), 'spots on both hemispheres', north, len(spots))
    if via == 'mature' and w and gr:
        life = a / w - math.log(a0 / a) / gr
        ages = np.sort(used['uniform'])
        for s in spots[:60]:
            amax = s.area_max.to_value(MSH)
            if amax < a0:
                continue
            m = ref.Spot(a0, amax, gr, w, True)
            ok = np.array([m.area_at(q * life) for q in ages])
            x.require(np.min(np.abs(ok - s.area_current.to_value(MSH))) <= 1e-6 * amax, 'a mature spot is a generated spot aged by a share of the mean lifetime')
    x.state(c, dist, via, start, nrm[:20], uni[:20])


def refuse(x, c):
    g = gen(c, QuantileRng(lambda k: 0.5))
    rad = 0.2 * u.R_sun
    for cov in (1.0001, 2, -0.001, -1):
        x.refuses(lambda: g.generate_mature_spots(cov, rad), ValueError, f'coverage {cov}')
        star = S.star([], grid=(3, 4), spot_generator=g)
        x.refuses(lambda: star.generate_mature_spots(cov), ValueError, f'coverage {cov} of a star')
        x.require(len(star.spots.spots) == 0, 'a refused request adds no spots')
    for d in ('isotropic', '', 'Solar', 'ISO', None):
        def make():
            gg = gen(c, QuantileRng(lambda k: 0.5), d)
            gg.generate_spots(1)
        x.refuses(make, (ValueError, TypeError, NotImplementedError), f'distribution {d!r}')
    x.step('refuse')
    spots = g.generate_spots(0)
    x.require(len(spots) == 0, 'no spots if none are asked for')
    x.state('refuse')
