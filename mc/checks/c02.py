"""(shares) every combination of feature set, grid, limb darkening, observer and planet against a direct sum over the grid
with 3-D vectors; (turn) the same star turned with its observer; (far) features added where the observer cannot see them;
(histories) all sequences of ageing, adding, birthing and looking up to the depth, where after every step the coverage
and average temperature must be those of a star built afresh from the present features; (views) all ordered pairs of
viewpoints, planets and granulation fractions that are easily mistaken for one another, on one star.
"""
import itertools
import math
import numpy as np
from mc import ref
from mc.qrng import ScriptedRng

GRIDS = [(9, 14), 130, (5, 6), 60]
OBS = [(0., 0.), (90., 0.), (20., 75.), (-90., 10.), (-33., 190.), (5., -40.), (-70., 500.)]
LD = [(0., 0.), (0.4, 0.2), (1.0, 0.0), (0.1, 0.9), (-0.3, 0.2)]
SPOTS = [
    [], [(10.3, 20.1, 40., 2400., 2700.)], [(0.7, 0.3, 37., 2500., 2600.), (-41., 121., 51., 2400., 2800.), (80., 33., 47., 2300., 2750.)],
    [(61., 201.3, 77., 2450., 2450.), (-63., 77.7, 52., 2450., 2810.5), (3., 3., 10., 2500., 2510.)],
    [(-60. + 17.3 * (i % 8), 24.7 * i, 22., 2300. + 21.7 * i, 2700. + 13.3 * i) for i in range(16)],
]
FACS = [
    [], [(0.4, 40.2, 41., 0.6, -100., 200.)], [(0.4, 40.2, 51., 0.6, -200., 100.), (25.2, 10.7, 45., 1.5, -300., 50.), (-70., 180.6, 44., 0.2, -20., 444.)],
    [(70. - 19.1 * (i % 8), 31.3 * i, 21., 0.3 + 0.2 * i, -30. - 17. * i, 40. + 23. * i) for i in range(9)],
]
PLANET = [None, (8., 0.5, 180.5, 90.), (8., 0.6, 176., 88.)]
STEP = 360. / 14


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    deep = tier == 'thorough'
    out = []
    grids = GRIDS if not deep else GRIDS + [500, (20, 31)]
    for g, s, f in itertools.product(grids, range(len(SPOTS)), range(len(FACS))):
        out.append(dict(mode='shares', grid=g, spots=s, facs=f))
    for g, s, f, (t, r) in itertools.product(grids[:2], range(1, len(SPOTS)), (0, 2), [(3210.37, 0.6), (3899., 1.9)]):
        out.append(dict(mode='shares', grid=g, spots=s, facs=f, teff=t, rad=r))
    for g, s in itertools.product([(40, 60), 1500], (2, 4)):
        out.append(dict(mode='shares', grid=g, spots=s, facs=s - 1, few=True))
    for g, s, f in itertools.product([(9, 14), 130], range(1, len(SPOTS)), range(len(FACS))):
        out.append(dict(mode='turn', grid=g, spots=s, facs=f))
        out.append(dict(mode='far', grid=g, spots=s, facs=f))
    # long periodic histories: every word over the operations, repeated
    for g, n in itertools.product([(7, 9), 70], (1, 2, 3) if deep else (1, 2)):
        for first in OPS:
            out.append(dict(mode='history', grid=g, spots=1, facs=1, first=first, word=n, depth=40 if deep else 16))
    for g, (s, f) in itertools.product([(7, 9), 70], itertools.product((0, 2), (0, 2)) if deep else [(0, 0), (2, 2)]):
        for first in OPS:
            out.append(dict(mode='history', grid=g, spots=s, facs=f, first=first, depth=4 if deep else 3 if (s == 2) == (g == 70) else 2))
    for g, ld in itertools.product([(9, 14), 130], (1, 3)):
        out.append(dict(mode='views', grid=g, spots=2, facs=2, ld=ld))
    return out


def mkspot(p, gm, dlon=0.):
    a, b, sz, tu, tp = p
    return S.spot(lat=a, lon=b + dlon, area=S.cap_area(sz), area_max=1.3 * S.cap_area(sz), tu=tu, tp=tp, ratio=3., gm=gm,
                  g=0.3 / u.day, w=0.3 * S.cap_area(sz) / u.day)


def mkfac(p, gm, dlon=0.):
    a, b, sz, dr, tf, tw = p
    r = math.radians(sz) * S.R_KM * u.km
    return S.facula(lat=a, lon=b + dlon, r=r, r_max=1.2 * r, depth=dr * r, fmin=0.6 * r, fbase=tf * u.K, wint=tw * u.K,
                    life=2 * u.day, fslope=1e-4 * u.K / u.km, gm=gm)


def build(c, gm, ld=(0., 0.), dlon=0., extra=(), **kw):
    return S.star([mkspot(p, gm, dlon) for p in SPOTS[c['spots']]] + list(extra), [mkfac(p, gm, dlon) for p in FACS[c['facs']]], grid=c['grid'],
                  u1=ld[0], u2=ld[1], **kw)


def values(d):
    out = {}
    for k, v in d.items():
        t = round(S.keyval(k), 2)
        out[t] = out.get(t, 0) + float(v)
    return out


def planet(p):
    if p is None:
        return {}
    a, r, ph, inc = p
    return dict(orbit_radius=a * S.R_KM * u.km, planet_radius=r * S.R_KM * u.km, phase=ph * u.deg, inclination=inc * u.deg)


def direct(tmap, gm, obs, ld, mask=None):
    lat, lon = S.points(gm)
    _, _, mu = ref.project(math.radians(obs[0]), math.radians(obs[1]), lat, lon)
    w = np.asarray(gm.area, float) * np.where(mu > 0, mu, 0) * ref.limb(mu, *ld)
    tot, cov = {}, {}
    for t in np.unique(tmap):
        k = round(float(t), 2)
        tot[k] = tot.get(k, 0) + w[tmap == t].sum() / w.sum()
        if mask is not None:
            cov[k] = cov.get(k, 0) + (w * mask)[tmap == t].sum() / w.sum()
    return tot, cov


def same(x, got, want, what, rtol=1e-9, atol=1e-11):
    for k in set(got) | set(want):
        x.close(got.get(k, 0.0), want.get(k, 0.0), f'{what} of {k} K', rtol=rtol, atol=atol)


def mean_teff(d):
    return (sum(v * k**4 for k, v in d.items()) / sum(d.values())) ** 0.25


def explore(x, c):
    {'shares': shares, 'turn': turn, 'far': far, 'history': history, 'views': views}[c['mode']](x, c)


def shares(x, c):
    gm = S.gridmaker(c['grid'])
    obs = x.choose('observer', OBS if not c.get('few') else OBS[1:5])
    ld = x.choose('limb', LD if not c.get('few') else LD[1:2])
    star = build(c, gm, ld, teff=c.get('teff', 3000.), r_km=c.get('rad', 1.0) * S.R_KM)
    tmap = star.add_faculae_to_map(obs[0] * u.deg, obs[1] * u.deg).to_value(u.K)
    for p in PLANET:
        kw = planet(p)
        tot, cov, _ = star.calc_coverage(S.obs(*obs), 0.0, **kw)
        x.step('coverage')
        mask = np.zeros(tmap.shape)
        if p is not None:
            mask, _ = star.get_transit_mask(obs[0] * u.deg, obs[1] * u.deg, kw['orbit_radius'], kw['planet_radius'], kw['phase'], kw['inclination'])
            mask = np.asarray(mask, float)
        wt, wc = direct(tmap, gm, obs, ld, mask)
        same(x, values(tot), wt, 'share')
        same(x, values(cov), wc, 'covered share')
        x.state(c['grid'], c['spots'], c['facs'], obs, ld, p, sorted(values(tot).items()))
    x.close(star.average_teff(S.obs(*obs)).to_value(u.K), mean_teff(wt), 'average temperature', rtol=1e-6)


VIEWS = [(20., 75.), (-20., 75.), (20., 255.), (20., -75.), (20., 435.), (75., 20.), (20.4, 75.3), (160., 255.), (0., 75.), (20., 0.)]


def views(x, c):
    gm = S.gridmaker(c['grid'])
    ld = LD[c['ld']]
    star = build(c, gm, ld)
    first = x.choose('first view', VIEWS)
    p1 = x.choose('first planet', PLANET)
    second = x.choose('second view', VIEWS)
    fresh_ = build(c, gm, ld)
    star.calc_coverage(S.obs(*first), 0.25, **planet(p1))
    star.average_teff(S.obs(*first))
    x.step('look')
    tmap = fresh_.add_faculae_to_map(second[0] * u.deg, second[1] * u.deg).to_value(u.K)
    for p in PLANET:
        kw = planet(p)
        tot, cov, _ = star.calc_coverage(S.obs(*second), 0.0, **kw)
        x.step('look again')
        mask = np.zeros(tmap.shape)
        if p is not None:
            mask = np.asarray(fresh_.get_transit_mask(second[0] * u.deg, second[1] * u.deg, kw['orbit_radius'], kw['planet_radius'], kw['phase'],
                                                      kw['inclination'])[0], float)
        wt, wc = direct(tmap, gm, second, ld, mask)
        same(x, values(tot), wt, 'share from the second viewpoint')
        same(x, values(cov), wc, 'covered share from the second viewpoint')
    x.close(star.average_teff(S.obs(*second)).to_value(u.K), mean_teff(wt), 'average temperature from the second viewpoint', rtol=1e-6)
    x.state(c, first, second, p1, sorted(wt.items()))


def turn(x, c):
    gm = S.gridmaker(c['grid'])
    obs = x.choose('observer', OBS[:5])
    ld = LD[1]
    rect = isinstance(c['grid'], (list, tuple))
    by = x.choose('turn', ([STEP, -5 * STEP, 7 * STEP] if rect else []) + [360., -720.])
    a = values(build(c, gm, ld).calc_coverage(S.obs(*obs))[0])
    b = values(build(c, gm, ld, dlon=by).calc_coverage(S.obs(obs[0], obs[1] + by))[0])
    x.step(f'turn by {by}')
    if abs(abs(obs[0]) - 90) > 1e-9 or not rect or by in (360., -720.):
        same(x, b, a, 'share after turning', rtol=1e-6, atol=1e-9)
    x.state(c, obs, by, sorted(a.items()))


def far(x, c):
    gm = S.gridmaker(c['grid'])
    obs = x.choose('observer', OBS)
    anti = (-obs[0], obs[1] + 180.)
    star = build(c, gm, LD[1])
    tot = values(star.calc_coverage(S.obs(*obs))[0])
    hidden = S.spot(lat=anti[0], lon=anti[1], area=S.cap_area(80.), area_max=S.cap_area(85.), tu=2350., tp=2351., gm=gm)
    star.add_spot(hidden)
    after = values(star.calc_coverage(S.obs(*obs))[0])
    x.step('hidden spot')
    same(x, after, tot, 'share with a spot on the far side')
    back = values(star.calc_coverage(S.obs(*anti))[0])
    x.require(back.get(2350., 0) + back.get(2351., 0) > 0.1 or c['facs'] == 2, 'seen from the other side the spot counts', back)
    x.state(c, obs, sorted(after.items()), sorted(back.items()))


OPS = ['age.7', 'age3', 'spot', 'fac', 'birth', 'look:0', 'look:4', 'avg:5', 'agecol1', 'agefirst1', 'dark', 'hot', 'edit', 'swap', 'move']
NEWS = [(-12.2, 50.4, 33., 2350., 2650.), (40.9, 310.3, 28., 2300., 2900.)]
NEWF = [(33.3, 77.9, 30., 0.8, -60., 320.), (-8.8, 350.1, 35., 0.3, -90., 130.)]


def moved(s, gm):
    return S.StarSpot(s.coords['lat'], s.coords['lon'] + 150 * u.deg, s.area_max, s.area_current, s.teff_umbra, s.teff_penumbra,
                      s.total_area_over_umbra_area, s.is_growing, s.growth_rate, s.decay_rate, gridmaker=gm)


def fresh(star, c, gm, ld):
    sp = [S.StarSpot(s.coords['lat'], s.coords['lon'], s.area_max, s.area_current, s.teff_umbra, s.teff_penumbra, s.total_area_over_umbra_area,
                     s.is_growing, s.growth_rate, s.decay_rate, gridmaker=gm) for s in star.spots.spots]
    fc = [S.Facula(f.lat, f.lon, f.r_max, f.radius, f.depth, f.lifetime, f.floor_teff_slope, f.floor_teff_min_rad, f.floor_teff_base_dteff,
                   f.wall_teff_slope, f.wall_teff_intercept, growing=f.is_growing, gridmaker=gm) for f in star.faculae.faculae]
    return S.star(sp, fc, grid=c['grid'], u1=ld[0], u2=ld[1], teff=star.teff.to_value(u.K), r_km=star.radius.to_value(u.km))


def history(x, c):
    gm = S.gridmaker(c['grid'])
    ld = LD[1]
    rng = ScriptedRng()
    sg = S.SpotGenerator(S.cap_area(30.), 0.1, 2420 * u.K, 2720 * u.K, growth_rate=0.5 / u.day, decay_rate=0.2 * S.cap_area(30.) / u.day,
                         init_area=S.cap_area(20.), distribution='iso', coverage=0.1, gridmaker=gm, rng=rng)
    star = build(c, gm, ld, spot_generator=sg)
    ns = nf = 0
    word = [c['first']] + [x.choose('op', OPS) for _ in range(c['word'] - 1)] if 'word' in c else None
    for k in range(c['depth']):
        op = word[k % len(word)] if word else c['first'] if k == 0 else x.choose('op', OPS)
        obs = OBS[2]
        x.step(op)
        if op in ('age.7', 'age3'):
            star.age(float(op[3:]) * u.day)
        elif op == 'agecol1':           # ageing the collections or single features by hand
            star.spots.age(1 * u.day)
            star.faculae.age(1 * u.day)
        elif op == 'dark':
            ld = (0.7, 0.05) if ld == LD[1] else LD[1]
            star.u1, star.u2 = ld
        elif op == 'hot':               # the star itself is given other properties
            star.teff = star.teff + 70 * u.K
            star.radius = star.radius * 1.1
        elif op == 'edit':              # features are edited by hand
            for feature in list(star.spots.spots)[:1]:
                feature.area_current = 0.8 * feature.area_current
            for feature in list(star.faculae.faculae)[:1]:
                feature.radius = 0.9 * feature.radius
        elif op == 'swap':              # two spots exchange their areas: number and total area stay
            sp = list(star.spots.spots)
            if len(sp) > 1:
                sp[0].area_current, sp[-1].area_current = sp[-1].area_current, sp[0].area_current
            fc = list(star.faculae.faculae)
            if len(fc) > 1:
                fc[0].radius, fc[-1].radius = fc[-1].radius, fc[0].radius
        elif op == 'move':              # the same features elsewhere: the collections are replaced
            star.spots = S.SpotCollection(*[moved(s, gm) for s in star.spots.spots], gridmaker=gm)
            for f in star.faculae.faculae:
                f.lon = f.lon + 150 * u.deg
        elif op == 'agefirst1':
            for feature in list(star.spots.spots)[:1] + list(star.faculae.faculae)[:1]:
                feature.age(1 * u.day)
        elif op == 'spot':
            star.add_spot(mkspot(NEWS[ns % 2], gm))
            ns += 1
        elif op == 'fac':
            star.add_fac(mkfac(NEWF[nf % 2], gm))
            nf += 1
        elif op == 'birth':
            rng.counts = [2]
            star.birth_spots(1 * u.day)
        else:
            obs = OBS[int(op.split(':')[1])]
        new = fresh(star, c, gm, ld)
        want = values(new.calc_coverage(S.obs(*obs))[0])
        got = values(star.calc_coverage(S.obs(*obs))[0])
        same(x, got, want, f'share after {op}')
        x.close(star.average_teff(S.obs(*obs)).to_value(u.K), mean_teff(want), f'average temperature after {op}', rtol=1e-6)
        tmap = new.add_faculae_to_map(obs[0] * u.deg, obs[1] * u.deg).to_value(u.K)
        same(x, got, direct(tmap, gm, obs, ld)[0], f'share after {op} (direct sum)')
        x.state(c['grid'], c['spots'], c['facs'], obs, sorted(got.items()))
