"""Every combination of feature set (nothing, spots, faculae, everything hidden, temperatures that equal or print like each
other, the photosphere or the granules), limb darkening, observer, granulation (fraction and temperature difference),
planet and grid. Oracle: the partition, and bookkeeping against the same star without granulation."""
import itertools
import math
from mc import ref

GRIDS = [(9, 14), 130, (5, 6), 60]
OBS = [(0., 0.), (90., 0.), (20., 75.), (-90., 10.), (-33., 190.), (5., -40.), (-70., 500.)]
LD = [(0., 0.), (0.4, 0.2), (1.0, 0.0), (0.1, 0.9), (-0.3, 0.2), (0.8, -0.3)]
FRAC = [0.0, 0.25, 1.0, 0.6, 1e-5, 0.9999]
DTEFF = [200., 0., 300., -150., 0.001]
# spots: lat, lon, size in degrees, umbra, penumbra
SPOTS = {
    'none': [],
    'one': [(10., 20., 40., 2400., 2700.)],
    'alike': [(0., 0., 40., 2500.001, 2500.004), (-40., 120., 50., 2500.002, 2500.003), (50., 200., 40., 2499.996, 2700.)],
    'all': [(0., 0., 179.99999, 2600., 2600.), (0., 180., 100., 2600., 2600.)],
    'phot': [(0., 0., 60., 3000., 3000.), (30., 100., 50., 2400., 2999.999)],
    'granule': [(0., 30., 60., 2700., 2800.)],
    'specks': [(10., 20., 0.4, 2400., 2700.), (-20., 40., 0., 2450., 2750.), (40., 350., 12., 2380., 2710.)],
    'far': [(0., 180., 30., 2400., 2700.)],
    'many': [(-60. + 17.3 * (i % 8), 24.7 * i, 22., 2300. + 21.7 * i, 2700. + 13.3 * i) for i in range(16)],
}
# faculae: lat, lon, size, depth/radius, floor, wall
FACS = {
    'none': [],
    'one': [(0., 40., 40., 0.6, -100., 200.)],
    'two': [(0., 40., 50., 0.6, -200., 100.), (25., 10., 45., 1.5, -300., 0.)],
    'all': [(0., 0., 179.9, 0.1, -100., 150.), (0., 180., 100., 0.2, -100., 150.)],
    'many': [(70. - 19.1 * (i % 8), 31.3 * i, 21., 0.3 + 0.2 * i, -30. - 17. * i, 40. + 23. * i) for i in range(9)],
    'small': [(10., 20., 30., 0.5, -100., 210., 1.5), (3., 4., 0.7, 0.5, -90., 190.), (-30., 60., 25., 0.4, -80., 170., 1.0)],
    'clip': [(10., 350., 70., 0.5, -2000., 2000.), (-20., 330., 60., 0.9, -1500., 900.)],
}
PLANET = [(50., 0.1, 90., 30.), (8., 0.5, 180.5, 90.), (8., 0.6, 176., 88.), (8., 0.4, 1.0, 90.), (3., 0.9, 180., 80.)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    grids = GRIDS[:2] if tier != 'thorough' else GRIDS + [400]
    for g, s, f in itertools.product(grids, SPOTS, FACS):
        for o in range(len(OBS)):
            if tier != 'thorough' and (o + len(s) + len(f) + (g == grids[1])) % 3:
                continue
            out.append(dict(grid=g, spots=s, facs=f, obs=o))
    for g, s, f, o in itertools.product([(40, 60), 1500], ['many', 'alike'], ['many', 'small'], (0, 3, 4)):
        out.append(dict(grid=g, spots=s, facs=f, obs=o, few=True))
    return out


def build(c, gm, dteff, ld, teff):
    sp = [S.spot(lat=a, lon=b, area=S.cap_area(sz), area_max=S.cap_area(sz), tu=tu, tp=tp, ratio=3., gm=gm) for a, b, sz, tu, tp in SPOTS[c['spots']]]
    fc = []
    for a, b, sz, dr, tf, tw, *fm in FACS[c['facs']]:
        r = math.radians(sz) * S.R_KM * u.km
        fc.append(S.facula(lat=a, lon=b, r=r, r_max=r, depth=dr * r, fmin=(fm[0] if fm else 0.1) * r, fbase=tf * u.K, wint=tw * u.K, gm=gm, growing=False))
    gr = S.Granulation(0.2, 0.01, 5 * u.min, dteff * u.K, seed=1)
    return S.star(sp, fc, grid=c['grid'], granulation=gr, u1=ld[0], u2=ld[1], teff=teff)


def values(d):
    out = {}
    for k, v in d.items():
        t = round(S.keyval(k), 2)
        out[t] = out.get(t, 0) + float(v)
    return out


def explore(x, c):
    gm = S.gridmaker(c['grid'])
    dteff = x.choose('dteff', DTEFF if not c.get('few') else DTEFF[:1])
    ld = x.choose('limb', LD if dteff == DTEFF[0] else LD[:1])
    pl = x.choose('planet', PLANET if not c.get('few') else PLANET[:2])
    teff = x.choose('photosphere', [3000., 3210.37, 3899., 3000.005001, 3333.335001, 5772., 2500.]) if dteff == DTEFF[0] and ld == LD[0] and pl in PLANET[:2] else 3000.
    star = build(c, gm, dteff, ld, teff)
    obs = S.obs(*OBS[c['obs']])
    a, r, ph, inc = pl
    kw = dict(orbit_radius=a * S.R_KM * u.km, planet_radius=r * S.R_KM * u.km, phase=ph * u.deg, inclination=inc * u.deg)
    base = None
    for fr in FRAC if pl == PLANET[1] else FRAC[:3]:
        tot, cov, frac = star.calc_coverage(obs, fr, **kw)
        x.step(f'coverage with granulation {fr}')
        for k in tot:
            x.require(k in cov, 'every temperature has a covered share', k)
        for k, v in tot.items():
            x.require(-1e-12 <= v <= 1 + 1e-9, 'share in [0,1]', k, v)
            x.require(-1e-12 <= cov[k] <= v + 1e-6 * max(v, 1e-6), 'covered share between zero and the total', k, cov[k], v)
        x.close(sum(tot.values()), 1.0, 'shares add up to one', rtol=1e-9)
        x.require(sum(cov.values()) <= 1 + 1e-6, 'covered shares at most one')
        x.require(-1e-8 <= frac <= 1 + 1e-8, 'planet fraction in [0,1]', frac)
        tot, cov = values(tot), values(cov)
        if base is None:
            base = (tot, cov, frac)
            x.state(c, dteff, ld, pl, sorted(tot.items()), sorted(cov.items()))
            continue
        x.require(frac == base[2], 'granulation does not change the planet')
        for now, before, what in ((tot, base[0], 'share'), (cov, base[1], 'covered share')):
            want = dict(before)
            phot = round(teff, 2)
            q = want.get(phot, 0.0)
            want[phot] = q * (1 - fr)
            gk = round(teff - dteff, 2)
            want[gk] = want.get(gk, 0.0) + q * fr
            for k in set(now) | set(want):
                x.close(now.get(k, 0.0), want.get(k, 0.0), f'{what} of {k} K with granulation {fr}', rtol=1e-9, atol=1e-12)
    x.state(c, dteff, ld, teff, pl, sorted(tot.items()))
