"""All sets of up to three spots from an alphabet of positions (poles, zero meridian, full turns), sizes (none to the
whole sphere), umbra ratios and temperatures, in every order, on rectangular and spiral grids and for several stellar
radii. Oracle: angular distances from 3-D vectors and the minimum of all covering temperatures; points whose distance
is within 1e-6 rad of an edge are not judged."""
import itertools
import math
import numpy as np
from mc import ref

GRIDS = [(7, 12), 60, (4, 5), 33]
POS = [(0., 0.), (90., 0.), (-90., 33.), (12., 359.), (40., 181.), (-35., -20.), (5., 380.), (-60., 725.)]
SIZE = [25., 2., 60., 100., 179.9, 180., 180.]     # angular radius in degrees (2 degrees: mostly between points)
AREA = [1., 1., 1., 1., 1., 1., 1.7]               # the last one is larger than the star
TEMPS = [(2400., 2700.), (2700., 2700.), (2400., 3300.), (3200., 3300.), (2899.4, 2899.6), (6500., 9000.)]
RATIO = [5.0, 1.0, 2.5]

CROWDS = [6, 13, 24, 40]

S_R = 139140.0


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def spot_menu(tier):
    """Indices (position, size, temps, ratio), every value of every axis at least once with every other of one axis."""
    full = list(itertools.product(range(len(POS)), range(len(SIZE)), range(len(TEMPS)), range(len(RATIO))))
    return full


# spots to combine: overlapping on purpose
COMBO = [(0, 0, 0, 0), (3, 0, 1, 0), (6, 2, 2, 0), (1, 2, 0, 1), (2, 3, 2, 2), (0, 2, 3, 0), (5, 0, 0, 2), (4, 4, 2, 0), (3, 2, 4, 0), (2, 6, 3, 1)]


def configs(tier):
    out = []
    for g, r in itertools.product(GRIDS, [S_R, 1.7 * S_R]):
        for p in range(len(POS)):
            out.append(dict(mode='one', grid=g, r=r, pos=p, n=len(SIZE) * len(TEMPS) * len(RATIO)))
    for g in GRIDS if tier == 'thorough' else GRIDS[:2]:
        for first in range(len(COMBO)):
            out.append(dict(mode='many', grid=g, r=S_R, first=first, k=3, teff=3000.))
    for g in GRIDS[:2]:
        out.append(dict(mode='many', grid=g, r=S_R, first=0, k=2, teff=2600.))
    if tier == 'thorough':
        for g in GRIDS[:2]:
            for first in range(len(COMBO)):
                out.append(dict(mode='many', grid=g, r=S_R, first=first, k=4, teff=3000.))
    for g, n in itertools.product([(7, 12), 60, (19, 36), 800], CROWDS):
        out.append(dict(mode='crowd', grid=g, r=S_R, n=n, teff=3000.))
    for p in range(len(POS)):
        out.append(dict(mode='fraction', pos=p))
    for g, n in (((19, 36), 684), (200, 200), ((7, 12), 84)):
        out += [dict(mode='centred', grid=g, first=k, count=min(40, n - k)) for k in range(0, n, 40)]
    return out




def build(i, gm, r_km, unit=None):
    p, s, t, q = i
    area = 2 * math.pi * r_km**2 * (1 - math.cos(math.radians(SIZE[s]))) * AREA[s] * u.km**2
    if unit is not None:
        area = area.to(unit)
    return S.spot(lat=POS[p][0], lon=POS[p][1], area_max=2 * area, area=area, tu=TEMPS[t][0], tp=TEMPS[t][1],
                  ratio=RATIO[q], gm=gm)


def regions(i, gm):
    """(temperature, sure members, possible members) of penumbra and umbra"""
    p, s, t, q = i
    lat, lon = S.points(gm)
    d = ref.sep(math.radians(POS[p][0]), math.radians(POS[p][1]), lat, lon)
    rad = math.radians(SIZE[s])
    out = []
    for temp, rr in ((TEMPS[t][1], rad), (TEMPS[t][0], rad / math.sqrt(RATIO[q]))):
        out.append((temp, d < rr - 1e-6, d < rr + 1e-6))
    return out


def check_map(x, got, idx, gm, teff, what):
    lo = np.full(gm.zeros().shape, teff)      # if every possible member counts
    hi = np.full(gm.zeros().shape, teff)      # if only the sure ones do
    for i in idx:
        for temp, sure, maybe in regions(i, gm):
            hi = np.where(sure, np.minimum(hi, temp), hi)
            lo = np.where(maybe, np.minimum(lo, temp), lo)
    x.require(got.shape == hi.shape, f'{what}: shape', got.shape)
    ok = (np.abs(got - hi) <= 1e-6) | (np.abs(got - lo) <= 1e-6)
    x.require(np.all(ok | (lo != hi)), f'{what}: a point does not have the coolest temperature covering it',
              np.argwhere(~ok).tolist()[:3], got[~ok].tolist()[:3], hi[~ok].tolist()[:3])


def explore(x, c):
    if c['mode'] == 'fraction':
        return fraction(x, c)
    if c['mode'] == 'centred':
        return centred(x, c)
    if c['mode'] == 'crowd':
        return crowd(x, c)
    gm = S.gridmaker(c['grid'])
    r = c['r'] * u.km
    if c['mode'] == 'one':
        s = x.choose('size', range(len(SIZE)))
        t = x.choose('temps', range(len(TEMPS)))
        q = x.choose('ratio', range(len(RATIO)))
        idx = [(c['pos'], s, t, q)]
        teff = 3000.
    else:
        rest = list(range(len(COMBO)))
        order = [c['first']]
        while len(order) < c['k']:
            nxt = x.choose('next spot', [None] + [k for k in rest if k not in order])
            if nxt is None:
                break
            order.append(nxt)
        idx = [COMBO[k] for k in order]
        teff = c['teff']
    spots = [build(i, gm, c['r'], None if n % 2 else S.MSH) for n, i in enumerate(idx)]
    sc = S.SpotCollection(*spots, gridmaker=gm)
    x.step('spots ' + str(idx))
    for i, o in zip(idx, spots):
        ang = o.angular_radius(r).to_value(u.rad)
        x.close(ang, math.radians(SIZE[i[1]]), 'angular radius', rtol=1e-6)
        x.close(o.radius.to_value(u.km), math.sqrt(o.area_current.to_value(u.km**2) / math.pi), 'radius', rtol=1e-7)
        pix = o.map_pixels(r)
        x.step('map_pixels')
        reg = dict()
        for (temp, sure, maybe) in regions(i, gm):
            reg[temp] = (sure, maybe)           # equal temperatures: the penumbra encloses the umbra
        if TEMPS[i[2]][0] != TEMPS[i[2]][1]:
            for k, v in pix.items():
                sure, maybe = reg[k.to_value(u.K)]
                x.require(np.all(v[sure]) and not np.any(v[~maybe]), 'points covered by a spot', int(v.sum()), int(sure.sum()))
    m = sc.map_pixels(r, teff * u.K).to_value(u.K)
    x.step('map')
    check_map(x, m, idx, gm, teff, 'spot map')
    cov = float(sc.get_coverage(r))
    x.step('coverage')
    area = np.asarray(gm.area, float)
    sure_any = np.zeros(area.shape, bool)
    may_any = np.zeros(area.shape, bool)
    for i in idx:
        for _, sure, maybe in regions(i, gm):
            sure_any |= sure
            may_any |= maybe
    lo, hi = area[sure_any].sum() / area.sum(), area[may_any].sum() / area.sum()
    x.require(lo - 1e-6 <= cov <= hi + 1e-6, 'spot coverage', cov, lo, hi)
    # the same through a star, with the spots added one by one
    star = S.star([], grid=c['grid'], teff=teff, r_km=c['r'])
    for i in idx:
        star.add_spot(build(i, gm, c['r']))
    sm = star.map.to_value(u.K)
    x.step('star map')
    check_map(x, sm, idx, gm, teff, 'surface map of a star')
    x.state(c['grid'], c['r'], teff, sm, cov)
    if c['mode'] == 'one':
        # two spots of one size may differ by a whole turn only
        p = POS[c['pos']]
        o = S.spot(lat=p[0], lon=p[1] - 360., area_max=spots[0].area_max, area=spots[0].area_current, tu=TEMPS[t][0],
                   tp=TEMPS[t][1], ratio=RATIO[q], gm=gm)
        check_map(x, S.SpotCollection(o, gridmaker=gm).map_pixels(r, teff * u.K).to_value(u.K), idx, gm, teff, 'spot a full turn away')


def crowd(x, c):
    """Many spots of all sizes and temperatures, in several orders, together and one by one."""
    gm = S.gridmaker(c['grid'])
    n = c['n']
    spots = [(-80. + 23.7 * (i * 5 % 8), 37.3 * i, 3. + 4.1 * (i * 7 % 6), 2300. + (97 * i) % 611, (173 * i) % 301, 1. + (i * 3 % 5)) for i in range(n)]
    k = x.choose('start with', [0, 1, n // 2, n - 1])
    order = [spots[(k + i) % n] for i in range(n)]
    if x.choose('order', ['forward', 'backward']) == 'backward':
        order = order[::-1]
    lat, lon = S.points(gm)
    hi, lo = np.full(lat.shape, c['teff']), np.full(lat.shape, c['teff'])
    sure_any, may_any = np.zeros(lat.shape, bool), np.zeros(lat.shape, bool)
    objs = []
    for la, lo_, size, tu, dp, q in order:
        area = S.cap_area(size)
        objs.append(S.spot(lat=la, lon=lo_, area=area, area_max=2 * area, tu=tu, tp=tu + dp, ratio=q, gm=gm))
        d = ref.sep(math.radians(la), math.radians(lo_), lat, lon)
        for t, rr in ((tu + dp, math.radians(size)), (tu, math.radians(size) / math.sqrt(q))):
            sure, maybe = d < rr - 1e-6, d < rr + 1e-6
            hi = np.where(sure, np.minimum(hi, t), hi)
            lo = np.where(maybe, np.minimum(lo, t), lo)
            sure_any |= sure
            may_any |= maybe
    how = x.choose('added', ['together', 'one by one', 'to a star'])
    if how == 'to a star':
        star = S.star([], grid=c['grid'], teff=c['teff'])
        for o in objs:
            star.add_spot(o)
        m = star.map.to_value(u.K)
        cov = star.spots.get_coverage(S.R_KM * u.km)
    else:
        sc = S.SpotCollection(*(objs if how == 'together' else []), gridmaker=gm)
        for o in objs if how != 'together' else []:
            sc.add_spot(o)
        m = sc.map_pixels(S.R_KM * u.km, c['teff'] * u.K).to_value(u.K)
        cov = sc.get_coverage(S.R_KM * u.km)
    x.step(f'{n} spots {how}')
    ok = (np.abs(m - hi) <= 1e-6) | (np.abs(m - lo) <= 1e-6) | (hi != lo)
    x.require(np.all(ok), 'a point does not have the coolest temperature covering it', np.argwhere(~ok).tolist()[:3], m[~ok].tolist()[:3], hi[~ok].tolist()[:3])
    area = np.asarray(gm.area, float)
    a, b = area[sure_any].sum() / area.sum(), area[may_any].sum() / area.sum()
    x.require(a - 1e-6 <= float(cov) <= b + 1e-6, 'spot coverage', float(cov), a, b)
    x.state(c, order[0], m)


def centred(x, c):
    """A spot centred on every grid point (and a full turn from it) covers that point, however small it is."""
    gm = S.gridmaker(c['grid'])
    lat, lon = [v.ravel() for v in gm.grid()]
    turn = x.choose('turn', [0, 1, -2])
    size = x.choose('size', [0.5, 0.01])
    r = S.R_KM * u.km
    gap = 0.5 * math.sqrt(4 * math.pi / len(lat))
    for k in range(c['first'], c['first'] + c['count']):
        o = S.spot(lat=lat[k].to_value(u.deg), lon=lon[k].to_value(u.deg) + 360 * turn, area=S.cap_area(size), area_max=S.cap_area(80), tu=2400., tp=2700., gm=gm)
        m = S.SpotCollection(o, gridmaker=gm).map_pixels(r, 3000 * u.K).to_value(u.K).ravel()
        x.step('map')
        x.require(m[k] == 2400., 'the point at the centre of a spot is covered', k, m[k])
        d = ref.sep(lat[k].to_value(u.rad), lon[k].to_value(u.rad), lat.to_value(u.rad), lon.to_value(u.rad))
        x.require(np.all(m[d > math.radians(size) + 1e-6] == 3000.), 'a small spot covers other points', k)
        x.state('centred', c['grid'], k, size)


def fraction(x, c):
    """The closed-form estimate of the share of the disk a spot takes."""
    lat, lon = POS[c['pos']]
    size = x.choose('size', [3., 8., 20., 1.])
    rs = x.choose('star', [1.0, 6.0])
    o = S.spot(lat=lat, lon=lon, area_max=S.cap_area(90, rs * S.R_KM), area=S.cap_area(size, rs * S.R_KM))
    r = rs * S.R_KM * u.km
    last = None
    v0 = ref.vec(math.radians(lat), math.radians(lon))
    direction = x.choose('move', ['meridian', 'other'])
    big = S.spot(lat=lat, lon=lon, area_max=9 * S.cap_area(180, rs * S.R_KM), area=(1 + size) * S.cap_area(180, rs * S.R_KM))
    for deg in range(0, 181, 60):
        f = big.surface_fraction({'lat': math.radians(deg / 2) * u.rad, 'lon': math.radians(lon + deg) * u.rad}, r)
        x.require(np.isfinite(f) and f >= 0, 'surface fraction of a spot larger than the star is finite and not negative', deg, f)
    for deg in range(0, 181, 6):
        a = math.radians(deg)
        # walk the observer along a great circle through the spot
        e, n, s = ref.disk_frame(math.radians(lat), math.radians(lon))
        v = math.cos(a) * s + math.sin(a) * (n if direction == 'meridian' else (0.6 * e + 0.8 * n))
        olat, olon = math.asin(max(-1, min(1, v[2]))), math.atan2(v[1], v[0])
        f = o.surface_fraction({'lat': olat * u.rad, 'lon': olon * u.rad}, r)
        x.step('surface_fraction')
        x.require(np.isfinite(f) and f >= 0, 'surface fraction is finite and not negative', deg, f)
        exact = (1 - math.cos(math.radians(size))) * math.cos(a)     # area/(2 pi R^2) seen at the angle
        if deg + size < 85:
            x.close(f, exact, f'surface fraction of a spot {size} deg wide at {deg} deg', rtol=0.04, atol=1e-4)
        if deg > 90 + size:
            x.require(f == 0, 'a spot on the far side takes nothing', deg, f)
        if last is not None:
            x.require(f <= last * 1.02 + 1e-4, 'surface fraction grew away from disk centre', deg, last, f)
        last = f
        x.state(c['pos'], size, direction, f)
