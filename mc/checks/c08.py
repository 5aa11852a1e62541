"""(areas) every combination of radius, depth, minimum floor radius and viewing angle of the alphabet against the lens
formula; (maps) all sets of up to three faculae (over spots, overlapping, in every order) from every observer of the
alphabet on several grids: exactly the points within the facula radius are replaced, split at a limb distance, wall
share within one point of the reference share, temperatures rounded and clipped. Points within 1e-6 of an edge and
ties in limb distance are not judged."""
import itertools
import math
import numpy as np
from mc import ref

R_KM = 139140.0
RAD = [2000., 400., 600., 10000., 500., 3., 90000.]
DEPTH = [100., 1500., 6000., 0., 0.5]
FMIN = [500., 0., 500.0001, 20130.]
ANGLES = [0., 1e-7, 10., 33., 45., 60., 75., 85., 89.9, 90. - 1e-7]

GRIDS = [(9, 12), 120, (6, 7), 50]
OBS = [(0., 0.), (90., 0.), (-90., 123.), (25., 40.), (-50., 300.), (0., 180.), (10., -75.), (60., 400.)]
# lat, lon, radius/R in degrees, depth/radius, floor visible, (floor offset, wall offset)
FACS = [
    (0., 0., 40., 0.5, True, (-100., 200.)),
    (20., 359., 55., 1.0, True, (-150.4, 301.6)),
    (90., 0., 45., 0.2, True, (-900., 700.)),        # both clipped on a 3000 K star ...
    (-45., 120., 30., 3.0, True, (-60., 50.)),
    (10., 60., 50., 0.5, False, (-100., 222.)),      # below the minimum radius: all wall
    (-80., -170., 60., 0.05, True, (40., -30.)),     # floor hotter than wall
    (5., 33., 3., 0.5, True, (-100., 111.)),         # between the points of a coarse grid
    (-30., 400., 120., 0.4, True, (-20., 90.)),      # more than a hemisphere
]


# a crowd
FACS += [(-75. + 21.3 * (i * 3 % 8), 43.7 * i, 6. + 5. * (i % 5), 0.1 + 0.3 * (i % 6), i % 4 != 3, (-20. - 11 * i, 30. + 13 * i)) for i in range(30)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    for r, d, f in itertools.product(range(len(RAD)), range(len(DEPTH)), range(len(FMIN))):
        out.append(dict(mode='area', r=r, d=d, f=f))
    out.append(dict(mode='equal'))
    grids = GRIDS
    for g, o in itertools.product(grids, range(len(OBS))):
        for first in range(8):
            out.append(dict(mode='map', grid=g, obs=o, first=first, k=4 if tier == 'thorough' else 3, teff=3000., spots=first % 2 == 0))
    for g, o in itertools.product(GRIDS, range(len(OBS))):
        out.append(dict(mode='map', grid=g, obs=o, first=0, k=1, teff=3850., spots=False))
        out.append(dict(mode='map', grid=g, obs=o, first=7, k=1, teff=2350., spots=True))
        out.append(dict(mode='map', grid=g, obs=o, first=3, k=1, teff=3111.5, spots=True))
        out.append(dict(mode='map', grid=g, obs=o, first=o, k=2, teff=5772., spots=False, rs=5.0))
        out.append(dict(mode='map', grid=g, obs=o, first=7 - o, k=2, teff=2700., spots=False, rs=0.5))
    for g, o in itertools.product([(9, 12), 120, (40, 60), 1500], range(len(OBS))):
        out.append(dict(mode='map', grid=g, obs=o, crowd=True, teff=3000., spots=o % 2 == 0))
    return out


def explore(x, c):
    {'area': areas, 'equal': equal, 'map': maps}[c['mode']](x, c)


def areas(x, c):
    r, depth, fmin = RAD[c['r']], DEPTH[c['d']], FMIN[c['f']]
    ul = x.choose('unit', [u.km, u.m])
    # built below the minimum radius and grown there: the shares follow the current radius
    f = S.facula(r_max=(2 * r * u.km).to(ul), r=(r * u.km).to(ul), depth=(depth * u.km).to(ul), fmin=(fmin * u.km).to(ul),
                 fbase=-100.3 * u.K, wint=250.7 * u.K, wslope=0.001 * u.K / u.km, fslope=-0.002 * u.K / u.km, gm=S.gridmaker((3, 4)))
    aged = x.choose('aged', [0.0, 0.2, 1.5])
    life = 0.25
    m = ref.Facula(r, 2 * r, life, True)
    if aged:
        f.age(aged * life * u.day)
        m.age(aged * life)
    rad = m.radius
    crit = math.degrees(math.atan(2 * rad / depth)) if depth else 89.9
    last = None
    ang_unit = x.choose('angle unit', [u.deg, u.rad])
    for deg in sorted(ANGLES + [crit * 0.97, min(89.99, crit * 1.03)]):
        a = math.radians(deg)
        ang = (deg * u.deg).to(ang_unit)
        share = 1.0 if rad < fmin else 1 - ref.floor_share(depth / rad * math.tan(a))
        proj = math.pi * rad**2 * math.cos(a)
        eff = f.effective_area(ang)
        frac = f.fractional_effective_area(ang)
        x.step('areas')
        tw, tf = round(250.7 + 0.001 * rad), round(-100.3 - 0.002 * (rad - fmin))
        for d, scale, what in ((eff, proj, 'effective area'), (frac, 1.0, 'fractional area')):
            vals = {k.to_value(u.K): v for k, v in d.items()}
            x.require(sorted(vals) == sorted([float(tw), float(tf)]), f'{what}: temperatures', vals, tw, tf)
            unit = u.km**2 if what[0] == 'e' else u.dimensionless_unscaled
            w, fl = vals[float(tw)].to_value(unit), vals[float(tf)].to_value(unit)
            tol = 1e-6 * scale
            x.close(w, share * scale, f'{what} of the wall at {deg} deg', rtol=1e-6, atol=tol)
            x.close(fl, (1 - share) * scale, f'{what} of the floor at {deg} deg', rtol=1e-6, atol=tol)
            x.require(w >= -tol and fl >= -tol, f'{what} not negative')
            x.close(w + fl, scale, f'{what}: wall and floor add up', rtol=1e-9, atol=1e-12 * scale)
        if last is not None and rad >= fmin:
            x.require(fl <= last + 1e-7, 'the floor share grew towards the limb', deg, last, fl)
        last = fl
        x.state(c, rad, deg, w)
    x.close(f.angular_radius(R_KM * u.km).to_value(u.rad), rad / R_KM, 'angular radius', rtol=1e-9)


def equal(x, c):
    fb, wi = x.choose('offsets', [(100., 100.), (0., 0.), (-40., -40.), (99.8, 100.2), (100.4, 99.6)])
    ang = x.choose('angle', [0., 50., 89.])
    rad = x.choose('radius', [100., 1000.])
    f = S.facula(r_max=2000 * u.km, r=rad * u.km, fmin=500 * u.km, fbase=fb * u.K, wint=wi * u.K, gm=S.gridmaker((3, 4)))
    x.step('equal')
    x.refuses(lambda: f.effective_area(ang * u.deg), ValueError, 'wall and floor of one temperature')
    x.refuses(lambda: f.fractional_effective_area(ang * u.deg), ValueError, 'wall and floor of one temperature')
    x.state(fb, wi, ang, rad)


def build(i, gm, rs=1.0):
    lat, lon, size, ratio, floor, (df, dw) = FACS[i]
    r = math.radians(size) * R_KM * rs
    return S.facula(lat=lat, lon=lon, r_max=2 * r * u.km, r=r * u.km, depth=ratio * r * u.km,
                    fmin=(0.5 * r if floor else 1.5 * r) * u.km, fbase=df * u.K, wint=dw * u.K, gm=gm)


def maps(x, c):
    gm = S.gridmaker(c['grid'])
    lat0, lon0 = OBS[c['obs']]
    order = [c['first']] if not c.get('crowd') else x.choose('order', [list(range(8, 8 + n))[::k] for n in (30, 12) for k in (1, -1)])
    while not c.get('crowd') and len(order) < c['k']:
        nxt = x.choose('next facula', [None] + [k for k in range(8) if k not in order])
        if nxt is None:
            break
        order.append(nxt)
    sp = [S.spot(lat=10., lon=20., area=S.cap_area(35), area_max=S.cap_area(60), gm=gm)] if c['spots'] else []
    star = S.star(sp, [build(i, gm, c.get('rs', 1.0)) for i in order], grid=c['grid'], teff=c['teff'], r_km=R_KM * c.get('rs', 1.0))
    base = star.map.to_value(u.K)
    got = star.add_faculae_to_map(lat0 * u.deg, lon0 * u.deg).to_value(u.K)
    x.step('map')
    x.require(got.shape == base.shape, 'shape of the map', got.shape)
    lat, lon = S.points(gm)
    _, _, mu = ref.project(math.radians(lat0), math.radians(lon0), lat, lon)
    # who is drawn last at each point?
    owner = np.full(base.shape, -1)
    unsure = np.zeros(base.shape, bool)
    inside = {}
    for i in order:
        flat, flon, size, *_ = FACS[i]
        d = ref.sep(math.radians(flat), math.radians(flon), lat, lon)
        rad = math.radians(size)
        ins = d <= rad
        near = np.abs(d - rad) <= 1e-6
        inside[i] = (ins, near)
        owner[ins] = i
        unsure = np.where(ins & ~near, False, unsure | near)
    free = (owner == -1) & ~unsure
    x.require(np.array_equal(got[free], base[free]), 'points outside all faculae keep their temperature')
    for i in order:
        flat, flon, size, ratio, floor, (df, dw) = FACS[i]
        tw, tf = ref.clip_teff(c['teff'] + round(dw)), ref.clip_teff(c['teff'] + round(df))
        mine = (owner == i) & ~unsure
        is_w, is_f = np.abs(got - tw) < 1e-6, np.abs(got - tf) < 1e-6
        x.require(np.all((is_w | is_f)[mine]), 'temperature of a point inside a facula', got[mine & ~is_w & ~is_f][:3], tw, tf)
        ang = float(ref.sep(math.radians(lat0), math.radians(lon0), math.radians(flat), math.radians(flon)))
        if abs(tw - tf) < 1e-3 or not mine.any():
            continue
        mw, mf = mu[mine & is_w], mu[mine & is_f]
        if len(mw) and len(mf):
            x.require(mw.max() <= mf.min() + 1e-7, 'the wall takes the points closest to the limb', mw.max(), mf.min())
        ins, near = inside[i]
        if near.any() or ang > math.pi / 2 + 1e-6 or not np.array_equal(mine, ins):
            continue                # partly overdrawn, or seen from behind: the share cannot be read off
        share = 1.0 if not floor else 1 - ref.floor_share(ratio * math.tan(ang))
        n = int(ins.sum())
        if len(mw):
            edge = mw.max()
            surely = int((mw < edge - 1e-7).sum())
        else:
            surely = 0
        x.require(surely <= share * n + 1 + 1e-6, 'too many wall points', len(mw), n, share)
        x.require(len(mw) >= share * n - 1 - 1e-6, 'too few wall points', len(mw), n, share)
        if not floor:
            x.require(len(mf) == 0, 'a facula below its minimum floor radius is all wall')
    x.state(c['grid'], c['obs'], c['teff'], got)
    x.require(np.array_equal(star.map.to_value(u.K), base), 'drawing faculae changed the spot map')
