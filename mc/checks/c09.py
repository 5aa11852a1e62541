"""Every combination of observer (poles, exactly at a grid point, anywhere), planet position on and off the disk (all
quadrants, reached through different orbits, inclinations and whole turns of phase), planet size, near/far side and
grid. Oracle: 3-D projection of every grid point. Judged: points more than two pixel radii plus 0.02 stellar radii
inside or outside the planet's edge, points behind the limb, range of all values, and the blocked share of the disk
against the exact overlap of two circles."""
import itertools
import math
import numpy as np
from mc import ref

R_KM = R_KM0 = 139140.0
GRIDS = [(25, 40), 900, (19, 31), 400]
OBS = [(0., 0.), (90., 0.), (90., 50.), (-90., 0.), (-90., 200.), (30., 40.), (-55., 200.), (10., 350.), (-20., -60.), (35., 425.), (90. - 2e-14, 77.), (-90. + 5e-9, 140.), 'point7', 'point200', 'point-12']
RP = [0.45, 0.25, 0.7, 1.3]
DIST = [0.0, 0.35, 0.75, 1.0, 1.15]
THETA = [0.35, 1.2, 2.0, 3.6, 5.3]
ORBIT = [(3.0, 'low', 0), (40.0, 'high', 1), (1.6, 'low', -1)]      # a/R, branch of the inclination, turns


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    grids = GRIDS[:2] if tier != 'thorough' else GRIDS + [3000, (50, 90)]
    for g, o, rp in itertools.product(grids, range(len(OBS)), RP):
        if tier != 'thorough' and rp != RP[0] and o % 3:
            continue
        out.append(dict(mode='transit', grid=g, obs=o, rp=rp, orbits=len(ORBIT), orbit0=o % 3, rs=[1.0, 0.5, 5.0][(o + (g == 900)) % 3]))
    for o in range(0, len(OBS), 2):
        for g in GRIDS[2:]:
            out.append(dict(mode='away', grid=g, obs=o, rs=[1.0, 0.5, 5.0][o % 3]))
    for g, o, rp in itertools.product([(120, 200), 24000], (0, 2, 5, 8), (0.06, 0.1, 0.16)):
        out.append(dict(mode='transit', grid=g, obs=o, rp=rp, orbits=1, orbit0=o % 3, fine=True, rs=[1.0, 0.5, 5.0][o % 3]))
    for g in ((19, 31), 250) if tier != 'thorough' else GRIDS:
        n = 589 if g == (19, 31) else g if isinstance(g, int) else g[0] * g[1]
        out += [dict(mode='centre', grid=g, first=k, count=25, n=n) for k in range(0, n, 25)]
    return out


def observer(o, gm):
    if isinstance(OBS[o], str):
        k = int(OBS[o][5:])
        lat, lon = gm.grid()
        return lat.ravel()[k].to(u.deg), lon.ravel()[k].to(u.deg)
    return OBS[o][0] * u.deg, OBS[o][1] * u.deg


def orbit_for(X, Y, a, branch, turns):
    """phase and inclination that put the planet at (X, Y) on the near side"""
    s = X / a
    co = math.sqrt(1 - s * s)
    inc = math.degrees(math.acos(max(-1.0, min(1.0, Y / (a * co)))))
    phase = 180 + math.degrees(math.asin(s)) + 360 * turns
    if branch == 'high':        # the mirrored description of the same place
        inc = -inc
    return phase, inc


def explore(x, c):
    gm = S.gridmaker(c['grid'])
    if c['mode'] == 'centre':
        return centre(x, c, gm)
    lat0, lon0 = observer(c['obs'], gm)
    R_KM = c['rs'] * R_KM0
    star = S.star(grid=c['grid'], r_km=R_KM)
    if c['mode'] == 'away':
        return away(x, c, star, lat0, lon0)
    rp = c['rp']
    d = x.choose('distance', DIST if not c.get('fine') else [0.0, 0.6, 0.9, 1.0])
    th = x.choose('angle', THETA if not c.get('fine') else THETA[1::3]) if d else 0.0
    a, branch, turns = ORBIT[c['orbit0'] if c['orbits'] == 1 else x.choose('orbit', range(c['orbits']))]
    X, Y = d * math.cos(th), d * math.sin(th)
    phase, inc = orbit_for(X, Y, a, branch, turns)
    # the planet really is at these coordinates (documented convention)
    al = math.radians(phase - 180)
    assert abs(a * math.sin(al) - X) < 1e-9 and abs(a * math.cos(al) * math.cos(math.radians(inc)) - Y) < 1e-9
    mask, frac = star.get_transit_mask(lat0, lon0, a * R_KM * u.km, rp * R_KM * u.km, phase * u.deg, inc * u.deg)
    x.step(f'planet at ({X:.3f},{Y:.3f}) r={rp}')
    mask = np.asarray(mask, float)
    x.require(frac == 1.0, 'a planet in front of the star is entirely visible', frac)
    x.require(mask.shape == gm.zeros().shape, 'shape of the mask', mask.shape)
    x.require(np.all(np.isfinite(mask)) and mask.min() >= 0 and mask.max() <= 1 + 1e-6, 'mask values in [0,1]', mask.min(), mask.max())
    lat, lon = S.points(gm)
    px, py, mu = ref.project(lat0.to_value(u.rad), lon0.to_value(u.rad), lat, lon)
    area = np.asarray(gm.area, float)
    pr = 2 * np.sqrt(area)
    dist = np.hypot(px - X, py - Y)
    x.require(not np.any(mask[mu < -1e-7]), 'points behind the limb are not covered')
    inside = (mu > 1e-7) & (dist + 2 * pr + 0.02 < rp)
    outside = (mu > 1e-7) & (dist - 2 * pr - 0.02 > rp)
    x.require(np.all(mask[inside] > 1 - 1e-6), 'points behind the planet are covered', mask[inside].min() if inside.any() else None)
    x.require(not np.any(mask[outside]), 'points clear of the planet are not covered', mask[outside].max() if outside.any() else None)
    # a point half way is covered more the closer it is
    w = np.where(mu > 0, mu, 0) * area
    blocked = (mask * w).sum() / w.sum()
    exact = ref.overlap_fraction(d, rp) * rp**2 if rp <= 1 else ref.overlap_fraction(d / rp, 1 / rp)
    tol = 0.09 * min(rp, 1.0)**2 if rp >= 0.4 else 0.16 * rp**2
    x.require(abs(blocked - exact) <= tol, 'blocked share of the disk', blocked, exact)
    x.state(c['grid'], c['obs'], rp, X, Y, mask)


def centre(x, c, gm):
    """the observer above every grid point in turn, the planet in front of it"""
    star = S.star(grid=c['grid'], r_km=R_KM)
    turn = x.choose('turn', [0, 1])
    lat, lon = [v.ravel() for v in gm.grid()]
    for k in range(c['first'], min(c['first'] + c['count'], c['n'])):
        mask, _ = star.get_transit_mask(lat[k], lon[k] + turn * 360 * u.deg, 5 * R_KM * u.km, 0.5 * R_KM * u.km, 180 * u.deg, 90 * u.deg)
        x.step()
        mask = np.asarray(mask, float)
        x.require(np.all(np.isfinite(mask)), 'mask values are finite')
        x.require(mask.ravel()[k] > 1 - 1e-6, 'the point behind the middle of the planet is covered', k, lat[k], lon[k], mask.ravel()[k])
        x.state('centre', c['grid'], k, turn, float(mask.sum()))


def away(x, c, star, lat0, lon0):
    R_KM = c['rs'] * R_KM0
    rp = x.choose('size', [0.1, 0.5])
    case = x.choose('case', ['beside', 'above', 'below', 'quadrature', 'far side', 'far side, turned', 'behind the edge'])
    a, phase, inc = {'beside': (5., 180 + 30., 90.), 'above': (5., 180., 60.), 'below': (5., 180., 125.),
                     'quadrature': (5., 90., 30.), 'far side': (5., 3., 89.), 'far side, turned': (5., 725., 90.5),
                     'behind the edge': (5., 368., 84.)}[case]
    mask, frac = star.get_transit_mask(lat0, lon0, a * R_KM * u.km, rp * R_KM * u.km, phase * u.deg, inc * u.deg)
    x.step(case)
    x.require(np.shape(mask) == star.gridmaker.zeros().shape, 'shape of the mask')
    x.require(not np.any(mask), f'nothing is covered ({case})', np.max(mask))
    if not case.startswith(('far', 'behind')):
        x.require(frac == 1.0, 'a planet away from the disk is entirely visible', frac)
    x.state(c['grid'], c['obs'], rp, case, float(frac))
