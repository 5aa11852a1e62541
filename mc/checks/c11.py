"""All pairs of points of an alphabet of latitudes and longitudes (coincident, antipodal, polar, whole turns apart), all
observers against all points, all (distance, radius) pairs of a grid with every tangency and its rounding neighbours,
and all temperatures of an alphabet. Oracle: 3-D vectors, stable lens formula, nearest integer."""
import itertools
import math
import numpy as np
from mc import ref

LAT = [0., 90., -90., 30., -30., 12.34, -77.7, 89.999, 1e-7, -1e-9, 90. - 2e-14, -90. + 3e-14, 90. - 1e-8]
LON = [0., 180., 360., 90., 270., -90., 33.3, 213.3, 393.3, -326.7, 359.9999, 720., 123.456]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    for i in range(len(LAT)):
        for j in range(len(LON)):
            out.append(dict(mode='angle', i=i, j=j))
    for i in range(len(LAT)):
        for j in range(len(LON)):
            out.append(dict(mode='ortho', i=i, j=j))
    for lon in (0.0, 33.3, -120.0, 359.75):
        out += [dict(mode='self', lat=lat, lon=lon, n=180 if tier == 'thorough' else 60) for lat in range(-90, 91, 10)]
    n = 41 if tier == 'thorough' else 21
    for k in range(n):
        out.append(dict(mode='circle', r=max(1e-3, k / (n - 1)), n=n))
    out += [dict(mode='circle', r=r, n=n) for r in (1e-6, 1 / 3, 0.999999, 0.7071067811865476)]
    out.append(dict(mode='refuse'))
    out.append(dict(mode='teff'))
    return out


def explore(x, c):
    {'angle': angle, 'ortho': ortho, 'self': itself, 'circle': circle, 'refuse': refuse, 'teff': teff}[c['mode']](x, c)


def angle(x, c):
    la, lo = LAT[c['i']], LON[c['j']]
    unit = x.choose('unit', [u.deg, u.rad])
    lb = x.choose('lat', LAT)
    got, back = [], []
    for k in LON:
        p, q, r, s = [(v * u.deg).to(unit) for v in (la, lo, lb, k)]
        a = S.helpers.get_angle_between(p, q, r, s)
        b = S.helpers.get_angle_between(r, s, p, q)
        x.step()
        got.append(a.to_value(u.rad))
        back.append(b.to_value(u.rad))
    want = ref.sep(math.radians(la), math.radians(lo), math.radians(lb), np.radians(LON))
    # arccos loses half the digits next to 0 and pi
    x.close(got, want, 'angle between two points', rtol=1e-9, atol=5e-8)
    x.close(got, back, 'angle is symmetric', rtol=0, atol=1e-7)
    x.require(np.all(np.isfinite(got)) and np.min(got) >= 0 and np.max(got) <= math.pi + 1e-12, 'angle in [0, 180] degrees')
    x.state('angle', la, lo, lb, got)


def itself(x, c):
    """every latitude of a fine scale against itself, a whole turn on, and its antipode: the cosine rounds past +-1"""
    turn = x.choose('turn', [0.0, 360.0, -720.0])
    lon = c['lon']
    lats = [v for v in c['lat'] + np.arange(c['n']) * (10.0 / c['n']) if v <= 90.0]
    a = [S.helpers.get_angle_between(v * u.deg, lon * u.deg, v * u.deg, (lon + turn) * u.deg).to_value(u.rad) for v in lats]
    b = [S.helpers.get_angle_between(v * u.deg, lon * u.deg, -v * u.deg, (lon + turn + 180) * u.deg).to_value(u.rad) for v in lats]
    x.step()
    x.require(np.all(np.isfinite(a)), 'angle between a point and itself is finite', [v for v, w in zip(lats, a) if not np.isfinite(w)][:3])
    x.require(np.all(np.isfinite(b)), 'angle between antipodes is finite', [v for v, w in zip(lats, b) if not np.isfinite(w)][:3])
    x.close(a, np.zeros(len(a)), 'angle between a point and itself', rtol=0, atol=1e-7)
    x.close(b, np.full(len(b), math.pi), 'angle between antipodes', rtol=0, atol=1e-7)
    for v in lats:
        px, py = S.helpers.proj_ortho(v * u.deg, lon * u.deg, np.array([v, v - 5 if v > 0 else v + 5]) * u.deg, np.array([lon + turn, lon + turn]) * u.deg)
        d = np.hypot(px, py)
        x.require(np.all(np.isfinite(d)), 'the point at the centre of the disk is on it', v, lon + turn, d)
        x.close(d, [0.0, math.sin(math.radians(5))], 'distance from the centre of the disk', rtol=1e-6, atol=1e-7)
    x.state('self', c['lat'], lon, turn, a, b)


def ortho(x, c):
    la, lo = LAT[c['i']], LON[c['j']]
    layout = x.choose('layout', ['flat', 'grid'])
    unit = x.choose('unit', [u.deg, u.rad])
    if layout == 'flat':
        lats, lons = [np.array(v) for v in zip(*itertools.product(LAT + [45., -10., 60.], LON))]
    else:
        lats, lons = np.meshgrid(np.linspace(-90, 90, 9), np.linspace(0, 360, 14, endpoint=False))
    before = (lats.copy(), lons.copy())
    gx, gy = S.helpers.proj_ortho((la * u.deg).to(unit), (lo * u.deg).to(unit), (lats * u.deg).to(unit), (lons * u.deg).to(unit))
    x.step()
    gx, gy = np.asarray(gx, float), np.asarray(gy, float)
    x.require(gx.shape == lats.shape and gy.shape == lats.shape, 'shape of the projection')
    wx, wy, mu = ref.project(math.radians(la), math.radians(lo), np.radians(lats), np.radians(lons))
    near, far = mu > 1e-7, mu < -1e-7
    x.require(np.all(np.isnan(gx[far])) and np.all(np.isnan(gy[far])), 'far-side points are NaN')
    x.require(np.all(np.isfinite(gx[near])) and np.all(np.isfinite(gy[near])), 'near-side points are finite',
              lats[near & ~np.isfinite(gx)][:3], lons[near & ~np.isfinite(gx)][:3])
    x.close(gx[near], wx[near], 'x of the projection', rtol=0, atol=0.02)
    x.close(gy[near], wy[near], 'y of the projection', rtol=0, atol=0.02)
    x.close(np.hypot(gx, gy)[near], np.hypot(wx, wy)[near], 'distance from the centre', rtol=1e-6, atol=1e-7)
    x.require(np.array_equal(before[0], lats) and np.array_equal(before[1], lons), 'arguments are left alone')
    x.state('ortho', la, lo, layout, gx, gy)


def circle(x, c):
    r, n = c['r'], c['n']
    th = x.choose('direction', [0.0, 1.0, math.pi / 2, 4.0])
    ds = set(np.linspace(0, 2.2, 4 * n).tolist())
    for t in (1 - r, 1 + r, 1.0, math.sqrt(max(0, 1 - r * r)), r):
        ds |= {t, np.nextafter(t, 0), np.nextafter(t, 3), t - 1e-9, t + 1e-9, t - 1e-5, t + 1e-5}
    last = 2.0
    for d in sorted(v for v in ds if v == 0 or v > 1e-12):
        f = float(S.helpers.calc_circ_fraction_inside_unit_circle(d * math.cos(th), d * math.sin(th), r))
        x.step()
        x.require(math.isfinite(f), 'overlap is finite', d, r, f)
        tol = 1e-7 + 1e-14 / r**2           # the area formula cancels for tiny circles
        x.require(-tol <= f <= 1 + tol, 'overlap in [0,1]', d, r, f)
        x.close(f, ref.overlap_fraction(d, r), f'overlap at distance {d}', rtol=0, atol=2e-6 + tol)
        x.require(f <= last + 2 * tol, 'overlap grew with distance', d, r, last, f)
        last = f
        x.state('circle', r, d, f)


def refuse(x, c):
    d = x.choose('distance', [0.0, 0.5, 1.0, 3.0])
    r = x.choose('radius', [1.0000001, 1.5, 2.0, 100.0])
    x.step()
    x.refuses(lambda: S.helpers.calc_circ_fraction_inside_unit_circle(d, 0.0, r), ValueError, 'a circle larger than the unit circle')
    x.state('refuse', d, r)
    if d == 0.0:
        for bad in range(4):
            args = [10. * u.deg, 20. * u.deg, np.array([1., 2.]) * u.deg, np.array([1., 2.]) * u.deg]
            args[bad] = args[bad].value
            x.refuses(lambda: S.helpers.proj_ortho(*args), TypeError, 'a coordinate without unit')


def teff(x, c):
    t = x.choose('teff', [2299.6, 2300., 2300.4, 3000.2, 3000.7, 3899.9, 3900., 3900.1, 5000., 1., -123.4, -99.6, 0.2])
    unit = x.choose('unit', [u.K, u.kK])
    q = (t * u.K).to(unit)
    r = S.helpers.round_teff(q)
    x.step()
    v = q.value
    x.require(abs(r.to_value(unit) - v) <= 0.5 + 1e-9 and r.to_value(unit) == round(r.to_value(unit)), 'rounded to the nearest integer', v, r)
    x.require(r.unit == q.unit, 'rounding keeps the unit')
    k = S.helpers.clip_teff(q)
    x.step()
    x.close(k.to_value(u.K), ref.clip_teff(t), 'clipped temperature', rtol=1e-9)
    x.state('teff', t, unit.to_string(), r.to_value(u.K))
