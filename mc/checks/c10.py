"""Every combination of projected distance (from centre to well clear, including both tangencies), direction, planet
size, orbit, phase turn and side of the star. Oracle: the stable lens formula. The three places that report the visible
fraction (planet-fraction query, transit mask, coverage report) must agree for every observer and surface."""
import itertools
import math
import numpy as np
from mc import ref

R_KM0 = 139140.0
RP = [0.02, 0.1, 0.3, 0.5, 0.9, 1.0]
THETA = [0.0, 0.7, math.pi / 2, 2.5, 4.0]
# orbit [stellar radii], whole turns, stellar radius [0.2 solar radii]
ORBIT = [(4.0, 0, 1.0), (60.0, 0, 5.0), (4.0, 1, 0.5), (4.0, -2, 1.0), (1500.0, 0, 0.6)]
OBS = [(0., 0.), (90., 10.), (-33., 250.), (-90., 77.), (50., 361.)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def distances(rp, dense):
    base = [0.0, 0.05, (1 - rp) * 0.5, 1 - rp - 1e-4, 1 - rp, 1 - rp + 1e-4, 1 - rp / 2, 1.0, 1 + rp / 2, 1 + rp - 1e-4, 1 + rp, 1 + rp + 1e-4,
            1 + 1.5 * rp, 1 + 2 * rp + 1e-3, 1 + 3 * rp, 2.5]
    if dense:
        base += list(np.linspace(0, 1.2 + rp, 60))
    return sorted(set(float(d) for d in base if 0 <= d <= 3.2))


def configs(tier):
    out = []
    for rp, o in itertools.product(range(len(RP)), range(len(OBS))):
        for th in THETA:
            out.append(dict(rp=RP[rp], obs=o, th=th, dense=tier == 'thorough', side='far'))
        out.append(dict(rp=RP[rp], obs=o, th=0.7, dense=False, side='near'))
    return out


def explore(x, c):
    rp = c['rp']
    a, turns, rs = x.choose('orbit', ORBIT)
    R_KM = rs * R_KM0
    surface = x.choose('surface', ['quiet', 'spotted'])
    lat0, lon0 = OBS[c['obs']]
    g = 30 if surface == 'quiet' else (4, 6)
    star = S.star([S.spot(area=S.cap_area(50), area_max=S.cap_area(50), gm=S.gridmaker(g))] if surface == 'spotted' else [], grid=g, r_km=R_KM,
                  u1=0.3 if surface == 'spotted' else 0)
    last = -1.0
    for d in distances(rp, c['dense']):
        X, Y = d * math.cos(c['th']), d * math.sin(c['th'])
        s = X / a
        co = math.sqrt(1 - s * s)
        if c['side'] == 'far':      # cos(phase - 180) = -co
            phase = 0 - math.degrees(math.asin(s)) + 360 * turns
            inc = math.degrees(math.acos(-Y / (a * co)))
        else:
            phase = 180 + math.degrees(math.asin(s)) + 360 * turns
            inc = math.degrees(math.acos(Y / (a * co)))
        kw = dict(orbit_radius=a * R_KM * u.km, phase=phase * u.deg, inclination=inc * u.deg)
        mask, f = star.get_transit_mask(lat0 * u.deg, lon0 * u.deg, radius=rp * R_KM * u.km, **kw)
        x.step(f'd={d}')
        f = float(f)
        x.require(np.isfinite(f) and -1e-7 <= f <= 1 + 1e-7, 'visible fraction in [0,1]', d, f)
        if c['side'] == 'near':
            x.require(f == 1.0, 'a planet on the near side is entirely visible', d, f)
        else:
            want = 1 - ref.overlap_fraction(d, rp)
            q = float(star.get_pl_frac((phase - 180) * u.deg, a * R_KM * u.km, rp * R_KM * u.km, inc * u.deg))
            x.step()
            x.close(f, want, f'visible fraction at distance {d}', rtol=0, atol=2e-6)
            x.close(q, want, f'planet-fraction query at distance {d}', rtol=0, atol=2e-6)
            x.require(not np.any(mask), 'an eclipsed planet covers nothing')
            x.require(f >= last - 1e-7, 'the visible fraction fell with distance', d, last, f)
            if d > 1 + rp + 1e-5:
                x.require(f == 1.0, 'a planet clear of the star is entirely visible', d, f)
            if d < 1 - rp - 1e-5:
                x.require(f == 0.0, 'a planet behind the star is hidden', d, f)
            last = f
        if turns == 0 or c['dense']:
            tot, cov, p = star.calc_coverage(S.obs(lat0, lon0), planet_radius=rp * R_KM * u.km, **kw)
            x.step()
            x.close(float(p), f, 'visible fraction in the coverage report', rtol=0, atol=1e-12)
            if c['side'] == 'far':
                x.require(all(v == 0 for v in cov.values()), 'an eclipsed planet covers nothing')
        x.state(c, a, turns, d, f)
