"""Each scenario is a use of the library (life cycles, maps, coverage, transits, eclipses, flares, generators, granulation,
geometry). Every argument's unit is a choice point; all assignments with up to two arguments in another unit (three in the
thorough tier), and all arguments in the n-th alternative at once, must give the answers of the base units."""
import math
import numpy as np
from mc.qrng import ScriptedRng


def setup():
    global S, u, MSH, ALT, SCEN
    from mc import sut as S
    from astropy import units as u
    MSH = S.MSH
    ALT = {
        'angle': [u.deg, u.rad, u.arcmin, u.hourangle], 'time': [u.day, u.hr, u.s, u.yr], 'length': [u.km, u.m, u.R_sun, u.cm],
        'orbit': [u.AU, u.km, u.R_sun, u.m],
        'area': [MSH, u.km**2, u.m**2, u.R_sun**2], 'rate': [1 / u.day, 1 / u.hr, u.Hz, 1 / u.yr],
        'arearate': [MSH / u.day, u.km**2 / u.hr, u.m**2 / u.s, MSH / u.yr], 'slope': [u.K / u.km, u.K / u.m, u.K / u.R_sun, u.mK / u.m],
        'energy': [u.erg, u.J, u.Unit('1e33 erg'), u.eV], 'shorttime': [u.hr, u.min, u.day, u.s],
    }
    SCEN = dict(spot=spot, facula=facula, maps=maps, coverage=coverage, transit=transit, flares=flares, flarequery=flarequery, spotgen=spotgen,
                mature=mature, facgen=facgen, flaregen=flaregen, granulation=granulation, geometry=geometry, growth=growth)


NAMES = ['spot', 'facula', 'maps', 'coverage', 'transit', 'flares', 'flarequery', 'spotgen', 'mature', 'facgen', 'flaregen', 'granulation', 'geometry', 'growth']


def configs(tier):
    out = []
    for n in NAMES:
        out.append(dict(scen=n, bound=1 if n in HEAVY and tier != 'thorough' else 2))
        out.append(dict(scen=n, all=True))
    if tier == 'thorough':
        out += [dict(scen=n, bound=3) for n in NAMES if n not in HEAVY + ['coverage', 'maps', 'facgen', 'flaregen', 'spotgen']]
    return out


HEAVY = ['transit', 'granulation']


class Units:
    """q(value in base units, kind, name) -> the same quantity in the unit chosen for this argument."""

    def __init__(self, pick):
        self.pick = pick

    def __call__(self, v, kind, name):
        base = ALT[kind][0]
        unit = self.pick(name, ALT[kind])
        return (v * base).to(unit) if unit is not base else v * base


def spot(q):
    s = S.StarSpot(q(20., 'angle', 'lat'), q(100., 'angle', 'lon'), q(300., 'area', 'area_max'), q(40., 'area', 'area_current'), 2400 * u.K, 2700 * u.K, 4.,
                   True, q(0.45, 'rate', 'growth'), q(20., 'arearate', 'decay'), gridmaker=S.gridmaker((5, 6)))
    out = []
    for i, t in enumerate((1.3, 3.0, 2.1, 6.0, 4.0, 9.0)):
        s.age(q(t, 'time', f't{i}'))
        out += [s.area_current.to_value(MSH), float(s.is_growing)]
    return out


def growth(q):
    """Spots and faculae through the star's own clock, until they are gone."""
    star = S.star([], grid=(3, 4))
    s = S.StarSpot(0 * u.deg, 0 * u.deg, q(100., 'area', 'area_max'), q(90., 'area', 'area_current'), 2400 * u.K, 2700 * u.K, 4., True,
                   q(0.3, 'rate', 'growth'), q(30., 'arearate', 'decay'), gridmaker=S.gridmaker((3, 4)))
    f = S.facula(r=q(900., 'length', 'r'), r_max=q(1000., 'length', 'rmax'), life=q(2.2, 'time', 'life'))
    star.add_spot(s)
    star.add_fac(f)
    out = []
    for i in range(4):
        star.age(q(1.15, 'time', f't{i}'))
        out += [len(star.spots.spots), len(star.faculae.faculae), s.area_current.to_value(MSH), f.radius.to_value(u.km)]
    return out


def mkfac(q, gm=None, size=1.0, lat=10., lon=40.):
    return S.Facula(q(lat, 'angle', 'flat'), q(lon, 'angle', 'flon'), q(3000. * size, 'length', 'r_max'), q(1000. * size, 'length', 'r_init'),
                    q(600. * size, 'length', 'depth'), q(0.25, 'time', 'lifetime'), q(0.011 / size, 'slope', 'floor slope'), q(500. * size, 'length', 'min rad'),
                    -100.3 * u.K, q(-0.017 / size, 'slope', 'wall slope'), 210.6 * u.K, gridmaker=gm or S.gridmaker((5, 6)))


def facula(q):
    f = mkfac(q)
    out = []
    for i, t in enumerate((0.05, 0.2, 0.1)):
        f.age(q(t, 'time', f't{i}'))
        out += [f.radius.to_value(u.km), float(f.is_growing), f.floor_dteff.to_value(u.K), f.wall_dteff.to_value(u.K)]
        e = f.effective_area(q(35. + 10 * i, 'angle', f'angle{i}'))
        out += [k.to_value(u.K) for k in e] + [v.to_value(u.km**2) for v in e.values()]
        e = f.fractional_effective_area(q(35. + 10 * i, 'angle', f'frac{i}'))
        out += [k.to_value(u.K) for k in e] + [v.to_value(u.dimensionless_unscaled) for v in e.values()]
    out += [f.angular_radius(q(139140., 'length', 'star radius')).to_value(u.rad)]
    return out


def mkspot(q, gm, deg=40.):
    a = S.cap_area(deg).to_value(MSH)
    return S.StarSpot(q(20.3, 'angle', 'slat'), q(55.1, 'angle', 'slon'), q(1.1 * a, 'area', 'amax'), q(a, 'area', 'area'), 2400 * u.K, 2700 * u.K, 3.,
                      gridmaker=gm)


def mkstar(q, gm, grid, **kw):
    return S.Star(3000 * u.K, q(139140., 'length', 'star radius'), q(4., 'time', 'period'), S.SpotCollection(mkspot(q, gm), gridmaker=gm),
                  S.FaculaCollection(mkfac(q, gm, size=80., lat=-20.2, lon=30.7), gridmaker=gm), grid_params=grid, rng=np.random.default_rng(1), **kw)


def maps(q):
    out = []
    for grid in ((9, 14), 150):
        gm = S.gridmaker(grid)
        star = mkstar(q, gm, grid)
        out += list(star.map.to_value(u.K).ravel())
        out += list(star.add_faculae_to_map(q(7., 'angle', 'lat0'), q(33., 'angle', 'lon0')).to_value(u.K).ravel())
        s = star.spots.spots[0]
        out += [s.angular_radius(q(139140., 'length', 'r1')).to_value(u.rad), float(star.spots.get_coverage(q(139140., 'length', 'r2')))]
        out += [float(s.surface_fraction({'lat': q(5., 'angle', 'slat0'), 'lon': q(44., 'angle', 'slon0')}, q(139140., 'length', 'r3')))]
    return out


def cover(d):
    return [v for _, v in sorted((S.keyval(k), float(v)) for k, v in d.items())] + sorted(S.keyval(k) for k in d)


def coverage(q):
    out = []
    for grid in ((9, 14), 150):
        star = mkstar(q, S.gridmaker(grid), grid, u1=0.3, u2=0.2)
        obs = {'lat': q(7., 'angle', 'lat0'), 'lon': q(33., 'angle', 'lon0')}
        out += cover(star.calc_coverage(obs)[0])
        out += [star.average_teff(obs).to_value(u.K)]
        out += list(np.asarray(star.get_mu(obs['lat'], obs['lon'])).ravel())
    return out


def transit(q):
    out = []
    for grid in ((12, 17), 300):
        star = mkstar(q, S.gridmaker(grid), grid, u1=0.3, u2=0.2)
        au = (139140. * u.km).to_value(u.AU)
        obs = {'lat': q(7., 'angle', 'lat0'), 'lon': q(33., 'angle', 'lon0')}
        for i, (ph, inc) in enumerate(((178., 88.), (3., 87.), (40., 90.), (184.6, 92.5))):
            a, r = q(8 * au, 'orbit', 'orbit'), q(0.41 * 139140., 'length', 'planet')
            p, k = q(ph, 'angle', 'phase'), q(inc, 'angle', 'incl')
            t, c, f = star.calc_coverage(obs, 0.2, a, r, p, k)
            out += cover(t) + cover(c) + [float(f)]
            m, f = star.get_transit_mask(obs['lat'], obs['lon'], a, r, p, k)
            out += list(np.asarray(m, float).ravel()) + [float(f)]
            out += [float(star.get_pl_frac(q(ph - 180., 'angle', 'past'), a, r, k))]
    return out


def mkflare(q, tp=0.4, n=''):
    return S.StellarFlare(fwhm=q(1.1, 'shorttime', 'fwhm'), energy=q(2e33, 'energy', 'energy'), lat=q(10., 'angle', 'lat'), lon=q(350., 'angle', 'lon'),
                          Teff=9000 * u.K, tpeak=q(tp, 'time', 'tpeak' + n))


def flares(q):
    f = mkflare(q)
    out = [f.calc_peak_area().to_value(u.km**2)]
    t = np.linspace(0.3, 1.4, 37)
    out += list(f.areacurve(q(t, 'time', 'times')).to_value(u.km**2))
    out += [f.get_timearea(q(t, 'time', 'times2')).to_value(u.km**2 * u.hr)]
    return out


def flarequery(q):
    fs = [mkflare(q), mkflare(q, 3.3, '2'), S.StellarFlare(2 * u.hr, 1e34 * u.erg, 0 * u.deg, 170 * u.deg, 8000 * u.K, 9 * u.hr)]
    col = S.FlareCollection(fs)
    star = S.star([], grid=(3, 4))
    star.flares = col
    out = []
    for i, (a, b) in enumerate(((0.37, 0.52), (0.5, 3.28), (2.85, 2.9), (2.7, 2.8), (-4., 9.003), (1.31, 1.4), (0.4001, 0.4017))):
        ta, tb = q(a, 'time', f'start'), q(b, 'time', f'end')
        obs = {'lat': q(5., 'angle', 'lat0'), 'lon': q(20., 'angle', 'lon0')}
        out += [float(m) for m in col.mask(ta, tb)]
        vis = col.get_visible_flares_in_timeperiod(ta, tb, obs)
        out += [len(vis)] + [fs.index(f) for f in vis]
        for r in star.get_flare_int_over_timeperiod(ta, tb, obs):
            out += [r['Teff'].to_value(u.K), r['timearea'].to_value(u.km**2 * u.hr)]
    out += [col.peaks.to_value(u.hr).sum(), col.fwhms.to_value(u.hr).sum()]
    return out


def spotgen(q):
    g = S.SpotGenerator(q(400., 'area', 'mean'), 0.3, 2400 * u.K, 2700 * u.K, q(0.4, 'rate', 'growth'), q(15., 'arearate', 'decay'), q(20., 'area', 'init'),
                        'solar', 0.2, gridmaker=S.gridmaker((3, 4)), rng=ScriptedRng())
    out = [g.mean_area.to_value(MSH), g.mean_lifetime.to_value(u.day), float(g.is_static)]
    out += [g.get_n_spots_to_birth(q(2.5, 'time', 'time'), q(1e5, 'length', 'radius'))]
    g.rng.counts = [2]
    for s in g.birth_spots(q(1.5, 'time', 'time2'), q(1e5, 'length', 'radius2')):
        out += [s.area_max.to_value(MSH), s.area_current.to_value(MSH), s.coords['lat'].to_value(u.deg), s.coords['lon'].to_value(u.deg),
                s.total_area_over_umbra_area, s.growth_rate.to_value(1 / u.day), s.decay_rate.to_value(MSH / u.day)]
    st = S.SpotGenerator(400 * MSH, 0.3, 2400 * u.K, 2700 * u.K, q(0.4, 'rate', 'growth'), q(0., 'arearate', 'nodecay'), q(20., 'area', 'init'),
                         'solar', 0.2, gridmaker=S.gridmaker((3, 4)), rng=ScriptedRng())
    out += [float(st.is_static), st.get_n_spots_to_birth(q(2.5, 'time', 'time'), q(1e5, 'length', 'radius')), st.mean_area.to_value(MSH)]
    return out


def mature(q):
    out = []
    for w in (15., 0.):
        g = S.SpotGenerator(q(400., 'area', 'mean'), 0.3, 2400 * u.K, 2700 * u.K, q(0.4, 'rate', 'growth'), q(w, 'arearate', 'decay'), q(20., 'area', 'init'),
                            'iso', 0.2, gridmaker=S.gridmaker((3, 4)), rng=ScriptedRng())
        for s in g.generate_mature_spots(0.013, q(1.3e5, 'length', 'radius')):
            out += [s.area_max.to_value(MSH), s.area_current.to_value(MSH), s.coords['lat'].to_value(u.deg), s.coords['lon'].to_value(u.deg), float(s.is_growing)]
    return out


def facgen(q):
    g = S.FaculaGenerator(q(800., 'length', 'peak'), 0.2, q(100., 'length', 'depth'), q(0.3, 'time', 'life'), 0.3, q(0.1, 'slope', 'fs'),
                          q(50., 'length', 'minrad'), -100 * u.K, q(0.2, 'slope', 'ws'), 150 * u.K, 0.1, gridmaker=S.gridmaker((3, 4)), rng=ScriptedRng())
    out = [g.mean_area.to_value(u.km**2), g.get_n_faculae_expected(q(2.5, 'time', 'time'), q(1e5, 'length', 'radius'))]
    g.rng.counts = [3]
    for f in g.birth_faculae(q(0.5, 'time', 'time2'), q(1e5, 'length', 'radius2')):
        out += [f.r_max.to_value(u.km), f.radius.to_value(u.km), f.depth.to_value(u.km), f.lifetime.to_value(u.day), f.lat.to_value(u.deg), f.lon.to_value(u.deg),
                f.floor_dteff.to_value(u.K), f.wall_dteff.to_value(u.K)]
    return out


def flaregen(q):
    g = S.FlareGenerator(9000 * u.K, 500 * u.K, q(3., 'shorttime', 'fwhm'), 0.3, min_energy=q(1.3e33, 'energy', 'min'), rng=ScriptedRng())
    e = np.array([1.3, 2., 50.]) * 1e33
    out = list(g.frequency_greater_than(q(e, 'energy', 'e1')).to_value(1 / u.day)) + list(g.cdf(q(e, 'energy', 'e2'))) + list(np.asarray(g.pdf(q(e, 'energy', 'e3'))) * 1e33)
    out += list(np.asarray(g.get_nexp_greater_than(q(e, 'energy', 'e4'), q(2., 'time', 't1')))) + [g.get_ntotal(q(2., 'time', 't2'))]
    out += list(g.quantile_func(np.array([0.2, 0.6])).to_value(u.erg))
    g.rng.counts = [4]
    for f in g.generate_flare_series(q(2.2, 'time', 't3')):
        out += [f.fwhm.to_value(u.hr), f.energy.to_value(u.erg), f.lat.to_value(u.deg), f.lon.to_value(u.deg), f.Teff.to_value(u.K), f.tpeak.to_value(u.hr)]
    return out


def granulation(q):
    g = S.Granulation(0.3, 2e-3, q(0.8, 'shorttime', 'period'), 200 * u.K, seed=4)
    star = S.star([], grid=(3, 4), granulation=g)
    t = np.array([0., 0.05, 0.2, 0.31, 0.55])
    return list(np.asarray(g.get_coverage(q(t, 'time', 'times')))) + list(np.asarray(star.get_granulation_coverage(q(t, 'time', 'times2'))))


def geometry(q):
    out = []
    for i, (a, b, c, d) in enumerate(((10., 20., -30., 200.), (90., 0., 5., 5.), (0., 359., 0., 1.), (-45., 100., 45., -80.1))):
        out += [S.helpers.get_angle_between(q(a, 'angle', 'lat1'), q(b, 'angle', 'lon1'), q(c, 'angle', 'lat2'), q(d, 'angle', 'lon2')).to_value(u.deg)]
        lats, lons = np.array([5., 40., -20.]), np.array([15., 350., 77.])
        px, py = S.helpers.proj_ortho(q(a, 'angle', 'lat1'), q(b, 'angle', 'lon1'), q(lats, 'angle', 'lats'), q(lons, 'angle', 'lons'))
        out += list(np.nan_to_num(np.asarray(px), nan=-9.)) + list(np.nan_to_num(np.asarray(py), nan=-9.))
        for grid in ((4, 5), 21):
            out += list(np.asarray(S.gridmaker(grid).cos_angle_from_disk_center(q(a, 'angle', 'lat1'), q(b, 'angle', 'lon1'))).ravel())
    return out


_memo = {}


def explore(x, c):
    name = c['scen']
    if name not in _memo:
        _memo[name] = np.array(SCEN[name](Units(lambda n, alts: alts[0])), dtype=float)
    chosen = {}
    if c.get('all'):
        k = x.choose('alternative', [1, 2, 3])
        pick = lambda n, alts: alts[k]
    else:
        def pick(n, alts):
            if n not in chosen:
                chosen[n] = x.choose(n, alts, dev=True)
            return chosen[n]
    got = SCEN[name](Units(pick))
    x.step(name)
    what = ', '.join(f'{n} in {v}' for n, v in chosen.items() if v is not None)
    x.close(np.array(got, dtype=float), _memo[name], f'{name}: answers in other units', rtol=2e-6, atol=2e-7)
    x.state(name, sorted((n, str(v)) for n, v in chosen.items()))
