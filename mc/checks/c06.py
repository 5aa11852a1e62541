"""Every history of: create spots and faculae on one grid, collect them on another, add more and re-grid the
collection, attach it to a star with a third grid and generators made on a fourth, then add, birth, mature and age
features; every combination of grid kinds and sizes. After every step each feature must cover the points that the
reference distance predicts on the owner's grid, and every map must have the owner's shape."""
import itertools
import numpy as np
from mc import ref
from mc.qrng import ScriptedRng

GRIDS = {'A': (5, 8), 'B': (8, 5), 'S': 40, 'T': 23, 'C': (5, 8)}   # C: same size as A, another object


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    names = list('ABST') + (['C'] if tier == 'thorough' else [])
    for gc, gs, gf in itertools.product(names, names, names):
        deep = tier == 'thorough' or (gc, gs, gf) in (('A', 'B', 'S'), ('S', 'A', 'T'), ('T', 'S', 'A'))
        out.append(dict(gc=gc, gs=gs, gf=gf, pre=2 if deep else 1, post=1, thorough=tier == 'thorough'))
    for gs, gf in itertools.product(names, names):
        out.append(dict(gc='A', gs=gs, gf=gf, pre=0, post=3 if tier == 'thorough' else (2 if gs != gf else 1), thorough=tier == 'thorough'))
    out.sort(key=lambda c: -(c['pre'] * 2 + c['post']))
    for g1, g2 in itertools.product('ABCST', repeat=2):
        out.append(dict(mode='two', g1=g1, g2=g2, depth=3 if tier == 'thorough' or g1 + g2 in ('AB', 'SA') else 2))
    return out


def make(name):
    return S.CoordinateGrid.new(GRIDS[name])


def covered_by_reference(o, gm):
    lat, lon = S.points(gm)
    if isinstance(o, S.StarSpot):
        d = ref.sep(o.coords['lat'].to_value(u.rad), o.coords['lon'].to_value(u.rad), lat, lon)
        rad = ref.cap_angle(o.area_current.to_value(u.km**2), S.R_KM)
        return [(o.teff_penumbra, d, rad), (o.teff_umbra, d, rad / np.sqrt(o.total_area_over_umbra_area))]
    d = ref.sep(o.lat.to_value(u.rad), o.lon.to_value(u.rad), lat, lon)
    return [(None, d, o.radius.to_value(u.km) / S.R_KM)]


def check_features(x, spots, facs, gm):
    shape = gm.zeros().shape
    r = S.R_KM * u.km
    covered = 0
    for o in spots:
        got = o.map_pixels(r)
        for k, d, rad in covered_by_reference(o, gm):
            x.require(got[k].shape == shape, 'shape of the points covered by a spot', got[k].shape, shape)
            sure = np.abs(d - rad) > 1e-6
            x.require(np.array_equal(got[k][sure], (d < rad)[sure]), 'points covered by a spot on the grid of its owner')
            covered += int(got[k].sum())
        fresh = S.StarSpot(o.coords['lat'], o.coords['lon'], o.area_max, o.area_current, o.teff_umbra, o.teff_penumbra,
                           o.total_area_over_umbra_area, o.is_growing, o.growth_rate, o.decay_rate, gridmaker=gm)
        again = fresh.map_pixels(r)
        x.require(all(np.array_equal(got[k], again[k]) for k in got), 'same points as a spot created on that grid')
    for o in facs:
        got = o.map_pixels(r)
        (_, d, rad), = covered_by_reference(o, gm)
        x.require(got.shape == shape, 'shape of the points covered by a facula', got.shape, shape)
        sure = np.abs(d - rad) > 1e-6
        x.require(np.array_equal(got[sure], (d <= rad)[sure]), 'points covered by a facula on the grid of its owner')
        covered += int(got.sum())
    return covered


class World:
    def __init__(self, x, c):
        self.x, self.c, self.n = x, c, 0

    def spot(self, g):
        self.n += 1
        return S.spot(lat=-70. + 37 * self.n, lon=40. + 100 * self.n, area_max=S.cap_area(45), area=S.cap_area(20 + 6 * self.n),
                      growing=self.n % 2 == 0, w=1 * S.MSH / u.day, gm=make(g))

    def fac(self, g):
        self.n += 1
        return S.facula(lat=60. - 41 * self.n, lon=10. + 77 * self.n, r_max=90000 * u.km, r=(30000 + 9000 * self.n) * u.km,
                        depth=9000 * u.km, life=300 * u.day, gm=make(g))


TWO = ['birth1', 'birth2', 'mature1', 'mature2', 'pass on', 'give all', 'new star', 'age', 'look']


def two(x, c):
    """Two stars with different grids share generators, hand features to each other and are joined by a third."""
    w = World(x, c)
    rng = ScriptedRng()
    r, teff = S.R_KM * u.km, 3000 * u.K
    how = x.choose('generators made on', ['A', 'S', 'parameters'])
    kw = dict(grid_params=(4, 6)) if how == 'parameters' else dict(gridmaker=make(how))
    sg = S.SpotGenerator(4000 * S.MSH, 0.1, 2500 * u.K, 2700 * u.K, coverage=0.1, init_area=900 * S.MSH, rng=rng, **kw)
    fg = S.FaculaGenerator(90000 * u.km, 0.2, 100 * u.km, 600 * u.hr, 0.2, 0 * u.K / u.km, 20 * u.km, -100 * u.K, 0 * u.K / u.km, 100 * u.K, 0.01,
                           rng=rng, **kw)

    def new(g, sc=None, fc=None):
        sc = sc or S.SpotCollection(w.spot('S'), **({'gridmaker': make('T')} if g in 'AS' else {'grid_params': (6, 5)}))
        fc = fc or S.FaculaCollection(w.fac('A'), **({'gridmaker': make('T')} if g in 'AS' else {'grid_params': (6, 5)}))
        star = S.Star(teff, r, 4 * u.day, sc, fc, grid_params=GRIDS[g], rng=rng, spot_generator=sg, fac_generator=fg)
        x.step('star')
        return [star, g, True]
    stars = [new(c['g1']), new(c['g2'])]

    def check(which):
        star, g, _ = which
        own = make(g)
        cov = check_features(x, star.spots.spots, star.faculae.faculae, own)
        m = star.add_faculae_to_map(20 * u.deg, 50 * u.deg)
        x.step('map')
        x.require(m.shape == own.zeros().shape == star.map.shape, 'shape of the map', m.shape)
        x.close(sum(star.calc_coverage(S.obs(20., 50.))[0].values()), 1.0, 'coverage adds up', rtol=1e-6)
        x.state(c, how, len(star.spots.spots), len(star.faculae.faculae), cov, m)
    for k in range(c['depth']):
        for st in stars:
            if st[2]:
                check(st)
        op = x.choose('op', TWO)
        x.step(op)
        a, b = stars
        if op[:5] == 'birth':
            star = stars[int(op[5]) - 1][0]
            rng.counts = [2]
            star.birth_spots(1 * u.day)
            rng.counts = [1]
            star.birth_faculae(1 * u.day)
        elif op[:6] == 'mature':
            stars[int(op[6]) - 1][0].generate_mature_spots(0.001)
        elif op == 'pass on':           # features of the first star are copied onto the second by hand
            b[0].add_spot([S.StarSpot(s.coords['lat'], s.coords['lon'], s.area_max, s.area_current, s.teff_umbra, s.teff_penumbra,
                                      s.total_area_over_umbra_area, gridmaker=s.gridmaker) for s in a[0].spots.spots])
        elif op == 'give all':          # and then handed over themselves
            a[2] = False
            b[0].add_spot(a[0].spots.spots)
            b[0].add_fac(a[0].faculae.faculae)
        elif op == 'new star':          # the collections of the second star move to a third star
            stars = [a, new(c['g1'] if k % 2 == 0 else 'T', b[0].spots, b[0].faculae)]
        elif op == 'age':
            for st in stars:
                st[0].age(1 * u.day)
    for st in stars:
        if st[2]:
            check(st)


def explore(x, c):
    if c.get('mode') == 'two':
        return two(x, c)
    w = World(x, c)
    grids = ['A', 'S'] if not c['thorough'] else ['A', 'B', 'S']
    r, teff = S.R_KM * u.km, 3000 * u.K
    gf = c['gf']
    pos = x.choose('construct with', ['features', 'nothing']) if c['pre'] else 'features'
    own = make(c['gc'])
    sc = S.SpotCollection(*([w.spot(gf), w.spot(gf)] if pos == 'features' else []), gridmaker=own)
    fc = S.FaculaCollection(*([w.fac(gf), w.fac(gf)] if pos == 'features' else []), gridmaker=own)
    x.step('collections')

    def check_collections():
        cov = check_features(x, sc.spots, fc.faculae, own)
        m = sc.map_pixels(r, teff)
        x.step('map')
        x.require(m.shape == own.zeros().shape, 'shape of the spot map', m.shape)
        f = sc.get_coverage(r)
        x.require(0 <= f <= 1 + 1e-6, 'spot coverage', f)
        x.state(c, type(own).__name__, m.shape, len(sc.spots), len(fc.faculae), cov, m)

    check_collections()
    for _ in range(c['pre']):
        op = x.choose('op', ['skip'] + [f'add {g}' for g in grids] + [f'regrid {g}' for g in grids + ['T']])
        x.step(op)
        if op == 'skip':
            break
        kind, g = op.split()
        if kind == 'add':
            sc.add_spot(w.spot(g) if w.n % 3 else [w.spot(g), w.spot(gf)])
            fc.add_faculae(w.fac(g) if w.n % 3 else (w.fac(g), w.fac(gf)))
        else:
            own = make(g)
            sc.set_gridmaker(own)
            fc.set_gridmaker(own)
        check_collections()
    # attach to a star; the generators come from yet another grid
    rng = ScriptedRng()
    gg = 'T' if gf in 'AB' else 'A'
    star = S.Star(teff, r, 4 * u.day, sc, fc, grid_params=GRIDS[c['gs']], rng=rng,
                  spot_generator=S.SpotGenerator(4000 * S.MSH, 0.1, 2500 * u.K, 2700 * u.K, coverage=0.1, init_area=900 * S.MSH,
                                                 gridmaker=make(gg), rng=rng),
                  fac_generator=S.FaculaGenerator(90000 * u.km, 0.2, 100 * u.km, 600 * u.hr, 0.2, 0 * u.K / u.km, 20 * u.km,
                                                  -100 * u.K, 0 * u.K / u.km, 100 * u.K, 0.01, grid_params=GRIDS[gg], rng=rng))
    x.step('star')
    own = make(c['gs'])

    def check_star():
        x.require(star.map.shape == own.zeros().shape, 'shape of the surface map', star.map.shape)
        check_features(x, star.spots.spots, star.faculae.faculae, own)
        full = star.add_faculae_to_map(20 * u.deg, 50 * u.deg)
        x.step('map with faculae')
        x.require(full.shape == own.zeros().shape, 'shape of the map with faculae', full.shape)
        cov = star.calc_coverage(S.obs(20., 50.))[0]
        x.step('coverage')
        x.close(sum(cov.values()), 1.0, 'coverage adds up', rtol=1e-6)
        x.state(c, 'star', len(star.spots.spots), len(star.faculae.faculae), full)

    check_star()
    for _ in range(c['post']):
        op = x.choose('op', ['births', 'birthf', 'age', 'mature'] + [f'add {g}' for g in grids])
        x.step(op)
        if op == 'births':
            rng.counts = [2]
            star.birth_spots(1 * u.day)
        elif op == 'birthf':
            rng.counts = [2]
            star.birth_faculae(1 * u.day)
        elif op == 'mature':
            star.generate_mature_spots(0.001)
        elif op == 'age':
            star.age(2 * u.day)
        else:
            g = op.split()[1]
            star.add_spot([w.spot(g)] if w.n % 2 else w.spot(g))
            star.add_fac([w.fac(g)] if w.n % 2 else w.fac(g))
        check_star()
    # the star's generators also produce on their own
    new = star.spot_generator.generate_spots(1) + tuple(star.fac_generator.generate_faculae(1))
    x.step('generate')
    for o in new:
        got = o.map_pixels(r)
        got = got if isinstance(got, np.ndarray) else got[o.teff_penumbra]
        x.require(got.shape == own.zeros().shape, 'features of the star\'s generators live on its grid', got.shape)
