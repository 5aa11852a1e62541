"""(queries) all sequences of queries and updates up to the depth, the caller overwriting what it got back: after every query
the star, its features, generators (with the state of their random generators) and the arguments are unchanged, and all
answers are those of the history without the other queries. (stars) all interleavings of the histories of two stars:
each star answers as it does alone. (global) the same histories under different states of the global random generators. (args) for every query that takes
arguments, all ordered pairs of argument sets that are easily mistaken for one another: the second answer is a fresh star's.
"""
import copy
import itertools
import random
import numpy as np
from mc.core import canon

LONG = ['manys', 'manyf', 'manyl', 'manym']
UPD = ['age.4', 'age3', 'births', 'birthf', 'spot', 'fac', 'flares', 'mature']
QRY = ['map', 'facmap', 'cover', 'cover2', 'transit', 'eclipse', 'avg', 'flareint', 'flarelist', 'gran', 'mu', 'spotcover', 'sizes', 'rates', 'grid', 'display',
       'lightcurve', 'law']
SEQ = [['age.4', 'births', 'cover'], ['births', 'birthf', 'age3'], ['flares', 'flareint', 'births'], ['gran', 'mature', 'map'], ['spot', 'age3', 'facmap'],
       ['fac', 'transit', 'birthf'], ['births', 'flares', 'birthf']]
# long runs (hundreds of expected features), in the modes where histories are compared
RUNS = [['manys', 'births'], ['manyf', 'birthf'], ['manyl', 'flareint'], ['manym', 'manys']]


def setup():
    global S, u, MSH
    from mc import sut as S
    from astropy import units as u
    MSH = S.MSH


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for q in QRY:
        for g in ((5, 7), 40):
            out.append(dict(mode='queries', first=q, grid=g, depth=4 if deep else 3 if g != 40 else 2))
    for i, j in itertools.product(range(len(SEQ)), repeat=2):
        if deep or i <= j:
            out.append(dict(mode='stars', a=i, b=j))
    for i in range(len(SEQ) + len(RUNS)):
        out.append(dict(mode='global', a=i))
    for k in ARGS:
        out.append(dict(mode='args', query=k))
    for g in ((5, 7), 40):
        out.append(dict(mode='updates', grid=g, depth=3 if deep else 2))
    return out


def explore(x, c):
    {'queries': queries, 'stars': stars, 'global': globals_, 'updates': updates, 'args': args_}[c['mode']](x, c)


def build(grid, seed, same_rng=False):
    gm = S.gridmaker(grid)
    r = [np.random.default_rng(seed + i) for i in range(4)]
    if same_rng:
        r = [r[0]] * 4
    sp = [S.spot(lat=12., lon=33., area=S.cap_area(35.), area_max=S.cap_area(50.), gm=gm, g=0.3 / u.day, w=0.1 * S.cap_area(50.) / u.day),
          S.spot(lat=-60., lon=300., area=S.cap_area(28.), area_max=S.cap_area(50.), growing=False, tu=2350, tp=2800, gm=gm, w=0.05 * S.cap_area(50.) / u.day)]
    fc = [S.facula(lat=20., lon=350., r=0.5 * S.R_KM * u.km, r_max=0.6 * S.R_KM * u.km, depth=0.2 * S.R_KM * u.km, life=4 * u.day, gm=gm),
          S.facula(lat=-10., lon=70., r=0.4 * S.R_KM * u.km, r_max=0.6 * S.R_KM * u.km, depth=0.3 * S.R_KM * u.km, life=4 * u.day, growing=False, gm=gm)]
    star = S.star(sp, fc, grid=grid, u1=0.3, u2=0.1, rng=r[0],
                  spot_generator=S.SpotGenerator(S.cap_area(20.), 0.2, 2500 * u.K, 2700 * u.K, init_area=S.cap_area(10.), distribution='iso', coverage=0.2,
                                                 decay_rate=0.1 * S.cap_area(20.) / u.day, gridmaker=gm, rng=r[1]),
                  fac_generator=S.FaculaGenerator(0.3 * S.R_KM * u.km, 0.1, 0.1 * S.R_KM * u.km, 3 * u.day, 0.2, 0 * u.K / u.km, 100 * u.km, -100 * u.K,
                                                  0 * u.K / u.km, 150 * u.K, 0.2, gridmaker=gm, rng=r[2]),
                  flare_generator=S.FlareGenerator(9000 * u.K, 500 * u.K, 3 * u.hr, 0.3, beta=27.5, rng=r[3]),
                  granulation=S.Granulation(0.3, 1e-3, 1 * u.hr, 200 * u.K, seed=seed))
    star.get_flares_over_observation(1 * u.day)
    return star


def featuredata(star):
    out = []
    for s in star.spots.spots:
        out.append([s.coords['lat'], s.coords['lon'], s.area_max, s.area_current, s.teff_umbra, s.teff_penumbra, s.total_area_over_umbra_area,
                    bool(s.is_growing), s.growth_rate, s.decay_rate, s.r])
    for f in star.faculae.faculae:
        out.append([f.lat, f.lon, f.r_max, f.radius, f.depth, f.lifetime, bool(f.is_growing), f.floor_teff_slope, f.floor_teff_min_rad,
                    f.floor_teff_base_dteff, f.wall_teff_slope, f.wall_teff_intercept])
    for f in star.flares.flares:
        out.append([f.lat, f.lon, f.Teff, f.fwhm, f.energy, f.tpeak])
    return out


def rngs(star):
    gens = [star.rng, star.spot_generator.rng, star.fac_generator.rng, star.flare_generator.rng]
    return [repr(g.bit_generator.state) for g in gens]


def snapshot(star):
    """Everything that later answers are made of."""
    sg, fg, lg, gr = star.spot_generator, star.fac_generator, star.flare_generator, star.granulation
    return canon([featuredata(star), rngs(star), star.teff, star.radius, star.period, star.u1, star.u2,
                  [sg.dist_area_mean, sg.dist_area_logsigma, sg.umbra_teff, sg.penumbra_teff, sg.growth_rate, sg.decay_rate, sg.init_area, sg.distribution, sg.coverage],
                  [fg.dist_r_peak, fg.dist_r_logsigma, fg.depth, fg.dist_life_peak, fg.dist_life_logsigma, fg.coverage, fg.floor_teff_base_dteff, fg.wall_teff_intercept],
                  [lg.alpha, lg.beta, lg.min_energy, lg.dist_teff_mean, lg.dist_teff_sigma, lg.dist_fwhm_mean, lg.dist_fwhm_logsigma, lg.cluster_size],
                  [sorted(getattr(gr, 'params', {}).items()), gr.dteff, getattr(gr, 'seed', None)], [len(star.spots.spots), len(star.faculae.faculae), len(star.flares.flares)]])


def update(star, op, n=0):
    if op.startswith('age'):
        star.age(float(op[3:]) * u.day)
    elif op == 'births':
        star.birth_spots(6 * u.day)
    elif op == 'birthf':
        star.birth_faculae(6 * u.day)
    elif op == 'flares':
        star.get_flares_over_observation(1 * u.day)
    elif op == 'manys':
        star.birth_spots(120 * u.day)
    elif op == 'manyf':
        star.birth_faculae(150 * u.day)
    elif op == 'manyl':
        star.get_flares_over_observation(60 * u.day)
    elif op == 'manym':
        star.generate_mature_spots(0.6)
    elif op == 'mature':
        star.generate_mature_spots(0.02)
    elif op == 'spot':
        star.add_spot(S.spot(lat=40., lon=100., area=S.cap_area(30.), area_max=S.cap_area(33.), grid=(3, 4)))
    elif op == 'fac':
        star.add_fac(S.facula(lat=40., lon=-100., r=0.3 * S.R_KM * u.km, r_max=0.5 * S.R_KM * u.km, depth=0.2 * S.R_KM * u.km, grid=(3, 4)))


def arguments(op):
    obs = S.obs(15., 380.)
    if op == 'cover2':
        obs = S.obs(-40., -160.)
    return dict(obs=obs, t=np.array([3.0, 0.5, 1.0]) * u.hr, a=5 * S.R_KM * u.km, r=0.4 * S.R_KM * u.km, ph=543 * u.deg, inc=89 * u.deg,
                t0=0 * u.hr, t1=20 * u.hr, data=np.arange(40.), e=np.array([3., 1.]) * 1e33 * u.erg, win=(np.arange(7.) * 2) * u.hr, q=np.array([0.7, 0.1]), backwards=np.array([9., 4., 0.]) * u.hr)


def query(star, op, g):
    """The raw answer (things a caller may overwrite)."""
    o = g['obs']
    if op == 'map':
        return [star.map]
    if op == 'facmap':
        return [star.add_faculae_to_map(o['lat'], o['lon'])]
    if op in ('cover', 'cover2'):
        return list(star.calc_coverage(o, 0.3, g['a'], g['r'], g['ph'], g['inc']))
    if op == 'transit':
        return list(star.get_transit_mask(o['lat'], o['lon'], g['a'], g['r'], g['ph'], g['inc']))
    if op == 'eclipse':
        return list(star.get_transit_mask(o['lat'], o['lon'], g['a'], g['r'], g['ph'] + 170 * u.deg, g['inc'])) + [star.get_pl_frac(g['ph'], g['a'], g['r'], g['inc'])]
    if op == 'avg':
        return [star.average_teff(o)]
    if op == 'flareint':
        return [star.get_flare_int_over_timeperiod(g['t0'], g['t1'], o)]
    if op == 'flarelist':
        return [[[f.tpeak, f.energy] for f in star.flares.get_visible_flares_in_timeperiod(g['t0'], g['t1'], o)], star.flares.mask(g['t0'], g['t1']),
                [len(star.flares.get_flares_in_timeperiod(g['t0'], g['t1']))]]
    if op == 'gran':
        return [star.get_granulation_coverage(g['t']), star.get_granulation_coverage(g['backwards'])]
    if op == 'mu':
        mu = star.get_mu(o['lat'], o['lon'])
        return [mu, star.ld_mask_for_plotting(mu.copy()), star.area_projection_coefficient(mu.copy()), star.get_jacobian()]
    if op == 'spotcover':
        return [star.spots.get_coverage(star.radius), star.spots.map_pixels(star.radius, star.teff)]
    if op == 'sizes':
        return [[s.angular_radius(star.radius) for s in star.spots.spots], [list(s.map_pixels(star.radius).values()) for s in star.spots.spots],
                [s.surface_fraction(o, star.radius) for s in star.spots.spots],
                [f.angular_radius(star.radius) for f in star.faculae.faculae], [list(f.effective_area(30 * u.deg).values()) for f in star.faculae.faculae],
                [f.map_pixels(star.radius) for f in star.faculae.faculae], [[f.floor_dteff, f.wall_dteff] for f in star.faculae.faculae]]
    if op == 'rates':
        return [star.spot_generator.get_n_spots_to_birth(1 * u.day, star.radius), star.spot_generator.mean_area, star.spot_generator.mean_lifetime,
                star.fac_generator.get_n_faculae_expected(1 * u.day, star.radius), star.fac_generator.mean_area, star.flare_generator.get_ntotal(1 * u.day)]
    if op == 'law':
        lg = star.flare_generator
        return [lg.cdf(g['e']), lg.pdf(g['e']), lg.frequency_greater_than(g['e']), lg.quantile_func(g['q'])]
    if op == 'grid':
        return [list(star.gridmaker.grid()), star.gridmaker.area, star.gridmaker.zeros()]
    if op == 'display':
        return list(star.gridmaker.display_grid(5, 7, star.map))
    if op == 'lightcurve':
        return [[f.areacurve(g[w]) for f in star.flares.flares[:2] for w in ('win', 'backwards')], [f.calc_peak_area() for f in star.flares.flares[:2]],
                [f.get_timearea(g['win']) for f in star.flares.flares[:2]]]
    raise ValueError(op)


def scribble(v):
    """What a caller might do to an answer."""
    if isinstance(v, np.ndarray) and v.ndim > 0 and v.flags.writeable:
        try:
            v[...] = (np.zeros(1, v.dtype)[0] if v.dtype == bool else -77) * (v.unit if hasattr(v, 'unit') else 1)
        except Exception:
            pass
    elif isinstance(v, dict):
        for w in v.values():
            scribble(w)
        v.clear()
    elif isinstance(v, (list, tuple)):
        for w in v:
            scribble(w)
        if isinstance(v, list):
            v.clear()


def ask(x, star, op, spoil, check=True):
    g = arguments(op)
    before = snapshot(star) if check else None
    args = canon([sorted(g.items(), key=str)])
    r = query(star, op, g)
    x.step(op)
    out = canon(r)
    if check:
        x.require(snapshot(star) == before, f'the query "{op}" changed the star')
        x.require(canon([sorted(g.items(), key=str)]) == args, f'the query "{op}" changed its arguments')
    if spoil:
        scribble(r)
        if check:
            x.require(snapshot(star) == before, f'overwriting the answer to "{op}" changed the star')
    return out


_memo = {}


def plain(x, grid, seed, ops, probe):
    """The answer to probe after only the updates of a history."""
    k = (str(grid), seed, tuple(ops), probe)
    if k not in _memo:
        star = build(grid, seed)
        for op in ops:
            update(star, op)
        _memo[k] = ask(x, star, probe, False, check=False)
    return _memo[k]


def queries(x, c):
    star = build(c['grid'], 3)
    ups = []
    spoil = x.choose('overwrite answers', [True, False])
    for k in range(c['depth']):
        op = c['first'] if k == 0 else x.choose('op', QRY + ['age.4', 'births'])
        if op in UPD:
            update(star, op)
            x.step(op)
            ups.append(op)
        else:
            got = ask(x, star, op, spoil)
            x.require(got == plain(x, c['grid'], 3, ups, op), f'the answer to "{op}" depends on earlier queries')
            x.state(ups, op, got)


def updates(x, c):
    """Updates in every order, all queries after each: the queries are those of a fresh star, and leave the next update alone."""
    same = x.choose('one generator for all', [False, True])
    star = build(c['grid'], 11, same)
    quiet = build(c['grid'], 11, same)
    for k in range(c['depth']):
        op = x.choose('update', UPD)
        update(star, op)
        update(quiet, op)
        x.step(op)
        x.require(snapshot(star) == snapshot(quiet), f'equal seeds, but different after {op}')
        for q in QRY:
            ask(x, star, q, True, check=False)
        x.require(snapshot(star) == snapshot(quiet), f'queries changed the star after {op}')
        x.state(snapshot(star))


def run(star, op):
    if op in UPD + LONG:
        update(star, op)
        return canon(featuredata(star))
    return canon(query(star, op, arguments(op)))


def solo(i, grid, seed):
    k = ('solo', i, str(grid), seed)
    if k not in _memo:
        star = build(grid, seed)
        _memo[k] = [run(star, op) for op in (SEQ + RUNS)[i]] + [snapshot(star)]
    return _memo[k]


def stars(x, c):
    ga, gb = (5, 7), x.choose('grid of the second star', [(5, 7), 40])
    sb = x.choose('seed of the second star', [3, 50])
    want = [list(solo(c['a'], ga, 3)), list(solo(c['b'], gb, sb))]
    if x.choose('construction', ['a first', 'b first']) == 'a first':
        a = build(ga, 3)
        b = build(gb, sb)
    else:
        b = build(gb, sb)
        a = build(ga, 3)
    todo = [list(SEQ[c['a']]), list(SEQ[c['b']])]
    pos = [0, 0]
    while any(pos[i] < len(todo[i]) for i in (0, 1)):
        who = x.choose('who moves', [i for i in (0, 1) if pos[i] < len(todo[i])])
        op = todo[who][pos[who]]
        got = run((a, b)[who], op)
        x.step(f'{"ab"[who]}.{op}')
        x.require(got == want[who][pos[who]], f'star {"ab"[who]} answers "{op}" differently when another star is around')
        pos[who] += 1
        x.state(c['a'], c['b'], pos, got)
    for who, star in ((0, a), (1, b)):
        x.require(snapshot(star) == want[who][-1], f'star {"ab"[who]} ends differently when another star is around')


def globals_(x, c):
    want = solo(c['a'], (5, 7), 3)
    where = x.choose('reseed before', ['construction', 'each operation', 'twice'])
    seed = x.choose('global seed', [0, 1, 12345])

    def reseed(k):
        np.random.seed(seed + k)
        random.seed(seed + k)
        if where == 'twice':
            np.random.random(5)
    st = (np.random.get_state(), random.getstate())
    try:
        reseed(0)
        star = build((5, 7), 3)
        for k, op in enumerate((SEQ + RUNS)[c['a']]):
            if where != 'construction':
                reseed(k)
            got = run(star, op)
            x.step(op)
            x.require(got == want[k], f'"{op}" depends on the global random state')
        x.require(snapshot(star) == want[-1], 'the history depends on the global random state')
        x.state(c['a'], where, seed)
    finally:
        np.random.set_state(st[0])
        random.setstate(st[1])


VIEW = [(15., 20.), (-15., 20.), (15., 200.), (15., -20.), (15., 380.), (20., 15.), (15.3, 20.2), (165., 200.), (15., 0.), (0., 20.)]
ORBIT = [(5., 0.4, 183., 89.), (5., 0.4, 177., 89.), (5., 0.4, 3., 89.), (5., 0.4, 183., 91.), (5., 0.3, 183., 89.), (6., 0.4, 183., 89.), (5., 0.4, 183., 88.),
         (5., 0.4, 186., 89.), (5., 0.4, 543., 89.)]
GFRAC = [0.3, 0.0, 0.7, 1.0]
TIMES = [[0.5, 1.0, 3.0], [0.5, 1.7, 3.0], [3.0, 1.0, 0.5], [0.5, 1.0, 3.0, 4.0], [1.5, 2.0, 4.0], [0.5, 0.75, 1.0]]
WINDOWS = [(0., 20.), (0., 10.), (10., 20.), (-20., 0.), (5., 25.), (0., 20.4)]
# query -> positions of the arguments that vary, and the alphabet
ARGS = {
    'facmap': VIEW, 'cover': [(v, o, g) for v, o, g in [(v, ORBIT[0], 0.3) for v in VIEW] + [(VIEW[0], o, 0.3) for o in ORBIT[1:]] + [(VIEW[0], ORBIT[0], g) for g in GFRAC[1:]]],
    'transit': [(v, ORBIT[0]) for v in VIEW] + [(VIEW[0], o) for o in ORBIT[1:]], 'plfrac': ORBIT, 'avg': VIEW, 'flareint': [(w, VIEW[0]) for w in WINDOWS] + [(WINDOWS[0], v) for v in VIEW[1:]],
    'flarelist': [(w, VIEW[0]) for w in WINDOWS] + [(WINDOWS[0], v) for v in VIEW[1:]], 'gran': TIMES, 'mu': VIEW, 'fraction': VIEW, 'display': [(5, 7), (7, 5), (5, 8), (4, 7)],
    'effective': [30., -30., 150., 30.4, 0., 60.], 'rate': [1., 2., 24., 1 / 24.], 'light': [0., 1., 2., 14.], 'cdf': [[1., 3.], [3., 1.], [1., 3., 9.], [2., 3.]],
}


def argquery(star, k, a):
    if k == 'facmap':
        return [star.add_faculae_to_map(a[0] * u.deg, a[1] * u.deg)]
    if k == 'cover':
        (la, lo), (d, r, ph, inc), g = a
        return list(star.calc_coverage(S.obs(la, lo), g, d * S.R_KM * u.km, r * S.R_KM * u.km, ph * u.deg, inc * u.deg))
    if k == 'transit':
        (la, lo), (d, r, ph, inc) = a
        return list(star.get_transit_mask(la * u.deg, lo * u.deg, d * S.R_KM * u.km, r * S.R_KM * u.km, ph * u.deg, inc * u.deg))
    if k == 'plfrac':
        d, r, ph, inc = a
        return [star.get_pl_frac((ph + 178) * u.deg, d * S.R_KM * u.km, r * S.R_KM * u.km, inc * u.deg)]
    if k == 'avg':
        return [star.average_teff(S.obs(*a))]
    if k == 'flareint':
        return [star.get_flare_int_over_timeperiod(a[0][0] * u.hr, a[0][1] * u.hr, S.obs(*a[1]))]
    if k == 'flarelist':
        t0, t1 = a[0][0] * u.hr, a[0][1] * u.hr
        return [[[f.tpeak, f.energy] for f in star.flares.get_visible_flares_in_timeperiod(t0, t1, S.obs(*a[1]))], star.flares.mask(t0, t1),
                [len(star.flares.get_flares_in_timeperiod(t0, t1))]]
    if k == 'gran':
        return [star.get_granulation_coverage(np.array(a) * u.hr)]
    if k == 'mu':
        mu = star.get_mu(a[0] * u.deg, a[1] * u.deg)
        return [mu, star.ld_mask_for_plotting(mu.copy())]
    if k == 'fraction':
        return [s.surface_fraction(S.obs(*a), star.radius) for s in star.spots.spots]
    if k == 'display':
        return list(star.gridmaker.display_grid(a[0], a[1], star.map))
    if k == 'effective':
        return [list(f.effective_area(a * u.deg).values()) for f in star.faculae.faculae]
    if k == 'rate':
        t = a * u.day
        return [star.spot_generator.get_n_spots_to_birth(t, star.radius), star.fac_generator.get_n_faculae_expected(t, star.radius), star.flare_generator.get_ntotal(t),
                star.spot_generator.get_n_spots_to_birth(t, star.radius * 2), star.fac_generator.get_n_faculae_expected(t, star.radius * 2)]
    if k == 'light':
        w = (np.arange(7.) * 2 + a) * u.hr
        return [[f.areacurve(w) for f in star.flares.flares[:2]], [f.get_timearea(w) for f in star.flares.flares[:2]]]
    if k == 'cdf':
        lg, e = star.flare_generator, np.array(a) * 1e33 * u.erg
        return [lg.cdf(e), lg.pdf(e), lg.frequency_greater_than(e), lg.quantile_func(np.array(a) / 10)]
    raise ValueError(k)


def args_(x, c):
    k = c['query']
    if k == 'display':
        grid = x.choose('grid', [40, 41])
    else:
        grid = x.choose('grid', [(5, 7), 40])
    if grid == (5, 7) and k == 'display':
        return
    first = x.choose('first arguments', ARGS[k])
    second = x.choose('second arguments', ARGS[k])
    how = x.choose('second star', ['the same', 'another', 'another, other spots'])
    key = ('args', str(grid), k, str(second))
    if key not in _memo:
        _memo[key] = canon(argquery(build(grid, 3), k, second))
    star = build(grid, 3)
    if how == 'the same':
        argquery(star, k, first)
    else:
        other = build(grid, 3 if how == 'another' else 50)
        if how != 'another':
            other.age(2 * u.day)
            other.u1 = 0.7
        argquery(other, k, first)
    x.step(k)
    got = canon(argquery(star, k, second))
    x.step(k)
    x.require(got == _memo[key], f'the answer to "{k}" for {second} depends on an earlier question about {first} ({how} star)')
    x.state(k, grid, second, got)
