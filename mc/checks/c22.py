"""(quiet) all sequences of ageing, birthing, flare generation and queries up to the depth on a star without any variability,
for random generators that answer with extreme quantiles: nothing ever appears. (subset) the same for every subset of the
four sources switched on: exactly the sources that are on produce something. (zero) zero coverage and zero durations.
(hand) features placed by hand or generated on request evolve like the reference life cycle and are drawn."""
import itertools
import math
import numpy as np
from mc import ref
from mc.qrng import QuantileRng, poisson_quantile

OBS = [(0., 0.), (90., 0.), (-35., 200.)]
OPS = ['age1', 'age300', 'births', 'birthf', 'births0', 'flares', 'flares0', 'gran', 'look', 'mask', 'map']
SRC = ('spots', 'faculae', 'flares', 'granulation')


def setup():
    global S, u, MSH
    from mc import sut as S
    from astropy import units as u
    MSH = S.MSH


def configs(tier):
    deep = tier == 'thorough'
    out = []
    for first in OPS:
        out.append(dict(mode='quiet', first=first, depth=4 if deep else 3))
        for n in (1, 2, 3):      # every word of operations, repeated
            out.append(dict(mode='quiet', first=first, word=n, depth=40 if deep else 18))
    for on in range(16):
        for first in ('births', 'birthf', 'flares', 'gran', 'age1'):
            out.append(dict(mode='subset', on=on, first=first, depth=4 if deep else 3))
    out.append(dict(mode='zero'))
    for kind in ('spot', 'facula', 'generated spots', 'generated faculae', 'mature'):
        out.append(dict(mode='hand', kind=kind, depth=4 if deep else 3))
    return out


def explore(x, c):
    {'quiet': quiet, 'subset': subset, 'zero': zero, 'hand': hand}[c['mode']](x, c)


class Rng(QuantileRng):
    """Extreme quantiles; when two is set, Poisson draws with a positive mean give two."""

    def __init__(self, q, two=False):
        super().__init__(lambda kind: q)
        self.two = two

    def poisson_answer(self, q, lam):
        if self.two and lam > 0:
            return 2
        return poisson_quantile(q, lam)


def nothing(x, star, what):
    x.require(len(star.spots.spots) == 0, f'no spots ({what})', len(star.spots.spots))
    x.require(len(star.faculae.faculae) == 0, f'no faculae ({what})', len(star.faculae.faculae))
    x.require(star.flares is None or len(star.flares.flares) == 0, f'no flares ({what})')


def apply(x, star, op):
    x.step(op)
    if op.startswith('age'):
        star.age(float(op[3:]) * u.day)
    elif op.startswith('births'):
        star.birth_spots((0 if op.endswith('0') else 20) * u.day)
    elif op.startswith('birthf'):
        star.birth_faculae((0 if op.endswith('0') else 20) * u.day)
    elif op.startswith('flares'):
        star.get_flares_over_observation((0 if op.endswith('0') else 20) * u.day)
        return list(star.flares.flares)
    elif op == 'gran':
        return np.asarray(star.get_granulation_coverage(np.arange(6.) * 3 * u.hr))
    elif op == 'look':
        return star.calc_coverage(S.obs(20., 30.))
    elif op == 'mask':
        return star.get_transit_mask(0 * u.deg, 0 * u.deg, 5 * S.R_KM * u.km, 0.3 * S.R_KM * u.km, 180 * u.deg, 90 * u.deg)
    elif op == 'map':
        return star.map


def looks_quiet(x, star, o, what):
    g = np.asarray(star.get_granulation_coverage(np.array([0., 1.]) * u.day))
    x.require(g.shape == (2,) and np.all(g == 0), f'no granulation ({what})', g)
    tot, cov, frac = star.calc_coverage(S.obs(*o), float(g[0]))
    for k, v in tot.items():
        x.close(v, 1.0 if abs(S.keyval(k) - 3000.) < 1e-6 else 0.0, f'share of {k} ({what})', rtol=1e-9, atol=1e-12)
    x.require(abs(sum(tot.values()) - 1) < 1e-9, f'the whole disk ({what})')
    x.close(star.average_teff(S.obs(*o)).to_value(u.K), 3000., f'average temperature ({what})', rtol=1e-7)


def quiet(x, c):
    word = [c['first']] + [x.choose('op', OPS) for _ in range(c['word'] - 1)] if 'word' in c else None
    q = x.choose('random answers', [0.999999, 0.5, 1e-6, 'real'] if not word else [0.999999])
    star = S.star([], grid=x.choose('grid', [(5, 6), 30] if not word else [(5, 6)]), rng=np.random.default_rng(5) if q == 'real' else Rng(q))
    for k in range(c['depth']):
        op = word[k % len(word)] if word else c['first'] if k == 0 else x.choose('op', OPS)
        r = apply(x, star, op)
        nothing(x, star, op)
        if op == 'gran':
            x.require(np.all(r == 0), 'no granulation')
        if op.startswith('flares'):
            ints = star.get_flare_int_over_timeperiod(0 * u.hr, 30 * u.day, S.obs(0., 0.))
            x.require(len(ints) == 0, 'no flare energy')
    for o in OBS:
        looks_quiet(x, star, o, 'quiet star')
    x.state(q, c['first'], x.log[-1])


def make(on, grid, two=True, cov=0.1):
    rng = Rng(0.7, two)
    kw = {}
    gm = S.gridmaker(grid)
    if on & 1:
        kw['spot_generator'] = S.SpotGenerator(100 * MSH, 0.1, 2500 * u.K, 2700 * u.K, coverage=cov, gridmaker=gm, rng=rng)
    if on & 2:
        kw['fac_generator'] = S.FaculaGenerator(800 * u.km, 0.2, 100 * u.km, 600 * u.hr, 0.2, 0 * u.K / u.km, 20 * u.km, -100 * u.K,
                                                0 * u.K / u.km, 100 * u.K, cov, gridmaker=gm, rng=rng)
    if on & 4:
        kw['flare_generator'] = S.FlareGenerator(9000 * u.K, 500 * u.K, 3 * u.hr, 0.3, rng=rng)
    if on & 8:
        kw['granulation'] = S.Granulation(0.3, 1e-3, 1 * u.hr, 200 * u.K, seed=2)
    return S.star([], grid=grid, rng=Rng(0.999999), **kw)


def subset(x, c):
    on = c['on']
    grid = x.choose('grid', [(5, 6), 30])
    star = make(on, grid)
    ns = nf = 0
    for k in range(c['depth']):
        op = c['first'] if k == 0 else x.choose('op', ['births', 'birthf', 'flares', 'gran', 'age1', 'births0'])
        r = apply(x, star, op)
        if op == 'births' and on & 1:
            ns += 2
        if op == 'birthf' and on & 2:
            nf += 2
        x.require(len(star.spots.spots) == ns, 'spots appear exactly if they are switched on', len(star.spots.spots), ns)
        x.require(len(star.faculae.faculae) == nf, 'faculae appear exactly if they are switched on', len(star.faculae.faculae), nf)
        if op == 'flares':
            x.require(len(r) == (2 if on & 4 else 0), 'flares appear exactly if they are switched on', len(r))
        if op == 'gran':
            x.require(np.all(r == 0) if not on & 8 else np.all(np.abs(r - 0.3) < 0.25) and np.all(r > 0), 'granulation appears exactly if it is switched on', r)
    if not ns and not nf:
        tot, _, _ = star.calc_coverage(S.obs(10., 50.))
        for k2, v in tot.items():
            x.close(v, 1.0 if abs(S.keyval(k2) - 3000.) < 1e-6 else 0.0, f'share of {k2}', rtol=1e-9, atol=1e-12)
    x.state(on, ns, nf, x.log[-1])


def zero(x, c):
    """Generators that are on, but zero coverage or zero duration."""
    q = x.choose('random answers', [0.999999, 0.5])
    cov, dt = x.choose('case', [(0, 20.), (0.0, 20.), (0.1, 0.), (0, 0.)])
    star = make(15, (5, 6), two=False, cov=cov)
    for g in (star.spot_generator, star.fac_generator, star.flare_generator):
        g.rng = Rng(q)
    t = dt * x.choose('unit', [u.day, u.hr, u.s])
    for op in x.choose('order', list(itertools.permutations(['s', 'f', 'fl'], 3))):
        x.step(op)
        if op == 's':
            star.birth_spots(t)
        elif op == 'f':
            star.birth_faculae(t)
        elif dt == 0:
            star.get_flares_over_observation(t)
            x.require(len(star.flares.flares) == 0, 'no flares in no time')
    x.require(len(star.spots.spots) == 0 and len(star.faculae.faculae) == 0, 'zero coverage or duration gives nothing')
    star.generate_mature_spots(0)
    x.require(len(star.spots.spots) == 0, 'zero coverage gives no mature spots')
    star.age(5 * u.day)
    x.state(q, cov, dt)


def hand(x, c):
    kind = c['kind']
    grid = x.choose('grid', [(7, 9), 60])
    star = S.star([], grid=grid, rng=Rng(0.4))
    gm = star.gridmaker
    sp, fc = [], []
    if kind == 'spot':
        s = S.spot(lat=8., lon=21., area=S.cap_area(40.), area_max=S.cap_area(50.), w=0.2 * S.cap_area(50.) / u.day, g=0.2 / u.day, grid=(3, 4))
        star.add_spot(s)
        sp = [s]
    elif kind == 'facula':
        f = S.facula(lat=8., lon=21., r=math.radians(30) * S.R_KM * u.km, r_max=math.radians(40) * S.R_KM * u.km, life=3 * u.day, grid=(3, 4))
        star.add_fac(f)
        fc = [f]
    elif kind == 'generated spots':
        sp = list(star.spot_generator.generate_spots(2))
        star.add_spot(sp)
    elif kind == 'generated faculae':
        fc = list(star.fac_generator.generate_faculae(2))
        star.add_fac(fc)
    else:
        star.generate_mature_spots(1e-4)
        sp = list(star.spots.spots)
        x.require(sp, 'mature spots appear on request')
    ms = [ref.Spot(s.area_current.to_value(MSH), s.area_max.to_value(MSH), s.growth_rate.to_value(1 / u.day), s.decay_rate.to_value(MSH / u.day), s.is_growing) for s in sp]
    mf = [ref.Facula(f.radius.to_value(u.km), f.r_max.to_value(u.km), f.lifetime.to_value(u.day), f.is_growing) for f in fc]
    for k in range(c['depth']):
        op = x.choose('op', ['age.8', 'age2.5', 'age40', 'births', 'birthf', 'flares', 'look'])
        apply(x, star, op)
        if op.startswith('age'):
            t = float(op[3:])
            for m in ms + mf:
                m.age(t)
            ms, sp = zip(*[(m, s) for m, s in zip(ms, sp) if not m.dead]) if any(not m.dead for m in ms) else ((), ())
            mf, fc = zip(*[(m, s) for m, s in zip(mf, fc) if not m.dead]) if any(not m.dead for m in mf) else ((), ())
        x.require([id(s) for s in star.spots.spots] == [id(s) for s in sp], 'the living spots are there', len(star.spots.spots), len(sp))
        x.require([id(s) for s in star.faculae.faculae] == [id(s) for s in fc], 'the living faculae are there', len(star.faculae.faculae), len(fc))
        for m, s in zip(ms, sp):
            x.close(s.area_current.to_value(MSH), m.area, 'area', rtol=1e-6, atol=1e-9)
            x.require(math.isfinite(s.area_current.to_value(MSH)), 'finite area')
        for m, s in zip(mf, fc):
            x.close(s.radius.to_value(u.km), m.radius, 'radius', rtol=1e-6)
        tot, _, _ = star.calc_coverage(S.obs(8., 21.))
        temps = {round(S.keyval(k2), 2) for k2, v in tot.items() if v > 0}
        if kind == 'spot':
            x.require(not sp or sp[0].area_current < S.cap_area(25.) or 2700. in temps, 'the spot is drawn while it lives', temps)
        if kind == 'facula' and fc and fc[0].radius > math.radians(25) * S.R_KM * u.km:
            x.require(any(t != 3000. for t in temps), 'the facula is drawn while it lives', temps)
        if not sp and not fc:
            x.require(temps == {3000.}, 'nothing else is drawn', temps)
        x.state(kind, [s.area_current for s in sp], [f.radius for f in fc])
