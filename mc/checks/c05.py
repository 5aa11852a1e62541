"""Every sequence of operations (add one / several / no spots or faculae, birth with every number of newborns,
age by various times) up to the depth, on a star or on bare collections, from empty and non-empty starts.
Oracle: a list per kind of (feature, closed-form life cycle) with the removal rule applied at every ageing."""
import itertools
import math
from mc import ref
from mc.qrng import ScriptedRng

MSH = ref.MSH_KM2

# kind of spot: a0, amax [MSH], growth/day, decay MSH/day, growing
SPOTS = {
    'young': (10., 100., 0.52, 10.89, True),     # grows 5.5 d, gone after 14.7 d
    'old': (30., 100., 0.52, 10.89, False),      # gone after 2.75 d
    'static': (40., 100., 0.0, 0.0, True),       # for ever
    'mature': (40., 100., 0.5, 0.0, False),      # for ever
    'brief': (90., 100., 1.0, 400., True),       # 0.15 d growth, gone after 0.4 d
    'none': (0., 100., 0.5, 1., False),          # has no area: leaves at the first ageing
    'speck': (0.05, 10., 0.5, 0.01, False),      # very small, gone after 5 d
    'giant': (2e5, 1e6, 0.1, 1e3, True),         # a tenth of a hemisphere
}
# kind of facula: r0/rmax, tau [d], growing, maximum radius [km] (2000)
FACS = {
    'young': (math.exp(-2) * 1.0000001, 0.5, True),
    'old': (0.5, 4.0, False),
    'slow': (0.5, 500.0, True),
    'tiny': (0.01, 2.0, True),                   # far below the removal size, but growing
    'gone': (0.13, 3.0, False),                  # below the removal size: leaves at the first ageing
    'grain': (0.8, 3.0, False, 60.),             # small, gone after 5.3 d
    'plage': (0.3, 9.0, True, 2e5),
    'dust': (0.5, 1.0, True, 1e-3),
}

OPS = ['age0', 'age.3', 'age1.3', 'age40', 'spot:young', 'spot:old', 'spot:brief', 'spots:static,none',
       'spots:', 'fac:young', 'fac:old', 'facs:tiny,gone', 'facs:', 'births0', 'births2', 'birthf1', 'birthf2', 'mature']
CYCLE = ['age.3', 'age1.3', 'spot:young', 'spots:static,none', 'fac:old', 'births2', 'birthf1']
FEW = ['age.3', 'age1.3', 'spot:young', 'fac:young', 'births2', 'age40']


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    starts = [((), ()), (('young', 'old'), ('young',)), (('static', 'brief', 'mature'), ('slow', 'old', 'tiny')), (('speck', 'giant'), ('grain', 'plage', 'dust'))]
    crowd = (('none', 'none', 'young', 'brief', 'brief', 'static', 'old', 'none', 'young', 'old', 'old'), ('gone', 'gone', 'slow', 'young', 'young', 'gone', 'tiny', 'old', 'gone'))
    for host, (s, f) in itertools.product(['star', 'collections'], starts):
        for first in OPS:
            if host == 'collections' and first[:5] in ('birth', 'matur'):
                continue
            out.append(dict(host=host, spots=list(s), facs=list(f), first=first, depth=4 if tier == 'thorough' else 3))
    for host, first in itertools.product(['star', 'collections'], FEW):
        if host == 'star' or not first.startswith('birth'):
            out.append(dict(host=host, spots=list(crowd[0]), facs=list(crowd[1]), first=first, few=True, depth=4 if tier == 'thorough' else 3))
    # long periodic histories: every word over the operations, repeated
    for host, n in itertools.product(['star', 'collections'], (1, 2, 3)):
        ops = [o for o in CYCLE if host == 'star' or o[:5] not in ('birth', 'matur')]
        for first in ops:
            out.append(dict(host=host, spots=[], facs=[], first=first, word=n, depth=60 if tier == 'thorough' else 30))
    # hundreds of features at once
    many = (('static',) * 150 + ('young', 'old') * 60 + ('mature',) * 30, ('slow',) * 100 + ('old', 'young', 'tiny') * 30)
    for host, first in itertools.product(['star', 'collections'], ['age.3', 'age1.3', 'age40', 'spot:young', 'fac:young']):
        out.append(dict(host=host, spots=list(many[0]), facs=list(many[1]), first=first, few=True, depth=2))
    # longer histories over fewer operations
    for first in FEW:
        for (s, f) in (starts if tier == 'thorough' else starts[:2]):
            out.append(dict(host='star', spots=list(s), facs=list(f), first=first, few=True, depth=6 if tier == 'thorough' else 5 - bool(s)))
    return out


class World:
    def __init__(self, x, c):
        self.x, self.c = x, c
        self.sp, self.fc = [], []
        self.n = 0
        gm = S.gridmaker((3, 4))
        s0 = [self.spot(k) for k in c['spots']]
        f0 = [self.fac(k) for k in c['facs']]
        sc = S.SpotCollection(*[o for o, _ in s0], gridmaker=gm)
        fc = S.FaculaCollection(*[o for o, _ in f0], gridmaker=gm)
        self.sp, self.fc = s0, f0
        if c['host'] == 'star':
            self.rng = ScriptedRng()
            self.host = S.star(sc, fc, grid=(3, 4), rng=self.rng,
                               spot_generator=S.SpotGenerator(100 * S.MSH, 0.1, 2500 * u.K, 2700 * u.K, coverage=0.1,
                                                              gridmaker=gm, rng=self.rng),
                               fac_generator=S.FaculaGenerator(800 * u.km, 0.2, 100 * u.km, 6 * u.hr, 0.2, 0 * u.K / u.km,
                                                               20 * u.km, -100 * u.K, 0 * u.K / u.km, 100 * u.K, 0.01,
                                                               gridmaker=gm, rng=self.rng))
            self.sc, self.fcoll = self.host.spots, self.host.faculae
        else:
            self.host = None
            self.sc, self.fcoll = sc, fc

    def spot(self, k):
        a0, am, g, w, gr = SPOTS[k]
        self.n += 1
        o = S.spot(lat=3. * self.n, lon=7. * self.n, area_max=am * S.MSH, area=a0 * S.MSH, growing=gr, g=g / u.day,
                   w=w * S.MSH / u.day, gm=S.gridmaker((3, 4)))
        return o, ref.Spot(a0 * MSH, am * MSH, g, w * MSH, gr)

    def fac(self, k):
        fr, tau, gr, rm = (*FACS[k], 2000.)[:4]
        self.n += 1
        o = S.facula(lat=3. * self.n, lon=7. * self.n, r_max=rm * u.km, r=rm * fr * u.km, life=tau * u.day,
                     growing=gr, gm=S.gridmaker((3, 4)))
        return o, ref.Facula(rm * fr, rm, tau, gr)

    def do(self, op):
        x = self.x
        x.step(op)
        if op.startswith('age'):
            dt = float(op[3:])
            t = dt * u.day if dt < 10 else (dt * 24) * u.hr
            if self.host is not None:
                self.host.age(t)
            else:
                self.sc.age(t)
                self.fcoll.age(t)
            for _, m in self.sp + self.fc:
                m.age(dt)
            self.sp = [(o, m) for o, m in self.sp if not m.dead]
            self.fc = [(o, m) for o, m in self.fc if not m.dead]
        elif op.startswith('spot:'):
            o, m = self.spot(op[5:])
            (self.host.add_spot if self.host is not None else self.sc.add_spot)(o)
            self.sp.append((o, m))
        elif op.startswith('spots:'):
            new = [self.spot(k) for k in op[6:].split(',') if k]
            seq = [o for o, _ in new] if self.n % 2 else tuple(o for o, _ in new)
            (self.host.add_spot if self.host is not None else self.sc.add_spot)(seq)
            self.sp += new
        elif op.startswith('fac:'):
            o, m = self.fac(op[4:])
            (self.host.add_fac if self.host is not None else self.fcoll.add_faculae)(o)
            self.fc.append((o, m))
        elif op.startswith('facs:'):
            new = [self.fac(k) for k in op[5:].split(',') if k]
            seq = [o for o, _ in new] if self.n % 2 else tuple(o for o, _ in new)
            (self.host.add_fac if self.host is not None else self.fcoll.add_faculae)(seq)
            self.fc += new
        elif op.startswith('births'):
            n = int(op[6:])
            self.rng.counts = [n]
            before = len(list(self.sc.spots))
            self.host.birth_spots(1 * u.day)
            have = list(self.sc.spots)
            x.require(len(have) == before + n, f'{n} spots were born', before, len(have))
            for o in have[before:]:
                self.sp.append((o, ref.Spot(o.area_current.to_value(u.km**2), o.area_max.to_value(u.km**2),
                                            o.growth_rate.to_value(1 / u.day), o.decay_rate.to_value(u.km**2 / u.day),
                                            o.is_growing)))
        elif op == 'mature':
            before = len(list(self.sc.spots))
            self.host.generate_mature_spots(2e-5)
            have = list(self.sc.spots)
            x.require(len(have) > before, 'mature spots were added')
            for o in have[before:]:
                self.sp.append((o, ref.Spot(o.area_current.to_value(u.km**2), o.area_max.to_value(u.km**2),
                                            o.growth_rate.to_value(1 / u.day), o.decay_rate.to_value(u.km**2 / u.day),
                                            o.is_growing)))
        elif op.startswith('birthf'):
            n = int(op[6:])
            self.rng.counts = [n]
            before = len(list(self.fcoll.faculae))
            self.host.birth_faculae(1 * u.hr)
            have = list(self.fcoll.faculae)
            x.require(len(have) == before + n, f'{n} faculae were born', before, len(have))
            for o in have[before:]:
                self.fc.append((o, ref.Facula(o.radius.to_value(u.km), o.r_max.to_value(u.km), o.lifetime.to_value(u.day),
                                              o.is_growing)))

    def check(self):
        x = self.x
        for kind, have, want in (('spots', list(self.sc.spots), self.sp), ('faculae', list(self.fcoll.faculae), self.fc)):
            x.require(len(have) == len(want), f'number of {kind} carried', len(have), len(want))
            x.require(all(a is b for a, (b, _) in zip(have, want)), f'the {kind} carried are those added, in order')
        for o, m in self.sp:
            x.close(o.area_current.to_value(u.km**2), m.area, 'area of a carried spot', rtol=1e-7, atol=1e-9 * m.amax)
            x.require(bool(o.is_growing) == m.growing or m.near_max(), 'growing flag of a carried spot')
        for o, m in self.fc:
            x.close(o.radius.to_value(u.km), m.radius, 'radius of a carried facula', rtol=1e-7)
            x.require(bool(o.is_growing) == m.growing or m.near_max(), 'growing flag of a carried facula')
        x.state(self.c['host'], [(m.t, m.area, m.growing) for _, m in self.sp], [(m.t, m.radius, m.growing) for _, m in self.fc])


def explore(x, c):
    w = World(x, c)
    w.check()
    if 'word' in c:
        ops = [o for o in CYCLE if c['host'] == 'star' or o[:5] != 'birth']
        word = [c['first']] + [x.choose('op', ops) for _ in range(c['word'] - 1)]
        for i in range(c['depth']):
            w.do(word[i % len(word)])
            w.check()
        return
    for i in range(c['depth']):
        ops = [c['first']] if i == 0 else [o for o in FEW if c['host'] == 'star' or o[:5] != 'birth'] if c.get('few') else [o for o in OPS if c['host'] == 'star' or o[:5] not in ('birth', 'matur')]
        w.do(x.choose('op', ops))
        w.check()
