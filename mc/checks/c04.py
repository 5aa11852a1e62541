"""Every sequence of ageing steps up to the depth, for every combination of initial and maximum radius, lifetime,
growing flag and temperature law of the alphabet, in several unit systems, with the facula aged directly, in a
collection or on a star. Oracle: closed-form radius as a function of the total elapsed time (mc/ref.py Facula)."""
import itertools
import math
from mc import ref

STEPS = ['zero', 'short', 'half', 'to_max', 'past_max', 'life', 'long']
# (floor slope K/km, min radius km, floor base K, wall slope K/km, wall intercept K)
LAWS = [(0., 500., -100., 0., 200.), (-0.05, 300., -80., 0.02, 150.), (0.1, 1500., -200., -0.03, 400.)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    depth = 4 if tier == 'thorough' else 3
    out = []
    for rmax, frac, tau, growing, law in itertools.product(
            [2000., 350.], [math.exp(-2), 0.5, 0.97, 1.0, 0.02], [0.25, 10.0], [True, False], range(len(LAWS))):
        out.append(dict(rmax=rmax, frac=frac, tau=tau, growing=growing, law=law, units=0, via='facula', depth=depth))
    for units in (1, 2, 3):
        for frac, tau, growing, law in itertools.product([math.exp(-2), 0.5], [0.25, 10.0], [True, False], [1, 2]):
            out.append(dict(rmax=2000., frac=frac, tau=tau, growing=growing, law=law, units=units, via='facula', depth=depth - 1))
    for via in ('collection', 'star', 'star2'):
        for frac, tau, growing in itertools.product([math.exp(-2), 0.5, 1.0], [0.25, 10.0], [True, False]):
            out.append(dict(rmax=2000., frac=frac, tau=tau, growing=growing, law=1, units=0, via=via, depth=depth))
    for rmax, tau, frac, growing in itertools.product([1e-2, 3e5], [1e-5, 3000.0], [math.exp(-2), 0.6, 1e-6], [True, False]):
        out.append(dict(rmax=rmax, frac=frac, tau=tau, growing=growing, law=0, units=0, via='facula', depth=3))
    for frac, tau, growing, via in itertools.product([math.exp(-2), 0.01], [0.25, 10.0], [True, False], ['facula', 'star']):
        out.append(dict(rmax=2000., frac=frac, tau=tau, growing=growing, law=1, units=0, via=via, depth=0, split=True))
    return out


def unit_set(k):
    """length, time, slope, temperature"""
    return [(u.km, u.day, u.K / u.km, u.K), (u.m, u.hr, u.K / u.m, u.K), (u.R_sun, u.s, u.K / u.R_sun, u.mK),
            (u.R_earth, u.week, u.mK / u.km, u.kK)][k]


def explore(x, c):
    ul, ut, us, uk = unit_set(c['units'])
    fs, fmin, fb, ws, wi = LAWS[c['law']]
    r0 = c['rmax'] * c['frac']
    m = ref.Facula(r0, c['rmax'], c['tau'], c['growing'])
    f = S.facula(lat=-20., lon=-15., r_max=(c['rmax'] * u.km).to(ul), r=(r0 * u.km).to(ul), depth=100 * u.km,
                 life=(c['tau'] * u.day).to(ut), fslope=(fs * u.K / u.km).to(us), fmin=(fmin * u.km).to(ul),
                 fbase=(fb * u.K).to(uk), wslope=(ws * u.K / u.km).to(us), wint=(wi * u.K).to(uk),
                 growing=c['growing'], gm=S.gridmaker((4, 6)))
    names = ('lat', 'lon', 'r_max', 'depth', 'lifetime', 'floor_teff_slope', 'floor_teff_min_rad',
             'floor_teff_base_dteff', 'wall_teff_slope', 'wall_teff_intercept')
    frozen = [getattr(f, n) for n in names]
    if c['via'] == 'facula':
        ager = f
    elif c['via'] == 'collection':
        ager = S.FaculaCollection(f, gridmaker=S.gridmaker((4, 6)))
    elif c['via'] == 'star':
        ager = S.star([], [f], grid=(4, 6))
    else:
        ager = S.star([S.spot(gm=S.gridmaker((4, 6)))], [S.facula(life=1 * u.min, gm=S.gridmaker((4, 6)))], grid=(4, 6))
        ager.age(1 * u.hr)
        ager.add_fac([f])
    x.step('create')

    def check():
        r = f.radius.to_value(u.km)
        x.close(r, m.radius, f'radius after {m.t} days in total', rtol=1e-7)
        x.require(0 < r <= c['rmax'] * (1 + 1e-9), 'radius within (0, maximum]', r)
        x.close(f.floor_dteff.to_value(u.K), fb + fs * (m.radius - fmin), 'floor temperature offset', rtol=1e-6, atol=1e-4)
        x.close(f.wall_dteff.to_value(u.K), wi + ws * m.radius, 'wall temperature offset', rtol=1e-6, atol=1e-4)
        if not m.near_max():
            x.require(bool(f.is_growing) == m.growing, f'growing flag after {m.t} days', f.is_growing)
        x.state(c, round(m.t, 7), r, bool(f.is_growing))
        return bool(f.is_growing)

    was = check()
    if c.get('split'):      # one time span divided into equal steps
        n = x.choose('steps', [1, 3, 10, 37, 200])
        total = x.choose('time', [0.3, 0.9, 1.3]) * c['tau']
        for _ in range(n):
            if c['via'] != 'facula' and (m.dead or m.near_death(1e-6)):
                break
            ager.age((total / n * u.day).to(ut))
            m.age(total / n)
            x.step()
            check()
        return
    for k in range(c['depth']):
        if k and c['via'] != 'facula' and (m.dead or m.near_death()):
            break           # no longer carried, hence no longer aged (that is C05)
        step = x.choose('step', STEPS)
        left = (m.t_max - m.t) if m.growing else 0.31 * c['tau']
        dt = {'zero': 0.0, 'short': 0.013 * c['tau'], 'half': 0.5 * c['tau'], 'to_max': left, 'past_max': left + 0.07 * c['tau'],
              'life': c['tau'], 'long': 9 * c['tau']}[step]
        ager.age((dt * u.day).to(ut))
        m.age(dt)
        x.step(f'age {dt} day')
        now = check()
        if c['frac'] == 1.0:
            x.require(not now, 'a facula that has reached its maximum is no longer growing')
        x.require(was or not now, 'a facula that stopped growing started again')
        was = now
    x.require(all(a == b for a, b in zip(frozen, [getattr(f, n) for n in names])),
              'ageing changed something other than radius and growing flag')
