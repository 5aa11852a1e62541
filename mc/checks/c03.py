"""Every sequence of ageing steps up to the depth, for every combination of initial area, maximum area, growth
rate, decay rate and growing flag of the alphabet, in several unit systems, with the spot aged directly, in a
collection or on a star. Oracle: closed-form area as a function of the total elapsed time (mc/ref.py Spot)."""
import itertools
import math
from mc import ref

MSH = ref.MSH_KM2


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


STEPS = ['zero', 'short', 'day', 'to_event', 'past_event', 'to_end', 'long', 'instant']


def configs(tier):
    out = []
    depth = 4 if tier == 'thorough' else 3
    amax = [100.0, 2500.0] if tier == 'thorough' else [100.0]
    for am, frac, g, w, growing in itertools.product(
            amax, [0.1, 0.9, 1.0, 0.003], [0.0, 0.52, 1.83, 0.01], [0.0, 10.89, 5000.0], [True, False]):
        out.append(dict(am=am, frac=frac, g=g, w=w, growing=growing, units=0, via='spot', depth=depth))
    # other unit systems and other routes, at a smaller depth
    for units in (1, 2, 3):
        for frac, g, w, growing in itertools.product([0.1, 1.0], [0.0, 0.52, 1.83], [0.0, 10.89], [True, False]):
            out.append(dict(am=100.0, frac=frac, g=g, w=w, growing=growing, units=units, via='spot', depth=depth - 1))
    for via in ('collection', 'star', 'star2'):
        for frac, g, w, growing in itertools.product([0.1, 1.0], [0.0, 0.52], [0.0, 10.89], [True, False]):
            out.append(dict(am=100.0, frac=frac, g=g, w=w, growing=growing, units=0, via=via, depth=depth))
    # extreme rates, sizes and steps
    for am, frac, g, w, growing in itertools.product([1e-3, 1e6], [0.3, 1e-4], [1e-4, 30.0], [1e-3, 1e4], [True, False]):
        out.append(dict(am=am, frac=frac, g=g, w=w * am / 100, growing=growing, units=0, via='spot', depth=3))
    # one time span divided into many equal steps, for every number of steps
    for frac, g, w, growing, via in itertools.product([0.1, 0.003], [0.52, 0.01, 1.83], [10.89, 0.3], [True, False], ['spot', 'star']):
        out.append(dict(am=100.0, frac=frac, g=g, w=w, growing=growing, units=0, via=via, depth=0, split=True))
    # a spot without area
    out.append(dict(am=100.0, frac=0.0, g=0.5, w=1.0, growing=False, units=0, via='spot', depth=2))
    out.sort(key=lambda c: -c['depth'])
    return out


def unit_set(k):
    """area, time, 1/time, area/time"""
    return [(S.MSH, u.day, 1 / u.day, S.MSH / u.day),
            (u.km**2, u.hr, 1 / u.hr, u.km**2 / u.s),
            (u.R_sun**2, u.yr, 1 / u.week, u.m**2 / u.min),
            (u.m**2, u.s, u.Unit('% / day'), S.MSH / u.yr)][k]


def explore(x, c):
    am, a0 = c['am'] * MSH, c['frac'] * c['am'] * MSH
    ua, ut, ug, uw = unit_set(c['units'])
    model = ref.Spot(a0, am, c['g'], c['w'] * MSH, c['growing'])
    spot = S.spot(lat=20., lon=350., area_max=(am * u.km**2).to(ua), area=(a0 * u.km**2).to(ua), ratio=4.,
                  growing=c['growing'], g=(c['g'] / u.day).to(ug), w=(c['w'] * S.MSH / u.day).to(uw),
                  gm=S.gridmaker((4, 6)))
    frozen = (spot.coords['lat'], spot.coords['lon'], spot.area_max, spot.teff_umbra, spot.teff_penumbra,
              spot.total_area_over_umbra_area, spot.growth_rate, spot.decay_rate)
    if c['via'] == 'spot':
        ager = spot
    elif c['via'] == 'collection':
        ager = S.SpotCollection(spot, gridmaker=S.gridmaker((4, 6)))
    elif c['via'] == 'star':
        ager = S.star([spot], grid=(4, 6))
    else:   # among others, added after some time has passed
        other = S.spot(area_max=50 * S.MSH, area=50 * S.MSH, growing=False, w=100 * S.MSH / u.day, gm=S.gridmaker((4, 6)))
        ager = S.star([other], [S.facula(gm=S.gridmaker((4, 6)))], grid=(4, 6))
        ager.age(1 * u.hr)
        ager.add_spot([spot])
    x.step('create')
    was_growing = bool(spot.is_growing)
    x.require(was_growing == c['growing'], 'the growing flag of a new spot')
    if c.get('split'):
        return split(x, c, spot, ager, model, ut)
    for _ in range(c['depth']):
        step = x.choose('step', STEPS)
        if step == 'zero':
            dt = 0.0
        elif step == 'short':
            dt = 0.013
        elif step == 'instant':
            dt = 1e-5
        elif step == 'day':
            dt = 1.0
        elif step == 'long':
            dt = 400.0
        else:
            nxt = model.t_zero if (step == 'to_end' or not model.growing) else model.t_max
            left = nxt - model.t
            if not math.isfinite(left) or left <= 0:
                dt = 0.3            # nothing to hit: an ordinary step
            else:
                dt = left * (1.02 if step == 'past_event' else 1.0)
        prev = model.area
        ager.age((dt * u.day).to(ut))
        model.age(dt)
        x.step(f'age {dt} day')
        area = spot.area_current.to_value(u.km**2)
        growing = bool(spot.is_growing)
        tol = 1e-8 * am + 4 * model.w * model.blur
        x.close(area, model.area, f'area after {model.t} days in total', rtol=1e-7, atol=tol)
        x.require(0 <= area <= am * (1 + 1e-9), 'area within [0, maximum]', area, am)
        if model.t > model.t_zero * (1 + 1e-9) + 1e-9 + 4 * model.blur:
            x.require(area == 0, 'a spot past its end has exactly no area', area)
        if not model.near_max():
            x.require(growing == model.growing, f'growing flag after {model.t} days', growing)
        if c['frac'] == 1.0 and c['g'] > 0:
            x.require(not growing, 'a spot that has reached its maximum is no longer growing')
        x.require(was_growing or not growing, 'a spot that stopped growing started again')
        if growing:
            x.require(area >= prev * (1 - 1e-9), 'a growing spot shrank', prev, area)
        was_growing = growing
        x.state(c, round(model.t, 6), area, growing)
    now = (spot.coords['lat'], spot.coords['lon'], spot.area_max, spot.teff_umbra, spot.teff_penumbra,
           spot.total_area_over_umbra_area, spot.growth_rate, spot.decay_rate)
    x.require(all(a == b for a, b in zip(frozen, now)), 'ageing changed something other than area and growing flag')
    x.close(spot.radius.to_value(u.km), math.sqrt(max(model.area, 0) / math.pi), 'radius of the spot',
            rtol=1e-6, atol=1e-3 * math.sqrt(am))


def split(x, c, spot, ager, model, ut):
    """The area depends on the total time only: n equal steps, a long step in between."""
    end = model.t_zero
    n = x.choose('steps', [1, 3, 10, 37, 200])
    total = x.choose('part of its life', [0.2, 0.6, 0.97]) * end
    before = x.choose('first', [0.0, 0.01 * end])
    if before:
        ager.age((before * u.day).to(ut))
        model.age(before)
    for k in range(n):
        ager.age(((total - before) / n * u.day).to(ut))
        model.age((total - before) / n)
        if k % 5 == 0 or k == n - 1:
            x.step()
            x.close(spot.area_current.to_value(u.km**2), model.area, f'area after {k + 1} of {n} equal steps, {model.t} days in total', rtol=1e-6, atol=1e-7 * model.amax + 4 * model.w * model.blur)
            if not model.near_max():
                x.require(bool(spot.is_growing) == model.growing, 'growing flag', spot.is_growing)
    x.state(c, n, total, before, spot.area_current)
