"""All sets of up to three flares of an alphabet (positions facing, hidden and near the limb; peaks and widths so that
windows cut every part of a flare) against all windows (seconds to days, before, at, inside and after every flare) and
all observers. Oracle: the must-return / must-not-return conditions of the statement from exact template support, 3-D
visibility, and the exact integral with a rigorous trapezoid error bound; adjacent windows must add up."""
import itertools
import math
import numpy as np
from mc import ref

# peak [h], fwhm [h], lat, lon, energy, teff
FLARES = [
    (10., 1.0, 0., 0., 1e33, 9000.),
    (10., 1.0, 10., 170., 3e33, 8000.),
    (0., 3.0, -40., 330., 1e34, 10000.),
    (30., 0.5, 89., 10., 2e32, 7000.),
    (-50., 2.0, 20., 80., 5e33, 12000.),
    (200., 6.0, -89., 200., 7e33, 9500.),
]
BASIC = len(FLARES)
# a crowd: many flares, some with the same peak, in no order
FLARES += [((37 * i) % 61 * 4.5 - 60., 0.2 + (i * 7 % 11) * 0.35, -80. + 160. * (i * 11 % 17) / 16, 47.3 * i, 1e32 * 1.4 ** (i % 13), 7000. + 131. * i) for i in range(40)]
# and some just before and just behind the limb of several observers
FLARES += [(5. + 3 * i, 1.0, la, lo, 1e33, 9000. + i) for i, (la, lo) in enumerate([(0., 90.3), (0., 89.7), (0.3, 269.7), (-0.3, 270.3), (0.2, 45.), (-0.2, 45.), (80., 90.2), (-80., -90.2), (59.8, -80.), (60.2, -80.)])]
# windows [h]; marks relative to flares are added below
WINDOWS = [(0., 24.), (9., 11.), (10., 10.1), (10.05, 10.0667), (-100., 300.), (29.8, 39.9), (12., 12.5), (-48., -47.),
           (-11., -10.5), (10., 10.), (60.5, 90.), (8.9, 9.05), (29., 31.), (100., 140.3), (19., 20.), (139., 140.), (330., 400.), (-8.0, -3.1), (-900., 1100.), (9.99, 10.01)]
LONGW = [(-20000., 300.), (5., 9000.3), (-9000., 20000.)]
OBS = [(0., 0.), (0., 180.), (90., 0.), (-90., 0.), (30., 100.), (-20., 300.), (15., -90.), None]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    k = 4 if tier == 'thorough' else 3
    for first in range(BASIC):
        for o in range(len(OBS)):
            out.append(dict(mode='sets', first=first, obs=o, k=k))
    for o in range(len(OBS)):
        out.append(dict(mode='all', obs=o))
        out.append(dict(mode='crowd', obs=o))
    out.append(dict(mode='single', obs=0))
    out.append(dict(mode='empty', obs=0))
    for f in range(BASIC):
        out.append(dict(mode='parts', f=f))
    return out


def build(i, units=0):
    p, f, la, lo, e, t = FLARES[i]
    ut, uf, ue = [(u.hr, u.hr, u.erg), (u.day, u.min, u.J)][units]
    return S.StellarFlare(fwhm=(f * u.hr).to(uf), energy=(e * u.erg).to(ue), lat=la * u.deg, lon=lo * u.deg, Teff=t * u.K,
                          tpeak=(p * u.hr).to(ut))


def explore(x, c):
    {'sets': sets, 'all': sets, 'crowd': sets, 'single': sets, 'empty': sets, 'parts': parts}[c['mode']](x, c)


def sets(x, c):
    if c['mode'] == 'sets':
        idx = [c['first']]
        while len(idx) < c['k']:
            nxt = x.choose('next flare', [None] + [k for k in range(BASIC) if k not in idx])
            if nxt is None:
                break
            idx.append(nxt)
    elif c['mode'] == 'all':
        idx = list(range(BASIC))
        idx = idx if x.choose('order', [0, 1]) == 0 else idx[::-1]
    elif c['mode'] == 'crowd':
        n = x.choose('flares', [50, 13, 27])
        idx = [BASIC + i for i in range(n)]
        how = x.choose('order', ['as listed', 'reversed', 'by peak'])
        idx = idx[::-1] if how == 'reversed' else sorted(idx, key=lambda i: FLARES[i][0]) if how == 'by peak' else idx
    elif c['mode'] == 'single':
        idx = [0]
    else:
        idx = []
    fl = [build(i, n % 2) for n, i in enumerate(idx)]
    col = S.FlareCollection(fl[0] if c['mode'] == 'single' else fl)
    star = S.star([], grid=(3, 4))
    star.flares = col
    obs = OBS[c['obs']]
    sub = None if obs is None else S.obs(*obs)
    la, lo = (0., 0.) if obs is None else obs
    place = {id(o): k for k, o in enumerate(fl)}
    for w, (a, b) in enumerate(WINDOWS + (LONGW if c['mode'] in ('all', 'crowd') else [])):
        ta, tb = a * u.hr, (b * u.hr if w % 2 else (b / 24) * u.day)
        got = col.get_visible_flares_in_timeperiod(ta, tb, sub) if sub is not None else col.get_visible_flares_in_timeperiod(ta, tb)
        period = col.get_flares_in_timeperiod(ta, tb)
        mask = np.asarray(col.mask(ta, tb))
        if sub is None:
            ints = col.get_flare_integral_in_timeperiod(ta, tb)
        else:
            ints = star.get_flare_int_over_timeperiod(ta, tb, sub)
        x.step(f'window {a}..{b}')
        must_p, never_p, must_v, never_v = [], [], [], []
        for i, o in zip(idx, fl):
            p, f, fla, flo, _, _ = FLARES[i]
            active = p - f < b - 1e-9 and p + 20 * f > a + 1e-9 and (b > a)
            out = p + 20 * f < a - 1e-9 or p - 10 * f > b + 1e-9
            cosc = float(ref.vec(math.radians(la), math.radians(lo)) @ ref.vec(math.radians(fla), math.radians(flo)))
            if active:
                must_p.append(o)
            if out:
                never_p.append(o)
            if active and cosc > 1e-6:
                must_v.append(o)
            if out or cosc < -1e-6:
                never_v.append(o)
        for have, must, never, what in ((period, must_p, never_p, 'in the period'), (got, must_v, never_v, 'visible in the period')):
            x.require(len({id(o) for o in have}) == len(have), f'a flare is returned twice ({what})')
            pos = [place.get(id(o)) for o in have]
            x.require(None not in pos and pos == sorted(pos), f'flares are returned in order ({what})', pos)
            for o in must:
                x.require(any(o is q for q in have), f'a flare with area in the window is returned ({what})', idx[place[id(o)]], a, b)
            for o in never:
                x.require(not any(o is q for q in have), f'a flare that does not matter is not returned ({what})', idx[place[id(o)]], a, b)
        x.require(mask.shape == (len(fl),) and [o for o, m in zip(fl, mask) if m] == list(period), 'the mask marks the flares of the period')
        x.require(len(ints) == len(got), 'one time-area per visible flare', len(ints), len(got))
        for rec, o in zip(ints, got):
            i = idx[place[id(o)]]
            check_integral(x, i, a, b, rec)
        x.state(idx, obs, a, b, [idx[place[id(o)]] for o in got], [r['timearea'] for r in ints])


def check_integral(x, i, a, b, rec):
    p, f, _, _, e, t = FLARES[i]
    x.close(rec['Teff'].to_value(u.K), t, 'temperature paired with the time-area', rtol=1e-9)
    peak = ref.flare_peak_area(e, t, f / 24)
    want = peak * f * ref.template_integral((a - p) / f, (b - p) / f)
    x.close(rec['timearea'].to_value(u.km**2 * u.hr), want, f'time-area of flare {i} from {a} to {b} h', rtol=1e-6, atol=tolerance(peak, f, b - a))


def tolerance(peak, f, length):
    """Trapezoid error for samples at most 10 minutes apart: total variation of the slope is below 8/fwhm, two small jumps."""
    dt = min(1 / 6, length) if length > 0 else 0.0
    return peak * (dt * dt / f * 1.2 + 0.012 * dt) + 1e-9 * peak


def parts(x, c):
    """Adjacent windows add up and the whole flare gives the energy."""
    i = c['f']
    p, f, la, lo, e, t = FLARES[i]
    col = S.FlareCollection([build(i)])
    sub = S.obs(la, lo)
    cuts = [-5, -1, -0.5, 0.0, 0.3, 2.0, 7.0, 25.0]
    take = [k for k in cuts[1:-1] if x.choose(f'cut at {k}', [False, True])]
    edges = [cuts[0]] + take + [cuts[-1]]
    total, tol = 0.0, 0.0
    peak = ref.flare_peak_area(e, t, f / 24)
    for a, b in zip(edges, edges[1:]):
        a, b = p + a * f, p + b * f
        r = col.get_flare_integral_in_timeperiod(a * u.hr, b * u.hr, sub)
        x.step()
        x.require(len(r) <= 1, 'one flare, one time-area')
        total += sum(v['timearea'].to_value(u.km**2 * u.hr) for v in r)
        tol += tolerance(peak, f, b - a)
    whole = ref.flare_time_area(e, t) * 24
    x.close(total, whole, 'time-areas of adjacent windows add up to the whole flare', rtol=1e-6, atol=tol)
    x.state(i, edges, total)
