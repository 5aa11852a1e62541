"""Every flare of an alphabet of energies, temperatures, widths and peak times, in several unit systems, sampled at every
time of a template-covering set (edges, peak and their neighbours included); all sets of up to three flares in every
order; all exposure times. Oracle: closed-form template and its exact integral, energy = sigma T^4 x time-area."""
import itertools
import math
import numpy as np
from mc import ref

ENERGY = [1e33, 3e30, 2e36]
WHERE = [(0., 0.), (-75., 200.), (90., 3.), (35., -1000.), (-12., 359.)]
TEFF = [9000., 5000., 25000., 1200.]
FWHM = [3.0 / 24, 0.02, 1e-3, 2.0, 1e-4]       # day
PEAK = [0.0, 1.3, -2.0, 100.0, 20000.3]  # day
XS = sorted(set(np.round(np.concatenate([np.linspace(-1.5, 2, 71), np.linspace(2, 22, 41)]), 6).tolist()
                + [-1.0001, -0.9999, -1.002, -1.005, -1.01, -0.998, -0.99, -1e-6, 1e-6, 19.999, 20.001, 20.003, 20.01, 19.99]))


def setup():
    global S, u, UNITS
    from mc import sut as S
    from astropy import units as u
    UNITS = [(u.erg, u.K, u.day, u.day, u.day), (u.J, u.kK, u.hr, u.min, u.s), (u.erg, u.K, u.s, u.yr, u.hr)]


def configs(tier):
    out = []
    for e, t, f, p in itertools.product(range(len(ENERGY)), range(len(TEFF)), range(len(FWHM)), range(len(PEAK))):
        out.append(dict(mode='one', e=e, t=t, f=f, p=p))
    for k in range(12):
        out.append(dict(mode='many', first=k))
    for n in (5, 17, 60):
        out.append(dict(mode='crowd', n=n))
    for f in range(len(FWHM)):
        out.append(dict(mode='texp', f=f))
    return out


def explore(x, c):
    {'one': one, 'many': many, 'crowd': crowd, 'texp': texp}[c['mode']](x, c)


def one(x, c):
    e, t, f, p = ENERGY[c['e']], TEFF[c['t']], FWHM[c['f']], PEAK[c['p']]
    ue, uk, uf, up, ut = x.choose('units', UNITS)
    fl = S.StellarFlare(fwhm=(f * u.day).to(uf), energy=(e * u.erg).to(ue), lat=WHERE[(c['e'] + c['t'] + c['f']) % 5][0] * u.deg, lon=WHERE[(c['e'] + c['t'] + c['f']) % 5][1] * u.deg, Teff=(t * u.K).to(uk),
                        tpeak=(p * u.day).to(up))
    x.step('flare')
    peak = ref.flare_peak_area(e, t, f)
    got = fl.calc_peak_area()
    x.close(got.to_value(u.km**2), peak, 'peak area', rtol=1e-6)
    xs = np.array(XS)
    if abs(p) > 10 * f:        # rounding of the times blurs the edges
        xs = xs[np.abs(np.abs(xs) - 1) > 1e-3]
        assert abs(p) * 1e-15 / f < 1e-3
        xs = xs[np.abs(xs - 20) > 2e-3]
        xs = xs[np.abs(xs) > 1e-4]
    # off the exact edges -1, 0, 20: which side they fall on is rounding
    xs = xs[(xs != -1) & (xs != 20)]
    layout = x.choose('times', ['all', 'reversed', 'one by one'])
    times = ((p + xs * f) * u.day).to(ut)
    want = peak * ref.template(xs)
    if layout == 'all':
        a = fl.areacurve(times)
    elif layout == 'reversed':
        a = fl.areacurve(times[::-1])[::-1]
    else:
        a = u.Quantity([fl.areacurve(times[i:i + 1])[0] for i in range(0, len(times))])
    x.step('areacurve')
    a = a.to_value(u.km**2)
    blur = 1e-6 + 4e-16 * abs(p) / f * 50
    x.close(a, want, 'area along the template', rtol=1e-6, atol=blur * peak)
    x.require(np.all(a >= 0), 'areas are not negative', a.min())
    x.require(np.all(a[xs < -1] == 0) and np.all(a[xs > 20] == 0), 'no area outside [-1, 20] FWHM')
    x.require(np.all(a <= peak * (1 + 1e-6)), 'the peak is the largest area', a.max(), peak)
    at_peak = fl.areacurve(u.Quantity([(p * u.day).to(up)])).to_value(u.km**2)[0]
    x.close(at_peak, peak, 'area at the peak time', rtol=0.01)
    # energy
    n = 6001
    tt = ((p + np.linspace(-1.2, 20.2, n) * f) * u.day).to(ut)
    ta = fl.get_timearea(tt)
    x.step('get_timearea')
    x.close((ta * t**4).to_value(u.km**2 * u.day) * 1e6 * 86400 * ref.SIGMA_SB * 1e7, e, 'radiated energy', rtol=2e-4)
    # any part of it
    for lo, hi in ((-0.7, -0.2), (-0.5, 3.0), (1.0, 8.0), (4.0, 30.0), (-5.0, 0.0), (21.0, 25.0)):
        tt = ((p + np.linspace(lo, hi, 801) * f) * u.day).to(ut)
        x.close(fl.get_timearea(tt).to_value(u.km**2 * u.day), peak * f * ref.template_integral(lo, hi), f'time-area from {lo} to {hi} FWHM',
                rtol=3e-4, atol=1e-4 * peak * f)
        x.step()
    x.state(c, a)


MENU = [(0.0, 0.1, 1.0), (0.0, 0.1, 2.5), (0.35, 0.02, 7.0), (-1.0, 0.5, 0.3)]


def many(x, c):
    i = MENU[c['first'] % 4]
    k = c['first'] // 4 + 1
    flares = [i]
    while len(flares) < k:
        flares.append(x.choose('next', MENU))
    form = x.choose('form', ['list', 'array'])
    t = np.linspace(-2, 4, 217) + 1e-4
    arg = [np.array(v) if form == 'array' else list(v) for v in zip(*flares)]
    got = S.xoflares.get_light_curvenp(t, *arg)
    x.step(str(flares))
    want = sum(a * ref.template((t - p) / f) for p, f, a in flares)
    x.close(got, want, 'light curves add up', rtol=1e-7, atol=1e-9)
    if k == 1:
        x.close(S.xoflares.get_light_curvenp(t, *i), want, 'one flare given as numbers', rtol=1e-7, atol=1e-9)
        if hasattr(S.xoflares, '_flareintegralnp'):
            x.close(S.xoflares._flareintegralnp(i[1], i[2]), ref.TEMPLATE_TOTAL * i[1] * i[2], 'integral of the template', rtol=1e-9)
    x.state(flares, got)


def crowd(x, c):
    """Many flares of very different widths and sizes, in any order, overlapping or far apart."""
    n = c['n']
    apart = x.choose('apart', [0.01, 0.3, 5.0])
    order = x.choose('order', ['rising', 'falling', 'mixed'])
    i = np.arange(n)
    k = i if order == 'rising' else i[::-1] if order == 'falling' else (i * 7) % n if n % 7 else i
    tp = -1 + apart * k
    fw = np.array([1e-3, 0.02, 0.4, 0.1])[k % 4] * (1 + 0.1 * (k % 3))
    am = 10.0 ** (k % 5 - 2)
    t = np.sort(np.concatenate([np.linspace(-2, apart * n + 1, 300) + 1e-5] + [tp + v * fw for v in (-0.55, 0.013, 0.7, 6.1)]))
    if x.choose('times', ['rising', 'falling']) == 'falling':
        t = t[::-1]
    want = sum(a * ref.template((t - p) / f) for p, f, a in zip(tp, fw, am))
    got = S.xoflares.get_light_curvenp(t, list(tp), list(fw), list(am))
    x.step('light curve')
    x.close(got, want, 'light curves add up', rtol=1e-6, atol=1e-9)
    te = 0.005
    got = S.xoflares.get_light_curvenp(t, tp, fw, am, texp=te, oversample=101)
    x.step('exposure')
    want = sum(np.array([a * ref.template_integral((v - p - te / 2) / f, (v - p + te / 2) / f) * f / te for v in t]) for p, f, a in zip(tp, fw, am))
    x.close(got, want, 'exposure-averaged light curves add up', rtol=0.05, atol=0.02 * am.max())
    x.state('crowd', c, apart, order, got[::17])


def texp(x, c):
    f = FWHM[c['f']]
    rel = x.choose('exposure / fwhm', [0.05, 0.5, 3.0])
    over = x.choose('oversample', [201, 200, 41])
    t = np.linspace(-3, 24, 180) * f + 0.5
    got = S.xoflares.get_light_curvenp(t, [0.5], [f], [2.0], texp=rel * f, oversample=over)
    x.step()
    want = np.array([2.0 * ref.template_integral((v - 0.5) / f - rel / 2, (v - 0.5) / f + rel / 2) / rel for v in t])
    x.close(got, want, 'exposure-averaged light curve', rtol=0.02, atol=0.05 * rel / math.sqrt(1) * 41 / over + 0.01)
    d = S.xoflares.get_light_curvenp(t, [0.5], [f], [2.0], texp=rel * f)
    x.step()
    x.close(d, want, 'exposure-averaged light curve, default oversampling', rtol=0.05, atol=0.25 * min(rel, 1.0) + 0.01)
    x.state(c, rel, over, got)
