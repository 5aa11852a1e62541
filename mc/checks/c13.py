"""Every spiral size x target rectangle of the alphabet with every basis vector of the data (all one-hot fields, hence
by linearity all data), constants, coordinate fields and their combinations, in several units; every rectangular grid
with its own data; every wrong shape."""
import itertools
import math
import numpy as np
from mc import ref

SPIRAL = [1, 2, 3, 7, 20, 45, 100, 150]
RECT = [(3, 4), (5, 8), (9, 6), (13, 24), (1, 1), (2, 3), (31, 60)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    sp = SPIRAL + ([4, 5, 11, 31, 64, 90, 200, 260] if tier == 'thorough' else [])
    for n, r in itertools.product(sp, RECT):
        out.append(dict(mode='spiral', n=n, rect=r))
    out.append(dict(mode='coords', n=300, rect=(19, 36)))
    out.append(dict(mode='coords', n=800, rect=(13, 25)))
    out.append(dict(mode='coords', n=1500, rect=(10, 12)))
    out.append(dict(mode='coords', n=6000, rect=(25, 40)))
    for r in [(3, 4), (5, 8), (9, 6), (4, 4), (7, 1), (61, 90), (1, 5), (2, 2)]:
        out.append(dict(mode='rect', rect=r))
    return out


def axes(x, lats, lons, nlat, nlon):
    lats, lons = np.asarray(lats, float), np.asarray(lons, float)
    x.require(lats.shape == (nlat,) and lons.shape == (nlon,), 'shape of the axes', lats.shape, lons.shape)
    if nlat > 1:
        x.close(lats, np.linspace(-math.pi / 2, math.pi / 2, nlat), 'latitude axis in radians', rtol=0, atol=1e-9)
    x.close(lons, np.linspace(0, 2 * math.pi, nlon, endpoint=False), 'longitude axis in radians', rtol=0, atol=1e-9)
    return lats, lons


def display(x, gm, nlat, nlon, data):
    before = np.array(getattr(data, 'value', data), copy=True)
    lats, lons, d = gm.display_grid(nlat, nlon, data)
    x.step()
    x.require(np.array_equal(before, getattr(data, 'value', data)), 'the data passed in is left alone')
    lats, lons = axes(x, lats, lons, nlat, nlon)
    x.require(d.shape == (nlon, nlat), 'shape of the resampled data', d.shape)
    want = data.unit if hasattr(data, 'unit') else u.dimensionless_unscaled
    x.require(d.unit == want, 'unit of the resampled data', d.unit)
    v = np.asarray(d.value, float)
    x.require(np.all(np.isfinite(v)), 'resampled data is finite')
    lo, hi = float(np.min(before)), float(np.max(before))
    tol = 1e-9 * max(1.0, abs(lo), abs(hi))
    x.require(v.min() >= lo - tol and v.max() <= hi + tol, 'resampled data within the range of the data', v.min(), v.max(), lo, hi)
    return lats, lons, v


def explore(x, c):
    {'spiral': spiral, 'rect': rect, 'coords': coords}[c['mode']](x, c)


def spiral(x, c):
    n, (nlat, nlon) = c['n'], c['rect']
    gm = S.SpiralGrid(n)
    kind = x.choose('case', ['constant', 'basis', 'wrong'])
    if kind == 'constant':
        k = x.choose('value', [0.0, 3000.0, -2.5])
        unit = x.choose('unit', [None, u.K, u.km])
        data = np.full(n, k)
        data = data if unit is None else data * unit
        _, _, v = display(x, gm, nlat, nlon, data)
        x.close(v, np.full((nlon, nlat), k), 'constant data', rtol=1e-12, atol=1e-12)
        x.state(n, nlat, nlon, k)
    elif kind == 'basis':
        lat, lon = S.points(gm)
        rng = np.arange(n)
        total = np.zeros((nlon, nlat))
        combo = np.zeros((nlon, nlat))
        weights = (rng * 37 % 11) - 4.0
        L = math.sqrt(4 * math.pi / n)
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1.0
            la, lo, v = display(x, gm, nlat, nlon, e)
            total += v
            combo += weights[i] * v
            # the feature is where it should be: clearly nearer cells weigh more
            d = ref.sep(lat[i], lon[i], *np.meshgrid(la, lo))
            if n >= 20:
                near, far = d < 0.25 * L, d > 2.5 * L
                x.require(np.all(v[near] > 0.2), 'a feature shows at its own position', i, v[near].min() if near.any() else None)
                x.require(np.all(v[far] < 0.05), 'a feature does not show elsewhere', i, v[far].max() if far.any() else None)
            x.state(n, nlat, nlon, i, v)
        x.close(total, np.ones_like(total), 'weights add up to one', rtol=1e-9)
        _, _, v = display(x, gm, nlat, nlon, weights * u.K)
        x.close(v, combo, 'resampling is linear', rtol=1e-8, atol=1e-9)
        for dtype in (int, 'int8', 'float32', 'float16'):
            _, _, w = display(x, gm, nlat, nlon, weights.astype(dtype))
            x.close(w, combo, f'resampling is linear ({dtype} data)', rtol=1e-5, atol=1e-5)
        flags = weights > 0
        _, _, w = display(x, gm, nlat, nlon, flags)
        _, _, v = display(x, gm, nlat, nlon, flags.astype(float))
        x.close(w, v, 'resampling of flags', rtol=1e-5, atol=1e-6)
        for scale in (1e-12, 1e15):
            _, _, v = display(x, gm, nlat, nlon, weights * scale * u.km)
            x.close(v, combo * scale, 'resampling is linear', rtol=1e-8, atol=1e-9 * scale)
    else:
        for bad in (np.zeros(n + 1), np.zeros((n, 1)), np.zeros((nlon, nlat)), np.zeros(max(0, n - 1))):
            if bad.shape == (n,):
                continue
            x.step()
            x.refuses(lambda: gm.display_grid(nlat, nlon, bad), (ValueError, TypeError), f'data of shape {bad.shape} for {n} points')
            x.refuses(lambda: gm.display_grid(nlat, nlon, bad * u.K), (ValueError, TypeError), f'data of shape {bad.shape} for {n} points')
        x.state(n, 'wrong')


def coords(x, c):
    n, (nlat, nlon) = c['n'], c['rect']
    gm = S.SpiralGrid(n)
    k = x.choose('component', [0, 1, 2])
    lat, lon = S.points(gm)
    v3 = ref.vec(lat, lon)
    la, lo, v = display(x, gm, nlat, nlon, v3[:, k])
    want = ref.vec(*np.meshgrid(la, lo))[..., k]
    x.close(v, want, f'coordinate field {"xyz"[k]} is reproduced', rtol=0, atol=8.0 / math.sqrt(n) * 0.5)
    x.state(n, k, v)


def rect(x, c):
    nlat, nlon = c['rect']
    gm = S.RectangularGrid(nlat, nlon)
    kind = x.choose('case', ['data', 'wrong'])
    if kind == 'data':
        unit = x.choose('unit', [None, u.K, u.km])
        data = np.arange(nlat * nlon, dtype=float).reshape(nlon, nlat) * 1.5 - 3
        q = data if unit is None else data * unit
        _, _, v = display(x, gm, nlat, nlon, q)
        x.require(np.array_equal(v, data), 'a rectangular grid returns its data')
        x.state(nlat, nlon, str(unit))
    else:
        for shape in [(nlon + 1, nlat), (nlon, nlat + 1), (nlat * nlon,), (nlon, nlat, 1)] + ([(nlat, nlon)] if nlat != nlon else []):
            x.step()
            x.refuses(lambda: gm.display_grid(nlat, nlon, np.zeros(shape)), (ValueError, TypeError), f'data of shape {shape}')
            if len(shape) == 2:         # also when the caller asks for the shape of the data
                x.refuses(lambda: gm.display_grid(shape[1], shape[0], np.zeros(shape)), (ValueError, TypeError), f'data of shape {shape}, asked for as such')
        x.state(nlat, nlon, 'wrong')
