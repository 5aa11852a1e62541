"""Every rectangular grid size and every spiral grid size of a range, against every observer of the alphabet. Oracle:
latitude/longitude ranges, 3-D dot products, sum of areas, area-weighted moments of the sphere (which must converge),
and the factory and equality relations over all pairs of sizes."""
import itertools
import math
import numpy as np
from mc import ref

OBS = [(0., 0.), (90., 0.), (-90., 40.), (33., 77.), (-12.5, 359.), (60., -100.), (-45., 400.)]


def setup():
    global S, u
    from mc import sut as S
    from astropy import units as u


def configs(tier):
    out = []
    big = tier == 'thorough'
    for nlat in list(range(3, 40 if big else 24)) + [50, 91]:
        out.append(dict(mode='rect', nlat=nlat, nlons=list(range(1, 40 if big else 22)) + [60]))
    step = 20
    for lo in range(1, 2001 if big else 401, step):
        out.append(dict(mode='spiral', ns=list(range(lo, lo + step))))
    out.append(dict(mode='spiral', ns=[1000, 2500, 10000, 20001, 65536, 100000]))
    out.append(dict(mode='rect', nlat=181, nlons=[2, 180, 361]))
    out.append(dict(mode='rect', nlat=500, nlons=[3, 1000]))
    out.append(dict(mode='equal'))
    out.append(dict(mode='factory'))
    out.append(dict(mode='dtype'))
    return out


def explore(x, c):
    if c['mode'] == 'rect':
        one(x, c, (c['nlat'], x.choose('nlon', c['nlons'])))
    elif c['mode'] == 'spiral':
        one(x, c, x.choose('n', c['ns']))
    elif c['mode'] == 'equal':
        equal(x)
    elif c['mode'] == 'dtype':
        dtype(x)
    else:
        factory(x)


def one(x, c, g):
    how = x.choose('made by', ['factory', 'class'])
    if how == 'factory':
        gm = S.CoordinateGrid.new(g)
    else:
        gm = S.RectangularGrid(nlat=g[0], nlon=g[1]) if isinstance(g, tuple) else S.SpiralGrid(n_points=g)
    x.step(f'grid {g}')
    x.require(isinstance(gm, S.RectangularGrid if isinstance(g, tuple) else S.SpiralGrid), 'kind of grid', type(gm))
    latq, lonq = gm.grid()
    lat, lon = latq.to_value(u.rad), lonq.to_value(u.rad)
    z, area = gm.zeros(), np.asarray(gm.area, float)
    shape = (g[1], g[0]) if isinstance(g, tuple) else (g,)
    x.require(lat.shape == shape and lon.shape == shape and z.shape == shape and area.shape == shape, 'shape of the grid',
              lat.shape, lon.shape, z.shape, area.shape)
    x.require(not np.any(z), 'zeros are zero')
    x.require(np.all(np.abs(lat) <= math.pi / 2 + 1e-9), 'latitudes in [-90, 90]', lat.min(), lat.max())
    x.require(np.all((lon >= -1e-12) & (lon < 2 * math.pi + 1e-12)), 'longitudes in [0, 360)', lon.min(), lon.max())
    x.require(np.all(np.isfinite(area)) and np.all(area >= 0), 'areas are not negative', area.min())
    x.close(area.sum(), 1.0, 'areas add up to one', rtol=1e-5)
    v = ref.vec(lat, lon).reshape(-1, 3)
    a = area.ravel() / area.sum()
    away = np.abs(lat.ravel()) < math.pi / 2 - 1e-6
    if len(v) <= 700:
        w = v[away]
        dots = w @ w.T
        np.fill_diagonal(dots, -1)
        x.require(dots.max() < 1 - 1e-9 if len(w) > 1 else True, 'points away from the poles are distinct')
    n = len(v)
    if isinstance(g, tuple):
        x.close(lat[0], np.linspace(-math.pi / 2, math.pi / 2, g[0]), 'latitudes', rtol=0, atol=1e-9)
        x.close(lon[:, 0], np.linspace(0, 2 * math.pi, g[1], endpoint=False), 'longitudes', rtol=0, atol=1e-9)
        x.require(np.all(lat == lat[:1]) and np.all(lon == lon[:, :1]), 'a rectangular grid is a product')
        ratio = np.cos(lat)
        x.close(area * ratio[:, g[0] // 2][:, None], ratio * area[:, g[0] // 2][:, None], 'areas follow the cosine of latitude', rtol=1e-5, atol=1e-9)
        x.require(np.allclose(area, area[:1]), 'area does not depend on longitude')
        for name, i, want in (('dlat', 0, math.pi / (g[0] - 1)), ('dlon', 1, 2 * math.pi / g[1])):
            if hasattr(gm, name):
                x.close(u.Quantity(getattr(gm, name)).to_value(u.rad), want, f'spacing {name}', rtol=1e-6)
        h = math.pi / (g[0] - 1)
        err = h * h
    else:
        x.close(a, np.full(n, 1 / n), 'spiral points have equal areas', rtol=1e-5)
        err = 4.0 / n
    # moments over latitude: 1/3 for z^2, 1/5 for z^4, 0 for z
    zc = v[:, 2]
    x.close((a * zc).sum(), 0.0, 'mean of sin(lat)', rtol=0, atol=1e-6 + err * 0.01)
    x.close((a * zc**2).sum(), 1 / 3, 'mean of sin^2(lat)', rtol=0, atol=0.6 * err + 1e-5)
    x.close((a * zc**4).sum(), 1 / 5, 'mean of sin^4(lat)', rtol=0, atol=1.2 * err + 1e-5)
    if isinstance(g, tuple) and g[1] >= 3:
        x.close((a[:, None] * v).sum(axis=0), np.zeros(3), 'centre of area', rtol=0, atol=1e-6)
        x.close((a * v[:, 0]**2).sum(), (a * v[:, 1]**2).sum(), 'second moments are isotropic in longitude', rtol=1e-5)
    elif not isinstance(g, tuple) and n >= 30:
        x.close((a[:, None] * v).sum(axis=0), np.zeros(3), 'centre of area', rtol=0, atol=3.0 / n)
        x.close((a * v[:, 0]**2).sum(), 1 / 3, 'mean of x^2', rtol=0, atol=3.0 / n)
    for la, lo in OBS + [(math.degrees(lat.ravel()[n // 2]), math.degrees(lon.ravel()[n // 2]))]:
        mu = gm.cos_angle_from_disk_center(la * u.deg, (lo * u.deg).to(u.rad))
        x.step()
        _, _, want = ref.project(math.radians(la), math.radians(lo), lat, lon)
        x.require(np.all(np.abs(mu) <= 1), 'cosines in [-1,1]', np.abs(mu).max())
        x.close(mu, want, 'cosine of the angle from disk centre', rtol=0, atol=1e-9)
        x.require(isinstance(mu, np.ndarray) and not hasattr(mu, 'unit'), 'cosines are plain numbers')
    lat2, lon2 = gm.grid()
    x.require(np.array_equal(lat2.to_value(u.rad), lat) and np.array_equal(lon2.to_value(u.rad), lon), 'the grid is the same every time')
    x.state(g, area.ravel()[: 40].tolist())


def equal(x):
    sizes = [(5, 8), (8, 5), (5, 7), (6, 8), (8, 8), 40, 41, 13]
    a = x.choose('a', sizes)
    b = x.choose('b', sizes)
    ga, gb = S.CoordinateGrid.new(a), S.CoordinateGrid.new(b)
    x.step(f'{a} {b}')
    if isinstance(a, tuple) == isinstance(b, tuple):
        x.require(bool(ga == gb) == (a == b), 'grids of one kind are equal exactly when their sizes are', a, b)
        x.require(bool(ga != gb) == (a != b), 'unequal', a, b)
    x.state(a, b)


def factory(x):
    bad = x.choose('params', ['6,8', None, 5.0, [5, 8], {'a': 1}, np.array([3, 4]), (5.0, 8), (5, '8')])
    x.step(str(bad))
    x.refuses(lambda: S.CoordinateGrid.new(bad), TypeError, f'grid parameters {bad!r}')
    x.state(str(bad))


def dtype(x):
    g = x.choose('grid', [(4, 7), 20])
    d = x.choose('dtype', ['float32', 'float64', 'int16', 'bool'])
    z = S.CoordinateGrid.new(g).zeros(dtype=d)
    x.step()
    x.require(z.dtype == np.dtype(d) and not z.any(), 'zeros of the requested type', z.dtype)
    z[...] = 1
    z2 = S.CoordinateGrid.new(g).zeros(dtype=d)
    x.require(not z2.any(), 'zeros are fresh every time')
    x.state(g, d)
