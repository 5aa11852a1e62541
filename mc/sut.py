"""The code under test, and short constructors for it."""
import numpy as np
from astropy import units as u

from vspec_vsm.config import MSH
from vspec_vsm import config, helpers, xoflares, granules
from vspec_vsm.coordinate_grid import CoordinateGrid, RectangularGrid, SpiralGrid
from vspec_vsm.spots import StarSpot, SpotCollection, SpotGenerator
from vspec_vsm.faculae import Facula, FaculaCollection, FaculaGenerator
from vspec_vsm.flares import StellarFlare, FlareCollection, FlareGenerator
from vspec_vsm.granules import Granulation
from vspec_vsm.star import Star

R_KM = 139140.0          # 0.2 solar radii


def grid_of(g):
    """Grid parameters from plain data (lists come from JSON)."""
    return tuple(g) if isinstance(g, (list, tuple)) else g


_shared = {}


def gridmaker(g):
    """A grid object, shared between executions: grids carry no state but their size."""
    g = grid_of(g)
    if g not in _shared:
        _shared[g] = CoordinateGrid.new(g)
    return _shared[g]


def points(gm):
    lat, lon = gm.grid()
    return lat.to_value(u.rad), lon.to_value(u.rad)


def spot(lat=0., lon=0., area_max=100 * MSH, area=10 * MSH, tu=2400, tp=2700, ratio=5., growing=True,
         g=0.52 / u.day, w=10.89 * MSH / u.day, grid=(6, 8), gm=None):
    return StarSpot(lat * u.deg, lon * u.deg, area_max, area, tu * u.K, tp * u.K, area_over_umbra_area=ratio,
                    is_growing=growing, growth_rate=g, decay_rate=w, grid_params=grid_of(grid), gridmaker=gm)


def cap_area(deg, r_km=R_KM):
    """Area of a cap of angular radius deg."""
    return 2 * np.pi * (r_km * u.km)**2 * (1 - np.cos(np.deg2rad(deg)))


def facula(lat=0., lon=0., r_max=2000 * u.km, r=1000 * u.km, depth=300 * u.km, life=6 * u.hr, fslope=0 * u.K / u.km,
           fmin=500 * u.km, fbase=-100 * u.K, wslope=0 * u.K / u.km, wint=200 * u.K, growing=True, grid=(6, 8), gm=None):
    return Facula(lat * u.deg, lon * u.deg, r_max, r, depth, life, fslope, fmin, fbase, wslope, wint,
                  growing=growing, grid_params=grid_of(grid), gridmaker=gm)


def star(spots=(), faculae=(), grid=(6, 8), teff=3000, r_km=R_KM, period=4.0, **kw):
    g = grid_of(grid)
    sc = spots if isinstance(spots, SpotCollection) else SpotCollection(*spots, gridmaker=gridmaker(g))
    fc = faculae if isinstance(faculae, FaculaCollection) else FaculaCollection(*faculae, gridmaker=gridmaker(g))
    kw.setdefault('rng', np.random.default_rng(12345))
    return Star(teff * u.K, r_km * u.km, period * u.day, sc, fc, grid_params=g, **kw)


def obs(lat, lon):
    return {'lat': lat * u.deg, 'lon': lon * u.deg}


def key(teff):
    """The way calc_coverage prints a temperature."""
    return f'{teff * u.K:.2f}'


def keyval(k):
    """Temperature in K from a reported key (string or Quantity)."""
    return u.Quantity(k).to_value(u.K)
