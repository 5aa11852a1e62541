"""
Reference models: plain floats and numpy, written from the documentation and not
from the code.  Lengths in km, areas in km2, times in days, angles in radians,
temperatures in K unless a name says otherwise.
"""
import math
import numpy as np

# ---------------------------------------------------------------- constants
SOLAR_R_KM = 695700.0
MSH_KM2 = 1e-6 * 0.5 * 4 * math.pi * SOLAR_R_KM**2
SIGMA_SB = 5.670374419e-8            # W m-2 K-4
TEFF_LO, TEFF_HI = 2300.0, 3900.0
E2 = math.e**2


# ---------------------------------------------------------------- spheres
def vec(lat, lon):
    """Unit vectors for latitudes and longitudes in radians."""
    lat, lon = np.asarray(lat, float), np.asarray(lon, float)
    return np.stack(np.broadcast_arrays(np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)), axis=-1)


def angle(v, w):
    """Angle between unit vectors, accurate everywhere (Kahan)."""
    v, w = np.broadcast_arrays(v, w)
    return 2 * np.arctan2(np.linalg.norm(v - w, axis=-1), np.linalg.norm(v + w, axis=-1))


def sep(lat0, lon0, lats, lons):
    return angle(vec(lat0, lon0), vec(lats, lons))


def disk_frame(lat0, lon0):
    """East and north unit vectors of the observer's sky plane, and the line of sight."""
    e = np.array([-math.sin(lon0), math.cos(lon0), 0.0])
    n = np.array([-math.sin(lat0) * math.cos(lon0), -math.sin(lat0) * math.sin(lon0), math.cos(lat0)])
    s = np.array([math.cos(lat0) * math.cos(lon0), math.cos(lat0) * math.sin(lon0), math.sin(lat0)])
    return e, n, s


def project(lat0, lon0, lats, lons):
    """x east, y north, mu towards the observer."""
    e, n, s = disk_frame(lat0, lon0)
    v = vec(lats, lons)
    return v @ e, v @ n, v @ s


def cap_angle(area, radius):
    """Angular radius of a cap of the given area on a sphere."""
    return math.acos(max(-1.0, min(1.0, 1 - area / (2 * math.pi * radius**2))))


# ---------------------------------------------------------------- planar overlap
def overlap_fraction(d, r):
    """Share of a circle of radius r that lies inside the unit circle, centres d apart."""
    d = abs(d)
    if d >= 1 + r:
        return 0.0
    if d <= 1 - r:
        return 1.0
    k = math.sqrt(max(0.0, (-d + r + 1) * (d + r - 1) * (d - r + 1) * (d + r + 1)))
    th_r = math.atan2(k, d * d + r * r - 1)      # half-angle seen from the small circle
    th_1 = math.atan2(k, d * d + 1 - r * r)
    area = r * r * th_r + th_1 - 0.5 * k
    return area / (math.pi * r * r)


def floor_share(displacement):
    """Overlap of two unit disks displaced by `displacement`, relative to one of them."""
    d = abs(displacement)
    if d >= 2:
        return 0.0
    return (2 * math.acos(d / 2) - 0.5 * d * math.sqrt(4 - d * d)) / math.pi


# ---------------------------------------------------------------- life cycles
class Spot:
    """Area as a function of the total time since creation."""

    def __init__(self, a0, amax, g, w, growing):
        self.a0, self.amax, self.g, self.w, self.growing0 = a0, amax, g, w, growing
        self.t = 0.0
        if not growing:
            self.t_max = None
        elif g == 0 or a0 == 0:
            self.t_max = math.inf
        else:
            self.t_max = math.log(amax / a0) / math.log(1 + g)

    def age(self, dt):
        self.t += dt

    @property
    def growing(self):
        return self.growing0 and self.t < self.t_max

    @property
    def blur(self):
        """Uncertainty of the time of the maximum [day]: 1 + g is rounded."""
        if not self.growing0 or not math.isfinite(self.t_max):
            return 1e-13 * self.t
        return self.t_max * (1e-15 / self.g + 1e-13) + 1e-13 * self.t

    def near_max(self, eps=1e-9):
        return self.growing0 and math.isfinite(self.t_max) and abs(self.t - self.t_max) <= eps * max(1.0, self.t_max)

    def area_at(self, t):
        if self.growing0 and t < self.t_max:
            return self.a0 * (1 + self.g) ** t if self.g else self.a0
        top, since = (self.amax, t - self.t_max) if self.growing0 else (self.a0, t)
        return max(0.0, top - self.w * since)

    @property
    def area(self):
        return self.area_at(self.t)

    @property
    def t_zero(self):
        """Time at which the area is used up."""
        if self.growing0:
            return self.t_max + self.amax / self.w if self.w > 0 else math.inf
        if self.a0 == 0:
            return 0.0
        return self.a0 / self.w if self.w > 0 else math.inf

    @property
    def dead(self):
        return not self.growing and self.t >= self.t_zero

    def near_death(self, eps=1e-9):
        z = self.t_zero
        return math.isfinite(z) and abs(self.t - z) <= eps * max(1.0, z)


class Facula:
    def __init__(self, r0, rmax, tau, growing):
        self.r0, self.rmax, self.tau, self.growing0 = r0, rmax, tau, growing
        self.t = 0.0
        self.t_max = 0.5 * tau * math.log(rmax / r0) if growing else None

    def age(self, dt):
        self.t += dt

    @property
    def growing(self):
        return self.growing0 and self.t < self.t_max

    def near_max(self, eps=1e-9):
        return self.growing0 and abs(self.t - self.t_max) <= eps * max(self.tau, self.t_max)

    @property
    def radius(self):
        if self.growing0 and self.t < self.t_max:
            return self.r0 * math.exp(2 * self.t / self.tau)
        if self.growing0:
            return self.rmax * math.exp(-2 * (self.t - self.t_max) / self.tau)
        return self.r0 * math.exp(-2 * self.t / self.tau)

    @property
    def dead(self):
        return not self.growing and self.radius <= self.rmax / E2

    def near_death(self, eps=1e-9):
        return (not self.growing) and abs(self.radius * E2 / self.rmax - 1) <= eps


# ---------------------------------------------------------------- flares
FR = (1.00000, 1.94053, -0.175084, -2.24588, -1.12498)
FD = (0.689008, -1.60053, 0.302963, -0.278318)


def template(x):
    """Davenport (2014) flare template; x in units of FWHM from the peak."""
    x = np.asarray(x, float)
    rise = sum(c * x**k for k, c in enumerate(FR))
    fall = FD[0] * np.exp(FD[1] * np.clip(x, 0, 700)) + FD[2] * np.exp(FD[3] * np.clip(x, 0, 700))
    return np.where((x > -1) & (x <= 0), rise, np.where((x > 0) & (x < 20), fall, 0.0))


def template_integral(a, b):
    """Exact integral of the template from a to b (in FWHM)."""
    def rise(x):
        x = min(max(x, -1.0), 0.0)
        return sum(c * x ** (k + 1) / (k + 1) for k, c in enumerate(FR))

    def fall(x):
        x = min(max(x, 0.0), 20.0)
        return FD[0] / FD[1] * math.exp(FD[1] * x) + FD[2] / FD[3] * math.exp(FD[3] * x)
    return rise(b) - rise(a) + fall(b) - fall(a)


TEMPLATE_TOTAL = template_integral(-1, 20)


def flare_time_area(energy_erg, teff):
    """km2 day."""
    m2s = energy_erg * 1e-7 / SIGMA_SB / teff**4
    return m2s * 1e-6 / 86400


def flare_peak_area(energy_erg, teff, fwhm_day):
    return flare_time_area(energy_erg, teff) / (TEMPLATE_TOTAL * fwhm_day)


# ---------------------------------------------------------------- surface
def clip_teff(t):
    return min(max(t, TEFF_LO), TEFF_HI)


def limb(mu, u1, u2):
    return np.where(mu > 0, 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2, 0.0)


# ---------------------------------------------------------------- granulation
def granule_cov(times_hr, scale, period_hr):
    t = np.asarray(times_hr, float)
    f = 1.0 / period_hr
    dt = np.abs(t[:, None] - t[None, :])
    return scale * f * np.exp(-f * dt / math.sqrt(2)) * np.cos(f * dt / math.sqrt(2) - math.pi / 4)
