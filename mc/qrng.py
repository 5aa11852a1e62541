"""
Random generators whose every answer is decided by the harness.

A draw is described by its quantile: the explorer (or a script) picks q from a
small alphabet and the generator returns the q-quantile of the distribution that
was asked for.  The code under test may draw in any order and through any of the
usual methods (random / uniform / normal / lognormal / exponential / poisson ...).
"""
import math
from statistics import NormalDist

import numpy as np

_N = NormalDist()


def poisson_quantile(q, lam):
    if lam <= 0:
        return 0
    if lam > 600:
        return max(0, int(round(lam + math.sqrt(lam) * _N.inv_cdf(q))))
    p = math.exp(-lam)
    c, k = p, 0
    while c < q and k < 100000:
        k += 1
        p *= lam / k
        c += p
    return k


class QuantileRng(np.random.Generator):
    """`pick(kind)` supplies the quantile of each single draw."""

    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, pick):
        super().__init__(np.random.PCG64(0))
        self.pick = pick
        self.draws = []         # (kind, parameters, value)
        self.quantiles = []     # (kind, quantile)

    def _draw(self, kind, size, fn, *params):
        params = [np.asarray(getattr(p, 'value', p), dtype=float) for p in params]
        shape = np.broadcast_shapes(*[p.shape for p in params]) if params else ()
        if size is not None:
            shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        if shape == ():
            ps = [float(p) for p in params]
            q = self.pick(kind)
            v = fn(q, *ps)
            self.quantiles.append((kind, q))
            self.draws.append((kind, tuple(ps), v))
            return v
        bc = [np.broadcast_to(p, shape) for p in params]
        out = np.empty(shape, dtype=np.int64 if kind in ('poisson', 'integers') else float)
        for i in np.ndindex(*shape):
            ps = [float(b[i]) for b in bc]
            q = self.pick(kind)
            out[i] = fn(q, *ps)
            self.quantiles.append((kind, q))
            self.draws.append((kind, tuple(ps), out[i].item()))
        return out

    def random(self, size=None, dtype=np.float64, out=None):
        return self._draw('uniform', size, lambda q: q)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw('uniform', size, lambda q, a, b: a + (b - a) * q, low, high)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw('normal', size, lambda q, m, s: m + s * _N.inv_cdf(q), loc, scale)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self._draw('normal', size, lambda q: _N.inv_cdf(q))

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return self._draw('normal', size, lambda q, m, s: math.exp(m + s * _N.inv_cdf(q)), mean, sigma)

    def exponential(self, scale=1.0, size=None):
        return self._draw('exponential', size, lambda q, s: -s * math.log1p(-q), scale)

    def standard_exponential(self, size=None, dtype=np.float64, method='zig', out=None):
        return self._draw('exponential', size, lambda q: -math.log1p(-q))

    def poisson(self, lam=1.0, size=None):
        return self._draw('poisson', size, lambda q, l: self.poisson_answer(q, l), lam)

    def poisson_answer(self, q, lam):
        return poisson_quantile(q, lam)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = high + 1 if endpoint else high
        return self._draw('integers', size, lambda q, a, b: int(a + math.floor(q * (b - a))), low, hi)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if p is None:
            idx = self._draw('choice', size, lambda q: math.floor(q * len(vals)))
        else:
            cum = np.cumsum(p)
            idx = self._draw('choice', size, lambda q: int(np.searchsorted(cum, q, side='right')))
        return vals[np.asarray(idx, dtype=int)] if np.ndim(idx) else vals[int(idx)]


def golden(start):
    """Quantiles that never repeat and reach into the tails."""
    i = start
    while True:
        i += 1
        q = (i * 0.6180339887498949) % 1.0
        yield min(max(q, 2e-4), 1 - 2e-4)


class ScriptedRng(QuantileRng):
    """Quantiles from a fixed irregular sequence; counts of Poisson draws from `counts` when set."""

    def __init__(self, seq=None):
        super().__init__(self._next)
        self.seq = seq or [0.37, 0.81, 0.55, 0.12, 0.68, 0.43, 0.92, 0.29, 0.74]
        self.i = 0
        self.counts = []

    def _next(self, kind):
        self.i += 1
        return self.seq[self.i % len(self.seq)]

    def poisson_answer(self, q, lam):
        if self.counts:
            return self.counts.pop(0)
        return poisson_quantile(q, lam)
