"""
Stateless explicit exploration of the real code.

A *check* is a module with

    configs(tier) -> list of plain-data configurations
    explore(x, cfg)                      one execution; x is a `Run`

`explore` builds real objects, calls the real code and asks `x.choose(...)`
wherever the execution can go several ways (the next operation, its argument,
the answer of the random generator, the unit of an argument, which of two stars
moves next).  The driver replays a prefix of choices and takes the first option
afterwards; every untried option of every choice point is put on the stack, so
all executions within the bounds are run, each exactly once.  `bound` (optional,
per configuration) limits the number of *deviations* (choices other than the
first option) at the choice points declared with dev=True.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VSM_REPO', '/repo')

EXEC_LIMIT_S = 120      # one execution; they take milliseconds


class Violation(Exception):
    """The property does not hold on this execution."""


class Nontermination(BaseException):
    """The execution did not come back."""


def _quant(v):
    """A float as a stable token: 7 significant digits."""
    if v != v:
        return 'nan'
    if v == 0:
        return '0'
    return f'{v:.6e}'


_scales = {}


def _si_scale(unit):
    try:
        if unit not in _scales:
            _scales[unit] = float(unit.decompose().scale)
        return _scales[unit]
    except Exception:
        return 1.0


def canon(obj):
    """Canonical, hashable, rounding-stable form of a state."""
    import numpy as np
    if obj is None or isinstance(obj, (bool, int, str)):
        return repr(obj)
    if isinstance(obj, float):
        return _quant(obj)
    if isinstance(obj, (list, tuple)):
        return '[' + ','.join(canon(o) for o in obj) + ']'
    if isinstance(obj, dict):
        return '{' + ','.join(f'{k}:{canon(obj[k])}' for k in sorted(obj, key=str)) + '}'
    if hasattr(obj, 'unit') and hasattr(obj, 'value'):
        return canon(obj.value * _si_scale(obj.unit))
    if isinstance(obj, np.ndarray):
        if obj.dtype == bool:
            return f'b{obj.shape}' + hashlib.blake2b(obj.tobytes(), digest_size=8).hexdigest()
        if obj.size > 12 and obj.dtype.kind == 'f':
            m, e = np.frexp(np.asarray(obj, dtype=np.float64))
            m = np.where(np.isfinite(m), np.round(m * 2**23), 2**30)
            return f'a{obj.shape}' + hashlib.blake2b(m.astype(np.int64).tobytes() + e.tobytes(), digest_size=8).hexdigest()
        return 'a' + canon(obj.ravel().tolist())
    if isinstance(obj, np.generic):
        return canon(obj.item())
    return repr(type(obj))


class Run:
    """One execution."""

    def __init__(self, prefix, expect=None, bound=None):
        self.prefix = prefix
        self.expect = expect or []
        self.bound = bound
        self.deviations = 0
        self.points = []        # (label, number of options, index taken)
        self.alternatives = []  # (position, index) not taken
        self.log = []
        self.transitions = 0
        self.states = set()
        self.evaluations = 0
        self.outcomes = []

    # ---- nondeterminism ---------------------------------------------------
    def choose(self, label, options, dev=False):
        options = list(options)
        n = len(options)
        i = len(self.points)
        if i < len(self.prefix):
            k = self.prefix[i]
            if i < len(self.expect) and self.expect[i] != (label, n):
                raise Violation(f'replaying the same choices led elsewhere: at choice {i} '
                                f'{self.expect[i]} became {(label, n)}')
            if k >= n:
                raise Violation(f'replaying the same choices led elsewhere: choice {i} {label} has {n} options, not {k + 1}')
        else:
            k = 0
            if n > 1 and not (dev and self.bound is not None and self.deviations >= self.bound):
                self.alternatives.extend((i, j) for j in range(1, n))
        if dev and k:
            self.deviations += 1
        self.points.append((label, n, k))
        if n > 1:
            self.log.append(f'{label}={_short(options[k])}')
        return options[k]

    # ---- bookkeeping --------------------------------------------------------
    def step(self, what=None):
        """One call into the code under test."""
        self.transitions += 1
        if what is not None and len(self.log) < 200:
            self.log.append(what)

    def state(self, *parts):
        self.states.add(hashlib.blake2b(canon(parts).encode(), digest_size=8).digest())

    # ---- judgement ----------------------------------------------------------
    def require(self, cond, msg, *detail):
        self.evaluations += 1
        if not bool(cond):
            raise Violation(msg + (': ' + ', '.join(_short(d, 300) for d in detail) if detail else ''))

    def close(self, got, want, what, rtol=1e-7, atol=0.0):
        """got == want up to rounding, elementwise, no NaN, same shape."""
        import numpy as np
        self.evaluations += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(f'{what}: shape {g.shape}, expected {w.shape}')
        bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        same_inf = np.isinf(g) & np.isinf(w) & (g == w)
        bad &= ~same_inf
        if np.any(bad):
            i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
            raise Violation(f'{what}: got {np.atleast_1d(g)[i]!r}, expected {np.atleast_1d(w)[i]!r}'
                            + (f' at {i} ({int(bad.sum())} of {bad.size} differ)' if bad.size > 1 else ''))

    def refuses(self, fn, exc, what):
        self.evaluations += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation(f'{what}: raised {type(e).__name__}: {e} instead of being refused '
                            f'with {exc}') from e
        raise Violation(f'{what}: accepted')


def _short(v, n=120):
    s = str(v) if not isinstance(v, float) else repr(v)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


def _alarm(signum, frame):
    raise Nontermination()


def execute(mod, cfg, prefix, expect=None):
    """Run one execution. Returns (run, error message or None)."""
    run = Run(prefix, expect, cfg.get('bound') if isinstance(cfg, dict) else None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.explore(run, cfg)
    except Violation as e:
        err = str(e)
    except Nontermination:
        err = f'did not terminate within {EXEC_LIMIT_S} s'
    except Exception as e:   # the code under test must not fail on valid input
        where = traceback.extract_tb(e.__traceback__)[-1]
        err = f'{type(e).__name__}: {e} (at {os.path.basename(where.filename)}:{where.lineno} in {where.name})'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return run, err


class Result:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.evaluations = 0
        self.states = set()
        self.choice_points = 0
        self.max_depth = 0
        self.samples = []
        self.violations = []    # (cfg index, choices, message, log)
        self.outcomes = {}      # cfg index -> list
        self.replayed = 0

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.evaluations += o.evaluations
        self.states |= o.states
        self.choice_points += o.choice_points
        self.max_depth = max(self.max_depth, o.max_depth)
        self.samples += o.samples
        self.violations += o.violations
        self.replayed += o.replayed


def search(mod, cfg, index, max_violations=1):
    """All executions of one configuration."""
    res = Result()
    stack = [((), ())]
    outcomes = []
    last = None
    while stack:
        prefix, expect = stack.pop()
        run, err = execute(mod, cfg, list(prefix), list(expect))
        res.executions += 1
        res.transitions += run.transitions
        res.evaluations += run.evaluations
        res.states |= run.states
        res.choice_points += len(run.points)
        res.max_depth = max(res.max_depth, sum(1 for p in run.points if p[1] > 1))
        taken = [p[2] for p in run.points]
        if err is not None:
            res.violations.append((index, taken, err, run.log[-60:]))
            if len(res.violations) >= max_violations:
                return res
            continue
        last = (taken, run.log)
        outcomes += run.outcomes
        labels = [(p[0], p[1]) for p in run.points]
        for i, j in reversed(run.alternatives):
            stack.append((tuple(taken[:i]) + (j,), tuple(labels[:i + 1])))
    if last is not None:
        res.samples.append({'config': cfg, 'trace': [_short(s) for s in last[1][:40]]})
        # the explorer owns all nondeterminism: the same choices give the same run
        run, err = execute(mod, cfg, last[0])
        res.replayed += 1
        if err is not None or [p[2] for p in run.points] != last[0] or run.log != last[1]:
            res.violations.append((index, last[0], 'replaying the same choices gave a different run'
                                   + (f': {err}' if err else ''), run.log[-60:]))
    if hasattr(mod, 'finish'):
        x = Run([])
        try:
            mod.finish(x, cfg, outcomes)
        except Violation as e:
            res.violations.append((index, None, str(e), []))
        res.evaluations += x.evaluations
    return res


def load(pid):
    import importlib
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module(f'mc.checks.{pid.lower()}')


def prepare():
    """Import the code under test from the working tree."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import vspec_vsm
    got = os.path.realpath(vspec_vsm.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'vspec_vsm comes from {got}, not from {REPO}')


def worker(pid, task_q, out_q, deadline):
    try:
        prepare()
        mod = load(pid)
        if hasattr(mod, 'setup'):
            mod.setup()
    except BaseException as e:      # the code does not even import
        out_q.put(('fatal', f'{type(e).__name__}: {e}\n{traceback.format_exc()}'))
        return
    while True:
        item = task_q.get()
        if item is None:
            break
        index, cfg = item
        if time.time() > deadline:
            out_q.put(('skipped', index))
            continue
        t0 = time.time()
        try:
            r = search(mod, cfg, index)
        except BaseException as e:
            out_q.put(('fatal', f'config {index}: {type(e).__name__}: {e}\n{traceback.format_exc()}'))
            return
        out_q.put(('done', index, r, time.time() - t0))
    out_q.put(('bye',))
