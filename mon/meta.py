"""The workloads of all properties under another monitor: the calls they make are watched, their own oracles are off."""
import hashlib, importlib, random
import numpy as np
from .worker import Violation


class Meta:
    """stands in for the ctx of a workload; hook(name, f, args, kwargs) makes (and watches) the call"""

    def __init__(self, ctx, rng, hook):
        self.ctx, self.hook, self.rng = ctx, hook, random.Random(rng.randrange(2 ** 60))
        self.tier, self.scratch, self.nviol = ctx.tier, ctx.scratch, 0

    def call(self, name, f, *a, **k):
        return self.hook(name, f, a, k)

    def fail(self, *a, **k):
        self.ctx.count('other_monitor')

    def check(self, ok, *a, **k):
        return ok

    def count(self, *a, **k):
        pass

    observed = sample = count


def workload(module, name, make):
    def run(ctx, rng):
        mod = importlib.import_module('mon.props.' + module)
        hook = make(ctx, rng)
        m = Meta(ctx, rng, hook)
        try:
            mod.WORKLOADS[name](m, rng)
        except Violation:
            ctx.count('raised')        # an exception is the concern of the property the workload belongs to
        except Exception as e:         # what came back could not even be interpreted
            ctx.count('interrupted')
            ctx.count('interrupted:%s:%s' % (module, type(e).__name__))
        if hasattr(hook, 'finish'):
            hook.finish()
    return run


def workloads(make):
    from . import registry
    return {'%s:%s' % (mod, wl): workload(mod, wl, make) for mod, wl in registry.META}


def seed(s):
    random.seed(s)
    np.random.seed(s)


# ------------------------------------------------------------------ structures

NUM = (int, float, np.integer, np.floating, np.bool_)


def walk(a, b, tol, path='', scale=None):
    """the first difference between two results, or None"""
    if a is b:
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape:
            return '%s: shapes %s and %s' % (path, a_.shape, b_.shape)
        if a_.dtype == object or a_.dtype.kind in 'US':
            return walk(a_.tolist(), b_.tolist(), tol, path)
        if not a_.size:
            return None
        x, y = a_.reshape(-1).tolist(), b_.reshape(-1).tolist()
        for i, (p, q) in enumerate(zip(x, y)):
            if p == q or (p != p and q != q):
                continue
            if tol and isinstance(p, float) and abs(p - q) <= tol * (1 + max(abs(p), abs(q))):
                continue
            return '%s[%d]: %r and %r' % (path, i, p, q)
        return None
    if isinstance(a, NUM) and isinstance(b, NUM):
        p, q = float(a), float(b)
        if p == q or (p != p and q != q) or (tol and isinstance(a, (float, np.floating)) and
                                             abs(p - q) <= tol * (1 + max(abs(p), abs(q)))):
            return None
        return '%s: %r and %r' % (path, a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: lengths %d and %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = walk(x, y, tol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return '%s: keys %s and %s' % (path, sorted(map(str, a))[:8], sorted(map(str, b))[:8])
        for k in a:
            d = walk(a[k], b.get(k), tol, '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return None if a == b else '%s: %s and %s' % (path, a, b)
    if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return None if type(a) == type(b) and a == b else '%s: %.60r and %.60r' % (path, a, b)
    if type(a).__module__.startswith('acv_explainers') and type(a) is type(b):
        return walk(state(a), state(b), tol, path + '.')
    return None                    # other objects are not compared


def data_only(v, depth=0):
    """whether a value consists of numbers, strings, arrays and containers of them"""
    if v is None or isinstance(v, NUM + (str, bytes)):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype != object or all(data_only(x) for x in v.reshape(-1).tolist())
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(data_only(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return all(data_only(x, depth + 1) for x in v.values())
    return False


def state(o):
    """the data an object keeps (models it refers to are left out)"""
    out = {}
    for k, v in vars(o).items():
        if data_only(v):
            out[k] = v
        elif isinstance(v, (list, tuple)) and v and all(type(x).__module__.startswith('acv_explainers') for x in v):
            out[k] = [state(x) for x in v]
    return out


def snap(v):
    """an independent copy of the data in v; anything else is kept as it is"""
    if isinstance(v, np.ndarray):
        return v.copy() if v.dtype != object else np.array([snap(x) for x in v.reshape(-1)] + [None],
                                                           dtype=object)[:-1].reshape(v.shape)
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, set):
        return set(v)
    return v


def signature(v):
    """a digest of a result"""
    return hashlib.md5(repr(_plain(v)).encode()).hexdigest()[:12]


def _plain(v):
    if isinstance(v, np.ndarray):
        return _plain(v.tolist())
    if isinstance(v, NUM):
        return round(float(v), 7) + 0.0
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return type(v).__name__


def trivial(v):
    """nothing but zeros and ones"""
    if isinstance(v, np.ndarray):
        return v.dtype.kind in 'bifu' and all(x in (0, 1) for x in v.reshape(-1).tolist())
    if isinstance(v, NUM):
        return v in (0, 1)
    if isinstance(v, (list, tuple)):
        return all(trivial(x) for x in v)
    return True
