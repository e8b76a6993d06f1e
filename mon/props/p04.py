"""Results do not depend on the number of threads, the schedule, or the other samples of the batch."""
import collections, copy, ctypes, inspect, random, re, time
import numpy as np
from .. import meta
from ..worker import Violation

TOL = 1e-9
_lib = None
_seen = collections.Counter()          # how often each function ran in this process


def repeats(name, seconds):
    """functions that the workloads reach seldom are repeated more often"""
    _seen[name] += 1
    return (8 if _seen[name] <= 4 else 4 if _seen[name] <= 12 else 2) if seconds < 0.3 else 2


def lib():
    """the runtime that the extension modules of this process use instead of OpenMP's"""
    global _lib
    if _lib is None:
        name = [ln.split()[-1] for ln in open('/proc/self/maps') if 'libmonomp-' in ln]
        import cyext_acv, cyext_acv_nopa, cyext_acv_cache       # noqa: F401
        name = [ln.split()[-1] for ln in open('/proc/self/maps') if 'libmonomp-' in ln]
        _lib = ctypes.CDLL(name[0])
        _lib.mon_set.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_ulong]
    return _lib


def stats():
    a = (ctypes.c_ulong * 3)()
    lib().mon_stats(a)
    return a[0], a[1], a[2]


# which elements of a result belong to the samples
WHOLE = re.compile(r'(predict|shap_values\w*|compute_exp\w*|compute_sdp_\w+|compute_[dc]dp_rf|compute_msdp_\w+)$')
TUPLE = re.compile(r'(swing_sv\w*|demo_swing_sv\w*|compute_\w+_weights|compute_\w+_rule(_v0)?|compute_sdp_maxrules_\w+|compute_\w+_same|predict_\w*global_rules)$')
PARTS = re.compile(r'importance_\w+$')
LISTS = re.compile(r'sufficient_\w+$')
SKIP = re.compile(r'(compute_sdp_maxrules|shap_values_notoptimized)$')


def parts(name, r):
    if SKIP.match(name) or name.startswith('py_'):
        return None
    if TUPLE.match(name):
        return list(range(len(r)))
    if PARTS.match(name):
        return [1, 2, 3]
    if LISTS.match(name):
        return [0, 1]
    if WHOLE.match(name):
        return 'whole'
    return None


def pick(v, idx):
    if isinstance(v, np.ndarray):
        return v[idx]
    return [v[i] for i in idx]


def rebatch(f, a, k, idx):
    """the arguments for the samples idx (repetitions allowed)"""
    try:
        ba = inspect.signature(f).bind(*a, **k)
    except (TypeError, ValueError):
        return None
    arg = ba.arguments
    first = next(iter(arg))
    n = len(arg[first])
    rows = type(getattr(f, '__self__', None)).__name__ == 'ACXplainer' or re.search('_(rf|shaff|rule|maxrules)', f.__name__)
    names = ['y', 'y_X', 'down', 'up', 'S', 'cond', 't'] if rows else ['S_star', 'N_star', 'size'] if 'adap' in f.__name__ else []
    arg[first] = pick(np.asarray(arg[first]), idx)
    for p in names:
        v = arg.get(p)
        if p == 'S' and (v is None or len(v) == 0 or np.ndim(v[0]) == 0):
            continue                       # one set of columns for all samples
        if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v if isinstance(v, np.ndarray) else 0) != 0 or isinstance(v, list):
            if len(v) != n:
                return None
            arg[p] = pick(v, idx)
    return ba.args, ba.kwargs


def run(name, f, a, k, seed):
    """the call on a copy of the object it belongs to -> (result, what the object holds afterwards)"""
    meta.seed(seed)
    o = getattr(f, '__self__', None)
    if o is None or inspect.isclass(o) or type(o).__module__.split('.')[0] != 'acv_explainers':
        r = f(*a, **k)
        return r, None
    o2 = copy.copy(o)
    r = getattr(o2, f.__name__)(*a, **k)
    changed = {p: v for p, v in vars(o2).items() if p not in vars(o) or vars(o)[p] is not v}
    return r, {p: v for p, v in changed.items() if meta.data_only(v)}


class Hook:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        lib()
        self.sched = ctx.job['group'] == 'sched'

    def __call__(self, name, f, a, k):
        ctx, rng, L = self.ctx, self.rng, lib()
        s = rng.randrange(2 ** 32)
        more = random.Random(rng.randrange(2 ** 62))
        name = getattr(f, '__name__', name)
        if not self.sched:                     # the race detector watches; one perturbed run
            L.mon_set(rng.choice([2, 3, 4, 8]), rng.choice([0, 1, 2, 3]), rng.randrange(2 ** 31))
            p0 = stats()
            meta.seed(s)
            t0 = time.time()
            r = self.go(f, a, k)
            p1 = stats()
            ctx.observed('raced_call', (name, meta.signature(r)) if p1[1] > p0[1] else None)
            ctx.count('parallel_regions', p1[1] - p0[1])
            if p1[1] > p0[1]:
                ctx.count('raced:' + name)
                for _ in range(repeats(name, time.time() - t0) // 2 - 1):
                    L.mon_set(more.choice([2, 3, 4, 8]), more.choice([0, 1, 2, 3]), more.randrange(2 ** 31))
                    try:
                        run(name, f, a, k, s)
                    except Exception as e:
                        ctx.fail('raised:%s' % name, '%s raised %r when it was repeated' % (name, e))
                    ctx.count('raced:' + name)
            self.batches(name, f, a, k, r, s)
            return r
        L.mon_set(1, 0, 1)
        t0 = time.time()
        try:
            base, st = run(name, f, a, k, s)
        except Exception:
            base, st = None, None
        else:
            for i in range(repeats(name, time.time() - t0)):
                g = rng if i < 2 else more
                n, mode = g.choice([2, 2, 3, 4, 7, 8, 16]), g.randrange(4)
                L.mon_set(n, mode, g.randrange(2 ** 31))
                p0 = stats()
                try:
                    r, st2 = run(name, f, a, k, s)
                except Exception as e:
                    ctx.fail('raised:%s' % name, '%s raised %r with %d threads, not with one' % (name, e, n))
                    continue
                p1 = stats()
                ctx.observed('compared', (name, meta.signature(r), n) if p1[1] > p0[1] and not meta.trivial(r) else None)
                ctx.count('parallel_regions', p1[1] - p0[1])
                ctx.count('distinct_schedules', p1[2] - p0[2])
                if p1[1] > p0[1]:
                    ctx.count('compared:' + name)
                d = meta.walk(base, r, TOL, 'result') or meta.walk(st, st2, TOL, 'state')
                if d:
                    ctx.fail('threads:%s' % name, '%s: the result with %d threads differs from the one with one thread: %s' % (
                        name, n, d), {'mode': mode})
        if base is not None:
            self.batches(name, f, a, k, base, s)
        L.mon_set(1, 0, 1)
        meta.seed(s)
        return self.go(f, a, k)

    def go(self, f, a, k):
        try:
            return f(*a, **k)
        except Exception:
            raise Violation()

    def batches(self, name, f, a, k, base, s):
        """the same samples in another batch"""
        ctx, rng, L = self.ctx, self.rng, lib()
        if not a or inspect.isclass(f):
            return
        p = parts(name, base)
        if p is None or not hasattr(a[0], '__len__') or np.ndim(a[0]) != 2:
            return
        n = len(a[0])
        t = rng.random()
        if t < 0.3:
            idx = [rng.randrange(n)]
        elif t < 0.5:
            idx = list(reversed(range(n)))
        else:
            idx = [rng.randrange(n) for _ in range(rng.choice([n + 1, 9, 16]))]
        ak = rebatch(f, a, k, idx)
        if ak is None:
            return
        nt, mode = rng.choice([1, 2, 4, 8]), rng.randrange(4)
        L.mon_set(nt, mode, rng.randrange(2 ** 31))
        try:
            r, _ = run(name, f, ak[0], ak[1], s)
        except Exception as e:
            ctx.fail('batch-raised:%s' % name, '%s raised %r for other batches of the same samples' % (name, e),
                     {'samples': idx})
            return
        ctx.count('batch')
        for q in ([None] if p == 'whole' else p):
            x, y = (base, r) if q is None else (base[q], r[q])
            if not hasattr(x, '__len__') or len(x) != n or not hasattr(y, '__len__') or len(y) != len(idx):
                ctx.count('unbatched:' + name)
                continue
            ctx.observed('rebatched', (name, q, meta.signature(y)) if not meta.trivial(y) else None)
            d = meta.walk([x[i] for i in idx], [y[i] for i in range(len(idx))], TOL, 'result')
            if d:
                ctx.fail('batch:%s' % name, '%s: a sample gets another result in another batch (%d threads): %s' % (name, nt, d),
                         {'samples': idx, 'threads': nt})


WORKLOADS = meta.workloads(Hook)
