"""Swing Shapley values: attributions of the game "does the same decision probability reach the threshold"."""
import math
import numpy as np
from .. import gen, forest as F
from ..common import npt, rounded, shape
from .p07 import clf_setup, large_kw, PROBA, BINARY

# implementation -> (how its same decision probability is defined, cost)
PLAIN = dict()
SLOW = dict(normalise=False)
CAT = dict(equal=True, clip=True)
WAYS = {'swing_sv_clf': PLAIN, 'swing_sv_clf_nopa': PLAIN, 'swing_sv_clf_slow': SLOW,
        'demo_swing_sv_clf': PLAIN, 'demo_swing_sv_clf_cat': CAT}


def reference(ref, x, cls, P, m, thr, opts, tol, grid=False):
    """-> (phi, swings, counts, number of coalitions below / above) or None when a value is too close to the threshold"""
    n = len(P)
    v = []
    for mask in range(1 << n):
        S = [j for k in range(n) if mask >> k & 1 for j in P[k]]
        s, ok = ref.sdp(x, cls, S, **opts)
        trivial = not S or len(S) == m
        if not trivial and (not ok or abs(s - thr) < tol and not (grid and ref.exact(x, cls, S, **opts))):
            return None
        v.append(1 if s >= thr else 0)
    w = [math.factorial(s) * math.factorial(n - s - 1) / math.factorial(n) for s in range(n)]
    phi, sw, cnt = [0.0] * m, [[0.0, 0.0] for _ in range(m)], [[0, 0, 0] for _ in range(m)]
    for k in range(n):
        for mask in range(1 << n):
            if mask >> k & 1:
                continue
            dlt = v[mask | 1 << k] - v[mask]
            c = w[F.popcount(mask)]
            for j in P[k]:
                phi[j] += c * dlt
                if dlt > 0:
                    sw[j][0] += c
                    cnt[j][0] += 1
                elif dlt < 0:
                    sw[j][1] -= c
                    cnt[j][1] += 1
                else:
                    cnt[j][2] += 1
    return phi, sw, cnt, sum(v)


def swing(ctx, rng, grouped=False, grid=False, big=False):
    C = None
    if big:
        kw = large_kw(ctx, rng, ['rows', 'rows', 'points', 'trees', 'leaves', 'columns'])
        c = clf_setup(ctx, rng, **kw)
        if c.m > 5:
            f = rng.sample(range(c.m), c.m)
            k = rng.randint(3, 5)
            cut = [0] + sorted(rng.sample(range(1, c.m), k - 1)) + [c.m]
            C = [f[a:b] for a, b in zip(cut, cut[1:])]
    elif grid:
        c = clf_setup(ctx, rng, kinds=['dt_clf'], rows=gen.factorial(rng), depth=rng.choice([2, 3, 4]))
    else:
        c = clf_setup(ctx, rng, mmax=5, nmax=30)
    C = C or (gen.groups(rng, c.m) if grouped else [[]])
    P = gen.members(c.m, C)
    vals = []
    for _ in range(12):
        i = rng.randrange(len(c.X))
        vals.append(c.ref.sdp(c.X[i], c.xcls[i], gen.subset(rng, c.m, 1, max(1, c.m - 1)))[0])
    vals = [z for z in vals if 0.02 < z < 0.98]
    thr = rng.choice([0.9, 0.9, 0.7, 0.5, 0.95] + [z + rng.choice([-0.01, 0.01]) for z in vals])
    if grid:
        z = [(rng.randrange(len(c.X)), gen.subset(rng, c.m, 1, max(1, c.m - 1))) for _ in range(12)]
        z = [c.ref.sdp(c.X[i], c.xcls[i], S)[0] for i, S in z if c.ref.exact(c.X[i], c.xcls[i], S)]
        z = [v for v in z if 0 < v <= 1]
        if z:
            thr = rng.choice(z)
            ctx.count('on_threshold')
    ctx.count('family:' + c.kind)
    for name, opts in WAYS.items():
        demo = name.startswith('demo')
        if demo and (big or rng.random() < 0.6):
            continue
        t = 0.9 if demo else thr
        refs = [reference(c.ref, x, y, P, c.m, t, opts, 2 * c.tol, grid) for x, y in zip(c.X, c.xcls)]
        f = getattr(c.acv, name)
        if demo:
            got = ctx.call(name, f, c.Xa, c.data, C)
        else:
            got = ctx.call(name, f, c.Xa, c.data, C, t)
        if shape(got[0]) != (len(c.X), c.m) or shape(got[1]) != (len(c.X), c.m, 2) or shape(got[2]) != (len(c.X), c.m, 3):
            ctx.fail('shape:' + name, '%s returned arrays of the wrong shape' % name)
            continue
        phi, sw, cnt = (npt(a) for a in got)
        for i, r in enumerate(refs):
            if r is None:
                ctx.count('undecidable')
                if any(z != z for z in phi[i]):
                    ctx.fail('nan:' + name, '%s is NaN' % name)
                continue
            sig = (name, rounded(r[0]), tuple(map(tuple, r[2])))
            ctx.observed('swing', sig if any(c_[0] or c_[1] for c_ in r[2]) and len(P) > 1 else None)
            if any(c_[1] for c_ in r[2]):
                ctx.count('negative')
            if any(c_[0] and c_[1] for c_ in r[2]):
                ctx.count('both_signs')
            for part, a, b in (('values', phi[i], r[0]), ('swings', sw[i], r[1]), ('counts', cnt[i], r[2])):
                if not F.maxdiff(a, b) <= 1e-9:
                    ctx.fail(part + ':' + name, '%s: %s differ from their definition' % (name, part),
                             {'C': C, 'threshold': t, 'x': c.X[i], 'class': c.xcls[i], 'got': a, 'exact': b, 'kind': c.kind,
                              'rows': c.srows, 'classes': c.cls, 'trees': c.forest.trees})
                    break
    ctx.sample({'model': c.kind, 'columns': c.m, 'C': C, 'threshold': thr, 'x': c.X[0], 'values': phi[0]})


def single(ctx, rng):
    swing(ctx, rng)


def groups(ctx, rng):
    swing(ctx, rng, True)


WORKLOADS = {'large': lambda ctx, rng: swing(ctx, rng, rng.random() < 0.4, big=True), 'grid': lambda ctx, rng: swing(ctx, rng, rng.random() < 0.4, True), 'single': single, 'groups': groups}
