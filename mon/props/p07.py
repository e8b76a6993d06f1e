"""Same decision probabilities of tree classifiers."""
import numpy as np
from .. import gen, forest as F
from ..common import setup, npt, rounded, shape
from .p06 import other_sample

PROBA = ['dt_clf', 'rf_clf', 'rf_clf', 'et_clf', 'rf_multi', 'dt_multi']
BINARY = ['gbt_clf', 'xgb_clf']


def clf_setup(ctx, rng, kinds=PROBA + BINARY, **kw):
    big = kw.pop('big', None)
    c = setup(ctx, rng, kind=rng.choice(kinds), **kw)
    c.binary = c.kind in BINARY
    c.srows = [list(r) for r in c.rows] if 'rows' in kw or big else other_sample(rng, c)
    c.srows = gen.f32(c.srows)
    c.X = gen.f32(gen.points(rng, c.srows if rng.random() < 0.7 else c.rows, big or rng.randint(1, 5), c.forest.thresholds))
    c.data, c.Xa = gen.arr(rng, c.srows), gen.arr(rng, c.X)
    P = npt(c.model.predict_proba(np.array(c.srows)))
    Q = npt(c.model.predict_proba(np.array(c.X)))
    c.cls = [p.index(max(p)) for p in P]
    c.xcls = [p.index(max(p)) for p in Q]
    c.tie = any(sum(z > max(p) - 1e-6 for z in p) > 1 for p in P + Q)
    c.sg = F.Game(c.forest, c.srows)
    c.ref = F.SdpClf(c.sg, c.cls, c.binary)
    # the leaf probabilities of XGBoost models are of single precision
    c.tol, c.ref.min_den = (3e-4, 1e-3) if c.kind.startswith('xgb') else (1e-7, 1e-6)
    return c


def compare(ctx, c, name, got, refs, detail):
    if shape(got) != (len(c.X),):
        ctx.fail('shape:' + name, '%s returned shape %s' % (name, shape(got)), detail)
        return
    got = npt(got)
    for i, (r, ok) in enumerate(refs):
        if not ok:
            ctx.count('undecidable')
            if got[i] != got[i]:
                ctx.fail('nan:' + name, '%s is NaN' % name, dict(detail, sample=i))
            continue
        ctx.observed('sdp', (name, c.cls.count(c.xcls[i]), round(r, 6)) if 0 < r < 1 else None)
        ctx.count('one' if r == 1 else 'zero' if r == 0 else 'between' if 0 < r < 1 else 'outside')
        if not abs(got[i] - r) <= c.tol * max(1.0, abs(r)):
            ctx.fail('sdp:' + name, '%s gives %r, by definition %r' % (name, got[i], r),
                     dict(detail, sample=i, X=c.X, rows=c.srows, classes=c.cls, trees=c.forest.trees))
            return


def subsets(rng, c):
    t = rng.random()
    if t < 0.1:
        return []
    if t < 0.2:
        s = list(range(c.m))
        rng.shuffle(s)
        return s
    return gen.subset(rng, c.m, 1, max(1, c.m - 1))


def large_kw(ctx, rng, kinds):
    """a problem with a trained model of which one dimension is large"""
    what, z = gen.large(rng, kinds)
    ctx.count('large')
    ctx.count('large:' + what)
    return dict(m=z['m'], mmax=z['m'], n=z['n'], n_trees=z['n_trees'], depth=z['depth'], big=z['nx'],
                dkind=rng.choice(['cont', 'unif', 'int']))


def sdp(ctx, rng, big=False):
    if big:
        c = clf_setup(ctx, rng, **large_kw(ctx, rng, ['rows', 'rows', 'many_rows', 'points', 'trees', 'leaves', 'columns']))
    else:
        c = clf_setup(ctx, rng)
    N = range(len(c.X))
    ctx.count('family:' + c.kind)
    for _ in range(3):
        S = subsets(rng, c)
        Sa = np.array(S, dtype=np.int64)
        det = {'S': S, 'kind': c.kind}
        leaf = [c.ref.sdp(c.X[i], c.xcls[i], S) for i in N]
        disc = [c.ref.sdp(c.X[i], c.xcls[i], S, equal=True, clip=True) for i in N]
        todo = [('compute_sdp_clf', leaf), ('compute_sdp_clf_cat', disc), ('compute_sdp_clf_nopa', leaf),
                ('compute_sdp_clf_cat_nopa', disc)]
        for name, refs in todo:
            got = ctx.call(name, getattr(c.acv, name), c.Xa, Sa, c.data)
            compare(ctx, c, name, got, refs, det)
        if not c.binary and not c.tie and not big and rng.random() < 0.5:
            raw = [c.ref.sdp(c.X[i], c.xcls[i], S, normalise=False, clip=True) for i in N]
            for name, refs in (('py_compute_sdp_clf', raw), ('py_compute_sdp_clf_cat', disc)):
                got = ctx.call(name, getattr(c.acv, name), c.Xa, S, c.data)
                compare(ctx, c, name, got, refs, det)
    ctx.sample({'model': c.kind, 'columns': c.m, 'rows': len(c.srows), 'S': S, 'x': c.X[0], 'sdp': leaf[0][0]})


def discrete(ctx, rng):
    """the discrete estimator in its plain form: on discrete data it is the share of the rows equal to the point on
    the columns which have its class, whenever the leaf values tell the classes apart"""
    c = clf_setup(ctx, rng, kinds=PROBA, dkind=rng.choice(['int', 'bin']))
    for _ in range(3):
        S = gen.subset(rng, c.m, 1, max(1, c.m - 1))
        if len(S) == c.m:
            continue
        got = npt(ctx.call('compute_sdp_clf_cat', c.acv.compute_sdp_clf_cat, c.Xa, np.array(S, dtype=np.int64), c.data))
        for i, x in enumerate(c.X):
            eq = [k for k, r in enumerate(c.srows) if all(r[f] == x[f] for f in S)]
            same = [k for k in eq if c.cls[k] == c.xcls[i]]
            a, u, d = c.ref.means(x, c.xcls[i], S, equal=True)
            if abs(u - d) < 1e-6 or not eq:
                continue
            share = len(same) / len(eq)
            ctx.observed('share', (len(same), len(eq)) if 0 < share < 1 else None)
            if abs(got[i] - share) > 1e-6:
                ctx.fail('share', 'the same class has share %r among the rows equal on %s, reported %r' % (share, S, got[i]),
                         {'S': S, 'x': x, 'rows': c.srows, 'classes': c.cls, 'class': c.xcls[i]})
                return


WORKLOADS = {'large': lambda ctx, rng: sdp(ctx, rng, True), 'sdp': sdp, 'discrete': discrete}
