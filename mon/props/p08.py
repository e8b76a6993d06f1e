"""Same decision probabilities of tree regressors."""
import numpy as np
from .. import gen, forest as F
from ..common import setup, npt, rounded, shape
from .p06 import other_sample
from .p07 import subsets, large_kw

KINDS = ['dt_reg', 'rf_reg', 'rf_reg', 'et_reg', 'gbt_reg', 'xgb_reg']


def reg_setup(ctx, rng, kind=None, **kw):
    big = kw.pop('big', None)
    kind = kind or rng.choice(['hand', 'hand'] + KINDS)
    if kind == 'hand':
        kw.update(d=1, style='reg')
    kw.setdefault('mmax', 6)
    kw.setdefault('nmax', 30)
    kw.setdefault('depth', rng.choice([2, 3, 3]))
    kw.setdefault('n_trees', rng.choice([1, 1, 2, 2, 3]))
    c = setup(ctx, rng, kind=kind, **kw)
    c.srows = [list(r) for r in c.rows] if 'rows' in kw or big else other_sample(rng, c)
    c.srows = gen.f32(c.srows)
    c.X = gen.f32(gen.points(rng, c.srows if rng.random() < 0.7 else c.rows, big or rng.randint(1, 5), c.forest.thresholds))
    c.data, c.Xa = gen.arr(rng, c.srows), gen.arr(rng, c.X)
    c.sg = F.Game(c.forest, c.srows)
    c.ref = F.SdpReg(c.sg)
    c.fx = [c.forest.predict(x)[0] for x in c.X]
    c.t = tolerance(ctx, rng, c)
    c.tol = 1e-7
    return c


def tolerance(ctx, rng, c):
    """squared distances allowed: between two that occur, or a usual number"""
    if c.ref.exact and rng.random() < 0.5:        # exactly one that occurs
        ctx.count('on_tolerance')
        return rng.choice([(a - b) ** 2 for a in c.fx for b in c.ref.out])
    ds = sorted({round((a - b) ** 2, 9) for a in c.fx for b in c.ref.out})
    if len(ds) > 1 and rng.random() < 0.8:
        k = rng.randrange(len(ds) - 1)
        return (ds[k] + ds[k + 1]) / 2
    return rng.choice([0.01, 0.2, 1.0, 10.0])


def compare(ctx, c, name, got, refs, detail):
    if shape(got) != (len(c.X),):
        ctx.fail('shape:' + name, '%s returned shape %s' % (name, shape(got)), detail)
        return
    got = npt(got)
    for i, (r, ok) in enumerate(refs):
        if not ok:
            ctx.count('undecidable')
            if got[i] != got[i]:
                ctx.fail('nan:' + name, '%s is NaN' % name, dict(detail, sample=i))
            continue
        ctx.observed('sdp', (name, round(r, 6), len(c.forest.trees)) if r not in (0, 1) else None)
        ctx.count('one' if r == 1 else 'zero' if r == 0 else 'between' if 0 < r < 1 else 'outside')
        if not abs(got[i] - r) <= 1e-6 * max(1.0, abs(r)):
            ctx.fail('sdp:' + name, '%s gives %r, by definition %r' % (name, got[i], r),
                     dict(detail, sample=i, X=c.X, fX=c.fx, t=c.t, rows=c.srows, trees=c.forest.trees, kind=c.kind))
            return


def sdp(ctx, rng, big=False):
    if big:
        kw = large_kw(ctx, rng, ['rows', 'rows', 'many_rows', 'points', 'trees', 'leaves', 'columns'])
        if kw['n_trees'] > 9:                     # pairs of trees are looked at
            kw.update(n_trees=rng.choice([20, 33]), big=1)
        c = reg_setup(ctx, rng, **kw)
    else:
        c = reg_setup(ctx, rng)
    N = range(len(c.X))
    ctx.count('family:' + c.kind)
    if len(c.forest.trees) > 1:
        ctx.count('several_trees')
    for _ in range(2):
        S = subsets(rng, c)
        Sa = np.array(S, dtype=np.int64)
        det = {'S': S}
        leaf = [c.ref.sdp(c.X[i], c.fx[i], c.t, S) for i in N]
        disc = [c.ref.share(c.X[i], c.fx[i], c.t, S) for i in N]
        for name, refs in (('compute_sdp_reg', leaf), ('compute_sdp_reg_nopa', leaf),
                           ('compute_sdp_reg_cat', disc), ('compute_sdp_reg_cat_nopa', disc)):
            got = ctx.call(name, getattr(c.acv, name), c.Xa, c.t, Sa, c.data)
            compare(ctx, c, name, got, refs, det)
        if not big and rng.random() < 0.4 and 0 < len(S) < c.m:
            raw = [c.ref.sdp(c.X[i], c.fx[i], c.t, S, normalise=False, clip=True) for i in N]
            for name, refs in (('py_compute_sdp_reg', raw), ('py_compute_sdp_reg_cat', disc)):
                got = ctx.call(name, getattr(c.acv, name), c.Xa, c.t, S, c.data)
                compare(ctx, c, name, got, refs, det)
    ctx.sample({'model': c.kind, 'columns': c.m, 'rows': len(c.srows), 'S': S, 't': c.t, 'x': c.X[0], 'sdp': leaf[0][0]})


def discrete(ctx, rng):
    return sdp_discrete(ctx, rng)


def sdp_discrete(ctx, rng):
    c = reg_setup(ctx, rng, dkind=rng.choice(['int', 'bin']))
    for _ in range(3):
        S = gen.subset(rng, c.m, 1, max(1, c.m - 1))
        disc = [c.ref.share(x, f, c.t, S) for x, f in zip(c.X, c.fx)]
        for name in ('compute_sdp_reg_cat', 'compute_sdp_reg_cat_nopa'):
            got = ctx.call(name, getattr(c.acv, name), c.Xa, c.t, np.array(S, dtype=np.int64), c.data)
            compare(ctx, c, name, got, disc, {'S': S})


WORKLOADS = {'large': lambda ctx, rng: sdp(ctx, rng, True), 'sdp': sdp, 'discrete': discrete}
