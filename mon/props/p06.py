"""Conditional expectations of an ensemble given some columns: the three estimators and the attributions built on them."""
import numpy as np
from .. import gen, forest as F
from ..common import setup, large, npt, rounded, shape

ESTIMATORS = {
    'compute_exp': lambda g, x, S: g.v(x, S), 'compute_exp_nopa': lambda g, x, S: g.v(x, S),
    'py_compute_exp': lambda g, x, S: g.v(x, S),
    'compute_exp_normalized': F.exp_normalized, 'compute_exp_normalized_nopa': F.exp_normalized,
    'compute_exp_cat': F.exp_equal, 'compute_exp_cat_nopa': F.exp_equal, 'py_compute_exp_cat': F.exp_equal,
}


def other_sample(rng, c):
    """the sample over which expectations are taken: the background, a part of it, or another one"""
    t = rng.random()
    if t < 0.4:
        return [list(r) for r in c.rows]
    if t < 0.7:
        return [list(r) for r in rng.sample(c.rows, rng.randint(1, len(c.rows)))]
    if t < 0.85:
        return [[rng.choice(c.rows)[j] for j in range(c.m)] for _ in range(rng.randint(1, 40))]
    return gen.points(rng, c.rows, rng.randint(1, 30), c.forest.thresholds)


def expectation(ctx, rng, big=False):
    if big:
        c = large(ctx, rng)
        rows, X = c.rows, c.X
    else:
        c = setup(ctx, rng, kind=rng.choice(['hand', 'hand', 'trained']))
        rows = other_sample(rng, c)
        X = gen.points(rng, rows if rng.random() < 0.7 else c.rows, rng.randint(1, 5), c.forest.thresholds)
    g = F.Game(c.forest, rows)
    data = gen.arr(rng, rows)
    Xa = gen.arr(rng, X)
    for _ in range(3):
        S = gen.subset(rng, c.m)
        Sa = np.array(S, dtype=np.int64)
        ctx.count('empty' if not S else 'full' if len(S) == c.m else 'partial')
        for name, f in ESTIMATORS.items():
            if name.startswith('py_') and (big or rng.random() < 0.6):
                continue
            ref = [f(g, x, S) for x in X]
            got = ctx.call(name, getattr(c.acv, name), Xa, Sa, data)
            if shape(got) != (len(X), c.forest.d):
                ctx.fail('shape:' + name, '%s returned shape %s' % (name, shape(got)))
                continue
            got = npt(got)
            ctx.observed('exp', (name, tuple(S), rounded(ref)) if any(abs(z) > 1e-9 for z in F.flat(ref)) else None)
            ctx.count('est:' + name)
            dlt = F.maxdiff(got, ref)
            if not dlt <= 1e-9 * c.scale:
                ctx.fail('exp:' + name, '%s differs from its definition by %g' % (name, dlt),
                         {'S': S, 'X': X, 'got': got, 'exact': ref, 'rows': rows, 'trees': c.forest.trees})
    ctx.sample({'columns': c.m, 'rows': len(rows), 'S': S, 'x': X[0], 'exact': ref[0]})


def brute(ctx, rng):
    """attributions computed from these expectations over all coalitions"""
    c = setup(ctx, rng, kind=rng.choice(['hand', 'hand', 'trained']), mmax=4, nmax=25)
    rows = other_sample(rng, c)
    X = gen.points(rng, rows, rng.randint(1, 3), c.forest.thresholds)
    g = F.Game(c.forest, rows)
    C = gen.groups(rng, c.m) if c.m > 1 and rng.random() < 0.5 else [[]]
    P = gen.members(c.m, C)
    data, Xa = gen.arr(rng, rows), gen.arr(rng, X)
    for name, f in (('py_shap_values_notoptimized', F.exp_normalized),
                    ('py_shap_values_discrete_notoptimized', F.exp_equal)):
        ref = [F.expand(P, F.shapley(P, lambda S: f(g, x, S), c.forest.d)[0], c.m, c.forest.d) for x in X]
        got = ctx.call(name, getattr(c.acv, name), Xa, data, C)
        got = npt(got)
        ctx.observed('brute', (name, rounded(ref)) if any(abs(z) > 1e-9 for z in F.flat(ref)) else None)
        dlt = F.maxdiff(got, ref)
        if not dlt <= 1e-9 * c.scale:
            ctx.fail('brute:' + name, '%s differs from the Shapley values of its estimator by %g' % (name, dlt),
                     {'C': C, 'X': X, 'got': got, 'exact': ref, 'rows': rows, 'trees': c.forest.trees})


WORKLOADS = {'large': lambda ctx, rng: expectation(ctx, rng, True), 'expectation': expectation, 'brute': brute}
