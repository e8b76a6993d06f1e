"""The attribution of every column is the exact Shapley value of the leaf-estimator game."""
import numpy as np
from .. import gen, forest as F
from ..common import setup, large, npt, rounded, shape


def reference(c, X, C):
    players = gen.members(c.m, C)
    out, tops = [], []
    for x in X:
        phi, memo = F.shapley(players, lambda S: c.game.v(x, S), c.forest.d)
        out.append(F.expand(players, phi, c.m, c.forest.d))
        tops.append((memo[-1], memo[0], phi))
    return players, out, tops


def compare(ctx, c, name, got, X, C, ref, players, tops):
    if got is None or shape(got) != (len(X), c.m, c.forest.d):
        ctx.fail('shape:' + name, '%s returned shape %s' % (name, None if got is None else shape(got)))
        return
    g = npt(got)
    dlt = F.maxdiff(g, ref)
    ctx.observed('shap', rounded(ref) if sum(any(abs(z) > 1e-9 for z in v) for v in tops[0][2]) >= 2 else None)
    ctx.count('impl:' + name)
    if dlt > 1e-9 * c.scale:
        ctx.fail('shapley:' + name, '%s differs from the exact Shapley values by %g' % (name, dlt),
                 {'X': X, 'C': C, 'got': g, 'exact': ref, 'rows': c.rows, 'model': c.kind,
                  'trees': c.forest.trees})
        return
    # local accuracy, from the library's own numbers
    for i in range(len(X)):
        for k in range(c.forest.d):
            s = sum(g[i][p[0]][k] for p in players)
            want = tops[i][0][k] - tops[i][1][k]
            if abs(s - want) > 1e-8 * c.scale:
                ctx.fail('efficiency:' + name, 'the attributions of %s add up to %r, not %r' % (name, s, want))


IMPLS = ['shap_values', 'shap_values_nopa', 'py_shap_values', 'py_shap_valuesv2']


def body(ctx, rng, kind, C=None, **kw):
    c = setup(ctx, rng, kind=kind, **kw)
    X = gen.points(rng, c.rows, rng.randint(1, 5), c.forest.thresholds)
    C = gen.groups(rng, c.m) if C else [[]]
    players, ref, tops = reference(c, X, C)
    ctx.sample({'model': c.kind, 'columns': c.m, 'rows': c.n, 'trees': len(c.forest.trees), 'groups': C, 'x': X[0],
                'exact': ref[0]})
    Xa = gen.arr(rng, X)
    for name in IMPLS:
        if name.startswith('py') and rng.random() < 0.5:
            continue
        a = (Xa, C) if C != [[]] or rng.random() < 0.5 else (Xa,)
        got = ctx.call(name, getattr(c.acv, name), *a)
        compare(ctx, c, name, got, X, C, ref, players, tops)


def hand(ctx, rng):
    body(ctx, rng, 'hand')


def trained(ctx, rng):
    body(ctx, rng, 'trained', C=rng.random() < 0.4)


def groups(ctx, rng):
    body(ctx, rng, 'hand', C=True, m=rng.randint(2, 7))


def cache(ctx, rng):
    C = 'random' if rng.random() < 0.5 else None
    c = setup(ctx, rng, kind=rng.choice(['hand', 'hand', 'trained']), cache=True, C=C, m=rng.randint(2, 6),
              multi_threads=rng.random() < 0.6)
    CC = c.C or [[]]
    X = gen.points(rng, c.rows, rng.randint(1, 4), c.forest.thresholds)
    Xa = gen.arr(rng, X)
    players, ref, tops = reference(c, X, CC)
    for name in ('shap_values', 'shap_values_cache', 'shap_values_cache_nopa', 'shap_values_nopa'):
        got = ctx.call(name, getattr(c.acv, name), Xa, CC)
        compare(ctx, c, name + '[cached]', got, X, CC, ref, players, tops)
    # another grouping than the one of the construction
    C2 = gen.groups(rng, c.m) if rng.random() < 0.6 else [[]]
    players, ref, tops = reference(c, X, C2)
    got = ctx.call('shap_values', c.acv.shap_values, Xa, C2)
    compare(ctx, c, 'shap_values[cached, other groups]', got, X, C2, ref, players, tops)


def large_(ctx, rng):
    """one dimension is large: rows, points, trees, leaves, depth, outputs or columns"""
    c = large(ctx, rng)
    C = c.G or (gen.groups(rng, c.m) if rng.random() < 0.3 else [[]])
    players, ref, tops = reference(c, c.X, C)
    Xa = gen.arr(rng, c.X)
    for name in IMPLS[:2]:
        got = ctx.call(name, getattr(c.acv, name), Xa, C)
        compare(ctx, c, name, got, c.X, C, ref, players, tops)


def large_cache(ctx, rng):
    C = 'random' if rng.random() < 0.3 else None
    c = large(ctx, rng, kinds=['rows', 'points', 'trees', 'outputs', 'leaves', 'deep'], cache=True, C=C, multi_threads=rng.random() < 0.5)
    C = c.C or [[]]
    players, ref, tops = reference(c, c.X, C)
    Xa = gen.arr(rng, c.X)
    for name in ('shap_values', 'shap_values_cache', 'shap_values_cache_nopa'):
        got = ctx.call(name, getattr(c.acv, name), Xa, C)
        compare(ctx, c, name + '[cached]', got, c.X, C, ref, players, tops)


def agnostic(ctx, rng):
    """the attributions of an explainer that fits its own forest, for a background that is passed with the call"""
    from .. import acxref as A
    from ..common import Case
    a = A.setup(ctx, rng, mmax=5, nmax=40)
    if max(len(t[0]) for t in a.pf.trees) == 1:
        return
    c = Case()
    c.m, c.kind = a.m, 'ranger'
    c.rows = a.rows if rng.random() < 0.5 else rng.sample(a.rows, rng.randint(3, len(a.rows)))
    c.forest = F.from_ranger(a.acx.model, c.m, a.clf)
    c.game = F.Game(c.forest, c.rows)
    c.scale = max([1.0] + [abs(z) for ls in c.forest.leaves for lf in ls for z in lf.val]) * len(c.forest.trees)
    ctx.call('check_is_explainer', a.acx.check_is_explainer)
    C = gen.groups(rng, c.m) if rng.random() < 0.4 else [[]]
    players, ref, tops = reference(c, a.X, C)
    got = ctx.call('ACXplainer.shap_values', a.acx.ACXplainer.shap_values, gen.arr(rng, a.X), gen.arr(rng, c.rows), C)
    compare(ctx, c, 'ACXplainer.shap_values', got, a.X, C, ref, players, tops)
    ctx.count('agnostic')


WORKLOADS = {'agnostic': agnostic, 'large': large_, 'large_cache': large_cache, 'hand': hand, 'trained': trained, 'groups': groups, 'cache': cache}
