"""Minimal sufficient explanations of tree ensembles."""
import collections
import numpy as np
from .. import gen, forest as F, search
from ..common import setup, npt
from .p07 import clf_setup, large_kw, PROBA, BINARY
from .p08 import reg_setup

EPS = 1e-6


def clf_value(c, **opts):
    """the same decision probability of a set of columns, as the search takes it: also the empty set by the estimator"""
    def for_sample(i):
        def value(S):
            v, ok = c.ref.sdp(c.X[i], c.xcls[i], S, ends=False, **opts)
            return (v, v == 0.0 and c.ref.nothing or c.grid and c.ref.exact(c.X[i], c.xcls[i], S, ends=False, **opts)) if ok else None
        return value
    return for_sample


def reg_value(c, cat):
    def for_sample(i):
        def value(S):
            v, ok = (c.ref.share if cat else c.ref.sdp)(c.X[i], c.fx[i], c.t, S)
            return (v, c.grid and not cat and c.ref.exact_sdp(c.X[i], c.fx[i], c.t, S)) if ok else None
        return value
    return for_sample


def level(rng, c, val):
    """a level: a usual one, or next to a probability that occurs"""
    if c.grid:                                    # exactly one that occurs
        z = [val(rng.randrange(len(c.X)))(gen.subset(rng, c.m, 1)) for _ in range(10)]
        z = [v[0] for v in z if v and v[1] and 0 < v[0] <= 1]
        if z:
            return rng.choice(z + [1.0])
    if rng.random() < 0.4:
        return rng.choice([0.5, 0.7, 0.8, 0.9, 0.95])
    z = [val(rng.randrange(len(c.X)))(gen.subset(rng, c.m, 1)) for _ in range(6)]
    z = [v[0] for v in z if v and 0.03 < v[0] < 0.97]
    return max(0.01, min(0.99, rng.choice(z) + rng.choice([-0.01, 0.01, 0.003]))) if z else rng.choice([0.6, 0.9])


def check(ctx, c, name, val, call, P, pi, minimal, stop, det):
    searches = [search.Search(P, val(i), pi, c.m, minimal, eps=max(EPS, 2 * c.tol), floor=0.0) for i in range(len(c.X))]
    refs = [s.minimal_search(stop) for s in searches]
    for s, r in zip(searches, refs):
        if s.on_level and r['ok']:
            ctx.count('on_level')
    got = call()
    ctx.count('impl:' + name)
    search.check_minimal(ctx, name, refs, [npt(z) for z in got], c.m, len(c.X),
                         dict(det, X=c.X, pi=pi, minimal=minimal, stop=stop, rows=c.srows, trees=c.forest.trees,
                              kind=c.kind), eps=c.tol)


def clf(ctx, rng, grouped=False, grid=False, big=False):
    if big:
        c = clf_setup(ctx, rng, **large_kw(ctx, rng, ['rows', 'rows', 'points', 'trees', 'leaves']))
    elif grid:
        c = clf_setup(ctx, rng, kinds=['dt_clf'], rows=gen.factorial(rng), depth=rng.choice([2, 3, 4]))
    else:
        c = clf_setup(ctx, rng, mmax=6, nmax=26, depth=rng.choice([2, 3]), n_trees=rng.choice([1, 2, 3]))
    c.grid = grid
    if len(c.X) > 3 and not big:
        c.X = c.X[:3]
        c.xcls = c.xcls[:3]
        c.Xa = gen.arr(rng, c.X)
    C = gen.groups(rng, c.m) if grouped and c.m > 1 else [[]]
    if C != [[]]:
        ctx.count('grouped')
    P = search.players(list(range(c.m)), C)
    minimal = rng.choice([1, 1, 1, 0, 2]) if len(P) > 2 else rng.choice([0, 1])
    stop = rng.random() < 0.5
    ctx.count('family:' + c.kind)
    det = {'C': C, 'classes': c.cls}
    val = clf_value(c)
    pi = level(rng, c, val)
    acv = c.acv
    check(ctx, c, 'importance_sdp_clf', val,
          lambda: ctx.call('importance_sdp_clf', acv.importance_sdp_clf, c.Xa, c.data, C, pi, minimal, stop),
          P, pi, minimal, stop, det)
    check(ctx, c, 'importance_sdp_clf_nopa', val,
          lambda: ctx.call('importance_sdp_clf_nopa', acv.importance_sdp_clf_nopa, c.Xa, c.data, C, pi, minimal),
          P, pi, minimal, True, det)
    # a subspace of the columns
    sp = gen.subset(rng, c.m, 1)
    PS = search.players(sp, C)
    mi = min(minimal, len(PS))
    check(ctx, c, 'importance_sdp_clf_search', val,
          lambda: ctx.call('importance_sdp_clf_search', acv.importance_sdp_clf_search, c.Xa, c.data, C, pi, mi, sp, stop),
          PS, pi, mi, stop, dict(det, search_space=sp))
    if rng.random() < 0.5 and not big:
        raw = clf_value(c, normalise=False)
        pr = level(rng, c, raw)
        check(ctx, c, 'importance_sdp_clf_ptrees', raw,
              lambda: ctx.call('importance_sdp_clf_ptrees', acv.importance_sdp_clf_ptrees, c.Xa, c.data, C, pr, minimal, stop),
              P, pr, minimal, False, det)
    ctx.sample({'model': c.kind, 'columns': c.m, 'rows': len(c.srows), 'C': C, 'level': pi, 'minimal': minimal,
                'stop': stop, 'x': c.X[0]})


def wide(ctx, rng):
    """more than ten columns: the ten columns that occur most often on the paths are searched"""
    c = wide_setup(ctx, rng)
    n = collections.Counter(f for ls in c.forest.leaves for lf in ls for f in lf.vars)
    order = [f for f, _ in n.most_common()]
    if len(order) > 10 and n[order[9]] == n[order[10]]:
        return
    sp = order[:10]
    ctx.count('restricted' if len(order) > 10 else 'few_used')
    C = gen.groups(rng, c.m) if rng.random() < 0.4 else [[]]
    val = clf_value(c)
    pi = level(rng, c, val)
    check(ctx, c, 'importance_sdp_clf', val,
          lambda: ctx.call('importance_sdp_clf', c.acv.importance_sdp_clf, c.Xa, c.data, C, pi, 1, True),
          search.players(sp, C), pi, 1, True, {'C': C, 'classes': c.cls, 'used': len(order)})


def wide_setup(ctx, rng):
    c = clf_setup(ctx, rng, kinds=['rf_clf', 'et_clf', 'gbt_clf', 'rf_multi'], m=rng.choice([11, 12, 12]), mmax=12,
                  n=rng.randint(20, 30), n_trees=rng.choice([3, 4]), depth=3, dkind=rng.choice(['cont', 'unif', 'int']))
    c.grid = False
    c.X, c.xcls = c.X[:2], c.xcls[:2]
    c.Xa = gen.arr(rng, c.X)
    return c


def many(ctx, rng):
    """so many columns that not all sets of columns can be listed"""
    cls = rng.random() < 0.5
    kw = dict(m=rng.choice([18, 19, 20]), mmax=20, n=rng.randint(5, 9), depth=1, n_trees=1, dkind=rng.choice(['cont', 'int']))
    if cls:
        c = clf_setup(ctx, rng, kinds=['dt_clf', 'rf_clf'], **kw)
        c.X, c.xcls = c.X[:1], c.xcls[:1]
        val, name = clf_value(c), 'importance_sdp_clf_nopa'
    else:
        c = reg_setup(ctx, rng, **kw)
        c.X, c.fx = c.X[:1], c.fx[:1]
        val, name = reg_value(c, False), 'importance_sdp_reg_nopa'
    c.Xa = gen.arr(rng, c.X)
    c.grid = False
    used = {f for ls in c.forest.leaves for lf in ls for f in lf.vars}
    memo = {}

    def value(i):
        def v(S):
            k = tuple(j for j in S if j in used)      # the others make no difference
            if k not in memo:
                memo[k] = val(i)(k)
            return memo[k]
        return v
    vs = [value(0)([j for j in used if rng.random() < 0.5]) for _ in range(4)]
    top = max([v[0] for v in vs + [value(0)(sorted(used))] if v] or [0])
    pi = min(1.0, max(0.05, top + rng.choice([0.02, 0.02, -0.02])))
    args = (c.Xa, c.data) if cls else (c.Xa, c.t, c.data)
    refs = [search.Search([(j,) for j in range(c.m)], value(0), pi, c.m, 1, eps=EPS, floor=0.0,
                          limit=2 ** 15).minimal_search(True)]
    got = ctx.call(name, getattr(c.acv, name), *args, [[]], pi, 1)
    ctx.count('many_columns')
    search.check_minimal(ctx, name, refs, [npt(z) for z in got], c.m, 1,
                         {'X': c.X, 'pi': pi, 'rows': c.srows, 'trees': c.forest.trees, 'kind': c.kind}, eps=1e-7)


def reg(ctx, rng, grouped=False, grid=False, big=False):
    if big:
        kw = large_kw(ctx, rng, ['rows', 'rows', 'points', 'trees', 'leaves'])
        c = reg_setup(ctx, rng, **dict(kw, n_trees=min(kw['n_trees'], 16)))
    elif grid:
        rows, y = gen.factorial(rng)
        a, b = rng.choice([(0.0, 1.0), (-1.0, 1.0), (2.0, 0.5)])
        c = reg_setup(ctx, rng, kind='dt_reg', rows=(rows, [b if z else a for z in y]), depth=rng.choice([2, 3, 4]))
    else:
        c = reg_setup(ctx, rng, mmax=5, nmax=22, depth=2)
    c.grid = grid
    if len(c.X) > 3 and not big:
        c.X, c.fx = c.X[:3], c.fx[:3]
        c.Xa = gen.arr(rng, c.X)
    C = gen.groups(rng, c.m) if grouped and c.m > 1 else [[]]
    if C != [[]]:
        ctx.count('grouped')
    P = search.players(list(range(c.m)), C)
    minimal = rng.choice([1, 1, 1, 0, 2]) if len(P) > 2 else rng.choice([0, 1])
    stop = rng.random() < 0.5
    ctx.count('family:' + c.kind)
    if len(c.forest.trees) > 1:
        ctx.count('several_trees')
    det = {'C': C, 't': c.t, 'fX': c.fx}
    for cat in (False, True):
        val = reg_value(c, cat)
        pi = level(rng, c, val)
        name = 'importance_sdp_reg' + ('_cat' if cat else '')
        check(ctx, c, name, val,
              lambda: ctx.call(name, getattr(c.acv, name), c.Xa, c.t, c.data, C, pi, minimal, stop), P, pi, minimal, stop, det)
        nopa = name + '_nopa'
        check(ctx, c, nopa, val,
              lambda: ctx.call(nopa, getattr(c.acv, nopa), c.Xa, c.t, c.data, C, pi, minimal), P, pi, minimal, True, det)
    ctx.sample({'model': c.kind, 'columns': c.m, 'rows': len(c.srows), 'C': C, 'level': pi, 'tolerance': c.t, 'x': c.X[0]})


WORKLOADS = {'large': lambda ctx, rng: rng.choice([clf, reg])(ctx, rng, rng.random() < 0.3, big=True), 'clf': clf, 'clf_groups': lambda ctx, rng: clf(ctx, rng, True), 'wide': wide, 'many': many, 'reg': reg,
             'reg_groups': lambda ctx, rng: reg(ctx, rng, True),
             'clf_grid': lambda ctx, rng: clf(ctx, rng, rng.random() < 0.4, True),
             'reg_grid': lambda ctx, rng: reg(ctx, rng, rng.random() < 0.4, True)}
