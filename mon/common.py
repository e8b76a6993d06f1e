"""helpers shared by the tree workloads"""
import numpy as np
from acv_explainers import ACVTree
from . import gen, forest as F


class Case:
    pass


def setup(ctx, rng, kind='hand', m=None, n=None, mmax=7, nmax=40, cache=False, C=None, n_trees=None, depth=None,
          d=None, style=None, multi_threads=True, dkind=None, rows=None, trees=None, **kw):
    c = Case()
    c.m = m or rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7][:max(1, mmax + 3)])
    c.m = min(c.m, mmax)
    c.n = n or rng.randint(4, nmax)
    y = None
    if rows is not None:
        c.rows, y = rows
        c.m, c.n, c.dkind = len(c.rows[0]), len(c.rows), 'given'
    else:
        c.rows, c.dkind = gen.data(rng, c.n, c.m, dkind)
    c.kind = kind
    if kind == 'hand':
        if trees is None:
            c.model, trees = gen.hand(rng, c.rows, n_trees=n_trees, depth=depth, d=d, style=style)
        else:
            c.model = gen.to_model(trees)
        c.forest = F.Forest(trees, c.m)
        c.y = None
    else:
        c.model, c.kind, c.y = gen.trained(rng, c.rows, kind=None if kind == 'trained' else kind, n_trees=n_trees,
                                           depth=depth, y=y)
        c.forest = F.from_sklearn(c.model, c.kind, c.m)
    c.C = C
    if C == 'random':
        c.C = gen.groups(rng, c.m)
    kw = dict(kw)
    if cache or kw.get('cache_normalized'):
        kw.update(cache=cache, multi_threads=multi_threads)
        if c.C:
            kw['C'] = c.C
    c.bg = gen.arr(rng, c.rows)
    c.acv = ctx.call('ACVTree', ACVTree, c.model, c.bg, **kw)
    c.game = F.Game(c.forest, c.rows)
    c.scale = max([1.0] + [abs(z) for ls in c.forest.leaves for lf in ls for z in lf.val]) * len(c.forest.trees)
    return c


def large(ctx, rng, kinds=gen.LARGE, d=None, style=None, **kw):
    """a hand-made problem of which one dimension is large, its points and its groups"""
    what, z, rows, trees = gen.large_hand(rng, kinds, d, style)
    ctx.count('large')
    ctx.count('large:' + what)
    c = setup(ctx, rng, kind='hand', rows=(rows, None), trees=trees, **kw)
    c.what = what
    c.X = gen.f32(gen.points(rng, rows, z['nx'], c.forest.thresholds))
    c.G = z['C']
    return c


def npt(a):
    """numpy -> nested Python lists (fast access)"""
    return np.asarray(a).tolist()


def rounded(a, k=6):
    return tuple(round(z, k) + 0.0 for z in F.flat(a))


def shape(a):
    return tuple(np.asarray(a).shape)
