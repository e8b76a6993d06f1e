"""Minimal sufficient / divergent / counterfactual explanations of the consistent estimator."""
import numpy as np
from .. import gen, acxref as A, search
from ..common import npt


def level(rng, c, refs):
    """a probability level: usual ones, or one of the values that occur"""
    if getattr(c, 'grid', False):                 # exactly one that occurs
        z = [refs(rng.randrange(len(c.X)))(gen.subset(rng, c.m, 0)) for _ in range(8)]
        z = [v for v, exact in z if exact and v > 0]
        if z:
            return rng.choice(z)
    if rng.random() < 0.5:
        return rng.choice([0.5, 0.7, 0.8, 0.9, 0.95, 0.99])
    i = rng.randrange(len(c.X))
    v = [refs(i)(gen.subset(rng, c.m, 0))[0] for _ in range(3)]
    v = [z for z in v if 0.05 < z < 0.999] or [0.75]
    return rng.choice([v[0], min(0.999, v[0] + 0.01), max(0.01, v[0] - 0.01)])


def make_value(c, kind, lo=None, hi=None, boxes=None):
    pf = c.pf

    def for_sample(i):
        if kind == 'sdp':
            val, comp = pf.same(c.yx[i], c.tt[i], c.clf), False
        elif kind in ('ddp', 'ddp_intv'):
            val, comp = pf.differ(c.yx[i], c.tt[i], c.clf), True
        elif kind == 'cdp':
            val, comp = pf.within(c.yx[i], lo[i], hi[i], c.clf), True
        else:
            val, comp = (pf.differ if c.clf else pf.same)(c.yx[i], c.tt[i], c.clf), True

        def value(S):
            if boxes is not None:
                side = pf.side_intv(S, boxes[i])
            else:
                side = pf.side_x(c.X[i], [j for j in range(c.m) if j not in S] if comp else S)
            v = pf.mean(side, c.minsize, val)
            return v, pf.dyadic
        return value
    return for_sample


def body(ctx, rng, kinds, minimal=None, stop=None, **kw):
    c = A.setup(ctx, rng, **dict(dict(nmax=40, grid=not kw and rng.random() < 0.2), **kw))
    N = range(len(c.X))
    C = gen.groups(rng, c.m) if rng.random() < 0.4 and c.m > 1 else [[]]
    sp = list(range(c.m))
    if c.m > 10:
        imp = [float(z) for z in c.acx.model.feature_importances_]
        order = sorted(range(c.m), key=lambda j: -imp[j])
        if imp[order[9]] - imp[order[10]] < 1e-12:
            return
        sp = order[:10]
        ctx.count('restricted')
    lo = [gen.q(y - rng.uniform(0, 1)) for y in c.yx]
    hi = [l + rng.choice([0.25, 1.0, 2.0]) for l in lo]
    boxes = []
    for i in N:
        b = A.box0(c.m)
        for f in range(c.m):
            if rng.random() < 0.6:
                b[f] = sorted(rng.choice([r[f] for r in c.rows] + [t for g, t in c.pf.thresholds if g == f])
                              for _ in range(2))
        boxes.append(b)
    if minimal is None:
        minimal = rng.choice([1, 1, 1, 1, 2, 0]) if c.m > 2 else 1
    stop = rng.random() < 0.5 if stop is None else stop
    for kind in kinds:
        val = make_value(c, kind, lo, hi, boxes if 'intv' in kind else None)
        pi = level(rng, c, val)
        P = search.players(sp, C)
        if minimal > len(P):
            continue
        searches = [search.Search(P, val(i), pi, c.m, minimal) for i in N]
        refs = [s.minimal_search(stop) for s in searches]
        if any(s.on_level for s in searches):
            ctx.count('on_level')
        kw = dict(min_node_size=c.minsize, t=c.t, C=C, pi_level=pi, minimal=minimal, stop=stop)
        name = {'sdp': 'importance_sdp_rf', 'ddp': 'importance_ddp_rf', 'cdp': 'importance_cdp_rf',
                'ddp_intv': 'importance_ddp_intv', 'cdp_intv': 'importance_cdp_intv'}[kind]
        f = getattr(c.acx, name)
        if kind == 'cdp':
            args = (c.Xa, c.ya, np.array(lo), np.array(hi), c.data, c.ydata)
        elif 'intv' in kind:
            args = (c.Xa, c.ya, c.data, c.ydata, np.array(boxes))
        else:
            args = (c.Xa, c.ya, c.data, c.ydata)
        got = ctx.call(name, f, *args, **kw)
        ctx.count('impl:' + name)
        search.check_minimal(ctx, name, refs, [npt(z) for z in got], c.m, len(c.X),
                             {'X': c.X, 'y': c.yx, 'C': C, 'pi': pi, 'minimal': minimal, 'stop': stop,
                              'min_node_size': c.minsize, 'classifier': c.clf, 't': c.tt})
    ctx.sample({'columns': c.m, 'rows': c.n, 'trees': len(c.pf.trees), 'groups': C, 'level': pi, 'stop': stop,
                'minimal': minimal, 'x': c.X[0]})


def first_value(c, d2):
    same = lambda i, y: y == c.yx[i] if c.clf else (y - c.yx[i]) ** 2 <= d2

    def for_sample(i):
        def value(S):
            w = c.pf.cell_weights(c.pf.side_x(c.X[i], S), c.minsize, False)
            return sum(p for p, y in zip(w, c.y) if same(i, y)), False
        return value
    return for_sample


def loaded(ctx, rng, **kw):
    """the search on the trees of a loaded model"""
    c = A.loaded(ctx, rng, **dict(dict(nmax=40), **kw))
    sp = A.space(c) if c else None
    if sp is None:
        return
    if c.m > 10:
        ctx.count('restricted_loaded')
    C = gen.groups(rng, c.m) if rng.random() < 0.4 else [[]]
    minimal = rng.choice([1, 1, 1, 1, 2, 0]) if c.m > 2 else 1
    stop = rng.random() < 0.5
    first = type(c.acx).__name__ == 'ACVTreeAgnostic' and rng.random() < 0.4
    d2 = rng.choice([0.0, 0.25, 1.0])          # the first version: a squared distance as tolerance
    val = first_value(c, d2) if first else make_value(c, 'sdp')
    pi = level(rng, c, val)
    if c.m > 10:
        minimal = 1
    P = search.players(sp, C)
    if minimal > len(P):
        return
    refs = [search.Search(P, val(i), pi, c.m, minimal).minimal_search(stop) for i in range(len(c.X))]
    fn = 'importance_sdp_rf_v0' if first else 'importance_sdp_rf'
    name = '%s.%s' % (type(c.acx).__name__, fn)
    got = ctx.call(fn, getattr(c.acx, fn), c.Xa, c.ya, c.data, c.ydata, min_node_size=c.minsize,
                   classifier=int(c.clf), t=d2 if first else c.t, C=C, pi_level=pi, minimal=minimal, stop=stop)
    ctx.count('first_version' if first else 'loaded')
    search.check_minimal(ctx, name, refs, [npt(z) for z in got], c.m, len(c.X),
                         {'X': c.X, 'y': c.yx, 'C': C, 'pi': pi, 'minimal': minimal, 'stop': stop,
                          'min_node_size': c.minsize, 'classifier': c.clf, 't': c.tt})
    ctx.sample({'columns': c.m, 'rows': c.n, 'trees': len(c.pf.trees), 'groups': C, 'level': pi, 'x': c.X[0]})


def sdp(ctx, rng):
    body(ctx, rng, ['sdp'])


def divergent(ctx, rng):
    body(ctx, rng, rng.sample(['ddp', 'cdp', 'ddp_intv', 'cdp_intv'], 2))


def wide(ctx, rng):
    """more than ten columns: the search is restricted to the ten most important ones"""
    body(ctx, rng, ['sdp', 'ddp'] if rng.random() < 0.5 else ['sdp'], m=rng.choice([11, 11, 12]), n=rng.randint(25, 40),
         trees=rng.choice([6, 8]), depth=5, dkind=rng.choice(['cont', 'unif']), minimal=1, stop=True)


def loaded_wide(ctx, rng):
    loaded(ctx, rng, m=rng.choice([11, 12]), n=rng.randint(25, 40), nx=2, trees=rng.choice([4, 6]), depth=5)


def large(ctx, rng):
    kw = A.large_kw(ctx, rng, ('rows', 'rows', 'points', 'trees', 'deep'))
    if rng.random() < 0.3:
        loaded(ctx, rng, **kw)
    else:
        body(ctx, rng, rng.sample(['sdp', 'sdp', 'ddp', 'cdp'], 2), **kw)


WORKLOADS = {'large': large, 'loaded_wide': loaded_wide, 'loaded': loaded, 'sdp': sdp, 'divergent': divergent, 'wide': wide}
