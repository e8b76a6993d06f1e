"""Axioms and invariances of the attributions and expectations, on models too large for enumeration over all columns."""
import numpy as np
from acv_explainers import ACVTree
from .. import gen, acxref as A, forest as F, meta
from ..common import npt, rounded, shape
from ..worker import Violation

TOL = 1e-9


class Problem:
    """everything a call needs, as plain lists"""

    def __init__(self, trees, rows, srows, X, S, C):
        self.trees, self.rows, self.srows, self.X, self.S, self.C = trees, rows, srows, X, S, C
        self.m = len(rows[0])

    def copy(self, **k):
        p = Problem(self.trees, self.rows, self.srows, self.X, self.S, self.C)
        for n, v in k.items():
            setattr(p, n, v)
        p.m = len(p.rows[0])
        return p


def build(rng, m, n, nt, depth, style, d=None):
    rows, kind = gen.data(rng, n, m)
    _, trees = gen.hand(rng, rows, n_trees=nt, depth=depth, style=style, d=d)
    return rows, trees


# ------------------------------------------------------------------ transformations: problem -> problem, map of results

def columns(rng, p):
    """the columns in another order, with columns that no tree uses put between them"""
    extra = rng.choice([0, 0, 1, 3])
    M = p.m + extra
    pos = rng.sample(range(M), p.m)           # the new place of every column
    fill = lambda: gen.q(rng.gauss(0, 1))

    def row(r):
        o = [fill() for _ in range(M)]
        for j, v in zip(pos, r):
            o[j] = v
        return o
    trees = [dict(t, feat=[pos[f] if l >= 0 else f for f, l in zip(t['feat'], t['left'])]) for t in p.trees]
    q = p.copy(trees=trees, rows=[row(r) for r in p.rows], srows=[row(r) for r in p.srows], X=[row(x) for x in p.X],
               S=[pos[j] for j in p.S], C=[[pos[j] for j in g] for g in p.C] if p.C != [[]] else [[]])

    def back(kind, v):
        if kind != 'shap':
            return v, None
        other = [j for j in range(M) if j not in pos]
        zero = max([abs(z) for x in v for j in other for z in x[j]] + [0.0])
        return [[x[j] for j in pos] for x in v], zero
    return q, back, ('shap', 'exp', 'sdp') if not extra else ('shap', 'exp', 'sdp')


def background(rng, p):
    """the rows of the background in another order, all of them twice"""
    k = rng.choice([1, 1, 2, 3])
    mix = lambda rows: rng.sample(rows * k, len(rows) * k)
    trees = [dict(t, w=[z * k for z in t['w']]) for t in p.trees]
    return p.copy(rows=mix(p.rows), srows=mix(p.srows), trees=trees), None, ('shap', 'exp', 'sdp', 'cat')


def recode(rng, p):
    """strictly increasing transformations of the columns"""
    maps = []
    for j in range(p.m):
        vals = sorted({r[j] for r in p.rows + p.srows + p.X} | {t['thr'][i] for t in p.trees for i in range(len(t['thr']))
                                                               if t['left'][i] >= 0 and t['feat'][i] == j})
        how = rng.choice(['rank', 'affine', 'gaps', 'same'])
        if how == 'rank':
            mp = {v: float(i) for i, v in enumerate(vals)}
        elif how == 'affine':
            a, b = rng.choice([0.5, 2.0, 4.0]), rng.choice([0.0, 1.0, -3.0])
            mp = {v: a * v + b for v in vals}
        elif how == 'gaps':
            z, mp = -50.0, {}
            for v in vals:
                mp[v] = z
                z += rng.choice([0.25, 1.0, 7.0])
        else:
            mp = {v: v for v in vals}
        maps.append(mp)
    row = lambda r: [maps[j][v] for j, v in enumerate(r)]
    trees = [dict(t, thr=[maps[f][v] if l >= 0 else v for f, v, l in zip(t['feat'], t['thr'], t['left'])]) for t in p.trees]
    return p.copy(trees=trees, rows=[row(r) for r in p.rows], srows=[row(r) for r in p.srows], X=[row(x) for x in p.X]), None, \
        ('shap', 'exp', 'sdp', 'cat')


def scale(rng, p):
    """the values of the leaves times a constant"""
    k = rng.choice([2.0, 0.5, -1.0, -4.0, 1024.0])
    trees = [dict(t, val=[[z * k for z in v] for v in t['val']]) for t in p.trees]

    def back(kind, v):
        return meta_scale(v, 1 / k), None
    return p.copy(trees=trees), back, ('shap', 'exp', 'cat')


def meta_scale(v, k):
    return [meta_scale(z, k) for z in v] if isinstance(v, list) else v * k


def order(rng, p):
    """the trees in another order; every tree as two of half its value"""
    trees = list(p.trees)
    kinds = ('shap', 'exp', 'sdp', 'cat')
    if rng.random() < 0.5:
        trees = [dict(t, val=[[z / 2 for z in v] for v in t['val']]) for t in trees for _ in range(2)]
        kinds = ('shap', 'exp', 'cat')
    rng.shuffle(trees)
    return p.copy(trees=trees), None, kinds


def outputs(rng, p):
    """the outputs in another order"""
    d = len(p.trees[0]['val'][0])
    o = rng.sample(range(d), d)
    trees = [dict(t, val=[[v[k] for k in o] for v in t['val']]) for t in p.trees]

    def back(kind, v):
        inv = [o.index(k) for k in range(d)]
        return ([[[z[k] for k in inv] for z in x] for x in v] if kind == 'shap' else [[x[k] for k in inv] for x in v]), None
    return p.copy(trees=trees), back, ('shap', 'exp', 'cat')


def numbering(rng, p):
    """the nodes of the trees numbered level by level or depth first from the right"""
    out = []
    for t in p.trees:
        ids, todo, way = [], [0], rng.random() < 0.5
        while todo:
            i = todo.pop(0) if way else todo.pop()
            ids.append(i)
            if t['left'][i] >= 0:
                todo += [t['left'][i], t['right'][i]]
        new = {o: k for k, o in enumerate(ids)}
        out.append({'left': [new.get(t['left'][o], -1) for o in ids], 'right': [new.get(t['right'][o], -1) for o in ids],
                    'feat': [t['feat'][o] for o in ids], 'thr': [t['thr'][o] for o in ids],
                    'val': [t['val'][o] for o in ids], 'w': [t['w'][o] for o in ids]})
    return p.copy(trees=out), None, ('shap', 'exp', 'sdp', 'cat')


WAYS = {'columns': columns, 'background': background, 'recode': recode, 'scale': scale, 'order': order, 'outputs': outputs,
        'numbering': numbering}

# function -> (what its result is, arguments)
FUNCS = {
    'shap_values': ('shap', lambda p, X, S, D: (X, p.C)), 'shap_values_nopa': ('shap', lambda p, X, S, D: (X, p.C)),
    'shap_values_normalized': ('shap', lambda p, X, S, D: (X, p.C)),
    'shap_values_acv': ('shap', lambda p, X, S, D: (X, S, None, p.C)),
    'compute_exp': ('exp', lambda p, X, S, D: (X, S, D)), 'compute_exp_nopa': ('exp', lambda p, X, S, D: (X, S, D)),
    'compute_exp_normalized': ('exp', lambda p, X, S, D: (X, S, D)), 'compute_exp_cat': ('cat', lambda p, X, S, D: (X, S, D)),
    'compute_sdp_reg': ('sdp', lambda p, X, S, D: (X, None, S, D)),
}


def run(ctx, p, name, t):
    trees = p.trees
    acv = ctx.call('ACVTree', ACVTree, gen.to_model(trees), np.array(p.rows))
    S = np.array(p.S, dtype=np.int64)
    a = list(FUNCS[name][1](p, np.array(p.X), S, np.array(p.srows)))
    if name == 'compute_sdp_reg':
        a[1] = t
    if name == 'shap_values_acv':
        # players: columns; those of S are active
        a = [a[0], S, np.array([j for j in range(p.m) if j not in p.S], dtype=np.int64), [[]]]
    return npt(ctx.call(name, getattr(acv, name), *a))


def invariance(ctx, rng):
    name = rng.choice(sorted(FUNCS))
    kind = FUNCS[name][0]
    small = name in ('shap_values_normalized', 'compute_sdp_reg')
    m = rng.randint(3, 6 if small else 14)
    rows, trees = build(rng, m, rng.randint(10, 60), rng.randint(1, 3 if small else 6), rng.randint(2, 4 if small else 6),
                        'reg' if kind == 'sdp' else rng.choice(['reg', 'proba']), 1 if kind == 'sdp' else None)
    srows = rows if rng.random() < 0.5 else [rng.choice(rows) for _ in range(rng.randint(3, 60))]
    forest = F.Forest(trees, m)
    X = gen.f32(gen.points(rng, rows, rng.randint(1, 4), forest.thresholds))
    S = gen.subset(rng, m, 1, m - 1)
    p = Problem(trees, rows, srows, X, S, gen.groups(rng, m) if rng.random() < 0.4 else [[]])
    t = None
    sdp = None
    if kind == 'sdp':
        sdp = F.SdpReg(F.Game(forest, srows))
        ds = sorted({round((forest.predict(x)[0] - b) ** 2, 9) for x in X for b in sdp.out})
        if len(ds) < 2:
            return
        k = rng.randrange(len(ds) - 1)
        t = (ds[k] + ds[k + 1]) / 2
    base = run(ctx, p, name, t)
    sc = max([1.0] + [abs(z) for tr in trees for v in tr['val'] for z in v]) * len(trees)
    for way in rng.sample(sorted(WAYS), 3):
        q, back, kinds = WAYS[way](rng, p)
        if kind not in kinds and not (kind == 'cat' and way == 'columns' and q.m == p.m):
            continue
        got = run(ctx, q, name, t)
        zero = None
        if back:
            got, zero = back('shap' if kind == 'shap' else 'exp', got) if way != 'columns' else back(kind, got)
        ctx.count('way:' + way)
        ctx.observed('invariance', (name, way, meta.signature(base)) if any(abs(z) > 1e-9 for z in F.flat(base)) else None)
        det = {'trees': p.trees, 'rows': p.rows, 'sample': p.srows, 'X': p.X, 'S': p.S, 'C': p.C, 'before': base, 'after': got}
        if zero is not None and zero > TOL * sc:
            ctx.fail('unused:' + name, '%s: a column that no tree uses gets %g' % (name, zero), det)
            return
        if kind == 'sdp':
            bad = [i for i in range(len(X)) if not abs(base[i] - got[i]) <= 1e-6 * max(1.0, abs(base[i]))]
            for i in bad:
                if sdp.sdp(X[i], forest.predict(X[i])[0], t, S)[1] and sdp.sdp(X[i], forest.predict(X[i])[0], t, S, clip=True)[1]:
                    ctx.fail('%s:%s' % (way, name), '%s changes from %r to %r with: %s' % (name, base[i], got[i], WAYS[way].__doc__), det)
                    return
            continue
        dlt = F.maxdiff(base, got)
        if not dlt <= TOL * sc:
            ctx.fail('%s:%s' % (way, name), '%s changes by %g with: %s' % (name, dlt, WAYS[way].__doc__), det)
            return
    ctx.sample({'function': name, 'columns': m, 'rows': len(rows), 'trees': len(trees), 'result': base[0]})


def axioms(ctx, rng):
    """a large ensemble: local accuracy, unused columns, additivity over the trees, one group of everything"""
    kind = rng.choice(['hand', 'hand', 'rf_reg', 'rf_clf', 'gbt_reg', 'xgb_reg', 'rf_multi'])
    m = rng.choice([8, 12, 20, 30])
    n = rng.randint(30, 150) if rng.random() < 0.85 else rng.choice([257, 515, 1030])
    rows, _ = gen.data(rng, n, m)
    if kind == 'hand':
        model, trees = gen.hand(rng, rows, n_trees=rng.randint(3, 15), depth=7)
        forest = F.Forest(trees, m)
    else:
        model, kind, _ = gen.trained(rng, rows, kind=kind, n_trees=rng.randint(3, 15), depth=rng.randint(3, 7))
        forest = F.from_sklearn(model, kind, m)
        trees = None
    rows32 = gen.f32(rows)
    acv = ctx.call('ACVTree', ACVTree, model, np.array(rows))
    X = gen.f32(gen.points(rng, rows, rng.randint(1, 3), forest.thresholds))
    d = forest.d
    mean = [sum(z) / n for z in zip(*[forest.predict(r) for r in rows32])]
    used = {f for ls in forest.leaves for lf in ls for f in lf.box}
    C = gen.groups(rng, m) if rng.random() < 0.5 else [[]]
    if rng.random() < 0.2:
        C = [rng.sample(range(m), m)]
    P = gen.members(m, C)
    sc = max([1.0] + [abs(z) for ls in forest.leaves for lf in ls for z in lf.val]) * len(forest.trees)
    tol = (1e-5 if kind.startswith('xgb') else TOL) * sc
    masks = [[(lf, F.mask_of([lf.has(r) for r in rows32])) for lf in ls] for ls in forest.leaves]
    for name in ['shap_values', 'shap_values_nopa']:
        got = ctx.call(name, getattr(acv, name), np.array(X), C)
        if shape(got) != (len(X), m, d):
            ctx.fail('shape:' + name, '%s returned shape %s' % (name, shape(got)))
            return
        got = npt(got)
        for i, x in enumerate(X):
            # a leaf that holds no row of the background has no probability
            out = [0.0] * d
            for ls in masks:
                for lf, k in ls:
                    if k and lf.has(x):
                        for j in range(d):
                            out[j] += lf.val[j]
            ctx.observed('accuracy', (name, meta.signature(got[i])) if sum(any(abs(z) > 1e-9 for z in v) for v in got[i]) > 1 else None)
            for k in range(d):
                s = sum(got[i][p[0]][k] for p in P)
                if not abs(s - (out[k] - mean[k])) <= tol:
                    ctx.fail('accuracy:' + name, '%s: the attributions add up to %r, not to %r' % (name, s, out[k] - mean[k]),
                             {'x': x, 'C': C, 'kind': kind, 'model': meta.signature(rows)})
                    return
            for p in P:
                if not set(p) & used and any(abs(got[i][j][k]) > tol for j in p for k in range(d)):
                    ctx.fail('unused:' + name, '%s: a player that no tree uses gets %s' % (name, [got[i][j] for j in p]),
                             {'x': x, 'player': p})
                    return
                if any(got[i][j] != got[i][p[0]] for j in p):
                    ctx.fail('group:' + name, '%s: the columns of a group get different values' % name, {'x': x, 'player': p})
                    return
    if trees is not None and len(trees) <= 8:
        tot = [[[0.0] * d for _ in range(m)] for _ in X]
        for t in trees:
            one = ctx.call('ACVTree', ACVTree, gen.to_model([t]), np.array(rows))
            v = npt(ctx.call('shap_values', one.shap_values, np.array(X), C))
            tot = [[[a + b for a, b in zip(p, q)] for p, q in zip(r, s)] for r, s in zip(tot, v)]
        ctx.observed('additivity', meta.signature(tot))
        dlt = F.maxdiff(tot, got)
        if not dlt <= TOL * sc:
            ctx.fail('additivity', 'the attributions of the trees do not add up to those of the ensemble (by %g)' % dlt,
                     {'X': X, 'C': C, 'trees': trees, 'rows': rows})
    ctx.sample({'model': kind, 'columns': m, 'rows': n, 'trees': len(forest.trees), 'groups': C})


def acx(ctx, rng):
    """the consistent estimator: order and repetition of the background rows"""
    c = A.setup(ctx, rng, mmax=8, n=rng.randint(30, 120), trees=rng.choice([2, 5, 10]), depth=rng.choice([3, 6]))
    k = rng.choice([1, 1, 2, 3])
    idx = list(range(c.n)) * k
    rng.shuffle(idx)
    data, yd = np.array(c.rows)[idx], np.array(c.y)[idx]
    kw = dict(min_node_size=c.minsize, t=np.array(c.tt) if not c.clf else None)
    kw2 = dict(kw, min_node_size=c.minsize * k)
    N = len(c.X)
    lo, hi = np.array([y - 0.5 for y in c.yx]), np.array([y + 0.5 for y in c.yx])
    calls = [('compute_sdp_rf', 0, 0), ('compute_ddp_rf', 0, 0), ('compute_exp_rf', 0, 0), ('compute_cdp_rf', 1, 0),
             ('compute_sdp_rule', 0, 0), ('compute_ddp_weights', 0, 1)]
    for name, bounds, weights in rng.sample(calls, 3):
        q = (c.Xa, c.ya) + ((lo, hi) if bounds else ())
        a = ctx.call(name, getattr(c.acx, name), *q, c.data, c.ydata, c.S, **kw)
        b = ctx.call(name, getattr(c.acx, name), *q, data, yd, c.S, **kw2)
        if weights:
            w = npt(b[1])
            b = (b[0], [[sum(w[i][p] for p in range(len(idx)) if idx[p] == r) for r in range(c.n)] for i in range(N)])
            a = (a[0], npt(a[1]))
        ctx.count('way:acx')
        ctx.observed('acx', (name, meta.signature(a)) if not meta.trivial(a) else None)
        dlt = F.maxdiff([npt(z) for z in a] if isinstance(a, tuple) else npt(a), [npt(z) for z in b] if isinstance(b, tuple) else npt(b))
        if not dlt <= TOL * max(1.0, max(abs(v) for v in c.y)):
            ctx.fail('rows:' + name, '%s changes by %g when the background rows come in another order, %d times each' % (name, dlt, k),
                     {'X': c.X, 'y': c.yx, 'S': c.S, 'min_node_size': c.minsize})
            return


WORKLOADS = {'invariance': invariance, 'axioms': axioms, 'acx': acx}
