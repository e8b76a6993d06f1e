"""Marginal same decision probabilities of arbitrary models and the explanations searched with them."""
import collections
import numpy as np
from acv_explainers import ACVTree, ACXplainer
from acv_explainers.acv_tree import ACVTreeAgnostic
from .. import gen, search, forest as F
from ..common import npt, shape
from .p09 import level as _level

LABELS = ['no', 'yes', 'maybe']


class Model:
    """an arbitrary model: a function of a row; keeps what it was asked"""

    def __init__(self, rng, m, clf, labels):
        self.f = [rng.choice([-1, -0.5, 0, 0.5, 1, 2]) for _ in range(m)]
        self.pair = (rng.randrange(m), rng.randrange(m))
        self.cut = rng.choice([-0.5, 0.0, 0.25, 1.0])
        self.clf, self.labels = clf, labels
        self.exact = False
        self.asked = []

    def one(self, r):
        s = sum(a * z for a, z in zip(self.f, r)) + (r[self.pair[0]] * r[self.pair[1]] > 0)
        if not self.clf:
            return s
        k = 0 if s <= self.cut else 1 if s <= self.cut + 1 else 2
        return LABELS[k] if self.labels else k

    def predict(self, X):
        rows = np.asarray(X).tolist()
        self.asked.append(rows)
        return np.array([self.one(r) for r in rows])


def reference(model, x, rows, S, t=None):
    """None where rounding decides; on data in quarters every difference is exact, also one equal to the tolerance"""
    S = set(S)
    if len(S) == len(x):
        return 1.0, True
    fx = model.one(x)
    n, sure = 0, True
    for r in rows:
        y = model.one([x[j] if j in S else z for j, z in enumerate(r)])
        if t is None:
            n += y == fx
        else:
            d = abs(y - fx)
            n += d <= t
            sure = sure and (model.exact or abs(d - t) > 1e-9)
    return (n / len(rows), True) if sure else None


def asked_right(ctx, name, model, X, rows):
    """every row of every question is a background row of which some columns (maybe none, maybe all) have the values of
    one of the points; how the rows are put into questions is the business of the explainer"""
    m, cnt = len(X[0]), 0
    near = X[:3] + X[-3:]

    def mixture(a, pts, bg):
        return any(all(v == z or v == w for v, z, w in zip(a, x, r)) for r in bg for x in pts)
    for q in model.asked:
        for k in {0, len(q) - 1, len(q) // 2, 3 * len(q) // 4, len(q) // 7} if q else ():
            a = q[k]
            cnt += 1
            if len(a) == m and (len(q) == len(rows) and mixture(a, near, rows[k:k + 1]) or mixture(a, X, rows)):
                continue
            ctx.fail('asked:' + name, '%s asked the model about rows that are no mixtures of a point and the background' % name,
                     {'asked': a, 'rows': rows[:3], 'X': X})
            return
    ctx.count('asked', cnt)


def build(ctx, rng, clf, wide=False, big=False):
    m = rng.choice([16, 17, 19]) if wide else rng.randint(1, 6)
    n = rng.randint(4, 10) if wide else rng.randint(4, 40)
    nx = rng.randint(1, 2 if wide else 5)
    if big:
        what, z = gen.large(rng, ['rows', 'rows', 'many_rows', 'points'])
        ctx.count('large')
        m, n, nx = z['m'], z['n'], z['nx']
    rows, kind = gen.data(rng, n, m)
    exact = not clf and rng.random() < 0.5
    if exact:
        rows = [[round(v * 4) / 4 if abs(v) < 1e6 else 3.25 for v in r] for r in rows]
    X = gen.points(rng, rows, nx)
    if exact:
        X = [[round(v * 4) / 4 if abs(v) < 1e6 else -2.75 for v in x] for x in X]
    model = Model(rng, m, clf, rng.random() < 0.5)
    model.exact = exact
    return m, rows, X, model


def path_order(leaves):
    """columns by the number of paths they are on"""
    n = collections.Counter(f for ls in leaves for lf in ls for f in lf.vars)
    return [f for f, _ in n.most_common()], n


def clear_order(forest):
    order, n = path_order(forest.leaves)
    return len(order) > 15 and n[order[14]] != n[order[15]]


def explainer(ctx, rng, rows, model, need_tree):
    """whoever offers the analysis: the explainer of trees with its own or a given model, the agnostic ones"""
    if need_tree or rng.random() < 0.4:
        for _ in range(40):
            tree, trees = gen.hand(rng, rows, n_trees=rng.choice([8, 12, 16]) if need_tree else 2, depth=3, d=2)
            if not need_tree or clear_order(F.Forest(trees, len(rows[0]))):
                break
        acv = ctx.call('ACVTree', ACVTree, tree, gen.arr(rng, rows))
        acv.leaves = F.Forest(trees, len(rows[0])).leaves
        if rng.random() < 0.5:
            acv.model = model
            return acv, None, 'own'
        return acv, model, 'tree'
    return rng.choice([ACVTreeAgnostic, ACXplainer]), model, 'agnostic'


def probs(ctx, rng, big=False):
    clf = rng.random() < 0.5
    m, rows, X, model = build(ctx, rng, clf, False, big)
    ex, mod, who = explainer(ctx, rng, rows, model, False)
    Xa, data = gen.arr(rng, X), gen.arr(rng, rows)
    t = tolerance(ctx, rng, model, X, rows)
    for _ in range(1 if big else 3):
        S = gen.subset(rng, m, 0, m)
        Sa = np.array(S, dtype=np.int64) if rng.random() < 0.7 else list(S)
        model.asked = []
        if clf:
            name = 'compute_msdp_clf'
            got = ctx.call(name, ex.compute_msdp_clf, Xa, Sa, data, model=mod)
        else:
            name = 'compute_msdp_reg'
            got = ctx.call(name, ex.compute_msdp_reg, Xa, Sa, data, model=mod, threshold=t)
        ctx.count('who:' + who)
        asked_right(ctx, name, model, X, rows)
        if shape(got) != (len(X),):
            ctx.fail('shape:' + name, '%s returned shape %s' % (name, shape(got)))
            continue
        for i, v in enumerate(npt(got)):
            r = reference(model, X[i], rows, S, t)
            if r is None:
                ctx.count('undecidable')
                continue
            ctx.observed('msdp', (name, len(rows), r[0]) if 0 < r[0] < 1 else None)
            if abs(v - r[0]) > 1e-12:
                ctx.fail('msdp:' + name, '%s gives %r, the share of rows that keep the decision is %r' % (name, v, r[0]),
                         {'S': S, 'x': X[i], 'rows': rows, 't': t, 'who': who})
                return
    ctx.sample({'columns': m, 'rows': len(rows), 'S': S, 'x': X[0], 'threshold': t, 'value': npt(got)[0]})


def tolerance(ctx, rng, model, X, rows):
    if model.clf:
        return None
    if model.exact and rng.random() < 0.8:           # a tolerance that a difference of two outputs is equal to
        m = len(X[0])
        for _ in range(10):
            x, r, S = rng.choice(X), rng.choice(rows), gen.subset(rng, m, 0)
            d = abs(model.one(x) - model.one([x[j] if j in S else z for j, z in enumerate(r)]))
            if d:
                ctx.count('on_tolerance')
                return d
    return rng.choice([0.2, 0.5, 1.1, 3.3])


class _C:
    grid = False


def searches(ctx, rng, wide=False, big=False):
    clf = rng.random() < 0.5
    m, rows, X, model = build(ctx, rng, clf, wide, big)
    ex, mod, who = explainer(ctx, rng, rows, model, wide)
    Xa, data = gen.arr(rng, X), gen.arr(rng, rows)
    C = gen.groups(rng, m) if m > 1 and rng.random() < 0.4 and not wide else [[]]
    t = tolerance(ctx, rng, model, X, rows)
    stop = rng.random() < 0.5 or wide
    c = _C()
    c.X, c.m = X, m

    def val(i):
        def value(S):
            r = reference(model, X[i], rows, S, t)
            return None if r is None else (r[0], True)   # counts: no rounding
        return value
    pi = _level(rng, c, val)
    if rng.random() < 0.3:
        z = val(0)(gen.subset(rng, m, 1))
        pi = z[0] if z and z[0] > 0.02 else pi       # a level that is reached exactly
    if wide:
        order, flat = path_order(ex.leaves)
        if len(order) > 15 and flat[order[14]] == flat[order[15]]:
            return
        sp = order[:15]
        space = None
        ctx.count('restricted' if len(order) > 15 else 'few_used')
    else:
        space = gen.subset(rng, m, 1) if rng.random() < 0.4 else None
        sp = list(range(m)) if space is None else space
    P = search.players(sp, C)
    minimal = rng.choice([1, 1, 0, 2]) if len(P) > 2 and not wide else 1
    kw = dict(model=mod, C=C, pi_level=pi, minimal=minimal, stop=stop)
    if not clf:
        kw['threshold'] = t
    direct = wide or (who in ('own', 'tree') and space is None and rng.random() < 0.5)
    if direct:
        name = 'importance_msdp_clf' if clf else 'importance_msdp_reg'
    else:
        name = 'importance_msdp_clf_search' if clf else 'importance_msdp_reg_search'
        kw['r_search_space'] = space
    refs = [search.Search(P, val(i), pi, m, minimal, floor=0.0, half=1).minimal_search(stop) for i in range(len(X))]
    model.asked = []
    if minimal > len(P):
        return
    before = None if space is None else list(space)
    got = ctx.call(name, getattr(ex, name), Xa, data, **kw)
    ctx.count('impl:' + name)
    if space != before:
        ctx.fail('space', '%s changed the list of columns to search' % name, {'before': before, 'after': space})
    asked_right(ctx, name, model, X, rows)
    search.check_minimal(ctx, name, refs, [npt(z) for z in got], m, len(X),
                         {'C': C, 'pi': pi, 'minimal': minimal, 'stop': stop, 'space': space, 'X': X, 'rows': rows, 't': t,
                          'who': who})
    ctx.sample({'columns': m, 'rows': len(rows), 'C': C, 'level': pi, 'space': space, 'x': X[0]})


WORKLOADS = {'large': lambda ctx, rng: rng.choice([probs, searches])(ctx, rng, big=True), 'probs': probs, 'search': searches, 'wide': lambda ctx, rng: searches(ctx, rng, True)}
