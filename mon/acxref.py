"""Reference for the consistent estimator: the ranger forest read straight from the fitted model, the
projected descent on it, and the explanations defined by enumeration over it."""
import itertools
import numpy as np
from acv_explainers import ACXplainer, ACVTree, ACVTreeAgnostic
from . import gen, forest as F

BIG = 1e10


class PForest:
    def __init__(self, model, rows, ydata, trees=None):
        self.trees = trees or []
        f = model.ranger_forest_['forest'] if trees is None else {'child_node_ids': (), 'split_var_ids': (), 'split_values': ()}
        for ch, sv, th in zip(f['child_node_ids'], f['split_var_ids'], f['split_values']):
            left, right = list(ch[0]), list(ch[1])
            self.trees.append(([l if l else -1 for l in left], [r if r else -1 for r in right],
                               [int(v) if l else -2 for v, l in zip(sv, left)], [float(t) for t in th]))
        self.depth = max(self._depth(t) for t in self.trees)
        self.splits = sorted({(t[2][i], t[3][i]) for t in self.trees for i in range(len(t[0])) if t[0][i] >= 0})
        # beyond BIG a side of a rule counts as unbounded
        self.thresholds = [s for s in self.splits if abs(s[1]) < BIG]
        self.setdata(rows, ydata)

    def setdata(self, rows, ydata):
        self.rows, self.y, self.n = rows, ydata, len(rows)
        self.all = (1 << self.n) - 1
        self.le = {}
        for f, th in self.splits:
            self.le[f, th] = F.mask_of([r[f] <= th for r in rows])

    @staticmethod
    def _depth(t):
        d, level = 0, [0]
        while True:
            level = [c for i in level for c in (t[0][i], t[1][i]) if c >= 0]
            if not level:
                return d
            d += 1

    def descend(self, b, side, minsize, part=None):
        """side(feature, threshold) -> 'l', 'r' or None (both ways).  Nodes of a level are taken in the order of
        their number; a level is given up once fewer than minsize rows remain."""
        left, right, feat, thr = self.trees[b]
        rows = self.all
        level, child = [0], set()
        for _ in range(self.depth):
            for i in level:
                if i < 0:
                    if F.popcount(rows) < minsize:
                        break
                    continue
                s = side(feat[i], thr[i]) if left[i] >= 0 else None
                if s == 'l':
                    child.add(left[i])
                    rows &= self.le[feat[i], thr[i]]
                    if part is not None and part[feat[i]][1] >= thr[i]:
                        part[feat[i]][1] = thr[i]
                elif s == 'r':
                    child.add(right[i])
                    rows &= ~self.le[feat[i], thr[i]]
                    if part is not None and part[feat[i]][0] <= thr[i]:
                        part[feat[i]][0] = thr[i]
                else:
                    child.add(left[i])
                    child.add(right[i])
                if F.popcount(rows) < minsize:
                    break
            level = sorted(child)
        return rows

    def descend_list(self, b, side, minsize, keep, part=None):
        """the same with nodes in the order in which they are met; keep: a split that would leave fewer than minsize
        rows is not applied"""
        left, right, feat, thr = self.trees[b]
        rows, level, child = self.all, [0], []
        for _ in range(self.depth):
            for i in level:
                if i < 0:
                    if F.popcount(rows) < minsize:
                        break
                    continue
                s = side(feat[i], thr[i]) if left[i] >= 0 else None
                child += [left[i]] if s == 'l' else [right[i]] if s == 'r' else [left[i], right[i]]
                if part is not None and s:
                    k = 1 if s == 'l' else 0
                    part[feat[i]][k] = (min if k else max)(part[feat[i]][k], thr[i])
                new = rows & self.le[feat[i], thr[i]] if s == 'l' else rows & ~self.le[feat[i], thr[i]] if s == 'r' else rows
                small = F.popcount(new) < minsize
                if not (small and keep):
                    rows = new
                if small:
                    break
            level = list(child)
        return rows

    def cell_weights(self, side, minsize, keep, part=None):
        w = [0.0] * self.n
        for b in range(len(self.trees)):
            rows = self.descend_list(b, side, minsize, keep, part)
            k = F.popcount(rows)
            for i in F.bits(rows):
                w[i] += 1.0 / (k * len(self.trees))
        return w

    def side_x(self, x, S):
        S = set(S)
        return lambda f, t: (('l' if x[f] <= t else 'r') if f in S else None)

    def side_cond(self, x, S, cond):
        S = set(S)

        def side(f, t):
            if f in S:
                return 'l' if x[f] <= t else 'r'
            if cond[f][1] <= t:
                return 'l'
            if cond[f][0] > t:
                return 'r'
            return None
        return side

    def side_intv(self, S, cond):
        S = set(S)

        def side(f, t):
            if f in S:
                return None
            if cond[f][1] <= t:
                return 'l'
            if cond[f][0] > t:
                return 'r'
            return None
        return side

    def mean(self, side, minsize, value, part=None, weights=None):
        """average over trees of the mean of value(row) over the rows of the projected cell (0 for an empty cell)"""
        T = len(self.trees)
        out = 0.0
        self.dyadic = not T & (T - 1)       # sums of dyadic fractions are exact in any order
        for b in range(T):
            rows = self.descend(b, side, minsize, part)
            k = F.popcount(rows)
            if not k:
                continue
            if k & (k - 1):
                self.dyadic = False
            for i in F.bits(rows):
                out += value(i) / (T * k)
                if weights is not None:
                    weights[i] += 1.0 / (T * k)
        return out

    def same(self, yi, ti, clf):
        y = self.y
        if clf:
            return lambda i: float(y[i] == yi)
        return lambda i: float(ti[0] <= y[i] <= ti[1])

    def differ(self, yi, ti, clf):
        s = self.same(yi, ti, clf)
        return lambda i: 1.0 - s(i)

    def within(self, yi, lo, hi, clf):
        y = self.y
        if clf:
            return lambda i: float(y[i] == yi)
        return lambda i: float(lo <= y[i] <= hi)


class Acx:
    pass


def setup(ctx, rng, m=None, n=None, mmax=6, nmax=60, clf=None, trees=None, depth=None, nx=None, K=None, dkind=None, grid=False, scale=None,
          waves=False):
    """a fitted explainer, its background data, query points and the reference"""
    c = Acx()
    c.values = list(range(9))
    c.m = m or rng.randint(1 if rng.random() < 0.1 else 2, mmax)
    c.n = n or rng.randint(12, nmax)
    c.clf = rng.random() < 0.55 if clf is None else clf
    c.rows, c.dkind = gen.data(rng, c.n, c.m, dkind)
    if scale:
        c.rows = [[v * scale if j == 0 else v for j, v in enumerate(r)] for r in gen.unit(c.rows)]
    c.grid = grid
    if grid:
        c.rows, y = gen.factorial(rng)
        c.m, c.n, c.dkind, trees = len(c.rows[0]), len(c.rows), 'grid', rng.choice([1, 2, 4])
        c.K = 2
        c.y = [float(z) for z in y] if c.clf else [gen.q(z + rng.choice([0, 0, 0.25])) for z in y]
    elif c.clf:
        c.K = K or rng.choice([2, 2, 2, 3])
        c.y = [float(z) for z in gen.labels(rng, c.rows, c.K)]
    else:
        c.y = gen.target(rng, c.rows)
    if waves:                                   # the outcome alternates along a column
        f = rng.randrange(c.m)
        col = sorted(r[f] for r in c.rows)
        cuts = [col[int(q * c.n)] for q in rng.choice([[0.3, 0.7], [0.3, 0.7], [0.2, 0.5, 0.8], [0.25, 0.4, 0.6, 0.8]])]
        flip = lambda z: rng.random() < 0.03
        band = [float((sum(r[f] > v for v in cuts) + flip(r)) % 2) for r in c.rows]
        if min(band) < max(band):
            c.K, c.y = 2, band if c.clf else [gen.q(8 * b + rng.gauss(0, 1)) for b in band]
    c.kw = dict(n_estimators=trees or rng.choice([1, 2, 4, 7]), max_depth=depth or rng.choice([1, 2, 3, 5]),
                seed=rng.randrange(1, 10 ** 6), mtry=rng.choice([0, 0, 1, c.m]))
    fit = {}
    if rng.random() < 0.3:                      # a forest of other parameters, labels of other values
        c.kw.update(replace=rng.random() < 0.5, sample_fraction=rng.choice([None, [0.632], [0.5]]),
                    min_node_size=rng.choice([0, 3, 8]), max_depth=rng.choice([0, c.kw['max_depth']]),
                    importance=rng.choice(['impurity', 'permutation']))
        if rng.random() < 0.5:
            c.kw.update(split_rule='extratrees', num_random_splits=rng.choice([1, 3]))
        if rng.random() < 0.3:
            fit['sample_weight'] = np.array([rng.choice([0.5, 1.0, 4.0]) for _ in c.rows])
        if rng.random() < 0.3 and c.kw['mtry'] < 2 and c.m > 2:
            c.kw['mtry'] = 1
            fit['always_split_features'] = [rng.randrange(c.m)]
        if rng.random() < 0.3:
            fit['categorical_features'] = [rng.randrange(c.m)]
        if c.clf and not grid and rng.random() < 0.5:
            c.values = sorted(rng.sample([-2, -1, 0, 1, 2, 5, 7], c.K))
            c.y = [float(c.values[int(z)]) for z in c.y]
        ctx.count('other_forest')
    c.acx = ACXplainer(classifier=c.clf, **c.kw)
    ctx.call('fit', c.acx.fit, np.array(c.rows), np.array(c.y), **fit)
    c.pf = PForest(c.acx.model, c.rows, c.y)
    c.minsize = rng.choice([1, 1, 2, 5, 5, 10])
    c.data = gen.arr(rng, c.rows)
    c.ydata = np.array(c.y)
    queries(ctx, rng, c, nx)
    return c


def loaded(ctx, rng, m=None, n=None, mmax=6, nmax=50, nx=None, trees=None, depth=None, cls=None):
    """the estimator on the trees of a loaded model instead of a forest of its own"""
    c = Acx()
    c.m = m or rng.randint(2, mmax)
    c.n = n or rng.randint(12, nmax)
    c.clf = rng.random() < 0.5
    c.rows, c.dkind = gen.data(rng, c.n, c.m)
    if c.clf:
        c.K = rng.choice([2, 3])
        c.y = [float(z) for z in gen.labels(rng, c.rows, c.K)]
    else:
        c.y = gen.target(rng, c.rows)
    cls = cls or rng.choice([ACVTree, ACVTree, ACVTreeAgnostic])
    if rng.random() < 0.6:
        model, ts = gen.hand(rng, c.rows, n_trees=trees, depth=depth)
        ts = [(list(t['left']), list(t['right']), list(t['feat']), [float(z) for z in t['thr']]) for t in ts]
    else:
        from sklearn.ensemble import RandomForestClassifier, RandomForestRegressor, ExtraTreesRegressor
        M = RandomForestClassifier if c.clf else rng.choice([RandomForestRegressor, ExtraTreesRegressor])
        model = M(n_estimators=trees or rng.choice([1, 2, 4]), max_depth=depth or rng.choice([2, 3, 5]),
                  random_state=rng.randrange(10 ** 6)).fit(np.array(c.rows), np.array(c.y))
        ts = [(list(map(int, e.tree_.children_left)), list(map(int, e.tree_.children_right)),
               list(map(int, e.tree_.feature)), list(map(float, e.tree_.threshold))) for e in model.estimators_]
    if all(len(t[0]) == 1 for t in ts):
        ts = []
    if not ts:
        return None
    c.source = model
    c.acx = ctx.call(cls.__name__, cls, model, np.array(c.rows))
    c.pf = PForest(None, c.rows, c.y, ts)
    c.minsize = rng.choice([1, 1, 2, 5, 10])
    c.data, c.ydata = np.array(c.rows), np.array(c.y)
    nx = nx or rng.randint(2, 6)
    c.X = gen.points(rng, c.rows, nx, c.pf.thresholds)
    c.yx = [float(rng.randrange(c.K)) if c.clf else rng.choice(c.y) for _ in c.X]
    c.tt = [sorted((rng.choice(c.y), rng.choice(c.y))) for _ in c.X]
    c.t = np.array(c.tt)
    c.Xa, c.ya = np.array(c.X), np.array(c.yx)
    c.S = [gen.subset(rng, c.m, 0) for _ in c.X]
    return c


def space(c):
    """the columns that a search looks at: beyond ten, the ten most important ones (None: they are not unique)"""
    if c.m <= 10:
        return list(range(c.m))
    imp = getattr(c.source, 'feature_importances_', None)
    if imp is None or type(c.acx).__name__ == 'ACVTreeAgnostic':     # how many leaves a column takes part in
        imp = [0] * c.m

        def walk(t, i, path):
            if t[0][i] < 0:
                for f in path:
                    imp[f] += 1
            else:
                for j in (t[0][i], t[1][i]):
                    walk(t, j, path | {t[2][i]})
        for t in c.pf.trees:
            walk(t, 0, frozenset())
        used = [j for j in range(c.m) if imp[j]]
    else:
        used = list(range(c.m))
    order = sorted(used, key=lambda j: -imp[j])
    if len(order) > 10 and imp[order[9]] - imp[order[10]] < 1e-12:
        return None
    return order[:10]


def queries(ctx, rng, c, nx=None):
    nx = nx or rng.randint(2, 6)
    c.X = gen.points(rng, c.rows, nx, c.pf.thresholds)
    if c.clf:
        if rng.random() < 0.5:
            c.yx = [float(z) for z in np.asarray(c.acx.model.predict(np.array(c.X))).tolist()]
        else:
            c.yx = [float(c.values[rng.randrange(c.K)]) for _ in c.X]
        c.t = None
        c.tt = [[0.0, 0.0]] * nx
    else:
        c.yx = [float(z) for z in np.asarray(c.acx.model.predict(np.array(c.X))).tolist()]
        if rng.random() < 0.4:
            c.t = None
            c.tt = np.asarray(c.acx.model.predict_quantiles(np.array(c.X), quantiles=[0.05, 0.95])).tolist()
        else:
            w = rng.choice([0.1, 0.5, 1.5])
            vals = sorted(c.y)
            c.tt = []
            for y in c.yx:
                if rng.random() < 0.4:      # bounds that are attained by the data
                    a, b = sorted((rng.choice(vals), rng.choice(vals)))
                    c.tt.append([a, b])
                else:
                    c.tt.append([y - w, y + w])
            c.t = np.array(c.tt)
    c.Xa, c.ya = gen.arr(rng, c.X), np.array(c.yx)
    c.S = [gen.subset(rng, c.m, 0) for _ in c.X]


def large_kw(ctx, rng, kinds=('rows', 'rows', 'many_rows', 'points', 'trees', 'deep', 'columns'), nx=None):
    """a problem of which one dimension is large"""
    what, z = gen.large(rng, kinds)
    ctx.count('large')
    ctx.count('large:' + what)
    kw = dict(m=z['m'], n=z['n'], nx=nx or z['nx'], trees=z['n_trees'], depth=min(z['depth'], 12))
    if what == 'trees':
        kw['n'] = min(kw['n'], 40)
    return kw


def box0(m):
    return [[-BIG, BIG] for _ in range(m)]


def sdp(c, i, S, kind='sdp', x=None, part=None, weights=None):
    val = {'sdp': c.pf.same, 'ddp': c.pf.differ}[kind](c.yx[i], c.tt[i], c.clf)
    return c.pf.mean(c.pf.side_x(c.X[i] if x is None else x, S), c.minsize, val, part, weights)
