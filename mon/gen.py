"""Generators of workloads: data sets, query points, hand-made ensembles, trained ensembles, groupings.

Every number is a small multiple of 1/64, so that float32 and float64 agree, midpoints are exact and
points that lie exactly on a split threshold occur."""
import math, random
import numpy as np


def q(x, d=64):
    return round(x * d) / d


def column(rng, n, kind):
    if kind == 'cont':
        return [q(rng.gauss(0, 1)) for _ in range(n)]
    if kind == 'unif':
        return [q(rng.uniform(-2, 2), 16) for _ in range(n)]
    if kind == 'int':
        k = rng.randint(2, 6)
        o = rng.choice([0, 0, 1, -3])
        return [float(rng.randint(0, k) + o) for _ in range(n)]
    if kind == 'bin':
        p = rng.choice([0.1, 0.3, 0.5, 0.5, 0.8])
        return [float(rng.random() < p) for _ in range(n)]
    if kind == 'const':
        c = q(rng.gauss(0, 1))
        return [c] * n
    raise ValueError(kind)


KINDS = ['cont', 'unif', 'int', 'bin', 'mixed']


def data(rng, n, m, kind=None):
    """-> (rows, kind)"""
    kind = kind or rng.choice(KINDS)
    cols = []
    for j in range(m):
        k = rng.choice(['cont', 'unif', 'int', 'bin', 'const'] if j else ['cont', 'unif', 'int', 'bin']) \
            if kind == 'mixed' else kind
        if j and k in ('cont', 'unif') and rng.random() < 0.25:       # a correlated column
            src = cols[rng.randrange(j)]
            cols.append([q(v + rng.gauss(0, 0.3)) for v in src])
        else:
            cols.append(column(rng, n, k))
    rows = [[cols[j][i] for j in range(m)] for i in range(n)]
    if n > 3 and rng.random() < 0.3:                                  # duplicated rows
        for _ in range(rng.randint(1, max(1, n // 4))):
            rows[rng.randrange(n)] = list(rows[rng.randrange(n)])
    r2 = random.Random(repr(rows[:8]))
    if r2.random() < 0.2:                                             # columns in other units: powers of two, so still exact
        u = [2.0 ** r2.choice([-14, -10, 0, 0, 10, 20]) for _ in range(m)]
        rows = [[v * z for v, z in zip(r, u)] for r in rows]
    return rows, kind


def units(rows):
    """the power of two that a column is a multiple of, 1 for the usual range of values"""
    out = []
    for j in range(len(rows[0])):
        top = max(abs(r[j]) for r in rows)
        out.append(1.0 if top == 0 or 2.0 ** -7 < top < 2.0 ** 9 else 2.0 ** math.floor(math.log2(top)))
    return out


def unit(rows):
    u = units(rows)
    return rows if all(z == 1 for z in u) else [[v / z for v, z in zip(r, u)] for r in rows]


def points(rng, rows, n, thr=()):
    """query points: rows of the data, mixtures of rows, points on thresholds, points far outside.
    thr: list of (feature, threshold)"""
    m = len(rows[0])
    u = units(rows)
    out = []
    for _ in range(n):
        t = rng.random()
        if t < 0.35:
            x = list(rows[rng.randrange(len(rows))])
        elif t < 0.75:
            x = [rows[rng.randrange(len(rows))][j] for j in range(m)]
        elif t < 0.9:
            x = [u[j] * q(rows[rng.randrange(len(rows))][j] / u[j] + rng.gauss(0, 0.5)) for j in range(m)]
        else:
            x = [rng.choice([-1e3 * u[j], 1e3 * u[j], rows[rng.randrange(len(rows))][j]]) for j in range(m)]
        if thr and rng.random() < 0.35:
            for f, v in rng.sample(list(thr), min(len(thr), rng.randint(1, 2))):
                x[f] = v
        out.append(x)
    return out


def f32(X):
    """points as the source models see them: scikit-learn and XGBoost round to single precision"""
    return np.array(X, dtype=np.float32).astype(float).tolist()


def subset(rng, m, kmin=0, kmax=None):
    k = rng.randint(kmin, m if kmax is None else min(m, kmax))
    s = rng.sample(range(m), k)
    if rng.random() < 0.5:
        s.sort()
    return s


def groups(rng, m, size=None):
    """a list of disjoint groups of columns (size >= 2 each mostly), not necessarily covering"""
    if m < 2:
        return [[0]]
    f = list(range(m))
    rng.shuffle(f)
    out = []
    while f and (not out or rng.random() < 0.6):
        k = min(len(f), rng.choice([1, 2, 2, 2, 3, 3, 4]))
        g = f[:k]
        f = f[k:]
        if rng.random() < 0.5:
            g.sort()
        out.append(g)
    return out


def members(m, C):
    """the players of a grouping: the groups plus every remaining column alone"""
    if not C or not C[0]:
        return [(j,) for j in range(m)]
    g = [tuple(c) for c in C]
    used = {j for c in g for j in c}
    return g + [(j,) for j in range(m) if j not in used]


# ------------------------------------------------------------------ hand-made ensembles

def tree_dict(rng, rows, depth, d, style, p_leaf=0.15):
    """a random tree with thresholds at or between data values; node_sample_weight = rows that reach the node"""
    m = len(rows[0])
    left, right, feat, thr, val, w = [], [], [], [], [], []
    fset = list(range(m))
    if rng.random() < 0.3 and m > 2:
        fset = rng.sample(fset, rng.randint(1, m - 1))

    def leafval():
        if style == 'proba':
            t = rng.random()
            if t < 0.4:
                v = [0.0] * d
                v[rng.randrange(d)] = 1.0
                return v
            c = [rng.randint(0, 8) for _ in range(d)]
            c[rng.randrange(d)] += 1
            s = float(sum(c))
            return [x / s for x in c]
        return [q(rng.gauss(0, 2)) for _ in range(d)]

    def grow(idx, dep):
        i = len(left)
        for a in (left, right, feat, thr, val, w):
            a.append(None)
        w[i] = float(len(idx))
        if dep >= depth or (dep > 0 and rng.random() < p_leaf) or (len(idx) < 2 and rng.random() < 0.8):
            left[i] = right[i] = -1
            feat[i], thr[i] = -2, -2.0
            val[i] = leafval()
            return i
        f = rng.choice(fset)
        vals = sorted({rows[r][f] for r in (idx if idx and rng.random() < 0.9 else range(len(rows)))})
        if len(vals) > 1 and rng.random() < 0.7:
            k = rng.randrange(len(vals) - 1)
            t = (vals[k] + vals[k + 1]) / 2
        else:
            t = rng.choice(vals)                 # a threshold equal to a data value
        feat[i], thr[i] = f, t
        L = [r for r in idx if rows[r][f] <= t]
        R = [r for r in idx if rows[r][f] > t]
        left[i] = grow(L, dep + 1)
        right[i] = grow(R, dep + 1)
        val[i] = [0.0] * d
        return i

    grow(list(range(len(rows))), 0)
    return {'left': left, 'right': right, 'feat': feat, 'thr': thr, 'val': val, 'w': w}


def to_model(trees, scaling=1.0):
    """the dictionary form of an ensemble that the library accepts"""
    out = []
    for t in trees:
        out.append({'children_left': np.array(t['left'], dtype=np.int32),
                    'children_right': np.array(t['right'], dtype=np.int32),
                    'children_default': np.array(t['left'], dtype=np.int32),
                    'features': np.array(t['feat'], dtype=np.int32),
                    'thresholds': np.array(t['thr'], dtype=np.float64),
                    'values': np.array(t['val'], dtype=np.float64) * scaling,
                    'node_sample_weight': np.array(t['w'], dtype=np.float64)})
    return {'trees': out, 'tree_output': 'raw_value'}


def hand(rng, rows, n_trees=None, depth=None, d=None, style=None):
    """-> (model dict, list of tree dicts with final leaf values)"""
    n_trees = n_trees or rng.choice([1, 1, 2, 3, 4])
    style = style or rng.choice(['reg', 'proba'])
    d = d or (rng.choice([1, 1, 2]) if style == 'reg' else rng.choice([2, 2, 3]))
    trees = []
    for _ in range(n_trees):
        dep = rng.randint(1, depth or 4)
        trees.append(tree_dict(rng, rows, dep, d, style))
    sc = 1.0 / n_trees if style == 'proba' else 1.0
    for t in trees:
        t['val'] = [[v * sc for v in x] for x in t['val']]
    return to_model(trees), trees


# ------------------------------------------------------------------ one dimension that is large

LARGE = ['rows', 'rows', 'many_rows', 'points', 'trees', 'leaves', 'deep', 'outputs', 'columns']


def large(rng, kinds=LARGE):
    """-> what is large, and m, n, nx, n_trees, depth, d, C of a problem; everything else is small"""
    what = rng.choice(kinds)
    z = dict(m=rng.randint(2, 3), n=rng.randint(20, 60), nx=rng.randint(1, 3), n_trees=rng.choice([1, 2]), depth=3, d=None, C=None)
    if what == 'rows':
        z['n'] = rng.choice([127, 129, 257, 300, 513, 1025, 2050, 4100])
    elif what == 'many_rows':
        z.update(n=rng.choice([33000, 66000]), m=2, depth=2, n_trees=1, nx=1)
    elif what == 'points':
        z['nx'] = rng.choice([65, 129, 257, 300, 513])
    elif what == 'trees':
        z.update(n_trees=rng.choice([65, 129, 150, 257]), depth=2)
    elif what == 'leaves':
        z.update(n=rng.randint(300, 900), depth=rng.choice([8, 10]), n_trees=1)
    elif what == 'deep':
        z.update(depth=rng.choice([20, 33, 40, 65]), n_trees=1, n=rng.randint(40, 120))
    elif what == 'outputs':
        z['d'] = rng.choice([9, 12, 17])
    elif what == 'columns':
        z.update(m=rng.choice([17, 33, 40, 65, 70]), n_trees=rng.choice([1, 2, 4]), depth=4)
        f = list(range(z['m']))
        rng.shuffle(f)
        k = rng.randint(3, 6)                    # groups that cover the columns
        cut = sorted(rng.sample(range(1, z['m']), k - 1))
        z['C'] = [f[a:b] for a, b in zip([0] + cut, cut + [z['m']])]
    return what, z


def chain(rng, rows, depth, d):
    """a tree of the given depth with one leaf on every level"""
    m = len(rows[0])
    t = {k: [] for k in ('left', 'right', 'feat', 'thr', 'val', 'w')}
    cols = [sorted({r[j] for r in rows}) for j in range(m)]
    idx = list(range(len(rows)))

    def node(leaf, w):
        for k, v in zip(('left', 'right', 'feat', 'thr', 'val', 'w'),
                        (-1, -1, -2, -2.0, [q(rng.gauss(0, 2)) for _ in range(d)] if leaf else [0.0] * d, float(w))):
            t[k].append(v)
        return len(t['left']) - 1
    i = node(False, len(idx))
    for dep in range(depth):
        f = rng.randrange(m)
        th = rng.choice(cols[f])
        L, R = [r for r in idx if rows[r][f] <= th], [r for r in idx if rows[r][f] > th]
        t['feat'][i], t['thr'][i] = f, th
        last = dep == depth - 1
        goleft = len(L) > len(R) if rng.random() < 0.8 else rng.random() < 0.5
        a, b = node(not goleft or last, len(L)), node(goleft or last, len(R))
        t['left'][i], t['right'][i] = a, b
        i, idx = (a, L) if goleft else (b, R)
    return t


def large_hand(rng, kinds=LARGE, d=None, style=None):
    """the same with a hand-made ensemble -> what, problem, rows, trees"""
    what, z = large(rng, kinds)
    rows, _ = data(rng, z['n'], z['m'], rng.choice(['cont', 'unif', 'mixed']))
    style = style or rng.choice(['reg', 'proba'])
    d = d or z['d'] or (rng.choice([1, 2]) if style == 'reg' else 2)
    if what == 'deep':
        trees = [chain(rng, rows, z['depth'], d)]
    else:
        trees = [tree_dict(rng, rows, z['depth'], d, style, p_leaf=0.03) for _ in range(z['n_trees'])]
    return what, z, rows, trees


# ------------------------------------------------------------------ trained ensembles

def labels(rng, rows, classes):
    rows = unit(rows)
    m = len(rows[0])
    w = [rng.gauss(0, 1) for _ in range(m)]
    sc = [sum(a * b for a, b in zip(w, r)) + rng.gauss(0, 0.3) for r in rows]
    srt = sorted(sc)
    cuts = [srt[int(len(srt) * (k + 1) / classes)] for k in range(classes - 1)]
    y = [sum(s > c for c in cuts) for s in sc]
    for k in range(classes):                     # every class occurs
        if k not in y:
            y[rng.randrange(len(y))] = k
    if len(set(y)) < classes:
        y = [i % classes for i in range(len(y))]
    return y


def target(rng, rows, noise=0.2):
    rows = unit(rows)
    m = len(rows[0])
    w = [rng.gauss(0, 1) for _ in range(m)]
    return [q(sum(a * b for a, b in zip(w, r)) + (r[0] > 0) * rng.gauss(0, 1) + rng.gauss(0, noise)) for r in rows]


TRAINED = ['dt_clf', 'dt_reg', 'rf_clf', 'rf_reg', 'et_clf', 'et_reg', 'gbt_reg', 'gbt_clf',
           'xgb_clf', 'xgb_reg', 'xgb_multi', 'rf_multi', 'dt_multi']


def factorial(rng, m=None):
    """all points of a grid of two levels, each a power of two times, and a function on it: the frequencies that occur
    are mostly powers of two, so that they are exact in floating point"""
    m = m or rng.choice([2, 3, 3, 4])
    lv = [rng.choice([(0.0, 1.0), (-1.0, 1.0), (2.0, 3.5)]) for _ in range(m)]
    k = rng.choice([1, 1, 2]) if m < 4 else 1
    bits = [[i >> j & 1 for j in range(m)] for i in range(1 << m)] * k
    rng.shuffle(bits)
    a = rng.sample(range(m), m)
    fun = rng.choice(['xor', 'xor', 'one', 'mux', 'xor3', 'and'])
    f = {'xor': lambda b: b[a[0]] ^ b[a[1]], 'one': lambda b: b[a[0]], 'and': lambda b: b[a[0]] & b[a[1]],
         'mux': lambda b: b[a[1]] if b[a[0]] else b[a[-1]], 'xor3': lambda b: sum(b[z] for z in a[:3]) & 1}[fun]
    return [[lv[j][b[j]] for j in range(m)] for b in bits], [f(b) for b in bits]


def trained(rng, rows, kind=None, n_trees=None, depth=None, y=None):
    """-> (model, kind, y)"""
    kind = kind or rng.choice(TRAINED)
    nt = n_trees or rng.choice([1, 2, 3, 5])
    dep = depth or rng.randint(1, 4)
    X = np.array(rows)
    fam, task = kind.split('_')
    K = {'clf': 2, 'reg': 0, 'multi': 3}[task]
    y = y or (labels(rng, rows, K) if K else target(rng, rows))
    seed = rng.randrange(10 ** 6)
    yy = np.array(y, dtype=float if not K else int)
    if fam == 'dt':
        from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
        mod = (DecisionTreeClassifier if K else DecisionTreeRegressor)(
            max_depth=dep, random_state=seed, splitter=rng.choice(['best', 'best', 'random']),
            min_samples_leaf=rng.choice([1, 1, 2, 4]))
    elif fam in ('rf', 'et'):
        from sklearn import ensemble as E
        cls = {('rf', 1): E.RandomForestClassifier, ('rf', 0): E.RandomForestRegressor,
               ('et', 1): E.ExtraTreesClassifier, ('et', 0): E.ExtraTreesRegressor}[(fam, 1 if K else 0)]
        mod = cls(n_estimators=nt, max_depth=dep, random_state=seed, min_samples_leaf=rng.choice([1, 1, 3]))
    elif fam == 'gbt':
        from sklearn import ensemble as E
        cls = E.GradientBoostingClassifier if K else E.GradientBoostingRegressor
        mod = cls(n_estimators=nt, max_depth=dep, random_state=seed, learning_rate=rng.choice([0.1, 0.5, 1.0]))
    elif fam == 'xgb':
        import xgboost
        kw = dict(n_estimators=nt, max_depth=dep, random_state=seed, learning_rate=rng.choice([0.3, 1.0]), n_jobs=1,
                  tree_method='exact', verbosity=0, base_score=rng.choice([0.5, 0.5, 0.25]))
        mod = xgboost.XGBClassifier(use_label_encoder=False, **kw) if K else xgboost.XGBRegressor(**kw)
    if K:
        mod.fit(X, yy)
    else:
        mod.fit(X, yy)
    return mod, kind, y


def arr(rng, rows, form=None):
    """one of the forms in which a matrix reaches the library"""
    a = np.array(rows, dtype=float)
    form = form or rng.choice(['c', 'c', 'c', 'f', 'strided'])
    if form == 'f':
        return np.asfortranarray(a)
    if form == 'strided' and a.shape[0] and a.shape[1]:
        big = np.full((a.shape[0] * 2, a.shape[1] + 3), 777.0)
        big[::2, 1:1 + a.shape[1]] = a
        return big[::2, 1:1 + a.shape[1]]
    return a
