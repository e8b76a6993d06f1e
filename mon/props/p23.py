"""Models of libraries that are not installed here, and the other formats of a tree: loaded as they are dumped.
The models are stand-ins with the interface that the loader uses, in the classes and modules of the libraries."""
import ctypes
import json
import sys
import types
import lightgbm
import lightgbm.basic
import numpy as np
from acv_explainers import ACVTree
from acv_explainers.base_tree import SingleTree
from experiments.utils import shap_cond_exp
from .. import gen, forest as F
from ..common import npt, rounded


def module(name, *classes):
    parts = name.split('.')
    for k in range(1, len(parts) + 1):
        sys.modules.setdefault('.'.join(parts[:k]), types.ModuleType('.'.join(parts[:k])))
    m = sys.modules[name]
    for c in classes:
        if not hasattr(m, c):
            setattr(m, c, type(c, (), {'__module__': name}))
    return [getattr(m, c) for c in classes]




class Address(int):
    """an address that ctypes of PyPy takes for a char pointer, as that of CPython does"""
    @property
    def _as_parameter_(self):
        return ctypes.c_char_p(int(self))


lightgbm.basic.ctypes = types.ModuleType('ctypes')
lightgbm.basic.ctypes.__dict__.update(ctypes.__dict__)
lightgbm.basic.ctypes.addressof = lambda b: Address(ctypes.addressof(b))

GPB, = module('gpboost.basic', 'Booster')
CBC, = module('catboost.core', 'CatBoostClassifier')
SPARK_C = module('pyspark.ml.classification', 'RandomForestClassificationModel', 'GBTClassificationModel', 'DecisionTreeClassificationModel')
SPARK_R = module('pyspark.ml.regression', 'RandomForestRegressionModel', 'GBTRegressionModel', 'DecisionTreeRegressionModel')


def proba(margins):
    """class probabilities of raw outputs"""
    out = []
    for v in margins:
        if len(v) == 1:
            s = 1 / (1 + np.exp(-v[0]))
            out.append([1 - s, s])
        else:
            e = np.exp(np.array(v) - max(v))
            out.append((e / e.sum()).tolist())
    return np.array(out)


# ------------------------------------------------------------------ LightGBM

def lgb_tree(rng, t, k):
    """the structure that Booster.dump_model gives for a tree: inner nodes and leaves are numbered on their own"""
    inner = [i for i in range(len(t['left'])) if t['left'][i] >= 0]
    leaves = [i for i in range(len(t['left'])) if t['left'][i] < 0]
    # the root is 0; the others in the order in which they were split, so in any order
    rest = inner[1:]
    rng.shuffle(rest)
    rng.shuffle(leaves)
    num = {i: n for n, i in enumerate(inner[:1] + rest)}
    lnum = {i: n for n, i in enumerate(leaves)}

    def node(i):
        if t['left'][i] < 0:
            if not inner:
                return {'leaf_value': t['val'][i][0]}
            return {'leaf_index': lnum[i], 'leaf_value': t['val'][i][0], 'leaf_weight': 1.0, 'leaf_count': int(t['w'][i])}
        return {'split_index': num[i], 'split_feature': t['feat'][i], 'split_gain': 1.0, 'threshold': t['thr'][i],
                'decision_type': '<=', 'default_left': t['default'][i], 'missing_type': 'NaN', 'internal_value': 0.25,
                'internal_weight': 1.0, 'internal_count': int(t['w'][i]), 'left_child': node(t['left'][i]),
                'right_child': node(t['right'][i])}

    return {'tree_index': k, 'num_leaves': len(leaves), 'num_cat': 0, 'shrinkage': 1, 'tree_structure': node(0)}


def gpboost(ctx, rng, trees):
    info = [lgb_tree(rng, t, k) for k, t in enumerate(trees)]
    b = GPB()
    b.params = {'objective': rng.choice(['regression', 'binary', 'regression_l2', 'mape'])}
    b.dump_model = lambda *a, **k: json.loads(json.dumps({'name': 'tree', 'version': 'v3', 'num_class': 1, 'num_tree_per_iteration': 1, 'tree_info': info}))
    return b, 'gpboost'


def from_lightgbm(booster, m):
    """our own reading of the dump of a model without categories"""
    dump = booster.dump_model()
    K = dump['num_tree_per_iteration']
    trees = []
    for k, e in enumerate(dump['tree_info']):
        t = {x: [] for x in ('left', 'right', 'feat', 'thr', 'val', 'w')}

        def walk(v):
            i = len(t['left'])
            for x in t:
                t[x].append(None)
            t['w'][i] = float(v.get('internal_count', v.get('leaf_count', 0)))
            t['val'][i] = [v.get('leaf_value', 0.0) if j == k % K else 0.0 for j in range(K)]
            t['left'][i] = t['right'][i] = -1
            t['feat'][i], t['thr'][i] = v.get('split_feature', -2), v.get('threshold', -2.0)
            if 'left_child' in v:
                t['left'][i] = walk(v['left_child'])
                t['right'][i] = walk(v['right_child'])
            return i

        walk(e['tree_structure'])
        trees.append(t)
    return F.Forest(trees, m)


def lightgbm_model(ctx, rng, rows):
    """-> (model, kind, raw output by the library)"""
    n, m = len(rows), len(rows[0])
    X = np.array(rows)
    task = rng.choice(['reg', 'clf', 'clf', 'multi', 'rank'])
    kw = dict(n_estimators=rng.choice([1, 2, 3, 6]), num_leaves=rng.choice([2, 3, 6, 15]), min_child_samples=rng.choice([1, 2, 5]),
              min_child_weight=0.0, n_jobs=1, random_state=rng.randrange(1000), learning_rate=rng.choice([0.1, 0.5, 1.0]),
              min_data_in_bin=rng.choice([1, 3]), verbose=-1)
    how = rng.choice(['plain', 'plain', 'depth', 'dart', 'rf', 'goss', 'constant', 'missing', 'weights', 'l1', 'stop', 'slope'])
    fit = {}
    if how == 'depth':
        kw.update(max_depth=rng.randint(1, 4))
    elif how == 'dart':
        kw.update(boosting_type='dart', drop_rate=0.5, skip_drop=0.0)
    elif how == 'rf':
        kw.update(boosting_type='rf', subsample=0.7, subsample_freq=1)
    elif how == 'goss':
        kw.update(boosting_type='goss')
    elif how == 'constant':
        kw.update(min_child_samples=rng.choice([n, n // 2]))
    elif how == 'missing':
        X = np.where(np.array([[rng.random() < 0.25 for _ in range(m)] for _ in range(n)]), np.nan, X)
    elif how == 'weights':
        fit['sample_weight'] = np.array([rng.choice([0.5, 1.0, 3.0]) for _ in rows])
    elif how == 'l1':
        kw.update(reg_alpha=0.5, reg_lambda=1.0)
    elif how == 'slope' and task == 'reg':
        kw.update(extra_trees=True)
    if task == 'reg':
        y = np.array(gen.target(rng, rows), dtype=float)
        kw['objective'] = rng.choice(['regression', 'regression', 'regression_l1', 'huber', 'quantile'])
        C = lightgbm.LGBMRegressor
    elif task == 'rank':
        y, C = np.array(gen.labels(rng, rows, 2)), lightgbm.LGBMRanker
        fit['group'] = [n // 2, n - n // 2]
    else:
        y, C = np.array(gen.labels(rng, rows, 2 if task == 'clf' else rng.choice([3, 4]))), lightgbm.LGBMClassifier
        if task == 'multi':
            kw['objective'] = rng.choice(['multiclass', 'multiclassova'])
        if rng.random() < 0.3:
            y = np.array(['a', 'b', 'c', 'd'])[y]
    if how == 'stop' and task == 'reg':
        kw['n_estimators'] = 20
        fit.update(eval_set=[(X[::2], y[::-1][::2])], callbacks=[lightgbm.early_stopping(1, verbose=False)])
    model = C(**kw).fit(X, y, **fit)
    raw = lambda Z: np.asarray(model.predict(Z, raw_score=True)).reshape(len(Z), -1)
    kind = 'lightgbm ' + task
    ctx.count('lightgbm:' + how)
    if rng.random() < 0.25:
        b = model.booster_
        if rng.random() < 0.5:
            b = lightgbm.Booster(model_str=b.model_to_string())
        return b, kind + ' booster', lambda Z: np.asarray(b.predict(Z, raw_score=True)).reshape(len(Z), -1), b, how
    return model, kind, raw, model.booster_, how


def real_lightgbm(ctx, rng):
    m = rng.randint(1, 5)
    rows, dk = gen.data(rng, rng.randint(12, 60), m)
    try:
        model, kind, raw, booster, how = lightgbm_model(ctx, rng, rows)
    except lightgbm.basic.LightGBMError:
        ctx.count('not trained')
        return
    f = from_lightgbm(booster, m)
    if how == 'rf':
        # predictions (not the raw scores) are averages
        total = raw
        raw = lambda Z: total(Z) * f.d / len(f.trees)
        for ls in f.leaves:
            for lf in ls:
                lf.val = [v * f.d / len(f.trees) for v in lf.val]
    X = gen.points(rng, rows, rng.randint(3, 8), f.thresholds)
    # what counts as zero for the library
    X = [[0.0 if abs(z) < 1e-30 else z for z in x] for x in X]
    want = npt(raw(np.array(X)))
    tol = 1e-9 * max([1.0] + [abs(z) for z in F.flat(want)])
    if len(f.trees) and min(len(t['left']) for t in f.trees) == 1:
        ctx.count('constant-tree')
    det = {'model': kind, 'how': how, 'trees': f.trees, 'X': X, 'want': want}
    acv = ctx.call('ACVTree[%s]' % kind, ACVTree, model, gen.arr(rng, rows + X))
    got = np.asarray(ctx.call('predict[%s]' % kind, acv.predict, np.array(X))).reshape(len(X), -1).tolist()
    ctx.observed('predict', (kind, rounded(want)) if len({tuple(z) for z in want}) > 1 else None)
    ctx.count('kind:' + kind)
    ctx.sample({'model': kind, 'variant': how, 'trees': len(f.trees), 'x': X[0], 'output': want[0]})
    ctx.check(F.maxdiff(got, want) <= tol, 'predict:' + kind + (' rf' if how == 'rf' else ''), lambda: 'the loaded model (%s, %s) gives %s where its source gives %s' % (
        kind, how, got, want), dict(det, got=got))
    out = np.asarray(ctx.call('compute_exp[%s]' % kind, acv.compute_exp, np.array(X), np.arange(m), np.array(rows + X))).reshape(len(X), -1).tolist()
    ctx.observed('tiling', (kind, rounded(want)) if len({tuple(z) for z in want}) > 1 else None)
    ctx.check(F.maxdiff(out, want) <= 2 * tol, 'tiling:' + kind + (' rf' if how == 'rf' else ''),
              lambda: 'the leaf regions of the loaded model (%s, %s) give %s where its source gives %s' % (kind, how, out, want), det)
    Z = [[float('nan') if rng.random() < 0.4 else z for z in x] for x in X]
    wz = npt(raw(np.array(Z)))
    gz = np.asarray(ctx.call('predict[%s]' % kind, acv.predict, np.array(Z))).reshape(len(X), -1).tolist()
    ctx.observed('missing', (kind, rounded(wz)))
    ctx.check(F.maxdiff(gz, wz) <= tol, 'missing:' + kind + (' rf' if how == 'rf' else ''), lambda: 'a missing value does not go where the source sends it (%s, %s): %s instead of %s' % (
        kind, how, gz, wz), dict(det, X=Z))
    judged(ctx, rng, kind, model, acv, f, rows, X, tol, unit=f.d / len(f.trees) if how == 'rf' else 1.0)


# ------------------------------------------------------------------ CatBoost

def oblivious(rng, rows, depth, K):
    """-> (JSON of the tree, the same tree as a dict of nodes, its values one list per leaf)"""
    m = len(rows[0])
    splits = []
    for _ in range(depth):
        f = rng.randrange(m)
        vals = sorted({r[f] for r in rows})
        a = rng.randrange(len(vals))
        b = vals[a] if rng.random() < 0.5 or a + 1 == len(vals) else (vals[a] + vals[a + 1]) / 2
        splits.append((f, float(np.float32(b))))
    val = [[gen.q(rng.gauss(0, 2)) for _ in range(K)] for _ in range(2 ** depth)]
    w = [0] * 2 ** depth
    for r in rows:
        w[sum((r[f] > b) << i for i, (f, b) in enumerate(splits))] += 1
    if rng.random() < 0.6:
        w = [z + rng.randint(1, 9) for z in w]
    t = {k: [] for k in ('left', 'right', 'feat', 'thr', 'val', 'w')}

    def grow(level, code):
        i = len(t['left'])
        for k in t:
            t[k].append(None)
        if level == depth:
            t['left'][i] = t['right'][i] = -1
            t['feat'][i], t['thr'][i], t['val'][i], t['w'][i] = -2, -2.0, val[code], float(w[code])
            return i
        f, b = splits[level]
        t['feat'][i], t['thr'][i], t['val'][i], t['w'][i] = f, b, [0.0] * K, 0.0
        t['left'][i] = grow(level + 1, code)
        t['right'][i] = grow(level + 1, code | 1 << level)
        return i

    grow(0, 0)
    js = {'leaf_values': [z for v in val for z in v], 'leaf_weights': w,
          'splits': [{'border': b, 'float_feature_index': f, 'split_index': i, 'split_type': 'FloatFeature'}
                     for i, (f, b) in enumerate(splits)]}
    return js, t


def catboost(ctx, rng, rows, n_trees):
    K = rng.choice([1, 1, 1, 3])
    made = [oblivious(rng, rows, rng.randint(0 if rng.random() < 0.2 else 1, 4), K) for _ in range(n_trees)]
    bias = [gen.q(rng.gauss(0, 1)) for _ in range(K)] if rng.random() < 0.3 else [0.0] * K
    scale = rng.choice([1, 1, 1, 0.5])
    model = CBC()
    model.get_cat_feature_indices = lambda: []

    def save(path, format='cbm', **kw):
        assert format == 'json'
        text = {'oblivious_trees': [j for j, _ in made], 'scale_and_bias': [scale, bias], 'features_info': {},
                'model_info': {'params': {'tree_learner_options': {'depth': 6}}}}
        with open(path, 'w') as out:
            json.dump(text, out)

    model.save_model = save
    trees = [t for _, t in made]
    for t in trees:
        t['val'] = [[z * scale for z in v] for v in t['val']]
    return model, 'catboost' if K == 1 else 'catboost classes', trees, bias


# ------------------------------------------------------------------ Spark

def spark_tree(cls, t, impurity):
    class Split:
        def __init__(self, i):
            self.featureIndex = lambda: t['feat'][i]
            self.threshold = lambda: t['thr'][i]
            self.getClass = lambda: 'class org.apache.spark.ml.tree.ContinuousSplit'

    class Node:
        def __init__(self, i):
            leaf = t['left'][i] < 0
            self.leftChild = lambda: Node(t['left'][i])
            self.rightChild = lambda: Node(t['right'][i])
            self.subtreeDepth = lambda: 0 if leaf else 1 + max(Node(t['left'][i]).subtreeDepth(), Node(t['right'][i]).subtreeDepth())
            self.split = lambda: Split(i)
            self.prediction = lambda: t['raw'][i][0]
            st = types.SimpleNamespace(stats=lambda: list(t['raw'][i]), count=lambda: t['w'][i])
            self.impurityStats = lambda: st

    model = cls()
    model._java_obj = types.SimpleNamespace(rootNode=lambda: Node(0), getImpurity=lambda: impurity)
    return model


def spark(ctx, rng, rows, n_trees):
    clf = rng.random() < 0.5
    form = rng.choice(['forest', 'gbt', 'tree'])
    classes = SPARK_C if clf else SPARK_R
    if form == 'tree':
        n_trees = 1
    counts = clf and form != 'gbt'
    d = rng.choice([2, 3]) if counts else 1
    _, trees = gen.hand(rng, rows, n_trees=n_trees, d=d, style='reg')
    even = form == 'forest' and rng.random() < 0.6
    weights = [1.0 if even else rng.choice([1.0, 0.25, 0.5]) for _ in trees]
    sub = classes[2] if counts else SPARK_R[2]
    subs = []
    for t, w in zip(trees, weights):
        if counts:
            t['raw'] = []
            for _ in t['val']:
                c = [float(rng.randint(0, 9)) for _ in range(d)]
                c[rng.randrange(d)] += 1
                t['raw'].append(c)
            share = [[z / sum(c) for z in c] for c in t['raw']]
        else:
            t['raw'] = share = [list(v) for v in t['val']]
        f = w if form == 'gbt' else w / sum(weights) if form == 'forest' else 1.0
        t['val'] = [[z * f for z in v] for v in share]
        subs.append(spark_tree(sub, t, 'gini' if counts else 'variance'))
    if form == 'tree':
        model = subs[0]
    else:
        model = classes[0 if form == 'forest' else 1]()
        model.trees, model.treeWeights = subs, weights
        model._java_obj = types.SimpleNamespace(getImpurity=lambda: 'gini' if counts else 'variance')
    return model, 'spark ' + form + (' clf' if clf else ' reg'), trees


# ------------------------------------------------------------------ other formats of plain trees

def plain(ctx, rng, trees):
    form = rng.choice(['names', 'list', 'json', 'text'])
    d = len(trees[0]['val'][0])
    if form in ('json', 'text') and d > 1:
        form = 'list'
    dicts = gen.to_model(trees)['trees']
    for e, t in zip(dicts, trees):
        e['children_default'] = np.array([(l if k else r) if l >= 0 else -1 for l, r, k in zip(t['left'], t['right'], t['default'])])
        if form != 'list' or rng.random() < 0.5:
            for a, b in (('features', 'feature'), ('thresholds', 'threshold'), ('values', 'value')):
                e[b] = e.pop(a)
    if form == 'names':
        return {'trees': dicts}, 'plain names'
    if form == 'list':
        s = rng.choice([1.0, 1.0, 0.5])
        if s != 1.0:
            for t in trees:
                t['val'] = [[z * s for z in v] for v in t['val']]
        return [SingleTree(e, scaling=s) for e in dicts], 'plain list'
    dumped = []
    for t in trees:
        # XGBoost numbers the nodes level by level
        order, queue = {}, [0]
        while queue:
            i = queue.pop(0)
            order[i] = len(order)
            if t['left'][i] >= 0:
                queue += [t['left'][i], t['right'][i]]

        def js(i, depth=0):
            if t['left'][i] < 0:
                return {'nodeid': order[i], 'leaf': t['val'][i][0], 'cover': t['w'][i]}
            return {'nodeid': order[i], 'depth': depth, 'split': t['feat'][i], 'split_condition': t['thr'][i],
                    'yes': order[t['left'][i]], 'no': order[t['right'][i]],
                    'missing': order[t['left' if t['default'][i] else 'right'][i]], 'gain': 1.5, 'cover': t['w'][i],
                    'children': [js(t['left'][i], depth + 1), js(t['right'][i], depth + 1)]}

        def text(i, depth=0):
            n = order[i]
            if t['left'][i] < 0:
                return '%s%d:leaf=%r,cover=%r\n' % ('\t' * depth, n, t['val'][i][0], t['w'][i])
            return '%s%d:[f%d<%r] yes=%d,no=%d,missing=%d,gain=1.5,cover=%r\n' % (
                '\t' * depth, n, t['feat'][i], t['thr'][i], order[t['left'][i]], order[t['right'][i]],
                order[t['left' if t['default'][i] else 'right'][i]], t['w'][i]) + text(t['left'][i], depth + 1) + text(t['right'][i], depth + 1)

        dumped.append(js(0) if form == 'json' else text(0))
    return {'trees': dumped}, 'plain ' + form


# ------------------------------------------------------------------ the check

def with_default(rng, trees):
    for t in trees:
        t['default'] = [rng.random() < 0.5 for _ in t['left']]


def follow(t, x):
    """the leaf of a point with missing values"""
    i = 0
    while t['left'][i] >= 0:
        z = x[t['feat'][i]]
        go = t['default'][i] if z != z else z <= t['thr'][i]
        i = t['left'][i] if go else t['right'][i]
    return i


def case(ctx, rng, family):
    m = rng.randint(1, 5) if rng.random() < 0.8 else rng.randint(9, 14)
    rows, dk = gen.data(rng, rng.randint(6, 40), m)
    rows = gen.f32(rows)
    nt = rng.choice([1, 2, 3, 5, 8])
    off = None
    if family == 'gpboost':
        _, trees = gen.hand(rng, rows, n_trees=nt, d=1, style='reg', depth=rng.choice([2, 4, 6]))
        if rng.random() < 0.15:
            t = trees[rng.randrange(len(trees))]
            for k, v in (('left', [-1]), ('right', [-1]), ('feat', [-2]), ('thr', [-2.0]), ('val', [[0.75]]), ('w', [float(len(rows))])):
                t[k] = v
            ctx.count('constant-tree')
        with_default(rng, trees)
        model, kind = gpboost(ctx, rng, trees)
    elif family == 'catboost':
        model, kind, trees, off = catboost(ctx, rng, rows, nt)
    elif family == 'spark':
        model, kind, trees = spark(ctx, rng, rows, nt)
    else:
        _, trees = gen.hand(rng, rows, n_trees=nt, style='reg')
        with_default(rng, trees)
        model, kind = plain(ctx, rng, trees)
    f = F.Forest(trees, m)
    off = off or [0.0] * f.d
    thr = f.thresholds if kind not in ('plain json', 'plain text') else []
    X = gen.f32(gen.points(rng, rows, rng.randint(3, 8), [(a, float(np.float32(b))) for a, b in thr]))
    if kind in ('plain json', 'plain text'):
        # XGBoost sends a point on a threshold to the right, the stored trees to the left: not claimed
        X = [x for x in X if not any(x[a] == b for a, b in f.thresholds)] or [[1e6] * m]
    want = [[a + b for a, b in zip(f.predict(x), off)] for x in X]
    if isinstance(model, CBC):
        model.predict_proba = lambda Z: proba([[a + b for a, b in zip(f.predict(z), off)] for z in np.asarray(Z).tolist()])
    scale = max([1.0] + [abs(z) for z in F.flat(want)])
    tol = 1e-9 * scale
    ctx.count('kind:' + kind)
    det = {'model': kind, 'trees': trees, 'X': X}
    acv = ctx.call('ACVTree[%s]' % kind, ACVTree, model, gen.arr(rng, rows + X))
    ctx.sample({'model': kind, 'columns': m, 'trees': len(trees), 'x': X[0], 'output': want[0]})
    if family != 'spark':
        got = np.asarray(ctx.call('predict[%s]' % kind, acv.predict, np.array(X))).reshape(len(X), -1).tolist()
        ctx.observed('predict', (kind, rounded(want)) if len({tuple(z) for z in want}) > 1 else None)
        ctx.check(F.maxdiff(got, want) <= tol, 'predict:' + kind, lambda: 'the loaded model (%s) gives %s where its source gives %s' % (
            kind, got, want), det)
    out = np.asarray(ctx.call('compute_exp[%s]' % kind, acv.compute_exp, np.array(X), np.arange(m), np.array(rows + X))).reshape(len(X), -1).tolist()
    tiled = [f.predict(x) for x in X]
    ctx.observed('tiling', (kind, rounded(tiled)) if len({tuple(z) for z in tiled}) > 1 else None)
    ctx.check(F.maxdiff(out, tiled) <= tol, 'tiling:' + kind, lambda: 'the leaf regions of the loaded model (%s) give %s where its trees give %s' % (
        kind, out, tiled), det)
    if family in ('gpboost', 'plain'):
        Z = [[float('nan') if rng.random() < 0.4 else z for z in x] for x in X]
        wz = [[sum(t['val'][follow(t, z)][j] for t in trees) for j in range(f.d)] for z in Z]
        gz = np.asarray(ctx.call('predict[%s]' % kind, acv.predict, np.array(Z))).reshape(len(X), -1).tolist()
        ctx.observed('missing', (kind, rounded(wz)))
        ctx.check(F.maxdiff(gz, wz) <= tol, 'missing:' + kind, 'a missing value does not follow the default direction (%s): %s instead of %s' % (kind, gz, wz),
                  dict(det, X=Z))
    judged(ctx, rng, kind, model, acv, f, rows, X, tol, off)


def weight(t, i):
    """the rows of the source in a node"""
    if t['w'][i] or t['left'][i] < 0:
        return t['w'][i]
    return weight(t, t['left'][i]) + weight(t, t['right'][i])


def path(t, i, S, x):
    """the average over the rows of the source, column by column from the root; None: no rows"""
    l, r = t['left'][i], t['right'][i]
    if l < 0:
        return t['val'][i]
    if t['feat'][i] in S:
        return path(t, l if x[t['feat'][i]] <= t['thr'][i] else r, S, x)
    p, q = weight(t, l), weight(t, r)
    a, b = path(t, l, S, x), path(t, r, S, x)
    if p + q <= 0 or a is None or b is None:
        return None
    return [(p * u + q * v) / (p + q) for u, v in zip(a, b)]


def judged(ctx, rng, kind, model, acv, f, rows, X, tol, off=None, unit=1.0):
    """what is computed from the loaded trees"""
    m = f.m
    # the splits of a CatBoost tree have no order, which the average given some columns depends on
    S, x = [] if isinstance(model, CBC) else gen.subset(rng, m, 0, m), rng.choice(X)
    parts = [path(t, 0, S, x) for t in f.trees]
    if isinstance(model, CBC) and any(t['left'][i] < 0 and t['w'][i] <= 0 for t in f.trees for i in range(len(t['w']))):
        parts = [None]
    if None not in parts:
        want = [unit * sum(p[j] for p in parts) for j in range(f.d)]
        got = npt(ctx.call('shap_cond_exp[%s]' % kind, shap_cond_exp, np.array([x]), list(S), acv))[0]
        ctx.observed('rows', (kind, rounded(want)) if len(f.trees[0]['left']) > 1 and len(S) < m else None)
        ctx.check(F.maxdiff([got], [want]) <= tol * (1 + len(f.trees)), 'rows:' + kind, lambda: 'the average of the loaded model (%s) over the rows of its nodes given %s is %s, '
                  'of its source %s' % (kind, S, got, want), {'model': kind, 'trees': f.trees, 'x': x, 'S': S})
    off = off or [0.0] * f.d
    det = {'model': kind, 'trees': f.trees, 'X': X, 'rows': rows}
    if m <= 4 and rng.random() < 0.4:
        game = F.Game(f, rows + X)
        sv = npt(ctx.call('shap_values[%s]' % kind, acv.shap_values, np.array(X[:1]), [[]]))[0]
        ref = F.shapley([[j] for j in range(m)], lambda S: game.v(X[0], S), f.d)[0]
        ctx.observed('shap', (kind, rounded(ref)) if sum(any(z) for z in ref) > 1 else None)
        ctx.check(F.maxdiff(sv, ref) <= tol * (1 + len(f.trees)), 'shap:' + kind, 'attributions of the loaded model (%s) are not its Shapley values' % kind, det)
    if isinstance(model, (lightgbm.LGBMClassifier, CBC)) and f.d == 1 and m > 1:
        data = rows + X
        P = npt(model.predict_proba(np.array(data)))
        cls = [int(p[1] > p[0]) for p in P]
        if len(set(cls)) < 2 or any(abs(p[0] - p[1]) < 1e-9 for p in P):
            return
        ref = F.SdpClf(F.Game(f, data), cls, True)
        S = gen.subset(rng, m, 1, m - 1)
        name = rng.choice(['compute_sdp_clf', 'compute_sdp_clf_nopa'])
        sdp = npt(ctx.call('%s[%s]' % (name, kind), getattr(acv, name), np.array(X), np.array(S), np.array(data)))
        for i, x in enumerate(X):
            r, ok = ref.sdp(x, cls[len(rows) + i], S)
            if not ok:
                continue
            ctx.observed('sdp', (kind, round(r, 6)) if 0 < r < 1 else None)
            if not abs(sdp[i] - r) <= 1e-7 * max(1.0, abs(r)):
                ctx.fail('sdp:' + kind, 'the same decision probability is %r, by definition %r' % (sdp[i], r), dict(det, S=S, x=x))
                return


def categories(ctx, rng):
    """splits on categories cannot be loaded: refused, or loaded as what they are"""
    m = rng.randint(1, 3)
    rows = [[float(rng.randrange(5)) for _ in range(m)] for _ in range(20)]
    which = rng.choice(['lightgbm', 'lightgbm', 'linear', 'catboost'])
    c, a, b = float(rng.randrange(5)), gen.q(rng.gauss(0, 1)), gen.q(rng.gauss(0, 1)) + 3
    if which != 'catboost':
        X = np.array(rows)
        kw = dict(n_estimators=rng.choice([1, 3]), num_leaves=rng.choice([2, 4]), min_child_samples=2, n_jobs=1, verbose=-1)
        if which == 'linear':
            model = lightgbm.LGBMRegressor(linear_tree=True, **kw).fit(X, X[:, 0] * X[:, -1] + X[:, 0])
        else:
            y = np.where(X[:, 0] == c, 3.0, 0.0) + (X[:, -1] if rng.random() < 0.5 else 0)
            model = lightgbm.LGBMRegressor(cat_smooth=0, min_data_per_group=1, **kw).fit(X, y, categorical_feature=[0])
        want = np.asarray(model.predict(X, raw_score=True)).tolist()
    else:
        model = CBC()
        model.get_cat_feature_indices = lambda: [0]

        def save(path, format='cbm', **kw):
            text = ({'oblivious_trees': [{'leaf_values': [a, b], 'leaf_weights': [10, 10], 'splits': [
                {'cat_feature_index': 0, 'split_index': 0, 'split_type': 'OneHotFeature', 'value': int(c)}]}], 'scale_and_bias': [1, [0]],
                'model_info': {'params': {'tree_learner_options': {'depth': 1}}}})
            with open(path, 'w') as out:
                json.dump(text, out)

        model.save_model = save
        want = [b if x[0] == c else a for x in rows]
    try:
        got = np.asarray(ACVTree(model, np.array(rows)).predict(np.array(rows))).ravel().tolist()
    except Exception:
        ctx.count('refused')
        ctx.observed('category', (which, tuple(want)))
        return
    ctx.observed('category', (which, tuple(want)))
    ctx.check(F.maxdiff(got, want) <= 1e-9, 'predict:category ' + which, 'a model with a split on a category is loaded as another one', {'rows': rows, 'got': got, 'want': want})


def stand_in(family):
    return lambda ctx, rng: case(ctx, rng, family)


WORKLOADS = dict({k: stand_in(k) for k in ('gpboost', 'catboost', 'spark', 'plain')}, lightgbm=real_lightgbm, categories=categories)
