"""A loaded ensemble is the source model: same output at every point, and its leaf regions tile the space."""
import numpy as np
import pandas as pd
from acv_explainers import ACVTree
from .. import gen, forest as F
from ..common import npt, rounded, shape


def source(rng, rows, nt=None, depth=None):
    """-> (model, kind, raw(X) -> n x d by the source library, offset)"""
    kind = rng.choice(gen.TRAINED + ['hgb_reg', 'xgb_booster'])
    nt = nt or rng.choice([1, 2, 3, 5, 12])
    depth = depth or rng.choice([1, 2, 3, 4, 6])
    if kind.startswith('hgb'):
        from sklearn.ensemble import HistGradientBoostingClassifier, HistGradientBoostingRegressor
        K = kind == 'hgb_clf'
        y = gen.labels(rng, rows, 2) if K else gen.target(rng, rows)
        model = (HistGradientBoostingClassifier if K else HistGradientBoostingRegressor)(
            max_iter=nt, max_depth=max(depth, 2), min_samples_leaf=2, early_stopping=False, random_state=1)
        model.fit(np.array(rows), np.array(y))
        return model, kind, lambda X: model._raw_predict(X).reshape(len(X), -1), None
    if kind == 'xgb_booster':
        model, _, y = gen.trained(rng, rows, rng.choice(['xgb_reg', 'xgb_clf', 'xgb_multi']), nt, depth)
        b = model.get_booster()
        import xgboost
        return b, kind, lambda X: np.asarray(b.predict(xgboost.DMatrix(X), output_margin=True)).reshape(len(X), -1), None
    model, kind, y = gen.trained(rng, rows, kind, nt, depth)
    fam, task = kind.split('_')
    if fam == 'xgb':
        return model, kind, lambda X: np.asarray(model.predict(X, output_margin=True)).reshape(len(X), -1), None
    if fam == 'gbt' and task != 'reg':
        return model, kind, lambda X: model.decision_function(X).reshape(len(X), -1), None
    if task == 'reg':
        return model, kind, lambda X: model.predict(X).reshape(len(X), -1), None
    return model, kind, lambda X: model.predict_proba(X), None


def f32(X):
    return np.array(X, dtype=np.float32).astype(float).tolist()


def thresholds(model, kind, m):
    try:
        return F.from_sklearn(model, kind, m).thresholds
    except Exception:
        return []


def large(ctx, rng):
    what, z = gen.large(rng)
    ctx.count('large')
    ctx.count('large:' + what)
    if what in ('deep', 'outputs') or rng.random() < 0.2:
        hand(ctx, rng, what)
    else:
        trained(ctx, rng, z)


def trained(ctx, rng, z=None):
    big = rng.random() < 0.3
    m = rng.randint(1, 12 if big else 6)
    n, nx, nt, depth = rng.randint(60, 250) if big else rng.randint(8, 60), rng.randint(3, 12), None, None
    if z:
        m, n, nx, nt, depth = z['m'], z['n'], z['nx'] + 2, z['n_trees'], z['depth']
    rows, dk = gen.data(rng, n, m)
    model, kind, raw, _ = source(rng, rows, nt, depth)
    X = f32(gen.points(rng, rows, nx, thresholds(model, kind, m)))
    Xa = np.array(X)
    want = npt(raw(Xa))
    scale = max([1.0] + [abs(z) for z in F.flat(want)])
    tol = (1e-9 if not kind.startswith('xgb') else 2e-5) * scale
    # the background contains the query points, so that no leaf that matters is empty
    bg = gen.arr(rng, rows + X)
    acv = ctx.call('ACVTree[%s]' % kind, ACVTree, model, bg)
    got = ctx.call('predict', acv.predict, np.array(X))
    g = np.asarray(got).reshape(len(X), -1).tolist()
    ctx.sample({'model': kind, 'columns': m, 'rows': len(rows), 'x': X[0], 'output': want[0]})
    ctx.observed('predict', (kind, rounded(want, 4)) if len({tuple(w) for w in want}) > 1 else None)
    ctx.count('kind:' + kind)
    ctx.check(F.maxdiff(g, want) <= tol, 'predict:' + kind.split('_')[0],
              lambda: 'the loaded %s differs from the source model by %g' % (kind, F.maxdiff(g, want)),
              {'X': X, 'got': g, 'want': want})
    # one point at a time, and as a one-dimensional array
    k = rng.randrange(len(X))
    one = np.asarray(ctx.call('predict', acv.predict, np.array(X[k]))).reshape(-1).tolist()
    ctx.check(F.maxdiff(one, want[k]) <= tol, 'predict-1d:' + kind.split('_')[0], 'predict of a single point differs from the source model',
              {'x': X[k], 'got': one, 'want': want[k]})
    if kind.startswith('xgb') and m > 1:
        Z = [[float('nan') if rng.random() < 0.4 else z for z in x] for x in X]
        wz = npt(raw(np.array(Z)))
        gz = np.asarray(ctx.call('predict', acv.predict, np.array(Z))).reshape(len(X), -1).tolist()
        ctx.observed('missing', rounded(wz, 4))
        ctx.check(F.maxdiff(gz, wz) <= tol, 'predict-missing', 'a missing value does not follow the default direction of the source model',
                  {'X': Z, 'got': gz, 'want': wz})
    tiling(ctx, rng, acv, X, want, got=g, tol=tol, kind=kind, m=m, bg=rows + X)


def tiling(ctx, rng, acv, X, want, got, tol, kind, m, bg):
    """with every column fixed, the leaves that remain possible are exactly the one leaf per tree in which the
    point lies: the conditional expectation is then the output of the source model (minus its constant offset)"""
    Xa = np.array(X)
    full = np.arange(m)
    out = np.asarray(ctx.call('compute_exp', acv.compute_exp, Xa, full, np.array(bg))).reshape(len(X), -1).tolist()
    off = [a - b for a, b in zip(want[0], out[0])]
    d = F.maxdiff([[b + o for b, o in zip(row, off)] for row in out], want)
    ctx.observed('tiling', (kind, rounded(out, 4)))
    ctx.check(d <= 2 * tol, 'tiling:' + kind.split('_')[0],
              'leaf regions do not give the output of the source model (difference %g)' % d,
              {'X': X, 'leaf regions': out, 'source model': want})
    if not kind.startswith(('gbt', 'hgb', 'xgb')):
        ctx.check(F.maxdiff(off, [0.0] * len(off)) <= 2 * tol, 'tiling-offset:' + kind.split('_')[0],
                  'the leaf regions of a model without offset are off by %r' % off, {'X': X, 'leaf regions': out})


def hand(ctx, rng, what=None):
    m = rng.randint(1, 7)
    rows, dk = gen.data(rng, rng.randint(4, 60), m)
    nx = rng.randint(3, 12)
    if what:
        _, z, rows, trees = gen.large_hand(rng, [what])
        m, nx, model = z['m'], z['nx'] + 2, gen.to_model(trees)
    else:
        model, trees = gen.hand(rng, rows, n_trees=rng.choice([1, 2, 4, 8]), depth=rng.choice([2, 4, 6]))
    off = 0.0
    if rng.random() < 0.3:
        off = model['base_offset'] = gen.q(rng.gauss(0, 1))
    f = F.Forest(trees, m)
    X = gen.points(rng, rows, nx, f.thresholds)
    want = [[z + off for z in f.predict(x)] for x in X]
    scale = max([1.0] + [abs(z) for z in F.flat(want)])
    acv = ctx.call('ACVTree', ACVTree, model, gen.arr(rng, rows + X))
    g = np.asarray(ctx.call('predict', acv.predict, np.array(X))).reshape(len(X), -1).tolist()
    ctx.observed('predict', ('hand', rounded(want)) if len({tuple(w) for w in want}) > 1 else None)
    ctx.check(F.maxdiff(g, want) <= 1e-9 * scale, 'predict:hand', 'a hand-made ensemble predicts %g away from its definition' % F.maxdiff(g, want),
              {'X': X, 'got': g, 'want': want})
    # as a table, and with the first trees only
    k = rng.choice([1, len(trees), -1, len(trees) + 2, rng.randint(1, len(trees))])
    fk = F.Forest(trees[:k] if 0 < k <= len(trees) else trees, m)
    wk = [[z + off for z in fk.predict(x)] for x in X]
    Z = pd.DataFrame(X, columns=['c%d' % j for j in range(m)])
    gk = np.asarray(ctx.call('predict', acv.predict, Z, tree_limit=k)).reshape(len(X), -1).tolist()
    ctx.observed('limit', (k, rounded(wk)) if 0 < k < len(trees) else None)
    ctx.check(F.maxdiff(gk, wk) <= 1e-9 * scale, 'predict:limit', 'with tree_limit %d of %d trees the output is %g away from their sum' %
              (k, len(trees), F.maxdiff(gk, wk)), {'X': X, 'got': gk, 'want': wk})
    one = np.asarray(ctx.call('predict', acv.predict, Z.iloc[0])).reshape(-1).tolist()
    ctx.check(F.maxdiff(one, want[0]) <= 1e-9 * scale, 'predict:series', 'predict of a row of a table differs from the definition',
              {'x': X[0], 'got': one, 'want': want[0]})
    tiling(ctx, rng, acv, X, [[z - off for z in w] for w in want], g, 1e-9 * scale, 'hand', m, rows + X)


def own(ctx, rng):
    """the forest that an explainer fits itself is the one of its parameters"""
    from acv_explainers import ACXplainer
    from skranger.ensemble import RangerForestClassifier, RangerForestRegressor
    m = rng.randint(2, 6)
    rows, dk = gen.data(rng, rng.randint(20, 80), m)
    clf = rng.random() < 0.5
    y = [float(z) for z in (gen.labels(rng, rows, rng.choice([2, 3])) if clf else gen.target(rng, rows))]
    kw = dict(n_estimators=rng.choice([1, 3, 8]), max_depth=rng.choice([1, 3, 5]), seed=rng.randrange(1, 10 ** 6),
              mtry=rng.choice([0, 1, m]), min_node_size=rng.choice([0, 1, 5]), replace=rng.random() < 0.6,
              sample_fraction=rng.choice([None, [0.6]]), importance=rng.choice(['impurity', 'none', 'permutation']),
              split_rule=rng.choice(['gini', 'extratrees']), num_random_splits=rng.choice([1, 3]))
    if kw['split_rule'] == 'gini':
        kw['num_random_splits'] = 1
    w = [rng.choice([0.5, 1.0, 4.0]) for _ in rows] if rng.random() < 0.3 else None
    X = gen.points(rng, rows, rng.randint(3, 12), [])
    ref = dict(kw)
    if not clf and kw['split_rule'] == 'gini':
        ref['split_rule'] = 'variance'
    if not clf:
        ref['quantiles'] = True
    source = (RangerForestClassifier if clf else RangerForestRegressor)(enable_tree_details=True, **ref)
    source.fit(np.array(rows), np.array(y), sample_weight=None if w is None else np.array(w))
    acx = ACXplainer(classifier=clf, **kw)
    ctx.call('fit', acx.fit, np.array(rows), np.array(y), sample_weight=None if w is None else np.array(w))
    pairs = [('predict', acx.predict, source.predict)]
    if clf:
        pairs.append(('predict_proba', acx.predict_proba, source.predict_proba))
    for name, f, g in pairs:
        want = np.asarray(g(np.array(X))).reshape(len(X), -1).tolist()
        got = np.asarray(ctx.call(name, f, np.array(X))).reshape(len(X), -1).tolist()
        ctx.observed('own', (name, rounded(want)) if len({tuple(z) for z in want}) > 1 else None)
        ctx.check(F.maxdiff(got, want) <= 1e-9 * max([1.0] + [abs(z) for z in F.flat(want)]), 'own:' + name,
                  '%s of the explainer differs from a forest fitted with its parameters' % name, {'kw': str(kw), 'X': X, 'got': got, 'want': want})


def categories(ctx, rng, n, kw):
    """splits on sets of categories cannot be loaded: they are refused, or loaded as what they are"""
    import sklearn.ensemble as E
    m = rng.randint(1, 4)
    rows = [[float(rng.randrange(5)) for _ in range(m)] for _ in range(n)]
    X = np.array(rows)
    y = np.exp((X[:, 0] % 2) + 0.1 * X[:, -1])
    model = E.HistGradientBoostingRegressor(**dict(kw, categorical_features=[0])).fit(X, y)
    want = model._raw_predict(X).ravel()
    try:
        got = np.asarray(ACVTree(model, X).predict(X)).ravel()
    except Exception:
        ctx.count('refused')
        return
    ctx.check(np.abs(got - want).max() <= 1e-9 * (1 + np.abs(want).max()), 'predict:categories',
              'a loaded model with categorical splits differs from the source model by %g' % np.abs(got - want).max())


def history(ctx, rng):
    """models whose fitted state is not what their parameters or the defaults say: refits, warm starts, changed
    parameters, early stops, slices, copies, other losses, label types, base scores and forests inside a boosting"""
    import copy
    import pickle
    import sklearn.ensemble as E
    import sklearn.tree as T
    import xgboost as xgb
    m = rng.randint(1, 5)
    rows, dk = gen.data(rng, rng.randint(24, 90), m)
    n = len(rows)
    X = np.array(rows)
    yr = np.array(gen.target(rng, rows), dtype=float)
    yp = np.exp(yr / max(1.0, np.abs(yr).max()))  # positive targets
    K = rng.choice([2, 3, 4])
    yc = np.array(gen.labels(rng, rows, 2))
    ym = np.array(gen.labels(rng, rows, 3 if K < 3 else K))
    ntree, depth = rng.choice([2, 3, 5]), rng.choice([2, 3, 4])
    seed = rng.randrange(1000)
    w = np.array([rng.choice([0.5, 1.0, 3.0]) for _ in rows])
    skl = dict(max_depth=depth, random_state=seed)
    predict = lambda mo: lambda Z: mo.predict(Z)
    proba = lambda mo: lambda Z: mo.predict_proba(Z)
    decision = lambda mo: lambda Z: mo.decision_function(Z)
    margin = lambda mo: lambda Z: mo.predict(Z, output_margin=True)
    booster = lambda b: lambda Z: b.predict(xgb.DMatrix(Z), output_margin=True)
    family = rng.choice(['forest', 'tree', 'gbt', 'xgb', 'xgb', 'xgb', 'hgb'])
    what = []

    def pick(*options):
        what.append(rng.choice(options))
        return what[-1]

    if family == 'forest':
        clf = rng.random() < 0.6
        C = {'rf': (E.RandomForestRegressor, E.RandomForestClassifier),
             'et': (E.ExtraTreesRegressor, E.ExtraTreesClassifier)}[pick('rf', 'et')][clf]
        kw = dict(skl, n_estimators=ntree)
        y = yr
        if clf:
            y = {'plain': ym, 'strings': np.array(['no', 'yes', 'maybe', 'never'])[ym % 4], 'gaps': ym * 7 - 3,
                 'binary': yc, 'bool': yc > 0}[pick('plain', 'strings', 'gaps', 'binary', 'bool')]
            kw['class_weight'] = pick(None, 'balanced')
            kw['criterion'] = pick('gini', 'entropy')
        else:
            kw['criterion'] = pick('squared_error', 'absolute_error')
            if pick('one', 'one', 'several outputs') == 'several outputs':
                y = np.c_[yr, yp][:, [0, 1, 0]]
        if C in (E.RandomForestRegressor, E.RandomForestClassifier) and pick('boot', 'no-boot') == 'no-boot':
            kw['bootstrap'] = False
        if pick('w', 'no-w') == 'w':
            fit = lambda mo: mo.fit(X, y, sample_weight=w)
        else:
            fit = lambda mo: mo.fit(X, y)
        model = fit(C(**kw))
        raw = (proba if clf else predict)
    elif family == 'tree':
        clf = rng.random() < 0.6
        C = {'dt': (T.DecisionTreeRegressor, T.DecisionTreeClassifier),
             'et': (T.ExtraTreeRegressor, T.ExtraTreeClassifier)}[pick('dt', 'et')][clf]
        kw = dict(skl)
        limit = pick('depth', 'leaves', 'pruned', 'full')
        if limit == 'leaves':
            kw.update(max_depth=None, max_leaf_nodes=rng.randint(2, 9))
        elif limit == 'pruned':
            kw['ccp_alpha'] = 0.01
        elif limit == 'full':
            kw['max_depth'] = None
        y = (np.array(['p', 'q', 'r', 's'])[ym % 4] if pick('strings', 'numbers') == 'strings' else ym) if clf else yr
        if not clf and pick('one', 'one', 'several outputs') == 'several outputs':
            y = np.c_[yr, yp]
        fit = lambda mo: mo.fit(X, y, sample_weight=w if what[-1] == 'w' else None)
        pick('w', 'no-w')
        model = fit(C(**kw))
        raw = (proba if clf else predict)
    elif family == 'gbt':
        clf = rng.random() < 0.5
        kw = dict(skl, n_estimators=ntree, learning_rate=rng.choice([0.1, 0.5, 1.0]), subsample=rng.choice([1.0, 0.6]))
        if clf:
            kw['loss'] = pick('log_loss', 'exponential', 'deviance')
            y = np.array(['x', 'y'])[yc] if pick('strings', 'numbers') == 'strings' else yc
        else:
            kw['loss'] = pick('squared_error', 'absolute_error', 'huber', 'quantile')
            y = yr
        if pick('stop', 'all') == 'stop' and n > 40:
            kw.update(n_estimators=40, n_iter_no_change=2, validation_fraction=0.3)
        fit = lambda mo: mo.fit(X, y, sample_weight=w if what[-1] == 'w' else None)
        pick('w', 'no-w')
        model = fit((E.GradientBoostingClassifier if clf else E.GradientBoostingRegressor)(**kw))
        raw = (decision if clf else predict)
    elif family == 'hgb':
        kw = dict(max_iter=ntree, max_depth=max(depth, 2), min_samples_leaf=3, random_state=seed)
        kw['early_stopping'] = pick(False, True)
        kw['loss'] = pick('squared_error', 'absolute_error', 'poisson')
        if kw['early_stopping']:
            kw.update(max_iter=30, n_iter_no_change=2)
        y = yp if kw['loss'] == 'poisson' else yr
        fit = lambda mo: mo.fit(X, y)
        if rng.random() < 0.15:
            categories(ctx, rng, n, kw)
        model = fit(E.HistGradientBoostingRegressor(**kw))
        raw = lambda mo: lambda Z: mo._raw_predict(Z)
    else:
        kw = dict(n_estimators=ntree, max_depth=depth, n_jobs=1, verbosity=0, random_state=seed,
                  learning_rate=rng.choice([0.1, 0.3, 1.0]), tree_method=pick('exact', 'hist'))
        kw['num_parallel_tree'] = pick(1, 1, 2, 3)
        kw['subsample'] = rng.choice([1.0, 0.7])
        task = pick('reg', 'clf', 'multi', 'rank')
        fitkw = {}
        if task == 'reg':
            ob = kw['objective'] = pick('reg:squarederror', 'reg:logistic', 'count:poisson', 'reg:gamma', 'reg:tweedie',
                                        'reg:pseudohubererror', 'reg:squaredlogerror', 'survival:cox', 'binary:logitraw')
            y = yr if ob in ('reg:squarederror', 'reg:pseudohubererror') else yp / 4 if ob == 'reg:logistic' else \
                yc if ob.startswith('binary') else np.round(yp * 3) if ob == 'count:poisson' else yp
            C = xgb.XGBRegressor
        elif task == 'rank':
            y, C = yc, xgb.XGBRanker
            fitkw['group'] = [n // 2, n - n // 2]
        else:
            y, C = (yc if task == 'clf' else ym), xgb.XGBClassifier
            kw['use_label_encoder'] = False
        if task != 'rank' and pick('base', 'default') == 'base':
            kw['base_score'] = rng.choice([0.9, 0.8, 0.2, 0.3, 0.6, round(rng.uniform(0.02, 0.98), 3),
                                           float(np.float32(np.frombuffer(bytes([rng.choice(b'binf'), rng.choice(b'binf'),
                                                                                rng.randrange(256), 62]), dtype='<f4')[0]))])
        limit = pick('none', 'gamma', 'leaves', 'weight')
        if limit == 'gamma':
            kw['gamma'] = 0.5
        elif limit == 'leaves':
            kw.update(tree_method='hist', grow_policy='lossguide', max_leaves=rng.randint(2, 6))
        elif limit == 'weight':
            kw['min_child_weight'] = rng.choice([3, n])
        if task in ('reg', 'clf', 'multi') and pick('stop', 'all', 'all') == 'stop':
            k = max(8, n // 2)
            kw['n_estimators'] = 20
            kw['learning_rate'] = 1.0
            cut = np.arange(n) < k
            if task == 'reg' or len(set(y[cut])) == len(set(y)) == len(set(y[~cut])):
                fitkw.update(eval_set=[(X[~cut], y[~cut])], early_stopping_rounds=rng.choice([1, 2]), verbose=False)
                fit = lambda mo: mo.fit(X[cut], y[cut], **fitkw)
            else:
                fit = lambda mo: mo.fit(X, y)
        else:
            fit = lambda mo: mo.fit(X, y, **fitkw)
        model = fit(C(**kw))
        if hasattr(model, 'best_iteration') and fitkw.get('early_stopping_rounds') and model.best_iteration + 1 < model.get_booster().num_boosted_rounds():
            ctx.count('stopped-early')
        raw = margin
    # what happens to the fitted model before it is explained
    then = pick('nothing', 'params', 'refit', 'pickle', 'copy', 'warm', 'slice')
    name = type(model).__name__
    if then == 'params':
        if family in ('forest', 'gbt'):
            model.set_params(n_estimators=ntree + rng.choice([-1, 1, 20]))
        elif family == 'xgb':
            model.set_params(n_estimators=ntree + 20)
    elif then == 'refit':
        fit(model)
    elif then == 'pickle':
        model = pickle.loads(pickle.dumps(model))
    elif then == 'copy':
        model = copy.deepcopy(model)
    elif then == 'warm' and family in ('forest', 'gbt') and kw.get('class_weight') is None:
        model.set_params(n_estimators=len(model.estimators_) + 2, warm_start=True)
        fit(model)
    elif then == 'slice':
        if family == 'forest' and len(model.estimators_) > 2:
            model.estimators_ = model.estimators_[:2]
        elif family == 'xgb' and task != 'rank' and model.get_booster().num_boosted_rounds() > 1 and not fitkw:
            model = model.get_booster()[:1 + rng.randrange(model.get_booster().num_boosted_rounds() - 1)]
            raw = booster
    kind = '%s_%s' % (family, name)
    Xq = f32(gen.points(rng, rows, rng.randint(4, 10), []))
    want = npt(np.asarray(raw(model)(np.array(Xq))).reshape(len(Xq), -1))
    scale = max([1.0] + [abs(z) for z in F.flat(want)])
    tol = (2e-5 if family == 'xgb' else 1e-9) * scale
    bg = rows + Xq
    acv = ctx.call('ACVTree[%s]' % kind, ACVTree, model, gen.arr(rng, bg))
    got = np.asarray(ctx.call('predict', acv.predict, np.array(Xq))).reshape(len(Xq), -1).tolist()
    ctx.observed('history', (kind, str(what), rounded(want, 4)) if len({tuple(z) for z in want}) > 1 else None)
    ctx.count('then:' + then)
    ctx.sample({'model': name, 'history': [str(z) for z in what], 'x': Xq[0], 'output': want[0]})
    ctx.check(F.maxdiff(got, want) <= tol, 'history-predict:' + family,
              lambda: 'the loaded %s (%s) differs from the source model by %g' % (name, what, F.maxdiff(got, want)),
              {'X': Xq, 'got': got, 'want': want})
    tiling(ctx, rng, acv, Xq, want, got=got, tol=tol, kind=kind, m=m, bg=bg)


WORKLOADS = {'large': large, 'own': own, 'trained': trained, 'hand': hand, 'history': history}
