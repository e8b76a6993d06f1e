"""Normalized attributions: per leaf the Shapley value of its normalized probability over the players on its path."""
from .. import gen, forest as F
from ..common import setup, large, npt, rounded, shape


def path_players(P, lf):
    return [p for p in P if any(f in lf.box for f in p)]


def reference(game, P, x, memo=None):
    d, m = game.f.d, game.m
    phi = [[0.0] * d for _ in range(m)]
    trees = {}
    for leaf in game.L:
        trees.setdefault(leaf[0], []).append(leaf)
    memo = {}

    def prob(leaf, S):
        k = (leaf[0], frozenset(S))
        if k not in memo:
            memo[k] = {id(o): game.p_leaf(o, x, set(S)) for o in trees[leaf[0]]}
        t = memo[k]
        z = sum(t.values())
        return [t[id(leaf)] / z if z else 0.0]
    for leaf in game.L:
        pp = path_players(P, leaf[1])
        ph, _ = F.shapley(pp, lambda S: prob(leaf, S), 1)
        for p, v in zip(pp, ph):
            for j in p:
                for k in range(d):
                    phi[j][k] += v[0] * leaf[1].val[k]
    return phi


def run(ctx, rng, cache, grouped, big=False):
    C = 'random' if grouped else None
    both = rng.random() < 0.5
    if big:
        kw = dict(cache_normalized=True, cache=both, C=C, multi_threads=rng.random() < 0.5) if cache else {}
        c = large(ctx, rng, ['rows', 'points', 'trees', 'outputs', 'deep'] + ([] if cache else ['many_rows', 'columns']), **kw)
        X, C = c.X, (c.C if cache else c.G) or [[]]
    else:
        c = setup(ctx, rng, kind=rng.choice(['hand', 'hand', 'hand', 'trained']), mmax=6, nmax=30, cache=cache and both,
                  C=C, cache_normalized=cache, depth=3, n_trees=rng.choice([1, 2, 3]),
                  multi_threads=rng.random() < 0.5)
        X = gen.points(rng, c.rows, rng.randint(1, 4), c.forest.thresholds)
        C = c.C or [[]]
    P = gen.members(c.m, C)
    ref = [reference(c.game, P, x) for x in X]
    Xa = gen.arr(rng, X)
    names = ['shap_values_normalized']
    if cache:
        names += ['shap_values_normalized_cache', 'shap_values_normalized_cache_nopa']
    for name in names:
        got = ctx.call(name, getattr(c.acv, name), Xa, C)
        if shape(got) != (len(X), c.m, c.forest.d):
            ctx.fail('shape:' + name, '%s returned shape %s' % (name, shape(got)))
            continue
        got = npt(got)
        for i, x in enumerate(X):
            ctx.observed('normalized', (name, rounded(ref[i])) if any(abs(z) > 1e-9 for z in F.flat(ref[i])) else None)
            dlt = F.maxdiff(got[i], ref[i])
            if not dlt <= 1e-9 * c.scale:
                ctx.fail('exact:' + name, '%s differs from its definition by %g' % (name, dlt),
                         {'C': C, 'x': x, 'got': got[i], 'exact': ref[i], 'rows': c.rows, 'trees': c.forest.trees})
                break
            # local accuracy, wherever the leaf of the point holds background rows in every tree
            if all(any(l[0] == b and l[3] and l[1].has(x) for l in c.game.L) for b in range(len(c.forest.trees))):
                mean = c.game.v(x, [])
                out = c.forest.predict(x)
                tot = [sum(got[i][p[0]][k] for p in P) for k in range(c.forest.d)]
                ctx.observed('accuracy')
                if F.maxdiff(tot, [a - b for a, b in zip(out, mean)]) > 1e-8 * c.scale:
                    ctx.fail('accuracy:' + name, '%s: values do not add up to the output minus its mean' % name,
                             {'C': C, 'x': x, 'got': got[i], 'sum': tot, 'out': out, 'mean': mean})
                    break
    ctx.sample({'columns': c.m, 'C': C, 'x': X[0], 'values': ref[0]})


WORKLOADS = {'large': lambda ctx, rng: run(ctx, rng, rng.random() < 0.4, rng.random() < 0.3, True), 'direct': lambda ctx, rng: run(ctx, rng, False, False), 'groups': lambda ctx, rng: run(ctx, rng, False, True),
             'cache': lambda ctx, rng: run(ctx, rng, True, False), 'cache_groups': lambda ctx, rng: run(ctx, rng, True, True)}
