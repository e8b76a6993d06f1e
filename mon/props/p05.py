"""Active Shapley values: the players are the sufficient columns, the null columns get nothing."""
import numpy as np
from .. import gen, forest as F
from ..common import setup, large, npt, rounded, shape


def active(c, x, players, null):
    """Shapley values of the game v*(Z) = v(Z and the null columns), v*(nothing) = v(nothing)"""
    phi, memo = F.shapley(players, lambda S: c.game.v(x, list(S) + null) if S else c.game.v(x, []), c.forest.d)
    return F.expand(players, phi, c.m, c.forest.d), memo


def compare(ctx, c, name, got, X, ref, memos, detail):
    if got is None or shape(got) != (len(X), c.m, c.forest.d):
        ctx.fail('shape:' + name, '%s returned shape %s' % (name, None if got is None else shape(got)))
        return
    g = npt(got)
    ctx.observed('active', (name.startswith('py'), rounded(ref)) if any(abs(z) > 1e-9 for z in F.flat(ref)) else None)
    ctx.count('impl:' + name)
    dlt = F.maxdiff(g, ref)
    if not dlt <= 1e-9 * c.scale:
        ctx.fail('active:' + name, '%s differs from the active Shapley values by %g' % (name, dlt),
                 dict(detail, X=X, got=g, exact=ref, rows=c.rows, trees=c.forest.trees))


def problem(ctx, rng, big):
    if big:
        c = large(ctx, rng)
        return c, c.X, c.G or [[]]
    c = setup(ctx, rng, kind=rng.choice(['hand', 'hand', 'hand', 'trained']), mmax=6)
    X = gen.points(rng, c.rows, rng.randint(1, 5), c.forest.thresholds)
    return c, X, gen.groups(rng, c.m) if rng.random() < 0.4 else [[]]


def single(ctx, rng, big=False):
    """one partition of the columns for all samples"""
    c, X, C = problem(ctx, rng, big)
    P = gen.members(c.m, C)
    k = rng.randint(1, len(P))
    players = rng.sample(P, k)
    null = [j for p in P if p not in players for j in p]
    rng.shuffle(null)
    S = [j for p in players for j in p]
    rng.shuffle(S)
    ref, memos = zip(*[active(c, x, players, null) for x in X])
    ref = list(ref)
    det = {'S': S, 'N': null, 'C': C}
    ctx.sample(dict(det, columns=c.m, rows=c.n, x=X[0], exact=ref[0]))
    Xa = gen.arr(rng, X)
    s, n = np.array(S, dtype=np.int64), np.array(null, dtype=np.int64)
    for name in ('shap_values_acv', 'shap_values_acv_nopa', 'py_shap_values_acv'):
        if name.startswith('py') and (big or rng.random() < 0.4):
            continue
        got = ctx.call(name, getattr(c.acv, name), Xa, s.tolist() if name.startswith('py') else s,
                       n.tolist() if name.startswith('py') else n, C)
        compare(ctx, c, name, got, X, ref, memos, det)
    if k < len(P):
        ctx.count('null_columns')


def adaptive(ctx, rng, big=False):
    """every sample has its own partition"""
    c, X, C = problem(ctx, rng, big)
    P = gen.members(c.m, C)
    Sm = -np.ones((len(X), c.m), dtype=np.int64)
    Nm = -np.ones((len(X), c.m), dtype=np.int64)
    size = []
    ref, memos = [], []
    for i, x in enumerate(X):
        players = rng.sample(P, rng.randint(1, len(P)))
        S = [j for p in players for j in p]
        rng.shuffle(S)
        null = [j for j in range(c.m) if j not in S]
        Sm[i, :len(S)] = S
        Nm[i, len(S):] = null
        size.append(len(S))
        r, me = active(c, x, players, null)
        ref.append(r)
        memos.append(me)
        if len(S) == c.m:
            ctx.count('all_active')
        else:
            ctx.count('some_null')
    det = {'S': Sm.tolist(), 'size': size, 'C': C}
    ctx.sample(dict(det, columns=c.m, rows=c.n, x=X[0], exact=ref[0]))
    Xa = gen.arr(rng, X)
    for name in ('shap_values_acv_adap', 'shap_values_acv_adap_nopa'):
        got = ctx.call(name, getattr(c.acv, name), Xa, Sm, Nm, np.array(size, dtype=np.int64), C)
        compare(ctx, c, name, got, X, ref, memos, det)


def pipeline(ctx, rng):
    """the helpers that turn an explanation into active and null columns"""
    from acv_explainers.utils import get_null_coalition, get_active_null_coalition_list
    m, N = rng.randint(1, 7), rng.randint(1, 5)
    S = -np.ones((N, m), dtype=np.int64)
    size = []
    for i in range(N):
        s = gen.subset(rng, m, 0)
        S[i, :len(s)] = s
        size.append(len(s))
    keep = S.copy()
    s2, n2 = ctx.call('get_null_coalition', get_null_coalition, S, np.array(size))
    a, b = ctx.call('get_active_null_coalition_list', get_active_null_coalition_list, S, np.array(size))
    for i in range(N):
        act = keep[i, :size[i]].tolist()
        ctx.observed('partition', (m, tuple(act)))
        rest = sorted(set(range(m)) - set(act))
        if sorted(npt(n2)[i][size[i]:]) != rest or npt(s2)[i] != keep[i].tolist():
            ctx.fail('null', 'null columns %s of %s among %d' % (npt(n2)[i], act, m))
        if [int(z) for z in a[i]] != act or sorted(int(z) for z in b[i]) != rest:
            ctx.fail('null-list', 'active %s and null %s of %s among %d' % (a[i], b[i], act, m))


WORKLOADS = {'large': lambda ctx, rng: rng.choice([single, adaptive])(ctx, rng, True), 'single': single, 'adaptive': adaptive, 'pipeline': pipeline}
