"""Local rules keep the probability of the instance, maximal rules cover only rows that reach the level."""
import numpy as np
from .. import gen, acxref as A, forest as F
from ..common import npt, rounded
from .p11 import cmp

TOL = 1e-9


def inside(x, box, feats, closed=False):
    for f in feats:
        lo, hi = box[f]
        if not ((lo <= x[f] if closed else lo < x[f]) and x[f] <= hi):
            return False
    return True


def in_box(rng, x, box, S):
    """another point of the box, the columns outside S arbitrary"""
    z = list(x)
    for f in range(len(x)):
        lo, hi = box[f]
        if f not in S:
            z[f] = gen.q(z[f] + rng.gauss(0, 2))
            continue
        lo, hi = max(lo, x[f] - 3), min(hi, x[f] + 3)
        z[f] = rng.choice([hi, x[f], (x[f] + hi) / 2, (x[f] + lo) / 2])
        if not lo < z[f] <= hi:
            z[f] = x[f]
    return z


def local(ctx, rng, **kw):
    c = A.setup(ctx, rng, **kw)
    N = range(len(c.X))
    a = c.acx
    kw = dict(min_node_size=c.minsize, t=c.t)
    lo = [gen.q(y - rng.uniform(0, 1)) for y in c.yx]
    hi = [l + rng.choice([0.25, 1.0, 2.0]) for l in lo]
    for kind in rng.sample(['sdp', 'ddp', 'cdp'], 2):
        name = 'compute_%s_rule' % kind
        if kind == 'cdp':
            val = lambda i: c.pf.within(c.yx[i], lo[i], hi[i], c.clf)
            args = (c.Xa, c.ya, np.array(lo), np.array(hi), c.data, c.ydata, c.S)
        else:
            val = lambda i: (c.pf.same if kind == 'sdp' else c.pf.differ)(c.yx[i], c.tt[i], c.clf)
            args = (c.Xa, c.ya, c.data, c.ydata, c.S)
        v, r = ctx.call(name, getattr(a, name), *args, **kw)
        want, boxes = [], []
        for i in N:
            b = A.box0(c.m)
            want.append(c.pf.mean(c.pf.side_x(c.X[i], c.S[i]), c.minsize, val(i), part=b))
            boxes.append(b)
        cmp(ctx, c, name, v, want, (lo, hi))
        r = npt(r)
        ctx.observed('rule', rounded(boxes))
        if F.maxdiff(r, boxes) > TOL:
            ctx.fail('rule:' + name, '%s: not the intersection of the conditions of the instance' % name,
                     {'got': r, 'expected': boxes, 'X': c.X, 'S': c.S})
            continue
        for i in N:
            far = [f for f in range(c.m) if r[i][f][c.X[i][f] > 0] == (A.BIG if c.X[i][f] > 0 else -A.BIG) and abs(c.X[i][f]) >= A.BIG]
            if far:                # 1e10 stands for an unbounded side
                ctx.count('beyond')
                ctx.fail('beyond:' + name, '%s: the rule does not contain its instance, whose value is beyond 1e10' % name,
                         {'x': c.X[i], 'rule': r[i]})
            if not inside(c.X[i], r[i], [f for f in range(c.m) if f not in far]):
                ctx.fail('contains:' + name, '%s: the rule does not contain its instance' % name,
                         {'x': c.X[i], 'rule': r[i]})
        # every point of the rule has the same probability, by the library's own word
        Z = [in_box(rng, c.X[i], r[i], c.S[i]) for i in N]
        args = (np.array(Z),) + args[1:]
        if c.t is None and not c.clf:
            kw2 = dict(kw, t=np.array(c.tt))
        else:
            kw2 = kw
        v2, r2 = ctx.call(name, getattr(a, name), *args, **kw2)
        ctx.observed('invariant', rounded(Z))
        if F.maxdiff(npt(v2), npt(v)) > TOL or F.maxdiff(npt(r2), r) > TOL:
            ctx.fail('invariant:' + name, '%s: a point of the rule has another probability or rule' % name,
                     {'X': c.X, 'Z': Z, 'rule': r, 'v': npt(v), 'v2': npt(v2)})


def maximal(ctx, rng, **kw):
    c = A.setup(ctx, rng, **dict(dict(nmax=40, nx=rng.choice([1, 2, 3])), **kw))
    N = range(len(c.X))
    a = c.acx
    full = rng.random() < 0.5
    if full:        # sets with a high probability
        c.S = [max((gen.subset(rng, c.m, 1) for _ in range(6)), key=lambda S: A.sdp(c, i, S)) for i in N]
    base = [A.sdp(c, i, c.S[i]) for i in N]
    pi = rng.choice([0.95, 0.9, 0.8, max(0.05, min(base) - 0.01), max(0.05, min(base) - 0.05)])
    algo2 = rng.random() < 0.4
    verbose = rng.random() < 0.3
    np.random.seed(rng.randrange(2 ** 31))
    sdp, rules, sdp_all, rdata, w = ctx.call(
        'compute_sdp_maxrules', a.compute_sdp_maxrules, c.Xa, c.ya, c.data, c.ydata, c.S, min_node_size=c.minsize,
        t=c.t, pi_level=pi, algo2=algo2, verbose=verbose, p_best=rng.choice([0.2, 0.6, 0.85]),
        n_try=rng.choice([2, 5, 20]), batch=rng.choice([1, 3, 8]), max_iter=rng.choice([1, 3, 8]),
        max_iter_convergence=rng.choice([2, 10]))
    name = 'compute_sdp_maxrules' + ('[algo2]' if algo2 else '')
    sdp, rules, sdp_all, rdata, w = map(npt, (sdp, rules, sdp_all, rdata, w))
    W = [[0.0] * c.n for _ in N]
    boxes = [A.box0(c.m) for _ in N]
    for i in N:
        A.sdp(c, i, c.S[i], part=boxes[i], weights=W[i])
    cmp(ctx, c, name + '.sdp', sdp, base)
    cmp(ctx, c, name + '.w', w, W)
    truth, tboxes = [], []
    for i in N:
        t, tb = [], []
        for j in range(c.n):
            b = A.box0(c.m)
            if W[i][j] > 0:
                t.append(A.sdp(c, i, c.S[i], x=c.rows[j], part=b))
            else:
                t.append(0.0)
            tb.append(b)
        truth.append(t)
        tboxes.append(tb)
    cmp(ctx, c, name + '.sdp_all', sdp_all, truth)
    if F.maxdiff(rdata, tboxes) > TOL:
        ctx.fail('rules_data:' + name, '%s: the rules of the background rows differ' % name, {'X': c.X, 'S': c.S})
        return
    if len(rules) != len(c.X) or any(len(r) != c.m for r in rules):
        ctx.fail('shape:' + name, 'shape of the rules')
        return
    ctx.sample({'columns': c.m, 'rows': c.n, 'x': c.X[0], 'S': c.S[0], 'level': pi, 'sdp': base[0], 'rule': rules[0],
                'local rule': boxes[0], 'other algorithm': algo2})
    judge(ctx, c, name, rules, boxes, base, pi, not algo2,
          lambda i, j: truth[i][j] if W[i][j] > 0 else A.sdp(c, i, c.S[i], x=c.rows[j]))


def judge(ctx, c, name, rules, boxes, base, pi, closed, prob):
    """a maximal rule: contains the local one, bounds only the columns of the explanation, covers no row below the level"""
    for i in range(len(c.X)):
        r, b = rules[i], boxes[i]
        ext = r != b
        ctx.observed('maxrule', (rounded(r)) if ext else None)
        ctx.count('extended' if ext else 'not_extended')
        d = {'x': c.X[i], 'S': c.S[i], 'rule': r, 'local': b, 'pi': pi, 'sdp': base[i], 'rows': c.rows, 'variant': name}
        if any(r[f][0] > b[f][0] or r[f][1] < b[f][1] for f in range(c.m)):
            ctx.fail('contains:' + name, '%s: the maximal rule does not contain the local rule' % name, d)
        for f in range(c.m):
            if f not in c.S[i] and r[f] != [-A.BIG, A.BIG]:
                ctx.fail('free:' + name, '%s: the rule bounds a column outside the explanation' % name, d)
        if ext or base[i] >= pi + TOL:
            for j in range(c.n):
                if inside(c.rows[j], r, range(c.m), closed=ext and closed):
                    tj = prob(i, j)
                    ctx.count('rows_in_rule')
                    if tj < pi - TOL and not (inside(c.rows[j], b, range(c.m))):
                        ctx.fail('level:' + name, '%s: the rule covers a row whose probability is %r < %r' % (
                            name, tj, pi), dict(d, row=c.rows[j]))
                        break


def loaded(ctx, rng):
    """the same rules on the trees of a loaded model, by the current and the first version of the estimator"""
    from acv_explainers import ACVTreeAgnostic
    c = A.loaded(ctx, rng, nmax=30, nx=rng.choice([1, 2, 3]), cls=ACVTreeAgnostic)
    if c is None:
        return
    N, a, kw = range(len(c.X)), c.acx, dict(min_node_size=c.minsize, classifier=int(c.clf))
    args = (c.Xa, c.ya, c.data, c.ydata, c.S)
    d2 = rng.choice([0.0, 0.25, 1.0])

    def now(i, x, part=None, weights=None):
        return A.sdp(c, i, c.S[i], x=x, part=part, weights=weights)

    def first(i, x, part=None, weights=None):
        w = c.pf.cell_weights(c.pf.side_x(x, c.S[i]), c.minsize, False, part)
        if weights is not None:
            weights[:] = w
        return sum(z for z, y in zip(w, c.y) if (y == c.yx[i] if c.clf else (y - c.yx[i]) ** 2 <= d2))

    for suffix, f, t in (('', now, c.t), ('_v0', first, d2)):
        boxes = [A.box0(c.m) for _ in N]
        want = [f(i, c.X[i], part=boxes[i]) for i in N]
        name = 'ACVTreeAgnostic.compute_sdp_rule' + suffix
        v, r = ctx.call(name, getattr(a, 'compute_sdp_rule' + suffix), *args, t=t, **kw)
        cmp(ctx, c, name, v, want, d2)
        ctx.observed('rule', rounded(boxes))
        ctx.check(F.maxdiff(npt(r), boxes) <= TOL, 'rule:' + name, '%s: not the intersection of the conditions of the instance' % name,
                  {'got': npt(r), 'expected': boxes, 'X': c.X, 'S': c.S})
    suffix = rng.choice(['', '_opti', '_v0'])
    f, t = (first, d2) if suffix else (now, c.t)
    if rng.random() < 0.5:
        c.S = [max((gen.subset(rng, c.m, 1) for _ in range(6)), key=lambda S: A.sdp(c, i, S)) for i in N]
        args = args[:4] + (c.S,)
    boxes, W = [A.box0(c.m) for _ in N], [[0.0] * c.n for _ in N]
    base = [f(i, c.X[i], part=boxes[i], weights=W[i]) for i in N]
    pi = rng.choice([0.95, 0.8, 0.5, max(0.05, min(base) - 0.01), max(0.05, min(base) - 0.05)])
    name = 'ACVTreeAgnostic.compute_sdp_maxrules' + suffix
    out = [npt(z) for z in ctx.call(name, getattr(a, 'compute_sdp_maxrules' + suffix), *args, t=t, pi=pi, **kw)]
    sdp, rules, sdp_all, rdata = out[:4]
    cmp(ctx, c, name + '.sdp', sdp, base)
    every = len(out) < 5
    if not every:
        cmp(ctx, c, name + '.w', out[4], W)
    truth, tboxes = [], []
    for i in N:
        tboxes.append([A.box0(c.m) for _ in range(c.n)])
        truth.append([f(i, c.rows[j], part=tboxes[i][j]) if every or W[i][j] > 0 else 0.0 for j in range(c.n)])
    cmp(ctx, c, name + '.sdp_all', sdp_all, truth)
    ctx.check(F.maxdiff(rdata, tboxes) <= TOL, 'rules_data:' + name, '%s: the rules of the background rows differ' % name,
              {'X': c.X, 'S': c.S})
    ctx.count('loaded')
    judge(ctx, c, name, rules, boxes, base, pi, False, lambda i, j: f(i, c.rows[j]))


def large(ctx, rng):
    if rng.random() < 0.4:
        local(ctx, rng, **A.large_kw(ctx, rng))
    else:
        kw = A.large_kw(ctx, rng, ['rows', 'trees', 'deep', 'columns'], nx=rng.choice([1, 2]))
        maximal(ctx, rng, **dict(kw, n=min(kw['n'], 300)))


def beyond(ctx, rng):
    """a column of large values, such as time stamps"""
    local(ctx, rng, scale=2.0 ** 40)


WORKLOADS = {'beyond': beyond, 'large': large, 'loaded': loaded, 'local': local, 'maximal': maximal}
