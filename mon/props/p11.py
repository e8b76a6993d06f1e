"""The consistent estimator: same/different/target decision probabilities, expectation and weights of a projected
forest equal their definition."""
import numpy as np
from .. import gen, acxref as A, forest as F
from ..common import npt, rounded

TOL = 1e-9


def cmp(ctx, c, name, got, want, extra=None, tol=TOL):
    g, w = npt(got), want
    d = F.maxdiff(g, w)
    ctx.observed('prob', rounded(w, 7) if any(1e-9 < z < 1 - 1e-9 for z in F.flat(w)) else None)
    ctx.count('impl:' + name)
    ctx.check(d <= tol, 'value:' + name, lambda: '%s differs from its definition by %g' % (name, d),
              {'got': g, 'exact': w, 'X': c.X, 'y': c.yx, 'S': c.S, 't': c.tt, 'min_node_size': c.minsize,
               'classifier': c.clf, 'extra': extra})


def probs(ctx, rng, **kw):
    c = A.setup(ctx, rng, **kw)
    if kw:
        c.minsize = rng.choice([1, 5, 20, c.n // 2])
    ctx.sample({'columns': c.m, 'rows': c.n, 'trees': len(c.pf.trees), 'classifier': c.clf, 'x': c.X[0], 'S': c.S[0],
                'min_node_size': c.minsize})
    N = range(len(c.X))
    a = c.acx
    kw = dict(min_node_size=c.minsize, t=c.t)
    args = (c.Xa, c.ya, c.data, c.ydata, c.S)
    want = [A.sdp(c, i, c.S[i]) for i in N]
    cmp(ctx, c, 'compute_sdp_rf', ctx.call('compute_sdp_rf', a.compute_sdp_rf, *args, **kw), want)
    wd = [A.sdp(c, i, c.S[i], 'ddp') for i in N]
    cmp(ctx, c, 'compute_ddp_rf', ctx.call('compute_ddp_rf', a.compute_ddp_rf, *args, **kw), wd)
    we = [c.pf.mean(c.pf.side_x(c.X[i], c.S[i]), c.minsize, lambda k: c.y[k]) for i in N]
    cmp(ctx, c, 'compute_exp_rf', ctx.call('compute_exp_rf', a.compute_exp_rf, *args, **kw), we,
        tol=TOL * (1 + max(abs(z) for z in c.y)))
    lo = [gen.q(y - rng.uniform(0, 1)) for y in c.yx]
    hi = [l + rng.choice([0.25, 1.0, 2.0]) for l in lo]
    for i in N:
        if rng.random() < 0.4:
            lo[i], hi[i] = sorted((rng.choice(c.y), rng.choice(c.y)))
    wc = [c.pf.mean(c.pf.side_x(c.X[i], c.S[i]), c.minsize, c.pf.within(c.yx[i], lo[i], hi[i], c.clf)) for i in N]
    la, ha = np.array(lo), np.array(hi)
    cargs = (c.Xa, c.ya, la, ha, c.data, c.ydata, c.S)
    cmp(ctx, c, 'compute_cdp_rf', ctx.call('compute_cdp_rf', a.compute_cdp_rf, *cargs, **kw), wc, (lo, hi))
    # with the weights of the background rows
    W = [[0.0] * c.n for _ in N]
    for i in N:
        A.sdp(c, i, c.S[i], weights=W[i])
    d, w = ctx.call('compute_ddp_weights', a.compute_ddp_weights, *args, verbose=rng.random() < 0.3, **kw)
    cmp(ctx, c, 'compute_ddp_weights', d, wd)
    cmp(ctx, c, 'compute_ddp_weights.w', w, W)
    d, w = ctx.call('compute_cdp_weights', a.compute_cdp_weights, *cargs, verbose=rng.random() < 0.3, **kw)
    cmp(ctx, c, 'compute_cdp_weights', d, wc, (lo, hi))
    cmp(ctx, c, 'compute_cdp_weights.w', w, W)


def cond(ctx, rng, **kw):
    """conditioning on boxes"""
    c = A.setup(ctx, rng, **kw)
    N = range(len(c.X))
    boxes = []
    for i in N:
        b = A.box0(c.m)
        for f in range(c.m):
            if rng.random() < 0.6:
                v = sorted(rng.choice([r[f] for r in c.rows] + [t for g, t in c.pf.thresholds if g == f])
                           for _ in range(2))
                if rng.random() < 0.3:
                    v[0] = -A.BIG
                if rng.random() < 0.3:
                    v[1] = A.BIG
                b[f] = v
        boxes.append(b)
    B = np.array(boxes)
    a = c.acx
    kw = dict(min_node_size=c.minsize, t=c.t)
    same = lambda i: c.pf.same(c.yx[i], c.tt[i], c.clf)
    diff = lambda i: c.pf.differ(c.yx[i], c.tt[i], c.clf)
    lo = [rng.choice(c.y) for _ in N]
    hi = [l + rng.choice([0.0, 0.5, 1.5]) for l in lo]
    win = lambda i: c.pf.within(c.yx[i], lo[i], hi[i], c.clf)

    def ref(val, side):
        out, W = [], []
        for i in N:
            w = [0.0] * c.n
            out.append(c.pf.mean(side(i), c.minsize, val(i), weights=w))
            W.append(w)
        return out, W
    sc = lambda i: c.pf.side_cond(c.X[i], c.S[i], boxes[i])
    si = lambda i: c.pf.side_intv(c.S[i], boxes[i])
    r, W = ref(diff, sc)
    d, w = ctx.call('compute_ddp_cond_weights', a.compute_ddp_cond_weights, c.Xa, c.ya, c.data, c.ydata, c.S, B, **kw)
    cmp(ctx, c, 'compute_ddp_cond_weights', d, r, boxes)
    cmp(ctx, c, 'compute_ddp_cond_weights.w', w, W, boxes)
    r, W = ref(win, sc)
    d, w = ctx.call('compute_cdp_cond_weights', a.compute_cdp_cond_weights, c.Xa, c.ya, np.array(lo), np.array(hi),
                    c.data, c.ydata, c.S, B, **kw)
    cmp(ctx, c, 'compute_cdp_cond_weights', d, r, boxes)
    cmp(ctx, c, 'compute_cdp_cond_weights.w', w, W, boxes)
    r, W = ref(diff, si)
    d, w = ctx.call('compute_ddp_intv_weights', a.compute_ddp_intv_weights, c.Xa, c.ya, c.data, c.ydata, c.S, B, **kw)
    cmp(ctx, c, 'compute_ddp_intv_weights', d, r, boxes)
    cmp(ctx, c, 'compute_ddp_intv_weights.w', w, W, boxes)
    r, W = ref(diff if c.clf else same, si)
    d, w = ctx.call('compute_cdp_intv_weights', a.compute_cdp_intv_weights, c.Xa, c.ya, c.data, c.ydata, c.S, B, **kw)
    cmp(ctx, c, 'compute_cdp_intv_weights', d, r, boxes)
    cmp(ctx, c, 'compute_cdp_intv_weights.w', w, W, boxes)
    # one set of columns for all samples
    S0, S = rng.choice(c.S), c.S
    c.S = [S0] * len(c.X)
    for name, val in (('compute_ddp_intv_same', diff), ('compute_cdp_intv_same', diff if c.clf else same)):
        cmp(ctx, c, name, ctx.call(name, getattr(a, name), c.Xa, c.ya, c.data, c.ydata, S0, B, **kw),
            ref(val, lambda i: c.pf.side_intv(S0, boxes[i]))[0], boxes)
    c.S = S


def percentile(vals, w, q):
    """The smallest and the largest value of the weighted percentile (interpolation between (p_k, v_k), p_k = 100 / total *
    (S_k - w_k / 2)) over the orders in which rows of equal value can be sorted."""
    groups = {}
    for v, z in zip(vals, w):
        if z:
            groups.setdefault(float(np.float32(v)), []).append(z)
    vs = sorted(groups)
    Q = q / 100.0 * sum(sum(g) for g in groups.values())
    acc, out = 0.0, []
    for k, v in enumerate(vs):
        g = groups[v]
        lo, hi = acc, acc + sum(g)
        if lo - 1e-6 <= Q <= hi + 1e-6:
            out.append(v) if len(g) > 1 or len(vs) == 1 or (k == 0 and Q <= lo + g[0] / 2) or (
                k == len(vs) - 1 and Q >= hi - g[0] / 2) else None
        for z in set(g) if k + 1 < len(vs) else ():
            for z2 in set(groups[vs[k + 1]]):
                a, b = hi - z / 2, hi + z2 / 2
                if a - 1e-6 <= Q <= b + 1e-6:
                    out.append(v + min(1.0, max(0.0, (Q - a) / (b - a))) * (vs[k + 1] - v))
        acc = hi
    return min(out), max(out)


def loaded(ctx, rng, **kw):
    """the same estimators on the trees of a loaded model, and the distribution and quantiles of the outcome"""
    c = A.loaded(ctx, rng, **kw)
    if c is None:
        return
    N, a = range(len(c.X)), c.acx
    agn = type(a).__name__ != 'ACVTree'
    kw = dict(min_node_size=c.minsize, classifier=int(c.clf))
    args = (c.Xa, c.ya, c.data, c.ydata, c.S)
    ctx.sample({'columns': c.m, 'rows': c.n, 'trees': len(c.pf.trees), 'classifier': c.clf, 'x': c.X[0], 'S': c.S[0]})
    name = lambda n: '%s.%s' % (type(a).__name__, n)
    cmp(ctx, c, name('compute_sdp_rf'), ctx.call('compute_sdp_rf', a.compute_sdp_rf, *args, t=c.t, **kw),
        [A.sdp(c, i, c.S[i]) for i in N])
    we = [c.pf.mean(c.pf.side_x(c.X[i], c.S[i]), c.minsize, lambda k: c.y[k]) for i in N]
    cmp(ctx, c, name('compute_exp_rf'), ctx.call('compute_exp_rf', a.compute_exp_rf, *args, t=c.t, **kw), we,
        tol=TOL * (1 + max(abs(z) for z in c.y)))
    d2 = rng.choice([0.0, 0.25, 1.0])
    if agn:     # the first version: one set of columns for all points, a squared distance as level
        W0 = [c.pf.cell_weights(c.pf.side_x(x, c.S[0]), c.minsize, False) for x in c.X]
        cmp(ctx, c, name('compute_sdp_rf_v0'), ctx.call('compute_sdp_rf_v0', a.compute_sdp_rf_v0, *args[:4], c.S[0], t=d2, **kw),
            [sum(w for w, y in zip(W0[i], c.y) if (y == c.yx[i] if c.clf else (y - c.yx[i]) ** 2 <= d2)) for i in N], d2)
    t = [rng.choice(c.y) for _ in N]
    W = [c.pf.cell_weights(c.pf.side_x(c.X[i], c.S[i]), c.minsize, False) for i in N]
    cmp(ctx, c, name('compute_cdf_rf'), ctx.call('compute_cdf_rf', a.compute_cdf_rf, *args, t=np.array(t), **kw),
        [sum(w for w, y in zip(W[i], c.y) if y <= t[i]) for i in N], t)
    K = [c.pf.cell_weights(c.pf.side_x(c.X[i], c.S[i]), c.minsize, True) for i in N]
    q = rng.choice([5, 25, 50, 90, 95])
    sc = 1e-5 * (1 + 2 * max(abs(z) for z in c.y))
    S0 = c.S[0]
    K0 = [c.pf.cell_weights(c.pf.side_x(c.X[i], S0), c.minsize, True) for i in N]
    e0 = [sum(w * y for w, y in zip(K0[i], c.y)) for i in N]
    for n, f, want, Z in (
            ('compute_quantile_rf', lambda: a.compute_quantile_rf(*args, quantile=q, **kw), [(c.y, K[i]) for i in N], None),
            ('compute_quantile_diff_rf', None if not all(sum(W[i]) for i in N) else lambda: a.compute_quantile_diff_rf(*args, quantile=q, **kw),
             [([c.yx[i] - y for y in c.y], W[i]) for i in N], None),
            ('compute_quantile_shaff', lambda: a.compute_quantile_shaff(c.Xa, c.data, c.ydata, S0, c.minsize, q),
             [(c.y, K0[i]) for i in N], None)):
        if f is None:          # no row left in any tree: there is no quantile
            continue
        got = F.flat(npt(ctx.call(n, f)))
        for i in N:
            if not sum(want[i][1]):
                continue
            lo, hi = percentile(*want[i], q)
            ctx.observed('quantile', (n, round(lo, 5)) if lo == hi else None)
            ctx.check(lo - sc <= got[i] <= hi + sc, 'value:' + name(n),
                      lambda: '%s is %r, the weighted percentile is in [%r, %r]' % (n, got[i], lo, hi),
                      {'y': c.y, 'weights': want[i][1], 'q': q, 'x': c.X[i], 'S': c.S[i]})
    cmp(ctx, c, name('compute_exp_shaff'), F.flat(npt(ctx.call('compute_exp_shaff', a.compute_exp_shaff, c.Xa, c.data, c.ydata, S0, c.minsize))),
        e0, tol=TOL * (1 + max(abs(z) for z in c.y)))
    cmp(ctx, c, name('compute_sdp_clf_shaff'), F.flat(npt(ctx.call('compute_sdp_clf_shaff', a.compute_sdp_clf_shaff, c.Xa, c.ya, c.data,
                                                              c.ydata, S0, c.minsize))),
        [sum(w for w, y in zip(K0[i], c.y) if y == c.yx[i]) for i in N])
    d = rng.choice([0.0, 0.25, 1.0])
    cmp(ctx, c, name('compute_sdp_shaff'), F.flat(npt(ctx.call('compute_sdp_shaff', a.compute_sdp_shaff, c.Xa, c.ya, d, c.data, c.ydata, S0,
                                                          c.minsize))),
        [sum(w for w, y in zip(K0[i], c.y) if (y - c.yx[i]) ** 2 <= d) for i in N])


WORKLOADS = {'large': lambda ctx, rng: rng.choice([probs, probs, cond, loaded])(ctx, rng, **A.large_kw(ctx, rng)), 'loaded': loaded, 'probs': probs, 'cond': cond}
