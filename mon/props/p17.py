"""Local and regional counterfactual rules and the points sampled from them."""
import contextlib, io, re
import numpy as np
from acv_explainers.counterfactual_rules import CR
from .. import gen, acxref as A, forest as F, search
from ..common import npt, rounded
from . import p12

TOL = 1e-9


class Source:
    """a source model with its own opinion"""

    def __init__(self, f, t):
        self.f, self.t = f, t

    def predict(self, X):
        return (np.asarray(X)[:, self.f] > self.t).astype(float)


def case(ctx, rng, sampling):
    waves = rng.random() < 0.5
    c = A.setup(ctx, rng, m=rng.choice([1, 2, 3]), n=rng.randint(40, 70), trees=rng.choice([4, 7]), depth=rng.choice([3, 4, 5]),
                nx=rng.choice([1, 2, 3]), dkind=rng.choice(['unif', 'unif', 'cont', 'int', None]), waves=True) if waves else A.setup(
        ctx, rng, m=rng.choice([1, 2, 2, 3, 3, 4, 5]), n=rng.randint(16, 40), trees=rng.choice([2, 4, 7]),
                depth=rng.choice([2, 3, 5]), nx=rng.choice([1, 2, 3]))
    c.minsize = 5                      # the class uses the default
    c.train = np.array(c.rows)
    N = range(len(c.X))
    if c.clf:
        cls = sorted(set(c.y))
        c.target = [rng.choice([k for k in cls if k != y] or cls) for y in c.yx]
        c.lo, c.hi = [0.0] * len(c.X), [0.0] * len(c.X)
    else:
        c.target = [0.0] * len(c.X)
        srt = sorted(c.y)
        c.lo, c.hi = [], []
        for i in N:
            a, b = sorted((rng.choice(srt), rng.choice(srt)))
            if waves and rng.random() < 0.8:            # the other band
                far = [v for v in srt if abs(v - c.yx[i]) > 4] or srt
                a, b = min(far), max(far)
            c.lo.append(a)
            c.hi.append(b)
    c.src = Source(rng.randrange(c.m), rng.choice(c.rows)[0]) if rng.random() < 0.6 else None
    c.test = c.Xa
    c.cr = ctx.call('CR', CR, c.acx, c.train, np.array(c.X), np.array(c.y), np.array(c.yx),
                    ['c%d' % j for j in range(c.m)], **({'model': c.src} if c.src else {}))
    c.anneal = dict(p_best=rng.choice([0.3, 0.85]), n_try=rng.choice([2, 8]), batch=rng.choice([2, 5]),
                    max_iter=rng.choice([2, 5]), max_iter_convergence=3)
    np.random.seed(rng.randrange(2 ** 31))
    return c


def value(c, i):
    return c.pf.within(c.target[i], c.lo[i], c.hi[i], c.clf)


def divergent(ctx, c, name, idx, size, prob, refs, final, w, wref, stars, bars, N):
    """the divergent set and the partition of the columns derived from it"""
    for i in range(N):
        row, k = [int(z) for z in idx[i]], int(size[i])
        S = frozenset(row[:k])
        r = refs[i]
        ok = sorted(stars[i]) == sorted(S) and sorted(bars[i]) == sorted(set(range(c.m)) - S)
        ctx.observed('set', (name, tuple(sorted(S)), round(float(prob[i]), 6)) if len(S) < c.m else None)
        if not ok:
            ctx.fail('sets:' + name, '%s: %s / %s is not the divergent set %s and the other columns' % (
                name, stars[i], bars[i], sorted(S)))
        if r['ok'] and r['best'] is not None and r['seen'].get(S, -1) < r['best'] - TOL:
            ctx.fail('minimal:' + name, '%s: %s is not a best divergent set of minimal size' % (name, sorted(S)),
                     {'x': c.X[i], 'candidates': [(sorted(a), b) for a, b in r['seen'].items()]})
        if abs(final[i][0] - prob[i]) > TOL:
            ctx.fail('probability:' + name, '%s: the probability of the divergent set is %r instead of %r' % (
                name, prob[i], final[i][0]), {'x': c.X[i], 'S': sorted(S)})
        if F.maxdiff(npt(w[i]), final[i][1]) > TOL:
            ctx.fail('weights:' + name, '%s: weights of the background rows' % name, {'x': c.X[i], 'S': sorted(S)})


def rules(ctx, c, name, R, P, W, star, fixed, i, pi):
    """the counterfactual rules of one instance; fixed: the bounds that the other columns must keep"""
    R, P, W = npt(R), npt(P), npt(W)
    d = {'x': c.X[i] if i < len(c.X) else None, 'rules': R, 'probabilities': P, 'S': sorted(star), 'pi': pi}
    ctx.observed('rules', (name, rounded(R)))
    ctx.count('rules_seen', len(R))
    if not R:
        ctx.fail('none:' + name, '%s: no counterfactual rule is reported for the instance' % name, d)
        return
    if len(P) != len(R) or len(W) != len(R):
        ctx.fail('shape:' + name, '%s: %d rules, %d probabilities, %d weights' % (name, len(R), len(P), len(W)), d)
        return
    if len(R) > 1:
        ctx.count('several_rules')
    for r, p, w in zip(R, P, W):
        for f in range(c.m):
            if f not in star and r[f] != fixed[f]:
                ctx.fail('fixed:' + name, '%s: the rule changes column %d outside the divergent set: %s instead of %s'
                         % (name, f, r[f], fixed[f]), d)
        weights = [0.0] * c.n
        keep = [] if name == 'regional' else [f for f in range(c.m) if f not in star]
        v = c.pf.mean(c.pf.side_cond(c.X[i], keep, r), c.minsize, value(c, i), weights=weights)
        if abs(v - p) > TOL:
            ctx.fail('probability:' + name, '%s: the rule has probability %r, reported is %r' % (name, v, p), d)
        if F.maxdiff(w, weights) > TOL:
            ctx.fail('weights:' + name, '%s: weights of the background rows under the rule' % name, d)
    low = [p for p in P if p < pi - TOL]
    ctx.count('reach_level' if not low else 'fallback')
    if low and len(P) > 1:
        ctx.fail('level:' + name, '%s: rules below the level %r are reported beside others: %s' % (name, pi, P), d)
    for a in range(len(R)):
        for b in range(len(R)):
            if a != b and all(R[b][f][0] <= R[a][f][0] and R[a][f][1] <= R[b][f][1] for f in range(c.m)):
                ctx.fail('nested:' + name, '%s: a reported rule is contained in another one' % name, d)
                return


def sampled(ctx, c, name, pts, scores, errs, errs0, origin, accuracy, accuracy0, coverage, total):
    """pts[k] comes from origin[k] = (instance, x, star, rule)"""
    if not (len(pts) == len(scores) == len(errs) == len(origin)):
        ctx.fail('samples:' + name, '%s: %d points, %d scores, %d verdicts for %d instances' % (
            name, len(pts), len(scores), len(errs), len(origin)))
        return
    good, good0 = 0, 0
    for k, (i, x, star, rule) in enumerate(origin):
        p = [float(z) for z in np.asarray(pts[k]).reshape(-1)]
        ctx.observed('sampled', (name, rounded(p)))
        d = {'x': x, 'point': p, 'rule': rule, 'S': sorted(star)}
        if len(p) != c.m or any(p[f] != x[f] for f in range(c.m) if f not in star):
            ctx.fail('moved:' + name, '%s: the sampled point differs from its instance outside the divergent set' % name, d)
            continue
        if any(not rule[f][0] <= p[f] <= rule[f][1] for f in star):
            ctx.fail('outside:' + name, '%s: the sampled point is not in the counterfactual rule' % name, d)
        s = float(c.cr.isolation.decision_function(np.array([p]))[0])
        if abs(s - float(scores[k])) > 1e-9:
            ctx.fail('score:' + name, '%s: the score %r is not the one of the point (%r)' % (name, scores[k], s), d)
        a, b = (float(c.acx.model.predict(np.array([z]))[0]) for z in (p, x))
        e = (a != b) if c.clf else (c.lo[i] <= a <= c.hi[i])
        good += e
        if bool(np.all(errs[k])) != e:
            ctx.fail('verdict:' + name, '%s: the verdict on the point is %s' % (name, errs[k]), d)
        if c.src:
            good0 += bool(c.src.predict([p])[0] != c.src.predict([x])[0])
    n = len(origin)
    if n and abs(float(accuracy) - good / n) > TOL:
        ctx.fail('accuracy:' + name, '%s: accuracy %r instead of %r' % (name, accuracy, good / n))
    if n and c.src:
        ctx.count('source_model')
        if not abs(float(accuracy0) - good0 / n) <= TOL:
            ctx.fail('accuracy-source:' + name, '%s: accuracy on the source model is %r instead of %r' % (
                name, accuracy0, good0 / n))
    if total and abs(float(coverage) - n / total) > TOL:
        ctx.fail('coverage:' + name, '%s: coverage %r instead of %r' % (name, coverage, n / total))


def argmax_rule(R, P):
    return npt(R)[max(range(len(P)), key=lambda k: (P[k], -k))]


def earlier_local(ctx, rng, c, X, kw, sampling):
    """the object has been used before, for other points"""
    if rng.random() < 0.6:
        return
    ix = [rng.randrange(len(X)) for _ in range(rng.randint(1, len(X) + 1))]
    kw, cr = {k: v[ix] for k, v in kw.items()}, c.cr
    ctx.call('run_local_divergent_set', cr.run_local_divergent_set, X[ix], stop=rng.random() < 0.5,
             pi_level=rng.choice([0.4, 0.8]), **kw)
    ctx.call('run_local_counterfactual_rules', cr.run_local_counterfactual_rules, X[ix], acc_level=0.5, pi_level=0.6,
             **dict(kw, **c.anneal))
    if sampling:
        ctx.call('run_sampling_local_counterfactuals', cr.run_sampling_local_counterfactuals, X[ix], batch=2, max_iter=2,
                 temp=0.5, **kw)
        ctx.count('used_before')


def earlier_regional(ctx, rng, c, X, yx, t, kw, sampling):
    if rng.random() < 0.6:
        return
    ix = [rng.randrange(len(X)) for _ in range(rng.randint(1, len(X) + 1))]
    kw, cr = {k: v[ix] for k, v in kw.items()}, c.cr
    ctx.call('run_sufficient_rules', cr.run_sufficient_rules, X[ix], yx[ix], t=None if t is None else np.asarray(t)[ix],
             pi_level=0.8, **c.anneal)
    ctx.call('run_regional_divergent_set', cr.run_regional_divergent_set, stop=rng.random() < 0.5,
             pi_level=rng.choice([0.4, 0.8]), **kw)
    ctx.call('run_regional_counterfactual_rules', cr.run_regional_counterfactual_rules, acc_level=0.5, pi_level=0.6, **c.anneal)
    if sampling:
        ctx.call('run_sampling_regional_counterfactuals', cr.run_sampling_regional_counterfactuals, max_obs=1, batch=2,
                 max_iter=2, temp=0.5)
        ctx.count('used_before')


def printed(ctx, c, name, show, args, heads, R, P, W, outputs):
    """what is printed of the rules is what was computed: one block per rule, after the instance or its sufficient rule"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx.call(name, show, *args)
    num = lambda t: float(re.sub(r'[\[\]\s]', '', t))
    blocks = []
    for line in out.getvalue().split('\n'):
        h = re.match(r'Example (\d+)(?: - Counterfactual (\d+))?', line)
        if h:
            blocks.append([tuple(int(z) for z in h.groups() if z is not None), {}, None, None])
            continue
        k = re.match(r'If (\S+) in \[(.*), (.*)\]', line)
        if k and blocks:
            blocks[-1][1][k.group(1)] = (num(k.group(2)), num(k.group(3)))
        k = re.match(r'.*output .*?([-+\d.einfa]+)$', line)
        if k and blocks:
            blocks[-1][2] = num(k.group(1))
        k = re.match(r'.*Probability = (.*)', line)
        if k and blocks:
            blocks[-1][3] = num(k.group(1))
    want = []

    def block(key, rule, y, p):
        want.append([key, {'c%d' % f: (lo, hi) for f, (lo, hi) in enumerate(rule) if lo > -A.BIG or hi < A.BIG}, y, p])
    for i in range(len(c.X)):
        if heads is None:
            want.append([(i,), {}, None, None])
        else:
            block((i,), *heads[i])
        for l in range(len(P[i])):
            block((i, l), npt(R[i][l]), outputs(i, npt(W[i][l])), float(P[i][l]))
    if any(len(p) > 1 for p in P):
        ctx.count('several_%s' % ('clf' if c.clf else 'reg'))
    ctx.observed('printed', rounded([v[3] or 0 for v in want]))
    close = lambda a, b: a is b is None or a is not None and b is not None and (abs(a - b) <= 1e-9 * (1 + abs(b)) or a != a and b != b)
    for g, w in zip(blocks, want):
        if g[0] != w[0] or set(g[1]) != set(w[1]) or any(not close(a, b) for f in w[1] for a, b in zip(g[1][f], w[1][f])) or \
                not close(g[2], w[2]) or not close(g[3], w[3]):
            ctx.fail('printed:' + name, 'printed is %s, computed was %s' % (g, w), {'text': out.getvalue()})
            return
    ctx.check(len(blocks) == len(want), 'printed:' + name, '%d rules are printed of %d' % (len(blocks), len(want)))


def mean_output(c, target):
    """of a rule: the target class, or the mean target of the rows of positive weight"""
    def f(i, w):
        if c.clf:
            return float(target[i])
        y = [v for v, z in zip(c.y, w) if z != 0]
        return sum(y) / len(y) if y else float('nan')
    return f


def local(ctx, rng, sampling=None):
    sampling = rng.random() < 0.15 if sampling is None else sampling
    c = case(ctx, rng, sampling)
    N = len(c.X)
    cr = c.cr
    X = np.array(c.X)
    kw = {'y_target': np.array(c.target)} if c.clf else {'down': np.array(c.lo), 'up': np.array(c.hi)}
    val = p12.make_value(c, 'cdp', c.lo, c.hi)
    yx, c.yx = c.yx, c.target
    pi = rng.choice([0.4, 0.6, 0.8])
    stop = rng.random() < 0.5
    P = search.players(range(c.m), None)
    refs = [search.Search(P, val(i), pi, c.m, 1).minimal_search(stop) for i in range(N)]
    earlier_local(ctx, rng, c, X, kw, sampling)
    ctx.call('run_local_divergent_set', cr.run_local_divergent_set, X, stop=stop, pi_level=pi, **kw)
    stars = [[int(z) for z in s] for s in cr.S_star_local]
    bars = [[int(z) for z in s] for s in cr.S_bar_set_local]
    final = []
    for i in range(N):
        w = [0.0] * c.n
        S = {int(z) for z in cr.ddp_index_local[i][:int(cr.size_local[i])]}
        v = c.pf.mean(c.pf.side_x(c.X[i], [f for f in range(c.m) if f not in S]), c.minsize, value(c, i), weights=w)
        final.append((v, w))
    divergent(ctx, c, 'local', npt(cr.ddp_index_local), npt(cr.size_local), npt(cr.ddp_local), refs, final, cr.w_local, None, stars, bars, N)
    acc = rng.choice([0.5, 0.8, 0.9])
    ctx.call('run_local_counterfactual_rules', cr.run_local_counterfactual_rules, X, acc_level=acc, pi_level=pi,
             **dict(kw, **c.anneal))
    for i in range(N):
        rules(ctx, c, 'local', cr.counterfactuals_samples_local[i], cr.counterfactuals_samples_sdp_local[i],
              cr.counterfactuals_samples_w_local[i], set(stars[i]), [[z, z] for z in c.X[i]], i, pi)
    ctx.sample({'columns': c.m, 'classifier': c.clf, 'x': c.X[0], 'divergent set': stars[0],
                'rules': npt(cr.counterfactuals_samples_local[0]), 'probabilities': npt(cr.counterfactuals_samples_sdp_local[0])})
    if not ctx.nviol:
        printed(ctx, c, 'show_local_counterfactuals', cr.show_local_counterfactuals, (X, np.array(c.target)), None,
                cr.counterfactuals_samples_local, cr.counterfactuals_samples_sdp_local, cr.counterfactuals_samples_w_local,
                mean_output(c, c.target))
    if not sampling or ctx.nviol:
        return
    ctx.call('run_sampling_local_counterfactuals', cr.run_sampling_local_counterfactuals, X, batch=rng.choice([2, 8]),
             max_iter=rng.choice([2, 5]), temp=0.5, **kw)
    origin = [(i, c.X[i], set(stars[i]), argmax_rule(cr.counterfactuals_samples_local[i],
                                                     npt(cr.counterfactuals_samples_sdp_local[i]))) for i in range(N)]
    sampled(ctx, c, 'local', cr.dist_local, cr.score_local, cr.errs_local, cr.errs_local_original, origin,
            cr.accuracy_local, cr.accuracy_local_original, cr.coverage_local, N)


def regional(ctx, rng, sampling=None):
    sampling = rng.random() < 0.15 if sampling is None else sampling
    c = case(ctx, rng, sampling)
    N = len(c.X)
    cr = c.cr
    X = np.array(c.X)
    pis = rng.choice([0.7, 0.9])
    kw = {'y_rules_target': np.array(c.target)} if c.clf else {'down_up': np.array([c.lo, c.hi]).T}
    if c.clf:
        kw['down_up'] = np.zeros((N, 2))
    earlier_regional(ctx, rng, c, X, np.array(c.yx), c.t, kw, sampling)
    ctx.call('run_sufficient_rules', cr.run_sufficient_rules, X, np.array(c.yx), t=c.t, pi_level=pis,
             algo2=rng.random() < 0.3, **c.anneal)
    R0 = npt(cr.rules)
    for i in range(N):
        if any(not lo <= c.X[i][f] <= hi for f, (lo, hi) in enumerate(R0[i])):
            ctx.fail('contains:sufficient', 'the sufficient rule does not contain its instance', {'x': c.X[i], 'rule': R0[i]})
    yx, c.yx = c.yx, c.target
    tt, c.tt = c.tt, [[a, b] for a, b in zip(c.lo, c.hi)]
    val = p12.make_value(c, 'cdp_intv', boxes=R0)
    pi = rng.choice([0.4, 0.6, 0.8])
    stop = rng.random() < 0.5
    P = search.players(range(c.m), None)
    refs = [search.Search(P, val(i), pi, c.m, 1).minimal_search(stop) for i in range(N)]
    ctx.call('run_regional_divergent_set', cr.run_regional_divergent_set, stop=stop, pi_level=pi, **kw)
    stars = [[int(z) for z in s] for s in cr.S_star_regional]
    bars = [[int(z) for z in s] for s in cr.S_bar_set_regional]
    final = []
    for i in range(N):
        w = [0.0] * c.n
        v = c.pf.mean(c.pf.side_intv(stars[i], R0[i]), c.minsize,
                      (c.pf.differ if c.clf else c.pf.same)(c.yx[i], c.tt[i], c.clf), weights=w)
        final.append((v, w))
    divergent(ctx, c, 'regional', npt(cr.ddp_index_regional), npt(cr.size_regional), npt(cr.ddp_regional), refs, final,
              cr.w_regional, None, stars, bars, N)
    ctx.call('run_regional_counterfactual_rules', cr.run_regional_counterfactual_rules, acc_level=rng.choice([0.5, 0.8]),
             pi_level=pi, **c.anneal)
    for i in range(N):
        rules(ctx, c, 'regional', cr.counterfactuals_samples_regional[i], cr.counterfactuals_samples_sdp_regional[i],
              cr.counterfactuals_samples_w_regional[i], set(stars[i]), R0[i], i, pi)
    ctx.sample({'columns': c.m, 'classifier': c.clf, 'x': c.X[0], 'divergent set': stars[0], 'sufficient rule': R0[0],
                'rules': npt(cr.counterfactuals_samples_regional[0])})
    if not ctx.nviol:
        printed(ctx, c, 'show_global_counterfactuals', cr.show_global_counterfactuals, (),
                [(R0[i], float(yx[i]), float(cr.sdp_rules[i])) for i in range(N)],
                cr.counterfactuals_samples_regional, cr.counterfactuals_samples_sdp_regional,
                cr.counterfactuals_samples_w_regional, mean_output(c, c.target))
    if not sampling or ctx.nviol:
        return
    mo = rng.choice([1, 2])
    ctx.call('run_sampling_regional_counterfactuals', cr.run_sampling_regional_counterfactuals, max_obs=mo,
             batch=rng.choice([2, 8]), max_iter=rng.choice([2, 5]), temp=0.5)
    origin = []
    for i in range(N):
        inside = [x for x in c.X if all(lo <= x[f] <= hi for f, (lo, hi) in enumerate(R0[i]))]
        r = argmax_rule(cr.counterfactuals_samples_regional[i], npt(cr.counterfactuals_samples_sdp_regional[i]))
        origin += [(i, x, set(stars[i]), r) for x in inside[:mo]]
    sampled(ctx, c, 'regional', cr.dist_regional, cr.score_regional, cr.errs_regional, cr.errs_regional_original, origin,
            cr.accuracy_regional, cr.accuracy_regional_original, None, 0)
    if ctx.nviol:
        return
    ctx.call('run_sampling_regional_counterfactuals_alltests', cr.run_sampling_regional_counterfactuals_alltests,
             batch=rng.choice([2, 8]), max_iter=rng.choice([2, 5]), temp=0.5)
    origin = []
    for x in c.X:                           # the most probable counterfactual among the rules that contain the point
        best, at = 0.0, 0
        for i in range(N):
            p = max(npt(cr.counterfactuals_samples_sdp_regional[i]))
            if p > best and all(lo < x[f] <= hi for f, (lo, hi) in enumerate(R0[i])):
                best, at = p, i
        r = argmax_rule(cr.counterfactuals_samples_regional[at], npt(cr.counterfactuals_samples_sdp_regional[at]))
        origin.append((at, x, set(stars[at]), r))
    ctx.count('all_tests')
    sampled(ctx, c, 'all', cr.dist_regional, cr.score_regional, cr.errs_regional, cr.errs_regional_original, origin,
            cr.accuracy_regional, cr.accuracy_regional_original, cr.coverage_regional, N)


def sampling(ctx, rng):
    (local if rng.random() < 0.5 else regional)(ctx, rng, True)


WORKLOADS = {'local': lambda ctx, rng: local(ctx, rng, False), 'regional': lambda ctx, rng: regional(ctx, rng, False),
             'sampling': sampling}
