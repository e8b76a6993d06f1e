"""All the sufficient explanations, and the local importance derived from them."""
import numpy as np
from .. import gen, acxref as A, search
from ..common import npt
from . import p12


def check_all(ctx, c, name, got, refs, detail):
    expl, probs, glob = got
    N = len(c.X)
    if len(expl) != N or len(probs) != N or len(glob) != c.m:
        ctx.fail('shape:' + name, '%s returned %d lists of sets and %d lists of probabilities for %d samples' % (
            name, len(expl), len(probs), N), detail)
        return
    counts, K, complete = [0] * c.m, 0, True
    for i in range(N):
        sets, ps = [[int(z) for z in s] for s in expl[i]], [float(p) for p in probs[i]]
        d = dict(detail, sample=i, sets=sets, probabilities=ps)
        if len(sets) != len(ps):
            ctx.fail('shape:' + name, '%s: %d sets but %d probabilities' % (name, len(sets), len(ps)), d)
            return
        want = refs[i].all_minimal()
        if want is None:
            complete = False
            ctx.count('undecidable')
            continue
        fs = [frozenset(s) for s in sets]
        ctx.observed('all', (name, tuple(sorted(map(tuple, map(sorted, fs)))), round(refs[i].pi, 4)) if want else None)
        ctx.count('sets', len(want))
        if len(set(fs)) != len(fs) or any(len(a) != len(b) for a, b in zip(fs, sets)):
            ctx.fail('duplicate:' + name, '%s: an explanation is repeated: %s' % (name, sets), d)
        elif set(fs) != set(want):
            ctx.fail('sets:' + name, '%s: %s, but the minimal sufficient sets are %s' % (
                name, sets, [sorted(w) for w in want]), d)
        else:
            for s, p in zip(fs, ps):
                if abs(p - refs[i].v(s)[0]) > 1e-9:
                    ctx.fail('prob:' + name, '%s: probability %r reported for %s, which has %r' % (
                        name, p, sorted(s), refs[i].v(s)[0]), d)
        for s in want:
            K += 1
            for j in s:
                counts[j] += 1
    if complete and K and ctx.nviol == 0:
        ctx.observed('global', (name, tuple(counts), K))
        if any(abs(glob[j] - counts[j] / K) > 1e-9 for j in range(c.m)):
            ctx.fail('global:' + name, '%s: global %s instead of %s' % (name, glob, [z / K for z in counts]), detail)


def local(ctx, c, expl):
    sets = [[[int(z) for z in s] for s in e] for e in expl]
    got = npt(ctx.call('compute_local_sdp', c.acx.compute_local_sdp, c.m, sets))
    some = [e for e in sets if e]
    if not some:
        return
    want = [sum(sum(1 for s in e if j in s) / len(e) for e in some) / len(some) for j in range(c.m)]
    ctx.observed('local', tuple(round(z, 6) for z in want))
    ctx.check(max(abs(a - b) for a, b in zip(got, want)) < 1e-9, 'local:compute_local_sdp',
              'the local importance is %s instead of %s' % (got, want), {'sets': sets})


def body(ctx, rng, kw=None):
    c = A.setup(ctx, rng, **(kw or dict(nmax=40, mmax=6, grid=rng.random() < 0.2)))
    N = range(len(c.X))
    C = gen.groups(rng, c.m) if rng.random() < 0.4 and c.m > 1 else [[]]
    minimal = rng.choice([1, 1, 1, 2, 0]) if c.m > 2 else 1
    sp = list(range(c.m))
    if c.m > 10:
        imp = [float(z) for z in c.acx.model.feature_importances_]
        order = sorted(range(c.m), key=lambda j: -imp[j])
        if imp[order[9]] - imp[order[10]] < 1e-12:
            return
        sp = order[:10]
        ctx.count('restricted')
    P = search.players(sp, C)
    if minimal > len(P):
        return
    val = p12.make_value(c, 'sdp')
    pi = p12.level(rng, c, val)
    refs = [search.Search(P, val(i), pi, c.m, minimal, full_one=False) for i in N]
    o = dict(min_node_size=c.minsize, t=c.t, C=C, pi_level=pi, minimal=minimal, stop=rng.random() < 0.5)
    detail = {'X': c.X, 'y': c.yx, 'C': C, 'pi': pi, 'minimal': minimal, 'min_node_size': c.minsize,
              'classifier': c.clf, 't': c.tt}
    got = ctx.call('sufficient_expl_rf', c.acx.sufficient_expl_rf, c.Xa, c.ya, c.data, c.ydata, **o)
    check_all(ctx, c, 'sufficient_expl_rf', got, refs, detail)
    local(ctx, c, got[0])
    ctx.sample({'columns': c.m, 'rows': c.n, 'groups': C, 'level': pi, 'x': c.X[0], 'sets': got[0][0]})

    def ddp(i):
        d = c.pf.differ(c.yx[i], c.tt[i], c.clf)
        return lambda S: (c.pf.mean(c.pf.side_x(c.X[i], S), c.minsize, d), c.pf.dyadic)
    refs = [search.Search(P, ddp(i), pi, c.m, minimal, full_one=False) for i in N]
    got = ctx.call('sufficient_cxpl_rf', c.acx.sufficient_cxpl_rf, c.Xa, c.ya, c.data, c.ydata, **o)
    check_all(ctx, c, 'sufficient_cxpl_rf', got, refs, detail)
    local(ctx, c, got[0])


def loaded(ctx, rng, **kw):
    """the search on the trees of a loaded model"""
    c = A.loaded(ctx, rng, **dict(dict(nmax=40), **kw))
    sp = A.space(c) if c else None
    if sp is None:
        return
    if c.m > 10:
        ctx.count('restricted_loaded')
    C = gen.groups(rng, c.m) if rng.random() < 0.4 else [[]]
    minimal = rng.choice([1, 1, 1, 2, 0]) if c.m > 2 else 1
    P = search.players(sp, C)
    if minimal > len(P):
        return
    val = p12.make_value(c, 'sdp')
    pi = p12.level(rng, c, val)
    refs = [search.Search(P, val(i), pi, c.m, minimal, full_one=False) for i in range(len(c.X))]
    got = ctx.call('sufficient_expl_rf', c.acx.sufficient_expl_rf, c.Xa, c.ya, c.data, c.ydata, min_node_size=c.minsize,
                   classifier=int(c.clf), t=c.t, C=C, pi_level=pi, minimal=minimal, stop=rng.random() < 0.5)
    ctx.count('loaded')
    # this entry point puts [-1] in front of the sets and of the probabilities
    got = ([e[1:] if len(e) and list(e[0]) == [-1] else e for e in got[0]], [p[1:] if len(p) and p[0] == -1 else p for p in got[1]],
           got[2])
    check_all(ctx, c, type(c.acx).__name__ + '.sufficient_expl_rf', got, refs,
              {'X': c.X, 'y': c.yx, 'C': C, 'pi': pi, 'minimal': minimal, 'min_node_size': c.minsize,
               'classifier': c.clf, 't': c.tt})
    if hasattr(type(c.acx), 'compute_local_sdp'):
        for e in got[0]:
            e = [[int(z) for z in s] for s in e]
            if e:
                loc = npt(ctx.call('compute_local_sdp', type(c.acx).compute_local_sdp, c.m, e))
                want = [sum(1 for s in e if j in s) / len(e) for j in range(c.m)]
                ctx.check(max(abs(a - b) for a, b in zip(loc, want)) < 1e-9, 'local:loaded',
                          'the local importance is %s instead of %s' % (loc, want), {'sets': e})


def wide(ctx, rng):
    body(ctx, rng, dict(m=11, n=rng.randint(25, 40), trees=rng.choice([6, 8]), depth=5, nx=2,
                        dkind=rng.choice(['cont', 'unif'])))


def loaded_wide(ctx, rng):
    loaded(ctx, rng, m=11, n=rng.randint(25, 40), nx=2, trees=rng.choice([4, 6]), depth=5)


def large(ctx, rng):
    kw = A.large_kw(ctx, rng, ('rows', 'rows', 'points', 'trees', 'deep'))
    if rng.random() < 0.3:
        loaded(ctx, rng, **kw)
    else:
        body(ctx, rng, kw)


WORKLOADS = {'large': large, 'loaded_wide': loaded_wide, 'loaded': loaded, 'all': body, 'wide': wide}
