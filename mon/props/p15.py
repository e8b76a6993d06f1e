"""The global rule model: what it reports per rule, and which rule decides a prediction."""
import numpy as np
from .. import gen, acxref as A, forest as F
from ..common import npt, rounded

TOL = 1e-9


def case(ctx, rng, big):
    kw = {}
    if big:                                          # many rows or many rules
        kw = A.large_kw(ctx, rng, ['rows', 'points', 'columns'], nx=3)
    c = A.setup(ctx, rng, clf=rng.random() < 0.6, K=2, **kw)
    nr = rng.randint(1, 14)
    if big and c.n < 100 and c.m < 10:
        nr = rng.choice([65, 130, 260])
    src = rng.random()
    if src < 0.45:                                   # the rules that the explainer itself produces
        pts = [rng.choice(c.rows) for _ in range(nr)]
        yp = npt(c.acx.model.predict(np.array(pts)))
        S = [gen.subset(rng, c.m, 1) for _ in pts]
        if rng.random() < 0.5:
            _, r = ctx.call('compute_sdp_rule', c.acx.compute_sdp_rule, np.array(pts), np.array(yp, float), c.data, c.ydata, S)
        else:
            _, r, _, _, _ = ctx.call('compute_sdp_maxrules', c.acx.compute_sdp_maxrules, np.array(pts), np.array(yp, float),
                                     c.data, c.ydata, S, pi_level=rng.choice([0.6, 0.9]),
                                     n_try=3, batch=3, max_iter=4)
        rules = npt(r)
    else:                                            # arbitrary boxes, closed on data values, some of them empty
        rules, S = [], []
        for _ in range(nr):
            s = gen.subset(rng, c.m, 1)
            b = A.box0(c.m)
            for f in s:
                u, v = sorted((rng.choice(c.rows)[f], rng.choice(c.rows)[f]))
                k = rng.random()
                if k < 0.25:
                    b[f] = [-A.BIG, v]
                elif k < 0.5:
                    b[f] = [u, A.BIG]
                elif k < 0.92:
                    b[f] = [u, v]
                else:
                    b[f] = [max(r[f] for r in c.rows) + 1, A.BIG]
            rules.append(b)
            S.append(s)
    if rng.random() < 0.4:                           # repeated rules
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(rules))
            rules.append([list(z) for z in rules[k]])
            S.append(list(S[k]))
    return c, rules, S


def unique(rules, S):
    """distinct rules with the columns of their first occurrence"""
    out = {}
    for r, s in zip(rules, S):
        out.setdefault(tuple(tuple(z) for z in r), s)
    return out


def metrics(c, rows, y, r, s):
    sel = [v for x, v in zip(rows, y) if all(r[f][0] <= x[f] <= r[f][1] for f in s)]
    d = {'coverage': len(sel) / len(rows), 'n': len(sel)}
    if sel:
        mu = sum(sel) / len(sel)
        d['mean'] = mu
        d['output'] = (1 if sum(sel) * 2 > len(sel) else 0) if c.clf else mu
        d['acc'] = sum(v == d['output'] for v in sel) / len(sel) if c.clf else sum((v - mu) ** 2 for v in sel) / len(sel)
        d['var'] = sum((v - mu) ** 2 for v in sel) / len(sel)
    return d


def fit(ctx, rng, big=False):
    c, rules, S = case(ctx, rng, big)
    if rng.random() < 0.5:
        rows, y = c.rows, c.y
    else:                                            # other data than the forest was fitted on
        k = rng.randint(3, c.n)
        idx = [rng.randrange(c.n) for _ in range(k)]
        rows, y = [c.rows[i] for i in idx], [c.y[i] for i in idx]
    a = c.acx
    Xa, ya, R, Sl = np.array(rows), np.array(y), np.array(rules), [list(s) for s in S]
    if rng.random() < 0.3:          # fitted before with the same objects when they held something else
        for v in ((Xa, ya), (R, Sl)):
            for i in range(1, len(v[0])):
                if rng.random() < 0.5:
                    for w in v:
                        w[i] = w[i - 1]
        ctx.call('fit_global_rules', a.fit_global_rules, Xa, ya, R, Sl)
        Xa[:], ya[:], R[:], Sl[:] = rows, y, rules, [list(s) for s in S]
        ctx.count('refitted')
    ctx.call('fit_global_rules', a.fit_global_rules, Xa, ya, R, Sl)
    uni = unique(rules, S)
    got = [tuple(tuple(z) for z in r) for r in npt(a.rules)]
    d = {'rules': rules, 'columns': S}
    if sorted(got) != sorted(uni) or not (len(got) == len(a.rules_s_star) == len(a.rules_coverage) == len(a.rules_acc) ==
                                          len(a.rules_output) == len(a.rules_var)):
        ctx.fail('distinct', 'the fitted rules are not the distinct given rules', dict(d, got=got))
        return
    ref = []
    for i, r in enumerate(got):
        s = [int(z) for z in a.rules_s_star[i]]
        # columns that do not restrict the rule are immaterial
        live = lambda cols: {f for f in cols if r[f] != (-A.BIG, A.BIG)}
        if live(s) != live(uni[r]):
            ctx.fail('columns', 'the columns %s of a rule are not the given ones %s' % (s, uni[r]), d)
            return
        e = metrics(c, rows, y, r, uni[r])
        ref.append((r, s, e))
        ctx.count('rules')
        have = {'coverage': a.rules_coverage[i], 'output': a.rules_output[i], 'acc': a.rules_acc[i], 'var': a.rules_var[i]}
        if c.clf:
            have['mean'] = a.rules_output_proba[i]
        ctx.observed('metrics', tuple(round(float(v), 6) for v in have.values()) if 0 < e['n'] < len(rows) else None)
        for k, v in have.items():
            if k in e and not abs(float(v) - e[k]) <= TOL:
                ctx.fail('metric:' + k, '%s of a rule is %r, measured on the data %r' % (k, v, e[k]),
                         {'rule': r, 'columns': s, 'rows': rows, 'y': y})
    pts = [rng.choice(c.rows) if rng.random() < 0.4 else p for p in c.X]
    pts = pts + gen.points(rng, c.rows, 4, [(f, v) for r in got for f in range(c.m) for v in r[f] if abs(v) < A.BIG] or None)
    for i, (_, _, e) in enumerate(ref):              # measured above; now as reported, so that a level can equal it
        if e['n']:
            e['acc'] = float(a.rules_acc[i])
    accs = sorted(e['acc'] for _, _, e in ref if e['n'])
    for cov in {0.0, rng.choice([e['coverage'] for _, _, e in ref]), rng.choice([0.1, 0.3, 0.6])}:
        levels = [None] + ([rng.choice(accs)] if accs else []) + [rng.choice([0.5, 0.9, 1.0])]
        level = rng.choice(levels)
        kw = {'coverage': cov}
        if level is not None:
            kw['min_acc' if c.clf else 'min_reg'] = level
        thr = level if level is not None else (0.8 if c.clf else 1000)
        calls = [('predict_global_rules', 'output')]
        if c.clf:
            calls.append(('predict_proba_global_rules', 'mean'))
        for name, key in calls:
            yo, ro, so = ctx.call(name, getattr(a, name), gen.arr(rng, pts), **kw)
            if not len(yo) == len(ro) == len(so) == len(pts):
                ctx.fail('shape:' + name, '%s: %d answers for %d points' % (name, len(yo), len(pts)))
                continue
            for j, x in enumerate(pts):
                inside = [(r, s, e) for r, s, e in ref if e['n'] and e['coverage'] >= cov - 1e-12 and
                          all(r[f][0] <= x[f] <= r[f][1] for f in s)]
                sign = 1 if c.clf else -1
                best = max((sign * e['acc'] for _, _, e in inside), default=None)
                det = {'x': x, 'coverage': cov, 'level': thr, 'candidates': [(r, e) for r, _, e in inside],
                       'got': [yo[j], npt(ro[j]) if ro[j] is not None else None, so[j]]}
                ctx.observed('prediction', (name, round(float(yo[j]), 6), tuple(so[j])) if yo[j] is not None else None)
                if best is not None and abs(best - sign * thr) < 1e-9:
                    if best != sign * thr:
                        ctx.count('near_level')
                        continue
                    ctx.count('on_level')
                want = best is not None and best >= sign * thr
                if (yo[j] is None) != (not want) or (ro[j] is None) != (yo[j] is None) or (so[j] is None) != (yo[j] is None):
                    ctx.fail('answer:' + name, '%s: %s although the best rule has %r and %r is required' % (
                        name, 'no answer' if yo[j] is None else 'an answer', best, thr), det)
                    continue
                if not want:
                    ctx.count('none')
                    continue
                ctx.count('some')
                if len(inside) > 1:
                    ctx.count('choice')
                r = tuple(tuple(z) for z in npt(ro[j]))
                mine = [e for q, s, e in inside if q == r and [int(z) for z in so[j]] == s]
                if not mine:
                    ctx.fail('candidate:' + name, '%s: the reported rule is not one that contains the point and has the '
                             'required coverage' % name, det)
                elif sign * mine[0]['acc'] < best - TOL:
                    ctx.fail('best:' + name, '%s: a rule of quality %r decides, another one has %r' % (
                        name, mine[0]['acc'], best * sign), det)
                elif abs(float(yo[j]) - mine[0][key]) > TOL:
                    ctx.fail('output:' + name, '%s: the answer %r is not the one of the rule, %r' % (name, yo[j], mine[0][key]), det)
    ctx.sample({'classifier': c.clf, 'rules': [{'rule': r, 'columns': s, 'measured': e} for r, s, e in ref[:3]]})


WORKLOADS = {'fit': fit, 'large': lambda ctx, rng: fit(ctx, rng, True)}
