"""Calls leave their arguments alone, can be repeated, and do not depend on what was computed before."""
import copy, inspect
import numpy as np
from acv_explainers import ACVTree, ACXplainer
from .. import gen, meta, acxref as A
from ..worker import Violation

TOL = 1e-9
SETUP = ('fit', 'run_')
# the first step of the sequence that a step belongs to
CHAIN = {n: s for s, ns in {
    'run_local_divergent_set': ['run_local_divergent_set', 'run_local_counterfactual_rules', 'run_sampling_local_counterfactuals'],
    'run_sufficient_rules': ['run_sufficient_rules', 'run_regional_divergent_set', 'run_regional_counterfactual_rules',
                             'run_sampling_regional_counterfactuals', 'run_sampling_regional_counterfactuals_alltests'],
}.items() for n in ns}


def bases(v, out):
    """the buffers behind the arrays of an argument"""
    if isinstance(v, np.ndarray):
        out.append(v if v.base is None or not isinstance(v.base, np.ndarray) else v.base)
    elif isinstance(v, (list, tuple)):
        for x in v:
            bases(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            bases(x, out)


def edited(rng, name, a, k):
    """changes the arguments in place to other valid ones (some samples replaced by others); gives how to restore them"""
    vals = list(a) + list(k.values())
    size = lambda v: len(v) if isinstance(v, list) or isinstance(v, np.ndarray) and v.ndim else 0
    lead = [v for v in vals if isinstance(v, np.ndarray) and v.ndim == 2 and v.dtype != object]
    if not lead:
        return None
    cols = {v.shape[1] for v in lead}
    sizes = sorted({size(v) for v in vals if isinstance(v, list) or isinstance(v, np.ndarray) and v.ndim > 1} - cols - {0, 1})
    if not sizes:
        return None
    L = rng.choice(sizes)
    # a list of disjoint lists can be the groups of columns, which must stay disjoint
    groups = lambda v: isinstance(v, list) and all(isinstance(z, list) for z in v) and \
        len({z for g in v for z in g}) == sum(map(len, v))
    mine = [v for v in vals if size(v) == L and (name == 'fit_global_rules' or not groups(v))]
    if any(isinstance(v, np.ndarray) and not v.flags.writeable for v in mine):
        return None
    old = [(v, v.copy()) for v in mine]
    for v in mine:
        for i in range(1, L, 2):
            v[i] = v[i - 1]

    def restore():
        for v, o in old:
            v[:] = o
    return restore


def kept(o, name):
    """what an explainer keeps of a fit, None if only later calls show it"""
    if name.startswith('run_'):
        return meta.snap(meta.state(o))
    if name == 'fit_global_rules':
        return meta.snap({k: v for k, v in meta.state(o).items() if k.startswith('rules_') or k == 'rules'})
    return None


class Hook:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.log = []          # (name, owner, method, args, kwargs, seed, result, snapshot of it)
        self.objects = {}      # id -> (owner, how a fresh one is made)
        self.keep = []

    def __call__(self, name, f, a, k):
        ctx = self.ctx
        s = self.rng.randrange(2 ** 32)
        o = getattr(f, '__self__', None)
        mine = type(o).__module__.split('.')[0] == 'acv_explainers' and not inspect.isclass(o)
        name = getattr(f, '__name__', name)
        setup = inspect.isclass(f) or name.startswith(SETUP)
        args = meta.snap((a, k))
        buf = []
        bases((a, k), buf)
        buf0 = [b.copy() for b in buf]
        fresh = None
        if mine and id(o) not in self.objects:            # an explainer that was not made by a watched call
            self.objects[id(o)] = (o, copy.deepcopy(o))
        if mine and (name == 'fit_global_rules' or not setup and self.rng.random() < 0.3):
            # first with the same objects holding something else: what they hold counts, not which ones they are
            restore = edited(self.rng, name, a, k)
            if restore:
                meta.seed(s)
                try:
                    f(*a, **k)
                    ctx.count('edited')
                    ctx.count('edited:' + name)
                except Exception:
                    ctx.count('edited_refused')
                restore()
        meta.seed(s)
        try:
            r = f(*a, **k)
        except Exception:
            raise Violation()
        shot = meta.snap(r)
        d = meta.walk(args, (a, k), 0, 'arguments')
        if not d:
            for b, b0 in zip(buf, buf0):
                d = d or meta.walk(b0, b, 0, 'a buffer of the arguments')
        ctx.observed('arguments', (name, meta.signature(args)[:6]))
        if d:
            ctx.fail('changed-arguments:%s' % name, '%s changed its arguments: %s' % (name, d))
        if inspect.isclass(f):
            self.objects[id(r)] = (r, (f, args))
            self.keep.append(r)
            return r
        if not setup:
            meta.seed(s)
            try:
                r2 = f(*a, **k)
            except Exception as e:
                ctx.fail('repeat-raised:%s' % name, '%s raised %r when called a second time' % (name, e))
                raise Violation()
            d = meta.walk(shot, r2, TOL, 'result')
            ctx.observed('repeated', (name, meta.signature(shot)) if not meta.trivial(shot) else None)
            if d:
                ctx.fail('repeat:%s' % name, '%s: a second call with the same arguments gives another result: %s' % (name, d))
            d = meta.walk(shot, r, 0, 'result')
            if d:
                ctx.fail('shared:%s' % name, '%s: a second call changed the result of the first: %s' % (name, d))
            if mine and self.rng.random() < 0.3:
                # a call of the same shape about other samples must leave what was returned as it was
                restore = edited(self.rng, name, a, k)
                if restore:
                    try:
                        f(*a, **k)
                    except Exception:
                        ctx.count('edited_refused')
                    restore()
                    ctx.count('edited_after')
                    d = meta.walk(shot, r, 0, 'result')
                    if d:
                        ctx.fail('shared:%s' % name, '%s: a call about other samples changed an earlier result: %s' % (name, d))
        self.log.append((name, o if mine else None, getattr(type(o), f.__name__, None) if mine else f, args, s, r, shot, setup,
                         kept(o, name) if mine and setup else None))
        return r

    def last_fits(self):
        """the calls that set an object up, without those that later ones replace"""
        out, fits = [], [e for e in self.log if e[7]]
        for i, e in enumerate(fits):
            later = [l[0] for l in fits[i + 1:] if l[1] is e[1]]
            start = CHAIN.get(e[0], e[0])
            if start in later:
                self.ctx.count('replaced')
                continue
            out.append(e)
        return out

    def finish(self):
        ctx, rng = self.ctx, self.rng
        for name, o, m, args, s, r, shot, setup, st in self.log:
            d = meta.walk(shot, r, 0, 'result')
            ctx.count('kept')
            if d:
                ctx.fail('overwritten:%s' % name, 'a later call changed an earlier result of %s: %s' % (name, d))
        new = {}

        def again(o):
            if o is None:
                return None
            if id(o) not in new:
                _, how = self.objects[id(o)]
                if isinstance(how, tuple):
                    cls, (a, k) = how
                    a, k = [again(x) if id(x) in self.objects else meta.snap(x) for x in a], \
                        {p: again(x) if id(x) in self.objects else meta.snap(x) for p, x in k.items()}
                    new[id(o)] = cls(*a, **k)
                    if cls is ACVTree:                    # a model that the workload put in afterwards
                        new[id(o)].model = o.model
                else:
                    new[id(o)] = how
            return new[id(o)]

        def play(e, where):
            name, o, m, (a, k), s, r, shot, setup, st = e
            a, k = meta.snap((a, k))
            t = again(o)
            meta.seed(s)
            try:
                q = m(*a, **k) if o is None else m(t, *a, **k)
            except Exception as ex:
                ctx.fail('%s-raised:%s' % (where, name), '%s raised %r in another order of calls' % (name, ex))
                return
            d = meta.walk(shot, q, TOL, 'result')
            if st is not None and not d:
                now = kept(t, name)
                d = meta.walk({n: v for n, v in st.items() if now.get(n) is not None},
                              {n: v for n, v in now.items() if v is not None}, TOL, 'what the object holds')
            ctx.observed(where, (name, meta.signature(shot if st is None else sorted(st))) if st or not meta.trivial(shot) else None)
            if d:
                ctx.fail('%s:%s' % (where, name), '%s: a fresh explainer and another order of calls give another result: %s' % (
                    name, d))
        first = self.last_fits()
        rest = [e for e in self.log if not e[7]]
        rng.shuffle(rest)
        try:
            for e in first + rest:
                if e[2] is not None:
                    play(e, 'history')
        except Violation:
            pass
        self.log, self.keep = [], []


def refit(ctx, rng):
    """an explainer that is fitted again answers like one that was never fitted before"""
    from skranger.ensemble import RangerForestClassifier      # noqa: F401
    clf = rng.random() < 0.5
    kw = dict(n_estimators=rng.choice([1, 2, 4]), max_depth=rng.choice([2, 3, 5]), seed=rng.randrange(1, 10 ** 6))
    a = ACXplainer(classifier=clf, **kw)
    last = None
    for r in range(rng.choice([2, 2, 3])):
        m = rng.randint(2, 4) if r == 0 or rng.random() < 0.4 else m
        n = rng.randint(15, 40)
        rows, _ = gen.data(rng, n, m)
        y = [float(z) for z in gen.labels(rng, rows, 2)] if clf else gen.target(rng, rows)
        X = np.array(gen.points(rng, rows, rng.randint(2, 5)))
        data, ydata = np.array(rows), np.array(y)
        b = ACXplainer(classifier=clf, **kw)
        out = []
        for e in (a, b):
            ctx.call('fit', e.fit, data, ydata)
            yx = np.asarray(e.model.predict(X), float)
            t = None if clf else np.array([[v - 0.5, v + 0.5] for v in yx.tolist()])
            S = [[0]] * len(X)
            out.append([yx, ctx.call('compute_sdp_rf', e.compute_sdp_rf, X, yx, data, ydata, S, min_node_size=2, t=t),
                        ctx.call('compute_sdp_rule', e.compute_sdp_rule, X, yx, data, ydata, S, min_node_size=2, t=t),
                        ctx.call('importance_sdp_rf', e.importance_sdp_rf, X, yx, data, ydata, min_node_size=2, t=t, pi_level=0.8)])
        ctx.observed('refit', meta.signature(out[1][1:]) if r else None)
        ctx.count('refits', 1 if r else 0)
        d = meta.walk(out[1], out[0], TOL, 'result')
        if d:
            ctx.fail('refit', 'an explainer that was fitted before answers otherwise than one that was not: %s' % d,
                     {'rows': rows, 'y': y, 'X': X.tolist(), 'parameters': kw})
            return
        rules = np.asarray(out[0][2][1])
        rs = []
        for e in (a, b):
            ctx.call('fit_global_rules', e.fit_global_rules, data, ydata, rules.copy(), [[0]] * len(X))
            rs.append(ctx.call('predict_global_rules', e.predict_global_rules, X, **({'min_acc': 0.5} if clf else {'min_reg': 10.0})))
        d = meta.walk(rs[1], rs[0], TOL, 'result')
        ctx.observed('refit_rules', meta.signature(rs[1]) if r else None)
        if d:
            ctx.fail('refit-rules', 'global rules fitted before change the answers: %s' % d, {'rows': rows, 'y': y})
            return


def twins(ctx, rng):
    """several explainers alive at once, used in turns"""
    K = rng.choice([2, 3])
    es = []
    for _ in range(K):
        m = rng.randint(2, 5)
        rows, _ = gen.data(rng, rng.randint(5, 25), m)
        model, trees = gen.hand(rng, rows)
        C = gen.groups(rng, m) if rng.random() < 0.5 else [[]]
        cache = rng.random() < 0.6
        kw = dict(cache=True, cache_normalized=rng.random() < 0.5, multi_threads=rng.random() < 0.5, C=C) if cache else {}
        bg = gen.arr(rng, rows)
        make = lambda model=model, bg=bg, kw=kw: ctx.call('ACVTree', ACVTree, model, bg, **kw)
        X = np.array(gen.points(rng, rows, rng.randint(1, 4)))
        names = ['shap_values', 'shap_values_nopa', 'shap_values_normalized']
        if cache:
            names += ['shap_values_cache', 'shap_values_cache_nopa'] if kw['multi_threads'] else []
            names += ['shap_values_normalized_cache'] if kw['cache_normalized'] and kw['multi_threads'] else []
        es.append((make, names, X, C))
    alone = []
    for make, names, X, C in es:           # each one alone
        alone.append({n: meta.snap(ctx.call(n, getattr(make(), n), X, C)) for n in names})
    objs = [e[0]() for e in es]
    turns = [(i, n) for i, e in enumerate(es) for n in e[1]] * 2
    rng.shuffle(turns)
    for i, n in turns:
        got = ctx.call(n, getattr(objs[i], n), es[i][2], es[i][3])
        d = meta.walk(alone[i][n], got, TOL, 'result')
        ctx.observed('twins', (n, meta.signature(got)) if not meta.trivial(got) else None)
        if d:
            ctx.fail('twins:%s' % n, '%s: another explainer in use changes the result: %s' % (n, d))
            return


WORKLOADS = meta.workloads(Hook)
WORKLOADS.update({'refit': refit, 'twins': twins})
