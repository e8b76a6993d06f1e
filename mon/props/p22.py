"""The reference values of the experiments package: the Gaussian mixture with a linear model, the estimators for a tree
on its data, and the helpers of the synthetic experiments."""
import math
import sys
import types
import numpy as np
from .. import gen, forest as F
from ..common import npt, rounded, setup
import experiments.utils as U
import acv_explainers.utils as A
from experiments.exp_linear_gmm import ExperimentsLinearGMM



def normal_in_r(low, up, mean, cov, dependent, given, X):
    """pcmvnorm of the package condMVNorm"""
    return [box(Gauss(mean, cov), dict(zip([i - 1 for i in given], X)), [i - 1 for i in dependent], low, up)]


def without_r():
    """a stand-in for R: vectors are arrays, and the only function that is called is computed here"""
    r = types.ModuleType('rpy2')
    o = r.robjects = types.ModuleType('rpy2.robjects')
    o.FloatVector = lambda v: np.array(list(v), float)
    o.IntVector = lambda v: np.array(list(v), int)
    o.Vector = o.Matrix = np.array
    o.pandas2ri = types.SimpleNamespace(activate=lambda: None)
    k = o.packages = types.ModuleType('rpy2.robjects.packages')
    k.importr = lambda name: types.SimpleNamespace(pcmvnorm=normal_in_r)
    sys.modules.update({'rpy2': r, 'rpy2.robjects': o, 'rpy2.robjects.packages': k, 'utils': U})
    from experiments import exp_linear, exp_syn, shap_linear
    del sys.modules['utils']
    return exp_linear.ExperimentsLinear, exp_syn.ExperimentsLinear, shap_linear.ExperimentsLinear


KEYS = 'abc'
DUMMY = {'a': [1., 0.], 'b': [0., 1.], 'c': [0., 0.]}
TOL = 1e-8
Z = 7.0                      # standard errors that an average of draws may be away


class Gauss:
    """a normal distribution; conditions by the precision matrix"""

    def __init__(self, mean, cov):
        self.mu, self.cov = np.array(mean, float), np.array(cov, float)

    def density(self, x, S):
        S = sorted(S)
        if not S:
            return 1.0
        C = self.cov[np.ix_(S, S)]
        z = np.array([x[s] for s in S]) - self.mu[S]
        return math.exp(-0.5 * float(z @ np.linalg.solve(C, z))) / math.sqrt((2 * math.pi) ** len(S) * np.linalg.det(C))

    def given(self, x, S):
        """-> the other columns, their mean and covariance"""
        R = [i for i in range(len(self.mu)) if i not in S]
        S = sorted(S)
        if not R:
            return R, np.zeros(0), np.zeros((0, 0))
        Q = np.linalg.inv(self.cov)
        V = np.linalg.inv(Q[np.ix_(R, R)])
        z = np.array([x[s] for s in S]) - self.mu[S] if S else np.zeros(0)
        return R, self.mu[R] - V @ (Q[np.ix_(R, S)] @ z if S else np.zeros(len(R))), V


def box(g, x, R, low, up):
    """the probability that the columns R lie in a box, given the columns in x"""
    from scipy.stats import multivariate_normal
    Q, mu, V = g.given(x, list(x))
    at = [Q.index(i) for i in R]
    return float(multivariate_normal.cdf(np.array(up, float), mu[at], V[np.ix_(at, at)], lower_limit=np.array(low, float)))


def spd(rng, d, scale=1.0):
    A = np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)])
    return scale * (A @ A.T / d + 0.2 * np.eye(d))


class Mixture:
    def __init__(self, ctx, rng, d=None, n=60, group=None):
        self.d = d or rng.choice([2, 2, 3, 3, 4])
        same = rng.random() < 0.3
        mean = {k: [gen.q(rng.gauss(0, 1.5)) for _ in range(self.d)] for k in KEYS}
        cov = {k: spd(rng, self.d, rng.choice([0.3, 1, 3])) for k in KEYS}
        if same:
            cov = {k: cov['a'] for k in KEYS}
        self.coefs = {k: np.array([gen.q(rng.gauss(0, 2)) for _ in range(self.d)]) for k in KEYS}
        w = [rng.randint(2, 6) for _ in KEYS]
        self.pi = {k: z / sum(w) for k, z in zip(KEYS, w)}
        self.cat = [self.d, self.d + 1]
        group = rng.random() < 0.5 if group is None else group
        self.C = [list(self.cat)] if group else [[]]
        if group and self.d > 2 and rng.random() < 0.4:
            self.C.append([0, 2])
        self.e = ctx.call('ExperimentsLinearGMM', ExperimentsLinearGMM, mean=mean, cov=cov, coefs=self.coefs, pi=self.pi, n=n,
                          C=[list(c) for c in self.C], cat_index=list(self.cat))
        self.g = {k: Gauss(mean[k], cov[k]) for k in KEYS}
        self.m = self.d + 2

    def point(self, rng):
        k = rng.choice(KEYS)
        g = self.g[k]
        L = np.linalg.cholesky(g.cov)
        z = g.mu + L @ np.array([rng.gauss(0, 1) for _ in range(self.d)])
        return np.array([float(np.float32(v)) for v in z] + DUMMY[k])

    def classes(self, x, S):
        """the classes that are possible given the columns S of x, with their probabilities"""
        w = {k: self.pi[k] * self.g[k].density(x, [s for s in S if s < self.d]) for k in KEYS
             if all(DUMMY[k][s - self.d] == x[s] for s in S if s >= self.d)}
        t = sum(w.values())
        return {k: v / t for k, v in w.items()}

    def expected(self, x, S):
        """mean and variance of the linear model given the columns S"""
        m1 = m2 = 0.0
        for k, p in self.classes(x, S).items():
            R, mu, V = self.g[k].given(x, [s for s in S if s < self.d])
            c = self.coefs[k]
            m = sum(c[s] * x[s] for s in S if s < self.d) + float(c[R] @ mu)
            v = float(c[R] @ V @ c[R])
            m1 += p * m
            m2 += p * (v + m * m)
        return m1, max(m2 - m1 * m1, 0.0)

    def draw(self, nprng, x, S, n):
        """points given the columns S"""
        cl = self.classes(x, S)
        counts = nprng.multinomial(n, list(cl.values()))
        out = []
        for k, c in zip(cl, counts):
            R, mu, V = self.g[k].given(x, [s for s in S if s < self.d])
            P = np.tile(np.array(list(x[:self.d]) + DUMMY[k]), (c, 1))
            if R:
                P[:, R] = nprng.multivariate_normal(mu, V, size=c)
            out.append(P)
        return np.concatenate(out)

    def players(self):
        grouped = [j for c in self.C for j in c]
        return [(j,) for j in range(self.m) if j not in grouped] + [tuple(c) for c in self.C if c]

    def subset(self, rng, cats=True):
        S = [j for j in range(self.m if cats else self.d) if rng.random() < rng.choice([0.2, 0.5, 0.8])]
        rng.shuffle(S)
        return S


def f(mx, x):
    k = [k for k in KEYS if DUMMY[k] == [x[mx.d], x[mx.d + 1]]][0]
    return float(mx.coefs[k] @ np.array(x[:mx.d]))


def start(rng):
    s = rng.randrange(2 ** 32)
    np.random.seed(s)
    return np.random.RandomState(s ^ 0x5bd1e995)


def exact(ctx, rng):
    """what is computed in closed form"""
    start(rng)
    mx = Mixture(ctx, rng)
    e = mx.e
    for name, D, y in (('train', e.data, e.y_train), ('test', e.data_test, e.y_test)):
        D, y = np.asarray(D), np.asarray(y)
        ctx.check(D.shape == (60, mx.m) and y.shape == (60,), 'data', 'the %s data have the shape %s' % (name, D.shape))
        d = max(abs(f(mx, r) - v) for r, v in zip(D.tolist(), y.tolist()))
        ctx.check(d <= TOL * 100, 'data', 'a target of the %s data differs from the linear model by %g' % (name, d))
    Q = [mx.point(rng) for _ in range(5)]
    got = npt(ctx.call('linear_gmm_batch', e.linear_gmm_batch, np.array(Q)))
    ctx.check(F.maxdiff(got, [f(mx, x) for x in Q]) <= TOL * 100, 'linear_gmm', 'the outputs of a batch are %s' % got, {'X': Q})
    for _ in range(4):
        x = mx.point(rng)
        got = float(ctx.call('linear_gmm', e.linear_gmm, x.copy()))
        ctx.check(abs(got - f(mx, x)) <= TOL * 100, 'linear_gmm', 'linear_gmm is %g, the model %g' % (got, f(mx, x)), {'x': x})
        S = mx.subset(rng, cats=False)
        k = rng.choice(KEYS)
        if S:
            got, want = float(ctx.call('density_x_y_set', e.density_x_y_set, x.copy(), k, list(S))), mx.g[k].density(x, S)
            ctx.check(abs(got - want) <= TOL * (1 + want), 'density', 'the density of class %s on %s is %g, not %g' % (k, S, got, want))
        R, mu, V = mx.g[k].given(x, S)
        want = sum(mx.coefs[k][s] * x[s] for s in S) + float(mx.coefs[k][R] @ mu)
        got = float(ctx.call('cond_exp_linear_y_set', e.cond_exp_linear_y_set, x.copy(), k, list(S)))
        ctx.check(abs(got - want) <= 1e-7 * (1 + abs(want)), 'class-exp', 'given class %s and columns %s the expectation is %g, not %g'
                  % (k, S, got, want), {'x': x})
        want = sum(mx.coefs[k][s] * (x[s] if s in S else mx.g[k].mu[s]) for s in range(mx.d))
        got = float(ctx.call('mar_exp_linear_y_set', e.mar_exp_linear_y_set, x.copy(), k, list(S)))
        ctx.check(abs(got - want) <= 1e-7 * (1 + abs(want)), 'class-mar', 'the marginal expectation of class %s is %g, not %g'
                  % (k, got, want), {'x': x, 'S': S})
        S = mx.subset(rng)
        want, _ = mx.expected(x, S)
        got = float(ctx.call('cond_exp_linear_gmm', e.cond_exp_linear_gmm, x.copy(), list(S)))
        ctx.observed('expectation', (tuple(S), round(want, 6)))
        if sum(s >= mx.d for s in S) == 1:
            ctx.count('one_category')
        ctx.check(abs(got - want) <= 1e-7 * (1 + abs(want)), 'expectation', 'given the columns %s the expectation is %g, not %g' % (S, got, want),
                  {'x': x, 'S': S})
    if mx.d <= 3 or len(mx.C[0]):
        x = mx.point(rng)
        P = mx.players()
        phi, _ = F.shapley(P, lambda S: [mx.expected(x, S)[0]], 1)
        want = [v[0] for v in F.expand(P, phi, mx.m, 1)]
        got = npt(ctx.call('linear_gmm_shap', e.linear_gmm_shap, x.copy()))
        ctx.observed('shapley', rounded(want))
        ctx.count('grouped' if mx.C[0] else 'ungrouped')
        d = F.maxdiff(got, want)
        ctx.check(d <= 1e-7 * (1 + max(map(abs, want))), 'shapley', 'the Shapley values of the linear model differ by %g' % d,
                  {'x': x, 'C': mx.C, 'got': got, 'want': want})
    ctx.sample({'columns': mx.m, 'classes': mx.pi, 'x': x, 'S': S})


def near(ctx, key, name, got, mean, var, n, floor, data):
    """an average of n draws"""
    ctx.observed('average', (key, round(mean, 6)))
    lim = Z * math.sqrt(var / n) + floor
    ctx.check(abs(got - mean) <= lim, key, '%s is %g, the exact value %g, the error of its draws at most %g' % (name, got, mean, lim), data)


def sampled(ctx, rng):
    """what is estimated from draws is within the error of the draws"""
    nprng = start(rng)
    mx = Mixture(ctx, rng)
    e = mx.e
    N = 2000
    tree = tree_of(ctx, rng, mx)
    for _ in range(3):
        x = mx.point(rng)
        S = mx.subset(rng)
        mean, var = mx.expected(x, S)
        got = float(ctx.call('cond_exp_monte_carlo_linear', e.cond_exp_monte_carlo_linear, x.copy(), list(S), N))
        near(ctx, 'mc-linear', 'the expectation given %s' % S, got, mean, var, N, 1e-4 * (1 + abs(mean)), {'x': x, 'S': S})
        P = np.float32(mx.draw(nprng, x, S, 8000))
        y = tree.predict(P)
        fx = float(tree.predict(np.float32([x]))[0])
        spread = float(np.ptp(tree.tree_.value)) or 1.0
        for key, name, call, v in (
                ('mc-tree', 'cond_exp_monte_carlo_gen', lambda: e.cond_exp_monte_carlo_gen(tree, x.copy(), list(S), N), y),
                ('mc-dist', 'cond_dist_monte_carlo_gen', lambda: e.cond_dist_monte_carlo_gen(tree, x.copy(), fx, list(S), N), (y - fx) ** 2)):
            top = spread if key == 'mc-tree' else spread ** 2
            m, var = float(np.mean(v)), float(np.var(v))
            var += top * top * 20 / len(v)                     # what the sample may have missed
            near(ctx, key, name + ' given %s' % S, float(ctx.call(name, call)), m, var, 1 / (1 / N + 1 / len(v)), 1e-6 * top, {'x': x, 'S': S})
        if set(range(mx.d)) <= set(S) and len(mx.classes(x, S)) == 1:
            continue                                            # nothing is left to draw
        D = ctx.call('cond_data_monte_carlo_gen', e.cond_data_monte_carlo_gen, tree, x.copy(), list(S), N)
        D = np.asarray(D)
        ok = D.shape == (N, mx.m) and all(np.all(D[:, s] == x[s]) for s in S)
        ctx.check(ok, 'mc-data', 'the points drawn given %s do not keep these columns' % S, {'x': x, 'rows': D[:5]})
        if not ok:
            continue
        cl = mx.classes(x, S)
        for k in KEYS:
            K = D[(D[:, mx.d] == DUMMY[k][0]) & (D[:, mx.d + 1] == DUMMY[k][1])]
            p = cl.get(k, 0.0)
            near(ctx, 'mc-data', 'the share of class %s given %s' % (k, S), len(K) / N, p, p * (1 - p), N, 1e-9 + 20 / N, {'x': x})
            if len(K) < 100:
                continue
            R, mu, V = mx.g[k].given(x, [s for s in S if s < mx.d])
            for q, i in enumerate(R):
                near(ctx, 'mc-data', 'the mean of column %d in class %s given %s' % (i, k, S), float(np.mean(K[:, i])), mu[q], V[q, q], len(K),
                     1e-9, {'x': x})
                near(ctx, 'mc-data', 'the variance of column %d in class %s given %s' % (i, k, S), float(np.mean((K[:, i] - mu[q]) ** 2)), V[q, q],
                     2 * V[q, q] ** 2, len(K), 1e-9, {'x': x})
    x = mx.point(rng)
    S = mx.subset(rng)
    B = np.asarray(ctx.call('gen_data', e.gen_data, 4000)[0])
    share = {k: float(np.mean((B[:, mx.d] == DUMMY[k][0]) & (B[:, mx.d + 1] == DUMMY[k][1]))) for k in KEYS}
    for k in KEYS:
        near(ctx, 'gen', 'the share of class %s' % k, share[k], mx.pi[k], mx.pi[k] * (1 - mx.pi[k]), len(B), 0, None)
        K = B[(B[:, mx.d] == DUMMY[k][0]) & (B[:, mx.d + 1] == DUMMY[k][1])]
        for i in range(mx.d):
            g = mx.g[k]
            near(ctx, 'gen', 'the mean of column %d in class %s' % (i, k), float(np.mean(K[:, i])), g.mu[i], g.cov[i, i], len(K), 0, None)
            j = rng.randrange(mx.d)
            near(ctx, 'gen', 'the covariance of columns %d, %d in class %s' % (i, j, k), float(np.mean((K[:, i] - g.mu[i]) * (K[:, j] - g.mu[j]))),
                 g.cov[i, j], g.cov[i, i] * g.cov[j, j] + g.cov[i, j] ** 2, len(K), 0, None)
    m, var = marginal(mx, x, S)
    got = float(ctx.call('mar_exp_linear_mc', e.mar_exp_linear_mc, x.copy(), list(S), N))
    near(ctx, 'mc-marginal', 'the marginal expectation on %s' % S, got, m, var, N, 1e-4 * (1 + abs(m)), {'x': x, 'S': S})
    P = np.float32(mx.draw(nprng, x, S, 8000))
    I = mx.draw(nprng, x, [], 8000)
    I[:, S] = x[S]
    for a, rows in (('monte_carlo', P), ('monte_carlo_interventional', np.float32(I))):
        y = tree.predict(rows)
        got = float(ctx.call('cond_exp_tree', e.cond_exp_tree, x.copy(), tree.tree_, list(S), a, None, N))
        near(ctx, 'mc-algo', 'the %s estimate given %s' % (a, S), got, float(np.mean(y)), float(np.var(y)) + np.ptp(tree.tree_.value) ** 2 * 20 / len(y),
             1 / (1 / N + 1 / len(y)), 1e-6 * (1 + np.ptp(tree.tree_.value)), {'x': x, 'S': S})
    # Shapley values from draws
    P = mx.players()
    if len(P) > 4:
        return
    n, perms = 300, math.factorial(len(P))
    for name, call, worth in (('linear_gmm_shap', lambda: e.linear_gmm_shap(x.copy(), True, n), mx.expected),
                              ('linear_gmm_mar_shap', lambda: e.linear_gmm_mar_shap(x.copy(), N=n), lambda x, S: marginal(mx, x, S))):
        got = npt(ctx.call(name, call))
        for g in P:
            rest = [h for h in P if h != g]
            mean = var = 0.0
            for bits in range(1 << len(rest)):
                T = [h for i, h in enumerate(rest) if bits >> i & 1]
                w = math.factorial(len(T)) * math.factorial(len(rest) - len(T))
                lo, hi = worth(x, [j for h in T for j in h]), worth(x, [j for h in T for j in h] + list(g))
                mean += w / perms * (hi[0] - lo[0])
                var += w * (hi[1] + lo[1]) / perms ** 2
            for j in g:
                near(ctx, 'mc-shapley', '%s of column %d' % (name, j), got[j], mean, var, n, 1e-3 * (1 + abs(mean)), {'x': x, 'C': mx.C})


def marginal(mx, x, S):
    """mean and variance of the linear model when the columns S of a random point are replaced"""
    m1 = m2 = 0.0
    for k in KEYS:
        z = [x[mx.d + q] if mx.d + q in S else DUMMY[k][q] for q in (0, 1)]
        c = [mx.coefs[q] for q in KEYS if DUMMY[q] == z]
        if not c:
            continue                                            # both dummies are 1: no class
        R = [j for j in range(mx.d) if j not in S]
        m = sum(c[0][j] * x[j] for j in range(mx.d) if j in S) + float(c[0][R] @ mx.g[k].mu[R])
        m1 += mx.pi[k] * m
        m2 += mx.pi[k] * (m * m + float(c[0][R] @ mx.g[k].cov[np.ix_(R, R)] @ c[0][R]))
    return m1, max(m2 - m1 * m1, 0.0)


def tree_of(ctx, rng, mx, depth=None):
    from sklearn.tree import DecisionTreeRegressor
    D = np.asarray(mx.e.data)
    y = np.asarray(mx.e.y_train) + (4 * D[:, mx.d] - 3 * D[:, mx.d + 1] if rng.random() < 0.7 else 0)
    return DecisionTreeRegressor(max_depth=depth or rng.choice([1, 2, 3, 4, 5]), min_samples_leaf=rng.choice([1, 2, 5]),
                                 random_state=rng.randrange(1000)).fit(np.float32(D), y)


def path(t, rows, x, S, value):
    """the expectation that follows both branches, with the shares of the training rows, where the column is not in S"""
    def go(i):
        if t.children_left[i] < 0:
            return value(t.value[i][0][0])
        l, r = t.children_left[i], t.children_right[i]
        if t.feature[i] in S:
            return go(l if x[t.feature[i]] <= t.threshold[i] else r)
        a, b = t.weighted_n_node_samples[l], t.weighted_n_node_samples[r]
        return (go(l) * a + go(r) * b) / (a + b)
    return go(0)


def estimates(mx, t, forest, game, rows, x, fx):
    leaves = forest.leaves[0]

    def weights(S):
        return [game.p_leaf(L, x, set(S)) for L in game.L]

    def compatible(S):
        return [all(L[1].box[s][0] < x[s] <= L[1].box[s][1] for s in S if s in L[1].box) for L in game.L]

    def plugin(S):
        return sum(w * L[1].val[0] for w, L in zip(weights(S), game.L))

    def v1(S):
        k = [L[3] * c for L, c in zip(game.L, compatible(S))]
        return sum(z * L[1].val[0] for z, L in zip(k, game.L)) / sum(k)

    def interventional(S):
        out = 0.0
        for L, c in zip(game.L, compatible(S)):
            if c:
                inside = [all(L[1].box[s][0] < r[s] <= L[1].box[s][1] for s in L[1].box if s not in S) for r in rows]
                out += L[1].val[0] * sum(inside) / len(rows)
        return out

    def dist(S):
        w = weights(S)
        return sum(z * (L[1].val[0] - fx) ** 2 for z, L in zip(w, game.L)) / sum(w)
    return {'shap': lambda S: path(t, rows, x, S, float), 'plugin': plugin, 'plugin_v1': v1, 'plugin_interventional': interventional,
            'plugin_interventionalv2': interventional}, {
            'shap': lambda S: path(t, rows, x, S, lambda v: (v - fx) ** 2), 'plugin': dist, 'plugin2': dist}


def tree(ctx, rng):
    """the estimators for a tree"""
    start(rng)
    mx = Mixture(ctx, rng, d=rng.choice([2, 2, 3]), n=rng.choice([60, 90]))
    e = mx.e
    model = tree_of(ctx, rng, mx)
    t = model.tree_
    rows = npt(np.float32(e.data))
    e.data = np.asarray(rows)                    # the rows as the tree saw them
    fo = F.Forest([{'left': t.children_left.tolist(), 'right': t.children_right.tolist(), 'feat': t.feature.tolist(),
                    'thr': t.threshold.tolist(), 'val': [[float(v[0][0])] for v in t.value]}], mx.m)
    game = F.Game(fo, rows)
    scale = 1 + float(np.abs(t.value).max())
    for _ in range(4):
        x = mx.point(rng) if rng.random() < 0.6 else np.array(rng.choice(rows))
        fx = float(model.predict(np.float32([x]))[0])
        fx2 = fx if rng.random() < 0.6 else rng.gauss(0, 3)
        S = mx.subset(rng)
        E, _ = estimates(mx, t, fo, game, rows, x, fx)
        _, D = estimates(mx, t, fo, game, rows, x, fx2)
        for name, ref, call, s in (('cond_exp_tree', E, lambda a: e.cond_exp_tree(x.copy(), t, list(S), a), scale),
                                   ('cond_dist_tree', D, lambda a: e.cond_dist_tree(x.copy(), fx2, t, list(S), a), (scale + abs(fx2)) ** 2)):
            for a in ref:
                if a == 'plugin_interventionalv2' and (len(S) == mx.m or rng.random() < 0.5):
                    continue
                want = ref[a](S)
                got = float(ctx.call(name, call, a))
                if 'interventional' in a and S and len(S) < mx.m and rng.random() < 0.5:      # over other rows
                    other = npt(np.float32(e.data_test))[:rng.choice([7, 40])]
                    got = float(ctx.call(name, e.cond_exp_tree, x.copy(), t, list(S), a, data=np.array(other)))
                    want = estimates(mx, t, fo, game, other, x, fx)[0][a](S)
                    ctx.count('other_rows')
                ctx.observed('estimate', (name, a, tuple(sorted(S)), round(want, 6)) if abs(want) > 1e-9 else None)
                ctx.check(abs(got - want) <= 1e-8 * s, '%s:%s' % (name, a), 'the %s estimate of %s given %s is %g, its definition %g' % (
                    a, name, S, got, want), {'x': x, 'S': S, 'rows': rows})
    if mx.d == 2 or mx.C[0]:
        a = rng.choice(['shap', 'plugin', 'plugin_interventional'])
        P = mx.players()
        phi, _ = F.shapley(P, lambda S: [E[a](S)], 1)
        want = [v[0] for v in F.expand(P, phi, mx.m, 1)]
        got = npt(ctx.call('tree_shap', e.tree_shap, model, x.copy(), a))
        ctx.observed('shapley', rounded(want) if any(want) else None)
        d = F.maxdiff(got, want)
        ctx.check(d <= 1e-8 * scale, 'tree_shap:' + a, 'the Shapley values by the %s estimate differ by %g' % (a, d),
                  {'x': x, 'C': mx.C, 'got': got, 'want': want})


LINEAR = without_r()


def linear(ctx, rng):
    """one normal distribution with a linear model, its tree estimators and Shapley values"""
    from sklearn.tree import DecisionTreeRegressor
    nprng = start(rng)
    which = rng.randrange(3)
    d, n = rng.choice([2, 3, 3, 4]), rng.choice([40, 80])
    g = Gauss([gen.q(rng.gauss(0, 1.5)) for _ in range(d)], spd(rng, d))
    coefs = np.array([gen.q(rng.gauss(0, 2)) for _ in range(d)])
    C = [rng.sample(range(d), 2)] if d > 2 and rng.random() < 0.5 else [[]]
    e = ctx.call('ExperimentsLinear', LINEAR[which], mean=g.mu.copy(), cov=g.cov.copy(), coefs=coefs, n=n, C=[list(c) for c in C])
    for name, D, y in (('train', e.data, e.y_train), ('test', e.data_test, e.y_test)):
        ctx.check(np.shape(D) == (n, d) and np.abs(D @ coefs - y).max() <= 1e-9, 'data', 'a target of the %s data differs from the linear model' % name)
    rows = npt(np.float32(e.data))
    y = np.asarray(e.y_train) + 3 * np.sin(2 * np.asarray(e.data)[:, 0])
    model = DecisionTreeRegressor(max_depth=rng.choice([1, 2, 3, 4]), min_samples_leaf=rng.choice([1, 3]), random_state=0).fit(rows, y)
    e.data = np.asarray(rows)
    t = model.tree_
    fo = F.Forest([{'left': t.children_left.tolist(), 'right': t.children_right.tolist(), 'feat': t.feature.tolist(),
                    'thr': t.threshold.tolist(), 'val': [[float(v[0][0])] for v in t.value]}], d)
    game = F.Game(fo, rows)
    scale = 1 + float(np.abs(t.value).max())
    P = [(j,) for j in range(d) if j not in C[0]] + [tuple(c) for c in C if c]

    def given(x, S):
        R, mu, _ = g.given(x, S)
        return sum(coefs[s] * x[s] for s in S) + float(coefs[R] @ mu)

    def marg(x, S):
        return sum(coefs[j] * (x[j] if j in S else g.mu[j]) for j in range(d))

    def exact(x, S):
        out = 0.0
        for L in game.L:
            b = L[1].box
            if all(b[s][0] < x[s] <= b[s][1] for s in S if s in b):
                R = [j for j in range(d) if j not in S]
                low, up = zip(*[b.get(j, (-math.inf, math.inf)) for j in R]) if R else ((), ())
                out += L[1].val[0] * (box(g, {s: x[s] for s in S}, R, low, up) if R else 1.0)
        return out
    for _ in range(3):
        x = np.array(rng.choice(rows)) if rng.random() < 0.5 else np.float32(nprng.multivariate_normal(g.mu, g.cov)).astype(float)
        S = [j for j in range(d) if rng.random() < rng.choice([0.3, 0.6])]
        rng.shuffle(S)
        for name, want in (('cond_exp_linear_model', given(x, S)), ('mar_exp_linear_model', marg(x, S))):
            got = float(ctx.call(name, getattr(e, name), x.copy(), list(S)))
            ctx.observed('linear', (which, name, tuple(S), round(want, 6)))
            ctx.check(abs(got - want) <= 1e-7 * (1 + abs(want)), name, '%s given %s is %g, not %g' % (name, S, got, want), {'x': x})
        E, _ = estimates(None, t, fo, game, rows, x, 0.0)
        names = {'shap': 'shap', 'plugin': 'plugin', 'plugin_interventional': 'plugin_interventional', 'plugin_interventionalv2': 'plugin_interventional'}
        if which == 2:
            names = {'shap': 'shap', 'plugin': 'plugin', 'plugin_intv': 'plugin_interventional', 'plugin_intv2': 'plugin_interventional'}
        for a, ref in names.items():
            if len(S) == d and ref != 'shap':
                continue
            want, got = E[ref](S), float(ctx.call('cond_exp_tree', e.cond_exp_tree, x.copy(), t, list(S), a))
            if ref == 'plugin_interventional' and S and rng.random() < 0.5:      # over other rows
                other = npt(np.float32(e.data_test))[:rng.choice([7, n])]
                got = float(ctx.call('cond_exp_tree', e.cond_exp_tree, x.copy(), t, list(S), a, data=np.array(other)))
                want = estimates(None, t, fo, game, other, x, 0.0)[0][ref](S)
                ctx.count('other_rows')
            ctx.observed('estimate', (which, a, tuple(S), round(want, 6)))
            ctx.check(abs(got - want) <= 1e-8 * scale, 'linear:' + a, 'the %s estimate given %s is %g, its definition %g' % (a, S, got, want),
                      {'x': x, 'rows': rows})
        if len(S) == d:
            continue
        want = exact(x, S)
        for a in ('exact', 'exact_v1'):
            got = float(ctx.call('cond_exp_tree', e.cond_exp_tree, x.copy(), t, list(S), a))
            ctx.observed('integral', (which, tuple(S), round(want, 3)))
            ctx.check(abs(got - want) <= 2e-4 * scale * (1 + len(game.L)), 'linear:exact', 'the %s expectation given %s is %g, by integration %g' % (
                a, S, got, want), {'x': x})
        N = 2000
        Q = np.tile(x, (4000, 1))
        R, mu, V = g.given(x, S)
        Q[:, R] = nprng.multivariate_normal(mu, V, size=4000)
        I = nprng.multivariate_normal(g.mu, g.cov, size=4000)
        I[:, S] = x[S]
        for a, Z_ in (('monte_carlo', Q), ('monte_carlo_interventional', I)):
            v = model.predict(np.float32(Z_))
            got = float(ctx.call('cond_exp_tree', e.cond_exp_tree, x.copy(), t, list(S), a, N))
            near(ctx, 'linear:' + a, 'the %s estimate given %s' % (a, S), got, float(np.mean(v)), float(np.var(v)) + np.ptp(t.value) ** 2 * 20 / 4000,
                 1 / (1 / N + 1 / 4000), 1e-6 * scale, {'x': x})
    for name, worth in (('linear_shap', given), ('linear_mar_shap', marg)):
        phi, _ = F.shapley(P, lambda S: [worth(x, S)], 1)
        want = [v[0] for v in F.expand(P, phi, d, 1)]
        got = npt(ctx.call(name, getattr(e, name), x.copy()))
        ctx.observed('shapley', (name, rounded(want)))
        ctx.check(F.maxdiff(got, want) <= 1e-7 * (1 + max(map(abs, want))), name, '%s is %s, the Shapley values %s' % (name, got, want), {'x': x, 'C': C})
    a = rng.choice([k for k in names if k != 'plugin'] + ['plugin'])
    phi, _ = F.shapley(P, lambda S: [E[names[a]](S)], 1)
    want = [v[0] for v in F.expand(P, phi, d, 1)]
    got = npt(ctx.call('tree_shap', e.tree_shap, model, x.copy(), a))
    ctx.observed('shapley', ('tree', rounded(want)) if any(want) else None)
    ctx.check(F.maxdiff(got, want) <= 1e-8 * scale, 'linear:tree_shap', 'the Shapley values by the %s estimate are %s, not %s' % (a, got, want),
              {'x': x, 'C': C, 'rows': rows})


def helpers(ctx, rng):
    """for a tree that the explainer loaded: path expectations, Shapley values, and the labels and scores of the experiments"""
    nprng = start(rng)
    c = setup(ctx, rng, kind='hand', mmax=4, nmax=30, n_trees=1, d=rng.choice([1, 1, 2]))
    X = gen.f32(gen.points(rng, c.rows, 2, c.forest.thresholds))
    C = [g for g in gen.groups(rng, c.m) if len(g) > 1] or [[]] if c.m > 1 and rng.random() < 0.5 else [[]]
    P = gen.members(c.m, C)
    got = npt(ctx.call('pytree_shap_plugin', U.pytree_shap_plugin, np.array(X), np.array(c.rows), [list(g) for g in C], c.acv))
    for x, g in zip(X, got):
        phi, _ = F.shapley(P, lambda S: F.exp_normalized(c.game, x, S), c.forest.d)
        want = F.expand(P, phi, c.m, c.forest.d)
        d = F.maxdiff(g, want)
        ctx.observed('plugin_shapley', rounded(want) if any(F.flat(want)) else None)
        ctx.check(d <= 1e-9 * c.scale, 'pytree_shap_plugin', 'pytree_shap_plugin differs from the Shapley values by %g' % d,
                  {'x': x, 'C': C, 'got': g, 'want': want, 'rows': c.rows, 'trees': c.forest.trees})
    # normal distributions
    d = rng.choice([2, 3, 4, 5])
    g = Gauss([gen.q(rng.gauss(0, 2)) for _ in range(d)], spd(rng, d))
    x = np.array([gen.q(rng.gauss(0, 2)) for _ in range(d)])
    S = rng.sample(range(d), rng.randint(1, d - 1))
    R, mu, V = g.given(x, S)
    N = 2000
    for M in (U, A):
        m1, v1 = ctx.call('condMVN', M.condMVN, g.mu, g.cov, R, S, x[S])
        ctx.check(np.abs(m1 - mu).max() <= 1e-6 * (1 + np.abs(mu).max()) and np.abs(v1 - V).max() <= 1e-6 * (1 + np.abs(V).max()), 'condMVN',
                  'the conditional distribution given %s is off by %g and %g' % (S, np.abs(m1 - mu).max(), np.abs(v1 - V).max()))
        ctx.observed('normal', rounded(npt(mu)))
        m1, v1 = ctx.call('marMVN', M.marMVN, g.mu, g.cov, R, S, x[S])
        ctx.check(np.array_equal(m1, g.mu[R]) and np.array_equal(v1, g.cov[np.ix_(R, R)]), 'marMVN', 'the marginal distribution of %s is off' % R)
        for name, draw, mean, cov in (('sampleMVN', lambda: M.sampleMVN(N, g.mu, g.cov, R, S, x[S]), mu, V),
                                      ('sampleMarMVN', lambda: M.sampleMarMVN(N, g.mu, g.cov, R, S), g.mu[R], g.cov[np.ix_(R, R)])):
            s = np.asarray(ctx.call(name, draw))
            for i in range(len(R)):
                near(ctx, name, 'the mean of column %d' % R[i], float(np.mean(s[:, i])), mean[i], cov[i, i], N, 0, None)
                for j in range(i + 1):
                    near(ctx, name, 'the covariance of columns %d, %d' % (R[i], R[j]), float(np.mean((s[:, i] - mean[i]) * (s[:, j] - mean[j]))),
                         cov[i, j], cov[i, i] * cov[j, j] + cov[i, j] ** 2, N, 0, None)


def monte(ctx, rng):
    """expectations of a loaded ensemble: along the paths, and from draws of a normal distribution"""
    from sklearn.ensemble import RandomForestRegressor, RandomForestClassifier, ExtraTreesRegressor
    from sklearn.tree import DecisionTreeRegressor, DecisionTreeClassifier
    from acv_explainers import ACVTree
    nprng = start(rng)
    d, n, N = rng.choice([2, 3, 3, 4]), rng.choice([40, 80]), 2000
    g = Gauss([gen.q(rng.gauss(0, 1)) for _ in range(d)], spd(rng, d))
    X = np.float32(nprng.multivariate_normal(g.mu, g.cov, size=n)).astype(float)
    y = np.sin(X[:, 0]) + X[:, 1] * X[:, -1]
    k = rng.choice([2, 2, 3])
    lab = np.digitize(y, np.quantile(y, [i / k for i in range(1, k)]))
    opt = dict(max_depth=rng.choice([1, 2, 3, 4]), min_samples_leaf=rng.choice([1, 3]), random_state=rng.randrange(1000))
    cls, q = rng.choice([(DecisionTreeRegressor, 0), (RandomForestRegressor, 0), (ExtraTreesRegressor, 0), (RandomForestClassifier, 1),
                         (DecisionTreeClassifier, 1)])
    if 'Forest' in cls.__name__ or 'Extra' in cls.__name__:
        opt['n_estimators'] = rng.choice([1, 2, 3])
    weight = [rng.choice([1, 1, 2, 3]) for _ in range(n)] if rng.random() < 0.4 else None
    model = cls(**opt).fit(X, lab if q else y, sample_weight=weight)
    ests = [z.tree_ for z in getattr(model, 'estimators_', [model])]
    acv = ctx.call('ACVTree', ACVTree, model, X)

    def out(v):
        v = np.asarray(v[0], float)
        return v / v.sum() if q else v

    def value(P):
        return model.predict_proba(P) if q else model.predict(P)[:, None]
    xs = np.array([X[rng.randrange(n)] for _ in range(2)])
    S = [j for j in range(d) if rng.random() < rng.choice([0.3, 0.7])]
    rng.shuffle(S)
    got = ctx.call('shap_cond_exp', U.shap_cond_exp, xs.copy(), list(S), acv)
    for x, r in zip(xs, got):
        want = sum(path2(t, x, S, out) for t in ests) / len(ests)
        ctx.observed('path', (tuple(S), rounded(npt(want))))
        ctx.check(np.abs(r - want).max() <= 1e-7 * (1 + np.abs(want).max()), 'shap_cond_exp',
                  'the path expectation of %s given %s is %s, not %s' % (cls.__name__, S, npt(r), npt(want)), {'x': x})
    P = nprng.multivariate_normal(g.mu, g.cov, size=8000)
    top = np.ptp(value(np.float32(P)), axis=0) + 1e-9

    def v(x, S):
        """-> the expectation of each output, and the variance of an average of N draws plus that of this one"""
        R, mu, V = g.given(x, S)
        if not R:
            return value(np.float32([x]))[0], top * 0
        Q = np.tile(x, (4000, 1))
        Q[:, R] = nprng.multivariate_normal(mu, V, size=4000)
        z = value(np.float32(Q))
        return z.mean(axis=0), (z.var(axis=0) + top * top * 20 / 4000) * (1 / N + 1 / 4000)
    got = ctx.call('mc_cond_exp', U.mc_cond_exp, xs.copy(), np.array(S).astype(int), acv, g.mu, g.cov, N)
    for x, r in zip(xs, got):
        m, var = v(x, S)
        ctx.observed('drawn', (tuple(S), rounded(npt(m))))
        ctx.check(np.all(np.abs(r - m) <= Z * np.sqrt(var) + 1e-6), 'mc_cond_exp', 'the expectation of %s given %s is %s by draws, not %s'
                  % (cls.__name__, S, npt(r), npt(m)), {'x': x, 'S': S})
    x = xs[0]
    C = [rng.sample(range(d), 2)] if d > 2 and rng.random() < 0.5 else [[]]
    cache = {}

    def game(S):
        S = tuple(sorted(S))
        if S not in cache:
            cache[S] = v(x, list(S))
        return cache[S]
    P = [(j,) for j in range(d) if j not in C[0]] + [tuple(c) for c in C if c]
    star = sorted(rng.sample(range(d), rng.randint(1, d)))
    null = [j for j in range(d) if j not in star]
    for name, call, players, worth in (
            ('tree_sv_exact', lambda: U.tree_sv_exact(x[None].copy(), C, acv, g.mu, g.cov, N), P, game),
            ('tree_sv_acv', lambda: U.tree_sv_acv(x[None].copy(), acv, [list(star)], [list(null)], g.mu, g.cov, N),
             [(j,) for j in star], lambda S: game(list(S) + null) if S else game([]))):
        got = np.asarray(ctx.call(name, call))[0]
        want, tol = np.zeros((d, len(top))), np.zeros((d, len(top))) + 1e-6
        p = len(players)
        for a in players:
            rest = [b for b in players if b != a]
            for bits in range(1 << len(rest)):
                T = [b for i, b in enumerate(rest) if bits >> i & 1]
                w = 1 / (p * math.comb(p - 1, len(T)))
                lo, hi = worth([j for b in T for j in b]), worth([j for b in T + [a] for j in b])
                for j in a:
                    want[j] += w * (hi[0] - lo[0])
                    tol[j] += w * Z * (np.sqrt(hi[1]) + np.sqrt(lo[1]))
        ctx.observed('sv', (name, rounded(npt(want))) if np.any(np.abs(want) > tol) else None)
        ctx.check(np.all(np.abs(got - want) <= tol), name, '%s is %s, the Shapley values %s, the error of the draws at most %s' % (
            name, npt(got), npt(want), npt(tol)), {'x': x, 'C': C, 'star': star})
    z = np.array([gen.q(rng.gauss(0, 1)) for _ in range(n)])
    i = rng.randrange(len(ests))
    ctx.call('rebuild_acvtree', A.rebuild_acvtree, 0, acv.trees[i], X.copy(), np.array([z, z * z]).T[:, :len(top)] if len(top) < 3 else np.array([z, z * z, -z]).T)
    node = ests[i].decision_path(np.float32(X)).toarray()
    full = np.where(node.sum(axis=0) > 0)[0]
    w = [[float(c.mean()) for c in (z[node[:, k] == 1], (z * z)[node[:, k] == 1], -z[node[:, k] == 1])][:len(top)] for k in full]
    ctx.observed('rebuilt', (ests[i].node_count if hasattr(ests[i], 'node_count') else len(full), rounded(w)))
    ctx.check(F.maxdiff(F.flat(npt(acv.trees[i].values[full])), F.flat(w)) <= 1e-9 * (1 + max(map(abs, F.flat(w)))) and
              npt(acv.trees[i].node_sample_weight) == npt(node.sum(axis=0) * 1.0), 'rebuild_acvtree',
              'a rebuilt tree does not hold the averages and numbers of the rows in its nodes', {'want': w, 'got': acv.trees[i].values})
    if cls is DecisionTreeRegressor:
        t = model.tree_
        z = np.array([gen.q(rng.gauss(0, 1)) for _ in range(n)])
        ctx.call('rebuild_tree', U.rebuild_tree, 0, t, X.copy(), z)
        node = model.decision_path(np.float32(X)).toarray()
        want = [float(z[c == 1].mean()) for c in node.T]
        ctx.observed('rebuilt', (t.node_count, rounded(want)))
        ctx.check(F.maxdiff(t.value[:, 0, 0].tolist(), want) <= 1e-9 * (1 + max(map(abs, want))) and
                  t.weighted_n_node_samples.tolist() == node.sum(axis=0).tolist(), 'rebuild_tree',
                  'a rebuilt tree does not hold the averages and numbers of the rows in its nodes', {'want': want, 'got': t.value[:, 0, 0]})


def path2(t, x, S, out):
    def go(i):
        l, r = t.children_left[i], t.children_right[i]
        if l < 0:
            return out(t.value[i])
        if t.feature[i] in S:
            return go(l if np.float32(x[t.feature[i]]) <= t.threshold[i] else r)
        a, b = t.weighted_n_node_samples[l], t.weighted_n_node_samples[r]
        return (go(l) * a + go(r) * b) / (a + b)
    return go(0)


def datasets(ctx, rng):
    """the data with a strong categorical column, its encodings, and columns cut at quantiles"""
    import random
    import pandas as pd
    start(rng)
    random.seed(rng.randrange(2 ** 32))
    M = rng.choice([U, A])
    weak, n, card = rng.randint(1, 4), rng.randint(20, 60), rng.choice([2, 4, 10, 60])
    df, cov, w = ctx.call('return_main_dataset', M.return_main_dataset, weak, n, card, rng.choice([0.025, 1.0]))
    ctx.check(list(df.columns) == ['y', 'c', 'z'] + ['x%d' % i for i in range(weak)] and len(df) == n and np.shape(cov) == (weak, weak),
              'dataset', 'the columns are %s and the rows %d' % (list(df.columns), len(df)))
    ctx.check(np.all(np.linalg.eigvalsh(cov) > -1e-9), 'dataset', 'the covariance is not positive')
    y, c, z = df['y'].tolist(), [str(v) for v in df['c']], df['z'].tolist()
    bad = [i for i in range(n) if (y[i] == 1) != (c[i][-1] == 'A' or z[i] > 10)]
    ctx.observed('dataset', (card, tuple(y), tuple(c)))
    ctx.check(not bad, 'dataset', 'the target of row %s does not follow from c and z' % bad[:3], {'rows': df.iloc[bad[:3]].values.tolist()})
    ctx.check(len(set(c)) <= card, 'dataset', 'there are %d categories of at most %d' % (len(set(c)), card))
    hot = ctx.call('encode_as_onehot', M.encode_as_onehot, df.copy())
    for k in sorted(set(c)):
        ctx.check(hot['c_' + k].tolist() == [int(v == k) for v in c], 'onehot', 'the dummy column of %s is wrong' % k)
    ctx.check(hot['y'].tolist() == y and hot['z'].tolist() == z, 'onehot', 'encoding the categories changed other columns')
    for name, order in (('encode_as_int', sorted(set(c))), ('encode_as_magic_int', None)):
        code, enc = ctx.call(name, getattr(M, name), df.copy())
        v = [int(i) for i in code['c']]
        back = [str(r[0]) for r in enc.inverse_transform(np.array(v)[:, None])]
        ctx.check(back == c and (order is None or v == [order.index(k) for k in c]), name, 'the codes of the categories are wrong')
        if order is None:
            first = [k[-1] for _, k in sorted(set(zip(v, c)))]
            ctx.check(first == sorted(first) and sorted(set(v)) == list(range(len(set(c)))), name, 'the codes mix the two kinds: %s' % first)
        ctx.check(code['y'].tolist() == y and code['z'].tolist() == z, name, 'encoding the categories changed other columns')
    # quantiles
    cols = ['a', 'b', 'k']
    T = pd.DataFrame({'a': [gen.q(rng.gauss(0, 2)) for _ in range(n)], 'b': [rng.randint(0, 4) * 1.0 for _ in range(n)],
                      'k': [rng.randint(0, 1) for _ in range(n)]})
    num = rng.choice([2, 3, 4, 5, 6, 11])
    cut, values = ctx.call('quantile_discretizer', U.quantile_discretizer, T.copy(), num, ['k'])
    again = ctx.call('quantile_discretizer_byq', U.quantile_discretizer_byq, T.copy(), ['k'], values)
    qs = [round(i / (num - 1), 2) for i in range(num)]
    want = []
    for col in cols[:2]:
        s = T[col].tolist()
        edge = [float(np.quantile(s, q)) for q in qs]
        for b in range(num - 1):
            last = b == num - 2
            want.append([int(edge[b] <= v and (v < edge[b + 1] or last and v == edge[b + 1])) for v in s])
            ctx.check(npt(values[col][b]) == edge[b:b + 2], 'quantiles', 'interval %d of %s is %s, not %s' % (b, col, values[col][b], edge[b:b + 2]))
    want.append(T['k'].tolist())
    for name, D in (('quantile_discretizer', cut), ('quantile_discretizer_byq', again)):
        ctx.check([D.iloc[:, j].tolist() for j in range(D.shape[1])] == want, 'quantiles', '%s puts rows into wrong intervals' % name,
                  {'data': T.values.tolist(), 'num': num})
    other = pd.DataFrame({'a': T['a'] + 0.125, 'b': T['b'][::-1].values, 'k': T['k']})
    D = ctx.call('quantile_discretizer_byq', U.quantile_discretizer_byq, other, ['k'], values)
    for col, base in (('a', 0), ('b', num - 1)):
        for b, (lo, hi) in enumerate(values[col]):
            w = [int(lo <= v and (v < hi or b == num - 2 and v == hi)) for v in other[col]]
            ctx.check(D.iloc[:, base + b].tolist() == w, 'quantiles', 'new rows fall into wrong intervals')
    ctx.observed('cut', (num, tuple(map(tuple, want))))


def labels(ctx, rng):
    start(rng)
    n, d = rng.randint(1, 12), 11
    X = np.array([[gen.q(rng.gauss(0, 1)) for _ in range(d)] for _ in range(n)])
    if rng.random() < 0.3:
        X[0, 4] = X[0, 10] = 0.0
    want_used = {'syn1': [0, 1], 'syn2': [2, 3, 4, 5], 'syn3': [6, 7, 8, 9]}
    sw = {'syn4': ([0, 1], [2, 3, 4, 5]), 'syn5': ([0, 1], [6, 7, 8, 9]), 'syn6': ([2, 3, 4, 5], [6, 7, 8, 9])}
    kind = rng.choice(sorted(want_used) + sorted(sw))
    got = npt(ctx.call('generate_ground_truth', U.generate_ground_truth, X.copy(), kind))
    want = [[float(j in want_used[kind]) if kind in want_used else float(j == 10 or j in sw[kind][x[10] >= 0]) for j in range(d)] for x in X.tolist()]
    ctx.observed('labels', (kind, rounded(npt(X))))
    ctx.check(got == want, 'ground_truth', 'the relevant columns of %s are wrong' % kind, {'X': X, 'got': got, 'want': want})
    lin = {'syn1': lambda x: x[0] * x[1], 'syn2': lambda x: sum(v * v for v in x[2:6]) - 4.0,
           'syn3': lambda x: -10 * math.sin(0.2 * x[6]) + abs(x[7]) + x[8] + math.exp(-x[9]) - 2.4}
    two = {'syn4': (lin['syn1'], lambda x: x[2] * x[3]), 'syn5': (lin['syn1'], lin['syn3']), 'syn6': (lin['syn2'], lin['syn3'])}
    got = npt(ctx.call('generate_y', U.generate_y, X.copy(), kind))
    for x, g in zip(X.tolist(), got):
        z = (lin[kind] if kind in lin else two[kind][x[4] >= 0])(x)
        p = 1 / (1 + math.exp(-z))
        ctx.check(abs(g[0] - p) <= 1e-9 and abs(g[1] - (1 - p)) <= 1e-9, 'generate_y', 'the probabilities of %s are %s, not %g' % (kind, g, p), {'x': x})
    imp = np.array([[float(rng.random() < 0.5) for _ in range(d)] for _ in range(n)])
    imp[:, rng.randrange(d)] = 1.0
    got = npt(ctx.call('feature_performance_metric', U.feature_performance_metric, np.array(want), imp.copy()))
    tp = [100 * sum(a * b for a, b in zip(w, i)) / sum(w) for w, i in zip(want, npt(imp))]
    fd = [100 * sum((1 - a) * b for a, b in zip(w, i)) / sum(i) for w, i in zip(want, npt(imp))]
    ref = [float(np.mean(tp)), float(np.std(tp)), float(np.mean(fd)), float(np.std(fd))]
    ctx.check(F.maxdiff(list(got), ref) <= 1e-5, 'rates', 'the rates are %s, not %s' % (got, ref))


WORKLOADS = dict(exact=exact, sampled=sampled, tree=tree, linear=linear, helpers=helpers, monte=monte, datasets=datasets,
                 labels=labels)
