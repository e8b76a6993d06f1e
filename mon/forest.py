"""The reference: an ensemble as plain Python lists read from the source model (never from what the
library loaded), the leaf-estimator game defined on it, and brute-force definitions over that game."""
import itertools, json, math

INF = float('inf')
popcount = (lambda x: x.bit_count()) if hasattr(int, 'bit_count') else (lambda x: bin(x).count('1'))


class Leaf:
    __slots__ = ('box', 'vars', 'val')

    def __init__(self, box, val):
        self.box, self.val = box, val
        self.vars = tuple(sorted(box))

    def has(self, x, feats=None):
        for f, (lo, hi) in self.box.items():
            if feats is None or f in feats:
                if not (lo < x[f] <= hi):
                    return False
        return True


class Forest:
    """trees: list of dicts left/right/feat/thr/val, every value already scaled so that the raw output
    is the plain sum over trees (plus the offset)"""

    def __init__(self, trees, m, offset=None):
        self.trees, self.m = trees, m
        self.d = len(trees[0]['val'][0])
        self.offset = offset or [0.0] * self.d
        self.leaves = []
        for t in trees:
            out = []
            st = [(0, {})]
            while st:
                i, box = st.pop()
                if t['left'][i] < 0:
                    out.append(Leaf(box, t['val'][i]))
                    continue
                f, th = t['feat'][i], t['thr'][i]
                lo, hi = box.get(f, (-INF, INF))
                b = dict(box)
                b[f] = (lo, min(hi, th))
                st.append((t['left'][i], b))
                b = dict(box)
                b[f] = (max(lo, th), hi)
                st.append((t['right'][i], b))
            self.leaves.append(out)
        self.thresholds = sorted({(t['feat'][i], t['thr'][i]) for t in trees for i in range(len(t['left']))
                                  if t['left'][i] >= 0})

    def leaf_of(self, b, x):
        t = self.trees[b]
        i = 0
        while t['left'][i] >= 0:
            i = t['left'][i] if x[t['feat'][i]] <= t['thr'][i] else t['right'][i]
        return i

    def predict(self, x):
        out = list(self.offset)
        for b, t in enumerate(self.trees):
            v = t['val'][self.leaf_of(b, x)]
            for k in range(self.d):
                out[k] += v[k]
        return out


def from_sklearn(model, kind, m):
    """the source model itself, read independently of the library"""
    fam = kind.split('_')[0]
    clf = kind.split('_')[1] != 'reg'
    if fam == 'xgb':
        return from_xgb(model, m)
    if fam == 'dt':
        ts, sc = [model.tree_], 1.0
    elif fam in ('rf', 'et'):
        ts, sc = [e.tree_ for e in model.estimators_], 1.0 / len(model.estimators_)
    elif fam == 'gbt':
        ts, sc = [e.tree_ for e in model.estimators_[:, 0]], model.learning_rate
    trees = []
    for t in ts:
        val = t.value.tolist()
        vals = []
        for v in val:
            v = [z for row in v for z in row]
            if clf and fam != 'gbt':
                s = sum(v)
                v = [z / s for z in v]
            vals.append([z * sc for z in v])
        trees.append({'left': t.children_left.tolist(), 'right': t.children_right.tolist(),
                      'feat': t.feature.tolist(), 'thr': t.threshold.tolist(), 'val': vals})
    return Forest(trees, m)


def from_ranger(model, m, clf):
    """the forest behind an explainer that fits its own: the splits of ranger, the leaf values as skranger reports them"""
    f = model.ranger_forest_['forest']
    trees = []
    for ch, sv, th, e in zip(f['child_node_ids'], f['split_var_ids'], f['split_values'], model.estimators_):
        left, right = list(ch[0]), list(ch[1])
        vals = []
        for v in e.tree_.value.tolist():
            v = [z for row in v for z in row]
            s = (sum(v) if clf else 1.0) * len(model.estimators_)
            vals.append([z / s if s else 0.0 for z in v])
        trees.append({'left': [l if l else -1 for l in left], 'right': [r if r else -1 for r in right],
                      'feat': [int(z) if l else -2 for z, l in zip(sv, left)], 'thr': [float(t) for t in th], 'val': vals})
    return Forest(trees, m)


def from_xgb(model, m):
    import numpy as np
    dump = model.get_booster().get_dump(dump_format='json')
    K = getattr(model, 'n_classes_', 2)
    K = 1 if K <= 2 else K
    trees = []
    for i, s in enumerate(dump):
        t = {'left': [], 'right': [], 'feat': [], 'thr': [], 'val': []}

        def add(n):
            k = len(t['left'])
            for a in t.values():
                a.append(None)
            if 'leaf' in n:
                t['left'][k] = t['right'][k] = -1
                t['feat'][k], t['thr'][k] = -2, -2.0
                v = [0.0] * K
                v[i % K] = float(np.float32(n['leaf']))
                t['val'][k] = v
            else:
                # left: x < c in float32, that is x <= the next float32 below c
                c = np.float32(n['split_condition'])
                t['feat'][k] = int(n['split'][1:])
                t['thr'][k] = float(np.nextafter(c, np.float32(-np.inf)))
                t['val'][k] = [0.0] * K
                by = {c['nodeid']: c for c in n['children']}
                t['left'][k] = add(by[n['yes']])
                t['right'][k] = add(by[n['no']])
            return k
        add(json.loads(s))
        trees.append(t)
    return Forest(trees, m)


class Game:
    """v(S) of the leaf estimator on a background sample, with bit sets of background rows.
    v(S) = sum over leaves of value * 1[x_S in leaf_S] * #rows in leaf / #rows in leaf_S  (0 if there is none)"""

    def __init__(self, forest, rows):
        self.f, self.rows, self.n = forest, rows, len(rows)
        self.m = forest.m
        self.all = (1 << self.n) - 1
        self.L = []
        for b, ls in enumerate(forest.leaves):
            for lf in ls:
                masks = {}
                for f, (lo, hi) in lf.box.items():
                    masks[f] = mask_of([lo < r[f] <= hi for r in rows])
                full = self.all
                for k in masks.values():
                    full &= k
                self.L.append((b, lf, masks, popcount(full), full))

    def rows_in(self, masks, feats):
        k = self.all
        for f in feats:
            if f in masks:
                k &= masks[f]
        return k

    def p_leaf(self, leaf, x, feats):
        """P(leaf | x_S) of the leaf estimator"""
        b, lf, masks, lm, full = leaf
        for f in feats:
            if f in lf.box:
                lo, hi = lf.box[f]
                if not (lo < x[f] <= hi):
                    return 0.0
        n = popcount(self.rows_in(masks, feats))
        return lm / n if n else 0.0

    def v(self, x, feats, leaves=None):
        out = [0.0] * self.f.d
        feats = set(feats)
        for leaf in (self.L if leaves is None else leaves):
            p = self.p_leaf(leaf, x, feats)
            if p:
                for k in range(self.f.d):
                    out[k] += p * leaf[1].val[k]
        return out


def shapley(players, value, d):
    """brute force over all coalitions; players: tuples of columns; value(list of columns) -> vector"""
    P = len(players)
    memo = []
    for mask in range(1 << P):
        memo.append(value([j for k in range(P) if mask >> k & 1 for j in players[k]]))
    w = [math.factorial(s) * math.factorial(P - s - 1) / math.factorial(P) for s in range(P)]
    phi = []
    for k in range(P):
        out = [0.0] * d
        for mask in range(1 << P):
            if mask >> k & 1:
                continue
            c = w[popcount(mask)]
            a, b = memo[mask | 1 << k], memo[mask]
            for j in range(d):
                out[j] += c * (a[j] - b[j])
        phi.append(out)
    return phi, memo


def expand(players, phi, m, d):
    """every member of a group gets the group's value"""
    out = [[0.0] * d for _ in range(m)]
    for p, v in zip(players, phi):
        for j in p:
            out[j] = list(v)
    return out


def close(a, b, scale=1.0, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, scale)


def flat(a):
    return [a] if not isinstance(a, (list, tuple)) else [z for x in a for z in flat(x)]


def maxdiff(a, b):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return INF
    w = 0.0
    for x, y in zip(fa, fb):
        if x != x or y != y:
            if not (x != x and y != y):
                return INF
            continue
        if x == y:
            continue
        w = max(w, abs(x - y))
    return w


# ------------------------------------------------------------------ conditional expectations

def exp_normalized(game, x, feats):
    """per tree: leaf probabilities rescaled to sum to 1 (0 if no leaf is possible)"""
    feats = set(feats)
    d = game.f.d
    out = [0.0] * d
    per = {}
    for leaf in game.L:
        p = game.p_leaf(leaf, x, feats)
        if p:
            z, s = per.setdefault(leaf[0], [0.0, [0.0] * d])
            per[leaf[0]][0] = z + p
            for k in range(d):
                s[k] += p * leaf[1].val[k]
    for z, s in per.values():
        for k in range(d):
            out[k] += s[k] / z
    return out


def exp_equal(game, x, feats):
    """mean output of the background rows that equal x on feats (0 if there is none), each row giving the
    values of the leaves it reaches that x can reach on feats: for rows equal to x that is all of them"""
    rows = [r for r in game.rows if all(r[f] == x[f] for f in feats)]
    d = game.f.d
    out = [0.0] * d
    if not rows:
        return out
    for r in rows:
        for b in range(len(game.f.trees)):
            v = game.f.trees[b]['val'][game.f.leaf_of(b, r)]
            for k in range(d):
                out[k] += v[k]
    return [z / len(rows) for z in out]


# ------------------------------------------------------------------ same decision probability (classifiers)

def mask_of(flags):
    return int(''.join(['1' if f else '0' for f in reversed(flags)]) or '0', 2)


def bits(k):
    """the positions of the bits of k that are set"""
    s = bin(k)[:1:-1]
    i = s.find('1')
    while i >= 0:
        yield i
        i = s.find('1', i + 1)


class SdpClf:
    """Same decision probability of a tree classifier.
    probs: per tree and leaf the class probabilities (already divided by the number of trees), given through
    game.f.leaves[b][i].val, or through `binary` (one margin per leaf -> [1 - s(v), s(v)] / trees)"""

    def __init__(self, game, classes, binary=False):
        self.g, self.cls = game, classes
        self.same = {}
        self.binary = binary
        self.min_den = 1e-6
        nt = len(game.f.trees)
        self.val = []
        for leaf in game.L:
            v = leaf[1].val
            if binary:
                s = 1 / (1 + math.exp(-v[0]))
                v = [(1 - s) / nt, s / nt]
            self.val.append(v)

    def means(self, x, c, feats, normalise=True, equal=False):
        """-> expected probability of class c given x on feats: over all rows, rows of the same class, of another class"""
        g = self.g
        if c not in self.same:
            self.same[c] = mask_of([y == c for y in self.cls])
        same = self.same[c]
        sub = (g.all, same, g.all & ~same)
        feats = set(feats)
        out = [0.0, 0.0, 0.0]
        eq = mask_of([all(r[f] == x[f] for f in feats) for r in g.rows]) if equal else None
        per = {}
        for leaf, val in zip(g.L, self.val):
            b, lf, masks, lm, full = leaf
            if any(f in lf.box and not lf.box[f][0] < x[f] <= lf.box[f][1] for f in feats):
                continue
            cond = eq if equal else g.rows_in(masks, feats)
            acc = per.setdefault(b, [[0.0, 0.0] for _ in range(3)])
            for k in range(3):
                n = popcount(cond & sub[k])
                if n:
                    p = popcount(full & cond & sub[k]) / n
                    acc[k][0] += p * val[c]
                    acc[k][1] += p
        for acc in per.values():
            for k in range(3):
                if normalise and not equal:
                    out[k] += acc[k][0] / acc[k][1] if acc[k][1] else 0.0
                else:
                    out[k] += acc[k][0]
        return out

    def sdp(self, x, c, feats, normalise=True, equal=False, clip=False, ends=True):
        """-> (value, decidable)"""
        feats = set(feats)
        if ends and len(feats) == self.g.m:
            return 1.0, True
        if ends and not feats:
            return 0.0, True
        a, u, d = self.means(x, c, feats, normalise, equal)
        self.nothing = u == 0 and d == 0   # 0 for want of rows, not by cancellation
        den = u - d
        if abs(den) < 1e-9:
            return 0.0, self.nothing
        s = (a - d) / den
        if clip:
            s = min(1.0, max(0.0, s))
        # how much of the rounding of the means shows up in the quotient
        return s, abs(den) > self.min_den


    def exact(self, x, c, feats, normalise=True, equal=False, clip=False, ends=True):
        """whether every quantity that occurs is a multiple of a power of two, so that floating point is exact"""
        feats = set(feats)
        if ends and len(feats) in (0, self.g.m):
            return True
        g = self.g
        same = mask_of([y == c for y in self.cls])
        sub = (g.all, same, g.all & ~same)
        eq = mask_of([all(r[f] == x[f] for f in feats) for r in g.rows]) if equal else None
        out, per = [0.0] * 3, {}
        for leaf, val in zip(g.L, self.val):
            b, lf, masks, lm, full = leaf
            if not dyadic(val[c]):
                return False
            if any(f in lf.box and not lf.box[f][0] < x[f] <= lf.box[f][1] for f in feats):
                continue
            cond = eq if equal else g.rows_in(masks, feats)
            acc = per.setdefault(b, [[0.0, 0.0] for _ in range(3)])
            for k in range(3):
                n = popcount(cond & sub[k])
                if n & (n - 1):
                    return False
                if n:
                    p = popcount(full & cond & sub[k]) / n
                    acc[k][0] += p * val[c]
                    acc[k][1] += p
        for acc in per.values():
            for k in range(3):
                w = acc[k][1] if normalise and not equal else 1.0
                if w and not power(w):
                    return False
                out[k] += acc[k][0] / w if w else 0.0
        return out[1] == out[2] or power(out[1] - out[2])


def dyadic(v):
    return abs(v) < 2 ** 10 and v * 2 ** 12 == int(v * 2 ** 12)


def power(v):
    return math.frexp(abs(v))[0] == 0.5


# ------------------------------------------------------------------ same decision probability (regressors)

class SdpReg:
    """Same decision probability of a regressor: the output stays within sqrt(t) of the output of the point.
    out: outputs of the rows"""

    def __init__(self, game, out=None):
        self.g = game
        self.out = [game.f.predict(r)[0] for r in game.rows] if out is None else out
        # outputs and their squared distances are exact numbers
        self.exact = out is None and all(abs(v) < 2 ** 10 and v * 256 == int(v * 256) for v in
                                         game.f.offset + [z for leaf in game.L for z in leaf[1].val] + self.out)

    def split(self, fx, t):
        """rows beyond / within the distance, and whether rounding could change that"""
        g = self.g
        dist = [(fx - y) ** 2 for y in self.out]
        sc = 1e-9 * max([1.0, t] + dist)
        sure = self.exact or all(abs(z - t) > sc for z in dist)
        up = mask_of([z > t for z in dist])
        return up, g.all & ~up, sure

    def spread(self, x, fx, feats, rows, normalise=True):
        """expected squared distance of the output from fx, up to the constant fx^2, by pairs of leaves of the trees"""
        g = self.g
        feats = set(feats)
        by = {}
        for leaf in g.L:
            b, lf, masks, lm, full = leaf
            if any(f in lf.box and not lf.box[f][0] < x[f] <= lf.box[f][1] for f in feats):
                continue
            by.setdefault(b, []).append((lf.val[0], full & rows, g.rows_in(masks, feats) & rows))
        tot = 0.0
        norm, single = {}, {}
        for b, ls in by.items():
            single[b] = [popcount(full) / popcount(cond) if cond else 0.0 for _, full, cond in ls]
            norm[b] = sum(single[b])
            s = sum(p * (v * v - 2 * fx * v) for p, (v, _, _) in zip(single[b], ls))
            if normalise:
                s = s / norm[b] if norm[b] else 0.0
            tot += s
        for b in by:
            for l in by:
                if b == l:
                    continue
                for p, (v, full, cond) in zip(single[b], by[b]):
                    q = [popcount(full & f2) / popcount(cond & c2) if cond & c2 else 0.0 for _, f2, c2 in by[l]]
                    s = sum(z * v * v2 for z, (v2, _, _) in zip(q, by[l]))
                    if normalise:
                        n = sum(q)
                        s = p / norm[b] * s / n if n and norm[b] else 0.0
                    tot += s
        return tot

    def sdp(self, x, fx, t, feats, normalise=True, ends=False, clip=False):
        """-> (value, decidable)"""
        if ends and len(set(feats)) == self.g.m:
            return 1.0, True
        if ends and not feats:
            return 0.0, True
        up, down, sure = self.split(fx, t)
        if not sure:
            return 0.0, False
        a, u, d = (self.spread(x, fx, feats, r, normalise) for r in (self.g.all, up, down))
        sc = max(1.0, abs(u), abs(d), abs(a))
        den = u - d
        if abs(den) < 1e-9 * sc:
            return 0.0, u == 0 and d == 0
        s = (u - a) / den
        if clip:
            s = min(1.0, max(0.0, s))
        return s, abs(den) > 1e-6 * sc

    def exact_sdp(self, x, fx, t, feats):
        """as SdpClf.exact, for ensembles of one tree"""
        g = self.g
        if not self.exact or len(g.f.trees) > 1:
            return False
        up, down, _ = self.split(fx, t)
        out = []
        for rows in (g.all, up, down):
            w = s = 0.0
            for b, lf, masks, lm, full in g.L:
                if any(f in lf.box and not lf.box[f][0] < x[f] <= lf.box[f][1] for f in feats):
                    continue
                n = popcount(g.rows_in(masks, feats) & rows)
                if n & (n - 1):
                    return False
                if n:
                    p = popcount(full & rows) / n
                    w += p
                    s += p * (lf.val[0] ** 2 - 2 * fx * lf.val[0])
            if w and not power(w):
                return False
            out.append(s / w if w else 0.0)
        return out[1] == out[2] or power(out[1] - out[2])

    def share(self, x, fx, t, feats):
        """discrete form: the share of the rows equal to x on feats that are within the distance"""
        g = self.g
        up, down, sure = self.split(fx, t)
        eq = mask_of([all(r[f] == x[f] for f in feats) for r in g.rows])
        if not sure:
            return 0.0, False
        if not eq:
            return 0.0, True
        if not eq & up:
            # nothing to compare with: certain unless the distance cannot be told from 0 either
            d = sum((y - fx) ** 2 - fx * fx for k, y in enumerate(self.out) if eq >> k & 1)
            return 1.0, abs(d) > 1e-6
        if not eq & down:
            u = sum((y - fx) ** 2 - fx * fx for k, y in enumerate(self.out) if eq >> k & 1)
            return 0.0, abs(u) > 1e-6
        return popcount(eq & down) / popcount(eq), True
