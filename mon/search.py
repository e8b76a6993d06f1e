"""Definitions of the explanations that are found by searching coalitions of players."""
import itertools, math

EPS = 1e-9


def players(search_space, C):
    """the groups that have a member in the search space, and the ungrouped columns of the search space"""
    if not C or not C[0]:
        return [(j,) for j in search_space]
    used = {j for g in C for j in g}
    return [(j,) for j in search_space if j not in used] + [tuple(g) for g in C if set(g) & set(search_space)]


def merge(coal):
    return tuple(j for p in coal for j in p)


class Search:
    """value(columns) -> (value, exact): exact if the floating point sum does not depend on its order; None if it is
    undecidable.  floor: candidates below it are not reported at all"""

    def __init__(self, P, value, pi, ncols, minimal=1, full_one=True, eps=EPS, floor=None, half=0, limit=None):
        self.eps, self.floor = eps, floor
        self.enough = (ncols + half) // 2   # columns after which an early stop gives up: half of them, rounded
        self.P, self.value, self.pi, self.ncols, self.minimal, self.full_one = P, value, pi, ncols, minimal, full_one
        self.limit = limit         # no larger sets are searched once that many are listed
        self.memo = {}
        self.on_level = False

    def v(self, cols):
        k = frozenset(cols)
        if k not in self.memo:
            self.memo[k] = (1.0, True) if self.full_one and len(k) == self.ncols else self.value(sorted(k))
        return self.memo[k]

    def minimal_search(self, stop, last_size=None):
        """-> dict: ok (decidable), found, level, best value, evaluated {frozenset: value}, or ok=False when a value
        is too close to the level to be decided"""
        seen = {}
        best = None
        unsure = False
        listed = sum(math.comb(len(self.P), s) for s in range(self.minimal))
        for s in range(self.minimal, len(self.P) + 1):
            if self.limit is not None and listed >= self.limit:
                break
            listed += math.comb(len(self.P), s)
            cols = ()
            lv = {}
            for co in itertools.combinations(self.P, s):
                cols = merge(co)
                v = self.v(cols)
                if v is None:
                    return {'ok': False}
                v, exact = v
                if exact and v == self.pi:
                    self.on_level = True
                if abs(v - self.pi) < self.eps and not exact:
                    return {'ok': False}
                if self.floor is not None and not exact and abs(v - self.floor) < self.eps:
                    unsure = True
                lv[frozenset(cols)] = v
            seen.update(lv)
            if self.floor is not None:
                lv = {k: v for k, v in lv.items() if v >= self.floor}
                seen = {k: v for k, v in seen.items() if v >= self.floor}
            if not lv:
                if stop and len(cols) >= self.enough:
                    break
                continue
            top = max(lv.values())
            best = top if best is None else max(best, top)
            if best >= self.pi:
                return {'ok': True, 'found': True, 'level': s, 'best': top, 'seen': lv}
            if stop and len(cols) >= self.enough:
                break
        if unsure and (best is None or best < self.floor + self.eps):
            return {'ok': False}
        return {'ok': True, 'found': False, 'best': best, 'seen': seen}

    def all_minimal(self, start=None):
        """every inclusion-minimal sufficient coalition, by increasing number of players"""
        out = []
        for s in range(self.minimal if start is None else start, len(self.P) + 1):
            for co in itertools.combinations(self.P, s):
                k = frozenset(merge(co))
                if any(o <= k for o in out):
                    continue
                v, exact = self.v(k)
                if abs(v - self.pi) < EPS and not exact:
                    return None
                if v >= self.pi:
                    out.append(k)
        return out


def check_minimal(ctx, name, refs, got, ncols, N, detail, eps=EPS):
    """got: (global, s_star, size, sdp) as nested lists; refs: one minimal_search result per sample"""
    glob, star, size, sdp = got
    if len(star) != N or len(size) != N or len(sdp) != N or any(len(s) != ncols for s in star) or len(glob) != ncols:
        ctx.fail('shape:' + name, '%s returned arrays of the wrong shape' % name, detail)
        return
    counts, complete = [0] * ncols, True
    for i in range(N):
        r = refs[i]
        k = int(size[i])
        row = [int(z) for z in star[i]]
        if not r['ok']:
            complete = False
            ctx.count('undecidable')
            continue
        ctx.observed('search', (name, tuple(sorted(row[:k])), round(sdp[i], 6), r['found']) if len(r['seen']) > 1 else None)
        d = dict(detail, sample=i, star=row, size=k, sdp=sdp[i], expected_best=r['best'], found=r['found'])
        if r['best'] is None:
            ctx.count('nothing')
            if k != 0 or sdp[i] != 0 or any(z != -1 for z in row):
                ctx.fail('none:' + name, '%s reports %s (size %d, probability %r) although no candidate has a probability' % (
                    name, row, k, sdp[i]), d)
            continue
        S = frozenset(row[:k])
        if len(S) != k or any(not 0 <= j < ncols for j in S):
            ctx.fail('set:' + name, '%s: not a set of columns: %s (size %d)' % (name, row, k), d)
            continue
        if any(z != -1 for z in row[k:]):
            ctx.fail('tail:' + name, '%s: entries beyond the explanation are not -1: %s (size %d)' % (name, row, k), d)
            continue
        if abs(sdp[i] - r['best']) > eps:
            ctx.fail('sdp:' + name, '%s: probability %r, but the best of the admissible sets has %r' % (name, sdp[i], r['best']), d)
            continue
        if S not in r['seen'] or r['seen'][S] < r['best'] - eps:
            ctx.fail('minimal:' + name, '%s: %s is not a best explanation of minimal size' % (name, sorted(S)),
                     dict(d, candidates=[(sorted(a), b) for a, b in r['seen'].items()]))
            continue
        ctx.count('found' if r['found'] else 'not_found')
        if r['found']:
            for j in S:
                counts[j] += 1
    if complete and ctx.nviol == 0:
        bad = [j for j in range(ncols) if abs(glob[j] - counts[j] / N) > EPS]
        ctx.observed('global', (name, tuple(counts)))
        if bad:
            ctx.fail('global:' + name, '%s: global importance %s, frequencies of the columns %s' % (
                name, glob, [z / N for z in counts]), detail)
