"""The web application and its charts show what the explainers report.

Streamlit is not installed: a stand-in takes its place, answers the inputs and records what the pages show.  The charts
are read back from the artists of the figures."""
import contextlib, copy, os, random, re, shutil, sys, tempfile, types
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.patches import FancyArrow, Rectangle
from matplotlib.colors import to_rgb
from .. import gen, meta, acxref as A, forest as F
from ..common import npt, rounded


class Streamlit(types.ModuleType):
    def __init__(self):
        super().__init__('streamlit')
        self.sidebar = self
        self.start({}, lambda label, options: options[0])

    def start(self, answers, choose):
        self.answers, self.choose, self.log, self.options = answers, choose, [], {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def record(*a, **k):
            self.log.append((name, a, k))
        return record

    def checkbox(self, label='', value=False, **k):
        return self.answers.get(label, value)

    def number_input(self, label='', value=0, min_value=None, max_value=None, **k):
        return self.answers.get(label, value)

    def _select(self, label='', options=(), **k):
        options = list(options)
        self.options[label] = options
        return self.answers[label] if label in self.answers else self.choose(label, options)

    selectbox = radio = _select

    def columns(self, n, **k):
        return [contextlib.nullcontext() for _ in range(n)]

    def cache(self, f=None, **k):
        return f if f is not None else lambda g: g

    def shown(self, *names):
        return [a[0] for n, a, k in self.log if n in names and a]


class Style:
    """stands in for the styles of pandas, which need a package that is not installed"""

    def __init__(self, data):
        self.data, self.marks = data, {}

    def apply(self, f, axis=0, **k):
        rows, cols = self.data.shape
        if axis in (1, 'columns'):
            for r in range(rows):
                self.marks.update({(r, j): str(v) for j, v in enumerate(f(self.data.iloc[r], **k))})
        elif axis is None:
            v = np.asarray(f(self.data, **k))
            self.marks.update({(r, j): str(v[r, j]) for r in range(rows) for j in range(cols)})
        else:
            for j in range(cols):
                self.marks.update({(r, j): str(v) for r, v in enumerate(f(self.data.iloc[:, j], **k))})
        return self


ST = Streamlit()
sys.modules['streamlit'] = ST
pd.DataFrame.style = property(Style)
import acv_app
from acv_app import app, plots

NAMES = ['age', 'income', 'X0', 'a b', 'height (cm)', 'W', 'x_1', 'Zeta', 'k2', 'mass', 'q', 'tax']


def number(text):
    return float(text.replace('\u2212', '-'))


def numbers(text):
    return [number(z) for z in re.findall(r'[-+\u2212]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|\d*\.\d+)', text)]


def names(rng, m):
    return rng.sample(NAMES, m)


def attributions(rng, m):
    k = rng.random()
    v = [gen.q(rng.gauss(0, 2)) if rng.random() < 0.9 else 0.0 for _ in range(m)]
    if k < 0.15:
        v = [abs(z) for z in v]
    elif k < 0.3:
        v = [-abs(z) for z in v]
    elif k < 0.4:
        v = [rng.choice([-1.0, 1.0, 0.5]) for _ in v]
    return v if any(v) else [1.0] + v[1:]


# ------------------------------------------------------------------ waterfall

def read_waterfall(fig):
    """-> rows from the top: (label, value of the feature, from, to, text), and the two values marked"""
    fig.canvas.draw()
    ax = fig.axes[0]
    labels = {}
    for pos, t in zip(ax.get_yticks(), ax.get_yticklabels()):
        labels.setdefault(int(round(pos)), []).append(t.get_text())
    rows = []
    for a in ax.patches:
        if not isinstance(a, FancyArrow):
            continue
        P = np.asarray(a.get_xy()).tolist()
        ys = [p[1] for p in P]
        y = (min(ys) + max(ys)) / 2
        tip = min(P, key=lambda p: abs(p[1] - y))[0]
        xs = [p[0] for p in P]
        tail = min(xs) if abs(min(xs) - tip) > abs(max(xs) - tip) else max(xs)
        k = int(round(y))
        text = [t.get_text() for t in ax.texts if abs(t.get_position()[1] - y) < 0.3]
        rows.append((k, labels.get(k, []), tail, tip, text))
    rows.sort(key=lambda r: -r[0])
    marks = [' '.join(t.get_text() for t in x.get_xticklabels()) for x in fig.axes[1:]]
    return rows, marks


def judge_waterfall(ctx, fig, base, values, features, feats, shown, tol=2e-6):
    """values: attributions; features: their values or None; feats: names"""
    rows, marks = read_waterfall(fig)
    m = len(values)
    n = min(shown, m)
    tol = tol + 1e-9 * (abs(base) + sum(map(abs, values)))
    d = {'base': base, 'values': values, 'features': features, 'names': feats, 'rows': rows, 'marks': marks, 'max_display': shown}
    ctx.observed('waterfall', rounded([base] + values))
    if [r[0] for r in rows] != list(range(n - 1, -1, -1)):
        ctx.fail('waterfall-rows', 'the waterfall has the rows %s for %d attributions, %d to show' % ([r[0] for r in rows], m, n), d)
        return
    single = n if n == m else n - 1
    left = dict(enumerate(values))
    at = base + sum(values)
    for r in rows[:single]:
        name = r[1][0] if r[1] else ''
        size = r[3] - r[2]
        own = [j for j in left if name == feats[j] or name.endswith(' = ' + feats[j])]
        if len(own) != 1:
            ctx.fail('waterfall-label', 'a bar of the waterfall is labelled %r' % name, d)
            return
        j = own[0]
        v = left.pop(j)
        if abs(size - v) > tol:
            ctx.fail('waterfall-size', 'the bar of %s is drawn as %r, its attribution is %r' % (feats[j], size, v), d)
        if abs(r[3] - at) > tol:
            ctx.fail('waterfall-place', 'the bar of %s ends at %r, the one above starts at %r' % (feats[j], r[3], at), d)
        at -= v
        if any(abs(z) > abs(v) + 1e-12 for z in left.values()):
            ctx.fail('waterfall-order', 'the bar of %s comes before larger ones' % feats[j], d)
        if features is not None:
            got = numbers(name[:len(name) - len(feats[j])])
            if len(got) != 1 or abs(got[0] - features[j]) > 6e-4:
                ctx.fail('waterfall-feature', 'the bar of %s, which is %r, is labelled %r' % (feats[j], features[j], name), d)
        t = [numbers(z) for z in r[4]]
        if [len(z) for z in t] != [1] or abs(t[0][0] - v) > 6e-3:
            ctx.fail('waterfall-text', 'the bar of %s with attribution %r has the text %r' % (feats[j], v, r[4]), d)
    if single < n:
        r = rows[-1]
        rest = sum(left.values())
        ctx.count('grouped')
        if abs(r[3] - r[2] - rest) > tol or abs(r[3] - at) > tol:
            ctx.fail('waterfall-rest', 'the bar of the other columns goes from %r to %r instead of %r to %r' % (
                r[2], r[3], base, at), d)
        if numbers(' '.join(r[1][:1])) != [float(len(left))]:
            ctx.fail('waterfall-count', '%r stands for %d columns' % (r[1], len(left)), d)
    got = [numbers(z) for z in marks]
    if len(got) != 2 or any(len(z) != 1 for z in got) or abs(got[0][0] - base) > 6e-4 or abs(got[1][0] - base - sum(values)) > 6e-4:
        ctx.fail('waterfall-marks', 'the waterfall marks %s, the mean output is %r and the output %r' % (
            marks, base, base + sum(values)), d)


def waterfall(ctx, rng):
    m = rng.randint(1, 12)
    v = attributions(rng, m)
    base = gen.q(rng.gauss(0, 3))
    feats = names(rng, m)
    x = [gen.q(rng.gauss(0, 2)) if rng.random() < 0.7 else float(rng.randint(-20, 120)) for _ in range(m)]
    k = rng.choice([None, None, 1, 2, 3, 5, m, m + 1])
    kw = {} if k is None else {'max_display': k}
    form = rng.choice(['array', 'array', 'series', 'none', 'nonames'])
    fx = {'array': np.array(x), 'series': pd.Series(x, index=feats), 'none': None, 'nonames': np.array(x)}[form]
    fn = None if form in ('series', 'nonames') else rng.choice([feats, np.array(feats), pd.Index(feats)])
    try:
        fig = ctx.call('waterfall', plots.waterfall, base, np.array(v), fx, fn, show=False, **kw)
        judge_waterfall(ctx, fig, base, v, None if form == 'none' else x,
                        ['Feature %d' % j for j in range(m)] if form == 'nonames' else feats, k or 10)
    finally:
        plt.close('all')


# ------------------------------------------------------------------ bars

def read_bars(ax):
    """-> from the top: (label, width, colour, text)"""
    labels = {round(pos, 3): t.get_text() for pos, t in zip(ax.get_yticks(), ax.get_yticklabels())}
    out = []
    for p in ax.patches:
        if isinstance(p, Rectangle) and p.get_height() < 1:
            y = round(p.get_y() + p.get_height() / 2, 3)
            text = [t.get_text() for t in ax.texts if abs(t.get_position()[1] - y) < 0.3]
            out.append((y, labels.get(y, ''), p.get_width(), to_rgb(p.get_facecolor()), text))
    return [z[1:] for z in sorted(out, key=lambda z: -z[0])]


def judge_bars(ctx, ax, values, features, feats, shown):
    bars = read_bars(ax)
    m = len(values)
    d = {'values': values, 'features': features, 'names': feats, 'bars': bars, 'shown': shown}
    ctx.observed('bars', rounded(values))
    if len(bars) != min(shown, m):
        ctx.fail('bars-rows', 'the chart has %d bars for %d values, %d to show' % (len(bars), m, shown), d)
        return
    left = dict(enumerate(values))
    colours = {}
    for label, w, col, text in bars:
        own = [j for j in left if label == feats[j] or label.startswith(feats[j] + ' = ')]
        if len(own) != 1:
            ctx.fail('bars-label', 'a bar is labelled %r' % label, d)
            return
        j = own[0]
        v = left.pop(j)
        if abs(w - v) > 1e-9:
            ctx.fail('bars-size', 'the bar of %s has the length %r, its value is %r' % (feats[j], w, v), d)
        if features is not None and [number(label[len(feats[j]) + 3:])] != [features[j]]:
            ctx.fail('bars-feature', 'the bar of %s, which is %r, is labelled %r' % (feats[j], features[j], label), d)
        if any(abs(z) > abs(v) + 1e-12 for z in left.values()):
            ctx.fail('bars-order', 'the bar of %s comes before larger ones' % feats[j], d)
        if len(text) != 1 or abs(number(text[0]) - v) > 6e-4:
            ctx.fail('bars-text', 'the bar of %s with value %r has the text %r' % (feats[j], v, text), d)
        if v:
            colours.setdefault(v > 0, set()).add(col)
    if any(len(c) > 1 for c in colours.values()) or len(colours) == 2 and colours[True] & colours[False]:
        ctx.fail('bars-colour', 'the colours of the bars do not tell the signs apart', d)


def bars(ctx, rng):
    m = rng.randint(1, 12)
    v = attributions(rng, m)
    feats = names(rng, m)
    x = [gen.q(rng.gauss(0, 2)) if rng.random() < 0.6 else float(rng.randint(-20, 120)) for _ in range(m)]
    k = rng.choice([None, 1, 3, m, m + 2])
    form = rng.choice(['array', 'series', 'none', 'nonames'])
    fx = {'array': np.array(x), 'series': pd.Series(x, index=feats), 'none': None, 'nonames': np.array(x)}[form]
    fn = None if form in ('series', 'nonames') else rng.choice([feats, np.array(feats)])
    try:
        plt.figure()
        ctx.call('bar_legacy', plots.bar_legacy, np.array(v), fx, fn, k, show=False)
        judge_bars(ctx, plt.gca(), v, None if form == 'none' else x,
                   ['Feature %d' % j for j in range(m)] if form == 'nonames' else feats, 7 if k is None else k)
    finally:
        plt.close('all')


# ------------------------------------------------------------------ the application

def rule_of(text, feats, S):
    """a rule in words -> {column: (lower, upper)}"""
    text = re.sub(r'<[^<>=]*=[^<>]*>|</?\w+>', ' ', text)
    out = {}
    for part in text.split(' and '):
        m = re.fullmatch(r'\s*(\S+) <= (.+) <= (\S+)\s*', part)
        if not m or m.group(2) not in feats:
            return None
        out[feats.index(m.group(2))] = (float(m.group(1)), float(m.group(3)))
    return out


def box_of(rule, m):
    cut = lambda v: max(-A.BIG, min(A.BIG, v))
    return [[cut(rule[f][0]), cut(rule[f][1])] if f in rule else [-A.BIG, A.BIG] for f in range(m)]


def compiled(ctx, rng, c, d):
    """compiles the explainer and checks what is stored; -> the names of the columns"""
    import joblib
    feats = names(rng, c.m)
    k = rng.randint(1, c.n)
    c.Xt = c.X + [c.rows[rng.randrange(c.n)] for _ in range(rng.choice([0, 1, 3, 8]))]
    c.yt = [float(z) for z in np.asarray(c.acx.predict(np.array(c.Xt))).tolist()]
    if c.clf and rng.random() < 0.6:
        ints = lambda y: np.array([int(z) for z in y])
    else:
        ints = np.array
    form = rng.choice(['array', 'frame', 'frame', 'series'])
    if form == 'array':
        feats = ['X%d' % j for j in range(c.m)]
        args = (np.array(c.rows), ints(c.y), np.array(c.Xt), ints(c.yt))
    else:
        fr = lambda r: pd.DataFrame(np.array(r), columns=feats)
        wrap = (lambda y: pd.DataFrame({'y': ints(y)})) if form == 'frame' and rng.random() < 0.5 else \
            (lambda y: pd.Series(ints(y), name='y')) if form == 'series' else ints
        args = (fr(c.rows), wrap(c.y), fr(c.Xt), wrap(c.yt))
    snap = [a.copy() for a in args]
    ctx.call('compile_ACXplainers', acv_app.compile_ACXplainers, c.acx, *args, path=d)
    for a, b in zip(snap, args):
        if not np.array_equal(np.asarray(a), np.asarray(b)):
            ctx.fail('compile-arguments', 'compile_ACXplainers changed its arguments')
    for name in ('acvtree.joblib', 'acvtree_agnostic.joblib'):
        b = joblib.load(os.path.join(d, name))
        same = meta.walk(npt(c.acx.predict(np.array(c.Xt))), npt(b.predict(np.array(c.Xt))), 0, name)
        ctx.observed('compiled', (name, rounded(c.rows[:3])))
        if same:
            ctx.fail('compiled:' + name, 'the stored explainer predicts otherwise: %s' % same)
    for name, want in zip(('x_train', 'y_train', 'x_test', 'y_test'), (c.rows, c.y, c.Xt, c.yt)):
        got = pd.read_csv(os.path.join(d, name + '.csv'), float_precision='round_trip')
        if name.startswith('x') and [str(z) for z in got.columns] != feats:
            ctx.fail('compiled:' + name, 'the stored columns are %s, not %s' % (list(got.columns), feats))
        g = got.values.astype(float)
        w = np.array(want, dtype=float).reshape(len(want), -1)
        if g.shape != w.shape or not np.array_equal(g, w):
            ctx.fail('compiled:' + name, 'the stored data are not the ones given', {'got': g.tolist(), 'want': w.tolist()})
    return feats


SDP, SHAP = 'SDP based explanations', 'Shapley based Explanations'


def page(ctx, rng, d, which, answers, prefer=()):
    def choose(label, options):
        liked = [o for o in options if o in prefer] if rng.random() < 0.8 else []
        return rng.choice(liked or options)
    ST.start(dict(answers), choose)
    kept = {}

    def select(label, options):
        if any('Shapley' in str(o) for o in options):
            return next(o for o in options if ('Shapley' in str(o)) == (which == SHAP))
        v = choose(label, options)
        kept[label] = v
        return v
    ST.choose = select
    seed = rng.randrange(2 ** 31)
    np.random.seed(seed)
    random.seed(seed)
    ctx.call('main:' + which, app.main, d)
    return list(kept.values())


def problem(ctx, rng, **kw):
    while True:
        c = A.setup(ctx, rng, **dict(dict(mmax=5, nmax=40), **kw))
        # numbers that the text form gives back
        if max(abs(z) for r in c.rows + c.X for z in r) < 1e5 and max(len(t[0]) for t in c.pf.trees) > 1:
            return c


def sdp_page(ctx, rng):
    c = problem(ctx, rng) if rng.random() < 0.5 else problem(
        ctx, rng, n=rng.randint(60, 120), m=rng.randint(2, 4), trees=7, depth=rng.choice([3, 4, 5]))
    d = tempfile.mkdtemp(prefix='app-', dir=ctx.scratch)
    try:
        feats = compiled(ctx, rng, c, d)
        pi = rng.choice([0.7, 0.75, 0.8, 0.9, 0.9, 0.95, 0.97, 1.0])
        nb = rng.choice([5, 5, 6, 10])
        probe = copy.deepcopy(c.acx)
        for _ in range(3):
            want, probs, glob = probe.sufficient_expl_rf(np.array(c.Xt[:nb]), np.array(c.yt[:nb]), np.array(c.rows), np.array(c.y),
                                                         stop=False, pi_level=pi)
            full = rng.random() < 0.7
            ans = {'SAMPLE SIZE': nb, 'SDP MIN (\\pi)': pi, 'Compute': full}
            kept = page(ctx, rng, d, SDP, ans, [j for j, e in enumerate(want) if e])
            one_page(ctx, c, kept, feats, [[[int(z) for z in s] for s in e] for e in want], probs, pi, full, probe)
            plt.close('all')
            if ctx.nviol:
                return
    finally:
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)


def one_page(ctx, c, kept, feats, want, probs, pi, full, probe):
    tables, figs = ST.shown('dataframe', 'table', 'write'), ST.shown('pyplot')
    words = [w for w in ST.shown('markdown', 'write', 'text') if isinstance(w, str) and '<=' in w]
    i = kept[0]
    det = {'observation': i, 'x': c.Xt[i], 'sets': want[i], 'probabilities': npt(probs[i]) if len(probs[i]) else [], 'level': pi,
           'shown': [str(z)[:300] for z in ST.log]}
    if not want[i]:
        ctx.count('nothing')
        ctx.observed('page')
        if tables or figs or words:
            ctx.fail('page-nothing', 'the page shows an explanation where there is none', det)
        return
    k = kept[1]
    S, p = want[i][k], float(probs[i][k])
    ctx.observed('page', (tuple(map(tuple, want[i])), rounded(npt(probs[i]))))
    t = [z for z in tables if isinstance(z, pd.DataFrame)]
    st = [z for z in tables if isinstance(z, Style)]
    got = sorted((tuple(sorted(str(r[0]).split(' - '))), round(float(r[1]), 9)) for r in t[0].values.tolist())
    exp = sorted((tuple(sorted(feats[j] for j in s) or ['']), round(float(q), 9)) for s, q in zip(want[i], probs[i]))
    if got != exp:
        ctx.fail('page-sets', 'the page lists %s, the sufficient explanations are %s' % (got, exp), det)
    imp = [sum(j in s for s in want[i]) / len(want[i]) for j in range(c.m)]
    judge_bars(ctx, figs[0].axes[0], imp, c.Xt[i], feats, 7)
    row = st[0].data
    if npt(row.values)[0][:c.m] != c.Xt[i] or abs(float(row.values[0][c.m]) - c.yt[i]) > 1e-9 or abs(float(row.values[0][c.m + 1]) - p) > 1e-9:
        ctx.fail('page-values', 'the page shows the values %s for %s' % (npt(row.values), c.Xt[i] + [c.yt[i], p]), det)
    high = {j for (r, j), v in st[0].marks.items() if v}
    if {j for j in high if j < c.m} != set(S):
        ctx.fail('page-highlight', 'the columns %s are highlighted, the explanation is %s' % (sorted(high), S), det)
    ctx.sample({'columns': feats, 'x': c.Xt[i], 'level': pi, 'explanations': [[feats[j] for j in s] for s in want[i]],
                'probabilities': npt(probs[i]), 'highlighted': sorted(high), 'rules in words': words})
    # the rules in words
    y = c.yt[i]
    tt = [0.0, 0.0] if c.clf else np.asarray(c.acx.model.predict_quantiles(np.array([c.Xt[i]]), quantiles=[0.05, 0.95])).tolist()[0]
    val = c.pf.same(y, tt, c.clf)
    local = A.box0(c.m)
    base = c.pf.mean(c.pf.side_x(c.Xt[i], S), 5, val, part=local)
    r = rule_of(words[0], feats, S)
    ctx.observed('rule', rounded(local))
    if r is None or set(r) != set(S) or F.maxdiff(box_of(r, c.m), local) > 1e-9:
        ctx.fail('page-rule', 'the page shows the rule %r, the local rule is %s' % (words[0], local), det)
        return
    if not full:
        return
    r = rule_of(words[1], feats, S)
    if r is None or set(r) != set(S):
        ctx.fail('page-maxrule', 'the page shows the maximal rule %r for the columns %s' % (words[1], S), det)
        return
    box = box_of(r, c.m)
    ctx.count('maxrule')
    if pi > 0.9 and F.maxdiff(box, local) > 1e-9:
        ctx.count('maxrule_high')
    if any(box[f][0] > local[f][0] or box[f][1] < local[f][1] for f in range(c.m)):
        ctx.fail('page-maxrule', 'the maximal rule %s does not contain the local one %s' % (box, local), det)
    own = probe.compute_sdp_maxrules(np.array([c.Xt[i]]), np.array([c.yt[i]]), np.array(c.rows), np.array(c.y), S=[S],
                                     pi_level=pi)[1][0]
    if F.maxdiff(box, box_of({f: own[f].tolist() for f in S}, c.m)) > 1e-9:
        ctx.fail('page-maxrule', 'the page shows the maximal rule %s, the explainer gives %s' % (box, own.tolist()), det)
    within = lambda z, b: all(b[f][0] <= z[f] <= b[f][1] for f in range(c.m))
    for z in c.rows:
        if within(z, box) and not within(z, local):
            q = c.pf.mean(c.pf.side_x(z, S), 5, val)
            if q < pi - 1e-9:
                ctx.fail('page-level', 'the maximal rule covers a row whose probability is %r' % q, det)
                break
    ins = [c.y[j] for j, z in enumerate(c.rows) if within(z, box)]
    cov = len(ins) / c.n
    if c.clf:
        # the output of a rule is 0 or 1: with other labels there is no accuracy to speak of
        acc = max(ins.count(v) for v in set(ins)) / len(ins) if ins and set(c.y) <= {0, 1} else None
    else:
        mu = sum(ins) / len(ins) if ins else 0
        acc = sum((v - mu) ** 2 for v in ins) / len(ins) if ins else None
    row = npt(t[-1].values)
    if len(t) < 2 or len(row) != 1 or abs(row[0][0] - cov) > 1e-9 or acc is not None and abs(row[0][1] - acc) > 1e-9 * (1 + abs(acc)):
        ctx.fail('page-quality', 'the page shows coverage and quality %s, measured %s' % (row, (cov, acc)), det)


def shap_page(ctx, rng):
    c = problem(ctx, rng, mmax=5)
    d = tempfile.mkdtemp(prefix='app-', dir=ctx.scratch)
    try:
        feats = compiled(ctx, rng, c, d)
        forest = F.from_ranger(c.acx.model, c.m, c.clf)
        game = F.Game(forest, c.rows)
        k = 1 if forest.d > 1 else 0
        out = np.asarray(c.acx.predict_proba(np.array(c.rows))[:, 1] if c.clf else c.acx.predict(np.array(c.rows)))
        base = float(np.mean(out))
        kept = page(ctx, rng, d, SHAP, {})
        i = kept[0]
        x = c.Xt[i]
        players = gen.members(c.m, [[]])
        phi, memo = F.shapley(players, lambda S: game.v(x, S), forest.d)
        want = [v[k] for v in F.expand(players, phi, c.m, forest.d)]
        ctx.observed('shapley', rounded(want) if any(want) else None)
        judge_waterfall(ctx, ST.shown('pyplot')[0], base, want, x, feats, 10)
    finally:
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)


def many(ctx, rng):
    """test sets larger and smaller than what the pages look at"""
    c = problem(ctx, rng, n=rng.randint(20, 40), m=rng.randint(2, 3), trees=2)
    d = tempfile.mkdtemp(prefix='app-', dir=ctx.scratch)
    try:
        c.X = [c.rows[rng.randrange(c.n)] for _ in range(rng.choice([1, 2, 130]))]
        feats = compiled(ctx, rng, c, d)
        for which in (SDP, SHAP):
            page(ctx, rng, d, which, {'SAMPLE SIZE': 5})
            for options in [v for k, v in ST.options.items() if v and all(isinstance(z, int) for z in v)][:1]:
                ctx.observed('options', (which, len(options)))
                ctx.check(set(options) <= set(range(len(c.Xt))), 'options:' + which, '%s offers %s of %d observations' % (
                    which, options, len(c.Xt)))
                for o in (options[0], options[-1]):      # every observation on offer can be shown
                    ST.start({next(k for k, v in ST.options.items() if v == options): o}, None)
                    ST.choose = lambda label, opts: next(z for z in opts if ('Shapley' in str(z)) == (which == SHAP)) \
                        if any('Shapley' in str(z) for z in opts) else opts[-1]
                    ST.answers['SAMPLE SIZE'] = 5
                    ctx.call('main:' + which, app.main, d)
                    plt.close('all')
    finally:
        plt.close('all')
        shutil.rmtree(d, ignore_errors=True)


WORKLOADS = {'waterfall': waterfall, 'bars': bars, 'sdp_page': sdp_page, 'shap_page': shap_page, 'many': many}
