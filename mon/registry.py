"""Which property is decided by which module, with how many cases on which tier."""
import os, re

TREE_RULE = ('A case is a background sample (1-7 columns; continuous, integer, binary, mixed, constant and duplicated '
             'columns and rows), an ensemble on it (hand-made trees with repeated splits, thresholds equal to data '
             'values and empty leaves; or trained sklearn / XGBoost models) and query points (rows, mixtures, points on '
             'thresholds, far outside). ')


def G(name, plan, variant='main', **kw):
    d = {'name': name, 'variant': variant, 'plan': plan}
    d.update(kw)
    return d


PROPS = {}


def prop(pid, module, groups, rule, required=None, **kw):
    d = {'module': module, 'groups': groups, 'rule': rule, 'required': required or {}}
    d.update(kw)
    PROPS[pid] = d


prop('P01', 'p01', [G('main', {'quick': {'trained': 500, 'hand': 700, 'history': 500, 'own': 60, 'large': 60},
                               'thorough': {'trained': 9000, 'hand': 12000, 'history': 10000, 'own': 1200, 'large': 400}},
                      omp=[1, 4])],
     TREE_RULE + 'The reference is the source library itself. Non-trivial: the source model gives at least two '
     'different outputs on the query points; distinct by model family and outputs.',
     {'predict': 500, 'tiling': 500, 'missing': 20, 'history': 300, 'stopped-early': 5, 'limit': 60, 'own': 25, 'large': 40})

prop('P02', 'p02', [G('main', {'quick': {'hand': 600, 'trained': 120, 'groups': 400, 'cache': 160, 'agnostic': 150, 'large': 60, 'large_cache': 30},
                               'thorough': {'hand': 12000, 'trained': 2500, 'groups': 8000, 'cache': 3000, 'agnostic': 2500, 'large': 500, 'large_cache': 300}},
                      omp=[1, 2, 4, 8])],
     TREE_RULE + 'The reference enumerates every coalition of players. Non-trivial: at least two players with a '
     'non-zero value; distinct by the rounded attribution vector.',
     {'shap': 500, 'agnostic': 100, 'large': 60})

ACX_RULE = ('A case is a ranger forest (1-7 trees, depth 1-5, classification with 2-3 classes or regression) fitted by '
            'the explainer on 12-60 rows of 1-6 columns, with query points (rows, mixtures, points on thresholds, far '
            'outside), subsets, intervals and minimal node sizes 1-10. ')

prop('P11', 'p11', [G('main', {'quick': {'probs': 700, 'cond': 500, 'loaded': 300, 'large': 60},
                               'thorough': {'probs': 14000, 'cond': 10000, 'loaded': 6000, 'large': 400}},
                      omp=[1, 4])],
     ACX_RULE + 'The reference reads the forest from ranger itself and descends it with bit sets of rows. '
     'Non-trivial: some probability strictly between 0 and 1; distinct by the values.',
     {'prob': 2000, 'quantile': 300, 'large': 40})

SEARCH_RULE = ('Coalitions of columns and groups (partial, overlapping the search space or not), levels among the usual '
               'ones and among the values that occur, minimal sizes 0-2, with and without early stop. The reference '
               'enumerates the coalitions. A sample is skipped if a value is closer than 1e-9 to the level unless the '
               'sums are exact. ')
prop('P12', 'p12', [G('main', {'quick': {'sdp': 500, 'divergent': 350, 'wide': 16, 'loaded': 250, 'loaded_wide': 24, 'large': 40},
                               'thorough': {'sdp': 9000, 'divergent': 7000, 'wide': 300, 'loaded': 5000, 'loaded_wide': 400, 'large': 250}}, omp=[1, 4])],
     ACX_RULE + SEARCH_RULE + 'Non-trivial: more than one candidate; distinct by explanation and probability.',
     {'search': 1500, 'global': 300, 'found': 300, 'not_found': 50, 'restricted': 5, 'restricted_loaded': 5, 'on_level': 40, 'first_version': 15, 'large': 25})

prop('P13', 'p13', [G('main', {'quick': {'all': 600, 'wide': 12, 'loaded': 250, 'loaded_wide': 16, 'large': 40}, 'thorough': {'all': 12000, 'wide': 150, 'loaded': 5000, 'loaded_wide': 250, 'large': 250}}, omp=[1, 4])],
     ACX_RULE + SEARCH_RULE + 'Non-trivial: at least one sufficient set; distinct by the family of sets.',
     {'all': 1500, 'sets': 1500, 'local': 300, 'global': 300, 'restricted': 3, 'restricted_loaded': 3, 'large': 25})

prop('P14', 'p14', [G('main', {'quick': {'local': 400, 'maximal': 400, 'loaded': 300, 'large': 40, 'beyond': 20}, 'thorough': {'local': 9000, 'maximal': 8000, 'loaded': 6000, 'large': 250, 'beyond': 200}},
                      omp=[1, 4])],
     ACX_RULE + 'Both algorithms for maximal rules with small and larger search budgets, levels near the probability '
     'of the instance. Non-trivial: the maximal rule differs from the local one; distinct by the bounds.',
     {'rule': 500, 'invariant': 500, 'extended': 100, 'not_extended': 30, 'rows_in_rule': 500, 'loaded': 200, 'large': 25, 'beyond': 5})

prop('P17', 'p17', [G('main', {'quick': {'local': 220, 'regional': 180, 'sampling': 32},
                               'thorough': {'local': 5000, 'regional': 4500, 'sampling': 500}}, omp=[1, 4])],
     ACX_RULE + 'Targets: another class, or an interval between two occurring outcomes; small annealing budgets. '
     'Distinct by rules, divergent sets and sampled points.',
     {'set': 400, 'rules': 400, 'reach_level': 30, 'fallback': 10, 'sampled': 20, 'source_model': 5, 'all_tests': 3, 'printed': 250,
      'several_clf': 3, 'several_reg': 3})

prop('P15', 'p15', [G('main', {'quick': {'fit': 900, 'large': 36}, 'thorough': {'fit': 18000, 'large': 400}}, omp=[1, 4])],
     ACX_RULE + '1-17 rules, taken from the explainer or arbitrary boxes closed on data values (empty and repeated ones '
     'included), required coverages and levels among the usual ones and those that occur. Distinct by the metrics and by '
     'the deciding rules.', {'rules': 2000, 'none': 200, 'some': 500, 'choice': 200, 'on_level': 400, 'refitted': 100, 'large': 20})

prop('P05', 'p05', [G('main', {'quick': {'single': 500, 'adaptive': 400, 'pipeline': 100, 'large': 60},
                               'thorough': {'single': 10000, 'adaptive': 8000, 'pipeline': 500, 'large': 500}}, omp=[1, 2, 4, 8])],
     TREE_RULE + 'A partition of the columns (of the groups) into active and null ones, one for all samples or one per '
     'sample. The reference enumerates the coalitions of active columns. Non-trivial: some value differs from 0; '
     'distinct by the values.', {'active': 1200, 'null_columns': 200, 'all_active': 50, 'some_null': 200, 'large': 40})


prop('P06', 'p06', [G('main', {'quick': {'expectation': 500, 'brute': 200, 'large': 48},
                               'thorough': {'expectation': 12000, 'brute': 5000, 'large': 500}}, omp=[1, 2, 4, 8])],
     TREE_RULE + 'The sample over which expectations are taken is the background, a part of it or another one; subsets '
     'from empty to full in any order. Non-trivial: some value differs from 0; distinct by estimator, subset, values.',
     {'exp': 5000, 'empty': 100, 'full': 100, 'brute': 200, 'large': 30})


prop('P07', 'p07', [G('main', {'quick': {'sdp': 500, 'discrete': 250, 'large': 48},
                               'thorough': {'sdp': 10000, 'discrete': 5000, 'large': 400}}, omp=[1, 2, 4, 8])],
     TREE_RULE + 'Trained classifiers with two and three classes; subsets from empty to full in any order; the sample is '
     'the background, a part of it or another one. Non-trivial: a probability strictly between 0 and 1; distinct by '
     'implementation, class count and value. Values whose denominator is below 1e-6 are not compared.',
     {'sdp': 2000, 'between': 500, 'one': 100, 'zero': 100, 'share': 200, 'large': 30})


prop('P10', 'p10', [G('main', {'quick': {'single': 350, 'groups': 200, 'grid': 120, 'large': 40},
                               'thorough': {'single': 8000, 'groups': 5000, 'grid': 2500, 'large': 300}}, omp=[1, 2, 4, 8])],
     TREE_RULE + 'Trained classifiers; players are columns or groups; thresholds among the usual ones and next to the '
     'probabilities that occur. Non-trivial: a coalition that a player turns; distinct by implementation, values and '
     'counts. Samples with a probability closer than 1e-7 to the threshold are not compared.',
     {'swing': 1500, 'negative': 50, 'both_signs': 20, 'on_threshold': 50, 'large': 25})


prop('P20', 'p20', [G('main', {'quick': {'direct': 250, 'groups': 250, 'cache': 150, 'cache_groups': 150, 'large': 60},
                               'thorough': {'direct': 6000, 'groups': 5000, 'cache': 3000, 'cache_groups': 3000, 'large': 500}},
                      omp=[1, 2, 4, 8])],
     TREE_RULE + 'The reference enumerates, for every leaf, the coalitions of players on its path. Non-trivial: some value '
     'differs from 0; distinct by implementation and values.', {'normalized': 1500, 'accuracy': 300, 'large': 40})


prop('P08', 'p08', [G('main', {'quick': {'sdp': 500, 'discrete': 200, 'large': 24},
                               'thorough': {'sdp': 10000, 'discrete': 5000, 'large': 400}}, omp=[1, 2, 4, 8])],
     TREE_RULE + 'Regressors with one to three trees, with and without a base value; tolerances between two squared '
     'distances that occur. Non-trivial: a probability other than 0 and 1; distinct by implementation and value. '
     'Values whose denominator is below 1e-6 of the scale are not compared.',
     {'sdp': 2000, 'between': 500, 'one': 100, 'zero': 100, 'several_trees': 150, 'on_tolerance': 50, 'large': 15})


prop('P09', 'p09', [G('main', {'quick': {'clf': 400, 'clf_groups': 350, 'wide': 24, 'many': 8, 'reg': 350, 'reg_groups': 350, 'clf_grid': 120, 'reg_grid': 120, 'large': 24},
                               'thorough': {'clf': 8000, 'clf_groups': 7000, 'wide': 400, 'many': 100, 'reg': 6000, 'reg_groups': 6000, 'clf_grid': 2500, 'reg_grid': 2500, 'large': 200}},
                      omp=[1, 2, 4, 8])],
     TREE_RULE + SEARCH_RULE + 'Classifiers (also boosted ones) and regressors with one to three trees. Non-trivial: more '
     'than one candidate; distinct by implementation, explanation and probability.',
     {'search': 1500, 'global': 300, 'found': 1200, 'not_found': 80, 'grouped': 80, 'several_trees': 50, 'many_columns': 4, 'on_level': 50, 'large': 15})


prop('P16', 'p16', [G('main', {'quick': {'probs': 500, 'search': 500, 'wide': 30, 'large': 40},
                               'thorough': {'probs': 10000, 'search': 10000, 'wide': 600, 'large': 300}}, omp=[1, 4])],
     SEARCH_RULE + 'A case is an arbitrary model (a Python object with predict: labels as numbers or strings, or real '
     'outputs) on 1-6 (wide: 16-17) columns; the model keeps every row it was asked about. Distinct by implementation and value, '
     'by explanation and probability.',
     {'msdp': 1500, 'search': 800, 'found': 300, 'not_found': 30, 'asked': 2000, 'restricted': 5, 'on_tolerance': 150, 'large': 25})


prop('P03', 'p03', [G('main', {'quick': {'invariance': 700, 'axioms': 160, 'acx': 160},
                               'thorough': {'invariance': 15000, 'axioms': 4000, 'acx': 4000}}, omp=[1, 2, 4, 8])],
     TREE_RULE + 'Here up to 30 columns, 15 trees, 150 rows. Every case applies three of the transformations to one function. '
     'Non-trivial: a result other than 0; distinct by function, transformation and result.',
     {'invariance': 800, 'accuracy': 200, 'additivity': 10, 'acx': 200})


# ------------------------------------------------------------------ the workloads of the others under other monitors

BASE = dict(PROPS)                 # the properties above
META = [(e['module'], wl) for e in BASE.values() for wl in e['groups'][0]['plan']['quick']]


def share(quick, thorough, leave=()):
    """a part of every workload above"""
    plan = {'quick': {}, 'thorough': {}}
    for e in BASE.values():
        for wl in e['groups'][0]['plan']['quick']:
            name = '%s:%s' % (e['module'], wl)
            if name in leave:
                continue
            for tier, frac in (('quick', quick), ('thorough', thorough)):
                plan[tier][name] = max(1, int(e['groups'][0]['plan'][tier][wl] * frac))
    return plan


LONG = ('p13:wide', 'p12:wide', 'p09:many', 'p09:wide', 'p16:wide')       # long single calls


def tsan_env(scratch, w):
    from . import build
    return {'LD_PRELOAD': build.tlsfix() + ':/usr/lib/gcc/x86_64-linux-gnu/13/libtsan.so',
            'TSAN_OPTIONS': 'report_bugs=1:halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:'
                            'ignore_noninstrumented_modules=1'}


prop('P04', 'p04', [G('sched', share(0.04, 0.06), variant='sched', workers=5, cpu_limit=700),
                    G('tsan', share(0.015, 0.03, LONG), variant='tsan', env_fn=tsan_env, workers=3, cpu_limit=700)],
     'The workloads of all other properties. Every call is repeated with 2-16 threads and perturbed schedules of the '
     "monitors' own OpenMP runtime and with other batches of the same samples. Non-trivial: the call ran a region with more "
     'than one thread and its result is not only zeros and ones; distinct by function, number of threads and result.',
     {'compared': 1000, 'rebatched': 500, 'raced_call': 300, 'parallel_regions': 1000})


_p19 = share(0.06, 0.15)
_p19['quick'].update(refit=60, twins=80)
_p19['thorough'].update(refit=1500, twins=2000)
prop('P19', 'p19', [G('main', _p19, omp=[1, 4], cpu_limit=700)],
     'The workloads of all other properties; arguments (and the buffers they are views of) are compared before and after, every '
     'call is repeated, earlier results are compared again at the end, all calls are replayed on fresh explainers in another '
     'order; explainers fitted again and several explainers in '
     'turns. Non-trivial: a result that is not only zeros and ones; distinct by function and result.',
     {'arguments': 1500, 'repeated': 1000, 'history': 1000, 'refits': 30, 'twins': 200})


def asan_env(scratch, w=0):
    lib = '/usr/lib/gcc/x86_64-linux-gnu/13/lib%s.so'
    return {'LD_PRELOAD': lib % 'asan' + ':/usr/lib/x86_64-linux-gnu/libstdc++.so.6',
            'ASAN_OPTIONS': 'detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:exitcode=99:'
                            'detect_stack_use_after_return=0:quarantine_size_mb=64',
            'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=0'}


prop('P18', 'p18', [G('asan', share(0.03, 0.05), variant='asan', workers=3, cpu_limit=700, omp=[1, 2, 4]),
                    G('bounds', share(0.03, 0.05), variant='bounds', workers=3, cpu_limit=700, omp=[1, 2, 4]),
                    G('fill', share(0.03, 0.05), workers=2, cpu_limit=700, omp=[1, 4])],
     'The workloads of all other properties, with different seeds per group. Non-trivial: a call whose result is not only '
     'zeros and ones; distinct by group, function and result.',
     {'asan': 800, 'bounds': 800, 'fill': 800})


prop('P21', 'p21', [G('main', {'quick': dict(waterfall=300, bars=300, sdp_page=100, shap_page=100, many=20),
                               'thorough': dict(waterfall=4000, bars=4000, sdp_page=700, shap_page=700, many=120)}, omp=[1, 4],
                       cpu_limit=700)],
     'Charts of drawn attributions, and whole pages of the application for drawn forests, read back from the figures, tables and '
     'texts that are shown. Non-trivial: a chart, a page or a rule that is shown; distinct by what it is computed from.',
     {'waterfall': 200, 'bars': 150, 'page': 60, 'rule': 30, 'maxrule': 10, 'shapley': 20, 'compiled': 100, 'options': 8,
      'grouped': 20})


prop('P22', 'p22', [G('main', {'quick': dict(exact=200, sampled=60, tree=120, linear=100, helpers=120, monte=200, datasets=200,
                                              labels=200),
                               'thorough': dict(exact=4000, sampled=1200, tree=2500, linear=2000, helpers=2500, monte=4000, datasets=4000,
                                                 labels=4000)}, cpu_limit=700)],
     'Mixtures of three normal distributions of 2-4 columns with two dummy columns, classes of different linear models, grouped and '
     'ungrouped columns in every order, points, column subsets and trees; averages of 2000 draws are compared with the exact value '
     'within 7 standard errors. Distinct by columns and value.',
     {'expectation': 300, 'shapley': 60, 'average': 300, 'estimate': 500, 'plugin_shapley': 50, 'labels': 100, 'grouped': 20,
      'ungrouped': 20, 'one_category': 60, 'path': 60, 'drawn': 60, 'sv': 30, 'linear': 150, 'other_rows': 60, 'integral': 60, 'dataset': 50, 'cut': 50})


prop('P23', 'p23', [G('main', {'quick': dict(lightgbm=500, gpboost=100, catboost=300, spark=250, plain=350, categories=60),
                               'thorough': dict(lightgbm=10000, gpboost=2000, catboost=6000, spark=5000, plain=7000, categories=400)}, omp=[1, 4])],
     'A case is an ensemble (1-8 trees or trees per class, depth up to 6) dumped in the format of LightGBM, GPBoost, CatBoost (binary and several '
     'classes, scale and bias), Spark (tree, forest, boosting) or XGBoost (JSON, text), or given as tree objects, with points on thresholds and '
     'missing values. Distinct by format and outputs.',
     {'predict': 300, 'tiling': 400, 'missing': 200, 'shap': 60, 'sdp': 60, 'category': 15})


def undefined(m):
    text = m.group(0)
    if 'ext_acv' not in text and 'acv_tree' not in text:
        return None
    what = re.sub(r'0x[0-9a-f]+|-?\d+', '#', m.group(2))[:80]
    return 'undefined:' + what, 'undefined behaviour: %s' % text[-200:]


def ignored(m):
    if 'ext_acv' not in m.group(0):
        return None
    return 'ignored:' + m.group(1)[:80], 'an error inside a function that cannot report it: %s' % m.group(0)[-300:]


def race(m):
    text = m.group(0)
    fn = re.search(r'#0 (\S+?)(?:\(| )', text)
    # the reference counts that Cython itself keeps for memory views are atomic writes read without a lock
    if any(f.startswith('__Pyx_') for f in re.findall(r'(?:Read|[Ww]rite) of size[^\n]*\n\s*#0 (\S+)', text)):
        return None
    f = re.sub(r'^__pyx_f_\d+(cyext_acv\w*?|cext_acv)_(?=[a-z])', '', fn.group(1)) if fn else '?'
    if 'ext_acv' not in text:
        return None
    return 'race:' + f, 'data race in %s: %s' % (f, ' / '.join(
        ln.strip() for ln in text.split('\n') if re.match(r' +(Read|Write|Previous|Atomic)', ln)))


# reports that do not end the process: pattern -> (key, message)
STDERR_PATTERNS = [(r'WARNING: ThreadSanitizer: data race[\s\S]{0,30000}?SUMMARY: ThreadSanitizer: data race[^\n]*', race),
                   (r'([^\n]*): runtime error: ([^\n]*)', undefined),
                   (r"Exception ignored in: ?([^\n]*)\n[\s\S]{0,600}?(?:Error|Exception)[^\n]*", ignored)]


