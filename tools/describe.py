#!/usr/bin/python3 -B
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, X = 'acv_explainers/acv_tree.py', 'acv_explainers/acv_agnosticX.py'
CY = 'acv_explainers/cyext_acv/'
PYX, NOPA, CACHE = CY + 'cyext_acv.pyx', CY + 'cyext_acv_nopa.pyx', CY + 'cyext_acv_cache.pyx'
U, UC, US = 'acv_explainers/utils.py', 'acv_explainers/utils_cr.py', 'acv_explainers/utils_sdp.py'
CR, PY, BT, BA = ('acv_explainers/counterfactual_rules.py', 'acv_explainers/py_acv.py', 'acv_explainers/base_tree.py',
                  'acv_explainers/base_agnostree.py')
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    PROPS.append(dict(
        prop={'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}},
        check={'property': pid, 'quick_cmd': 'bin/check %s --tier quick' % pid,
               'thorough_cmd': 'bin/check %s --tier thorough' % pid, 'technique': technique, 'level': 'exploration',
               'level_note': note}))


ORACLE = 'runtime monitoring of the real code under generated workloads; oracle: '
NOTE = ('Holds on the executions observed (seeded workloads; the counts are in the evidence). Trusts the reference in '
        '/verif/mon, PyPy/NumPy and the C++ compiler. ')

P('P01', 'A loaded ensemble gives the outputs of its source model',
  'For every supported tree ensemble (trained with scikit-learn or XGBoost, or given as plain trees), the explainer loads '
  'a model whose output at every point is the output that the source model gives there (the raw margin where that is the '
  'scale on which the trees add up). The stored leaf regions of every tree are disjoint and cover the whole space, so '
  'every point, points exactly on a split threshold included, belongs to the region of the leaf that it reaches in the '
  'source model, and the background rows are counted in the regions they reach. An explainer that fits its own forest '
  '(ACXplainer) predicts as that forest.',
  ['inputs', 'configurations'], 'all supported model families, all fitted models, all points',
  'The tests load a handful of models on fixed data and compare a few predictions; they never place a point on a '
  'threshold, nor look at the regions.',
  [BT, T], [('parsers of the source models', BT + ': TreeEnsemble, Tree'), ('leaf regions and background counts', BT + ': TreeEnsemble')],
  ['ACVTree.predict', 'ACVTree.compute_exp given all columns', 'leaf regions'],
  ORACLE + 'the source library', NOTE + 'Covers random forests, extra trees, gradient boosting, single trees, isolation '
  'forests, histogram gradient boosting (regression) and XGBoost (classifiers, regressors, boosters, tree limits).')

P('P02', 'Attributions are the exact Shapley values of the leaf estimator',
  'For every ensemble, background sample, point and grouping of columns, each attribution that is computed is the '
  'Shapley value of the cooperative game whose value for a coalition is the mean output of the leaves compatible with '
  'the point on the coalition, each leaf weighted by its background frequency given that the coalition columns fall into '
  'its region. Every implementation (sequential, parallel, with a cache of leaf probabilities, pure Python) gives these '
  'values; the members of a group all receive the value of the group, and regions without background rows contribute nothing.',
  ['inputs', 'configurations'], 'all ensembles (up to 7 players enumerated), background samples, points, groupings, numbers of threads',
  'The tests compare implementations with each other on a few models, with the same shared defects on both sides, '
  'and never with the definition.',
  [PYX, NOPA, CACHE, T, PY], [('leaf-wise Shapley values', PYX + ': shap_values_leaves, shap_values_leaves_notoptimized'),
   ('cache of leaf probabilities', CACHE + ': leaves_cache, shap_values_leaves_cache'), ('pure Python values', PY)],
  ['ACVTree.shap_values, shap_values_nopa, py_shap_values'],
  ORACLE + 'enumeration of all coalitions', NOTE + 'Numbers are compared to 1e-9 of the scale of the leaf values.')

P('P05', 'Active Shapley values are exact for the game of the active columns',
  'For every ensemble, background sample, point and split of the columns (or groups) into active and null ones, the '
  'attribution of an active player is its Shapley value in the game played by the active players only, where a '
  'non-empty coalition is always joined by all the null columns; null columns receive 0. The sequential, parallel, per-sample and pure Python '
  'implementations all give these values, whatever the order in which the columns are listed. An explanation is turned into active '
  'columns (its members) and null columns (all others).',
  ['inputs', 'configurations'], 'all ensembles, backgrounds, points, splits into active and null columns, groupings, thread counts',
  'The tests compare two implementations on one split and never with the definition.',
  [PYX, NOPA, T, PY, U], [('active values', PYX + ': shap_values_acv_leaves, shap_values_acv_leaves_adap'),
   ('null columns of an explanation', U + ': get_null_coalition, get_active_null_coalition_list')],
  ['ACVTree.shap_values_acv*, py_shap_values_acv', 'get_null_coalition'],
  ORACLE + 'enumeration of all coalitions of active columns', NOTE)

P('P06', 'Conditional expectations of an ensemble equal their definitions',
  'For every ensemble, sample, point and column subset (empty and full ones included), each conditional expectation '
  'equals its definition. The leaf estimator gives the sum over the leaves compatible with the point of their value, weighted by the '
  'share of the sample rows in the leaf among those whose conditioning columns fall into its region. The normalized '
  'one rescales these weights to sum to one in each tree. The discrete one is the mean output of the sample rows equal to the '
  'point on the columns. Leaves and conditions without rows contribute 0. Parallel, sequential and Python versions '
  'agree, and the brute-force attributions over the last two are their exact Shapley values.',
  ['inputs', 'configurations'], 'all ensembles, samples (other than the background too), points, subsets, thread counts',
  'The tests call one estimator on one subset and look at no value.',
  [PYX, NOPA, T, PY], [('conditional expectations', PYX + ': compute_exp, compute_exp_cat, compute_exp_normalized'),
   ('sequential versions', NOPA), ('brute force', PY)],
  ['ACVTree.compute_exp*, py_compute_exp*, py_shap_values*_notoptimized'],
  ORACLE + 'recount on the rows of the sample', NOTE)

P('P07', 'Same decision probabilities of tree classifiers equal their definition',
  'For every tree classifier (trees with class probabilities, or boosted binary models), sample, point and column '
  'subset, the same decision probability is (a - d) / (u - d), where a, u and d are the expected probability of the class '
  'of the point given the columns over all sample rows, those of the same class and those of another class, by the leaf estimator '
  '(normalized per tree) or, in the discrete form, over rows equal to the point on the columns and cut to [0, 1]; it is 1 for all columns and 0 for none. On discrete data it '
  'is the share of the rows equal to the point on the columns which have its class. The '
  'parallel and sequential implementations agree.',
  ['inputs', 'configurations'], 'all supported classifiers, samples, points, subsets, thread counts',
  'The tests call one implementation for one subset and look at no value.',
  [PYX, NOPA, T, US], [('same decision probability', PYX + ': compute_sdp_clf, compute_sdp_clf_cat'), ('sequential versions', NOPA),
   ('pure Python', US + ': compute_sdp_clf, compute_sdp_clf_cat')],
  ['ACVTree.compute_sdp_clf*, py_compute_sdp_clf*'],
  ORACLE + 'recount on the rows of the sample', NOTE + 'Quotients with a denominator below 1e-6 are not compared. The pure '
  'Python form does not normalize per tree and is cut to [0, 1]; it is compared with that definition.')

P('P08', 'Same decision probabilities of tree regressors are the defined ones',
  'For every regression ensemble, sample, point, tolerance and set of columns, the same decision probability is the one '
  'defined by the leaf estimator: the squared distance between the outputs is expected over pairs of leaves of the trees '
  'given the columns, over all rows, over the rows beyond and over those within the tolerance, and the probability is the '
  'position of the first between the other two. For discrete data it is the share of the rows equal to the point on the columns whose output is '
  'within the tolerance. The value does not depend on the other points of the batch.',
  ['inputs', 'configurations'], 'all regression ensembles, samples, points, tolerances, subsets',
  'The tests look at no value; the defects repaired here needed several trees, several points or a base value.',
  [PYX, NOPA, T, US], [('leaf-pair estimator', PYX + ': compute_sdp_reg, compute_sdp_reg_cat'), ('sequential variants', NOPA)],
  ['ACVTree.compute_sdp_reg(_nopa), compute_sdp_reg_cat(_nopa), py_compute_sdp_reg(_cat)'],
  ORACLE + 'direct evaluation of the definition with bit sets of rows', NOTE)

P('P09', 'SDP explanations of tree models are the minimal most probable ones',
  'For every sample, the explanation search over columns or groups reports the smallest number of players whose same decision '
  'probability reaches the level, of that size a most probable set, with its own probability; the global importance counts exactly the '
  'samples for which such a set was found. Above the candidate limits (10 columns, 2^15 sets, half of the columns) it '
  'reports the best set among those it searches, again with its own probability, and ends with the sets that were listed.',
  ['inputs', 'configurations'], 'all ensembles, points, levels, groupings, search variants',
  'Minimality quantifies over all column sets; the tests only call the functions and ignore the sets.',
  [PYX, NOPA, T], [('searches of classifiers', PYX + ': global_sdp_clf*'), ('searches of regressors', PYX + ': global_sdp_reg*'),
                   ('sequential variants', NOPA)],
  ['ACVTree.importance_sdp_clf*, importance_sdp_reg*'],
  ORACLE + 'enumeration of all candidate sets with the reference probability', NOTE)

P('P10', 'Swing values are the Shapley values of the sufficiency game',
  'For every classifier, sample, point, threshold and grouping of columns, the swing value of a column is the Shapley value of the game whose '
  'value is 1 if the same decision probability of a coalition reaches the threshold and 0 otherwise; the reported swings '
  'are the positive and negative parts of it, and the reported counts are the numbers of coalitions that the player '
  'turns sufficient, turns insufficient, or does not change.',
  ['inputs', 'configurations'], 'all classifiers (up to 5 players enumerated), samples, points, thresholds, groupings',
  'The tests call two variants on one model and check no value; the statement quantifies over all coalitions.',
  [PYX, NOPA, T], [('swings over leaves', PYX + ': swing_sv_clf_direct, swing_sv_clf'), ('sequential variant', NOPA)],
  ['ACVTree.swing_sv_clf, swing_sv_clf_nopa, swing_sv_clf_slow, demo_swing_sv_clf(_cat)'],
  ORACLE + 'enumeration of all coalitions with their probabilities', NOTE)

P('P20', 'Normalized attributions are exact per leaf and add up to the output',
  'The normalized attribution of a column is the sum over the leaves of the leaf value times the Shapley value, among the players on '
  'the path of the leaf, of the leaf probability given the coalition, rescaled within its tree to sum to 1. Direct, '
  'cached and sequential evaluation agree on it for every grouping of columns, and the attributions of a point whose leaves hold background rows add '
  'up to its output minus the mean output of the background.',
  ['inputs', 'configurations'], 'all ensembles, background samples, points, groupings, cache settings',
  'The tests never call these entry points.',
  [PYX, CACHE, T], [('normalized attributions', PYX + ': shap_values_leaves_normalized'),
                    ('cache of normalized leaf probabilities', CACHE + ': leaves_cache_normalized')],
  ['ACVTree.shap_values_normalized, shap_values_normalized_cache(_nopa)'],
  ORACLE + 'enumeration of the coalitions on every path', NOTE)


P('P11', 'Forest-based probabilities equal their definition on the projected forest',
  'For every fitted forest, background sample, point, column subset and minimal node size, the same, different and target '
  'decision probabilities and the conditional expectation are the average over the trees of the frequency (mean outcome) of the background rows '
  'in the projected cell of the point, obtained by descending the tree on the subset columns only. Where the '
  'conditioning is on intervals the descent follows the bounds of the interval, and the reported weights of the background rows are those of the '
  'same cells, so that they reproduce the reported probability.',
  ['inputs', 'configurations'], 'all forests, subsets, intervals, minimal node sizes, bounds on the outcome, thread counts',
  'The tests only call one of these functions for one subset and look at no value.',
  [X, PYX, BA], [('projected forest', PYX + ': compute_sdp_rf, compute_ddp_*, compute_cdp_*, compute_exp_rf'),
                 ('copy of the forest', BA + ': BaseAgnosTree')],
  ['ACXplainer.compute_{sdp,ddp,cdp,exp}_rf, *_weights, *_cond*, *_intv*'],
  ORACLE + 'descent of the ranger forest with bit sets of rows', NOTE + 'The forest is read from ranger itself, which is trusted.')

P('P12', 'Minimal sufficient and divergent explanations are minimal and reach the level',
  'A reported minimal sufficient (or divergent, or counterfactual) explanation has at least the required probability, no '
  'smaller candidate of the searched family reaches it, and it is a most probable one of its size; if none reaches the '
  'level the whole set of columns is reported. The reported probability is the one of the reported set, and the reported '
  'global importance counts how often each column occurs in the explanations of the batch.',
  ['inputs', 'configurations'], 'all forests, points, levels, groupings, search spaces, minimal sizes, with and without early stop',
  'The tests run the search once and check no output; minimality is a statement about all other subsets.',
  [X, PYX], [('search by increasing size', PYX + ': global_sdp_rf and its variants'), ('most important columns', X + ': importance_*_rf')],
  ['ACXplainer.importance_{sdp,ddp,cdp}_rf, importance_{ddp,cdp}_intv'],
  ORACLE + 'enumeration of all candidate sets', NOTE + 'Up to 7 columns are enumerated fully; with more than ten columns the ten most '
  'important ones are the search space, as documented.')

P('P13', 'All sufficient explanations: complete, minimal and correctly counted',
  'The list of sufficient explanations of a point contains exactly the minimal column sets (within the searched sizes) '
  'whose probability reaches the level, each with its own probability. The local importance of a column is the share of the listed sets of the point '
  'that contain it, and the global importance sums the listed sets over the batch.',
  ['inputs', 'configurations'], 'all forests, points, levels, groupings, search spaces',
  'Completeness quantifies over all column sets; the one test that calls this looks at no output.',
  [X, PYX, U], [('enumeration of minimal sets', PYX + ': sufficient_expl_rf, sufficient_cxpl_rf'), ('local importance', X + ': compute_local_sdp')],
  ['ACXplainer.sufficient_expl_rf, sufficient_cxpl_rf, compute_local_sdp'],
  ORACLE + 'enumeration of all candidate sets', NOTE)

P('P14', 'Local rules keep the probability, maximal rules stay above the level',
  'The local rule of an explanation contains its point, bounds explanation columns only, and every point inside it '
  'has the same probability and the same rule. A maximal rule contains the local rule, still bounds explanation columns '
  'only, and no background row that it covers beyond the local rule has a probability below the required level, whatever search '
  'algorithm and budget is used; the probabilities and rules listed for the background rows are their own.',
  ['inputs', 'configurations'], 'all forests, points, subsets, levels, search budgets and random choices of the search',
  'The tests run the search on one subset and check nothing about the rule; the statement is about all points inside a rule.',
  [X, PYX, U], [('rule of the projected cell', PYX + ': compute_sdp_rule, compute_sdp_maxrule'),
                ('maximal rule by annealing', U + ': rules_by_annealing'), ('maximal rule by unions', U + ': find_union, extend_rec')],
  ['ACXplainer.compute_{sdp,ddp,cdp}_rule, compute_sdp_maxrules'],
  ORACLE + 'descent of the forest for the point, for sampled points of the rule and for every background row', NOTE)

P('P15', 'Global rules report measured quality and answer with the best admissible rule',
  'For every distinct rule, a fitted global rule model reports the share of the data that the rule covers, the output, '
  'quality (accuracy, or squared error) and variance measured on exactly these rows. The prediction for a point is the output of '
  'a rule that contains it, has the required coverage and is of the best quality among these, reported together with '
  'this rule and its columns; there is no answer exactly if no such rule has the required quality.',
  ['inputs', 'configurations'], 'all rule sets (repeated, empty and overlapping ones), data, points, required coverages and qualities',
  'The tests fit one rule set and ignore the predictions.',
  [X, U], [('metrics', U + ': compute_rules_metrics, unique_rules_s_star'), ('choice of the rule', U + ': global_rules_model, global_rules_model_reg')],
  ['ACXplainer.fit_global_rules, predict_global_rules, predict_proba_global_rules'],
  ORACLE + 'recount on the data and choice over all rules', NOTE + 'Only binary (0/1) targets in classification, the supported case.')

P('P16', 'Marginal same decision probabilities and their explanations are exact',
  'The marginal same decision probability of a column set is the share of background rows which, with these columns set to '
  'the values of the point, get an unchanged decision (classification) or an output within the threshold (regression) from the '
  'given model, and 1 for all columns; the model is asked about such mixtures only. The searches report the smallest '
  'sets that reach the level, the most probable of that size, with their own probabilities, in every explainer class.',
  ['inputs', 'configurations'], 'all models (any callable), points, background samples, levels, thresholds, groupings',
  'The tests call two of these functions on one model without looking at the values.',
  [PYX, US, T, X, BA], [('probabilities', US + ': msdp'), ('searches', US + ': importance_msdp_clf_search, importance_msdp_reg_search')],
  ['compute_msdp_clf/reg, importance_msdp_clf/reg(_search) of ACVTree, ACVTreeAgnostic, ACXplainer'],
  ORACLE + 'a recording model and a recount over the background rows for all candidate sets', NOTE)

P('P17', 'Counterfactual rules change only the divergent set and report true probabilities',
  'Each local (regional) counterfactual rule keeps the columns outside the minimal divergent set at the values of the instance '
  '(at the bounds of its sufficient rule), carries the target probability and the background weights of the rule itself, '
  'reaches the required level unless none does and then only one is reported, and is not contained in another one. A '
  'point sampled from it differs from the instance in the divergent set only and lies in the rule, and the reported '
  'scores, verdicts, accuracies and coverages (on the explainer and on the source model) are those of the sampled points. '
  'What is shown of a rule (bounds, probability, output) is what was computed for that rule.',
  ['inputs', 'configurations', 'histories'], 'all forests, instances, targets, levels, random choices of the searches, and orders of the steps',
  'The tests do not call the counterfactual rules at all.',
  [CR, UC, X], [('steps of the analysis', CR + ': CR'), ('candidate rules', UC + ': get_compatible_leaf, return_counterfactuals*'),
                ('nested rules', UC + ': remove_in_wsdp'), ('sampling', UC + ': simulated_annealing')],
  ['state of CR after each step'],
  ORACLE + 'enumeration and projected forest on what each step left behind', NOTE)

P('P03', 'Attributions and expectations obey their axioms and invariances',
  'For ensembles and column counts beyond enumeration: the attributions of a point add up to its output minus the mean output of the '
  'background (over leaves that hold background rows), add up over the trees of the ensemble, are 0 for columns that no '
  'tree uses, and are equal within a group. Attributions, expectations and same decision probabilities do not change when columns, trees, nodes, '
  'outputs or background rows are renumbered or repeated, or columns are recoded by strictly increasing maps, and scale with the leaf values.',
  ['inputs', 'configurations'], 'all ensembles (to 30 columns, 15 trees), background samples, points, groupings and transformations',
  'The tests look at single models of few columns; an invariance relates every input to all its transformed variants.',
  [PYX, NOPA, T, X], [('leaf-wise values', PYX + ': shap_values_leaves, compute_exp'), ('projected forest', PYX + ': compute_sdp_rf, compute_exp_rf')],
  ['ACVTree.shap_values(_nopa, _normalized, _acv), compute_exp(_nopa, _normalized, _cat), compute_sdp_reg', 'ACXplainer.compute_{sdp,ddp,exp,cdp}_rf'],
  'runtime monitoring of the real code under generated workloads; metamorphic monitors relating several executions', NOTE)

P('P04', 'Results do not depend on threads, schedules or the batch; no data races',
  'For every function of the library: the result is the same (up to rounding) with any number of threads and any schedule of the '
  'parallel loops; the result of a sample is the same whichever other samples are in its batch, in which order and how '
  'often; and no two threads access the same memory without synchronization, one of them writing.',
  ['inputs', 'schedules', 'configurations'], 'all calls of the other properties, 1-16 threads, schedules of the OpenMP runtime, batches',
  'The tests run with one schedule of a fixed number of threads, and compare variants only on batches that hide shared accumulators.',
  [PYX, CACHE, NOPA, T, X], [('parallel loops over samples', PYX + ': prange in every parallel function'), ('parallel searches', X + ': importance_*, sufficient_*')],
  ['results of the calls', 'memory accesses of the threads'],
  'ThreadSanitizer and an own OpenMP runtime with perturbed schedules (chunking, order, delays) under the workloads of all '
  'properties; oracle: equality with the single-threaded result of the same batch', NOTE + 'Races on the reference counts that Cython keeps for memory views are not reported.')

P('P18', 'The native code stays within its memory and reads only what was written',
  'For every function of the library and every input it accepts, the native code reads and writes only inside its arrays, buffers and vectors, executes no '
  'undefined operation, and its results do not depend on what freshly allocated memory contains.',
  ['inputs', 'configurations'], 'all calls of the other properties',
  'Out-of-bounds accesses in code compiled without bounds checks mostly go unnoticed in a test.',
  [PYX, CACHE, NOPA, T, X, BT], [('modules compiled without bounds checks', PYX + ': boundscheck=False, wraparound=False'),
                                 ('buffers of the searches', PYX + ': power_cpp, R_buf, S arrays')],
  ['memory accesses', 'results under different fillings of new memory'],
  'AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, Cython bounds checks and perturbed heap contents under '
  'the workloads of all properties', NOTE)

P('P19', 'Calls leave their arguments alone, can be repeated and do not depend on history',
  'No call changes the arrays or lists it is given. A call repeated with the same arguments gives the same result, which does not depend on '
  'the calls made before or between, on other explainers in use, nor on what an explainer was fitted to earlier; '
  'a later call does not change a result returned earlier.',
  ['inputs', 'histories'], 'all calls of the other properties and all orders of them',
  'The tests make each call once on fresh objects.',
  [T, X, CR, BA, PYX], [('state of the explainers', X + ': fit, fit_global_rules; ' + T + ': ACVTree caches'), ('arguments handed to native code', PYX)],
  ['arguments before and after', 'results of repeated and reordered calls', 'results kept until the end'],
  'runtime monitoring: snapshots of arguments and results, repetition and replay of the recorded calls in another order', NOTE)


P('P21', 'The web application shows what the explainers report',
  'For every explainer, background and test set compiled by compile_ACXplainers: the stored explainer predicts as the given one and the stored '
  'data are the given ones, value by value. Every observation that a page offers exists and can be shown. The page of sufficient explanations lists, for the '
  'chosen observation and level, exactly the sufficient explanations with their probabilities, their columns by name, how often each column '
  'appears in them, the values and highlighted columns of the chosen explanation, its local rule, its maximal rule for the level, and the coverage '
  'and (labels 0/1, or regression) accuracy or error of that rule on the training data. The waterfall of the Shapley page starts from the mean output over the background and adds the '
  'attributions of the observation, ending at its output. Charts (waterfall, bar_legacy) draw every value with its size, sign, place, label and text, '
  'largest first, the columns beyond the displayed number together as their sum.',
  ['inputs', 'configurations'], 'all forests, data sets, observations, levels and selections; charts of up to 12 values',
  'Nothing tests the application: it needs streamlit and a browser.',
  ['acv_app/app.py', 'acv_app/sdp_app.py', 'acv_app/sv_app.py', 'acv_app/plots.py'],
  [('stored data and pages', 'acv_app/app.py: compile_ACXplainers, main'), ('pages', 'acv_app/sdp_app.py, sv_app.py: write_pg'),
   ('charts', 'acv_app/plots.py: waterfall, bar_legacy')],
  ['files written by compile_ACXplainers', 'tables, texts and figures handed to streamlit', 'artists of the figures'],
  ORACLE + 'the explainers, enumeration of coalitions, and the forest read from ranger', NOTE + 'Streamlit and the styles of pandas are replaced by '
  'stand-ins that record what they are given; caching by streamlit is not exercised.')

P('P22', 'The reference values of the experiments package are those of its models',
  'For every mixture of the three classes (or single normal distribution, ExperimentsLinear), every point and every list of columns in any order: each target is the linear model of its class; class '
  'shares, means and covariances of the data are those configured; the closed-form expectations equal the conditional (marginal) expectations of '
  'the mixture and linear_gmm_shap (linear_shap, linear_mar_shap) their Shapley values per group of columns; Monte Carlo estimates, their Shapley values and the points they draw agree with the '
  'conditional distribution within the error of the draws; the tree estimators (path, plugin, interventional, exact integral; of the output and of the '
  'squared distance) equal their definitions over the training rows (the interventional ones over the rows given), and tree_shap and pytree_shap_plugin their Shapley values. Conditional '
  'normal distributions, synthetic labels, relevant columns, rates, encodings of categories and quantile intervals follow their formulas, and a '
  'rebuilt tree holds the averages of the rows in its nodes.',
  ['inputs', 'configurations'], 'mixtures of 2-4 numerical columns and two dummy columns; ensembles and normal distributions of up to 5 columns',
  'Nothing tests the package; a wrong reference value is as plausible as a right one.',
  ['experiments/exp_linear_gmm.py', 'experiments/exp_linear.py', 'experiments/exp_syn.py', 'experiments/shap_linear.py', 'experiments/utils.py'],
  [('mixture, estimators', 'experiments/exp_linear_gmm.py: ExperimentsLinearGMM; exp_linear.py, exp_syn.py, shap_linear.py: ExperimentsLinear'),
   ('helpers', 'experiments/utils.py: condMVN, shap_cond_exp, mc_cond_exp, tree_sv_exact, tree_sv_acv, pytree_shap_plugin, generate_y, '
    'return_main_dataset, quantile_discretizer')],
  ['returned values and drawn points'],
  ORACLE + 'closed forms by the precision matrix, own draws, and enumeration of rows and coalitions', NOTE +
  'Averages of draws are judged at 7 standard errors, so small errors of the Monte Carlo functions pass. The integral that R computes is replaced by our own.')


P('P23', 'Models of LightGBM, CatBoost, Spark and written trees load as what they say',
  'For every LightGBM model (classifier, regressor, ranker or booster; every boosting type; several classes; missing values; trees without splits), and every CatBoost, GPBoost, Spark, '
  'XGBoost or plain-text model in the format the loader reads: the outputs of the loaded model are those of the source at every point, each class apart, with averages for '
  'random forests, the bias and scale of CatBoost, and missing values on the side the source sends them to; the leaves cover the regions of the source, the nodes hold its numbers of rows, and attributions and '
  'same-decision probabilities of the loaded model follow from those regions. A model with splits or leaves the loaded trees cannot express '
  '(sets of categories, linear leaves) is either refused or right, never loaded as another model.',
  ['inputs', 'configurations'], 'ensembles of up to 6 trees (20 with early stopping) over up to 5 columns; at points on the thresholds only where the format fixes the side',
  'The tests that load such models need the network; one wrong constant in a loader gives a plausible model that is not the one the user trained.',
  ['acv_explainers/base_tree.py'],
  [('loaders', BT + ': SingleTree, CatBoostTreeModelLoader, _load_lightgbm_trees, TreeEnsemble')],
  ['returned values and loaded trees'],
  ORACLE + 'the predictions of the LightGBM library, an evaluation of the dumps by our own reading of the formats, and enumeration of coalitions', NOTE +
  'CatBoost, GPBoost and Spark are not installed: stand-ins carry models in their formats.')


def main():
    PROPS.sort(key=lambda p: p['prop']['id'])
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['prop']) + '\n')
    m = {'version': 1,
         'setup_cmd': 'bin/setup',
         'checks': [p['check'] for p in PROPS], 'not_applicable': [],
         'notes': 'No hooks in /repo: the monitors observe the public results, the arguments and the process.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)


main()
