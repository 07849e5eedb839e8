import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
KE='GPy_ABCD/KernelExpressions/'; KX='GPy_ABCD/KernelExpansion/'; M='GPy_ABCD/Models/'; U='GPy_ABCD/Util/'; K='GPy_ABCD/Kernels/'

p('C01', 'Sigmoid factors are read as the exact intersection of their intervals',
  "For any collection of change-point and change-window factors multiplying one component, the intervals the interpretation reports for that component denote exactly the intersection of the half-lines (from a location, until a location), windows and window-complements that the factors stand for, as sets of real numbers up to boundary points. Every reported end carries the slope of a factor that has that end. An empty intersection yields an empty list of intervals, never an error or a non-empty answer.",
  ['inputs'], 'all real locations and positive widths, any number of factors of each of the four kinds, any order of the factors',
  'The tests check four hand-picked overlaps and eleven hand-picked pairs, with at most one window complement beside another kind; the property is over all reals and all list lengths, and the code branches on orderings of every pair of ends.',
  [KX+'kernelInterpretation.py'],
  [('sigmoids_to_intervals', KX+'kernelInterpretation.py'), ('simplify_sigmoidal_intervals(_step) / simplify_sigmoidal_interval_pair', KX+'kernelInterpretation.py'), ('S/Sr/SI/SIr_overlap, intersect_segment_semiline/_segment_hole/_semiline_hole', KX+'kernelInterpretation.py')],
  [('interval dicts', "optional 'start'/'end' with their slopes", KX+'kernelInterpretation.py')], ['sigmoids_to_intervals(parameters)["sigmoidal_intervals"]', 'GPModel.interpret()'])

p('C02', 'Every fitted kernel expression can be interpreted, one sentence per component',
  "Interpreting any simplified kernel expression whose fitted parameters have been absorbed never raises. The description announces the number of components of its sum-of-products form and contains exactly one line per component, and each line mentions the overall variance and the defining values of every factor of that component (lengthscales, periods, offsets, ends of its intervals), rounded to two decimals; a component which its change operators leave no region to is said to apply nowhere.",
  ['inputs', 'programs'], 'all expression trees over the base kernels and change operators, all parameter values',
  'The interpretation tests only print; nothing asserts totality or content, and they reach a dozen shapes.',
  [KX+'kernelInterpretation.py', KE+'base.py', KE+'commutatives.py', KE+'change.py', M+'model.py'],
  [('base_factors_interpretation / first_term_interpretation / postmodifier_interpretation', KX+'kernelInterpretation.py'), ('get_interpretation', KE+'base.py'), ('sum_of_prods_form', KE+'commutatives.py')],
  None, ['KernelExpression.get_interpretation()', 'GPModel.interpret()'])

p('C03', 'The sum-of-products form preserves the fitted covariance',
  "For any simplified expression with fitted parameters absorbed, the sum-of-products form is a sum of pure products of base kernels and sigmoids (no nested sums, products or change operators), each with its own overall variance. The covariance of that form, computed term by term from its parameters, equals the covariance of the fitted kernel at every pair of points of one input set. No fitted parameter value is lost, duplicated or given to another component.",
  ['inputs', 'programs'], 'all expression trees, all positive variances/lengthscales/periods and real offsets/locations, all inputs',
  'Tests only print the resulting form for a few expressions; distribution, merging of noise/constant/squared-exponential factors and variance products depend on shape and values.',
  [KE+'commutatives.py', KE+'change.py', KE+'commutative_base.py', M+'model.py'],
  [('SumKE/ProductKE/ChangeKE.sum_of_prods_form', KE+'commutatives.py'), ('new_bases_with_parameters, simplify_base_terms_params, multiply_pure_prods_with_params', KE+'commutatives.py'), ('add_sum_of_prods_terms', KE+'change.py')],
  [('parameters', 'per-node dict from base kernel to list of fitted values', KE+'base.py')], ['KernelExpression.sum_of_prods_form()', 'GPModel.sum_of_prods_kex'])

p('C04', 'Fitted parameters are matched to the term they belong to',
  "After absorbing a fitted kernel built from a simplified expression, every base term and change operator of the expression holds exactly the parameter values of its own sub-kernel, also when several terms have the same kind, and each product of base terms holds the one variance its base factors share. No value is used twice, none is dropped, and no name is looked up that the kernel does not have.",
  ['inputs', 'programs'], 'all simplified expression trees (including repeated kinds of terms and branches), all parameter values',
  'The tests that exercise matching only print; names are disambiguated by position-dependent suffixes and only particular shapes trigger them.',
  [KE+'commutative_base.py', KE+'commutatives.py', KE+'change.py', KX+'kernelOperations.py'],
  [('match_up_fit_parameters', KE+'commutative_base.py'), ('ProductKE.match_up_fit_parameters', KE+'commutatives.py'), ('ChangeKE.match_up_fit_parameters', KE+'change.py'), ('get_param_dict, fit_ker_to_kex_with_params', KX+'kernelOperations.py')],
  [('GPy_name', 'name of the GPy kernel a node becomes', KE+'base.py')], ['fit_ker_to_kex_with_params(kernel, expression)'])

p('C05', 'An expression builds exactly the covariance kernel it denotes',
  "The kernel object built from an expression has, at all inputs and for all values of its parameters, the covariance obtained by adding the kernels of a sum's terms, multiplying those of a product's factors, and blending a change operator's two branches (first branch before/outside, second after/inside). A product of base kernels has exactly one free variance among them, and every other parameter of every base kernel stays free. Building does not modify the expression.",
  ['inputs', 'programs'], 'all expression trees, all inputs, all parameter values',
  'Tests compare parameter names of two expressions only; no covariance value is ever computed by a test.',
  [KE+'commutatives.py', KE+'change.py', KX+'kernelOperations.py', K+'baseKernels.py'],
  [('to_kernel', KE+'commutatives.py'), ('base_str_to_ker', KX+'kernelOperations.py')], None, ['KernelExpression.to_kernel()'])

p('C06', 'Simplification never changes what an expression means',
  "Constructing and simplifying an expression only rewrites by the documented identities: repeated noise and repeated constants in a sum are one, a constant beside an offset-linear term in a sum is dropped, noise in a product absorbs every stationary base factor, a constant is the identity of a product with other factors, repeated squared-exponentials in a product are one, nested sums/products of the same kind are flattened and singleton nodes unwrapped. Every other term and multiplicity survives, in its own position, and a change operator keeps its kind and the order of its branches.",
  ['inputs', 'programs'], 'all expression trees of any depth and width',
  'Eleven sample trees are tested; the rewrite is recursive over arbitrary trees and its steps interact.',
  [KE+'commutatives.py', KE+'commutative_base.py', KE+'change.py'],
  [('simplify, absorb_singletons, absorb_homogeneous_composites, extract_if_singleton', KE+'commutative_base.py'), ('simplify_base_terms', KE+'commutatives.py'), ('ChangeKE.simplify', KE+'change.py')],
  [('base_terms / composite_terms', 'a node as multiset of base kernels plus list of sub-nodes', KE+'commutative_base.py')], ['SumKE/ProductKE/ChangeKE(...)', 'KernelExpression.simplify()'])

p('C07', 'Simplification reaches a normal form and is idempotent',
  "A simplified tree contains no sum directly inside a sum, no product directly inside a product, no composite node with a single term below another node, no zero or negative counts, and nothing any documented identity could still rewrite within a node's base terms. Simplifying again changes nothing, and so does rebuilding the tree from its own parts.",
  ['inputs', 'programs'], 'all expression trees of any depth and width',
  'Idempotence and normal form are never asserted; only specific results of eleven trees are.',
  [KE+'commutatives.py', KE+'commutative_base.py', KE+'change.py'],
  [('simplify', KE+'commutative_base.py'), ('standardise_singleton_root', KX+'grammar.py')], None, ['KernelExpression.simplify()', 'expand(expression, rules)'])

p('C08', 'Combination operators build the right expression and leave their arguments alone',
  "Adding, multiplying, swapping a base term, wrapping in a change operator, replacing and removing terms return exactly the combined expressions their documentation states, for every pairing of base-kernel names, sums, products and change operators: in particular the plain combination of both arguments is always among the results of add and multiply, and the extra results combine the base kernel with one single base term of the other argument. Neither argument, nor any node reachable from it, is modified, and no result shares a modifiable node with them except where an operator hands back an argument or one of its branches whole.",
  ['inputs', 'programs'], 'all pairs of expressions and base-kernel names',
  'A few dozen hand-written pairs are tested, mostly with base-only operands, and argument preservation is not asserted for nested nodes.',
  [KX+'kernelExpressionOperations.py', U+'kernelUtil.py'],
  [('add, multiply, swap_base, one_change, both_changes, replace_node, remove_a_term, higher_curves', KX+'kernelExpressionOperations.py'), ('sortOutTypePair', U+'kernelUtil.py')], None, ['add(k1, k2)', 'multiply(k1, k2)'])

p('C09', 'Expression equality is an order-insensitive equivalence',
  "Two expressions are equal exactly when they are of the same kind with the same multiset of base terms and, recursively, the same multiset of sub-expressions (sums and products), or the same change kind with pairwise equal branches in order. Equality is therefore reflexive, symmetric, transitive, independent of the order in which terms were given, never influenced by parents, roots or parameters, and never modifies what it compares.",
  ['inputs', 'programs'], 'all pairs and triples of expressions',
  'Two equalities are tested; a relation can fail only on particular multiplicities and orders.',
  [KE+'commutative_base.py', KE+'change.py', U+'genericUtil.py'],
  [('__eq__', KE+'commutative_base.py'), ('ChangeKE.__eq__', KE+'change.py'), ('eq_elems', U+'genericUtil.py')], None, ['k1 == k2'])

p('C10', 'Expansion edits one place of a copy and leaves the source tree intact',
  "Expanding an expression never modifies it. Every result is a separate, well-linked tree (each node's parent is the node that contains it, every node's root is the top node, and the root has no parent), equal after simplification to the source with exactly one sub-expression, at the position the rule was applied to, replaced by that rule's result.",
  ['inputs', 'programs'], 'all simplified expression trees, all nodes of them (including plain branches of change operators and equal siblings), all production rules',
  'Tests print expansions and check links on three trees; replacing the right node matters only for particular positions, e.g. plain branches or equal siblings.',
  [KE+'base.py', KE+'commutative_base.py', KE+'change.py', KX+'grammar.py'],
  [('new_tree_with_self_replaced', KE+'base.py'), ('reassign_child', KE+'commutative_base.py'), ('ChangeKE.reassign_child, ChangeKE.traverse', KE+'change.py'), ('expand, expand_node, deep_apply, roots, standardise_singleton_root', KX+'grammar.py')],
  [('root / parent', 'links of each node to the top and containing node', KE+'base.py')], ['expand(expression, rules)'])

p('C11', 'Expansion yields exactly the neighbours its production rules define, once each',
  "The set of expressions produced from an expression is exactly the set obtained by applying every given rule, with every base kernel it ranges over, at every node (base branches of change operators included), after simplification: nothing is missing and nothing else appears. The result contains no two equal expressions. Squared-exponential is only introduced by rules when the configuration includes it.",
  ['inputs', 'programs', 'configurations'], 'all simplified expression trees, all subsets of the production rules',
  'The number and identity of expansions is not asserted for any tree.',
  [KX+'grammar.py', KX+'kernelExpressionOperations.py', U+'genericUtil.py'],
  [('production rules', KX+'grammar.py'), ('expand / expand_node', KX+'grammar.py'), ('unique', U+'genericUtil.py')], None, ['expand(expression, rules)'])

p('C12', 'Textual forms are faithful',
  "Evaluating the representation of any simplified expression gives an equal expression. The printed form of an expression denotes it: read with the usual precedence of + and * and with CP/CW as two-argument functions, it is an expression equal to the printed one after simplification, and equal expressions with their terms in the same order print identically.",
  ['inputs', 'programs'], 'all simplified expression trees',
  'Five representations and three printed forms are tested; brackets and separators depend on nesting.',
  [KE+'commutative_base.py', KE+'commutatives.py', KE+'change.py', KE+'base.py'],
  [('__repr__ / __str__ / bracket_if_needed', KE+'commutative_base.py'), ('ProductKE.bracket_if_needed', KE+'commutatives.py'), ('ChangeKE.__repr__ / __str__', KE+'change.py'), ('to_kernel_unrefined', KE+'base.py')], None, ['repr(expression)', 'str(expression)'])

p('C13', 'Tree queries and traversals see every node exactly once',
  "Asking whether an expression contains any of some base kernels is true exactly when one of them occurs as a base term or branch anywhere in the tree, and an expression is stationary exactly when it contains no linear, sigmoid or change term anywhere. Traversal lists every node of the tree exactly once, root first, with a stand-in for each base branch of a change operator, and reduction applies the function once to each of the same nodes in the same order, threading the accumulator.",
  ['inputs', 'programs'], 'all expression trees, all sets of base kernels, all functions',
  'Three queries each and one reduction are tested.',
  [KE+'commutative_base.py', KE+'change.py'],
  [('contains_base, is_stationary, traverse, reduce', KE+'commutative_base.py'), ('ChangeKE.contains_base/traverse/reduce', KE+'change.py')], None, ['contains_base', 'is_stationary', 'traverse', 'reduce'])

p('C14', 'Model search accounts for every model exactly once',
  "After any number of search rounds and continuations: the returned best-first list contains every model ever fitted exactly once in non-decreasing score order; each per-round list holds exactly that round's models in score order; the tested expressions are those of all fitted models, each expression fitted at most once beyond duplicates among the user's start kernels; and the expanded and not-expanded lists partition the models. A round fits exactly the not-yet-tested expansions of the models it expands, and the search never raises because a round has no new expressions or no models left.",
  ['inputs', 'histories', 'configurations'], 'all start kernels, rules, scores (including ties), beams, round counts, and continuations of earlier searches',
  'No test in the suite runs a search at all (the check scripts are not collected), and the bookkeeping depends on the history of rounds and on ties.',
  [M+'modelSearch.py', U+'genericUtil.py'],
  [('explore_model_space', M+'modelSearch.py'), ('model_search_rounds', M+'modelSearch.py'), ('diff, unique, flatten', U+'genericUtil.py')],
  [('sorted_models, tested_models, tested_k_exprs, expanded, not_expanded', 'state of a search, returned and accepted for continuation', M+'modelSearch.py')], ['return value of explore_model_space / model_search_rounds'])

p('C15', 'Beam and rounds control the search as documented',
  "A search of r rounds performs exactly r rounds after the starting one, and round i expands the best not-yet-expanded models, as many as the i-th beam entry says (all of them if fewer are left): an integer beam applies to every round, a list shorter than r repeats its last entry, a longer one is cut. Any other beam is rejected with a TypeError, and the caller's beam list is not modified.",
  ['inputs', 'configurations', 'histories'], 'all non-negative round counts, non-negative integer beams and lists of them of any length',
  'No collected test runs a search.',
  [M+'modelSearch.py'], [('beam handling in explore_model_space', M+'modelSearch.py'), ('round loop of model_search_rounds', M+'modelSearch.py')], None, ['return value of explore_model_space'])

p('C16', 'Fitting a list gives one model per expression, in order, with bounded retries',
  "Fitting a list of expressions, in sequence or in parallel processes, returns exactly one fitted model per expression in the same order, each fitted to the given data with the given restarts and optimiser. A failing fit is retried at most the given number of times: the first success is returned, with one warning per retry, and otherwise the last error is raised to the caller.",
  ['inputs', 'fault_sequences'], 'all lists (including empty), all failure sequences of single fits, all retry limits',
  'No collected test fits a model.',
  [M+'modelSearch.py', M+'model.py'],
  [('fit_one_model', M+'modelSearch.py'), ('fit_mods_not_parallel, fit_mods_parallel_processes', M+'modelSearch.py'), ('GPModel.fit', M+'model.py')], None, ['fit_one_model', 'fit_mods_not_parallel', 'fit_mods_parallel_processes'])

p('C17', 'Scores follow their definitions and are cached per model',
  "BIC is -2L + k ln n, AIC is 2(k - L) and AICc is AIC + 2k(k+1)/(n-k-1), for the model's log-likelihood L, number of data points n and number of free parameters k. Scoring a model passes that model and its own L, n and k, returns the function's value, and stores that value and the function's name on the model, also when it is scored again with another function.",
  ['inputs', 'histories'], 'all log-likelihoods, sample sizes and parameter counts; all score functions; any sequence of scorings',
  'No collected test computes a score.',
  [U+'modelUtil.py', M+'model.py'], [('BIC, AIC, AICc', U+'modelUtil.py'), ('compute_utility, _ordered_score_ps', M+'model.py')],
  [('cached_utility_function(_type)', 'last score and its name', M+'model.py')], ['BIC/AIC/AICc(m, ll, n, k)', 'GPModel.compute_utility'])

p('C18', 'Kernels are valid covariances and their pieces agree',
  "For every base, sigmoidal and change kernel in use, the covariance of an input set with itself is symmetric and positive semi-definite, computing it with the second input omitted or given explicitly is the same, the cross-covariance of two sets is the transpose of the one taken the other way round, and the separately computed diagonal is the diagonal of the full matrix. The linear kernel is variance times the product of the offset inputs.",
  ['inputs'], 'all inputs (any number of points) and all parameter values',
  'No collected test evaluates a covariance.',
  [K+'linearOffsetKernel.py', K+'linearKernel.py', K+'periodicKernel.py', K+'sigmoidalKernels.py', K+'changeOperators.py'],
  [('K / Kdiag', K+'linearOffsetKernel.py'), ('K / Kdiag', K+'periodicKernel.py'), ('_phi', K+'sigmoidalKernels.py'), ('K / Kdiag', K+'changeOperators.py')], None, ['Kern.K(X, X2)', 'Kern.Kdiag(X)'])

p('C19', 'Analytic gradients are the derivatives of the covariance',
  "For the linear, pure-periodic and sigmoidal kernels (with fixed or free slope, ascending or reversed), the gradient stored for every free parameter is the derivative with respect to that parameter of the sum of the given weights times the covariance, for any symmetric weights on one input set (as a likelihood gives them) and any weights on two different ones. For change kernels, the gradients of the parameters of both branches are those derivatives too. The pure-periodic limit regime of very long lengthscales, where the code documents an approximation, is excepted for the lengthscale.",
  ['inputs'], 'all inputs (also two different sets of different sizes), all weights, all parameter values outside the documented limit regime',
  'No collected test evaluates a gradient; an error shows only as slower or wrong fits.',
  [K+'linearOffsetKernel.py', K+'linearKernel.py', K+'periodicKernel.py', K+'sigmoidalKernels.py', K+'changeOperators.py'],
  [('update_gradients_full', K+'linearOffsetKernel.py'), ('update_gradients_full', K+'periodicKernel.py'), ('update_gradients_full, _update_gradients_full_S_1/_S_2/_SI', K+'sigmoidalKernels.py'), ('update_gradients_full', K+'changeOperators.py')], None, ['param.gradient after update_gradients_full'])

p('C20', 'Sigmoids and change kernels have the documented shape and live parameters',
  "An ascending sigmoid is strictly between 0 and 1, increasing, and one half at its location; an indicator is a hat peaking at exactly 1 in the middle of its window; the reversed version is one minus the plain one. A change kernel's covariance is its first branch weighted by the reversed sigmoid (or indicator) at both inputs plus its second weighted by the plain one, with the current values of its location, slope, width and of every parameter of both branches: changing any free parameter of the kernel, at any time, changes the covariance accordingly.",
  ['inputs', 'histories'], 'all inputs, parameter values, branch kernels and sequences of parameter updates',
  'No collected test evaluates a sigmoid or change kernel.',
  [K+'sigmoidalKernels.py', K+'changeOperators.py'],
  [('_phi_S, _phi_SI', K+'sigmoidalKernels.py'), ('ChangeKernelBase.__init__/parameters_changed/K/Kdiag', K+'changeOperators.py')], [('first/second/sigmoidal/sigmoidal_reverse', 'the parts of a change kernel', K+'changeOperators.py')], ['CP(k1, k2).K', 'SigmoidalKernel.phi'])

p('C21', 'The periodic kernel is purely periodic',
  "The pure periodic kernel depends only on the distance of its two inputs, repeats exactly with its period, has its variance on the diagonal and never exceeds it in absolute value, scales linearly with its variance, and has no constant part: it averages to zero over one period. This holds in each of its numerical regimes, and they agree where they meet.",
  ['inputs'], 'all inputs and all positive variances, periods and lengthscales',
  'No collected test evaluates it; the three regimes are selected by the lengthscale.',
  [K+'periodicKernel.py'], [('K, Kdiag', K+'periodicKernel.py'), ('_embi0, _embi1, _embi0min1', K+'periodicKernel.py')], None, ['PureStdPeriodicKernel.K'])

p('C22', 'Collection utilities meet their specifications',
  "De-duplication keeps the first occurrence of each element in order; difference removes one occurrence per element of the second list that is present, ignoring those that are not, and keeps the order of the rest; element equality is multiset equality; partition and grouping split a list by predicate or key keeping order; flattening and chunking concatenate back to the input; topological sorting lists every node after its dependencies or raises a ValueError on a cycle; dictionary merging combines shared keys and keeps the others; interval overlap is the length of the intersection. Except for dictionary merging none of them modifies its arguments.",
  ['inputs'], 'all finite lists (also of unhashable elements), predicates, keys and intervals',
  'Only the results of two of them are asserted, on fixed inputs.',
  [U+'genericUtil.py'], [('unique, diff, eq_elems, partition, group_by, flatten, chunk, foldq, foldq_, topological_sort, update_dict_with, interval_overlap', U+'genericUtil.py')], None, ['return values'])

p('C23', 'Flat data is read as a column and synthetic change data follows its recipe',
  "A search, a single-expression fit or a data generator given inputs as a flat sequence or array of n numbers behaves as if given the n-by-1 column of the same numbers in the same order, and leaves two-dimensional data as it is. The change-point and change-window generators use the first function strictly before the change (outside the window) and the second from it on (inside, ends included), and with alignment requested the curve is shifted so that it is continuous at each change.",
  ['inputs'], 'all flat or column inputs, all functions and change locations',
  'No collected test calls these functions.',
  [U+'dataAndPlottingUtil.py', M+'modelSearch.py', U+'modelUtil.py'], [('cp_f_maker, cw_f_maker, generate_*data', U+'dataAndPlottingUtil.py'), ('reshaping in explore_model_space / fit_kex / fit_GPy_kern', M+'modelSearch.py')], None, ['generate_changepoint_data', 'explore_model_space'])

open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
for x in P: assert len(x['title']) <= 80, x['id']
print(len(P))
