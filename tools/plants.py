PLANTS = []
def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id = id, property = property, edits = [(f'GPy_ABCD/{f}', o, n) for f, o, n in edits], needs = needs, breaks = breaks, demo = demo))
KI, KEO, GR, COM, CB, CH, MS, MO, GU = ('KernelExpansion/kernelInterpretation.py', 'KernelExpansion/kernelExpressionOperations.py', 'KernelExpansion/grammar.py', 'KernelExpressions/commutatives.py',
    'KernelExpressions/commutative_base.py', 'KernelExpressions/change.py', 'Models/modelSearch.py', 'Models/model.py', 'Util/genericUtil.py')
KEX = '''
from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
from GPy_ABCD.KernelExpansion.kernelExpressionOperations import *
from GPy_ABCD.KernelExpansion.grammar import *
'''

plant('semiline-hole', 'C01', [(KI, "            if hole['start'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'],", "            if hole['end'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'],")],
  'three hole factors (or two with overlapping holes), the later one straddling the end of the leading half-line', 'a reversed, empty interval (start after end) is reported for a hole which overlaps the previous one',
  '''
from GPy_ABCD.KernelExpansion.kernelInterpretation import sigmoids_to_intervals
r = sigmoids_to_intervals({'SIr': [{'location': 0., 'width': 4.}, {'location': -2., 'width': 5.}]})['sigmoidal_intervals']
def inside(t): return any(i.get('start', -1e9) < t < i.get('end', 1e9) for i in r)
for t in (-3., -1., 1., 3.5, 5.): check(inside(t) == (not (0 < t < 4) and not (-2 < t < 3)), (t, r))
for i in r: check('start' not in i or 'end' not in i or i['start'] < i['end'], r)
''')
plant('segment-hole', 'C01', [(KI, "    if segment['end'] > hole['start']:\n        if segment['start'] > hole['start']: res.append(segment)", "    elif segment['end'] > hole['start']:\n        if segment['start'] > hole['start']: res.append(segment)")],
  'three hole factors whose gaps contain a whole further hole', 'the part of a segment after a hole strictly inside it is dropped',
  '''
from GPy_ABCD.KernelExpansion.kernelInterpretation import sigmoids_to_intervals
r = sigmoids_to_intervals({'SIr': [{'location': 0., 'width': 1.}, {'location': 10., 'width': 1.}, {'location': 4., 'width': 2.}]})['sigmoidal_intervals']
def inside(t): return any(i.get('start', -1e9) < t < i.get('end', 1e9) for i in r)
for t in (-1., .5, 2., 5., 8., 10.5, 12.): check(inside(t) == (not (0 < t < 1) and not (10 < t < 11) and not (4 < t < 6)), (t, r))
''')
plant('periodic-lengthscales', 'C02', [(KI, "further_periodics = ['period {:.2f} and lengthscale {:.2f}'.format(p['period'], p['lengthscale']) for p in ps_by_desc_period[1:]]", "further_periodics = ['period {:.2f} and lengthscale {:.2f}'.format(p['period'], ps_by_desc_period[0]['lengthscale']) for p in ps_by_desc_period[1:]]")],
  'a product of at least two periodic terms with different lengthscales', 'the lengthscales of the modulating periodic functions are not the ones mentioned',
  KEX + '''
k = ProductKE(['PER', 'PER'])
k.set_root()
k.parameters['PER'] += [{'period': 3., 'lengthscale': 1.25}, {'period': 7., 'lengthscale': 2.75}]; k.parameters['ProductKE'] += [{'variance': 2.}]
t = k.get_interpretation()
for v in ('3.00', '1.25', '7.00', '2.75', '2.00'): check(v in t, t)
''')
plant('change-leaf-params', 'C03', [(CH, "leaf_params = [self.parameters[k][0] for k in self.parameters.keys() if isinstance(k, tuple) and k[0] == branch][0]", "leaf_params = dict([self.parameters[k][0] for k in self.parameters.keys() if isinstance(k, tuple) and k[1] == kex][0])")],
  'a change operator both of whose branches are the same bare base kernel', 'the fitted parameters of the first branch are given to the second as well',
  KEX + '''
from GPy_ABCD.KernelExpansion.kernelOperations import get_param_dict
k = ChangeKE('CP', 'PER', 'PER')._initialise()
ker = k.to_kernel(); ker.param_array[:] = range(1, len(ker.param_array) + 1)
pd = get_param_dict(ker)
k.match_up_fit_parameters(pd, '')
s = k.sum_of_prods_form()
got = sorted(v for ct in s.composite_terms for v in ct.parameters['PER'][0].values())
want = sorted(v for n, v in pd.items() if 'pure_std_periodic' in n and 'variance' not in n)
check(got == want, (got, want))
''')
plant('branch-names', 'C04', [(CH, "((isinstance(self.left, KernelExpression) and self.left.GPy_name == self.right.GPy_name) or self.left == self.right)", "self.left == self.right")],
  'a change operator with two different sums (or two different products) as branches', 'the parameters of the left branch are looked up for the right one, or missing ones are looked up',
  KEX + '''
from GPy_ABCD.KernelExpansion.kernelOperations import get_param_dict
k = ChangeKE('CW', SumKE(['PER', 'C']), SumKE(['PER', 'PER', 'C']))._initialise()
ker = k.to_kernel(); ker.param_array[:] = range(1, len(ker.param_array) + 1)
pd = get_param_dict(ker)
try: k.match_up_fit_parameters(pd, '')
except KeyError as e: check(False, e)
l, r = k.left.parameters['PER'], k.right.parameters['PER']
vals = [v for p in l + r for v in p.values()]
check(len(vals) == 9 and len(set(vals)) == 9, vals)
''')
plant('power-variances', 'C05', [(COM, "            for btk in bt_kers[1:]: btk.unlink_parameter(btk.variance)\n", "            for btk in bt_kers[1:]:\n                if btk.name != bt_kers[0].name: btk.unlink_parameter(btk.variance)\n")],
  'a product with a repeated base factor (LIN * LIN)', 'powers of one base kernel keep several interchangeable free variances',
  KEX + '''
k = ProductKE(['LIN', 'LIN', 'PER'])._initialise()
names = k.to_kernel().parameter_names_flat()
check(sum(n.endswith('variance') for n in names) == 1, list(names))
k = ProductKE(['LIN', 'LIN'])._initialise()
names = k.to_kernel().parameter_names_flat()
check(sum(n.endswith('variance') for n in names) == 1, list(names))
''')
plant('constant-factor', 'C07', [(COM, "self.base_terms['C'] = 0 if self.term_count() - base_sigmoidals_count != self.base_terms['C'] else 1", "self.base_terms['C'] = 0 if any(self.base_terms[bt] > 0 for bt in self.base_terms if bt != 'C' and bt not in base_sigmoids) else 1")],
  'a constant factor in a product whose other factors are all composite', 'the identity factor C is kept beside composite factors',
  KEX + '''
k = ProductKE(['C'], [SumKE(['PER', 'WN'])])
check('C' not in k.base_terms, repr(k))
''')
plant('noise-idempotence', 'C06', [(COM, "            self.base_terms['WN'] = 1 # It is also idempotent\n            for bt in list(self.base_terms.keys()):\n                if bt not in ['WN', 'LIN'] + list(base_sigmoids): del self.base_terms[bt]",
                                       "            self.base_terms = Counter(bt for bt in self.base_terms if bt in ['WN', 'LIN'] or bt in base_sigmoids) # It is also idempotent"),
                                  (COM, "import operator\nimport numpy as np\n", "import operator\nfrom collections import Counter\nimport numpy as np\n")],
  'noise multiplying a power of LIN (WN * LIN * LIN)', 'the multiplicity of linear factors beside noise is lost',
  KEX + '''
k = ProductKE(['WN', 'LIN', 'LIN', 'PER'])
check(k.base_terms['LIN'] == 2 and k.base_terms['WN'] == 1, repr(k))
''')
plant('absorb-live-list', 'C07', [(CB, "        homogeneous_composites = [ct for ct in self.composite_terms if isinstance(ct, type(self))] # Annoyingly less problematic than lambda-using-self filter\n        for hc in homogeneous_composites:\n",
                                       "        for hc in self.composite_terms:\n            if not isinstance(hc, type(self)): continue\n")],
  'two neighbouring nested nodes of the same kind (a sum with two sums inside)', 'the second nested node of the same kind is not flattened',
  KEX + '''
k = SumKE(['PER'], [SumKE(['LIN', 'WN']), SumKE(['LIN', 'PER'])])
check(not any(isinstance(c, SumKE) for c in k.composite_terms), repr(k))
''')
plant('add-union', 'C08', [(KEO, "            res = SumKE(+k1.base_terms + k2.base_terms, k1.composite_terms + k2.composite_terms)\n        elif isinstance(k1, ProductKE):\n            res = SumKE([], [k1, k2])", "            res = SumKE(k1.base_terms | k2.base_terms, k1.composite_terms + k2.composite_terms)\n        elif isinstance(k1, ProductKE):\n            res = SumKE([], [k1, k2])")],
  'adding two sums which share a base term that is not idempotent', 'shared base terms of the two sums are merged',
  KEX + '''
r = add(SumKE(['PER', 'LIN']), SumKE(['PER', 'WN']))
check(SumKE(['PER', 'PER', 'LIN', 'WN']) in r, r)
''')
plant('remove-equal-composites', 'C08', [(KEO, "res += [type(S)(+S.base_terms, S.composite_terms[0:cti] + S.composite_terms[(cti+1):]) for cti in range(len(S.composite_terms))]", "res += [type(S)(+S.base_terms, [ct for ct in S.composite_terms if ct != rct]) for rct in S.composite_terms]")],
  'removing a composite term which occurs twice in the node', 'all equal composite terms are removed instead of one',
  KEX + '''
k = SumKE(['PER'], [ProductKE(['LIN', 'PER']), ProductKE(['LIN', 'PER'])])
check(SumKE(['PER'], [ProductKE(['LIN', 'PER'])]) in remove_a_term(k), remove_a_term(k))
''')
plant('change-equality', 'C09', [(CH, "return type(self) == type(other) and self.CP_or_CW == other.CP_or_CW and self.left == other.left and self.right == other.right", "return type(self) == type(other) and self.CP_or_CW == other.CP_or_CW and self.left in (other.left, other.right) and self.right in (other.left, other.right)")],
  'two change operators with the same branches in the opposite order', 'mirrored change operators compare equal',
  KEX + '''
check(ChangeKE('CP', 'LIN', SumKE(['PER', 'C'])) != ChangeKE('CP', SumKE(['PER', 'C']), 'LIN'), 'mirror')
check(ChangeKE('CP', 'LIN', 'LIN') != ChangeKE('CP', 'LIN', 'PER'), 'sub')
''')
plant('eq-elems-subset', 'C09', [(CB, "self.base_terms == other.base_terms and eq_elems(self.composite_terms, other.composite_terms)", "self.base_terms == other.base_terms and len(self.composite_terms) == len(other.composite_terms) and all(ct in other.composite_terms for ct in self.composite_terms)")],
  'nodes with repeated composite terms: [A, A, B] and [A, B, B]', 'multisets of sub-expressions are compared as sets; equality is not symmetric',
  KEX + '''
A, B = ProductKE(['LIN', 'PER']), ProductKE(['LIN', 'LIN'])
check(SumKE([], [A, A, B]) != SumKE([], [A, B, B]), 'multiset')
check(SumKE(['PER'], [A, A]) != SumKE(['PER'], [A, B]) , 'set')
''')
plant('stale-parents', 'C10', [(CB, "            for hcct in hc.composite_terms: hcct.parent = self\n            self.composite_terms += hc.composite_terms\n", "            self.composite_terms += hc.composite_terms\n")],
  'an expansion whose simplification flattens a nested node holding composite terms', 'flattened sub-expressions keep the removed node as their parent',
  KEX + '''
def links(n):
    if isinstance(n, ChangeKE): cs = [c for c in (n.left, n.right) if not isinstance(c, str)]
    else: cs = n.composite_terms
    return all(c.parent is n and links(c) for c in cs)
k = SumKE(['PER'], [ProductKE([], [SumKE(['LIN', 'PER'], [ProductKE(['LIN', 'PER'])]), ChangeKE('CP', 'PER', 'LIN')])])._initialise()
check(links(k), 'source')
for r in expand(k, production_rules['All']): check(links(r) and r.parent is None and r.root is r, repr(r))
k2 = SumKE(['PER'], [SumKE(['LIN'], [ChangeKE('CP', 'PER', 'LIN')])])
k2.simplify()
check(links(k2), repr(k2))
r = standardise_singleton_root(SumKE(['PER'], [ProductKE(['WN'], [SumKE(['LIN'], [ProductKE(['LIN', 'PER'])])])]).set_root())
''')
plant('root-stand-in', 'C11', [(GR, "def expand(k_expr, p_rules): return unique(roots(flatten([expand_node(kex, p_rules) for kex in k_expr.traverse()])))", "def expand(k_expr, p_rules): return unique(roots(flatten([expand_node(kex, p_rules) for kex in unique(k_expr.traverse())])))")],
  'a tree with two equal sub-expressions at different places (PER * (LIN + C), twice)', 'only the first of equal sub-expressions is expanded',
  KEX + '''
A = ProductKE(['LIN', 'PER'])
k = SumKE([], [ProductKE(['WN', 'LIN'], [SumKE(['PER'], [A])]), A])._initialise()
rs = expand(k, [plus_base])
check(SumKE(['WN'], [ProductKE(['WN', 'LIN'], [SumKE(['PER'], [A])]), A]) in rs, 'root')
k = ChangeKE('CP', 'PER', 'PER')._initialise()
rs = expand(k, [plus_base])
check(ChangeKE('CP', SumKE(['PER', 'WN']), 'PER') in rs and ChangeKE('CP', 'PER', SumKE(['PER', 'WN'])) in rs, rs)
''')
plant('constant-singleton', 'C11', [(GR, "return [deep_apply(replace_node, S, SumKE([B])) for B in base_kerns_for_prod]", "return [deep_apply(replace_node, S, SumKE([B])) for B in base_kerns_for_prod if not S.contains_base(B)]")],
  'the replace_with_singleton rule at a node which already contains the replacing base kernel', 'neighbours which replace a node by one of its own base terms are missing',
  KEX + '''
k = SumKE(['PER'], [ProductKE(['LIN', 'PER'])])._initialise()
rs = expand(k, [replace_with_singleton])
check(SumKE(['PER', 'LIN']) in rs and SumKE(['PER', 'PER']) in rs and SumKE(['PER']) in rs, rs)
''')
plant('bracketing', 'C12', [(COM, "return KernelExpression.bs(str(kex)) if isinstance(kex, SumKE) else str(kex)", "return KernelExpression.bs(str(kex)) if isinstance(kex, SumKE) and kex.base_terms else str(kex)")],
  'a product one of whose factors is a sum of composite terms only', 'that factor is printed without its brackets',
  KEX + '''
k = ProductKE(['PER'], [SumKE([], [ProductKE(['LIN', 'PER']), ChangeKE('CP', 'PER', 'LIN')])])
check('(' in str(k).split('CP')[0], str(k))
''')
plant('stationary-change', 'C13', [(CB, "return all([ns not in self.base_terms for ns in non_stationary_kerns]) and all([ct.is_stationary() for ct in self.composite_terms])", "return not self.contains_base(list(non_stationary_kerns))")],
  'a sum or product holding a change operator with stationary branches', 'an expression with a change operator is called stationary',
  KEX + '''
check(not SumKE(['PER'], [ChangeKE('CP', 'PER', 'WN')]).is_stationary(), 'change')
''')
SEARCH = KEX + '''
from GPy_ABCD.Models.modelSearch import *
import GPy_ABCD.Models.modelSearch as ms
class M:
    def __init__(self, kex): self.kernel_expression, self.cached_utility_function = kex, None
    def compute_utility(self, f): self.cached_utility_function = f(self); return self.cached_utility_function
calls = []
def fitter(X, Y, ks, *a):
    calls.append(list(ks)); return [M(k) for k in ks]
def score(m): return sum(map(ord, str(m.kernel_expression))) % 97 + len(str(m.kernel_expression))
'''
plant('duplicate-fits', 'C14', [(MS, "new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]", "new_k_exprs = [kex for kex in flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]]) if kex not in tested_k_exprs]")],
  'a round expanding two models with a common expansion', 'an expression is fitted twice in the same round',
  SEARCH + '''
explore_model_space([1., 2.], [1., 2.], start_kernels = ['PER', 'LIN', 'WN'], utility_function = score, rounds = 2, beam = 3, model_list_fitter = fitter, verbose = False)
ks = [k for c in calls for k in c]
for i, a in enumerate(ks): check(a not in ks[:i], a)
''')
plant('stale-order', 'C15', [(MS, "not_expanded = diff(sorted_models, expanded) # More efficient than sorting another whole list", "not_expanded = not_expanded[b:] + tested_models[-1] # More efficient than sorting another whole list")],
  'a second round whose best not-yet-expanded models come from the round just fitted', 'the not-expanded models are not best-first, so later rounds expand the wrong ones',
  SEARCH + '''
def score(m): return -len(str(m.kernel_expression)) + (sum(map(ord, str(m.kernel_expression))) % 97) / 97
s, t, k, e, n = explore_model_space([1., 2.], [1., 2.], start_kernels = ['PER', 'LIN', 'WN', 'C'], utility_function = score, rounds = 2, beam = 1, model_list_fitter = fitter, verbose = False)
left = [m for r in t[:2] for m in r if m is not e[0]]
check(e[1].cached_utility_function == min(m.cached_utility_function for m in left), [m.kernel_expression for m in e])
''')
plant('beam-mutation', 'C15', [(MS, "        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]\n", "        if (more := rounds - len(beam)) > 0: beam += [beam[-1]] * more\n        else: beam = beam[:rounds]\n")],
  'a caller who reuses a beam list shorter than the number of rounds', "the caller's list is lengthened",
  SEARCH + '''
b = [2, 1]
explore_model_space([1., 2.], [1., 2.], start_kernels = ['PER', 'LIN'], p_rules = [plus_base], utility_function = score, rounds = 4, beam = b, model_list_fitter = fitter, verbose = False)
check(b == [2, 1], b)
''')
plant('parallel-retries', 'C16', [(MS, "[(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1)", "[(X, Y, kex, restarts, optimiser) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1)")],
  'fitting in parallel processes with a number of retries other than the default', 'the requested number of retries is ignored',
  '''
import GPy_ABCD.Models.modelSearch as ms
seen = []
class P:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def starmap_async(self, f, args, c = None):
        r = [f(*a) for a in args]
        return type('R', (), {'get': lambda s: r})()
    def starmap(self, f, args, c = None): return [f(*a) for a in args]
ms.Pool = lambda *a, **k: P()
class G:
    def __init__(self, X, Y, k): self.k = k
    def fit(self, *a, **k): seen.append(self.k); raise ValueError('no')
ms.GPModel = G
warnings.simplefilter('ignore')
try: ms.fit_mods_parallel_processes([[0.]], [[0.]], ['a'], 1, 'lbfgsb', 3)
except ValueError: pass
check(len(seen) == 4, seen)
''')
plant('score-cache', 'C17', [(MO, "        self.cached_utility_function = score_f(*self._ordered_score_ps())\n        self.cached_utility_function_type = score_f.__name__\n", "        if self.cached_utility_function_type != score_f.__name__: # Skip recomputation\n            self.cached_utility_function = score_f(*self._ordered_score_ps())\n            self.cached_utility_function_type = score_f.__name__\n")],
  'scoring again after a refit, or with another function of the same name (two lambdas)', 'a stale score is returned and kept',
  '''
from GPy_ABCD.Models.model import GPModel
m = GPModel([[0.]], [[0.]])
class F:
    X = [1, 2, 3]
    def log_likelihood(self): return 5.
    def _size_transformed(self): return 2
m.model = F()
check(m.compute_utility(lambda m, ll, n, k: ll) == 5. and m.compute_utility(lambda m, ll, n, k: n) == 3 and m.cached_utility_function == 3, m.cached_utility_function)
''')
KER = '''
import numpy as np
from GPy_ABCD.Kernels.baseKernels import *
from GPy_ABCD.Kernels.baseKernels import _Sk, _Pk, _Cs, _LOk, _Lk
X = np.array([[-2.1], [-.3], [.4], [1.7], [3.2]]); X2 = np.array([[-1.], [.6], [2.2]])
def numgrad(k, p, W, A, B = None, h = 1e-6):
    v = float(p[0]); p[0] = v + h; a = (W * k.K(A, B)).sum(); p[0] = v - h; b = (W * k.K(A, B)).sum(); p[0] = v
    return (a - b) / (2 * h)
'''
plant('change-diagonal', 'C18', [('Kernels/changeOperators.py', "return self.first.Kdiag(X) * self.sigmoidal_reverse.Kdiag(X) + self.second.Kdiag(X) * self.sigmoidal.Kdiag(X)", "return self.first.Kdiag(X) + (self.second.Kdiag(X) - self.first.Kdiag(X)) * self.sigmoidal.Kdiag(X)")],
  'the diagonal of a change kernel at points near its change', 'the separately computed diagonal is not the diagonal of the full matrix',
  KER + '''
for k in (CP(PER(), LIN()), CW(LIN(), C())): check(np.allclose(k.Kdiag(X), np.diag(k.K(X))), (k.name, k.Kdiag(X), np.diag(k.K(X))))
''')
plant('indicator-slope-gradient', 'C19', [('Kernels/sigmoidalKernels.py', "dinvheight_ds = inv_height_d * (-height_arg / slope)", "dinvheight_ds = inv_height_d * (-height_arg / (2 * slope))")],
  'an indicator kernel whose slope is free', 'the slope gradient of indicator kernels is not the derivative',
  KER + '''
W = np.array([[1., .2, -.3, .5, 0.], [.2, 2., .1, 0., .4], [-.3, .1, 1., .3, .2], [.5, 0., .3, -1., .1], [0., .4, .2, .1, 1.]])
k = _Sk.SigmoidalIndicatorKernel(1, False, location = .2, slope = .7, width = 1.3)
k.update_gradients_full(W, X)
check(abs(float(k.slope.gradient[0]) - numgrad(k, k.slope, W, X)) < 1e-5, k.slope.gradient)
''')
plant('periodic-short-gradient', 'C19', [('Kernels/periodicKernel.py', "dK_dl = dInvL2_dl * self.variance * ( (cos_term - 1) * exp_term + embi0min1 - K_no_Var * embi0min1 ) / denom", "dK_dl = dInvL2_dl * self.variance * ( (cos_term - 1) * exp_term - K_no_Var * embi0min1 ) / denom")],
  'a periodic kernel with a lengthscale below about 0.516', 'the lengthscale gradient in the short-lengthscale regime misses a term',
  KER + '''
W = np.ones((5, 5))
k = _Pk.PureStdPeriodicKernel(1, 1.5, 2.1, .4)
k.update_gradients_full(W, X)
check(abs(float(k.lengthscale.gradient[0]) - numgrad(k, k.lengthscale, W, X)) < 1e-3, (k.lengthscale.gradient, numgrad(k, k.lengthscale, W, X)))
''')
plant('window-width-link', 'C20', [('Kernels/changeOperators.py', "    def parameters_changed(self):\n        super(ChangeWindowKernel, self).parameters_changed()\n        self.sigmoidal_reverse.width = self.sigmoidal.width = self.width\n", "    def parameters_changed(self):\n        super(ChangeWindowKernel, self).parameters_changed()\n        self.sigmoidal.width = self.width\n")],
  'a change window whose width is changed after construction', 'the first branch keeps the old window width',
  KER + '''
k = CW(C(), C())
k.width[:] = 3.3; k.location[:] = -.4
s = k.sigmoidal; r = 1 - s.phi(X)
check(np.allclose(k.K(X), r.reshape(-1, 1) * r.reshape(1, -1) + s.phi(X).reshape(-1, 1) * s.phi(X).reshape(1, -1)), k.K(X))
''')
plant('bessel-argument', 'C21', [('Kernels/periodicKernel.py', "            bessel0 = i0(invL2)\n            return self.variance * ((exp_term - bessel0) / (np.exp(invL2) - bessel0)) # The brackets prevent an overflow; want division first\n        else:", "            bessel0 = i0(1 / self.lengthscale)\n            return self.variance * ((exp_term - bessel0) / (np.exp(invL2) - bessel0)) # The brackets prevent an overflow; want division first\n        else:")],
  'a lengthscale other than one in the middle regime', 'the kernel has a constant part',
  KER + '''
for l in (.8, 1., 2., 5.):
    k = _Pk.PureStdPeriodicKernel(1, 1.3, 2., l)
    m = k.K(np.linspace(0, 2, 2001)[:-1, None], np.array([[0.]])).mean()
    check(abs(m) < 1e-6, (l, m))
''')
plant('toposort-mutation', 'C22', [(GU, "lambda acc, x, xs: [(a, [d for d in deps if d != x[0]]) for a, deps in xs],", "lambda acc, x, xs: [(a, deps) for a, deps in xs if x[0] not in deps or deps.remove(x[0]) is None],")],
  'a caller who keeps the dependency lists (or lists a dependency twice)', 'topological sorting empties the dependency lists it is given; a repeated dependency is called a cycle',
  '''
from GPy_ABCD.Util.genericUtil import topological_sort
g = [('a', ['b', 'c']), ('b', []), ('c', ['b'])]
check(topological_sort(g) == ['b', 'c', 'a'], 'order')
check(g == [('a', ['b', 'c']), ('b', []), ('c', ['b'])], g)
''')
plant('window-end', 'C23', [('Util/dataAndPlottingUtil.py', "        if x < cw_start or x > cw_end: return f1(x)\n", "        if not cw_start <= x < cw_end: return f1(x)\n")],
  'a data point exactly at the end of the window', 'the end of the window is generated by the outside function',
  '''
import numpy as np
from GPy_ABCD.Util.dataAndPlottingUtil import generate_changewindow_data
X, Y = generate_changewindow_data([0, 1, 2, 3, 4], lambda x: 0., lambda x: 10., 1, 3, 1, 0)
check([float(y) for y in Y[:, 0]] == [0., 10., 10., 10., 0.], Y)
''')
