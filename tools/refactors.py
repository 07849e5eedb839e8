'''Behaviour-preserving edits (development aid): every check must stay quiet on each of them. python3 tools/refactor.py [ids]'''
REFACTORS = []
def ref(id, props, edits): REFACTORS.append(dict(id = id, props = props.split(), edits = [(f'GPy_ABCD/{f}', o, n) for f, o, n in edits]))
KI, KEO, GR, COM, CB, CH, BA, MS, MO, GU, KO = ('KernelExpansion/kernelInterpretation.py', 'KernelExpansion/kernelExpressionOperations.py', 'KernelExpansion/grammar.py', 'KernelExpressions/commutatives.py',
    'KernelExpressions/commutative_base.py', 'KernelExpressions/change.py', 'KernelExpressions/base.py', 'Models/modelSearch.py', 'Models/model.py', 'Util/genericUtil.py', 'KernelExpansion/kernelOperations.py')
SK, CO, PK, LO, MU = 'Kernels/sigmoidalKernels.py', 'Kernels/changeOperators.py', 'Kernels/periodicKernel.py', 'Kernels/linearOffsetKernel.py', 'Util/modelUtil.py'

ref('intervals-rewritten', 'C01 C02', [
    (KI, '''    new_acc = []
    for a in acc:
        if 'start' not in a or 'end' not in a: intersect_semiline_hole(a, p, new_acc)
        else: intersect_segment_hole(a, p, new_acc)
    return new_acc
''', '''    pieces = []
    for interval in acc:
        is_segment = 'start' in interval and 'end' in interval
        step = intersect_segment_hole if is_segment else intersect_semiline_hole
        pieces = step(interval, p, pieces)
    return pieces
'''),
    (KI, '''def Sr_overlap(Sr_params): return min(Sr_params, key = lambda p: p['end'])

def S_overlap(S_params): return max(S_params, key = lambda p: p['start'])
''', '''def Sr_overlap(Sr_params):
    best = Sr_params[0]
    for p in Sr_params[1:]:
        if p['end'] < best['end']: best = p
    return best

def S_overlap(S_params):
    best = S_params[0]
    for p in S_params[1:]:
        if p['start'] > best['start']: best = p
    return best
'''),
    (KI, '''    interval = {'start': start['start'], 'end': end['end'], 'start_slope': start['start_slope'], 'end_slope': end['end_slope']}
    return interval if interval['end'] > interval['start'] else [] # I.e. no interval if the segments are disjoint
''', '''    if not (start['start'] < end['end']): return [] # I.e. no interval if the segments are disjoint
    return dict(start = start['start'], end = end['end'], start_slope = start['start_slope'], end_slope = end['end_slope'])
'''),
])
ref('interval-types-rewritten', 'C01 C02', [
    (KI, '''    if isinstance(interval, list): interval_type = 'SIr'
    elif 'start' not in interval: interval_type = 'Sr'
    elif 'end' not in interval: interval_type = 'S'
    else: interval_type = 'SI'
    return (interval_type, interval)''', '''    if isinstance(interval, list): return ('SIr', interval)
    has_start, has_end = 'start' in interval, 'end' in interval
    if has_start and has_end: return ('SI', interval)
    return ('S' if has_start else 'Sr', interval)'''),
    (KI, '''    for b in list(bpss.keys()):
        if b == 'S': sigmoidals[b] = S_overlap([S_interval(p) for p in check_slope(bpss[b])])
        elif b == 'Sr': sigmoidals[b] = Sr_overlap([Sr_interval(p) for p in check_slope(bpss[b])])
        elif b == 'SI': sigmoidals[b] = SI_overlap([SI_interval(p) for p in check_slope(bpss[b])])
        elif b == 'SIr': sigmoidals[b] = SIr_overlap([SIr_hole_interval(p) for p in check_slope(bpss[b])])
''', '''    handlers = {'S': (S_overlap, S_interval), 'Sr': (Sr_overlap, Sr_interval), 'SI': (SI_overlap, SI_interval), 'SIr': (SIr_overlap, SIr_hole_interval)}
    for b in list(bpss.keys()):
        if b not in handlers: continue
        overlap, to_interval = handlers[b]
        sigmoidals[b] = overlap([to_interval(p) for p in check_slope(bpss[b])])
'''),
    (KI, '''    if len(sigmoidals) > 0:
        res = simplify_sigmoidal_intervals(sigmoidals)
        bpss['sigmoidal_intervals'] = res if isinstance(res, list) else [res]
    return bpss''', '''    if not sigmoidals: return bpss
    res = simplify_sigmoidal_intervals(sigmoidals)
    if not isinstance(res, list): res = [res]
    bpss['sigmoidal_intervals'] = res
    return bpss'''),
])
ref('descriptions-rewritten', 'C02', [
    (KI, '''    ordered_ps = sorted(bps_copy.items(), key = lambda bps: base_kern_interp_order[bps[0]])
    postmodifiers = []
    for bps in ordered_ps[1:]:
        interpretation = postmodifier_interpretation(bps)
        if interpretation != '': postmodifiers.append(('; this component applies ' if bps[0] == 'sigmoidal_intervals' else ', ') + interpretation)
    return first_term_interpretation(ordered_ps[0]) + reduce(add, postmodifiers, '') + description_end
''', '''    names = order_base_kerns(list(bps_copy.keys()))
    text = first_term_interpretation((names[0], bps_copy[names[0]]))
    for b in names[1:]:
        interpretation = postmodifier_interpretation((b, bps_copy[b]))
        if not interpretation: continue
        text += ('; this component applies ' if b == 'sigmoidal_intervals' else ', ') + interpretation
    return text + description_end
'''),
    (BA, '''        description = f'The fit kernel consists of {len(sops.composite_terms)} components:'
        for ct in sops.composite_terms: description += '\\n\\t' + base_factors_interpretation(ct.parameters)
        return description
''', '''        lines = [f'The fit kernel consists of {len(sops.composite_terms)} components:']
        lines += [base_factors_interpretation(ct.parameters) for ct in sops.composite_terms]
        return '\\n\\t'.join(lines)
'''),
])
ref('operators-early-return', 'C08', [
    (KEO, '''    res = []
    if isinstance(S, SumKE) or isinstance(S, ProductKE):
        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys() if bt != B]
    elif isinstance(S, ChangeKE):
        res += [ChangeKE(S.CP_or_CW, B, S.right)] if isinstance(S.left, str) and S.left != B else []
        res += [ChangeKE(S.CP_or_CW, S.left, B)] if isinstance(S.right, str) and S.right != B else []
    else: # elif isinstance(k1, str): # This never occurs in the expansion though
        res = [B]
    return res
''', '''    if isinstance(S, (SumKE, ProductKE)):
        res = []
        for bt in (+S.base_terms).keys():
            if bt == B: continue
            res.append(type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms))
        return res
    if isinstance(S, ChangeKE):
        res = []
        if isinstance(S.left, str) and S.left != B: res.append(ChangeKE(S.CP_or_CW, B, S.right))
        if isinstance(S.right, str) and S.right != B: res.append(ChangeKE(S.CP_or_CW, S.left, B))
        return res
    return [B] # A str; this never occurs in the expansion though
'''),
    (KEO, '''    if S2 is None or S2 == S: return [ChangeKE(CP_or_CW, S, S)]
    else: return [ChangeKE(CP_or_CW, S, S2), ChangeKE(CP_or_CW, S2, S)]


def both_changes(S, S2 = None):
    res = []
    for CP_or_CW in ('CP', 'CW'):
        if S2 is None or S2 == S: res.append(ChangeKE(CP_or_CW, S, S))
        else: res += [ChangeKE(CP_or_CW, S, S2), ChangeKE(CP_or_CW, S2, S)]
    return res
''', '''    pairs = [(S, S)] if S2 is None or S2 == S else [(S, S2), (S2, S)]
    return [ChangeKE(CP_or_CW, a, b) for a, b in pairs]


def both_changes(S, S2 = None): return one_change(S, 'CP', S2) + one_change(S, 'CW', S2)
'''),
    (KEO, '''            res += [type(S)((+S.base_terms) + Counter({bt: -1}), S.composite_terms) for bt in (+S.base_terms).keys()]
            res += [type(S)(+S.base_terms, S.composite_terms[0:cti] + S.composite_terms[(cti+1):]) for cti in range(len(S.composite_terms))]
''', '''            kind, bts, cts = type(S), +S.base_terms, S.composite_terms
            res += [kind(bts - Counter([bt]), cts) for bt in bts]
            res += [kind(bts, cts[:i] + cts[i + 1:]) for i in range(len(cts))]
'''),
])
ref('add-multiply-shared', 'C08', [
    (KEO, '''    if len(pair) == 1:
        if isinstance(k1, SumKE):
            res = SumKE(+k1.base_terms + k2.base_terms, k1.composite_terms + k2.composite_terms)
        elif isinstance(k1, ProductKE):
            res = SumKE([], [k1, k2])
        elif isinstance(k1, ChangeKE):
            res = SumKE([], [k1, k2])
        else: # elif isinstance(k1, str):
            res = SumKE([k1, k2], [])
''', '''    if len(pair) == 1:
        if isinstance(k1, str): res = SumKE([k1, k2], [])
        elif isinstance(k1, SumKE): res = SumKE(+k1.base_terms + k2.base_terms, k1.composite_terms + k2.composite_terms)
        else: res = SumKE([], [k1, k2]) # Both ProductKE or both ChangeKE
'''),
    (KEO, '''                if with_nested_case:  # Also multiply the base kernel with each base_term addendum separately
                    return [res] + [SumKE(+pair[SumKE].base_terms - Counter([bt]), pair[SumKE].composite_terms + [ProductKE([pair[str], bt], [])]) for bt in pair[SumKE].base_terms.elements()]
''', '''                if with_nested_case:  # Also multiply the base kernel with each base_term addendum separately
                    base, s = pair[str], pair[SumKE]
                    nested = [res]
                    for bt in s.base_terms.elements():
                        remaining = +s.base_terms - Counter([bt])
                        nested.append(SumKE(remaining, s.composite_terms + [ProductKE([base, bt], [])]))
                    return nested
'''),
])
ref('simplify-helpers', 'C06 C07 C08 C03', [
    (COM, '''        if self.base_terms['WN'] > 1: self.base_terms['WN'] = 1
        if self.base_terms['C'] > 1: self.base_terms['C'] = 1
''', '''        for idempotent in ('WN', 'C'):
            if self.base_terms[idempotent] > 1: self.base_terms[idempotent] = 1
'''),
    (COM, '''        if self.base_terms['WN'] > 0: # WN acts as a multiplicative zero for all stationary kernels, i.e. all but LIN and sigmoids
            self.base_terms['WN'] = 1 # It is also idempotent
            for bt in list(self.base_terms.keys()):
                if bt not in ['WN', 'LIN'] + list(base_sigmoids): del self.base_terms[bt]
''', '''        if self.base_terms['WN'] >= 1: # WN acts as a multiplicative zero for all stationary kernels, i.e. all but LIN and sigmoids
            self.base_terms['WN'] = 1 # It is also idempotent
            absorbed = [bt for bt in self.base_terms if bt in ('C', 'SE', 'PER')]
            for bt in absorbed: del self.base_terms[bt]
'''),
    (CB, '''        homogeneous_composites = [ct for ct in self.composite_terms if isinstance(ct, type(self))] # Annoyingly less problematic than lambda-using-self filter
        for hc in homogeneous_composites:
            self.base_terms.update(hc.base_terms)
            self.simplify_base_terms()
            for hcct in hc.composite_terms: hcct.parent = self
            self.composite_terms += hc.composite_terms
            self.composite_terms.remove(hc)
        return self
''', '''        for hc in [ct for ct in self.composite_terms if isinstance(ct, type(self))]: # Annoyingly less problematic than lambda-using-self filter
            for hcct in hc.composite_terms: hcct.set_parent(self)
            self.composite_terms.remove(hc)
            self.composite_terms.extend(hc.composite_terms)
            self.base_terms.update(hc.base_terms)
            self.simplify_base_terms()
        return self
'''),
    (CB, '''        if sum(self.base_terms.values()) == 1 and len(self.composite_terms) == 0: return list(self.base_terms.elements())[0]
        elif sum(self.base_terms.values()) == 0 and len(self.composite_terms) == 1: return self.composite_terms[0].set_parent(self.parent)
        else: return self
''', '''        base_count, composite_count = sum(self.base_terms.values()), len(self.composite_terms)
        if (base_count, composite_count) == (1, 0): return next(self.base_terms.elements())
        if (base_count, composite_count) == (0, 1): return self.composite_terms[0].set_parent(self.parent)
        return self
'''),
])
ref('commutative-loops', 'C05 C09 C10 C11 C12 C13', [
    (CB, '''        return [self] + list(chain.from_iterable([ct.traverse() for ct in self.composite_terms]))
''', '''        res = [self]
        for ct in self.composite_terms: res += ct.traverse()
        return res
'''),
    (CB, '''        return any([bt in self.base_terms for bt in bts]) or any([ct.contains_base(bts) for ct in self.composite_terms])
''', '''        if any(bt in self.base_terms for bt in bts): return True
        return any(ct.contains_base(bts) for ct in self.composite_terms)
'''),
    (CB, '''        return all([ns not in self.base_terms for ns in non_stationary_kerns]) and all([ct.is_stationary() for ct in self.composite_terms])
''', '''        if any(ns in self.base_terms for ns in non_stationary_kerns): return False
        return not any(not ct.is_stationary() for ct in self.composite_terms)
'''),
    (CB, '''        for ct in self.composite_terms:
            ct.parent = self
            ct._set_all_parents()
        return self
''', '''        for ct in self.composite_terms: ct.set_parent(self)._set_all_parents()
        return self
'''),
    (CB, '''        return (' ' + self.symbol + ' ').join([self.bracket_if_needed(f) for f in order_base_kerns(list(self.base_terms.elements())) + self.composite_terms])
''', '''        terms = order_base_kerns(list(self.base_terms.elements()))
        terms += self.composite_terms
        return f' {self.symbol} '.join(self.bracket_if_needed(t) for t in terms)
'''),
    (COM, '''        bt_kers = [base_str_to_ker(bt) for bt in order_base_kerns(list(self.base_terms.elements()))]
        if len(bt_kers) > 1: # I.e. leave only one of the removable variance parameters (i.e. the base_terms') per product, preferring the first factor to have it
            for btk in bt_kers[1:]: btk.unlink_parameter(btk.variance)
        return reduce(operator.mul, bt_kers + [ct.to_kernel() for ct in self.composite_terms])
''', '''        kernels = [base_str_to_ker(bt) for bt in order_base_kerns(list(self.base_terms.elements()))]
        for extra in kernels[1:]: extra.unlink_parameter(extra.variance) # I.e. leave only one of the removable variance parameters (i.e. the base_terms') per product, preferring the first factor to have it
        kernels += [ct.to_kernel() for ct in self.composite_terms]
        return reduce(lambda a, b: a * b, kernels)
'''),
])
ref('change-loops', 'C03 C04 C05 C06 C09 C10 C11 C12 C13', [
    (CH, '''        if isinstance(self.left, KernelExpression): self.left = self.left.simplify().extract_if_singleton()
        if isinstance(self.right, KernelExpression): self.right = self.right.simplify().extract_if_singleton()
        return self
''', '''        def simplified(branch): return branch.simplify().extract_if_singleton() if isinstance(branch, KernelExpression) else branch
        self.left, self.right = simplified(self.left), simplified(self.right)
        return self
'''),
    (CH, '''        self.root = new_root
        if isinstance(self.left, KernelExpression): self.left.set_root(new_root)
        if isinstance(self.right, KernelExpression): self.right.set_root(new_root)
        return self
''', '''        self.root = new_root
        for branch in (self.left, self.right):
            if isinstance(branch, KernelExpression): branch.set_root(new_root)
        return self
'''),
    (CH, '''        if isinstance(self.left, KernelExpression):
            self.left.parent = self
            self.left._set_all_parents()
        if isinstance(self.right, KernelExpression):
            self.right.parent = self
            self.right._set_all_parents()
        return self
''', '''        for branch in (self.left, self.right):
            if not isinstance(branch, KernelExpression): continue
            branch.parent = self
            branch._set_all_parents()
        return self
'''),
    (CH, '''        left_ker = self.left.to_kernel() if isinstance(self.left, KernelExpression) else base_str_to_ker(self.left)
        right_ker = self.right.to_kernel() if isinstance(self.right, KernelExpression) else base_str_to_ker(self.right)
        return base_str_to_ker_func[self.CP_or_CW](left_ker, right_ker)
''', '''        kers = [b.to_kernel() if isinstance(b, KernelExpression) else base_str_to_ker(b) for b in (self.left, self.right)]
        return base_str_to_ker_func[self.CP_or_CW](*kers)
'''),
    (CH, '''        return any([branch in bts if isinstance(branch, str) else branch.contains_base(bts) for branch in (self.left, self.right)])
''', '''        for branch in (self.left, self.right):
            if (branch in bts) if isinstance(branch, str) else branch.contains_base(bts): return True
        return False
'''),
    (CH, '''        return type(self) == type(other) and self.CP_or_CW == other.CP_or_CW and self.left == other.left and self.right == other.right
''', '''        if type(self) != type(other): return False
        return (self.CP_or_CW, self.left, self.right) == (other.CP_or_CW, other.left, other.right)
'''),
    (CH, '''        if self.left is old_child or (self.right is not old_child and getattr(old_child, 'change_branch', None) == 'left'): self.left = new_child # NOT A deepcopy!
        else: self.right = new_child # NOT A deepcopy! # I.e. elif self.right is old_child (or its stand-in)
''', '''        if self.left is old_child: branch = 'left'
        elif self.right is old_child: branch = 'right'
        else: branch = 'left' if getattr(old_child, 'change_branch', None) == 'left' else 'right' # I.e. its stand-in
        setattr(self, branch, new_child) # NOT A deepcopy!
'''),
])
ref('match-up-rewritten', 'C03 C04', [
    (CB, '''        seen_terms = Counter([])
        for bt in list(self.base_terms.elements()):
            seen_terms.update([bt])
            postfix = '_' + str(seen_terms[bt] - 1) + '.' if seen_terms[bt] > 1 else '.'
''', '''        seen_terms = Counter()
        for bt in list(self.base_terms.elements()):
            n = seen_terms[bt]
            seen_terms[bt] += 1
            postfix = '.' if n == 0 else f'_{n}.'
'''),
    (CB, '''            seen_terms.update([ct.GPy_name])
            postfix = '_' + str(seen_terms[ct.GPy_name] - 1) + '.' if seen_terms[ct.GPy_name] > 1 else '.'
            ct.match_up_fit_parameters(param_dict, prefix + ct.GPy_name + postfix)
''', '''            name = ct.GPy_name
            seen_terms[name] += 1
            if seen_terms[name] > 1: name += f'_{seen_terms[name] - 1}'
            ct.match_up_fit_parameters(param_dict, prefix + name + '.')
'''),
    (CH, '''        same_type_branches = type(self.left) == type(self.right) and\\
                             ((isinstance(self.left, KernelExpression) and self.left.GPy_name == self.right.GPy_name) or self.left == self.right)
''', '''        def gpy_name(kex): return kex.GPy_name if isinstance(kex, KernelExpression) else base_k_param_names[kex]['name']
        same_type_branches = gpy_name(self.left) == gpy_name(self.right)
'''),
])
ref('sop-rewritten', 'C03 C02', [
    (COM, '''        for b, ps in bpss:
            if 'variance' in ps:
                self.parameters['ProductKE'][0]['variance'] *= ps['variance']
                if b == 'ProductKE': continue
                else: del ps['variance']
            self.base_terms[b] += 1 # Not using new_base since have a simplify_base_terms later
            self.parameters[b].append(ps)
''', '''        own = self.parameters['ProductKE'][0]
        for b, ps in bpss:
            own['variance'] *= ps.pop('variance') if b != 'ProductKE' and 'variance' in ps else ps.get('variance', 1.)
            if b == 'ProductKE': continue
            self.base_terms[b] += 1 # Not using new_base since have a simplify_base_terms later
            self.parameters[b].append(ps)
'''),
    (COM, '''        for bt in self.base_terms.elements(): # Move all base_terms to composite_terms as singleton ProductKEs (prepending them to the existing composites)
            self.composite_terms.insert(0, ProductKE([]).new_bases_with_parameters((bt, self.parameters[bt][0])).set_parent(self).set_root(self.root))
            self.base_terms[bt] -= 1
            if len(self.parameters[bt]) == 1: self.parameters.pop(bt)
            else: del self.parameters[bt][0]
''', '''        singletons = [] # Move all base_terms to composite_terms as singleton ProductKEs (prepending them to the existing composites)
        for bt in list(self.base_terms.elements()):
            ps = self.parameters[bt].pop(0)
            singletons.insert(0, ProductKE([]).new_bases_with_parameters((bt, ps)).set_parent(self).set_root(self.root))
            self.base_terms[bt] -= 1
            if not self.parameters[bt]: del self.parameters[bt]
        self.composite_terms = singletons + self.composite_terms
'''),
    (CH, '''        res = None
        pair = sortOutTypePair(k1, k2)
        if len(pair) == 1:
            if isinstance(k1, ProductKE): res = SumKE([], [k1, k2])
''', '''        pair = sortOutTypePair(k1, k2)
        if type(k1) is type(k2):
            if isinstance(k1, ProductKE): res = SumKE([], [k1, k2])
'''),
])
ref('base-rewritten', 'C10 C11', [
    (BA, '''        copied_replacement, copied_self = deepcopy((replacement_node, self))
        if copied_self.is_root():
            return copied_replacement.set_parent(None).set_root()
        else:
            copied_replacement.set_parent(copied_self.parent).set_root(copied_self.root)
            return copied_replacement.parent.reassign_child(copied_self, copied_replacement)
''', '''        new, old = deepcopy((replacement_node, self))
        if old.is_root(): return new.set_parent(None).set_root()
        new.set_parent(old.parent)
        new.set_root(old.root)
        return old.parent.reassign_child(old, new)
'''),
    (BA, '''        if self.root is self:
            assert self.parent is None, 'Something went rong: ' + str(self) + ' is the root while its parent is not None but ' + str(self.parent)
            return True
        else: return False
''', '''        is_root = self.root is self
        if is_root: assert self.parent is None, f'Something went rong: {self} is the root while its parent is not None but {self.parent}'
        return is_root
'''),
    (GR, '''    simplified = k_expr_root.simplify().extract_if_singleton()
    if simplified is k_expr_root: return k_expr_root
    elif isinstance(simplified, str): return SumKE([simplified]).set_root()
    else: return standardise_singleton_root(simplified.set_parent(None).set_root())
''', '''    simplified = k_expr_root.simplify().extract_if_singleton()
    while simplified is not k_expr_root:
        if isinstance(simplified, str): return SumKE([simplified]).set_root()
        k_expr_root = simplified.set_parent(None).set_root()
        simplified = k_expr_root.simplify().extract_if_singleton()
    return k_expr_root
'''),
    (GR, '''def expand(k_expr, p_rules): return unique(roots(flatten([expand_node(kex, p_rules) for kex in k_expr.traverse()])))
''', '''def expand(k_expr, p_rules):
    expanded = []
    for kex in k_expr.traverse(): expanded += expand_node(kex, p_rules)
    return unique(roots(expanded))
'''),
])
ref('search-rewritten', 'C14 C15 C16 C17', [
    (MS, '''        new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
        tested_models.append(sorted(model_list_fitter(X, Y, new_k_exprs, restarts, optimiser, max_retries), key = score))  # tested_models[d]
''', '''        to_expand = not_expanded[:b]
        candidates = unique(flatten([expand(mod.kernel_expression, p_rules) for mod in to_expand]))
        new_k_exprs = [kex for kex in candidates if kex not in tested_k_exprs]
        new_models = model_list_fitter(X, Y, new_k_exprs, restarts, optimiser, max_retries)
        tested_models.append(sorted(new_models, key = score))  # tested_models[d]
'''),
    (MS, '''    retry = 0
    while True:
        try: return GPModel(X, Y, kex).fit(restarts, optimiser)
        except Exception as e:
            if retry < max_retries:
                retry += 1
                warn(f'Retry #{retry} (max is {max_retries}) for kernel {kex} due to error:\\n\\t{e}')
            else: raise e
''', '''    for retry in range(1, max_retries + 1):
        try: return GPModel(X, Y, kex).fit(restarts, optimiser)
        except Exception as e: warn(f'Retry #{retry} (max is {max_retries}) for kernel {kex} due to error:\\n\\t{e}')
    return GPModel(X, Y, kex).fit(restarts, optimiser)
'''),
    (MS, '''    if isinstance(beam, list) and beam and all(isinstance(x, int) for x in beam):
        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
''', '''    if isinstance(beam, list) and beam and all(isinstance(x, int) for x in beam):
        missing = rounds - len(beam)
        if missing > 0: beam = beam + [beam[-1]] * missing
        else: beam = beam[:rounds]
'''),
    (MO, '''        self.cached_utility_function = score_f(*self._ordered_score_ps())
        self.cached_utility_function_type = score_f.__name__
        return self.cached_utility_function
''', '''        utility = score_f(self.model, self._ll(), self._n(), self._k())
        self.cached_utility_function, self.cached_utility_function_type = utility, score_f.__name__
        return utility
'''),
])
ref('generic-rewritten', 'C22 C09 C14 C06', [
    (GU, '''    acc = ([],[])
    for x in xs: acc[not p(x)].append(x)
    return acc
''', '''    yes, no = [], []
    for x in xs: (yes if p(x) else no).append(x)
    return yes, no
'''),
    (GU, '''    seen = [] # Note: 'in' tests x is z or x == z, hence it works with __eq__ overloading
    return [x for x in xs if x not in seen and not seen.append(x)] # Neat short-circuit 'and' trick
''', '''    seen = [] # Note: 'in' tests x is z or x == z, hence it works with __eq__ overloading
    for x in xs:
        if x not in seen: seen.append(x)
    return seen
'''),
    (GU, '''    cys = list(ys) # make a mutable copy
    try:
        for x in xs: cys.remove(x)
    except ValueError: return False
    return not cys
''', '''    remaining = list(ys) # make a mutable copy
    for x in xs:
        if x not in remaining: return False
        remaining.remove(x)
    return len(remaining) == 0
'''),
    (GU, '''    for y in ys:
        try: cxs.remove(y)
        except ValueError: pass # Ignore this y, but still remove the following ones
    return cxs
''', '''    for y in ys:
        if y in cxs: cxs.remove(y)
    return cxs
'''),
    (GU, '''    acc, xs = foldq(f, g, c, xs, acc)
    if xs: raise ValueError('No suitable next element found for given condition while elements remain')
    else: return acc
''', '''    result, leftover = foldq(f, g, c, xs, acc)
    if not leftover: return result
    raise ValueError('No suitable next element found for given condition while elements remain')
'''),
    (GU, '''def fst(ab: Tuple[_a, _b]) -> _a: return ab[0]
def snd(ab: Tuple[_a, _b]) -> _b: return ab[1]
''', '''def fst(ab: Tuple[_a, _b]) -> _a:
    a, _ = ab
    return a
def snd(ab: Tuple[_a, _b]) -> _b:
    _, b = ab
    return b
'''),
])
ref('generic-rewritten-2', 'C22 C14', [
    (GU, '''    def full_step(acc, xs): # Alternative implementation: move function content inside the while and use a 'broke' flag to trigger a continue before the raise
        for i in range(len(xs)):
            x = xs[i]
            if c(x):
                del xs[i]
                return f(acc, x), g(acc, x, xs)
        return None
    while xs:
        if (res := full_step(acc, xs)): acc, xs = res
        else: break
    return acc, xs
''', '''    while xs:
        i = next((i for i, x in enumerate(xs) if c(x)), None)
        if i is None: break
        x = xs.pop(i)
        acc, xs = f(acc, x), g(acc, x, xs)
    return acc, xs
'''),
    (GU, '''def flatten(list_of_lists: Iterable[List]) -> List: return list(chain.from_iterable(list_of_lists))
''', '''def flatten(list_of_lists: Iterable[List]) -> List: return [x for l in list_of_lists for x in l]
'''),
    (GU, '''    for k, v in d1.items(): d0[k] = f(d0[k], v) if k in d0 else v
    return d0
''', '''    for k in d1:
        if k in d0: d0[k] = f(d0[k], d1[k])
        else: d0[k] = d1[k]
    return d0
'''),
    (GU, '''    return max(0, min(a[1], b[1]) - max(a[0], b[0]))''', '''    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return max(0, hi - lo)'''),
    (GU, '''    acc = defaultdict(list)
    for x in xs: acc[f(x)].append(x)
    return acc
''', '''    groups = defaultdict(list)
    for x in xs:
        key = f(x)
        groups[key].append(x)
    return groups
'''),
])
ref('kernels-rewritten', 'C05 C18 C19 C20', [
    (SK, '''def _phi_S(location, slope, reverse, X):
    asc = _sigmoid_function((X - location) / slope)
    return 1 - asc if reverse else asc
''', '''def _phi_S(location, slope, reverse, X):
    arg = (X - location) / slope
    if reverse: return 1 - _sigmoid_function(arg)
    return _sigmoid_function(arg)
'''),
    (SK, '''    asc = _sigmoid_function((X - location) / slope)
    desc = _sigmoid_function((X - location - width) / (-slope))
    height = _core_sigmoid_function(width / (2 * slope))
    hat = (asc + desc - 1) / height
    return 1 - hat if reverse else hat
''', '''    height = _core_sigmoid_function(width / (2 * slope))
    up = _sigmoid_function((X - location) / slope)
    down = _sigmoid_function((location + width - X) / slope)
    hat = (up + down - 1) / height
    if reverse: return 1 - hat
    return hat
'''),
    (SK, '''    dphi1_dl, dphi2_dl = sig_d / (-slope), sig_d2 / (-slope)
    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
    if np.isnan(location_gradient): location_gradient = 0.0

    if not _fixed_slope:
        dphi1_ds = sig_d * (-arg / slope)
        dphi2_ds = sig_d2 * (-arg2 / slope)
''', '''    dphi1_dl, dphi2_dl = - sig_d / slope, - sig_d2 / slope
    location_gradient = variance * (dL_dK * (dphi1_dl.dot(phi2.T) + phi1.dot(dphi2_dl.T))).sum()
    if np.isnan(location_gradient): location_gradient = 0.0

    if not _fixed_slope:
        dphi1_ds = - sig_d * arg / slope
        dphi2_ds = - sig_d2 * arg2 / slope
'''),
    (CO, '''        return self.first.K(X, X2) * self.sigmoidal_reverse.K(X, X2) + self.second.K(X, X2) * self.sigmoidal.K(X, X2)
''', '''        before = self.first.K(X, X2) * self.sigmoidal_reverse.K(X, X2)
        after = self.second.K(X, X2) * self.sigmoidal.K(X, X2)
        return before + after
'''),
    (CO, '''        self.sigmoidal_reverse.location = self.sigmoidal.location = self.location
        self.sigmoidal_reverse.slope = self.sigmoidal.slope = self.slope
''', '''        for sig in (self.sigmoidal, self.sigmoidal_reverse):
            sig.location = self.location
            sig.slope = self.slope
'''),
    (LO, '''        dK_dV = (X - self.offset) * (X2 - self.offset).T
        dK_do = self.variance * (2 * self.offset - X - X2.T)
''', '''        centred, centred2 = X - self.offset, (X2 - self.offset).T
        dK_dV = centred * centred2
        dK_do = - self.variance * (centred + centred2)
'''),
])
ref('periodic-rewritten', 'C18 C19 C21', [
    (PK, '''            exp_term = np.exp(cos_term * invL2)
            bessel0 = i0(invL2)
            return self.variance * ((exp_term - bessel0) / (np.exp(invL2) - bessel0)) # The brackets prevent an overflow; want division first
        else:
            exp_term = np.exp((cos_term - 1) * invL2)
            embi0 = _embi0(invL2)
            return self.variance * ((exp_term - embi0) / (1 - embi0)) # The brackets prevent an overflow; want division first
''', '''            exp_term, offset, peak = np.exp(cos_term * invL2), i0(invL2), np.exp(invL2)
        else:
            exp_term, offset, peak = np.exp((cos_term - 1) * invL2), _embi0(invL2), 1
        return self.variance * ((exp_term - offset) / (peak - offset)) # The brackets prevent an overflow; want division first
'''),
    (PK, '''        ret = np.empty(X.shape[0])
        ret[:] = self.variance
        return ret
''', '''        return np.full(X.shape[0], self.variance[0])
'''),
    (PK, '''            dK_dp = (self.variance / self.period) * invL2 * trig_arg * sin_term * exp_term / denom

            dK_dl = dInvL2_dl * self.variance * ( (cos_term * exp_term - bessel1) - K_no_Var * (eInvL2 - bessel1) ) / denom
''', '''            scale = self.variance / denom
            dK_dp = scale * (invL2 / self.period) * trig_arg * sin_term * exp_term

            dK_dl = scale * dInvL2_dl * (cos_term * exp_term - bessel1 - K_no_Var * (eInvL2 - bessel1))
'''),
])
ref('models-rewritten', 'C17 C23 C16', [
    (MU, '''def BIC(m, ll, n, k): return -2 * ll + k * np.log(n)
def AIC(m, ll, n, k): return 2 * (-ll + k)
def AICc(m, ll, n, k): return 2 * (-ll + k + (k**2 + k) / (n - k - 1)) # Assumes univariate model linear in its parameters and with normally-distributed residuals conditional upon regressors
''', '''def BIC(m, ll, n, k): return k * np.log(n) - 2 * ll
def AIC(m, ll, n, k): return 2 * k - 2 * ll
def AICc(m, ll, n, k): return AIC(m, ll, n, k) + 2 * k * (k + 1) / (n - k - 1) # Assumes univariate model linear in its parameters and with normally-distributed residuals conditional upon regressors
'''),
    (MO, '''        mean, cov = self.model.predict(X, full_cov, Y_metadata, kern, likelihood, include_likelihood)
        qs = self.model.predict_quantiles(X, quantiles, Y_metadata, kern, likelihood)
        return {'mean': mean, 'covariance': cov, 'low_quantile': qs[0], 'high_quantile': qs[1]}
''', '''        low, high = self.model.predict_quantiles(X, quantiles, Y_metadata, kern, likelihood)
        mean, cov = self.model.predict(X, full_cov, Y_metadata, kern, likelihood, include_likelihood)
        return dict(mean = mean, covariance = cov, low_quantile = low, high_quantile = high)
'''),
    (MO, '''        if restarts is None:
            if self.restarts is None: raise ValueError('No restarts value specified')
        else: self.restarts = restarts
''', '''        if restarts is not None: self.restarts = restarts
        elif self.restarts is None: raise ValueError('No restarts value specified')
'''),
])
