'''The sum-of-products form: the real sum_of_prods_form methods and everything they use, on nodes with any number of terms, children and factors.

A pure product stands for: variance x product of its factors. Every function is proved to keep, for every name of a base kernel or sigmoid,
exactly the parameter sets it should hold (segments of any length), and the product of the variances.'''
from proofs.exprs import *
from proofs import exprs as X
from proofs.simplify import partition_contract
from vc import engine as _e

SIGMOIDS = ['Sr', 'S', 'SIr', 'SI']
NAMES9 = BASES + SIGMOIDS
SEEDS = [['mul', [['sum', ['SE', 'PER']], ['sum', ['SE', 'LIN']]]], ['sum', [['mul', ['LIN', 'WN']], 'PER']], ['mul', ['SE', ['sum', ['SE', 'C']], ['sum', ['SE', 'WN']]]],
         ['mul', [['CP', 'SE', 'PER'], ['CW', 'LIN', 'C']]], ['CP', ['CW', 'SE', ['mul', ['SE', ['sum', ['LIN', 'WN']]]]], ['mul', ['LIN', ['CP', 'WN', 'C']]]],
         ['sum', [['mul', ['LIN', 'LIN']], ['CP', 'SE', 'SE'], ['CW', 'C', 'WN']]], ['mul', [['sum', ['LIN', 'WN']], ['sum', ['LIN', 'WN']]]],
         ['sum', ['LIN', 'LIN', 'PER', 'PER', 'SE']], ['sum', ['WN', 'C', 'SE']], ['mul', ['LIN', 'LIN', 'PER', 'SE']], ['mul', ['PER', 'PER', ['CP', 'PER', 'PER']]],
         ['mul', [['sum', ['SE', 'PER']], ['sum', ['SE', 'PER']], ['sum', ['SE', 'LIN']]]], ['CW', 'LIN', 'PER'], ['CP', ['mul', ['LIN', 'WN']], ['sum', ['C', 'SE']]],
         ['CP', ['CP', 'C', 'LIN'], ['CW', 'PER', 'WN']], ['mul', ['WN', ['CP', 'C', 'LIN']]], ['mul', [['CP', 'C', 'C'], ['CW', 'C', 'SE']]], ['sum', ['SE']], ['mul', ['SE', 'LIN', ['sum', ['C', 'PER']]]],
         ['mul', [['CP', 'WN', 'SE'], ['CP', 'SE', 'WN']]], ['sum', [['mul', ['SE', ['sum', ['PER', 'WN']]]], ['CP', 'LIN', ['sum', ['LIN', 'LIN']]]]]]
def cands(m = None): return [dict(case = 'sop', data = [s, 11 + i]) for i, s in enumerate(SEEDS)]

class Ents(Seg):
    '''n parameter sets of one kind of factor, in order'''
    def __init__(self, name, b, n, entry): self.name, self.b, self.n, self.e, self.taken = name, b, S(n), entry, 0
    def length(self): return SNum(z3.simplify(self.n))
    def comp(self, f, c, where):
        if c is not None: raise Unsupported(f'a filter on {self!r}')
        if not E.decide(self.n > 0): return []
        before = dict(self.e)
        r = E.local(lambda: f(self.e))
        if dict(self.e) != before and not same_entry(self.e, before) is True: raise Unsupported('parameter sets changed by a comprehension')
        if r is self.e: return [self]
        if isinstance(r, tuple) and len(r) == 2 and r[1] is self.e and isinstance(r[0], str): return [PairsOf(self, r[0])]
        if isinstance(r, SNum):
            for p, v in self.e.items():
                if isinstance(v, SNum) and z3.eq(z3.simplify(v.z), z3.simplify(r.z)): return [Vals(self, p)]
        raise Unsupported(f'{rp(r)} of each of {self!r}')
    def __repr__(self): return f'<{self.name} {self.b}>'
class PairsOf(Seg):
    '''(name, parameters) for each of the parameter sets'''
    def __init__(self, ents, key): self.ents, self.key = ents, key
    def length(self): return self.ents.length()
    def __repr__(self): return f'<({self.key}, {self.ents!r})>'
class Vals(Seg):
    def __init__(self, ents, p): self.ents, self.p = ents, p
    def length(self): return self.ents.length()
    def __repr__(self): return f'<{self.p} of {self.ents!r}>'

def same_entry(d, want):
    '''formula: the same parameters with the same values'''
    if not isinstance(d, dict) or set(d) != set(want): return False
    out = []
    for k in want:
        if d[k] is want[k]: continue
        if not isinstance(d[k], SNum) and not isinstance(d[k], (int, float)): return False
        a, b = _e.both(d[k], want[k]); out.append(a == b)
    return True if not out else z3.And(*out)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x

class Lazy(collections.defaultdict):
    '''A node's parameters: a name is there when its condition holds, found out on the first access to it'''
    def __init__(self, spec): super().__init__(_e.v_list); self.open = dict(spec) # name -> (condition, list)
    def find(self, k):
        try: o = self.open.pop(k, None)
        except TypeError: raise Unsupported(f'the key {rp(k)}')
        if o is not None and E.decide(o[0]): dict.__setitem__(self, k, o[1])
    def all(self):
        for k in list(self.open): self.find(k)
    def __contains__(self, k): self.find(k); return dict.__contains__(self, k)
    def __getitem__(self, k): self.find(k); return collections.defaultdict.__getitem__(self, k)
    def __setitem__(self, k, v): self.find(k); dict.__setitem__(self, k, v)
    def __delitem__(self, k): self.find(k); dict.__delitem__(self, k)
    def get(self, k, d = None): self.find(k); return dict.get(self, k, d)
    def pop(self, k, *d): self.find(k); return dict.pop(self, k, *d)
    def setdefault(self, k, d = None): self.find(k); return dict.setdefault(self, k, d)
    def keys(self): self.all(); return dict.keys(self)
    def items(self): self.all(); return dict.items(self)
    def values(self): self.all(); return dict.values(self)
    def __iter__(self): self.all(); return dict.__iter__(self)
    def __len__(self): self.all(); return dict.__len__(self)
    def __bool__(self):
        for k in list(self.open):
            if dict.__len__(self): return True
            self.find(k)
        return dict.__len__(self) > 0
    def __eq__(self, o): self.all(); return dict.__eq__(self, o)
    def clear(self): self.open.clear(); dict.clear(self)
    def copy(self): self.all(); r = collections.defaultdict(_e.v_list); dict.update(r, dict.items(self)); return r
    __copy__ = copy
    def __deepcopy__(self, memo):
        self.all(); r = collections.defaultdict(_e.v_list); memo[id(self)] = r
        for k, v in dict.items(self): dict.__setitem__(r, k, copy.deepcopy(v, memo))
        return r
    def __or__(self, o): raise Unsupported('| of parameters')
    __ror__ = __ior__ = __or__
    def state(self, k):
        '''(condition, list) without finding out'''
        if k in self.open: return self.open[k]
        return (dict.__contains__(self, k), dict.get(self, k))
def state(ps, k):
    '''(is the name there, what it holds); an empty list counts as absent'''
    c, l = ps.state(k) if isinstance(ps, Lazy) else (dict.__contains__(ps, k), dict.get(ps, k))
    if c is True and isinstance(l, list) and not (l.parts() if isinstance(l, SList) else list(l)): return (False, None)
    return c, l
def known_names(ps): return set(dict.keys(ps)) | (set(ps.open) if isinstance(ps, Lazy) else set())
def ps_of(l): return l.parts() if isinstance(l, SList) else list(l) if isinstance(l, list) else None
def parts_same(a, b):
    a, b = ps_of(a), ps_of(b)
    if a is None or b is None or len(a) != len(b): return False
    out = [True if x is y else same_entry(x, y) if isinstance(x, dict) and isinstance(y, dict) else False for x, y in zip(a, b)]
    return False if any(o is False for o in out) else z3.And(z3.BoolVal(True), *[zb(o) for o in out])

SIG_OF = {'CP': {'left': 'Sr', 'right': 'S'}, 'CW': {'left': 'SIr', 'right': 'SI'}}
PARAMS = {}
def names_table():
    import GPy_ABCD.KernelExpansion.kernelOperations as ko
    PN = ko.base_k_param_names
    PARAMS.update({b: PN[b]['parameters'] for b in BASES})
    PARAMS.update({s: PN[c]['parameters'] for c in SIG_OF for s in SIG_OF[c].values()})
def entry_of(name, b, var = False): return {p: Pos(f'{name}.{b}.{p}') if p not in ('location', 'offset') else Real(f'{name}.{b}.{p}') for p in PARAMS[b] if p != 'variance' or var}
def Pos(n): v = Real(n); E.fact(v.z > 0); return v
def ents(name, b, n, var = False): return Ents(name, b, n, entry_of(name, b, var))

def pure(name):
    '''A pure product of base kernels and sigmoids, normalised: every shape of it'''
    n = {b: E.fresh(f'{name}[{b}]', z3.IntSort()) for b in NAMES9}
    w = E.fresh(f'{name} noise parameter sets', z3.IntSort())
    E.fact(*[n[b] >= 0 for b in NAMES9], n['WN'] <= 1, n['C'] <= 1, n['SE'] <= 1, z3.Implies(n['WN'] > 0, z3.And(n['SE'] == 0, n['PER'] == 0, n['C'] == 0)),
           z3.Implies(n['C'] > 0, z3.And(n['LIN'] == 0, n['SE'] == 0, n['PER'] == 0)), z3.Sum([n[b] for b in BASES]) >= 1, w >= 1)
    lists = {b: SList([ents(name, b, n[b])]) for b in ['LIN', 'PER'] + SIGMOIDS}
    lists.update(WN = SList([ents(name, 'WN', w)]), SE = SList([entry_of(name, 'SE')]), C = SList([{}]))
    v = Pos(f'{name}.variance')
    spec = {b: (n[b] > 0, lists[b]) for b in NAMES9}
    spec['ProductKE'] = (z3.BoolVal(True), SList([{'variance': v}]))
    x = arbitrary('mul', n, SList(), parameters = Lazy(spec))
    x.__dict__['_n'], x.__dict__['_v'], x.__dict__['_lists'], x.__dict__['_w'] = n, v, {b: l.parts() for b, l in lists.items()}, w
    return x

def prove(P):
    patch_classes(); hook_counter()
    import GPy_ABCD.KernelExpressions.commutative_base as cb, GPy_ABCD.KernelExpressions.commutatives as cm, GPy_ABCD.KernelExpressions.change as ch
    import GPy_ABCD.KernelExpansion.kernelOperations as ko
    import GPy_ABCD.Models.model as mo
    cb.partition = partition_contract
    real_mul = cm.ProductKE.multiply_pure_prods_with_params
    PN = ko.base_k_param_names
    names_table()
    BRANCH = KE = cm.KernelExpression
    P.assume_note(*TREE_NOTES, 'the parameters of a fitted node are those proved for C04: every base term its own, a product the one variance of its base factors',
                  'lengthscales, periods and variances are positive reals (GPy constrains them); mathematical reals, no rounding',
                  'covariance algebra used: a product distributes over sums; a constant factor is its variance; squared-exponential factors multiply by adding 1/l^2; white noise times a stationary kernel which is 1 on the diagonal is white noise (one input set)',
                  'a change operator is left x Sr + right x S (change point) or left x SIr + right x SI (window) with the operator\'s own parameters: proved for C20',
                  'proof of simplification for nodes with bare string or nested homogeneous children: C06, C07')
    jobs = []
    case = cands

    def variance_of(x):
        c, l = state(x.parameters, 'ProductKE')
        if z3.is_expr(c): c = z3.is_true(z3.simplify(c))
        ps = ps_of(l) if c else None
        return ps[0]['variance'] if ps is not None and len(ps) == 1 and isinstance(ps[0], dict) and list(ps[0]) == ['variance'] else None
    def holds(tag, x, n, lists, v, c = case, merged = None):
        '''x is the normalised pure product with these numbers of parameter sets, holding exactly these lists and this overall variance'''
        ps, bt = x.parameters, x.base_terms
        W = n['WN'] > 0; rest = n['LIN'] + n['SE'] + n['PER'] > 0
        keep = {b: n[b] > 0 for b in NAMES9}
        keep.update(SE = z3.And(n['SE'] > 0, z3.Not(W)), PER = z3.And(n['PER'] > 0, z3.Not(W)), C = z3.And(n['C'] > 0, z3.Not(W), z3.Not(rest)))
        one = lambda k: z3.If(k, z3.IntVal(1), z3.IntVal(0))
        want = {b: z3.If(keep[b], n[b], z3.IntVal(0)) if b not in ('WN', 'SE', 'C') else one(keep[b]) for b in NAMES9}
        E.prove(f'{tag}: it is a pure product', not ps_of(x.composite_terms) and type(x) is cm.ProductKE, lambda m: rp(x), c)
        E.prove(f'{tag}: no other names', known_names(ps) <= set(NAMES9) | {'ProductKE'} and set(dict.keys(bt)) <= set(NAMES9), lambda m: f'{known_names(ps)} {rp(dict(bt))}', c)
        E.prove(f'{tag}: exactly the factors which matter', z3.And(*[cnt(bt, b) == want[b] for b in NAMES9]), lambda m: rp(dict(bt)), c)
        vv = variance_of(x)
        E.prove(f'{tag}: its overall variance is the product of the variances', vv is not None and (z3.BoolVal(True) if vv is v else _e.both(vv, v)[0] == _e.both(vv, v)[1]), lambda m: f'{rp(ps)}', c)
        for b in NAMES9:
            there, l = state(ps, b)
            E.prove(f'{tag}: a factor holds parameters exactly when it is there', zb(there) == keep[b] if not isinstance(there, bool) else (keep[b] if there else z3.Not(keep[b])), lambda m: f'{b}: {rp(l)}', c)
            if there is False: continue
            if not isinstance(there, bool) and not E.feasible(there): continue
            got = ps_of(l)
            if b in ('WN', 'C'): ok = got is not None and all((isinstance(e, dict) and not e) or (isinstance(e, Ents) and e.b == b and not e.e) for e in got)
            elif b == 'SE' and got is not None and len(got) == 1 and isinstance(got[0], dict) and list(got[0]) == ['lengthscale'] and merged and any(got[0]['lengthscale'] is r and vs.ents is lists['SE'][0] and len(lists['SE']) == 1 and vs.p == 'lengthscale' for vs, r in merged): ok = True
            elif b == 'SE' and got is not None and len(got) == 1 and isinstance(got[0], Ents) and got[0] is lists['SE'][0]: ok = z3.Implies(keep['SE'], got[0].n == 1)
            else: ok = parts_same(l, lists[b])
            if z3.is_expr(ok) and not isinstance(there, bool): ok = z3.Implies(there, ok)
            E.prove(f'{tag}: every factor which matters keeps exactly its own parameters', ok, lambda m: f'{b}: {rp(l)} instead of {lists[b]}', c)

    # ---- abstract pure products (children's contract)
    def a_new_bases(self, pairs): self.__dict__['added'] = self.__dict__.get('added', ()) + ((tuple(pairs) if isinstance(pairs, tuple) else pairs),); return self
    PURE = {'simplify': lambda s: s, 'extract_if_singleton': lambda s: s, 'set_parent': set_parent_contract, 'set_root': set_root_contract, 'new_bases_with_parameters': a_new_bases,
            '_set_all_parents': lambda s: s, 'simplify_base_terms': lambda s: s}
    class Group(Kids):
        def __deepcopy__(self, memo):
            if id(self) not in memo:
                d = copy.copy(self); d.copy_of = self; memo[id(self)] = d; d.reps = {}
                d.reps = {c: copy.deepcopy(y, memo) for c, y in self.reps.items()}
            return memo[id(self)]
    def group(name, least = 1, parent = None):
        k = Group(name, [Cat('mul', 'any')], nf = False, contracts = PURE)
        E.fact(k.length().z >= least)
        return k
    def a_form(x, name):
        '''what the sum-of-products form of a child is known to be: a sum of at least one pure product'''
        k = group(name)
        f = arbitrary('sum', {}, SList([k]), parent = x.__dict__.get('parent'), root = x.__dict__.get('root'))
        f.__dict__['parameters'] = collections.defaultdict(_e.v_list)
        r = k.rep(k.cats[0]); r.__dict__['parent'] = f; r.__dict__['root'] = f.__dict__['root']
        x._abs.form = k; x._abs.asked = x._abs.__dict__.get('asked', 0) + 1
        return f
    FORM = {'sum_of_prods_form': lambda s: a_form(s, f'components of {s._abs.name}'), 'set_parent': set_parent_contract, 'set_root': set_root_contract}

    # ---- merging of squared-exponential factors
    def merge(f, ps, *init):
        if init or len(ps) != 1 or not isinstance(ps[0], Vals): return None
        a, l = Pos('merged lengthscale'), Pos('next lengthscale')
        r = f(a, l)
        if not isinstance(r, SNum): raise Unsupported('a reduction to something else')
        if (ps[0].ents.b, ps[0].p) == ('SE', 'lengthscale'):
            E.prove('merging two squared-exponential factors gives the one with the added inverse squared lengthscales', z3.And(S(r) > 0, S(r) * S(r) * (S(a) * S(a) + S(l) * S(l)) == S(a) * S(a) * S(l) * S(l)), lambda m: str(r), case)
            v = Pos('merged'); E.ghost.setdefault('merged', []).append((ps[0], v)); return v
        raise Unsupported(f'a reduction over {ps[0]!r}')
    def head(l):
        '''the first parameter set of a group, told apart in the list itself'''
        for i, p in enumerate(l.parts()):
            if not isinstance(p, Seg): l[0:i + 1] = [p]; return
            if not isinstance(p, Ents): raise Unsupported(f'the first of {p!r}')
            if not E.decide(p.n > 0): continue
            first = entry_of(f'{p.name} number {p.taken}', p.b, 'variance' in p.e)
            rest = Ents(p.name, p.b, z3.simplify(p.n - 1), p.e); rest.taken = p.taken + 1
            E.ghost.setdefault('heads', []).append((p, first))
            l[0:i + 1] = [first, rest]; return
        l[0:] = []
    def index_(l, i):
        if i == 0 and isinstance(i, int):
            head(l)
            if l.parts(): return l.parts()[0]
            raise IndexError('list index out of range')
        raise Unsupported('index into an unbounded list')

    def run(f, name, function, specs = (), **kw):
        def g():
            OVERRIDE.clear(); _e.TOKENS.clear()
            for k in ('range', 'slice', 'product'): _e.HOOKS[k] = None
            _e.HOOKS.update(reduce = merge, head = head, index = index_, product = tuples)
            E.loop_specs[:] = list(specs)
            cm.ProductKE.multiply_pure_prods_with_params = staticmethod(real_mul)
            f()
        jobs.append((name, g, function, dict(max_s = 330, max_paths = 20000, **kw)))

    # ---- O1: ProductKE.new_bases_with_parameters over any list of factors
    class Pairs(Seg):
        '''Any list of (name, parameters) of pure products'''
        def __init__(self, name):
            self.name = name
            self.n = {b: E.fresh(f'{name}[{b}]', z3.IntSort()) for b in NAMES9}
            E.fact(*[self.n[b] >= 0 for b in NAMES9], z3.Sum([self.n[b] for b in BASES]) >= 1)
            self.lists = {b: SList([ents(name, b, self.n[b])]) for b in NAMES9}
            self.v = Pos(f'{name}: product of the variances')
        def length(self): raise Unsupported('number of factors')
        def __repr__(self): return f'<{self.name}>'
    class Gather(LoopSpec):
        def __init__(self, seg, loc): self.seg, self.me = seg, loc['self']
        def entry(self, loc):
            me = self.me
            if not (not dict.__len__(me.base_terms) and list(dict.keys(me.parameters)) == ['ProductKE'] and variance_of(me) is not None): raise Unsupported('another state before the factors')
            E.prove('the overall variance starts at 1', _e.zv(variance_of(me)) == 1, lambda m: rp(variance_of(me)), case)
            self.now = me.parameters['ProductKE']; self.own = list(self.now.parts()) # the same list and dictionary throughout
        def set(self, n, lists, v):
            me = self.me
            self.lists = {b: l.parts() for b, l in lists.items()}
            spec = {b: (n[b] > 0, lists[b]) for b in NAMES9}
            self.own[0]['variance'] = v
            list.__setitem__(self.now, slice(None), self.own)
            d = Lazy(spec); dict.__setitem__(d, 'ProductKE', self.now)
            me.__dict__['parameters'] = d; me.__dict__['base_terms'] = counter(n)
        def iteration(self, loc):
            self.n = {b: E.fresh(f'so far[{b}]', z3.IntSort()) for b in NAMES9}
            E.fact(*[x >= 0 for x in self.n.values()])
            self.v = Pos('variance so far')
            self.set(self.n, {b: SList([ents('so far', b, self.n[b])]) for b in NAMES9}, self.v)
            self.b = (NAMES9 + ['ProductKE'])[E.choose(10, 'name')]
            if self.b == 'ProductKE': self.e = {'variance': Pos('next variance')}
            else: self.e = entry_of('next', self.b, self.b in BASES and E.choose(2, 'with variance') == 1)
            self.was = dict(self.e)
            return (self.b, self.e)
        def preserved(self, loc):
            me, b = self.me, self.b
            ps = me.parameters
            w = variance_of(me)
            extra = self.was.get('variance')
            E.prove('the overall variance takes in the variance of the factor, once', w is not None and S(w) == (S(self.v) * S(extra) if extra is not None else S(self.v)), lambda m: rp(ps), case)
            E.prove('the factor is counted, once', z3.And(*[cnt(me.base_terms, q) == self.n[q] + int(q == b) for q in NAMES9]) if set(dict.keys(me.base_terms)) <= set(NAMES9) else False, lambda m: rp(dict(me.base_terms)), case)
            E.prove('no other names', known_names(ps) <= set(NAMES9) | {'ProductKE'}, lambda m: rp(known_names(ps)), case)
            plain = {k: v for k, v in self.was.items() if k != 'variance'}
            for q in NAMES9:
                there, l = state(ps, q)
                old = self.lists[q]
                got = ps_of(l) if l is not None else []
                if there is False: got = []
                if q == b:
                    ok = len(got) >= 1 and same_entry(got[-1], plain) if got and isinstance(got[-1], dict) else False
                    front = got[:-1]
                    f = z3.BoolVal(True) if front == old or (len(front) == len(old) and all(x is y for x, y in zip(front, old))) else self.n[q] == 0 if not front else z3.BoolVal(False)
                    E.prove('the factor\'s parameters are added, once, without its variance', z3.And(zb(there), zb(ok), f), lambda m: f'{q}: {rp(l)}', case)
                else: E.prove('the parameters of the others are left alone', zb(there) == (self.n[q] > 0) if (len(got) == len(old) and all(x is y for x, y in zip(got, old))) else z3.And(self.n[q] == 0, z3.BoolVal(not got)), lambda m: f'{q}: {rp(l)}', case)
            if 'variance' not in self.was or b == 'ProductKE': E.prove('a factor shared with other components is not changed', same_entry(self.e, self.was), lambda m: rp(self.e), case)
        def exit(self, loc):
            self.set(self.seg.n, self.seg.lists, self.seg.v)
    def gather_spec(where, seg, loc, names):
        if isinstance(seg, Pairs) and 'self' in loc: return Gather(seg, loc)
    def o1():
        x = cm.ProductKE([])
        pairs = Pairs('factors')
        st, r = E.call(x.new_bases_with_parameters, SList([pairs]))
        E.prove('it returns the product', st == 'return' and r is x, lambda m: rp(r), case)
        if st == 'return' and r is x: holds('the product of any factors', x, pairs.n, {b: l.parts() for b, l in pairs.lists.items()}, pairs.v, merged = E.ghost.get('merged'))
    run(o1, 'ProductKE.new_bases_with_parameters (any factors)', 'ProductKE.new_bases_with_parameters, ProductKE.simplify_base_terms, ProductKE.simplify_base_terms_params, SumOrProductKE.term_count', [gather_spec])
    def o1c(sig):
        def f():
            x = pure('product')
            e = entry_of('operator', sig); was = dict(e)
            n = dict(x._n); lists = {b: list(l) for b, l in x._lists.items()}
            lists[sig] = (lists[sig] if E.decide(n[sig] > 0) else []) + [was]
            n[sig] = n[sig] + 1
            st, r = E.call(x.new_bases_with_parameters, (sig, e))
            E.prove('it returns the product', st == 'return' and r is x, lambda m: rp(r), case)
            if st == 'return' and r is x: holds('a pure product with a sigmoid more', x, n, lists, x._v)
            E.prove('the operator\'s parameters are not changed', same_entry(e, was), lambda m: rp(e), case)
        return f
    for s in SIGMOIDS: run(o1c(s), f'ProductKE.new_bases_with_parameters (a pure product and {s})', 'ProductKE.new_bases_with_parameters, ProductKE.simplify_base_terms, ProductKE.simplify_base_terms_params')
    # ---- a pure product is left as it is by simplification and extraction
    def o6():
        x = pure('product')
        E.assume(z3.Sum(list(x._n.values())) >= 2)
        for what in ('simplify', 'extract_if_singleton'):
            st, r = E.call(getattr(x, what))
            E.prove(f'{what} leaves a pure product of at least two factors alone', st == 'return' and r is x, lambda m: rp(r), case)
            if st != 'return' or r is not x: return
        holds('a pure product after simplification', x, x._n, x._lists, x._v)
    run(o6, 'pure products are simplified', 'SumOrProductKE.simplify, SumOrProductKE.absorb_singletons, SumOrProductKE.absorb_homogeneous_composites, SumOrProductKE.extract_if_singleton, ProductKE.simplify_base_terms')

    # ---- O2: multiply_pure_prods_with_params
    class Factors(Kids):
        '''Any number of pure products, whose contents may be looked at'''
        def __init__(self, name): super().__init__(name, [Cat('mul', 'any')], nf = False, contracts = {'*': 'real'})
        def rep(self, cat):
            if cat not in self.reps:
                x = pure(f'{self.name}<any>'); x.__dict__['_abs'] = Abs(f'{self.name}<any>', {'*': 'real'}); x._abs.seg = self
                self.reps[cat] = x
            return self.reps[cat]
        def compcat(self, f, c, where):
            if c is not None: raise Unsupported('a filter on factors')
            if E.choose(2, 'any factor') == 1: return [PairsIn(self)]
            E.assume(self.length().z > 0)
            x = self.rep(self.cats[0])
            got = parts_of(f(x))
            all_pairs('of every factor, every parameter set is passed on, once, under its name', x, got)
            E.prove('the factors are not changed', x.parameters.keys() == {b for b in NAMES9 if E.decide(x._n[b] > 0)} | {'ProductKE'} and variance_of(x) is x._v, lambda m: rp(x.parameters), case)
            raise PathEnd
    class PairsIn(Seg):
        def __init__(self, factors): self.factors = factors
        def __repr__(self): return f'<pairs of {self.factors!r}>'
    def all_pairs(name, x, got):
        '''got is exactly the (name, parameters) pairs of the product, each once'''
        want = []
        for b, l in list(dict.items(x.parameters)) if not isinstance(x.parameters, Lazy) else list(x.parameters.items()): want += [(b, e) for e in l.parts()]
        rest, ok = list(got), True
        for b, e in want:
            hit = [i for i, g in enumerate(rest) if (isinstance(e, Seg) and isinstance(g, PairsOf) and g.ents is e and g.key == b) or (isinstance(e, dict) and isinstance(g, tuple) and g[0] == b and g[1] is e)]
            if not hit and isinstance(e, Seg) and not E.feasible(S(e.length()) > 0): continue
            if not hit: ok = False; break
            del rest[hit[0]]
        E.prove(name, ok and not rest, lambda m: f'{rp(got)} instead of {rp(want)}', case)
    def o2():
        n = {b: E.fresh(f'own[{b}]', z3.IntSort()) for b in BASES}
        kids = Kids('terms', inner_cats('mul'), nf = False, contracts = {})
        E.assume(z3.And(NF('mul', n, kids.length().z), kids.length().z >= 1))
        lists = {b: SList([ents('own', b, n[b])]) for b in BASES}
        v = Pos('own variance'); any_own = tot(n) > 0
        spec = {b: (n[b] > 0, lists[b]) for b in BASES}; spec['ProductKE'] = (any_own, SList([{'variance': v}]))
        k0 = arbitrary('mul', n, SList([kids]), parameters = Lazy(spec))
        F = Factors('factors')
        calls = []
        def record(self, pairs): calls.append((self, dict(self.parameters), dict(self.base_terms), ps_of(self.composite_terms), pairs)); return self
        OVERRIDE[(cm.ProductKE, 'new_bases_with_parameters')] = record
        st, r = E.call(real_mul, k0, SList([F]))
        ok = st == 'return' and len(calls) == 1 and r is calls[0][0] and r is not k0
        E.prove('the product is made from its factors, starting from an empty product', ok and not calls[0][1] and not calls[0][2] and not calls[0][3] and type(r) is cm.ProductKE, lambda m: rp(r), case)
        if not ok: return
        got = parts_of(calls[0][4])
        E.prove('every factor is in the product, once', sum(isinstance(g, PairsIn) for g in got) == 1 and all(g.factors is F for g in got if isinstance(g, PairsIn)), lambda m: rp(got), case)
        all_pairs('of the product\'s own base factors, every parameter set is passed on, once, under its name', k0, [g for g in got if not isinstance(g, PairsIn)])
        E.prove('the product being expanded is not changed', z3.And(*[cnt(k0.base_terms, b) == n[b] for b in BASES]) if k0.composite_terms.parts() == [kids] else False, '', case)
    run(o2, 'ProductKE.multiply_pure_prods_with_params', 'ProductKE.multiply_pure_prods_with_params')

    # ---- O3: ProductKE.sum_of_prods_form
    def node_with(kind, least_kids):
        '''a fitted node: own base terms with their parameters, any number of children'''
        n = {b: E.fresh(f'own[{b}]', z3.IntSort()) for b in BASES}
        kids = Kids('terms', [Cat(OTHER[kind], 'any'), Cat('chg', 'chg')], nf = False, contracts = FORM)
        E.assume(z3.And(NF(kind, n, kids.length().z), tot(n) + kids.length().z >= 1, kids.length().z >= least_kids))
        lists = {b: SList([ents('own', b, n[b], kind == 'sum')]) for b in BASES}
        spec = {b: (n[b] > 0, lists[b]) for b in BASES}
        if kind == 'mul': spec['ProductKE'] = (tot(n) > 0, SList([{'variance': Pos('own variance')}]))
        x = arbitrary(kind, n, SList([kids]), parameters = Lazy(spec))
        for c in kids.cats: kids.rep(c).__dict__.update(parent = x, root = x.root)
        x.__dict__.update(_n = n, _lists = {b: l.parts() for b, l in lists.items()}, _kids = kids)
        return x
    def leaf():
        n = {b: E.fresh(f'own[{b}]', z3.IntSort()) for b in BASES}
        E.assume(z3.And(NF('mul', n, z3.IntVal(0)), tot(n) >= 1))
        v = Pos('own variance')
        lists = {b: SList([ents('own', b, n[b])]) for b in BASES}
        # squared exponential and constant occur at most once: their one parameter set
        lists['SE'], lists['C'] = SList([entry_of('own', 'SE')]), SList([{}])
        spec = {b: (n[b] > 0, lists[b]) for b in BASES}; spec['ProductKE'] = (z3.BoolVal(True), SList([{'variance': v}]))
        x = arbitrary('mul', n, SList(), parameters = Lazy(spec))
        parent, root = x.parent, x.root
        old = {b: l.parts() for b, l in lists.items()}
        st, r = E.call(x.sum_of_prods_form)
        ok = st == 'return' and type(r) is cm.SumKE and not dict(+r.base_terms) and not dict(r.parameters) and len(ps_of(r.composite_terms)) == 1 and type(r.composite_terms.parts()[0]) is cm.ProductKE
        E.prove('a product of base kernels becomes a sum of the one product', ok, lambda m: rp(r), case)
        if not ok: return
        y, = r.composite_terms.parts()
        holds('the product', y, {**n, **{s: z3.IntVal(0) for s in SIGMOIDS}}, {**old, **{s: [] for s in SIGMOIDS}}, v)
        E.prove('the result stands in the same place', r.parent is parent and r.root is root and y.parent is r and y.root is root, '', case)
    run(leaf, 'ProductKE.sum_of_prods_form (base terms only)', 'ProductKE.sum_of_prods_form, SumOrProductKE.__init__, KernelExpression._new_parameters')
    class Tuples(Kids):
        '''the cartesian product of any number of lists: all tuples of one element of each; it can be gone through once'''
        def __init__(self, parts):
            super().__init__('tuples', [Cat('mul', 'any')], nf = False)
            self.parts_, self.used = parts, False
            E.fact(self.length().z >= 1) # none of the lists is empty
        def rep(self, cat):
            if cat not in self.reps: self.reps[cat] = SList([Pick(self.parts_)])
            return self.reps[cat]
    class Pick(Kids):
        def __init__(self, parts): super().__init__('one of each', [Cat('mul', 'any')], nf = False, contracts = PURE); self.parts_ = parts
    class Once:
        def __init__(self, t): self.t, self.used = t, False
        def _vc_iter(self):
            if self.used: return SList()
            self.used = True; return SList([self.t])
    def tuples(parts):
        for p in parts:
            if not (isinstance(p, Img) and isinstance(p.base, Kids) and all(isinstance(v, SList) for v in p.vals.values())): raise Unsupported(f'product of {rp(parts)}')
        return Once(Tuples(parts))
    def composite():
        x = node_with('mul', 1)
        kids, parent, root = x._kids, x.parent, x.root
        made = []
        def times(k0, ks):
            y = node('mul', f'product {len(made)}', PURE, parent = None, root = None)
            made.append((k0, ks, y)); return y
        cm.ProductKE.multiply_pure_prods_with_params = staticmethod(times)
        st, r = E.call(x.sum_of_prods_form)
        ok = st == 'return' and type(r) is cm.SumKE and not dict(+r.base_terms) and not dict(r.parameters)
        E.prove('the result is a sum of components only', ok, lambda m: rp(r), case)
        if not ok: return
        ps = ps_of(r.composite_terms)
        ok = len(ps) == 1 and isinstance(ps[0], Img) and isinstance(ps[0].base, Tuples)
        E.prove('there is one component for each choice of one component of every term', ok, lambda m: rp(ps), case)
        if not ok: return
        t = ps[0].base
        y = list(ps[0].vals.values())[0]
        hit = [m for m in made if m[2] is y]
        picks = parts_of(hit[0][1]) if hit and isinstance(hit[0][1], list) else None
        E.prove('each component is the product of the node\'s own base factors and the chosen components, each once', bool(hit) and hit[0][0] is x and picks is not None and len(picks) == 1 and isinstance(picks[0], Pick) and picks[0].parts_ is t.parts_, lambda m: rp(hit), case)
        # the lists multiplied out: the components of every child, each child once
        seen = []
        good = True
        for p in t.parts_:
            good = good and p.base is kids
            for c, l in p.vals.items(): good = good and len(l.parts()) == 1 and seg_root(as_img(l.parts()[0]).base) is kids.rep(c)._abs.__dict__.get('form'); seen.append(c)
        need = [c for c in kids.cats if E.feasible(kids.n[c] > 0)]
        E.prove('the components of every term are chosen from, each term once', good and set(need) <= set(seen) and len(seen) == len(set(seen)), lambda m: rp(t.parts_), case)
        E.prove('the result stands in the same place', r.parent is parent and r.root is root and y.__dict__.get('parent') is r and y.__dict__.get('root') is root, '', case)
    def composite_links():
        E.ghost['each_must'] = ()
        composite()
    def links_spec(where, seg, loc, names):
        if isinstance(seg, Img) and not isinstance(seg.base, Tuples) and '_set_all_parents' not in where and 'set_root' not in where: return None
        if isinstance(seg, Img): return Links(seg, where)
    class Links(LoopSpec):
        '''a loop over components which only sets their links; the same for all of them'''
        alike = True
        def __init__(self, img, where): self.img, self.where = img, where
        def take(self, loc):
            if not E.decide(_e.S_pos(self.img.length())): return None, []
            if len(self.img.vals) != 1: raise Unsupported('several kinds of components')
            self.x, = self.img.vals.values()
            self.before = snap(self.x); self.loc = {a: b for a, b in loc.items() if not a.startswith('_vc_')}
            self.me = loc.get('self'); self.me_was = shot(self.me) if self.me is not None else None
            return self.x, []
        def done(self, loc):
            changed = {a for a in set(snap(self.x)) | set(self.before) if self.x.__dict__.get(a) is not self.before.get(a)}
            if not changed <= {'parent', 'root', 'root_below'}: raise Unsupported(f'a loop over components which changes {changed}')
            if self.me is not None and not unchanged(self.me, self.me_was): raise Unsupported('a loop over components which changes the node')
    run(composite_links, 'ProductKE.sum_of_prods_form', 'ProductKE.sum_of_prods_form', [links_spec])

    # ---- O4: SumKE.sum_of_prods_form
    class Collected(Kids):
        '''the components of the children gone through'''
        def __init__(self, name, kids): super().__init__(name, [Cat('mul', 'any')], nf = False, contracts = PURE); self.kids_ = kids
    class Move(LoopSpec):
        '''part of the children gone through: the composites are theirs'''
        def __init__(self, img, loc): self.img, self.me = img, loc['self']
        def entry(self, loc):
            if ps_of(self.me.composite_terms): raise Unsupported('composites before the children are gone through')
        def iteration(self, loc):
            cats = list(self.img.vals)
            c = cats[E.choose(len(cats), 'category')]
            E.assume(self.img.number(c) > 0)
            self.form = self.img.vals[c]
            self.k = self.img.base.rep(c)._abs.form
            self.got = Collected('components so far', self.img.base)
            self.was = {a: b for a, b in shot(self.me).items() if not a.startswith('composite_terms')}
            self.me.__dict__['composite_terms'] = SList([self.got])
            return self.form
        def preserved(self, loc):
            ps = [p for p in ps_of(self.me.composite_terms) or [None] if not isinstance(p, Seg) or E.feasible(S(p.length()) > 0)]
            new = [p for p in ps if p is not self.got]
            ok = len(ps) == 2 and len(new) == 1 and isinstance(new[0], (Img, Kids)) and seg_root(as_img(new[0]).base) is self.k and set(as_img(new[0]).vals) == set(self.k.cats)
            if ok:
                y, = as_img(new[0]).vals.values()
                ok = '_abs' in y.__dict__ and not y.__dict__.get('added')
            E.prove('every component of every term becomes a component, once', ok, lambda m: rp(ps), case)
            if ok: E.prove('moved components get the node as parent, and its root', y.__dict__.get('parent') is self.me and y.__dict__.get('root') is self.me.root, lambda m: rp(y.__dict__), case)
            now = {a: b for a, b in shot(self.me).items() if not a.startswith('composite_terms')}
            E.prove('moving components leaves the node\'s own terms alone', set(now) == set(self.was) and all(now[a] is b or now[a] == b for a, b in self.was.items() if a != 'parameters'), '', case)
        def exit(self, loc):
            self.all = Collected('components of all terms', self.img.base)
            r = self.all.rep(self.all.cats[0]); r.__dict__.update(parent = self.me, root = self.me.root)
            E.ghost['collected'] = self.all
            self.me.__dict__['composite_terms'] = SList([self.all])
    class Singles(Kids):
        '''a pure product for each occurrence of a base term'''
        def __init__(self, b, n): super().__init__(f'products of one {b}', [Cat('mul', 'any')], nf = False, contracts = PURE); self.b = b; E.fact(self.length().z == n)
    class MoveBases(LoopSpec):
        '''k occurrences of b moved: its parameters are the others', the new products stand in front'''
        def __init__(self, rep, loc): self.b, self.n, self.me = rep.b, S(rep.n), loc['self']
        def entry(self, loc):
            there, l = state(self.me.parameters, self.b)
            self.src = None
            if there is False and not E.feasible(self.n > 0): return
            if not (ps_of(l) and len(ps_of(l)) == 1 and isinstance(ps_of(l)[0], Ents) and z3.eq(z3.simplify(ps_of(l)[0].n), z3.simplify(self.n))): raise Unsupported(f'another state of the parameters of {self.b}')
            self.src = ps_of(l)[0]
        def iteration(self, loc):
            me = self.me
            if self.src is None: raise PathEnd
            self.k = E.fresh('moved', z3.IntSort()); E.assume(z3.And(self.k >= 0, self.k < self.n))
            left = Ents(self.src.name, self.b, self.n - self.k, self.src.e); left.taken = 0; left.name = self.src.name + ' moved'
            self.left = left
            me.parameters[self.b] = SList([left])
            me.base_terms[self.b] = SNum(self.n - self.k)
            self.done_ = Singles(self.b, self.k)
            self.rest = me.composite_terms.parts()
            me.__dict__['composite_terms'] = SList([self.done_] + self.rest)
            self.others = {q: state(me.parameters, q) for q in known_names(me.parameters) if q != self.b}
            self.others = {q: (c, list(ps_of(l)) if l is not None else None) for q, (c, l) in self.others.items()}
            self.counts = {q: v for q, v in dict.items(me.base_terms) if q != self.b}
            self.links = (me.parent, me.root)
            return self.b
        def preserved(self, loc):
            me, b = self.me, self.b
            ps = ps_of(me.composite_terms) or []
            new = [p for p in ps if p is not self.done_ and not any(p is q for q in self.rest)]
            E.prove('one product for each occurrence of a base term', len(ps) == len(self.rest) + 2 and len(new) == 1 and type(new[0]) is cm.ProductKE and '_abs' not in new[0].__dict__, lambda m: rp(ps), case)
            if len(new) != 1 or isinstance(new[0], Seg): return
            y = new[0]
            if 'head_values' not in E.ghost: raise Unsupported('the first parameter set was not read')
            plain = {p: v for p, v in E.ghost['head_values'][0].items() if p != 'variance'}
            var = E.ghost['head_values'][0]['variance']
            holds('the product of one base term', y, {q: z3.IntVal(int(q == b)) for q in NAMES9}, {q: [plain] if q == b else [] for q in NAMES9}, var)
            E.prove('it stands in the sum', y.parent is me and y.root is me.root, '', case)
            there, l = state(me.parameters, b)
            left = ps_of(l) if l is not None and there is not False else []
            n_left = z3.Sum([z3.IntVal(0)] + [S(p.length()) if isinstance(p, Ents) else z3.IntVal(1) for p in left])
            E.prove('the occurrence is taken out of the sum, with its parameters', z3.And(cnt(me.base_terms, b) == self.n - self.k - 1, n_left == self.n - self.k - 1, z3.BoolVal(all(isinstance(p, Ents) and p.name == self.left.name for p in left) and (there is False or there is True)), z3.BoolVal(there is True) == (self.n - self.k - 1 > 0)), lambda m: f'{rp(dict(me.base_terms))} {rp(l)}', case)
            now = {q: state(me.parameters, q) for q in known_names(me.parameters) if q != b}
            ok = {q for q, (c, l) in now.items() if c is not False} == {q for q, (c, l) in self.others.items() if c is not False} and all(ps_of(l) is None or all(u is v for u, v in zip(ps_of(l), self.others[q][1])) and len(ps_of(l)) == len(self.others[q][1]) for q, (c, l) in now.items() if c is not False)
            E.prove('the other base terms are left alone', ok and {q: v for q, v in dict.items(me.base_terms) if q != b}.items() >= self.counts.items() and self.links == (me.parent, me.root), '', case)
        def exit(self, loc):
            me = self.me
            if not E.decide(self.n > 0): return
            done = Singles(self.b, self.n); E.ghost.setdefault('singles', []).append((self.b, done))
            me.__dict__['composite_terms'] = SList([done] + me.composite_terms.parts())
            r = done.rep(done.cats[0]); r.__dict__.update(parent = me, root = me.root)
            me.base_terms[self.b] = 0
            dict.pop(me.parameters, self.b, None)
            if isinstance(me.parameters, Lazy): me.parameters.open.pop(self.b, None)
    head0 = head
    def head_kept(l):
        head0(l)
        p = l.parts()
        if p and isinstance(p[0], dict) and 'head_values' not in E.ghost: E.ghost['head_values'] = [dict(p[0])]
    def sum_spec(where, seg, loc, names):
        if isinstance(seg, Rep) and 'self' in loc: return MoveBases(seg, loc)
        if isinstance(seg, Img) and isinstance(seg.base, Kids) and 'self' in loc and seg.base is loc['self'].__dict__.get('_kids'): return Move(seg, loc)
    def sums():
        _e.HOOKS['head'] = head_kept
        def index2(l, i):
            if i == 0 and isinstance(i, int):
                head_kept(l)
                if l.parts(): return l.parts()[0]
                raise IndexError('list index out of range')
            raise Unsupported('index into an unbounded list')
        _e.HOOKS['index'] = index2
        x = node_with('sum', 0)
        kids, parent, root, n = x._kids, x.parent, x.root, x._n
        if not E.decide(kids.length().z > 0): x.__dict__['composite_terms'] = SList()
        st, r = E.call(x.sum_of_prods_form)
        E.prove('it returns the sum', st == 'return' and r is x, lambda m: rp(r), case)
        if st != 'return': return
        E.prove('no base terms or parameters of its own are left', not dict(+x.base_terms) and not any(ps_of(l) for l in x.parameters.values()), lambda m: f'{rp(dict(x.base_terms))} {rp(dict(x.parameters))}', case)
        ps = [p for p in ps_of(x.composite_terms) if not isinstance(p, Seg) or E.feasible(S(p.length()) > 0)]
        singles = E.ghost.get('singles', [])
        want = [s for _, s in singles] + ([E.ghost['collected']] if E.ghost.get('collected') is not None else [])
        want = [s for s in want if E.feasible(S(s.length()) > 0)]
        roots = [seg_root(as_img(p).base) if isinstance(p, (Img, Kids)) else p for p in ps]
        E.prove('the components are those of its terms and one product for each base term, each once', len(roots) == len(want) and all(any(a is b for b in roots) for a in want), lambda m: rp(ps), case)
        E.prove('every base term is there', z3.And(*[z3.Or(n[b] == 0, z3.BoolVal(any(q == b for q, _ in singles))) for b in BASES]), '', case)
        E.prove('the result stands in the same place', x.parent is parent and x.root is root, '', case)
    run(sums, 'SumKE.sum_of_prods_form', 'SumKE.sum_of_prods_form, SumOrProductKE.new_composite, ProductKE.new_bases_with_parameters', [sum_spec, links_spec])

    # ---- O5: ChangeKE.sum_of_prods_form
    class AddSigmoid(LoopSpec):
        '''the components of a branch, all alike: each is given the same factor'''
        alike = True
        def __init__(self, img): self.img = img
        def take(self, loc):
            if not E.decide(_e.S_pos(self.img.length())): return None, []
            self.x, = self.img.vals.values()
            self.before = snap(self.x)
            return self.x, []
        def done(self, loc):
            changed = {a for a in set(snap(self.x)) | set(self.before) if self.x.__dict__.get(a) is not self.before.get(a)}
            if not changed <= {'added', 'parent', 'root', 'root_below'}: raise Unsupported(f'a loop over components which changes {changed}')
    def change_spec(where, seg, loc, names):
        if isinstance(seg, (Img, Kids)) and 'ChangeKE.sum_of_prods_form' in where: return AddSigmoid(as_img(seg))
        return links_spec(where, as_img(seg) if isinstance(seg, Kids) else seg, loc, names)
    def change(ck, right_kind):
        def f():
            def br(side, kinds):
                i = E.choose(len(kinds), side)
                if kinds[i] == 'base': return BASES[E.choose(len(BASES), side)]
                return node(kinds[i], side, FORM)
            l, r = br('left', ['base', 'sum', 'mul', 'chg']), br('right', right_kind)
            op = entry_of('operator', SIG_OF[ck]['left'])
            ps = collections.defaultdict(_e.v_list)
            ps[ck] = SList([dict(op)])
            leaves = {}
            for side, y in (('left', l), ('right', r)):
                if isinstance(y, str): leaves[side] = entry_of(side, y, True); ps[(side, y)] = SList([dict(leaves[side])])
                else: pass
            x = arbitrary('chg', None, None, CP_or_CW = ck, left = l, right = r, GPy_name = PN[ck]['name'], parameters = ps)
            for y in (l, r):
                if not isinstance(y, str): y.__dict__.update(parent = x, root = x.root)
            parent, root = x.parent, x.root
            st, v = E.call(x.sum_of_prods_form)
            ok = st == 'return' and type(v) is cm.SumKE and not dict(+v.base_terms) and not any(ps_of(q) for q in v.parameters.values())
            E.prove('the result is a sum of components only', ok, lambda m: rp(v), case)
            if not ok: return
            got = ps_of(v.composite_terms)
            got = [p for p in got if not isinstance(p, Seg) or E.feasible(S(p.length()) > 0)]
            left = list(got)
            for side, y in (('left', l), ('right', r)):
                sig = SIG_OF[ck][side]
                if isinstance(y, str):
                    mine = [p for p in left if not isinstance(p, Seg) and type(p) is cm.ProductKE and '_abs' not in p.__dict__ and dict.get(p.base_terms, sig, 0)]
                    E.prove('a base branch is one component', len(mine) == 1, lambda m: rp(got), case)
                    if len(mine) != 1: return
                    p, = mine; left.remove(p) if False else None
                    left = [q for q in left if q is not p]
                    plain = {k: w for k, w in leaves[side].items() if k != 'variance'}
                    holds('the component of a base branch', p, {q: z3.IntVal(int(q in (y, sig))) for q in NAMES9}, {q: [plain] if q == y else [op] if q == sig else [] for q in NAMES9}, leaves[side]['variance'])
                    E.prove('components stand in the result', p.parent is v and p.root is root, '', case)
                else:
                    form = y._abs.__dict__.get('form')
                    mine = [p for p in left if isinstance(p, (Img, Kids)) and seg_root(as_img(p).base) is form]
                    E.prove('every component of a branch is a component, once', len(mine) == 1 and form is not None and set(as_img(mine[0]).vals) == set(form.cats) and y._abs.asked == 1, lambda m: rp(got), case)
                    if len(mine) != 1: return
                    left = [q for q in left if q is not mine[0]]
                    p, = as_img(mine[0]).vals.values()
                    added = p.__dict__.get('added', ())
                    ok = len(added) == 1 and (isinstance(added[0], tuple) and len(added[0]) == 2 and added[0][0] == sig or isinstance(added[0], list) and len(ps_of(added[0])) == 1 and ps_of(added[0])[0][0] == sig)
                    e = (added[0] if isinstance(added[0], tuple) else ps_of(added[0])[0])[1] if ok else None
                    E.prove('each component of a branch is multiplied by the branch\'s sigmoid with the operator\'s parameters, once', zb(same_entry(e, op)) if ok else False, lambda m: rp(added), case)
                    E.prove('components stand in the result', p.__dict__.get('parent') is v and p.__dict__.get('root') is root, lambda m: f'{rp(p.__dict__.get("parent"))} {rp(p.__dict__.get("root"))}', case)
            E.prove('nothing else is a component', not left, lambda m: rp(left), case)
            E.prove('the result stands in the same place', v.parent is parent and v.root is root, lambda m: f'{rp(v.parent)} {rp(v.root)}', case)
        return f
    for ck in ('CP', 'CW'):
        for rk in (['base'], ['sum', 'mul', 'chg']): run(change(ck, rk), f'ChangeKE.sum_of_prods_form ({ck}, second branch {"base" if rk == ["base"] else "composite"})', 'ChangeKE.sum_of_prods_form, ChangeKE.add_sum_of_prods_terms, SumOrProductKE.__init__, SumOrProductKE.simplify, SumOrProductKE.set_root, SumOrProductKE._set_all_parents', [change_spec])

    # ---- the fitted model
    def model():
        log = []
        class Form: pass
        class Kex:
            def __init__(self, of = None): self.of = of
            def __deepcopy__(self, memo): return Kex(self)
            def sum_of_prods_form(self): log.append(('form', self)); return form
        form, kex, kern = Form(), Kex(), Opaque('kernel')
        def match(ker, k, *a, **kw): log.append(('match', ker, k)); return k
        old = mo.fit_ker_to_kex_with_params
        mo.fit_ker_to_kex_with_params = match
        try:
            m = object.__new__(mo.GPModel)
            fitted = E.choose(2, 'fitted') == 1
            m.__dict__.update(kernel_expression = kex, _sum_of_prods_kex = None, model = Opaque('model', kern = kern) if fitted else None)
            st, r = E.call(lambda: m.sum_of_prods_kex)
            if not fitted: E.prove('an unfitted model has no form: ValueError', st == 'raise' and type(r) is ValueError, lambda m: rp(r)); return
            ok = st == 'return' and r is form and [e[0] for e in log] == ['match', 'form'] and log[0][1] is kern and log[0][2] is log[1][1] and log[0][2].of is kex
            E.prove('the form is made from a copy of the expression with the parameters of the fitted kernel', ok, lambda m: rp(log), case)
            n = len(log)
            st, r = E.call(lambda: m.sum_of_prods_kex)
            E.prove('asking again gives the same form', st == 'return' and r is form and m.kernel_expression is kex, lambda m: rp(r), case)
        finally: mo.fit_ker_to_kex_with_params = old
    run(model, 'GPModel.sum_of_prods_kex', 'GPModel.sum_of_prods_kex')
    run(lambda: again(mo), 'GPModel.fit, then its form', 'GPModel.fit, GPModel.sum_of_prods_kex')
    P.parallel(jobs)

def again(mo, describe = False):
    '''the form after a fit, whatever was fitted and looked at before'''
    def refits(m): return [dict(case = 'interpret' if describe else 'sop', data = [s, 31 + i, 1 + i % 2]) for i, s in enumerate(SEEDS[:3] + ['SE', ['mul', ['SE', 'PER']]])]
    class Form:
        def __init__(self, kern): self.kern = kern
        def get_interpretation(self, sops = None): return self if sops is None else sops
    class Kex:
        def __init__(self): self.kern = None
        def __deepcopy__(self, memo): return Kex()
        def sum_of_prods_form(self): return Form(self.kern)
        def to_kernel(self): return Opaque('kernel')
    def match(ker, k, *a, **kw): k.kern = ker; return k
    class GPR:
        def __init__(self, X, Y, kernel, *a, **k): self.X, self.Y, self.kern = X, Y, kernel
        def optimize_restarts(self, *a, **k): pass
    old = mo.fit_ker_to_kex_with_params, mo.GPRegression
    mo.fit_ker_to_kex_with_params, mo.GPRegression = match, GPR
    try:
        m = mo.GPModel(Opaque('X'), Opaque('Y'), Kex())
        # an arbitrary state an earlier fit can have left: fitted or not, its form looked at or not, scored or not
        if E.choose(2, 'fitted before') == 1:
            m.model, m.restarts = GPR(m.X, m.Y, Opaque('earlier kernel')), 1
            if E.choose(2, 'form looked at') == 1: m._sum_of_prods_kex = Form(m.model.kern)
            if E.choose(2, 'scored') == 1: m.cached_utility_function, m.cached_utility_function_type = Opaque('score'), 'score'
        st, r = E.call(m.fit, 1)
        E.prove('fit returns', st == 'return', lambda m: rp(r), refits)
        if st != 'return': return
        st, r = E.call(m.interpret) if describe else E.call(lambda: m.sum_of_prods_kex)
        E.prove('the description is of the form of the kernel of the latest fit' if describe else 'the form is that of the kernel of the latest fit', st == 'return' and type(r) is Form and r.kern is m.model.kern, lambda m: rp(r), refits)
    finally: mo.fit_ker_to_kex_with_params, mo.GPRegression = old
