'''Contracts for the expression trees: nodes with any number of base terms (symbolic counts) and any number of children (segments),
children being real SumKE/ProductKE/ChangeKE objects of which only the induction hypothesis is known.

Induction: every method is proved on a node whose children are arbitrary, assuming its contract on each child (trees are finite).'''
import collections, copy, itertools
from vc.engine import *
from vc import engine as _e

BASES = ['WN', 'C', 'LIN', 'SE', 'PER']
TREE_NOTES = ['induction over the (finite) tree: a method is proved on a node assuming its contract on each child',
              'collections.Counter, list, dict and copy.deepcopy have their documented meaning (Counter runs for real on symbolic counts)',
              'a base-term count that is zero and an absent one are not told apart except by membership tests']

# ---- Counter on symbolic counts: its own Python code runs; only the C-level iteration over elements needs help
_Cu, _Ce = collections.Counter.update, collections.Counter.elements
def _update(self, iterable = None, /, **k):
    if isinstance(iterable, SList) and iterable.opaque():
        for p in iterable.parts():
            if isinstance(p, Seg):
                for b, n in p.counts().items(): self[b] = self.get(b, 0) + n
            else: self[p] = self.get(p, 0) + 1
        return
    if isinstance(iterable, collections.Counter) and sym_counts(iterable):
        for b, n in dict.items(iterable): self[b] = n + dict.get(self, b, 0)
        return
    return _Cu(self, iterable, **k)
def _elements(self):
    if any(isinstance(n, SNum) for n in self.values()): return SList([Rep(b, n) if isinstance(n, SNum) else x for b, n in self.items() for x in ([b] * n if not isinstance(n, SNum) else [b])])
    return _Ce(self)
collections.Counter.update, collections.Counter.elements = _update, _elements
def sym_counts(*cs): return any(isinstance(n, SNum) for c in cs for n in dict.values(c))
def hook_counter():
    '''Counter arithmetic on symbolic counts without a case split per name: c+, a + b, a - b keep the positive counts; a zero count is an absent one'''
    Cu = collections.Counter
    pos = lambda n: SNum(z3.simplify(z3.If(n.z > 0, n.z, z3.IntVal(0)))) if isinstance(n, SNum) else max(n, 0)
    def arith(native, op):
        def f(self, *o):
            if not (o and not isinstance(o[0], Cu)) and sym_counts(self, *o):
                keys = list(dict.fromkeys([k for c in (self, *o) for k in dict.keys(c)]))
                new = {k: pos(op(*[dict.get(c, k, 0) for c in (self, *o)])) for k in keys}
                return Cu({k: n for k, n in new.items() if isinstance(n, SNum) or n > 0})
            return native(self, *o)
        return f
    Cu.__pos__, Cu.__add__, Cu.__sub__ = arith(Cu.__pos__, lambda a: a), arith(Cu.__add__, lambda a, b: a + b), arith(Cu.__sub__, lambda a, b: a - b)
    def present(self): return SList([k for k, n in dict.items(self) if not isinstance(n, SNum) or bool(n > 0)])
    Cu.keys = lambda self: present(self) if sym_counts(self) else dict.keys(self)
    Cu.__iter__ = lambda self: iter(present(self)) if sym_counts(self) else dict.__iter__(self)
    Cu.__contains__ = _contains
    Cu.__bool__ = lambda self: any(n > 0 if isinstance(n, SNum) else True for n in dict.values(self)) if sym_counts(self) else dict.__len__(self) > 0
    Cu._vc_len = lambda self: len(present(self)) if sym_counts(self) else dict.__len__(self)
def hook_membership(): collections.Counter.__contains__ = _contains

def _contains(self, x): # membership: a zero count is an absent one
    n = dict.get(self, x)
    if isinstance(n, SNum): return bool(n > 0)
    return dict.__contains__(self, x)
class Names(Seg):
    '''Any number of names, in any order'''
    def __init__(self, name, names):
        self.name, self.n = name, {}
        for b in names: self.n[b] = E.fresh(f'#{name}[{b}]', z3.IntSort()); E.fact(self.n[b] >= 0)
    def length(self): return SNum(z3.Sum(list(self.n.values())))
    def contains(self, x): return isinstance(x, str) and x in self.n and E.decide(self.n[x] > 0)
    def comp(self, f, c, where): return Img(self, {b: b for b in self.n}).comp(f, c, where)
    def exists(self): return SBool(self.length().z > 0) # names are true
    def __repr__(self): return f'<{self.name}>'

def props():
    return E.ghost.setdefault('exists', {})
def any_over(img):
    '''Whether the value of some element is true. Elements of a category of names are all alike; of children only the (uninterpreted) value is known.'''
    if isinstance(img.base, (Names, Rep)):
        return SBool(z3.Or(*[z3.And(img.number(k) > 0, raw(v)) for k, v in img.vals.items()]))
    vals = {k: raw(v) for k, v in img.vals.items()}
    vals = {k: (v if isinstance(v, bool) else z3.simplify(v)) for k, v in vals.items()}
    parts = [img.number(k) > 0 for k, v in vals.items() if v is True or (z3.is_expr(v) and z3.is_true(v))]
    for k, v in vals.items(): # one proposition per category and statement
        if isinstance(v, bool) or z3.is_true(v) or z3.is_false(v): continue
        key = (img.base.name, k.key(), v.sexpr())
        if key not in props():
            p = props()[key] = E.fresh(f'some {img.base.name} {k.key()}: {v.sexpr()[:60]}', z3.BoolSort())
            E.fact(z3.Implies(p, img.number(k) > 0))
            neg = (img.base.name, k.key(), z3.simplify(z3.Not(v)).sexpr())
            if neg in props(): E.fact(z3.Implies(img.number(k) > 0, z3.Or(p, props()[neg])))
        parts.append(props()[key])
    return SBool(z3.Or(*parts)) if parts else False
def all_over(img):
    r = any_over(Img(img.base, {k: SBool(z3.Not(raw(v))) if not isinstance(raw(v), bool) else (not raw(v)) for k, v in img.vals.items()}))
    return SBool(z3.Not(raw(r))) if not isinstance(r, bool) else not r

class Rep(Seg):
    '''n times the base name b'''
    def __init__(self, b, n): self.b, self.n = b, n
    def length(self): return self.n
    def counts(self): return {self.b: self.n}
    def contains(self, x): return x == self.b and bool(self.n > 0)
    def first(self): return self.b
    def comp(self, f, c, where):
        if not bool(self.n > 0): return []
        ok, r = E.local(lambda: (False, None) if c is not None and not c(self.b) else (True, f(self.b)))
        if not ok: return []
        return [Rep(r, self.n)] if isinstance(r, str) else [Img(self, {self.b: r})]
    def sorted(self, xs, key, reverse):
        ps = parts_of(xs)
        if not all(isinstance(p, (Rep, str)) for p in ps): raise Unsupported('sorting an unbounded list')
        k = key or (lambda x: x)
        return SList(sorted(ps, key = lambda p: k(p.b if isinstance(p, Rep) else p), reverse = reverse)) # all alike: stable in the groups
    def __repr__(self): return f'{self.n} x {self.b}'

# ---- normal form of base terms, as terms over counts
def S(x): return x.z if isinstance(x, SNum) else z3.IntVal(x) if isinstance(x, int) else x
def cnt(counter, b):
    v = counter.get(b, 0)
    return S(v)
def NB(kind, c, others):
    '''The documented identities on the counts c of one node (others = number of composite terms)'''
    c = {b: S(c[b]) for b in BASES}; i0, i1 = z3.IntVal(0), z3.IntVal(1)
    one = lambda x: z3.If(x > 1, i1, x)
    if kind == 'sum': return {**c, 'WN': one(c['WN']), 'C': z3.If(c['LIN'] > 0, i0, one(c['C']))} if LIN_OFFSET() else {**c, 'WN': one(c['WN']), 'C': one(c['C'])}
    w = c['WN'] > 0
    rest = c['LIN'] + c['SE'] + c['PER'] + S(others)
    return {'WN': z3.If(w, i1, i0), 'LIN': c['LIN'], 'SE': z3.If(w, i0, one(c['SE'])), 'PER': z3.If(w, i0, c['PER']), 'C': z3.If(z3.Or(w, rest > 0), i0, one(c['C']))}
def LIN_OFFSET():
    import GPy_ABCD.config as config
    return bool(config.__dict__['__USE_LIN_KERNEL_HORIZONTAL_OFFSET'])
def NF(kind, c, others):
    n = NB(kind, c, others)
    return z3.And(*[z3.And(S(c[b]) >= 0, S(c[b]) == n[b]) for b in BASES])
def tot(c): return z3.Sum([S(c[b]) for b in BASES])
def counter(c): # a name known not to occur has no entry
    return collections.Counter({b: SNum(v) if z3.is_expr(v) else v for b, v in c.items() if not (z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0 if z3.is_expr(v) else isinstance(v, int) and v == 0)})

OTHER = {'sum': 'mul', 'mul': 'sum'}
def classes():
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    return {'sum': SumKE, 'mul': ProductKE, 'chg': ChangeKE}
def kind_of(x):
    for k, c in classes().items():
        if type(x) is c: return k
    raise Unsupported(f'kind of {x!r}')

# ---- abstract nodes
class Abs:
    '''What is known of an abstract node; contracts: method name -> function(node, *args)'''
    def __init__(self, name, contracts = None, **k): self.name, self.contracts, self.__dict__ = name, contracts or {}, {**self.__dict__, 'name': name, 'contracts': contracts or {}, **k}
    def __deepcopy__(self, memo): return Abs(self.name + "'", self.contracts, **{**{k: v for k, v in self.__dict__.items() if k not in ('name', 'contracts')}, 'copy_of': self})
_patched = {}
def patch_classes():
    '''Methods called on an abstract node go to its contract; on any other node to the real code.'''
    if _patched: return
    from GPy_ABCD.KernelExpressions.base import KernelExpression
    cs = classes()
    names = ['simplify', 'simplify_base_terms', 'extract_if_singleton', 'set_root', '_set_all_parents', '_check_all_parents', 'traverse', 'reduce', 'contains_base', 'is_stationary', 'to_kernel', 'set_parent', 'new_tree_with_self_replaced',
             'match_up_fit_parameters', 'sum_of_prods_form', '__eq__', '__str__', '__repr__', 'is_root', 'reassign_child', 'bracket_if_needed', '_initialise', 'term_count', 'new_bases_with_parameters', '__init__']
    for c in [KernelExpression, KernelExpression.__subclasses__()[0]] + list(cs.values()):
        for n in names:
            f = c.__dict__.get(n)
            if f is None or isinstance(f, staticmethod): continue
            _patched[(c, n)] = f
            def wrap(c, n, f):
                def g(self, *a, **k):
                    abs_ = self.__dict__.get('_abs')
                    if abs_ is not None:
                        h = abs_.contracts.get(n)
                        if h is not None: return h(self, *a, **k)
                        if n == '__eq__' and abs_.contracts.get('*') != 'real': return arbitrary_equality(self, *a)
                        if abs_.contracts.get('*') != 'real': raise Unsupported(f'{n} of the abstract node {abs_.name}')
                    h = OVERRIDE.get((c, n))
                    if h is not None: return h(self, *a, **k)
                    return f(self, *a, **k)
                g.__name__ = n; g._vc_real = f
                return g
            def bind(c, n, f):
                w = wrap(c, n, f)
                setattr(c, n, w)
            bind(c, n, f)
    def ga(self, a):
        if '_abs' in self.__dict__ and not a.startswith('__') and not a.startswith('_vc'): raise Unsupported(f'attribute {a} of the abstract node {self.__dict__["_abs"].name}')
        raise AttributeError(a)
    KernelExpression.__getattr__ = ga
    for c in cs.values():
        if c.__dict__.get('__eq__') is not None and c.__hash__ is None: pass
OVERRIDE = {}
def arbitrary_equality(x, o):
    '''Whether an arbitrary node equals something: never a name or a node of another kind, always itself, otherwise unknown (and then nothing more is known of the two).'''
    if o is x: return True
    if type(o) is not type(x) or x.__dict__.get('CP_or_CW') != o.__dict__.get('CP_or_CW'): return False
    if '_abs' not in o.__dict__: raise Unsupported(f'__eq__ of the abstract node {x._abs.name}')
    d = E.ghost.setdefault('equalities', {})
    key = tuple(sorted((id(x), id(o))))
    if key not in d: d[key] = z3.Bool(f'{x._abs.name} equals {o._abs.name}'); E.ghost.setdefault('kept', []).extend((x, o))
    return SBool(d[key])

def node(kind, name, contracts = None, **attrs):
    x = object.__new__(classes()[kind])
    x.__dict__['_abs'] = Abs(name, contracts)
    x.__dict__.update(attrs)
    return x

# ---- categories of simplified (normal-form) children
class Cat:
    '''kind: sum/mul/chg; shape: base (a single base term), single (one composite of kind sub), many (at least two terms), chg'''
    def __init__(self, kind, shape, sub = None): self.kind, self.shape, self.sub = kind, shape, sub
    def key(self): return ':'.join(x for x in (self.kind, self.shape, self.sub) if x)
    def __repr__(self): return self.key()
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, Cat) and self.key() == o.key()
def all_cats():
    out = []
    for k in ('sum', 'mul'): out += [Cat(k, 'base', b) for b in BASES] + [Cat(k, 'single', OTHER[k]), Cat(k, 'single', 'chg'), Cat(k, 'many')]
    return out + [Cat('chg', 'chg')]
CATS = all_cats()
def inner_cats(kind):
    '''What a simplified node of this kind may have as composite terms'''
    return [c for c in CATS if c.shape in ('many', 'chg') and c.kind != kind]

def nf_contents(x, cat, name, contracts = None):
    '''Give the abstract node the contents of a simplified node of the category (the induction hypothesis).'''
    k = cat.kind
    if k == 'chg': return x
    if cat.shape == 'base': c, comps, n = {b: int(b == cat.sub) for b in BASES}, SList(), 0
    elif cat.shape == 'single':
        c, n = {b: 0 for b in BASES}, 1
        sub = [y for y in inner_cats(k) if y.kind == cat.sub][0]
        g = node(cat.sub, name + '.only', dict(contracts or {}), parent = x); g._abs.cat = sub
        if 'root' in x.__dict__: g.__dict__['root'] = x.__dict__['root']
        nf_contents(g, sub, name + '.only', contracts)
        comps = SList([g])
    else:
        c = {b: E.fresh(f'{name}[{b}]', z3.IntSort()) for b in BASES}
        seg = Kids(name + '.terms', inner_cats(k))
        seg.defaults = dict(parent = x, **({'root': x.__dict__['root']} if 'root' in x.__dict__ else {}))
        n = seg.length().z
        E.fact(z3.And(NF(k, c, n), tot(c) + n >= 2))
        if cat.sub: E.fact(tot(c) == 0 if cat.sub == 'bare' else tot(c) > 0)
        comps = SList([seg])
    x.__dict__['base_terms'] = counter(c); x.__dict__['composite_terms'] = comps
    x.__dict__['symbol'] = '+' if k == 'sum' else '*'
    x._abs.counts, x._abs.ncomps = c, n
    return x

def simplify_contract(self):
    '''Returns the node itself, in normal form (of the category fixed for it).'''
    a = self._abs
    if not a.__dict__.get('nf'):
        a.nf = True
        nf_contents(self, a.cat, a.name, NFC)
    a.simplified = True
    return self
def set_parent_contract(self, p): self.__dict__['parent'] = p; return self
def set_root_contract(self, new_root = None):
    self.__dict__.update(root = self if new_root is None else new_root, root_below = True) # root_below: it reached every node below too
    self._abs.root_set = True
    return self
def extract_real(self):
    f = _patched[(type(self), 'extract_if_singleton')] if (type(self), 'extract_if_singleton') in _patched else _patched[(type(self).__mro__[1], 'extract_if_singleton')]
    return f(self)
def term_count_real(self): return _patched[(type(self).__mro__[1], 'term_count')](self)
NFC = {'simplify': lambda s: simplify_contract(s), 'extract_if_singleton': extract_real, 'set_parent': set_parent_contract, 'set_root': set_root_contract, 'term_count': term_count_real}

class Kids(Seg):
    '''Any number of children, in any order; the counts per category are unknown numbers. simplified: they are in normal form already.'''
    def __init__(self, name, cats, nf = True, contracts = None):
        self.name, self.cats, self.nf, self.contracts = name, list(cats), nf, contracts
        self.n = {}
        for c in self.cats:
            v = E.fresh(f'#{name}[{c}]', z3.IntSort()); E.fact(v >= 0); self.n[c] = v
        self.reps = {}
        self.copies = 0
    def length(self): return SNum(z3.Sum([z3.IntVal(0)] + list(self.n.values())))
    def rep(self, cat):
        '''the generic child of the category'''
        if cat not in self.reps:
            x = node(cat.kind, f'{self.name}<{cat}>', self.contracts or NFC, parent = None)
            x._abs.cat, x._abs.seg = cat, self
            x.__dict__.update(getattr(self, 'defaults', {}))
            if self.nf: x._abs.nf = True; nf_contents(x, cat, x._abs.name, NFC)
            self.reps[cat] = x
        return self.reps[cat]
    def comp(self, f, c, where): return Img(self, {k: self.rep(k) for k in self.cats}).comp(f, c, where)
    def loop_spec(self, where, loc, names): return Img(self, {k: self.rep(k) for k in self.cats}).loop_spec(where, loc, names)
    def contains(self, x): raise Unsupported(f'membership in {self!r}')
    def __repr__(self): return f'<{self.name}>'
    def __deepcopy__(self, memo):
        k = id(self)
        if k not in memo:
            d = copy.copy(self); d.reps = {}; d.copy_of = self; d.name = self.name; memo[k] = d
        return memo[k]

class Img(Seg):
    '''[value(cat of x) for x in base if its category has a value], in base order'''
    def __init__(self, base, vals): self.base, self.vals = base, vals
    def number(self, cat): return self.base.n[cat] if isinstance(self.base, (Kids, Names)) else S(self.base.length())
    def length(self): return SNum(z3.Sum([z3.IntVal(0)] + [self.number(c) for c in self.vals]))
    def counts(self):
        out = {}
        for c, v in self.vals.items():
            if not isinstance(v, str): raise Unsupported(f'{v!r} counted as a base term')
            out[v] = SNum(self.number(c)) + out.get(v, 0)
        return out
    def comp(self, f, c, where):
        out = {}
        if getattr(self.base, 'busy', False): raise Unsupported('nested iteration over the same terms')
        if isinstance(self.base, Kids): self.base.busy = True
        try: return self._comp(f, c)
        finally: self.base.busy = False
    def _comp(self, f, c):
        out = {}
        for k, v in self.vals.items():
            try:
                if c is not None:
                    keep = E.local(lambda: bool(c(v)), self.number(k) > 0)
                    if not isinstance(keep, bool): raise Unsupported('a filter which is not the same for all alike')
                    if not keep: continue
                out[k] = E.local(lambda: f(v), self.number(k) > 0)
            except PathEnd: continue # there are none of this category
        return [Img(self.base, out)] if out else []
    def loop_spec(self, where, loc, names):
        if any(isinstance(v, SList) and not (v.opaque() and any(p is self or p is self.base for p in v.segs())) for k, v in loc.items() if not k.startswith('_vc_')): return GatherSpec(self, where)
        return EachSpec(self, where)
    def contains(self, x): raise Unsupported(f'membership in {self!r}')
    def flat(self): return SList([Flat(self)])
    def exists(self): return any_over(self)
    def forall(self): return all_over(self)
    def __repr__(self): return rp(self)
    def total(self):
        out = SNum(z3.IntVal(0))
        for k, v in self.vals.items():
            if type(v) is not int: raise Unsupported(f'sum of {rp(v)} over {self.base!r}')
            if v: out = out + SNum(self.number(k)) * v
        v = z3.simplify(out.z)
        return v.as_long() if z3.is_int_value(v) else SNum(v)
    def same(self, o): return isinstance(o, Img) and o.base is self.base and list(o.vals) == list(self.vals) and all(o.vals[k] is v or (isinstance(v, str) and o.vals[k] == v) for k, v in self.vals.items())
class Flat(Seg):
    '''concatenation of list values'''
    def __init__(self, img): self.img = img
    def __repr__(self): return f'<flat {self.img!r}>'

def as_img(p): return Img(p, {k: p.rep(k) for k in p.cats}) if isinstance(p, Kids) else p

def snap(x): return {k: v for k, v in x.__dict__.items() if k != '_abs'}
class EachSpec(LoopSpec):
    '''A loop which only writes attributes of the element it is at: recorded per category, applied to all of them.'''
    def __init__(self, img, where): self.img, self.where = img, where
    def iteration(self, loc):
        ks = [k for k, v in self.img.vals.items() if not isinstance(v, str)]
        if not ks: raise PathEnd
        k = ks[E.choose(len(ks), 'category')]
        E.assume(self.img.number(k) > 0)
        if getattr(self.img.base, 'busy', False): raise Unsupported('nested iteration over the same terms')
        self.img.base.busy = True
        self.x = self.img.vals[k]; self.before = snap(self.x); self.eff = _e.effects(loc, None)
        return self.x
    def preserved(self, loc):
        grown, other = _e.effects_between(self.eff, _e.effects(loc, None))
        other = [o for o in other if o != f'local {self.target(loc)}']
        if grown or other: raise Unsupported(f'a loop over {self.img!r} which also changes {list(other)} {[rp(g[0]) for g in grown.values()]}')
        self.links(loc)
    def target(self, loc):
        return next((k for k, v in loc.items() if v is self.x and f'local {k}' in self.eff), None)
    def links(self, loc):
        now, me = snap(self.x), loc.get('self')
        changed = {a for a in set(now) | set(self.before) if now.get(a) is not self.before.get(a)}
        w = self.where.split('.')[-1].split('#')[0]
        must = E.ghost.get('each_must', ())
        E.prove(f'{w}: only links of the terms change', changed <= {'parent', 'root', 'root_below'} | set(must), f'{changed}')
        root = E.ghost['each_root'] if 'each_root' in E.ghost else me.__dict__.get('root')
        if 'parent' in changed or 'parent' in must: E.prove(f'{w}: a term gets the node as parent', now.get('parent') is me)
        if 'root' in changed or 'root' in must: E.prove(f'{w}: a term gets the root of the node', now.get('root') is (root if root is not None else self.x))
        for a in must:
            if a not in ('parent', 'root'): E.prove(f'{w}: {a} holds of every term', now.get(a) is True)
        self.changed = changed
    def exit(self, loc):
        for x in self.img.vals.values():
            if not isinstance(x, str): 
                must = E.ghost.get('each_must', ())
                x.__dict__['parent'] = loc.get('self') if not must or 'parent' in must else x.__dict__.get('parent')
                if 'root' in must: x.__dict__['root'] = E.ghost['each_root'] if 'each_root' in E.ghost else loc['self'].__dict__.get('root')
                for a in must:
                    if a not in ('parent', 'root'): x.__dict__[a] = True

class GatherSpec(EachSpec):
    """A loop which may also add to lists: the body runs once for each category, without deciding anything, and stands for all of that category"""
    alike = True
    def entry(self, loc):
        self.todo = [k for k in self.img.vals if E.feasible(self.img.number(k) > 0)]
        self.added, self.lists, self.vals = {}, {}, {}
    def take(self, loc):
        if getattr(self.img.base, 'busy', False): raise Unsupported('nested iteration over the same terms')
        self.img.base.busy = True
        return self.again(loc), []
    def again(self, loc):
        if not self.todo:
            self.img.base.busy = False
            for i, l in self.lists.items():
                out = {k: v for k, v in self.added[i].items()}
                if any(k not in out for k in self.seen_keys): # nothing of some categories
                    out.update({k: [] for k in self.seen_keys if k not in out})
                if all(len(v) == 1 and not isinstance(v[0], Seg) for v in out.values()): list.append(l, Img(self.img.base, {k: v[0] for k, v in out.items()}))
                else: list.append(l, Flat(Img(self.img.base, {k: SList(v) for k, v in out.items()})))
            return None
        self.k = self.todo.pop(0)
        self.__dict__.setdefault('seen_keys', []).append(self.k)
        self.x = self.img.vals[self.k]
        self.before = snap(self.x) if not isinstance(self.x, str) else {}
        self.eff, self.at = _e.effects(loc, None), len(E.taken)
        return self.x
    def done(self, loc):
        if any(d not in ('t', 'f') for d in E.taken[self.at:]): raise Unsupported('a loop body which decides something')
        grown, other = _e.effects_between(self.eff, _e.effects(loc, None))
        other = [o for o in other if not self.is_target(o, loc)]
        if other: raise Unsupported(f'a loop over {self.img!r} which also changes {other}')
        for i, (l, was, new) in grown.items():
            self.lists[i] = l; self.added.setdefault(i, {})[self.k] = new
            list.__setitem__(l, slice(None), was)
        if not isinstance(self.x, str): self.links(loc)
    def is_target(self, o, loc):
        return o.startswith('local ') and loc.get(o[6:]) is self.x
    def exit(self, loc): pass

# ---- concrete candidates for replay, from a model
def small_spec(cat, c = None):
    k = cat.kind
    if k == 'chg': return ['CP', 'LIN', 'PER']
    if cat.shape == 'base': return [k, [cat.sub]]
    if cat.shape == 'single': return [k, [['CW', 'PER', 'LIN'] if cat.sub == 'chg' else [cat.sub, ['LIN', 'PER']]]]
    items = [b for b in BASES for _ in range(min(3, (c or {}).get(b, 0)))] if cat.sub != 'bare' else []
    extra = [[OTHER[k], ['LIN', 'PER']], ['CW', 'PER', 'LIN']]
    while len(items) < 2: items.append(extra.pop())
    return [k, items]
def model_int(m, e):
    v = m.eval(S(e), model_completion = True)
    return v.as_long() if z3.is_int_value(v) else 0
def concretise(m, kind, counts, kids):
    items = [b for b in BASES for _ in range(min(3, max(0, model_int(m, counts[b]))))]
    for c in kids.cats:
        n = model_int(m, kids.n[c])
        x = kids.reps.get(c)
        cc = {b: model_int(m, x._abs.counts[b]) for b in BASES} if x is not None and getattr(x._abs, 'counts', None) else None
        items += [small_spec(c, cc)] * min(2, n)
    return [kind, items]

def rp(x):
    '''A description for messages (never runs code under test)'''
    if isinstance(x, (str, int, bool, type(None))): return repr(x)
    if isinstance(x, BaseException): return repr(x)
    d = getattr(x, '__dict__', {})
    if '_abs' in d: return f'<{d["_abs"].name}>'
    if 'base_terms' in d: return f'{type(x).__name__}({dict(d["base_terms"])}, {rp(d.get("composite_terms"))})'
    if isinstance(x, SList): return '[' + ', '.join(rp(y) for y in x.parts()) + ']'
    if isinstance(x, (list, tuple)): return '[' + ', '.join(map(rp, x)) + ']'
    if isinstance(x, dict): return '{' + ', '.join(f'{k}: {rp(v)}' for k, v in x.items()) + '}'
    if isinstance(x, Img): return f'<{x.base!r} as {rp(x.vals)}>'
    if isinstance(x, Seg): return repr(x)
    return type(x).__name__

KIND_CATS = [Cat('sum', 'any'), Cat('mul', 'any'), Cat('chg', 'any')]
class Above(Opaque):
    '''Some node above the one at hand: its kind is any, and is looked at only where the code asks for it'''
    def _kind(self):
        if '_is' not in self.__dict__: self.__dict__['_is'] = ['sum', 'mul', 'chg'][E.choose(3, self._vc_name)]
        return self.__dict__['_is']
    def _vc_isinstance(self, k):
        from GPy_ABCD.KernelExpressions.base import KernelExpression
        if not isinstance(k, type) or not issubclass(k, KernelExpression): return False
        if k is KernelExpression: return True
        return issubclass(classes()[self._kind()], k)
    def _vc_type(self): return classes()[self._kind()]
    def __getattr__(self, a):
        if a == 'CP_or_CW' and self._kind() == 'chg': self.__dict__[a] = ['CP', 'CW'][E.choose(2, a)]; return self.__dict__[a]
        if a == 'symbol' and self._kind() != 'chg': return {'sum': '+', 'mul': '*'}[self._kind()]
        return Opaque.__getattr__(self, a)
PLACES = 3
def place_of(x, n = PLACES):
    '''Where a node stands is any: a root, below some node, or (n = 3) not linked yet'''
    i = E.choose(n, 'place')
    x.__dict__.update([dict(root = x, parent = None), dict(root = Above('root'), parent = Above('parent')), dict(root = None, parent = None)][i])
    return x
def arbitrary(kind, counts, comps, **attrs):
    '''A real node with the given contents'''
    x = object.__new__(classes()[kind])
    d = dict(root = Above('root'), parent = Above('parent'), GPy_name = kind, parameters = collections.defaultdict(list))
    if kind != 'chg': d.update(symbol = {'sum': '+', 'mul': '*'}[kind], base_terms = counter(counts), composite_terms = comps)
    x.__dict__.update(d); x.__dict__.update(attrs)
    return x
def shot(x):
    '''Snapshot for frame obligations'''
    d = dict(x.__dict__)
    if 'base_terms' in d: d['base_terms:items'] = sorted((k, v.z.sexpr() if isinstance(v, SNum) else v) for k, v in d['base_terms'].items() if not (isinstance(v, int) and v == 0))
    if 'composite_terms' in d: d['composite_terms:items'] = d['composite_terms'].parts()
    if isinstance(d.get('parameters'), dict): d['parameters:items'] = repr(dict(d['parameters']))
    return d
def unchanged(x, before):
    now = shot(x)
    return set(now) == set(before) and all(now[k] is v or (k.endswith(':items') and (now[k] == v if not k.startswith('composite') else len(now[k]) == len(v) and all(a is b for a, b in zip(now[k], v)))) for k, v in before.items())
