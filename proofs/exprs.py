'''Expressions as contents: the contract of the constructors (simplified contents of what is given), operands of every shape, comparison of results.'''
from proofs.trees import *
from proofs import trees as T
from vc import engine as _e

K, M = z3.DeclareSort('Denotation'), z3.DeclareSort('MultisetOfDenotations')
CNAME = {'sum': 'SumKE', 'mul': 'ProductKE', 'chg': 'ChangeKE'}

class Desc:
    '''Contents of an expression: base name, or kind with counts per base and items (segments of children, descriptions)'''
    def __init__(self, kind, counts = None, items = (), what = None): self.kind, self.counts, self.items, self.what = kind, counts, list(items), what
    def __repr__(self):
        if self.kind == 'base': return self.what
        if self.kind == 'chg': return f'{self.what[0]}({self.what[1]!r}, {self.what[2]!r})'
        if self.kind == 'node': return f'<{self.what._abs.name}>'
        if self.kind == 'seg': return f'<{self.what!r}>'
        return f'{self.kind}({ {b: str(z3.simplify(S(n))) for b, n in self.counts.items() if str(z3.simplify(S(n))) != "0"} }, {self.items})'

def is_zero(n):
    n = z3.simplify(S(n))
    return z3.is_int_value(n) and n.as_long() == 0
def add_counts(a, b): return {x: z3.simplify(S(a.get(x, 0)) + S(b.get(x, 0))) for x in BASES}
def zero(): return {b: z3.IntVal(0) for b in BASES}

def content(kind, counts, items):
    '''The simplified contents of a sum/product made of these terms (documented identities), given simplified items'''
    total, out = {b: S(counts.get(b, 0)) for b in BASES}, []
    extra = [b for b in counts if b not in BASES and not is_zero(counts[b])]
    if extra: raise Unsupported(f'base terms {extra}')
    for it in items:
        if it.kind == 'seg':
            if any(c.kind == kind for c in it.what.cats if E.feasible(it.what.n[c] > 0)): out.append(Desc('seg', what = it.what)); out.append(Desc('base', what = 'absorbed?'))
            else: out.append(it)
            continue
        it = lone(it)
        if it.kind == 'base': total = add_counts(total, {it.what: 1})
        elif it.kind == kind: total = add_counts(total, it.counts); out += it.items
        else: out.append(it)
    d = Desc(kind, total, out)
    d.counts = {b: z3.simplify(v) for b, v in NB(kind, total, number(out)).items()}
    return d
def number(items): return z3.Sum([z3.IntVal(0)] + [S(i.what.length()) if i.kind == 'seg' else z3.IntVal(1) for i in items])
def lone(d):
    '''A sum or product of a single term is that term'''
    if d.kind not in ('sum', 'mul'): return d
    n = z3.simplify(tot(d.counts) + number(d.items))
    one = z3.is_int_value(n) and n.as_long() == 1 if z3.is_int_value(n) else E.decide(n == 1)
    if not one: return d
    for b in BASES:
        if E.decide(S(d.counts[b]) == 1): return Desc('base', what = b)
    its = [i for i in d.items if i.kind != 'seg']
    if its: return lone(its[0])
    raise Unsupported('a single term out of a segment')

def describe(x):
    '''Contents of a real node, an abstract node or a base name'''
    if isinstance(x, str): return Desc('base', what = x)
    d = getattr(x, '__dict__', {})
    if '_abs' in d and 'base_terms' not in d:
        return Desc('node', what = x)
    k = kind_of(x)
    if k == 'chg': return Desc('chg', what = (d['CP_or_CW'], lone(describe(d['left'])), lone(describe(d['right']))))
    items = [Desc('seg', what = p) if isinstance(p, Kids) else None if isinstance(p, Seg) else describe(p) for p in parts_of(d['composite_terms'])]
    if any(i is None for i in items): raise Unsupported(f'terms {rp(d["composite_terms"])}')
    return content(k, {b: S(n) for b, n in dict.items(d['base_terms'])}, items)
def given(kind, counts, comps):
    ps = parts_of(comps)
    items = []
    for p in ps:
        if isinstance(p, Kids): items.append(Desc('seg', what = p))
        elif isinstance(p, Seg): raise Unsupported(f'terms {rp(comps)}')
        elif isinstance(p, str): raise TypeError('a string among the composite terms')
        else: items.append(describe(p))
    return content(kind, counts, items)

def same(a, b):
    '''The formula that two contents are equal, or False when their structure differs'''
    if a.kind == 'seg' and b.kind == 'seg': return True if seg_root(a.what) is seg_root(b.what) or (hasattr(a.what, 'minus') and hasattr(b.what, 'minus') and seg_root(a.what.minus) is seg_root(b.what.minus)) else mset(a.what) == mset(b.what) if E.ghost.get('msets') and not hasattr(a.what, 'minus') and not hasattr(b.what, 'minus') else False
    if a.kind != b.kind: return False
    if a.kind == 'base': return a.what == b.what
    if a.kind == 'node': return node_root(a.what) is node_root(b.what)
    if a.kind == 'chg':
        if a.what[0] != b.what[0]: return False
        l, r = same(a.what[1], b.what[1]), same(a.what[2], b.what[2])
        return False if l is False or r is False else z3.And(z3.BoolVal(l) if isinstance(l, bool) else l, z3.BoolVal(r) if isinstance(r, bool) else r)
    cs, rest = [S(a.counts[x]) == S(b.counts[x]) for x in BASES], list(b.items)
    if len(a.items) != len(rest): return False
    for i in a.items:
        hit = None
        for j in rest:
            f = same(i, j)
            if f is False: continue
            if f is True or not E.feasible(z3.Not(f)): hit = j; break
        if hit is None: return False
        rest.remove(hit)
    return z3.And(*cs)
Desc.__eq__ = lambda s, o: s is o
Desc.__hash__ = lambda s: id(s)
def seg_root(s):
    while getattr(s, 'copy_of', None) is not None: s = s.copy_of
    return s
def node_root(x):
    while x.__dict__['_abs'].__dict__.get('original') is not None: x = x.__dict__['_abs'].__dict__['original']
    return x
def mset(seg): return z3.Const(f'multiset of {seg.name}', M)

# ---- the constructors' contract
def made(x): return x.__dict__.get('_made')
def install():
    '''Constructors give the simplified contents of copies of their arguments (proved on their bodies; simplification itself: C06, C07)'''
    cs = classes()
    def make(kind):
        def init(self, base_terms, composite_terms = (), root = None, parent = None):
            if isinstance(base_terms, Desc): d = base_terms
            else:
                c = collections.Counter(base_terms)
                d = given(kind, dict(dict.items(c)), composite_terms)
            fill(self, d)
            self.__dict__.update(root = root, parent = parent)
        return init
    def change(self, CP_or_CW, left, right, root = None, parent = None):
        for y in (left, right):
            if not isinstance(y, (str, cs['sum'].__mro__[2])): raise Unsupported(f'branch {rp(y)}')
        def branch(y):
            d = lone(describe(y))
            return d
        self.__dict__.update(root = root, parent = parent, CP_or_CW = CP_or_CW, left = left, right = right, parameters = collections.defaultdict(list), GPy_name = CP_or_CW, _made = Desc('chg', what = (CP_or_CW, branch(left), branch(right))))
    OVERRIDE[(cs['sum'], '__init__')], OVERRIDE[(cs['mul'], '__init__')], OVERRIDE[(cs['chg'], '__init__')] = make('sum'), make('mul'), change
    base = cs['sum'].__mro__[1]
    def eq(self, o):
        if type(self) is not type(o): return False
        E.ghost['msets'] = True
        f = same(describe(self), describe(o))
        return f if isinstance(f, bool) else SBool(f)
    OVERRIDE[(base, '__eq__')] = eq; OVERRIDE[(cs['chg'], '__eq__')] = eq
def fill(x, d):
    x.__dict__.update(base_terms = collections.Counter({b: (SNum(n) if not z3.is_int_value(n) else n.as_long()) for b, n in ((b, z3.simplify(S(n))) for b, n in d.counts.items()) if not is_zero(n)}),
                      composite_terms = SList([i.what if i.kind in ('seg', 'node') else from_desc(i) for i in d.items]),
                      symbol = {'sum': '+', 'mul': '*'}[d.kind], GPy_name = d.kind, parameters = collections.defaultdict(list), _made = True)
def from_desc(d):
    if d.kind == 'base': return d.what
    x = object.__new__(classes()[d.kind])
    if d.kind == 'chg': x.__dict__.update(CP_or_CW = d.what[0], left = from_desc(d.what[1]) if d.what[1].kind != 'node' else d.what[1].what, right = from_desc(d.what[2]) if d.what[2].kind != 'node' else d.what[2].what, root = None, parent = None, parameters = collections.defaultdict(list), _made = d)
    else: fill(x, d); x.__dict__.update(root = None, parent = None)
    return x

# ---- operands: simplified expressions of every shape
def operand(name, kind, shape = None):
    '''A simplified expression; returns the real node (or base name). Shapes: every category of simplified trees.'''
    if kind == 'str': return BASES[E.choose(len(BASES), name)]
    if kind == 'chg':
        def br(n):
            i = E.choose(3, n)
            if i == 2: return BASES[E.choose(2, n)]
            return node('sum', f'{name}.{n}', {}) if i == 0 else node('chg', f'{name}.{n}', {})
        return arbitrary('chg', None, None, CP_or_CW = ['CP', 'CW'][E.choose(2, name)], left = br('left'), right = br('right'), _name = name)
    cs = [c for c in CATS if c.kind == kind and (shape is None or c.shape == shape)]
    cat = cs[E.choose(len(cs), name)]
    if cat.shape == 'base': x = arbitrary(kind, {cat.sub: 1}, SList())
    elif cat.shape == 'single':
        g = node('chg', f'{name}.only', {}) if cat.sub == 'chg' else many(cat.sub, f'{name}.only')
        x = arbitrary(kind, {}, SList([g]))
    else: x = many(kind, name)
    x.__dict__['_name'] = name; x.__dict__['_cat'] = cat
    return x
def many(kind, name):
    c = {b: E.fresh(f'{name}[{b}]', z3.IntSort()) for b in BASES}
    seg = Kids(f'{name}.terms', inner_cats(kind), contracts = {})
    seg.rep_of = lambda cat: None
    E.assume(z3.And(NF(kind, c, seg.length().z), tot(c) + seg.length().z >= 2))
    x = arbitrary(kind, c, SList([seg])); x.__dict__['_kids'] = seg; x.__dict__['_counts'] = c; x.__dict__['_name'] = name
    return x
SUBS = {'left': ['sum', ['LIN', 'PER']], 'right': ['mul', ['SE', 'LIN']]}
def spec(m, x):
    '''A concrete expression like x in the solver's model'''
    if isinstance(x, str): return x
    d = x.__dict__
    k = kind_of(x)
    if k == 'chg' and '_abs' not in d: return [d['CP_or_CW']] + [y if isinstance(y, str) else (SUBS[s] if kind_of(y) != 'chg' else ['CW', 'PER', 'LIN']) for s, y in (('left', d['left']), ('right', d['right']))]
    if '_abs' in d: return ['CW', 'PER', 'LIN'] if k == 'chg' else ['sum', ['LIN', 'PER']]
    if '_kids' in d: return concretise(m, k, d['_counts'], d['_kids'])
    return [k, [b for b, n in dict.items(d['base_terms']) for _ in range(n)] + [spec(m, c) for c in d['composite_terms'].parts()]]
