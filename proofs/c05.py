'''Kernels built from expressions: the real to_kernel methods on kernels of which only the identity, the parameters and sums/products are known.'''
from proofs.exprs import *
from vc import engine as _e

WANT = {'WN': ['variance'], 'C': ['variance'], 'LIN': ['variance', 'offset'], 'SE': ['variance', 'lengthscale'], 'PER': ['variance', 'period', 'lengthscale']}

class Par:
    def __init__(self, owner, name): self.owner, self.name = owner, name
class Ker:
    '''A kernel: a base kernel with its free parameters, the kernel of a child, or a sum / product / blend of kernels'''
    def __init__(self, what, parts = (), params = None):
        self.what, self.parts_, self.free, self.lost = what, list(parts), list(params or []), []
        E.ghost.setdefault('kernels', []).append(self)
    def __add__(self, o): return Ker('add', [self, o]) if isinstance(o, Ker) else NotImplemented
    def __mul__(self, o): return Ker('mul', [self, o]) if isinstance(o, Ker) else NotImplemented
    def unlink_parameter(self, p):
        if not isinstance(p, Par): raise Unsupported(f'unlink_parameter({rp(p)})')
        if p.owner is not self or p.name not in self.free: raise ValueError('no such parameter in this kernel')
        self.free.remove(p.name); self.lost.append(p.name)
    def parameter_names(self): return SList(self.free)
    def __getattr__(self, a):
        if a.startswith('__') or a.startswith('_vc'): raise AttributeError(a)
        if a in self.__dict__.get('free', ()): return Par(self, a)
        if a in self.__dict__.get('lost', ()): raise AttributeError(a)
        raise Unsupported(f'attribute {a} of a kernel')
    def state(self): return (self.what, tuple(map(id, self.parts_)), tuple(self.free))
    def clone(self):
        k = Ker(self.what, self.parts_, self.free); k.lost = list(self.lost)
        if 'name' in self.__dict__: k.name = self.name
        return k
    def __deepcopy__(self, memo): raise Unsupported('deep copy of a kernel')
    def __repr__(self): return f'{self.what}{self.free}' if not self.parts_ else f'{self.what}{self.parts_}'

def split(img):
    '''n > 0 kernels alike, made one by one: the first of them, and the others'''
    x, = img.vals.values()
    return x.clone(), Img(Rep(img.base.b, SNum(z3.simplify(img.base.n.z - 1))), dict(img.vals))
def is_group(p): return isinstance(p, Img) and isinstance(p.base, Rep) and all(isinstance(v, Ker) for v in p.vals.values())
def slice_(l, s):
    '''l[1:] (and l[:1]): the first element is told apart from the others alike, in the list itself'''
    if s.step is not None or (s.start, s.stop) not in ((1, None), (None, 1), (0, 1)): raise Unsupported('slice of an unbounded list')
    front = []
    for i, p in enumerate(l.parts()):
        if isinstance(p, Seg):
            if not E.decide(_e.S_pos(p.length())): front.append(p); continue
            if not is_group(p): raise Unsupported(f'slice of {p!r}')
            a, rest = split(p)
            l[0:i + 1] = [a, rest]
        else: l[0:i + 1] = [p]
        return SList(l.parts()[1:]) if s.start == 1 else SList(l.parts()[:1])
    return SList()
def index_(l, i):
    if i == 0 and bool(slice_(l, slice(1, None)).parts() or l.parts()):
        p = l.parts()[0]
        if not isinstance(p, Seg): return p
    raise Unsupported('index into an unbounded list')
class Alike(LoopSpec):
    '''The body runs once for all the kernels of a group: it may only touch the one it is at'''
    alike = True
    def __init__(self, img): self.img = img
    def entry(self, loc): pass
    def take(self, loc):
        if not E.decide(_e.S_pos(self.img.length())): return None, []
        self.x, = self.img.vals.values()
        self.before = self.look(loc)
        return self.x, []
    def look(self, loc):
        out = {}
        for n, v in loc.items():
            if n.startswith('_vc_') or v is getattr(self, 'x', None): continue
            out[n] = ('list', v, [id(p) for p in v.parts()]) if isinstance(v, SList) else ('dict', v, repr(list(v.items()))) if isinstance(v, dict) else ('node', v, shot(v)) if hasattr(v, '__dict__') and not isinstance(v, (Ker, type)) and not callable(v) else ('v', v, None)
        return out, [(k, k.state()) for k in E.ghost.get('kernels', []) if k is not self.x]
    def done(self, loc):
        now, ks = self.look(loc)
        was, kw = self.before
        for n, (t, v, c) in was.items():
            if n not in now: continue
            if now[n][1] is not v and not isinstance(v, Ker): raise Unsupported(f'a loop which changes {n}')
            if t == 'node':
                if not unchanged(v, c): raise Unsupported(f'a loop which changes {n}')
            elif now[n][2] != c: raise Unsupported(f'a loop which changes {n}')
        if any(k.state() != s for k, s in kw): raise Unsupported('a loop which changes other kernels')
        for n in E.ghost.get('kernels', [])[len(kw) + 1:]: raise Unsupported('a loop which makes kernels')
def reduce_(f, ps, *init):
    '''f joins any two kernels alike: the kernel of all of them, in order'''
    if init or not all(isinstance(p, Ker) or isinstance(p, Img) and all(isinstance(v, Ker) for v in p.vals.values()) for p in ps): return None
    a, b = Ker('first'), Ker('second')
    r = f(a, b)
    if not (isinstance(r, Ker) and r.what in ('add', 'mul') and len(r.parts_) == 2 and r.parts_[0] is a and r.parts_[1] is b): raise Unsupported('reduction with another function')
    if not any(isinstance(p, Ker) for p in ps) and not E.decide(z3.Sum([z3.IntVal(0)] + [S(p.length()) for p in ps]) > 0): raise TypeError('reduce() of empty iterable with no initial value')
    return Ker(r.what, ps)
def flat(k, op):
    '''The operands of a nested sum (product), by associativity'''
    if isinstance(k, Ker) and k.what == op: return [y for p in k.parts_ for y in flat(p, op)]
    return [k]

def prove(P):
    patch_classes(); hook_counter()
    import GPy_ABCD.KernelExpressions.commutatives as cm
    import GPy_ABCD.KernelExpressions.change as ch
    import GPy_ABCD.KernelExpansion.kernelOperations as ko
    import GPy_ABCD.Kernels.baseKernels as bk
    P.assume_note(*TREE_NOTES, 'the kernel of a child is the one it denotes (induction hypothesis)')
    P.trust('GPy: k1 + k2 and k1 * k2 are the pointwise sum and product of the two kernels, with the operands\' own parameters; unlink_parameter takes a parameter out of the free ones and leaves its value')
    ko_real, func_real = ko.base_str_to_ker, dict(ko.base_str_to_ker_func)
    jobs = []
    def contract_base(b):
        if b not in BASES: raise KeyError(b)
        k = Ker(b, params = WANT[b]); k.name = ko.base_k_param_names[b]['name']
        return k
    def blend(name): return lambda a, b: Ker(name, [a, b])
    def child_kernel(s): return Ker('child', [s])
    CON = {'to_kernel': child_kernel}
    def run(f, name, function, **kw):
        def g():
            E.loop_specs[:] = [lambda where, x, loc, names: Alike(x) if is_group(x) else None]; OVERRIDE.clear()
            _e.HOOKS['slice'], _e.HOOKS['index'], _e.HOOKS['reduce'] = slice_, index_, reduce_
            tab = {**{b: (lambda b: lambda: contract_base(b))(b) for b in BASES}, 'CP': blend('CP'), 'CW': blend('CW')}
            for m in (cm, ch, ko): m.base_str_to_ker, m.base_str_to_ker_func = contract_base, tab
            f()
        jobs.append((name, g, function, dict(max_s = 240, **kw)))
    def case(x):
        def go(m):
            if kind_of(x) == 'chg': d = [x.CP_or_CW] + [y if isinstance(y, str) else {'sum': ['sum', ['LIN', 'PER']], 'mul': ['mul', ['LIN', 'PER']], 'chg': ['CW', 'PER', 'LIN']}[kind_of(y)] for y in (x.left, x.right)]
            elif '_kids' in x.__dict__: d = concretise(m, kind_of(x), x._counts, x._kids)
            else: d = [kind_of(x), [b for b, n in dict.items(x.base_terms) for _ in range(n)] + [['CW', 'PER', 'LIN'] if kind_of(c) == 'chg' else ['mul' if kind_of(c) == 'mul' else 'sum', ['LIN', 'PER']] for c in x.composite_terms.parts()]]
            return [dict(case = 'kernel', data = [e, i]) for e in [d] + ([] if x.parent is None else [[k, d, 'SE'] for k in ('CP', 'CW')] + [[k, 'SE', d] for k in ('CP', 'CW')] + [[k, ['LIN', d]] for k in ('sum', 'mul') if kind_of(x) != k]) for i in (3, 11)]
        return go
    def whole(kind, shape):
        cat = [c for c in CATS if c.kind == kind and c.shape == shape]
        cat = cat[E.choose(len(cat), 'shape')]
        if shape == 'base': return arbitrary(kind, {cat.sub: 1}, SList())
        if shape == 'single': return arbitrary(kind, {}, SList([node(cat.sub, 'term', CON)]))
        c = {b: E.fresh(f'[{b}]', z3.IntSort()) for b in BASES}
        seg = Kids('terms', inner_cats(kind), contracts = {**NFC, **CON})
        E.assume(z3.And(NF(kind, c, seg.length().z), tot(c) + seg.length().z >= 2))
        x = arbitrary(kind, c, SList([seg])); x.__dict__.update(_kids = seg, _counts = c)
        return x
    def commutative(kind, shape):
        op = 'add' if kind == 'sum' else 'mul'
        def f():
            x = place_of(whole(kind, shape), 2); c = case(x); before = shot(x)
            st, k = E.call(x.to_kernel)
            E.prove('to_kernel returns a kernel', st == 'return' and isinstance(k, Ker), lambda m: rp(k), c)
            if st != 'return' or not isinstance(k, Ker): return
            E.prove('the expression is not modified', unchanged(x, before), '', c)
            got, linked, total, kids, ok = {b: z3.IntVal(0) for b in BASES}, z3.IntVal(0), z3.IntVal(0), [], True
            lost_other = False
            for p in flat(k, op):
                ks = list(p.vals.values()) if isinstance(p, Img) else [p]
                if isinstance(p, Img) and isinstance(p.base, Kids):
                    need = [q for q in p.base.cats if E.feasible(p.base.n[q] > 0)]
                    ok = ok and all(q in p.vals and p.vals[q].what == 'child' and p.vals[q].parts_[0] is p.base.rep(q) for q in need)
                    kids.append(p.base); continue
                if len(ks) != 1: ok = False; continue
                y, n = ks[0], S(p.length()) if isinstance(p, Img) else z3.IntVal(1)
                if y.what in BASES:
                    got[y.what] = got[y.what] + n; total = total + n
                    if 'variance' in y.free: linked = linked + n
                    if [q for q in WANT[y.what] if q not in y.free and q != 'variance']: lost_other = True
                elif y.what == 'child': kids.append(y.parts_[0])
                else: ok = False
            E.prove(f'it is a {"sum" if kind == "sum" else "product"} of the kernels of its terms and nothing else', ok, lambda m: rp(k), c)
            own = {b: S(n) for b, n in dict.items(x.base_terms)}
            E.prove('every base term contributes exactly its own kernel, as often as it occurs', z3.And(*[got[b] == own.get(b, z3.IntVal(0)) for b in BASES]), lambda m: rp(k), c)
            want = [p for p in x.composite_terms.parts() if not isinstance(p, Kids) or E.feasible(S(p.length()) > 0)]
            E.prove('every composite term contributes exactly its own kernel', all(any(a is b for a in kids) for b in want) and all(any(a is b for b in x.composite_terms.parts()) for a in kids) and len(kids) == len(set(map(id, kids))), lambda m: rp(k), c)
            if kind == 'sum': E.prove('every parameter stays free', z3.And(linked == total, z3.BoolVal(not lost_other)), lambda m: rp(k), c)
            else:
                E.prove('exactly one base factor keeps its variance', linked == z3.If(total > 0, z3.IntVal(1), z3.IntVal(0)), lambda m: rp(k), c)
                E.prove('no other parameter is taken out', not lost_other, lambda m: rp(k), c)
        return f
    for kind in ('sum', 'mul'):
        for sh in ('base', 'single', 'many'): run(commutative(kind, sh), f'{CNAME[kind]}.to_kernel ({sh})', f'{CNAME[kind]}.to_kernel, order_base_kerns')
    def change():
        def br(n):
            i = E.choose(4, n)
            return BASES[E.choose(len(BASES), n)] if i == 3 else node(['sum', 'mul', 'chg'][i], n, CON)
        x = arbitrary('chg', None, None, CP_or_CW = ['CP', 'CW'][E.choose(2, 'kind')], left = br('left'), right = br('right'))
        place_of(x, 2)
        c = case(x); before = shot(x)
        st, k = E.call(x.to_kernel)
        E.prove('to_kernel returns a kernel', st == 'return' and isinstance(k, Ker), lambda m: rp(k), c)
        if st != 'return' or not isinstance(k, Ker): return
        E.prove('the expression is not modified', unchanged(x, before), '', c)
        def is_of(p, y): return p.what == y and p.free == WANT[y] if isinstance(y, str) else p.what == 'child' and p.parts_[0] is y
        E.prove('it is the change operator of the kernels of its branches, first and second in order, nothing taken out', k.what == x.CP_or_CW and len(k.parts_) == 2 and is_of(k.parts_[0], x.left) and is_of(k.parts_[1], x.right), lambda m: rp(k), c)
    run(change, 'ChangeKE.to_kernel', 'ChangeKE.to_kernel')
    P.parallel(jobs)

    # the functions the contracts above stand for: the table of base kernels and change operators, over all its names
    for m in (cm, ch, ko): m.base_str_to_ker, m.base_str_to_ker_func = ko_real, func_real
    _e.HOOKS['slice'] = _e.HOOKS['index'] = _e.HOOKS['reduce'] = None
    E.loop_specs[:] = []; OVERRIDE.clear()
    def table():
        b = BASES[E.choose(len(BASES), 'name')]
        st, k = E.call(ko_real, b)
        real = {'WN': bk._Gk.White, 'C': bk._Gk.Bias, 'SE': bk._Gk.RBF, 'PER': bk._Pk.PureStdPeriodicKernel, 'LIN': bk._LOk.LinearWithOffset if LIN_OFFSET() else bk._Lk.Linear}[b]
        names = sorted(k.parameter_names()) if st == 'return' else None
        want = sorted(x for x in WANT[b] if b != 'LIN' or LIN_OFFSET() or x != 'offset')
        cs = lambda m: [dict(case = 'kernel', data = [['sum', [b, 'PER' if b != 'PER' else 'SE']], 1])]
        E.prove('each name stands for its kernel class', st == 'return' and type(k) is real, repr(type(k)), cs)
        E.prove('each base kernel has its documented free parameters', st == 'return' and names == want, f'{b}: {names}', cs)
        E.prove('each base kernel has its own name', st == 'return' and k.name == ko.base_k_param_names[b]['name'] and ko.base_k_param_names[b]['parameters'] == k.parameter_names() and sum(v['name'] == k.name for v in ko.base_k_param_names.values()) == 1, b, cs)
        st, k2 = E.call(ko_real, b)
        E.prove('each call makes a new kernel', st == 'return' and k2 is not k and all(p is not q for p in k2.parameters for q in k.parameters), '', cs)
    P.explore('base_str_to_ker', table, 'base_str_to_ker, WN, C, SE, PER, LIN')
    def ops():
        n = ['CP', 'CW'][E.choose(2, 'name')]
        got = []
        class Rec:
            def __init__(self, *a, **k): got.append((a, k))
        old = bk._Cs.ChangePointKernel, bk._Cs.ChangeWindowKernel
        class CPR(Rec): pass
        class CWR(Rec): pass
        bk._Cs.ChangePointKernel, bk._Cs.ChangeWindowKernel = CPR, CWR
        try:
            a, b = Ker('a'), Ker('b')
            st, k = E.call(func_real[n], a, b)
        finally: bk._Cs.ChangePointKernel, bk._Cs.ChangeWindowKernel = old
        E.prove('a change operator is its change kernel of the two kernels, in order', st == 'return' and type(k) is {'CP': CPR, 'CW': CWR}[n] and len(got) == 1 and len(got[0][0]) == 2 and got[0][0][0] is a and got[0][0][1] is b and set(got[0][1]) <= {'fixed_slope'}, lambda m: rp(k), lambda m: [dict(case = 'kernel', data = [[n, 'LIN', 'PER'], 1])])
    P.explore('CP and CW', ops, 'CP, CW')
    # the change kernels' covariance: the documented blend of the branches' kernels
    from proofs import c20
    c20.prove(P, {'live'}, lambda pt: [dict(case = 'kernel', data = [[k, a, b], i]) for k in ('CP', 'CW') for i, (a, b) in enumerate((('LIN', 'PER'), ('SE', 'LIN'), ('C', 'SE')))])
