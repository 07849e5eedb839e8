'''Absorbing fitted parameters: the real match_up_fit_parameters on nodes with any number of terms and children, against GPy's naming of the parameters.'''
import re
from proofs.exprs import *
from vc import engine as _e

REALS = z3.RealSort()
class Names_:
    '''GPy's names below one kernel: part j of the parts with one name is called name, name_1, name_2 ... in order; parameters with dots'''
def value(owner, p, j): return SNum(z3.Function(f'value of {owner}.{p}', z3.IntSort(), REALS)(S(j)))
def shape_of(d): return {k: z3.simplify(v.z) if isinstance(v, SNum) else v for k, v in d.items()} if isinstance(d, dict) else None

class PSeg(Seg):
    '''The parameters of occurrences lo <= i < hi of one kind of base term, in order'''
    def __init__(self, b, lo, hi, free): self.b, self.lo, self.hi, self.free = b, S(lo), S(hi), free
    def length(self): return SNum(z3.simplify(self.hi - self.lo))
    def entry(self, j): return {p: value(self.b, p, j) for p in self.free if p != 'variance' or self.all_variances or False}
    all_variances = True
    def __repr__(self): return f'<{self.b} {self.lo}..{self.hi}>'
class Range(Seg):
    def __init__(self, lo, hi): self.lo, self.hi = S(lo), S(hi)
    def length(self): return SNum(z3.simplify(self.hi - self.lo))
class Index(SNum):
    __slots__ = ('rng',)
def range_(*a):
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2: raise Unsupported('range with a step')
    if not E.decide(S(lo) < S(hi)): return SList()
    if isinstance(lo, int): return SList([lo, Range(lo + 1, hi)])
    return SList([Range(lo, hi)])

def prove(P):
    patch_classes(); hook_counter()
    import GPy_ABCD.KernelExpressions.commutative_base as cb, GPy_ABCD.KernelExpressions.change as ch, GPy_ABCD.KernelExpressions.base as ba
    import GPy_ABCD.KernelExpansion.kernelOperations as ko
    NAMES = ko.base_k_param_names
    P.assume_note(*TREE_NOTES, 'a child holds the parameters of its own sub-kernel when it is given the prefix of that sub-kernel (induction hypothesis)',
                  'base terms are matched in any order of their names (they are alike); composite terms stand in the kernel in their order in the expression (proved: C05)')
    P.trust('GPy/paramz naming: inside a sum, product or change kernel the parts are named by their kernel name, the second, third ... of one name getting _1, _2 ...; sums are called sum, products mul')
    ORDER = ['PER', 'SE', 'C', 'WN', 'LIN']
    jobs = []
    PRE = _e.Text('⟦prefix⟧')

    class Given:
        '''The dictionary of fitted parameters, as GPy names them: only names the kernel has are there'''
        def __init__(self, prefix, counts, free, change = None): self.prefix, self.counts, self.free, self.change = prefix, counts, free, change
        def find(self, name):
            if not isinstance(name, str): raise Unsupported(f'a key {rp(name)}')
            name, prefix = _e.plain(name), _e.plain(self.prefix)
            if not name.startswith(prefix): return None
            rest = name[len(prefix):]
            if self.change is not None and rest in self.change: return ('change', rest, 0)
            m = re.fullmatch(r'([A-Za-z]\w*?)(?:_(\d+|⟦[^⟧]*⟧))?\.([a-z_]+)', rest) or re.fullmatch(r'([A-Za-z]\w*)(?:_(\d+|⟦[^⟧]*⟧))\.([a-z_]+)', rest)
            cands = []
            if '.' not in rest: return None
            head, p = rest.rsplit('.', 1)
            for b, n in self.counts.items():
                nm = NAMES[b]['name']
                if head == nm: j = z3.IntVal(0)
                elif head.startswith(nm + '_') and re.fullmatch(r'\d+|⟦[^⟧]*⟧', head[len(nm) + 1:]):
                    t = head[len(nm) + 1:]
                    if t.isdigit():
                        if t != str(int(t)) or int(t) == 0: continue
                        j = z3.IntVal(int(t))
                    else:
                        if t not in _e.TOKENS or _e.TOKENS[t][1] != '': raise Unsupported(f'the name {name}')
                        j = S(_e.TOKENS[t][0])
                        if not E.decide(j >= 1): continue
                else: continue
                if p not in NAMES[b]['parameters'] or not E.decide(j < S(n)): continue
                if p == 'variance' and not self.free(b, j): continue
                return (b, p, j)
            return None
        def __contains__(self, name): return self.find(name) is not None
        def __getitem__(self, name):
            f = self.find(name)
            if f is None: raise KeyError(name)
            return value(*f)
        def get(self, name, default = None): return self[name] if name in self else default
        def __iter__(self): raise Unsupported('iteration over the parameters')
        def __deepcopy__(self, memo): raise Unsupported('a copy of the parameters')
        def __getattr__(self, a):
            if a.startswith('__') or a.startswith('_vc'): raise AttributeError(a)
            raise Unsupported(f'{a} of the parameters')
        def __repr__(self): return '<fitted parameters>'
    def entry(b, j, var): return {p: value(b, p, j) for p in NAMES[b]['parameters'] if p != 'variance' or var}
    def same_entry(d, want):
        if not isinstance(d, dict) or set(d) != set(want): return z3.BoolVal(False)
        return z3.And(z3.BoolVal(True), *[S(d[k]) == S(want[k]) if isinstance(d[k], SNum) else z3.BoolVal(False) for k in want])

    def counters(loc, x): return [v for n, v in loc.items() if isinstance(v, collections.Counter) and v is not x.__dict__.get('base_terms')]
    class Occurrences(LoopSpec):
        '''after k occurrences of b: its list holds exactly the parameters of occurrences 0 .. k - 1, in order'''
        owns = ('self.parameters',)
        def __init__(self, rep, x, where): self.b, self.n, self.x = rep.b, S(rep.n), x
        def expected(self, k):
            '''first occurrence explicitly: it may hold the variance'''
            return [entry(self.b, 0, self.var(self.b, 0)), PSeg(self.b, 1, k, None)]
        def var(self, b, j): return E.ghost['free'](b, j)
        def others(self): return {b: (l, l.parts() if isinstance(l, SList) else list(l)) for b, l in self.x.parameters.items() if b != self.b}
        def entry(self, loc):
            E.prove('nothing is recorded for a term before it is reached', self.b not in self.x.parameters or self.x.parameters[self.b] == [], lambda m: rp(self.x.parameters), E.ghost['case'])
        def iteration(self, loc):
            self.k = E.fresh(f'occurrence[{self.b}]', z3.IntSort())
            E.assume(z3.And(self.k >= 0, self.k < self.n))
            for c in counters(loc, self.x): c[self.b] = SNum(self.k)
            if E.decide(self.k > 0): self.x.parameters[self.b] = SList(self.expected(self.k))
            self.before, self.rest = dict(self.x.parameters), self.others()
            self.l = self.x.parameters[self.b].parts() if self.b in self.x.parameters else []
            self.cs = [(c, {q: v for q, v in dict.items(c) if q != self.b}) for c in counters(loc, self.x)]
            return self.b
        def preserved(self, loc):
            l = self.x.parameters[self.b].parts() if self.b in self.x.parameters and isinstance(self.x.parameters[self.b], SList) else None
            ok = l is not None and len(l) == len(self.l) + 1 and all(a is b for a, b in zip(l, self.l))
            want = entry(self.b, self.k, self.var(self.b, self.k))
            E.prove('each occurrence of a base term gets one set of parameters, its own kernel\'s', z3.And(z3.BoolVal(bool(ok)), same_entry(l[-1], want) if ok else z3.BoolVal(False)), lambda m: f'{rp(l[-1]) if ok else rp(l)} for {rp(want)}', E.ghost['case'])
            E.prove('the parameters of other terms are left alone', {b: v for b, v in self.others().items()}.keys() == self.rest.keys() and all(a[0] is self.rest[b][0] and len(a[1]) == len(self.rest[b][1]) and all(p is q for p, q in zip(a[1], self.rest[b][1])) for b, a in self.others().items()), '', E.ghost['case'])
            for c, was in self.cs:
                E.prove('occurrences are counted', z3.And(cnt(c, self.b) == self.k + 1, z3.BoolVal({q: v for q, v in dict.items(c) if q != self.b}.keys() == was.keys())), lambda m: rp(dict(c)), E.ghost['case'])
        def exit(self, loc):
            for c in counters(loc, self.x): c[self.b] = SNum(self.n)
            if E.decide(self.n > 0): self.x.parameters[self.b] = SList(self.expected(self.n))
    class Children(LoopSpec):
        '''each child in turn is given the prefix of its own sub-kernel'''
        def __init__(self, kids, x): self.kids, self.x = kids, x
        def names(self): return sorted({gname(c) for c in self.kids.cats})
        def iteration(self, loc):
            c = self.kids.cats[E.choose(len(self.kids.cats), 'category')]
            E.assume(self.kids.n[c] > 0)
            self.seen = {n: E.fresh(f'seen[{n}]', z3.IntSort()) for n in self.names()}
            for n in self.names(): E.assume(z3.And(self.seen[n] >= 0, self.seen[n] <= z3.Sum([self.kids.n[d] for d in self.kids.cats if gname(d) == n])))
            E.assume(self.seen[gname(c)] < z3.Sum([self.kids.n[d] for d in self.kids.cats if gname(d) == gname(c)]))
            for co in counters(loc, self.x):
                for n in self.names(): co[n] = SNum(self.seen[n])
            self.c, self.y = c, self.kids.rep(c)
            E.ghost['calls'] = []
            self.params = {b: (l, l.parts()) for b, l in self.x.parameters.items()}
            return self.y
        def preserved(self, loc):
            calls, n = E.ghost['calls'], gname(self.c)
            ok = len(calls) == 1 and calls[0][0] is self.y and calls[0][1] is E.ghost['given']
            f = z3.BoolVal(False)
            given, own = _e.plain(calls[0][2]) if ok and isinstance(calls[0][2], str) else '', _e.plain(E.ghost['prefix']) + n
            if given.startswith(own) and given.endswith('.'):
                mid = given[len(own):-1]
                if mid == '': f = self.seen[n] == 0
                elif mid[0] == '_' and mid[1:] in _e.TOKENS and _e.TOKENS[mid[1:]][1] == '': f = z3.And(self.seen[n] > 0, S(_e.TOKENS[mid[1:]][0]) == self.seen[n])
                elif mid[0] == '_' and mid[1:].isdigit() and mid[1:] == str(int(mid[1:])): f = z3.And(self.seen[n] > 0, self.seen[n] == int(mid[1:]))
            E.prove('every composite term is given all the parameters and the name of its own sub-kernel', z3.And(z3.BoolVal(bool(ok)), f), lambda m: rp(calls), E.ghost['case'])
            E.prove('the node\'s own parameters are left alone', self.x.parameters.keys() == self.params.keys() and all(l is self.params[b][0] and len(l.parts()) == len(self.params[b][1]) for b, l in self.x.parameters.items()), '', E.ghost['case'])
            for co in counters(loc, self.x):
                E.prove('composite terms are counted by their kernel name', z3.And(*[cnt(co, m) == self.seen[m] + (1 if m == n else 0) for m in self.names()]), lambda m: rp(dict(co)), E.ghost['case'])
        def exit(self, loc):
            for co in counters(loc, self.x):
                for n in self.names(): co[n] = SNum(z3.Sum([self.kids.n[d] for d in self.kids.cats if gname(d) == n]))
    class NoEffect(LoopSpec):
        '''indices which are all alike and whose turn changes nothing'''
        alike = True
        def __init__(self, r): self.r = r
        def entry(self, loc): pass
        def take(self, loc):
            if not E.decide(self.r.lo < self.r.hi): return None, []
            i = E.fresh('i', z3.IntSort()); E.assume(z3.And(i >= self.r.lo, i < self.r.hi))
            self.before = self.look(loc); return SNum(i), []
        def look(self, loc): return [(n, id(v), repr_state(v)) for n, v in sorted(loc.items()) if not n.startswith('_vc_') and n not in ('i',)]
        def done(self, loc):
            now = [x for x in self.look(loc)]
            names = {n for n, _, _ in self.before}
            if [x for x in now if x[0] in names] != self.before: raise Unsupported('a loop over positions which has an effect')
    def repr_state(v):
        if isinstance(v, SList): return [id(p) for p in v.parts()] + [tuple(map(str, p)) for p in v.parts() if isinstance(p, dict)]
        if isinstance(v, dict): return [(str(k), repr_state(q)) for k, q in dict.items(v)]
        if hasattr(v, '__dict__') and 'parameters' in v.__dict__: return repr_state(v.__dict__['parameters'])
        return None
    def index_(l, i):
        if isinstance(i, SNum):
            pos = z3.IntVal(0)
            for p in l.parts():
                if isinstance(p, PSeg):
                    if E.decide(z3.And(i.z >= pos, i.z < pos + p.hi - p.lo)): return entry(p.b, p.lo + i.z - pos, False) if not E.ghost['free'](p.b, p.lo + i.z - pos) else entry(p.b, p.lo + i.z - pos, True)
                    pos = pos + p.hi - p.lo
                else:
                    if E.decide(i.z == pos): return p
                    pos = pos + 1
            raise IndexError('list index out of range')
        if isinstance(i, int) and i >= 0: return index_(l, SNum(z3.IntVal(i)))
        raise Unsupported('index into an unbounded list')
    def gname(c): return {'sum': 'sum', 'mul': 'mul', 'chg': NAMES.get(c.sub, {}).get('name')}[c.kind]
    def cats(kind): return [Cat(OTHER[kind], 'any'), Cat('chg', 'chg', 'CP'), Cat('chg', 'chg', 'CW')]
    def match_contract(s, d, prefix = ''):
        E.ghost.setdefault('calls', []).append((s, d, prefix)); return s
    CON = {'match_up_fit_parameters': match_contract}

    def run(f, name, function, **kw):
        def g():
            OVERRIDE.clear(); _e.TOKENS.clear()
            _e.HOOKS.update(range = range_, index = index_, slice = None, reduce = None)
            E.ghost['case'] = None
            def spec(where, seg, loc, names):
                if isinstance(seg, Rep): return Occurrences(seg, loc['self'], where)
                if isinstance(seg, Kids): return Children(seg, loc['self'])
                if isinstance(seg, Range): return NoEffect(seg)
            E.loop_specs[:] = [spec]
            f()
        jobs.append((name, g, function, dict(max_s = 300, max_paths = 20000, **kw)))

    def kids_of(kind):
        kids = Kids('terms', cats(kind), nf = False, contracts = CON)
        for c in kids.cats:
            y = kids.rep(c); y.__dict__['GPy_name'] = gname(c)
            if c.kind == 'chg': y.__dict__['CP_or_CW'] = c.sub
        return kids
    def place(x, name):
        '''as the root (in a model or bare) or inside another node'''
        i = E.choose(3, 'place')
        if i == 2: x.__dict__.update(root = Above('root'), parent = Above('parent')); return PRE + name + '.', PRE + name + '.'
        x.__dict__.update(root = x, parent = None)
        return ['GP_regression.', ''][i], None
    def spec_kids(m, kids):
        out = []
        for c in kids.cats:
            s = {'sum': ['sum', ['LIN', 'PER']], 'mul': ['mul', ['LIN', 'PER']], 'CP': ['CP', 'LIN', 'PER'], 'CW': ['CW', 'PER', 'LIN']}[c.sub or c.kind]
            out += [s] * min(3, model_int(m, kids.n[c]))
        return out
    def commutative(kind):
        def f():
            own = {b: E.fresh(f'[{b}]', z3.IntSort()) for b in BASES}
            kids = kids_of(kind)
            E.assume(z3.And(NF(kind, own, kids.length().z)))
            order = [BASES, list(reversed(BASES)), ['LIN', 'SE', 'WN', 'PER', 'C']][E.choose(3, 'order')]
            x = arbitrary(kind, {b: own[b] for b in order}, SList([kids]), parameters = collections.defaultdict(_e.v_list))
            prefix, full = place(x, kind)
            total = tot(own) + kids.length().z
            E.assume(total >= (2 if full else 1))
            if full is None: full = prefix if E.decide(total == 1) else prefix + kind + '.'
            first = {b: z3.And(own[b] > 0, *[own[q] == 0 for q in ORDER[:ORDER.index(b)]]) for b in BASES}
            # which variances are free (C05): in a sum all of them, in a product that of the first base factor
            E.ghost['free'] = (lambda b, j: True) if kind == 'sum' else (lambda b, j: E.decide(z3.And(first[b], S(j) == 0)))
            d = Given(full, own, E.ghost['free'])
            E.ghost.update(given = d, prefix = full, calls = [])
            c = E.ghost['case'] = lambda m: dict(case = 'match', data = [[kind, [b for b in BASES for _ in range(min(3, model_int(m, own[b])))] + spec_kids(m, kids)], 7, _e.plain(prefix).startswith('GP')])
            st, r = E.call(x.match_up_fit_parameters, d, prefix)
            E.prove('matching returns the node', st == 'return' and r is x, lambda m: rp(r), c)
            if st != 'return': return
            E.prove('the expression itself is left alone', z3.And(z3.BoolVal(x.composite_terms.parts() == [kids] and set(x.base_terms) <= set(BASES)), *[cnt(x.base_terms, b) == own[b] for b in BASES]), '', c)
            held = x.parameters
            for b in BASES:
                n = own[b]
                if E.decide(n == 0):
                    E.prove('a term which does not occur holds nothing', b not in held or held[b] == [], lambda m: rp(held), c); continue
                l = held.get(b)
                ps = l.parts() if isinstance(l, SList) else None
                ok = ps is not None and len(ps) == 2 and isinstance(ps[1], PSeg) and isinstance(ps[0], dict)
                E.prove('every occurrence of a base term holds exactly its own parameters', z3.And(z3.BoolVal(bool(ok)), *( [ps[1].hi == n, ps[1].lo == 1, same_entry(ps[0], entry(b, 0, kind == 'sum'))] if ok else [])), lambda m: f'{b}: {rp(l)}', c)
            if kind == 'mul':
                v = held.get('ProductKE')
                if E.decide(tot(own) > 0):
                    ok = isinstance(v, list) and len(v) == 1 and isinstance(v[0], dict) and list(v[0]) == ['variance'] and isinstance(v[0]['variance'], SNum)
                    E.prove('the product holds the one variance its base factors share', z3.And(z3.BoolVal(bool(ok)), *([z3.Or(*[z3.And(first[b], S(v[0]['variance']) == value(b, 'variance', 0).z) for b in BASES])] if ok else [])), lambda m: rp(v), c)
                else: E.prove('a product without base factors holds no variance', v is None or v == [], lambda m: rp(v), c)
            E.prove('nothing else is held', set(k for k, l in held.items() if l != []) <= set(BASES) | ({'ProductKE'} if kind == 'mul' else set()), lambda m: rp(held), c)
        return f
    for kind in ('sum', 'mul'): run(commutative(kind), f'{CNAME[kind]}.match_up_fit_parameters', f'SumOrProductKE.match_up_fit_parameters{", ProductKE.match_up_fit_parameters" if kind == "mul" else ""}, KernelExpression.is_root, SumOrProductKE._is_singleton')

    def change():
        def br(n):
            i = E.choose(5, n)
            if i < 2: k, sub = ['sum', 'mul'][i], None
            elif i < 4: k, sub = 'chg', ['CP', 'CW'][i - 2]
            else: return BASES[E.choose(len(BASES), n)]
            y = node(k, n, {**CON, '__eq__': lambda s, o: SBool(z3.Bool('the branches are equal')) if '_abs' in getattr(o, '__dict__', {}) and type(s) is type(o) and s.__dict__.get('CP_or_CW') == o.__dict__.get('CP_or_CW') else False}); y.__dict__['GPy_name'] = gname(Cat(k, 'any', sub))
            if sub: y.__dict__['CP_or_CW'] = sub
            return y
        ck = ['CP', 'CW'][E.choose(2, 'kind')]
        l, r = br('left'), br('right')
        x = arbitrary('chg', None, None, CP_or_CW = ck, left = l, right = r, GPy_name = NAMES[ck]['name'], parameters = collections.defaultdict(_e.v_list))
        prefix, full = place(x, NAMES[ck]['name'])
        if full is None: full = prefix + NAMES[ck]['name'] + '.'
        own = NAMES[ck]['parameters']
        nm = lambda y: NAMES[y]['name'] if isinstance(y, str) else y.GPy_name
        counts = {}
        for y in (l, r):
            if isinstance(y, str): counts[y] = counts.get(y, 0) + 1
        d = Given(full, counts, lambda b, j: True, own)
        E.ghost.update(given = d, prefix = full, calls = [])
        sp_ = lambda y, m, i: y if isinstance(y, str) else {'sum': [['sum', ['LIN', 'PER']], ['sum', ['SE', 'PER']]], 'mul': [['mul', ['LIN', 'PER']], ['mul', ['SE', 'PER']]], 'chg': [[getattr(y, 'CP_or_CW', 'CP'), 'LIN', 'PER'], [getattr(y, 'CP_or_CW', 'CP'), 'PER', 'SE']]}[kind_of(y)][i]
        c = lambda m: [dict(case = 'match', data = [[ck, sp_(l, m, 0), sp_(r, m, i)], 7, _e.plain(prefix).startswith('GP')]) for i in (0, 1)]
        st, v = E.call(x.match_up_fit_parameters, d, prefix)
        E.prove('matching returns the node', st == 'return' and v is x, lambda m: rp(v), c)
        if st != 'return': return
        held = x.parameters
        E.prove('the operator holds its own parameters', held.get(ck) is not None and len(held[ck]) == 1 and same_entry(held[ck][0], {p: value('change', p, 0) for p in own}), lambda m: rp(held), c)
        second = '_1' if nm(l) == nm(r) else ''
        keys, calls = {ck}, list(E.ghost['calls'])
        for side, y, suffix in (('left', l, ''), ('right', r, second)):
            if isinstance(y, str):
                keys.add((side, y))
                w = entry(y, 1 if suffix else 0, True); e = held.get((side, y))
                E.prove('each base branch holds exactly the parameters of its own kernel', e is not None and len(e) == 1 and same_entry(e[0], w), lambda m: rp(held), c)
            else:
                mine = [q for q in calls if q[0] is y]
                E.prove('each composite branch is given all the parameters and the name of its own sub-kernel', len(mine) == 1 and mine[0][1] is d and mine[0][2] == full + nm(y) + suffix + '.', lambda m: rp(calls), c)
        E.prove('nothing else is held', {k for k, q in held.items() if len(q)} == keys and len(calls) == sum(not isinstance(y, str) for y in (l, r)), lambda m: rp(held), c)
        E.prove('the branches are left alone', x.left is l and x.right is r and x.CP_or_CW == ck, '', c)
    run(change, 'ChangeKE.match_up_fit_parameters', 'ChangeKE.match_up_fit_parameters, KernelExpression.is_root')

    def start():
        class Pairs(Seg): # the i-th name with the i-th value, in order
            def comp(self, f, c, where):
                a, b = Opaque('a name'), Opaque('a value'); x = (a, b)
                if c is not None and not c(x): raise Unsupported('filtered parameters')
                r = f(x)
                return [self] if isinstance(r, tuple) and len(r) == 2 and r[0] is a and r[1] is b else None
        class Names(Seg):
            def zip(self, xs):
                if len(xs) == 2 and xs[0] is names and xs[1] is vals: return SList([pairs])
                raise Unsupported('other pairs')
        class Vals(Seg): pass
        names, vals, pairs = SList([Names()]), SList([Vals()]), Pairs()
        ker = Opaque('kernel', parameter_names_flat = lambda: names, param_array = vals)
        made = []
        def mkdict(x):
            if parts_of(x) != [pairs]: raise Unsupported('a dictionary of something else')
            made.append(Opaque('parameters by name')); return made[-1]
        HOOKS['dict'] = mkdict
        got = []
        class X:
            def match_up_fit_parameters(self, d, prefix = ''): got.append((d, prefix)); return 'done'
        st, r = E.call(ko.fit_ker_to_kex_with_params, ker, X())
        HOOKS['dict'] = None
        E.prove('a fitted kernel\'s parameters are handed over by their full names, inside the model', st == 'return' and r == 'done' and len(got) == 1 and got[0][1] == 'GP_regression.' and any(got[0][0] is q for q in made), lambda m: rp(r))
    run(start, 'fit_ker_to_kex_with_params', 'fit_ker_to_kex_with_params, get_param_dict')
    P.parallel(jobs)
