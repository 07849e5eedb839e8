from vc.engine import *
from vc.lists import *
from vc import engine as _e

def prove(P, only = None):
    '''only: the contracts another property relies on, proved again there'''
    E = P.E
    if only is not None:
        real = P
        class Some:
            def __getattr__(self, a): return getattr(real, a)
            def explore(self, name, f, function, **k):
                if name in only: real.explore(name, f, function, **k)
            def assume_note(self, *a): pass
        P = Some()
    import GPy_ABCD.Util.genericUtil as g
    P.assume_note('equality of elements is an equivalence relation', 'list.remove/in/append/len behave as the Python language defines them (axioms of vc/lists.py)',
                  'group_by and dictionary keys: hashing agrees with equality')
    E.branch_timeout = 300
    probe = z3.Const('c', El)

    def start(name = 'xs'):
        for a in axioms(): E.solver.add(a); E.pc.append(a)
        L = z3.Const(name, Ls)
        return L, SList([TSeg(L)])
    class Fold(LoopSpec):
        '''A loop over the list L: every accumulator equals a spec function of the processed prefix.'''
        def __init__(self, seg, objs, init, what, extra = None):
            # objs: the accumulators (lists); init(prefix) -> terms ; step via spec
            self.seg, self.objs, self.spec, self.what, self.extra = seg, objs, init, what, extra
        def entry(self, loc):
            E.prove(f'{self.what}: invariant holds on entry', z3.And(*[term(o) == t for o, t in zip(self.objs, self.spec['init'])]))
        def setstate(self, ts):
            for o, t in zip(self.objs, ts): list.__setitem__(o, slice(None), [TSeg(t)])
        def iteration(self, loc):
            self.x = Elem(z3.Const('x', El))
            self.state = [z3.Const(f'state{i}', Ls) for i in range(len(self.objs))]
            self.setstate(self.state)
            if self.extra: self.extra('iter', self)
            return self.x
        def preserved(self, loc):
            new = self.spec['step'](self.state, self.x.z)
            E.prove(f'{self.what}: invariant is preserved', z3.And(*[term(o) == t for o, t in zip(self.objs, new)]))
        def exit(self, loc):
            self.final = self.spec['final']
            self.setstate(self.final)

    # interval_overlap
    def overlap():
        a, b, c, d = Real('a0'), Real('a1'), Real('b0'), Real('b1')
        E.assume(And(a <= b, c <= d))
        def num(m, x): v = m.eval(x.z, model_completion = True); return float(v.as_fraction())
        case = lambda m: dict(case = 'overlap', data = [[num(m, a), num(m, b)], [num(m, c), num(m, d)]])
        kind, v = E.call(g.interval_overlap, (a, b), (c, d))
        E.prove('returns', kind == 'return', repr(v), case)
        lo, hi = z3.If(a.z >= c.z, a.z, c.z), z3.If(b.z <= d.z, b.z, d.z)
        w = z3.If(hi > lo, hi - lo, z3.RealVal(0))
        E.prove('is the length of the intersection', both(v, SNum(w))[0] == w, '', case)
    P.explore('interval_overlap', overlap, 'genericUtil.interval_overlap', exact = True)

    # unique: keeps the first occurrence of each element, in order: U([]) = [], U(P.x) = U(P) if x in U(P) else U(P).x
    U = z3.Const('U_xs', Ls)
    ustep = lambda s, x: [z3.If(has(t, x), t, snoc(t, x)) for t in s]
    def uniq():
        L, xs = start()
        seen_spec = {}
        def comp_spec(seg, f, c, where):
            if not (isinstance(seg, TSeg) and seg.t.eq(L)): return None
            objs = lists_in(*cells(f, c))
            if len(objs) != 1: raise Unsupported('unique: expected one list of seen elements')
            sp = Fold(seg, objs, dict(init = [nil], step = ustep, final = [U]), 'unique')
            sp.entry(None)
            if E.choose(2, 'comp') == 0:
                x = sp.iteration(None)
                keep = True if c is None else bool(c(x))
                E.prove('unique: an element is kept exactly when it was not seen', keep == True if False else (z3.Not(has(sp.state[0], x.z)) if keep else has(sp.state[0], x.z)))
                if keep: E.prove('unique: kept elements are the given ones', f(x) is x)
                sp.preserved(None)
                raise PathEnd
            sp.exit(None)
            return [TSeg(U)]
        def loop_spec(where, seg, loc, names):
            if not (isinstance(seg, TSeg) and seg.t.eq(L)): return None
            objs = [o for o in lists_in(*loc.values()) if o is not xs and not o.opaque()]
            return Fold(seg, objs, dict(init = [nil] * len(objs), step = ustep, final = [U] * len(objs)), 'unique')
        E.loop_specs[:] = [loop_spec]; _e.vc.comp_specs[:] = [comp_spec]
        kind, v = E.call(g.unique, xs)
        E.prove('unique: returns', kind == 'return', repr(v))
        E.prove('unique: the result is the list of first occurrences', term(v) == U)
        E.prove('unique: the argument is not modified', term(xs) == L)
        E.prove('unique: the result is a new list', v is not xs)
    P.explore('unique', uniq, 'genericUtil.unique')

    # diff: D(xs, []) = xs, D(xs, P.y) = D(xs, P) without the first y (if any)
    D = z3.Const('D_xs_ys', Ls)
    dstep = lambda s, y: [z3.If(has(t, y), rm1(t, y), t) for t in s]
    def diff():
        L, xs = start('xs'); M, ys = z3.Const('ys', Ls), None
        ys = SList([TSeg(M)])
        def loop_spec(where, seg, loc, names):
            if not (isinstance(seg, TSeg) and seg.t.eq(M)): return None
            objs = [o for o in lists_in(*loc.values()) if o is not ys and o is not xs and o.opaque()]
            return Fold(seg, objs, dict(init = [L] * len(objs), step = dstep, final = [D] * len(objs)), 'diff')
        E.loop_specs[:] = [loop_spec]; _e.vc.comp_specs[:] = []
        kind, v = E.call(g.diff, xs, ys)
        E.prove('diff: returns', kind == 'return', repr(v))
        E.prove('diff: the result is the list without one occurrence per present element, in order', term(v) == D)
        E.prove('diff: the arguments are not modified', z3.And(term(xs) == L, term(ys) == M))
    P.explore('diff', diff, 'genericUtil.diff')

    # eq_elems: multiset equality. Invariant: count(cys, c) + count(prefix, c) == count(ys, c) for every c
    def eqe():
        L, xs = start('xs'); M = z3.Const('ys', Ls); ys = SList([TSeg(M)])
        c = z3.Const('cc', El)
        st = {}
        class Spec(LoopSpec):
            def __init__(self, objs): self.objs = objs
            def inv(self, pre):
                return z3.And(*[z3.ForAll([c], cnt(term(o), c) + pre(c) == cnt(M, c)) for o in self.objs])
            def entry(self, loc): E.prove('eq_elems: invariant holds on entry', self.inv(lambda c: 0))
            def iteration(self, loc):
                self.P = z3.Const('prefix', Ls); self.x = Elem(z3.Const('x', El))
                for i, o in enumerate(self.objs): list.__setitem__(o, slice(None), [TSeg(z3.Const(f'rest{i}', Ls))])
                E.assume(self.inv(lambda c: cnt(self.P, c)))
                # prefix + [x] is a prefix of xs
                E.assume(z3.ForAll([c], cnt(self.P, c) + z3.If(c == self.x.z, 1, 0) <= cnt(L, c)))
                return self.x
            def preserved(self, loc):
                E.prove('eq_elems: invariant is preserved', self.inv(lambda c: cnt(self.P, c) + z3.If(c == self.x.z, 1, 0)))
            def exit(self, loc):
                for i, o in enumerate(self.objs): list.__setitem__(o, slice(None), [TSeg(z3.Const(f'left{i}', Ls))])
                E.assume(self.inv(lambda c: cnt(L, c)))
        def loop_spec(where, seg, loc, names):
            if not (isinstance(seg, TSeg) and seg.t.eq(L)): return None
            objs = [o for o in lists_in(*loc.values()) if o is not ys and o is not xs and o.opaque()]
            if not objs: raise Unsupported('eq_elems: no copy of the second list')
            return Spec(objs)
        E.loop_specs[:] = [loop_spec]; _e.vc.comp_specs[:] = []
        kind, v = E.call(g.eq_elems, xs, ys)
        E.prove('eq_elems: returns', kind == 'return', repr(v))
        same = z3.ForAll([c], cnt(L, c) == cnt(M, c))
        E.prove('eq_elems: true exactly for equal multisets', same if bool(v) else z3.Not(same), f'answer {bool(v)}')
        E.prove('eq_elems: the arguments are not modified', z3.And(term(xs) == L, term(ys) == M))
    P.explore('eq_elems', eqe, 'genericUtil.eq_elems')

    # partition: (filter p xs, filter (not p) xs)
    def part():
        L, xs = start()
        pred = z3.Function('p', El, B)
        F, N = z3.Const('filter_p', Ls), z3.Const('filter_not_p', Ls)
        step = lambda s, x: [z3.If(pred(x), snoc(s[0], x), s[0]), z3.If(pred(x), s[1], snoc(s[1], x))]
        def loop_spec(where, seg, loc, names):
            if not (isinstance(seg, TSeg) and seg.t.eq(L)): return None
            objs = [o for o in lists_in(*loc.values()) if o is not xs]
            if len(objs) != 2: raise Unsupported('partition: expected two accumulators')
            # which accumulator is which is read off the result; by construction the first listed one holds the filtered elements
            sp = Fold(seg, objs, dict(init = [nil, nil], step = step, final = [F, N]), 'partition')
            return sp
        def comp_spec(seg, f, c, where):
            if not (isinstance(seg, TSeg) and seg.t.eq(L)): return None
            x = Elem(z3.Const('xg', El))
            k = bool(c(x)) if c else True; E.prove('partition: comprehension keeps elements', f(x) is x)
            pos = z3.And(*E.pc)
            raise Unsupported('partition by comprehension')
        E.loop_specs[:] = [loop_spec]; _e.vc.comp_specs[:] = [comp_spec]
        kind, v = E.call(g.partition, lambda x: SBool(pred(x.z)), xs)
        E.prove('partition: returns', kind == 'return', repr(v))
        E.prove('partition: first the elements satisfying the predicate, then the others, in order', z3.And(term(v[0]) == F, term(v[1]) == N))
        E.prove('partition: the argument is not modified', term(xs) == L)
    P.explore('partition', part, 'genericUtil.partition')

    # flatten: concatenation, for a list of arbitrarily many lists
    def flat():
        L, xs = start()
        class Lists(Seg):
            def flat(self): return [TSeg(L)]
            def loop_spec(self, *a): return None
        xss = SList([Lists()])
        E.loop_specs[:] = []; _e.vc.comp_specs[:] = []
        kind, v = E.call(g.flatten, xss)
        E.prove('flatten: returns', kind == 'return', repr(v))
        E.prove('flatten: the concatenation', term(v) == L)
    P.explore('flatten', flat, 'genericUtil.flatten')

    # chunk: consecutive slices of n elements from 0 on, together the whole list
    def chunk():
        L, xs = start()
        n = Int('n'); E.assume(n >= 1)
        ln = SNum(size(L))
        class Range(Seg):
            def __init__(self, lo, hi, st): self.lo, self.hi, self.st = lo, hi, st
            def comp(self, f, c, where):
                if c is not None: raise Unsupported('filtered range')
                i, j = Int('i'), Int('j')
                E.assume(And(j >= 0, i.z == zv(self.lo) + zv(self.st) * j.z, i < SNum(zv(self.hi))))
                return [Chunks(self, i, f(i))]
        class Chunks(Seg):
            def __init__(self, r, i, piece): self.r, self.i, self.piece = r, i, piece
        class Slice(Seg):
            def __init__(self, a, b): self.a, self.b = a, b
        def rng(*a):
            a = [0, a[0], 1] if len(a) == 1 else [*a, 1] if len(a) == 2 else a
            return SList([Range(*a)])
        def slc(l, s):
            if l is not xs or s.step is not None: raise Unsupported('slice of something else')
            return SList([Slice(0 if s.start is None else s.start, ln if s.stop is None else s.stop)])
        HOOKS['range'], HOOKS['slice'] = rng, slc
        try:
            kind, v = E.call(g.chunk, xs, n)
            E.prove('chunk: returns', kind == 'return', repr(v))
            if not is_sym(v): raise Unsupported('chunk by other means')
            ps = parts_of(v)
            ok = len(ps) == 1 and isinstance(ps[0], Chunks) and is_sym(ps[0].piece) and len(ps[0].piece.parts()) == 1 and isinstance(ps[0].piece.parts()[0], Slice)
            if not ok: raise Unsupported('chunk of another shape')
            c = ps[0]; s = c.piece.parts()[0]
            E.prove('chunk: the first chunk starts at the beginning', zv(c.r.lo) == 0)
            E.prove('chunk: every chunk starts where the previous one ended', z3.And(zv(s.a) == c.i.z, zv(s.b) == c.i.z + zv(c.r.st)))
            E.prove('chunk: chunks have n elements', zv(c.r.st) == n.z)
            E.prove('chunk: the last chunk reaches the end', zv(c.r.hi) == ln.z)
            E.prove('chunk: the argument is not modified', term(xs) == L)
        finally: HOOKS['range'] = HOOKS['slice'] = None
    P.explore('chunk', chunk, 'genericUtil.chunk')

    # group_by: a fold which appends every element to the list of its key, all other lists staying as they are
    key = z3.Function('key', El, El)
    Map = z3.ArraySort(El, Ls)
    class Table:
        """defaultdict(list) over arbitrary keys"""
        def __init__(self): self.m = z3.K(El, nil); self.touched = z3.K(El, z3.BoolVal(False))
        def _k(self, k):
            if not isinstance(k, Elem): raise Unsupported(f'{k!r} as a key')
            return k.z
        def __getitem__(self, k): k = self._k(k); self.touched = z3.Store(self.touched, k, True); return Cell(self, k)
        def setdefault(self, k, d = None): return self[k]
        def __setitem__(self, k, v):
            k = self._k(k); self.touched = z3.Store(self.touched, k, True)
            if isinstance(v, Cell) and v.table is self and v.k.eq(k): return
            self.m = z3.Store(self.m, k, z3.Select(v.table.m, v.k) if isinstance(v, Cell) else term(v))
        def __contains__(self, k): return E.decide(z3.Select(self.touched, self._k(k)))
        def __getattr__(self, a): raise Unsupported(f'{a} of a grouping')
    class Cell:
        def __init__(self, table, k): self.table, self.k = table, k
        def append(self, x): self.table.m = z3.Store(self.table.m, self.k, snoc(z3.Select(self.table.m, self.k), x.z))
        def extend(self, xs):
            for x in xs: self.append(x)
        def __iadd__(self, xs): self.extend(xs); return self
        def __add__(self, xs):
            t = z3.Select(self.table.m, self.k)
            for x in xs: t = snoc(t, x.z)
            return SList([TSeg(t)])
        def __getattr__(self, a): raise Unsupported(f'{a} of a group')
    def parts_case(m): return [dict(case = 'partition', data = [[1, 2, 3, 4, 6, 1, 3], how]) for how in ('', 'E', 'list')]
    def group():
        L = z3.Const('xs', Ls); xs = SList([TSeg(L)])
        made = []
        def dd(f = None):
            if f is not None and not f == list: raise Unsupported('a defaultdict of something else')
            made.append(Table()); return made[-1]
        class Spec(LoopSpec):
            def entry(self, loc): E.prove('group_by: starts with no groups', z3.And(*[t.m == z3.K(El, nil) for t in made]) if made else False)
            def iteration(self, loc):
                self.st = [(z3.Const(f'groups{i}', Map), z3.Const(f'keys{i}', z3.ArraySort(El, B))) for i, t in enumerate(made)]
                for t, (m, k) in zip(made, self.st): t.m, t.touched = m, k
                self.x = Elem(z3.Const('x', El)); return self.x
            def preserved(self, loc):
                x = self.x.z; k = key(x)
                E.prove('group_by: an element goes to the end of the group of its key, every other group stays', z3.And(*[t.m == z3.Store(m, k, snoc(z3.Select(m, k), x)) for t, (m, q) in zip(made, self.st)]), '', parts_case)
                E.prove('group_by: the groups are those of the keys met', z3.And(*[t.touched == z3.Store(q, k, True) for t, (m, q) in zip(made, self.st)]), '', parts_case)
            def exit(self, loc):
                for t in made: t.m, t.touched = z3.Const('groups_xs', Map), z3.Const('keys_xs', z3.ArraySort(El, B))
        E.loop_specs[:] = [lambda where, seg, loc, names: Spec() if isinstance(seg, TSeg) and seg.t.eq(L) and made else None]; _e.vc.comp_specs[:] = []
        was = g.defaultdict
        g.defaultdict = dd
        try:
            kind, v = E.call(g.group_by, lambda x: Elem(key(x.z)), xs)
            E.prove('group_by: returns', kind == 'return', repr(v), parts_case)
            if kind != 'return': return
            if not isinstance(v, Table): raise Unsupported('group_by by other means')
            E.prove('group_by: the result holds the groups of all elements', z3.And(v.m == z3.Const('groups_xs', Map), v.touched == z3.Const('keys_xs', z3.ArraySort(El, B))), '', parts_case)
            E.prove('group_by: the argument is not modified', term(xs) == L)
        finally: g.defaultdict = was
    P.explore('group_by', group, 'genericUtil.group_by')

    # update_dict_with: keys of both are combined, keys of one keep their value; the first dictionary is the result
    Val = z3.DeclareSort('Value')
    F2 = z3.Function('f', Val, Val, Val)
    VMap, KSet = z3.ArraySort(El, Val), z3.ArraySort(El, B)
    class V:
        def __init__(self, z_): self.z = z_
        def __bool__(self): raise Unsupported('truth of an arbitrary value')
        def __eq__(self, o): raise Unsupported('equality of arbitrary values')
        __hash__ = None
    class Dict:
        """a dictionary with arbitrary keys and values"""
        def __init__(self, n): self.dom, self.val = z3.Const(f'{n}_keys', KSet), z3.Const(f'{n}_values', VMap); self.n = n
        def _k(self, k):
            if not isinstance(k, Elem): raise Unsupported(f'{k!r} as a key')
            return k.z
        def __contains__(self, k): return E.decide(z3.Select(self.dom, self._k(k)))
        def __getitem__(self, k):
            if k not in self: raise KeyError(k)
            return V(z3.Select(self.val, self._k(k)))
        def get(self, k, d = None): return self[k] if k in self else d
        def setdefault(self, k, d = None):
            if k not in self: self[k] = d
            return self[k]
        def __setitem__(self, k, v):
            if not isinstance(v, V): raise Unsupported(f'{v!r} as a value')
            self.val = z3.Store(self.val, self._k(k), v.z); self.dom = z3.Store(self.dom, self._k(k), True)
        def items(self): return SList([Entries(self, True)])
        def keys(self): return SList([Entries(self, False)])
        def _vc_iter(self): return self.keys()
        def __getattr__(self, a):
            if a.startswith('_vc') or a.startswith('__'): raise AttributeError(a)
            raise Unsupported(f'{a} of a dictionary')
    class Entries(Seg):
        def __init__(self, d, pairs): self.d, self.pairs = d, pairs
        def length(self): return Int('size')
    def merge():
        d0, d1 = Dict('d0'), Dict('d1')
        o0, v0, o1, v1 = d0.dom, d0.val, d1.dom, d1.val
        k = z3.Const('k', El)
        def inv(done): # done: the keys of d1 which have been merged
            new = z3.If(z3.Select(o0, k), F2(z3.Select(v0, k), z3.Select(v1, k)), z3.Select(v1, k))
            return z3.And(z3.ForAll([k], z3.Select(d0.dom, k) == z3.Or(z3.Select(o0, k), z3.Select(done, k))),
                          z3.ForAll([k], z3.Implies(z3.Select(d0.dom, k), z3.Select(d0.val, k) == z3.If(z3.Select(done, k), new, z3.Select(v0, k)))))
        class Spec(LoopSpec):
            def __init__(self, seg): self.seg = seg
            def entry(self, loc):
                E.prove('update_dict_with: entries are merged from the second dictionary', self.seg.d is d1)
                E.prove('update_dict_with: the first dictionary is untouched before the loop', inv(z3.K(El, z3.BoolVal(False))))
            def iteration(self, loc):
                self.done, self.x = z3.Const('done', KSet), z3.Const('key', El)
                d0.dom, d0.val = z3.Const('d0_keys_now', KSet), z3.Const('d0_values_now', VMap)
                E.assume(z3.ForAll([k], z3.Implies(z3.Select(self.done, k), z3.Select(o1, k))))
                E.assume(z3.And(z3.Select(o1, self.x), z3.Not(z3.Select(self.done, self.x))))
                E.assume(inv(self.done))
                return (Elem(self.x), V(z3.Select(v1, self.x))) if self.seg.pairs else Elem(self.x)
            def preserved(self, loc): E.prove('update_dict_with: shared keys are combined in order, new keys take the second value, the others keep theirs', inv(z3.Store(self.done, self.x, True)), '', rep)
            def exit(self, loc):
                d0.dom, d0.val = z3.Const('d0_keys_end', KSet), z3.Const('d0_values_end', VMap)
                E.assume(inv(o1))
        E.loop_specs[:] = [lambda where, seg, loc, names: Spec(seg) if isinstance(seg, Entries) else None]; _e.vc.comp_specs[:] = []
        rep = lambda m: [dict(case = 'dict', data = [{'a': [1], 'b': [2]}, {'b': [3], 'c': [4]}]), dict(case = 'dict', data = [{}, {'b': [3]}]), dict(case = 'dict', data = [{'b': []}, {'b': [3]}])]
        kind, v = E.call(g.update_dict_with, d0, d1, lambda a, b: V(F2(a.z, b.z)))
        E.prove('update_dict_with: returns', kind == 'return', repr(v), rep)
        E.prove('update_dict_with: the result is the first dictionary', v is d0, '', rep)
        E.prove('update_dict_with: shared keys are combined, the others kept', inv(o1), '', rep)
        E.prove('update_dict_with: the second dictionary is not modified', z3.And(d1.dom == o1, d1.val == v1), '', rep)
    P.explore('update_dict_with', merge, 'genericUtil.update_dict_with')

    # topological_sort, foldq_, foldq: invariant: the sorted nodes come after their dependencies, the remaining list holds the other nodes, each with its unsorted dependencies
    node, dep = z3.Function('node', El, B), z3.Function('depends', El, El, B)
    a_, d_ = z3.Const('a', El), z3.Const('d', El)
    class Deps(Seg):
        """the dependencies of one entry; p: which elements they are"""
        def __init__(self, p): self.p = p
        def length(self):
            n = Int('n_deps'); w = E.fresh('a_dep', El)
            E.fact(n.z >= 0, z3.Implies(n.z > 0, self.p(w)), z3.Implies(n.z == 0, z3.ForAll([d_], z3.Not(self.p(d_)))))
            return n
        def contains(self, x): return E.decide(self.p(x.z)) if isinstance(x, Elem) else False
        def comp(self, f, c, where):
            d = Elem(E.fresh('dep', El))
            E.prove('topological_sort: dependencies are only dropped, not changed', E.local(lambda: f(d) is d))
            if c is None: return [self]
            keep = raw(E.local(lambda: c(d)))
            keep = z3.BoolVal(keep) if isinstance(keep, bool) else keep
            return [Deps(lambda y: z3.And(self.p(y), z3.substitute(keep, (d.z, y))))]
    class Rest(Seg):
        """the remaining entries; mem: which nodes, deps: with which dependencies"""
        def __init__(self, mem, deps): self.mem, self.deps = mem, deps
        def length(self):
            n = Int('n_rest'); w = E.fresh('a_node', El)
            E.fact(n.z >= 0, z3.Implies(n.z > 0, self.mem(w)), z3.Implies(n.z == 0, z3.ForAll([a_], z3.Not(self.mem(a_)))))
            return n
        def entry(self, e): return (Elem(e), SList([Deps(lambda y: self.deps(e, y))]))
        def comp(self, f, c, where):
            e = E.fresh('entry', El)
            E.fact(z3.BoolVal(True))
            x = self.entry(e); deps = x[1].parts()
            def run():
                if c is not None and not (r := c(x)): return None
                return f(x)
            if c is not None: # which entries stay
                keep = raw(E.local(lambda: c(x))); keep = z3.BoolVal(keep) if isinstance(keep, bool) else keep
            else: keep = z3.BoolVal(True)
            r = f(x)
            E.prove('topological_sort: the arguments are not modified', list(x[1].parts()) == deps, '', topo_case)
            if not (isinstance(r, tuple) and len(r) == 2): raise Unsupported('entries which are no pairs')
            E.prove('topological_sort: entries keep their node', isinstance(r[0], Elem) and r[0].z.eq(e))
            ps = r[1].parts() if isinstance(r[1], SList) else list(r[1])
            if not (len(ps) == 1 and isinstance(ps[0], Deps)): raise Unsupported('dependencies of another shape')
            q = ps[0].p
            return [Rest(lambda y: z3.And(self.mem(y), z3.substitute(keep, (e, y))), lambda y, d: z3.substitute(q(d), (e, y)))]
    def topo_case(m): return [dict(case = 'topological', data = [len(q), q]) for q in ([[0, [1]], [1, [2]], [2, []]], [[0, []], [1, [0, 2]], [2, [0]]], [[0, [1]], [1, [0]]], [[0, []]], [[0, [1, 1]], [1, []]], [[0, []], [1, [0]], [2, [1, 2]]])]
    def topo():
        first = Rest(lambda a: node(a), lambda a, d: dep(a, d))
        src = SList([first])
        state = {}
        waits = lambda s: z3.ForAll([a_], z3.Implies(s.mem(a_), z3.Exists([d_], s.deps(a_, d_))))
        def the(xs):
            ps = xs.parts() if isinstance(xs, SList) else [None]
            if not (len(ps) == 1 and isinstance(ps[0], Rest)): raise Unsupported('the remaining entries are not in one list')
            return ps[0]
        def matches(s, done): # exactly the unsorted nodes, each with its unsorted dependencies
            return z3.And(z3.ForAll([a_], s.mem(a_) == z3.And(node(a_), z3.Not(done(a_)))), z3.ForAll([a_, d_], z3.Implies(s.mem(a_), s.deps(a_, d_) == z3.And(dep(a_, d_), z3.Not(done(d_))))))
        def accs(loc): return [(n, v) for n, v in loc.items() if isinstance(v, SList) and not any(isinstance(p, (Rest, Deps)) for p in v.parts())]
        def rests(loc): return [(n, v) for n, v in loc.items() if isinstance(v, SList) and any(isinstance(p, Rest) for p in v.parts()) and v is not src]
        class Outer(LoopSpec):
            def find(self, loc):
                a, r = accs(loc), rests(loc)
                if len(a) != 1 or len(r) != 1: raise Unsupported(f'topological_sort: expected one list of sorted nodes and one of remaining entries, not {[n for n, _ in a]}, {[n for n, _ in r]}')
                return a[0], r[0]
            def entry(self, loc):
                (self.an, a), (self.rn, r) = self.find(loc)
                E.prove('topological_sort: nothing is sorted at the start', not a.parts() and matches(the(r), lambda x: z3.BoolVal(False)), '', topo_case)
            def iteration(self, loc):
                self.A = z3.Const('sorted', Ls)
                done = self.done = lambda x: has(self.A, x)
                E.assume(z3.ForAll([a_], z3.Implies(done(a_), node(a_))))
                self.acc, self.rest = SList([TSeg(self.A)]), SList([Rest(lambda a: z3.And(node(a), z3.Not(done(a))), lambda a, d: z3.And(dep(a, d), z3.Not(done(d))))])
                state['outer'] = self
                self.locals = {self.an: self.acc, self.rn: self.rest}
            def preserved(self, loc):
                a, r = loc[self.an], loc[self.rn]
                ps = a.parts() if isinstance(a, SList) else []
                ok = len(ps) == 2 and isinstance(ps[0], TSeg) and ps[0].t.eq(self.A) and isinstance(ps[1], Elem)
                E.prove('topological_sort: one node is appended per round', ok, lambda m: repr(a), topo_case)
                if not ok: return
                e = ps[1].z
                E.prove('topological_sort: the node is one not sorted before', z3.And(node(e), z3.Not(self.done(e))), '', topo_case)
                E.prove('topological_sort: all its dependencies come before it', z3.ForAll([d_], z3.Implies(dep(e, d_), self.done(d_))), '', topo_case)
                E.prove('topological_sort: exactly the other nodes remain, with their unsorted dependencies', matches(the(r), lambda x: z3.Or(self.done(x), x == e)), '', topo_case)
        class Scan(LoopSpec):
            """look for the first entry without dependencies"""
            def __init__(self, seg): self.seg = seg
            def entry(self, loc):
                if isinstance(self.seg, Range): E.prove('topological_sort: every remaining entry is looked at', z3.And(zv(self.seg.lo) == 0, zv(self.seg.st) == 1, zv(self.seg.hi) == self.seg.n.z), '', topo_case)
            def iteration(self, loc):
                s = self.s = self.seg.rest
                self.e = E.fresh('candidate', El); E.assume(s.mem(self.e))
                self.i = Int('i'); state['at'] = (self.i, s, self.e)
                return self.seg.item(self.i, s.entry(self.e))
            def preserved(self, loc): E.prove('topological_sort: an entry is passed over only while it has dependencies', z3.Exists([d_], self.s.deps(self.e, d_)), '', topo_case)
            def exit(self, loc): E.assume(waits(self.seg.rest))
        class Range(Seg):
            def __init__(self, lo, hi, st, rest, n): self.lo, self.hi, self.st, self.rest, self.n = lo, hi, st, rest, n
            def item(self, i, x): return i
            def length(self): return self.n
        class Items(Seg):
            def __init__(self, rest, pairs): self.rest, self.pairs = rest, pairs
            def item(self, i, x): return (i, x) if self.pairs else x
            def length(self): return self.rest.length()
        lens = {}
        def length(s):
            if id(s) not in lens: lens[id(s)] = (s, Rest_length(s))
            return lens[id(s)][1]
        Rest_length = Rest.length
        def rng(*a):
            a = [0, a[0], 1] if len(a) == 1 else [*a, 1] if len(a) == 2 else list(a)
            hit = [(s, n) for s, n in lens.values() if z3.simplify(zv(a[1]) - n.z).eq(z3.IntVal(0)) or zv(a[1]).eq(z3.simplify(n.z))]
            if not hit: raise Unsupported('a range over something else')
            return SList([Range(*a, *hit[0])])
        def at(l, i):
            s = the(l)
            if 'at' in state and isinstance(i, SNum) and i.z.eq(state['at'][0].z) and s is state['at'][1]: return s.entry(state['at'][2])
            raise Unsupported('another index')
        def drop(l, i):
            s = the(l)
            if not ('at' in state and isinstance(i, SNum) and i.z.eq(state['at'][0].z) and s is state['at'][1]): return False
            e = state['at'][2]
            list.__setitem__(l, slice(None), [Rest(lambda a: z3.And(s.mem(a), a != e), s.deps)]); return True
        def loop_spec(where, seg, loc, names):
            if seg is None: return Outer()
            if isinstance(seg, (Range, Items)): return Scan(seg)
            if isinstance(seg, Rest): return Scan(Items(seg, False))
        E.loop_specs[:] = [loop_spec]; _e.vc.comp_specs[:] = []
        HOOKS.update(range = rng, index = at, delitem = drop, enumerate = lambda xs, st: SList([Items(the(xs), True)]) if st == 0 else None)
        Rest.length = length
        try:
            kind, v = E.call(g.topological_sort, src)
            E.prove('topological_sort: the arguments are not modified', src.parts() == [first], '', topo_case)
            o = state.get('outer')
            if o is None: raise Unsupported('topological_sort by other means')
            if kind == 'return':
                E.prove('topological_sort: the result is the list of sorted nodes', isinstance(v, SList) and len(v.parts()) == 1 and isinstance(v.parts()[0], TSeg) and v.parts()[0].t.eq(o.A), lambda m: repr(v), topo_case)
                E.prove('topological_sort: every node is listed', z3.ForAll([a_], z3.Implies(node(a_), o.done(a_))), '', topo_case)
            else:
                E.prove('topological_sort: raises a ValueError', isinstance(v, ValueError), repr(v), topo_case)
                E.prove('topological_sort: raises only when nodes remain which all wait for an unlisted one', z3.And(z3.Exists([a_], z3.And(node(a_), z3.Not(o.done(a_)))),
                        z3.ForAll([a_], z3.Implies(z3.And(node(a_), z3.Not(o.done(a_))), z3.Exists([d_], z3.And(dep(a_, d_), z3.Not(o.done(d_))))))), '', topo_case)
        finally:
            Rest.length = Rest_length
            HOOKS.update(range = None, index = None, delitem = None, enumerate = None)
    P.explore('topological_sort', topo, 'genericUtil.topological_sort, genericUtil.foldq_, genericUtil.foldq')
