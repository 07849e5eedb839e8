from proofs.trees import *
from vc import engine as _e

def prove(P, only = None):
    patch_classes(); hook_membership()
    import GPy_ABCD.KernelExpressions.commutative_base as cb
    import GPy_ABCD.KernelExpressions.change as ch
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    from GPy_ABCD.KernelExpansion.kernelOperations import base_sigmoids
    P.assume_note(*TREE_NOTES)
    jobs = []
    ALL = BASES + sorted(base_sigmoids)
    B = z3.BoolSort()
    def run(f, name, function, **kw):
        def g():
            E.loop_specs[:] = []; OVERRIDE.clear(); f()
        jobs.append((name, g, function, dict(max_s = 200, **kw)))

    # contracts of the children: what the tree below them holds is given by uninterpreted propositions
    def query_key(bts): return '+'.join(sorted(p if isinstance(p, str) else repr(p) for p in (parts_of(bts) if isinstance(bts, list) else [bts])))
    def holds(x, key): return SBool(z3.Const(f'occurs in {x._abs.name}: {key}', B))
    def stat(x): return SBool(z3.Const(f'stationary: {x._abs.name}', B))
    CON = {'contains_base': lambda s, bts: holds(s, query_key(bts)), 'is_stationary': lambda s: stat(s)}

    def whole(kind, contracts, counts = True):
        own = {b: E.fresh(f'count[{b}]', z3.IntSort()) for b in BASES}
        for b in BASES: E.assume(own[b] >= 0)
        kids = Kids('children', KIND_CATS, nf = False, contracts = contracts)
        return arbitrary(kind, own, SList([kids])), own, kids
    def change(contracts):
        def br(n):
            i = E.choose(4, n)
            if i == 3: return BASES[E.choose(len(BASES), 'base')]
            return node(['sum', 'mul', 'chg'][i], n, contracts)
        return arbitrary('chg', None, None, CP_or_CW = ['CP', 'CW'][E.choose(2, 'kind')], left = br('left'), right = br('right'))
    def queries():
        i = E.choose(len(BASES) + 2, 'query')
        if i < len(BASES): return BASES[i], {b: b == BASES[i] for b in BASES}
        if i == len(BASES): return 'S', {b: False for b in BASES}
        q = Names('names asked for', ALL)
        return SList([q]), {b: q.n[b] > 0 for b in BASES}

    def contains(kind):
        def f():
            x, own, kids = whole(kind, CON)
            q, asked = queries()
            before = shot(x)
            st, v = E.call(x.contains_base, q)
            E.prove('contains_base returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            below = any_over(Img(kids, {k: holds(kids.rep(k), query_key(q)) for k in kids.cats}))
            want = z3.Or(raw(below), *[z3.And(asked[b], own[b] > 0) for b in BASES])
            E.prove('true exactly when one of the names is a base term here or occurs in a child', raw(v) == want)
            E.prove('nothing is modified', unchanged(x, before))
        return f
    run(contains('sum'), 'SumKE.contains_base', 'SumOrProductKE.contains_base'); run(contains('mul'), 'ProductKE.contains_base', 'SumOrProductKE.contains_base')
    def contains_change():
        x = change(CON); q, asked = queries()
        before = shot(x)
        st, v = E.call(x.contains_base, q)
        E.prove('contains_base returns', st == 'return', lambda m: rp(v))
        if st != 'return': return
        want = z3.Or(*[raw(z3.BoolVal(asked[y]) if isinstance(asked[y], bool) else asked[y]) if isinstance(y, str) else raw(holds(y, query_key(q))) for y in (x.left, x.right)])
        E.prove('true exactly when one of the names is a branch or occurs in one', raw(v) == want)
        E.prove('nothing is modified', unchanged(x, before))
    run(contains_change, 'ChangeKE.contains_base', 'ChangeKE.contains_base')

    def stationary(kind):
        def f():
            x, own, kids = whole(kind, CON)
            before = shot(x)
            st, v = E.call(x.is_stationary)
            E.prove('is_stationary returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            below = all_over(Img(kids, {k: stat(kids.rep(k)) for k in kids.cats}))
            E.prove('true exactly when no base term is linear and every child is stationary', raw(v) == z3.And(own['LIN'] == 0, raw(below)))
            E.prove('nothing is modified', unchanged(x, before))
        return f
    run(stationary('sum'), 'SumKE.is_stationary', 'SumOrProductKE.is_stationary'); run(stationary('mul'), 'ProductKE.is_stationary', 'SumOrProductKE.is_stationary')
    def stationary_sigmoids():
        own = {b: E.fresh(f'count[{b}]', z3.IntSort()) for b in ALL}
        for b in ALL: E.assume(own[b] >= 0)
        x = arbitrary('mul', None, SList(), ) if False else arbitrary('mul', {b: own[b] for b in ALL}, SList())
        st, v = E.call(x.is_stationary)
        E.prove('a product with a sigmoid factor is not stationary', st == 'return' and raw(v) == z3.And(*[own[b] == 0 for b in ['LIN'] + sorted(base_sigmoids)]))
    run(stationary_sigmoids, 'is_stationary with sigmoids', 'SumOrProductKE.is_stationary')
    def stationary_change():
        x = change(CON); before = shot(x)
        st, v = E.call(x.is_stationary)
        E.prove('a change operator is not stationary', st == 'return' and v is False, lambda m: rp(v))
        E.prove('nothing is modified', unchanged(x, before))
    run(stationary_change, 'ChangeKE.is_stationary', 'ChangeKE.is_stationary')

    # traversal and reduction: the children's own lists of nodes / accumulators are terms
    class NodesOf(Seg):
        def __init__(self, x): self.x = x
        def __repr__(self): return f'<nodes of {self.x._abs.name}>'
    def nodes_of(x):
        d = E.ghost.setdefault('nodes', {})
        if id(x) not in d: d[id(x)] = NodesOf(x)
        return d[id(x)]
    def reduced(x, f, acc):
        return Acc(('reduced', x, acc, f))
    class Acc:
        def __init__(self, t): self.t = t
        def __deepcopy__(self, memo): return self
        def __eq__(self, o): return isinstance(o, Acc) and len(self.t) == len(o.t) and all(a is b or (isinstance(a, Acc) and a == b) for a, b in zip(self.t, o.t))
        __hash__ = None
    SAME.append(lambda a, b: isinstance(a, Acc) and a == b) if (SAME := _e.SAME) is not None else None
    TR = {'traverse': lambda s: SList([nodes_of(s)]), 'reduce': lambda s, f, a: reduced(s, f, a)}
    def fold(self, f, acc):
        '''f(a, x) has to be the same function of any accumulator a, for every category of children'''
        gen = Acc(('accumulator so far',))
        vals = {k: E.local(lambda: f(gen, self.rep(k)), self.n[k] > 0) if E.feasible(self.n[k] > 0) else Acc(('reduced', self.rep(k), gen, E.ghost.get('func'))) for k in self.cats}
        for k, v in vals.items():
            E.prove('each child reduces the accumulator so far, with the same function, and passes it on', isinstance(v, Acc) and v.t[0] == 'reduced' and v.t[1] is self.rep(k) and v.t[2] is gen and v.t[3] is E.ghost['func'])
        return Acc(('children in order', self, acc))
    Kids.fold = fold
    def traverse(kind):
        def f():
            x, own, kids = whole(kind, TR); before = shot(x)
            st, v = E.call(x.traverse)
            E.prove('traverse returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            ps = parts_of(v)
            E.prove('the node itself comes first', len(ps) >= 1 and ps[0] is x)
            some = {k for k in kids.cats if E.feasible(kids.n[k] > 0)}
            ok = len(ps) == 2 and isinstance(ps[1], Flat) and ps[1].img.base is kids and some <= set(ps[1].img.vals) and all(isinstance(l, list) and len(l.parts()) == 1 and l.parts()[0] is nodes_of(kids.rep(k)) for k, l in ps[1].img.vals.items())
            E.prove('then the nodes of every child, once each, child by child', ok or (len(ps) == 1 and not some), lambda m: rp(v))
            E.prove('nothing is modified', unchanged(x, before))
        return f
    run(traverse('sum'), 'SumKE.traverse', 'SumOrProductKE.traverse'); run(traverse('mul'), 'ProductKE.traverse', 'SumOrProductKE.traverse')
    def stand_in(y, x, side):
        return type(y) is SumKE and '_abs' not in y.__dict__ and dict(+y.base_terms) == {getattr(x, side): 1} and len(y.composite_terms) == 0 and y.parent is x and y.root is x.root and y.__dict__.get('change_branch') == side
    def traverse_change():
        x = change(TR); before = shot(x)
        st, v = E.call(x.traverse)
        E.prove('traverse returns', st == 'return', lambda m: rp(v))
        if st != 'return': return
        ps = parts_of(v)
        ok = len(ps) == 3 and ps[0] is x and all((stand_in(p, x, s) if isinstance(getattr(x, s), str) else p is nodes_of(getattr(x, s))) for p, s in zip(ps[1:], ('left', 'right')))
        E.prove('the node itself, then its left branch, then its right branch; base branches as linked single-term sums', ok, lambda m: rp(v))
        E.prove('nothing is modified', unchanged(x, before))
    run(traverse_change, 'ChangeKE.traverse', 'ChangeKE.traverse, ChangeKE._leaf_stand_in')
    def func_of():
        calls = []
        def func(n, acc): calls.append((n, acc)); return Acc(('func', n, acc))
        E.ghost['func'] = func
        return func, calls
    def reduction(kind):
        def f():
            x, own, kids = whole(kind, TR); before = shot(x)
            func, calls = func_of(); acc = Acc(('start',))
            st, v = E.call(x.reduce, func, acc)
            E.prove('reduce returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            E.prove('the function is applied once to the node itself, first', len(calls) == 1 and calls[0][0] is x and calls[0][1] is acc)
            E.prove('then to every child in order, the accumulator threaded through', isinstance(v, Acc) and v.t[0] == 'children in order' and v.t[1] is kids and isinstance(v.t[2], Acc) and v.t[2].t[0] == 'func' and v.t[2].t[1] is x and v.t[2].t[2] is acc)
            E.prove('nothing is modified', unchanged(x, before))
        return f
    run(reduction('sum'), 'SumKE.reduce', 'SumOrProductKE.reduce'); run(reduction('mul'), 'ProductKE.reduce', 'SumOrProductKE.reduce')
    def reduction_change():
        x = change(TR); before = shot(x)
        func, calls = func_of(); acc = Acc(('start',))
        st, v = E.call(x.reduce, func, acc)
        E.prove('reduce returns', st == 'return', lambda m: rp(v))
        if st != 'return': return
        ok, a, cs = True, Acc(('func', x, acc)), list(calls)
        if not (cs and cs[0][0] is x and cs[0][1] is acc): ok = False
        else:
            cs.pop(0)
            for s in ('left', 'right'):
                y = getattr(x, s)
                if isinstance(y, str):
                    if not cs: ok = False; break
                    n, got = cs.pop(0)
                    ok = ok and type(n) is SumKE and dict(+n.base_terms) == {y: 1} and len(n.composite_terms) == 0 and n.parent is x and n.root is x.root and got == a
                    a = Acc(('func', n, got))
                else: a = Acc(('reduced', y, a, func))
            ok = ok and not cs and v == a
        E.prove('the function is applied to the node, the left branch and the right branch, in this order, the accumulator threaded through', ok, lambda m: rp(v))
        E.prove('nothing is modified', unchanged(x, before))
    run(reduction_change, 'ChangeKE.reduce', 'ChangeKE.reduce')
    P.parallel([j for j in jobs if only is None or only in j[0]])
