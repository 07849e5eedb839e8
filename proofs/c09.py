from proofs.trees import *
from vc import engine as _e

def prove(P):
    from proofs import c22
    c22.prove(P, {'eq_elems', 'unique'})
    E.loop_specs[:] = []; _e.vc.comp_specs[:] = []
    patch_classes()
    import GPy_ABCD.KernelExpressions.commutative_base as cb
    P.assume_note(*TREE_NOTES, 'sub-expressions: == of two children holds exactly when they denote the same expression (induction hypothesis)')
    K, M = z3.DeclareSort('Denotation'), z3.DeclareSort('MultisetOfDenotations')
    jobs = []
    den = lambda x: z3.Const(f'denotation of {x._abs.name}', K)
    def child_eq(s, o):
        if isinstance(o, (str, int, float, type(None))): return False
        if '_abs' not in getattr(o, '__dict__', {}): raise Unsupported(f'a child compared with {rp(o)}')
        return SBool(den(s) == den(o))
    CON = {'__eq__': child_eq}
    def mset(l):
        ps = parts_of(l)
        if not ps: raise Unsupported('an empty list where the terms are expected')
        if len(ps) == 1 and isinstance(ps[0], Kids): return z3.Const(f'multiset of {ps[0].name}', M)
        raise Unsupported(f'eq_elems of {rp(l)}')
    def contract_eq_elems(xs, ys): return SBool(mset(xs) == mset(ys)) # proved above (C22) for any lists
    def build(kind, name):
        if kind == 'chg':
            def br(n):
                i = E.choose(3, n)
                return node(['sum', 'chg'][i], f'{name}.{n}', CON) if i < 2 else STR(f'{name}.{n}')
            ck = ['CP', 'CW'][E.choose(2, 'kind')]
            return arbitrary('chg', None, None, CP_or_CW = ck, left = br('left'), right = br('right'), parameters = Opaque('parameters')), dict(ck = ck)
        own = {b: E.fresh(f'{name}[{b}]', z3.IntSort()) for b in ALL}
        for b in ALL: E.assume(own[b] >= 0)
        kids = Kids(f'{name}.terms', KIND_CATS, nf = False, contracts = CON)
        return arbitrary(kind, own, SList([kids]), parameters = Opaque('parameters')), dict(own = own, kids = kids)
    from GPy_ABCD.KernelExpansion.kernelOperations import base_sigmoids
    ALL = BASES + sorted(base_sigmoids)
    def STR(name): return BASES[E.choose(2, name)]
    def same(kind, x, y, a, b):
        if kind == 'chg':
            parts = [z3.BoolVal(a['ck'] == b['ck'])]
            for s in ('left', 'right'):
                l, r = getattr(x, s), getattr(y, s)
                if isinstance(l, str) or isinstance(r, str): parts.append(z3.BoolVal(isinstance(l, str) and isinstance(r, str) and l == r))
                else: parts.append(den(l) == den(r))
            return z3.And(*parts)
        return z3.And(*[a['own'][b_] == b['own'][b_] for b_ in ALL], z3.Const(f'multiset of {a["kids"].name}', M) == z3.Const(f'multiset of {b["kids"].name}', M))
    def case_of(kind, x, y, a, b):
        if kind == 'chg':
            def go(m):
                def spec(n, other, first):
                    if isinstance(n, str): return n
                    k = n._abs.name
                    eq = not isinstance(other, str) and z3.is_true(m.eval(den(n) == den(other), model_completion = True))
                    return ['sum', ['PER', 'SE']] if first or eq else ['sum', ['PER', 'LIN']]
                return dict(case = 'raw', data = [[a['ck'], spec(x.left, y.left, True), spec(x.right, y.right, True)], [b['ck'], spec(y.left, x.left, False), spec(y.right, x.right, False)]])
            return go
        def go(m):
            eq = z3.is_true(m.eval(z3.Const(f'multiset of {a["kids"].name}', M) == z3.Const(f'multiset of {b["kids"].name}', M), model_completion = True))
            def items(own): return [q for q in BASES for _ in range(min(3, max(0, model_int(m, own[q]))))]
            A, B = ['sum' if kind == 'mul' else 'mul', ['PER', 'SE']], ['sum' if kind == 'mul' else 'mul', ['PER', 'LIN']]
            pairs = [([A], [A]), ([A, B], [B, A]), ([A, A, B], [B, A, A]), ([], [])] if eq else [([A], [B]), ([A], []), ([], [A]), ([A, A], [A]), ([A, A, B], [A, B, B]), ([A], [A, B])]
            ia, ib = items(a['own']), items(b['own'])
            return [dict(case = 'raw', data = [[kind, ia + p], [kind, ib + q]]) for p, q in pairs]
        return go
    def run(f, name, function, **kw):
        def g():
            E.loop_specs[:] = []; OVERRIDE.clear()
            cb.eq_elems = contract_eq_elems
            f()
        jobs.append((name, g, function, dict(max_s = 200, **kw)))
    CLS = {'sum': 'SumKE', 'mul': 'ProductKE', 'chg': 'ChangeKE'}
    FUN = {'sum': 'SumOrProductKE.__eq__', 'mul': 'SumOrProductKE.__eq__', 'chg': 'ChangeKE.__eq__'}
    def pair(kind):
        def f():
            x, a = build(kind, 'x'); y, b = build(kind, 'y')
            bx, by = shot(x), shot(y)
            st, v = E.call(lambda: x == y)
            case = case_of(kind, x, y, a, b)
            E.prove('the comparison returns', st == 'return', lambda m: rp(v), case)
            if st != 'return': return
            if not isinstance(v, (bool, SBool)): raise Unsupported(f'comparison gives {rp(v)}')
            E.prove('equal exactly when of the same kind with equal contents', raw(v) == same(kind, x, y, a, b), '', case)
            E.prove('nothing is modified', unchanged(x, bx) and unchanged(y, by))
        return f
    def differs(kind):
        def f():
            x, a = build(kind, 'x'); y, b = build(kind, 'y')
            st, v = E.call(lambda: x != y)
            E.prove('the comparison returns', st == 'return', lambda m: rp(v), case_of(kind, x, y, a, b))
            if st == 'return': E.prove('unequal exactly when not equal', raw(v) == z3.Not(same(kind, x, y, a, b)), '', case_of(kind, x, y, a, b))
        return f
    def itself(kind):
        def f():
            x, a = build(kind, 'x')
            st, v = E.call(lambda: x == x)
            E.prove('an expression equals itself', st == 'return' and raw(v), lambda m: rp(v))
        return f
    def kinds(k1, k2):
        def f():
            x, a = build(k1, 'x')
            y = build(k2, 'y')[0] if k2 in CLS else {'str': 'LIN', 'none': None, 'number': 1}[k2]
            bx = shot(x)
            st, v = E.call(lambda: x == y)
            E.prove('the comparison returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            E.prove('expressions of different kinds, and anything else, are not equal', z3.Not(raw(v)) if not isinstance(raw(v), bool) else not v)
            E.prove('nothing is modified', unchanged(x, bx))
        return f
    for k in CLS:
        run(pair(k), f'{CLS[k]} == {CLS[k]}', FUN[k]); run(differs(k), f'{CLS[k]} != {CLS[k]}', FUN[k]); run(itself(k), f'{CLS[k]} == itself', FUN[k])
        for o in list(CLS) + ['str', 'none', 'number']:
            if o != k: run(kinds(k, o), f'{CLS[k]} == {CLS.get(o, o)}', FUN[k])
    P.parallel(jobs)
    # what == decides is equality of denotations (kind, counts per base, multiset of children / change kind, branches): an equivalence
    t0 = __import__('time').time()
    Cnt = z3.ArraySort(z3.StringSort(), z3.IntSort())
    D = z3.Datatype('D'); D.declare('sum', ('sc', Cnt), ('sm', M)); D.declare('mul', ('mc', Cnt), ('mm', M)); D.declare('chg', ('k', z3.IntSort()), ('l', K), ('r', K)); D = D.create()
    x, y, z_ = z3.Consts('x y z', D)
    def R(a, b): return z3.And(z3.Or(z3.And(D.is_sum(a), D.is_sum(b), D.sc(a) == D.sc(b), D.sm(a) == D.sm(b)), z3.And(D.is_mul(a), D.is_mul(b), D.mc(a) == D.mc(b), D.mm(a) == D.mm(b)), z3.And(D.is_chg(a), D.is_chg(b), D.k(a) == D.k(b), D.l(a) == D.l(b), D.r(a) == D.r(b))))
    for nm, c in (('reflexive', R(x, x)), ('symmetric', z3.Implies(R(x, y), R(y, x))), ('transitive', z3.Implies(z3.And(R(x, y), R(y, z_)), R(x, z_))), ('equality of denotations', R(x, y) == (x == y))):
        s = z3.Solver(); s.set('timeout', 10000); s.add(z3.Not(c)); r = s.check()
        P.lemma(f'lemma: the relation decided by == is {nm}' if nm != 'equality of denotations' else 'lemma: the relation decided by == is equality of denotations', 'proved' if r == z3.unsat else 'undecided', 'SumOrProductKE.__eq__, ChangeKE.__eq__', 'z3', __import__('time').time() - t0)
