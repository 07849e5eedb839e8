from proofs.exprs import *
from vc import engine as _e

class Without(Seg):
    '''the terms of a segment but one'''
def prove(P):
    patch_classes(); hook_counter()
    import GPy_ABCD.KernelExpansion.kernelExpressionOperations as ops
    import GPy_ABCD.KernelExpressions.commutative_base as cb
    P.assume_note(*TREE_NOTES, 'deepcopy gives an equal, separate structure')
    jobs = []
    def run(f, name, function, **kw):
        def g():
            E.loop_specs[:] = []; OVERRIDE.clear(); install()
            HOOKS['range'], HOOKS['slice'] = index_range, cut
            f()
        jobs.append((name, g, function, dict(max_s = 250, **kw)))
    # positions in a list of unboundedly many terms: [term i removed] for every i
    class Cut(Seg):
        def __init__(self, seg, i, tail): self.seg, self.i, self.tail = seg, i, tail
        def length(self): return SNum(S(self.seg.length()) - self.i - 1) if self.tail else SNum(self.i)
        def __repr__(self): return f'{self.seg!r}{"[i+1:]" if self.tail else "[:i]"}'
    class Index(Seg):
        def __init__(self, n): self.n = n
        def comp(self, f, c, where):
            if c is not None or E.ghost.get('index'): raise Unsupported('filtered or nested range')
            i = E.fresh('i', z3.IntSort()); E.fact(z3.Implies(self.n > 0, z3.And(i >= 0, i < self.n)))
            E.ghost['index'] = i
            try: return [Family(self, E.local(lambda: f(SNum(i)), self.n > 0))]
            except PathEnd: return []
            finally: E.ghost['index'] = None
    class Family(Seg):
        '''the value for every index'''
        def __init__(self, r, v): self.r, self.v = r, v
        def length(self): return SNum(self.r.n)
    def index_range(*a):
        if len(a) != 1: raise Unsupported('range with bounds')
        return SList([Index(S(a[0]))])
    def cut(l, s):
        ps = parts_of(l); i = E.ghost.get('index')
        if len(ps) != 1 or not isinstance(ps[0], Kids) or i is None or s.step is not None: raise Unsupported('slice')
        lo, hi = (None if v is None else S(v) for v in (s.start, s.stop))
        eq = lambda a, b: not E.feasible(a != b)
        if (lo is None or eq(lo, z3.IntVal(0))) and hi is not None and eq(hi, i): return SList([Cut(ps[0], i, False)])
        if hi is None and lo is not None and eq(lo, i + 1): return SList([Cut(ps[0], i, True)])
        raise Unsupported('another slice')
    real_given = globals()['given']
    def given_(kind, counts, comps):
        ps = parts_of(comps)
        cuts = [p for p in ps if isinstance(p, Cut)]
        if cuts:
            if len(cuts) == 2 and cuts[0].seg is cuts[1].seg and not cuts[0].tail and cuts[1].tail:
                w = MinusOne(cuts[0].seg)
                return real_given(kind, counts, SList([w] + [p for p in ps if not isinstance(p, Cut)]))
            raise Unsupported('a part of the terms')
        return real_given(kind, counts, comps)
    import proofs.exprs as X
    X.given = given_
    class MinusOne(Kids):
        '''the terms but one'''
        def __init__(self, seg):
            self.name, self.cats, self.n, self.reps, self.nf, self.contracts, self.copies, self.seg = f'{seg.name} minus one', seg.cats, dict(seg.n), {}, True, {}, 0, seg
            self.minus = seg
        def length(self): return SNum(S(self.seg.length()) - 1)

    # what the documentation states: lists of (multiplicity, contents)
    def c1(b, n = 1): return {b: n}
    def dsum(kind, *ds):
        '''the sum/product of descriptions'''
        return content(kind, {}, list(ds))
    def base(b): return Desc('base', what = b)
    def raw_parts(x):
        return {b: S(dict.get(x.base_terms, b, 0)) for b in BASES}, [Desc('seg', what = p) if isinstance(p, Kids) else describe(p) for p in parts_of(x.composite_terms)]
    def minus(c, b): return {x: (z3.simplify(S(n) - 1) if x == b else S(n)) for x, n in c.items()}
    def combined(kind, a, b, nested):
        out = [(z3.IntVal(1), lambda: dsum(kind, describe(a), describe(b)))]
        if nested and (isinstance(a, str) != isinstance(b, str)):
            s, p = (a, b) if isinstance(a, str) else (b, a)
            if kind_of(p) == OTHER[kind]:
                c, items = raw_parts(p)
                for bt in BASES:
                    if is_zero(c[bt]) or not E.feasible(c[bt] > 0): continue
                    out.append((c[bt], lambda bt = bt: content(OTHER[kind], minus(c, bt), items + [dsum(kind, base(s), base(bt))])))
        return out
    def results(v):
        '''[(number, contents or object)]'''
        out = []
        for p in parts_of(v):
            if isinstance(p, Img):
                for k, y in p.vals.items(): out.append((p.number(k), y))
            elif isinstance(p, Family): out.append((p.r.n, p.v))
            elif isinstance(p, Seg): raise Unsupported(f'result {rp(p)}')
            else: out.append((z3.IntVal(1), p))
        return out
    def compare(v, want, case, what):
        got = [(n, y) for n, y in results(v) if E.feasible(S(n) > 0)]
        want = [(n, f) for n, f in want if E.feasible(S(n) > 0)]
        exact = []
        left = list(range(len(got)))
        ok, why = True, ''
        for n, f in want:
            hit = None
            for j in left:
                gn, gy = got[j]
                try: fm = E.local(lambda: (lambda x: x if isinstance(x, bool) else bool(SBool(x)))(same(f(), describe(gy))), S(n) > 0) if z3.is_int_value(z3.simplify(S(n))) is False else (lambda x: x if isinstance(x, bool) else not E.feasible(z3.Not(x)))(same(f(), describe(gy)))
                except PathEnd: fm = True
                if isinstance(fm, SBool): fm = not E.feasible(z3.And(S(n) > 0, z3.Not(fm.z)))
                if fm and not E.feasible(S(n) != S(gn)): hit = j; break
            if hit is None: ok, why = False, f'missing: {show(f)}'; break
            left.remove(hit)
        if ok and left: ok, why = False, f'not documented: {rp(got[left[0]][1])}'
        E.prove(what, ok, lambda m: why + ' among ' + rp([y for _, y in got]), case)
    def show(f):
        try: return repr(f())
        except BaseException as e: return '?'
    def untouched(args, before): return all(isinstance(a, (str, type(None))) or unchanged(a, b) for a, b in zip(args, before))
    def separate(v, args, whole = ()):
        rs = [y for _, y in results(v)]
        return all(isinstance(y, str) or '_made' in y.__dict__ or any(y is w for w in whole) for y in rs)
    def op_job(op, kinds, want, kw = {}, extra = (), whole = lambda a: ()):
        fn = getattr(ops, op)
        def f():
            a = [operand(f'arg{i + 1}', k) for i, k in enumerate(kinds)]
            E.ghost['ops'] = a
            before = [None if isinstance(x, str) else shot(x) for x in a]
            args = list(a[:1]) + list(extra[:1]) + list(a[1:]) if extra and op == 'one_change' else a + list(extra)
            def case(m):
                return dict(case = 'operator', data = [op, [spec(m, x) if not (isinstance(x, (str, type(None)))) else x for x in args], kw])
            st, v = E.call(fn, *args, **kw)
            E.prove('the operator returns', st == 'return', lambda m: rp(v), case)
            if st != 'return': return
            if kw.get('with_nested_case') is False: v = SList([v])
            if not isinstance(v, (list, SList)): raise Unsupported(f'result {rp(v)}')
            compare(v, want(*args, **({'nested': kw['with_nested_case']} if kw else {})), case, 'the results are the documented expressions, once each')
            E.prove('the arguments and what they hold are not modified', untouched(a, before), '', case)
            E.prove('results are built of copies, except an argument or branch handed back whole', separate(v, a, whole(a)), '', case)
        run(f, f'{op}({", ".join([CNAME.get(k, k) for k in kinds] + [str(x) for x in extra] + [f"{x}={y}" for x, y in kw.items()])})', f'kernelExpressionOperations.{op}')
    KINDS = ['str', 'sum', 'mul', 'chg']
    for k1 in KINDS:
        for k2 in KINDS:
            for op, kind in (('add', 'sum'), ('multiply', 'mul')):
                for kw in ({}, {'with_nested_case': False}):
                    op_job(op, [k1, k2], lambda a, b, nested = True, kind = kind: combined(kind, a, b, nested), kw)
    # change operators
    def change_d(ck, a, b): return Desc('chg', what = (ck, lone(describe(a)), lone(describe(b))))
    def changes(cks, a, b):
        out = []
        for ck in cks:
            if b is None: out.append((z3.IntVal(1), lambda ck = ck: change_d(ck, a, a))); continue
            if isinstance(a, str) or isinstance(b, str): eq = isinstance(a, str) and isinstance(b, str) and a == b
            else: eq = bool(a == b)
            if eq: out.append((z3.IntVal(1), lambda ck = ck: change_d(ck, a, a)))
            else: out += [(z3.IntVal(1), lambda ck = ck: change_d(ck, a, b)), (z3.IntVal(1), lambda ck = ck: change_d(ck, b, a))]
        return out
    for k1 in KINDS:
        for k2 in KINDS + [None]:
            ks = [k1] + ([k2] if k2 else [])
            op_job('both_changes', ks, lambda a, b = None: changes(('CP', 'CW'), a, b))
            for ck in ('CP', 'CW'): op_job('one_change', ks, lambda a, ck, b = None: changes((ck,), a, b), extra = (ck,))
    # swapping, removing, replacing
    def br(S_, B): return describe(B)
    def swaps(S_, B):
        k = kind_of(S_)
        one = z3.IntVal(1)
        if k == 'chg':
            l, r = S_.left, S_.right
            return ([(one, lambda: change_d(S_.CP_or_CW, B, r))] if isinstance(l, str) and l != B else []) + ([(one, lambda: change_d(S_.CP_or_CW, l, B))] if isinstance(r, str) and r != B else [])
        c, items = raw_parts(S_)
        return [(z3.If(c[bt] > 0, one, z3.IntVal(0)), lambda bt = bt: content(k, add_counts(minus(c, bt), {B: 1}), items)) for bt in BASES if bt != B and not is_zero(c[bt])]
    def removed(S_):
        k = kind_of(S_)
        one = z3.IntVal(1)
        if k == 'chg': return [(one, lambda y = y: describe(y) if not isinstance(y, str) else content('sum', {y: 1}, [])) for y in (S_.left, S_.right)]
        c, items = raw_parts(S_)
        n = z3.simplify(tot(c) + number(items))
        if (n.as_long() <= 1) if z3.is_int_value(n) else not E.decide(n > 1): return []
        out = [(z3.If(c[bt] > 0, one, z3.IntVal(0)), lambda bt = bt: content(k, minus(c, bt), items)) for bt in BASES if not is_zero(c[bt])]
        for i in items:
            if i.kind == 'seg': out.append((S(i.what.length()), lambda i = i: content(k, c, [Desc('seg', what = MinusOne(i.what)) if j is i else j for j in items])))
            else: out.append((one, lambda i = i: content(k, c, [j for j in items if j is not i])))
        return out
    def higher(S_):
        k = kind_of(S_)
        one = z3.IntVal(1)
        lin = lambda n: content('mul', {'LIN': n}, [])
        if k == 'chg':
            return [(one, lambda n = n: Desc('chg', what = (S_.CP_or_CW, lin(n), lone(describe(S_.right))))) for n in (2, 3) if isinstance(S_.left, str)] + [(one, lambda n = n: Desc('chg', what = (S_.CP_or_CW, lone(describe(S_.left)), lin(n)))) for n in (2, 3) if isinstance(S_.right, str)]
        c, items = raw_parts(S_)
        d = {**c, 'SE': z3.IntVal(0)}
        if k == 'sum': return [(one, lambda n = n: content('sum', d, items + [lin(n)])) for n in (2, 3)]
        return [(one, lambda n = n: content('mul', add_counts(d, {'LIN': n}), items)) for n in (2, 3)] + [(one, lambda: content('mul', add_counts(d, {'PER': z3.If(c['PER'] > 0, one, z3.IntVal(2))}), items))]
    for k in ('sum', 'mul', 'chg'):
        for B in BASES: op_job('swap_base', [k], swaps, extra = (B,))
        op_job('remove_a_term', [k], removed, whole = lambda a: [y for y in (a[0].__dict__.get('left'), a[0].__dict__.get('right')) if y is not None])
        op_job('higher_curves', [k], higher)
        for k2 in ('sum', 'mul', 'chg'): op_job('replace_node', [k, k2], lambda a, b: [(z3.IntVal(1), lambda: describe(b))], whole = lambda a: a)

    # the constructors' own contract: contents as given (copied), then simplified, then linked
    def construct(kind):
        def f():
            OVERRIDE.clear()
            calls = []
            def simp(self):
                if calls: return self
                calls.append(({b: cnt(self.base_terms, b) for b in BASES}, parts_of(self.composite_terms), self.base_terms, self.composite_terms))
                seg = Kids('terms after simplification', inner_cats(kind), contracts = NFC)
                calls.append(seg)
                self.__dict__['composite_terms'] = SList([seg])
                return self
            OVERRIDE[(cb.SumOrProductKE, 'simplify')] = simp
            c = {b: E.fresh(f'count[{b}]', z3.IntSort()) for b in BASES}
            for b in BASES: E.assume(c[b] >= 0)
            kids = Kids('given terms', KIND_CATS, nf = False, contracts = {})
            terms = SList([kids])
            form = E.choose(2, 'given as')
            bts = counter(c) if form == 0 else SList([Rep(b, SNum(c[b])) for b in BASES])
            before = dict(dict.items(bts)) if form == 0 else parts_of(bts)
            rt, pr = Above('the given root'), Above('the given parent')
            defaults = E.choose(2, 'links given')
            E.ghost['each_must'] = ('parent', 'root', 'root_below')
            x = object.__new__(classes()[kind])
            st, v = E.call(x.__init__, bts, terms, **({} if defaults else dict(root = rt, parent = pr)))
            E.prove('the constructor returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            E.prove('it simplifies its contents', len(calls) >= 1)
            if not calls: return
            cs, ps, bt, ct = calls[0]
            E.prove('the base terms are those given', z3.And(*[cs[b] == c[b] for b in BASES]))
            E.prove('the composite terms are copies of those given', len(ps) == 1 and isinstance(ps[0], Kids) and ps[0] is not kids and getattr(ps[0], 'copy_of', None) is kids and ct is not terms, lambda m: rp(ps))
            E.prove('the base terms are a separate counter', bt is not bts and isinstance(bt, collections.Counter))
            now = dict(dict.items(bts)) if form == 0 else parts_of(bts)
            E.prove('the arguments are not modified', len(terms.parts()) == 1 and terms.parts()[0] is kids and (list(now) == list(before) and (form == 1 or all(now[k] is before[k] for k in now))))
            seg = calls[1]
            E.prove('every term is linked to the new node', all(seg.rep(k).__dict__.get('parent') is x for k in seg.cats) or not E.feasible(S(seg.length()) > 0))
            E.prove('root and parent are those given', x.root is (None if defaults else rt) and x.parent is (None if defaults else pr))
            E.prove('symbol and name are those of the kind', x.symbol == {'sum': '+', 'mul': '*'}[kind] and x.GPy_name == kind and dict(x.parameters) == {})
        return f
    run(construct('sum'), 'SumKE()', 'SumKE.__init__, SumOrProductKE.__init__, KernelExpression.__init__'); run(construct('mul'), 'ProductKE()', 'ProductKE.__init__, SumOrProductKE.__init__, KernelExpression.__init__')
    def construct_change():
        OVERRIDE.clear()
        from GPy_ABCD.KernelExpressions.all import ChangeKE
        calls = []
        def simp(self):
            if not calls: calls.append((self.left, self.right))
            return self
        OVERRIDE[(ChangeKE, 'simplify')] = simp
        CON = {'set_parent': set_parent_contract, 'set_root': set_root_contract}
        def br(n):
            i = E.choose(3, n)
            return BASES[E.choose(2, n)] if i == 2 else node(['sum', 'chg'][i], n, CON, parent = None, root = None)
        l, r = br('left'), br('right'); ck = ['CP', 'CW'][E.choose(2, 'kind')]
        before = [None if isinstance(y, str) else snap(y) for y in (l, r)]
        x = object.__new__(ChangeKE)
        rt, pr = Above('the given root'), Above('the given parent')
        st, v = E.call(x.__init__, ck, l, r, root = rt, parent = pr)
        E.prove('the constructor returns', st == 'return', lambda m: rp(v))
        if st != 'return': return
        E.prove('it simplifies its contents', len(calls) == 1)
        if not calls: return
        def copy_ok(y, z_): return y == z_ if isinstance(z_, str) else getattr(y, '__dict__', {}).get('_abs') is not None and y is not z_ and y._abs.__dict__.get('copy_of') is z_._abs
        E.prove('kind and branches are those given, copied', x.CP_or_CW == ck and copy_ok(calls[0][0], l) and copy_ok(calls[0][1], r))
        E.prove('the branches are linked to the new node', all(isinstance(y, str) or (y.__dict__.get('parent') is x and y.__dict__.get('root') is rt and y.__dict__.get('root_below') is True) for y in (x.left, x.right)))
        E.prove('root and parent are those given', x.root is rt and x.parent is pr)
        E.prove('the arguments are not modified', all(isinstance(y, str) or snap(y) == b for y, b in zip((l, r), before)))
    run(construct_change, 'ChangeKE()', 'ChangeKE.__init__, KernelExpression.__init__')
    P.parallel(jobs)
