'''Replacing one node of a copy: the object graph is real (copy.deepcopy runs on it), of any width; what lies beyond the parent is opaque.'''
from proofs.exprs import *
from vc import engine as _e

class Mark:
    '''Identity which survives copying'''
    def __init__(self, n): self.n = n
    def __deepcopy__(self, memo): return self

REPLAY = None
def replay(m = None):
    out = []
    for s in (['sum', ['PER', ['mul', ['LIN', 'PER']]]], ['mul', ['LIN', ['sum', ['PER', 'SE']], ['sum', ['PER', 'SE']]]], ['CP', 'LIN', 'LIN'], ['CW', 'PER', ['mul', ['PER', 'LIN']]], ['sum', [['CP', 'PER', 'PER'], ['mul', ['LIN', ['sum', ['PER', 'SE']]]]]],
              ['CP', ['CW', 'LIN', 'LIN'], 'LIN'], ['mul', ['PER', ['sum', ['LIN', ['CW', 'PER', ['sum', ['LIN', 'PER']]]]]]], ['sum', ['LIN']]):
        for i in range(6):
            for new in (['sum', ['SE']], ['mul', ['PER', 'LIN']], ['CP', 'SE', 'LIN']): out.append(dict(case = 'replace', data = [s, i, new]))
        out.append(dict(case = 'expand', data = [['sum', ['PER', ['mul', [['sum', ['LIN', 'PER', ['mul', ['LIN', 'PER']]]], ['CP', 'PER', 'LIN']]]]], ['remove_some_term', 'replace_with_singleton', 'times_base']]))
        for r in ('plus_base', 'times_base', 'replace_base', 'change_same', 'remove_some_term', 'replace_with_singleton'): out.append(dict(case = 'expand', data = [s, [r]]))
    return out

def prove(P):
    from proofs import simplify
    simplify.prove(P, {'links'}, replay)
    patch_classes(); hook_counter()
    import GPy_ABCD.KernelExpressions.commutative_base as cb
    import GPy_ABCD.KernelExpressions.base as kb
    import GPy_ABCD.KernelExpansion.grammar as g
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    P.assume_note(*TREE_NOTES, 'copy.deepcopy gives an isomorphic, separate object graph (it runs for real on the graph of the proof)',
                  'simplification keeps the links of a tree right (C06, C07: links of absorbed and extracted terms)')
    jobs = []
    def run(f, name, function, **kw):
        def h():
            E.loop_specs[:] = []; OVERRIDE.clear(); f()
        jobs.append((name, h, function, dict(max_s = 200, **kw)))
    def claim(name, c, detail = ''): return E.prove(name, c, detail, replay)

    # links over all children
    def set_root_c(self, new_root = None): self.__dict__.update(root = self if new_root is None else new_root, root_below = True); return self
    def spa(self): self.__dict__['parents_set'] = True; return self
    LINK = {'set_root': set_root_c, '_set_all_parents': spa, 'set_parent': set_parent_contract}
    def wide(kind, cats = KIND_CATS, contracts = LINK):
        own = {b: E.fresh(f'count[{b}]', z3.IntSort()) for b in BASES}
        for b in BASES: E.assume(own[b] >= 0)
        kids = Kids('children', cats, nf = False, contracts = contracts)
        return arbitrary(kind, own, SList([kids])), kids
    def branches(contracts = LINK):
        def br(n):
            i = E.choose(3, n)
            return BASES[E.choose(2, n)] if i == 2 else node(['sum', 'chg'][i], n, contracts, parent = Above('its parent'), root = Above('its root'))
        l, r = br('left'), br('right')
        return arbitrary('chg', None, None, CP_or_CW = ['CP', 'CW'][E.choose(2, 'kind')], left = l, right = r)
    def kids_of(x, kids): return [kids.rep(k) for k in kids.cats if E.feasible(kids.n[k] > 0)]
    def kept(x, before, but): return all(x.__dict__.get(a) is v for a, v in before.items() if a != but)
    def roots(kind):
        def f():
            if kind == 'chg': x = branches(); kids = None
            else: x, kids = wide(kind)
            new = E.choose(2, 'argument')
            r = x if new == 0 else Opaque('the new root')
            E.ghost['each_must'], E.ghost['each_root'] = ('root', 'root_below'), r
            before = snap(x)
            st, v = E.call(x.set_root, *([] if new == 0 else [r]))
            claim('set_root returns the node', st == 'return' and v is x, lambda m: rp(v))
            if st != 'return': return
            claim('the node gets the root', x.root is r)
            ks = kids_of(x, kids) if kids is not None else [y for y in (x.left, x.right) if not isinstance(y, str)]
            claim('and every child does, with every node below it', all(y.__dict__.get('root') is r and y.__dict__.get('root_below') is True for y in ks))
            claim('nothing else of the node changes', kept(x, before, 'root'))
        return f
    for k in ('sum', 'mul', 'chg'): run(roots(k), f'{CNAME[k]}.set_root', 'SumOrProductKE.set_root' if k != 'chg' else 'ChangeKE.set_root')
    def parents(kind):
        def f():
            if kind == 'chg': x = branches(); kids = None
            else: x, kids = wide(kind)
            E.ghost['each_must'] = ('parent', 'parents_set')
            before = snap(x)
            st, v = E.call(x._set_all_parents)
            claim('_set_all_parents returns the node', st == 'return' and v is x, lambda m: rp(v))
            if st != 'return': return
            ks = kids_of(x, kids) if kids is not None else [y for y in (x.left, x.right) if not isinstance(y, str)]
            claim('every child gets the node as parent and sets those below it', all(y.__dict__.get('parent') is x and y.__dict__.get('parents_set') is True for y in ks))
            claim('nothing else of the node changes', kept(x, before, None))
        return f
    for k in ('sum', 'mul', 'chg'): run(parents(k), f'{CNAME[k]}._set_all_parents', 'SumOrProductKE._set_all_parents' if k != 'chg' else 'ChangeKE._set_all_parents')
    def checks(kind):
        def f():
            below = lambda s: SBool(z3.Const(f'links below {s._abs.name} are right', z3.BoolSort()))
            C = {'_check_all_parents': below}
            if kind == 'chg': x = branches(C); ks = [y for y in (x.left, x.right) if not isinstance(y, str)]; kids = None
            else:
                x, kids = wide(kind, [Cat(k, s) for k in ('sum', 'mul', 'chg') for s in ('linked', 'unlinked')], C)
                for c in kids.cats: kids.rep(c).__dict__['parent'] = x if c.shape == 'linked' else Above('another parent')
            if kids is None:
                for y in ks: y.__dict__['parent'] = x if E.choose(2, 'linked') == 0 else Above('another parent')
            before = shot(x)
            st, v = E.call(x._check_all_parents)
            claim('_check_all_parents returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            if kids is None: want = z3.And(*[z3.And(z3.BoolVal(y.parent is x), raw(below(y))) for y in ks])
            else: want = z3.And(*[kids.n[c] == 0 for c in kids.cats if c.shape == 'unlinked'], raw(all_over(Img(kids, {c: below(kids.rep(c)) for c in kids.cats if c.shape == 'linked'}))))
            claim('true exactly when every child has the node as parent and the links below it are right', raw(v) == want)
            claim('nothing is modified', unchanged(x, before))
        return f
    for k in ('sum', 'mul', 'chg'): run(checks(k), f'{CNAME[k]}._check_all_parents', 'SumOrProductKE._check_all_parents' if k != 'chg' else 'ChangeKE._check_all_parents')
    def parent_of():
        x, kids = wide('sum'); before = snap(x); p = Above('a parent')
        st, v = E.call(x.set_parent, p)
        claim('set_parent sets the parent only and returns the node', st == 'return' and v is x and x.parent is p and kept(x, before, 'parent'))
    run(parent_of, 'set_parent', 'KernelExpression.set_parent')
    def is_root():
        x, kids = wide('mul'); case = E.choose(3, 'case')
        if case == 0: x.__dict__.update(root = x, parent = None)
        elif case == 1: x.__dict__.update(root = Above('the root'), parent = Above('the parent'))
        else: x.__dict__.update(root = None, parent = None)
        before = snap(x)
        st, v = E.call(x.is_root)
        claim('is_root is true exactly for its own root', st == 'return' and v is (case == 0) and kept(x, before, None))
    run(is_root, 'is_root', 'KernelExpression.is_root')

    # replacing a node: parent P (any number of siblings, or a change operator), grandparent Q, root R
    class Equals(Seg):
        '''the terms of a segment without the first one equal to a given node'''
        def __init__(self, seg, x): self.seg, self.x = seg, x
    def contains(self, x):
        if isinstance(x, str): return False
        m = x.__dict__.get('_mark')
        return E.decide(z3.Const(f'some of {seg_root(self).name} equals {m.n if m else x._abs.name}', z3.BoolSort()))
    Kids.contains = contains
    Kids.without_first = lambda self, x: [Equals(self, x)]
    def replaced(pkind, skind, place):
        def f():
            def set_root_below(self, new_root = None): set_root_c(self, new_root); self.__dict__['_below'] = self.__dict__['root']; return self
            real = {'*': 'real', 'set_root': set_root_below, 'set_parent': set_parent_contract, '__eq__': lambda s, o: SBool(z3.Const(f'{s._abs.name} equals {rp(o)[:60]}', z3.BoolSort())) if s is not o else True}
            N = node(['sum', 'chg'][E.choose(2, 'replacement')], 'replacement', real, _mark = Mark('N'), root = Above('its root'), parent = Above('its parent'))
            everything = [N]
            if place == 'root':
                S_ = node(skind, 'source', real, _mark = Mark('S'), parent = None); S_.__dict__['root'] = S_
                P_ = None; everything.append(S_)
            else:
                R = node('sum', 'root', {}, _mark = Mark('R'), parent = None); R.__dict__['root'] = R
                depth = E.choose(3, 'depth') # the parent is the root; its parent is; neither is
                if pkind == 'chg':
                    def other(n):
                        i = E.choose(3, n)
                        return BASES[E.choose(2, n)] if i == 2 else node(['sum', 'chg'][i], n, real, _mark = Mark(n))
                    P_ = arbitrary('chg', None, None, CP_or_CW = ['CP', 'CW'][E.choose(2, 'kind')], left = None, right = None, _mark = Mark('P'))
                else:
                    before_, after = Kids('siblings before', KIND_CATS, nf = False, contracts = {}), Kids('siblings after', KIND_CATS, nf = False, contracts = {})
                    own = {b: E.fresh(f'count[{b}]', z3.IntSort()) for b in BASES}
                    for b in BASES: E.assume(own[b] >= 0)
                    P_ = arbitrary(pkind, own, None, _mark = Mark('P'))
                if depth == 0: R = P_; P_.__dict__.update(root = P_, parent = None); Q = None
                elif depth == 1: Q = R; P_.__dict__.update(root = R, parent = R)
                else: Q = node('mul', 'grandparent', {}, _mark = Mark('Q'), parent = R, root = R); P_.__dict__.update(root = R, parent = Q)
                if place.startswith('stand-in'): # a base branch of a change operator, as traverse presents it
                    b = BASES[E.choose(2, 'branch')]
                    S_ = arbitrary('sum', {b: 1}, SList(), root = R, parent = P_, change_branch = place.split()[1], _mark = Mark('S'))
                else:
                    S_ = node(skind, 'source', real, _mark = Mark('S'), root = R, parent = P_)
                if pkind == 'chg':
                    side = place.split()[1]; oth = other('other branch')
                    if place.startswith('stand-in') and E.choose(2, 'equal branches') == 0: oth = b
                    P_.__dict__.update({side: b if place.startswith('stand-in') else S_, 'right' if side == 'left' else 'left': oth})
                    if not isinstance(oth, str): oth.__dict__.update(parent = P_, root = R)
                else: P_.__dict__['composite_terms'] = SList([before_, S_, after])
                everything += [x for x in (S_, P_, Q, R) if x is not None]
            shots = [(x, shot(x)) for x in dict.fromkeys([id(x) for x in everything]) and {id(x): x for x in everything}.values()]
            st, v = E.call(S_.new_tree_with_self_replaced, N)
            claim('new_tree_with_self_replaced returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            is_copy = lambda y, x: y is not x and getattr(y, '__dict__', {}).get('_mark') is x.__dict__['_mark']
            claim('the replacement and the source tree are not modified', all(unchanged(x, b) for x, b in shots))
            claim('the result is a copy of the replacement', is_copy(v, N))
            if not is_copy(v, N): return
            if place == 'root':
                claim('it is the root of its own tree', v.root is v and v.parent is None)
                claim('and of all nodes below it', v.__dict__.get('_below') is v)
                return
            p = v.parent
            claim('its parent is a copy of the parent', is_copy(p, P_))
            if not is_copy(p, P_): return
            claim('its root is the root of the copied tree', is_copy(v.root, R) and p.root is v.root and v.root.root is v.root and v.root.parent is None)
            claim('all nodes below the replacement get that root', v.__dict__.get('_below') is v.root)
            claim('the parent hangs where it did in the copied tree', p.parent is None if Q is None else (is_copy(p.parent, Q) and (Q is R) == (p.parent is v.root) and p.parent.root is v.root))
            if pkind == 'chg':
                o = 'right' if side == 'left' else 'left'; was, now = P_.__dict__[o], p.__dict__[o]
                claim('the replacement takes the place of the node', p.__dict__[side] is v and p.CP_or_CW == P_.CP_or_CW)
                claim('the other branch is kept', now == was if isinstance(was, str) else is_copy(now, was) and now.parent is p and now.root is v.root)
            else:
                claim('base terms are kept', z3.And(*[cnt(p.base_terms, b) == own[b] for b in BASES]) if p.base_terms is not P_.base_terms else False)
                ps = parts_of(p.composite_terms)
                def seg_ok(q, s): return isinstance(q, Kids) and q is not s and seg_root(q) is s
                rest = list(ps)
                def take(test):
                    for i, q in enumerate(rest):
                        if test(q): return rest.pop(i)
                ok = take(lambda q: q is v) is not None
                minus = take(lambda q: isinstance(q, Equals))
                if minus is None: ok = ok and take(lambda q: seg_ok(q, before_)) is not None and take(lambda q: seg_ok(q, after)) is not None and not rest
                else: # an equal sibling went instead: the same multiset of expressions
                    ok = ok and is_copy(minus.x, S_) and minus.seg is not before_ and seg_root(minus.seg) in (before_, after) and take(lambda q: seg_ok(q, after if seg_root(minus.seg) is before_ else before_)) is not None and take(lambda q: q is minus.x) is not None and not rest
                    ok = ok and minus.x.parent is p and minus.x.root is v.root
                claim('the terms are copies of those of the parent, the node exchanged for the replacement', ok, lambda m: rp(ps))
        return f
    seen = set()
    for s in ('sum', 'mul', 'chg'):
        run(replaced(None, s, 'root'), f'replacing the root ({CNAME[s]})', 'KernelExpression.new_tree_with_self_replaced, KernelExpression.is_root')
        for p in ('sum', 'mul'): run(replaced(p, s, 'term'), f'replacing a term ({CNAME[s]}) of a {CNAME[p]}', 'KernelExpression.new_tree_with_self_replaced, SumOrProductKE.reassign_child')
        for side in ('left', 'right'): run(replaced('chg', s, f'branch {side}'), f'replacing the {side} branch ({CNAME[s]}) of a ChangeKE', 'KernelExpression.new_tree_with_self_replaced, ChangeKE.reassign_child')
    for side in ('left', 'right'): run(replaced('chg', 'sum', f'stand-in {side}'), f'replacing the {side} base branch of a ChangeKE', 'KernelExpression.new_tree_with_self_replaced, ChangeKE.reassign_child, ChangeKE._leaf_stand_in')

    # standardising the root of a result, and deep_apply
    def standard(cat):
        def f():
            install()
            c = dict(NFC); c['set_root'] = set_root_c; c['is_root'] = lambda s: s.__dict__['root'] is s
            x = node(cat.kind, 'root', c, parent = None); x.__dict__['root'] = x; x._abs.cat = cat
            st, v = E.call(g.standardise_singleton_root, x)
            claim('standardise_singleton_root returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            if cat.shape == 'base':
                ok = getattr(v, '__dict__', {}).get('_made') is not None and kind_of(v) == 'sum' and not E.feasible(z3.Not(same(describe(v), content('sum', {cat.sub: 1}, [])))) if not isinstance(v, str) else False
                claim('a single base term becomes the sum of it', ok, lambda m: rp(v))
            elif cat.shape == 'single': claim('a single composite term becomes the root', v is x.composite_terms.parts()[0], lambda m: rp(v))
            else: claim('anything else stays as it is', v is x, lambda m: rp(v))
            if not isinstance(v, str): claim('the result is its own root and has no parent', v.__dict__.get('root') is v and v.__dict__.get('parent') is None)
            claim('it was simplified', getattr(x._abs, 'simplified', False))
        return f
    for cat in CATS: run(standard(cat), f'standardise_singleton_root({cat})', 'grammar.standardise_singleton_root')
    def deep():
        class Results(Seg):
            def __init__(self, name): self.name = name
            def comp(self, f, c, where):
                if c is not None: raise Unsupported('a filter')
                return [Mapped(self, f(self.x))]
        class Mapped(Seg):
            def __init__(self, seg, v): self.seg, self.v = seg, v
        S_ = Opaque('source'); res = Results('results of the operator'); res.x = Opaque('a result')
        calls = []
        S_.__dict__['new_tree_with_self_replaced'] = lambda n: ('tree with', n)
        def operator(*a): calls.append(a); return SList([res])
        args = [(), (Opaque('a'),), (Opaque('a'), Opaque('b'))][E.choose(3, 'arguments')]
        st, v = E.call(g.deep_apply, operator, S_, *args)
        claim('deep_apply returns', st == 'return', lambda m: rp(v))
        if st != 'return': return
        claim('the operator is applied once, to the node and the arguments', len(calls) == 1 and len(calls[0]) == 1 + len(args) and calls[0][0] is S_ and all(a is b for a, b in zip(calls[0][1:], args)))
        ps = parts_of(v)
        claim('each of its results gives the tree with the node replaced by it', len(ps) == 1 and isinstance(ps[0], Mapped) and ps[0].seg is res and ps[0].v == ('tree with', res.x))
    run(deep, 'deep_apply', 'grammar.deep_apply')
    P.parallel(jobs)
