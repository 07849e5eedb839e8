'''Production rules apply the documented operators at a node; expand collects them over all nodes, once each.'''
from proofs.exprs import *
from proofs import exprs as X
import inspect, importlib
from vc import engine as _e

def prove(P):
    patch_classes(); hook_counter()
    from proofs import c22
    c22.prove(P, {'unique', 'flatten'})
    E.loop_specs[:] = []; _e.vc.comp_specs[:] = []
    from proofs import c13
    c13.prove(P, 'traverse')
    E.loop_specs[:] = []; _e.vc.comp_specs[:] = []
    import GPy_ABCD.KernelExpansion.grammar as g
    import GPy_ABCD.KernelExpansion.kernelExpressionOperations as ops
    import GPy_ABCD.config as config
    P.assume_note(*TREE_NOTES, 'the operators do what C08 proves, replacing a node what C10 proves',
                  'results for one node are equal exactly when the trees they stand in are (one place of one tree is replaced)')
    jobs = []
    OPS = ['add', 'multiply', 'swap_base', 'one_change', 'both_changes', 'replace_node', 'remove_a_term', 'higher_curves']
    SIG = {o: inspect.signature(getattr(ops, o)) for o in OPS}
    FLAG = '__INCLUDE_SE_KERNEL'

    class OpRes(Seg):
        '''the results of an operator call'''
        def __init__(self, call): self.call, self.x = call, Opaque('a result of an operator')
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('a filter on the results of an operator')
            return [Trees(self, f(self.x))]
        def __repr__(self): return f'<results of {self.call}>'
    class Trees(Seg):
        def __init__(self, res, v): self.res, self.v = res, v
    def norm_arg(a, S_):
        if a is S_: return 'S'
        if isinstance(a, (str, type(None), bool)): return a
        if '_made' in getattr(a, '__dict__', {}):
            d = describe(a)
            if d.kind == 'sum' and not d.items: return ('sum',) + tuple((b, z3.simplify(S(n)).as_long()) for b, n in sorted(d.counts.items()) if not is_zero(n))
        raise Unsupported(f'argument {rp(a)}')
    def calls_of(op, args, S_):
        a = {k: norm_arg(v, S_) for k, v in args.items()}
        if op in ('add', 'multiply'):
            if a['with_nested_case'] is not True: return [(op + ' without nested cases', tuple(sorted(map(repr, (a['k1'], a['k2'])))))]
            return [(op, tuple(sorted(map(repr, (a['k1'], a['k2'])))))]
        def ch(ck): return ('change', ck, 'S' if a['S'] == 'S' else a['S'], None if a['S2'] in (None, 'S') else a['S2'])
        if op == 'both_changes': return [ch('CP'), ch('CW')]
        if op == 'one_change': return [ch(a['CP_or_CW'])]
        if op == 'replace_node': return [(op, a['S'], ('sum', (a['S2'], 1)) if isinstance(a['S2'], str) else a['S2'])]
        return [(op,) + tuple(a.values())]
    def documented(bases):
        noC = [b for b in bases if b != 'C']
        pair = lambda o, b: (o, tuple(sorted(map(repr, ('S', b)))))
        chg = lambda ck, b: ('change', ck, 'S', b)
        shifted = lambda b: ('sum',) + tuple((x, 1) for x in sorted({b, 'C'}) if not (x == 'C' and b == 'LIN' and LIN_OFFSET()))
        return dict(plus_base = [pair('add', b) for b in bases], times_base = [pair('multiply', b) for b in noC], replace_base = [('swap_base', 'S', b) for b in bases],
            change_new_base = [chg(c, b) for b in noC for c in ('CP', 'CW')], change_same = [chg(c, None) for c in ('CP', 'CW')], change_window_constant = [chg('CW', 'C')],
            change_window_linear = [chg('CW', 'LIN')], change_point_linear = [chg('CP', 'LIN')], times_shifted_base = [('multiply', tuple(sorted(map(repr, ('S', shifted(b)))))) for b in noC],
            replace_with_singleton = [('replace_node', 'S', ('sum', (b, 1))) for b in bases], remove_some_term = [('remove_a_term', 'S')], try_higher_curves = [('higher_curves', 'S')])
    SOME = ['PER', 'LIN', ['sum', ['PER', 'C']], ['mul', ['LIN', 'PER']], ['CP', 'PER', 'LIN'], ['CW', 'C', ['sum', ['PER', 'SE']]], ['sum', ['PER', ['mul', ['LIN', 'PER']]]], ['mul', ['LIN', ['sum', ['PER', 'LIN']]]], ['sum', [['mul', ['LIN', ['sum', ['PER', 'C']]]], ['mul', ['PER', ['sum', ['PER', 'C']]]]]], ['CP', 'LIN', 'LIN']]
    def replay(*rules): return lambda m: [dict(case = 'expand', data = [s, list(rules)]) for s in SOME]

    def rule(name, include):
        def f():
            E.loop_specs[:] = []; OVERRIDE.clear()
            had = config.__dict__[FLAG]
            mod = g
            if bool(had) != include:
                config.__dict__[FLAG] = include
                try: mod = importlib.reload(g)
                finally: config.__dict__[FLAG] = had
            install()
            S_ = Opaque('node')
            S_.__dict__['new_tree_with_self_replaced'] = lambda n: ('tree', S_, n)
            made = []
            def stub(o):
                def op(*a, **k):
                    b = SIG[o].bind(*a, **k); b.apply_defaults()
                    return SList([OpRes(calls_of(o, b.arguments, S_))])
                return op
            saved = {o: mod.__dict__.get(o) for o in OPS}
            for o in OPS: mod.__dict__[o] = stub(o)
            bases = ['WN', 'C', 'LIN', 'PER'] + (['SE'] if include else [])
            case = replay(name) if bool(had) == include else None
            try:
                E.prove('the rules range over the base kernels, squared-exponential only if the configuration includes it', set(mod.base_kerns_for_prod) == set(bases), repr(mod.base_kerns_for_prod), case)
                fn = mod.non_grouped_prs[name]
                st, v = E.call(fn, S_)
                E.prove('the rule returns', st == 'return', lambda m: rp(v), case)
                if st != 'return': return
                got = []
                for l in parts_of(v):
                    if isinstance(l, Seg) or not isinstance(l, list): raise Unsupported(f'result {rp(l)}')
                    for p in parts_of(l):
                        if not isinstance(p, Trees): raise Unsupported(f'result {rp(p)}')
                        E.prove('every result of the operator replaces the node in a copy of its tree', p.v == ('tree', S_, p.res.x), rp(p.v), case)
                        got += p.res.call
                want = documented(bases)[name]
                E.prove('exactly the documented operators are applied', sorted(map(repr, got)) == sorted(map(repr, want)), f'{got} instead of {want}', case)
            finally: mod.__dict__.update(saved)
        jobs.append((f'{name} ({"with" if include else "without"} SE)', f, f'grammar.{name}, grammar.deep_apply', dict(max_s = 60)))
    for name in documented(BASES):
        for include in (True, False): rule(name, include)

    # collecting: terms over the unknown lists
    class Term(Seg):
        '''A list of unknown length denoted by a term: what it is made from'''
        def __init__(self, t, elem): self.t, self.el = t, elem
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('a filter')
            if E.ghost.get('in', 0) > 3: raise Unsupported('nesting')
            v = f(self.el)
            return [Term(('map', self.t, v if isinstance(v, (list, SList)) is False else tuple(parts_of(v))), v)]
        def flat(self):
            if not isinstance(self.el, list): raise Unsupported('flattening elements which are not lists')
            ps = parts_of(self.el)
            if len(ps) != 1 or not isinstance(ps[0], Term): raise Unsupported('flattening')
            return SList([Term(('flat', self.t), ps[0].el)])
        def loop_spec(self, *a): return None
        def __repr__(self): return f'<{self.t}>'
    def uniq_c(xs):
        ps = parts_of(xs)
        if len(ps) != 1 or not isinstance(ps[0], Term): raise Unsupported('unique of another list')
        return SList([Term(('unique', ps[0].t), ps[0].el)])
    def tm(v): ps = parts_of(v); return ps[0].t if len(ps) == 1 and isinstance(ps[0], Term) else None
    ALLR = list(documented(BASES))
    all_cases = lambda m: [dict(case = 'expand', data = [s, r]) for s in SOME for r in (['plus_base', 'times_base'], ['remove_some_term', 'replace_base'], ['change_same', 'replace_with_singleton'], ['plus_base', 'replace_base'], ['try_higher_curves', 'plus_base'])]
    def node_expansion():
        OVERRIDE.clear(); E.loop_specs[:] = []
        g.unique = uniq_c
        k = Opaque('node'); inner = SList([Term('results of deep_apply', Opaque('a tree'))])
        out = SList([Term('lists per base kernel', inner)])
        def pr(x):
            E.prove('rules are applied to the node', x is k, '', all_cases)
            return out
        rules = Term('rules', pr)
        st, v = E.call(g.expand_node, k, SList([rules]))
        E.prove('expand_node returns', st == 'return', lambda m: rp(v), all_cases)
        if st != 'return': return
        t = tm(v)
        base = ('flat', ('flat', ('map', 'rules', tuple(parts_of(out)))))
        E.prove('the results of every rule, flattened', strip(t, 'map' if False else None) in (('unique', base), base), repr(t), all_cases)
    def strip(t, _): return t
    jobs.append(('expand_node', node_expansion, 'grammar.expand_node', dict(max_s = 60)))
    def roots_():
        OVERRIDE.clear(); E.loop_specs[:] = []
        x = Opaque('a result'); x.__dict__['root'] = Above('its root')
        std = Opaque('standardised root')
        g.standardise_singleton_root = lambda r: std if r is x.__dict__['root'] else Opaque('something else')
        st, v = E.call(g.roots, SList([Term('results', x)]))
        E.prove('roots returns', st == 'return', lambda m: rp(v), all_cases)
        if st != 'return': return
        E.prove('the standardised root of every result', tm(v) == ('map', 'results', std), repr(tm(v)), all_cases)
    jobs.append(('roots', roots_, 'grammar.roots', dict(max_s = 60)))
    def whole():
        OVERRIDE.clear(); E.loop_specs[:] = []
        g.unique = uniq_c
        n = Opaque('a node'); rules = Opaque('rules'); tree = Opaque('a result tree'); root = Opaque('a root')
        k = Opaque('expression'); k.__dict__['traverse'] = lambda: SList([Term('nodes', n)])
        res = SList([Term('expand_node', tree)])
        def en(x, r):
            E.prove('every node is expanded by the given rules', x is n and r is rules, '', all_cases)
            return res
        def rt(l):
            t = tm(l)
            if t is None: raise Unsupported('roots of another list')
            return SList([Term(('roots', t), root)])
        g.expand_node, g.roots = en, rt
        st, v = E.call(g.expand, k, rules)
        E.prove('expand returns', st == 'return', lambda m: rp(v), all_cases)
        if st != 'return': return
        want = ('unique', ('roots', ('flat', ('map', 'nodes', tuple(parts_of(res))))))
        E.prove('the roots of the expansions of every node, without repetitions', tm(v) == want, repr(tm(v)), all_cases)
    jobs.append(('expand', whole, 'grammar.expand', dict(max_s = 60)))
    P.parallel(jobs)
